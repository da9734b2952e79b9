/* C28: NSE discrete spectrum through fnft_nsev. */
#define FNFT_ENABLE_SHORT_NAMES
#include "vf.h"
#include "fnft_nsev.h"
#include "fnft__errwarn.h"
#include "fnft__nse_discretization.h"
#include "fnft__nse_scatter.h"
#ifndef DIS
#define DIS nse_discretization_BO
#endif
#ifndef BASE
#define BASE DIS
#endif
#ifndef LEN
#define LEN 3
#endif
#ifndef NB
#define NB 2
#endif
#ifndef NORM
#define NORM 0
#endif
#ifndef NMAX
#define NMAX 3
#endif
#define EPS 0.5
static int quiet(const char *f, ...) { (void)f; return 0; }
static const double gr[5] = {0.25, 0.0, 0.875, -0.25, 0.0}, gi[5] = {0.75, 1.25, 1.125, 0.75, 2.125}; /* with |q| = 1: roots of lambda^2 + 1 are exact */
static const double kr[5] = {0.75, 0.0, 1.125, 0.75, 0.0}, ki[5] = {0.25, 0.75, 0.875, -0.25, 1.875};
#ifndef G0
#define G0 0
#endif
#ifndef G1
#define G1 1
#endif
static const int gsel[2] = {G0, G1};
static REAL T[2];
static fnft_nsev_opts_t base_opts(void) { fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.discretization = DIS; o.bound_state_localization = nsev_bsloc_NEWTON; o.bound_state_filtering = nsev_bsfilt_NONE; o.normalization_flag = NORM; o.richardson_extrapolation_flag = 0; o.niter = 0; return o; }
static INT disc(COMPLEX *q, UINT *K, COMPLEX *bs, COMPLEX *nr, fnft_nsev_opts_t *o) { return fnft_nsev(LEN, q, T, 0, NULL, NULL, K, bs, nr, 1, o); }
static INT prep(COMPLEX *q, COMPLEX **qp, COMPLEX **rp, UINT *De) { UINT Ds = LEN, fl[2]; *qp = *rp = NULL; INT rc = nse_discretization_preprocess_signal(LEN, q, EPS, 1, &Ds, qp, rp, fl, DIS); *De = LEN * nse_discretization_upsampling_factor(DIS); return rc; }
/* guesses are kept as they are (no refinement): norming constants, residues, order */
void h_types(void) {
  fnft_errwarn_setprintf(quiet);
#ifdef T0SYM
  const double s = 1, t0 = vf_double("t0", NORM ? -0.0625 : -1, NORM ? 0 : 1);
#else
  const double s = vf_double("s", 0.875, 1), t0 = -0.5;
#endif
  COMPLEX q[LEN], bs[NB], bs2[NB], bs3[NB], both[2 * NB], nc[NB], re[NB], *qp, *rp; UINT De;
  for (int i = 0; i < LEN; i++) q[i] = i % 3 == 0 ? s : i % 3 == 1 ? vf_mk(0, -s) : -s; /* modulus s */
  T[0] = t0; T[1] = t0 + EPS * (LEN - 1);
  for (int i = 0; i < NB; i++) { bs[i] = bs2[i] = bs3[i] = vf_mk(s * gr[gsel[i]], s * gi[gsel[i]]); vf_csqrt_hint(s * kr[gsel[i]], s * ki[gsel[i]]); vf_csqrt_hint(s * ki[gsel[i]], -s * kr[gsel[i]]); vf_csqrt_hint(-s * ki[gsel[i]], s * kr[gsel[i]]); }
  UINT K = NB; fnft_nsev_opts_t o = base_opts(); o.discspec_type = nsev_dstype_BOTH; INT rc = disc(q, &K, bs, both, &o); vf_assert(rc == SUCCESS, "the transform succeeds (both)"); vf_assert(K == NB, "all guesses are returned");
  K = NB; o.discspec_type = nsev_dstype_NORMING_CONSTANTS; rc = disc(q, &K, bs2, nc, &o); vf_assert(rc == SUCCESS && K == NB, "the transform succeeds (norming constants)");
  K = NB; o.discspec_type = nsev_dstype_RESIDUES; rc = disc(q, &K, bs3, re, &o); vf_assert(rc == SUCCESS && K == NB, "the transform succeeds (residues)");
  rc = prep(q, &qp, &rp, &De); vf_assert(rc == SUCCESS, "preprocessing");
  for (int i = 0; i < NB; i++) {
    COMPLEX lam = vf_mk(s * gr[gsel[i]], s * gi[gsel[i]]), a, ap, b; rc = nse_scatter_bound_states(De, qp, rp, T, 1, &lam, &a, &ap, &b, NULL, BASE, 0); vf_assert(rc == SUCCESS, "scattering");
    vf_cclose(bs[i], lam, 1e-9, "guesses are kept in the order given"); vf_cclose(bs2[i], lam, 1e-9, "guesses are kept in the order given"); vf_cclose(bs3[i], lam, 1e-9, "guesses are kept in the order given");
    vf_cclose(both[i], b, 1e-7, "norming constant of this bound state, first half"); vf_cclose(nc[i], b, 1e-7, "norming constant of this bound state");
    vf_cclose(both[NB + i] * ap, b, 1e-7, "residue of this bound state, second half"); vf_cclose(re[i] * ap, b, 1e-7, "residue of this bound state"); }
  free(qp); free(rp); vf_reach("types");
}
/* Newton's method: number of steps, tolerance, bounding box, order */
void h_newton(void) {
  fnft_errwarn_setprintf(quiet);
  COMPLEX q[LEN], bs[NB], ref[NB], *qp, *rp; UINT De; REAL box[4];
  const int niter = vf_choice("niter", NMAX + 1); 
  const double tol = vf_double("tol", 0, 1), x1 = vf_double("box", -1, 2);
  const int manual = vf_choice("manual", 2);
  for (int i = 0; i < LEN; i++) q[i] = vf_mk(1.5 - 0.25 * i, 0.25 * i); T[0] = -0.5; T[1] = T[0] + EPS * (LEN - 1);
  fnft_nsev_opts_t o = base_opts(); o.niter = niter; o.tol = tol; box[0] = -4; box[1] = x1 + 1; box[2] = x1; box[3] = 4; if (manual) { o.bound_state_filtering = nsev_bsfilt_MANUAL; for (int i = 0; i < 4; i++) o.bounding_box[i] = box[i]; } else { box[0] = box[2] = -INFINITY; box[1] = box[3] = INFINITY; }
  for (int i = 0; i < NB; i++) bs[i] = ref[i] = i == 0 ? vf_mk(0.25, 0.625) : vf_mk(-0.25, 1.125);
  UINT K = NB; INT rc = disc(q, &K, bs, NULL, &o); vf_assert(rc == SUCCESS, "the transform succeeds");
  rc = prep(q, &qp, &rp, &De); vf_assert(rc == SUCCESS, "preprocessing");
  UINT n = 0;
  for (int i = 0; i < NB; i++) {
    for (int it = 0; it < niter; it++) { COMPLEX a, ap; INT W = 0; rc = nse_scatter_bound_states(De, qp, rp, T, 1, ref + i, &a, &ap, NULL, NORM ? &W : NULL, BASE, 1); vf_assert(rc == SUCCESS, "scattering"); const COMPLEX d = a / ap; ref[i] -= d;
      if (creal(ref[i]) < box[0] || creal(ref[i]) > box[1] || cimag(ref[i]) < box[2] || cimag(ref[i]) > box[3]) break;
      if (CABS(d) <= tol || CABS(a) <= tol) break; }
    if (creal(ref[i]) < box[0] || creal(ref[i]) > box[1] || cimag(ref[i]) < box[2] || cimag(ref[i]) > box[3]) continue;
    ref[n++] = ref[i]; }
  if (manual && n == 2 && CABS(ref[0] - ref[1]) < 1e-6) { vf_reach("merged"); return; }
  vf_assert(K == n, "exactly the refined guesses inside the box are returned");
  for (UINT i = 0; i < n; i++) vf_cclose(bs[i], ref[i], 1e-8, "refined guess after the configured number of steps");
  free(qp); free(rp); vf_reach("newton");
}
/* one step from a guess that depends on the signal */
void h_step(void) {
  fnft_errwarn_setprintf(quiet);
  const double s = vf_double("s", 0.875, 1); COMPLEX q[LEN], bs[1], *qp, *rp, a, ap; UINT De, K = 1;
  for (int i = 0; i < LEN; i++) q[i] = i % 3 == 0 ? s : i % 3 == 1 ? vf_mk(0, -s) : -s; T[0] = -0.5; T[1] = T[0] + EPS * (LEN - 1);
  vf_csqrt_hint(s * kr[G0], s * ki[G0]); vf_csqrt_hint(s * ki[G0], -s * kr[G0]); vf_csqrt_hint(-s * ki[G0], s * kr[G0]);
  const COMPLEX lam = vf_mk(s * gr[G0], s * gi[G0]); bs[0] = lam; fnft_nsev_opts_t o = base_opts(); o.niter = 1; o.tol = 0;
  INT rc = disc(q, &K, bs, NULL, &o); vf_assert(rc == SUCCESS && K == 1, "the transform succeeds");
  rc = prep(q, &qp, &rp, &De); vf_assert(rc == SUCCESS, "preprocessing"); rc = nse_scatter_bound_states(De, qp, rp, T, 1, &lam, &a, &ap, NULL, NULL, BASE, 1); vf_assert(rc == SUCCESS, "scattering");
  vf_cclose((bs[0] - lam) * ap, -a, 1e-8, "one Newton step"); free(qp); free(rp); vf_reach("step");
}

/* Richardson extrapolation of the discrete spectrum: bound states and a' are extrapolated, norming constants kept, each bound state treated on its own */
#ifndef ORD
#define ORD 2
#endif
#define RL 4
#ifndef NIT
#define NIT 0
#endif
static double rtol;
static INT disc2(UINT D, COMPLEX *q, REAL *Tx, UINT *K, COMPLEX *bs, COMPLEX *nr, int rich, fnft_nsev_dstype_t ty) { fnft_nsev_opts_t o = base_opts(); o.richardson_extrapolation_flag = rich; o.discspec_type = ty; o.niter = NIT; o.tol = rtol; return fnft_nsev(D, q, Tx, 0, NULL, NULL, K, bs, nr, 1, &o); }
void h_richds(void) {
  fnft_errwarn_setprintf(quiet);
  #if NIT
  const double t0 = -0.5; rtol = vf_double("tol", 0, 1);
#else
  const double t0 = vf_double("t0", NORM ? -0.0625 : -1, NORM ? 0 : 1);
#endif
  const int same = vf_choice("same", 2), ty = vf_choice("type", 3);
  COMPLEX q[RL], qs[RL], f[2], fn[4], sb[2], sn[4], x[2], xn[4]; REAL Tf[2], Ts[2];
  for (int i = 0; i < RL; i++) q[i] = 1.5;
  Tf[0] = t0; Tf[1] = t0 + EPS * (RL - 1); UINT Ds = RL / 2, fl[2]; { COMPLEX *a = NULL, *b = NULL; INT rc = nse_discretization_preprocess_signal(RL, q, EPS, 1, &Ds, &a, &b, fl, nse_discretization_BO); vf_assert(rc == SUCCESS, "preprocessing"); free(a); free(b); }
  vf_assert(Ds >= 2 && fl[1] % (Ds - 1) == 0, "kept samples"); const UINT st = fl[1] / (Ds - 1); for (UINT i = 0; i < Ds; i++) qs[i] = q[i * st]; Ts[0] = t0; Ts[1] = t0 + EPS * fl[1];
  for (int i = 0; i < 2; i++) f[i] = x[i] = vf_mk(0.125, same || i == 0 ? 0.75 : 1.375);
  UINT K = 2; INT rc = disc2(RL, q, Tf, &K, f, fn, 0, nsev_dstype_BOTH); vf_assert(rc == SUCCESS && K == 2, "the transform succeeds");
  for (int i = 0; i < 2; i++) sb[i] = f[i]; rc = disc2(Ds, qs, Ts, &K, sb, sn, 0, nsev_dstype_BOTH); vf_assert(rc == SUCCESS && K == 2, "the transform succeeds (subsampled)");
  rc = disc2(RL, q, Tf, &K, x, xn, 1, ty == 0 ? nsev_dstype_NORMING_CONSTANTS : ty == 1 ? nsev_dstype_RESIDUES : nsev_dstype_BOTH); vf_assert(rc == SUCCESS && K == 2, "the transform succeeds (extrapolation)");
  double w = 1; for (int i = 0; i < ORD; i++) w *= st;
  for (int i = 0; i < 2; i++) {
    int m = -1; double best = EPS; for (int j = 0; j < 2; j++) { const double e = CABS(f[i] - sb[j]) / CABS(f[i]); if (e < best) { best = e; m = j; } }
    if (m < 0) vf_reach("unmatched"); else vf_reach("matched");
    vf_cclose((w - 1) * x[i], m < 0 ? (w - 1) * f[i] : w * f[i] - sb[m], 1e-8, "extrapolated bound state");
    if (ty != 1) vf_cclose(xn[i], fn[i], 1e-7, "norming constant");
    if (ty != 0) { const COMPLEX b = fn[i], res = xn[ty == 1 ? i : 2 + i];
      if (m < 0) vf_cclose(res, fn[2 + i], 1e-7, "residue"); else { const COMPLEX apf = fn[i] / fn[2 + i], aps = sn[m] / sn[2 + m]; vf_cclose(res * (w * apf - aps), (w - 1) * b, 1e-7, "residue with extrapolated derivative"); } } }
}
