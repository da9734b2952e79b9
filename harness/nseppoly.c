/* C30: polynomials handed to the root finder by the periodic NSE transform, and what happens to the roots it delivers. */
#define FNFT_ENABLE_SHORT_NAMES
#include "vf.h"
#include "fnft_nsep.h"
#include "fnft__nse_fscatter.h"
#include "fnft__nse_scatter.h"
#include "fnft__nse_discretization.h"
#include "fnft__errwarn.h"
#ifndef NS
#define NS 2
#endif
#ifndef SUB
#define SUB NS
#endif
#ifndef MODAL
#define MODAL 1
#endif
#ifndef DIS
#define DIS (MODAL ? nse_discretization_2SPLIT2_MODAL : nse_discretization_2SPLIT2A)
#endif
#ifndef SYMS
#define SYMS 1
#endif
#ifndef NORM
#define NORM 0
#endif
#ifndef PHASE
#define PHASE 0
#endif
#ifndef UP
#define UP 1
#endif
#ifndef MAXDEG
#define MAXDEG 12
#endif
#ifndef TOL
#define TOL 1e-9
#endif
static int quiet(const char *f, ...) { (void)f; return 0; }
static COMPLEX P[5][MAXDEG + 1], Z[MAXDEG]; static int NP[5], ncall;
INT z_poly_roots_modified_(INT *N, double complex const *c, double complex *roots, INT *info) {
  vf_assert(ncall < 5 && *N <= MAXDEG, "number of calls and degree"); NP[ncall] = *N; for (int i = 0; i <= *N; i++) P[ncall][i] = c[i];
  for (int i = 0; i < *N; i++) roots[i] = Z[i]; ncall++; *info = 0; return 0;
}
static void sample(int i, double eps, int kap, COMPLEX *q) {
  const int sym = SYMS >> i & 1;
  double w = sym ? vf_double("w", 0.125, 1.25) : 0.5 - 0.125 * i, th = sym ? vf_double("th", -3.0, 3.0) : 1.5 - i;
  double c = kap == 1 ? COS(w) : cosh(w), s = kap == 1 ? SIN(w) : sinh(w), t = s / c; COMPLEX e = vf_mk(COS(th), SIN(th));
  *q = MODAL ? e * t / eps : e * w / eps;
  vf_hint(t, 0); vf_hint(1 / c, 0); vf_hint(c, 0); vf_hint(w, 0); vf_hint(th, 0); COMPLEX R = kap == 1 ? -CONJ(e) * t : CONJ(e) * t; vf_hint(CREAL(R), CIMAG(R));
  vf_hint(w / eps, 0); vf_csqrt_hint(kap == 1 ? w : 0, kap == 1 ? 0 : w); if (MODAL) vf_csqrt_hint(1 / c, 0);
}
void h_poly(void) {
  fnft_errwarn_setprintf(quiet); const int kap = vf_choice("kappa", 2) ? 1 : -1; REAL T[2] = {-1, 1}; const REAL eps = 2.0 / NS, es = 2.0 / SUB; const int skip = NS / SUB;
  COMPLEX q[NS], qs[SUB], rs[SUB], main[5 * MAXDEG], aux[MAXDEG]; const REAL lsh = PHASE / (-4.0);
  for (int i = 0; i < NS; i++) {
    if (i % skip == 0) { sample(i / skip, es, kap, q + i); qs[i / skip] = q[i]; rs[i / skip] = kap == 1 ? -CONJ(q[i]) : CONJ(q[i]); } else q[i] = vf_mk(0.125 * i, 0.0625);
    if (PHASE) q[i] *= CEXP(-2 * I * lsh * (T[0] + eps * i)); /* the signal the user passes carries the phase rotation */
  }
  fnft_nsep_opts_t o = fnft_nsep_default_opts(); o.localization = fnft_nsep_loc_SUBSAMPLE_AND_REFINE; o.filtering = fnft_nsep_filt_NONE; o.max_evals = 0; o.discretization = DIS; o.normalization_flag = NORM; o.Dsub = SUB;
  o.points_per_spine = 1 + vf_choice("pps", 3); o.floquet_range[0] = vf_double("f0", -1, -0.25); o.floquet_range[1] = vf_double("f1", 0.25, 1);
  const UINT np = o.points_per_spine;
  const REAL d1 = nse_discretization_degree(DIS); REAL lam[MAXDEG]; UINT deg = 0; const int n0 = SUB * UP * (int)d1; 
  for (int i = 0; i < n0; i++) { lam[i] = i == 0 ? vf_double("lam", -1, 1) : 0.5 - 0.0625 * i; REAL a = 2 * lam[i] * es / d1 / UP; Z[i] = i == 0 ? vf_mk(COS(a), SIN(a)) : CEXP(I * a); vf_hint(0, a); vf_hint(a, 0); }
  COMPLEX *pq = qs, *pr = rs;
  if (UP > 1) { UINT ds = SUB, fl[2]; pq = pr = NULL; vf_assert(nse_discretization_preprocess_signal(NS, q, eps, kap, &ds, &pq, &pr, fl, DIS) == SUCCESS && ds == SUB, "reference signal"); }
  COMPLEX *tm = vf_buf(nse_fscatter_numel(SUB * UP, DIS) * sizeof(COMPLEX)); vf_assert(nse_fscatter(SUB * UP, pq, pr, es, tm, &deg, NULL, DIS) == SUCCESS, "reference"); vf_assert((int)deg == n0, "degree");
  const int domain = vf_choice("main", 2), doaux = vf_choice("aux", 2); vf_assume(domain || doaux);
  UINT K = 5 * MAXDEG, M = MAXDEG;
  vf_assert(fnft_nsep(NS, q, T, PHASE, &K, domain ? main : NULL, &M, doaux ? aux : NULL, NULL, kap, &o) == SUCCESS, "success");
  vf_assert(ncall == (domain ? (int)np : 0) + doaux, "one polynomial per requested point on the spines and one for the auxiliary spectrum");
  int c = 0;
  if (domain) {
    vf_assert(K == np * deg, "number of main spectrum points");
    for (; c < (int)np; c++) {
      const REAL f0 = o.floquet_range[0], f1 = o.floquet_range[1], v = np == 1 ? f0 : f0 + c * (f1 - f0) / (np - 1); COMPLEX ref[MAXDEG + 1];
      for (UINT i = 0; i <= deg; i++) ref[i] = tm[i] + tm[3 * (deg + 1) + i] - (i == deg / 2 ? 2 * v : 0);
      vf_assert(NP[c] == (int)deg, "degree of the discriminant polynomial"); REAL sc = 1;
      if (NORM) { sc = CREAL(P[c][0]) / CREAL(ref[0]); vf_assert(sc > 0, "common factor"); }
      for (UINT i = 0; i <= deg; i++) vf_cclose(P[c][i], sc * ref[i], TOL, "coefficient of trace of the monodromy matrix minus the prescribed value");
      for (UINT i = 0; i < deg; i++) vf_cclose(main[c * deg + i], lam[i] + lsh, TOL, "main spectrum point is the frequency of the delivered root");
    }
    vf_reach("main");
  }
  if (doaux) {
    vf_assert(M == deg && NP[c] == (int)deg, "number of auxiliary spectrum points"); REAL sc = 1; COMPLEX *b = tm + deg + 1;
    if (NORM) { UINT m = 0; for (UINT i = 0; i <= deg; i++) if (CABS(b[i]) > CABS(b[m])) m = i; COMPLEX s = P[c][m] / b[m]; sc = CREAL(s); vf_close(CIMAG(s), 0, TOL, "common factor"); vf_assert(sc > 0, "common factor"); }
    for (UINT i = 0; i <= deg; i++) vf_cclose(P[c][i], sc * b[i], TOL, "coefficient of the upper right entry of the monodromy matrix");
    for (UINT i = 0; i < deg; i++) vf_cclose(aux[i], lam[i] + lsh, TOL, "auxiliary spectrum point is the frequency of the delivered root");
    vf_reach("aux");
  }
}
/* guesses for Newton's method refer to the signal of the user: without iterations they come back unchanged; near a root of f the increment is f/f' */
void h_newton(void) {
  fnft_errwarn_setprintf(quiet); REAL T[2] = {-1, 1}; COMPLEX q[NS], main[6], aux[2], m0[6], a0[2]; fnft_nsep_opts_t o = fnft_nsep_default_opts();
  for (int i = 0; i < NS; i++) q[i] = vf_mk(0.5 - 0.25 * i, 0.25); for (int i = 0; i < 6; i++) main[i] = m0[i] = vf_cplx("m", -1, 1); for (int i = 0; i < 2; i++) aux[i] = a0[i] = vf_cplx("a", -1, 1);
  o.localization = fnft_nsep_loc_NEWTON; o.filtering = fnft_nsep_filt_NONE; o.max_evals = 0; o.points_per_spine = 1 + vf_choice("pps", 3); o.discretization = nse_discretization_BO; UINT K = 2, M = 2;
  vf_assert(fnft_nsep(NS, q, T, vf_double("phase", -3, 3), &K, main, &M, aux, NULL, vf_choice("kappa", 2) ? 1 : -1, &o) == SUCCESS, "success");
  vf_assert(K == 2 * o.points_per_spine && M == 2, "counts");
  for (UINT i = 0; i < K; i++) vf_cclose(main[i], m0[i], 1e-12, "unrefined guess of the main spectrum"); for (UINT i = K; i < 6; i++) vf_cclose(main[i], m0[i], 0, "rest untouched");
  for (UINT i = 0; i < M; i++) vf_cclose(aux[i], a0[i], 1e-12, "unrefined guess of the auxiliary spectrum");
  vf_reach("newton");
}
/* roots are filtered by the box (given for the signal of the user), kept in order and cut off at the capacity */
void h_filt(void) {
  fnft_errwarn_setprintf(quiet); REAL T[2] = {-1, 1}; COMPLEX q[2] = {vf_mk(0.5, 0.25), vf_mk(-0.25, 0.5)}, main[8], aux[4], want[8]; const REAL lsh = PHASE / (-4.0);
  for (int i = 0; i < 2; i++) if (PHASE) q[i] *= CEXP(-2 * I * lsh * (T[0] + i));
  fnft_nsep_opts_t o = fnft_nsep_default_opts(); o.localization = fnft_nsep_loc_SUBSAMPLE_AND_REFINE; o.filtering = fnft_nsep_filt_MANUAL; o.max_evals = 0; o.discretization = nse_discretization_2SPLIT2_MODAL; o.normalization_flag = 0; o.Dsub = 2;
  o.points_per_spine = 1 + vf_choice("pps", 2);
  o.bounding_box[0] = vf_double("b0", -1.25, 0); o.bounding_box[1] = vf_double("b1", 0.0625, 1.25); o.bounding_box[2] = -0.5; o.bounding_box[3] = 0.5;
  REAL lam[2];
  for (int i = 0; i < 2; i++) { lam[i] = vf_double("lam", -1, 1); REAL a = 2 * lam[i]; Z[i] = vf_mk(COS(a), SIN(a)); vf_hint(0, a); vf_hint(a, 0); }
  UINT K = vf_choice("K", 4), K0 = K, M = vf_choice("M", 3), M0 = M, n = 0;
  for (int i = 0; i < 8; i++) main[i] = vf_mk(100 + i, 3); for (int i = 0; i < 4; i++) aux[i] = vf_mk(200 + i, 3);
  for (int i = 0; i < 2; i++) { REAL l = lam[i] + lsh; vf_assume(fabs(l - o.bounding_box[0]) > 1e-3 && fabs(l - o.bounding_box[1]) > 1e-3); if (l > o.bounding_box[0] && l < o.bounding_box[1]) want[n++] = l; }
  for (UINT i = 0; i < n; i++) want[n + i] = want[i];
  vf_assert(fnft_nsep(2, q, T, PHASE, &K, main, &M, aux, NULL, 1, &o) == SUCCESS, "success");
  UINT N = n * o.points_per_spine, e = N > K0 ? K0 : N, ea = n > M0 ? M0 : n;
  vf_assert(K == e, "number of main spectrum points"); for (UINT i = 0; i < e; i++) vf_cclose(main[i], want[i], TOL, "main spectrum point");
  for (UINT i = K0; i < 8; i++) vf_assert(CREAL(main[i]) == 100 + (int)i, "beyond the capacity");
  vf_assert(M == ea, "number of auxiliary spectrum points"); for (UINT i = 0; i < ea; i++) vf_cclose(aux[i], want[i], TOL, "auxiliary spectrum point");
  for (UINT i = M0; i < 4; i++) vf_assert(CREAL(aux[i]) == 200 + (int)i, "beyond the capacity");
  vf_reach("filt");
}
