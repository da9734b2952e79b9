/* NSE forward transform: C01 (options and inputs kept), C03 (sizes, leaks), C08 (failing allocations). Signal, grid-independent options and delivered roots arbitrary. */
#define FNFT_ENABLE_SHORT_NAMES
#include "vf.h"
#include "fnft__misc.h"
#include "fnft_nsev.h"
#include "fnft__nse_discretization.h"
#include "fnft__errwarn.h"
#ifndef DISL
#define DISL nse_discretization_2SPLIT2A
#endif
#ifndef SIGS
#define SIGS 3
#endif
#ifndef NS
#define NS 2
#endif
#ifndef NROOT
#define NROOT 2
#endif
#ifndef ALLOCF
#define ALLOCF 0
#endif
#ifndef CHK
#define CHK 3
#endif
#ifndef KMAX
#define KMAX 3
#endif
static int quiet(const char *f, ...) { (void)f; return 0; }
static int rootcalls, symroots; static nse_discretization_t dis; static const nse_discretization_t dislist[] = {DISL};
INT z_poly_roots_modified_(INT *N, double complex const *coeffs, double complex *roots, INT *info) {
  (void)coeffs; int n = *N; *info = 0; rootcalls++;
  double eps = 2.0 / (NS - 1); int set = symroots ? 0 : vf_choice("roots", 3);
  for (int i = 0; i < n; i++) { COMPLEX lam = symroots && i < NROOT ? vf_mk(vf_double("re", -0.7, 0.7), vf_double("im", -2, 4)) : set == 0 ? vf_mk(0.25 * i - 0.5, 0.375 + 0.25 * i) : set == 1 ? vf_mk(0.3, -0.5) : vf_mk(0.25, i % 2 ? 0.5 : -0.25); nse_discretization_lambda_to_z(1, eps, &lam, dis); roots[i] = lam; }
#ifdef INFO
  if (vf_choice("info", 2)) *info = 1;
#endif
  return 0;
}
static int optchoice(const char *n, int k) { return vf_choice(n, k); }
void h_nsev(void) {
  fnft_errwarn_setprintf(quiet);
  COMPLEX *q = vf_buf(NS * sizeof(COMPLEX)), q0[NS]; REAL T[2] = {-1, 1}, T0[2], XI[2] = {-1.5, 2}, XI0[2];
#ifdef SYMXI
  XI[0] = vf_double("xi0", -9, 1); XI[1] = vf_double("xi1", 1.125, 9);
#endif
  const UINT M = 2;
  const int sig = optchoice("sig", SIGS); dis = dislist[optchoice("dis", sizeof dislist / sizeof *dislist)];
  for (int i = 0; i < NS; i++) q[i] = q0[i] = sig == 0 ? vf_mk(0.75 - 0.125 * i, 0.25 * i) : sig == 1 ? 0 : (NS - 1) / 2.0;
  fnft_nsev_opts_t d0 = fnft_nsev_default_opts(), o = d0, keep; fnft_nsev_opts_t *op = &o;
  o.discretization = dis;
  int kappa = 1, cont = 0, disc = 0, nc = 0; UINT K = 0, K0 = 0;
#ifdef FILT
  const int filt = FILT;
#elif defined LOC
  const int filt = optchoice("filt", 4);
#endif
#ifdef CONT
  cont = 1; o.contspec_type = (fnft_nsev_cstype_t)optchoice("cs", 3);
#else
  cont = 0;
#endif
#ifdef LOC
  disc = 1; o.bound_state_localization = (fnft_nsev_bsloc_t)LOC; o.bound_state_filtering = (fnft_nsev_bsfilt_t)filt;
  K0 = optchoice("K", KMAX + 1); nc = optchoice("nc", 2); if (nc) o.discspec_type = (fnft_nsev_dstype_t)optchoice("ds", 3); else o.discspec_type = nsev_dstype_RESIDUES;
  o.niter = 1; o.Dsub = optchoice("Dsub", 2) ? 2 : 0; o.tol = 0.5;
  if (filt == 3) { o.bounding_box[0] = -1; o.bounding_box[1] = 1; o.bounding_box[2] = 0; o.bounding_box[3] = 2; }
#else
  kappa = optchoice("kappa", 2) ? 1 : -1;
#endif
  
#ifdef NORM
  o.normalization_flag = NORM;
#else
  o.normalization_flag = optchoice("norm", 2);
#endif
  o.richardson_extrapolation_flag = optchoice("rich", 2);
#ifdef LOC
  if (LOC) o.niter = optchoice("niter", 2); symroots = !nc && !o.richardson_extrapolation_flag && (LOC == 0 || o.niter == 0);
#endif
#ifdef NULLOPTS
  op = NULL;
#endif
  keep = o; T0[0] = T[0]; T0[1] = T[1]; XI0[0] = XI[0]; XI0[1] = XI[1];
  int clen = o.contspec_type == nsev_cstype_BOTH ? 3 : o.contspec_type == nsev_cstype_AB ? 2 : 1, dlen = o.discspec_type == nsev_dstype_BOTH ? 2 : 1;
  if (!op) { clen = dlen = 1; }
  COMPLEX *cs = cont ? vf_buf(clen * M * sizeof(COMPLEX)) : NULL, *bs = disc ? vf_buf(K0 * sizeof(COMPLEX)) : NULL, *nr = disc && nc ? vf_buf(dlen * K0 * sizeof(COMPLEX)) : NULL;
  if (disc) for (UINT i = 0; i < K0; i++) bs[i] = vf_mk(0.125 * i, 0.5 + 0.25 * i);
  K = K0; UINT *Kp = &K; if (!disc && optchoice("Kp", 2)) Kp = NULL;
  REAL *xi = XI; if (disc ? (K0 + nc) % 2 : !cont && optchoice("XI", 2)) xi = NULL;
  long mark = vf_heap_mark();
  if (ALLOCF) vf_allocfail(1);
  INT rc = fnft_nsev(NS, q, T, M, cs, xi, Kp, bs, nr, kappa, op);
  if (ALLOCF) { int f = vf_alloc_failed(); vf_allocfail(0); if (f) vf_assert(rc != SUCCESS, "a failing allocation is reported"); }
  if (CHK & 2) vf_leak(mark, "transform leaks");
  if (CHK & 1) {
    vf_assert(vf_same(&o, &keep, sizeof o), "options unchanged");
    fnft_nsev_opts_t d1 = fnft_nsev_default_opts(); vf_assert(vf_same(&d0, &d1, sizeof d0), "default options unchanged");
    vf_assert(vf_same(q, q0, sizeof q0), "signal unchanged"); vf_assert(vf_same(T, T0, sizeof T), "interval unchanged"); vf_assert(vf_same(XI, XI0, sizeof XI), "grid unchanged");
  }
  if (rc == SUCCESS && (CHK & 2)) {
    if (Kp) vf_assert(K <= K0 || !disc, "K does not grow"); if (Kp && !disc) vf_assert(K == 0, "no bound states reported");
    if (disc) { vf_init(bs, K * sizeof(COMPLEX), "reported bound states written"); if (nr) vf_init(nr, dlen * K * sizeof(COMPLEX), "reported norming constants or residues written"); }
    if (cs) vf_init(cs, clen * M * sizeof(COMPLEX), "continuous spectrum written");
  }
  if (ALLOCF) vf_reach(vf_alloc_failed() ? "failed" : "nofail"); else vf_reach("nsev");
}
