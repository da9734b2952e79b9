/* Periodic NSE transform: C01 (options and inputs kept), C06 (sizes, counters, leaks), C08 (failing allocations). Options and delivered roots arbitrary. */
#define FNFT_ENABLE_SHORT_NAMES
#include "vf.h"
#include "fnft_nsep.h"
#include "fnft__nse_discretization.h"
#include "fnft__errwarn.h"
#ifndef DISL
#define DISL nse_discretization_2SPLIT2A
#endif
#ifndef SIGA
#define SIGA 0
#endif
#ifndef SIGS
#define SIGS 1
#endif
#ifndef MMAX
#define MMAX 1
#endif
#ifndef NS
#define NS 2
#endif
#ifndef NROOT
#define NROOT 2
#endif
#ifndef ALLOCF
#define ALLOCF 0
#endif
#ifndef CHK
#define CHK 2
#endif
#ifndef KMAX
#define KMAX 3
#endif
static int quiet(const char *f, ...) { (void)f; return 0; }
static int rootcalls, symroots; static nse_discretization_t dis; static const nse_discretization_t dislist[] = {DISL};
INT z_poly_roots_modified_(INT *N, double complex const *coeffs, double complex *roots, INT *info) {
  (void)coeffs; int n = *N; *info = 0; rootcalls++;
  int set = symroots ? 0 : vf_choice("roots", 2);
  for (int i = 0; i < n; i++) { COMPLEX lam = symroots && i < NROOT ? vf_mk(vf_double("re", -2, 2), vf_double("im", -2, 2)) : set == 0 ? vf_mk(0.25 * i - 0.5, 0.375 + 0.25 * i) : vf_mk(0.25, i % 2 ? 0.5 : 0); nse_discretization_lambda_to_z(1, 1.0, &lam, dis); roots[i] = lam; }
#ifdef INFO
  if (vf_choice("info", 2)) *info = 1;
#endif
  return 0;
}
void h_nsep(void) {
  fnft_errwarn_setprintf(quiet);
  COMPLEX *q = vf_buf(NS * sizeof(COMPLEX)), q0[NS]; REAL T[2] = {-1, NS - 1}, T0[2] = {-1, NS - 1};
  const int sig = SIGA + vf_choice("sig", SIGS); dis = dislist[vf_choice("dis", sizeof dislist / sizeof *dislist)];
  for (int i = 0; i < NS; i++) q[i] = q0[i] = sig == 0 ? vf_mk(0.75 - 0.125 * i, 0.25 * i) : sig == 1 ? (i % 2 ? 0.25 : -0.25) : sig == 2 ? 0.5 : 0;
  fnft_nsep_opts_t d0 = fnft_nsep_default_opts(), o = d0, keep; fnft_nsep_opts_t *op = &o;
  const int mix = vf_choice("mix", 4), kappa = mix & 2 ? 1 : -1, 
#ifdef SYM
      want = 1 + vf_choice("want", 2);
#else
      want = vf_choice("want", 4);
#endif

  o.discretization = dis; o.localization = (fnft_nsep_loc_t)LOC;
#ifdef FILT
  o.filtering = (fnft_nsep_filt_t)FILT;
#else
  o.filtering = (fnft_nsep_filt_t)vf_choice("filt", 3);
#endif
  if (o.filtering == fnft_nsep_filt_MANUAL || o.filtering == fnft_nsep_filt_NONE) { o.bounding_box[0] = -1; o.bounding_box[1] = 1.5; o.bounding_box[2] = -1; o.bounding_box[3] = 1; }
  o.normalization_flag = mix & 1;
#ifdef SYM
  o.max_evals = 0; o.points_per_spine = vf_choice("pps", 3); o.Dsub = 0;
#else
  o.max_evals = LOC == fnft_nsep_loc_NEWTON && vf_choice("evals", 2) ? 0 : 2;
  o.points_per_spine = LOC == fnft_nsep_loc_GRIDSEARCH ? 2 : LOC == fnft_nsep_loc_NEWTON ? vf_choice("pps", 3) : 1 + vf_choice("pps", 3);
  o.Dsub = LOC == fnft_nsep_loc_NEWTON || LOC == fnft_nsep_loc_GRIDSEARCH || LOC == fnft_nsep_loc_MIXED ? 0 : vf_choice("Dsub", 2);
#endif
  if (o.max_evals) o.tol = mix & 1 ? -1 : 0.5;
  
#ifdef SYM
  symroots = 1;
#endif

  REAL shift = mix == 0 || mix == 3 ? 0 : 0.5;
  UINT K0 = vf_choice("K", KMAX + 1), M0 = vf_choice("M", MMAX + 1), K = K0, M = M0, P = LOC == fnft_nsep_loc_NEWTON ? o.points_per_spine : 1;
#ifdef NULLOPTS
  op = NULL;
#endif
  keep = o;
  COMPLEX *ms = want & 1 ? vf_buf(K0 * P * sizeof(COMPLEX)) : NULL, *as = want & 2 ? vf_buf(M0 * sizeof(COMPLEX)) : NULL;
  if (LOC == fnft_nsep_loc_NEWTON) { if (ms) for (UINT i = 0; i < K0 * P; i++) ms[i] = vf_mk(0.375 * i, 0.5 - 0.25 * i); if (as) for (UINT i = 0; i < M0; i++) as[i] = vf_mk(0.125 * i, 0.25 + 0.5 * i); }
  long mark = vf_heap_mark();
  if (ALLOCF) vf_allocfail(1);
  INT rc = fnft_nsep(NS, q, T, shift, &K, ms, &M, as, NULL, kappa, op);
  if (ALLOCF) { int f = vf_alloc_failed(); vf_allocfail(0); if (f) vf_assert(rc != SUCCESS, "a failing allocation is reported"); }
  if (CHK & 2) vf_leak(mark, "transform leaks");
  if (CHK & 1) {
    vf_assert(vf_same(&o, &keep, sizeof o), "options unchanged");
    fnft_nsep_opts_t d1 = fnft_nsep_default_opts(); vf_assert(vf_same(&d0, &d1, sizeof d0), "default options unchanged");
    vf_assert(vf_same(q, q0, sizeof q0), "signal unchanged"); vf_assert(vf_same(T, T0, sizeof T), "interval unchanged");
  }
  if (rc == SUCCESS && (CHK & 2)) {
    if (ms) { vf_assert(K <= K0 * P, "main spectrum counter within capacity"); vf_init(ms, K * sizeof(COMPLEX), "reported main spectrum points written"); } else vf_assert(K == 0 || K == K0, "main spectrum counter meaningful");
    if (as) { vf_assert(M <= M0, "aux spectrum counter within capacity"); vf_init(as, M * sizeof(COMPLEX), "reported aux spectrum points written"); } else vf_assert(M == 0 || M == M0, "aux spectrum counter meaningful");
    if (K && ms) vf_reach("main"); if (M && as) vf_reach("aux");
  }
  if (ALLOCF) vf_reach(vf_alloc_failed() ? "failed" : "nofail"); else vf_reach("nsep");
}
