/* Inverse NSE transform: C01 (options and inputs kept), C07 (sizes, leaks, initialised output), C08 (failing allocations). */
#define FNFT_ENABLE_SHORT_NAMES
#include "vf.h"
#include "fnft_nsev_inverse.h"
#include "fnft__errwarn.h"
#ifndef NS
#define NS 2
#endif
#ifndef ALLOCF
#define ALLOCF 0
#endif
#ifndef CHK
#define CHK 2
#endif
#ifndef KMAX
#define KMAX 2
#endif
#ifdef SYM
#define SY(x) vf_double(x, 0.125, 0.75)
#else
#define SY(x) 0.25
#endif
static int quiet(const char *f, ...) { (void)f; return 0; }
INT z_poly_roots_modified_(INT *N, double complex const *coeffs, double complex *roots, INT *info) { (void)coeffs; for (int i = 0; i < *N; i++) roots[i] = 0.5; *info = 0; return 0; }
void h_nsevinv(void) {
  fnft_errwarn_setprintf(quiet);
  REAL T[2] = {-1, 1}, T0[2] = {-1, 1}, XI[2] = {-1, 1}, XI0[2];
  fnft_nsev_inverse_opts_t d0 = fnft_nsev_inverse_default_opts(), o = d0, keep, *op = &o;
  const int cont = vf_choice("cont", 2); const UINT K = vf_choice("K", KMAX + 1); UINT M = 0;
  const int kappa = K || vf_choice("kappa", 2) ? 1 : -1;
  o.discretization = vf_choice("dis", 2) ? nse_discretization_2SPLIT2A : nse_discretization_2SPLIT2_MODAL;
  int ov = 0;
  if (cont) { M = NS + 2 * vf_choice("M", 3); o.contspec_type = (fnft_nsev_inverse_cstype_t)vf_choice("cs", 4); }
  o.contspec_inversion_method = (fnft_nsev_inverse_csmethod_t)vf_choice("method", 5);
  if (cont && (o.contspec_type == 1 || o.contspec_type == 2)) ov = vf_choice("ov", 3);
  o.oversampling_factor = ov == 0 ? 8 : ov == 1 ? 1 : 0;
  if (cont && o.contspec_inversion_method == fnft_nsev_inverse_csmethod_TFMATRIX_CONTAINS_AB_FROM_ITER) o.max_iter = vf_choice("iter", 3);
#ifdef NOCONT
  vf_assume(!cont);
#endif

  if (K) o.discspec_type = (fnft_nsev_inverse_dstype_t)vf_choice("ds", 2);
#ifdef NULLOPTS
  op = NULL;
#endif
  COMPLEX *cs = cont ? vf_buf(M * sizeof(COMPLEX)) : NULL, *bs = K ? vf_buf(K * sizeof(COMPLEX)) : NULL, *nr = K ? vf_buf(K * sizeof(COMPLEX)) : NULL, *q = vf_buf(NS * sizeof(COMPLEX)), bs0[KMAX + 1], nr0[KMAX + 1];
  for (UINT i = 0; i < M; i++) cs[i] = vf_mk(0.125 - 0.03125 * i, 0.0625 * i) * SY("c");
  for (UINT i = 0; i < K; i++) { bs[i] = bs0[i] = vf_mk(0.25 * i, 0.5 + 0.25 * i); nr[i] = nr0[i] = vf_mk(1 - 0.5 * i, SY("n")); }
  if (!cont && o.contspec_inversion_method == fnft_nsev_inverse_csmethod_USE_SEED_POTENTIAL_INSTEAD) for (int i = 0; i < NS; i++) q[i] = vf_mk(0.25, 0.125 * i);
  if (cont) fnft_nsev_inverse_XI(NS, T, M, XI, o.discretization);
  XI0[0] = XI[0]; XI0[1] = XI[1]; keep = o;
  REAL *xi = XI; if (!cont || (o.contspec_type == fnft_nsev_inverse_cstype_B_OF_TAU && K == 0)) xi = NULL;
  long mark = vf_heap_mark();
  if (ALLOCF) vf_allocfail(1);
  INT rc = fnft_nsev_inverse(M, cs, xi, K, bs, nr, NS, q, T, kappa, op);
  if (ALLOCF) { int f = vf_alloc_failed(); vf_allocfail(0); if (f) vf_assert(rc != SUCCESS, "a failing allocation is reported"); }
  if (CHK & 2) vf_leak(mark, "transform leaks");
  if (CHK & 1) {
    vf_assert(vf_same(&o, &keep, sizeof o), "options unchanged");
    fnft_nsev_inverse_opts_t d1 = fnft_nsev_inverse_default_opts(); vf_assert(vf_same(&d0, &d1, sizeof d0), "default options unchanged");
    vf_assert(vf_same(T, T0, sizeof T), "interval unchanged"); vf_assert(vf_same(XI, XI0, sizeof XI), "grid unchanged");
    if (K) { vf_assert(vf_same(bs, bs0, K * sizeof *bs), "bound states unchanged"); vf_assert(vf_same(nr, nr0, K * sizeof *nr), "norming constants unchanged"); }
  }
  if (rc == SUCCESS) { if (CHK & 2) vf_init(q, NS * sizeof(COMPLEX), "signal written"); vf_reach("inv"); if (cont && K) vf_reach("both"); }
  if (ALLOCF) vf_reach(vf_alloc_failed() ? "failed" : "nofail");
}
