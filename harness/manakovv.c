/* Manakov forward transform: C01 (options and inputs kept), C05 (sizes, leaks), C08 (failing allocations). */
#define FNFT_ENABLE_SHORT_NAMES
#include "vf.h"
#include "fnft__misc.h"
#include "fnft_manakovv.h"
#include "fnft__errwarn.h"
#ifndef DISL
#define DISL fnft_manakov_discretization_2SPLIT3A
#endif
#ifndef NS
#define NS 2
#endif
#ifndef SIGS
#define SIGS 3
#endif
#ifndef ALLOCF
#define ALLOCF 0
#endif
#ifndef CHK
#define CHK 3
#endif
#ifndef SLOW
#define SLOW 0
#endif
#ifndef NROOT
#define NROOT 2
#endif
static int quiet(const char *f, ...) { (void)f; return 0; }
static int symroots, dis; static const fnft_manakov_discretization_t dislist[] = {DISL};
INT z_poly_roots_modified_(INT *N, double complex const *coeffs, double complex *roots, INT *info) {
  (void)coeffs; int n = *N; *info = 0;
  double eps = 2.0 / (NS - 1); int set = symroots ? 0 : vf_choice("roots", 3);
  for (int i = 0; i < n; i++) { COMPLEX lam = symroots && i < NROOT ? vf_mk(vf_double("re", -0.7, 0.7), vf_double("im", -2, 4)) : set == 0 ? vf_mk(0.25 * i - 0.5, 0.375 + 0.25 * i) : set == 1 ? vf_mk(0.3, -0.5) : vf_mk(0.25, i % 2 ? 0.5 : -0.25); manakov_discretization_lambda_to_z(1, eps, &lam, dislist[dis]); roots[i] = lam; }
#ifdef INFO
  if (vf_choice("info", 2)) *info = 1;
#endif
  return 0;
}
void h_manakovv(void) {
  fnft_errwarn_setprintf(quiet);
  COMPLEX *q1 = vf_buf(NS * sizeof(COMPLEX)), *q2 = vf_buf(NS * sizeof(COMPLEX)), q10[NS], q20[NS]; REAL T[2] = {-1, 1}, T0[2], XI[2] = {-1.5, 2}, XI0[2]; const UINT M = 2;
#ifdef SYMXI
  XI[0] = vf_double("xi0", -9, 1); XI[1] = vf_double("xi1", 1.125, 9);
#endif
  const int sig = vf_choice("sig", SIGS); dis = vf_choice("dis", sizeof dislist / sizeof *dislist);
  for (int i = 0; i < NS; i++) { q1[i] = q10[i] = sig == 0 ? vf_mk(0.75 - 0.125 * i, 0.25 * i) : sig == 1 ? 0 : (NS - 1) / 2.0; q2[i] = q20[i] = sig == 0 ? vf_mk(0.25 * i, 0.5) : 0; }
  fnft_manakovv_opts_t d0 = fnft_manakovv_default_opts(), o = d0, keep; fnft_manakovv_opts_t *op = &o; o.discretization = dislist[dis];
  int cont = 0, disc = 0; UINT K = 0, K0 = 0;
#ifdef CONT
  cont = 1; o.contspec_type = (fnft_manakovv_cstype_t)vf_choice("cs", 3);
#endif
  int kappa = 1;
#ifndef DISC
  kappa = vf_choice("kappa", 2) ? 1 : -1;
#endif
#ifdef DISC
#ifdef WIDE
  kappa = vf_choice("kappa", 2) ? 1 : -1;
#endif
  disc = 1; K0 = vf_choice("K", 3); if (K0 == 2) K0 = 3; o.Dsub = vf_choice("Dsub", 2) ? NS : 2;
#ifdef WIDE
  if (vf_choice("Dsub0", 2)) o.Dsub = 0;
#endif
  o.bound_state_filtering = (fnft_manakovv_bsfilt_t)vf_choice("filt", 3); o.bound_state_localization = (fnft_manakovv_bsloc_t)(SLOW ? 1 : vf_choice("loc", 2));
  o.discspec_type = fnft_manakovv_dstype_RESIDUES; symroots = NROOT > 0 && K0 > 0;
#endif
#ifdef NORM
  o.normalization_flag = NORM;
#else
  o.normalization_flag = vf_choice("norm", 2);
#endif
  o.richardson_extrapolation_flag = vf_choice("rich", 2);
#ifdef NULLOPTS
  op = NULL;
#endif
  keep = o; T0[0] = T[0]; T0[1] = T[1]; XI0[0] = XI[0]; XI0[1] = XI[1];
  int clen = !op ? 2 : o.contspec_type == fnft_manakovv_cstype_BOTH ? 5 : o.contspec_type == fnft_manakovv_cstype_AB ? 3 : 2;
  COMPLEX *cs = cont ? vf_buf(clen * M * sizeof(COMPLEX)) : NULL, *bs = disc ? vf_buf(K0 * sizeof(COMPLEX)) : NULL;
  K = K0; UINT *Kp = &K; if (!disc && vf_choice("Kp", 2)) Kp = NULL;
  REAL *xi = XI; if (!cont && vf_choice("XI", 2)) xi = NULL;
  long mark = vf_heap_mark();
  if (ALLOCF) vf_allocfail(1);
  INT rc = fnft_manakovv(NS, q1, q2, T, M, cs, xi, Kp, bs, NULL, kappa, op);
  if (ALLOCF) { int f = vf_alloc_failed(); vf_allocfail(0); if (f) vf_assert(rc != SUCCESS, "a failing allocation is reported"); }
  if (CHK & 2) vf_leak(mark, "transform leaks");
  if (CHK & 1) {
    vf_assert(vf_same(&o, &keep, sizeof o), "options unchanged");
    fnft_manakovv_opts_t d1 = fnft_manakovv_default_opts(); vf_assert(vf_same(&d0, &d1, sizeof d0), "default options unchanged");
    vf_assert(vf_same(q1, q10, sizeof q10) && vf_same(q2, q20, sizeof q20), "signal unchanged"); vf_assert(vf_same(T, T0, sizeof T), "interval unchanged"); vf_assert(vf_same(XI, XI0, sizeof XI), "grid unchanged");
  }
  if (rc == SUCCESS && (CHK & 2)) {
    if (Kp && disc) vf_assert(K <= K0, "K does not grow"); if (Kp && (!disc || kappa < 0)) vf_assert(K == 0, "no bound states reported");
    if (disc && kappa > 0) vf_init(bs, K * sizeof(COMPLEX), "reported bound states written");
    if (cs) vf_init(cs, clen * M * sizeof(COMPLEX), "continuous spectrum written");
  }
  if (ALLOCF) vf_reach(vf_alloc_failed() ? "failed" : "nofail"); else vf_reach("manakovv");
}
