/* C02: arguments that violate a documented precondition are refused before anything is allocated or written. */
#define FNFT_ENABLE_SHORT_NAMES
#include "vf.h"
#include "fnft_nsev.h"
#include "fnft_kdvv.h"
#include "fnft_manakovv.h"
#include "fnft_nsep.h"
#include "fnft_nsev_inverse.h"
#include "fnft__errwarn.h"
#ifndef OPTS
#define OPTS 0
#endif
static int quiet(const char *f, ...) { (void)f; return 0; }
INT z_poly_roots_modified_(INT *N, double complex const *coeffs, double complex *roots, INT *info) { (void)coeffs; for (int i = 0; i < *N; i++) roots[i] = 0.5; *info = 0; return 0; }
#define ND 8
static COMPLEX q[ND], q2[ND], cs[3 * ND], bs[3], nr[6], aux[ND], q0[ND], q20[ND], cs0[3 * ND], bs0[3], nr0[6], aux0[ND];
static REAL T[2], XI[2];
static UINT D, M, K, MP, K0, MP0;
static const char *const msg = "outputs left as they were";
static void setup(void) {
  fnft_errwarn_setprintf(quiet);
  for (int i = 0; i < ND; i++) { q[i] = 0.5 + 0.25 * i; q2[i] = 0.25 - 0.125 * i; aux[i] = 7 + i; }
  for (int i = 0; i < 3 * ND; i++) cs[i] = 3 + i;
  for (int i = 0; i < 3; i++) { bs[i] = I * (0.5 + i); nr[2 * i] = 5 + i; nr[2 * i + 1] = 6 + i; }
  T[0] = -1; T[1] = 1; XI[0] = 0.5; XI[1] = 1.5; D = 2; M = 2; K = 1; MP = 1;
}
static void keep(void) { memcpy(q0, q, sizeof q); memcpy(q20, q2, sizeof q); memcpy(cs0, cs, sizeof cs); memcpy(bs0, bs, sizeof bs); memcpy(nr0, nr, sizeof nr); memcpy(aux0, aux, sizeof aux); K0 = K; MP0 = MP; }
static void check(int rc, long mark) {
  int f = vf_alloc_failed(); vf_allocfail(0);
  vf_assert(rc != SUCCESS, "invalid argument refused");
  vf_assert(!f, "refused before any memory is requested"); /* detects preconditions that are not checked, whatever happens afterwards */
  vf_assert(vf_same(q, q0, sizeof q) && vf_same(q2, q20, sizeof q2), msg); vf_assert(vf_same(cs, cs0, sizeof cs), msg); vf_assert(vf_same(bs, bs0, sizeof bs), msg);
  vf_assert(vf_same(nr, nr0, sizeof nr), msg); vf_assert(vf_same(aux, aux0, sizeof aux), msg); vf_assert(K == K0 && MP == MP0, msg);
  vf_leak(mark, "refused call leaks"); vf_reach("refused");
}
static int badkappa(void) { int k = vf_int("kappa", -2147483647, 2147483647); vf_assume(k != 1 && k != -1); return k; }
static void badT(REAL *t) { t[0] = vf_anydouble("t0"); t[1] = vf_anydouble("t1"); vf_assume(!(t[0] < t[1])); }
void h_nsev(void) {
  setup(); int v = vf_choice("v", 9), kappa = 1; COMPLEX *qp = q, *csp = cs; REAL *Tp = T, *Xp = XI; UINT *Kp = &K; fnft_nsev_opts_t o = fnft_nsev_default_opts();
  int disc = v == 7 || vf_choice("disc", 2); fnft_nsev_opts_t *op = &o;
  if (v == 0) D = vf_size("D", 0, 1); else if (v == 1) qp = NULL; else if (v == 2) Tp = NULL; else if (v == 3) badT(T); else if (v == 4) Xp = NULL; else if (v == 5) badT(XI);
  else if (v == 6) kappa = badkappa(); else if (v == 7) { Kp = NULL; if (vf_choice("nocont", 2)) csp = NULL; } else o.discretization = (nse_discretization_t)vf_int("dis", 60, 1000);
  if (v != 8 && vf_choice("nullopts", 2)) op = NULL;
  if (v != 4 && v != 5 && v != 7 && vf_choice("nocont", 2)) csp = NULL;
  vf_assume(disc || csp);
  keep(); long m = vf_heap_mark(); vf_allocfail(1);
  check(fnft_nsev(D, qp, Tp, M, csp, Xp, Kp, disc ? bs : NULL, disc ? nr : NULL, kappa, op), m);
}
void h_kdvv(void) {
  setup(); int v = vf_choice("v", 10); COMPLEX *qp = q, *csp = cs; REAL *Tp = T, *Xp = XI; UINT *Kp = &K; fnft_kdvv_opts_t o = fnft_kdvv_default_opts(), *op = &o;
  int disc = v == 6 || v == 8 || vf_choice("disc", 2); o.bound_state_localization = fnft_kdvv_bsloc_NEWTON;
  if (v == 0) D = vf_size("D", 0, 1); else if (v == 1) qp = NULL; else if (v == 2) Tp = NULL; else if (v == 3) badT(T); else if (v == 4) Xp = NULL; else if (v == 5) badT(XI);
  else if (v == 6) { Kp = NULL; if (vf_choice("nocont", 2)) csp = NULL; } else if (v == 7) o.discretization = (fnft_kdv_discretization_t)vf_int("dis", 90, 1000);
  else if (v == 8) { int i = vf_choice("i", 2); K = 2; REAL r = vf_anydouble("re"), w = vf_anydouble("im"); vf_assume(!(r == 0 && w > 0)); bs[i] = vf_mk(r, w); }
  else { int i = vf_choice("i", 2); REAL w = vf_anydouble("im"); vf_assume(w != 0); q[i] = vf_mk(1, w); }
  if (v != 4 && v != 5 && v != 6 && vf_choice("nocont", 2)) csp = NULL;
  vf_assume(disc || csp);
  keep(); long m = vf_heap_mark(); vf_allocfail(1);
  check(fnft_kdvv(D, qp, Tp, M, csp, Xp, Kp, disc ? bs : NULL, disc ? nr : NULL, op), m);
}
void h_manakovv(void) {
  setup(); int v = vf_choice("v", 10), kappa = 1; COMPLEX *qp = q, *qp2 = q2, *csp = cs; REAL *Tp = T, *Xp = XI; UINT *Kp = &K; fnft_manakovv_opts_t o = fnft_manakovv_default_opts(), *op = &o;
  int disc = v == 7 || vf_choice("disc", 2);
  if (v == 0) D = vf_size("D", 0, 1); else if (v == 1) qp = NULL; else if (v == 2) Tp = NULL; else if (v == 3) badT(T); else if (v == 4) Xp = NULL; else if (v == 5) badT(XI);
  else if (v == 6) kappa = badkappa(); else if (v == 7) { Kp = NULL; if (vf_choice("nocont", 2)) csp = NULL; } else if (v == 8) o.discretization = (fnft_manakov_discretization_t)vf_int("dis", 60, 1000); else qp2 = NULL;
  if (v != 8 && vf_choice("nullopts", 2)) op = NULL;
  if (v != 4 && v != 5 && v != 7 && vf_choice("nocont", 2)) csp = NULL;
  vf_assume(disc || csp);
  keep(); long m = vf_heap_mark(); vf_allocfail(1);
  check(fnft_manakovv(D, qp, qp2, Tp, M, csp, Xp, Kp, disc ? bs : NULL, NULL, kappa, op), m);
}
void h_nsep(void) {
  setup(); int v = vf_choice("v", 9), kappa = 1; COMPLEX *qp = q; REAL *Tp = T; UINT *Kp = &K, *Mp = &MP; fnft_nsep_opts_t o = fnft_nsep_default_opts(), *op = vf_choice("nullopts", 2) ? NULL : &o; INT si[4] = {0}, *sp = NULL; COMPLEX *mp = cs;
  if (v == 0) { D = vf_size("D", 0, 100000); vf_assume(D < 2 || (D & (D - 1))); } else if (v == 1) qp = NULL; else if (v == 2) Tp = NULL; else if (v == 3) badT(T); else if (v == 4) kappa = badkappa();
  else if (v == 5) Kp = NULL; else if (v == 6) Mp = NULL; else if (v == 7) sp = si; else { o.filtering = (fnft_nsep_filt_t)(1 + vf_choice("filt", 2)); op = &o; mp = NULL; }
  keep(); long m = vf_heap_mark(); vf_allocfail(1);
  check(fnft_nsep(D, qp, Tp, vf_double("phase", -3, 3), Kp, mp, Mp, aux, sp, kappa, op), m);
}
void h_inv(void) {
  setup(); int v = vf_choice("v", 14), kappa = 1; COMPLEX *qp = q, *csp = cs, *bp = bs, *np = nr; REAL *Tp = T, *Xp = XI; fnft_nsev_inverse_opts_t o = fnft_nsev_inverse_default_opts(), *op = &o; M = 4; D = 4; K = vf_choice("K", 3);
  if (v == 0) { D = vf_size("D", 0, 100000); vf_assume(D < 2 || (D & (D - 1))); M = 100000; } else if (v == 1) qp = NULL; else if (v == 2) Tp = NULL; else if (v == 3) badT(T); else if (v == 4) { Xp = NULL; o.contspec_type = (fnft_nsev_inverse_cstype_t)vf_choice("cs", 2); }
  else if (v == 5) { kappa = badkappa(); } else if (v == 6) csp = NULL; else if (v == 7) { M = 2 * vf_size("M", 2, 1000) + 1; } else if (v == 8) { M = 2 * vf_size("M", 0, 1); } else if (v == 9) { K = 2; bp = NULL; } else if (v == 10) { K = 2; np = NULL; }
  else if (v == 11) { K = 2; kappa = -1; } else if (v == 12) { K = 2; int i = vf_choice("i", 2); REAL w = vf_anydouble("im"); vf_assume(!(w > 0)); bs[i] = vf_mk(0.5, w); } else { o.discretization = (nse_discretization_t)vf_int("dis", 0, 1000); vf_assume(o.discretization != nse_discretization_2SPLIT2A && o.discretization != nse_discretization_2SPLIT2_MODAL); }
  keep(); long m = vf_heap_mark(); vf_allocfail(1);
  check(fnft_nsev_inverse(M, csp, Xp, K, K ? bp : NULL, K ? np : NULL, D, qp, Tp, kappa, op), m);
}
void h_invxi(void) {
  setup(); int v = vf_choice("v", 5); REAL *Tp = T, *Xp = XI; nse_discretization_t d = nse_discretization_2SPLIT2A; M = 4; REAL X0[2];
  if (v == 0) D = vf_size("D", 0, 1); else if (v == 1) M = 0; else if (v == 2) Xp = NULL; else if (v == 3) Tp = NULL; else badT(T);
  keep(); X0[0] = XI[0]; X0[1] = XI[1]; long m = vf_heap_mark(); vf_allocfail(1);
  int rc = fnft_nsev_inverse_XI(D, Tp, M, Xp, d); vf_assert(vf_same(X0, XI, sizeof X0), msg); check(rc, m);
}
/* Option values outside their enumerations, neither spectrum given, repeated bound states: refused with an error code (after some work). */
void h_opts(void) {
  setup(); int t = vf_choice("t", 14), rc; int bad = vf_int("value", 5, 100); if (vf_choice("neg", 2)) bad = -bad; vf_leak(vf_heap_mark(), "-"); long m;
  fnft_nsev_opts_t n = fnft_nsev_default_opts(); fnft_kdvv_opts_t k = fnft_kdvv_default_opts(); fnft_manakovv_opts_t ma = fnft_manakovv_default_opts(); fnft_nsep_opts_t p = fnft_nsep_default_opts(); fnft_nsev_inverse_opts_t i = fnft_nsev_inverse_default_opts();
  m = vf_heap_mark(); M = 2; K = 3;
  if (t < 4) {
    if (t == 0) n.contspec_type = (fnft_nsev_cstype_t)bad; else if (t == 1) n.discspec_type = (fnft_nsev_dstype_t)bad; else if (t == 2) n.bound_state_localization = (fnft_nsev_bsloc_t)bad; else n.bound_state_filtering = (fnft_nsev_bsfilt_t)bad;
    rc = fnft_nsev(D, q, T, M, cs, XI, &K, bs, nr, 1, &n);
  } else if (t < 7) {
    k.bound_state_localization = fnft_kdvv_bsloc_NEWTON; k.niter = 0; /* guesses are given, hence there are bound states whose type matters */
    if (t == 4) k.contspec_type = (fnft_kdvv_cstype_t)bad; else if (t == 5) k.discspec_type = (fnft_kdvv_dstype_t)bad; else k.bound_state_localization = (fnft_kdvv_bsloc_t)bad;
    rc = fnft_kdvv(D, q, T, M, cs, XI, &K, bs, nr, &k);
  } else if (t < 9) {
    if (t == 7) ma.contspec_type = (fnft_manakovv_cstype_t)bad; else { ma.discretization = fnft_manakov_discretization_BO; ma.bound_state_localization = (fnft_manakovv_bsloc_t)bad; } /* documented as ignored for the fast discretizations */
    rc = fnft_manakovv(D, q, q2, T, M, cs, XI, &K, bs, NULL, 1, &ma);
  } else if (t < 10) {
    p.localization = (fnft_nsep_loc_t)bad; rc = fnft_nsep(D, q, T, 0, &K, cs, &MP, aux, NULL, 1, &p);
  } else {
    D = 4; M = 4; COMPLEX *csp = cs; UINT KK = 0; for (int j = 0; j < 4; j++) cs[j] = 0.125 * j;
    if (t == 10) i.contspec_type = (fnft_nsev_inverse_cstype_t)bad; else if (t == 11) i.contspec_inversion_method = (fnft_nsev_inverse_csmethod_t)bad;
    else if (t == 12) { csp = NULL; M = 0; } else {
      csp = NULL; M = 0; KK = 3; int a = vf_choice("a", 3), b = vf_choice("b", 3); vf_assume(a < b); REAL im = vf_double("im", 0.25, 1), re = vf_double("re", -1, 1), i3 = vf_double("i3", 0.25, 1); bs[3 - a - b] = vf_mk(0.5, i3); bs[a] = bs[b] = vf_mk(re, im); for (int j = 0; j < 3; j++) nr[j] = 1; }
    rc = fnft_nsev_inverse(M, csp, XI, KK, KK ? bs : NULL, KK ? nr : NULL, D, q, T, 1, &i);
  }
  vf_assert(rc != SUCCESS, "invalid option refused"); vf_leak(m, "refused call leaks"); vf_reach("refused");
}
