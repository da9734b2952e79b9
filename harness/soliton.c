/* Inverse NSE transform, discrete spectrum: C29. Norming constants symbolic. */
#define FNFT_ENABLE_SHORT_NAMES
#include "vf.h"
#include "fnft_nsev_inverse.h"
#include "fnft__errwarn.h"
#ifndef NS
#define NS 4
#endif
#ifndef KN
#define KN 1
#endif
#ifndef TOL
#define TOL 1e-9
#endif
#ifndef ULO
#define ULO 0.25
#define UHI 2
#endif
#ifndef DSN
#define DSN 2
#endif
#ifndef METHOD
#define METHOD 0
#endif
#ifndef TA
#define TA -1
#endif
#ifndef TB
#define TB 1
#endif
static int quiet(const char *f, ...) { (void)f; return 0; }
INT z_poly_roots_modified_(INT *N, double complex const *coeffs, double complex *roots, INT *info) { (void)coeffs; for (int i = 0; i < *N; i++) roots[i] = 0.5; *info = 0; return 0; }
#ifdef IMAG
static const REAL LR[3] = {0, 0, 0}, LI[3] = {0.375, 0.125, 0.625}; /* (l0-l1)/(l0+l1) is dyadic: exact conversion of the residues */
#else
static const REAL LR[3] = {0.25, -0.375, 0.5}, LI[3] = {0.5, 0.75, 0.625};
#endif
static COMPLEX lam(int i) { return vf_mk(LR[i], LI[i]); }
static void inv(int K, COMPLEX *bs, COMPLEX *nr, COMPLEX *q, int ds, int method) {
  REAL T[2] = {TA, TB}; fnft_nsev_inverse_opts_t o = fnft_nsev_inverse_default_opts();
  o.discspec_type = ds ? fnft_nsev_inverse_dstype_RESIDUES : fnft_nsev_inverse_dstype_NORMING_CONSTANTS;
  if (method) { o.contspec_inversion_method = fnft_nsev_inverse_csmethod_USE_SEED_POTENTIAL_INSTEAD; for (int i = 0; i < NS; i++) q[i] = 0; }
  vf_assert(fnft_nsev_inverse(0, NULL, NULL, K, bs, nr, NS, q, T, 1, &o) == SUCCESS, "success");
}
static COMPLEX nc(void) { /* modulus at least 1/4 */
  REAL x = vf_double("nr", -2, 2), y = vf_double("ni", -2, 2); vf_assume(x * x + y * y >= 0.0625); return vf_mk(x, y);
}
void h_one(void) {
  fnft_errwarn_setprintf(quiet);
  int l = vf_choice("lam", 3), method = vf_choice("method", 2), ds = vf_choice("ds", 2); COMPLEX L = lam(l), b = nc(), q[NS], v = b;
  if (ds) v = b * 2 * I * LI[l];
  inv(1, &L, &v, q, ds, method);
  REAL m2 = creal(b) * creal(b) + cimag(b) * cimag(b), e = (TB - TA) / (REAL)(NS - 1);
  for (int n = 0; n < NS; n++) {
    REAL t = TA + n * e; COMPLEX num = -4 * LI[l] * conj(b) * cexp(-2 * I * conj(L) * t);
    REAL den = 1 + m2 * exp(-4 * LI[l] * t);
    vf_cclose(q[n], num / den, TOL, "sample of the one-soliton");
  }
  vf_reach("one");
}
static COMPLEX bfac(int n, int i) { COMPLEX r = 1; for (int j = 0; j < n; j++) if (j != i) r /= (lam(i) - lam(j)) / (lam(i) - conj(lam(j))); return r * (2 * I * LI[i]); }
void h_order(void) {
  fnft_errwarn_setprintf(quiet);
  int method = METHOD, sy = vf_choice("which", 2), ds = DSN > 1 ? vf_choice("ds", 2) : 0;
  COMPLEX b[2], q1[NS], q2[NS], L1[2] = {lam(0), lam(1)}, L2[2] = {lam(1), lam(0)};
  { REAL u = vf_double("u", ULO, UHI); b[sy] = vf_choice("dir", 2) ? vf_mk(0.5, u) : vf_mk(0.625 * u, -0.75 * u); } b[1 - sy] = vf_mk(0.75, -0.5);
  COMPLEX v1[2] = {b[0], b[1]}, v2[2] = {b[1], b[0]};
  inv(2, L1, v1, q1, 0, 0);
  if (ds) { v2[0] *= bfac(2, 1); v2[1] *= bfac(2, 0); }
  inv(2, L2, v2, q2, ds, method);
  for (int n = 0; n < NS; n++) vf_cclose(q1[n], q2[n], TOL, "signal independent of order, method and normalization of the discrete spectrum");
  vf_reach("order");
}
