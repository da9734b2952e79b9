/* C34: which of the roots delivered by the root finder the NSE (MAN=0) and Manakov (MAN=1) transforms return as bound states */
#define FNFT_ENABLE_SHORT_NAMES
#include "vf.h"
#include "fnft_nsev.h"
#include "fnft_manakovv.h"
#include "fnft__errwarn.h"
#ifndef MAN
#define MAN 0
#endif
#ifndef FILT
#define FILT 0
#endif
#ifndef NS
#define NS 2
#endif
#ifndef NR
#define NR 2
#endif
#ifndef DIS
#define DIS nse_discretization_2SPLIT2A
#endif
#ifndef D1
#define D1 1
#endif
#ifndef DUP
#define DUP 0
#endif
#define MAXDEG 32
static int quiet(const char *f, ...) { (void)f; return 0; }
static COMPLEX Z[MAXDEG]; static int ncall, nd; static REAL x[MAXDEG], y[MAXDEG];
INT z_poly_roots_modified_(INT *N, double complex const *c, double complex *roots, INT *info) { (void)c; ncall++; nd = *N; for (int i = 0; i < *N; i++) roots[i] = Z[i]; *info = 0; return 0; }
static int inbox(REAL a, REAL b, const REAL *bx) { return a > bx[0] && a < bx[1] && b > bx[2] && b < bx[3]; }
static int nearb(REAL a, REAL b, const REAL *bx) { return fabs(a - bx[0]) < 1e-6 || fabs(a - bx[1]) < 1e-6 || fabs(b - bx[2]) < 1e-6 || fabs(b - bx[3]) < 1e-6; }
void h_filt(void) {
  fnft_errwarn_setprintf(quiet); REAL T[2] = {-0.25 * (NS - 1), 0.25 * (NS - 1)}; const REAL eps = 0.5; COMPLEX q[NS], q2[NS]; REAL l2 = 0; const int qs = vf_choice("q", 2);
  for (int i = 0; i < NS; i++) { q[i] = qs ? vf_mk(1 - 0.25 * i, 0.5) : vf_mk(0.75 * i, 1.5); q2[i] = vf_mk(0.25, -0.125 * i); }
  /* squared norm by the trapezoidal rule as documented in fnft__misc.h; the interval is that of the samples with half a step on both sides */
  for (int i = 0; i < NS; i++) { REAL v = creal(q[i]) * creal(q[i]) + cimag(q[i]) * cimag(q[i]); l2 += eps * v; }
  const int deg = NS * D1; REAL box[4] = {-1e300, 1e300, -1e300, 1e300};
  if (FILT == 1) box[2] = 0;
  if (FILT == 2) { box[2] = 0; box[1] = 0.9 * PI * D1 / 2 / eps; box[0] = -box[1]; box[3] = 1.5 * 0.25 * l2; }
  if (FILT == 3) { box[0] = vf_double("b0", -2, 0.5); box[1] = vf_double("b1", 0.625, 2); box[2] = -0.25; box[3] = vf_double("b3", 0, 0.75); }
  for (int i = 0; i < deg; i++) { /* frequencies; x within the range that the discretization can represent */
    if (i < NR) { x[i] = vf_double("x", -3, 3); y[i] = vf_double("y", -0.5, 2); vf_assume(!nearb(x[i], y[i], box)); if (i) vf_assume(fabs(x[i] - x[0]) > 1e-6 || fabs(y[i] - y[0]) > 1e-6); }
    else { x[i] = (i % 2 ? 1 : -1) * (3.0625 + 0.0078125 * i); y[i] = i % 3 ? 0.03125 * i : -0.0625; } /* apart from the arbitrary ones */
    if (DUP && i == deg - 1) { x[i] = x[0]; y[i] = y[0]; }
    REAL a = x[i] * 2 * eps / D1, b = -y[i] * 2 * eps / D1, r = exp(b); Z[i] = vf_mk(r * COS(a), r * SIN(a)); vf_hint(b, a); vf_hint(a, 0); vf_hint(b, 0); vf_hint(r, 0);
  }
  const int kc = vf_choice("K", 4); UINT K0 = kc == 3 ? 2 * deg : deg - kc; UINT K = K0; COMPLEX *bs = vf_buf(K0 * sizeof(COMPLEX));
#if MAN
  fnft_manakovv_opts_t o = fnft_manakovv_default_opts(); o.bound_state_filtering = (fnft_manakovv_bsfilt_t)FILT; o.bound_state_localization = fnft_manakovv_bsloc_FAST_EIGENVALUE; o.discretization = DIS;
  INT rc = fnft_manakovv(NS, q, q2, T, 0, NULL, NULL, &K, bs, NULL, 1, &o);
#else
  fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.bound_state_filtering = (fnft_nsev_bsfilt_t)FILT; o.bound_state_localization = fnft_nsev_bsloc_FAST_EIGENVALUE; o.discretization = DIS; for (int i = 0; i < 4; i++) o.bounding_box[i] = box[i];
  INT rc = fnft_nsev(NS, q, T, 0, NULL, NULL, &K, bs, NULL, 1, &o);
#endif
  vf_assert(rc == SUCCESS, "success"); vf_assert(ncall == 1 && nd == deg, "one polynomial of the full degree");
  UINT n = 0; for (int i = 0; i < deg; i++) {
    if (FILT && !inbox(x[i], y[i], box)) continue;
    if (FILT && DUP && i == deg - 1) continue; /* the same as the first root, which is in the box as well */
    if (n < K0) { vf_assert(n < K, "selected root is returned"); vf_cclose(bs[n], vf_mk(x[i], y[i]), 1e-9, "selected root"); }
    n++;
  }
  vf_assert(K == (n < K0 ? n : K0), "number of bound states"); vf_reach("filt");
}
