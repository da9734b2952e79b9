/* C33: grid search for polynomial roots near / on an arc of the unit circle. */
#define FNFT_ENABLE_SHORT_NAMES
#include "vf.h"
#include "fnft__poly_roots_fftgridsearch.h"
#include "fnft__errwarn.h"
#ifndef NPH
#define NPH 3
#endif
#ifndef P0
#define P0 (-0.25)
#endif
#ifndef P1
#define P1 0.25
#endif
#ifndef DEG
#define DEG 2
#endif
#ifndef DX
#define DX 0.5
#define DY 1
#define OX 0
#define OY 0
#endif
#ifndef RAD
#define RAD 0.5
#endif
static int quiet(const char *f, ...) { (void)f; return 0; }
static const double or_[3] = {-1.5, 0.25, -0.5}, oi_[3] = {0.25, -2.0, 1.75}; /* the other roots */
static COMPLEX ev(int n, const COMPLEX *p, COMPLEX z) { COMPLEX v = p[0]; for (int i = 1; i <= n; i++) v = v * z + p[i]; return v; }
static double n2(COMPLEX z) { return creal(z) * creal(z) + cimag(z) * cimag(z); }
/* one symbolic root near the arc, the others far away */
void h_grid(void) {
  fnft_errwarn_setprintf(quiet);
  COMPLEX p[DEG + 1], rt[NPH]; REAL PHI[2] = {P0, P1}; const double eps = (P1 - P0) / (NPH - 1);
#ifdef INSIDE /* close to the interior grid point INSIDE */
  const double ph = P0 + INSIDE * eps, w0 = vf_double("w", -RAD, RAD), u = DX * w0 + OX, v = DY * w0 + OY; const COMPLEX rho = vf_mk(cos(ph) + eps * u, sin(ph) + eps * v);
#else
  const double ph = P0 + eps, w0 = vf_double("w", -2, 2), u = DX * w0 + OX, v = DY * w0 + OY; const COMPLEX rho = vf_mk(cos(ph) + eps * u, sin(ph) + eps * v);
#endif
  p[0] = 1; for (int i = 1; i <= DEG; i++) p[i] = 0;
  for (int k = 0; k < DEG; k++) { const COMPLEX w = k == 0 ? rho : vf_mk(or_[k - 1], oi_[k - 1]); for (int i = k + 1; i > 0; i--) p[i] -= w * p[i - 1]; }
  UINT M = NPH; INT rc = poly_roots_fftgridsearch(DEG, p, &M, PHI, rt); vf_assert(rc == SUCCESS, "success"); vf_init(&M, sizeof M, "counter written"); vf_assert(M <= NPH - 2, "at most one root per interior grid point"); vf_init(rt, M * sizeof(COMPLEX), "roots written");
#ifdef INSIDE
  vf_assert(M == 1, "a simple root near an interior grid point is found once"); vf_assert(n2(rt[0] - rho) <= eps * eps / 4, "the estimate is near the root"); vf_reach("inside");
#else
  if (M > 0) vf_reach("some"); else vf_reach("none");
  int from = 1;
  for (UINT k = 0; k < M; k++) { int ok = 0; for (int i = from; i < NPH - 1 && !ok; i++) { const double h = P0 + i * eps; const COMPLEX z0 = vf_mk(cos(h), sin(h)); if (n2(rt[k] - z0) <= eps * eps * 1.0001) { const double y0 = n2(ev(DEG, p, z0)); int min = 1;
        for (int a = -1; a <= 1 && min; a++) for (int b = -1; b <= 1 && min; b++) if (a || b) { const double g = P0 + (i + b) * eps, r = 1 / (1 + a * eps); if (y0 > n2(ev(DEG, p, vf_mk(r * cos(g), r * sin(g)))) * (1 + 1e-6) + 1e-9) min = 0; }
        if (min) { ok = 1; from = i + 1; } } }
    vf_assert(ok, "each root belongs to a grid cell whose center is a minimum of the modulus"); }
#endif
}
/* para-hermitian polynomials: one root per sign change, on the arc, between the two grid points */
void h_paraherm(void) {
  fnft_errwarn_setprintf(quiet);
  enum { NN = DEG / 2 };
  COMPLEX p[DEG + 1], rt[NPH]; REAL PHI[2] = {P0, P1}; const double eps = (P1 - P0) / (NPH - 1); double val[NPH];
  const double c = vf_double("c", -2, 2), d = vf_double("d", -1, 1);
  for (int i = 0; i <= DEG; i++) p[i] = 0; p[NN] = c;
  for (int k = 1; k <= NN; k++) { const COMPLEX e = k == 1 ? vf_mk(0.5, d) : vf_mk(0.25, -0.375); p[NN - k] = e; p[NN + k] = CONJ(e); }
  for (int i = 0; i < NPH; i++) { const double h = P0 + eps * i; double v = c; for (int k = 1; k <= NN; k++) v += 2 * (creal(p[NN - k]) * cos(k * h) - cimag(p[NN - k]) * sin(k * h)); val[i] = v; vf_assume(v * v > 1e-6); }
  UINT M = NPH; INT rc = poly_roots_fftgridsearch_paraherm(DEG, p, &M, PHI, rt); vf_assert(rc == SUCCESS, "success"); vf_init(&M, sizeof M, "counter written"); 
  UINT n = 0; for (int i = 1; i < NPH; i++) if (val[i - 1] * val[i] < 0) {
    vf_assert(n < M, "one root per sign change");
    const double th = (P0 + eps * (i - 1)) + eps * (val[i - 1] / (val[i - 1] - val[i]));
    vf_cclose(rt[n], vf_mk(COS(th), SIN(th)), 1e-7, "root of the linear interpolation of this cell"); n++; }
  vf_assert(M == n, "exactly one root per sign change"); if (n) vf_reach("roots"); else vf_reach("noroots");
}
