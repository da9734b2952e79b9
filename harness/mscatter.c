/* C19: slow Manakov scattering. DISC: BO or CF4_2 (half the frequency per step); KAP; NS steps, step SYM symbolic; DIR: polarization; MODE: parametrization */
#define FNFT_ENABLE_SHORT_NAMES
#include "vf.h"
#include "fnft__misc.h"
#include "fnft__manakov_discretization.h"
#include "fnft__manakov_scatter.h"
#ifndef KAP
#define KAP 1
#endif
#ifndef NS
#define NS 1
#endif
#ifndef SYM
#define SYM 0
#endif
#ifndef DIR
#define DIR 0
#endif
#ifndef MODE
#define MODE 0
#endif
#ifndef CF
#define CF 0
#endif
#ifndef ZEROAT
#define ZEROAT (-1)
#endif
#define DISC (CF ? manakov_discretization_CF4_2 : manakov_discretization_BO)
static COMPLEX q1[NS + 1], q2[NS + 1], x[NS], lam, dir[NS][2]; static double sv[NS]; static const REAL eps = 0.75;
static void setup(void) {
  COMPLEX l = 0; double s = 0; COMPLEX xx = 0;
#if MODE == 0 /* real frequency, real root: lambda = a^2-b^2 (or a^2+b^2), s = 2ab */
  double a = vf_double("a", 0.75, 1.25), b = vf_double("b", 0.25, 0.5); s = 2 * a * b; l = KAP > 0 ? a * a - b * b : a * a + b * b; xx = KAP > 0 ? a * a + b * b : a * a - b * b;
#elif MODE == 1 /* negative or, for kappa=-1, imaginary root */
  double a = vf_double("a", 0.75, 1.25), b = vf_double("b", 0.25, 0.5);
  if (KAP > 0) { s = 2 * a * b; l = b * b - a * a; xx = a * a + b * b; } else { l = 2 * a * b; s = a * a + b * b; xx = vf_mk(0, a * a - b * b); }
#elif MODE == 2 /* complex frequency: lambda = (u - kappa s^2/u)/2, root (u + kappa s^2/u)/2 */
  s = vf_double("s", 0.25, 1.5); const COMPLEX u = vf_mk(1.0, 1.0); l = 0.5 * (u - KAP * s * s / u); xx = 0.5 * (u + KAP * s * s / u);
#elif MODE == 3
  s = vf_double("s", 0.25, 1.5); const COMPLEX u = vf_mk(-0.5, 0.5); l = 0.5 * (u - KAP * s * s / u); xx = 0.5 * (u + KAP * s * s / u);
#elif MODE == 4 /* vanishing root */
  s = 0.5; l = KAP > 0 ? vf_mk(0, 0.5) : 0.5; xx = 0;
#elif MODE == 5 /* lambda = 0 */
  s = vf_double("s", 0.25, 1.5); l = 0; xx = KAP > 0 ? vf_mk(s, 0) : vf_mk(0, s);
#else /* concrete */
  s = 0.75; const COMPLEX u = vf_mk(1.0, 0.5); l = 0.5 * (u - KAP * s * s / u); xx = 0.5 * (u + KAP * s * s / u);
#endif
  vf_csqrt_hint(CREAL(xx), CIMAG(xx));
  lam = CF ? 2 * l : l;
  for (int n = 0; n < NS; n++) {
    static const double D4[5][4] = {{0.6, 0, 0, 0.8}, {1, 0, 0, 0}, {0, 0, 0, 1}, {0.36, 0.48, -0.8, 0}, {0, 1, 0, 0}};
    const double *d = D4[(DIR + n) % 5]; dir[n][0] = vf_mk(d[0], d[1]); dir[n][1] = vf_mk(d[2], d[3]);
    /* further steps of the same amplitude keep the root; polarization changes from step to step */
    sv[n] = n == ZEROAT ? 0 : s; x[n] = n == ZEROAT ? l : xx; q1[n] = sv[n] * dir[n][0]; q2[n] = sv[n] * dir[n][1];
  }
}
static void step(int n, COMPLEX *E) {
  const COMPLEX l = CF ? 0.5 * lam : lam, c = CCOS(eps * x[n]), e = CEXP(I * eps * l), sc = x[n] == 0 ? eps : CSIN(eps * x[n]) / x[n]; const double s = sv[n]; const COMPLEX *d = dir[n];
  if (n == ZEROAT) { for (int i = 0; i < 9; i++) E[i] = 0; E[0] = CEXP(-I * eps * l); E[4] = E[8] = e; return; }
  E[0] = c - I * l * sc;
  for (int i = 0; i < 2; i++) { E[1 + i] = s * d[i] * sc; E[3 * (i + 1)] = -KAP * s * CONJ(d[i]) * sc; for (int j = 0; j < 2; j++) E[3 * (i + 1) + j + 1] = (i == j) * e + CONJ(d[i]) * d[j] * (c + I * l * sc - e); }
}
void h_mscatter(void) {
  COMPLEX S[9], P[9], E[9], res[9], o1[NS], o2[NS]; for (int i = 0; i < 9; i++) S[i] = i % 4 == 0;
  setup(); for (int i = 0; i < NS; i++) { o1[i] = q1[i]; o2[i] = q2[i]; }
  COMPLEX *r = vf_buf(9 * sizeof(COMPLEX)); long mark = vf_heap_mark();
  INT rc = manakov_scatter_matrix(NS, q1, q2, eps, 1, &lam, KAP, r, DISC);
  vf_assert(rc == SUCCESS, "slow Manakov scattering succeeds"); vf_leak(mark, "slow Manakov scattering leaks"); vf_init(r, 9 * sizeof(COMPLEX), "the result is filled");
  for (int i = 0; i < NS; i++) { vf_cclose(q1[i], o1[i], 0, "input is kept"); vf_cclose(q2[i], o2[i], 0, "input is kept"); }
  for (int n = 0; n < NS; n++) { step(n, E); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { P[3 * i + j] = 0; for (int k = 0; k < 3; k++) P[3 * i + j] += E[3 * i + k] * S[3 * k + j]; } for (int i = 0; i < 9; i++) S[i] = P[i]; }
  for (int i = 0; i < 9; i++) vf_cclose(r[i], S[i], 1e-9, "entry of the scattering matrix");
  (void)res; vf_reach("mscatter");
}
void h_several(void) { /* several frequencies give the results of the individual ones, in order */
  COMPLEX l[3], r[27], e[9]; const COMPLEX a[2] = {0.5, vf_mk(0.25, -0.5)}, b[2] = {vf_mk(0, 0.75), 0.25};
  l[0] = vf_mk(0.5, 0.25); l[1] = vf_mk(-1.0, 0); l[2] = vf_mk(0.125, 0.5);
  vf_assert(manakov_scatter_matrix(2, a, b, eps, 3, l, KAP, r, DISC) == SUCCESS, "succeeds");
  for (int k = 0; k < 3; k++) { vf_assert(manakov_scatter_matrix(2, a, b, eps, 1, l + k, KAP, e, DISC) == SUCCESS, "succeeds"); for (int i = 0; i < 9; i++) vf_cclose(r[9 * k + i], e[i], 1e-13, "same as for a single frequency"); }
  vf_reach("several");
}
void h_mbad(void) {
  COMPLEX a[2] = {1, 2}, b[2] = {1, 1}, res[9], l = 0.5, *pa = a, *pb = b, *po = res, *pl = &l; UINT N = 2, K = 1; REAL e = 0.5; int d = DISC, w = vf_choice("bad", 8); long mark = vf_heap_mark();
  switch (w) { case 0: N = 0; break; case 1: pa = NULL; break; case 2: pb = NULL; break; case 3: e = vf_choice("e", 2) ? 0 : -0.5; break; case 4: K = 0; break; case 5: pl = NULL; break; case 6: po = NULL; break; case 7: d = vf_choice("d", 2) ? 999 : manakov_discretization_2SPLIT4B; }
  vf_assert(manakov_scatter_matrix(N, pa, pb, e, K, pl, 1, po, d) != SUCCESS, "bad arguments and fast discretizations are refused"); vf_leak(mark, "refused call leaks"); vf_reach("bad");
}
