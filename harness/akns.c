/* C15: fast AKNS scattering. EQ: 0 AKNS, 1 NSE, 2 KdV; DIS: AKNS discretization (EQ 0) or wrapper discretization; SCH: splitting scheme;
   SIG: 0 focusing (r=-conj q), 1 defocusing (r=conj q), 2 KdV (r=-1), 3 independent, 4 zero signal, 5 real KdV with negative q, 6 KdV vacuum (q=0, r=-1), 7 r=0 */
#define FNFT_ENABLE_SHORT_NAMES
#include "vf.h"
#include "fnft__misc.h"
#include "fnft__akns_fscatter.h"
#include "fnft__nse_fscatter.h"
#include "fnft__kdv_fscatter.h"
#ifndef EQ
#define EQ 0
#endif
#ifndef SIG
#define SIG 0
#endif
#ifndef LEN
#define LEN 1
#endif
#ifndef NSYM
#define NSYM LEN
#endif
#ifndef DIS
#define DIS fnft__akns_discretization_2SPLIT1A
#define SCH 1
#define SFX 'A'
#define DEG 1
#endif
#ifndef HALF
#define HALF 0
#endif
typedef struct { int len; COMPLEX c[4][DEG * LEN + 1]; } M2; /* low order first */
static void unit(M2 *P) { for (int e = 0; e < 4; e++) for (int i = 0; i <= DEG * LEN; i++) P->c[e][i] = (i == 0 && e % 3 == 0); }
static void mulA(M2 *P, int k) { if (!k) return; for (int e = 1; e < 4; e += 2) { for (int i = DEG * LEN; i >= k; i--) P->c[e][i] = P->c[e][i - k]; for (int i = 0; i < k; i++) P->c[e][i] = 0; } }
static void mulB(M2 *P, const COMPLEX *E) { for (int i = 0; i <= DEG * LEN; i++) for (int r = 0; r < 2; r++) { COMPLEX a = P->c[2 * r][i], b = P->c[2 * r + 1][i]; P->c[2 * r][i] = a * E[0] + b * E[2]; P->c[2 * r + 1][i] = a * E[1] + b * E[3]; } }
static void expB(COMPLEX *E, double a, COMPLEX q, COMPLEX r, COMPLEX root) { /* exp(a [0 q; r 0]), root = sqrt(-qr) */
  if (SIG == 4) { E[0] = E[3] = 1; E[1] = E[2] = 0; return; }
  if (SIG >= 6) { E[0] = E[3] = 1; E[1] = a * q; E[2] = a * r; return; }
  E[0] = E[3] = CCOS(a * root); COMPLEX s = CSIN(a * root) / root; E[1] = q * s; E[2] = r * s;
}
/* Symmetric (Strang-type, even schemes) or alternating (odd schemes) composition with n substeps; first = 'A' or 'B' */
static void word(M2 *P, int n, int odd, int firstA, double eps, COMPLEX q, COMPLEX r, COMPLEX root) {
  COMPLEX E[4]; unit(P);
  double frac[32]; int isA[32], k = 0;
  if (odd) { for (int i = 0; i <= n; i++) { isA[k] = (i % 2 == 0) ? firstA : !firstA; frac[k++] = (i == 0 || i == n) ? 1.0 / n : 2.0 / n; } }
  else for (int i = 0; i <= 2 * n; i++) { isA[k] = (i % 2 == 0) ? firstA : !firstA; frac[k++] = (i == 0 || i == 2 * n) ? 0.5 / n : 1.0 / n; }
  for (int i = 0; i < k; i++) if (isA[i]) { double s = frac[i] * DEG; int w = (int)floor(s + 0.5); if (fabs(s - w) > 1e-9) exit(45); mulA(P, w); } else { expB(E, frac[i] * eps, q, r, root); mulB(P, E); }
}
static void acc(M2 *S, const M2 *P, double w) { for (int e = 0; e < 4; e++) for (int i = 0; i <= DEG * LEN; i++) S->c[e][i] += w * P->c[e][i]; }
static void refstep(M2 *S, double eps, COMPLEX q, COMPLEX r, COMPLEX root) {
  static M2 P; for (int e = 0; e < 4; e++) for (int i = 0; i <= DEG * LEN; i++) S->c[e][i] = 0;
#if SCH == 0 /* modified Ablowitz-Ladik */
  COMPLEX d = CSQRT(1 - eps * q * eps * r); S->c[0][0] = S->c[3][1] = 1 / d; S->c[1][1] = eps * q / d; S->c[2][0] = eps * r / d;
#elif SCH == 2 && SFX == 'A' /* implemented in a basis in which the two half delays are merged */
  word(S, 1, 1, 0, eps, q, r, root); (void)P;
#elif SCH == 2 && SFX == 'S'
  word(&P, 1, 1, 1, eps, q, r, root); acc(S, &P, 0.5); word(&P, 1, 1, 0, eps, q, r, root); acc(S, &P, 0.5);
#elif SCH == 3 && SFX == 'S'
  word(&P, 1, 0, 1, eps, q, r, root); acc(S, &P, 2 / 3.); word(&P, 1, 0, 0, eps, q, r, root); acc(S, &P, 2 / 3.);
  word(&P, 1, 1, 1, eps, q, r, root); acc(S, &P, -1 / 6.); word(&P, 1, 1, 0, eps, q, r, root); acc(S, &P, -1 / 6.);
#else
  for (int n = SCH % 2 ? 1 : 1; n <= (SCH % 2 ? SCH : SCH / 2); n += SCH % 2 ? 2 : 1) { /* extrapolation weights */
    double w = 1; for (int m = 1; m <= (SCH % 2 ? SCH : SCH / 2); m += SCH % 2 ? 2 : 1) if (m != n) w *= (double)(n * n) / (double)(n * n - m * m);
    word(&P, n, SCH % 2, SFX == 'A', eps, q, r, root); acc(S, &P, w);
  }
#endif
}
static void sample(int i, COMPLEX *q, COMPLEX *r, COMPLEX *root) {
  double x, y = 0; const int sym = i < NSYM;
#if SIG == 4
  *q = *r = *root = 0; (void)x; (void)y; (void)sym;
#elif SIG == 6
  *q = *root = 0; *r = -1; (void)x; (void)y; (void)sym;
#elif SIG == 7
  *q = sym ? vf_cplx("q", 0.25, 1.0) : vf_mk(0.5, -0.125 * i); *r = *root = 0; (void)x; (void)y;
#elif SIG <= 1
  x = sym ? vf_double("qr", 0.25, 1.0) : 0.5 - 0.125 * i; y = sym ? vf_double("qi", -1.0, 1.0) : 0.375; *q = vf_mk(x, y); *r = SIG ? vf_mk(x, -y) : vf_mk(-x, y);
  double rho = SQRT(x * x + y * y); *root = SIG ? vf_mk(0, rho) : rho; vf_csqrt_hint(SIG ? 0 : rho, SIG ? rho : 0);
#elif SIG == 2 || SIG == 5
  x = sym ? vf_double("s", 0.5, 1.25) : 0.75 - 0.125 * i; *q = SIG == 2 ? x * x : -x * x; *r = -1; *root = SIG == 2 ? x : vf_mk(0, x); vf_csqrt_hint(SIG == 2 ? x : 0, SIG == 2 ? 0 : x); (void)y;
#else
  COMPLEX s = sym ? vf_mk(vf_double("sr", 0.5, 1.0), vf_double("si", -0.75, 0.75)) : vf_mk(0.75, -0.25 * i); const COMPLEX c = vf_mk(0.6, 0.8 - i); *q = s * c; *r = -s / c; *root = s; vf_csqrt_hint(CREAL(s), CIMAG(s)); (void)x; (void)y;
#endif
}
static UINT numel(UINT D) { return EQ == 0 ? akns_fscatter_numel(D, DIS) : EQ == 1 ? nse_fscatter_numel(D, DIS) : kdv_fscatter_numel(D, DIS); }
#ifndef SWAP
#define SWAP 0
#endif
static INT call(UINT D, COMPLEX *q, COMPLEX *r, REAL eps, COMPLEX *res, UINT *deg, INT *W) { return EQ == 0 ? akns_fscatter(D, q, r, eps, res, deg, W, DIS) : EQ == 1 ? nse_fscatter(D, q, r, eps, res, deg, W, DIS) : kdv_fscatter(D, q, r, eps, 1, res, deg, W, DIS); }
void h_fscatter(void) {
  COMPLEX q[LEN], r[LEN], root[LEN], q0[LEN], r0[LEN]; UINT deg = 77; INT W = 99, *Wp = NULL;
#ifdef EPSSYM
  REAL eps = vf_double("eps", 0.25, 1.0);
#else
  REAL eps = 0.75;
#endif
#ifdef WITHW
  Wp = &W;
#endif
  const REAL h = HALF ? eps / 2 : eps;
  for (int i = 0; i < LEN; i++) { sample(i, q + i, r + i, root + i); q0[i] = q[i]; r0[i] = r[i]; }
  UINT n = numel(LEN); vf_assert(n >= 4 * (DEG * LEN + 1), "buffer length holds four polynomials");
  COMPLEX *res = vf_buf(n * sizeof(COMPLEX)); long mark = vf_heap_mark();
  INT rc = call(LEN, q, r, eps, res, &deg, Wp);
  vf_assert(rc == SUCCESS, "fast scattering succeeds"); vf_assert(deg == DEG * LEN, "degree of the product"); vf_leak(mark, "fast scattering leaks");
  vf_init(res, 4 * (DEG * LEN + 1) * sizeof(COMPLEX), "transfer matrix is filled");
  for (int i = 0; i < LEN; i++) { vf_cclose(q[i], q0[i], 0, "input is kept"); vf_cclose(r[i], r0[i], 0, "input is kept"); }
  double sc = 1; if (Wp) { vf_assert(W > -1000 && W < 1000, "exponent"); sc = ldexp(1.0, W); }
  static M2 R, S, T; unit(&R);
  for (int i = LEN - 1; i >= 0; i--) { /* last sample leftmost */
    refstep(&S, h, SWAP ? r[i] : q[i], SWAP ? q[i] : r[i], root[i]);
    for (int e = 0; e < 4; e++) for (int k = 0; k <= DEG * LEN; k++) T.c[e][k] = 0;
    for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) for (int c = 0; c < 2; c++) for (int k = 0; k <= DEG * (LEN - 1 - i); k++) for (int l = 0; l <= DEG; l++) T.c[2 * a + b][k + l] += R.c[2 * a + c][k] * S.c[2 * c + b][l];
    R = T;
  }
  for (int e = 0; e < 4; e++) for (int k = 0; k <= DEG * LEN; k++) vf_cclose(sc * res[e * (DEG * LEN + 1) + DEG * LEN - k], R.c[e][k], 1e-9, "coefficient of the transfer matrix");
  vf_reach("fscatter");
}
void h_zerofreq(void) { /* at frequency zero (z=1) every splitting is the exact matrix exponential */
  COMPLEX q, r, root; UINT deg; REAL eps = 0.75, h = HALF ? eps / 2 : eps; sample(0, &q, &r, &root); (void)CCOS(h * 0.5 / DEG * root);
  COMPLEX *res = vf_buf(numel(1) * sizeof(COMPLEX)), E[4]; vf_assert(call(1, &q, &r, eps, res, &deg, NULL) == SUCCESS, "fast scattering succeeds");
  expB(E, h, SWAP ? r : q, SWAP ? q : r, root);
  for (int e = 0; e < 4; e++) { COMPLEX s = 0; for (UINT k = 0; k <= deg; k++) s += res[e * (deg + 1) + k]; vf_cclose(s, E[e], 1e-9, "exact at frequency zero"); }
  vf_reach("zerofreq");
}
void h_fscatter_bad(void) {
  COMPLEX q[2] = {1, 2}, r[2] = {1, 1}, res[200]; UINT deg, D = 2; REAL eps = 0.5; int d = DIS, w = vf_choice("bad", 7); COMPLEX *pq = q, *pr = res; UINT *pd = &deg; long mark = vf_heap_mark();
  switch (w) { case 0: D = 0; break; case 1: pq = NULL; break; case 2: eps = 0; break; case 3: eps = -0.5; break; case 4: pr = NULL; break; case 5: pd = NULL; break; case 6: { int k = vf_choice("d", 3); d = k == 0 ? 999 : k == 1 ? (EQ == 0 ? fnft__akns_discretization_BO : EQ == 1 ? nse_discretization_BO : kdv_discretization_BO) : (EQ == 0 ? fnft__akns_discretization_CF4_2 : EQ == 1 ? nse_discretization_CF4_2 : kdv_discretization_CF4_2); break; } }
  INT rc = EQ == 0 ? akns_fscatter(D, pq, r, eps, pr, pd, NULL, d) : EQ == 1 ? nse_fscatter(D, pq, r, eps, pr, pd, NULL, d) : kdv_fscatter(D, pq, r, eps, 1, pr, pd, NULL, d);
  vf_assert(rc != SUCCESS, "bad arguments and slow discretizations are refused"); vf_leak(mark, "refused call leaks"); vf_reach("bad");
}
