/* C16: fast Manakov scattering. DIS discretization, SCH/SFX splitting, DEG degree, DIR direction of the polarization, FT: 0 plain, 1 FTES4, SUZ Suzuki. */
#define FNFT_ENABLE_SHORT_NAMES
#include "vf.h"
#include "fnft__misc.h"
#include "fnft__manakov_fscatter.h"
#ifndef LEN
#define LEN 1
#endif
#ifndef NSYM
#define NSYM LEN
#endif
#ifndef DIS
#define DIS manakov_discretization_2SPLIT3A
#define SCH 3
#define SFX 'A'
#define DEG 6
#endif
#ifndef KAP
#define KAP 1
#endif
#ifndef FT
#define FT 0
#endif
#ifndef DIR
#define DIR 0
#endif
#ifndef MUL
#define MUL 1
#endif
#ifndef OFS
#define OFS 0
#endif
#define NC (DEG * LEN + 1)
typedef struct { COMPLEX c[9][NC]; } M3; /* low order first */
static void unit(M3 *P) { for (int e = 0; e < 9; e++) for (int i = 0; i < NC; i++) P->c[e][i] = (i == OFS && e % 4 == 0); }
static void mulA(M3 *P, int k) {
  for (int e = 0; e < 9; e++) if (e % 3) { if (k > 0) { for (int i = NC - 1; i >= k; i--) P->c[e][i] = P->c[e][i - k]; for (int i = 0; i < k; i++) P->c[e][i] = 0; } else if (k < 0) { for (int i = 0; i < NC + k; i++) P->c[e][i] = P->c[e][i - k]; for (int i = NC + k; i < NC; i++) P->c[e][i] = 0; } } }
static void mulB(M3 *P, const COMPLEX *E) { for (int i = 0; i < NC; i++) for (int r = 0; r < 3; r++) { COMPLEX v[3] = {P->c[3 * r][i], P->c[3 * r + 1][i], P->c[3 * r + 2][i]}; for (int j = 0; j < 3; j++) P->c[3 * r + j][i] = v[0] * E[j] + v[1] * E[3 + j] + v[2] * E[6 + j]; } }
/* exp([0 u v; -k conj(u) 0 0; -k conj(v) 0 0]) with u = f*q1, v = f*q2, f real, rho = sqrt(|q1|^2+|q2|^2) */
static void expB(COMPLEX *E, double f, COMPLEX q1, COMPLEX q2, double rho) {
  for (int i = 0; i < 9; i++) E[i] = i % 4 == 0; if (DIR == 9 || f == 0) return;
  COMPLEX root = KAP == 1 ? f * rho : I * (f * rho), c = CCOS(root); COMPLEX s = KAP == 1 ? CSIN(root) / rho : CSIN(root) / (I * rho); const double k = KAP; const double r2 = 1 / (rho * rho);
  COMPLEX w[3] = {0, q1, q2}; E[0] = c;
  for (int j = 1; j < 3; j++) { E[j] = w[j] * s; E[3 * j] = -k * CONJ(w[j]) * s; for (int l = 1; l < 3; l++) E[3 * j + l] = (j == l) + CONJ(w[j]) * w[l] * (c - 1) * r2; }
}
static void word(M3 *P, int n, int odd, int firstA, double eps, COMPLEX q1, COMPLEX q2, double rho) {
  COMPLEX E[9]; unit(P); double frac[32]; int isA[32], k = 0;
  if (odd) { for (int i = 0; i <= n; i++) { isA[k] = (i % 2 == 0) ? firstA : !firstA; frac[k++] = (i == 0 || i == n) ? 1.0 / n : 2.0 / n; } }
  else for (int i = 0; i <= 2 * n; i++) { isA[k] = (i % 2 == 0) ? firstA : !firstA; frac[k++] = (i == 0 || i == 2 * n) ? 0.5 / n : 1.0 / n; }
  for (int i = 0; i < k; i++) if (isA[i]) { double s = frac[i] * DEG; int w = (int)floor(s + 0.5); if (fabs(s - w) > 1e-9) exit(45); mulA(P, w); } else { expB(E, frac[i] * eps, q1, q2, rho); mulB(P, E); }
}
static void acc(M3 *S, const M3 *P, double w) { for (int e = 0; e < 9; e++) for (int i = 0; i < NC; i++) S->c[e][i] += w * P->c[e][i]; }
static void lmul(M3 *P, const COMPLEX *E) { for (int i = 0; i < NC; i++) for (int j = 0; j < 3; j++) { COMPLEX v[3] = {P->c[j][i], P->c[3 + j][i], P->c[6 + j][i]}; for (int r = 0; r < 3; r++) P->c[3 * r + j][i] = E[3 * r] * v[0] + E[3 * r + 1] * v[1] + E[3 * r + 2] * v[2]; } }
static void refstep(M3 *S, double eps, COMPLEX q1, COMPLEX q2, double rho) {
  static M3 P; for (int e = 0; e < 9; e++) for (int i = 0; i < NC; i++) S->c[e][i] = 0;
#ifdef SUZ
  static const double b[6] = {7 / 48., 3 / 8., -1 / 48., -1 / 48., 3 / 8., 7 / 48.}; static const int a[5] = {2, -2, 6, -2, 2}; COMPLEX E[9];
  unit(S); for (int i = 0; i < 6; i++) { expB(E, b[i] * eps, q1, q2, rho); mulB(S, E); if (i < 5) mulA(S, a[i]); } (void)P; (void)word; (void)acc;
#else
  for (int n = 1; n <= (SCH % 2 ? SCH : SCH / 2); n += SCH % 2 ? 2 : 1) {
    double w = 1; for (int m = 1; m <= (SCH % 2 ? SCH : SCH / 2); m += SCH % 2 ? 2 : 1) if (m != n) w *= (double)(n * n) / (double)(n * n - m * m);
    word(&P, n, SCH % 2, SFX == 'A', eps, q1, q2, rho); acc(S, &P, w);
  }
#endif
}
static void sample(int i, COMPLEX *q1, COMPLEX *q2, double *rho) {
  static const double dir[][4] = {{0.48, 0.36, -0.48, 0.64}, {0.28, -0.96, 0, 0}, {0, 0, -0.6, 0.8}, {0.6, 0, 0.8, 0}};
#if DIR == 8
  const int sym = i < NSYM; double a = sym ? vf_double("a", 0.25, 1.0) : 0.5, b = sym ? vf_double("b", -1.0, 1.0) : -0.25 * i, c = sym ? vf_double("c", -1.0, 1.0) : 0.375, d = sym ? vf_double("d", -1.0, 1.0) : 0.125;
  *q1 = vf_mk(a, b); *q2 = vf_mk(c, d); *rho = SQRT(a * a + b * b + c * c + d * d);
#elif FT && DIR != 9
  static const double mul[] = {MUL}; static double s; if (i == 0) s = vf_double("s", 0.25, 1.0);
  const double *v = dir[DIR % 4]; *q1 = vf_mk(mul[i] * s * v[0], mul[i] * s * v[1]); *q2 = vf_mk(mul[i] * s * v[2], mul[i] * s * v[3]); *rho = s; 
#elif DIR == 9
  *q1 = *q2 = 0; *rho = 0; (void)dir;
#else
  const double *v = dir[(DIR + i * (FT == 0)) % 4]; double s = i < NSYM ? vf_double("s", 0.25, 1.0) : 0.5 + 0.25 * i; *q1 = vf_mk(s * v[0], s * v[1]); *q2 = vf_mk(s * v[2], s * v[3]); *rho = s;
#endif
  if (DIR != 9) vf_csqrt_hint(KAP == 1 ? 0 : *rho, KAP == 1 ? *rho : 0);
}
void h_fscatter(void) {
  COMPLEX q1[LEN], q2[LEN], q10[LEN], q20[LEN]; double rho[LEN]; UINT deg = 77; REAL eps = 0.75; const int U = manakov_discretization_upsampling_factor(DIS);
#ifdef ANYD /* number of samples passed: the routine works on the (already upsampled) samples it is given */
#endif
  for (int i = 0; i < LEN; i++) { sample(i, q1 + i, q2 + i, rho + i); q10[i] = q1[i]; q20[i] = q2[i]; }
  UINT n = manakov_fscatter_numel(LEN, DIS); vf_assert(n >= 9 * NC && U >= 1, "buffer length holds nine polynomials");
  COMPLEX *res = vf_buf(n * sizeof(COMPLEX)); long mark = vf_heap_mark();
  INT rc = manakov_fscatter(LEN, q1, q2, KAP, eps, res, &deg, NULL, DIS);
  vf_assert(rc == SUCCESS, "fast scattering succeeds"); vf_assert(deg == DEG * LEN, "degree of the product"); vf_leak(mark, "fast scattering leaks");
  vf_init(res, 9 * NC * sizeof(COMPLEX), "transfer matrix is filled");
  for (int i = 0; i < LEN; i++) { vf_cclose(q1[i], q10[i], 0, "input is kept"); vf_cclose(q2[i], q20[i], 0, "input is kept"); }
#if FT && DIR != 9
  static const double *dv; static const double dir[][4] = {{0.48, 0.36, -0.48, 0.64}, {0.28, -0.96, 0, 0}, {0, 0, -0.6, 0.8}, {0.6, 0, 0.8, 0}}; dv = dir[DIR % 4];
  COMPLEX q1u = vf_mk(rho[0] * dv[0], rho[0] * dv[1]), q2u = vf_mk(rho[0] * dv[2], rho[0] * dv[3]);
#else
  COMPLEX q1u = 0, q2u = 0; (void)q1u; (void)q2u;
#endif
  static M3 R, S, T; for (int e = 0; e < 9; e++) for (int i = 0; i < NC; i++) R.c[e][i] = (i == 0 && e % 4 == 0);
  for (int i = LEN - 1; i >= 0; i--) {
    refstep(&S, eps, q1[i], q2[i], rho[i]);
#if FT
    { static const double mul[] = {MUL}; double l = mul[i ? i - 1 : 0], m = mul[i], r = mul[i + 1 < LEN ? i + 1 : LEN - 1]; /* border samples are repeated */
      const double d1 = (r - l) / 24, d2 = (r - 2 * m + l) / 48; COMPLEX E[9], u1 = q1u, u2 = q2u;
      refstep(&S, m * eps, u1, u2, rho[i]);
      expB(E, (d1 + d2) * eps, u1, u2, rho[i]); lmul(&S, E); expB(E, (d2 - d1) * eps, u1, u2, rho[i]); mulB(&S, E); }
#endif
    for (int e = 0; e < 9; e++) for (int k = 0; k < NC; k++) T.c[e][k] = 0;
    for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) for (int c = 0; c < 3; c++) for (int k = 0; k <= DEG * (LEN - 1 - i); k++) for (int l = 0; l <= DEG; l++) T.c[3 * a + b][k + l] += R.c[3 * a + c][k] * S.c[3 * c + b][l];
    R = T;
  }
  for (int e = 0; e < 9; e++) for (int k = 0; k < NC; k++) vf_cclose(res[e * NC + DEG * LEN - k], R.c[e][k], 1e-9, "coefficient of the transfer matrix");
  vf_reach("fscatter");
}
void h_bad(void) {
  COMPLEX q[2] = {1, 2}, res[2000]; UINT deg, D = 2; REAL eps = 0.5; int d = DIS, w = vf_choice("bad", 9), kap = 1; COMPLEX *pq = q, *pq2 = q, *pr = res; UINT *pd = &deg; long mark = vf_heap_mark();
  switch (w) { case 0: D = 0; break; case 1: pq = NULL; break; case 2: eps = 0; break; case 3: eps = -0.5; break; case 4: pr = NULL; break; case 5: pd = NULL; break; case 6: { int k = vf_choice("d", 3); d = k == 0 ? 999 : k == 1 ? manakov_discretization_BO : manakov_discretization_CF4_2; break; } case 7: pq2 = NULL; break; case 8: kap = vf_choice("k", 3) * 2 - 2; break; }
  INT rc = manakov_fscatter(D, pq, pq2, kap, eps, pr, pd, NULL, d); vf_assert(rc != SUCCESS, "bad arguments and slow discretizations are refused"); vf_leak(mark, "refused call leaks"); vf_reach("bad");
}
