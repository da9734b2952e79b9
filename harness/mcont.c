/* C25: continuous spectra of the Manakov transform. Reference: product of the physical step operators of the splitting (SCH, SFX) or the exact
   exponential (SCH 1000); without REF only relations between outputs (b/a, order, polarization swap, grid, origin of time) are checked. */
#define FNFT_ENABLE_SHORT_NAMES
#include "vf.h"
#include "fnft__misc.h"
#include "fnft_manakovv.h"
#ifndef KAP
#define KAP 1
#endif
#ifndef LEN
#define LEN 2
#endif
#ifndef NPT
#define NPT 2
#endif
#ifndef NORMF
#define NORMF 0
#endif
#ifndef TOL
#define TOL 1e-8
#endif
#ifndef DIS
#define DIS manakov_discretization_2SPLIT4B
#define SCH 4
#define SFX 'B'
#endif
#ifndef DIR
#define DIR 0
#endif
#define T0 (-0.25)
#define EPS 0.75
#ifndef X0
#define X0 (-0.75)
#endif
#ifndef X1
#define X1 0.5
#endif
static void mm(const COMPLEX *A, const COMPLEX *B, COMPLEX *C) { COMPLEX R[9]; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R[3 * i + j] = A[3 * i] * B[j] + A[3 * i + 1] * B[3 + j] + A[3 * i + 2] * B[6 + j]; for (int i = 0; i < 9; i++) C[i] = R[i]; }
static void expA(COMPLEX *E, double h, double xi) { for (int i = 0; i < 9; i++) E[i] = 0; E[0] = vf_mk(cos(h * xi), -sin(h * xi)); E[4] = E[8] = vf_mk(cos(h * xi), sin(h * xi)); }
static void expB(COMPLEX *E, double f, COMPLEX q1, COMPLEX q2, double rho) {
  for (int i = 0; i < 9; i++) E[i] = i % 4 == 0;
  COMPLEX root = KAP == 1 ? f * rho : I * (f * rho), c = CCOS(root); COMPLEX s = KAP == 1 ? CSIN(root) / rho : CSIN(root) / (I * rho); const double k = KAP, r2 = 1 / (rho * rho);
  COMPLEX w[3] = {0, q1, q2}; E[0] = c;
  for (int j = 1; j < 3; j++) { E[j] = w[j] * s; E[3 * j] = -k * CONJ(w[j]) * s; for (int l = 1; l < 3; l++) E[3 * j + l] = (j == l) + CONJ(w[j]) * w[l] * (c - 1) * r2; }
}
static void word(COMPLEX *P, int n, int odd, int firstA, double h, double xi, COMPLEX q1, COMPLEX q2, double rho) {
  COMPLEX E[9]; for (int i = 0; i < 9; i++) P[i] = i % 4 == 0; const int k = odd ? n + 1 : 2 * n + 1;
  for (int i = 0; i < k; i++) { double f = odd ? (i == 0 || i == n ? 1.0 / n : 2.0 / n) : (i == 0 || i == 2 * n ? 0.5 / n : 1.0 / n);
    if (((i % 2) == 0) == (firstA != 0)) expA(E, f * h, xi); else expB(E, f * h, q1, q2, rho);
    mm(P, E, P); }
}
static void refstep(COMPLEX *S, double h, double xi, COMPLEX q1, COMPLEX q2, double rho) {
#if SCH == 1000
  COMPLEX k = CSQRT(xi * xi + KAP * rho * rho), s = CSIN(h * k) / k, c = CCOS(h * k); COMPLEX w[3] = {0, q1, q2}; COMPLEX e = vf_mk(cos(h * xi), sin(h * xi)); const double r2 = 1 / (rho * rho);
  S[0] = c - I * xi * s; for (int j = 1; j < 3; j++) { S[j] = w[j] * s; S[3 * j] = -KAP * CONJ(w[j]) * s; for (int l = 1; l < 3; l++) S[3 * j + l] = (j == l ? e : 0) + CONJ(w[j]) * w[l] * r2 * (c + I * xi * s - e); }
  (void)word;
#else
  COMPLEX P[9]; for (int e = 0; e < 9; e++) S[e] = 0;
  for (int n = 1; n <= (SCH % 2 ? SCH : SCH / 2); n += SCH % 2 ? 2 : 1) {
    double w = 1; for (int m = 1; m <= (SCH % 2 ? SCH : SCH / 2); m += SCH % 2 ? 2 : 1) if (m != n) w *= (double)(n * n) / (double)(n * n - m * m);
    word(P, n, SCH % 2, SFX == 'A', h, xi, q1, q2, rho); for (int e = 0; e < 9; e++) S[e] += w * P[e];
  }
#endif
}
static COMPLEX q1[LEN], q2[LEN]; static double rho[LEN]; static REAL tbeg = T0;
static INT call(int type, int swap, UINT M, REAL *XI, COMPLEX *res) {
  REAL T[2]; T[0] = tbeg; T[1] = tbeg + EPS * (LEN - 1); fnft_manakovv_opts_t o = fnft_manakovv_default_opts(); o.discretization = DIS; o.normalization_flag = NORMF;
  o.contspec_type = type == 0 ? manakovv_cstype_BOTH : type == 1 ? manakovv_cstype_REFLECTION_COEFFICIENT : manakovv_cstype_AB;
  return fnft_manakovv(LEN, swap ? q2 : q1, swap ? q1 : q2, T, M, res, XI, NULL, NULL, NULL, KAP, &o);
}
void h_mcont(void) {
  static const double dir[][4] = {{0.5, 0.5, -0.5, 0.5}, {0, -1, 0, 0}, {0, 0, -1, 0}, {0.5, -0.5, 0.5, 0.5}};
  COMPLEX all[5 * NPT], sw[5 * NPT], rc_[2 * NPT], ab[3 * NPT], c1[LEN], c2[LEN]; REAL XI[2] = {X0, X1}, X2[2]; double s = 0.875;
#ifndef CONC
  s = vf_double("s", 0.25, 1.0);
#endif
#ifdef T0SYM
  tbeg = vf_double("t0", -2, 2);
#endif
  for (int i = 0; i < LEN; i++) { const double *v = dir[(DIR + i) % 4], m = i == 0 ? s : 0.75 - 0.25 * i; q1[i] = vf_mk(m * v[0], m * v[1]); q2[i] = vf_mk(m * v[2], m * v[3]); rho[i] = m; c1[i] = q1[i]; c2[i] = q2[i]; vf_csqrt_hint(KAP == 1 ? 0 : m, KAP == 1 ? m : 0); vf_csqrt_hint(KAP == 1 ? m : 0, KAP == 1 ? 0 : m); }
  INT rc = call(0, 0, NPT, XI, all); vf_assert(rc == SUCCESS, "the transform succeeds (BOTH)");
  for (int i = 0; i < LEN; i++) { vf_cclose(q1[i], c1[i], 0, "the signal is kept"); vf_cclose(q2[i], c2[i], 0, "the signal is kept"); }
  const COMPLEX *A = all + 2 * NPT, *B = all + 3 * NPT; const double h = (XI[1] - XI[0]) / (NPT - 1);
  rc = call(1, 0, NPT, XI, rc_); vf_assert(rc == SUCCESS, "the transform succeeds (reflection coefficients)");
  rc = call(2, 0, NPT, XI, ab); vf_assert(rc == SUCCESS, "the transform succeeds (AB)");
  rc = call(2, 1, NPT, XI, sw); vf_assert(rc == SUCCESS, "the transform succeeds (swapped polarizations)");
  for (int i = 0; i < NPT; i++) {
    vf_cclose(rc_[i], all[i], TOL, "first reflection coefficient: first block"); vf_cclose(rc_[NPT + i], all[NPT + i], TOL, "second reflection coefficient: second block");
    vf_cclose(ab[i], A[i], TOL, "a: third block"); vf_cclose(ab[NPT + i], B[i], TOL, "b1: fourth block"); vf_cclose(ab[2 * NPT + i], B[NPT + i], TOL, "b2: fifth block");
    vf_cclose(rc_[i] * A[i], B[i], TOL, "rho1 = b1/a"); vf_cclose(rc_[NPT + i] * A[i], B[NPT + i], TOL, "rho2 = b2/a");
    vf_cclose(sw[i], A[i], TOL, "a is independent of the order of the polarizations"); vf_cclose(sw[NPT + i], B[NPT + i], TOL, "swapped b1"); vf_cclose(sw[2 * NPT + i], B[i], TOL, "swapped b2");
  }
  X2[0] = XI[0] + h * (NPT - 1); X2[1] = X2[0] + 0.375; rc = call(2, 0, 2, X2, ab); vf_assert(rc == SUCCESS, "the transform succeeds (other grid)");
  vf_cclose(ab[0], A[NPT - 1], TOL, "a at a frequency does not depend on the grid"); vf_cclose(ab[2], B[NPT - 1], TOL, "b1 at a frequency does not depend on the grid"); vf_cclose(ab[4], B[2 * NPT - 1], TOL, "b2 at a frequency does not depend on the grid");
#ifdef T0SYM
  { const REAL t0 = tbeg; tbeg = 0; rc = call(0, 0, NPT, XI, sw); vf_assert(rc == SUCCESS, "the transform succeeds (shifted interval)");
    for (int i = 0; i < NPT; i++) { const double xi = XI[0] + i * h; const COMPLEX p = vf_mk(COS(2 * xi * t0), -SIN(2 * xi * t0));
      vf_cclose(A[i], sw[2 * NPT + i], TOL, "a does not depend on the origin of time"); vf_cclose(B[i], sw[3 * NPT + i] * p, TOL, "b1 picks up exp(-2 i xi t0)"); vf_cclose(B[NPT + i], sw[4 * NPT + i] * p, TOL, "b2 picks up exp(-2 i xi t0)"); }
    tbeg = t0; }
#endif
#ifdef ENERGY
  for (int i = 0; i < NPT; i++) { double e = 0; for (int k = 0; k < 3; k++) e += (k ? KAP : 1) * (CREAL(A[k * NPT + i]) * CREAL(A[k * NPT + i]) + CIMAG(A[k * NPT + i]) * CIMAG(A[k * NPT + i])); vf_close(e, 1, TOL, "|a|^2 + kappa (|b1|^2 + |b2|^2) = 1"); }
#endif
#ifdef REF
  { const double TL = tbeg - 0.5 * EPS, TR = tbeg + EPS * (LEN - 1) + 0.5 * EPS;
    for (int i = 0; i < NPT; i++) { const double xi = XI[0] + i * h; COMPLEX S[9], P[9]; for (int e = 0; e < 9; e++) S[e] = e % 4 == 0;
      for (int n = 0; n < LEN; n++) { refstep(P, EPS, xi, q1[n], q2[n], rho[n]); mm(P, S, S); }
      const COMPLEX pa = vf_mk(COS(xi * (TR - TL)), SIN(xi * (TR - TL))), pb = vf_mk(COS(xi * (TR + TL)), -SIN(xi * (TR + TL)));
      vf_cclose(A[i], S[0] * pa, TOL, "a at the documented grid point"); vf_cclose(B[i], S[3] * pb, TOL, "b1 at the documented grid point"); vf_cclose(B[NPT + i], S[6] * pb, TOL, "b2 at the documented grid point"); } }
#endif
  vf_reach("mcont");
}
