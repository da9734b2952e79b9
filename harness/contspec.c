/* C23, C24, C27: continuous spectra of the NSE (EQ 0) and the KdV (EQ 2: r=-1 "vanilla" AKNS basis, EQ 3: the other basis) as computed by the transforms.
   The reference multiplies the physical step operators exp(A h f), exp(B h f) of the scheme (word) on the real line and reads off a and b from the
   asymptotics, so that grids, signs, boundary phases, basis changes and output order are all determined independently of the library.
   SCH/SFX: splitting scheme; DIS: discretization; KAP: sign; LEN: samples; NSYM: how many samples are symbolic (ALLS: common symbolic factor) */
#define FNFT_ENABLE_SHORT_NAMES
#include "vf.h"
#include "fnft__misc.h"
#include "fnft_nsev.h"
#include "fnft_kdvv.h"
#include "fnft__nse_discretization.h"
#include "fnft__kdv_discretization.h"
#include "fnft__nse_scatter.h"
#ifndef EQ
#define EQ 0
#endif
#ifndef KAP
#define KAP 1
#endif
#ifndef LEN
#define LEN 2
#endif
#ifndef NSYM
#define NSYM 1
#endif
#ifndef NPT
#define NPT 3
#endif
#ifndef NORMF
#define NORMF 0
#endif
#ifndef TOL
#define TOL 1e-8
#endif
#ifdef NARROW
#define XLO 0.5
#define XHI 0.53125
#define YLO 0.25
#define YHI 0.28125
#define SLO 0.75
#define SHI 0.78125
#else
#define XLO 0.25
#define XHI 1.0
#define YLO (-0.75)
#define YHI 0.75
#define SLO 0.5
#define SHI 1.25
#endif
#ifndef UPS
#define UPS 1
#endif
#ifndef DIS
#define DIS nse_discretization_2SPLIT2A
#define SCH 2
#define SFX 'A'
#endif
#ifndef T0
#define T0 (-0.25)
#endif
#ifndef EPS
#define EPS 0.75
#endif
#ifndef X0
#define X0 (EQ ? 0.25 : -0.75)
#endif
#ifndef X1
#define X1 (EQ ? 1.25 : 0.5)
#endif
static void mm(const COMPLEX *A, const COMPLEX *B, COMPLEX *C) { COMPLEX R[4]; R[0] = A[0] * B[0] + A[1] * B[2]; R[1] = A[0] * B[1] + A[1] * B[3]; R[2] = A[2] * B[0] + A[3] * B[2]; R[3] = A[2] * B[1] + A[3] * B[3]; for (int i = 0; i < 4; i++) C[i] = R[i]; }
static void expA(COMPLEX *E, double h, double xi) { E[0] = vf_mk(cos(h * xi), -sin(h * xi)); E[3] = vf_mk(cos(h * xi), sin(h * xi)); E[1] = E[2] = 0; }
static void expB(COMPLEX *E, double a, COMPLEX q, COMPLEX r, COMPLEX root, int zero) {
  if (zero) { E[0] = E[3] = 1; E[1] = a * q; E[2] = a * r; return; }
  E[0] = E[3] = CCOS(a * root); COMPLEX s = CSIN(a * root) / root; E[1] = q * s; E[2] = r * s;
}
static void word(COMPLEX *P, int n, int odd, int firstA, double h, double xi, COMPLEX q, COMPLEX r, COMPLEX root, int zero) {
  COMPLEX E[4]; P[0] = P[3] = 1; P[1] = P[2] = 0;
  const int k = odd ? n + 1 : 2 * n + 1;
  for (int i = 0; i < k; i++) { double f = odd ? (i == 0 || i == n ? 1.0 / n : 2.0 / n) : (i == 0 || i == 2 * n ? 0.5 / n : 1.0 / n);
    if (((i % 2) == 0) == (firstA != 0)) expA(E, f * h, xi); else expB(E, f * h, q, r, root, zero);
    mm(P, E, P); }
}
static void acc(COMPLEX *S, const COMPLEX *P, double w) { for (int e = 0; e < 4; e++) S[e] += w * P[e]; }
static void refstep(COMPLEX *S, double h, double xi, COMPLEX q, COMPLEX r, COMPLEX root, int zero) {
  COMPLEX P[4]; for (int e = 0; e < 4; e++) S[e] = 0;
#if SCH == 0
  COMPLEX A[4]; expA(A, h / 2, xi); COMPLEX d = CSQRT(1 - h * q * h * r); P[0] = P[3] = 1 / d; P[1] = h * q / d; P[2] = h * r / d; mm(A, P, P); mm(P, A, S);
#elif SCH == 2 && SFX == 'A'
  word(S, 1, 0, 1, h, xi, q, r, root, zero); (void)P;
#elif SCH == 2 && SFX == 'S'
  word(P, 1, 1, 1, h, xi, q, r, root, zero); acc(S, P, 0.5); word(P, 1, 1, 0, h, xi, q, r, root, zero); acc(S, P, 0.5);
#elif SCH == 3 && SFX == 'S'
  word(P, 1, 0, 1, h, xi, q, r, root, zero); acc(S, P, 2 / 3.); word(P, 1, 0, 0, h, xi, q, r, root, zero); acc(S, P, 2 / 3.);
  word(P, 1, 1, 1, h, xi, q, r, root, zero); acc(S, P, -1 / 6.); word(P, 1, 1, 0, h, xi, q, r, root, zero); acc(S, P, -1 / 6.);
#elif SCH == 1000 /* exact exponential */
  if (zero && EQ == 0) { expA(S, h, xi); return; }
  COMPLEX k = CSQRT(xi * xi - q * r), s = CSIN(h * k) / k, c = CCOS(h * k); S[0] = c - I * xi * s; S[3] = c + I * xi * s; S[1] = q * s; S[2] = r * s; (void)P;
#else
  for (int n = 1; n <= (SCH % 2 ? SCH : SCH / 2); n += SCH % 2 ? 2 : 1) {
    double w = 1; for (int m = 1; m <= (SCH % 2 ? SCH : SCH / 2); m += SCH % 2 ? 2 : 1) if (m != n) w *= (double)(n * n) / (double)(n * n - m * m);
    word(P, n, SCH % 2, SFX == 'A', h, xi, q, r, root, zero); acc(S, P, w);
  }
#endif
}
static const double cr[5] = {1.0, 0.5, -0.75, 0.25, 0.625}, ci[5] = {0.0, 0.375, 0.5, -0.5, 0.125}, kq[5] = {1.0, 0.5, -0.75, 0.375, 0.625};
static COMPLEX q[LEN], r[LEN]; static COMPLEX root[LEN]; static int zero[LEN]; static double rho;
static void signal(void) {
  double x = 0, y = 0;
#if EQ == 0
#ifdef CONC
  x = 1; y = 0; rho = 1;
#elif defined(ONE)
  x = vf_double("qr", 0.25, 0.75); y = -0.75 * x; rho = 1.25 * x;
#else
  x = vf_double("qr", XLO, XHI); y = vf_double("qi", YLO, YHI); rho = SQRT(x * x + y * y);
#endif
  for (int i = 0; i < LEN; i++) { COMPLEX c = vf_mk(cr[i], ci[i]);
#ifdef ALLS
    const double m = sqrt(cr[i] * cr[i] + ci[i] * ci[i]); q[i] = vf_mk(x, y) * c; root[i] = m * rho;
#else
    if (i < NSYM) { q[i] = vf_mk(x, y); root[i] = rho; } else { q[i] = c; root[i] = sqrt(cr[i] * cr[i] + ci[i] * ci[i]); }
#endif
    r[i] = KAP > 0 ? -CONJ(q[i]) : CONJ(q[i]); if (KAP < 0) root[i] *= I; zero[i] = 0;
    vf_csqrt_hint(CREAL(root[i]), CIMAG(root[i])); }
#else
#ifdef CONC
  x = 0.875;
#else
  x = vf_double("s", SLO, SHI);
#endif
  (void)y;
  for (int i = 0; i < LEN; i++) { double c = kq[i];
#ifdef ALLS
    q[i] = c * x * x; root[i] = c > 0 ? vf_mk(sqrt(c) * x, 0) : vf_mk(0, sqrt(-c) * x);
#else
    if (i < NSYM) { q[i] = x * x; root[i] = x; } else { q[i] = c; root[i] = c > 0 ? vf_mk(sqrt(c), 0) : vf_mk(0, sqrt(-c)); }
#endif
    r[i] = -1; zero[i] = 0; vf_csqrt_hint(CREAL(root[i]), CIMAG(root[i])); }
#endif
#ifdef ZEROAT
  q[ZEROAT] = 0; r[ZEROAT] = EQ ? -1 : 0; zero[ZEROAT] = 1; root[ZEROAT] = 0;
#endif
}
static REAL tbeg = T0;
static INT call(int type, UINT M, REAL *XI, COMPLEX *res) {
  REAL T[2]; T[0] = tbeg; T[1] = tbeg + EPS * (LEN - 1);
#if EQ == 0
  fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.discretization = DIS; o.normalization_flag = NORMF; o.contspec_type = type == 0 ? nsev_cstype_BOTH : type == 1 ? nsev_cstype_REFLECTION_COEFFICIENT : nsev_cstype_AB;
  return fnft_nsev(LEN, q, T, M, res, XI, NULL, NULL, NULL, KAP, &o);
#else
  fnft_kdvv_opts_t o = fnft_kdvv_default_opts(); o.discretization = DIS; o.normalization_flag = NORMF; o.contspec_type = type == 0 ? kdvv_cstype_BOTH : type == 1 ? kdvv_cstype_REFLECTION_COEFFICIENT : kdvv_cstype_AB;
  return fnft_kdvv(LEN, q, T, M, res, XI, NULL, NULL, NULL, &o);
#endif
}
void h_cont(void) {
  COMPLEX all[3 * NPT], rho_[NPT], ab[2 * NPT], one[2]; REAL XI[2] = {X0, X1}, X2[2]; signal(); COMPLEX q0[LEN];
#ifdef XISYM
  XI[0] = vf_double("xi", X0, X1); XI[1] = XI[0] + 0.5;
#endif
  for (int i = 0; i < LEN; i++) q0[i] = q[i];
#if UPS > 1 && EQ == 0 /* hints for the roots of the resampled signal */
  { COMPLEX c[LEN], *cp = NULL, *rp = NULL; UINT Ds = LEN, fl[2]; for (int i = 0; i < LEN; i++) c[i] = vf_mk(cr[i], ci[i]);
    INT rc = nse_discretization_preprocess_signal(LEN, c, EPS, KAP, &Ds, &cp, &rp, fl, DIS); vf_assert(rc == SUCCESS, "preprocessing");
    for (UINT i = 0; i < LEN * UPS; i++) { double m = CABS(cp[i]) * rho; vf_csqrt_hint(KAP > 0 ? m : 0, KAP > 0 ? 0 : m); } free(cp); free(rp); }
#endif
#ifdef T0SYM
  tbeg = vf_double("t0", -2, 2);
#endif
  INT rc = call(0, NPT, XI, all); vf_assert(rc == SUCCESS, "the transform succeeds (BOTH)");
  for (int i = 0; i < LEN; i++) vf_cclose(q[i], q0[i], 0, "the signal is kept");
  const COMPLEX *R = all, *A = all + NPT, *B = all + 2 * NPT;
#ifndef ENERGY
  rc = call(1, NPT, XI, rho_); vf_assert(rc == SUCCESS, "the transform succeeds (reflection coefficient)");
  rc = call(2, NPT, XI, ab); vf_assert(rc == SUCCESS, "the transform succeeds (AB)");
  for (int i = 0; i < NPT; i++) {
    vf_cclose(rho_[i], R[i], TOL, "reflection coefficient: first block of the combined output");
    vf_cclose(ab[i], A[i], TOL, "a: second block of the combined output");
    vf_cclose(ab[NPT + i], B[i], TOL, "b: third block of the combined output");
    vf_cclose(rho_[i] * ab[i], ab[NPT + i], TOL, "the reflection coefficient is b/a");
  }
  const double h = (XI[1] - XI[0]) / (NPT - 1); X2[0] = XI[0] + h * (NPT - 1); X2[1] = X2[0] + 0.375;
  rc = call(2, 1 + 1, X2, ab); vf_assert(rc == SUCCESS, "the transform succeeds (other grid)");
  vf_cclose(ab[0], A[NPT - 1], TOL, "a at a frequency does not depend on the grid"); vf_cclose(ab[2], B[NPT - 1], TOL, "b at a frequency does not depend on the grid");
#endif
#ifdef T0SYM /* a is independent of the origin of the time axis, b only picks up a phase */
  { COMPLEX z[3 * NPT]; const REAL t0 = tbeg; tbeg = 0; rc = call(0, NPT, XI, z); vf_assert(rc == SUCCESS, "the transform succeeds (shifted interval)");
    for (int i = 0; i < NPT; i++) { const double xi = XI[0] + i * (XI[1] - XI[0]) / (NPT - 1); const COMPLEX p = vf_mk(COS(2 * xi * t0), -SIN(2 * xi * t0));
      vf_cclose(A[i], z[NPT + i], TOL, "a does not depend on the origin of time"); vf_cclose(B[i], z[2 * NPT + i] * p, TOL, "b picks up exp(-2 i xi t0)"); }
    tbeg = t0; }
#endif
#ifdef ENERGY
  for (int i = 0; i < NPT; i++) vf_close(CREAL(A[i]) * CREAL(A[i]) + CIMAG(A[i]) * CIMAG(A[i]) + KAP * (CREAL(B[i]) * CREAL(B[i]) + CIMAG(B[i]) * CIMAG(B[i])), 1, TOL, "|a|^2 + kappa |b|^2 = 1");
  (void)rho_; (void)ab; (void)X2; (void)one; (void)R;
#elif defined(SCH) && !defined(NOREF)
  { const double TL = tbeg - 0.5 * EPS, TR = tbeg + EPS * (LEN - 1) + 0.5 * EPS; (void)one;
    COMPLEX *qp = NULL, *rp = NULL; UINT Ds = LEN, fl[2];
    if (UPS > 1) { rc = nse_discretization_preprocess_signal(LEN, q, EPS, KAP, &Ds, &qp, &rp, fl, DIS); vf_assert(rc == SUCCESS, "preprocessing"); }
    for (int i = 0; i < NPT; i++) { const double xi = XI[0] + i * h; COMPLEX S[4] = {1, 0, 0, 1}, P[4];
      for (int n = 0; n < LEN * UPS; n++) {
        COMPLEX qq = UPS > 1 ? qp[n] : q[n], rr = UPS > 1 ? rp[n] : r[n], ro = UPS > 1 ? CSQRT(-qq * rr) : root[n];
        if (EQ == 3) refstep(P, EPS, xi, rr, qq, ro, zero[n]); else refstep(P, EPS / UPS, xi, qq, rr, ro, UPS > 1 ? 0 : zero[n]);
        mm(P, S, S); }
#ifdef SLOW
      { COMPLEX l = xi; rc = nse_scatter_matrix(LEN * UPS, qp, rp, EPS, KAP, 1, &l, S, NULL, DIS, 0); vf_assert(rc == SUCCESS, "slow scattering"); }
#endif
      COMPLEX u = S[0], v = S[2], a, b; const COMPLEX pa = vf_mk(COS(xi * (TR - TL)), SIN(xi * (TR - TL))), pb = vf_mk(COS(xi * (TR + TL)), -SIN(xi * (TR + TL)));
      if (EQ == 0) { a = u * pa; b = v * pb; }
      else if (EQ == 2) { u = S[0] * 2 * I * xi + S[1]; v = S[2] * 2 * I * xi + S[3]; a = u / (2 * I * xi) * pa; b = (v - u / (2 * I * xi)) * pb; }
      else { b = v / (-2 * I * xi); a = (u - b) * pa; b = b * pb; }
      vf_cclose(A[i], a, TOL, "a at the documented grid point"); vf_cclose(B[i], b, TOL, "b at the documented grid point"); }
    free(qp); free(rp); }
#endif
  vf_reach("cont");
}
