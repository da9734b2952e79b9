/* C17, C18: slow scattering. EQ 0 NSE (general q, r), 1 KdV without and 2 KdV with _VANILLA; METHOD: BO CF4_2 ... ; NU: upsampling;
   NS: number of steps; step SYM (default: the first) is symbolic, the others concrete.
   Every step exponential exp(Om) with Om = [x y; z -x] is parametrized by its root w = sqrt(-x*x-y*z), so that the solver only sees polynomials in w, lambda and cos(w), sin(w)/w. */
#define FNFT_ENABLE_SHORT_NAMES
#include "vf.h"
#include "fnft__misc.h"
#include "fnft__akns_discretization.h"
#include "fnft__nse_scatter.h"
#include "fnft__kdv_scatter.h"
#ifndef EQ
#define EQ 0
#endif
#define M_BO 0
#define M_CF4_2 1
#define M_CF4_3 2
#define M_CF5_3 3
#define M_CF6_4 4
#define M_ES4 5
#define M_TES4 6
#ifndef METHOD
#define METHOD BO
#endif
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define MET CAT(M_, METHOD)
#if MET == 0
#define NU 1
#elif MET == 1
#define NU 2
#elif MET == 4
#define NU 4
#else
#define NU 3
#endif
#ifndef NS
#define NS 1
#endif
#ifndef DERIV
#define DERIV 0
#endif
#ifndef KIND /* 0 w real, 1 w imaginary, 2 w complex */
#define KIND 0
#endif
#ifndef LAM /* 0 real symbolic, 1 imaginary symbolic, 2 complex symbolic, 3 concrete, 4 zero */
#define LAM 0
#endif
#ifndef WLO
#define WLO 1.125
#define WHI 2.0
#endif
#ifndef EPST
#define EPST 0.75
#endif
#ifndef SYMM /* which exponential of the symbolic step is symbolic */
#define SYMM 0
#endif
#ifndef VAR
#define VAR 0
#endif
#ifndef W1SYM /* TES4: the first exponential is symbolic as well */
#define W1SYM 1
#endif
#ifndef NLAM
#define NLAM 1
#endif
#ifndef TOL
#define TOL 1e-9
#endif
#define D (NS * NU)
#if EQ == 0
#define DISC CAT(nse_discretization_, METHOD)
#elif EQ == 1
#define DISC CAT(kdv_discretization_, METHOD)
#else
#define DISC CAT(CAT(kdv_discretization_, METHOD), _VANILLA)
#endif
typedef struct { COMPLEX x, y, z, dx, dy, dz, w, c, s; } EXPO; /* c = cos w, s = sin(w)/w */
#define MAXE (NS * 4 + 4)
static EXPO ex[MAXE]; static int nex;
static COMPLEX q[D], r[D], lam; static REAL eps = EPST;
static COMPLEX *cfw; static COMPLEX cfe[4];
static COMPLEX root(int sym, int j) {
#if defined(ZERO)
  return 0;
#else
  if (!sym) return vf_mk(1.25 + 0.125 * j, KIND == 1 || EQ ? 0 : 0.125);
#if KIND == 0
  return vf_mk(vf_double("w", WLO, WHI), 0);
#elif KIND == 1
  return vf_mk(0, vf_double("w", WLO, WHI));
#else
  double a = vf_double("wr", WLO, WHI), b = vf_double("wi", 0.25, 0.5); return vf_mk(a, b);
#endif
#endif
}
static void push(COMPLEX x, COMPLEX y, COMPLEX z, COMPLEX dx, COMPLEX dy, COMPLEX dz, COMPLEX w) {
  EXPO *e = ex + nex++; e->x = x; e->y = y; e->z = z; e->dx = dx; e->dy = dy; e->dz = dz; e->w = w; e->c = CCOS(w); e->s = w == 0 ? 1 : CSIN(w) / w;
}
static const COMPLEX *van; /* unused */
/* one exponential exp(h*[-i lam, q; r, i lam]) with the root h*k*i, k*k = q r - lam^2 */
static void bo(int sym, int j, COMPLEX h, COMPLEX *qq, COMPLEX *rr) {
  COMPLEX w = root(sym, j), k = w / (I * h), v = k * k + lam * lam;
#if defined(ZERO) && EQ /* vacuum: the exponent has the root lambda*h */
  k = I * lam; w = lam * h; v = 0;
#elif defined(ZERO)
  k = I * lam; w = lam * h;
#endif
#if EQ == 0
#ifdef ZERO
  *qq = 0; *rr = 0; (void)v;
#else
  *qq = vf_mk(0.8, -0.6 + 0.25 * j); *rr = v / *qq;
#endif
#else
  *qq = -v; *rr = -1;
#endif
  vf_csqrt_hint(CREAL(k), CIMAG(k));
  if (EQ == 1) push(-I * lam * h, *rr * h, *qq * h, -I * h, 0, 0, w); else push(-I * lam * h, *qq * h, *rr * h, -I * h, 0, 0, w);
}
static void steps(int symstep) {
  nex = 0;
  for (int t = 0; t < NS; t++) {
    const int sym = t == symstep; COMPLEX *Q = q + NU * t, *R = r + NU * t; COMPLEX u = 0; (void)u;
#if MET <= 4
    for (int m = 0; m < NU; m++) bo(sym && m == SYMM, NU * t + m, eps * cfe[m], Q + m, R + m);
#elif MET == 5 /* exp(h A0 + h^3/24 A'' - h^3/12 [A0, A']) */
    const double h = eps, h3 = h * h * h; COMPLEX w = root(sym, t), *A = EQ == 1 ? R : Q, *B = EQ == 1 ? Q : R, x, y, z; (void)x; (void)y; (void)z;
#if EQ == 1 /* constant first potential, second free */
    A[0] = -1; A[1] = A[2] = 0; B[1] = vf_mk(-0.5, 0); B[2] = vf_mk(0.25 + 0.125 * t, 0);
#elif EQ == 2
    B[0] = -1; B[1] = B[2] = 0; A[1] = vf_mk(-0.5, 0); A[2] = vf_mk(0.25 + 0.125 * t, 0);
#elif VAR == 0 /* A' = 0: B free; VAR 1: B' = 0: A free; VAR 2: A'' free, lambda concrete */
    A[0] = vf_mk(0.75, 0.5); A[1] = 0; A[2] = vf_mk(0.5, -0.25 + 0.125 * t); B[1] = vf_mk(-0.5, 0.75); B[2] = vf_mk(0.25, 0.125);
#elif VAR == 1
    B[0] = vf_mk(0.75, 0.5); B[1] = 0; B[2] = vf_mk(0.5, -0.25 + 0.125 * t); A[1] = vf_mk(-0.5, 0.75); A[2] = vf_mk(0.25, 0.125);
#else
    B[0] = vf_mk(0.75, 0.5); B[1] = vf_mk(-0.25, 0.125 * t + 0.5); B[2] = vf_mk(0.5, -0.25); A[0] = sym ? vf_cplx("q", -1.0, 1.0) : vf_mk(0.5, 0.25); A[1] = sym ? vf_cplx("qd", -1.0, 1.0) : vf_mk(0.25, -0.5);
#endif
#ifdef ZERO
    for (int i = 0; i < 3; i++) { A[i] = EQ == 1 && i == 0 ? -1 : 0; B[i] = EQ == 2 && i == 0 ? -1 : 0; }
    w = lam * h;
#elif EQ == 1 || (EQ == 0 && VAR == 0)
    x = -I * lam * h - h3 / 12 * (A[0] * B[1]); y = h * A[0] + h3 / 24 * A[2]; B[0] = ((-w * w - x * x) / y - h3 / 24 * B[2] + h3 / 12 * 2 * I * lam * B[1]) / h;
#elif EQ == 2 || VAR == 1
    x = -I * lam * h + h3 / 12 * (A[1] * B[0]); z = h * B[0] + h3 / 24 * B[2]; A[0] = ((-w * w - x * x) / z - h3 / 24 * A[2] - h3 / 12 * 2 * I * lam * A[1]) / h;
#else
    x = -I * lam * h - h3 / 12 * (A[0] * B[1] - A[1] * B[0]); z = h * B[0] + h3 / 24 * B[2] - h3 / 12 * 2 * I * lam * B[1]; A[2] = 24 / h3 * ((-w * w - x * x) / z - h * A[0] - h3 / 12 * 2 * I * lam * A[1]);
#endif
    push(-I * lam * h - h3 / 12 * (A[0] * B[1] - A[1] * B[0]), h * A[0] + h3 / 24 * A[2] + h3 / 12 * 2 * I * lam * A[1], h * B[0] + h3 / 24 * B[2] - h3 / 12 * 2 * I * lam * B[1], -I * h, h3 / 12 * 2 * I * A[1], -h3 / 12 * 2 * I * B[1], w);
    vf_csqrt_hint(CREAL(w), CIMAG(w)); (void)u;
#else /* TES4: exp(h^3/48 Q2 + h^2/12 Q1) exp(h A0) exp(h^3/48 Q2 - h^2/12 Q1) */
    const double h = eps, a = h * h * h / 48, b = h * h / 12; COMPLEX *A = EQ == 1 ? R : Q, *B = EQ == 1 ? Q : R;
    A[1] = vf_mk(0.5, 0.25); A[2] = vf_mk(-0.25, 0.75 + 0.125 * t); B[1] = B[2] = 0; COMPLEX zm = 0, zp = 0, w1 = 0, w2 = 0;
#if EQ || defined(ZERO)
#if EQ
    Q[1] = 0.5; Q[2] = -0.25; R[1] = R[2] = 0;
#endif
#ifdef ZERO
    Q[1] = Q[2] = 0;
#endif
    COMPLEX ym = a * A[2] - b * A[1], yp = a * A[2] + b * A[1]; zm = a * B[2] - b * B[1]; zp = a * B[2] + b * B[1];
#else
    w1 = root(sym && W1SYM, 5 * t); w2 = root(0, 5 * t + 1);
    COMPLEX ym = a * A[2] - b * A[1], yp = a * A[2] + b * A[1]; zm = -w1 * w1 / ym; zp = -w2 * w2 / yp; B[2] = (zm + zp) / (2 * a); B[1] = (zp - zm) / (2 * b);
    vf_csqrt_hint(CREAL(w1), CIMAG(w1)); vf_csqrt_hint(CREAL(w2), CIMAG(w2));
#endif
    push(0, ym, zm, 0, 0, 0, w1); bo(sym, 5 * t + 2, h, Q, R); push(0, yp, zp, 0, 0, 0, w2);
#endif
  }
}
static void mm(COMPLEX const *A, COMPLEX const *B, COMPLEX *C) { for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) C[2 * i + j] = A[2 * i] * B[j] + A[2 * i + 1] * B[2 + j]; }
static void expo(const EXPO *e, COMPLEX *E, COMPLEX *dE) {
  E[0] = e->c + e->s * e->x; E[1] = e->s * e->y; E[2] = e->s * e->z; E[3] = e->c - e->s * e->x;
  if (!DERIV) return;
  /* dw = -g/w, dc = s g, ds = -(c-s)/w^2 g */
  COMPLEX g = e->x * e->dx + 0.5 * (e->dy * e->z + e->y * e->dz), m = e->w == 0 ? -1 / 3. : misc_CSINC_derivative(e->w) / e->w, dc = e->s * g, ds = -m * g;
  dE[0] = dc + ds * e->x + e->s * e->dx; dE[1] = ds * e->y + e->s * e->dy; dE[2] = ds * e->z + e->s * e->dz; dE[3] = dc - ds * e->x - e->s * e->dx;
}
static void prod(COMPLEX *S, COMPLEX *dS) { /* product of all step exponentials, first step rightmost */
  COMPLEX E[4], dE[4], P[4], Q1[4], Q2[4]; for (int i = 0; i < 4; i++) { S[i] = i % 3 == 0; dS[i] = 0; }
  for (int n = 0; n < nex; n++) { expo(ex + n, E, dE); if (DERIV) { mm(dE, S, Q1); mm(E, dS, Q2); for (int i = 0; i < 4; i++) dS[i] = Q1[i] + Q2[i]; } mm(E, S, P); for (int i = 0; i < 4; i++) S[i] = P[i]; }
}
/* KdV: S basis = T (AKNS basis), both the matrix and its derivative; see C21 */
static void basis(COMPLEX *T, COMPLEX *dT, COMPLEX *F, COMPLEX *dF) {
  COMPLEX h = -0.5 * I / lam, dh = 0.5 * I / (lam * lam), g = 2 * I * lam, dg = 2 * I;
  if (EQ == 2) { T[0] = h; T[1] = 0; T[2] = -h; T[3] = 1; dT[0] = dh; dT[1] = 0; dT[2] = -dh; dT[3] = 0; F[0] = g; F[1] = 0; F[2] = 1; F[3] = 1; dF[0] = dg; dF[1] = dF[2] = dF[3] = 0; }
  else { T[0] = 1; T[1] = h; T[2] = 0; T[3] = -h; dT[0] = 0; dT[1] = dh; dT[2] = 0; dT[3] = -dh; F[0] = 1; F[1] = 1; F[2] = 0; F[3] = -g; dF[0] = dF[1] = dF[2] = 0; dF[3] = -dg; F[1] = 1; }
}
static void reference(COMPLEX *S, COMPLEX *dS) {
  prod(S, dS);
#if EQ
  COMPLEX T[4], dT[4], F[4], dF[4], A[4], B[4], C[4]; basis(T, dT, F, dF);
  if (DERIV) { COMPLEX R[4]; mm(dT, S, A); mm(A, F, R); mm(T, dS, A); mm(A, F, B); mm(T, S, A); mm(A, dF, C); for (int i = 0; i < 4; i++) dS[i] = R[i] + B[i] + C[i]; }
  mm(T, S, A); mm(A, F, S);
#endif
}
static void lambda(void) {
#if LAM == 0
  lam = vf_mk(vf_double("l", 0.25, 1.5), 0);
#elif LAM == 1
  lam = vf_mk(0, vf_double("l", 0.25, 1.5));
#elif LAM == 2
  lam = vf_cplx("l", 0.25, 1.5);
#elif LAM == 3
  lam = vf_mk(0.5, 0.375);
#elif LAM == 5
  lam = vf_mk(0, 0.625);
#else
  lam = 0;
#endif
}
static void weights(void) {
  COMPLEX *qw = NULL, *ew = NULL;
#if MET <= 4
  if (akns_discretization_method_weights(&qw, &ew, CAT(fnft__akns_discretization_, METHOD)) != SUCCESS) exit(45); /* verified by C20 */
  for (int i = 0; i < NU; i++) cfe[i] = ew[i]; free(qw); free(ew);
#endif
}
static INT call(UINT K, COMPLEX *l, COMPLEX *res, INT *W) { return EQ ? kdv_scatter_matrix(D, q, r, eps, EQ == 1 ? 1 : 1, K, l, res, W, DISC, DERIV) : nse_scatter_matrix(D, q, r, eps, 1, K, l, res, W, DISC, DERIV); }
void h_scatter(void) {
  const int n1 = DERIV ? 8 : 4; COMPLEX S[4], dS[4] = {0}, l[2], q0[D], r0[D]; INT Wv[2] = {77, 77}; INT *W = NULL;
#ifndef SYM
#define SYM 0
#endif
  weights(); lambda(); steps(SYM);
#ifdef WITHW
  W = Wv;
#endif
  for (int i = 0; i < D; i++) { q0[i] = q[i]; r0[i] = r[i]; }
  COMPLEX *res = vf_buf(n1 * sizeof(COMPLEX)); long mark = vf_heap_mark(); l[0] = lam;
  INT rc = call(1, l, res, W);
  vf_assert(rc == SUCCESS, "slow scattering succeeds"); vf_leak(mark, "slow scattering leaks"); vf_init(res, n1 * sizeof(COMPLEX), "the result is filled");
  for (int i = 0; i < D; i++) { vf_cclose(q[i], q0[i], 0, "input is kept"); vf_cclose(r[i], r0[i], 0, "input is kept"); }
  double sc = 1; if (W) { vf_assert(W[0] > -1000 && W[0] < 1000, "exponent"); sc = ldexp(1.0, W[0]); }
  reference(S, dS);
  for (int i = 0; i < 4; i++) vf_cclose(sc * res[i], S[i], TOL, "entry of the scattering matrix");
  if (DERIV) for (int i = 0; i < 4; i++) vf_cclose(sc * res[4 + i], dS[i], TOL, "derivative of the scattering matrix");
  vf_reach("scatter");
}
void h_csincd(void) { /* series of the derivative of sin(x)/x around zero */
  double a = vf_double("a", -0.7, 0.7), b = vf_double("b", -0.7, 0.7); COMPLEX x = vf_mk(a, b), s = 0; vf_assume(a * a + b * b < 0.98);
  double f = 1; COMPLEX p = x; for (int n = 1; n <= 9; n++) { f *= (2 * n) * (2 * n + 1); s += (n % 2 ? -1.0 : 1.0) * 2 * n / f * p; p *= x * x; }
  vf_cclose(misc_CSINC_derivative(x), s, 1e-12, "derivative of the sinc function"); vf_reach("csincd");
}
void h_scatter_bad(void) {
  COMPLEX qq[12] = {1, 2}, rr[12] = {1, 1}, res[8], l = 0.5; UINT N = NU, K = 1; REAL e = 0.5; int d = DISC, w = vf_choice("bad", 9); COMPLEX *pq = qq, *pr = rr, *po = res, *pl = &l; UINT der = DERIV; long mark = vf_heap_mark(); INT kappa = 1;
  switch (w) { case 0: N = 0; break; case 1: pq = NULL; break; case 2: pr = NULL; break; case 3: e = vf_choice("e", 2) ? 0 : -0.5; break; case 4: K = 0; break; case 5: pl = NULL; break; case 6: po = NULL; break; case 7: der = 2; break;
    case 8: { int k = vf_choice("d", 2); d = k ? 999 : EQ == 0 ? nse_discretization_2SPLIT4B : kdv_discretization_2SPLIT4B; } }
  INT rc = EQ ? kdv_scatter_matrix(N, pq, pr, e, kappa, K, pl, po, NULL, d, der) : nse_scatter_matrix(N, pq, pr, e, kappa, K, pl, po, NULL, d, der);
  vf_assert(rc != SUCCESS, "bad arguments and fast discretizations are refused"); vf_leak(mark, "refused call leaks"); vf_reach("bad");
}

#if NS >= 2
static void fpart(int n0, int n1, COMPLEX *S) { COMPLEX E[4], dE[4], P[4]; for (int i = 0; i < 4; i++) S[i] = i % 3 == 0; for (int n = n0; n < n1; n++) { expo(ex + n, E, dE); mm(E, S, P); for (int i = 0; i < 4; i++) S[i] = P[i]; } }
void h_bound(void) {
  COMPLEX S[4], dS[4] = {0}, a = 55, ap = 66, b = 77, l; INT Wv[1] = {77}, *W = NULL;
#ifdef SKIPB
  int skip = 1;
#else
  int skip = vf_choice("skip_b", 2);
#endif
  REAL T[2]; T[0] = -0.5; T[1] = T[0] + EPST * (NS - 1);
#ifdef WITHW
  W = Wv;
#endif
  weights(); lambda(); steps(SYM); l = lam;
  long mark = vf_heap_mark();
  INT rc = EQ ? kdv_scatter_bound_states(D, q, r, T, 1, &l, &a, &ap, skip ? NULL : &b, W, DISC, skip) : nse_scatter_bound_states(D, q, r, T, 1, &l, &a, &ap, skip ? NULL : &b, W, DISC, skip);
  vf_assert(rc == SUCCESS, "scattering at the bound state succeeds"); vf_leak(mark, "bound state scattering leaks");
  double sc = 1; if (W) { vf_assert(W[0] > -1000 && W[0] < 1000, "exponent"); sc = ldexp(1.0, W[0]); }
  reference(S, dS);
  const double len = T[1] - T[0] + eps; const COMPLEX ph = CEXP(I * lam * (T[1] + 0.5 * eps)) * CEXP(-I * lam * (T[0] - 0.5 * eps));
  COMPLEX ra = S[0] * ph, rp = (dS[0] + I * len * S[0]) * ph;
#if EQ && (MET == 3 || MET == 4) /* complex step sizes: only the real part of a and the imaginary part of a' are kept */
  ra = CREAL(ra); rp = I * CIMAG(rp);
#endif
  vf_cclose(sc * a, ra, TOL, "a is the first entry of the scattering matrix with the boundary phases");
  vf_cclose(sc * ap, rp, TOL, "a' is the derivative of a");
  if (!skip) {
    const int per = nex / NS; int hit = 0; COMPLEX Tm[4] = {1, 0, 0, 1}, dm[4], Fm[4] = {1, 0, 0, 1}, f0[2], f1[2], g[2], ps[NS], pp[NS];
#if EQ
    basis(Tm, dm, Fm, dm);
#endif
    f0[0] = Fm[0] * CEXP(-I * lam * (T[0] - 0.5 * eps)); f0[1] = Fm[2] * CEXP(-I * lam * (T[0] - 0.5 * eps)); f1[0] = Fm[1] * CEXP(I * lam * (T[1] + 0.5 * eps)); f1[1] = Fm[3] * CEXP(I * lam * (T[1] + 0.5 * eps));
    for (int n = 1; n < NS; n++) { COMPLEX A[4], B[4]; fpart(0, n * per, A); fpart(n * per, nex, B);
      g[0] = A[0] * f0[0] + A[1] * f0[1]; g[1] = A[2] * f0[0] + A[3] * f0[1]; pp[n] = Tm[0] * g[0] + Tm[1] * g[1];
      g[0] = B[3] * f1[0] - B[1] * f1[1]; g[1] = -B[2] * f1[0] + B[0] * f1[1]; ps[n] = Tm[0] * g[0] + Tm[1] * g[1]; }
#if EQ && (MET == 3 || MET == 4)
    for (int n = 1; n < NS; n++) { pp[n] = CREAL(pp[n]); ps[n] = CREAL(ps[n]); }
#endif
    if (NS == 2) { vf_assert(CREAL(b) != 77, "b is set"); if (!EQ || CREAL(b) == CREAL(b)) /* KdV: NaN where no sample is suitable */ vf_cclose(b * ps[1], pp[1], TOL, "b is the ratio of the forward and backward solutions at the matching point"); vf_reach("b"); }
    (void)hit;
  }
  vf_reach("bound");
}
#endif
