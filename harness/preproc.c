/* C10: signal preprocessing of the NSE, KdV and Manakov transforms. EQ: 0 NSE, 1 KdV, 2 Manakov; DIS the discretization. */
#define FNFT_ENABLE_SHORT_NAMES
#include "vf.h"
#include "fnft__misc.h"
#include "fnft__nse_discretization.h"
#include "fnft__kdv_discretization.h"
#include "fnft__manakov_discretization.h"
#ifndef LEN
#define LEN 7
#endif
#ifndef EQ
#define EQ 0
#endif
#define EPS 0.375
#ifndef DIS
#define DIS 0
#endif
static COMPLEX rule(COMPLEX q, int kappa, int deriv) { return EQ == 1 ? (deriv ? 0.0 : -1.0) : kappa == 1 ? -CONJ(q) : CONJ(q); }
/* KIND: 0 plain, 1 CF4_2, 2 CF4_3, 3 CF5_3, 4 CF6_4, 5 ES4, 6 Manakov CF4_2 */
#ifndef KIND
#define KIND 0
#endif
static const int ups[] = {1, 2, 3, 3, 4, 3, 2};
static void weights(COMPLEX *w) { /* published weights (rows: stages, columns: nodes), normalized to unit row sums */
  const int S = ups[KIND], C = KIND == 1 ? 2 : 3;
#if KIND == 1
  double a = 0.5 + 1 / sqrt(3.0), b = 0.5 - 1 / sqrt(3.0); COMPLEX t[4] = {a, b, b, a};
#elif KIND == 2 /* Alvermann & Fehske, CF4:3 with Legendre coefficients */
  double f[3][3] = {{11 / 40., 20 / 87., 7 / 50.}, {9 / 20., 0, -7 / 25.}, {11 / 40., -20 / 87., 7 / 50.}}, x[3] = {sqrt(0.6), 0, -sqrt(0.6)}, g[3] = {5 / 18., 4 / 9., 5 / 18.}; COMPLEX t[9];
  for (int i = 0; i < 3; i++) for (int m = 0; m < 3; m++) t[i * 3 + m] = g[m] * (f[i][0] + 3 * x[m] * f[i][1] + 5 * (1.5 * x[m] * x[m] - 0.5) * f[i][2]);
#elif KIND == 3
  double s = sqrt(15.0); COMPLEX a = vf_mk((145 + 37 * s) / 900, (5 + 3 * s) / 300), b = vf_mk(-1 / 45., 1 / 15.), c = vf_mk((145 - 37 * s) / 900, (5 - 3 * s) / 300), d = vf_mk(-2 / 45., -s / 50), e = 22 / 45.;
  COMPLEX t[9] = {a, b, c, d, e, CONJ(d), CONJ(c), CONJ(b), CONJ(a)};
#elif KIND == 4
  COMPLEX a = vf_mk(0.245985577298764, 0.038734389227165), b = vf_mk(-0.046806149832549, 0.012442141491185), c = vf_mk(0.010894359342569, -0.004575808769067), d = vf_mk(0.062868370946917, -0.048761268117765), e = vf_mk(0.269028372054771, -0.012442141491185), g = vf_mk(-0.041970529810473, 0.014602687659668);
  COMPLEX t[12] = {a, b, c, d, e, g, g, e, d, c, b, a};
#else
  COMPLEX t[9] = {1};
#endif
  if (KIND >= 1 && KIND <= 4) for (int i = 0; i < S; i++) { COMPLEX s = 0; for (int j = 0; j < C; j++) s += t[i * C + j]; for (int j = 0; j < C; j++) w[i * C + j] = t[i * C + j] / s; }
}
void h_preproc(void) {
  COMPLEX q[LEN], in[LEN], *qp = NULL, *rp = NULL, x[3][LEN], w[12], ref[4], rref[4];
  const UINT D = LEN, want = vf_choice("want", LEN + 2); UINT Dsub = want, fl[2] = {99, 99}; const int kappa = EQ == 1 || vf_choice("kappa", 2) ? 1 : -1; const int U = ups[KIND];
  for (UINT i = 0; i < D; i++) in[i] = q[i] = vf_cplx("q", -1.0, 1.0);
#if EQ == 2
  COMPLEX q2[LEN], in2[LEN]; for (UINT i = 0; i < D; i++) in2[i] = q2[i] = vf_cplx("q2", -1.0, 1.0);
#endif
  long mark = vf_heap_mark();
#if EQ == 0
  INT rc = nse_discretization_preprocess_signal(D, q, EPS, kappa, &Dsub, &qp, &rp, fl, DIS);
#elif EQ == 1
  INT rc = kdv_discretization_preprocess_signal(D, q, EPS, kappa, &Dsub, &qp, &rp, fl, DIS);
#else
  INT rc = manakov_discretization_preprocess_signal(D, q, q2, EPS, &Dsub, &qp, &rp, fl, DIS);
#endif
  if (KIND == 6 && (want <= 2 || Dsub == 2) && rc != SUCCESS) { vf_leak(mark, "failed preprocessing leaks"); vf_reach("preproc"); return; } /* two samples cannot be resampled */
  vf_assert(rc == SUCCESS, "preprocessing succeeds"); vf_assert(qp && rp, "arrays are returned");
  vf_assert(Dsub >= 2 && Dsub <= D, "between 2 and D samples"); if (want >= D) vf_assert(Dsub == D, "no subsampling if all samples are wanted");
  vf_assert(fl[0] == 0 && fl[1] < D && fl[1] % (Dsub - 1) == 0, "positions in range and equally spaced");
  const UINT st = fl[1] / (Dsub - 1); vf_assert(st >= 1, "step");
  vf_init(qp, Dsub * U * sizeof(COMPLEX), "preprocessed array is filled"); vf_init(rp, Dsub * U * sizeof(COMPLEX), "preprocessed array is filled");
  for (UINT i = 0; i < D; i++) vf_cclose(q[i], in[i], 0, "input is kept");
  const double node = KIND == 1 ? sqrt(3.0) / 6 : sqrt(15.0) / 10;
#if KIND == 0
#elif KIND <= 4
  weights(w);
  vf_assert(misc_resample(D, EPS, q, -EPS * node * st, x[0]) == SUCCESS && misc_resample(D, EPS, q, EPS * node * st, x[2]) == SUCCESS, "resample");
#elif KIND == 6
  COMPLEX sub[2][LEN], y[2][2][LEN]; for (UINT i = 0; i < Dsub; i++) { sub[0][i] = in[i * st]; 
#if EQ == 2
  sub[1][i] = in2[i * st];
#endif
  }
  for (int p = 0; p < 2; p++) for (int c = 0; c < 2; c++) vf_assert(misc_resample(Dsub, 1.0, sub[p], 0.5 + (c ? 1 : -1) * sqrt(3.0) / 6, y[p][c]) == SUCCESS, "resample");
#endif
  for (UINT k = 0; k < Dsub; k++) {
    const UINT i = k * st; (void)i;
#if KIND == 0
    ref[0] = in[i]; rref[0] = rule(in[i], kappa, 0);
#if EQ == 2
    rref[0] = in2[i];
#endif
#elif KIND <= 4
    const int C = KIND == 1 ? 2 : 3; COMPLEX v[3]; v[0] = x[0][i]; v[C - 1] = x[2][i]; if (C == 3) v[1] = in[i];
    for (int s = 0; s < U; s++) { ref[s] = rref[s] = 0; for (int j = 0; j < C; j++) { ref[s] += w[s * C + j] * v[j]; rref[s] += w[s * C + j] * rule(v[j], kappa, 0); } }
#elif KIND == 5
    COMPLEX l = k ? in[i - st] : 0, m = in[i], r = k + 1 < Dsub ? in[i + st] : 0; const double h = EPS * st;
    ref[0] = m; ref[1] = (r - l) / (2 * h); ref[2] = (r - 2 * m + l) / (h * h);
    for (int s = 0; s < 3; s++) rref[s] = rule(ref[s], kappa, s);
#else
    const double a = 0.25 + sqrt(3.0) / 6, b = 0.25 - sqrt(3.0) / 6;
    ref[0] = a * y[0][0][k] + b * y[0][1][k]; ref[1] = b * y[0][0][k] + a * y[0][1][k];
    rref[0] = a * y[1][0][k] + b * y[1][1][k]; rref[1] = b * y[1][0][k] + a * y[1][1][k];
#endif
    for (int s = 0; s < U; s++) { vf_cclose(qp[k * U + s], ref[s], 1e-9, "preprocessed sample of q"); vf_cclose(rp[k * U + s], rref[s], 1e-9, EQ == 2 ? "preprocessed sample of q2" : "preprocessed sample of r"); }
  }
  free(qp); free(rp); vf_leak(mark, "preprocessing leaks"); vf_reach("preproc");
}
void h_preproc_bad(void) { /* unknown discretizations and bad arguments are refused and nothing is returned or leaked */
  COMPLEX q[3] = {1, 2, 3}, *qp = NULL, *rp = NULL; UINT Dsub = 3, fl[2] = {9, 9}; INT rc = 0; int w = vf_choice("what", 6); UINT D = 3; REAL eps = 0.5; int dis = 0;
  long mark = vf_heap_mark(); COMPLEX *qq = q; UINT *dp = &Dsub;
  switch (w) { case 0: dis = vf_choice("big", 2) ? 1000 : 77; break; case 1: D = vf_choice("D", 2); break; case 2: qq = NULL; break; case 3: eps = vf_choice("neg", 2) ? 0 : -1; break; case 4: dp = NULL; break; case 5: break; }
#if EQ == 0
  rc = nse_discretization_preprocess_signal(D, qq, eps, 1, dp, w == 5 ? NULL : &qp, &rp, fl, dis);
#elif EQ == 1
  rc = kdv_discretization_preprocess_signal(D, qq, eps, 1, dp, w == 5 ? NULL : &qp, &rp, fl, dis);
#else
  rc = manakov_discretization_preprocess_signal(D, qq, q, eps, dp, w == 5 ? NULL : &qp, &rp, fl, dis);
#endif
  vf_assert(rc != SUCCESS, "bad arguments are refused"); vf_assert(!qp && !rp, "nothing is returned on error"); vf_leak(mark, "refused call leaks"); vf_reach("bad");
}
