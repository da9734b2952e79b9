/* C11, C12, C13, C14: polynomial and FFT building blocks. */
#define FNFT_ENABLE_SHORT_NAMES
#include "vf.h"
#include "fnft__poly_fmult.h"
#include "fnft__poly_eval.h"
#include "fnft__poly_chirpz.h"
#include "fnft__fft_wrapper.h"
#ifndef N
#define N 3
#endif
#ifndef DEG
#define DEG 1
#endif
#ifndef NSYM
#define NSYM 1000
#endif
#ifndef WITHW
#define WITHW 0
#endif
#ifndef LO
#define LO -1.0
#endif
#ifndef HI
#define HI 1.0
#endif
static int symcnt;
static COMPLEX elem(int i) { /* the first NSYM coefficients are symbolic, the rest fixed */
#if WITHW
  if (symcnt++ < NSYM) return vf_mk(vf_double("p", LO, HI), 0.25);
#else
  if (symcnt++ < NSYM) return vf_cplx("p", LO, HI);
#endif
  return vf_mk(((i * 7) % 11 - 5) / 8.0, ((i * 5) % 13 - 6) / 16.0);
}
/* reference: schoolbook product of n polynomials of degree DEG (stride in elements) */
static void refprod(int n, COMPLEX const *p, COMPLEX *r) {
  COMPLEX t[64]; int d = 0; r[0] = 1.0;
  for (int k = 0; k < n; k++) {
    for (int i = 0; i <= d + DEG; i++) { t[i] = 0; for (int j = 0; j <= DEG; j++) if (i - j >= 0 && i - j <= d) t[i] += r[i - j] * p[k * (DEG + 1) + j]; }
    d += DEG; for (int i = 0; i <= d; i++) r[i] = t[i];
  }
}
static REAL pow2(int w) { REAL s = 1; for (; w > 0; w--) s *= 2; for (; w < 0; w++) s /= 2; return s; }
void h_fmult(void) {
  UINT deg = DEG, num = poly_fmult_numel(DEG, N); vf_assert(num >= (DEG + 1) * N && num >= DEG * N + 1, "buffer size covers input and output");
  COMPLEX *p = vf_buf(num * sizeof(COMPLEX)), in[(DEG + 1) * N], ref[DEG * N + 1];
  for (int i = 0; i < (DEG + 1) * N; i++) p[i] = in[i] = elem(i);
  refprod(N, in, ref);
  INT W = -777; long mark = vf_heap_mark();
  INT rc = poly_fmult(&deg, N, p, WITHW ? &W : NULL);
  vf_leak(mark, "poly_fmult leaks");
  vf_assert(rc == SUCCESS, "poly_fmult succeeds");
  vf_assert(deg == DEG * N, "degree of the product is n*deg");
  REAL s = 1, mx = 0;
  if (WITHW) s = pow2(W);
  for (int i = 0; i <= DEG * N; i++) vf_cclose(p[i] * s, ref[i], 1e-9, "coefficient of the product");
  if (WITHW) { for (int i = 0; i <= DEG * N; i++) { REAL a = CREAL(p[i]) * CREAL(p[i]) + CIMAG(p[i]) * CIMAG(p[i]); if (a > mx) mx = a; }
    vf_assert(mx <= 4 + 1e-9 && mx >= 1 - 1e-9, "normalized product has largest component in [1,2)"); }
  vf_reach("fmult");
}
/* MM x MM matrices of polynomials */
#ifndef MM
#define MM 2
#endif
#if MM == 2
#define FM poly_fmult2x2
#define FMN poly_fmult2x2_numel
#else
#define FM poly_fmult3x3
#define FMN poly_fmult3x3_numel
#endif
void h_fmultm(void) {
  const int e = DEG + 1; UINT deg = DEG, num = FMN(DEG, N);
  vf_assert(num >= MM * MM * e * N, "buffer size covers the input");
  COMPLEX *p = vf_buf(num * sizeof(COMPLEX)), *res = vf_buf(num * sizeof(COMPLEX));
  COMPLEX in[MM * MM][N * (DEG + 1)], acc[MM * MM][DEG * N + 1], t[MM * MM][DEG * N + 1];
  /* documented layout: entry (a,b) of all n factors contiguously, then the next entry */
  for (int m = 0; m < MM * MM; m++) for (int i = 0; i < N * e; i++) p[m * N * e + i] = in[m][i] = elem(m * 17 + i);
  int d = 0;
  for (int m = 0; m < MM * MM; m++) acc[m][0] = (m / MM == m % MM) ? 1.0 : 0.0;
  for (int k = 0; k < N; k++) {
    for (int a = 0; a < MM; a++) for (int b = 0; b < MM; b++) for (int i = 0; i <= d + DEG; i++) {
      COMPLEX s = 0;
      for (int c = 0; c < MM; c++) for (int j = 0; j <= DEG; j++) if (i - j >= 0 && i - j <= d) s += acc[a * MM + c][i - j] * in[c * MM + b][k * e + j];
      t[a * MM + b][i] = s; }
    d += DEG; for (int m = 0; m < MM * MM; m++) for (int i = 0; i <= d; i++) acc[m][i] = t[m][i];
  }
  INT W = -777; long mark = vf_heap_mark();
  INT rc = FM(&deg, N, p, res, WITHW ? &W : NULL);
  vf_leak(mark, "matrix product leaks");
  vf_assert(rc == SUCCESS, "matrix product succeeds");
  vf_assert(deg == DEG * N, "degree of the matrix product is n*deg");
  REAL s = WITHW ? pow2(W) : 1;
  for (int m = 0; m < MM * MM; m++) for (int i = 0; i <= DEG * N; i++) vf_cclose(res[m * (DEG * N + 1) + i] * s, acc[m][i], 1e-9, "entry of the matrix product");
  if (WITHW) { REAL mx = 0; for (int m = 0; m < MM * MM * (DEG * N + 1); m++) { REAL a = CREAL(res[m]) * CREAL(res[m]) + CIMAG(res[m]) * CIMAG(res[m]); if (a > mx) mx = a; } vf_assert(mx <= 4 + 1e-9 && mx >= 1 - 1e-9, "normalized matrix product is of order one"); }
  vf_reach("fmultm");
}
/* FFT */
#ifndef LEN
#define LEN 4
#endif
void h_fft(void) {
  COMPLEX in[LEN], cp[LEN], out[LEN], back[LEN], tw[LEN];
  for (int i = 0; i < LEN; i++) { cp[i] = in[i] = elem(i); REAL a = 2 * acos(-1.0) * i / LEN; tw[i] = vf_mk(cos(a), -sin(a)); }
  fft_wrapper_plan_t f = fft_wrapper_safe_plan_init(), b = fft_wrapper_safe_plan_init();
  long mark = vf_heap_mark();
  vf_assert(fft_wrapper_create_plan(&f, LEN, in, out, -1) == SUCCESS, "forward plan");
  vf_assert(fft_wrapper_create_plan(&b, LEN, out, back, 1) == SUCCESS, "inverse plan");
  vf_assert(fft_wrapper_execute_plan(f, in, out) == SUCCESS, "forward transform runs");
  for (int k = 0; k < LEN; k++) { COMPLEX s = 0; for (int i = 0; i < LEN; i++) s += cp[i] * tw[(i * k) % LEN]; vf_cclose(out[k], s, 1e-10, "forward transform is the DFT"); vf_cclose(in[k], cp[k], 0, "input of the transform is kept"); }
  vf_assert(fft_wrapper_execute_plan(b, cp, back) == SUCCESS, "inverse transform runs");
  for (int k = 0; k < LEN; k++) { COMPLEX s = 0; for (int i = 0; i < LEN; i++) s += cp[i] * CONJ(tw[(i * k) % LEN]); vf_cclose(back[k], s, 1e-10, "inverse transform is the unnormalized inverse DFT"); }
  fft_wrapper_destroy_plan(&f); fft_wrapper_destroy_plan(&b);
  vf_leak(mark, "FFT plans leak");
  vf_reach("fft");
}
void h_fftlen(void) { /* next fast length, for every requested length in a range (symbolic) */
  UINT n = 1 + vf_choice("n", LEN); UINT r = fft_wrapper_next_fft_length(n);
  vf_assert(r >= n, "length is at least the requested one");
  UINT q = r; while (q % 2 == 0) q /= 2; while (q % 3 == 0) q /= 3; while (q % 5 == 0) q /= 5;
  vf_assert(q == 1, "length has only prime factors 2, 3, 5");
  vf_reach("fftlen");
}
/* evaluation */
#ifndef NZ
#define NZ 2
#endif
#ifndef RIN
#define RIN 0.25
#endif
#ifndef ROUT
#define ROUT 0.875
#endif
static COMPLEX zpt(void) {
#ifdef ZRE
  return vf_mk(ZRE, ZIM);
#endif
  COMPLEX z = vf_cplx("z", -2.0, 2.0); REAL a = CREAL(z) * CREAL(z) + CIMAG(z) * CIMAG(z); vf_assume(a >= RIN * RIN); vf_assume(a <= ROUT * ROUT); return z; }
void h_eval(void) {
  COMPLEX p[DEG + 1], z[NZ], zc[NZ], d[NZ];
  for (int i = 0; i <= DEG; i++) p[i] = elem(i);
  for (int i = 0; i < NZ; i++) zc[i] = z[i] = zpt();
  INT rc;
#ifdef DERIV
  rc = poly_evalderiv(DEG, p, NZ, z, d);
#else
  rc = poly_eval(DEG, p, NZ, z);
#endif
  vf_assert(rc == SUCCESS, "evaluation succeeds");
  for (int k = 0; k < NZ; k++) {
    COMPLEX s = 0, ds = 0; for (int i = 0; i <= DEG; i++) { ds = ds * zc[k] + s; s = s * zc[k] + p[i]; }
    vf_cclose(z[k], s, 1e-9, "value of the polynomial");
#ifdef DERIV
    vf_cclose(d[k], ds, 1e-9, "derivative of the polynomial");
#endif
  }
  vf_reach("eval");
}
#ifndef M_
#define M_ 3
#endif
#ifndef AR
#define AR 0.9
#define AI 0.3
#define WR 0.6
#define WI 0.8
#endif
void h_chirpz(void) {
  COMPLEX p[DEG + 1], out[M_]; const COMPLEX A = vf_mk(AR, AI), W = vf_mk(WR, WI);
  for (int i = 0; i <= DEG; i++) p[i] = elem(i);
  long mark = vf_heap_mark();
  INT rc = poly_chirpz(DEG, p, A, W, M_, out);
  vf_leak(mark, "poly_chirpz leaks");
  vf_assert(rc == SUCCESS, "chirp transform succeeds");
  COMPLEX x = 1.0 / A; /* documented: result[m] = p(1/(A*W^-m)) */
  for (int m = 0; m < M_; m++) {
    COMPLEX s = 0; for (int i = 0; i <= DEG; i++) s = s * x + p[i];
    vf_cclose(out[m], s, 1e-8, "value of the chirp transform"); x *= W;
  }
  vf_reach("chirpz");
}
