/* C09 filters and merging, C10 downsampling, C32 resampling, plus small numerical helpers. */
#define FNFT_ENABLE_SHORT_NAMES
#include "vf.h"
#include "fnft__misc.h"
#ifndef NV
#define NV 3
#endif
#ifndef LEN
#define LEN 5
#endif
#ifndef EPS
#define EPS 0.5
#endif
#ifndef DELTA
#define DELTA 0.1
#endif
/* which: 0 filter, 1 filter_inv, 2 filter_nonreal */
#ifndef WHICH
#define WHICH 0
#endif
static int keep(COMPLEX v, REAL const *box, REAL tol) {
#if WHICH == 0
  return CREAL(v) >= box[0] && CREAL(v) <= box[1] && CIMAG(v) >= box[2] && CIMAG(v) <= box[3];
#elif WHICH == 1
  return CREAL(v) <= box[0] || CREAL(v) >= box[1] || CIMAG(v) <= box[2] || CIMAG(v) >= box[3];
#else
  return CIMAG(v) > tol || CIMAG(v) < -tol;
#endif
}
void h_filter(void) {
  COMPLEX in[NV + 1], v[NV + 1], c[NV + 1]; REAL box[4], box0[4], tol = 0;
  UINT n = vf_choice("n", NV + 1), n0 = n; int comp = WHICH != 2 && vf_choice("companion", 2);
  for (int i = 0; i < (int)n; i++) { in[i] = v[i] = vf_anycplx("v"); c[i] = vf_mk(100 + i, i);
#if WHICH == 1
    vf_assume(CREAL(v[i]) == CREAL(v[i]) && CIMAG(v[i]) == CIMAG(v[i]));
#endif
  }
  for (int i = 0; i < 4; i++) box0[i] = box[i] = WHICH == 2 ? 0 : vf_anydouble("box");
  if (WHICH == 2) tol = vf_anydouble("tol");
  int ok = WHICH == 2 ? tol >= 0 : (box[0] <= box[1] && box[2] <= box[3]);
#if WHICH == 0
  INT rc = misc_filter(&n, v, comp ? c : NULL, box);
#elif WHICH == 1
  INT rc = misc_filter_inv(&n, v, comp ? c : NULL, box);
#else
  INT rc = misc_filter_nonreal(&n, v, tol);
#endif
  vf_assert(vf_same(box, box0, sizeof box), "the box is not changed");
  if (!ok) { vf_assert(rc != SUCCESS, "an empty or NaN box or tolerance is refused"); vf_assert(n == n0, "count unchanged on error"); vf_assert(!n0 || vf_same(v, in, n0 * sizeof(COMPLEX)), "values unchanged on error"); vf_reach("refused"); return; }
  vf_assert(rc == SUCCESS, "the filter succeeds");
  UINT k = 0;
  for (UINT i = 0; i < n0; i++) if (keep(in[i], box, tol)) {
    vf_assert(k < n, "a value that satisfies the condition was dropped");
    vf_assert(vf_same(&v[k], &in[i], sizeof(COMPLEX)), "survivors are the satisfying values in their original order");
    if (comp) vf_assert(CREAL(c[k]) == 100 + i && CIMAG(c[k]) == i, "companion values travel with their values");
    k++;
  }
  vf_assert(k == n, "the count is the number of surviving values");
  if (!comp) for (UINT i = 0; i < n0; i++) vf_assert(CREAL(c[i]) == 100 + i, "unrelated memory is not changed");
  vf_reach("filtered");
}
void h_merge(void) { /* real domain: values on parallel lines, identified by their imaginary parts */
  COMPLEX in[NV], v[NV]; UINT n = NV; REAL tol = vf_double("tol", 0.0, 4.0);
  for (int i = 0; i < NV; i++) in[i] = v[i] = vf_mk(vf_double("v", -2.0, 2.0), i / 64.0);
  INT rc = misc_merge(&n, v, tol);
  vf_assert(rc == SUCCESS, "merging succeeds"); vf_assert(n >= 1 && n <= NV, "at least one value is kept");
  int pos = -1, kept[NV]; for (int i = 0; i < NV; i++) kept[i] = 0;
  for (UINT i = 0; i < n; i++) { int id = (int)(CIMAG(v[i]) * 64.0); vf_assert(id > pos && id < NV, "a subsequence in the original order"); vf_close(CREAL(v[i]), CREAL(in[id]), 0, "kept values are unchanged"); pos = id; kept[id] = 1; }
  vf_assert(kept[0], "the first value is kept");
  for (int i = 0; i < NV; i++) for (int j = 0; j < i; j++) if (kept[i] && kept[j]) vf_assert(CABS(in[j] - in[i]) >= tol, "two kept values are closer than the tolerance");
  for (int i = 0; i < NV; i++) if (!kept[i]) { int f = 0; for (int j = 0; j < i; j++) if (CABS(in[j] - in[i]) < tol) { f = 1; break; } vf_assert(f, "a value is removed although no earlier value is closer than the tolerance"); }
  vf_reach("merged");
}
void h_merge_args(void) {
  COMPLEX v[2] = {1, 2}; UINT n = 2; REAL tol = vf_anydouble("tol");
  vf_assert(misc_merge(NULL, v, tol) != SUCCESS, "NULL count is refused"); vf_assert(misc_merge(&n, NULL, tol) != SUCCESS, "NULL values are refused");
  if (tol < 0) { vf_assert(misc_merge(&n, v, tol) != SUCCESS, "a negative tolerance is refused"); vf_assert(n == 2, "count unchanged on error"); }
  n = 0; vf_assert(misc_merge(&n, v, tol) == SUCCESS && n == 0, "nothing to merge");
  vf_reach("args");
}
void h_downsample(void) {
  UINT D = 3 + vf_choice("D", LEN - 2), want = vf_choice("want", LEN + 3), Dsub = want, fl[2] = {77, 77};
  COMPLEX q[LEN], *qs = NULL;
  for (UINT i = 0; i < D; i++) q[i] = vf_mk(vf_anydouble("q"), i);
  long mark = vf_heap_mark();
  INT rc = misc_downsample(D, q, &Dsub, &qs, fl);
  vf_assert(rc == SUCCESS && qs != NULL, "downsampling succeeds");
  vf_assert(Dsub >= 2 && Dsub <= D, "between 2 and D samples");
  if (want >= D) vf_assert(Dsub == D, "no downsampling if all samples are wanted");
  vf_assert(fl[0] == 0 && fl[1] < D, "positions are in range");
  vf_assert(fl[1] % (Dsub - 1) == 0 && fl[1] > 0, "equally spaced integer positions");
  UINT st = fl[1] / (Dsub - 1); vf_assert(fl[1] + st >= D || Dsub == 2 || fl[1] + 2 * st > D, "the samples cover the signal");
  for (UINT i = 0; i < Dsub; i++) vf_assert(vf_same(&qs[i], &q[i * st], sizeof(COMPLEX)), "samples are the original ones at the reported positions");
  free(qs); vf_leak(mark, "downsampling leaks"); vf_reach("downsampled");
}
void h_resample(void) {
  COMPLEX q[LEN], in[LEN], out[LEN]; const REAL eps = EPS; const REAL delta = DELTA;
  for (int i = 0; i < LEN; i++) in[i] = q[i] = vf_cplx("q", -1.0, 1.0);
  long mark = vf_heap_mark();
  INT rc = misc_resample(LEN, eps, q, delta, out);
  vf_leak(mark, "resampling leaks"); vf_assert(rc == SUCCESS, "resampling succeeds");
  const double w = 2 * acos(-1.0) / LEN, s = delta / eps;
  for (int n = 0; n < LEN; n++) { /* trigonometric interpolation with frequencies -LEN/2..(LEN-1)/2 */
    COMPLEX r = 0;
    for (int m = 0; m < LEN; m++) { COMPLEX kern = 0; for (int k = -(LEN / 2); k <= (LEN - 1) / 2; k++) { double a = w * k * (n - m + s); kern += vf_mk(cos(a) / LEN, sin(a) / LEN); }
      r += in[m] * kern; }
    vf_cclose(out[n], r, 1e-9, "resampled value is the trigonometric interpolant at the shifted position");
    vf_cclose(q[n], in[n], 0, "input is kept");
  }
  vf_reach("resampled");
}
void h_resample_args(void) {
  COMPLEX q[4] = {1, 2, 3, 4}, o[4] = {5, 5, 5, 5}; UINT D = vf_choice("D", 5); int w = vf_choice("what", 4); REAL e = 0.5;
  if (w == 0) vf_assert(misc_resample(4, e, NULL, 0.1, o) != SUCCESS, "NULL input is refused");
  else if (w == 1) vf_assert(misc_resample(4, e, q, 0.1, NULL) != SUCCESS, "NULL output is refused");
  else if (w == 2) vf_assert(misc_resample(4, 0.0, q, 0.1, o) != SUCCESS, "zero step size is refused");
  else { INT rc = misc_resample(D, e, q, 0.1, o); vf_assert((rc == SUCCESS) == (D > 2), "too few samples are refused"); }
  if (w != 3) for (int i = 0; i < 4; i++) vf_assert(o[i] == 5, "nothing is written on error");
  vf_reach("args");
}
void h_nextpow2(void) {
  UINT n = vf_size("n", 1, 1000), r = misc_nextpowerof2(n);
  vf_assert(r >= n && r / 2 < n && (r & (r - 1)) == 0, "next power of two"); vf_reach("np2");
}
