/* C22: inverse scattering undoes fast scattering. EQ 0 NSE, 1 KdV; MODAL 1: 2SPLIT2_MODAL, 0: 2SPLIT2A; KAP; LEN samples, samples in the bit mask SYMS symbolic, in ZEROS zero */
#define FNFT_ENABLE_SHORT_NAMES
#include "vf.h"
#include "fnft__misc.h"
#include "fnft__nse_fscatter.h"
#include "fnft__nse_finvscatter.h"
#include "fnft__kdv_fscatter.h"
#include "fnft__kdv_finvscatter.h"
#ifndef EQ
#define EQ 0
#endif
#ifndef MODAL
#define MODAL 1
#endif
#ifndef KAP
#define KAP 1
#endif
#ifndef LEN
#define LEN 2
#endif
#ifndef SYMS
#define SYMS 3
#endif
#ifndef ZEROS
#define ZEROS 0
#endif
#ifndef VANILLA
#define VANILLA 0
#endif
static void sample(int i, double eps, COMPLEX *q, COMPLEX *r) {
  const int sym = SYMS >> i & 1;
  if (ZEROS >> i & 1) { *q = 0; *r = EQ ? -1 : 0; return; }
#if EQ == 1
  double d = sym ? vf_double("d", 0.5, 1.5) : 0.875 + 0.25 * i; /* d^2 = 1 + eps^2 q */
  *q = (d * d - 1) / (eps * eps); *r = -1; vf_hint(d, 0); vf_hint(1 / d, 0); vf_csqrt_hint(d, 0); vf_hint((d * d - 1) / eps, 0);
#else
  double w = sym ? vf_double("w", 0.125, 1.25) : 0.5 - 0.125 * i, th = sym ? vf_double("th", -3.0, 3.0) : 1.5 - i;
  double c = KAP == 1 ? COS(w) : cosh(w), s = KAP == 1 ? SIN(w) : sinh(w), t = s / c;
  COMPLEX e = vf_mk(COS(th), SIN(th));
  *q = MODAL ? e * t / eps : e * w / eps; *r = KAP == 1 ? -CONJ(*q) : CONJ(*q);
  vf_hint(t, 0); vf_hint(1 / c, 0); vf_hint(c, 0); vf_hint(w, 0); vf_hint(th, 0);
  COMPLEX R = KAP == 1 ? -CONJ(e) * t : CONJ(e) * t; vf_hint(CREAL(R), CIMAG(R));
  vf_hint(w / eps, 0); vf_csqrt_hint(KAP == 1 ? w : 0, KAP == 1 ? 0 : w); if (MODAL) vf_csqrt_hint(1 / c, 0);
#endif
}
#if EQ == 0
#define DISC (MODAL ? nse_discretization_2SPLIT2_MODAL : nse_discretization_2SPLIT2A)
#else
#define DISC (VANILLA ? (MODAL ? kdv_discretization_2SPLIT2_MODAL_VANILLA : kdv_discretization_2SPLIT2A_VANILLA) : (MODAL ? kdv_discretization_2SPLIT2_MODAL : kdv_discretization_2SPLIT2A))
#endif
void h_roundtrip(void) {
#ifdef EPSSYM
  double eps = vf_double("eps", 0.25, 1.0);
#else
  double eps = 0.5;
#endif
  COMPLEX q[LEN], r[LEN], *res, *rec = vf_buf(LEN * sizeof(COMPLEX)); UINT deg = 0;
  for (int i = 0; i < LEN; i++) sample(i, eps, q + i, r + i);
#if EQ == 0
  res = vf_buf(nse_fscatter_numel(LEN, DISC) * sizeof(COMPLEX));
  INT rc = nse_fscatter(LEN, q, r, eps, res, &deg, NULL, DISC);
#else
  res = vf_buf(kdv_fscatter_numel(LEN, DISC) * sizeof(COMPLEX));
  INT rc = VANILLA ? kdv_fscatter(LEN, q, r, eps, 1, res, &deg, NULL, DISC) : kdv_fscatter(LEN, r, q, eps, 1, res, &deg, NULL, DISC);
#endif
  vf_assert(rc == SUCCESS, "fast scattering succeeds"); vf_assert(deg == LEN, "degree");
  COMPLEX *tm = vf_buf(4 * (deg + 1) * sizeof(COMPLEX)); memcpy(tm, res, 4 * (deg + 1) * sizeof(COMPLEX));
  long mark = vf_heap_mark();
#if EQ == 0
  rc = nse_finvscatter(deg, tm, rec, eps, KAP, DISC);
#else
  rc = kdv_finvscatter(deg, tm, rec, eps, DISC);
#endif
  vf_assert(rc == SUCCESS, "inverse scattering succeeds"); vf_leak(mark, "inverse scattering leaks"); vf_init(rec, LEN * sizeof(COMPLEX), "all samples are written");
  for (int i = 0; i < LEN; i++) vf_cclose(rec[i], q[i], 1e-8, "recovered sample");
  vf_reach("roundtrip");
}
/* arguments that are not supported are refused without touching the output */
void h_refuse(void) {
  const int N = 12; COMPLEX *tm = vf_buf(4 * (N + 1) * sizeof(COMPLEX)), *q = vf_buf(N * sizeof(COMPLEX)), q0[12]; double eps = 0.5; INT kap = 1; UINT deg = 4, d = 1; int ok = 1;
  for (int i = 0; i < 4 * (N + 1); i++) tm[i] = vf_mk(1 + 0.125 * i, 0.25); for (int i = 0; i < N; i++) q[i] = q0[i] = vf_mk(i, 77);
#if EQ == 0
  nse_discretization_t dis = nse_discretization_2SPLIT2_MODAL;
#else
  kdv_discretization_t dis = kdv_discretization_2SPLIT2_MODAL;
#endif
  COMPLEX *T = tm, *Q = q;
  switch (vf_choice("what", 6)) {
    case 0: deg = 0; break;
    case 1: T = NULL; break;
    case 2: Q = NULL; break;
    case 3: eps = vf_choice("e", 3) == 0 ? 0 : vf_choice("e2", 2) ? -vf_double("pos", 1e-300, 10) : NAN; break;
    case 4: kap = vf_int("kap", -3, 3); if (EQ == 0) vf_assume(kap != 1 && kap != -1); else deg = 3; break;
    case 5: { int k = vf_choice("dis", 64); dis = k; 
#if EQ == 0
      d = nse_discretization_degree(dis); vf_assume(dis != nse_discretization_2SPLIT2A && dis != nse_discretization_2SPLIT2_MODAL);
#else
      d = kdv_discretization_degree(dis); vf_assume(dis != kdv_discretization_2SPLIT2A && dis != kdv_discretization_2SPLIT2_MODAL);
#endif
      if (d == 0) d = 1; vf_assume(d <= 6); deg = 2 * d; } break;
  }
  long mark = vf_heap_mark();
#if EQ == 0
  INT rc = nse_finvscatter(deg, T, Q, eps, kap, dis);
#else
  INT rc = kdv_finvscatter(deg, T, Q, eps, dis);
#endif
  vf_assert(rc != SUCCESS, "refused"); vf_leak(mark, "refusal leaks"); for (int i = 0; i < N; i++) vf_assert(CREAL(q[i]) == CREAL(q0[i]) && CIMAG(q[i]) == CIMAG(q0[i]), "output untouched"); (void)ok;
  vf_reach("refuse");
}
void h_sizes(void) { /* numbers of samples that are no power of two are refused */
  UINT deg = vf_size("deg", 1, 40); vf_assume(deg == 1 || (deg & (deg - 1)) != 0); COMPLEX tm[4], q[1]; tm[0] = q[0] = 7;
#if EQ == 0
  INT rc = nse_finvscatter(deg, tm, q, 0.5, 1, nse_discretization_2SPLIT2_MODAL);
#else
  INT rc = kdv_finvscatter(deg, tm, q, 0.5, kdv_discretization_2SPLIT2_MODAL);
#endif
  vf_assert(rc != SUCCESS, "refused"); vf_assert(CREAL(tm[0]) == 7 && CREAL(q[0]) == 7, "nothing touched"); vf_reach("sizes");
}
