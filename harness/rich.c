/* C26: Richardson extrapolation of the continuous spectrum. EQ: 0 NSE, 1 KdV, 2 Manakov; ORD: order of the discretization; TYP: 0 both, 1 reflection coefficient, 2 AB. */
#define FNFT_ENABLE_SHORT_NAMES
#include "vf.h"
#include "fnft_nsev.h"
#include "fnft_kdvv.h"
#include "fnft_manakovv.h"
#include "fnft__nse_discretization.h"
#ifndef DIS
#define DIS nse_discretization_2SPLIT2A
#endif
#ifndef EQ
#define EQ 0
#endif
#ifndef ORD
#define ORD 2
#endif
#ifndef TYP
#define TYP 0
#endif
#ifndef LEN
#define LEN 4
#endif
#ifndef KAP
#define KAP 1
#endif
#define NPT 3
#ifndef SYMAT
#define SYMAT 0
#endif
#ifdef CONST /* constant signal: resampling does not change it */
#define SY(i) 1
#define IX(i) 0
#else
#define SY(i) ((i) == SYMAT)
#define IX(i) (i)
#endif
#define EPS 0.75
#define T0 (-0.5)
#define NB (EQ == 2 ? 5 : 3)
#define NV ((TYP == 0 ? NB : TYP == 1 ? (EQ == 2 ? 2 : 1) : (EQ == 2 ? 3 : 2)) * NPT)
static const double cr[6] = {1.0, 0.5, -0.75, 0.25, 0.625, 0.5}, ci[6] = {0.0, 0.375, 0.5, -0.5, 0.125, 0.25}, dr[4][4] = {{0.5, 0.5, -0.5, 0.5}, {0, -1, 0, 0}, {0, 0, -1, 0}, {0.5, -0.5, 0.5, 0.5}};
static INT call(UINT D, COMPLEX *q, COMPLEX *p, REAL *T, int rich, COMPLEX *res) {
  REAL XI[2]; XI[0] = EQ == 1 ? 0.25 : -0.75; XI[1] = EQ == 1 ? 1.25 : 1.5;
#if EQ == 0
  fnft_nsev_opts_t o = fnft_nsev_default_opts(); o.discretization = DIS; o.normalization_flag = 0; o.richardson_extrapolation_flag = rich; o.contspec_type = TYP == 0 ? nsev_cstype_BOTH : TYP == 1 ? nsev_cstype_REFLECTION_COEFFICIENT : nsev_cstype_AB; (void)p;
  return fnft_nsev(D, q, T, NPT, res, XI, NULL, NULL, NULL, KAP, &o);
#elif EQ == 1
  fnft_kdvv_opts_t o = fnft_kdvv_default_opts(); o.discretization = DIS; o.normalization_flag = 0; o.richardson_extrapolation_flag = rich; o.contspec_type = TYP == 0 ? kdvv_cstype_BOTH : TYP == 1 ? kdvv_cstype_REFLECTION_COEFFICIENT : kdvv_cstype_AB; (void)p;
  return fnft_kdvv(D, q, T, NPT, res, XI, NULL, NULL, NULL, &o);
#else
  fnft_manakovv_opts_t o = fnft_manakovv_default_opts(); o.discretization = DIS; o.normalization_flag = 0; o.richardson_extrapolation_flag = rich; o.contspec_type = TYP == 0 ? manakovv_cstype_BOTH : TYP == 1 ? manakovv_cstype_REFLECTION_COEFFICIENT : manakovv_cstype_AB;
  return fnft_manakovv(D, q, p, T, NPT, res, XI, NULL, NULL, NULL, KAP, &o);
#endif
}
void h_rich(void) {
  COMPLEX q[LEN], p[LEN], qs[LEN], ps[LEN], q0[LEN], p0[LEN], full[5 * NPT], sub[5 * NPT], ext[5 * NPT]; 
#ifdef T0SYM
  const double s = 0.75, t0 = vf_double("t0", -2, 2);
#else
  const double s = vf_double("s", 0.5, 1.0), t0 = T0;
#endif

  for (int i = 0; i < LEN; i++) { double m;
#if EQ == 0
    const double c = 1 - 0.25 * (i % 3); m = SY(i) ? 1.25 * s : sqrt(cr[i] * cr[i] + ci[i] * ci[i]); q[i] = SY(i) ? vf_mk(s, -0.75 * s) : vf_mk(cr[i], ci[i]); p[i] = 0; (void)c; vf_csqrt_hint(KAP > 0 ? m : 0, KAP > 0 ? 0 : m);
#elif EQ == 1
    q[i] = SY(i) ? s * s : cr[i]; p[i] = 0; m = SY(i) ? s : 0; if (SY(i)) vf_csqrt_hint(m, 0);
#else
    m = SY(i) ? s : 0.75 - 0.125 * i; const double *v = dr[IX(i) % 4]; q[i] = vf_mk(m * v[0], m * v[1]); p[i] = vf_mk(m * v[2], m * v[3]); vf_csqrt_hint(KAP > 0 ? m : 0, KAP > 0 ? 0 : m); vf_csqrt_hint(KAP > 0 ? 0 : m, KAP > 0 ? m : 0);
#endif
    q0[i] = q[i]; p0[i] = p[i]; }
  REAL T[2]; T[0] = t0; T[1] = t0 + EPS * (LEN - 1);
  INT rc = call(LEN, q, p, T, 0, full); vf_assert(rc == SUCCESS, "the transform succeeds");
  /* positions of the samples that are kept */
  UINT Ds = LEN / 2, fl[2]; { COMPLEX one[LEN], *a = NULL, *b = NULL; for (int i = 0; i < LEN; i++) one[i] = 1; rc = nse_discretization_preprocess_signal(LEN, one, EPS, 1, &Ds, &a, &b, fl, nse_discretization_BO); vf_assert(rc == SUCCESS, "preprocessing"); free(a); free(b); }
  vf_assert(Ds >= 2 && fl[0] == 0 && fl[1] < LEN && fl[1] % (Ds - 1) == 0, "kept samples"); const UINT st = fl[1] / (Ds - 1);
  for (UINT i = 0; i < Ds; i++) { qs[i] = q[i * st]; ps[i] = p[i * st]; }
  REAL Ts[2]; Ts[0] = T[0]; Ts[1] = T[0] + EPS * fl[1];
  rc = call(Ds, qs, ps, Ts, 0, sub); vf_assert(rc == SUCCESS, "the transform succeeds (subsampled)");
  rc = call(LEN, q, p, T, 1, ext); vf_assert(rc == SUCCESS, "the transform succeeds (extrapolation)");
  for (int i = 0; i < LEN; i++) { vf_cclose(q[i], q0[i], 0, "the signal is kept"); vf_cclose(p[i], p0[i], 0, "the signal is kept"); }
  double w = 1; for (int i = 0; i < ORD; i++) w *= st;
  for (int i = 0; i < NV; i++) { const double xi = (EQ == 1 ? 0.25 : -0.75) + (i % NPT) * (EQ == 1 ? 0.5 : 1.125); const int in = fabs(xi) < 0.9 * 3.14159265358979 / (2 * st * EPS);
    vf_cclose((w - 1) * ext[i], in ? w * full[i] - sub[i] : (w - 1) * full[i], 1e-7, "extrapolated value"); }
  vf_reach("rich");
}
