/* C20: discretization tables, frequency maps, boundary phases. C31: error reporting. */
#define FNFT_ENABLE_SHORT_NAMES
#include "vf.h"
#include "fnft__misc.h"
#include "fnft__poly_fmult.h"
#include "fnft__akns_discretization.h"
#include "fnft__nse_discretization.h"
#include "fnft__kdv_discretization.h"
#include "fnft__manakov_discretization.h"
#include "fnft__akns_fscatter.h"
#include "fnft__nse_fscatter.h"
#include "fnft__kdv_fscatter.h"
#include "fnft__manakov_fscatter.h"
#ifndef EQ
#define EQ 0
#endif
typedef struct { int d; int deg, ups, order; int ak; } row;
#define R(P, n, deg, ups, ord) { P##_discretization_##n, deg, ups, ord, fnft__akns_discretization_##n }
#define RK(n, deg, ups, ord) { kdv_discretization_##n, deg, ups, ord, fnft__akns_discretization_##n }, { kdv_discretization_##n##_VANILLA, deg, ups, ord, fnft__akns_discretization_##n }
#define TAB(M) M(2SPLIT2_MODAL, 1, 1, 2), M(2SPLIT1A, 1, 1, 2), M(2SPLIT1B, 1, 1, 2), M(2SPLIT2A, 1, 1, 2), M(2SPLIT2B, 1, 1, 2), M(2SPLIT2S, 1, 1, 2), M(2SPLIT3A, 3, 1, 2), M(2SPLIT3B, 3, 1, 2), \
 M(2SPLIT3S, 2, 1, 2), M(2SPLIT4A, 4, 1, 2), M(2SPLIT4B, 2, 1, 2), M(2SPLIT5A, 15, 1, 2), M(2SPLIT5B, 15, 1, 2), M(2SPLIT6A, 12, 1, 2), M(2SPLIT6B, 6, 1, 2), M(2SPLIT7A, 105, 1, 2), M(2SPLIT7B, 105, 1, 2), \
 M(2SPLIT8A, 24, 1, 2), M(2SPLIT8B, 12, 1, 2), M(BO, 0, 1, 2), M(4SPLIT4A, 4, 2, 4), M(4SPLIT4B, 2, 2, 4), M(CF4_2, 0, 2, 4), M(CF4_3, 0, 3, 4), M(CF5_3, 0, 3, 5), M(CF6_4, 0, 4, 6), M(ES4, 0, 3, 4), M(TES4, 0, 3, 4)
#define MN(n, deg, ups, ord) R(nse, n, deg, ups, ord)
#if EQ == 0
static const row tab[] = { TAB(MN) };
#define F(x) nse_discretization_##x
#define NUMEL nse_fscatter_numel
#elif EQ == 1
static const row tab[] = { TAB(RK) };
#define F(x) kdv_discretization_##x
#define NUMEL kdv_fscatter_numel
#else
#define MM(n, deg, ups, ord) { manakov_discretization_##n, deg, ups, ord, 0 }
static const row tab[] = { MM(2SPLIT3A, 6, 1, 2), MM(2SPLIT3B, 6, 1, 2), MM(2SPLIT4A, 8, 1, 2), MM(2SPLIT4B, 4, 1, 2), MM(2SPLIT6B, 12, 1, 2), MM(4SPLIT4A, 8, 2, 4), MM(4SPLIT4B, 4, 2, 4), MM(4SPLIT6B, 12, 2, 4),
 MM(FTES4_4A, 8, 1, 4), MM(FTES4_4B, 8, 1, 4), MM(FTES4_suzuki, 14, 1, 4), MM(CF4_2, 0, 2, 4), MM(BO, 0, 1, 2) };
#define F(x) fnft__manakov_discretization_##x
#define NUMEL manakov_fscatter_numel
#endif
#define NT ((int)(sizeof tab / sizeof tab[0]))
#ifdef TAB_ONLY
#endif
void h_tables(void) {
  int j = vf_choice("row", NT); row t = tab[j]; UINT D = vf_choice("D", 9) + 1;
  vf_assert(F(degree)(t.d) == (UINT)t.deg, "degree of one step"); vf_assert(F(upsampling_factor)(t.d) == (UINT)t.ups, "samples per step"); vf_assert(F(method_order)(t.d) == (UINT)t.order, "order of the method");
  vf_assert(F(boundary_coeff)(t.d) == 0.5, "boundary coefficient");
#if EQ < 2
  vf_assert(NUMEL(D, t.d) == (t.deg ? poly_fmult2x2_numel(t.deg, D) : 0), "memory size");
  akns_discretization_t ak = 99; vf_assert(F(to_akns_discretization)(t.d, &ak) == SUCCESS && ak == (akns_discretization_t)t.ak, "corresponding AKNS discretization");
  vf_assert(akns_discretization_degree(ak) == (UINT)t.deg && akns_discretization_upsampling_factor(ak) == (UINT)t.ups && akns_discretization_method_order(ak) == (UINT)t.order && akns_discretization_boundary_coeff(ak) == 0.5, "AKNS table agrees");
  vf_assert(akns_fscatter_numel(D, ak) == NUMEL(D, t.d), "AKNS memory size agrees");
  COMPLEX *w = NULL, *e = NULL, *w2 = NULL, *e2 = NULL; long mark = vf_heap_mark(); INT rc = F(method_weights)(&w, &e, t.d), rc2 = akns_discretization_method_weights(&w2, &e2, ak);
  const int es = t.ak == fnft__akns_discretization_ES4 || t.ak == fnft__akns_discretization_TES4;
  vf_assert((rc == SUCCESS) == !es && (rc2 == SUCCESS) == !es, "method weights exist for all discretizations except the exponential-sum ones");
  if (rc == SUCCESS) { int C = t.ups == 1 ? 1 : t.ups == 2 ? 2 : 3; COMPLEX col[3] = {0}, tot = 0;
    for (int i = 0; i < t.ups; i++) { COMPLEX s = 0; for (int m = 0; m < C; m++) { s += w[i * C + m]; col[m] += e[i] * w[i * C + m]; vf_cclose(w[i * C + m], w2[i * C + m], 0, "AKNS weights agree"); } vf_cclose(s, 1, 1e-12, "the weights of a stage sum to one"); tot += e[i]; vf_cclose(e[i], e2[i], 0, "AKNS step weights agree"); }
    vf_cclose(tot, 1, 1e-12, "the step weights sum to one");
    for (int m = 0; m < C; m++) vf_cclose(col[m], C == 1 ? 1 : C == 2 ? 0.5 : m == 1 ? 4 / 9. : 5 / 18., 1e-12, "the total weight of a node is its Gauss-Legendre weight"); }
  free(w); free(e); free(w2); free(e2); vf_leak(mark, "weights leak");
#if EQ == 1
  UINT van = 9; int isv = j % 2; vf_assert(kdv_discretization_vanilla_flag(&van, t.d) == SUCCESS && van == (UINT)isv, "vanilla flag");
  kdv_discretization_t sl = t.d; INT rs = fnft__kdv_slow_discretization(&sl);
  if (rs == SUCCESS) { vf_assert(kdv_discretization_degree(sl) == 0, "the slow discretization is slow"); vf_assert(kdv_discretization_upsampling_factor(sl) == (UINT)t.ups && kdv_discretization_method_order(sl) == (UINT)t.order, "the slow discretization has the same order and the same preprocessing");
    vf_assert(kdv_discretization_vanilla_flag(&van, sl) == SUCCESS && van == (UINT)isv, "the slow discretization keeps the variant"); if (!t.deg) vf_assert(sl == (kdv_discretization_t)t.d, "slow discretizations are kept"); }
  else vf_assert(0, "every discretization has a slow counterpart");
#endif
#else
  vf_assert(NUMEL(D, t.d) == (t.deg ? poly_fmult3x3_numel(t.deg, D) : 0), "memory size");
#endif
  vf_reach("tables");
}
void h_freq(void) { /* real domain */
  int j = vf_choice("row", NT); row t = tab[j]; REAL eps = vf_double("eps", 0.125, 1.0);
  const int suz = EQ == 2 && t.d == (int)manakov_discretization_FTES4_suzuki; const double k = suz ? 1 / 3. : t.deg ? 2.0 / (t.deg * t.ups) : 1;
  REAL lr = vf_double("lr", -1.5, 1.5), li = vf_double("li", -1.5, 1.5); COMPLEX v[2], z[2], r; v[0] = vf_mk(lr, li); v[1] = 0.25;
  INT rc = F(lambda_to_z)(2, eps, v, t.d);
  if (!t.deg) { vf_assert(rc != SUCCESS, "no z-domain for slow discretizations"); vf_assert(F(z_to_lambda)(1, eps, v, t.d) != SUCCESS, "no z-domain for slow discretizations"); vf_reach("freq"); return; }
  vf_assert(rc == SUCCESS, "lambda to z"); z[0] = v[0]; z[1] = v[1];
  r = CEXP(I * (lr + I * li) * (eps * k)); vf_cclose(z[0], r, 1e-9, "z = exp(2 i lambda eps / (degree x upsampling))");
  r = CEXP(0.25 * I * eps * k); vf_cclose(z[1], r, 1e-9, "every value is mapped");
  vf_assert(F(z_to_lambda)(2, eps, v, t.d) == SUCCESS, "z to lambda");
  vf_cclose(v[0], vf_mk(lr, li), 1e-9, "z to lambda inverts lambda to z"); vf_cclose(v[1], 0.25, 1e-9, "every value is mapped");
  vf_reach("freq");
}
void h_phase(void) {
  int j = vf_choice("row", NT); row t = tab[j]; REAL eps = vf_double("eps", 0.125, 1.0), T[2], T0, a = 0, b = 0, rho = 0; UINT D = 1 + vf_choice("D", 9);
  T[0] = T0 = vf_double("T0", -4.0, 4.0); T[1] = vf_double("T1", -4.0, 4.0);
  vf_assert(F(phase_factor_rho)(eps, T[1], &rho, t.d) == SUCCESS, "phase of rho"); vf_assert(F(phase_factor_a)(eps, D, T, &a, t.d) == SUCCESS, "phase of a"); vf_assert(F(phase_factor_b)(eps, D, T, &b, t.d) == SUCCESS, "phase of b");
  vf_close(rho, b - a, 1e-9, "phase of rho is the phase of b minus the phase of a");
  /* a is delayed by the length of the interval and what the steps of the discretization already contain */
  const int suz = EQ == 2 && t.d == (int)manakov_discretization_FTES4_suzuki;
  double len = T[1] - T[0] + eps; vf_close(a, len - (suz ? eps * D * 7 / 3. : t.deg ? eps * D : 0), 1e-9, "phase of a");
  vf_reach("phase");
}
void h_unknown(void) {
  int d = vf_choice("unknown", 3) ? (vf_choice("u", 2) ? 1000 : -1) : NT; REAL T[2] = {-1, 1}, x = 7; COMPLEX v[1] = {0.5}; UINT n = 3;
#if EQ == 1
  if (d == NT) d = 60;
#endif
  vf_assert(F(degree)(d) == 0 && F(upsampling_factor)(d) == 0 && F(method_order)(d) == 0 && NUMEL(n, d) == 0, "unknown discretization has no degree, upsampling, order and size");
  vf_assert(F(lambda_to_z)(1, 0.5, v, d) != SUCCESS && F(z_to_lambda)(1, 0.5, v, d) != SUCCESS && v[0] == 0.5, "frequency maps refuse unknown discretizations");
  vf_assert(F(phase_factor_a)(0.5, 3, T, &x, d) != SUCCESS && F(phase_factor_b)(0.5, 3, T, &x, d) != SUCCESS, "phases of a and b refuse unknown discretizations");
  vf_assert(F(phase_factor_rho)(0.5, 1.0, &x, d) != SUCCESS && x == 7, "phase of rho refuses unknown discretizations");
#if EQ < 2
  COMPLEX *w = NULL, *e = NULL; akns_discretization_t ak = 5; vf_assert(F(to_akns_discretization)(d, &ak) != SUCCESS, "no AKNS counterpart"); vf_assert(F(method_weights)(&w, &e, d) != SUCCESS && !w && !e, "no weights");
#endif
#if EQ == 1
  kdv_discretization_t sl = d; vf_assert(fnft__kdv_slow_discretization(&sl) != SUCCESS && kdv_discretization_vanilla_flag(&n, d) != SUCCESS, "unknown discretization has no slow variant");
#endif
  vf_reach("unknown");
}
/* ---------------------------------------------------------------- C31 */
#include "fnft__errwarn.h"
static int cnt[2]; static char last[64]; static const char *lastfn; static int lastline; static char kindc;
static void rec(int k, const char *f, const char *m, const char *fn, int line) { cnt[k]++; int i = 0; for (; m && m[i] && i < 63; i++) last[i] = m[i]; last[i] = 0; lastfn = fn; lastline = line; kindc = f[5]; }
static INT p0(const char *f, const char *m, const char *fn, int line) { rec(0, f, m, fn, line); return 1; }
static INT p1(const char *f, const char *m, const char *fn, int line) { rec(1, f, m, fn, line); return -3; }
static INT e_arg(int dummy) { return E_INVALID_ARGUMENT(dummy); }
static INT e_sub(INT ec) { return E_SUBROUTINE(ec); }
static INT e_chk(INT ec, int *jumped) { INT ret_code = ec; *jumped = 1; CHECK_RETCODE(ret_code, out); *jumped = 0; out: return ret_code; }
static INT e_nomem(void) { return E_NOMEM; } static INT e_div(void) { return E_DIV_BY_ZERO; } static INT e_san(void) { return E_SANITY_CHECK_FAILED(xy); } static INT e_ass(void) { return E_ASSERTION_FAILED; } static INT e_other(void) { return E_OTHER("oops"); }
static void e_warn(void) { WARN("careful"); }
static int eq(const char *a, const char *b) { while (*a && *a == *b) a++, b++; return *a == *b; }
void h_errwarn(void) {
  fnft_printf_ptr_t P[3] = {NULL, (fnft_printf_ptr_t)p0, (fnft_printf_ptr_t)p1}; int ex[2] = {0, 0};
  vf_assert(fnft_errwarn_getprintf() != NULL, "a default printer is installed");
  for (int s = 0; s < 2; s++) {
    int w = vf_choice("printer", 3), act = vf_choice("action", 9); fnft_errwarn_setprintf(P[w]); vf_assert(fnft_errwarn_getprintf() == P[w], "the getter returns the printer that was set");
    INT rc = 0; const char *msg = "", *fn = ""; int err = 1; last[0] = 0; lastfn = ""; kindc = 0; int ec = 0, jumped = 0;
    switch (act) {
    case 0: rc = e_arg(1); vf_assert(rc == FNFT_EC_INVALID_ARGUMENT, "code"); msg = "Invalid argument dummy."; fn = "e_arg"; break;
    case 1: ec = vf_int("ec", -8, 8); rc = e_sub(ec); vf_assert(rc == (ec < 0 ? ec : -ec), "propagated code is the negative magnitude"); msg = "Subroutine failure."; fn = "e_sub"; break;
    case 2: ec = vf_int("ec", -8, 8); rc = e_chk(ec, &jumped); vf_assert(jumped == (ec != 0) && rc == (ec < 0 ? ec : -ec), "a failing return code leads to the exit with the negative magnitude"); if (!ec) { err = -1; break; } msg = "Subroutine failure."; fn = "e_chk"; break;
    case 3: rc = e_nomem(); vf_assert(rc == FNFT_EC_NOMEM, "code"); msg = "Out of memory."; fn = "e_nomem"; break;
    case 4: rc = e_div(); vf_assert(rc == FNFT_EC_DIV_BY_ZERO, "code"); msg = "Division by zero."; fn = "e_div"; break;
    case 5: rc = e_san(); vf_assert(rc == FNFT_EC_SANITY_CHECK_FAILED, "code"); msg = "Sanity check failed (xy)."; fn = "e_san"; break;
    case 6: rc = e_ass(); vf_assert(rc == FNFT_EC_ASSERTION_FAILED, "code"); msg = "Assertion failed."; fn = "e_ass"; break;
    case 7: rc = e_other(); vf_assert(rc == FNFT_EC_OTHER, "code"); msg = "oops"; fn = "e_other"; break;
    default: e_warn(); err = 0; msg = "careful"; fn = "e_warn"; }
    if (w && err >= 0) ex[w - 1]++;
    vf_assert(cnt[0] == ex[0] && cnt[1] == ex[1], "exactly the installed printer is called, exactly once");
    if (w && err >= 0) { vf_assert(eq(last, msg), "the message is passed"); vf_assert(eq(lastfn, fn), "the function is named"); vf_assert(lastline > 0, "line"); vf_assert(kindc == (err ? 'E' : 'W'), "errors and warnings are labelled"); }
  }
  vf_reach("errwarn");
}
void h_errcode(void) { INT ec = vf_int("ec", -100000, 100000); fnft_errwarn_setprintf(vf_choice("p", 2) ? (fnft_printf_ptr_t)p0 : NULL); vf_assert(fnft__errmsg_aux(ec, "f", 3, "m") == ec, "the code is returned unchanged"); vf_assert(e_sub(ec) == (ec < 0 ? ec : -ec), "negative magnitude"); vf_reach("errcode"); }
