/* KdV forward transform: C01 (options and inputs kept), C04 (sizes, leaks), C08 (failing allocations). */
#define FNFT_ENABLE_SHORT_NAMES
#include "vf.h"
#include "fnft__misc.h"
#include "fnft_kdvv.h"
#include "fnft__errwarn.h"
#ifndef DISL
#define DISL fnft_kdv_discretization_2SPLIT2A
#endif
#ifndef SIGS
#define SIGS 4
#endif
#ifndef NS
#define NS 2
#endif
#ifndef ALLOCF
#define ALLOCF 0
#endif
#ifndef CHK
#define CHK 3
#endif
#ifndef KMAX
#define KMAX 2
#endif
static int quiet(const char *f, ...) { (void)f; return 0; }
static const fnft_kdv_discretization_t dislist[] = {DISL};
void h_kdvv(void) {
  fnft_errwarn_setprintf(quiet);
  COMPLEX *q = vf_buf(NS * sizeof(COMPLEX)), q0[NS]; REAL T[2] = {-1, 1}, T0[2], XI[2] = {-1.5, 2}, XI0[2]; const UINT M = 2;
#ifdef SYMXI
  XI[0] = vf_double("xi0", -9, 1); XI[1] = vf_double("xi1", 1.125, 9);
#endif
  const int sig = vf_choice("sig", SIGS), dis = vf_choice("dis", sizeof dislist / sizeof *dislist);
  for (int i = 0; i < NS; i++) q[i] = q0[i] = sig == 0 ? 2.75 - 0.125 * i : sig == 1 ? 0 : sig == 2 ? (NS - 1) / 2.0 : -0.5 - 0.25 * i;
  fnft_kdvv_opts_t d0 = fnft_kdvv_default_opts(), o = d0, keep; fnft_kdvv_opts_t *op = &o; o.discretization = dislist[dis];
  int cont = 0, disc = 0, nc = 0; UINT K = 0, K0 = 0;
#ifdef CONT
  cont = 1; o.contspec_type = (fnft_kdvv_cstype_t)vf_choice("cs", 3);
#endif
#ifdef LOC
  disc = 1; o.bound_state_localization = (fnft_kdvv_bsloc_t)LOC; K0 = vf_choice("K", KMAX + 1); nc = vf_choice("nc", 2);
  if (nc) o.discspec_type = (fnft_kdvv_dstype_t)vf_choice("ds", 3); else o.discspec_type = fnft_kdvv_dstype_RESIDUES;
  o.niter = vf_choice("niter", 3);
  if (LOC) o.grid_spacing = vf_double("spacing", 0.2, 1.5);
#endif
#ifdef NORM
  o.normalization_flag = NORM;
#else
  o.normalization_flag = vf_choice("norm", 2);
#endif
  o.richardson_extrapolation_flag = vf_choice("rich", 2);
#ifdef NULLOPTS
  op = NULL;
#endif
  keep = o; T0[0] = T[0]; T0[1] = T[1]; XI0[0] = XI[0]; XI0[1] = XI[1];
  int clen = o.contspec_type == fnft_kdvv_cstype_BOTH ? 3 : o.contspec_type == fnft_kdvv_cstype_AB ? 2 : 1, dlen = o.discspec_type == fnft_kdvv_dstype_BOTH ? 2 : 1;
  if (!op) clen = dlen = 1;
  COMPLEX *cs = cont ? vf_buf(clen * M * sizeof(COMPLEX)) : NULL, *bs = disc ? vf_buf(K0 * sizeof(COMPLEX)) : NULL, *nr = disc && nc ? vf_buf(dlen * K0 * sizeof(COMPLEX)) : NULL;
#ifdef LOC
  if (!LOC) for (UINT i = 0; i < K0; i++) { if (vf_choice("dup", 2)) bs[i] = 0.75 * I; else bs[i] = (0.5 + 0.25 * i) * I; }
#endif
  K = K0; UINT *Kp = &K; if (!disc && vf_choice("Kp", 2)) Kp = NULL;
  REAL *xi = XI; if (disc ? (K0 + nc) % 2 : !cont && vf_choice("XI", 2)) xi = NULL;
  long mark = vf_heap_mark();
  if (ALLOCF) vf_allocfail(1);
  INT rc = fnft_kdvv(NS, q, T, M, cs, xi, Kp, bs, nr, op);
  if (ALLOCF) { int f = vf_alloc_failed(); vf_allocfail(0); if (f) vf_assert(rc != SUCCESS, "a failing allocation is reported"); }
  if (CHK & 2) vf_leak(mark, "transform leaks");
  if (CHK & 1) {
    vf_assert(vf_same(&o, &keep, sizeof o), "options unchanged");
    fnft_kdvv_opts_t d1 = fnft_kdvv_default_opts(); vf_assert(vf_same(&d0, &d1, sizeof d0), "default options unchanged");
    vf_assert(vf_same(q, q0, sizeof q0), "signal unchanged"); vf_assert(vf_same(T, T0, sizeof T), "interval unchanged"); vf_assert(vf_same(XI, XI0, sizeof XI), "grid unchanged");
  }
  if (rc == SUCCESS && (CHK & 2)) {
    if (Kp && disc) vf_assert(K <= K0, "K does not grow"); if (Kp && !disc) vf_assert(K == 0, "no bound states reported");
    if (disc) { vf_init(bs, K * sizeof(COMPLEX), "reported bound states written"); if (nr) vf_init(nr, dlen * K * sizeof(COMPLEX), "reported norming constants or residues written"); }
    if (cs) vf_init(cs, clen * M * sizeof(COMPLEX), "continuous spectrum written");
  }
  if (ALLOCF) vf_reach(vf_alloc_failed() ? "failed" : "nofail"); else vf_reach("kdvv");
}
