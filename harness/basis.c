/* C21: change of basis matrices. EQ 0 NSE, 1 KdV. */
#define FNFT_ENABLE_SHORT_NAMES
#include "vf.h"
#include "fnft__misc.h"
#include "fnft__akns_discretization.h"
#include "fnft__kdv_discretization.h"
#ifndef EQ
#define EQ 1
#endif
static void mul(int n, COMPLEX const *A, COMPLEX const *B, COMPLEX *C) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { C[i * n + j] = 0; for (int k = 0; k < n; k++) C[i * n + j] += A[i * n + k] * B[k * n + j]; } }
void h_basis(void) {
  int d = vf_choice("disc", 28), van = EQ ? 1 - vf_choice("flipped", 2) : vf_choice("van", 2), deriv = vf_choice("deriv", 2), n = deriv ? 4 : 2; REAL eps = vf_double("eps", 0.125, 1.0);
  COMPLEX xi = vf_choice("neg", 2) ? vf_mk(vf_double("x", -2.0, -0.25), vf_double("y", -1.0, 1.0)) : vf_mk(vf_double("x", -1.0, 1.0), vf_double("y", 0.25, 2.0));
  const int mod = EQ && (d == fnft__akns_discretization_2SPLIT2_MODAL || d == fnft__akns_discretization_2SPLIT2A);
  COMPLEX T[16], F[16], P[16], B[4], dB[4], R[4], dR[4];
  for (int i = 0; i < 16; i++) T[i] = F[i] = 77;
#ifdef WRAP
  static const int wd[] = {kdv_discretization_2SPLIT2_MODAL, kdv_discretization_2SPLIT2_MODAL_VANILLA, kdv_discretization_2SPLIT2A, kdv_discretization_2SPLIT2A_VANILLA, kdv_discretization_4SPLIT4B, kdv_discretization_4SPLIT4B_VANILLA, kdv_discretization_CF4_2, kdv_discretization_CF4_2_VANILLA, kdv_discretization_2SPLIT6B, kdv_discretization_BO_VANILLA};
  static const int wa[] = {fnft__akns_discretization_2SPLIT2_MODAL, fnft__akns_discretization_2SPLIT2_MODAL, fnft__akns_discretization_2SPLIT2A, fnft__akns_discretization_2SPLIT2A, fnft__akns_discretization_4SPLIT4B, fnft__akns_discretization_4SPLIT4B, fnft__akns_discretization_CF4_2, fnft__akns_discretization_CF4_2, fnft__akns_discretization_2SPLIT6B, fnft__akns_discretization_BO};
  int j = vf_choice("w", 10); vf_assume(wa[j] == d && van == j % 2 + (j == 9 ? 0 : 0) ); if (j == 8) vf_assume(van == 0);
  vf_assert(kdv_discretization_change_of_basis_matrix_to_S(T, xi, deriv, eps, wd[j]) == SUCCESS, "to S"); vf_assert(kdv_discretization_change_of_basis_matrix_from_S(F, xi, deriv, eps, wd[j]) == SUCCESS, "from S");
#else
  akns_pde_t pde = EQ ? akns_pde_KdV : akns_pde_NSE;
  vf_assert(akns_discretization_change_of_basis_matrix_to_S(T, xi, deriv, eps, d, van, pde) == SUCCESS, "to S");
  vf_assert(akns_discretization_change_of_basis_matrix_from_S(F, xi, deriv, eps, d, van, pde) == SUCCESS, "from S");
#endif
  if (!deriv) for (int i = 4; i < 16; i++) vf_assert(CREAL(T[i]) == 77 && CREAL(F[i]) == 77, "only four entries without derivative");
  mul(n, T, F, P); for (int i = 0; i < n; i++) for (int k = 0; k < n; k++) vf_cclose(P[i * n + k], i == k, 1e-9, "the two matrices are inverse to each other");
  /* reference */
  if (!EQ) { B[0] = B[3] = 1; B[1] = B[2] = 0; for (int i = 0; i < 4; i++) dB[i] = 0; }
  else { COMPLEX h = -0.5 * I / xi, dh = 0.5 * I / (xi * xi); if (van) { B[0] = h; B[1] = 0; B[2] = -h; B[3] = 1; dB[0] = dh; dB[1] = 0; dB[2] = -dh; dB[3] = 0; } else { B[0] = 1; B[1] = h; B[2] = 0; B[3] = -h; dB[0] = 0; dB[1] = dh; dB[2] = 0; dB[3] = -dh; } }
  for (int i = 0; i < 4; i++) { R[i] = B[i]; dR[i] = dB[i]; }
  if (mod) { COMPLEX e = CEXP(-0.5 * I * xi * eps), f = CEXP(0.5 * I * xi * eps), k = 0.5 * I * eps; R[0] = B[0] * e; R[2] = B[2] * e; R[1] = B[1] * f; R[3] = B[3] * f;
    dR[0] = (dB[0] - k * B[0]) * e; dR[2] = (dB[2] - k * B[2]) * e; dR[1] = (dB[1] + k * B[1]) * f; dR[3] = (dB[3] + k * B[3]) * f; }
  for (int i = 0; i < 2; i++) for (int k = 0; k < 2; k++) { vf_cclose(T[i * n + k], R[i * 2 + k], 1e-9, "matrix to the S basis");
    if (deriv) { vf_cclose(T[(i + 2) * n + k], dR[i * 2 + k], 1e-9, "lower left block is the derivative"); vf_cclose(T[(i + 2) * n + k + 2], T[i * n + k], 0, "diagonal blocks are equal"); vf_cclose(T[i * n + k + 2], 0, 0, "upper right block is zero");
      vf_cclose(F[(i + 2) * n + k + 2], F[i * n + k], 0, "diagonal blocks are equal"); vf_cclose(F[i * n + k + 2], 0, 0, "upper right block is zero"); } }
  vf_reach("basis");
}
void h_basis_bad(void) {
  COMPLEX T[16]; int d = vf_choice("disc", 28), deriv = vf_choice("deriv", 2), van = vf_choice("van", 2), w = vf_choice("which", 2);
  akns_pde_t pde = EQ ? akns_pde_KdV : akns_pde_NSE; COMPLEX xi = 0.5; int c = vf_choice("bad", 3);
  if (c == 0) { if (EQ) xi = 0; else d = 99; } else if (c == 1) d = vf_choice("u", 2) ? 28 + vf_choice("k", 3) : 99; else pde = 17;
  INT rc = w ? akns_discretization_change_of_basis_matrix_to_S(T, xi, deriv, 0.5, d, van, pde) : akns_discretization_change_of_basis_matrix_from_S(T, xi, deriv, 0.5, d, van, pde);
  vf_assert(rc != SUCCESS, "zero frequency (KdV), unknown discretization or equation is refused"); vf_reach("bad");
}
