From 1420eee2b2b852b677c88fbcc77bbdcb4a820799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 01/42] fix: poly_fmult, poly_fmult2x2 and poly_fmult3x3
 returned an uninitialized code (and no result) for a single factor

---
 src/private/fnft__poly_fmult.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/private/fnft__poly_fmult.c b/src/private/fnft__poly_fmult.c
index 830a8ee..d0bf216 100644
--- a/src/private/fnft__poly_fmult.c
+++ b/src/private/fnft__poly_fmult.c
@@ -147,7 +147,7 @@ INT fnft__poly_fmult(UINT * const d, UINT n, COMPLEX * const p,
     fft_wrapper_plan_t plan_inv = fft_wrapper_safe_plan_init();
     COMPLEX *buf0 = NULL, *buf1 = NULL, *buf2 = NULL;
     INT W = 0;
-    INT ret_code;
+    INT ret_code = SUCCESS;
 
     // Pad with z^deg if n is not a power of two
     const UINT n_excess = misc_nextpowerof2(n) - n;
@@ -613,7 +613,7 @@ INT fnft__poly_fmult2x2(UINT * const d, UINT n, COMPLEX * const p,
     fft_wrapper_plan_t plan_inv = fft_wrapper_safe_plan_init();
     COMPLEX *buf0 = NULL, *buf1 = NULL, *buf2 = NULL;
     INT W = 0;
-    INT ret_code;
+    INT ret_code = SUCCESS;
 
     // Setup pointers to the individual polynomials in p
     deg = *d;
@@ -678,6 +678,10 @@ INT fnft__poly_fmult2x2(UINT * const d, UINT n, COMPLEX * const p,
 
     const UINT p_stride = n*(deg + 1);
 
+    // A single factor is its own product
+    if (n == 1)
+        memcpy(result, p, 4*p_stride*sizeof(COMPLEX));
+
     // Main loop, n is the current number of polynomials, deg is their degree
     while (n >= 2) {
 
@@ -783,7 +787,7 @@ INT fnft__poly_fmult3x3(UINT * const d, UINT n, COMPLEX * const p,
     fft_wrapper_plan_t plan_inv = fft_wrapper_safe_plan_init();
     COMPLEX *buf0 = NULL, *buf1 = NULL, *buf2 = NULL;
     INT W = 0;
-    INT ret_code;
+    INT ret_code = SUCCESS;
 
     // Setup pointers to the individual polynomials in p
     deg = *d;
@@ -889,6 +893,10 @@ INT fnft__poly_fmult3x3(UINT * const d, UINT n, COMPLEX * const p,
 
     const UINT p_stride = n*(deg + 1);
 
+    // A single factor is its own product
+    if (n == 1)
+        memcpy(result, p, 9*p_stride*sizeof(COMPLEX));
+
     // Main loop, n is the current number of polynomials, deg is their degree
     while (n >= 2) {
 
-- 
2.43.0


From e4aaee918aa8de60d0d610d3ef0dc3f08a6dc3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:51 +0000
Subject: [PATCH 02/42] fix: poly_evalderiv returned NaN as derivative of a
 constant polynomial outside the unit circle

---
 src/private/fnft__poly_eval.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/private/fnft__poly_eval.c b/src/private/fnft__poly_eval.c
index 001a88b..b9a70c8 100644
--- a/src/private/fnft__poly_eval.c
+++ b/src/private/fnft__poly_eval.c
@@ -83,7 +83,10 @@ INT poly_evalderiv(const UINT deg, COMPLEX const * const p, \
                 tmp2 = tmp + tmp2/z[i];
                 tmp = p[deg - j] + tmp/z[i];
             }
-            deriv[i] = CPOW(z[i], deg - 1)*(deg*tmp - tmp2/z[i]);
+            if (deg > 0)
+                deriv[i] = CPOW(z[i], deg - 1)*(deg*tmp - tmp2/z[i]);
+            else
+                deriv[i] = 0.0;
             z[i] = tmp * CPOW(z[i], deg);
         }
     }
-- 
2.43.0


From 152be8f60c1c42408bf7dd792ecc1afb762152e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:27 +0000
Subject: [PATCH 03/42] fix: manakov_discretization_preprocess_signal ignored
 failed resampling and allocations, and leaked on errors

---
 src/private/fnft__manakov_discretization.c | 26 ++++++++++++++++------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/private/fnft__manakov_discretization.c b/src/private/fnft__manakov_discretization.c
index ca07500..78f3a35 100644
--- a/src/private/fnft__manakov_discretization.c
+++ b/src/private/fnft__manakov_discretization.c
@@ -119,6 +119,8 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
     COMPLEX *q2_c2 = NULL;
     COMPLEX *q1_sub = NULL;
     COMPLEX *q2_sub = NULL;
+    COMPLEX *q1_preprocessed = NULL;
+    COMPLEX *q2_preprocessed = NULL;
 
     // Check inputs
     if (D < 2)
@@ -156,15 +158,17 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
         goto release_mem;
     }
     D_effective = Dsub*upsampling_factor;
-    COMPLEX * const q1_preprocessed = malloc(D_effective * sizeof(COMPLEX));
-    COMPLEX * const q2_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    q1_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    q2_preprocessed = malloc(D_effective * sizeof(COMPLEX));
     q1_c1 = malloc(Dsub*sizeof(COMPLEX));
     q2_c1 = malloc(Dsub*sizeof(COMPLEX));
     q1_c2 = malloc(Dsub*sizeof(COMPLEX));
     q2_c2 = malloc(Dsub*sizeof(COMPLEX));
     q1_sub = malloc(Dsub * sizeof(COMPLEX));
 	q2_sub = malloc(Dsub * sizeof(COMPLEX));
-    if (q1_preprocessed == NULL || q2_preprocessed == NULL) {
+    if (q1_preprocessed == NULL || q2_preprocessed == NULL || q1_c1 == NULL
+        || q2_c1 == NULL || q1_c2 == NULL || q2_c2 == NULL || q1_sub == NULL
+        || q2_sub == NULL) {
         ret_code = E_NOMEM;
         goto release_mem;
     }
@@ -200,10 +204,14 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
         // Getting non-equidistant samples. qci has sample points at T0+(n+ci)*eps_t,
 		// c1 = 0.5-sqrt(3)/6, c2 = 0.5+sqrt(3)/6
 		// Getting new samples:
-		misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c1);
-		misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c2);
-		misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c1);
-		misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c2);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c1);
+		CHECK_RETCODE(ret_code, release_mem);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q1_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q1_c2);
+		CHECK_RETCODE(ret_code, release_mem);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 - SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c1);
+		CHECK_RETCODE(ret_code, release_mem);
+		ret_code = misc_resample(Dsub, (eps_t/nskip_per_step), q2_sub, (0.5 + SQRT(3) / 6) * (eps_t/nskip_per_step), q2_c2);
+		CHECK_RETCODE(ret_code, release_mem);
 
 		for (i = 0; i < Dsub; i++) {
 			q1_preprocessed[2 * i] = a1 * q1_c1[i] + a2 * q1_c2[i];
@@ -226,6 +234,10 @@ INT manakov_discretization_preprocess_signal(const UINT D, COMPLEX const * const
     *Dsub_ptr = Dsub;
 
     release_mem:
+        if (ret_code != SUCCESS) {
+            free(q1_preprocessed);
+            free(q2_preprocessed);
+        }
         free(q1_c1);
         free(q1_c2);
         free(q2_c1);
-- 
2.43.0


From 082e601d90d97f343569d04d37438a4c7976b4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:27 +0000
Subject: [PATCH 04/42] fix: akns_discretization_preprocess_signal leaked the
 preprocessed signals on errors

---
 src/private/fnft__akns_discretization.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/private/fnft__akns_discretization.c b/src/private/fnft__akns_discretization.c
index f758f9a..e962052 100644
--- a/src/private/fnft__akns_discretization.c
+++ b/src/private/fnft__akns_discretization.c
@@ -437,6 +437,8 @@ INT fnft__akns_discretization_preprocess_signal(UINT const D,
 
     COMPLEX *qr_weights = NULL;
     COMPLEX *eps_t_weights = NULL;
+    COMPLEX *q_preprocessed = NULL;
+    COMPLEX *r_preprocessed = NULL;
 
     // Check inputs
     if (D < 2)
@@ -471,8 +473,8 @@ INT fnft__akns_discretization_preprocess_signal(UINT const D,
         goto release_mem;
     }
     D_effective = Dsub * upsampling_factor;
-    COMPLEX * const q_preprocessed = malloc(D_effective * sizeof(COMPLEX));
-    COMPLEX * const r_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    q_preprocessed = malloc(D_effective * sizeof(COMPLEX));
+    r_preprocessed = malloc(D_effective * sizeof(COMPLEX));
     if (q_preprocessed == NULL || r_preprocessed == NULL) {
         ret_code = E_NOMEM;
         goto release_mem;
@@ -666,6 +668,10 @@ INT fnft__akns_discretization_preprocess_signal(UINT const D,
     *Dsub_ptr = Dsub;
 
     release_mem:
+        if (ret_code != SUCCESS) {
+            free(q_preprocessed);
+            free(r_preprocessed);
+        }
         free(q_1);
         free(q_2);
         free(q_3);
-- 
2.43.0


From 7880d9b727bc1997e723830be4a143bbaba7289e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 05/42] fix: manakov_discretization_method_order returned 0 for
 the known discretizations BO and CF4_2

---
 src/private/fnft__manakov_discretization.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/private/fnft__manakov_discretization.c b/src/private/fnft__manakov_discretization.c
index 78f3a35..32625a1 100644
--- a/src/private/fnft__manakov_discretization.c
+++ b/src/private/fnft__manakov_discretization.c
@@ -91,6 +91,7 @@ UINT fnft__manakov_discretization_method_order(manakov_discretization_t discreti
         case manakov_discretization_2SPLIT4B:
         case manakov_discretization_2SPLIT4A:
         case manakov_discretization_2SPLIT6B:
+        case manakov_discretization_BO:
             return 2;
         case manakov_discretization_4SPLIT4A:
         case manakov_discretization_4SPLIT4B:
@@ -98,6 +99,7 @@ UINT fnft__manakov_discretization_method_order(manakov_discretization_t discreti
         case manakov_discretization_FTES4_4A:
         case manakov_discretization_FTES4_4B:
 		case manakov_discretization_FTES4_suzuki:
+        case manakov_discretization_CF4_2:
             return 4;
 
         default: // discretization not implemented for manakov
-- 
2.43.0


From d3104a0be1e61fc7861fcc6ff1651b490d64bf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:13 +0000
Subject: [PATCH 06/42] fix: nse/kdv_discretization_phase_factor_rho accepted
 unknown discretizations and returned NaN

---
 src/private/fnft__kdv_discretization.c | 2 +-
 src/private/fnft__nse_discretization.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/private/fnft__kdv_discretization.c b/src/private/fnft__kdv_discretization.c
index 64e9ae1..6f40c71 100644
--- a/src/private/fnft__kdv_discretization.c
+++ b/src/private/fnft__kdv_discretization.c
@@ -272,7 +272,7 @@ INT fnft__kdv_discretization_phase_factor_rho(const REAL eps_t, const REAL T1,
 {
     REAL boundary_coeff;
     boundary_coeff = kdv_discretization_boundary_coeff(kdv_discretization);
-    if (boundary_coeff == NAN)
+    if (boundary_coeff != boundary_coeff /* NAN */)
         return E_INVALID_ARGUMENT(kdv_discretization);
     *phase_factor_rho = -2.0*(T1 + eps_t*boundary_coeff);
     return SUCCESS;
diff --git a/src/private/fnft__nse_discretization.c b/src/private/fnft__nse_discretization.c
index 4db9e57..c59ef66 100644
--- a/src/private/fnft__nse_discretization.c
+++ b/src/private/fnft__nse_discretization.c
@@ -245,7 +245,7 @@ INT fnft__nse_discretization_phase_factor_rho(const REAL eps_t, const REAL T1,
 {
     REAL boundary_coeff;
     boundary_coeff = nse_discretization_boundary_coeff(nse_discretization);
-    if (boundary_coeff == NAN)
+    if (boundary_coeff != boundary_coeff /* NAN */)
         return E_INVALID_ARGUMENT(nse_discretization);
     if (nse_discretization == nse_discretization_2SPLIT2A ||
         nse_discretization == nse_discretization_2SPLIT2_MODAL) {
-- 
2.43.0


From 9db294b23401aca5174b7712585079a1cae00174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:23 +0000
Subject: [PATCH 07/42] fix: misc_resample shifted the highest positive
 frequency of odd-length signals in the wrong direction

---
 src/private/fnft__misc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/private/fnft__misc.c b/src/private/fnft__misc.c
index 43d24dc..bb7abe3 100644
--- a/src/private/fnft__misc.c
+++ b/src/private/fnft__misc.c
@@ -350,9 +350,9 @@ INT misc_resample(const UINT D, const REAL eps_t, COMPLEX const * const q,
     
     const REAL scl_factor = (REAL)D*eps_t;
     // Applying phase shift
-    for (i = 0; i <D/2; i++)
+    for (i = 0; i <(D+1)/2; i++)
         freq[i] = i/scl_factor;
-    for (i = D/2; i < D; i++)
+    for (i = (D+1)/2; i < D; i++)
         freq[i] = ((REAL)i - (REAL)D)/scl_factor;
 
     for (i = 0; i < D; i++) {
-- 
2.43.0


From 599a1a254e0f39368deb3c8e6bd0e6bdeed71b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:31 +0000
Subject: [PATCH 08/42] fix: akns_scatter returned NaN derivatives where the
 step matrix exponent is nilpotent (e.g. zero samples at lambda=0)

---
 src/private/fnft__akns_scatter.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/private/fnft__akns_scatter.c b/src/private/fnft__akns_scatter.c
index 396db69..73fed94 100644
--- a/src/private/fnft__akns_scatter.c
+++ b/src/private/fnft__akns_scatter.c
@@ -47,14 +47,15 @@ static inline void akns_scatter_U_BO(COMPLEX const qn,
         U[5] = ch + u1;
         memcpy(&U[10],&U[0],6 * sizeof(COMPLEX)); // lower right block
 
-        COMPLEX const chi = ch/ks;
-        COMPLEX const ud1 = eps_t*ln2*chi*I;
-        COMPLEX const ud2 = misc_CSINC_derivative(I*eps_t*k)*I*ln*eps_t*eps_t/k;
+        // Removable singularity at k=0
+        COMPLEX const chi = (k == 0) ? -I*eps_t/3.0 : misc_CSINC_derivative(I*eps_t*k)/k;
+        COMPLEX const ud1 = -ln2*chi*eps_t*eps_t;
+        COMPLEX const ud2 = I*ln*chi*eps_t*eps_t;
 
-        U[8]  = ud1 - ( ln*eps_t + I + (ln2*I)/ks )*sh;
+        U[8]  = ud1 - ( ln*eps_t + I )*sh;
         U[9]  = -qn*ud2;
         U[12] = -rn*ud2;
-        U[13] = -ud1 - ( ln*eps_t - I - (ln2*I)/ks )*sh;
+        U[13] = -ud1 - ( ln*eps_t - I )*sh;
     } else {
         U[2] = rn*sh;
         U[3] = ch + u1;
@@ -80,8 +81,8 @@ static inline void akns_scatter_U_ES4(COMPLEX const a1,
 
         COMPLEX w_d = -(a1*tmp2[0]+a2*tmp2[1]+a3*tmp2[2]);
         COMPLEX const c_d = -misc_CSINC(w)*w_d;
-        w_d /= w;
-        COMPLEX const s_d = w_d * misc_CSINC_derivative(w);
+        // Removable singularity at w=0
+        COMPLEX const s_d = w_d * ((w == 0) ? -1.0/3.0 : misc_CSINC_derivative(w)/w);
         U[8] = c_d+s_d*a3+s*tmp2[2];
         U[9] = s_d*a1+s*tmp2[0]-I*s_d*a2-I*s*tmp2[1];
         U[12] = s_d*a1+s*tmp2[0]+I*s_d*a2+I*s*tmp2[1];
-- 
2.43.0


From fe654d1ec628a4132f1b1f090ebd5dbe75b2d890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:09 +0000
Subject: [PATCH 09/42] fix: akns_scatter_bound_states did not check the
 allocation of the backward scaling factors

---
 src/private/fnft__akns_scatter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/private/fnft__akns_scatter.c b/src/private/fnft__akns_scatter.c
index 73fed94..28d9fb2 100644
--- a/src/private/fnft__akns_scatter.c
+++ b/src/private/fnft__akns_scatter.c
@@ -497,7 +497,7 @@ INT akns_scatter_bound_states(UINT const D,
         WPHI = malloc((D_given + 1)*sizeof(COMPLEX));
         CHECK_NOMEM(WPHI, ret_code, leave_fun);
         WPSI = malloc((D_given + 1)*sizeof(COMPLEX));
-        CHECK_NOMEM(WPHI, ret_code, leave_fun);
+        CHECK_NOMEM(WPSI, ret_code, leave_fun);
     }
 
     // Define stepsize constants that are often needed
-- 
2.43.0


From efb3b0c14b00279dc5a0f2ffc2c76969ccce11ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:09 +0000
Subject: [PATCH 10/42] fix: akns_scatter_bound_states read uninitialized
 scaling factors at the boundaries

---
 src/private/fnft__akns_scatter.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/private/fnft__akns_scatter.c b/src/private/fnft__akns_scatter.c
index 28d9fb2..92c4215 100644
--- a/src/private/fnft__akns_scatter.c
+++ b/src/private/fnft__akns_scatter.c
@@ -498,6 +498,8 @@ INT akns_scatter_bound_states(UINT const D,
         CHECK_NOMEM(WPHI, ret_code, leave_fun);
         WPSI = malloc((D_given + 1)*sizeof(COMPLEX));
         CHECK_NOMEM(WPSI, ret_code, leave_fun);
+        WPHI[0] = 0; // no scaling at the boundaries
+        WPSI[D_given] = 0;
     }
 
     // Define stepsize constants that are often needed
-- 
2.43.0


From 42b551f6f10c423ddd03ddba279b82a9bcfa6115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:40 +0000
Subject: [PATCH 11/42] fix: manakov_scatter_matrix returned NaN where the root
 of the step matrix exponent vanishes (e.g. kappa=-1, lambda=|q|)

---
 src/private/fnft__manakov_scatter.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/private/fnft__manakov_scatter.c b/src/private/fnft__manakov_scatter.c
index 4d63958..d1f7214 100644
--- a/src/private/fnft__manakov_scatter.c
+++ b/src/private/fnft__manakov_scatter.c
@@ -52,18 +52,20 @@ static inline void manakov_scatter_U_BO(COMPLEX const q1,       // calculates th
     COMPLEX x1 = CSQRT(lam*lam + kappa*q1*CONJ(q1) + kappa*q2*CONJ(q2));
     COMPLEX x2  = eps_t*x1*I;
     COMPLEX x3 = q1*CONJ(q1)+q2*CONJ(q2);
+    // CSINH(x2)/x1, which is also finite for x1==0
+    COMPLEX x4 = I*eps_t*misc_CSINC(eps_t*x1);
 
-        U[0] = -(lam/x1)*CSINH(x2)+CCOSH(x2);
-        U[1] = -(I*q1/x1)*CSINH(x2);
-        U[2] = -(I*q2/x1)*CSINH(x2);
+        U[0] = -lam*x4+CCOSH(x2);
+        U[1] = -I*q1*x4;
+        U[2] = -I*q2*x4;
 
-        U[3] = (I*kappa*CONJ(q1)/x1)*CSINH(x2);
-        U[4] = (q1*CONJ(q1)/x3)*(CCOSH(x2) + (lam/x1)*CSINH(x2)) + q2*CONJ(q2)*CEXP(eps_t*lam*I)/x3;
-        U[5] = (q2*CONJ(q1)/x3)*(CCOSH(x2) - CEXP(eps_t*lam*I) + (lam/x1)*CSINH(x2));
+        U[3] = I*kappa*CONJ(q1)*x4;
+        U[4] = (q1*CONJ(q1)/x3)*(CCOSH(x2) + lam*x4) + q2*CONJ(q2)*CEXP(eps_t*lam*I)/x3;
+        U[5] = (q2*CONJ(q1)/x3)*(CCOSH(x2) - CEXP(eps_t*lam*I) + lam*x4);
 
-        U[6] = (I*kappa*CONJ(q2)/x1)*CSINH(x2);
-        U[7] = (q1*CONJ(q2)/x3)*(CCOSH(x2) - CEXP(eps_t*lam*I) + (lam/x1)*CSINH(x2));
-        U[8] = (q2*CONJ(q2)/x3)*(CCOSH(x2) + (lam/x1)*CSINH(x2)) + q1*CONJ(q1)*CEXP(eps_t*lam*I)/x3;
+        U[6] = I*kappa*CONJ(q2)*x4;
+        U[7] = (q1*CONJ(q2)/x3)*(CCOSH(x2) - CEXP(eps_t*lam*I) + lam*x4);
+        U[8] = (q2*CONJ(q2)/x3)*(CCOSH(x2) + lam*x4) + q1*CONJ(q1)*CEXP(eps_t*lam*I)/x3;
     }
 
 }
-- 
2.43.0


From bf4d3fb4e50120fbef56193b693cfb0323879adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:58 +0000
Subject: [PATCH 12/42] fix: nse_finvscatter recovered wrong samples for
 2SPLIT2A in the defocusing case

---
 src/private/fnft__akns_finvscatter_q_from_r.inc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/private/fnft__akns_finvscatter_q_from_r.inc b/src/private/fnft__akns_finvscatter_q_from_r.inc
index 2c1f1ae..44efafa 100644
--- a/src/private/fnft__akns_finvscatter_q_from_r.inc
+++ b/src/private/fnft__akns_finvscatter_q_from_r.inc
@@ -208,6 +208,12 @@ start_pos_2:
                 *s[i].q = X/eps_t;
                 break;
             case FNFT__AKNS_FINVSCATTER_Q_FROM_R_PREFIX(discretization_2SPLIT2A):
+                #ifdef FNFT__AKNS_FINVSCATTER_Q_FROM_R_HAS_KAPPA
+                if (kappa == -1) {
+                    *s[i].q = ATANH(CABS(X))*CEXP(I*CARG(X))/eps_t;
+                    break;
+                }
+                #endif
                 *s[i].q = ATAN(CABS(X))*CEXP(I*CARG(X))/eps_t;
                 break;
             default: // discretization is unknown or not supported
-- 
2.43.0


From 5efd986985d2b3245ff5284f818e8a63254abda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:58 +0000
Subject: [PATCH 13/42] fix: nse/kdv_finvscatter wrote beyond its stack and
 call stack for unsupported discretizations of higher degree

---
 src/private/fnft__akns_finvscatter_q_from_r.inc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/private/fnft__akns_finvscatter_q_from_r.inc b/src/private/fnft__akns_finvscatter_q_from_r.inc
index 44efafa..72a7f56 100644
--- a/src/private/fnft__akns_finvscatter_q_from_r.inc
+++ b/src/private/fnft__akns_finvscatter_q_from_r.inc
@@ -262,6 +262,11 @@ INT FNFT__AKNS_FINVSCATTER_Q_FROM_R__PREFIX(finvscatter)(
             discretization);
     if (discretization_degree == 0) // unknown discretization
         return E_INVALID_ARGUMENT(discretization);
+    if (discretization
+            != FNFT__AKNS_FINVSCATTER_Q_FROM_R_PREFIX(discretization_2SPLIT2_MODAL)
+        && discretization
+            != FNFT__AKNS_FINVSCATTER_Q_FROM_R_PREFIX(discretization_2SPLIT2A))
+        return E_INVALID_ARGUMENT(discretization); // not supported
     const UINT D = deg / discretization_degree;
     if (D < 2 || (D&(D-1)) != 0)
         return E_OTHER("Number of samples D used to build the transfer matrix was no positive power of two.");
-- 
2.43.0


From 512a282fe2b712bed5e6f18125db5a2bcf7125f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:51 +0000
Subject: [PATCH 14/42] fix: nsev changed the options of the caller, or the
 default options, when it returned early or used Richardson extrapolation

---
 src/fnft_nsev.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 2e491e8..9aa4b5d 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -186,6 +186,11 @@ INT fnft_nsev(
     if (opts == NULL)
         opts = &default_opts;
 
+    // Some options are changed temporarily below. We work on a copy such that
+    // neither the options of the caller nor the default options are affected.
+    fnft_nsev_opts_t opts_copy = *opts;
+    opts = &opts_copy;
+
     // This switch checks for incompatible bound_state_localization options
     switch (opts->discretization) {
         case nse_discretization_2SPLIT2_MODAL:
-- 
2.43.0


From 81dec066cf718f56ecce3a71a437f6439a306d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:51 +0000
Subject: [PATCH 15/42] fix: nsev dereferenced XI==NULL with Richardson
 extrapolation when no continuous spectrum was requested

---
 src/fnft_nsev.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 9aa4b5d..86167fd 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -412,8 +412,8 @@ INT fnft_nsev(
         // Richardson extrapolation of the continuous spectrum
         REAL const scl_num = POW(eps_t_sub/eps_t,method_order);
         REAL const scl_den = scl_num - 1.0;
-        REAL const dxi = (XI[1]-XI[0])/(M-1);
         if (contspec != NULL && M > 0){
+            REAL const dxi = (XI[1]-XI[0])/(M-1);
             for (i=0; i<M; i++){
                 if (FABS(XI[0]+dxi*i) < 0.9*PI/(2.0*eps_t_sub)){
                     for (j=0; j<contspec_len; j+=M)
-- 
2.43.0


From c6aa75d02a1e14168716ec49026531227dffabe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:32 +0000
Subject: [PATCH 16/42] fix: nsev wrote beyond the residues array, or
 dereferenced NULL, with Richardson extrapolation and residues

---
 src/fnft_nsev.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 86167fd..6adfeb8 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -264,7 +264,8 @@ INT fnft_nsev(
     // Hence double the memory is necessary even if the user requests only residues.
     if (opts->richardson_extrapolation_flag == 1){
         ds_type_opt = opts->discspec_type;
-        if (ds_type_opt == nsev_dstype_RESIDUES){
+        if (ds_type_opt == nsev_dstype_RESIDUES && bound_states != NULL
+                && normconsts_or_residues != NULL){
             opts->discspec_type = nsev_dstype_BOTH;
             normconsts_or_residues_reserve = malloc(*K_ptr*2 * sizeof(COMPLEX));
             if (normconsts_or_residues_reserve == NULL) {
@@ -322,7 +323,7 @@ INT fnft_nsev(
         opts->bound_state_localization = nsev_bsloc_SUBSAMPLE_AND_REFINE;
     } else {
         ret_code = fnft_nsev_base(D_effective, q_preprocessed, r_preprocessed, T, M, contspec, XI, K_ptr,
-                    bound_states, normconsts_or_residues, kappa, opts);
+                    bound_states, normconsts_or_residues_reserve, kappa, opts);
         CHECK_RETCODE(ret_code, leave_fun);
     }
 
@@ -440,7 +441,8 @@ INT fnft_nsev(
                 }
                 if (loc < K_sub){
                     bound_states[i] = (scl_num*bound_states[i] - bound_states_sub[loc])/scl_den;
-                    if (ds_type_opt == nsev_dstype_RESIDUES || ds_type_opt == nsev_dstype_BOTH){
+                    if (normconsts_or_residues != NULL
+                            && (ds_type_opt == nsev_dstype_RESIDUES || ds_type_opt == nsev_dstype_BOTH)){
                         // Computing aprimes from residues and norming constants
                         normconsts_or_residues_reserve[K+i] = normconsts_or_residues_reserve[i]/normconsts_or_residues_reserve[K+i];
                         normconsts_or_residues_sub[K_sub+loc] = normconsts_or_residues_sub[loc]/normconsts_or_residues_sub[K_sub+loc];
@@ -451,7 +453,9 @@ INT fnft_nsev(
                     }
                 }
             }
-            if (ds_type_opt == nsev_dstype_RESIDUES)
+            if (normconsts_or_residues == NULL)
+                ; // not requested
+            else if (ds_type_opt == nsev_dstype_RESIDUES)
                 memcpy(normconsts_or_residues,normconsts_or_residues_reserve+K,K* sizeof(COMPLEX));
             else if(ds_type_opt == nsev_dstype_BOTH)
                 memcpy(normconsts_or_residues,normconsts_or_residues_reserve,2*K* sizeof(COMPLEX));
-- 
2.43.0


From 485177aeae9cfb521e062d1ef771831949e0011f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:29 +0000
Subject: [PATCH 17/42] fix: nsev leaked its buffers on several errors (e.g.
 a'(lambda)==0 when residues are computed)

---
 src/fnft_nsev.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 6adfeb8..15c1698 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -833,7 +833,7 @@ static inline INT nsev_compute_contspec(
     // Allocate memory for transfer matrix values
     H11_vals = malloc(2*M * sizeof(COMPLEX));
     if (H11_vals == NULL){
-        return E_NOMEM;
+        ret_code = E_NOMEM;
         goto leave_fun;}
     H21_vals = H11_vals + M;
 
@@ -899,7 +899,7 @@ static inline INT nsev_compute_contspec(
 
             for (i = 0; i < M; i++) {
                 if (H11_vals[i] == 0.0){
-                    return E_DIV_BY_ZERO;
+                    ret_code = E_DIV_BY_ZERO;
                     goto leave_fun;
                 }
                 result[i] = H21_vals[i] * CEXP(I*xi[i]*phase_factor_rho) / H11_vals[i];
@@ -1011,13 +1011,17 @@ static inline INT nsev_compute_normconsts_or_residues(
             memcpy(normconsts_or_residues + offset,
                     normconsts_or_residues,
                     offset*sizeof(COMPLEX));
-        } else
-            return E_INVALID_ARGUMENT(opts->discspec_type);
+        } else {
+            ret_code = E_INVALID_ARGUMENT(opts->discspec_type);
+            goto leave_fun;
+        }
 
         // Divide norming constants by derivatives to get residues
         for (i = 0; i < K; i++) {
-            if (aprime_vals[i] == 0.0)
-                return E_DIV_BY_ZERO;
+            if (aprime_vals[i] == 0.0) {
+                ret_code = E_DIV_BY_ZERO;
+                goto leave_fun;
+            }
             normconsts_or_residues[offset + i] /= aprime_vals[i];
             if (Ws != NULL) // normalization is on
                 normconsts_or_residues[offset + i] /= POW(2, Ws[i]);
-- 
2.43.0


From 80b17c599db476a99afe50a93d02096932ce0a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:29 +0000
Subject: [PATCH 18/42] fix: nsev did not return the residues with Richardson
 extrapolation when no bound state of the subsampled signal was found

---
 src/fnft_nsev.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 15c1698..d1444f9 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -453,13 +453,10 @@ INT fnft_nsev(
                     }
                 }
             }
-            if (normconsts_or_residues == NULL)
-                ; // not requested
-            else if (ds_type_opt == nsev_dstype_RESIDUES)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve+K,K* sizeof(COMPLEX));
-            else if(ds_type_opt == nsev_dstype_BOTH)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve,2*K* sizeof(COMPLEX));
         }
+        // Return the residues if they had to be computed in a separate buffer
+        if (normconsts_or_residues_reserve != normconsts_or_residues && kappa == +1)
+            memcpy(normconsts_or_residues, normconsts_or_residues_reserve + *K_ptr, *K_ptr * sizeof(COMPLEX));
     }
 
     leave_fun:
-- 
2.43.0


From a95628d9421dd64f8287e904395f70687fb93a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:02 +0000
Subject: [PATCH 19/42] fix: akns_scatter_bound_states left b uninitialized
 where no sample allows to compute it (e.g. zero signals)

---
 src/private/fnft__akns_scatter.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/private/fnft__akns_scatter.c b/src/private/fnft__akns_scatter.c
index 92c4215..24b2c98 100644
--- a/src/private/fnft__akns_scatter.c
+++ b/src/private/fnft__akns_scatter.c
@@ -834,6 +834,7 @@ INT akns_scatter_bound_states(UINT const D,
             CHECK_RETCODE(ret_code, leave_fun);
 
             REAL error_metric = INFINITY, tmp = INFINITY;
+            b_vals[neig] = NAN; // in case no sample is suitable
             for (UINT n = 0; n <= D_given; n++){
                 COMPLEX * const psi_S = &f_S[0], * const phi_S = &f_S[2], b_temp[2];
                 // Calculate phi and psi for this sample in S basis
-- 
2.43.0


From bbb4413be087f70417d76c3935c5aa293323a973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:57 +0000
Subject: [PATCH 20/42] fix: nsev freed the subsampled signal twice when the
 preprocessing for Richardson extrapolation failed

---
 src/fnft_nsev.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index d1444f9..fffbbe6 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -388,10 +388,10 @@ INT fnft_nsev(
         // required for obtaining a second approximation of the spectrum
         // which will be used for Richardson extrapolation.
         Dsub = (UINT) CEIL(D/2);
-        if (qsub_preprocessed != NULL)
-            free(qsub_preprocessed);
-        if (rsub_preprocessed != NULL)
-            free(rsub_preprocessed);
+        free(qsub_preprocessed);
+        qsub_preprocessed = NULL;
+        free(rsub_preprocessed);
+        rsub_preprocessed = NULL;
         ret_code = nse_discretization_preprocess_signal(D, q, eps_t, kappa, &Dsub, &qsub_preprocessed, &rsub_preprocessed,
                 first_last_index, opts->discretization);
         CHECK_RETCODE(ret_code, leave_fun);
-- 
2.43.0


From d3b3d7f1ddf348a3af7307985e6053102fa9a132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:06 +0000
Subject: [PATCH 21/42] fix: kdvv dereferenced XI==NULL when no continuous
 spectrum was requested

---
 src/fnft_kdvv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index bcd66c5..dff8423 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -163,7 +163,7 @@ INT fnft_kdvv(
         if (XI == NULL || XI[0] >= XI[1])
             return E_INVALID_ARGUMENT(XI);
     }
-    for (i=0; i<M; i++){
+    for (i=0; contspec != NULL && i<M; i++){
         if (XI[0]+i*(XI[1]-XI[0])/(M-1) == 0)
             return E_INVALID_ARGUMENT(XI);
     }
@@ -323,8 +323,8 @@ INT fnft_kdvv(
         // Richardson extrapolation of the continuous spectrum
         REAL const scl_num = POW(eps_t_sub/eps_t,method_order);
         REAL const scl_den = scl_num - 1.0;
-        REAL const dxi = (XI[1]-XI[0])/(M-1);
         if (contspec != NULL && M > 0){
+            REAL const dxi = (XI[1]-XI[0])/(M-1);
             for (i=0; i<M; i++){
                 if (FABS(XI[0]+dxi*i) < 0.9*PI/(2.0*eps_t_sub)){
                     for (j=0; j<contspec_len; j+=M)
-- 
2.43.0


From a0654f4540b89c08d62252c91191eb63f7435925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:06 +0000
Subject: [PATCH 22/42] fix: kdvv changed the options of the caller, or the
 default options, on errors with Richardson extrapolation

---
 src/fnft_kdvv.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index dff8423..2afd3e1 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -171,6 +171,11 @@ INT fnft_kdvv(
     if (opts == NULL)
         opts = &default_opts;
 
+    // Some options are changed temporarily below. We work on a copy such that
+    // neither the options of the caller nor the default options are affected.
+    fnft_kdvv_opts_t opts_copy = *opts;
+    opts = &opts_copy;
+
     if (bound_states != NULL) {
         if (K_ptr == NULL) {
             return E_INVALID_ARGUMENT(K_ptr);
-- 
2.43.0


From d39ac4c152bf2b227c3ba4655b5e994006f69a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:06 +0000
Subject: [PATCH 23/42] fix: kdvv wrote beyond the residues array, or
 dereferenced NULL, with Richardson extrapolation and residues

---
 src/fnft_kdvv.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 2afd3e1..318ee69 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -220,7 +220,8 @@ INT fnft_kdvv(
     // Hence double the memory is necessary even if the user requests only residues.
     if (opts->richardson_extrapolation_flag == 1){
         ds_type_opt = opts->discspec_type;
-        if (ds_type_opt == kdvv_dstype_RESIDUES){
+        if (ds_type_opt == kdvv_dstype_RESIDUES && bound_states != NULL
+                && normconsts_or_residues != NULL){
             opts->discspec_type = kdvv_dstype_BOTH;
             normconsts_or_residues_reserve = malloc(*K_ptr*2 * sizeof(COMPLEX));
             if (normconsts_or_residues_reserve == NULL) {
@@ -243,7 +244,7 @@ INT fnft_kdvv(
     CHECK_RETCODE(ret_code, leave_fun);
 
     ret_code = fnft_kdvv_base(D_effective, q_preprocessed, r_preprocessed, T, M, contspec, XI, K_ptr,
-                bound_states, normconsts_or_residues, kappa, opts);
+                bound_states, normconsts_or_residues_reserve, kappa, opts);
     CHECK_RETCODE(ret_code, leave_fun);
 
     if (opts->richardson_extrapolation_flag == 1){
@@ -356,7 +357,8 @@ INT fnft_kdvv(
                 }
                 if (loc < K_sub){
                     bound_states[i] = (scl_num*bound_states[i] - bound_states_sub[loc])/scl_den;
-                    if (ds_type_opt == kdvv_dstype_RESIDUES || ds_type_opt == kdvv_dstype_BOTH){
+                    if (normconsts_or_residues != NULL
+                            && (ds_type_opt == kdvv_dstype_RESIDUES || ds_type_opt == kdvv_dstype_BOTH)){
                         // Computing aprimes from residues and norming constants
                         normconsts_or_residues_reserve[K+i] = normconsts_or_residues_reserve[i]/normconsts_or_residues_reserve[K+i];
                         normconsts_or_residues_sub[K_sub+loc] = normconsts_or_residues_sub[loc]/normconsts_or_residues_sub[K_sub+loc];
@@ -367,11 +369,10 @@ INT fnft_kdvv(
                     }
                 }
             }
-            if (ds_type_opt == kdvv_dstype_RESIDUES)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve+K,K* sizeof(COMPLEX));
-            else if(ds_type_opt == kdvv_dstype_BOTH)
-                memcpy(normconsts_or_residues,normconsts_or_residues_reserve,2*K* sizeof(COMPLEX));
         }
+        // Return the residues if they had to be computed in a separate buffer
+        if (normconsts_or_residues_reserve != normconsts_or_residues)
+            memcpy(normconsts_or_residues, normconsts_or_residues_reserve + *K_ptr, *K_ptr * sizeof(COMPLEX));
     }
 
     leave_fun:
-- 
2.43.0


From a1816becba9b75e1e42a6e37f4ebeeb1f81e3f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:06 +0000
Subject: [PATCH 24/42] fix: kdvv leaked its buffers on several errors (e.g.
 a'(lambda)==0 when residues are computed)

---
 src/fnft_kdvv.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 318ee69..92ef997 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -750,7 +750,7 @@ static inline INT kdvv_compute_contspec(
     // Allocate memory for transfer matrix values
     H11_vals = malloc(4*M * sizeof(COMPLEX));
     if (H11_vals == NULL){
-        return E_NOMEM;
+        ret_code = E_NOMEM;
         goto leave_fun;}
     COMPLEX * const H12_vals = H11_vals + M;
     COMPLEX * const H21_vals = H12_vals + M;
@@ -855,7 +855,7 @@ static inline INT kdvv_compute_contspec(
 
             for (i = 0; i < M; i++) {
                 if (H11_vals[i] == 0.0){
-                    return E_DIV_BY_ZERO;
+                    ret_code = E_DIV_BY_ZERO;
                     goto leave_fun;
                 }
                 result[i] = H21_vals[i] * CEXP(I*xi[i]*phase_factor_rho) / H11_vals[i];
@@ -959,13 +959,17 @@ static inline INT kdvv_compute_normconsts_or_residues(
             memcpy(normconsts_or_residues + offset,
                     normconsts_or_residues,
                     offset*sizeof(complex double));
-        } else
-            return E_INVALID_ARGUMENT(opts->discspec_type);
+        } else {
+            ret_code = E_INVALID_ARGUMENT(opts->discspec_type);
+            goto leave_fun;
+        }
 
         // Divide norming constants by derivatives to get residues
         for (i = 0; i < K; i++) {
-            if (aprime_vals[i] == 0.0)
-                return E_DIV_BY_ZERO;
+            if (aprime_vals[i] == 0.0) {
+                ret_code = E_DIV_BY_ZERO;
+                goto leave_fun;
+            }
             normconsts_or_residues[offset + i] /= aprime_vals[i];
             if (Ws != NULL) // if normalization is on
                 normconsts_or_residues[offset + i] /= POW(2, Ws[i]);
-- 
2.43.0


From b175dfb86f43eb29763acc8f0bc899afce99d356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:06 +0000
Subject: [PATCH 25/42] fix: manakovv changed the options of the caller, or the
 default options, with Richardson extrapolation

---
 src/fnft_manakovv.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index bd5fe19..568c491 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -159,6 +159,11 @@ INT fnft_manakovv(
 	if (opts == NULL)
 		opts = &default_opts;
 
+	// Some options are changed temporarily below. We work on a copy such that
+	// neither the options of the caller nor the default options are affected.
+	fnft_manakovv_opts_t opts_copy = *opts;
+	opts = &opts_copy;
+
 	// This switch checks for incompatible bound_state_localization options
     switch (opts->discretization) {
         case manakov_discretization_2SPLIT3A:
-- 
2.43.0


From aabe7ff02d1e46ffecbdff575d78e582cdfc5706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:06 +0000
Subject: [PATCH 26/42] fix: manakovv dereferenced K_ptr==NULL or XI==NULL with
 Richardson extrapolation

---
 src/fnft_manakovv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 568c491..9c16d2b 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -206,7 +206,7 @@ INT fnft_manakovv(
 
 	if (opts->richardson_extrapolation_flag == 1) {
 		ds_type_opt = opts->discspec_type;
-		if (ds_type_opt == manakovv_dstype_RESIDUES) {
+		if (ds_type_opt == manakovv_dstype_RESIDUES && K_ptr != NULL) {
 			opts->discspec_type = manakovv_dstype_BOTH;
 			normconsts_or_residues_reserve = malloc(*K_ptr * 2 * sizeof(COMPLEX));
 			if (normconsts_or_residues_reserve == NULL) {
@@ -319,8 +319,8 @@ INT fnft_manakovv(
 		// Richardson extrapolation of the continuous spectrum
 		REAL const scl_num = POW(eps_t_sub / eps_t, method_order);
 		REAL const scl_den = scl_num - 1.0;
-		REAL const dxi = (XI[1] - XI[0]) / (M - 1);
 		if (contspec != NULL && M > 0) {
+			REAL const dxi = (XI[1] - XI[0]) / (M - 1);
 			for (i = 0; i < M; i++) {
 				if (FABS(XI[0] + dxi * i) < 0.9 * PI / (2.0 * eps_t_sub)) {
 					for (j = 0; j < contspec_len; j += M)
-- 
2.43.0


From b58d2fc6d97724f60eceaff66868475f00717bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:06 +0000
Subject: [PATCH 27/42] fix: manakovv freed the subsampled signals twice when
 the preprocessing for Richardson extrapolation failed

---
 src/fnft_manakovv.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 9c16d2b..5b3fdcf 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -295,10 +295,10 @@ INT fnft_manakovv(
 		// required for obtaining a second approximation of the spectrum
 		// which will be used for Richardson extrapolation.
 		Dsub = (UINT)CEIL(D / 2);
-        if (q1sub_preprocessed != NULL)
-            free(q1sub_preprocessed);
-        if (q2sub_preprocessed != NULL)
-            free(q2sub_preprocessed);
+        free(q1sub_preprocessed);
+        q1sub_preprocessed = NULL;
+        free(q2sub_preprocessed);
+        q2sub_preprocessed = NULL;
 		ret_code = manakov_discretization_preprocess_signal(D, q1, q2, eps_t, &Dsub, &q1sub_preprocessed, &q2sub_preprocessed,
 			first_last_index, opts->discretization);
 		CHECK_RETCODE(ret_code, leave_fun);
-- 
2.43.0


From 6dc59e3aeb7ab124ccad01ffe5f0dabb015d319a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:06 +0000
Subject: [PATCH 28/42] fix: manakovv leaked its buffers on several errors

---
 src/fnft_manakovv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 5b3fdcf..03ae25d 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -561,7 +561,7 @@ static inline INT manakovv_compute_contspec(
 	// Allocate memory for transfer matrix values
 	H11_vals = malloc(3 * M * sizeof(COMPLEX));
 	if (H11_vals == NULL) {
-		return E_NOMEM;
+		ret_code = E_NOMEM;
 		goto leave_fun;
 	}
 	H21_vals = H11_vals + M;
@@ -628,7 +628,7 @@ static inline INT manakovv_compute_contspec(
 
 		for (i = 0; i < M; i++) {
 			if (H11_vals[i] == 0.0) {
-				return E_DIV_BY_ZERO;
+				ret_code = E_DIV_BY_ZERO;
 				goto leave_fun;
 			}
 			result[i] = H21_vals[i] * CEXP(I * xi[i] * phase_factor_rho) / H11_vals[i];
-- 
2.43.0


From 561385a7734aebe31d9fd88913ef1880f5dd9b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:06 +0000
Subject: [PATCH 29/42] fix: manakovv returned fewer bound states than fit when
 the continuous spectrum was requested as well

The capacity *K_ptr was overwritten by a superfluous first localization, and
*K_ptr was left unchanged when no bound states were computed.
---
 src/fnft_manakovv.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 03ae25d..72c0dec 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -229,10 +229,6 @@ INT fnft_manakovv(
 	CHECK_RETCODE(ret_code, leave_fun);
 
 	if (contspec != NULL){
-		ret_code = fnft_manakovv_base(D*upsampling_factor, q1_preprocessed, q2_preprocessed, T, M, NULL, XI, K_ptr,
-			bound_states, kappa, opts);
-		CHECK_RETCODE(ret_code, leave_fun);
-
 		ret_code = fnft_manakovv_base(D*upsampling_factor, q1_preprocessed, q2_preprocessed, T, M, contspec, XI, K_ptr,
 			NULL, kappa, opts);
 		CHECK_RETCODE(ret_code, leave_fun);
@@ -255,6 +251,8 @@ INT fnft_manakovv(
 		ret_code = fnft_manakovv_base(Dsub*upsampling_factor, q1sub_preprocessed, q2sub_preprocessed, T, M, NULL, XI, K_ptr,
 			bound_states, kappa, opts);
 		CHECK_RETCODE(ret_code, leave_fun);
+	} else if (K_ptr != NULL) {
+		*K_ptr = 0;
 	}
 
 	if (opts->richardson_extrapolation_flag == 1) {
-- 
2.43.0


From 22cd455417cf52cbc0b8270d85e14625fcc49b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:06 +0000
Subject: [PATCH 30/42] fix: manakovv used the wrong time interval for the
 bound states when the last sample was lost during subsampling

---
 src/fnft_manakovv.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 72c0dec..40c2b2f 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -248,7 +248,10 @@ INT fnft_manakovv(
                 first_last_index, opts->discretization);
         CHECK_RETCODE(ret_code, leave_fun);
 
-		ret_code = fnft_manakovv_base(Dsub*upsampling_factor, q1sub_preprocessed, q2sub_preprocessed, T, M, NULL, XI, K_ptr,
+		Tsub[0] = T[0] + first_last_index[0] * eps_t;
+		Tsub[1] = T[0] + first_last_index[1] * eps_t;
+
+		ret_code = fnft_manakovv_base(Dsub*upsampling_factor, q1sub_preprocessed, q2sub_preprocessed, Tsub, M, NULL, XI, K_ptr,
 			bound_states, kappa, opts);
 		CHECK_RETCODE(ret_code, leave_fun);
 	} else if (K_ptr != NULL) {
-- 
2.43.0


From c51dfdf968e6369c405afc9983705143b770da13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:53 +0000
Subject: [PATCH 31/42] fix: nsep set *K_ptr to an uninitialized value when the
 grid search was used for the auxiliary spectrum only

---
 src/fnft_nsep.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 955a70d..ab7b043 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -252,7 +252,7 @@ static inline INT gridsearch(const UINT D,
     REAL PHI[2] = { 0.0, 2.0*PI };
     UINT deg;
     INT W = 0, *W_ptr = NULL;
-    UINT K, K_filtered;
+    UINT K = 0, K_filtered;
     UINT M = 0;
     UINT i, upsampling_factor, D_effective;// upsampling_factor*D gives the effective number of samples
     INT ret_code = SUCCESS;
-- 
2.43.0


From e82ccab9e756871ad9307081276f600cecfa2645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:53 +0000
Subject: [PATCH 32/42] fix: nsep changed the bounding box in the options of
 the caller or in the default options

---
 src/fnft_nsep.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index ab7b043..702d2e0 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -124,6 +124,8 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
         return E_NOT_YET_IMPLEMENTED(sheet_indices, Pass sheet_indices="NULL".);
     if (opts_ptr == NULL)
         opts_ptr = &default_opts;
+    fnft_nsep_opts_t opts = *opts_ptr; // The bounding box is changed below =>
+    opts_ptr = &opts;                  // work with a copy
     if (opts_ptr->filtering != fnft_nsep_filt_NONE && main_spec == NULL && aux_spec != NULL)
         return E_INVALID_ARGUMENT(main_spec. Filtering of the auxiliary spectrum is not possible if the main spectrum is not computed.);
 
@@ -224,12 +226,6 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
     for (i=0; i < *M_ptr; i++)
         aux_spec[i] += Lam_shift;
     }
-
-    // Restoring changed limits
-    if (opts_ptr->filtering == fnft_nsep_filt_MANUAL){
-        opts_ptr->bounding_box[0] += Lam_shift;
-        opts_ptr->bounding_box[1] += Lam_shift;
-    }
         leave_fun:
             free(q_preprocessed);
             return ret_code;
-- 
2.43.0


From 42aff7d80a9fb571d09cf8c2b82d6b1fae208cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:53 +0000
Subject: [PATCH 33/42] fix: nsep leaked its buffers for unknown localization
 methods and failed internal checks

---
 src/fnft_nsep.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 702d2e0..24f07bc 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -174,8 +174,10 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
 
             // Store lengths of still unused parts of user-provided arrays in temp
             // variables
-            if (K1 > *K_ptr || M1 > *M_ptr)
-                return E_ASSERTION_FAILED;
+            if (K1 > *K_ptr || M1 > *M_ptr) {
+                ret_code = E_ASSERTION_FAILED;
+                goto leave_fun;
+            }
             K2 = *K_ptr - K1;
             M2 = *M_ptr - M1;
 
@@ -216,7 +218,8 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
 
         default:
 
-            return E_INVALID_ARGUMENT(opts_ptr->discretization);
+            ret_code = E_INVALID_ARGUMENT(opts_ptr->localization);
+            goto leave_fun;
     }
     if (main_spec != NULL) {
     for (i=0; i < *K_ptr; i++)
@@ -516,10 +519,12 @@ static inline INT subsample_and_refine(const UINT D,
     CHECK_RETCODE(ret_code, release_mem);
 
     nskip_per_step = D/Dsub;
-    if ( first_last_index[0] != 0 || first_last_index[1]+nskip_per_step != D )
-        return E_ASSERTION_FAILED; // Correct update of T for general
-                                   // downsampling still needs to be
-                                 // implemented
+    if ( first_last_index[0] != 0 || first_last_index[1]+nskip_per_step != D ) {
+        ret_code = E_ASSERTION_FAILED; // Correct update of T for general
+                                       // downsampling still needs to be
+                                       // implemented
+        goto release_mem;
+    }
 
     if (upsampling_factor == 2) {
         nse_discretization = nse_discretization_CF4_2;
-- 
2.43.0


From 2fb0a4b280470b8d9496d96f3b1bba7ca4cc430b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:53 +0000
Subject: [PATCH 34/42] fix: nsep ignored errors of the root finder for the
 auxiliary spectrum

---
 src/fnft_nsep.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 24f07bc..2374be4 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -669,7 +669,7 @@ static inline INT subsample_and_refine(const UINT D,
     if (aux_spec != NULL) {
         ret_code = poly_roots_fasteigen(deg, transfer_matrix + (deg + 1),
                 roots);
-
+        CHECK_RETCODE(ret_code, release_mem);
 
         // Set number of points in the aux spectrum
         M = deg;
-- 
2.43.0


From c5db286f3e90d68ca9da2d92d7937e5e595defcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:19 +0000
Subject: [PATCH 35/42] fix: nsev_inverse leaked its buffers if a seed
 potential and a continuous spectrum were provided

---
 src/fnft_nsev_inverse.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fnft_nsev_inverse.c b/src/fnft_nsev_inverse.c
index f677c86..d17d0dd 100644
--- a/src/fnft_nsev_inverse.c
+++ b/src/fnft_nsev_inverse.c
@@ -901,8 +901,10 @@ static INT add_discrete_spectrum(
             q[n] = qn;
         }
     }
-    else
-        return E_INVALID_ARGUMENT(opts_ptr->contspec_inversion_method);
+    else {
+        ret_code = E_INVALID_ARGUMENT(opts_ptr->contspec_inversion_method);
+        goto leave_fun;
+    }
 
     leave_fun:
         free(t);
-- 
2.43.0


From 50b7d6f29527b41b8912f09a05dc0e0ee3db6fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:19 +0000
Subject: [PATCH 36/42] fix: nsev_inverse computed the signal from
 uninitialized values if max_iter was zero

---
 src/fnft_nsev_inverse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fnft_nsev_inverse.c b/src/fnft_nsev_inverse.c
index d17d0dd..db15c4f 100644
--- a/src/fnft_nsev_inverse.c
+++ b/src/fnft_nsev_inverse.c
@@ -398,6 +398,8 @@ static inline INT
         return E_ASSERTION_FAILED;
     if (kappa != -1)
         return E_INVALID_ARGUMENT(kappa);
+    if (opts_ptr->max_iter == 0)
+        return E_INVALID_ARGUMENT(opts_ptr->max_iter);
 
     // Allocate some memory and initial (inverse) FFT plans
 
-- 
2.43.0


From 498f8bc7ede02ad9496576862a763db1d1bb1958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:03 +0000
Subject: [PATCH 37/42] fix: NaN interval boundaries were not refused by the
 forward transforms

---
 src/fnft_kdvv.c     | 8 ++++----
 src/fnft_manakovv.c | 8 ++++----
 src/fnft_nsep.c     | 2 +-
 src/fnft_nsev.c     | 8 ++++----
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 92ef997..f838e16 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -157,10 +157,10 @@ INT fnft_kdvv(
         if (CIMAG(q[i])!=0.0)
             return E_INVALID_ARGUMENT(q);
     }
-    if (T == NULL || T[0] >= T[1])
+    if (T == NULL || !(T[0] < T[1]))
         return E_INVALID_ARGUMENT(T);
     if (contspec != NULL) {
-        if (XI == NULL || XI[0] >= XI[1])
+        if (XI == NULL || !(XI[0] < XI[1]))
             return E_INVALID_ARGUMENT(XI);
     }
     for (i=0; contspec != NULL && i<M; i++){
@@ -416,10 +416,10 @@ static inline INT fnft_kdvv_base(
         return E_INVALID_ARGUMENT(D);
     if (q == NULL)
         return E_INVALID_ARGUMENT(q);
-    if (T == NULL || T[0] >= T[1])
+    if (T == NULL || !(T[0] < T[1]))
         return E_INVALID_ARGUMENT(T);
     if (contspec != NULL) {
-        if (XI == NULL || XI[0] >= XI[1])
+        if (XI == NULL || !(XI[0] < XI[1]))
             return E_INVALID_ARGUMENT(XI);
     }
     if (abs(kappa) != 1)
diff --git a/src/fnft_manakovv.c b/src/fnft_manakovv.c
index 40c2b2f..c2c8818 100644
--- a/src/fnft_manakovv.c
+++ b/src/fnft_manakovv.c
@@ -144,10 +144,10 @@ INT fnft_manakovv(
 		return E_INVALID_ARGUMENT(q1);
 	if (q2 == NULL)
 		return E_INVALID_ARGUMENT(q2);
-	if (T == NULL || T[0] >= T[1])
+	if (T == NULL || !(T[0] < T[1]))
 		return E_INVALID_ARGUMENT(T);
 	if (contspec != NULL) {
-		if (XI == NULL || XI[0] >= XI[1])
+		if (XI == NULL || !(XI[0] < XI[1]))
 			return E_INVALID_ARGUMENT(XI);
 	}
 	if (abs(kappa) != 1)
@@ -371,10 +371,10 @@ static inline INT fnft_manakovv_base(
 		return E_INVALID_ARGUMENT(q1);
 	if (q2 == NULL)
 		return E_INVALID_ARGUMENT(q2);
-	if (T == NULL || T[0] >= T[1])
+	if (T == NULL || !(T[0] < T[1]))
 		return E_INVALID_ARGUMENT(T);
 	if (contspec != NULL) {
-		if (XI == NULL || XI[0] >= XI[1])
+		if (XI == NULL || !(XI[0] < XI[1]))
 			return E_INVALID_ARGUMENT(XI);
 	}
 	if (abs(kappa) != 1)
diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index 2374be4..e1c0b07 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -112,7 +112,7 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
         return E_INVALID_ARGUMENT(D);
     if (q == NULL)
         return E_INVALID_ARGUMENT(q);
-    if (T == NULL || T[0] >= T[1])
+    if (T == NULL || !(T[0] < T[1]))
         return E_INVALID_ARGUMENT(T);
     if (abs(kappa) != 1)
         return E_INVALID_ARGUMENT(kappa);
diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index fffbbe6..cbcda87 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -171,10 +171,10 @@ INT fnft_nsev(
         return E_INVALID_ARGUMENT(D);
     if (q == NULL)
         return E_INVALID_ARGUMENT(q);
-    if (T == NULL || T[0] >= T[1])
+    if (T == NULL || !(T[0] < T[1]))
         return E_INVALID_ARGUMENT(T);
     if (contspec != NULL) {
-        if (XI == NULL || XI[0] >= XI[1])
+        if (XI == NULL || !(XI[0] < XI[1]))
             return E_INVALID_ARGUMENT(XI);
     }
     if (abs(kappa) != 1)
@@ -500,10 +500,10 @@ static inline INT fnft_nsev_base(
         return E_INVALID_ARGUMENT(D);
     if (q == NULL)
         return E_INVALID_ARGUMENT(q);
-    if (T == NULL || T[0] >= T[1])
+    if (T == NULL || !(T[0] < T[1]))
         return E_INVALID_ARGUMENT(T);
     if (contspec != NULL) {
-        if (XI == NULL || XI[0] >= XI[1])
+        if (XI == NULL || !(XI[0] < XI[1]))
             return E_INVALID_ARGUMENT(XI);
     }
     if (abs(kappa) != 1)
-- 
2.43.0


From 3d92b639f6b960dee195bf2ec6257c5a36520bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:03 +0000
Subject: [PATCH 38/42] fix: NaN imaginary parts of bound states were not
 refused

---
 src/fnft_kdvv.c         | 2 +-
 src/fnft_nsev_inverse.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index f838e16..0f1d029 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -182,7 +182,7 @@ INT fnft_kdvv(
         } else if (opts->bound_state_localization==fnft_kdvv_bsloc_NEWTON) {
             // This method needs user-provided initial guesses. Check those:
             for (i=0; i<*K_ptr; i++) {
-                if ( CREAL(bound_states[i])!=0.0 || CIMAG(bound_states[i])<=0.0 )
+                if ( CREAL(bound_states[i])!=0.0 || !(CIMAG(bound_states[i])>0.0) )
                     return E_INVALID_ARGUMENT(bound_states);
             }
         }
diff --git a/src/fnft_nsev_inverse.c b/src/fnft_nsev_inverse.c
index db15c4f..55f5478 100644
--- a/src/fnft_nsev_inverse.c
+++ b/src/fnft_nsev_inverse.c
@@ -152,7 +152,7 @@ INT fnft_nsev_inverse(
         return E_INVALID_ARGUMENT(bound_states);
     UINT i;
     for (i = 0; i < K; i++) {
-        if (CIMAG(bound_states[i]) <= 0)
+        if (!(CIMAG(bound_states[i]) > 0))
             return E_SANITY_CHECK_FAILED(bound_states should be stricly in the upper-half complex-plane.);
     }
     if (K > 0 && normconsts_or_residues == NULL)
-- 
2.43.0


From 33585212c231162e1c3b0c05a9400f57639abdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:03 +0000
Subject: [PATCH 39/42] fix: nsev_inverse did not detect all repeated bound
 states

---
 src/fnft_nsev_inverse.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/fnft_nsev_inverse.c b/src/fnft_nsev_inverse.c
index 55f5478..7e6b1f8 100644
--- a/src/fnft_nsev_inverse.c
+++ b/src/fnft_nsev_inverse.c
@@ -753,11 +753,14 @@ static INT add_discrete_spectrum(
             }
         }
     }
-    //Checking for multiplicity of bound_states.
-    for (i = 0; i < K-1; i++){
-        if (bnd_states[i+1] == bnd_states[i]){
-            ret_code = E_SANITY_CHECK_FAILED(Bound_states should be simple (multiplicity should be 1).);
-            goto leave_fun;
+    //Checking for multiplicity of bound_states. Identical bound states are not
+    //necessarily neighbors if there are others with the same imaginary part.
+    for (i = 0; i < K; i++){
+        for (j = i + 1; j < K; j++){
+            if (bnd_states[i] == bnd_states[j]){
+                ret_code = E_SANITY_CHECK_FAILED(Bound_states should be simple (multiplicity should be 1).);
+                goto leave_fun;
+            }
         }
     }
 
-- 
2.43.0


From a802af6e50936518043620d33d9a8e66836619af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:22 +0000
Subject: [PATCH 40/42] fix: nsep did not account for the phase shift in the
 initial guesses for Newton's method

---
 src/fnft_nsep.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fnft_nsep.c b/src/fnft_nsep.c
index e1c0b07..8715312 100644
--- a/src/fnft_nsep.c
+++ b/src/fnft_nsep.c
@@ -204,6 +204,13 @@ INT fnft_nsep(const UINT D, COMPLEX const * const q,
 
         case fnft_nsep_loc_NEWTON:
 
+            // The initial guesses refer to the given signal, not to the one
+            // without the phase rotation
+            for (i=0; main_spec != NULL && i < *K_ptr * opts_ptr->points_per_spine; i++)
+                main_spec[i] -= Lam_shift;
+            for (i=0; aux_spec != NULL && i < *M_ptr; i++)
+                aux_spec[i] -= Lam_shift;
+
             ret_code = newton(D, q_preprocessed, T, K_ptr, main_spec, M_ptr, aux_spec,
                               sheet_indices, kappa, opts_ptr);
             CHECK_RETCODE(ret_code, leave_fun);
-- 
2.43.0


From f729b8ff046b933aa5cb7c013e20adb211d08f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:23 +0000
Subject: [PATCH 41/42] fix: perform the configured number of Newton iterations
 in fnft_nsev

---
 src/fnft_nsev.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index cbcda87..236919d 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -1096,7 +1096,6 @@ static inline INT nsev_refine_bound_states_newton(
             // We don't have to scale a and a' by 2^W because that factor cancels.
             error = a_val / aprime_val;
             bound_states[i] -= error;
-            iter++;
             if (CIMAG(bound_states[i]) > bounding_box[3]
                     || CREAL(bound_states[i]) > bounding_box[1]
                     || CREAL(bound_states[i]) < bounding_box[0]
-- 
2.43.0


From e3a78a1d7c18c6e950306615647c227c3ff6097c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:23 +0000
Subject: [PATCH 42/42] fix: Richardson extrapolation of residues when several
 bound states match the same coarse bound state

---
 src/fnft_kdvv.c | 4 ++--
 src/fnft_nsev.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fnft_kdvv.c b/src/fnft_kdvv.c
index 0f1d029..9f28fdb 100644
--- a/src/fnft_kdvv.c
+++ b/src/fnft_kdvv.c
@@ -361,9 +361,9 @@ INT fnft_kdvv(
                             && (ds_type_opt == kdvv_dstype_RESIDUES || ds_type_opt == kdvv_dstype_BOTH)){
                         // Computing aprimes from residues and norming constants
                         normconsts_or_residues_reserve[K+i] = normconsts_or_residues_reserve[i]/normconsts_or_residues_reserve[K+i];
-                        normconsts_or_residues_sub[K_sub+loc] = normconsts_or_residues_sub[loc]/normconsts_or_residues_sub[K_sub+loc];
+                        COMPLEX const aprime_sub = normconsts_or_residues_sub[loc]/normconsts_or_residues_sub[K_sub+loc];
                         // Richardson step on aprime
-                        normconsts_or_residues_reserve[K+i] = (scl_num*normconsts_or_residues_reserve[K+i] - normconsts_or_residues_sub[loc+K_sub])/scl_den;
+                        normconsts_or_residues_reserve[K+i] = (scl_num*normconsts_or_residues_reserve[K+i] - aprime_sub)/scl_den;
                         // Computing residue
                         normconsts_or_residues_reserve[K+i] = normconsts_or_residues_reserve[i]/normconsts_or_residues_reserve[K+i];
                     }
diff --git a/src/fnft_nsev.c b/src/fnft_nsev.c
index 236919d..cd28f85 100644
--- a/src/fnft_nsev.c
+++ b/src/fnft_nsev.c
@@ -445,9 +445,9 @@ INT fnft_nsev(
                             && (ds_type_opt == nsev_dstype_RESIDUES || ds_type_opt == nsev_dstype_BOTH)){
                         // Computing aprimes from residues and norming constants
                         normconsts_or_residues_reserve[K+i] = normconsts_or_residues_reserve[i]/normconsts_or_residues_reserve[K+i];
-                        normconsts_or_residues_sub[K_sub+loc] = normconsts_or_residues_sub[loc]/normconsts_or_residues_sub[K_sub+loc];
+                        COMPLEX const aprime_sub = normconsts_or_residues_sub[loc]/normconsts_or_residues_sub[K_sub+loc];
                         // Richardson step on aprime
-                        normconsts_or_residues_reserve[K+i] = (scl_num*normconsts_or_residues_reserve[K+i] - normconsts_or_residues_sub[loc+K_sub])/scl_den;
+                        normconsts_or_residues_reserve[K+i] = (scl_num*normconsts_or_residues_reserve[K+i] - aprime_sub)/scl_den;
                         // Computing residue
                         normconsts_or_residues_reserve[K+i] = normconsts_or_residues_reserve[i]/normconsts_or_residues_reserve[K+i];
                     }
-- 
2.43.0

