From ed0ae63c8fc1f582126150ab3ebc8725b9c4d805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:23 +0000
Subject: [PATCH 01/25] fix: l1c_nesta: release the problem instance when its
 setup fails

---
 src/nesta.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nesta.c b/src/nesta.c
index d3c52d2..c956306 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -385,6 +385,7 @@ int l1c_nesta(l1c_int m,
   /* Initialize*/
   status += l1c_nesta_setup(NP, &beta_mu, &beta_tol, b, ax_funs, &opts);
   if (status) {
+    l1c_free_nesta_problem(NP);
     return status;
   }
 
-- 
2.43.0


From b22e3722b60dd17a20893646dc8d9751415704ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:23 +0000
Subject: [PATCH 02/25] fix: nesta: check and align the allocation of the fmean
 fifo

---
 src/nesta.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/nesta.c b/src/nesta.c
index c956306..b79f82f 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -43,11 +43,8 @@
    fvals initialized to zero.
  */
 struct l1c_fmean_fifo _l1c_new_fmean_fifo(void) {
-  double* fvals = malloc(sizeof(double) * L1C_NESTA_NMEAN);
-
-  for (int i = 0; i < L1C_NESTA_NMEAN; i++) {
-    fvals[i] = 0.0;
-  }
+  /* Aligned (and zeroed), because l1c_init_vec() gets used on it. */
+  double* fvals = l1c_calloc_double(L1C_NESTA_NMEAN);
 
   struct l1c_fmean_fifo fifo = {.f_vals = fvals, .n_total = 0, .next = fvals};
   return fifo;
@@ -390,6 +387,10 @@ int l1c_nesta(l1c_int m,
   }
 
   struct l1c_fmean_fifo fbar_fifo = _l1c_new_fmean_fifo();
+  if (!fbar_fifo.f_vals) {
+    l1c_free_nesta_problem(NP);
+    return L1C_OUT_OF_MEMORY;
+  }
 
   cblas_dcopy(NP->m, NP->xo, 1, NP->xk, 1);
 
@@ -459,6 +460,6 @@ int l1c_nesta(l1c_int m,
 
   cblas_dcopy(m, NP->xk, 1, xk, 1);
   l1c_free_nesta_problem(NP);
-  free(fbar_fifo.f_vals);
+  l1c_free_double(fbar_fifo.f_vals);
   return status;
 }
-- 
2.43.0


From 44451fdd65a5fde679b298f19a1749e1cd8c7907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:23 +0000
Subject: [PATCH 03/25] fix: l1c_nesta: do not print a debug message on every
 call

---
 src/nesta.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/nesta.c b/src/nesta.c
index b79f82f..d27ceba 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -368,7 +368,6 @@ int l1c_nesta(l1c_int m,
   if (n != ax_funs.n || m != ax_funs.m) {
     return L1C_INVALID_ARGUMENT;
   }
-  printf(" ALL OK!\n");
   double alpha_k = 0, tau_k = 0;
   double fbar = 0, rel_delta_fmu;
   double beta_mu, beta_tol;
-- 
2.43.0


From 05c0c32d2b8743fc8ffe448626d6a069b1d2d9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:23 +0000
Subject: [PATCH 04/25] fix: l1c_nesta_setup: take the absolute value of all p
 entries of W^T x

---
 src/nesta.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nesta.c b/src/nesta.c
index d27ceba..ce6bd70 100644
--- a/src/nesta.c
+++ b/src/nesta.c
@@ -298,7 +298,7 @@ int l1c_nesta_setup(l1c_NestaProb* NP,
   cblas_dcopy(NP->m, NP->Atb, 1, NP->xo, 1);
 
   NP->ax_funs.Wtx(NP->xo, Wtx_ref);
-  l1c_abs_vec(NP->m, Wtx_ref, Wtx_ref);
+  l1c_abs_vec(NP->p, Wtx_ref, Wtx_ref);
   double mu0 = 0.9 * l1c_max_vec(NP->p, Wtx_ref);
 
   /** @todo tol=0.1 is a hueristic. What happens if user specifies tol > 0.1 ?
-- 
2.43.0


From 220c740bb77336c1f54df12a62cd507d2ca0e2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:23 +0000
Subject: [PATCH 05/25] fix: l1c_l1qc_newton: do not free an uninitialised
 problem when u cannot be allocated

---
 src/l1qc_newton.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/l1qc_newton.c b/src/l1qc_newton.c
index 7805c44..5d094d5 100644
--- a/src/l1qc_newton.c
+++ b/src/l1qc_newton.c
@@ -456,7 +456,7 @@ l1c_LBResult l1c_l1qc_newton(l1c_int m,
 
   double lambda2 = 0.0, g_dot_dxu = 0.0;
   double l1_prev = 0, l1 = 0, rate = 0;
-  l1c_l1qcProb l1qc_prob;
+  l1c_l1qcProb l1qc_prob = {0};
 
   double* u = l1c_calloc_double(m);
 
-- 
2.43.0


From f5ba98ad997698fe4213435135385cc9331a149f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:23 +0000
Subject: [PATCH 06/25] fix: l1c_l1qc_newton: return the previous iterate when
 CG fails

---
 src/l1qc_newton.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/l1qc_newton.c b/src/l1qc_newton.c
index 5d094d5..25eb301 100644
--- a/src/l1qc_newton.c
+++ b/src/l1qc_newton.c
@@ -514,6 +514,8 @@ l1c_LBResult l1c_l1qc_newton(l1c_int m,
       if (_l1c_l1qc_descent_dir(&l1qc_prob, cg_params, &cg_results)) {
         l1c_printf("Unable to solve system for Newton descent direction.\n");
         l1c_printf("Returning previous iterate\n");
+        lb_res.status = L1C_CGSOLVE_FAILURE;
+        goto exit;
       }
 
       lb_res.total_cg_iter += cg_results.cgiter;
-- 
2.43.0


From 753da4d67cc3389b42b9782b98e9e032c4eaf0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:23 +0000
Subject: [PATCH 07/25] fix: l1c_dct1_setup: do not destroy stale FFTW plans on
 failure

---
 src/dct1.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dct1.c b/src/dct1.c
index 8eec972..4a6a01f 100644
--- a/src/dct1.c
+++ b/src/dct1.c
@@ -102,6 +102,9 @@ int l1c_dct1_setup(l1c_int n, l1c_int m, l1c_int* pix_mask_idx, l1c_AxFuns* ax_f
 #endif
 
   dct_Ety_sparse = l1c_calloc_double(m);
+  /* Forget plans of an earlier setup: dct_destroy() must not see those on failure. */
+  dct_plan_MtEty = NULL;
+  dct_plan_EMx = NULL;
   dct_x = l1c_calloc_double(m);
   dct_y = l1c_calloc_double(m);
   if (!dct_x || !dct_y || !dct_Ety_sparse) {
-- 
2.43.0


From e21afc2651062a8602f897620162565581a96e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:23 +0000
Subject: [PATCH 08/25] fix: l1c_dct2_setup: release the work arrays and plans
 on failure

---
 src/dct2.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dct2.c b/src/dct2.c
index dbfb817..66a563c 100644
--- a/src/dct2.c
+++ b/src/dct2.c
@@ -126,6 +126,9 @@ int l1c_dct2_setup(
 
   l1c_int i = 0;
   dct2_Ety_sparse = l1c_malloc_double(mrow * mcol);
+  /* Forget plans of an earlier setup: dct2_destroy() must not see those on failure. */
+  dct2_plan_MtEty = NULL;
+  dct2_plan_EMx = NULL;
   dct2_x = l1c_malloc_double(mrow * mcol);
   dct2_y = l1c_malloc_double(mrow * mcol);
   if (!dct2_x || !dct2_y || !dct2_Ety_sparse) {
@@ -188,7 +191,7 @@ int l1c_dct2_setup(
   return status;
 
 fail:
-
+  dct2_destroy();
   return status;
 }
 
-- 
2.43.0


From 16afed4d785dda5349851053c26385573dad2b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:23 +0000
Subject: [PATCH 09/25] fix: l1c_cgsolve_diag_precond: measure the initial
 residual like all others

---
 src/cgsolve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cgsolve.c b/src/cgsolve.c
index 926ed5f..5edccc7 100644
--- a/src/cgsolve.c
+++ b/src/cgsolve.c
@@ -262,7 +262,7 @@ int l1c_cgsolve_diag_precond(
   delta = cblas_ddot(N, r, 1, z, 1); /*delta = r'*z                  */
 
   nrm_b_sqrd = cblas_ddot(N, b, 1, b, 1); /*nrm_b_sqrd = b'*b                */
-  best_rel_res = sqrt(delta / nrm_b_sqrd);
+  best_rel_res = sqrt(cblas_ddot(N, r, 1, r, 1) / nrm_b_sqrd);
 
   for (iter = 1; iter <= cg_params.max_iter; iter++) {
 
-- 
2.43.0


From 3e7633b2e5d1d20548cb963b21b4f10a21d5021d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:23 +0000
Subject: [PATCH 10/25] fix: load_file_to_json: report a parse failure

---
 src/json_utils.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/json_utils.c b/src/json_utils.c
index a8b4aea..c797368 100644
--- a/src/json_utils.c
+++ b/src/json_utils.c
@@ -59,12 +59,9 @@ int load_file_to_json(char* fname, cJSON** data_json) {
 
   free(file_data);
 
-  if (data_json == NULL) {
-    const char* error_ptr = cJSON_GetErrorPtr();
-    if (error_ptr != NULL) {
-      fprintf(stderr, "Error before: %s\n", error_ptr);
-      return 1;
-    }
+  if (*data_json == NULL) {
+    fprintf(stderr, "Error parsing %s\n", fname);
+    return 1;
   }
 
   return 0;
-- 
2.43.0


From c4be1cb5b8b6fa4a7e97e8d6cded47744e21b5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:23 +0000
Subject: [PATCH 11/25] fix: load_file_as_text: release the buffer when the
 read fails

---
 src/json_utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/json_utils.c b/src/json_utils.c
index c797368..fbe3c90 100644
--- a/src/json_utils.c
+++ b/src/json_utils.c
@@ -45,6 +45,8 @@ int load_file_as_text(char* fname, char** file_data) {
   if (nmemb == num_read) {
     return 0;
   } else {
+    free(*file_data);
+    *file_data = NULL;
     return 1;
   }
 }
-- 
2.43.0


From 96c2d431b5acce6f4ae1aad5c32d4de748dc8f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:23 +0000
Subject: [PATCH 12/25] fix: extract_json_int_array: check the allocation

---
 src/json_utils.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/json_utils.c b/src/json_utils.c
index fbe3c90..fd121d2 100644
--- a/src/json_utils.c
+++ b/src/json_utils.c
@@ -158,6 +158,12 @@ int extract_json_int_array(cJSON* data_json, char* name, l1c_int** x, l1c_int* N
   *N = cJSON_GetArraySize(x_json);
   *x = calloc(*N, sizeof(l1c_int));
 
+  if (!*x) {
+    status = 1;
+    fprintf(stderr, "error allocating memory\n");
+    goto end;
+  }
+
   int k = 0;
   cJSON* xk_json;
   cJSON_ArrayForEach(xk_json, x_json) {
-- 
2.43.0


From 5f2bdc03db5439114c5791408194e1b0d0752faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:37 +0000
Subject: [PATCH 13/25] fix: l1qc_dct: report through the replaceable printf

---
 src/l1qc_dct.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/l1qc_dct.c b/src/l1qc_dct.c
index 1185e1e..dcda0c8 100644
--- a/src/l1qc_dct.c
+++ b/src/l1qc_dct.c
@@ -7,6 +7,7 @@
 
 #include "cblas.h"
 #include "l1c.h"
+#include "l1c_logging.h"
 #include "l1c_math.h"
 #include "l1qc_newton.h"
 
@@ -80,10 +81,10 @@ int l1qc_dct(int mrow,
 
     double time_total = l1c_get_time_diff(tv_start, tv_end);
 
-    printf("total c time: %f\n", time_total);
-    printf("total-newton-iter: %d\n", lb_res->total_newton_iter);
-    printf("total-cg-iter: %d\n", lb_res->total_cg_iter);
-    printf("time per cg iter: %g\n", time_total / (double)lb_res->total_cg_iter);
+    l1c_printf("total c time: %f\n", time_total);
+    l1c_printf("total-newton-iter: %d\n", lb_res->total_newton_iter);
+    l1c_printf("total-cg-iter: %d\n", lb_res->total_cg_iter);
+    l1c_printf("time per cg iter: %g\n", time_total / (double)lb_res->total_cg_iter);
   }
 
 exit:
-- 
2.43.0


From 4e9d2efa8b9b01150d89a0994958c0a0902b1d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:04 +0000
Subject: [PATCH 14/25] fix: l1c_breg_anistropic_TV: reject images with less
 than two rows or columns

---
 src/bregman.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bregman.c b/src/bregman.c
index b43ffc9..18fafed 100644
--- a/src/bregman.c
+++ b/src/bregman.c
@@ -366,6 +366,11 @@ int l1c_breg_anistropic_TV(l1c_int n,
   double *dwork1 = NULL, *dwork2 = NULL, *rhs = NULL;
   double *Dxu_b = NULL, *Dyu_b = NULL;
 
+  /* The finite difference operators need at least two rows and columns. */
+  if (n < 2 || m < 2) {
+    return L1C_INVALID_ARGUMENT;
+  }
+
   uk_1 = l1c_calloc_double(N);
   d_x = l1c_calloc_double(N);
   d_y = l1c_calloc_double(N);
-- 
2.43.0


From e678a9e2153672fe2249ca7b5aa2d4d8db0f3b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:04 +0000
Subject: [PATCH 15/25] fix: l1c_setup_dctTV_transforms: provide the normal
 operator AtAx

---
 src/dct_tv_transforms.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/dct_tv_transforms.c b/src/dct_tv_transforms.c
index 0c79086..977b108 100644
--- a/src/dct_tv_transforms.c
+++ b/src/dct_tv_transforms.c
@@ -18,6 +18,8 @@ static void Rx(double* x, double* y);
 static void Rty(double* y, double* x);
 static void Av(double* v, double* y);
 static void Aty(double* y, double* v);
+static void AtAv(double* v, double* z);
+static void RtRx(double* x, double* z);
 static void Identity(double* x, double* z);
 
 /* Local variables */
@@ -31,6 +33,7 @@ static double _alp_v;
 
 static l1c_AxFuns ax_funs_local;
 static double* u;
+static double* y_work;
 static l1c_int _inc_TVH, _inc_TVV;
 static unsigned jobs;
 
@@ -132,9 +135,11 @@ int l1c_setup_dctTV_transforms(l1c_int n,
   }
 
   u = l1c_malloc_double(_p);
+  y_work = l1c_malloc_double(n);
 
-  if (!u) {
-    return L1C_OUT_OF_MEMORY;
+  if (!u || !y_work) {
+    status = L1C_OUT_OF_MEMORY;
+    goto fail;
   }
 
   status = l1c_setup_dct_transforms(n, mrow, mcol, dct_mode, pix_idx, &ax_funs_local);
@@ -148,6 +153,7 @@ int l1c_setup_dctTV_transforms(l1c_int n,
   if (bp_mode == synthesis) {
     ax_funs->Ax = Av;
     ax_funs->Aty = Aty;
+    ax_funs->AtAx = AtAv;
     ax_funs->Mx = Wv;
     ax_funs->Mty = Wtx;
     ax_funs->Wz = Identity;
@@ -157,6 +163,7 @@ int l1c_setup_dctTV_transforms(l1c_int n,
     ax_funs->Mty = Identity;
     ax_funs->Ax = Rx;
     ax_funs->Aty = Rty;
+    ax_funs->AtAx = RtRx;
     ax_funs->Wz = Wv;
     ax_funs->Wtx = Wtx;
   }
@@ -167,12 +174,14 @@ int l1c_setup_dctTV_transforms(l1c_int n,
 
 fail:
   l1c_free_double(u);
+  l1c_free_double(y_work);
   return status;
 }
 
 static void destroy() {
   ax_funs_local.destroy();
   l1c_free_double(u);
+  l1c_free_double(y_work);
 }
 
 static void Identity(double* x, double* z) { cblas_dcopy(_m, x, 1, z, 1); }
@@ -238,6 +247,17 @@ static void Aty(double* y, double* v) {
   Wtx(u, v);
 }
 
+/* The normal operators, A^T * A, in synthesis and analysis mode. */
+static void AtAv(double* v, double* z) {
+  Av(v, y_work);
+  Aty(y_work, z);
+}
+
+static void RtRx(double* x, double* z) {
+  Rx(x, y_work);
+  Rty(y_work, z);
+}
+
 static int check_pix_idx(l1c_int n, l1c_int* pix_idx, l1c_int max_idx) {
   l1c_int idx = 0;
   for (int i = 0; i < n; i++) {
-- 
2.43.0


From 07b1109ed09def47cf53798acefaff0980346d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:55 +0000
Subject: [PATCH 16/25] fix: python: hand the result arrays over instead of
 leaking a reference to each

---
 interfaces/python/l1cPy.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interfaces/python/l1cPy.c b/interfaces/python/l1cPy.c
index efef406..a176609 100644
--- a/interfaces/python/l1cPy.c
+++ b/interfaces/python/l1cPy.c
@@ -231,7 +231,7 @@ static PyObject* _l1qc_dct(PyObject* self, PyObject* args, PyObject* kw) {
   Py_DECREF(pix_idx_npA);
   l1c_free_double(x_ours);
 
-  return Py_BuildValue("OO", x_out_npA, lb_res_obj);
+  return Py_BuildValue("NN", x_out_npA, lb_res_obj);
 
   /* If we failed, clean up more things */
 fail2:
@@ -319,7 +319,7 @@ static PyObject* _breg_anistropic_TV(PyObject* self, PyObject* args, PyObject* k
   l1c_free_double(f_ours);
   l1c_free_double(uk);
 
-  return Py_BuildValue("O", uk_out_npA);
+  return Py_BuildValue("N", uk_out_npA);
 
   /* If we failed, clean up more things. Note the fall through. */
 fail2:
@@ -460,7 +460,7 @@ static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
   l1c_free_double(b_ours);
   l1c_free_double(x_ours);
 
-  return Py_BuildValue("Oi", x_out_npA, status);
+  return Py_BuildValue("Ni", x_out_npA, status);
 
   /* If we failed, clean up more things */
 fail:
-- 
2.43.0


From 2e2a93a8a00f8e593c62f02697003870bf5593e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:55 +0000
Subject: [PATCH 17/25] fix: python: release the transforms after nesta_dctTV

---
 interfaces/python/l1cPy.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interfaces/python/l1cPy.c b/interfaces/python/l1cPy.c
index a176609..3f01d1a 100644
--- a/interfaces/python/l1cPy.c
+++ b/interfaces/python/l1cPy.c
@@ -446,6 +446,7 @@ static PyObject* _nesta_dctTV(PyObject* self, PyObject* args, PyObject* kw) {
   }
 
   status = l1c_nesta(mtot, x_ours, n, b_ours, ax_funs, opts);
+  ax_funs.destroy();
 
   /* Build the output tuple */
   npy_intp dims[] = {mrow, mcol};
-- 
2.43.0


From 32201f590f23c015ff750fc439bebbc463f5835b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:55 +0000
Subject: [PATCH 18/25] fix: python: breg_anistropic_TV: release both arrays
 when one cannot be allocated

---
 interfaces/python/l1cPy.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/python/l1cPy.c b/interfaces/python/l1cPy.c
index 3f01d1a..045ee25 100644
--- a/interfaces/python/l1cPy.c
+++ b/interfaces/python/l1cPy.c
@@ -298,7 +298,7 @@ static PyObject* _breg_anistropic_TV(PyObject* self, PyObject* args, PyObject* k
   uk = l1c_malloc_double(n * m);
   if (!f_ours || !uk || !f) {
     PyErr_SetString(PyExc_MemoryError, "Failed to allocation memory");
-    goto fail1;
+    goto fail2;
   }
 
   cblas_dcopy(n * m, f, 1, f_ours, 1);
-- 
2.43.0


From 9f5a2c0c14b37fd8412788f12c863f034d6c1236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:18 +0000
Subject: [PATCH 19/25] fix: mex: l1qc_dct: do not return uninitialised memory
 when the optimization fails

---
 interfaces/mex/l1qc_dct_mex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/mex/l1qc_dct_mex.c b/interfaces/mex/l1qc_dct_mex.c
index 42b6f8e..6a6393b 100644
--- a/interfaces/mex/l1qc_dct_mex.c
+++ b/interfaces/mex/l1qc_dct_mex.c
@@ -113,7 +113,7 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
   /* We are going to change x, so we must allocate and make a copy, so we
      dont change data in Matlabs workspace.
   */
-  x_ours = l1c_malloc_double(mrow * mcol);
+  x_ours = l1c_calloc_double(mrow * mcol);
   pix_idx = calloc(n, sizeof(l1c_int));
   if (!x_ours || !pix_idx) {
     status = L1C_OUT_OF_MEMORY;
-- 
2.43.0


From ffc23935ed7bad6e38f8f282e5d1d6a35e92bb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:18 +0000
Subject: [PATCH 20/25] fix: mex: nesta_dctTV: check pix_idx before use and
 release the transforms on failure

---
 interfaces/mex/nesta_dctTV_mex.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/interfaces/mex/nesta_dctTV_mex.c b/interfaces/mex/nesta_dctTV_mex.c
index e1c98cd..9a392b0 100644
--- a/interfaces/mex/nesta_dctTV_mex.c
+++ b/interfaces/mex/nesta_dctTV_mex.c
@@ -104,6 +104,10 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
      dont change data in Matlabs workspace.
   */
   pix_idx = calloc(n, sizeof(l1c_int));
+  if (NULL == pix_idx) {
+    status = L1C_OUT_OF_MEMORY;
+    goto exit1;
+  }
 
   /*
     pix_idx will naturally be a double we supplied from matlab
@@ -126,8 +130,9 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
 
   x0 = l1c_malloc_double(ax_funs.m);
   b_ours = l1c_malloc_double(n);
-  if (NULL == pix_idx || NULL == b_ours || NULL == x0) {
+  if (NULL == b_ours || NULL == x0) {
     status = L1C_OUT_OF_MEMORY;
+    ax_funs.destroy();
     goto exit1;
   }
 
-- 
2.43.0


From be09b20570efba9c5667ad5af37e4d1c6cde36af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:18 +0000
Subject: [PATCH 21/25] fix: mex: nesta_dctTV: do not return uninitialised
 memory when the optimization fails

---
 interfaces/mex/nesta_dctTV_mex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/mex/nesta_dctTV_mex.c b/interfaces/mex/nesta_dctTV_mex.c
index 9a392b0..552a8c2 100644
--- a/interfaces/mex/nesta_dctTV_mex.c
+++ b/interfaces/mex/nesta_dctTV_mex.c
@@ -128,7 +128,7 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
     goto exit1;
   }
 
-  x0 = l1c_malloc_double(ax_funs.m);
+  x0 = l1c_calloc_double(ax_funs.m);
   b_ours = l1c_malloc_double(n);
   if (NULL == b_ours || NULL == x0) {
     status = L1C_OUT_OF_MEMORY;
-- 
2.43.0


From 3ce23424f107fae29478f5288d6f76bbb9c478a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:18 +0000
Subject: [PATCH 22/25] fix: mex: breg_anistropic_TV: release the arrays before
 raising out of memory

---
 interfaces/mex/breg_anistropic_TV_mex.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/interfaces/mex/breg_anistropic_TV_mex.c b/interfaces/mex/breg_anistropic_TV_mex.c
index c26803b..b2c1125 100644
--- a/interfaces/mex/breg_anistropic_TV_mex.c
+++ b/interfaces/mex/breg_anistropic_TV_mex.c
@@ -59,8 +59,11 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
   f_ours = l1c_malloc_double(N * M);
   uk = l1c_malloc_double(N * M);
   if (!f_ours || !uk) {
+    l1c_free_double(f_ours);
+    l1c_free_double(uk);
+    /* Does not return. */
     mexErrMsgIdAndTxt("l1c:l1qc_dct:outofmemory", "Error Allocating memory.");
-    goto exit;
+    return;
   }
   cblas_dcopy(N * M, f, 1, f_ours, 1);
   int stat = l1c_breg_anistropic_TV(N, M, uk, f_ours, mu, tol, max_iter, max_jac_iter);
-- 
2.43.0


From 86e39b94ffbe191fb140ecdfb357711c57331430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:48:18 +0000
Subject: [PATCH 23/25] fix: mex: breg_anistropic_TV: use the dimensions of the
 column major image

---
 interfaces/mex/breg_anistropic_TV_mex.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interfaces/mex/breg_anistropic_TV_mex.c b/interfaces/mex/breg_anistropic_TV_mex.c
index b2c1125..fa5a034 100644
--- a/interfaces/mex/breg_anistropic_TV_mex.c
+++ b/interfaces/mex/breg_anistropic_TV_mex.c
@@ -43,7 +43,7 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
   /* check that f is a matrix, at least 3 by 3. */
   _mex_assert_2Darray_with_size(prhs, 0, 3, 3);
 
-  /*Matlab give us column major order.*/
+  /*Matlab give us column major order, i.e., row major with M rows and N columns.*/
   M = (l1c_int)mxGetN(prhs[0]);
   N = (l1c_int)mxGetM(prhs[0]);
   f = mxGetPr(prhs[0]);
@@ -66,13 +66,13 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
     return;
   }
   cblas_dcopy(N * M, f, 1, f_ours, 1);
-  int stat = l1c_breg_anistropic_TV(N, M, uk, f_ours, mu, tol, max_iter, max_jac_iter);
+  int stat = l1c_breg_anistropic_TV(M, N, uk, f_ours, mu, tol, max_iter, max_jac_iter);
   if (stat) {
     plhs[0] = NULL;
     goto exit;
   }
   /* Prepare output data. */
-  plhs[0] = mxCreateDoubleMatrix((mwSize)M, (mwSize)N, mxREAL);
+  plhs[0] = mxCreateDoubleMatrix((mwSize)N, (mwSize)M, mxREAL);
 
   f_out = mxGetPr(plhs[0]);
 
-- 
2.43.0


From d907a1fb2ea77e8d5ee50713c6045bd3ea48d534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:00 +0000
Subject: [PATCH 24/25] fix: mex: l1qc_dct: honour opts.dct_mode

---
 interfaces/mex/l1qc_dct_mex.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interfaces/mex/l1qc_dct_mex.c b/interfaces/mex/l1qc_dct_mex.c
index 6a6393b..ed53929 100644
--- a/interfaces/mex/l1qc_dct_mex.c
+++ b/interfaces/mex/l1qc_dct_mex.c
@@ -92,6 +92,10 @@ void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]) {
       (int)_mex_get_double_from_struct_or_fail(prhs, 4, "newton_max_iter");
   l1qc_opts.cg_maxiter = (int)_mex_get_double_from_struct_or_fail(prhs, 4, "cgmaxiter");
   l1qc_opts.lbiter = (int)_mex_get_double_from_struct_or_fail(prhs, 4, "lbiter");
+  if (mxGetField(prhs[4], 0, "dct_mode")) { /* Optional. */
+    l1qc_opts.dct_mode =
+        (DctMode)_mex_get_double_from_struct_or_fail(prhs, 4, "dct_mode");
+  }
 
   if (l1qc_opts.verbose > 0) {
     l1c_printf("Input Parameters\n---------------\n");
-- 
2.43.0


From 071d1ed7b7a1ceab427a2227beb54eacc6b4fa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:33 +0000
Subject: [PATCH 25/25] fix: dct1: Mx restores its input exactly

---
 src/dct1.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dct1.c b/src/dct1.c
index 4a6a01f..65cd717 100644
--- a/src/dct1.c
+++ b/src/dct1.c
@@ -182,6 +182,7 @@ static void Identity(double* x, double* z) { cblas_dcopy(dct_m, x, 1, z, 1); }
 static void dct_Mx(double* x, double* y) {
   // double *x_ = __builtin_assume_aligned(x, DALIGN);
 
+  double x0_tmp = x[0];
   x[0] = x[0] * sqrt(2.0); // proper scaling
 
   fftw_execute_r2r(dct_plan_EMx, x, y);
@@ -190,7 +191,7 @@ static void dct_Mx(double* x, double* y) {
     y[i] = y[i] * dct_root_1_by_2N;
   }
 
-  x[0] = x[0] / sqrt(2.0); // undo scaling
+  x[0] = x0_tmp; // undo scaling
 }
 
 static void dct_Mty(double* y, double* x) {
-- 
2.43.0

