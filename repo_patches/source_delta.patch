From 7ab90a16f358a2fae79a11cafa119d9b8dce9d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:25 +0000
Subject: [PATCH 01/76] fix: bml_set_element on an ellpack row with one or two
 entries appended a duplicate instead of overwriting

---
 src/C-interface/ellpack/bml_setters_ellpack_typed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/ellpack/bml_setters_ellpack_typed.c b/src/C-interface/ellpack/bml_setters_ellpack_typed.c
index 7195fa4..15ee173 100644
--- a/src/C-interface/ellpack/bml_setters_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_setters_ellpack_typed.c
@@ -83,7 +83,7 @@ void TYPED_FUNC(
 #pragma omp target update from(A_nnz[:A_N], A_index[:A_N*A_M], A_value[:A_N*A_M])
 #endif
     ll = 0;
-    if (A_nnz[i] > 2)
+    if (A_nnz[i] > 0)
     {
         for (int l = 0; l < A_nnz[i]; l++)
         {
-- 
2.43.0


From 8c6c4773c05c0077e6a571713d917bf18c538b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:01 +0000
Subject: [PATCH 02/76] fix: bml_clear on an ellblock matrix left pointers to
 freed blocks behind, so that writing into the cleared matrix aborted

---
 src/C-interface/ellblock/bml_allocate_ellblock_typed.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
index 43fc371..fd48854 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
@@ -140,6 +140,10 @@ void TYPED_FUNC(
             bml_free_memory(A->ptr_value[ind]);
         }
 #endif
+    // freed slots must look unused to subsequent insertions
+    for (int i = 0; i < A->NB * A->MB; i++)
+        A->ptr_value[i] = NULL;
+    memset(A->indexb, -1, sizeof(int) * A->NB * A->MB);
     memset(A->nnzb, 0, A->NB * sizeof(int));
 }
 
-- 
2.43.0


From a5b2fe1ea2282b3f75d4eb4d34ee2591f6027683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:01 +0000
Subject: [PATCH 03/76] fix: bml_set_row on an ellblock matrix kept old
 elements of the row where the new row is zero or below the threshold

---
 src/C-interface/ellblock/bml_setters_ellblock_typed.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/C-interface/ellblock/bml_setters_ellblock_typed.c b/src/C-interface/ellblock/bml_setters_ellblock_typed.c
index 9bcfdf9..8ba7288 100644
--- a/src/C-interface/ellblock/bml_setters_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_setters_ellblock_typed.c
@@ -152,6 +152,16 @@ void TYPED_FUNC(
         ib++;
     }
 
+    //clear row i of the blocks already stored
+    for (int jp = 0; jp < A_nnzb[ib]; jp++)
+    {
+        int ind = ROWMAJOR(ib, jp, A->NB, A->MB);
+        int jb = A_indexb[ind];
+        REAL_T *A_value = A_ptr_value[ind];
+        memset(&A_value[ROWMAJOR(ii, 0, A_bsize[ib], A_bsize[jb])], 0,
+               A_bsize[jb] * sizeof(REAL_T));
+    }
+
     //loop over elements to insert
     for (int k = 0; k < A_N; k++)
     {
-- 
2.43.0


From 4f85709f95fa271903973f12a29c26f742352959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:07 +0000
Subject: [PATCH 04/76] fix: bml_convert to ellpack stored all N elements of a
 row, zeros included, and overran the row capacity M

---
 src/C-interface/ellpack/bml_convert_ellpack_typed.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/C-interface/ellpack/bml_convert_ellpack_typed.c b/src/C-interface/ellpack/bml_convert_ellpack_typed.c
index 2cf5062..82a24a0 100644
--- a/src/C-interface/ellpack/bml_convert_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_convert_ellpack_typed.c
@@ -30,7 +30,12 @@ bml_matrix_ellpack_t *TYPED_FUNC(
     {
         for (int j = 0; j < N; j++)
         {
-            bml_set_element(B, i, j, bml_get_element(A, i, j));
+            REAL_T *value = bml_get_element(A, i, j);
+            // zeroes are not stored (a row holds at most M elements)
+            if (*value != 0.0)
+            {
+                bml_set_element(B, i, j, value);
+            }
         }
     }
 
-- 
2.43.0


From c4bf70e90097b30019b45d900d8fda487514d5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:08 +0000
Subject: [PATCH 05/76] fix: bml_copy between ellpack matrices of different M
 used the source's row stride for the destination

---
 src/C-interface/ellpack/bml_copy_ellpack_typed.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/ellpack/bml_copy_ellpack_typed.c b/src/C-interface/ellpack/bml_copy_ellpack_typed.c
index 2c378ec..3b2dd32 100644
--- a/src/C-interface/ellpack/bml_copy_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_copy_ellpack_typed.c
@@ -92,6 +92,7 @@ void TYPED_FUNC(
 
     int N = A->N;
     int M = A->M;
+    int B_M = B->M;
 
     int *A_index = A->index;
     int *A_nnz = A->nnz;
@@ -132,10 +133,10 @@ void TYPED_FUNC(
 #pragma omp parallel for
     for (int i = 0; i < N; i++)
     {
-        memcpy(&B_index[ROWMAJOR(i, 0, N, M)], &A_index[ROWMAJOR(i, 0, N, M)],
-               M * sizeof(int));
-        memcpy(&B_value[ROWMAJOR(i, 0, N, M)], &A_value[ROWMAJOR(i, 0, N, M)],
-               M * sizeof(REAL_T));
+        memcpy(&B_index[ROWMAJOR(i, 0, N, B_M)],
+               &A_index[ROWMAJOR(i, 0, N, M)], M * sizeof(int));
+        memcpy(&B_value[ROWMAJOR(i, 0, N, B_M)],
+               &A_value[ROWMAJOR(i, 0, N, M)], M * sizeof(REAL_T));
         //      A_nnz[perm[i]] = B_nnz[i];
     }
 #endif
-- 
2.43.0


From 64e631d4aeeb6da3dd5c27a5718d4ccbda5f1914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:08 +0000
Subject: [PATCH 06/76] fix: bml_copy into a csr matrix with shorter rows
 aborted instead of growing them

---
 src/C-interface/csr/bml_copy_csr_typed.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/csr/bml_copy_csr_typed.c b/src/C-interface/csr/bml_copy_csr_typed.c
index cc08a44..1670b70 100644
--- a/src/C-interface/csr/bml_copy_csr_typed.c
+++ b/src/C-interface/csr/bml_copy_csr_typed.c
@@ -90,10 +90,16 @@ void TYPED_FUNC(
     csr_sparse_row_t * brow)
 {
     const int NNZ = arow->NNZ_;
-    // Check size for data
+    // reallocate memory if needed
     if (brow->alloc_size_ < NNZ)
     {
-        LOG_ERROR("CSR row size mismatch\n");
+        brow->alloc_size_ = arow->alloc_size_;
+        brow->cols_ =
+            bml_reallocate_memory(brow->cols_,
+                                  sizeof(int) * brow->alloc_size_);
+        brow->vals_ =
+            bml_reallocate_memory(brow->vals_,
+                                  sizeof(REAL_T) * brow->alloc_size_);
     }
 
     memcpy(brow->cols_, arow->cols_, NNZ * sizeof(int));
-- 
2.43.0


From f77fea1ae5083edef9c744ce092db1f510896b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:08 +0000
Subject: [PATCH 07/76] fix: bml_copy into a non-empty ellblock matrix reused
 its old blocks and overran or leaked them

---
 .../ellblock/bml_copy_ellblock_typed.c        | 30 +++++++++++++------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/C-interface/ellblock/bml_copy_ellblock_typed.c b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
index eff8bf1..a5653f1 100644
--- a/src/C-interface/ellblock/bml_copy_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
@@ -2,6 +2,7 @@
 #include "../../typed.h"
 #include "../bml_allocate.h"
 #include "../bml_copy.h"
+#include "../bml_logger.h"
 #include "../bml_types.h"
 #include "bml_allocate_ellblock.h"
 #include "bml_copy_ellblock.h"
@@ -74,9 +75,22 @@ void TYPED_FUNC(
     bml_matrix_ellblock_t * B)
 {
     assert(A->NB == B->NB);
+    for (int ib = 0; ib < A->NB; ib++)
+    {
+        assert(A->bsize[ib] == B->bsize[ib]);
+        if (A->nnzb[ib] > B->MB)
+            LOG_ERROR("matrix parameter mismatch\n");
+    }
+
+    if (A == B)
+        return;
+
+    // B's previous blocks may be of different number, position and size
+    TYPED_FUNC(bml_clear_ellblock) (B);
 
     int NB = A->NB;
     int MB = A->MB;
+    int B_MB = B->MB;
 
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
     REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
@@ -85,7 +99,6 @@ void TYPED_FUNC(
 
     int *A_indexb = A->indexb;
     int *B_indexb = B->indexb;
-    memcpy(B_indexb, A_indexb, NB * MB * sizeof(int));
 
 #pragma omp parallel for
     for (int ib = 0; ib < NB; ib++)
@@ -93,16 +106,15 @@ void TYPED_FUNC(
         for (int jp = 0; jp < A->nnzb[ib]; jp++)
         {
             int ind = ROWMAJOR(ib, jp, NB, MB);
+            int B_ind = ROWMAJOR(ib, jp, NB, B_MB);
             assert(A_ptr_value[ind] != NULL);
-            int jb = B_indexb[ind];
+            int jb = A_indexb[ind];
             int nelements = A->bsize[ib] * A->bsize[jb];
-            if (B_ptr_value[ind] == NULL)
-                B_ptr_value[ind]
-                    =
-                    TYPED_FUNC(bml_allocate_block_ellblock) (B, ib,
-                                                             nelements);
-            assert(B_ptr_value[ind] != NULL);
-            memcpy(B_ptr_value[ind], A_ptr_value[ind],
+            B_indexb[B_ind] = jb;
+            B_ptr_value[B_ind] =
+                TYPED_FUNC(bml_allocate_block_ellblock) (B, ib, nelements);
+            assert(B_ptr_value[B_ind] != NULL);
+            memcpy(B_ptr_value[B_ind], A_ptr_value[ind],
                    nelements * sizeof(REAL_T));
         }
     }
-- 
2.43.0


From 8d4fb447e44f8ba4cc9834fdc4029f31fcc58149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:56 +0000
Subject: [PATCH 08/76] fix: bml_scale_add_identity passed a double as the
 scale factor whatever the precision of an ellpack, csr or ellblock matrix

---
 src/C-interface/csr/bml_add_csr_typed.c           | 3 ++-
 src/C-interface/ellblock/bml_add_ellblock_typed.c | 3 ++-
 src/C-interface/ellpack/bml_add_ellpack_typed.c   | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/C-interface/csr/bml_add_csr_typed.c b/src/C-interface/csr/bml_add_csr_typed.c
index aa9a6ab..9bbf483 100644
--- a/src/C-interface/csr/bml_add_csr_typed.c
+++ b/src/C-interface/csr/bml_add_csr_typed.c
@@ -190,7 +190,8 @@ void TYPED_FUNC(
     double threshold)
 {
     // scale then update diagonal
-    TYPED_FUNC(bml_scale_inplace_csr) (&alpha, A);
+    REAL_T alpha_ = (REAL_T) alpha;
+    TYPED_FUNC(bml_scale_inplace_csr) (&alpha_, A);
 
     TYPED_FUNC(bml_add_identity_csr) (A, beta, threshold);
 }
diff --git a/src/C-interface/ellblock/bml_add_ellblock_typed.c b/src/C-interface/ellblock/bml_add_ellblock_typed.c
index 64f0a2b..deb5e16 100644
--- a/src/C-interface/ellblock/bml_add_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_add_ellblock_typed.c
@@ -388,7 +388,8 @@ void TYPED_FUNC(
     double threshold)
 {
     // scale then update diagonal
-    TYPED_FUNC(bml_scale_inplace_ellblock) (&alpha, A);
+    REAL_T alpha_ = (REAL_T) alpha;
+    TYPED_FUNC(bml_scale_inplace_ellblock) (&alpha_, A);
 
     TYPED_FUNC(bml_add_identity_ellblock) (A, beta, threshold);
 }
diff --git a/src/C-interface/ellpack/bml_add_ellpack_typed.c b/src/C-interface/ellpack/bml_add_ellpack_typed.c
index 7bed4ed..54f1d77 100644
--- a/src/C-interface/ellpack/bml_add_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_add_ellpack_typed.c
@@ -567,7 +567,8 @@ void TYPED_FUNC(
     double threshold)
 {
     // scale then update diagonal
-    TYPED_FUNC(bml_scale_inplace_ellpack) (&alpha, A);
+    REAL_T alpha_ = (REAL_T) alpha;
+    TYPED_FUNC(bml_scale_inplace_ellpack) (&alpha_, A);
 
     TYPED_FUNC(bml_add_identity_ellpack) (A, beta, threshold);
 }
-- 
2.43.0


From 0e655b0ec64470fc9a005a7aa96753816dd761a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:13 +0000
Subject: [PATCH 09/76] fix: bml_add_norm returned sum B^2 (dense), sum of
 fourth powers from a freed block (ellblock) and Re(sum x^2) for complex
 elements instead of the squared norm of A-B

---
 src/C-interface/dense/bml_add_dense_typed.c   |   7 +-
 .../ellblock/bml_add_ellblock_typed.c         | 124 +-----------------
 .../ellpack/bml_add_ellpack_typed.c           |   2 +-
 3 files changed, 10 insertions(+), 123 deletions(-)

diff --git a/src/C-interface/dense/bml_add_dense_typed.c b/src/C-interface/dense/bml_add_dense_typed.c
index 95938b0..ec1c2e7 100644
--- a/src/C-interface/dense/bml_add_dense_typed.c
+++ b/src/C-interface/dense/bml_add_dense_typed.c
@@ -160,6 +160,7 @@ double TYPED_FUNC(
     double beta)
 {
     double trnorm = 0.0;
+    REAL_T *A_matrix = (REAL_T *) A->matrix;
     REAL_T *B_matrix = (REAL_T *) B->matrix;
     int myRank = bml_getMyRank();
     int N = A->N;
@@ -168,14 +169,16 @@ double TYPED_FUNC(
     int *A_localRowMax = A->domain->localRowMax;
 
 #pragma omp parallel for                                \
-  shared(B_matrix, A_localRowMin, A_localRowMax)        \
+  shared(A_matrix, B_matrix)                            \
+  shared(A_localRowMin, A_localRowMax)                  \
   shared(N, myRank)                                     \
   reduction(+:trnorm)
     //for (int i = 0; i < N * N; i++)
     for (int i = A_localRowMin[myRank] * N; i < A_localRowMax[myRank] * N;
          i++)
     {
-        trnorm += B_matrix[i] * B_matrix[i];
+        REAL_T diff = A_matrix[i] - B_matrix[i];
+        trnorm += REAL_PART(diff * COMPLEX_CONJUGATE(diff));
     }
 
     TYPED_FUNC(bml_add_dense) (A, B, alpha, beta);
diff --git a/src/C-interface/ellblock/bml_add_ellblock_typed.c b/src/C-interface/ellblock/bml_add_ellblock_typed.c
index deb5e16..7f2bebe 100644
--- a/src/C-interface/ellblock/bml_add_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_add_ellblock_typed.c
@@ -6,6 +6,7 @@
 #include "../bml_types.h"
 #include "bml_add_ellblock.h"
 #include "bml_allocate_ellblock.h"
+#include "bml_norm_ellblock.h"
 #include "bml_types_ellblock.h"
 #include "bml_utilities_ellblock.h"
 #include "bml_scale_ellblock.h"
@@ -216,127 +217,10 @@ double TYPED_FUNC(
     double beta,
     double threshold)
 {
-    int NB = A->NB;
-    int MB = A->MB;
+    double trnorm =
+        TYPED_FUNC(bml_sum_squares2_ellblock) (A, B, 1.0, -1.0, 0.0);
 
-    int ix[NB], jx[NB];
-
-    int *A_nnzb = A->nnzb;
-    int *A_indexb = A->indexb;
-
-    int *B_nnzb = B->nnzb;
-    int *B_indexb = B->indexb;
-
-    int *bsize = A->bsize;
-
-    REAL_T *x[NB];
-    REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
-    REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
-
-    memset(ix, 0, NB * sizeof(int));
-    memset(jx, 0, NB * sizeof(int));
-    x[0] = (REAL_T *) calloc(BMAXSIZE * NB, sizeof(REAL_T));
-    for (int i = 1; i < NB; i++)
-    {
-        x[i] = x[0] + i * BMAXSIZE;
-    }
-
-    REAL_T *y[NB];
-    y[0] = (REAL_T *) calloc(BMAXSIZE * NB, sizeof(REAL_T));
-    for (int i = 1; i < NB; i++)
-    {
-        y[i] = y[0] + i * BMAXSIZE;
-    }
-
-
-    double trnorm = 0.0;
-
-    for (int ib = 0; ib < NB; ib++)
-    {
-        int l = 0;
-        for (int jp = 0; jp < A_nnzb[ib]; jp++)
-        {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
-            int jb = A_indexb[ind];
-            if (ix[jb] == 0)
-            {
-                for (int ii = 0; ii < bsize[ib]; ii++)
-                    for (int jj = 0; jj < bsize[jb]; jj++)
-                    {
-                        int kk = ROWMAJOR(ii, jj, bsize[ib], bsize[jb]);
-                        x[jb][kk] = 0.0;
-                        y[jb][kk] = 0.0;
-                    }
-                ix[jb] = ib + 1;
-                jx[l] = jb;
-                l++;
-            }
-            for (int ii = 0; ii < bsize[ib]; ii++)
-                for (int jj = 0; jj < bsize[jb]; jj++)
-                {
-                    int kk = ROWMAJOR(ii, jj, bsize[ib], bsize[jb]);
-                    x[jb][kk] = x[jb][kk] + alpha * A_ptr_value[ind][kk];
-                    y[jb][kk] = y[jb][kk] + A_ptr_value[ind][kk];
-                }
-        }
-
-        for (int jp = 0; jp < B_nnzb[ib]; jp++)
-        {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
-            int jb = B_indexb[ind];
-            if (ix[jb] == 0)
-            {
-                for (int ii = 0; ii < bsize[ib]; ii++)
-                    for (int jj = 0; jj < bsize[jb]; jj++)
-                    {
-                        int kk = ROWMAJOR(ii, jj, bsize[ib], bsize[jb]);
-                        x[jb][kk] = 0.0;
-                        y[jb][kk] = 0.0;
-                    }
-                ix[jb] = ib + 1;
-                jx[l] = jb;
-                l++;
-            }
-            REAL_T *B_value = B_ptr_value[ind];
-            for (int ii = 0; ii < bsize[ib]; ii++)
-                for (int jj = 0; jj < bsize[jb]; jj++)
-                {
-                    int kk = ROWMAJOR(ii, jj, bsize[ib], bsize[jb]);
-                    x[jb][kk] = x[jb][kk] + beta * B_ptr_value[ind][kk];
-                    y[jb][kk] = y[jb][kk] - B_value[kk];
-                }
-        }
-        A_nnzb[ib] = l;
-
-        int ll = 0;
-        for (int jp = 0; jp < l; jp++)
-        {
-            int jb = jx[jp];
-            REAL_T *xTmp = x[jb];
-            REAL_T normx = TYPED_FUNC(bml_norm_inf)
-                (x[jb], bsize[ib], bsize[jb], bsize[jb]);
-            REAL_T normy = TYPED_FUNC(bml_sum_squares)
-                (y[jb], bsize[ib], bsize[jb], bsize[jb]);
-            trnorm += normy * normy;
-            if (is_above_threshold(normx, threshold))
-            {
-                int kb = ROWMAJOR(ib, ll, NB, MB);
-                for (int ii = 0; ii < bsize[ib]; ii++)
-                    for (int jj = 0; jj < bsize[jb]; jj++)
-                    {
-                        int kk = ROWMAJOR(ii, jj, bsize[ib], bsize[jb]);
-                        A_ptr_value[kb][kk] = xTmp[kk];
-                    }
-
-                A_indexb[kb] = jb;
-                ll++;
-            }
-            memset(x[jb], 0.0, bsize[ib] * bsize[jb] * sizeof(REAL_T));
-            memset(y[jb], 0.0, bsize[ib] * bsize[jb] * sizeof(REAL_T));
-            ix[jb] = 0;
-        }
-        A_nnzb[ib] = ll;
-    }
+    TYPED_FUNC(bml_add_ellblock) (A, B, alpha, beta, threshold);
 
     return trnorm;
 }
diff --git a/src/C-interface/ellpack/bml_add_ellpack_typed.c b/src/C-interface/ellpack/bml_add_ellpack_typed.c
index 54f1d77..7243e25 100644
--- a/src/C-interface/ellpack/bml_add_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_add_ellpack_typed.c
@@ -382,7 +382,7 @@ double TYPED_FUNC(
         {
             int jind = jx[jp];
             REAL_T xTmp = x[jind];
-            trnorm += y[jind] * y[jind];
+            trnorm += REAL_PART(y[jind] * COMPLEX_CONJUGATE(y[jind]));
             if (is_above_threshold(xTmp, threshold))
             {
                 A_value[ROWMAJOR(i, ll, N, A_M)] = xTmp;
-- 
2.43.0


From 42b0794cd32cb7a3761ab5edb6edffd8c832b6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:23 +0000
Subject: [PATCH 10/76] fix: bml_add on an ellblock matrix kept the buffers of
 A's old blocks for new ones of different size (heap overflow), left stale
 blocks and did not check MB

---
 .../ellblock/bml_add_ellblock_typed.c         | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/C-interface/ellblock/bml_add_ellblock_typed.c b/src/C-interface/ellblock/bml_add_ellblock_typed.c
index 7f2bebe..dc08747 100644
--- a/src/C-interface/ellblock/bml_add_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_add_ellblock_typed.c
@@ -2,6 +2,7 @@
 #include "../../typed.h"
 #include "../bml_add.h"
 #include "../bml_allocate.h"
+#include "../bml_logger.h"
 #include "../bml_parallel.h"
 #include "../bml_types.h"
 #include "bml_add_ellblock.h"
@@ -46,6 +47,7 @@ void TYPED_FUNC(
 
     int NB = A->NB;
     int MB = A->MB;
+    int B_MB = B->MB;
 
     int *A_nnzb = A->nnzb;
     int *A_indexb = A->indexb;
@@ -141,7 +143,7 @@ void TYPED_FUNC(
         if (beta > (double) 0.0 || beta < (double) 0.0)
             for (int jp = 0; jp < B_nnzb[ib]; jp++)
             {
-                int ind = ROWMAJOR(ib, jp, NB, MB);
+                int ind = ROWMAJOR(ib, jp, NB, B_MB);
                 int jb = B_indexb[ind];
                 REAL_T *x = x_ptr[jb];
                 int nelements = bsize[ib] * bsize[jb];
@@ -161,7 +163,13 @@ void TYPED_FUNC(
                     x[kk] = x[kk] + beta * B_value[kk];
                 }
             }
-        A_nnzb[ib] = l;
+        // release the previous blocks of that row: the blocks of the result
+        // may be of different number, order and size
+        while (A_nnzb[ib] > 0)
+        {
+            int kb = ROWMAJOR(ib, A_nnzb[ib] - 1, NB, MB);
+            TYPED_FUNC(bml_free_block_ellblock) (A, ib, A_indexb[kb]);
+        }
 
         int ll = 0;
         for (int jp = 0; jp < l; jp++)
@@ -173,14 +181,15 @@ void TYPED_FUNC(
             int nelements = bsize[ib] * bsize[jb];
             if (is_above_threshold(normx, threshold))
             {
-                int kb = ROWMAJOR(ib, ll, NB, MB);
-                if (A_ptr_value[kb] == NULL)
+                if (ll >= MB)
                 {
-                    A_ptr_value[kb]
-                        =
-                        TYPED_FUNC(bml_allocate_block_ellblock) (A, ib,
-                                                                 nelements);
+                    LOG_ERROR
+                        ("Number of non-zeroes blocks per row > MB, Increase MB\n");
                 }
+                int kb = ROWMAJOR(ib, ll, NB, MB);
+                A_ptr_value[kb] =
+                    TYPED_FUNC(bml_allocate_block_ellblock) (A, ib,
+                                                             nelements);
                 for (int kk = 0; kk < nelements; kk++)
                 {
                     A_ptr_value[kb][kk] = x[kk];
-- 
2.43.0


From 528fc1a4cc33eb3b92124609bda56aee7f83dfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:09 +0000
Subject: [PATCH 11/76] fix: bml_add, bml_add_norm, bml_add_identity and
 bml_multiply_x2 wrote past the end of an ellpack row when the result did not
 fit the row capacity M

---
 .../ellpack/bml_add_ellpack_typed.c           | 35 +++++++++++++++----
 .../ellpack/bml_multiply_ellpack_typed.c      | 18 +++++-----
 2 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/C-interface/ellpack/bml_add_ellpack_typed.c b/src/C-interface/ellpack/bml_add_ellpack_typed.c
index 7243e25..daa7680 100644
--- a/src/C-interface/ellpack/bml_add_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_add_ellpack_typed.c
@@ -2,6 +2,7 @@
 #include "../../typed.h"
 #include "../bml_add.h"
 #include "../bml_allocate.h"
+#include "../bml_logger.h"
 #include "../bml_parallel.h"
 #include "../bml_types.h"
 #include "bml_add_ellpack.h"
@@ -195,6 +196,13 @@ void TYPED_FUNC(
             REAL_T xTmp = x[jind];
             if (is_above_threshold(xTmp, threshold))
             {
+#ifndef USE_OMP_OFFLOAD
+                if (ll >= A_M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
+#endif
                 A_value[ROWMAJOR(i, ll, N, A_M)] = xTmp;
                 A_index[ROWMAJOR(i, ll, N, A_M)] = jind;
                 ll++;
@@ -385,6 +393,13 @@ double TYPED_FUNC(
             trnorm += REAL_PART(y[jind] * COMPLEX_CONJUGATE(y[jind]));
             if (is_above_threshold(xTmp, threshold))
             {
+#ifndef USE_OMP_OFFLOAD
+                if (ll >= A_M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
+#endif
                 A_value[ROWMAJOR(i, ll, N, A_M)] = xTmp;
                 A_index[ROWMAJOR(i, ll, N, A_M)] = jind;
                 ll++;
@@ -433,11 +448,12 @@ void TYPED_FUNC(
     //Should be safe to use BML_OFFLOAD_CHUNKS here but preserving old version
     //#if !(defined(__IBMC__) || defined(__ibmxl__) || (defined(USE_OMP_OFFLOAD) && (defined(INTEL_SDK) || defined(CRAY_SDK))))
 #if !(defined(__IBMC__) || defined(__ibmxl__) || (defined(USE_OMP_OFFLOAD) && BML_OFFLOAD_CHUNKS ))
-    int jx[A_M];
-    REAL_T x[A_M];
+    // a missing diagonal element comes on top of the stored ones
+    int jx[A_M + 1];
+    REAL_T x[A_M + 1];
 
-    memset(jx, 0, A_M * sizeof(int));
-    memset(x, 0.0, A_M * sizeof(REAL_T));
+    memset(jx, 0, (A_M + 1) * sizeof(int));
+    memset(x, 0.0, (A_M + 1) * sizeof(REAL_T));
 #endif
 
 #if BML_OFFLOAD_CHUNKS
@@ -494,8 +510,8 @@ void TYPED_FUNC(
     {
 
 #if defined(__IBMC__) || defined(__ibmxl__)
-        int jx[A_M];
-        REAL_T x[A_M];
+        int jx[A_M + 1];
+        REAL_T x[A_M + 1];
 #endif
 #endif
         int l = 0;
@@ -533,6 +549,13 @@ void TYPED_FUNC(
             REAL_T xTmp = x[jp];
             if (is_above_threshold(xTmp, threshold))
             {
+#ifndef USE_OMP_OFFLOAD
+                if (ll >= A_M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
+#endif
                 A_value[ROWMAJOR(i, ll, N, A_M)] = xTmp;
                 A_index[ROWMAJOR(i, ll, N, A_M)] = jind;
                 ll++;
diff --git a/src/C-interface/ellpack/bml_multiply_ellpack_typed.c b/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
index 7001670..c4c918f 100644
--- a/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
@@ -303,6 +303,14 @@ void *TYPED_FUNC(
         {
             int jp = jx[j];
             REAL_T xtmp = x[jp];
+#ifndef USE_OMP_OFFLOAD
+            // Check for number of non-zeroes per row exceeded
+            if (ll >= X2_M
+                && (jp == i || is_above_threshold(xtmp, threshold)))
+            {
+                LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+            }
+#endif
             if (jp == i)
             {
                 traceX2 = traceX2 + xtmp;
@@ -319,16 +327,6 @@ void *TYPED_FUNC(
             ix[jp] = 0;
             x[jp] = 0.0;
         }
-        // Check for number of non-zeroes per row exceeded
-        // We should do it before assigning values to X2_value above,
-        // but that would be a lot of checks
-        if (ll > X2_M)
-        {
-#ifndef USE_OMP_OFFLOAD
-            LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
-#endif
-        }
-
         X2_nnz[i] = ll;
     }
 
-- 
2.43.0


From b993f804b6e3ce4934055f2539709851c0f8fd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:27 +0000
Subject: [PATCH 12/76] fix: bml_multiply_adjust_AB on ellpack matrices never
 ended (and wrote past the row) when a product row did not fit the row
 capacity M

---
 .../ellpack/bml_multiply_ellpack_typed.c      | 41 ++++++++++---------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/src/C-interface/ellpack/bml_multiply_ellpack_typed.c b/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
index c4c918f..63d1b92 100644
--- a/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_multiply_ellpack_typed.c
@@ -664,32 +664,26 @@ void TYPED_FUNC(
                 }
             }
 
-            // Check for number of non-zeroes per row exceeded
-            // Need to adjust threshold
-            // ** Shouldn't we break from this loop if aflag is 1?? --DOK
-            if (l > C_M)
-            {
-                aflag = 1;
-            }
-
             int ll = 0;
             for (int j = 0; j < l; j++)
             {
                 //int jp = C_index[ROWMAJOR(i, j, N, M)];
                 int jp = jx[j];
                 REAL_T xtmp = x[jp];
-                // Diagonal elements are saved in first column
-                if (jp == i)
+                if (jp == i || is_above_threshold(xtmp, adjust_threshold))
                 {
-                    C_value[ROWMAJOR(i, ll, C_N, C_M)] = xtmp;
-                    C_index[ROWMAJOR(i, ll, C_N, C_M)] = jp;
-                    ll++;
-                }
-                else if (is_above_threshold(xtmp, adjust_threshold))
-                {
-                    C_value[ROWMAJOR(i, ll, C_N, C_M)] = xtmp;
-                    C_index[ROWMAJOR(i, ll, C_N, C_M)] = jp;
-                    ll++;
+                    // Check for number of non-zeroes per row exceeded
+                    // Need to adjust threshold
+                    if (ll >= C_M)
+                    {
+                        aflag = 1;
+                    }
+                    else
+                    {
+                        C_value[ROWMAJOR(i, ll, C_N, C_M)] = xtmp;
+                        C_index[ROWMAJOR(i, ll, C_N, C_M)] = jp;
+                        ll++;
+                    }
                 }
                 ix[jp] = 0;
                 x[jp] = 0.0;
@@ -697,7 +691,14 @@ void TYPED_FUNC(
             C_nnz[i] = ll;
         }
 
-        adjust_threshold *= (REAL_T) 2.0;
+        if (ABS(adjust_threshold) > 0.0)
+        {
+            adjust_threshold *= (REAL_T) 2.0;
+        }
+        else
+        {
+            adjust_threshold = BML_REAL_MIN;
+        }
     }
 #ifdef USE_OMP_OFFLOAD
 #pragma omp target update to(C_nnz[:C_N], C_index[:C_N*C_M], C_value[:C_N*C_M])
-- 
2.43.0


From 1215132bdf691605f8789188b88601ef5e25cc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:28 +0000
Subject: [PATCH 13/76] fix: bml_multiply_adjust_AB on dense matrices returned
 the transpose of A*B

---
 src/C-interface/dense/bml_multiply_dense_typed.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/C-interface/dense/bml_multiply_dense_typed.c b/src/C-interface/dense/bml_multiply_dense_typed.c
index ac28490..e7e47c5 100644
--- a/src/C-interface/dense/bml_multiply_dense_typed.c
+++ b/src/C-interface/dense/bml_multiply_dense_typed.c
@@ -164,9 +164,5 @@ void TYPED_FUNC(
     bml_matrix_dense_t * B,
     bml_matrix_dense_t * C)
 {
-    REAL_T alpha = (REAL_T) 1.0;
-    REAL_T beta = (REAL_T) 0.0;
-
-    TYPED_FUNC(bml_gemm) ("T", "T", &A->N, &A->N, &A->N, &alpha, A->matrix,
-                          &A->N, B->matrix, &A->N, &beta, C->matrix, &A->N);
+    TYPED_FUNC(bml_multiply_dense) (A, B, C, 1.0, 0.0);
 }
-- 
2.43.0


From ac04fd81e2de596fce44aa214ff50fac1dda0efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:30 +0000
Subject: [PATCH 14/76] fix: ellblock products: wrong trace for mixed block
 sizes and leaked traces in multiply_x2, stale blocks kept by multiply_AB,
 garbage from multiply_adjust_AB

---
 .../ellblock/bml_multiply_ellblock_typed.c    | 140 +++++++-----------
 1 file changed, 55 insertions(+), 85 deletions(-)

diff --git a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
index aefab74..a4f730c 100644
--- a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
@@ -199,7 +199,8 @@ void TYPED_FUNC(
 
     if (A == B && alpha == ONE && beta == ZERO)
     {
-        TYPED_FUNC(bml_multiply_x2_ellblock) (A, C, threshold);
+        bml_free_memory(TYPED_FUNC(bml_multiply_x2_ellblock)
+                        (A, C, threshold));
     }
     else
     {
@@ -210,7 +211,8 @@ void TYPED_FUNC(
 
         if (A != NULL && A == B)
         {
-            TYPED_FUNC(bml_multiply_x2_ellblock) (A, A2, threshold);
+            bml_free_memory(TYPED_FUNC(bml_multiply_x2_ellblock)
+                            (A, A2, threshold));
         }
         else
         {
@@ -410,7 +412,7 @@ void *TYPED_FUNC(
                 if (jp == ib)
                 {
                     for (int kk = 0; kk < bsize[ib]; kk++)
-                        traceX2 = traceX2 + xtmp[kk * (1 + bsize[jb])];
+                        traceX2 = traceX2 + xtmp[kk * (1 + bsize[ib])];
                 }
 
                 int nelements = bsize[ib] * bsize[jp];
@@ -462,6 +464,9 @@ void TYPED_FUNC(
     assert(A->NB == B->NB);
     assert(A->NB == C->NB);
 
+    /* C's old blocks are replaced */
+    TYPED_FUNC(bml_clear_ellblock) (C);
+
     int NB = A->NB;
 
     int *A_nnzb = A->nnzb;
@@ -639,109 +644,74 @@ void TYPED_FUNC(
     double threshold)
 {
     int NB = A->NB;
-    int MB = A->MB;
-    int *A_nnzb = A->nnzb;
-    int *A_indexb = A->indexb;
     int *bsize = A->bsize;
 
-    int *B_nnzb = B->nnzb;
-    int *B_indexb = B->indexb;
-
-    int *C_nnzb = C->nnzb;
-    int *C_indexb = C->indexb;
-
-    int ix[NB], jx[NB];
-    int aflag = 1;
-    REAL_T *x_ptr[NB];
+    /* product of any number of blocks per row, with no block larger
+       than threshold dropped */
+    bml_matrix_ellblock_t *D =
+        TYPED_FUNC(bml_block_matrix_ellblock) (NB, NB, A->M, bsize,
+                                               A->distribution_mode);
+    TYPED_FUNC(bml_multiply_AB_ellblock) (A, B, D, threshold);
 
-    REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
-    REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
     REAL_T **C_ptr_value = (REAL_T **) C->ptr_value;
+    REAL_T **D_ptr_value = (REAL_T **) D->ptr_value;
 
+    /* raise the threshold until every row of blocks fits into C */
     double adjust_threshold = threshold;
-
-    memset(ix, 0, NB * sizeof(int));
-    memset(jx, 0, NB * sizeof(int));
-
-    int maxbsize = 0;
-    for (int ib = 0; ib < NB; ib++)
-        maxbsize = MAX(maxbsize, bsize[ib]);
-    int maxbsize2 = maxbsize * maxbsize;
-    for (int ib = 0; ib < NB; ib++)
-        x_ptr[ib] = calloc(maxbsize2, sizeof(REAL_T));
-
+    int aflag = 1;
     while (aflag > 0)
     {
         aflag = 0;
-
-        for (int ib = 0; ib < NB; ib++)
+        for (int ib = 0; ib < NB && !aflag; ib++)
         {
             int l = 0;
-            for (int jp = 0; jp < A_nnzb[ib]; jp++)
+            for (int jp = 0; jp < D->nnzb[ib]; jp++)
             {
-                REAL_T *a = A_ptr_value[ROWMAJOR(ib, jp, NB, MB)];
-                int jb = A_indexb[ROWMAJOR(ib, jp, NB, MB)];
-
-                for (int kp = 0; kp < B_nnzb[jb]; kp++)
+                int ind = ROWMAJOR(ib, jp, NB, D->MB);
+                int jb = D->indexb[ind];
+                if (jb == ib || TYPED_FUNC(bml_norm_inf)
+                    (D_ptr_value[ind], bsize[ib], bsize[jb],
+                     bsize[jb]) > adjust_threshold)
                 {
-                    int kb = B_indexb[ROWMAJOR(jb, kp, NB, MB)];
-                    if (ix[kb] == 0)
-                    {
-                        memset(x_ptr[kb], 0, maxbsize2);
-                        jx[l] = kb;
-                        ix[kb] = ib + 1;
-                        l++;
-                    }
-                    // TEMPORARY STORAGE VECTOR LENGTH FULL N
-                    REAL_T *b = B_ptr_value[ROWMAJOR(jb, kp, NB, MB)];
-                    REAL_T *x = x_ptr[kb];
-                    for (int ii = 0; ii < bsize[jb]; ii++)
-                        for (int jj = 0; jj < bsize[kb]; jj++)
-                        {
-                            int k = ii * bsize[kb] + jj;
-                            x[k] =
-                                x[k] +
-                                a[ROWMAJOR(ii, jj, bsize[ib], bsize[jb])] *
-                                b[ROWMAJOR(jj, ii, bsize[jb], bsize[kb])];
-                        }
+                    l++;
                 }
             }
-
-            // Check for number of non-zeroes per row exceeded
-            // Need to adjust threshold
-            if (l > MB)
+            if (l > C->MB)
             {
                 aflag = 1;
             }
+        }
+        if (aflag)
+        {
+            adjust_threshold = MAX(2.0 * adjust_threshold, BML_REAL_MIN);
+        }
+    }
 
-            int ll = 0;
-            for (int jb = 0; jb < l; jb++)
+    TYPED_FUNC(bml_clear_ellblock) (C);
+    for (int ib = 0; ib < NB; ib++)
+    {
+        int ll = 0;
+        for (int jp = 0; jp < D->nnzb[ib]; jp++)
+        {
+            int ind = ROWMAJOR(ib, jp, NB, D->MB);
+            int jb = D->indexb[ind];
+            int nelements = bsize[ib] * bsize[jb];
+            if (jb == ib || TYPED_FUNC(bml_norm_inf)
+                (D_ptr_value[ind], bsize[ib], bsize[jb],
+                 bsize[jb]) > adjust_threshold)
             {
-                int jp = jx[jb];
-                REAL_T *xtmp = x_ptr[jp];
-                double normx = TYPED_FUNC(bml_norm_inf)
-                    (xtmp, bsize[ib], bsize[jp], bsize[jp]);
-                // Diagonal elements are saved in first column
-                if (jp == ib)
-                {
-                    memcpy(C_ptr_value[ROWMAJOR(ib, ll, NB, MB)], xtmp,
-                           bsize[ib] * bsize[ll] * sizeof(REAL_T));
-                    C_indexb[ROWMAJOR(ib, ll, NB, MB)] = jp;
-                    ll++;
-                }
-                else if (normx > adjust_threshold)
-                {
-                    memcpy(C_ptr_value[ROWMAJOR(ib, ll, NB, MB)], xtmp,
-                           bsize[ib] * bsize[ll] * sizeof(REAL_T));
-                    C_indexb[ROWMAJOR(ib, ll, NB, MB)] = jp;
-                    ll++;
-                }
-                ix[jp] = 0;
-                memset(x_ptr[jp], 0, maxbsize2 * sizeof(REAL_T));
+                int cind = ROWMAJOR(ib, ll, NB, C->MB);
+                C_ptr_value[cind] =
+                    TYPED_FUNC(bml_allocate_block_ellblock) (C, ib,
+                                                             nelements);
+                memcpy(C_ptr_value[cind], D_ptr_value[ind],
+                       nelements * sizeof(REAL_T));
+                C->indexb[cind] = jb;
+                ll++;
             }
-            C_nnzb[ib] = ll;
         }
-
-        adjust_threshold *= 2.0;
+        C->nnzb[ib] = ll;
     }
+
+    bml_deallocate_ellblock(D);
 }
-- 
2.43.0


From c9406105e8cf1208d10cfd8972316e85e9edba80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:30 +0000
Subject: [PATCH 15/76] fix: norms summed Re(x*x) instead of |x|^2 for complex
 elements, the dense submatrix sum took whole rows, bml_fnorm2 used
 uninitialized values for empty ellpack and ellblock rows, and bml_sum_AB
 summed absolute values for ellblock

---
 src/C-interface/csr/bml_norm_csr_typed.c      |  6 +--
 src/C-interface/dense/bml_norm_dense_typed.c  | 23 ++++-------
 .../ellblock/bml_norm_ellblock_typed.c        | 40 ++++++++++--------
 .../ellpack/bml_norm_ellpack_typed.c          | 41 ++++++++++---------
 4 files changed, 53 insertions(+), 57 deletions(-)

diff --git a/src/C-interface/csr/bml_norm_csr_typed.c b/src/C-interface/csr/bml_norm_csr_typed.c
index a6be2d4..cd7dc64 100644
--- a/src/C-interface/csr/bml_norm_csr_typed.c
+++ b/src/C-interface/csr/bml_norm_csr_typed.c
@@ -42,7 +42,7 @@ double TYPED_FUNC(
         for (int pos = 0; pos < annz; pos++)
         {
             REAL_T xval = vals[pos];
-            sum += xval * xval;
+            sum += xval * COMPLEX_CONJUGATE(xval);
         }
     }
 
@@ -78,7 +78,7 @@ double TYPED_FUNC(
             if (cols[pos] < core_size)
             {
                 REAL_T value = vals[pos];
-                sum += value * value;
+                sum += value * COMPLEX_CONJUGATE(value);
             }
         }
     }
@@ -217,7 +217,7 @@ double TYPED_FUNC(
         {
             if (ABS(cvals[k]) > threshold)
             {
-                sum += cvals[k] * cvals[k];
+                sum += cvals[k] * COMPLEX_CONJUGATE(cvals[k]);
             }
             // reset cvals
             cvals[k] = 0.;
diff --git a/src/C-interface/dense/bml_norm_dense_typed.c b/src/C-interface/dense/bml_norm_dense_typed.c
index 462e16e..ed3e710 100644
--- a/src/C-interface/dense/bml_norm_dense_typed.c
+++ b/src/C-interface/dense/bml_norm_dense_typed.c
@@ -77,7 +77,7 @@ double TYPED_FUNC(
     for (int i = A_localRowMin[myRank] * N; i < A_localRowMax[myRank] * N;
          i++)
     {
-        sum += A_matrix[i] * A_matrix[i];
+        sum += A_matrix[i] * COMPLEX_CONJUGATE(A_matrix[i]);
     }
 #endif
 
@@ -133,22 +133,15 @@ double TYPED_FUNC(
 #pragma omp parallel for                        \
   shared(N, A_matrix)                           \
   reduction(+:sum)
-    for (int i = 0; i < core_size * N; i++)
-    {
-        sum += A_matrix[i] * A_matrix[i];
-    }
-
-/*
     for (int i = 0; i < core_size; i++)
     {
-        //for (int j = 0; j < core_size; j++)
-        for (int j = 0; j < N; j++)
+        for (int j = 0; j < core_size; j++)
         {
             REAL_T value = A_matrix[ROWMAJOR(i, j, N, N)];
-            sum += value * value;
+            sum += value * COMPLEX_CONJUGATE(value);
         }
     }
-*/
+
 #endif
 
     return (double) REAL_PART(sum);
@@ -297,7 +290,7 @@ double TYPED_FUNC(
         REAL_T temp = alpha_ * A_matrix[i] + beta_ * B_matrix[i];
 #endif
         if (ABS(temp) > threshold)
-            sum += temp * temp;
+            sum += temp * COMPLEX_CONJUGATE(temp);
     }
 #ifdef BML_USE_MAGMA
     free(A_matrix);
@@ -353,7 +346,6 @@ double TYPED_FUNC(
     int *A_localRowMax = A->domain->localRowMax;
 
     double fnorm = 0.0;
-    REAL_T temp;
 
     int myRank = bml_getMyRank();
 
@@ -362,7 +354,6 @@ double TYPED_FUNC(
 #pragma omp target update from(B_matrix[0:N*N])
 #endif
 #pragma omp parallel for                        \
-  shared(temp)                                  \
   shared(N, A_matrix, B_matrix)                 \
   shared(A_localRowMin, A_localRowMax, myRank)  \
   reduction(+:fnorm)
@@ -370,8 +361,8 @@ double TYPED_FUNC(
     for (int i = A_localRowMin[myRank] * N; i < A_localRowMax[myRank] * N;
          i++)
     {
-        temp = A_matrix[i] - B_matrix[i];
-        fnorm += temp * temp;
+        REAL_T temp = A_matrix[i] - B_matrix[i];
+        fnorm += REAL_PART(temp * COMPLEX_CONJUGATE(temp));
     }
 
 #ifdef BML_USE_MPI
diff --git a/src/C-interface/ellblock/bml_norm_ellblock_typed.c b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
index 51b837c..6457e52 100644
--- a/src/C-interface/ellblock/bml_norm_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_norm_ellblock_typed.c
@@ -48,7 +48,7 @@ double TYPED_FUNC(
                 for (int jj = 0; jj < bsize[jb]; jj++)
                 {
                     int index = ROWMAJOR(ii, jj, bsize[ib], bsize[jb]);
-                    sum += xval[index] * xval[index];
+                    sum += xval[index] * COMPLEX_CONJUGATE(xval[index]);
                 }
         }
     }
@@ -76,6 +76,7 @@ double TYPED_FUNC(
 {
     int NB = A->NB;
     int MB = A->MB;
+    int B_MB = B->MB;
 
     int *A_indexb = A->indexb;
     int *A_nnzb = A->nnzb;
@@ -97,7 +98,7 @@ double TYPED_FUNC(
     for (int ib = 0; ib < NB; ib++)
         y_ptr[ib] = calloc(maxbsize2, sizeof(REAL_T));
 
-    int ix[NB], jjb[MB];
+    int ix[NB], jjb[NB];
 
     memset(jjb, 0, NB * sizeof(int));
 
@@ -125,7 +126,7 @@ double TYPED_FUNC(
 
         for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
+            int ind = ROWMAJOR(ib, jp, NB, B_MB);
             int jb = B_indexb[ind];
             if (ix[jb] != 0)
             {
@@ -147,11 +148,12 @@ double TYPED_FUNC(
 
         for (int jp = 0; jp < lb; jp++)
         {
-            double normx = TYPED_FUNC(bml_sum_AB)
-                (y_ptr[jjb[jp]], bsize[ib], bsize[jjb[jp]], bsize[jjb[jp]]);
-
-            if (normx > threshold * threshold)
-                sum += normx;
+            REAL_T *y_value = y_ptr[jjb[jp]];
+            for (int ii = 0; ii < bsize[ib] * bsize[jjb[jp]]; ii++)
+            {
+                if (ABS(y_value[ii]) > threshold)
+                    sum += y_value[ii];
+            }
         }
     }
 
@@ -181,6 +183,7 @@ double TYPED_FUNC(
 {
     int NB = A->NB;
     int MB = A->MB;
+    int B_MB = B->MB;
 
     int *A_indexb = A->indexb;
     int *A_nnzb = A->nnzb;
@@ -233,7 +236,7 @@ double TYPED_FUNC(
 
         for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
+            int ind = ROWMAJOR(ib, jp, NB, B_MB);
             int jb = B_indexb[ind];
             int nelements = bsize[ib] * bsize[jb];
             if (ix[jb] == 0)
@@ -309,6 +312,7 @@ double TYPED_FUNC(
 {
     int NB = A->NB;
     int MB = A->MB;
+    int B_MB = B->MB;
     double fnorm = 0.0;
     REAL_T *rvalue;
 
@@ -334,15 +338,15 @@ double TYPED_FUNC(
         for (int jp = 0; jp < A_nnzb[ib]; jp++)
         {
             int ind = ROWMAJOR(ib, jp, NB, MB);
+            rvalue = zero_block;
             for (int kp = 0; kp < B_nnzb[ib]; kp++)
             {
                 if (A_indexb[ROWMAJOR(ib, jp, NB, MB)] ==
-                    B_indexb[ROWMAJOR(ib, kp, NB, MB)])
+                    B_indexb[ROWMAJOR(ib, kp, NB, B_MB)])
                 {
-                    rvalue = B_ptr_value[ROWMAJOR(ib, kp, NB, MB)];
+                    rvalue = B_ptr_value[ROWMAJOR(ib, kp, NB, B_MB)];
                     break;
                 }
-                rvalue = zero_block;
             }
 
             REAL_T *A_value = A_ptr_value[ind];
@@ -352,34 +356,34 @@ double TYPED_FUNC(
                 {
                     int index = ROWMAJOR(ii, jj, bsize[ib], bsize[jb]);
                     temp = A_value[index] - rvalue[index];
-                    fnorm += temp * temp;
+                    fnorm += REAL_PART(temp * COMPLEX_CONJUGATE(temp));
                 }
         }
 
         for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
+            rvalue = NULL;
             for (int kp = 0; kp < A_nnzb[ib]; kp++)
             {
                 if (A_indexb[ROWMAJOR(ib, kp, NB, MB)] ==
-                    B_indexb[ROWMAJOR(ib, jp, NB, MB)])
+                    B_indexb[ROWMAJOR(ib, jp, NB, B_MB)])
                 {
                     rvalue = A_ptr_value[ROWMAJOR(ib, kp, NB, MB)];
                     break;
                 }
-                rvalue = NULL;
             }
 
             if (rvalue == NULL)
             {
-                int ind = ROWMAJOR(ib, jp, NB, MB);
-                int jb = A_indexb[ind];
+                int ind = ROWMAJOR(ib, jp, NB, B_MB);
+                int jb = B_indexb[ind];
                 REAL_T *B_value = B_ptr_value[ind];
                 for (int ii = 0; ii < bsize[ib]; ii++)
                     for (int jj = 0; jj < bsize[jb]; jj++)
                     {
                         int index = ROWMAJOR(ii, jj, bsize[ib], bsize[jb]);
                         temp = B_value[index];
-                        fnorm += temp * temp;
+                        fnorm += REAL_PART(temp * COMPLEX_CONJUGATE(temp));
                     }
             }
         }
diff --git a/src/C-interface/ellpack/bml_norm_ellpack_typed.c b/src/C-interface/ellpack/bml_norm_ellpack_typed.c
index b18ce4b..1f29198 100644
--- a/src/C-interface/ellpack/bml_norm_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_norm_ellpack_typed.c
@@ -54,7 +54,7 @@ double TYPED_FUNC(
         for (int j = 0; j < A_nnz[i]; j++)
         {
             REAL_T xval = A_value[ROWMAJOR(i, j, N, M)];
-            sum += xval * xval;
+            sum += xval * COMPLEX_CONJUGATE(xval);
         }
     }
 
@@ -97,7 +97,7 @@ double TYPED_FUNC(
             if (A_index[ROWMAJOR(i, j, N, M)] < core_size)
             {
                 REAL_T value = A_value[ROWMAJOR(i, j, N, M)];
-                sum += value * value;
+                sum += value * COMPLEX_CONJUGATE(value);
             }
         }
     }
@@ -326,7 +326,7 @@ double TYPED_FUNC(
         for (int jp = 0; jp < l; jp++)
         {
             if (ABS(y[jjb[jp]]) > threshold)
-                sum += y[jjb[jp]] * y[jjb[jp]];
+                sum += y[jjb[jp]] * COMPLEX_CONJUGATE(y[jjb[jp]]);
 
             /* reset marker array */
             ix[jjb[jp]] = 0;
@@ -373,7 +373,8 @@ double TYPED_FUNC(
     bml_matrix_ellpack_t * B)
 {
     int N = A->N;
-    int M = A->M;
+    int A_M = A->M;
+    int B_M = B->M;
     double fnorm = 0.0;
     REAL_T rvalue;
 
@@ -394,51 +395,51 @@ double TYPED_FUNC(
 
 #ifdef USE_OMP_OFFLOAD
 //#pragma omp target map(tofrom:fnorm)
-#pragma omp target update from(A_nnz[:N], A_index[:N*M], A_value[:N*M])
+#pragma omp target update from(A_nnz[:N], A_index[:N*A_M], A_value[:N*A_M])
 #endif
 #pragma omp parallel for                        \
   private(rvalue, temp)                         \
-  shared(N, M, A_nnz, A_index, A_value)         \
+  shared(N, A_M, A_nnz, A_index, A_value)       \
   shared(A_localRowMin, A_localRowMax, myRank)  \
-  shared(B_nnz, B_index, B_value)               \
+  shared(B_M, B_nnz, B_index, B_value)          \
   reduction(+:fnorm)
     //for (int i = 0; i < N; i++)
     for (int i = rowMin; i < rowMax; i++)
     {
         for (int j = 0; j < A_nnz[i]; j++)
         {
+            rvalue = 0.0;
             for (int k = 0; k < B_nnz[i]; k++)
             {
-                if (A_index[ROWMAJOR(i, j, N, M)] ==
-                    B_index[ROWMAJOR(i, k, N, M)])
+                if (A_index[ROWMAJOR(i, j, N, A_M)] ==
+                    B_index[ROWMAJOR(i, k, N, B_M)])
                 {
-                    rvalue = B_value[ROWMAJOR(i, k, N, M)];
+                    rvalue = B_value[ROWMAJOR(i, k, N, B_M)];
                     break;
                 }
-                rvalue = 0.0;
             }
 
-            temp = A_value[ROWMAJOR(i, j, N, M)] - rvalue;
-            fnorm += temp * temp;
+            temp = A_value[ROWMAJOR(i, j, N, A_M)] - rvalue;
+            fnorm += REAL_PART(temp * COMPLEX_CONJUGATE(temp));
         }
 
         for (int j = 0; j < B_nnz[i]; j++)
         {
+            int found = 0;
             for (int k = 0; k < A_nnz[i]; k++)
             {
-                if (A_index[ROWMAJOR(i, k, N, M)] ==
-                    B_index[ROWMAJOR(i, j, N, M)])
+                if (A_index[ROWMAJOR(i, k, N, A_M)] ==
+                    B_index[ROWMAJOR(i, j, N, B_M)])
                 {
-                    rvalue = A_value[ROWMAJOR(i, k, N, M)];
+                    found = 1;
                     break;
                 }
-                rvalue = 0.0;
             }
 
-            if (rvalue == 0.0)
+            if (!found)
             {
-                temp = B_value[ROWMAJOR(i, j, N, M)];
-                fnorm += temp * temp;
+                temp = B_value[ROWMAJOR(i, j, N, B_M)];
+                fnorm += REAL_PART(temp * COMPLEX_CONJUGATE(temp));
             }
         }
     }
-- 
2.43.0


From a1123918096fd0db2f4c0882d22f167ab3473b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:33 +0000
Subject: [PATCH 16/76] fix: bml_trace_mult of dense, ellpack and distributed2d
 matrices returned sum a_ij*b_ij, which is the trace of A*B only if B is
 symmetric

---
 src/C-interface/dense/bml_trace_dense_typed.c | 15 +++++++----
 .../distributed2d/bml_trace_distributed2d.c   | 14 +++++++++-
 .../ellpack/bml_trace_ellpack_typed.c         | 27 ++++++++++---------
 3 files changed, 38 insertions(+), 18 deletions(-)

diff --git a/src/C-interface/dense/bml_trace_dense_typed.c b/src/C-interface/dense/bml_trace_dense_typed.c
index 2beddd8..1007a07 100644
--- a/src/C-interface/dense/bml_trace_dense_typed.c
+++ b/src/C-interface/dense/bml_trace_dense_typed.c
@@ -84,7 +84,7 @@ double TYPED_FUNC(
 }
 
 /** Calculate the trace of a matrix multiplication. The matrices must
- * be of the same size and symmetric.
+ * be of the same size.
  *
  *  \ingroup trace_group
  *
@@ -120,13 +120,13 @@ double TYPED_FUNC(
     {
 #if defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
         MAGMA_T ttrace = MAGMA(dotu) (N, (MAGMA_T *) A->matrix + i * A->ld, 1,
-                                      (MAGMA_T *) B->matrix + i * B->ld, 1,
+                                      (MAGMA_T *) B->matrix + i, B->ld,
                                       bml_queue());
         trace +=
             MAGMACOMPLEX(REAL) (ttrace) + I * MAGMACOMPLEX(IMAG) (ttrace);
 #else
         trace += MAGMA(dot) (N, (REAL_T *) A->matrix + i * A->ld, 1,
-                             (REAL_T *) B->matrix + i * B->ld, 1,
+                             (REAL_T *) B->matrix + i, B->ld,
                              bml_queue());
 #endif
     }
@@ -143,9 +143,14 @@ double TYPED_FUNC(
   shared(N, A_matrix, B_matrix)                 \
   shared(rowMin, rowMax, myRank)  \
   reduction(+:trace)
-    for (int i = rowMin * N; i < rowMax * N; i++)
+    for (int i = rowMin; i < rowMax; i++)
     {
-        trace += A_matrix[i] * B_matrix[i];
+        for (int j = 0; j < N; j++)
+        {
+            trace +=
+                A_matrix[ROWMAJOR(i, j, N, N)] *
+                B_matrix[ROWMAJOR(j, i, N, N)];
+        }
     }
 
 #ifdef MKL_GPU
diff --git a/src/C-interface/distributed2d/bml_trace_distributed2d.c b/src/C-interface/distributed2d/bml_trace_distributed2d.c
index 704a71b..6dea594 100644
--- a/src/C-interface/distributed2d/bml_trace_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_trace_distributed2d.c
@@ -1,8 +1,12 @@
+#include "../bml_allocate.h"
 #include "../bml_logger.h"
 #include "../bml_trace.h"
+#include "../bml_transpose.h"
 #include "../bml_types.h"
 #include "../bml_parallel.h"
+#include "bml_allocate_distributed2d.h"
 #include "bml_trace_distributed2d.h"
+#include "bml_transpose_distributed2d.h"
 #include "bml_types_distributed2d.h"
 
 #include <stdlib.h>
@@ -43,7 +47,15 @@ bml_trace_mult_distributed2d(
     bml_matrix_distributed2d_t * A,
     bml_matrix_distributed2d_t * B)
 {
-    double trace = bml_trace_mult(A->matrix, B->matrix);;
+    // tr(A*B) = sum_{IJ} tr(A_IJ * B_JI), and the blocks B_JI are the
+    // transposed blocks of the transpose of B
+    bml_matrix_distributed2d_t *B_t = bml_transpose_new_distributed2d(B);
+    bml_matrix_t *B_block = bml_transpose_new(B_t->matrix);
+
+    double trace = bml_trace_mult(A->matrix, B_block);
+
+    bml_deallocate(&B_block);
+    bml_deallocate_distributed2d(B_t);
 
     bml_sumRealReduce(&trace);
 
diff --git a/src/C-interface/ellpack/bml_trace_ellpack_typed.c b/src/C-interface/ellpack/bml_trace_ellpack_typed.c
index 68ce825..f2718c0 100644
--- a/src/C-interface/ellpack/bml_trace_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_trace_ellpack_typed.c
@@ -115,7 +115,6 @@ double TYPED_FUNC(
 
     REAL_T trace = 0.0;
     REAL_T *A_value = (REAL_T *) A->value;
-    REAL_T *rvalue;
 
     int myRank = bml_getMyRank();
     int rowMin = A_localRowMin[myRank];
@@ -129,33 +128,37 @@ double TYPED_FUNC(
 
     int B_N = B->N;
     int B_M = B->M;
-
-#ifdef USE_OMP_OFFLOAD
     REAL_T *B_value = (REAL_T *) B->value;
     int *B_index = (int *) B->index;
     int *B_nnz = (int *) B->nnz;
+
+#ifdef USE_OMP_OFFLOAD
 #pragma omp target update from(A_nnz[:A_N], A_index[:A_N*A_M], A_value[:A_N*A_M])
 #pragma omp target update from(B_nnz[:B_N], B_index[:B_N*B_M], B_value[:B_N*B_M])
 #endif
 
 #pragma omp parallel for                        \
-  private(rvalue)                               \
-  shared(B, A_N, A_M, A_value, A_index, A_nnz)  \
+  shared(A_N, A_M, A_value, A_index, A_nnz)     \
+  shared(B_N, B_M, B_value, B_index, B_nnz)     \
   shared(A_localRowMin, A_localRowMax, myRank)  \
   reduction(+:trace)
     //for (int i = 0; i < A_N; i++)
     for (int i = rowMin; i < rowMax; i++)
     {
-        rvalue =
-            TYPED_FUNC(bml_getVector_ellpack) (B,
-                                               &A_index[ROWMAJOR
-                                                        (i, 0, A_N, A_M)], i,
-                                               A_nnz[i]);
         for (int j = 0; j < A_nnz[i]; j++)
         {
-            trace += A_value[ROWMAJOR(i, j, A_N, A_M)] * rvalue[j];
+            int k = A_index[ROWMAJOR(i, j, A_N, A_M)];
+            for (int l = 0; l < B_nnz[k]; l++)
+            {
+                if (B_index[ROWMAJOR(k, l, B_N, B_M)] == i)
+                {
+                    trace +=
+                        A_value[ROWMAJOR(i, j, A_N, A_M)] *
+                        B_value[ROWMAJOR(k, l, B_N, B_M)];
+                    break;
+                }
+            }
         }
-        bml_free_memory(rvalue);
     }
 
     return (double) REAL_PART(trace);
-- 
2.43.0


From b2e1f3417d1e19e2442fcc8e62cbeeb6f9343633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:33 +0000
Subject: [PATCH 17/76] fix: bml_gershgorin returned DBL_MIN as the upper bound
 of a negative definite matrix

---
 src/C-interface/csr/bml_normalize_csr_typed.c                 | 4 ++--
 src/C-interface/dense/bml_normalize_dense_typed.c             | 4 ++--
 .../distributed2d/bml_normalize_distributed2d_typed.c         | 2 +-
 src/C-interface/ellblock/bml_normalize_ellblock_typed.c       | 2 +-
 src/C-interface/ellpack/bml_normalize_ellpack_typed.c         | 4 ++--
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/C-interface/csr/bml_normalize_csr_typed.c b/src/C-interface/csr/bml_normalize_csr_typed.c
index 6db4d27..5096e72 100644
--- a/src/C-interface/csr/bml_normalize_csr_typed.c
+++ b/src/C-interface/csr/bml_normalize_csr_typed.c
@@ -86,7 +86,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
@@ -168,7 +168,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
diff --git a/src/C-interface/dense/bml_normalize_dense_typed.c b/src/C-interface/dense/bml_normalize_dense_typed.c
index 289f486..e604c84 100644
--- a/src/C-interface/dense/bml_normalize_dense_typed.c
+++ b/src/C-interface/dense/bml_normalize_dense_typed.c
@@ -108,7 +108,7 @@ void *TYPED_FUNC(
     int myRank = bml_getMyRank();
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 #ifdef BML_USE_MAGMA
@@ -199,7 +199,7 @@ void *TYPED_FUNC(
     REAL_T *A_matrix = (REAL_T *) A->matrix;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
diff --git a/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c b/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c
index 31d3ab2..e37d487 100644
--- a/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_normalize_distributed2d_typed.c
@@ -41,7 +41,7 @@ void *TYPED_FUNC(
     free(offdiag_sum);
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     if (A->myprow == A->mypcol)
     {
diff --git a/src/C-interface/ellblock/bml_normalize_ellblock_typed.c b/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
index 4f957f8..a181d33 100644
--- a/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_normalize_ellblock_typed.c
@@ -100,7 +100,7 @@ void *TYPED_FUNC(
     bml_matrix_ellblock_t * A)
 {
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
diff --git a/src/C-interface/ellpack/bml_normalize_ellpack_typed.c b/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
index 0cac81b..4ee1c3b 100644
--- a/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_normalize_ellpack_typed.c
@@ -86,7 +86,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
@@ -191,7 +191,7 @@ void *TYPED_FUNC(
     REAL_T radius, absham, dvalue;
 
     double emin = DBL_MAX;
-    double emax = DBL_MIN;
+    double emax = -DBL_MAX;
 
     double *eval = bml_allocate_memory(sizeof(double) * 2);
 
-- 
2.43.0


From d2dd73ef8476d2e23a9396840665c9ab4ae8b37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:41 +0000
Subject: [PATCH 18/76] fix: bml_adjungate_triangle on an ellpack matrix kept
 the other triangle's old entries beside the mirrored ones and wrote past full
 rows; ellpack transposition wrote past the end of rows without room for both
 the old and the transposed entries

---
 .../bml_adjungate_triangle_ellpack_typed.c    | 63 ++++++++++++++-----
 .../ellpack/bml_transpose_ellpack_typed.c     | 51 +++++++++++++++
 2 files changed, 100 insertions(+), 14 deletions(-)

diff --git a/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c b/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
index 67b2279..e0ab671 100644
--- a/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_adjungate_triangle_ellpack_typed.c
@@ -38,29 +38,54 @@ void TYPED_FUNC(
     int *A_index = A->index;
     int *A_nnz = A->nnz;
 #ifdef _OPENMP
-    omp_lock_t lock[A_M];
+    omp_lock_t lock[A_N];
 #endif
 
+    if (*triangle != 'u' && *triangle != 'l')
+    {
+        LOG_ERROR("unknown triangle %c\n", *triangle);
+    }
+
+#if defined(USE_OMP_OFFLOAD)
+#pragma omp target update from(A_value[:A_N*A_M], A_index[:A_N*A_M], A_nnz[:A_N])
+#endif
+
+    // The other triangle is replaced: drop its entries first
+    int row_nnz[A_N];
+    for (int i = 0; i < A_N; i++)
+    {
+        l = 0;
+        for (int j = 0; j < A_nnz[i]; j++)
+        {
+            ll = A_index[ROWMAJOR(i, j, A_N, A_M)];
+            if (*triangle == 'u' ? ll >= i : ll <= i)
+            {
+                A_index[ROWMAJOR(i, l, A_N, A_M)] = ll;
+                A_value[ROWMAJOR(i, l, A_N, A_M)] =
+                    A_value[ROWMAJOR(i, j, A_N, A_M)];
+                l++;
+            }
+        }
+        A_nnz[i] = l;
+        row_nnz[i] = l;
+    }
+
     switch (*triangle)
     {
         case 'u':
 #ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
+            for (int i = 0; i < A_N; i++)
                 omp_init_lock(&(lock[i]));
 #endif
 
-#if defined(USE_OMP_OFFLOAD)
-#pragma omp target update from(A_value[:A_N*A_M], A_index[:A_N*A_M], A_nnz[:A_N])
-#endif
-
 #pragma omp parallel for                          \
-  shared(A_N, A_M, A_index, A_nnz, A_value, lock) \
+  shared(A_N, A_M, A_index, A_nnz, A_value, row_nnz, lock) \
   private(l, ll)
             // WARNING: Please, check for race conditions ...
 
             for (int i = 0; i < A_N; i++)       // For every row
             {
-                l = A_nnz[i];
+                l = row_nnz[i];
                 for (int j = 0; j < l; j++)     // We search for indices gt 0.
                 {
                     ll = A_index[ROWMAJOR(i, j, A_N, A_M)];
@@ -71,6 +96,11 @@ void TYPED_FUNC(
 #ifdef _OPENMP
                             omp_set_lock(&(lock[ll]));
 #endif
+                            if (A_nnz[ll] >= A_M)
+                            {
+                                LOG_ERROR
+                                    ("Number of non-zeroes per row >= M, Increase M\n");
+                            }
                             A_index[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] = i;
                             A_value[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] =
                                 conj(A_value[ROWMAJOR(i, j, A_N, A_M)]);
@@ -84,7 +114,7 @@ void TYPED_FUNC(
                 }
             }
 #ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
+            for (int i = 0; i < A_N; i++)
                 omp_destroy_lock(&(lock[i]));
 #endif
 
@@ -92,17 +122,17 @@ void TYPED_FUNC(
 
         case 'l':
 #ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
+            for (int i = 0; i < A_N; i++)
                 omp_init_lock(&(lock[i]));
 #endif
 
 #pragma omp parallel for                                \
-  shared(lock, A_N, A_M, A_index, A_nnz, A_value)       \
+  shared(lock, row_nnz, A_N, A_M, A_index, A_nnz, A_value) \
   private(l, ll)
             //    WARNING: Please, check for race conditions and parallel performances ...
             for (int i = 0; i < A_N; i++)
             {
-                l = A_nnz[i];
+                l = row_nnz[i];
                 for (int j = 0; j < l; j++)
                 {
                     ll = A_index[ROWMAJOR(i, j, A_N, A_M)];
@@ -113,6 +143,11 @@ void TYPED_FUNC(
 #ifdef _OPENMP
                             omp_set_lock(&(lock[ll]));
 #endif
+                            if (A_nnz[ll] >= A_M)
+                            {
+                                LOG_ERROR
+                                    ("Number of non-zeroes per row >= M, Increase M\n");
+                            }
                             A_index[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] = i;
                             A_value[ROWMAJOR(ll, A_nnz[ll], A_N, A_M)] =
                                 conj(A_value[ROWMAJOR(i, j, A_N, A_M)]);
@@ -126,13 +161,13 @@ void TYPED_FUNC(
                 }
             }
 #ifdef _OPENMP
-            for (int i = 0; i < A_M; i++)
+            for (int i = 0; i < A_N; i++)
                 omp_destroy_lock(&(lock[i]));
 #endif
 
             break;
         default:
-            LOG_ERROR("unknown triangle %c\n", triangle);
+            LOG_ERROR("unknown triangle %c\n", *triangle);
             break;
     }
 #if defined(USE_OMP_OFFLOAD)
diff --git a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
index 73daef1..4298e91 100644
--- a/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_transpose_ellpack_typed.c
@@ -5,6 +5,7 @@
 #include "../bml_transpose.h"
 #include "../bml_types.h"
 #include "bml_allocate_ellpack.h"
+#include "bml_copy_ellpack.h"
 #include "bml_transpose_ellpack.h"
 #include "bml_types_ellpack.h"
 #include "../bml_logger.h"
@@ -87,6 +88,11 @@ bml_matrix_ellpack_t
                 omp_set_lock(&row_lock[trow]);
 #endif
                 int colcnt = B_nnz[trow];
+                if (colcnt >= M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row >= M, Increase M\n");
+                }
                 B_index[ROWMAJOR(trow, colcnt, N, M)] = i;
                 B_value[ROWMAJOR(trow, colcnt, N, M)] =
                     A_value[ROWMAJOR(i, j, N, M)];
@@ -98,6 +104,14 @@ bml_matrix_ellpack_t
         }
     }                           // end target region
 
+#ifdef _OPENMP
+    for (int i = 0; i < N; i++)
+    {
+        omp_destroy_lock(&row_lock[i]);
+    }
+    free(row_lock);
+#endif
+
 #if defined (USE_OMP_OFFLOAD) && defined(COMPUTE_ON_HOST)
 #pragma omp target update to(B_index[:N*M], B_value[:N*M], B_nnz[:N])
 #endif
@@ -407,6 +421,43 @@ void TYPED_FUNC(
     bml_transpose_ellpack) (
     bml_matrix_ellpack_t * A)
 {
+#if !defined(BML_USE_CUSPARSE)
+    int N = A->N;
+    int M = A->M;
+    int *A_index = A->index;
+    int *A_nnz = A->nnz;
+
+    /* The in-place algorithms keep the entries of a row not yet moved next
+     * to the ones already transposed into it. Go through a copy if these do
+     * not fit together. */
+    int row_nnz[N];
+    memcpy(row_nnz, A_nnz, sizeof(int) * N);
+    int fits = 1;
+    for (int i = 0; i < N; i++)
+    {
+        for (int j = 0; j < A_nnz[i]; j++)
+        {
+            int col = A_index[ROWMAJOR(i, j, N, M)];
+            int k = 0;
+            while (k < A_nnz[col] && A_index[ROWMAJOR(col, k, N, M)] != i)
+            {
+                k++;
+            }
+            if (k == A_nnz[col] && ++row_nnz[col] > M)
+            {
+                fits = 0;
+            }
+        }
+    }
+    if (!fits)
+    {
+        bml_matrix_ellpack_t *A_t = TYPED_FUNC(bml_transpose_new_ellpack) (A);
+        TYPED_FUNC(bml_copy_ellpack) (A_t, A);
+        bml_deallocate_ellpack(A_t);
+        return;
+    }
+#endif
+
     /* Call in-place transpose function. 
      * consider: ellpack_transpose_left_looking(A) - for structurally non-symmetric matrices 
      * consider: ellpack_transpose_right_looking(A) - for structurally symmetric matrices
-- 
2.43.0


From 0382a34bca943f947f2d745b0c5e6cdcf17c0b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:41 +0000
Subject: [PATCH 19/76] fix: bml_threshold_new on a csr matrix stored all kept
 elements of a row in the same place

---
 src/C-interface/csr/bml_threshold_csr_typed.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/C-interface/csr/bml_threshold_csr_typed.c b/src/C-interface/csr/bml_threshold_csr_typed.c
index 6b27efc..772a5d0 100644
--- a/src/C-interface/csr/bml_threshold_csr_typed.c
+++ b/src/C-interface/csr/bml_threshold_csr_typed.c
@@ -5,6 +5,7 @@
 #include "../bml_threshold.h"
 #include "../bml_types.h"
 #include "bml_allocate_csr.h"
+#include "bml_setters_csr.h"
 #include "bml_threshold_csr.h"
 #include "bml_types_csr.h"
 
@@ -39,10 +40,6 @@ bml_matrix_csr_t
     shared(N)
     for (int i = 0; i < N; i++)
     {
-        int *bcols = B->data_[i]->cols_;
-        REAL_T *bvals = (REAL_T *) B->data_[i]->vals_;
-        const int bnnz = B->data_[i]->NNZ_;
-
         int *cols = A->data_[i]->cols_;
         REAL_T *vals = (REAL_T *) A->data_[i]->vals_;
         const int annz = A->data_[i]->NNZ_;
@@ -50,11 +47,8 @@ bml_matrix_csr_t
         {
             if (is_above_threshold(vals[pos], threshold))
             {
-//                bml_set_element_new_csr(B, i, cols[pos], &vals[pos]);
-                bvals[bnnz] = vals[pos];
-                bcols[bnnz] = cols[pos];
-                /* update nnz of row i of B */
-                B->data_[i]->NNZ_++;
+                TYPED_FUNC(csr_set_row_element_new) (B->data_[i], cols[pos],
+                                                     &vals[pos]);
             }
         }
     }
-- 
2.43.0


From 17943f66bf9ba632fa3795e73fc5583c0dd8b32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:41 +0000
Subject: [PATCH 20/76] fix: bml_fnorm2 was not available for ellblock and
 distributed2d matrices although implemented

---
 src/C-interface/bml_norm.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/C-interface/bml_norm.c b/src/C-interface/bml_norm.c
index 60252fb..83cfd4c 100644
--- a/src/C-interface/bml_norm.c
+++ b/src/C-interface/bml_norm.c
@@ -230,6 +230,14 @@ bml_fnorm2(
         case csr:
             return bml_fnorm2_csr(A, B);
             break;
+        case ellblock:
+            return bml_fnorm2_ellblock(A, B);
+            break;
+#ifdef BML_USE_MPI
+        case distributed2d:
+            return bml_fnorm2_distributed2d(A, B);
+            break;
+#endif
         default:
             LOG_ERROR("unknown matrix type\n");
             break;
-- 
2.43.0


From ef73dea42d6b85e8fe25d23f8a03dd755bd27002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:41 +0000
Subject: [PATCH 21/76] fix: bml_get_distribution_mode was not available for
 ellblock and distributed2d matrices although implemented

---
 src/C-interface/bml_introspection.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/C-interface/bml_introspection.c b/src/C-interface/bml_introspection.c
index c5470fa..bb95d7d 100644
--- a/src/C-interface/bml_introspection.c
+++ b/src/C-interface/bml_introspection.c
@@ -282,6 +282,14 @@ bml_get_distribution_mode(
         case csr:
             return bml_get_distribution_mode_csr(A);
             break;
+        case ellblock:
+            return bml_get_distribution_mode_ellblock(A);
+            break;
+#ifdef BML_USE_MPI
+        case distributed2d:
+            return bml_get_distribution_mode_distributed2d(A);
+            break;
+#endif
         default:
             LOG_ERROR("unknown matrix type in bml_get_distribution_mode\n");
             break;
-- 
2.43.0


From 4f67b67b1a27e78efd193f04f666a1d93ba00b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:41 +0000
Subject: [PATCH 22/76] fix: bml_noinit_matrix failed for ellblock if called
 before the default block sizes were set

---
 src/C-interface/ellblock/bml_allocate_ellblock_typed.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
index fd48854..551116f 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
@@ -156,10 +156,11 @@ bml_matrix_ellblock_t
     int N = matrix_dimension.N_rows;
     int M = matrix_dimension.N_nz_max;
 
+    // sets the default block sizes, if not set yet
+    int *bsize = bml_get_block_sizes(N, M);
+
     return TYPED_FUNC(bml_block_matrix_ellblock) (bml_get_nb(), bml_get_mb(),
-                                                  M, bml_get_block_sizes(N,
-                                                                         0),
-                                                  distrib_mode);
+                                                  M, bsize, distrib_mode);
 }
 
 /** Allocate the zero matrix.
-- 
2.43.0


From fccaeffe0fd78f4936df5ebd005234f45ab2dd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:58 +0000
Subject: [PATCH 23/76] fix: the built-in GEMM ignored the leading dimensions
 and treated 'C' as plain transposition

---
 src/internal-blas/bml_gemm.c | 53 ++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/src/internal-blas/bml_gemm.c b/src/internal-blas/bml_gemm.c
index 2fd247a..97b510f 100644
--- a/src/internal-blas/bml_gemm.c
+++ b/src/internal-blas/bml_gemm.c
@@ -28,6 +28,8 @@ void TYPED_FUNC(
     int N_rows_A;
     int N_rows_B;
     int N_cols_A;
+    const int conj_a = (*transa == 'C');
+    const int conj_b = (*transb == 'C');
 
     if (*transa == 'N')
     {
@@ -104,7 +106,7 @@ void TYPED_FUNC(
             {
                 for (int i = 0; i < *m; i++)
                 {
-                    c[COLMAJOR(i, j, *m, *n)] = 0;
+                    c[COLMAJOR(i, j, *ldc, *n)] = 0;
                 }
             }
         }
@@ -114,8 +116,8 @@ void TYPED_FUNC(
             {
                 for (int i = 0; i < *m; i++)
                 {
-                    c[COLMAJOR(i, j, *m, *n)] =
-                        *beta * c[COLMAJOR(i, j, *m, *n)];
+                    c[COLMAJOR(i, j, *ldc, *n)] =
+                        *beta * c[COLMAJOR(i, j, *ldc, *n)];
                 }
             }
         }
@@ -135,24 +137,24 @@ void TYPED_FUNC(
                 {
                     for (int i = 0; i < *m; i++)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] = 0;
+                        c[COLMAJOR(i, j, *ldc, *n)] = 0;
                     }
                 }
                 else if (*beta != 1.0)
                 {
                     for (int i = 0; i < *m; i++)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] *= *beta;
+                        c[COLMAJOR(i, j, *ldc, *n)] *= *beta;
                     }
                 }
 
                 for (int l = 0; l < *k; l++)
                 {
-                    REAL_T temp = *alpha * b[COLMAJOR(l, j, *k, *n)];
+                    REAL_T temp = *alpha * b[COLMAJOR(l, j, *ldb, *n)];
                     for (int i = 0; i < *m; i++)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] +=
-                            temp * a[COLMAJOR(i, l, *m, *k)];
+                        c[COLMAJOR(i, j, *ldc, *n)] +=
+                            temp * a[COLMAJOR(i, l, *lda, *k)];
                     }
                 }
             }
@@ -169,18 +171,19 @@ void TYPED_FUNC(
                     REAL_T temp = 0;
                     for (int l = 0; l < *k; l++)
                     {
+                        REAL_T a_li = a[COLMAJOR(l, i, *lda, *m)];
                         temp +=
-                            a[COLMAJOR(l, i, *k, *m)] *
-                            b[COLMAJOR(l, j, *k, *n)];
+                            (conj_a ? COMPLEX_CONJUGATE(a_li) : a_li) *
+                            b[COLMAJOR(l, j, *ldb, *n)];
                     }
                     if (*beta == 0)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] = *alpha * temp;
+                        c[COLMAJOR(i, j, *ldc, *n)] = *alpha * temp;
                     }
                     else
                     {
-                        c[COLMAJOR(i, j, *m, *n)] =
-                            *alpha * temp + *beta * c[COLMAJOR(i, j, *m, *n)];
+                        c[COLMAJOR(i, j, *ldc, *n)] =
+                            *alpha * temp + *beta * c[COLMAJOR(i, j, *ldc, *n)];
                     }
                 }
             }
@@ -199,24 +202,26 @@ void TYPED_FUNC(
                 {
                     for (int i = 0; i < *m; i++)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] = 0;
+                        c[COLMAJOR(i, j, *ldc, *n)] = 0;
                     }
                 }
                 else if (*beta != 1.0)
                 {
                     for (int i = 0; i < *m; i++)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] *= *beta;
+                        c[COLMAJOR(i, j, *ldc, *n)] *= *beta;
                     }
                 }
 
                 for (int l = 0; l < *k; l++)
                 {
-                    REAL_T temp = *alpha * b[COLMAJOR(j, l, *n, *k)];
+                    REAL_T b_jl = b[COLMAJOR(j, l, *ldb, *k)];
+                    REAL_T temp =
+                        *alpha * (conj_b ? COMPLEX_CONJUGATE(b_jl) : b_jl);
                     for (int i = 0; i < *m; i++)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] +=
-                            temp * a[COLMAJOR(i, l, *m, *k)];
+                        c[COLMAJOR(i, j, *ldc, *n)] +=
+                            temp * a[COLMAJOR(i, l, *lda, *k)];
                     }
                 }
             }
@@ -233,19 +238,21 @@ void TYPED_FUNC(
                     REAL_T temp = 0;
                     for (int l = 0; l < *k; l++)
                     {
+                        REAL_T a_li = a[COLMAJOR(l, i, *lda, *m)];
+                        REAL_T b_jl = b[COLMAJOR(j, l, *ldb, *k)];
                         temp +=
-                            a[COLMAJOR(l, i, *k, *m)] *
-                            b[COLMAJOR(j, l, *n, *k)];
+                            (conj_a ? COMPLEX_CONJUGATE(a_li) : a_li) *
+                            (conj_b ? COMPLEX_CONJUGATE(b_jl) : b_jl);
                     }
 
                     if (*beta == 0)
                     {
-                        c[COLMAJOR(i, j, *m, *n)] = *alpha * temp;
+                        c[COLMAJOR(i, j, *ldc, *n)] = *alpha * temp;
                     }
                     else
                     {
-                        c[COLMAJOR(i, j, *m, *n)] =
-                            *alpha * temp + *beta * c[COLMAJOR(i, j, *m, *n)];
+                        c[COLMAJOR(i, j, *ldc, *n)] =
+                            *alpha * temp + *beta * c[COLMAJOR(i, j, *ldc, *n)];
                     }
                 }
             }
-- 
2.43.0


From ef858ee87b37985b14b3309250d8074226e998e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:44 +0000
Subject: [PATCH 24/76] fix: bml_diagonalize of a complex Hermitian matrix
 returned the complex conjugate of the eigenvectors

---
 src/C-interface/dense/bml_diagonalize_dense.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/dense/bml_diagonalize_dense.c b/src/C-interface/dense/bml_diagonalize_dense.c
index ee5d480..3b1cc67 100644
--- a/src/C-interface/dense/bml_diagonalize_dense.c
+++ b/src/C-interface/dense/bml_diagonalize_dense.c
@@ -748,6 +748,7 @@ bml_diagonalize_dense_single_complex(
                  rwork, &lrwork, iwork, &liwork, &info);
     }
 #endif
+    // the solver took the row-major A for its transpose, that is conj(A)
     A_matrix = (float complex *) eigenvectors->matrix;
     for (int i = 0; i < A->N; i++)
     {
@@ -755,7 +756,7 @@ bml_diagonalize_dense_single_complex(
         for (int j = 0; j < A->N; j++)
         {
             A_matrix[ROWMAJOR(i, j, A->N, A->N)] =
-                evecs[COLMAJOR(i, j, A->N, A->N)];
+                conjf(evecs[COLMAJOR(i, j, A->N, A->N)]);
         }
     }
 
@@ -858,6 +859,7 @@ bml_diagonalize_dense_double_complex(
                  rwork, &lrwork, iwork, &liwork, &info);
     }
 #endif
+    // the solver took the row-major A for its transpose, that is conj(A)
     A_matrix = (double complex *) eigenvectors->matrix;
     for (int i = 0; i < A->N; i++)
     {
@@ -865,7 +867,7 @@ bml_diagonalize_dense_double_complex(
         for (int j = 0; j < A->N; j++)
         {
             A_matrix[ROWMAJOR(i, j, A->N, A->N)] =
-                evecs[COLMAJOR(i, j, A->N, A->N)];
+                conj(evecs[COLMAJOR(i, j, A->N, A->N)]);
         }
     }
 
-- 
2.43.0


From 8926144160415d7334bf75974bda8af1dcf8690a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:30 +0000
Subject: [PATCH 25/76] fix: matrix files were written with the banner
 %%%MatrixMarket, which no MatrixMarket reader accepts

---
 src/C-interface/csr/bml_utilities_csr_typed.c           | 4 ++--
 src/C-interface/dense/bml_utilities_dense_typed.c       | 4 ++--
 src/C-interface/ellblock/bml_utilities_ellblock_typed.c | 4 ++--
 src/C-interface/ellpack/bml_utilities_ellpack_typed.c   | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/C-interface/csr/bml_utilities_csr_typed.c b/src/C-interface/csr/bml_utilities_csr_typed.c
index 6f71845..7f5fdae 100644
--- a/src/C-interface/csr/bml_utilities_csr_typed.c
+++ b/src/C-interface/csr/bml_utilities_csr_typed.c
@@ -132,9 +132,9 @@ void TYPED_FUNC(
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
-    fprintf(mFile, "%%%%%%MatrixMarket matrix coordinate real general\n");
+    fprintf(mFile, "%%%%MatrixMarket matrix coordinate real general\n");
 #elif defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
-    fprintf(mFile, "%%%%%%MatrixMarket matrix coordinate complex general\n");
+    fprintf(mFile, "%%%%MatrixMarket matrix coordinate complex general\n");
 #endif
 
     // Collect number of non-zero elements
diff --git a/src/C-interface/dense/bml_utilities_dense_typed.c b/src/C-interface/dense/bml_utilities_dense_typed.c
index f2cf671..27b5ea8 100644
--- a/src/C-interface/dense/bml_utilities_dense_typed.c
+++ b/src/C-interface/dense/bml_utilities_dense_typed.c
@@ -158,10 +158,10 @@ void TYPED_FUNC(
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
     fprintf(matrix_file,
-            "%%%%%%MatrixMarket matrix coordinate real general\n");
+            "%%%%MatrixMarket matrix coordinate real general\n");
 #elif defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
     fprintf(matrix_file,
-            "%%%%%%MatrixMarket matrix coordinate complex general\n");
+            "%%%%MatrixMarket matrix coordinate complex general\n");
 #endif
 
     // count number of non-zero elements
diff --git a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
index 13921d8..9e705af 100644
--- a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
@@ -194,9 +194,9 @@ void TYPED_FUNC(
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
-    fprintf(mFile, "%%%%%%MatrixMarket matrix coordinate real general\n");
+    fprintf(mFile, "%%%%MatrixMarket matrix coordinate real general\n");
 #elif defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
-    fprintf(mFile, "%%%%%%MatrixMarket matrix coordinate complex general\n");
+    fprintf(mFile, "%%%%MatrixMarket matrix coordinate complex general\n");
 #else
     LOG_ERROR("unknown matrix precision\n");
 #endif
diff --git a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
index fa500b1..2b008cd 100644
--- a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
@@ -152,9 +152,9 @@ void TYPED_FUNC(
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
-    fprintf(mFile, "%%%%%%MatrixMarket matrix coordinate real general\n");
+    fprintf(mFile, "%%%%MatrixMarket matrix coordinate real general\n");
 #elif defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
-    fprintf(mFile, "%%%%%%MatrixMarket matrix coordinate complex general\n");
+    fprintf(mFile, "%%%%MatrixMarket matrix coordinate complex general\n");
 #endif
 
     // Collect number of non-zero elements
-- 
2.43.0


From 16c9c92857335ffb1c13fa5b843b36a7b7429283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:41 +0000
Subject: [PATCH 26/76] fix: reading a 'symmetric' matrix file filled only one
 triangle of dense matrices and corrupted ellblock ones

---
 .../dense/bml_utilities_dense_typed.c         |  9 +++
 .../ellblock/bml_utilities_ellblock_typed.c   | 77 +------------------
 2 files changed, 12 insertions(+), 74 deletions(-)

diff --git a/src/C-interface/dense/bml_utilities_dense_typed.c b/src/C-interface/dense/bml_utilities_dense_typed.c
index 27b5ea8..68c94a8 100644
--- a/src/C-interface/dense/bml_utilities_dense_typed.c
+++ b/src/C-interface/dense/bml_utilities_dense_typed.c
@@ -56,6 +56,8 @@ void TYPED_FUNC(
         LOG_ERROR("Line 1, expected 5 entries, read %d\n", values_read);
     }
 
+    int symflag = strcmp(header5, "symmetric");
+
     // Read N, N, # of non-zeroes
     if ((values_read =
          fscanf(matrix_file, "%d %d %d", &hdimx, &hdimx, &nnz)) < 3)
@@ -107,6 +109,13 @@ void TYPED_FUNC(
 #else
         LOG_ERROR("unknown precision\n");
 #endif
+
+        // Set symmetric value if necessary
+        if (symflag == 0 && icol != irow)
+        {
+            A_matrix[ROWMAJOR(icol - 1, irow - 1, N, N)] =
+                A_matrix[ROWMAJOR(irow - 1, icol - 1, N, N)];
+        }
     }
 
 #ifdef BML_USE_MAGMA
diff --git a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
index 9e705af..7334e2e 100644
--- a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
@@ -4,6 +4,7 @@
 #include "../bml_parallel.h"
 #include "../bml_types.h"
 #include "../bml_utilities.h"
+#include "bml_setters_ellblock.h"
 #include "bml_types_ellblock.h"
 #include "bml_utilities_ellblock.h"
 #include "bml_allocate_ellblock.h"
@@ -33,13 +34,6 @@ void TYPED_FUNC(
     int hdimx, nnz, irow, icol;
     REAL_T value;
 
-    int NB = A->NB;
-    int MB = A->MB;
-    REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
-    int *A_indexb = A->indexb;
-    int *A_nnzb = A->nnzb;
-    int *A_bsize = A->bsize;
-
     hFile = fopen(filename, "r");
 
     // Read header
@@ -86,77 +80,12 @@ void TYPED_FUNC(
         irow--;
         icol--;
 
-        /*compute block indexes */
-        int ib = 0;
-        while (irow >= A_bsize[ib])
-        {
-            irow -= A_bsize[ib];
-            ib++;
-        }
-
-        int jb = 0;
-        while (icol >= A_bsize[jb])
-        {
-            icol -= A_bsize[jb];
-            jb++;
-        }
-
-        int found_block = 0;
-        for (int jp = 0; jp < A_nnzb[ib]; jp++)
-        {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
-            int jbb = A_indexb[ind];
-            if (jbb == jb)
-            {
-                found_block = 1;
-                REAL_T *A_value = A_ptr_value[ind];
-                A_value[ROWMAJOR(irow, icol, A_bsize[ib], A_bsize[jb])] =
-                    value;
-            }
-        }
-        //add block if needed
-        if (found_block == 0)
-        {
-            //printf("Add new block %d, %d\n",ib, jb);
-            assert(A_nnzb[ib] < MB);
-            int ind = ROWMAJOR(ib, A_nnzb[ib], NB, MB);
-            A_indexb[ind] = jb;
-            A_nnzb[ib]++;
-            int nelements = A_bsize[ib] * A_bsize[jb];
-            A_ptr_value[ind] =
-                TYPED_FUNC(bml_allocate_block_ellblock) (A, ib, nelements);
-            REAL_T *A_value = A_ptr_value[ind];
-            memset(A_value, 0, nelements * sizeof(REAL_T));
-            assert(A_value != NULL);
-            A_value[ROWMAJOR(irow, icol, A_bsize[ib], A_bsize[jb])] = value;
-        }
+        TYPED_FUNC(bml_set_element_ellblock) (A, irow, icol, &value);
 
         // Set symmetric value if necessary
         if (symflag == 0 && icol != irow)
         {
-            int found_block = 0;
-            for (int ip = 0; ip < A_nnzb[jb]; ip++)
-            {
-                int ind = ROWMAJOR(jb, ip, NB, MB);
-                int ibb = A_indexb[ROWMAJOR(jb, ip, NB, MB)];
-                if (ibb == ib)
-                {
-                    found_block = 1;
-                    REAL_T *A_value = A_ptr_value[ind];
-                    A_value[ROWMAJOR(icol, irow, A_bsize[jb], A_bsize[ib])] =
-                        value;
-                }
-            }
-            //add block if needed
-            if (found_block == 0)
-            {
-                A_indexb[A_nnzb[jb]] = ib;
-                int ind = ROWMAJOR(jb, A_nnzb[jb], NB, MB);
-                A_nnzb[jb]++;
-                REAL_T *A_value = A_ptr_value[ind];
-                A_value[ROWMAJOR(icol, irow, A_bsize[jb], A_bsize[ib])] =
-                    value;
-            }
+            TYPED_FUNC(bml_set_element_ellblock) (A, icol, irow, &value);
         }
     }
 
-- 
2.43.0


From 9e6e638678a2ae19882e91ccd1a41de03e33a97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:41 +0000
Subject: [PATCH 27/76] fix: damaged matrix files (missing, wrong size, bad
 indices, lacking columns, too many entries per row) were accepted or
 corrupted memory

---
 src/C-interface/csr/bml_utilities_csr_typed.c | 54 ++++++++++++---
 .../dense/bml_utilities_dense_typed.c         | 66 ++++++++++++++++---
 .../ellblock/bml_utilities_ellblock_typed.c   | 51 +++++++++++---
 .../ellpack/bml_utilities_ellpack_typed.c     | 61 ++++++++++++++---
 4 files changed, 194 insertions(+), 38 deletions(-)

diff --git a/src/C-interface/csr/bml_utilities_csr_typed.c b/src/C-interface/csr/bml_utilities_csr_typed.c
index 7f5fdae..021f978 100644
--- a/src/C-interface/csr/bml_utilities_csr_typed.c
+++ b/src/C-interface/csr/bml_utilities_csr_typed.c
@@ -27,14 +27,19 @@ void TYPED_FUNC(
 {
     FILE *hFile;
     char header1[20], header2[20], header3[20], header4[20], header5[20];
-    int hdimx, nnz, irow, icol;
+    int hdimx, hdimy, nnz, irow, icol;
     REAL_T value;
+    int N = A->N_;
 
     hFile = fopen(filename, "r");
+    if (hFile == NULL)
+    {
+        LOG_ERROR("can not open file %s\n", filename);
+    }
 
     // Read header
-    if (fscanf(hFile, "%s %s %s %s %s", header1, header2, header3, header4,
-               header5) != 5)
+    if (fscanf(hFile, "%19s %19s %19s %19s %19s", header1, header2,
+               header3, header4, header5) != 5)
     {
         LOG_ERROR("read error on header\n");
     }
@@ -43,12 +48,30 @@ void TYPED_FUNC(
               header5);
 
     int symflag = strcmp(header5, "symmetric");
+    // real and complex files differ in the number of entries per line
+#if defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
+    if (strcmp(header4, "complex") != 0)
+#else
+    if (strcmp(header4, "complex") == 0)
+#endif
+    {
+        LOG_ERROR("field type %s does not match the matrix\n", header4);
+    }
+    if (symflag != 0 && strcmp(header5, "general") != 0)
+    {
+        LOG_ERROR("unknown matrix symmetry %s\n", header5);
+    }
 
     // Read N, N, # of non-zeroes
-    if (fscanf(hFile, "%d %d %d", &hdimx, &hdimx, &nnz) != 3)
+    if (fscanf(hFile, "%d%*[ \t]%d%*[ \t]%d", &hdimx, &hdimy, &nnz) != 3)
     {
         LOG_ERROR("read error\n");
     }
+    if (hdimx != N || hdimy != N || nnz < 0)
+    {
+        LOG_ERROR("file holds a %d x %d matrix with %d entries, "
+                  "expected N = %d\n", hdimx, hdimy, nnz, N);
+    }
 
     LOG_DEBUG("hdimx = %d, nnz = %d\n", hdimx, nnz);
 
@@ -56,20 +79,22 @@ void TYPED_FUNC(
     for (int i = 0; i < nnz; i++)
     {
 #if defined(SINGLE_REAL)
-        if (fscanf(hFile, "%d %d %f\n", &irow, &icol, &value) != 3)
+        if (fscanf(hFile, "%d%*[ \t]%d%*[ \t]%f\n", &irow, &icol,
+                   &value) != 3)
         {
             LOG_ERROR("read error\n");
         }
 #elif defined(DOUBLE_REAL)
-        if (fscanf(hFile, "%d %d %lf\n", &irow, &icol, &value) != 3)
+        if (fscanf(hFile, "%d%*[ \t]%d%*[ \t]%lf\n", &irow, &icol,
+                   &value) != 3)
         {
             LOG_ERROR("read error\n");
         }
 #elif defined(SINGLE_COMPLEX)
         double real_part, imaginary_part;
         if (fscanf
-            (hFile, "%d %d %lf %lf\n", &irow, &icol, &real_part,
-             &imaginary_part) != 4)
+            (hFile, "%d%*[ \t]%d%*[ \t]%lf%*[ \t]%lf\n", &irow, &icol,
+             &real_part, &imaginary_part) != 4)
         {
             LOG_ERROR("read error\n");
         }
@@ -79,8 +104,8 @@ void TYPED_FUNC(
 #elif defined(DOUBLE_COMPLEX)
         double real_part, imaginary_part;
         if (fscanf
-            (hFile, "%d %d %lf %lf\n", &irow, &icol, &real_part,
-             &imaginary_part) != 4)
+            (hFile, "%d%*[ \t]%d%*[ \t]%lf%*[ \t]%lf\n", &irow, &icol,
+             &real_part, &imaginary_part) != 4)
         {
             LOG_ERROR("read error\n");
         }
@@ -89,6 +114,11 @@ void TYPED_FUNC(
         LOG_ERROR("unknown precision\n");
 #endif
 
+        if (irow < 1 || irow > N || icol < 1 || icol > N)
+        {
+            LOG_ERROR("entry (%d, %d) is outside of the matrix\n", irow,
+                      icol);
+        }
         irow--;
         icol--;
         // set new element
@@ -129,6 +159,10 @@ void TYPED_FUNC(
         return;
 
     mFile = fopen(filename, "w");
+    if (mFile == NULL)
+    {
+        LOG_ERROR("can not open file %s\n", filename);
+    }
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
diff --git a/src/C-interface/dense/bml_utilities_dense_typed.c b/src/C-interface/dense/bml_utilities_dense_typed.c
index 68c94a8..1898784 100644
--- a/src/C-interface/dense/bml_utilities_dense_typed.c
+++ b/src/C-interface/dense/bml_utilities_dense_typed.c
@@ -31,7 +31,7 @@ void TYPED_FUNC(
 {
     FILE *matrix_file;
     char header1[20], header2[20], header3[20], header4[20], header5[20];
-    int hdimx, nnz, irow, icol;
+    int hdimx, hdimy, nnz, irow, icol;
     int values_read;
     double real_part;
 #if (defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX))
@@ -47,63 +47,105 @@ void TYPED_FUNC(
 #endif
 
     matrix_file = fopen(filename, "r");
+    if (matrix_file == NULL)
+    {
+        LOG_ERROR("can not open file %s\n", filename);
+    }
 
     // Read header
     if ((values_read = fscanf
-         (matrix_file, "%s %s %s %s %s", header1, header2, header3, header4,
-          header5)) < 5)
+         (matrix_file, "%19s %19s %19s %19s %19s", header1, header2,
+          header3, header4, header5)) < 5)
     {
         LOG_ERROR("Line 1, expected 5 entries, read %d\n", values_read);
     }
 
     int symflag = strcmp(header5, "symmetric");
+    // real and complex files differ in the number of entries per line
+#if defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
+    if (strcmp(header4, "complex") != 0)
+#else
+    if (strcmp(header4, "complex") == 0)
+#endif
+    {
+        LOG_ERROR("field type %s does not match the matrix\n", header4);
+    }
+    if (symflag != 0 && strcmp(header5, "general") != 0)
+    {
+        LOG_ERROR("unknown matrix symmetry %s\n", header5);
+    }
 
     // Read N, N, # of non-zeroes
     if ((values_read =
-         fscanf(matrix_file, "%d %d %d", &hdimx, &hdimx, &nnz)) < 3)
+         fscanf(matrix_file, "%d%*[ \t]%d%*[ \t]%d", &hdimx, &hdimy, &nnz)) < 3)
     {
         LOG_ERROR("Line 2, Expected 3 entries, read %d\n", values_read);
     }
+    if (hdimx != N || hdimy != N || nnz < 0)
+    {
+        LOG_ERROR("file holds a %d x %d matrix with %d entries, "
+                  "expected N = %d\n", hdimx, hdimy, nnz, N);
+    }
 
     // Read in values
     for (int i = 0; i < nnz; i++)
     {
 #if defined(SINGLE_REAL)
         if ((values_read =
-             fscanf(matrix_file, "%d %d %lg\n", &irow, &icol,
+             fscanf(matrix_file, "%d%*[ \t]%d%*[ \t]%lg\n", &irow, &icol,
                     &real_part)) < 3)
         {
             LOG_ERROR("Line %d, expected 3 entries, read %d\n", i + 3,
                       values_read);
         }
+        if (irow < 1 || irow > N || icol < 1 || icol > N)
+        {
+            LOG_ERROR("Line %d, entry (%d, %d) is outside of the matrix\n",
+                      i + 3, irow, icol);
+        }
         A_matrix[ROWMAJOR(irow - 1, icol - 1, N, N)] = real_part;
 #elif defined(DOUBLE_REAL)
         if ((values_read =
-             fscanf(matrix_file, "%d %d %lg\n", &irow, &icol,
+             fscanf(matrix_file, "%d%*[ \t]%d%*[ \t]%lg\n", &irow, &icol,
                     &real_part)) < 3)
         {
             LOG_ERROR("Line %d, expected 3 entries, read %d\n", i + 3,
                       values_read);
         }
+        if (irow < 1 || irow > N || icol < 1 || icol > N)
+        {
+            LOG_ERROR("Line %d, entry (%d, %d) is outside of the matrix\n",
+                      i + 3, irow, icol);
+        }
         A_matrix[ROWMAJOR(irow - 1, icol - 1, N, N)] = real_part;
 #elif defined(SINGLE_COMPLEX)
         if ((values_read =
-             fscanf(matrix_file, "%d %d %lg %lg\n", &irow, &icol, &real_part,
-                    &imaginary_part)) < 4)
+             fscanf(matrix_file, "%d%*[ \t]%d%*[ \t]%lg%*[ \t]%lg\n", &irow, &icol,
+                    &real_part, &imaginary_part)) < 4)
         {
             LOG_ERROR("Line %d, expected 4 entries, read %d\n", i + 3,
                       values_read);
         }
+        if (irow < 1 || irow > N || icol < 1 || icol > N)
+        {
+            LOG_ERROR("Line %d, entry (%d, %d) is outside of the matrix\n",
+                      i + 3, irow, icol);
+        }
         A_matrix[ROWMAJOR(irow - 1, icol - 1, N, N)] =
             real_part + I * imaginary_part;
 #elif defined(DOUBLE_COMPLEX)
         if ((values_read =
-             fscanf(matrix_file, "%d %d %lg %lg\n", &irow, &icol, &real_part,
-                    &imaginary_part)) < 4)
+             fscanf(matrix_file, "%d%*[ \t]%d%*[ \t]%lg%*[ \t]%lg\n", &irow, &icol,
+                    &real_part, &imaginary_part)) < 4)
         {
             LOG_ERROR("Line %d, expected 4 entries, read %d\n", i + 3,
                       values_read);
         }
+        if (irow < 1 || irow > N || icol < 1 || icol > N)
+        {
+            LOG_ERROR("Line %d, entry (%d, %d) is outside of the matrix\n",
+                      i + 3, irow, icol);
+        }
         A_matrix[ROWMAJOR(irow - 1, icol - 1, N, N)] =
             real_part + I * imaginary_part;
 #else
@@ -163,6 +205,10 @@ void TYPED_FUNC(
 #endif
 
     matrix_file = fopen(filename, "w");
+    if (matrix_file == NULL)
+    {
+        LOG_ERROR("can not open file %s\n", filename);
+    }
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
diff --git a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
index 7334e2e..7ee7cfa 100644
--- a/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_utilities_ellblock_typed.c
@@ -31,44 +31,70 @@ void TYPED_FUNC(
 
     FILE *hFile;
     char header1[20], header2[20], header3[20], header4[20], header5[20];
-    int hdimx, nnz, irow, icol;
+    int hdimx, hdimy, nnz, irow, icol;
     REAL_T value;
 
+    int N = A->N;
+
     hFile = fopen(filename, "r");
+    if (hFile == NULL)
+    {
+        LOG_ERROR("can not open file %s\n", filename);
+    }
 
     // Read header
-    if (fscanf(hFile, "%s %s %s %s %s", header1, header2, header3, header4,
-               header5) != 5)
+    if (fscanf(hFile, "%19s %19s %19s %19s %19s", header1, header2,
+               header3, header4, header5) != 5)
     {
         LOG_ERROR("read error on header\n");
     }
 
     int symflag = strcmp(header5, "symmetric");
+    // real and complex files differ in the number of entries per line
+#if defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
+    if (strcmp(header4, "complex") != 0)
+#else
+    if (strcmp(header4, "complex") == 0)
+#endif
+    {
+        LOG_ERROR("field type %s does not match the matrix\n", header4);
+    }
+    if (symflag != 0 && strcmp(header5, "general") != 0)
+    {
+        LOG_ERROR("unknown matrix symmetry %s\n", header5);
+    }
 
     // Read N, N, # of non-zeroes
-    if (fscanf(hFile, "%d %d %d", &hdimx, &hdimx, &nnz) != 3)
+    if (fscanf(hFile, "%d%*[ \t]%d%*[ \t]%d", &hdimx, &hdimy, &nnz) != 3)
     {
         LOG_ERROR("read error\n");
     }
+    if (hdimx != N || hdimy != N || nnz < 0)
+    {
+        LOG_ERROR("file holds a %d x %d matrix with %d entries, "
+                  "expected N = %d\n", hdimx, hdimy, nnz, N);
+    }
 
     // Read in values
     for (int i = 0; i < nnz; i++)
     {
 #if defined(SINGLE_REAL)
-        if (fscanf(hFile, "%d %d %e\n", &irow, &icol, &value) != 3)
+        if (fscanf(hFile, "%d%*[ \t]%d%*[ \t]%e\n", &irow, &icol,
+                   &value) != 3)
         {
             LOG_ERROR("read error\n");
         }
 #elif defined(DOUBLE_REAL)
-        if (fscanf(hFile, "%d %d %le\n", &irow, &icol, &value) != 3)
+        if (fscanf(hFile, "%d%*[ \t]%d%*[ \t]%le\n", &irow, &icol,
+                   &value) != 3)
         {
             LOG_ERROR("read error\n");
         }
 #elif defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
         double real_part, imaginary_part;
         if (fscanf
-            (hFile, "%d %d %le %le\n", &irow, &icol, &real_part,
-             &imaginary_part) != 4)
+            (hFile, "%d%*[ \t]%d%*[ \t]%le%*[ \t]%le\n", &irow, &icol,
+             &real_part, &imaginary_part) != 4)
         {
             LOG_ERROR("read error\n");
         }
@@ -77,6 +103,11 @@ void TYPED_FUNC(
         LOG_ERROR("unknown matrix precision\n");
 #endif
 
+        if (irow < 1 || irow > N || icol < 1 || icol > N)
+        {
+            LOG_ERROR("entry (%d, %d) is outside of the matrix\n", irow,
+                      icol);
+        }
         irow--;
         icol--;
 
@@ -120,6 +151,10 @@ void TYPED_FUNC(
         return;
 
     mFile = fopen(filename, "w");
+    if (mFile == NULL)
+    {
+        LOG_ERROR("can not open file %s\n", filename);
+    }
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
diff --git a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
index 2b008cd..d6fd7fb 100644
--- a/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_utilities_ellpack_typed.c
@@ -26,7 +26,7 @@ void TYPED_FUNC(
 {
     FILE *hFile;
     char header1[20], header2[20], header3[20], header4[20], header5[20];
-    int hdimx, nnz, irow, icol, ind;
+    int hdimx, hdimy, nnz, irow, icol, ind;
 #if (defined(SINGLE_COMPLEX)||defined(DOUBLE_COMPLEX))
     double real_part, imaginary_part;
 #endif
@@ -39,10 +39,14 @@ void TYPED_FUNC(
     int *A_nnz = A->nnz;
 
     hFile = fopen(filename, "r");
+    if (hFile == NULL)
+    {
+        LOG_ERROR("can not open file %s\n", filename);
+    }
 
     // Read header
-    if (fscanf(hFile, "%s %s %s %s %s", header1, header2, header3, header4,
-               header5) != 5)
+    if (fscanf(hFile, "%19s %19s %19s %19s %19s", header1, header2,
+               header3, header4, header5) != 5)
     {
         LOG_ERROR("read error on header\n");
     }
@@ -51,12 +55,30 @@ void TYPED_FUNC(
               header5);
 
     int symflag = strcmp(header5, "symmetric");
+    // real and complex files differ in the number of entries per line
+#if defined(SINGLE_COMPLEX) || defined(DOUBLE_COMPLEX)
+    if (strcmp(header4, "complex") != 0)
+#else
+    if (strcmp(header4, "complex") == 0)
+#endif
+    {
+        LOG_ERROR("field type %s does not match the matrix\n", header4);
+    }
+    if (symflag != 0 && strcmp(header5, "general") != 0)
+    {
+        LOG_ERROR("unknown matrix symmetry %s\n", header5);
+    }
 
     // Read N, N, # of non-zeroes
-    if (fscanf(hFile, "%d %d %d", &hdimx, &hdimx, &nnz) != 3)
+    if (fscanf(hFile, "%d%*[ \t]%d%*[ \t]%d", &hdimx, &hdimy, &nnz) != 3)
     {
         LOG_ERROR("read error\n");
     }
+    if (hdimx != N || hdimy != N || nnz < 0)
+    {
+        LOG_ERROR("file holds a %d x %d matrix with %d entries, "
+                  "expected N = %d\n", hdimx, hdimy, nnz, N);
+    }
 
     LOG_DEBUG("hdimx = %d, nnz = %d\n", hdimx, nnz);
 
@@ -64,19 +86,21 @@ void TYPED_FUNC(
     for (int i = 0; i < nnz; i++)
     {
 #if defined(SINGLE_REAL)
-        if (fscanf(hFile, "%d %d %f\n", &irow, &icol, &value) != 3)
+        if (fscanf(hFile, "%d%*[ \t]%d%*[ \t]%f\n", &irow, &icol,
+                   &value) != 3)
         {
             LOG_ERROR("read error\n");
         }
 #elif defined(DOUBLE_REAL)
-        if (fscanf(hFile, "%d %d %lf\n", &irow, &icol, &value) != 3)
+        if (fscanf(hFile, "%d%*[ \t]%d%*[ \t]%lf\n", &irow, &icol,
+                   &value) != 3)
         {
             LOG_ERROR("read error\n");
         }
 #elif defined(SINGLE_COMPLEX)
         if (fscanf
-            (hFile, "%d %d %lf %lf\n", &irow, &icol, &real_part,
-             &imaginary_part) != 4)
+            (hFile, "%d%*[ \t]%d%*[ \t]%lf%*[ \t]%lf\n", &irow, &icol,
+             &real_part, &imaginary_part) != 4)
         {
             LOG_ERROR("read error\n");
         }
@@ -85,8 +109,8 @@ void TYPED_FUNC(
                   imaginary_part, value);
 #elif defined(DOUBLE_COMPLEX)
         if (fscanf
-            (hFile, "%d %d %lf %lf\n", &irow, &icol, &real_part,
-             &imaginary_part) != 4)
+            (hFile, "%d%*[ \t]%d%*[ \t]%lf%*[ \t]%lf\n", &irow, &icol,
+             &real_part, &imaginary_part) != 4)
         {
             LOG_ERROR("read error\n");
         }
@@ -95,9 +119,18 @@ void TYPED_FUNC(
         LOG_ERROR("unknown precision\n");
 #endif
 
+        if (irow < 1 || irow > N || icol < 1 || icol > N)
+        {
+            LOG_ERROR("entry (%d, %d) is outside of the matrix\n", irow,
+                      icol);
+        }
         irow--;
         icol--;
         ind = A_nnz[irow];
+        if (ind >= M)
+        {
+            LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+        }
         A_index[ROWMAJOR(irow, ind, N, M)] = icol;
         A_value[ROWMAJOR(irow, ind, N, M)] = value;
         A_nnz[irow]++;
@@ -106,6 +139,10 @@ void TYPED_FUNC(
         if (symflag == 0 && icol != irow)
         {
             ind = A_nnz[icol];
+            if (ind >= M)
+            {
+                LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+            }
             A_index[ROWMAJOR(icol, ind, N, M)] = irow;
             A_value[ROWMAJOR(icol, ind, N, M)] = value;
             A_nnz[icol]++;
@@ -149,6 +186,10 @@ void TYPED_FUNC(
         return;
 
     mFile = fopen(filename, "w");
+    if (mFile == NULL)
+    {
+        LOG_ERROR("can not open file %s\n", filename);
+    }
 
     // Write header
 #if defined(SINGLE_REAL) || defined(DOUBLE_REAL)
-- 
2.43.0


From f22b6bafcf19f52ab29bb944eecee0ab84051608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:58 +0000
Subject: [PATCH 28/76] fix: bml_matrix2submatrix returned uninitialized memory
 for empty rows

---
 src/C-interface/ellpack/bml_submatrix_ellpack_typed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
index 7a96319..4c57ff9 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
@@ -392,6 +392,7 @@ void *TYPED_FUNC(
 
     for (int i = 0; i < colCnt; i++)
     {
+        rvalue[i] = ZERO;
         for (int j = 0; j < A_nnz[irow]; j++)
         {
             if (A_index[ROWMAJOR(irow, j, A_N, A_M)] == jj[i])
@@ -399,7 +400,6 @@ void *TYPED_FUNC(
                 rvalue[i] = A_value[ROWMAJOR(irow, j, A_N, A_M)];
                 break;
             }
-            rvalue[i] = ZERO;
         }
     }
     return rvalue;
-- 
2.43.0


From 384df5f8279a9fa08211c3c846eff6d49df4c03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:58 +0000
Subject: [PATCH 29/76] fix: bml_group_matrix lost links to groups that an
 earlier group was linked to

---
 src/C-interface/ellpack/bml_submatrix_ellpack_typed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
index 4c57ff9..c1a84c0 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
@@ -501,7 +501,7 @@ bml_matrix_ellpack_t
             for (int k = 0; k < A_nnz[j]; k++)
             {
                 int ii = hnode[A_index[ROWMAJOR(j, k, A_N, A_M)]];
-                if (ix[ii] == 0 && ii != i)
+                if (ix[ii] != i + 1 && ii != i)
                 {
                     //printf("row = %d col = %d val = %e\n", j, A_index[ROWMAJOR(j, k, A_N, A_M)], A_value[ROWMAJOR(j, k, A_N, A_M)]);
                     if (is_above_threshold(A_value[ROWMAJOR(j, k, A_N, A_M)],
-- 
2.43.0


From 0ab630d36255816462b9d7e1221534dc3a04d953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:12 +0000
Subject: [PATCH 30/76] fix: bml_adjacency returned wrong row starts unless
 either all or none of the diagonal elements are stored

---
 .../ellpack/bml_submatrix_ellpack.c           | 23 +++++++------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack.c b/src/C-interface/ellpack/bml_submatrix_ellpack.c
index e3e75bd..d1cd2e8 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack.c
@@ -349,29 +349,22 @@ bml_adjacency_ellpack(
     int *A_index = A->index;
 
     int j;
-    int check;
 
     xadj[0] = 0;
 
-    // Check if diagonal elements are included
-    check = 0;
-    for (int i = 0; i < A_nnz[0]; i++)
+    // Diagonal elements are not included, whether stored or not
+    for (int i = 1; i < A_N + 1; i++)
     {
-        if (A_index[ROWMAJOR(0, i, A_N, A_M)] == 0)
+        xadj[i] = xadj[i - 1];
+        for (int jj = 0; jj < A_nnz[i - 1]; jj++)
         {
-            check = 1;
-            break;
+            if (A_index[ROWMAJOR(i - 1, jj, A_N, A_M)] != i - 1)
+            {
+                xadj[i]++;
+            }
         }
     }
 
-    for (int i = 1; i < A_N + 1; i++)
-    {
-        if (check == 1)
-            xadj[i] = xadj[i - 1] + A_nnz[i - 1] - 1;
-        else
-            xadj[i] = xadj[i - 1] + A_nnz[i - 1];
-    }
-
 #pragma omp parallel for                                \
   private(j)                                            \
   shared(A_N, A_M, A_index, A_nnz, xadj, adjncy)
-- 
2.43.0


From e5083b75fd28e096895bf68b770faa72f37e7705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:12 +0000
Subject: [PATCH 31/76] fix: bml_adjacency_group wrote past the end of adjncy
 for 1-based indices and leaked its node list

---
 src/C-interface/ellpack/bml_submatrix_ellpack.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack.c b/src/C-interface/ellpack/bml_submatrix_ellpack.c
index d1cd2e8..3180393 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack.c
@@ -490,7 +490,7 @@ bml_adjacency_group_ellpack(
     {
 #pragma omp parallel for                        \
   shared(xadj, A_N, adjncy)
-        for (int i = 0; i <= xadj[nnodes]; i++)
+        for (int i = 0; i < xadj[nnodes]; i++)
         {
             adjncy[i] += 1;
         }
@@ -502,6 +502,7 @@ bml_adjacency_group_ellpack(
         }
     }
 
+    free(hnode);
 }
 
 /** Extract submatrix into new matrix of same format
-- 
2.43.0


From 49266a7f687d1f4c40d2d4d8e73e05115ac95183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:39 +0000
Subject: [PATCH 32/76] fix: bml_reorder of a dense matrix permuted only the
 columns

---
 src/C-interface/dense/bml_copy_dense_typed.c | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/C-interface/dense/bml_copy_dense_typed.c b/src/C-interface/dense/bml_copy_dense_typed.c
index 8130f79..59148a4 100644
--- a/src/C-interface/dense/bml_copy_dense_typed.c
+++ b/src/C-interface/dense/bml_copy_dense_typed.c
@@ -125,22 +125,14 @@ void TYPED_FUNC(
 // pull from GPU
 #pragma omp target update from(A_matrix[0:N*N])
 #endif
-    // Reorder rows - need to copy
-#pragma omp parallel for
-    for (int i = 0; i < N; i++)
-    {
-        memcpy(&A_matrix[ROWMAJOR(perm[i], 0, N, N)],
-               &B_matrix[ROWMAJOR(i, 0, N, N)], N * sizeof(REAL_T));
-    }
-
-    // Reorder elements in each row - just change index
+    // Reorder rows and elements in each row
 #pragma omp parallel for
     for (int i = 0; i < N; i++)
     {
         for (int j = 0; j < N; j++)
         {
-            A_matrix[ROWMAJOR(i, j, N, N)] =
-                B_matrix[ROWMAJOR(i, perm[j], N, N)];
+            A_matrix[ROWMAJOR(perm[i], perm[j], N, N)] =
+                B_matrix[ROWMAJOR(i, j, N, N)];
         }
     }
 #ifdef MKL_GPU
-- 
2.43.0


From 994f36c88a954571a0c0112248520c30fa4fbc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:06 +0000
Subject: [PATCH 33/76] fix: bml_reorder of an ellblock matrix copied blocks to
 unallocated or too small storage

---
 .../ellblock/bml_copy_ellblock_typed.c        | 58 +++++++++++--------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/src/C-interface/ellblock/bml_copy_ellblock_typed.c b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
index a5653f1..52a3a6d 100644
--- a/src/C-interface/ellblock/bml_copy_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
@@ -125,7 +125,7 @@ void TYPED_FUNC(
  *  \ingroup copy_group
  *
  *  \param A The matrix to be reordered
- *  \param B The permutation vector
+ *  \param perm The permutation vector (of the blocks)
  */
 void TYPED_FUNC(
     bml_reorder_ellblock) (
@@ -140,36 +140,46 @@ void TYPED_FUNC(
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
     int *A_bsize = A->bsize;
 
-    bml_matrix_ellblock_t *B = bml_copy_new(A);
-    int *B_indexb = B->indexb;
-    int *B_nnzb = B->nnzb;
-    REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
-    int *B_bsize = B->bsize;
-
-    for (int i = 0; i < NB; i++)
-    {
-        A_bsize[i] = B_bsize[perm[i]];
-    }
-
-    // Reorder rows - need to copy
+    // the arrays before reordering
+    int *B_indexb = bml_noinit_allocate_memory(NB * MB * sizeof(int));
+    int *B_nnzb = bml_noinit_allocate_memory(NB * sizeof(int));
+    int *B_bsize = bml_noinit_allocate_memory(NB * sizeof(int));
+    REAL_T **B_ptr_value =
+        bml_noinit_allocate_memory(NB * MB * sizeof(REAL_T *));
+    memcpy(B_indexb, A_indexb, NB * MB * sizeof(int));
+    memcpy(B_nnzb, A_nnzb, NB * sizeof(int));
+    memcpy(B_bsize, A_bsize, NB * sizeof(int));
+    memcpy(B_ptr_value, A_ptr_value, NB * MB * sizeof(REAL_T *));
+#ifdef BML_ELLBLOCK_USE_MEMPOOL
+    int *B_offsets = bml_noinit_allocate_memory(NB * sizeof(int));
+    void **B_pool_ptr = bml_noinit_allocate_memory(NB * sizeof(void *));
+    memcpy(B_offsets, A->memory_pool_offsets, NB * sizeof(int));
+    memcpy(B_pool_ptr, A->memory_pool_ptr, NB * sizeof(void *));
+#endif
+
+    // Reorder rows - the blocks stay where they are
     for (int ib = 0; ib < NB; ib++)
     {
         memcpy(&A_indexb[ROWMAJOR(perm[ib], 0, NB, MB)],
                &B_indexb[ROWMAJOR(ib, 0, NB, MB)], MB * sizeof(int));
-        int count = 0;
-        for (int jp = 0; jp < MB; jp++)
-        {
-            int ind = ROWMAJOR(ib, jp, NB, MB);
-            int jb = B_indexb[ind];
-            count += B_bsize[jb];
-        }
-        memcpy(A_ptr_value[ROWMAJOR(perm[ib], 0, NB, MB)],
-               B_ptr_value[ROWMAJOR(ib, 0, NB, MB)],
-               B_bsize[ib] * count * sizeof(REAL_T));
+        memcpy(&A_ptr_value[ROWMAJOR(perm[ib], 0, NB, MB)],
+               &B_ptr_value[ROWMAJOR(ib, 0, NB, MB)], MB * sizeof(REAL_T *));
         A_nnzb[perm[ib]] = B_nnzb[ib];
+        A_bsize[perm[ib]] = B_bsize[ib];
+#ifdef BML_ELLBLOCK_USE_MEMPOOL
+        A->memory_pool_offsets[perm[ib]] = B_offsets[ib];
+        A->memory_pool_ptr[perm[ib]] = B_pool_ptr[ib];
+#endif
     }
 
-    bml_deallocate_ellblock(B);
+    bml_free_memory(B_indexb);
+    bml_free_memory(B_nnzb);
+    bml_free_memory(B_bsize);
+    bml_free_memory(B_ptr_value);
+#ifdef BML_ELLBLOCK_USE_MEMPOOL
+    bml_free_memory(B_offsets);
+    bml_free_memory(B_pool_ptr);
+#endif
 
     // Reorder elements in each row - just change index
     for (int ib = 0; ib < NB; ib++)
-- 
2.43.0


From fbebede938418e239b2a95c35cdbf25eab717279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:23 +0000
Subject: [PATCH 34/76] fix: bml_extract_submatrix of an ellblock matrix
 returned a matrix of the full size with the wrong blocks

---
 .../ellblock/bml_submatrix_ellblock_typed.c   | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c b/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c
index 9b3fe7e..af1b442 100644
--- a/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_submatrix_ellblock_typed.c
@@ -34,16 +34,6 @@ bml_matrix_ellblock_t
     int *A_nnzb = A->nnzb;
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
 
-    bml_matrix_ellblock_t *B;
-    B = TYPED_FUNC(bml_zero_matrix_ellblock) (B_N, B_M, A->distribution_mode);
-
-    int *B_indexb = B->indexb;
-    int *B_nnzb = B->nnzb;
-    REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
-
-    int B_NB = B->NB;
-    int B_MB = B->MB;
-
     int *bsize = A->bsize;
     int count = 0;
     int irowb = 0;
@@ -68,9 +58,24 @@ bml_matrix_ellblock_t
     int nb = 0;
     while (count < B_N)
     {
-        count += bsize[nb];
+        assert(bsize[irowb + nb] == bsize[icolb + nb]);
+        count += bsize[irowb + nb];
         nb++;
     }
+    assert(count == B_N);
+
+    // B is made of the extracted blocks
+    bml_matrix_ellblock_t *B =
+        TYPED_FUNC(bml_block_matrix_ellblock) (nb, MIN(nb, A_MB), B_M,
+                                               bsize + irowb,
+                                               A->distribution_mode);
+
+    int *B_indexb = B->indexb;
+    int *B_nnzb = B->nnzb;
+    REAL_T **B_ptr_value = (REAL_T **) B->ptr_value;
+
+    int B_NB = B->NB;
+    int B_MB = B->MB;
 
     // loop over subset of block rows of A
     for (int ib = irowb; ib < irowb + nb; ib++)
@@ -155,7 +160,9 @@ void TYPED_FUNC(
         for (int jp = 0; jp < B_nnzb[ib]; jp++)
         {
             int jb = B_indexb[ROWMAJOR(ib, jp, B_NB, B_MB)];
-            int nelements = bsize[ib] * bsize[jb];
+            assert(B->bsize[ib] == bsize[ib + irowb]);
+            assert(B->bsize[jb] == bsize[jb + icolb]);
+            int nelements = B->bsize[ib] * B->bsize[jb];
             int indA = ROWMAJOR(ib + irowb, A_nnzb[ib + irowb], A_NB, A_MB);
             int indB = ROWMAJOR(ib, jp, B_NB, B_MB);
             A_ptr_value[indA] =
-- 
2.43.0


From e8d57328d93cb04dfdfc3697ee3717663245d260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:23 +0000
Subject: [PATCH 35/76] fix: bml_extract_submatrix of a csr matrix leaked two
 arrays per row

---
 src/C-interface/csr/bml_submatrix_csr_typed.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C-interface/csr/bml_submatrix_csr_typed.c b/src/C-interface/csr/bml_submatrix_csr_typed.c
index 23f994c..a5bf02c 100644
--- a/src/C-interface/csr/bml_submatrix_csr_typed.c
+++ b/src/C-interface/csr/bml_submatrix_csr_typed.c
@@ -56,6 +56,8 @@ bml_matrix_csr_t
 
         TYPED_FUNC(bml_set_sparse_row_csr) (B, i - irow, count, newcols,
                                             newvals, 0.);
+        bml_free_memory(newcols);
+        bml_free_memory(newvals);
     }
 
     return B;
-- 
2.43.0


From e448efeb5d39b2614322bfa8034107573c57fc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:35 +0000
Subject: [PATCH 36/76] fix: extracting, assigning or scattering ellpack
 submatrices wrote beyond the row capacity

---
 .../ellpack/bml_submatrix_ellpack_typed.c      | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
index c1a84c0..9be02ad 100644
--- a/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_submatrix_ellpack_typed.c
@@ -352,17 +352,17 @@ void TYPED_FUNC(
         {
             if (ABS(A_matrix[ROWMAJOR(ja, jb, A_N, A_N)]) > threshold)
             {
+                if (icol >= B_M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row >= M, Increase M\n");
+                }
                 B_index[ROWMAJOR(ii, icol, B_N, B_M)] = core_halo_index[jb];
                 B_value[ROWMAJOR(ii, icol, B_N, B_M)] =
                     A_matrix[ROWMAJOR(ja, jb, A_N, A_N)];
                 icol++;
             }
         }
-        if (icol > B_M)
-        {
-            LOG_ERROR("Number of non-zeroes per row >= M, Increase M\n");
-        }
-
         B_nnz[ii] = icol;
     }
 #ifdef BML_USE_MAGMA
@@ -588,6 +588,10 @@ bml_matrix_ellpack_t
             if (j >= icol && j < icol + B_N)
             {
                 int iB = i - irow;
+                if (B_nnz[iB] >= B_M)
+                {
+                    LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+                }
                 B_index[ROWMAJOR(i - irow, B_nnz[iB], B_N, B_M)] = j - icol;
                 B_value[ROWMAJOR(i - irow, B_nnz[iB], B_N, B_M)] =
                     A_value[ROWMAJOR(i, jp, A_N, A_M)];
@@ -632,6 +636,10 @@ void TYPED_FUNC(
         {
             int jB = B_index[ROWMAJOR(i, jp, B_N, B_M)];
             int jpA = A_nnz[i + irow];
+            if (jpA >= A_M)
+            {
+                LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+            }
             A_value[ROWMAJOR(i + irow, jpA, A_N, A_M)] =
                 B_value[ROWMAJOR(i, jp, B_N, B_M)];
             A_index[ROWMAJOR(i + irow, jpA, A_N, A_M)] = jB + icol;
-- 
2.43.0


From e2c5f21509e041b7bfaac12cc655c5564502bf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:42 +0000
Subject: [PATCH 37/76] fix: setters and import wrote past the end of a full
 ellpack or ellblock row

---
 .../ellblock/bml_import_ellblock_typed.c        |  4 ++++
 .../ellblock/bml_setters_ellblock_typed.c       |  8 ++++++++
 .../ellpack/bml_import_ellpack_typed.c          |  5 +++++
 .../ellpack/bml_setters_ellpack_typed.c         | 17 +++++++++++++++++
 4 files changed, 34 insertions(+)

diff --git a/src/C-interface/ellblock/bml_import_ellblock_typed.c b/src/C-interface/ellblock/bml_import_ellblock_typed.c
index e75e5d5..c437296 100644
--- a/src/C-interface/ellblock/bml_import_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_import_ellblock_typed.c
@@ -84,6 +84,10 @@ bml_matrix_ellblock_t
                 (A_ij, A_bsize[ib], A_bsize[jb], A_bsize[jb]);
             if (norminf > threshold)
             {
+                if (A_nnzb[ib] == MB)
+                {
+                    LOG_ERROR("Number of non-zeroes per row > MB, Increase MB\n");
+                }
                 int ind = ROWMAJOR(ib, A_nnzb[ib], NB, MB);
                 A_bml->ptr_value[ind] =
                     TYPED_FUNC(bml_allocate_block_ellblock) (A_bml, ib,
diff --git a/src/C-interface/ellblock/bml_setters_ellblock_typed.c b/src/C-interface/ellblock/bml_setters_ellblock_typed.c
index 8ba7288..00f2cb0 100644
--- a/src/C-interface/ellblock/bml_setters_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_setters_ellblock_typed.c
@@ -190,6 +190,10 @@ void TYPED_FUNC(
             }
             if (block_found == 0)
             {
+                if (A_nnzb[ib] == A->MB)
+                {
+                    LOG_ERROR("Number of non-zeroes per row > MB, Increase MB\n");
+                }
                 int ind = ROWMAJOR(ib, A_nnzb[ib], A->NB, A->MB);
                 int nelements = A_bsize[ib] * A_bsize[jb];
                 A_ptr_value[ind]
@@ -273,6 +277,10 @@ void TYPED_FUNC(
                 (&diagonal[offset], A_bsize[ib], 1, 1);
             if (normdiag > threshold)
             {
+                if (A_nnzb[ib] == A->MB)
+                {
+                    LOG_ERROR("Number of non-zeroes per row > MB, Increase MB\n");
+                }
                 int ind = ROWMAJOR(ib, A_nnzb[ib], A->NB, A->MB);
                 int nelemnts = A_bsize[ib] * A_bsize[ib];
                 A_ptr_value[ind] =
diff --git a/src/C-interface/ellpack/bml_import_ellpack_typed.c b/src/C-interface/ellpack/bml_import_ellpack_typed.c
index dc811d5..ca37a0b 100644
--- a/src/C-interface/ellpack/bml_import_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_import_ellpack_typed.c
@@ -62,6 +62,11 @@ bml_matrix_ellpack_t
             }
             if (is_above_threshold(A_ij, threshold))
             {
+                if (A_nnz[i] >= M)
+                {
+                    LOG_ERROR
+                        ("Number of non-zeroes per row > M, Increase M\n");
+                }
                 A_value[ROWMAJOR(i, A_nnz[i], N, M)] = A_ij;
                 A_index[ROWMAJOR(i, A_nnz[i], N, M)] = j;
                 A_nnz[i]++;
diff --git a/src/C-interface/ellpack/bml_setters_ellpack_typed.c b/src/C-interface/ellpack/bml_setters_ellpack_typed.c
index 15ee173..5410236 100644
--- a/src/C-interface/ellpack/bml_setters_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_setters_ellpack_typed.c
@@ -1,6 +1,7 @@
 #include "../../macros.h"
 #include "../../typed.h"
 #include "../bml_introspection.h"
+#include "../bml_logger.h"
 #include "../bml_types.h"
 #include "bml_setters_ellpack.h"
 #include "bml_types_ellpack.h"
@@ -40,6 +41,10 @@ void TYPED_FUNC(
 #ifdef USE_OMP_OFFLOAD
 #pragma omp target update from(A_nnz[:A_N], A_index[:A_N*A_M], A_value[:A_N*A_M])
 #endif
+    if (A_nnz[i] >= A_M)
+    {
+        LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+    }
     A_value[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = *((REAL_T *) element);
     A_index[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = j;
     A_nnz[i]++;
@@ -96,6 +101,10 @@ void TYPED_FUNC(
         }
         if (ll == 0)            //There is something in the row but in a different position
         {
+            if (A_nnz[i] >= A_M)
+            {
+                LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+            }
             A_value[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = *((REAL_T *) element);
             A_index[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = j;
             A_nnz[i]++;
@@ -149,6 +158,10 @@ void TYPED_FUNC(
             if (ABS(row[j]) > threshold)
             {
                 ll++;
+                if (ll >= A_M)
+                {
+                    LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+                }
 
                 A_value[ROWMAJOR(i, ll, A_N, A_M)] = row[j];
                 A_index[ROWMAJOR(i, ll, A_N, A_M)] = j;
@@ -211,6 +224,10 @@ void TYPED_FUNC(
         {
             if (ABS(diagonal[i]) > threshold)
             {
+                if (A_nnz[i] >= A_M)
+                {
+                    LOG_ERROR("Number of non-zeroes per row > M, Increase M\n");
+                }
                 A_index[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = i;
                 A_value[ROWMAJOR(i, A_nnz[i], A_N, A_M)] = diagonal[i];
                 A_nnz[i]++;
-- 
2.43.0


From acd2e7a9042d156538c44b4a950b71d03efc877b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:00 +0000
Subject: [PATCH 38/76] fix: in-place transposition of ellblock matrices left
 stale block pointers behind and both transpositions overran full block rows

---
 .../ellblock/bml_transpose_ellblock_typed.c   | 42 ++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/C-interface/ellblock/bml_transpose_ellblock_typed.c b/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
index e4ea7ac..4ac4b92 100644
--- a/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
@@ -1,10 +1,12 @@
 #include "../../macros.h"
 #include "../../typed.h"
 #include "../bml_allocate.h"
+#include "../bml_logger.h"
 #include "../bml_parallel.h"
 #include "../bml_transpose.h"
 #include "../bml_types.h"
 #include "bml_allocate_ellblock.h"
+#include "bml_copy_ellblock.h"
 #include "bml_transpose_ellblock.h"
 #include "bml_types_ellblock.h"
 
@@ -52,12 +54,17 @@ bml_matrix_ellblock_t
         {
             int indA = ROWMAJOR(ib, jp, NB, MB);
             int jb = A_indexb[indA];
+            if (B_nnzb[jb] == MB)
+            {
+                LOG_ERROR
+                    ("Number of non-zeroes per row > MB, Increase MB\n");
+            }
             int indB = ROWMAJOR(jb, B_nnzb[jb], NB, MB);
             //add a new block in B
             B_indexb[indB] = ib;
             int nelements = bsize[ib] * bsize[jb];
             B_ptr_value[indB] =
-                TYPED_FUNC(bml_allocate_block_ellblock) (B, ib, nelements);
+                TYPED_FUNC(bml_allocate_block_ellblock) (B, jb, nelements);
             B_nnzb[jb]++;
             //transpose block
             REAL_T *B_value = B_ptr_value[indB];
@@ -124,6 +131,37 @@ void TYPED_FUNC(
     int *A_nnzb = A->nnzb;
     int *bsize = A->bsize;
 
+    /* The algorithm below keeps the blocks of a row not yet moved next to the
+     * ones already transposed into it. Go through a copy if these do not fit
+     * together. */
+    int row_nnzb[NB];
+    memcpy(row_nnzb, A_nnzb, sizeof(int) * NB);
+    int fits = 1;
+    for (int ib = 0; ib < NB; ib++)
+    {
+        for (int jp = 0; jp < A_nnzb[ib]; jp++)
+        {
+            int jb = A_indexb[ROWMAJOR(ib, jp, NB, MB)];
+            int k = 0;
+            while (k < A_nnzb[jb] && A_indexb[ROWMAJOR(jb, k, NB, MB)] != ib)
+            {
+                k++;
+            }
+            if (k == A_nnzb[jb] && ++row_nnzb[jb] > MB)
+            {
+                fits = 0;
+            }
+        }
+    }
+    if (!fits)
+    {
+        bml_matrix_ellblock_t *A_t =
+            TYPED_FUNC(bml_transpose_new_ellblock) (A);
+        TYPED_FUNC(bml_copy_ellblock) (A_t, A);
+        bml_deallocate_ellblock(A_t);
+        return;
+    }
+
     int max_block_size = 0;
     for(int i=0; i<NB; i++)
     {
@@ -211,6 +249,7 @@ void TYPED_FUNC(
                     /* update nonzero count */
                     nz_t[jb]++;
                     A_nnzb[ib]--;
+                    A_ptr_value[ROWMAJOR(ib, iposb, NB, MB)] = NULL;
                     /* update ipos */
                     iposb--;
                 }
@@ -243,6 +282,7 @@ void TYPED_FUNC(
                 /* update nonzero count */
                 nz_t[jb]++;
                 A_nnzb[ib]--;
+                A_ptr_value[ROWMAJOR(ib, iposb, NB, MB)] = NULL;
                 /* update ipos */
                 iposb--;
             }
-- 
2.43.0


From 04cf941c609844c33a83741866b25931cff3cee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:57 +0000
Subject: [PATCH 39/76] fix: out-of-range element reads of dense and csr
 matrices, an unknown triangle and copies between precisions went undiagnosed

---
 src/C-interface/bml_copy.c                                | 4 ++++
 src/C-interface/csr/bml_getters_csr_typed.c               | 5 +++++
 src/C-interface/dense/bml_getters_dense_typed.c           | 8 ++++++++
 .../dense/bml_transpose_triangle_dense_typed.c            | 4 ++++
 4 files changed, 21 insertions(+)

diff --git a/src/C-interface/bml_copy.c b/src/C-interface/bml_copy.c
index d24ed31..6ec5ed5 100644
--- a/src/C-interface/bml_copy.c
+++ b/src/C-interface/bml_copy.c
@@ -73,6 +73,10 @@ bml_copy(
     {
         LOG_ERROR("type mismatch\n");
     }
+    if (bml_get_precision(A) != bml_get_precision(B))
+    {
+        LOG_ERROR("precision mismatch\n");
+    }
     if (bml_get_N(A) < 0)
     {
         LOG_ERROR("matrix is not initialized\n");
diff --git a/src/C-interface/csr/bml_getters_csr_typed.c b/src/C-interface/csr/bml_getters_csr_typed.c
index fbec160..6ba709b 100644
--- a/src/C-interface/csr/bml_getters_csr_typed.c
+++ b/src/C-interface/csr/bml_getters_csr_typed.c
@@ -63,6 +63,11 @@ void *TYPED_FUNC(
         LOG_ERROR("row index out of bounds\n");
         return &MINUS_ONE;
     }
+    if (j < 0 || j >= A->N_)
+    {
+        LOG_ERROR("column index out of bounds\n");
+        return &MINUS_ONE;
+    }
     return TYPED_FUNC(csr_get_row_element) (A->data_[i], j);
 }
 
diff --git a/src/C-interface/dense/bml_getters_dense_typed.c b/src/C-interface/dense/bml_getters_dense_typed.c
index fbff45b..1195063 100644
--- a/src/C-interface/dense/bml_getters_dense_typed.c
+++ b/src/C-interface/dense/bml_getters_dense_typed.c
@@ -28,6 +28,14 @@ void *TYPED_FUNC(
     {
         LOG_ERROR("A is not initialized\n");
     }
+    if (i < 0 || i >= N)
+    {
+        LOG_ERROR("row index out of bounds\n");
+    }
+    if (j < 0 || j >= N)
+    {
+        LOG_ERROR("column index out of bounds\n");
+    }
 
 #ifdef BML_USE_MAGMA
     static REAL_T value = 0.;
diff --git a/src/C-interface/dense/bml_transpose_triangle_dense_typed.c b/src/C-interface/dense/bml_transpose_triangle_dense_typed.c
index d4e61b4..ddc3544 100644
--- a/src/C-interface/dense/bml_transpose_triangle_dense_typed.c
+++ b/src/C-interface/dense/bml_transpose_triangle_dense_typed.c
@@ -1,6 +1,7 @@
 #include "../../macros.h"
 #include "../../typed.h"
 #include "../bml_allocate.h"
+#include "../bml_logger.h"
 #include "../bml_transpose_triangle.h"
 #include "../bml_types.h"
 #include "bml_allocate_dense.h"
@@ -57,5 +58,8 @@ void TYPED_FUNC(
                 }
             }
             break;
+        default:
+            LOG_ERROR("unknown triangle %c\n", triangle);
+            break;
     }
 }
-- 
2.43.0


From d6904f90fb4bfe5f8fcba2f354a22365fc0298ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:37 +0000
Subject: [PATCH 40/76] fix: saving or restoring the domain of a csr matrix,
 which has none, crashed instead of reporting an error

---
 src/C-interface/csr/bml_copy_csr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/csr/bml_copy_csr.c b/src/C-interface/csr/bml_copy_csr.c
index 478ac65..dec3420 100644
--- a/src/C-interface/csr/bml_copy_csr.c
+++ b/src/C-interface/csr/bml_copy_csr.c
@@ -125,7 +125,7 @@ void
 bml_save_domain_csr(
     bml_matrix_csr_t * A)
 {
-    bml_copy_domain(A->domain, A->domain2);
+    LOG_ERROR("bml_save_domain_csr not implemented\n");
 }
 
 /** Restore the domain for a csr matrix.
@@ -138,5 +138,5 @@ void
 bml_restore_domain_csr(
     bml_matrix_csr_t * A)
 {
-    bml_copy_domain(A->domain2, A->domain);
+    LOG_ERROR("bml_restore_domain_csr not implemented\n");
 }
-- 
2.43.0


From 825d9d7e5d67913412cdc88b1295bd5ded7aaca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:52 +0000
Subject: [PATCH 41/76] fix: bml_add on a csr matrix whose rows had to grow
 wrote to the released row and lost elements

---
 src/C-interface/csr/bml_add_csr_typed.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C-interface/csr/bml_add_csr_typed.c b/src/C-interface/csr/bml_add_csr_typed.c
index 9bbf483..f550fa6 100644
--- a/src/C-interface/csr/bml_add_csr_typed.c
+++ b/src/C-interface/csr/bml_add_csr_typed.c
@@ -77,6 +77,8 @@ void TYPED_FUNC(
                 {
                     TYPED_FUNC(csr_set_row_element_new) (A->data_[i],
                                                          bcols[pos], &val);
+                    // the row may have been reallocated
+                    avals = (REAL_T *) A->data_[i]->vals_;
                 }
             }
             //reset table
-- 
2.43.0


From 4b2dff97cc087e40802e031a9864a94acc64ee21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:46 +0000
Subject: [PATCH 42/76] fix: the typed element getters
 (bml_get_element_single_real, ...) returned an unrelated register value: they
 called functions that return a pointer as if those returned the element

---
 src/C-interface/bml_elemental.c | 62 +++------------------------------
 1 file changed, 5 insertions(+), 57 deletions(-)

diff --git a/src/C-interface/bml_elemental.c b/src/C-interface/bml_elemental.c
index a350e96..a1ff7dd 100644
--- a/src/C-interface/bml_elemental.c
+++ b/src/C-interface/bml_elemental.c
@@ -1,8 +1,5 @@
 #include "bml_elemental.h"
-#include "bml_introspection.h"
-#include "bml_logger.h"
-#include "dense/bml_elemental_dense.h"
-#include "ellpack/bml_elemental_ellpack.h"
+#include "bml_getters.h"
 
 #ifdef BML_COMPLEX
 #include <complex.h>
@@ -21,19 +18,7 @@ bml_get_element_single_real(
     int i,
     int j)
 {
-    switch (bml_get_type(A))
-    {
-        case dense:
-            return bml_get_element_dense_single_real(A, i, j);
-            break;
-        case ellpack:
-            return bml_get_element_ellpack_single_real(A, i, j);
-            break;
-        default:
-            LOG_ERROR("unknown matrix type\n");
-            break;
-    }
-    return -1;
+    return *(float *) bml_get_element(A, i, j);
 }
 
 /** Return a single matrix element.
@@ -49,19 +34,7 @@ bml_get_element_double_real(
     int i,
     int j)
 {
-    switch (bml_get_type(A))
-    {
-        case dense:
-            return bml_get_element_dense_double_real(A, i, j);
-            break;
-        case ellpack:
-            return bml_get_element_ellpack_double_real(A, i, j);
-            break;
-        default:
-            LOG_ERROR("unknown matrix type\n");
-            break;
-    }
-    return -1;
+    return *(double *) bml_get_element(A, i, j);
 }
 
 #ifdef BML_COMPLEX
@@ -78,19 +51,7 @@ bml_get_element_single_complex(
     int i,
     int j)
 {
-    switch (bml_get_type(A))
-    {
-        case dense:
-            return bml_get_element_dense_single_complex(A, i, j);
-            break;
-        case ellpack:
-            return bml_get_element_ellpack_single_complex(A, i, j);
-            break;
-        default:
-            LOG_ERROR("unknown matrix type\n");
-            break;
-    }
-    return -1;
+    return *(float complex *) bml_get_element(A, i, j);
 }
 
 /** Return a single matrix element.
@@ -106,19 +67,6 @@ bml_get_element_double_complex(
     int i,
     int j)
 {
-    switch (bml_get_type(A))
-    {
-        case dense:
-            return bml_get_element_dense_double_complex(A, i, j);
-            break;
-        case ellpack:
-            return bml_get_element_ellpack_double_complex(A, i, j);
-            break;
-
-        default:
-            LOG_ERROR("unknown matrix type\n");
-            break;
-    }
-    return -1;
+    return *(double complex *) bml_get_element(A, i, j);
 }
 #endif
-- 
2.43.0


From 56dc5e96d80e85805d2cb7ac439b7a8d9a6dcd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:18 +0000
Subject: [PATCH 43/76] fix: the Fortran queries bml_get_type,
 bml_get_deep_type, bml_get_element_precision and bml_get_distribution_mode
 stopped the program for csr, complex and graph-distributed matrices

---
 src/Fortran-interface/bml_introspection_m.F90 | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Fortran-interface/bml_introspection_m.F90 b/src/Fortran-interface/bml_introspection_m.F90
index bbd87d5..68288e7 100644
--- a/src/Fortran-interface/bml_introspection_m.F90
+++ b/src/Fortran-interface/bml_introspection_m.F90
@@ -96,8 +96,10 @@ contains
       bml_get_type = "ellpack"
     case(3)
       bml_get_type = "ellblock"
-    case(5)
+    case(4)
       bml_get_type = "csr"
+    case(5)
+      bml_get_type = "distributed2d"
     case default
       stop 'Unknown matrix type in bml_get_type'
     end select
@@ -125,7 +127,7 @@ contains
       bml_get_deep_type = "ellpack"
     case(3)
       bml_get_deep_type = "ellblock"
-    case(5)
+    case(4)
       bml_get_deep_type = "csr"
     case default
       stop 'Unknown matrix type in bml_get_deep_type'
@@ -166,9 +168,9 @@ contains
     select case(bml_precision_id)
     case(0)
       stop 'Type/precision elements not initialized'
-    case(1)
+    case(1, 3)
       bml_get_element_precision = kind(1.0)
-    case(2)
+    case(2, 4)
       bml_get_element_precision = kind(1.0d0)
     case default
       stop 'Unknown elements type/precision'
@@ -223,7 +225,7 @@ contains
       bml_get_distribution_mode = "sequential"
     case(1)
       bml_get_distribution_mode = "distributed"
-    case(3)
+    case(2)
       bml_get_distribution_mode = "graph_distributed"
     case default
       stop 'Unknown distribution type in bml_get_distribution_mode'
-- 
2.43.0


From 262e344958ca7250b7bf64cdaaa8b74944083758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:18 +0000
Subject: [PATCH 44/76] fix: bml_clear called from Fortran overwrote memory
 next to the handle instead of clearing the matrix

---
 src/Fortran-interface/bml_c_interface_m.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Fortran-interface/bml_c_interface_m.F90 b/src/Fortran-interface/bml_c_interface_m.F90
index 3be9493..81ab84a 100644
--- a/src/Fortran-interface/bml_c_interface_m.F90
+++ b/src/Fortran-interface/bml_c_interface_m.F90
@@ -214,7 +214,7 @@ module bml_c_interface_m
 
     subroutine bml_clear_C(a) bind(C, name="bml_clear")
       import :: C_PTR
-      type(C_PTR) :: a
+      type(C_PTR), value :: a
     end subroutine bml_clear_C
 
     subroutine bml_free_C(cptr) bind(C, name="bml_free_ptr")
-- 
2.43.0


From 1f881047410739c2164d84fa3e255ac4395e4125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:15 +0000
Subject: [PATCH 45/76] fix: bml_transpose_triangle called from Fortran passed
 a byte of the argument's address instead of the triangle

---
 src/Fortran-interface/bml_transpose_triangle_m.F90 | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Fortran-interface/bml_transpose_triangle_m.F90 b/src/Fortran-interface/bml_transpose_triangle_m.F90
index e4a2f6b..409cab5 100644
--- a/src/Fortran-interface/bml_transpose_triangle_m.F90
+++ b/src/Fortran-interface/bml_transpose_triangle_m.F90
@@ -19,8 +19,12 @@ contains
 
     type(bml_matrix_t), intent(inout) :: a
     character(C_CHAR), intent(in) :: triangle
+    character(C_CHAR) :: triangle_
 
-    call bml_transpose_triangle_C(a%ptr, triangle)
+    ! gfortran passes the address instead of the character when a dummy
+    ! argument is handed on by value.
+    triangle_ = triangle
+    call bml_transpose_triangle_C(a%ptr, triangle_)
 
   end subroutine bml_transpose_triangle
 
-- 
2.43.0


From 1e64fd33f2b5150db9170a88a371d69e4cbb2afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:53 +0000
Subject: [PATCH 46/76] fix: bml_diagonalize called from Fortran returned
 eigenvalues of single precision and complex matrices as raw memory and wrote
 past the array for complex ones

---
 src/Fortran-interface/bml_diagonalize_m.F90 | 24 ++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/Fortran-interface/bml_diagonalize_m.F90 b/src/Fortran-interface/bml_diagonalize_m.F90
index 7b6c4ce..cb40e57 100644
--- a/src/Fortran-interface/bml_diagonalize_m.F90
+++ b/src/Fortran-interface/bml_diagonalize_m.F90
@@ -23,7 +23,29 @@ contains
     real(C_DOUBLE), target, intent(inout) :: eigenvalues(*)
     type(bml_matrix_t), intent(inout) :: eigenvectors
 
-    call bml_diagonalize_C(a%ptr, c_loc(eigenvalues), eigenvectors%ptr)
+    real(C_FLOAT), allocatable, target :: eigenvalues_s(:)
+    complex(C_FLOAT_COMPLEX), allocatable, target :: eigenvalues_c(:)
+    complex(C_DOUBLE_COMPLEX), allocatable, target :: eigenvalues_z(:)
+    integer :: n
+
+    ! The C interface returns the eigenvalues in the precision of the matrix.
+    n = bml_get_n(a)
+    select case(bml_get_precision(a))
+    case(1)
+      allocate(eigenvalues_s(n))
+      call bml_diagonalize_C(a%ptr, c_loc(eigenvalues_s), eigenvectors%ptr)
+      eigenvalues(1:n) = eigenvalues_s
+    case(3)
+      allocate(eigenvalues_c(n))
+      call bml_diagonalize_C(a%ptr, c_loc(eigenvalues_c), eigenvectors%ptr)
+      eigenvalues(1:n) = real(eigenvalues_c, C_DOUBLE)
+    case(4)
+      allocate(eigenvalues_z(n))
+      call bml_diagonalize_C(a%ptr, c_loc(eigenvalues_z), eigenvectors%ptr)
+      eigenvalues(1:n) = real(eigenvalues_z, C_DOUBLE)
+    case default
+      call bml_diagonalize_C(a%ptr, c_loc(eigenvalues), eigenvectors%ptr)
+    end select
 
   end subroutine bml_diagonalize
 
-- 
2.43.0


From 7e48a87da4afb3cd2c0dccecd6d9a21678763edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:10 +0000
Subject: [PATCH 47/76] fix: importing an array section from Fortran took the
 wrong elements

---
 src/Fortran-interface/bml_import_m.F90 | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Fortran-interface/bml_import_m.F90 b/src/Fortran-interface/bml_import_m.F90
index 9c80ca9..2ee14e0 100644
--- a/src/Fortran-interface/bml_import_m.F90
+++ b/src/Fortran-interface/bml_import_m.F90
@@ -32,7 +32,7 @@ contains
        & m, distrib_mode)
 
     character(len=*), intent(in) :: matrix_type
-    real(C_FLOAT), target, intent(in) :: a_dense(:, :)
+    real(C_FLOAT), target, contiguous, intent(in) :: a_dense(:, :)
     type(bml_matrix_t), intent(inout) :: a
     real(C_DOUBLE), optional, intent(in) :: threshold
     integer, optional, intent(in) :: m
@@ -93,7 +93,7 @@ contains
        & m, distrib_mode)
 
     character(len=*), intent(in) :: matrix_type
-    real(C_DOUBLE), target, intent(in) :: a_dense(:, :)
+    real(C_DOUBLE), target, contiguous, intent(in) :: a_dense(:, :)
     type(bml_matrix_t), intent(inout) :: a
     real(C_DOUBLE), optional, intent(in) :: threshold
     integer, optional, intent(in) :: m
@@ -153,7 +153,7 @@ contains
   subroutine bml_import_from_dense_single_complex(matrix_type, a_dense, a, threshold, m, distrib_mode)
 
     character(len=*), intent(in) :: matrix_type
-    complex(C_FLOAT_COMPLEX), target, intent(in) :: a_dense(:, :)
+    complex(C_FLOAT_COMPLEX), target, contiguous, intent(in) :: a_dense(:, :)
     type(bml_matrix_t), intent(inout) :: a
     real(C_DOUBLE), optional, intent(in) :: threshold
     integer, optional, intent(in) :: m
@@ -213,7 +213,7 @@ contains
   subroutine bml_import_from_dense_double_complex(matrix_type, a_dense, a, threshold, m, distrib_mode)
 
     character(len=*), intent(in) :: matrix_type
-    complex(C_DOUBLE_COMPLEX), target, intent(in) :: a_dense(:, :)
+    complex(C_DOUBLE_COMPLEX), target, contiguous, intent(in) :: a_dense(:, :)
     type(bml_matrix_t), intent(inout) :: a
     real(C_DOUBLE), optional, intent(in) :: threshold
     integer, optional, intent(in) :: m
-- 
2.43.0


From ed885f16a08efbd40507db8deab993aeaaac6714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:10 +0000
Subject: [PATCH 48/76] fix: printing an array section from Fortran printed the
 wrong elements

---
 src/Fortran-interface/bml_utilities_typed_m.F90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Fortran-interface/bml_utilities_typed_m.F90 b/src/Fortran-interface/bml_utilities_typed_m.F90
index d62ac3b..0d4d99d 100644
--- a/src/Fortran-interface/bml_utilities_typed_m.F90
+++ b/src/Fortran-interface/bml_utilities_typed_m.F90
@@ -29,7 +29,7 @@ contains
   subroutine bml_print_dense_matrix_MATRIX_TYPE(tag, a, i_l, i_u, j_l, j_u)
 
     character(len=*), intent(in) :: tag
-    REAL_TYPE, target, intent(in) :: a(:, :)
+    REAL_TYPE, target, contiguous, intent(in) :: a(:, :)
     integer(C_INT), intent(in) :: i_l
     integer(C_INT), intent(in) :: i_u
     integer(C_INT), intent(in) :: j_l
-- 
2.43.0


From ebd06ed08f838d3e854b719c564076c9360412e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:42 +0000
Subject: [PATCH 49/76] fix: an unknown element kind or type from Fortran went
 on with an undefined precision

---
 src/Fortran-interface/bml_interface_m.F90 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Fortran-interface/bml_interface_m.F90 b/src/Fortran-interface/bml_interface_m.F90
index b0fb9e0..28abf52 100644
--- a/src/Fortran-interface/bml_interface_m.F90
+++ b/src/Fortran-interface/bml_interface_m.F90
@@ -137,6 +137,7 @@ contains
         id = bml_matrix_precision_double_real_enum_id
       case default
         print "(A,1X,I0)", "Unknown element kind:", element_kind
+        error stop
       end select
 
     case (BML_ELEMENT_COMPLEX)
@@ -147,10 +148,12 @@ contains
         id = bml_matrix_precision_double_complex_enum_id
       case default
         print "(A,1X,I0)", "Unknown element kind:", element_kind
+        error stop
       end select
 
     case default
       print "(A,1X,A)", "Unknown element type:", element_type
+      error stop
 
     end select
 
-- 
2.43.0


From 0a1ed9d84ec13e1c786b200803365abb5c9e7535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:01 +0000
Subject: [PATCH 50/76] fix: gathering a matrix over MPI ranks used MPI_DOUBLE
 for every element type

---
 src/C-interface/dense/bml_parallel_dense_typed.c     | 2 +-
 src/C-interface/ellpack/bml_parallel_ellpack_typed.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/dense/bml_parallel_dense_typed.c b/src/C-interface/dense/bml_parallel_dense_typed.c
index 384da6e..78798c2 100644
--- a/src/C-interface/dense/bml_parallel_dense_typed.c
+++ b/src/C-interface/dense/bml_parallel_dense_typed.c
@@ -41,7 +41,7 @@ void TYPED_FUNC(
 
     MPI_Allgatherv(MPI_IN_PLACE, 0, MPI_DATATYPE_NULL,
                    A_matrix, A_domain->localElements,
-                   A_domain->localDispl, REAL_MPI_TYPE, ccomm);
+                   A_domain->localDispl, MPI_T, ccomm);
 #endif
 }
 
diff --git a/src/C-interface/ellpack/bml_parallel_ellpack_typed.c b/src/C-interface/ellpack/bml_parallel_ellpack_typed.c
index ac3d38c..a8e9bc7 100644
--- a/src/C-interface/ellpack/bml_parallel_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_parallel_ellpack_typed.c
@@ -67,7 +67,7 @@ void TYPED_FUNC(
     // Values
     MPI_Allgatherv(MPI_IN_PLACE, 0, MPI_DATATYPE_NULL,
                    A_value, A_domain->localElements, A_domain->localDispl,
-                   REAL_MPI_TYPE, ccomm);
+                   MPI_T, ccomm);
 
 /*
     for (int i = 0; i < nRanks; i++)
-- 
2.43.0


From e978b08ecfc9e53862c3cbee3d24a524cb60a6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:21 +0000
Subject: [PATCH 51/76] fix: adding dense matrices over a row domain took the
 offset of the first row in bytes

---
 src/C-interface/dense/bml_add_dense_typed.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/C-interface/dense/bml_add_dense_typed.c b/src/C-interface/dense/bml_add_dense_typed.c
index ec1c2e7..7e6a18c 100644
--- a/src/C-interface/dense/bml_add_dense_typed.c
+++ b/src/C-interface/dense/bml_add_dense_typed.c
@@ -134,9 +134,12 @@ void TYPED_FUNC(
 #ifdef NOBLAS
     LOG_ERROR("No BLAS library");
 #else
-    C_BLAS(SCAL) (&nElems, &alpha_, A->matrix + startIndex, &inc);
-    C_BLAS(AXPY) (&nElems, &beta_, B->matrix + startIndex, &inc,
-                  A->matrix + startIndex, &inc);
+    REAL_T *A_matrix = (REAL_T *) A->matrix;
+    REAL_T *B_matrix = (REAL_T *) B->matrix;
+
+    C_BLAS(SCAL) (&nElems, &alpha_, A_matrix + startIndex, &inc);
+    C_BLAS(AXPY) (&nElems, &beta_, B_matrix + startIndex, &inc,
+                  A_matrix + startIndex, &inc);
 #endif
 #endif
 }
-- 
2.43.0


From 181006aa54099bd892f54c0be9ffca9af907555f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:30 +0000
Subject: [PATCH 52/76] fix: broadcasting a csr matrix without entries failed
 an assertion

---
 src/C-interface/csr/bml_parallel_csr_typed.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/C-interface/csr/bml_parallel_csr_typed.c b/src/C-interface/csr/bml_parallel_csr_typed.c
index dfbabf8..588fe7c 100644
--- a/src/C-interface/csr/bml_parallel_csr_typed.c
+++ b/src/C-interface/csr/bml_parallel_csr_typed.c
@@ -206,7 +206,6 @@ void TYPED_FUNC(
             totnnz += A->data_[i]->NNZ_;
         }
     MPI_Bcast(&totnnz, 1, MPI_INT, root, comm);
-    assert(totnnz > 0);
 
     // bcast cols
     int *cols = bml_allocate_memory(sizeof(int) * totnnz);
-- 
2.43.0


From bec8a1a8673493f72a37a24a597a378268b31650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:50 +0000
Subject: [PATCH 53/76] fix: broadcasting took the rank in the library's
 communicator for the rank in the given one

---
 src/C-interface/csr/bml_parallel_csr_typed.c          | 11 +++++++----
 .../ellblock/bml_parallel_ellblock_typed.c            |  9 ++++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/C-interface/csr/bml_parallel_csr_typed.c b/src/C-interface/csr/bml_parallel_csr_typed.c
index 588fe7c..3d7bfb6 100644
--- a/src/C-interface/csr/bml_parallel_csr_typed.c
+++ b/src/C-interface/csr/bml_parallel_csr_typed.c
@@ -199,8 +199,11 @@ void TYPED_FUNC(
 {
     assert(A->N_ > 0);
 
+    int myrank;
+    MPI_Comm_rank(comm, &myrank);
+
     int totnnz = 0;
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         for (int i = 0; i < A->N_; i++)
         {
             totnnz += A->data_[i]->NNZ_;
@@ -210,7 +213,7 @@ void TYPED_FUNC(
     // bcast cols
     int *cols = bml_allocate_memory(sizeof(int) * totnnz);
     int *pcols = cols;
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         for (int i = 0; i < A->N_; i++)
         {
             csr_sparse_row_t *row = A->data_[i];
@@ -221,7 +224,7 @@ void TYPED_FUNC(
 
     // bcast nnz
     int *nnz = bml_allocate_memory(sizeof(int) * A->N_);
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         for (int i = 0; i < A->N_; i++)
         {
             csr_sparse_row_t *row = A->data_[i];
@@ -232,7 +235,7 @@ void TYPED_FUNC(
     // bcast matrix elements
     REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * totnnz);
     REAL_T *pvalues = values;
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         for (int i = 0; i < A->N_; i++)
         {
             csr_sparse_row_t *row = A->data_[i];
diff --git a/src/C-interface/ellblock/bml_parallel_ellblock_typed.c b/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
index 296a6d5..5547b1f 100644
--- a/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
@@ -164,12 +164,15 @@ void TYPED_FUNC(
     assert(A->NB > 0);
     assert(A->MB > 0);
 
+    int myrank;
+    MPI_Comm_rank(comm, &myrank);
+
     int *indexb = bml_allocate_memory(sizeof(int) * A->NB * A->MB);
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         memcpy(indexb, A->indexb, A->NB * A->MB * sizeof(int));
 
     int *nnzb = bml_allocate_memory(sizeof(int) * A->NB);
-    if (bml_getMyRank() == root)
+    if (myrank == root)
         memcpy(nnzb, A->nnzb, sizeof(int) * A->NB);
 
     MPI_Bcast(nnzb, A->NB, MPI_INT, root, comm);
@@ -178,7 +181,7 @@ void TYPED_FUNC(
     // bcast matrix elements
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
     REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * A->N * A->M);
-    if (bml_getMyRank() == root)
+    if (myrank == root)
     {
         REAL_T *pvalues = values;
         for (int ib = 0; ib < A->NB; ib++)
-- 
2.43.0


From 579a421f4eea578632e0c7f7a9a0295d596a4bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:27 +0000
Subject: [PATCH 54/76] fix: receiving an ellblock matrix kept the blocks the
 receiver had before

---
 src/C-interface/ellblock/bml_parallel_ellblock_typed.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/C-interface/ellblock/bml_parallel_ellblock_typed.c b/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
index 5547b1f..e977ecb 100644
--- a/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
@@ -74,6 +74,9 @@ void TYPED_FUNC(
     REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * A->N * A->M);
     MPI_Recv(values, A->N * A->M, MPI_T, src, 111, comm, &status);
 
+    // discard previous content
+    bml_clear_ellblock(A);
+
     // copy data into bml matrix
     memcpy(A->nnzb, nnzb, sizeof(int) * A->NB);
     memcpy(A->indexb, indexb, A->NB * A->MB * sizeof(int));
@@ -105,6 +108,8 @@ void TYPED_FUNC(
     const int src,
     MPI_Comm comm)
 {
+    // discard previous content
+    bml_clear_ellblock(A);
 
     MPI_Irecv(A->indexb, A->NB * A->MB, MPI_INT, src, 112, comm, A->req);
 
-- 
2.43.0


From 7fe24e640170fba942e40859146633f252001e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:51 +0000
Subject: [PATCH 55/76] fix: ellblock messages overran buffers of N*M elements

---
 .../ellblock/bml_parallel_ellblock_typed.c    | 33 +++++++++++++------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/C-interface/ellblock/bml_parallel_ellblock_typed.c b/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
index e977ecb..d7f39fc 100644
--- a/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_parallel_ellblock_typed.c
@@ -36,7 +36,8 @@ void TYPED_FUNC(
 
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
 
-    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * A->N * A->M);
+    int count = count_nelements(A);
+    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * count);
     REAL_T *pvalues = values;
     for (int ib = 0; ib < A->NB; ib++)
     {
@@ -49,7 +50,7 @@ void TYPED_FUNC(
             pvalues += nelements;
         }
     }
-    MPI_Send(values, A->N * A->M, MPI_T, dst, 111, comm);
+    MPI_Send(values, count, MPI_T, dst, 111, comm);
 
     bml_free_memory(nnzb);
     bml_free_memory(indexb);
@@ -71,16 +72,18 @@ void TYPED_FUNC(
     int *nnzb = bml_allocate_memory(sizeof(int) * A->NB);
     MPI_Recv(nnzb, A->NB, MPI_INT, src, 113, comm, &status);
 
-    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * A->N * A->M);
-    MPI_Recv(values, A->N * A->M, MPI_T, src, 111, comm, &status);
-
     // discard previous content
     bml_clear_ellblock(A);
 
-    // copy data into bml matrix
+    // copy block structure into bml matrix
     memcpy(A->nnzb, nnzb, sizeof(int) * A->NB);
     memcpy(A->indexb, indexb, A->NB * A->MB * sizeof(int));
 
+    int count = count_nelements(A);
+    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * count);
+    MPI_Recv(values, count, MPI_T, src, 111, comm, &status);
+
+    // copy data into bml matrix
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
 
     REAL_T *pvalues = values;
@@ -115,8 +118,13 @@ void TYPED_FUNC(
 
     MPI_Irecv(A->nnzb, A->NB, MPI_INT, src, 113, comm, A->req + 1);
 
-    A->buffer = bml_allocate_memory(sizeof(REAL_T) * A->N * A->M);
-    MPI_Irecv(A->buffer, A->N * A->M, MPI_T, src, 111, comm, A->req + 2);
+    // the number of elements is not known yet: at most MB blocks per row
+    int maxbsize = 0;
+    for (int ib = 0; ib < A->NB; ib++)
+        maxbsize = MAX(maxbsize, A->bsize[ib]);
+    int count = A->N * MIN(A->N, A->MB * maxbsize);
+    A->buffer = bml_allocate_memory(sizeof(REAL_T) * count);
+    MPI_Irecv(A->buffer, count, MPI_T, src, 111, comm, A->req + 2);
 }
 
 void TYPED_FUNC(
@@ -184,8 +192,13 @@ void TYPED_FUNC(
     MPI_Bcast(indexb, A->NB * A->MB, MPI_INT, root, comm);
 
     // bcast matrix elements
+    int count = 0;
+    for (int ib = 0; ib < A->NB; ib++)
+        for (int jp = 0; jp < nnzb[ib]; jp++)
+            count += A->bsize[ib]
+                * A->bsize[indexb[ROWMAJOR(ib, jp, A->NB, A->MB)]];
     REAL_T **A_ptr_value = (REAL_T **) A->ptr_value;
-    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * A->N * A->M);
+    REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * count);
     if (myrank == root)
     {
         REAL_T *pvalues = values;
@@ -201,7 +214,7 @@ void TYPED_FUNC(
             }
         }
     }
-    MPI_Bcast(values, A->N * A->M, MPI_T, root, comm);
+    MPI_Bcast(values, count, MPI_T, root, comm);
 
     bml_clear_ellblock(A);
 
-- 
2.43.0


From 1fdc5aa548c86c5e0f2a6257dcea7a836eee856d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 56/76] fix: receiving a csr matrix overran rows allocated for
 fewer entries

---
 src/C-interface/csr/bml_parallel_csr_typed.c | 21 ++++++++------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/C-interface/csr/bml_parallel_csr_typed.c b/src/C-interface/csr/bml_parallel_csr_typed.c
index 3d7bfb6..dc60bf6 100644
--- a/src/C-interface/csr/bml_parallel_csr_typed.c
+++ b/src/C-interface/csr/bml_parallel_csr_typed.c
@@ -90,37 +90,32 @@ void TYPED_FUNC(
     int totnnz = 0;
     for (int i = 0; i < A->N_; i++)
     {
-        A->data_[i]->NNZ_ = nnz[i];
         totnnz += nnz[i];
     }
-    bml_free_memory(nnz);
 
     // recv columns indexes
     int *cols = bml_allocate_memory(sizeof(int) * totnnz);
     mpiret = MPI_Recv(cols, totnnz, MPI_INT, src, 112, comm, &status);
     if (mpiret != MPI_SUCCESS)
         LOG_ERROR("MPI_Recv failed for cols");
-    int *pcols = cols;
-    for (int i = 0; i < A->N_; i++)
-    {
-        csr_sparse_row_t *row = A->data_[i];
-        memcpy(row->cols_, pcols, row->NNZ_ * sizeof(int));
-        pcols += row->NNZ_;
-    }
-    bml_free_memory(cols);
 
     // recv matrix elements
     REAL_T *values = bml_allocate_memory(sizeof(REAL_T) * totnnz);
     mpiret = MPI_Recv(values, totnnz, MPI_T, src, 113, comm, &status);
     if (mpiret != MPI_SUCCESS)
         LOG_ERROR("MPI_Recv failed for values");
+
+    // move data into matrix, whose rows may have to grow
     REAL_T *pvalues = values;
+    int *pcols = cols;
     for (int i = 0; i < A->N_; i++)
     {
-        csr_sparse_row_t *row = A->data_[i];
-        memcpy(row->vals_, pvalues, row->NNZ_ * sizeof(REAL_T));
-        pvalues += row->NNZ_;
+        TYPED_FUNC(bml_set_sparse_row_csr) (A, i, nnz[i], pcols, pvalues, 0.);
+        pvalues += nnz[i];
+        pcols += nnz[i];
     }
+    bml_free_memory(nnz);
+    bml_free_memory(cols);
     bml_free_memory(values);
 }
 
-- 
2.43.0


From b1a22663b807108be2895c278b037509bff7bd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:05 +0000
Subject: [PATCH 57/76] fix: a distributed matrix imported from dense had no
 precision

---
 src/C-interface/distributed2d/bml_import_distributed2d_typed.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C-interface/distributed2d/bml_import_distributed2d_typed.c b/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
index 4edbdd2..b36f691 100644
--- a/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
@@ -42,6 +42,7 @@ bml_matrix_distributed2d_t *TYPED_FUNC(
     bml_setup_distributed2d(N, A_bml);
     assert(A_bml->comm != MPI_COMM_NULL);
     A_bml->M = M;
+    A_bml->matrix_precision = MATRIX_PRECISION;
 
     // local submatrix dimensions
     int n = A_bml->n;
-- 
2.43.0


From 63e76b73b478f1a2ed580a8b26be7b4d391f36c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:38 +0000
Subject: [PATCH 58/76] fix: adding the identity to a distributed matrix added
 it to every block

---
 src/C-interface/distributed2d/bml_add_distributed2d.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/C-interface/distributed2d/bml_add_distributed2d.c b/src/C-interface/distributed2d/bml_add_distributed2d.c
index 9bb68e1..08c850b 100644
--- a/src/C-interface/distributed2d/bml_add_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_add_distributed2d.c
@@ -75,6 +75,9 @@ bml_add_identity_distributed2d(
     double beta,
     double threshold)
 {
+    // only diagonal blocks contain elements of the identity matrix
+    if (A->myprow != A->mypcol)
+        beta = 0.;
     bml_add_identity(A->matrix, beta, threshold);
 }
 
@@ -95,5 +98,8 @@ bml_scale_add_identity_distributed2d(
     double beta,
     double threshold)
 {
+    // only diagonal blocks contain elements of the identity matrix
+    if (A->myprow != A->mypcol)
+        beta = 0.;
     bml_scale_add_identity(A->matrix, alpha, beta, threshold);
 }
-- 
2.43.0


From b9e243b71a2753bbc630c2a0ae40db714d04854f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:59 +0000
Subject: [PATCH 59/76] fix: column-major import and export of a distributed
 matrix transposed the blocks' positions

---
 .../distributed2d/bml_export_distributed2d_typed.c            | 4 +++-
 .../distributed2d/bml_import_distributed2d_typed.c            | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/distributed2d/bml_export_distributed2d_typed.c b/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
index 3b6246b..6eac5aa 100644
--- a/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
@@ -67,8 +67,10 @@ void *TYPED_FUNC(
             int ip = coords[0];
             int jp = coords[1];
             MPI_Wait(&request[src - 1], &status);
+            int offset = (order == dense_row_major) ?
+                N * n * ip + n * jp : N * n * jp + n * ip;
             C_BLAS(LACPY) ("A", &n, &n, recvbuf[src - 1], &n,
-                           A_dense + n * N * ip + n * jp, &N);
+                           A_dense + offset, &N);
         }
         for (int src = 1; src < ntasks; src++)
         {
diff --git a/src/C-interface/distributed2d/bml_import_distributed2d_typed.c b/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
index b36f691..9d319b1 100644
--- a/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_import_distributed2d_typed.c
@@ -71,7 +71,9 @@ bml_matrix_distributed2d_t *TYPED_FUNC(
             // pack data into buffer
             sendbuf[dest - 1] = bml_allocate_memory(n * n * sizeof(REAL_T));
             REAL_T *array = (REAL_T *) (A);
-            C_BLAS(LACPY) ("A", &n, &n, array + N * n * ip + n * jp, &N,
+            int offset = (order == dense_row_major) ?
+                N * n * ip + n * jp : N * n * jp + n * ip;
+            C_BLAS(LACPY) ("A", &n, &n, array + offset, &N,
                            sendbuf[dest - 1], &n);
             MPI_Isend(sendbuf[dest - 1], n * n, MPI_T, dest, tag, A_bml->comm,
                       &request[dest - 1]);
-- 
2.43.0


From d9225792e8742000d542ff7f43cfebe43626454e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:07 +0000
Subject: [PATCH 60/76] fix: diagonalizing a complex distributed matrix
 conjugated its diagonal blocks

---
 .../distributed2d/bml_diagonalize_distributed2d_typed.c     | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c b/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c
index 0785fcd..a5e6240 100644
--- a/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c
@@ -207,10 +207,8 @@ void TYPED_FUNC(
                            -1, sequential);
     }
 
-    // transpose to satisfy column major ScaLapack convention
-    // (global matrix assumed symmetric, so no need for communications)
-    if (A->myprow != A->mypcol)
-        bml_transpose(amat);
+    // transpose local block to satisfy column major ScaLapack convention
+    bml_transpose(amat);
 
     REAL_T *pzmat = bml_get_data_ptr(zmat);
     assert(pzmat != NULL);
-- 
2.43.0


From b64cc0c025bc94f4fdf30859be8c61844ad95456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:37 +0000
Subject: [PATCH 61/76] fix: multiply_x2 of a distributed matrix returned no
 traces

---
 src/C-interface/bml_multiply.c                         |  2 +-
 .../distributed2d/bml_multiply_distributed2d.c         | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/bml_multiply.c b/src/C-interface/bml_multiply.c
index 463852b..7b4e638 100644
--- a/src/C-interface/bml_multiply.c
+++ b/src/C-interface/bml_multiply.c
@@ -90,7 +90,7 @@ bml_multiply_x2(
             break;
 #ifdef BML_USE_MPI
         case distributed2d:
-            bml_multiply_x2_distributed2d(X, X2, threshold);
+            return bml_multiply_x2_distributed2d(X, X2, threshold);
             break;
 #endif
         default:
diff --git a/src/C-interface/distributed2d/bml_multiply_distributed2d.c b/src/C-interface/distributed2d/bml_multiply_distributed2d.c
index b1c9ed1..56496b1 100644
--- a/src/C-interface/distributed2d/bml_multiply_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_multiply_distributed2d.c
@@ -1,7 +1,9 @@
+#include "../bml_allocate.h"
 #include "../bml_logger.h"
 #include "../bml_multiply.h"
 #include "../bml_types.h"
 #include "bml_multiply_distributed2d.h"
+#include "bml_trace_distributed2d.h"
 
 #include <stdio.h>
 #include <stdlib.h>
@@ -93,9 +95,15 @@ bml_multiply_x2_distributed2d(
 #endif
         default:
             LOG_ERROR("unknown precision\n");
+            return NULL;
             break;
     }
-    return NULL;
+
+    double *trace = bml_allocate_memory(sizeof(double) * 2);
+    trace[0] = bml_trace_distributed2d(X);
+    trace[1] = bml_trace_distributed2d(X2);
+
+    return trace;
 }
 
 /** Matrix multiply.
-- 
2.43.0


From 63d962cfe42656adb95250209a3f2beb7203e1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:22 +0000
Subject: [PATCH 62/76] fix: rows of a matrix distributed over more than 2x2
 ranks were assembled at wrong positions

---
 src/C-interface/distributed2d/bml_getters_distributed2d_typed.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c b/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
index 5de1ee6..ae21a37 100644
--- a/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
@@ -37,7 +37,7 @@ void *TYPED_FUNC(
 
     int *displs = calloc(A->ntasks, sizeof(int));
     for (int i = 0; i < A->ntasks - 1; i++)
-        displs[i + 1] += recvcounts[i];
+        displs[i + 1] = displs[i] + recvcounts[i];
 
     MPI_Allgatherv(sub_row, mycount, MPI_T, row, recvcounts, displs, MPI_T,
                    A->comm);
-- 
2.43.0


From 23fa56c254c5bdf1fd757fc16eb306e867909890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:59 +0000
Subject: [PATCH 63/76] fix: converting a distributed matrix ignored M

---
 src/C-interface/distributed2d/bml_convert_distributed2d.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/C-interface/distributed2d/bml_convert_distributed2d.c b/src/C-interface/distributed2d/bml_convert_distributed2d.c
index 8abf870..d500d43 100644
--- a/src/C-interface/distributed2d/bml_convert_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_convert_distributed2d.c
@@ -21,9 +21,8 @@ bml_convert_distributed2d(
                                                                   N,
                                                                   M);
     bml_matrix_t *matrix = bml_get_local_matrix(A);
-    int m = bml_get_M(matrix);
     B->matrix = bml_convert(matrix, matrix_type,
-                            matrix_precision, m, sequential);
+                            matrix_precision, M / B->npcols, sequential);
 
     return B;
 }
-- 
2.43.0


From 6f3b70edb8b0ed61b3e0e0939a107b12c01812a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:59 +0000
Subject: [PATCH 64/76] fix: converting a distributed matrix lost a local block

---
 src/C-interface/distributed2d/bml_convert_distributed2d.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/C-interface/distributed2d/bml_convert_distributed2d.c b/src/C-interface/distributed2d/bml_convert_distributed2d.c
index d500d43..44dc68a 100644
--- a/src/C-interface/distributed2d/bml_convert_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_convert_distributed2d.c
@@ -1,3 +1,4 @@
+#include "../bml_allocate.h"
 #include "../bml_introspection.h"
 #include "../bml_convert.h"
 #include "../bml_logger.h"
@@ -21,6 +22,8 @@ bml_convert_distributed2d(
                                                                   N,
                                                                   M);
     bml_matrix_t *matrix = bml_get_local_matrix(A);
+    // replace local zero matrix
+    bml_deallocate(&(B->matrix));
     B->matrix = bml_convert(matrix, matrix_type,
                             matrix_precision, M / B->npcols, sequential);
 
-- 
2.43.0


From 09f71ac21d81873f1002a3a696f6fa20ce3bd3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:24 +0000
Subject: [PATCH 65/76] fix: every distributed matrix left two communicators
 behind

---
 src/C-interface/distributed2d/bml_allocate_distributed2d.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C-interface/distributed2d/bml_allocate_distributed2d.c b/src/C-interface/distributed2d/bml_allocate_distributed2d.c
index ae9e2ff..d1029c6 100644
--- a/src/C-interface/distributed2d/bml_allocate_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_allocate_distributed2d.c
@@ -87,6 +87,8 @@ bml_deallocate_distributed2d(
     assert(A != NULL);
     assert(A->matrix != NULL);
     bml_deallocate(&(A->matrix));
+    MPI_Comm_free(&(A->row_comm));
+    MPI_Comm_free(&(A->col_comm));
     bml_free_memory(A);
 }
 
-- 
2.43.0


From f27001b549425fc301a4738523b5538adbb9f375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:24 +0000
Subject: [PATCH 66/76] fix: reading a row of a distributed matrix leaked its
 local piece

---
 src/C-interface/distributed2d/bml_getters_distributed2d_typed.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c b/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
index ae21a37..930bd23 100644
--- a/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_getters_distributed2d_typed.c
@@ -50,6 +50,8 @@ void *TYPED_FUNC(
     free(recvcounts);
     free(counts);
     free(displs);
+    if (sub_row != NULL)
+        bml_free_memory(sub_row);
 
     return row;
 }
-- 
2.43.0


From 163a45b02fadc08016b21260afe419dcfe8f0661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:24 +0000
Subject: [PATCH 67/76] fix: exporting a distributed matrix leaked the local
 block

---
 src/C-interface/distributed2d/bml_export_distributed2d_typed.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/C-interface/distributed2d/bml_export_distributed2d_typed.c b/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
index 6eac5aa..52b1c0f 100644
--- a/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_export_distributed2d_typed.c
@@ -79,6 +79,7 @@ void *TYPED_FUNC(
         bml_free_memory(request);
         bml_free_memory(recvbuf);
     }
+    bml_free_memory(sendbuf);
 
     return A_dense;
 }
-- 
2.43.0


From 5f9343d47428aa5bb9127f18e3613dd1f85b2eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:24 +0000
Subject: [PATCH 68/76] fix: every diagonalization of a distributed matrix left
 a BLACS grid behind

---
 .../distributed2d/bml_diagonalize_distributed2d_typed.c  | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c b/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c
index a5e6240..ec8d776 100644
--- a/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c
+++ b/src/C-interface/distributed2d/bml_diagonalize_distributed2d_typed.c
@@ -53,6 +53,10 @@ void Cblacs_gridinit(
     char[],
     int,
     int);
+void Cblacs_gridexit(
+    int);
+void Cfree_blacs_system_handle(
+    int);
 int NUMROC(
     int *,
     int *,
@@ -169,7 +173,8 @@ void TYPED_FUNC(
     int np_cols = A->npcols;
     int my_prow = A->myprow;
     int my_pcol = A->mypcol;
-    int my_blacs_ctxt = Csys2blacs_handle(A->comm);
+    int my_blacs_handle = Csys2blacs_handle(A->comm);
+    int my_blacs_ctxt = my_blacs_handle;
     Cblacs_gridinit(&my_blacs_ctxt, &order, np_rows, np_cols);
     Cblacs_gridinfo(my_blacs_ctxt, &np_rows, &np_cols, &my_prow, &my_pcol);
 
@@ -286,6 +291,8 @@ void TYPED_FUNC(
         typed_eigenvalues[i] = (REAL_T) ev[i];
 
     // clean up
+    Cblacs_gridexit(my_blacs_ctxt);
+    Cfree_blacs_system_handle(my_blacs_handle);
     free(ev);
     bml_free_memory(work);
     bml_free_memory(iwork);
-- 
2.43.0


From 10fa6f5ff14764d31ef0fbb8cb0009480423f56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:24 +0000
Subject: [PATCH 69/76] fix: reading and writing a distributed ellblock matrix
 leaked the block sizes

---
 .../distributed2d/bml_utilities_distributed2d.c           | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/C-interface/distributed2d/bml_utilities_distributed2d.c b/src/C-interface/distributed2d/bml_utilities_distributed2d.c
index 0032279..94180ea 100644
--- a/src/C-interface/distributed2d/bml_utilities_distributed2d.c
+++ b/src/C-interface/distributed2d/bml_utilities_distributed2d.c
@@ -22,7 +22,7 @@ bml_read_bml_matrix_distributed2d(
     int B_NB;
     int B_MB;
     int lnb;
-    int *bsizes;
+    int *bsizes = NULL;
     bml_matrix_t *Alocal = bml_get_local_matrix(A);
     bml_matrix_t *B;
     switch (bml_get_type(A->matrix))
@@ -63,6 +63,8 @@ bml_read_bml_matrix_distributed2d(
 
     bml_deallocate(&B);
     bml_deallocate(&C);
+    if (bsizes != NULL)
+        bml_free_memory(bsizes);
 }
 
 void
@@ -73,7 +75,7 @@ bml_write_bml_matrix_distributed2d(
     int B_NB;
     int B_MB;
     int lnb;
-    int *bsizes;
+    int *bsizes = NULL;
     bml_matrix_t *Alocal = bml_get_local_matrix(A);
 
     // task 0 collects all blocks and write matrix
@@ -127,6 +129,8 @@ bml_write_bml_matrix_distributed2d(
         // print "big" matrix containing all the distributed submatrices
         bml_write_bml_matrix(B, filename);
         bml_deallocate(&B);
+        if (bsizes != NULL)
+            bml_free_memory(bsizes);
     }
     else
     {
-- 
2.43.0


From 72b8f566124a25fb179075a19b40308d6ceb68ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:49 +0000
Subject: [PATCH 70/76] fix: ellblock products with blocks larger than six
 called through a pointer beyond the table of kernels

---
 .../ellblock/bml_multiply_ellblock_typed.c    | 38 +++++++++++++++++--
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
index a4f730c..041fb37 100644
--- a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
@@ -167,6 +167,30 @@ void TYPED_FUNC(
     }
 }
 
+void TYPED_FUNC(
+    bml_multiply_blockn) (
+    REAL_T * mat0,
+    REAL_T * mat1,
+    const int ld,
+    REAL_T * x,
+    const int bsizeib,
+    const int bsizekb)
+{
+    REAL_T *xk = x;
+    for (int ii = 0; ii < bsizeib; ii++)
+    {
+        REAL_T *a = mat0 + ld * ii;
+        REAL_T *b = mat1;
+        for (int jj = 0; jj < bsizekb; jj++)
+        {
+            for (int kk = 0; kk < ld; kk++)
+                (*xk) += a[kk] * b[kk];
+            xk++;
+            b += ld;
+        }
+    }
+}
+
 /** Matrix multiply.
  *
  * \f$ C \leftarrow \alpha A \, B + \beta C \f$
@@ -304,7 +328,10 @@ void *TYPED_FUNC(
             TYPED_FUNC(bml_multiply_block2),
             TYPED_FUNC(bml_multiply_block3),
             TYPED_FUNC(bml_multiply_block4),
-            TYPED_FUNC(bml_multiply_block5), TYPED_FUNC(bml_multiply_block6)};
+            TYPED_FUNC(bml_multiply_block5),
+            TYPED_FUNC(bml_multiply_block6),
+            TYPED_FUNC(bml_multiply_blockn)};
+    const int nfun = sizeof(fun_ptr_arr) / sizeof(fun_ptr_arr[0]);
 
 #if defined(__IBMC__) || defined(__ibmxl__)
 #pragma omp parallel for                           \
@@ -379,7 +406,7 @@ void *TYPED_FUNC(
                         T_value_right[jj * bsizejb + ii]
                             = X_value_right[offset + jj];
                 }
-                (*fun_ptr_arr[bsizejb - 1]) (X_value_left, T_value_right,
+                (*fun_ptr_arr[MIN(bsizejb, nfun) - 1]) (X_value_left, T_value_right,
                                              bsizejb, x, bsize[ib], bsizekb);
 #else
                 REAL_T alpha = (REAL_T) 1.;
@@ -517,7 +544,10 @@ void TYPED_FUNC(
             TYPED_FUNC(bml_multiply_block2),
             TYPED_FUNC(bml_multiply_block3),
             TYPED_FUNC(bml_multiply_block4),
-            TYPED_FUNC(bml_multiply_block5), TYPED_FUNC(bml_multiply_block6)};
+            TYPED_FUNC(bml_multiply_block5),
+            TYPED_FUNC(bml_multiply_block6),
+            TYPED_FUNC(bml_multiply_blockn)};
+    const int nfun = sizeof(fun_ptr_arr) / sizeof(fun_ptr_arr[0]);
 
     //loop over row blocks
 #if defined(__IBMC__) || defined(__ibmxl__)
@@ -583,7 +613,7 @@ void TYPED_FUNC(
                         T_value_right[jj * bsizejb + ii]
                             = B_value[offset + jj];
                 }
-                (*fun_ptr_arr[bsizejb - 1]) (A_value, T_value_right,
+                (*fun_ptr_arr[MIN(bsizejb, nfun) - 1]) (A_value, T_value_right,
                                              bsizejb, x, bsize[ib], bsizekb);
             }
         }
-- 
2.43.0


From ce04ebd40973d2ab4e644c36ecee2fc61a5ac9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:49 +0000
Subject: [PATCH 71/76] fix: bml_copy_new of an ellblock matrix with blocks of
 ten and more aborted

---
 src/C-interface/ellblock/bml_copy_ellblock_typed.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/C-interface/ellblock/bml_copy_ellblock_typed.c b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
index 52a3a6d..baa276e 100644
--- a/src/C-interface/ellblock/bml_copy_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_copy_ellblock_typed.c
@@ -43,7 +43,6 @@ bml_matrix_ellblock_t
     for (int ib = 0; ib < NB; ib++)
     {
         assert(B->bsize[ib] > 0);
-        assert(B->bsize[ib] < 10);
         for (int jp = 0; jp < A->nnzb[ib]; jp++)
         {
             int ind = ROWMAJOR(ib, jp, NB, MB);
-- 
2.43.0


From 878a2ba2b0a67e4ecdf0cb2bec2f0ce54bb85756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:04 +0000
Subject: [PATCH 72/76] fix: ellblock matrices of a second order in one process
 were built with the order of the first

---
 .../ellblock/bml_allocate_ellblock.c          | 101 +++++++++++++-----
 1 file changed, 74 insertions(+), 27 deletions(-)

diff --git a/src/C-interface/ellblock/bml_allocate_ellblock.c b/src/C-interface/ellblock/bml_allocate_ellblock.c
index 5389619..4e61837 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock.c
@@ -8,19 +8,59 @@
 
 #include <assert.h>
 #include <stdio.h>
+#include <stdlib.h>
+
+/*
+ * block sizes used for matrices of dimension n
+ */
+typedef struct block_sizes
+{
+    int n;
+    int nb;
+    int mb;
+    int *bsize;
+    struct block_sizes *next;
+} block_sizes_t;
 
 /*
  * variables visible only in that file
  */
-static int *s_default_bsize = NULL;
+static block_sizes_t *s_block_sizes = NULL;
 static int s_default_block_dim = 4;
+/* the ones used last */
 static int s_nb = 0;
 static int s_mb = 0;
 
+static block_sizes_t *
+find_block_sizes(
+    int n)
+{
+    for (block_sizes_t * s = s_block_sizes; s != NULL; s = s->next)
+        if (s->n == n)
+            return s;
+    return NULL;
+}
+
+static block_sizes_t *
+new_block_sizes(
+    int n,
+    int nb,
+    int mb)
+{
+    block_sizes_t *s = malloc(sizeof(block_sizes_t));
+    s->n = n;
+    s->nb = nb;
+    s->mb = mb;
+    s->bsize = malloc(nb * sizeof(int));
+    s->next = s_block_sizes;
+    s_block_sizes = s;
+    return s;
+}
+
 /*
- *  * function to set values of static variables visible in that file only
- *   * Should be called only once.
- *    */
+ * function to set the block sizes of matrices of dimension sum(bsize)
+ * Should be called only once for a dimension.
+ */
 void
 bml_set_block_sizes(
     int *bsize,
@@ -31,18 +71,22 @@ bml_set_block_sizes(
     assert(nb > 0);
     assert(mb > 0);
 
+    int n = 0;
+    for (int ib = 0; ib < nb; ib++)
+        n += bsize[ib];
+
     /*
      * make sure this function is called only once
      */
-    assert(s_nb == 0);
+    assert(find_block_sizes(n) == NULL);
 
-    s_nb = nb;
-    s_mb = mb;
-    s_default_bsize = malloc(nb * sizeof(int));
+    block_sizes_t *s = new_block_sizes(n, nb, mb);
     for (int ib = 0; ib < nb; ib++)
     {
-        s_default_bsize[ib] = bsize[ib];
+        s->bsize[ib] = bsize[ib];
     }
+    s_nb = nb;
+    s_mb = mb;
 }
 
 int *
@@ -50,34 +94,37 @@ bml_get_block_sizes(
     int N,
     int M)
 {
-    if (s_default_bsize == NULL)
+    block_sizes_t *s = find_block_sizes(N);
+    if (s == NULL)
     {
         assert(M > 0);
 
-        s_nb = N / s_default_block_dim;
-        if (s_nb * s_default_block_dim < N)
-            s_nb++;
-        printf("s_nb = %d\n", s_nb);
+        int nb = N / s_default_block_dim;
+        if (nb * s_default_block_dim < N)
+            nb++;
+        printf("s_nb = %d\n", nb);
 
-        s_mb = M / s_default_block_dim;
-        if (s_mb * s_default_block_dim < M)
-            s_mb++;
-        if (s_mb < 4)
-            s_mb = 4;
+        int mb = M / s_default_block_dim;
+        if (mb * s_default_block_dim < M)
+            mb++;
+        if (mb < 4)
+            mb = 4;
         // the number of blocks/row cannot exceed the number
         // of row blocks
-        if (s_mb > s_nb)
-            s_mb = s_nb;
-        printf("s_mb = %d\n", s_mb);
+        if (mb > nb)
+            mb = nb;
+        printf("s_mb = %d\n", mb);
 
-        s_default_bsize = bml_noinit_allocate_memory(s_nb * sizeof(int));
-        for (int ib = 0; ib < s_nb - 1; ib++)
+        s = new_block_sizes(N, nb, mb);
+        for (int ib = 0; ib < nb - 1; ib++)
         {
-            s_default_bsize[ib] = s_default_block_dim;
+            s->bsize[ib] = s_default_block_dim;
         }
-        s_default_bsize[s_nb - 1] = N - s_default_block_dim * (s_nb - 1);
+        s->bsize[nb - 1] = N - s_default_block_dim * (nb - 1);
     }
-    return s_default_bsize;
+    s_nb = s->nb;
+    s_mb = s->mb;
+    return s->bsize;
 }
 
 int
-- 
2.43.0


From b7e4d9b2826ed11706a5fb9088ba0a998f60322f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:04 +0000
Subject: [PATCH 73/76] fix: ellblock multiply_x2 indexed the result by the
 operand's number of blocks per row

---
 src/C-interface/ellblock/bml_multiply_ellblock_typed.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
index 041fb37..e6e1fa8 100644
--- a/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_multiply_ellblock_typed.c
@@ -420,7 +420,7 @@ void *TYPED_FUNC(
         }
 
         // Check for number of non-zero blocks per block row exceeded
-        if (lb > MB)
+        if (lb > X2->MB)
         {
             LOG_ERROR
                 ("Number of non-zeroes blocks per row > MB, Increase MB\n");
@@ -429,7 +429,7 @@ void *TYPED_FUNC(
         int ll = 0;
         for (int jb = 0; jb < lb; jb++)
         {
-            assert(ll < MB);
+            assert(ll < X2->MB);
             int jp = jx[jb];
             REAL_T *xtmp = x_ptr[jp];
             double normx = TYPED_FUNC(bml_norm_inf_fast)
@@ -443,8 +443,8 @@ void *TYPED_FUNC(
                 }
 
                 int nelements = bsize[ib] * bsize[jp];
-                int ind = ROWMAJOR(ib, ll, NB, MB);
-                assert(ind < NB * MB);
+                int ind = ROWMAJOR(ib, ll, NB, X2->MB);
+                assert(ind < NB * X2->MB);
                 /* Allocate memory to hold block */
                 X2_ptr_value[ind] =
                     TYPED_FUNC(bml_allocate_block_ellblock) (X2, ib, nelements);
-- 
2.43.0


From ef7eb0b98edb1d368875742b19c3cfc0a0e264e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:59 +0000
Subject: [PATCH 74/76] fix: a failed posix_memalign left bml_allocate_memory
 writing through an uninitialised pointer

---
 src/C-interface/bml_allocate.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/C-interface/bml_allocate.c b/src/C-interface/bml_allocate.c
index 7372cbc..f749c78 100644
--- a/src/C-interface/bml_allocate.c
+++ b/src/C-interface/bml_allocate.c
@@ -54,8 +54,13 @@ bml_allocate_memory(
         ptr[i] = 0;
     }
 #elif defined(BML_USE_POSIX_MEMALIGN)
-    char *ptr;
-    posix_memalign((void **) &ptr, MALLOC_ALIGNMENT, size);
+    char *ptr = NULL;
+    errno = posix_memalign((void **) &ptr, MALLOC_ALIGNMENT, size);
+    if (errno != 0)
+    {
+        LOG_ERROR("error allocating memory of size %zu: %s\n", size,
+                  strerror(errno));
+    }
 #pragma omp simd
     for (size_t i = 0; i < size; i++)
     {
@@ -67,7 +72,7 @@ bml_allocate_memory(
 
     if (ptr == NULL)
     {
-        LOG_ERROR("error allocating memory of size %d: %s\n", size,
+        LOG_ERROR("error allocating memory of size %zu: %s\n", size,
                   strerror(errno));
     }
     return (void *) ptr;
@@ -87,8 +92,12 @@ bml_noinit_allocate_memory(
 #if defined(INTEL_OPT)
     void *ptr = _mm_malloc(size, MALLOC_ALIGNMENT);
 #elif defined(BML_USE_POSIX_MEMALIGN)
-    void *ptr;
-    posix_memalign(&ptr, MALLOC_ALIGNMENT, size);
+    void *ptr = NULL;
+    errno = posix_memalign(&ptr, MALLOC_ALIGNMENT, size);
+    if (errno != 0)
+    {
+        ptr = NULL;
+    }
 #else
     void *ptr = malloc(size);
 #endif
-- 
2.43.0


From 0bf9e76943cc588945fcfd9f9953828bf1a0b6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:59 +0000
Subject: [PATCH 75/76] fix: ellblock memory pool: too little room per block
 row, slots and memory lost when blocks are freed, transpose beyond the slots

---
 .../ellblock/bml_allocate_ellblock_typed.c      | 17 +++++++++++------
 .../ellblock/bml_transpose_ellblock_typed.c     |  5 +++++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
index 551116f..0f4f398 100644
--- a/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_allocate_ellblock_typed.c
@@ -63,6 +63,7 @@ void TYPED_FUNC(
             if (jp == A->nnzb[ib] - 1)
             {
                 A->ptr_value[ind] = NULL;
+                A->indexb[ind] = -1;
                 break;
             }
             // save pointers to beginning and end of memory
@@ -82,7 +83,9 @@ void TYPED_FUNC(
                 A->indexb[ind - 1] = A->indexb[ind];
                 A->ptr_value[ind - 1] = (REAL_T *) A->ptr_value[ind] - shift;
             }
-            A->ptr_value[A->nnzb[ib] - 1] = NULL;
+            ind = ROWMAJOR(ib, A->nnzb[ib] - 1, A->NB, A->MB);
+            A->ptr_value[ind] = NULL;
+            A->indexb[ind] = -1;
             break;
         }
     }
@@ -92,6 +95,8 @@ void TYPED_FUNC(
     // move data in memory to reflect shift in pointers
     if (nelements > 0)
         memmove(dst, src, nelements * sizeof(REAL_T));
+    // give the memory back to the pool of the block row
+    A->memory_pool_ptr[ib] = ((REAL_T **) A->memory_pool_ptr)[ib] - shift;
 #else
     for (int jp = 0; jp < A->nnzb[ib]; jp++)
     {
@@ -210,15 +215,15 @@ bml_matrix_ellblock_t *TYPED_FUNC(
     memset(A->indexb, -1, sizeof(int) * NB * MB);
     A->nnzb = bml_allocate_memory(sizeof(int) * NB);
 
+#ifdef BML_ELLBLOCK_USE_MEMPOOL
     // allocate memory for matrix elements
-    // we make sure we have enough memory for at least 3 blocks/row
+    // we make sure we have enough memory for any MB blocks/row
     int maxbsize = 0;
     for (int ib = 0; ib < NB; ib++)
         maxbsize = MAX(maxbsize, bsize[ib]);
-    int ncols_storage = M;
-    if (ncols_storage < 3 * maxbsize)
-        ncols_storage = 3 * maxbsize;
-#ifdef BML_ELLBLOCK_USE_MEMPOOL
+    int ncols_storage = MB * maxbsize;
+    if (ncols_storage > N)
+        ncols_storage = N;
     A->memory_pool =
         (REAL_T *) bml_allocate_memory(sizeof(REAL_T) * N * ncols_storage);
 
diff --git a/src/C-interface/ellblock/bml_transpose_ellblock_typed.c b/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
index 4ac4b92..09348d7 100644
--- a/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_transpose_ellblock_typed.c
@@ -136,7 +136,12 @@ void TYPED_FUNC(
      * together. */
     int row_nnzb[NB];
     memcpy(row_nnzb, A_nnzb, sizeof(int) * NB);
+#ifdef BML_ELLBLOCK_USE_MEMPOOL
+    /* a block cannot leave the memory pool of its row */
+    int fits = 0;
+#else
     int fits = 1;
+#endif
     for (int ib = 0; ib < NB; ib++)
     {
         for (int jp = 0; jp < A_nnzb[ib]; jp++)
-- 
2.43.0


From 8b5566c631a99ae59d3717e1c186bf89d6ad9fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:55 +0000
Subject: [PATCH 76/76] fix: bml_get_sparsity of a matrix of order above 46340
 divided by an overflowed N*N

---
 src/C-interface/csr/bml_introspection_csr_typed.c           | 2 +-
 src/C-interface/dense/bml_introspection_dense_typed.c       | 2 +-
 src/C-interface/ellblock/bml_introspection_ellblock_typed.c | 2 +-
 src/C-interface/ellpack/bml_introspection_ellpack_typed.c   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/C-interface/csr/bml_introspection_csr_typed.c b/src/C-interface/csr/bml_introspection_csr_typed.c
index 4c2d941..14ba100 100644
--- a/src/C-interface/csr/bml_introspection_csr_typed.c
+++ b/src/C-interface/csr/bml_introspection_csr_typed.c
@@ -43,6 +43,6 @@ double TYPED_FUNC(
         }
     }
 
-    sparsity = (1.0 - (double) nnzs / ((double) (N * N)));
+    sparsity = (1.0 - (double) nnzs / ((double) N * N));
     return sparsity;
 }
diff --git a/src/C-interface/dense/bml_introspection_dense_typed.c b/src/C-interface/dense/bml_introspection_dense_typed.c
index 6cc16aa..39c44b2 100644
--- a/src/C-interface/dense/bml_introspection_dense_typed.c
+++ b/src/C-interface/dense/bml_introspection_dense_typed.c
@@ -118,7 +118,7 @@ double TYPED_FUNC(
 #ifdef BML_USE_MAGMA
     free(A_matrix);
 #endif
-    sparsity = (1.0 - (double) nnzs / ((double) (N * N)));
+    sparsity = (1.0 - (double) nnzs / ((double) N * N));
 
     return sparsity;
 }
diff --git a/src/C-interface/ellblock/bml_introspection_ellblock_typed.c b/src/C-interface/ellblock/bml_introspection_ellblock_typed.c
index 167dafa..7ff2c5e 100644
--- a/src/C-interface/ellblock/bml_introspection_ellblock_typed.c
+++ b/src/C-interface/ellblock/bml_introspection_ellblock_typed.c
@@ -56,6 +56,6 @@ double TYPED_FUNC(
         }
     }
 
-    sparsity = (1.0 - (double) nnzs / ((double) (A->N * A->N)));
+    sparsity = (1.0 - (double) nnzs / ((double) A->N * A->N));
     return sparsity;
 }
diff --git a/src/C-interface/ellpack/bml_introspection_ellpack_typed.c b/src/C-interface/ellpack/bml_introspection_ellpack_typed.c
index e6b8a7c..fe9f411 100644
--- a/src/C-interface/ellpack/bml_introspection_ellpack_typed.c
+++ b/src/C-interface/ellpack/bml_introspection_ellpack_typed.c
@@ -49,6 +49,6 @@ double TYPED_FUNC(
         }
     }
 
-    sparsity = (1.0 - (double) nnzs / ((double) (A_N * A_N)));
+    sparsity = (1.0 - (double) nnzs / ((double) A_N * A_N));
     return sparsity;
 }
-- 
2.43.0

