From 70c1208b9d11c47f15bee3d502b3d757ce1e1d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 001/136] fix: mvmult with ARMAS_ABS wrote past the end of the
 result vector

---
 src/blas/gemv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blas/gemv.c b/src/blas/gemv.c
index a1dd457..fe24b60 100644
--- a/src/blas/gemv.c
+++ b/src/blas/gemv.c
@@ -79,7 +79,7 @@ void gemv_unb_abs(
 
     // Non-Transposed A here
 
-    y = &Y->elems[yinc];
+    y = &Y->elems[0*yinc];
     for (j = 0; j < A->cols-3; j += 4) {
         x = &X->elems[j*xinc];
         a0 = &A->elems[(j+0)*A->step];
@@ -104,7 +104,7 @@ void gemv_unb_abs(
     if (j < A->cols) {
         x = &X->elems[j*xinc];
         a0 = &A->elems[(j+0)*A->step];
-        vmult1axpy_abs(y, yinc, a0, x, xinc, alpha, A->cols);
+        vmult1axpy_abs(y, yinc, a0, x, xinc, alpha, A->rows);
     }
 }
 
-- 
2.43.0


From 90b680a80d42c1a066d58745a67deec7ddc36d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 002/136] fix: recursive mvupdate_trm split trapezoidal matrix
 off the diagonal

---
 src/blas/updtrmv.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/blas/updtrmv.c b/src/blas/updtrmv.c
index f644f98..3afce95 100644
--- a/src/blas/updtrmv.c
+++ b/src/blas/updtrmv.c
@@ -83,15 +83,17 @@ void update_trmv_recursive(
         return;
     }
 
+    // leading block is square also when A is trapezoidal
+    int n = (A->rows < A->cols ? A->rows : A->cols) / 2;
     mat_partition_2x2(
         &ATL, &ATR,
-        &ABL, &ABR, /**/ A, A->rows/2, A->cols/2, ARMAS_PTOPLEFT);
+        &ABL, &ABR, /**/ A, n, n, ARMAS_PTOPLEFT);
     vec_partition_2x1(
         &xT,
-        &xB, /**/ X, A->rows/2, ARMAS_PTOP);
+        &xB, /**/ X, n, ARMAS_PTOP);
     vec_partition_2x1(
         &yT,
-        &yB, /**/ Y, A->cols/2, ARMAS_PTOP);
+        &yB, /**/ Y, n, ARMAS_PTOP);
 
     update_trmv_recursive(beta, &ATL, alpha, &xT, &yT, flags, min_mvec_size);
     if (flags & ARMAS_UPPER) {
-- 
2.43.0


From acb2824ee20236cd6b71b5bc47581044593db6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 003/136] fix: cache buffer split produced empty or overlapping
 blocks for uneven block sizes

---
 src/base/cache.c | 46 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/src/base/cache.c b/src/base/cache.c
index 7843029..d6cb562 100644
--- a/src/base/cache.c
+++ b/src/base/cache.c
@@ -168,6 +168,33 @@ void armas_cbuf_free(armas_cbuf_t *cbuf)
  *
  *  assume: kb >= nb; nb >= mb
  */
+/*
+ * Adjust block sizes to the smallest usable ones. Strongly uneven initial block sizes or small
+ * buffer would otherwise yield empty blocks.
+ *
+ * S is buffer size in items, nblk number of 'k*n' blocks, clp items on cache line.
+ */
+static
+void cbuf_adjust(size_t *mn, size_t *nn, size_t *kn, size_t S, size_t nblk, size_t clp)
+{
+    if (*mn >= 4 && *nn >= 4 && *kn >= clp)
+        return;
+    if (*mn < 4)
+        *mn = 4;
+    if (*nn < 4)
+        *nn = 4;
+    if (*kn < clp)
+        *kn = clp;
+    if (*kn*(*mn + nblk*(*nn)) <= S)
+        return;
+    *kn = S/(*mn + nblk*(*nn));
+    *kn -= *kn % clp;
+    if (*kn < clp) {
+        *kn = clp;
+        *mn = *nn = (S/(clp*(nblk + 1))) & ~0x3;
+    }
+}
+
 /**
  * @brief Two way split of cache buffer.
  *
@@ -202,6 +229,11 @@ void armas_cbuf_split2(armas_cbuf_t *cbuf,
     } else {
         a = (double)(*mb)/(*nb);
         b = (double)(*kb)/(*nb);
+        // blocks are square at most; require nn <= kn and mn <= kn
+        if (b < 1.0)
+            b = 1.0;
+        if (b < a)
+            b = a;
         kn = (size_t)sqrt(b*S/(1.0+a));
 
         clp = CACHELINE/p;
@@ -213,6 +245,7 @@ void armas_cbuf_split2(armas_cbuf_t *cbuf,
         // make multiples of 4; mn and nn are 'column' counts, kn is 'row' count
         nn &= ~0x3;
         mn &= ~0x3;
+        cbuf_adjust(&mn, &nn, &kn, S, 1, clp);
     }
     *mb = mn;
     *nb = nn;
@@ -239,6 +272,10 @@ int armas_cache_fixed2(cache_t *cache, armas_cbuf_t *cbuf,
         kb = 4;
     mb &= ~0x3;
     nb &= ~0x3;
+    // empty blocks or blocks not fitting to column length are not usable
+    if (mb == 0 || nb == 0 || mb > kb || nb > kb) {
+        return -1;
+    }
     cache->KB = kb;
     cache->MB = mb;
     cache->NB = nb;
@@ -319,7 +356,9 @@ void armas_cbuf_split3(armas_cbuf_t *cbuf,
     } else {
         a = (double)(*mb)/(*nb);
         b = (double)(*kb)/(*nb);
-        // require mn <= kn ==> a <= b
+        // require nn <= kn and mn <= kn ==> a <= b
+        if (b < 1.0)
+            b = 1.0;
         if (b < a)
             b = a;
 
@@ -334,6 +373,7 @@ void armas_cbuf_split3(armas_cbuf_t *cbuf,
         // make multiples of 4; mn and nn are 'column' counts, kn is 'row' count
         nn &= ~0x3;
         mn &= ~0x3;
+        cbuf_adjust(&mn, &nn, &kn, S, 2, clp);
     }
     *mb = mn;
     *nb = nn;
@@ -365,6 +405,10 @@ int armas_cache_fixed3(cache_t *cache, armas_cbuf_t *cbuf,
         kb = 4;
     mb &= ~0x3;
     nb &= ~0x3;
+    // empty blocks or blocks not fitting to column length are not usable
+    if (mb == 0 || nb == 0 || mb > kb || nb > kb) {
+        return -1;
+    }
     cache->KB = kb;
     cache->MB = mb;
     cache->NB = nb;
-- 
2.43.0


From 9ad063c9c8375b1f63d347475f80025699b84681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 004/136] fix: fixed cache blocks overran caller provided
 buffer by alignment bytes

---
 src/base/cache.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/base/cache.c b/src/base/cache.c
index d6cb562..1d75ea1 100644
--- a/src/base/cache.c
+++ b/src/base/cache.c
@@ -263,7 +263,7 @@ int armas_cache_fixed2(cache_t *cache, armas_cbuf_t *cbuf,
                        size_t mb, size_t nb, size_t kb, size_t p)
 {
     size_t bytes = (kb > (CACHELINE/p) ? kb : (CACHELINE/p))*(mb + nb)*p;
-    if (bytes > cbuf->cmem) {
+    if (bytes > cbuf->len) {
         return -1;
     }
     if (kb > (CACHELINE/p))
@@ -396,7 +396,7 @@ int armas_cache_fixed3(cache_t *cache, armas_cbuf_t *cbuf,
                        size_t mb, size_t nb, size_t kb, size_t p)
 {
     size_t bytes = (kb > (CACHELINE/p) ? kb : (CACHELINE/p))*(mb + 2*nb)*p;
-    if (bytes > cbuf->cmem) {
+    if (bytes > cbuf->len) {
         return -1;
     }
     if (kb > (CACHELINE/p))
-- 
2.43.0


From 31086cede1ae9f36976eb750cd623c9af7fad494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 005/136] fix: NaN left in cache buffer leaked to results of
 later matrix products

---
 src/blas/kernel.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/blas/kernel.c b/src/blas/kernel.c
index 4cead8f..9332a95 100644
--- a/src/blas/kernel.c
+++ b/src/blas/kernel.c
@@ -34,6 +34,24 @@
  *
  */
 
+/*
+ * SIMD kernels read the common dimension in full vectors and mask only the A operand.
+ * Clear padding elements of B columns up to full vector, otherwise NaN or Inf left over
+ * in cache buffer propagates to the result.
+ */
+static inline
+void clear_padding(const armas_dense_t *B)
+{
+    const int nel = 32/sizeof(DTYPE);  // 256bit vectors
+    int k, j, n = (B->rows + nel - 1)/nel*nel;
+    if (n > B->step)
+        n = B->step;
+    for (j = 0; j < B->cols; j++) {
+        for (k = B->rows; k < n; k++)
+            B->elems[k + j*B->step] = ZERO;
+    }
+}
+
 void armas_mult_kernel_inner(
     armas_dense_t *Cblk,
     DTYPE alpha,
@@ -44,6 +62,7 @@ void armas_mult_kernel_inner(
     register int j, kp;
     armas_dense_t Ca, Ac;
 
+    clear_padding(Bblk);
     for (kp = 0; kp < Cblk->rows; kp += rb) {
         int nK = min(rb, Cblk->rows-kp);
         armas_submatrix_unsafe(&Ca, Cblk, kp, 0, nK, Cblk->cols);
-- 
2.43.0


From bc8ac7a349e8db8a01818d4cc3be946020044e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 006/136] fix: mult_sym from right overlapped cache blocks when
 MB < NB

---
 src/blas/symm.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/blas/symm.c b/src/blas/symm.c
index 1664473..d2bbd24 100644
--- a/src/blas/symm.c
+++ b/src/blas/symm.c
@@ -46,17 +46,18 @@ void mult_symm_diag(
      * lower/upper part
      */
     if (flags & ARMAS_RIGHT) {
-        armas_make(&Acpy, A->rows, A->cols, cache->ab_step, cache->Acpy);
+        // A is here the NB columns operand and B the MB columns operand
+        armas_make(&Acpy, A->rows, A->cols, cache->ab_step, cache->Bcpy);
         if (flags & ARMAS_LOWER) {
             CPTRIL_UFILL(&Acpy, A, A->rows, A->cols, unit);
         } else {
             CPTRIU_LFILL(&Acpy, A, A->rows, A->cols, unit);
         }
         if ((flags & ARMAS_TRANSB) != 0) {
-            armas_make(&Bcpy, B->rows, B->cols, cache->ab_step, cache->Bcpy);
+            armas_make(&Bcpy, B->rows, B->cols, cache->ab_step, cache->Acpy);
             CPBLK(&Bcpy, B, B->rows, B->cols, flags);
         } else {
-            armas_make(&Bcpy, B->cols, B->rows, cache->ab_step, cache->Bcpy);
+            armas_make(&Bcpy, B->cols, B->rows, cache->ab_step, cache->Acpy);
             CPBLK_TRANS(&Bcpy, B, B->rows, B->cols, flags);
         }
         armas_mult_kernel_inner(C, alpha, &Bcpy, &Acpy, cache->rb);
-- 
2.43.0


From 171247b57b48c537dcb8498a2cb5f6af48e90a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 007/136] fix: solve_trm leaked local cache buffer

---
 src/blas/trsm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/blas/trsm.c b/src/blas/trsm.c
index d1e898c..48c71f0 100644
--- a/src/blas/trsm.c
+++ b/src/blas/trsm.c
@@ -122,6 +122,7 @@ int armas_solve_trm(
         armas_solve_blocked(B, alpha, A, flags, &cache);
         break;
     }
+    armas_cbuf_release(&cbuf);
     return 0;
 }
 
-- 
2.43.0


From c76836ea0606dd0aac351262cc11394dba2f497e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 008/136] fix: recursive solve_trm scaled off-diagonal update
 with alpha

---
 src/blas/trsm_rec.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/blas/trsm_rec.c b/src/blas/trsm_rec.c
index d872a38..1a262f5 100644
--- a/src/blas/trsm_rec.c
+++ b/src/blas/trsm_rec.c
@@ -73,11 +73,11 @@ void solve_left_forward(
 
     solve_left_forward(&BT, alpha, &ATL, flags, min_mblock_size, cache);
     if (flags & ARMAS_UPPER) {
-        armas_mult_kernel_nc(&BB, -ONE, &ATR, &BT, ARMAS_TRANSA, cache);
+        armas_mult_kernel(alpha, &BB, -ONE, &ATR, &BT, ARMAS_TRANSA, cache);
     } else {
-        armas_mult_kernel_nc(&BB, -ONE, &ABL, &BT, 0, cache);
+        armas_mult_kernel(alpha, &BB, -ONE, &ABL, &BT, 0, cache);
     }
-    solve_left_forward(&BB, alpha, &ABR, flags, min_mblock_size, cache);
+    solve_left_forward(&BB, ONE, &ABR, flags, min_mblock_size, cache);
 }
 
 
@@ -121,11 +121,11 @@ void solve_left_backward(
 
     solve_left_backward(&BB, alpha, &ABR, flags, min_mblock_size, cache);
     if (flags & ARMAS_UPPER) {
-        armas_mult_kernel_nc(&BT, -ONE, &ATR, &BB, 0, cache);
+        armas_mult_kernel(alpha, &BT, -ONE, &ATR, &BB, 0, cache);
     } else {
-        armas_mult_kernel_nc(&BT, -ONE, &ABL, &BB, ARMAS_TRANSA, cache);
+        armas_mult_kernel(alpha, &BT, -ONE, &ABL, &BB, ARMAS_TRANSA, cache);
     }
-    solve_left_backward(&BT, alpha, &ATL, flags, min_mblock_size, cache);
+    solve_left_backward(&BT, ONE, &ATL, flags, min_mblock_size, cache);
 }
 
 
@@ -156,11 +156,11 @@ void solve_right_forward(
 
     solve_right_forward(&BL, alpha, &ATL, flags, min_mblock_size, cache);
     if (flags & ARMAS_UPPER) {
-        armas_mult_kernel_nc(&BR, -ONE, &BL, &ATR, 0, cache);
+        armas_mult_kernel(alpha, &BR, -ONE, &BL, &ATR, 0, cache);
     } else {
-        armas_mult_kernel_nc(&BR, -ONE, &BL, &ABL, ARMAS_TRANSB, cache);
+        armas_mult_kernel(alpha, &BR, -ONE, &BL, &ABL, ARMAS_TRANSB, cache);
     }
-    solve_right_forward(&BR, alpha, &ABR, flags, min_mblock_size, cache);
+    solve_right_forward(&BR, ONE, &ABR, flags, min_mblock_size, cache);
 }
 
 /*
@@ -190,11 +190,11 @@ void solve_right_backward(
 
     solve_right_backward(&BR, alpha, &ABR, flags, min_mblock_size, cache);
     if (flags & ARMAS_UPPER) {
-        armas_mult_kernel_nc(&BL, -ONE, &BR, &ATR, ARMAS_TRANSB, cache);
+        armas_mult_kernel(alpha, &BL, -ONE, &BR, &ATR, ARMAS_TRANSB, cache);
     } else {
-        armas_mult_kernel_nc(&BL, -ONE, &BR, &ABL, 0, cache);
+        armas_mult_kernel(alpha, &BL, -ONE, &BR, &ABL, 0, cache);
     }
-    solve_right_backward(&BL, alpha, &ATL, flags, min_mblock_size, cache);
+    solve_right_backward(&BL, ONE, &ATL, flags, min_mblock_size, cache);
 }
 
 void armas_solve_recursive(
-- 
2.43.0


From 37179aeadfa6ef8a0d4d35ce69f54ee6a502c0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 009/136] fix: recursive update_trm updated a row too many with
 odd block size

---
 src/blas/updtrmm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/blas/updtrmm.c b/src/blas/updtrmm.c
index 64317f1..882ce10 100644
--- a/src/blas/updtrmm.c
+++ b/src/blas/updtrmm.c
@@ -118,7 +118,7 @@ void update_upper_recursive(
     // can upper triangular (M == N) or upper trapezoidial (N > M)
     int nb = min(C->rows, C->cols);
 
-    if (nb < min_mblock_size) {
+    if (nb < min_mblock_size || nb < 2) {
         update_trm_naive(beta, C, alpha, A, B, flags);
         return;
     }
@@ -168,7 +168,7 @@ void update_upper_recursive(
         armas_submatrix_unsafe(&b0, B, 0, nb/2, B->rows, nb-nb/2);
         break;
     }
-    armas_submatrix_unsafe(&c0, C, 0, nb/2, nb-nb/2, nb-nb/2);
+    armas_submatrix_unsafe(&c0, C, 0, nb/2, nb/2, nb-nb/2);
     armas_mult_kernel(beta, &c0, alpha, &a0, &b0, flags, cache);
 
     // lower RIGHT diagonal
@@ -230,7 +230,7 @@ void update_lower_recursive(
     int nb = min(C->rows, C->cols);
 
     //printf("update_lower_rec: M=%d, N=%d, nb=%d\n", M, N, nb);
-    if (nb < min_mblock_size) {
+    if (nb < min_mblock_size || nb < 2) {
         update_trm_naive(beta, C, alpha, A, B, flags);
         return;
     }
-- 
2.43.0


From cbe11a8f39297f62bed273a4b8c500c8cde29987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:10 +0000
Subject: [PATCH 010/136] fix: endless recursion in update2_sym with zero or
 unit block size

---
 src/blas/syr2k.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/blas/syr2k.c b/src/blas/syr2k.c
index ffc72d1..5a8a564 100644
--- a/src/blas/syr2k.c
+++ b/src/blas/syr2k.c
@@ -101,7 +101,7 @@ void update_syr2k_recursive(
     armas_dense_t ATL, ATR, ABL, ABR;
     armas_dense_t XT, XB, YT, YB;
 
-    if (A->rows < minblock) {
+    if (minblock == 0 || A->rows < minblock || A->rows < 2) {
         update_syr2k_unb(beta, A, alpha, X, Y, flags);
         return;
     }
@@ -195,7 +195,7 @@ void update_syr2k_trans_recursive(
     armas_dense_t ATL, ATR, ABL, ABR;
     armas_dense_t XL, XR, YL, YR;
 
-    if (A->rows < minblock) {
+    if (minblock == 0 || A->rows < minblock || A->rows < 2) {
         update_syr2k_trans_unb(beta, A, alpha, X, Y, flags);
         return;
     }
-- 
2.43.0


From 6d76ff692654d439672db49443033ef6a6f33b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 011/136] fix: element-wise operations on the upper triangle of
 non-square matrices

---
 src/blas/madd.c   | 5 +++--
 src/blas/mapply.c | 6 +++---
 src/blas/mscale.c | 7 ++++---
 src/blas/mset.c   | 2 +-
 4 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/blas/madd.c b/src/blas/madd.c
index d987387..19cd21b 100644
--- a/src/blas/madd.c
+++ b/src/blas/madd.c
@@ -85,7 +85,8 @@ int armas_madd(armas_dense_t *A, DTYPE alpha, int flags, armas_conf_t *cf)
         // (works for upper trapezoidal matrix too)
         n = (flags & ARMAS_UNIT) != 0 ? 1 : 0;
         for (c = n; c < A->cols; ++c) {
-            armas_submatrix_unsafe(&C, A, 0, c+n, c+1-n, 1);
+            int nr = c+1-n < A->rows ? c+1-n : A->rows;
+            armas_submatrix_unsafe(&C, A, 0, c, nr, 1);
             vec_add(&C, alpha, C.rows);
         }
         break;
@@ -94,7 +95,7 @@ int armas_madd(armas_dense_t *A, DTYPE alpha, int flags, armas_conf_t *cf)
         // scale strictly lower triangular part. if UNIT set, don't touch diagonal
         // (works for lower trapezoidal matrix too)
         n = (flags & ARMAS_UNIT) != 0 ? 1 : 0;
-        for (c = 0; c < A->cols-n; ++c) {
+        for (c = 0; c < A->cols && c < A->rows-n; ++c) {
             armas_submatrix_unsafe(&C, A, c+n, c, A->rows-c-n, 1);
             vec_add(&C, alpha, C.rows);
         }
diff --git a/src/blas/mapply.c b/src/blas/mapply.c
index eba5ce4..68434fd 100644
--- a/src/blas/mapply.c
+++ b/src/blas/mapply.c
@@ -56,7 +56,7 @@ int armas_apply(armas_dense_t *A, armas_operator_t oper, int flags)
         break;
     case ARMAS_UPPER:
         for (j = 0; j < A->cols; j++) {
-            for (i = 0; i <= j; i++) {
+            for (i = 0; i <= j && i < A->rows; i++) {
                 armas_set_unsafe(A, i, j, oper(armas_get_unsafe(A, i, j)));
             }
         }
@@ -108,7 +108,7 @@ int armas_apply2(armas_dense_t *A, armas_operator2_t oper, void *p, int flags)
         break;
     case ARMAS_UPPER:
         for (j = 0; j < A->cols; j++) {
-            for (i = 0; i <= j; i++) {
+            for (i = 0; i <= j && i < A->rows; i++) {
                 armas_set_unsafe(A, i, j, oper(armas_get_unsafe(A, i, j), p));
             }
         }
@@ -160,7 +160,7 @@ int armas_iterate(const armas_dense_t *A, armas_iterator_t oper, void *p, int fl
         break;
     case ARMAS_UPPER:
         for (j = 0; j < A->cols; j++) {
-            for (i = 0; i <= j; i++) {
+            for (i = 0; i <= j && i < A->rows; i++) {
                 if (oper(armas_get_unsafe(A, i, j), p) < 0)
                     return -1;
             }
diff --git a/src/blas/mscale.c b/src/blas/mscale.c
index c55f6e3..681005c 100644
--- a/src/blas/mscale.c
+++ b/src/blas/mscale.c
@@ -137,8 +137,9 @@ int armas_mscale(armas_dense_t *m, const DTYPE alpha, int flags, armas_conf_t *c
     case ARMAS_UPPER:
         // scale strictly upper triangular part, if UNIT set, don't touch diagonal
         n = (flags & ARMAS_UNIT) ? 1 : 0;
-        for (c = n; c < m->rows; c++) {
-            armas_submatrix_unsafe(&C, m, c, c+n, 1, m->rows-c-n);
+        for (c = n; c < m->cols; c++) {
+            int nr = c+1-n < m->rows ? c+1-n : m->rows;
+            armas_submatrix_unsafe(&C, m, 0, c, nr, 1);
             vec_scale(&C, alpha, C.rows);
         }
         break;
@@ -146,7 +147,7 @@ int armas_mscale(armas_dense_t *m, const DTYPE alpha, int flags, armas_conf_t *c
     case ARMAS_LOWER:
         // scale strictly lower triangular part. if UNIT set, don't touch diagonal
         n = (flags & ARMAS_UNIT) ? 1 : 0;
-        for (c = 0; c < m->cols-n; c++) {
+        for (c = 0; c < m->cols && c < m->rows-n; c++) {
             armas_submatrix_unsafe(&C, m, c+n, c, m->rows-c-n, 1);
             vec_scale(&C, alpha, C.rows);
         }
diff --git a/src/blas/mset.c b/src/blas/mset.c
index 9062b5d..13a1b38 100644
--- a/src/blas/mset.c
+++ b/src/blas/mset.c
@@ -176,7 +176,7 @@ void armas_make_trm(armas_dense_t *A, int flags)
     if (flags & ARMAS_UPPER) {
         // clear lower triangular/trapezoidial part
         for (j = 0; j < A->cols; j++) {
-            if (flags & ARMAS_UNIT)
+            if (flags & ARMAS_UNIT && j < A->rows)
                 armas_set_unsafe(A, j, j, ONE);
             for (i = j+1; i < A->rows; i++) {
                 armas_set_unsafe(A, i, j, ZERO);
-- 
2.43.0


From 002ecc0c481d8260ad9a150aed94e6423167c3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 012/136] fix: armas_qsort_vec endless loop on repeated values

---
 src/lapack/qsort.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lapack/qsort.c b/src/lapack/qsort.c
index 99c85df..ebba03b 100644
--- a/src/lapack/qsort.c
+++ b/src/lapack/qsort.c
@@ -78,13 +78,15 @@ void armas_qsort_asc(armas_dense_t *x)
     armas_set_at_unsafe(x, 0, pivot);
     i = 1; j = n - 1;
     for (;;) {
-        for (; armas_get_at_unsafe(x, i) < pivot && i < n; i++);
+        for (; i < n && armas_get_at_unsafe(x, i) < pivot; i++);
         for (; armas_get_at_unsafe(x, j) > pivot; j--);
         if (i >= j)
             break;
         tmp = armas_get_at_unsafe(x, i);
         armas_set_at_unsafe(x, i, armas_get_at_unsafe(x, j));
         armas_set_at_unsafe(x, j, tmp);
+        // step over the pair; elements equal to pivot would be swapped forever
+        i++; j--;
     }
     armas_set_at_unsafe(x, 0, armas_get_at_unsafe(x, j));
     armas_set_at_unsafe(x, j, pivot);
@@ -113,13 +115,15 @@ void armas_qsort_desc(armas_dense_t *x)
     armas_set_at_unsafe(x, 0, pivot);
     i = 1; j = n - 1;
     for (;;) {
-        for (; armas_get_at_unsafe(x, i) > pivot && i < n; i++);
+        for (; i < n && armas_get_at_unsafe(x, i) > pivot; i++);
         for (; armas_get_at_unsafe(x, j) < pivot; j--);
         if (i >= j)
             break;
         tmp = armas_get_at_unsafe(x, i);
         armas_set_at_unsafe(x, i, armas_get_at_unsafe(x, j));
         armas_set_at_unsafe(x, j, tmp);
+        // step over the pair; elements equal to pivot would be swapped forever
+        i++; j--;
     }
     armas_set_at_unsafe(x, 0, armas_get_at_unsafe(x, j));
     armas_set_at_unsafe(x, j, pivot);
-- 
2.43.0


From 7f19a074fb36ec4738938af8e84f419fc39f36dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:38 +0000
Subject: [PATCH 013/136] fix: armas_abs_sort_vec keeps element signs

---
 src/lapack/sort.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lapack/sort.c b/src/lapack/sort.c
index 0a1eaf8..d18f1b4 100644
--- a/src/lapack/sort.c
+++ b/src/lapack/sort.c
@@ -47,10 +47,10 @@ void armas_abs_sort_vec(armas_dense_t * D, int updown)
     // simple insertion sort
     if (updown > 0) {
         for (k = 1; k < armas_size(D); k++) {
-            cval = ABS(armas_get_at_unsafe(D, k));
+            cval = armas_get_at_unsafe(D, k);
             for (j = k; j > 0; j--) {
-                tmpval = ABS(armas_get_at_unsafe(D, j - 1));
-                if (tmpval <= cval)
+                tmpval = armas_get_at_unsafe(D, j - 1);
+                if (ABS(tmpval) <= ABS(cval))
                     break;
                 armas_set_at_unsafe(D, j, tmpval);
             }
@@ -58,10 +58,10 @@ void armas_abs_sort_vec(armas_dense_t * D, int updown)
         }
     } else {
         for (k = 1; k < armas_size(D); k++) {
-            cval = ABS(armas_get_at_unsafe(D, k));
+            cval = armas_get_at_unsafe(D, k);
             for (j = k; j > 0; j--) {
-                tmpval = ABS(armas_get_at_unsafe(D, j - 1));
-                if (tmpval >= cval)
+                tmpval = armas_get_at_unsafe(D, j - 1);
+                if (ABS(tmpval) >= ABS(cval))
                     break;
                 armas_set_at_unsafe(D, j, tmpval);
             }
-- 
2.43.0


From acc9f3f6f27503b9c0e0a17854dc4daaba61957a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 014/136] fix: inverse_trm used the stored diagonal of unit
 triangular matrices

---
 src/lapack/invtrm.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lapack/invtrm.c b/src/lapack/invtrm.c
index 0659c46..c9a1b4e 100644
--- a/src/lapack/invtrm.c
+++ b/src/lapack/invtrm.c
@@ -72,7 +72,8 @@ int unblk_inverse_upper(armas_dense_t * A, int flags, armas_conf_t * conf)
             armas_set_unsafe(&a11, 0, 0, a11val);
         }
         // a01 = -a11val*A00*a01
-        armas_mvmult_trm(&a01, -a11val, &A00, ARMAS_UPPER, conf);
+        armas_mvmult_trm(&a01, -a11val, &A00,
+                         ARMAS_UPPER | (flags & ARMAS_UNIT), conf);
         // ---------------------------------------------------------------------
       next:
         mat_continue_3x3to2x2(
@@ -155,7 +156,8 @@ int unblk_inverse_lower(armas_dense_t * A, int flags, armas_conf_t * conf)
             armas_set_unsafe(&a11, 0, 0, a11val);
         }
         // a21 = -a11val*A22*a21
-        armas_mvmult_trm(&a21, -a11val, &A22, ARMAS_LOWER, conf);
+        armas_mvmult_trm(&a21, -a11val, &A22,
+                         ARMAS_LOWER | (flags & ARMAS_UNIT), conf);
         // ---------------------------------------------------------------------
       next:
         mat_continue_3x3to2x2(
-- 
2.43.0


From 75b41feb57df233f9e876754e9f5942fcadc8191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 015/136] fix: lufactor forgot a zero pivot found before the
 last column

---
 src/lapack/lu.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lapack/lu.c b/src/lapack/lu.c
index e7395d2..65cf0c5 100644
--- a/src/lapack/lu.c
+++ b/src/lapack/lu.c
@@ -145,7 +145,7 @@ int unblk_lufactor(armas_dense_t * A, armas_pivot_t * P, int offset,
         aa = armas_dot(&a10, &a01, conf);
         armas_set(&a11, 0, 0, a11val - aa);
         // c. a21 = a21 - A20*a01
-        err = armas_mvmult(ONE, &a21, -ONE, &A20, &a01, ARMAS_NONE, conf);
+        armas_mvmult(ONE, &a21, -ONE, &A20, &a01, ARMAS_NONE, conf);
         // HERE:
         // current column has been updated with effects of earlier computations.
         // B. find pivot index on vector ( a11 ) == ABR[:,0] (1st column of ABR)
@@ -236,7 +236,8 @@ int blk_lufactor(armas_dense_t * A, armas_pivot_t * P, int lb,
         // B. factor ( A11 )
         //           ( A21 )
         mat_merge2x1(&AB0, &A11, &A21);
-        err = unblk_lufactor(&AB0, &p1, ATL.rows, conf);
+        if (unblk_lufactor(&AB0, &p1, ATL.rows, conf) < 0)
+            err = -1;
 
         // apply pivots on left columns
         armas_pivot_rows(&ABL, &p1, ARMAS_PIVOT_FORWARD, conf);
-- 
2.43.0


From ff2f4ac6644c2ac36e8590c24f6cfcc51f4494f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 016/136] fix: lusolve with ARMAS_TRANS solved with wrong order
 of factors

---
 src/lapack/lu.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/lapack/lu.c b/src/lapack/lu.c
index 65cf0c5..bdf80f4 100644
--- a/src/lapack/lu.c
+++ b/src/lapack/lu.c
@@ -352,18 +352,21 @@ int armas_lusolve(armas_dense_t * B, armas_dense_t * A,
         cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-    if (P) {
-        // pivots; apply to B.
-        armas_pivot_rows(B, P, ARMAS_PIVOT_FORWARD, cf);
-    }
-
     if (flags & ARMAS_TRANS) {
-        // solve A.T*X = B; X = A.-T*B == (L.T*U.T).-1*B == U.-T*(L.-T*B)
-        armas_solve_trm(
-            B, ONE, A, ARMAS_LEFT | ARMAS_LOWER | ARMAS_UNIT | ARMAS_TRANSA, cf);
+        // solve A.T*X = B; A = P*L*U; X = A.-T*B == P*(L.-T*(U.-T*B))
         armas_solve_trm(
             B, ONE, A, ARMAS_LEFT | ARMAS_UPPER | ARMAS_TRANSA, cf);
+        armas_solve_trm(
+            B, ONE, A, ARMAS_LEFT | ARMAS_LOWER | ARMAS_UNIT | ARMAS_TRANSA, cf);
+        if (P) {
+            // undo pivots on X
+            armas_pivot_rows(B, P, ARMAS_PIVOT_BACKWARD, cf);
+        }
     } else {
+        if (P) {
+            // pivots; apply to B.
+            armas_pivot_rows(B, P, ARMAS_PIVOT_FORWARD, cf);
+        }
         // solve A*X = B;  X = A.-1*B == (L*U).-1*B == U.-1*(L.-1*B)
         armas_solve_trm(
             B, ONE, A, ARMAS_LEFT | ARMAS_LOWER | ARMAS_UNIT, cf);
-- 
2.43.0


From 21c0cff16f31cf49e63c5d98294ddee286f2e875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 017/136] fix: unpivoted lower Cholesky accepted a zero pivot

---
 src/lapack/chol.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/chol.c b/src/lapack/chol.c
index 2da85b7..3aa5547 100644
--- a/src/lapack/chol.c
+++ b/src/lapack/chol.c
@@ -55,7 +55,7 @@ int unblk_cholfactor_lower(armas_dense_t * A, armas_conf_t * cf)
         // --------------------------------------------------------------------
         // a21 = a21/a11
         a11val = armas_get(&a11, 0, 0);
-        if (a11val >= 0.0) {
+        if (a11val > 0.0) {
             // a11 = sqrt(a11)
             a11val = SQRT(a11val);
             armas_set(&a11, 0, 0, a11val);
-- 
2.43.0


From b56d4bd0dcfd65612f9f0e20ea9b61b6b89f5876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 018/136] fix: pivoted Cholesky of rank zero matrix reported
 full rank

---
 src/lapack/cholpv.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/lapack/cholpv.c b/src/lapack/cholpv.c
index 7a6605a..be415ed 100644
--- a/src/lapack/cholpv.c
+++ b/src/lapack/cholpv.c
@@ -526,7 +526,7 @@ int blk_cholpv_upper(armas_dense_t * A, armas_dense_t * W,
 int armas_cholfactor_pv(armas_dense_t * A, armas_dense_t * W,
                           armas_pivot_t * P, int flags, armas_conf_t * cf)
 {
-    int ws, nrank = 0;
+    int k, ws, nrank = 0;
     DTYPE xstop;
     armas_dense_t D;
     armas_env_t *env;
@@ -549,6 +549,11 @@ int armas_cholfactor_pv(armas_dense_t * A, armas_dense_t * W,
     if (ws < A->cols)
         ws = 0;
 
+    // clear pivots
+    for (k = 0; k < armas_pivot_size(P); k++) {
+        armas_pivot_set(P, k, 0);
+    }
+
     armas_diag(&D, A, 0);
     if (cf->stop > ZERO)
         xstop = cf->stop;
@@ -575,6 +580,11 @@ int armas_cholfactor_pv(armas_dense_t * A, armas_dense_t * W,
             nrank = blk_cholpv_lower(A, W, P, xstop, env->lb, cf);
         }
     }
+    if (nrank == 0 && A->cols > 0) {
+        // nothing factored; zero would mean full rank
+        cf->error = ARMAS_ESINGULAR;
+        return -ARMAS_ESINGULAR;
+    }
     // if full rank;
     return nrank == A->cols ? 0 : nrank;
 }
-- 
2.43.0


From 774cb6719e264185550a53e4597fafae5e868821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 019/136] fix: Bunch-Kaufman left NaNs on zero column and with
 small blocking factors

---
 src/lapack/ldlbk.c  |  3 ++-
 src/lapack/ldlbkl.c | 23 +++++++++++++----------
 src/lapack/ldlbku.c | 17 +++++++++++------
 3 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/lapack/ldlbk.c b/src/lapack/ldlbk.c
index 35e5f70..ed90362 100644
--- a/src/lapack/ldlbk.c
+++ b/src/lapack/ldlbk.c
@@ -136,7 +136,8 @@ int armas_bkfactor_w(armas_dense_t * A, armas_pivot_t * P,
         return -ARMAS_ESIZE;
     }
     // get minumum bytes needed unblocked factorization
-    lb = env->lb;
+    // 2x2 pivot needs blocking factor of at least two
+    lb = env->lb < 2 ? 0 : env->lb;
     wsmin = 2 * A->cols * sizeof(DTYPE);
     if ((wsz = armas_wbytes(wb)) < wsmin) {
         conf->error = ARMAS_EWORK;
diff --git a/src/lapack/ldlbkl.c b/src/lapack/ldlbkl.c
index 2295539..af00167 100644
--- a/src/lapack/ldlbkl.c
+++ b/src/lapack/ldlbkl.c
@@ -176,10 +176,13 @@ int armas_unblk_bkfactor_lower(armas_dense_t * A, armas_dense_t * W,
         if (np == 1) {
             // A22 = A22 - a21*a21.T/a11
             a11val = armas_get(&a11, 0, 0);
-            armas_mvupdate_trm(
-                ONE, &A22, -ONE / a11val, &a21, &a21, ARMAS_LOWER, conf);
-            // a21 = a21/a11
-            armas_scale(&a21, ONE/a11val, conf);
+            // (if a11 is zero then a21 is zero too; nothing to eliminate)
+            if (a11val != ZERO) {
+                armas_mvupdate_trm(
+                    ONE, &A22, -ONE / a11val, &a21, &a21, ARMAS_LOWER, conf);
+                // a21 = a21/a11
+                armas_scale(&a21, ONE/a11val, conf);
+            }
             // store pivot point relative to original matrix
             armas_pivot_set(&p1, 0, r + ATL.rows + 1);
         } else if (np == 2) {
@@ -287,7 +290,7 @@ int build_bkpivot_lower(armas_dense_t * AL, armas_dense_t * AR,
 
     armas_submatrix(&qrow, AR, r, 0, 1, r + 1);
     armas_submatrix(&wkr, &wkp1, 0, 0, r + 1, 1);
-    armas_axpby(ZERO, &wkr, ONE, &qrow, conf);
+    armas_copy(&wkr, &qrow, conf);
     if (r < AR->rows - 1) {
         armas_submatrix(&qrow, AR, r, r, AR->rows - r, 1);
         armas_submatrix(&wkr, &wkp1, r, 0, AR->rows - r, 1);
@@ -350,7 +353,7 @@ int unblk_bkbounded_lower(armas_dense_t * A, armas_dense_t * W,
     armas_dense_t a11inv, cwrk, w00, w10, w11;
     armas_pivot_t pT, pB, p0, p1, p2;
     DTYPE t1, tr, a11val, a, b, d, scale;
-    //DTYPE abuf[4];
+    DTYPE abuf[4];
     int nc, r, np, pi;
 
     EMPTY(A00);
@@ -363,8 +366,7 @@ int unblk_bkbounded_lower(armas_dense_t * A, armas_dense_t * W,
         &pT, &pB, /**/ P, 0, ARMAS_PTOP);
 
     // permanent working space for symmetric inverse of 2x2 a11
-    armas_submatrix(&a11inv, W, 0, W->cols - 2, 2, 2);
-    //armas_make(&a11inv, 2, 2, 2, abuf);
+    armas_make(&a11inv, 2, 2, 2, abuf);
     armas_set(&a11inv, 1, 0, -1.0);
     armas_set(&a11inv, 0, 1, -1.0);
 
@@ -422,8 +424,9 @@ int unblk_bkbounded_lower(armas_dense_t * A, armas_dense_t * W,
             a11val = armas_get(&w11, 0, 0);
             armas_set(&a11, 0, 0, a11val);
             // a21 = a21/a11
-            armas_axpby(ZERO, &a21, ONE, &cwrk, conf);
-            armas_scale(&a21, ONE/a11val, conf);
+            armas_copy(&a21, &cwrk, conf);
+            if (a11val != ZERO)
+                armas_scale(&a21, ONE/a11val, conf);
             // store pivot point relative to original matrix
             armas_pivot_set(&p1, 0, r + ATL.rows + 1);
         } else if (np == 2) {
diff --git a/src/lapack/ldlbku.c b/src/lapack/ldlbku.c
index 651f46e..538eb9d 100644
--- a/src/lapack/ldlbku.c
+++ b/src/lapack/ldlbku.c
@@ -164,10 +164,13 @@ int armas_unblk_bkfactor_upper(armas_dense_t * A, armas_dense_t * W,
         if (np == 1) {
             // A00 = A00 - a01*a01.T/a11
             a11val = armas_get(&a11, 0, 0);
-            armas_mvupdate_trm(
-                ONE, &A00, -ONE / a11val, &a01, &a01, ARMAS_UPPER, conf);
-            // a01 = a01/a11
-            armas_scale(&a01, ONE/a11val, conf);
+            // (if a11 is zero then a01 is zero too; nothing to eliminate)
+            if (a11val != ZERO) {
+                armas_mvupdate_trm(
+                    ONE, &A00, -ONE / a11val, &a01, &a01, ARMAS_UPPER, conf);
+                // a01 = a01/a11
+                armas_scale(&a01, ONE/a11val, conf);
+            }
             // store pivot point relative to original matrix
             pi = r == -1 ? ATL.rows : r + 1;
             armas_pivot_set(&p1, 0, pi);
@@ -338,6 +341,7 @@ int unblk_bkbounded_upper(armas_dense_t * A, armas_dense_t * W,
     armas_dense_t a11inv, cwrk, w00, w01, w11;
     armas_pivot_t pT, pB, p0, p1, p2;
     DTYPE t1, tr, a11val, a, b, d, scale;
+    DTYPE abuf[4];
     int nc, r, np, pi;
 
     EMPTY(A00);
@@ -350,7 +354,7 @@ int unblk_bkbounded_upper(armas_dense_t * A, armas_dense_t * W,
     pivot_2x1(&pT, &pB, /**/ P, 0, ARMAS_PBOTTOM);
 
     // permanent working space for symmetric inverse of 2x2 a11
-    armas_submatrix(&a11inv, W, W->rows - 2, 0, 2, 2);
+    armas_make(&a11inv, 2, 2, 2, abuf);
     armas_set(&a11inv, 1, 0, -1.0);
     armas_set(&a11inv, 0, 1, -1.0);
 
@@ -411,7 +415,8 @@ int unblk_bkbounded_upper(armas_dense_t * A, armas_dense_t * W,
             armas_set(&a11, 0, 0, a11val);
             // a01 = a01/a11
             armas_copy(&a01, &cwrk, conf);
-            armas_scale(&a01, ONE/a11val, conf);
+            if (a11val != ZERO)
+                armas_scale(&a01, ONE/a11val, conf);
             // store pivot point relative to original matrix
             pi = r == -1 ? ATL.rows : r + 1;
             armas_pivot_set(&p1, 0, pi);
-- 
2.43.0


From fdad1f2cb5636a6c9136539e6dc1bc9a3715c6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 020/136] fix: zero multiplier kept NaNs of vectors

---
 src/blas/axpy.c   | 7 +++++++
 src/blas/mscale.c | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/blas/axpy.c b/src/blas/axpy.c
index 10d3f28..c11b757 100644
--- a/src/blas/axpy.c
+++ b/src/blas/axpy.c
@@ -39,6 +39,13 @@ void armas_axpby_unsafe(
     int yinc = y->rows == 1 ? y->step : 1;
     int xinc = x->rows == 1 ? x->step : 1;
 
+    if (beta == ZERO) {
+        // old values are not referenced
+        for (i = 0; i < N; i++)
+            y->elems[i*yinc] = alpha*x->elems[i*xinc];
+        return;
+    }
+
     for (i = 0; i < N-3; i += 4) {
         y0 = y->elems[(i+0)*yinc] * beta;
         y1 = y->elems[(i+1)*yinc] * beta;
diff --git a/src/blas/mscale.c b/src/blas/mscale.c
index 681005c..b532189 100644
--- a/src/blas/mscale.c
+++ b/src/blas/mscale.c
@@ -34,6 +34,13 @@ void vec_scale(armas_dense_t *X,  const DTYPE alpha, int N)
     register DTYPE *x0;
     register int xinc = X->rows == 1 ? X->step : 1;
 
+    // set to zero, whatever the elements are (as blk_scale does)
+    if (alpha == ZERO) {
+        for (i = 0; i < N; i++)
+            X->elems[i*xinc] = ZERO;
+        return;
+    }
+
     for (i = 0; i < N-3; i += 4) {
         X->elems[(i+0)*xinc] *= alpha;
         X->elems[(i+1)*xinc] *= alpha;
-- 
2.43.0


From 8d6fc92cb7ac609bcaf8b6397484f943488ddc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:34 +0000
Subject: [PATCH 021/136] fix: solve_diag/mult_diag with 1x1 diagonal and
 inverted scalar

---
 src/lapack/diag.c | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/lapack/diag.c b/src/lapack/diag.c
index 1e4bc22..40aacbb 100644
--- a/src/lapack/diag.c
+++ b/src/lapack/diag.c
@@ -64,11 +64,8 @@ int armas_mult_diag(armas_dense_t * A, DTYPE alpha,
         d = &d0;
     }
 
-    if (armas_isvector(A)) {
-        if (armas_size(d) != armas_size(A)) {
-            conf->error = ARMAS_ESIZE;
-            return -ARMAS_ESIZE;
-        }
+    // row (column) vectors are matrices too if the 1x1 diagonal fits
+    if (armas_isvector(A) && armas_size(d) == armas_size(A)) {
         if (armas_size(A) == 0)
             return 0;
         for (k = 0; k < armas_size(d); k++) {
@@ -147,11 +144,8 @@ int armas_solve_diag(armas_dense_t * A, DTYPE alpha,
         d = &d0;
     }
 
-    if (armas_isvector(A)) {
-        if (armas_size(d) != armas_size(A)) {
-            conf->error = ARMAS_ESIZE;
-            return -ARMAS_ESIZE;
-        }
+    // row (column) vectors are matrices too if the 1x1 diagonal fits
+    if (armas_isvector(A) && armas_size(d) == armas_size(A)) {
         if (armas_size(A) == 0)
             return 0;
         for (k = 0; k < armas_size(d); k++) {
@@ -172,9 +166,9 @@ int armas_solve_diag(armas_dense_t * A, DTYPE alpha,
             return 0;
         // scale columns; 
         for (k = 0; k < armas_size(d); k++) {
-            DTYPE aval = alpha * armas_get_at_unsafe(d, k);
+            DTYPE aval = armas_get_at_unsafe(d, k);
             armas_column(&c, A, k);
-            armas_scale(&c, ONE/aval, conf);
+            armas_scale(&c, alpha/aval, conf);
         }
         break;
     case ARMAS_LEFT:
@@ -187,9 +181,9 @@ int armas_solve_diag(armas_dense_t * A, DTYPE alpha,
             return 0;
         // scale rows; for each column element-wise multiply of D element
         for (k = 0; k < armas_size(d); k++) {
-            DTYPE aval = alpha * armas_get_at_unsafe(d, k);
+            DTYPE aval = armas_get_at_unsafe(d, k);
             armas_row(&c, A, k);
-            armas_scale(&c, ONE/aval, conf);
+            armas_scale(&c, alpha/aval, conf);
         }
         break;
     }
-- 
2.43.0


From 0a614b6a7fcbbb5664bcf8821b6e98a5254a4438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 022/136] fix: qrtfactor used the wrong panels

---
 src/lapack/qrt.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/lapack/qrt.c b/src/lapack/qrt.c
index 84245a3..f8ac04a 100644
--- a/src/lapack/qrt.c
+++ b/src/lapack/qrt.c
@@ -36,7 +36,7 @@ static
 int unblk_qrtfactor(armas_dense_t * A, armas_dense_t * T,
                     armas_dense_t * W, armas_conf_t * conf)
 {
-    armas_dense_t ATL, ABR, A00, a11, a12, a21, A22;
+    armas_dense_t ATL, ABR, A00, a10, a11, a12, A20, a21, A22;
     armas_dense_t TTL, TTR, TBR, T00, t01, t11, T22, w12;
     DTYPE tauval;
 
@@ -51,8 +51,8 @@ int unblk_qrtfactor(armas_dense_t * A, armas_dense_t * T,
         mat_repartition_2x2to3x3(
             &ATL,
             &A00, __nil, __nil,
-            __nil, &a11, &a12,
-            __nil, &a21, &A22, /**/ A, 1, ARMAS_PBOTTOMRIGHT);
+            &a10, &a11, &a12,
+            &A20, &a21, &A22, /**/ A, 1, ARMAS_PBOTTOMRIGHT);
         mat_repartition_2x2to3x3(
             &TTL,
             &T00, &t01, __nil,
@@ -68,9 +68,9 @@ int unblk_qrtfactor(armas_dense_t * A, armas_dense_t * T,
         tauval = armas_get_unsafe(&t11, 0, 0);
         if (tauval != ZERO) {
             // t01 := -tauval*(a10.T + A20.T*a21)
-            armas_axpby(ZERO, &t01, ONE, &a12, conf);
+            armas_axpby(ZERO, &t01, ONE, &a10, conf);
             armas_mvmult(-tauval, &t01,
-                           -tauval, &A22, &a21, ARMAS_TRANSA, conf);
+                           -tauval, &A20, &a21, ARMAS_TRANSA, conf);
             // t01 := T00*t01
             armas_mvmult_trm(&t01, ONE, &T00, ARMAS_UPPER, conf);
         }
@@ -107,7 +107,7 @@ int blk_qrtfactor(armas_dense_t * A, armas_dense_t * T,
     mat_partition_2x2(
         &ATL, __nil, __nil, &ABR, /**/ A, 0, 0, ARMAS_PTOPLEFT);
     mat_partition_1x2(
-        &TL, &TR, /**/ T, 0, ARMAS_LEFT);
+        &TL, &TR, /**/ T, 0, ARMAS_PLEFT);
 
     while (ABR.rows - lb > 0 && ABR.cols - lb > 0) {
         mat_repartition_2x2to3x3(
@@ -253,7 +253,7 @@ int armas_qrtfactor_w(armas_dense_t * A, armas_dense_t * T,
         return -ARMAS_ESIZE;
     }
     // set blocking factor to number of rows in T
-    wsmin = lb == 0 || A->cols < lb ? A->cols : lb*(A->cols - lb);
+    wsmin = lb == 0 || A->cols <= lb ? A->cols : lb*(A->cols - lb);
     if (!wb || armas_wbytes(wb) < wsmin*sizeof(DTYPE)) {
         conf->error = ARMAS_EWORK;
         return -ARMAS_EWORK;
-- 
2.43.0


From 57560a4107e13a4ddd70abd03b9eef2b4236f5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 023/136] fix: block reflector of qrbuild/qlbuild not cleared
 when tau is zero

---
 src/lapack/qlbld.c | 2 ++
 src/lapack/qrbld.c | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/lapack/qlbld.c b/src/lapack/qlbld.c
index 9966cf8..76c53da 100644
--- a/src/lapack/qlbld.c
+++ b/src/lapack/qlbld.c
@@ -161,6 +161,7 @@ int blk_qlbuild(armas_dense_t * A, armas_dense_t * tau,
 
         // build block reflector
         armas_make(&Tcur, A11.rows, A11.cols, A11.rows, armas_data(T));
+        armas_mscale(&Tcur, ZERO, 0, conf);
         armas_unblk_ql_reflector(&Tcur, &AT, &t1, conf);
 
         // update left side i.e A00 and A00 with (I - Y*T*Y.T)
@@ -307,6 +308,7 @@ int armas_qlbuild_w(armas_dense_t * A,
 
         blk_qlbuild(A, (armas_dense_t *) tau, &T, &Wrk, K, lb, conf);
     }
+    armas_wsetpos(wb, wsz);
     return 0;
 }
 #else
diff --git a/src/lapack/qrbld.c b/src/lapack/qrbld.c
index ee7ebc2..2f45c5f 100644
--- a/src/lapack/qrbld.c
+++ b/src/lapack/qrbld.c
@@ -180,6 +180,7 @@ int blk_qrbuild(armas_dense_t * A, armas_dense_t * tau,
         mat_merge2x1(&AL, &A11, &A21);
 
         // block reflector
+        armas_mscale(T, ZERO, 0, conf);
         armas_unblk_qr_reflector(T, &AL, &t1, conf);
 
         // update rightside i.e A12, A22
-- 
2.43.0


From 40ed1ee7fdf909e11358289b67dc7e26bd35ebf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 024/136] fix: lqbuild and rqbuild choose blocking from the row
 count

---
 src/lapack/lqbld.c | 3 ++-
 src/lapack/rqbld.c | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lapack/lqbld.c b/src/lapack/lqbld.c
index ca3e307..a54a95e 100644
--- a/src/lapack/lqbld.c
+++ b/src/lapack/lqbld.c
@@ -302,7 +302,7 @@ int armas_lqbuild_w(armas_dense_t * A,
     wsz = armas_wpos(wb);
     buf = (DTYPE *) armas_wptr(wb);
 
-    if (lb == 0 || A->cols <= lb) {
+    if (lb == 0 || A->rows <= lb) {
         armas_make(&Wrk, A->rows, 1, A->rows, buf);
         unblk_lqbuild(A, (armas_dense_t *) tau, &Wrk, A->rows - K,
                         A->cols - K, TRUE, conf);
@@ -313,6 +313,7 @@ int armas_lqbuild_w(armas_dense_t * A,
 
         blk_lqbuild(A, (armas_dense_t *) tau, &T, &Wrk, K, lb, conf);
     }
+    armas_wsetpos(wb, wsz);
     return 0;
 }
 #else
diff --git a/src/lapack/rqbld.c b/src/lapack/rqbld.c
index 3f07516..280d91f 100644
--- a/src/lapack/rqbld.c
+++ b/src/lapack/rqbld.c
@@ -281,7 +281,7 @@ int armas_rqbuild_w(armas_dense_t * A,
     if (lb > 0 && A->rows > lb) {
         wsz /= sizeof(DTYPE);
         if (wsz < A->rows * lb) {
-            lb = (wsz / A->cols) & ~0x3;
+            lb = (wsz / A->rows) & ~0x3;
             if (lb < ARMAS_BLOCKING_MIN)
                 lb = 0;
         }
@@ -290,7 +290,7 @@ int armas_rqbuild_w(armas_dense_t * A,
     wsz = armas_wpos(wb);
     buf = (DTYPE *) armas_wptr(wb);
 
-    if (lb == 0 || A->cols <= lb) {
+    if (lb == 0 || A->rows <= lb) {
         armas_make(&Wrk, A->rows, 1, A->rows, buf);
         // start row: A->rows - K, column: A.cols - K
         unblk_rqbuild(A, (armas_dense_t *) tau, &Wrk, A->rows-K,
-- 
2.43.0


From ddc339771cadc23130122fa4fa35d1a269fdf747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 025/136] fix: lqsolve workspace minimum

---
 src/lapack/lqsolve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/lqsolve.c b/src/lapack/lqsolve.c
index c2efcfb..8fca073 100644
--- a/src/lapack/lqsolve.c
+++ b/src/lapack/lqsolve.c
@@ -136,7 +136,7 @@ int armas_lqsolve_w(armas_dense_t * B,
         return -ARMAS_ESIZE;
     }
 
-    wsmin = B->rows * sizeof(DTYPE);
+    wsmin = B->cols * sizeof(DTYPE);
     if (!wb || (wsz = armas_wbytes(wb)) < wsmin) {
         conf->error = ARMAS_EWORK;
         return -ARMAS_EWORK;
-- 
2.43.0


From 9351cb752a84b090a567019de58343fb386e7284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:07 +0000
Subject: [PATCH 026/136] fix: lqreflector size check

---
 src/lapack/lq.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/lq.c b/src/lapack/lq.c
index 8144f38..240f8be 100644
--- a/src/lapack/lq.c
+++ b/src/lapack/lq.c
@@ -310,7 +310,7 @@ int armas_lqreflector(armas_dense_t * T, armas_dense_t * A,
     if (!conf)
         conf = armas_conf_default();
 
-    if (T->cols < A->cols || T->rows < A->cols) {
+    if (T->cols < A->rows || T->rows < A->rows) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-- 
2.43.0


From 2a7048b58ae6eba9deb85f2ccf6c1006c792bc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:53 +0000
Subject: [PATCH 027/136] fix: block reflector of hessreduce not cleared when
 tau is zero

---
 src/lapack/hess.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lapack/hess.c b/src/lapack/hess.c
index a294c4a..816fcfa 100644
--- a/src/lapack/hess.c
+++ b/src/lapack/hess.c
@@ -389,6 +389,7 @@ int blk_hess_gqvdg(armas_dense_t * A, armas_dense_t * tau,
             &VT,
             &VB, /**/ V, ATL.rows, ARMAS_PTOP);
         // ---------------------------------------------------------------------
+        armas_mscale(T, ZERO, 0, conf);
         unblk_build_hess_gqvdg(&ABR, T, &VB, conf);
         // t1 = diag(T)
         armas_axpby(ZERO, &t1, ONE, &td, conf);
-- 
2.43.0


From 3a9dfb16ad621eac19e4d0f585d1676d082ce76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:53 +0000
Subject: [PATCH 028/136] fix: trdreduce tau size check

---
 src/lapack/trired.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/trired.c b/src/lapack/trired.c
index d9fa815..2fbd0f2 100644
--- a/src/lapack/trired.c
+++ b/src/lapack/trired.c
@@ -658,7 +658,7 @@ int armas_trdreduce_w(armas_dense_t * A,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-    if (!armas_isvector(tauq) && armas_size(tauq) != A->cols) {
+    if (!armas_isvector(tauq) || armas_size(tauq) != A->cols) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
-- 
2.43.0


From 0ecb20fa535eaa2fb7a63a8e3986b2db15e17add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:51 +0000
Subject: [PATCH 029/136] fix: hessreduce clears block reflector column used as
 workspace when tau is zero

---
 src/lapack/hess.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lapack/hess.c b/src/lapack/hess.c
index 816fcfa..dfba204 100644
--- a/src/lapack/hess.c
+++ b/src/lapack/hess.c
@@ -277,6 +277,9 @@ int unblk_build_hess_gqvdg(armas_dense_t * A, armas_dense_t * T,
                            conf);
             // t01 := T00*t01
             armas_mvmult_trm(&t01, ONE, &T00, ARMAS_UPPER, conf);
+        } else {
+            // was used as workspace above
+            armas_mscale(&t01, ZERO, 0, conf);
         }
         // ---------------------------------------------------------------------
         mat_continue_3x3to2x2(
@@ -389,7 +392,6 @@ int blk_hess_gqvdg(armas_dense_t * A, armas_dense_t * tau,
             &VT,
             &VB, /**/ V, ATL.rows, ARMAS_PTOP);
         // ---------------------------------------------------------------------
-        armas_mscale(T, ZERO, 0, conf);
         unblk_build_hess_gqvdg(&ABR, T, &VB, conf);
         // t1 = diag(T)
         armas_axpby(ZERO, &t1, ONE, &td, conf);
-- 
2.43.0


From 36fc3b49f4154d62dc9bfab9da7b7e02f3b8d1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:44 +0000
Subject: [PATCH 030/136] fix: 2x2 symmetric eigensolver on zero off-diagonal
 and cancellation

---
 src/lapack/aux.c | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/lapack/aux.c b/src/lapack/aux.c
index f05dfae..9b6b9eb 100644
--- a/src/lapack/aux.c
+++ b/src/lapack/aux.c
@@ -336,6 +336,11 @@ void armas_sym_eigen2x2(DTYPE * z1, DTYPE * z2, DTYPE a, DTYPE b, DTYPE c)
         acmax = c;
         acmin = a;
     }
+    if (b == ZERO) {
+        *z1 = acmax;
+        *z2 = acmin;
+        return;
+    }
     b2a = ABS(b + b);
     T = a + c;
     amca = ABS(a - c);
@@ -370,7 +375,7 @@ void armas_sym_eigen2x2(DTYPE * z1, DTYPE * z2, DTYPE a, DTYPE b, DTYPE c)
 void armas_sym_eigen2x2vec(DTYPE * z1, DTYPE * z2, DTYPE * cs,
                              DTYPE * sn, DTYPE a, DTYPE b, DTYPE c)
 {
-    DTYPE T, b2a, amca, Zt, acmax, acmin, ht;
+    DTYPE T, b2a, amc, h, Zt, acmax, acmin, ht;
 
     acmax = a;
     acmin = c;
@@ -378,17 +383,32 @@ void armas_sym_eigen2x2vec(DTYPE * z1, DTYPE * z2, DTYPE * cs,
         acmax = c;
         acmin = a;
     }
+    if (b == ZERO) {
+        *z1 = acmax;
+        *z2 = acmin;
+        *cs = ABS(c) > ABS(a) ? ZERO : ONE;
+        *sn = ABS(c) > ABS(a) ? ONE : ZERO;
+        return;
+    }
     b2a = ABS(b + b);
     T = a + c;
-    amca = ABS(a - c);
-    Zt = T + COPYSIGN(HYPOT(amca, b2a), T);
+    amc = a - c;
+    h = COPYSIGN(HYPOT(amc, b2a), T);
+    Zt = T + h;
     *z1 = HALF * Zt;
     *z2 = TWO * ((acmax / Zt) * acmin - (b / Zt) * b);
 
-    // these should be thought out for cancellation effects....
-    ht = HYPOT(1.0, (*z1 - a) / b);
-    *cs = 1.0 / ht;
-    *sn = (*z1 - a) / (b * ht);
+    // Eigenvector is parallel to (z1 - c, b) and to (b, z1 - a), take the one computed
+    // without cancellation; 2*(z1 - c) = h + (a - c), 2*(z1 - a) = h - (a - c)
+    if (SIGN(h) == SIGN(amc)) {
+        ht = (b + b) / (h + amc);
+        *cs = ONE / HYPOT(ONE, ht);
+        *sn = ht * (*cs);
+    } else {
+        ht = (b + b) / (h - amc);
+        *sn = COPYSIGN(ONE / HYPOT(ONE, ht), ht);
+        *cs = ht * (*sn);
+    }
 }
 //! @}
 #else
-- 
2.43.0


From a6edd841ae688bc0f2ecdaca65083116cc782725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:44 +0000
Subject: [PATCH 031/136] fix: tridiagonal QR never converges on zero matrix

---
 src/lapack/trdevd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/trdevd.c b/src/lapack/trdevd.c
index 045a9ed..a45b401 100644
--- a/src/lapack/trdevd.c
+++ b/src/lapack/trdevd.c
@@ -66,7 +66,7 @@ int armas_trdevd_qr(armas_dense_t * D, armas_dense_t * E,
         for (k = iq - 1; k > 0; k--) {
             e1 = ABS(armas_get_at_unsafe(E, k - 1));
             d1 = ABS(armas_get_at_unsafe(D, k - 1));
-            if (e1 < tol * (d0 + d1)) {
+            if (e1 <= tol * (d0 + d1)) {
                 armas_set_at_unsafe(E, k - 1, ZERO);
                 if (k == (iq - 1)) {
                     // convergence of bottom value;
-- 
2.43.0


From f44271ba47aaa3a8840a98229724c77611d1b658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:44 +0000
Subject: [PATCH 032/136] fix: eigen_sym ordering and size checks, workspace
 restored on error

---
 src/lapack/evd.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/lapack/evd.c b/src/lapack/evd.c
index 8a92d07..6c80895 100644
--- a/src/lapack/evd.c
+++ b/src/lapack/evd.c
@@ -57,6 +57,8 @@ int eigen_sym_small(armas_dense_t * D, armas_dense_t * A,
         armas_set_unsafe(A, 1, 0, ZERO);
         armas_gvright(A, cs, sn, 0, 1, 0, A->rows);
     }
+    // eigenvalues to increasing order
+    armas_sort_eigenvec(D, flags & ARMAS_WANTV ? A : ARMAS_NIL, ARMAS_NIL, ARMAS_NIL, ARMAS_ASC);
     return 0;
 }
 
@@ -147,7 +149,7 @@ int armas_eigen_sym_w(armas_dense_t * D,
         return 0;
     }
 
-    if (A->rows != A->cols && armas_size(D) != A->rows) {
+    if (A->rows != A->cols || armas_size(D) != A->rows) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
@@ -185,8 +187,10 @@ int armas_eigen_sym_w(armas_dense_t * D,
     armas_make(&tau, N, 1, N, buf);
 
     // reduce to tridiagonal form
-    if (armas_trdreduce_w(A, &tau, flags, wb, conf) != 0)
+    if (armas_trdreduce_w(A, &tau, flags, wb, conf) != 0) {
+        armas_wsetpos(wb, wpos);
         return -2;
+    }
 
     // copy diagonals
     armas_diag(&sD, A, 0);
@@ -196,19 +200,19 @@ int armas_eigen_sym_w(armas_dense_t * D,
 
     // if vectors required, build in A
     if (flags & ARMAS_WANTV) {
-        if (armas_trdbuild_w(A, &tau, N, flags, wb, conf) != 0)
+        if (armas_trdbuild_w(A, &tau, N, flags, wb, conf) != 0) {
+            armas_wsetpos(wb, wpos);
             return -3;
+        }
         vv = A;
     }
     // reset reservations workspace
     armas_wsetpos(wb, wpt);
 
     // compute eigenvalues/vectors of tridiagonal matrix
-    if (armas_trdeigen_w(D, &E, vv, flags, wb, conf) != 0)
-        return -4;
-
+    int err = armas_trdeigen_w(D, &E, vv, flags, wb, conf);
     armas_wsetpos(wb, wpos);
-    return 0;
+    return err != 0 ? -4 : 0;
 }
 
 /**
@@ -301,7 +305,7 @@ int armas_eigen_sym_selected_w(armas_dense_t * D,
         return -ARMAS_ESIZE;
     }
 
-    if (!wb && (wsz = armas_wbytes(wb)) < 2 * N * sizeof(DTYPE)) {
+    if (N > 2 && (!wb || (wsz = armas_wbytes(wb)) < 2 * N * sizeof(DTYPE))) {
         conf->error = ARMAS_EWORK;
         return -ARMAS_EWORK;
     }
-- 
2.43.0


From 159bfe2245507da36f7364ce6e448cc3d1c3731c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:44 +0000
Subject: [PATCH 033/136] fix: trdbisect read past E, 0/0 on zero entries and
 small Y

---
 src/lapack/trdbis.c | 53 +++++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/src/lapack/trdbis.c b/src/lapack/trdbis.c
index 5a6fe2b..82c01ed 100644
--- a/src/lapack/trdbis.c
+++ b/src/lapack/trdbis.c
@@ -74,15 +74,19 @@
  * See (1) 5.3 algorithm 4.
  */
 static
-int float_count_ieee(armas_dense_t * D, armas_dense_t * E, DTYPE x)
+int float_count_ieee(armas_dense_t * D, armas_dense_t * E, DTYPE x, DTYPE pivmin)
 {
     int k, count = 0;
     DTYPE d = ONE, bim1 = ZERO;
 
     for (k = 0; k < armas_size(D); k++) {
+        if (k > 0)
+            bim1 = armas_get_at_unsafe(E, k - 1);
         d = (armas_get_at_unsafe(D, k) - x) - bim1 * bim1 / d;
-        bim1 = armas_get_at_unsafe(E, k);
-        count += signbit(d) ? 1 : 0;
+        // keep away from zero; next element divides with this
+        if (ABS(d) < pivmin)
+            d = -pivmin;
+        count += d < ZERO ? 1 : 0;
     }
     return count;
 }
@@ -92,11 +96,11 @@ int float_count_ieee(armas_dense_t * D, armas_dense_t * E, DTYPE x)
 
  *  gl = gl - fudge*tnorm*ulp*n - fudge*two*pivmin
  *  gu = gu + fudge*tnorm*ulp*n + fudge*pivmin
- *  fudge = 2.1; pivmin = min e(i)^2  ; pivmin = pivmin*safemn
+ *  fudge = 2.1; pivmin = max(1, max e(i)^2)  ; pivmin = pivmin*safemn
  */
 static
-void compute_gerschgorin(DTYPE * glow, DTYPE * gup, armas_dense_t * D,
-                           armas_dense_t * E)
+void compute_gerschgorin(DTYPE * glow, DTYPE * gup, DTYPE * pmin,
+                           armas_dense_t * D, armas_dense_t * E)
 {
     int k, n = armas_size(D);
     DTYPE gl, gu, di, ei, eim1, t, bnorm, pivmin;
@@ -114,7 +118,7 @@ void compute_gerschgorin(DTYPE * glow, DTYPE * gup, armas_dense_t * D,
         if (gu < di + t)
             gu = di + t;
         eim1 = ei;
-        if (ei * ei < pivmin)
+        if (ei * ei > pivmin)
             pivmin = ei * ei;
     }
     pivmin = SAFEMIN * pivmin;
@@ -128,7 +132,7 @@ void compute_gerschgorin(DTYPE * glow, DTYPE * gup, armas_dense_t * D,
     bnorm = ABS(gl) > ABS(gu) ? ABS(gl) : ABS(gu);
     *glow = gl - bnorm * (n * EPS) * 2.0 - 4.2 * pivmin;
     *gup = gu + bnorm * (n * EPS) * 2.0 + 2.1 * pivmin;
-
+    *pmin = pivmin;
 }
 
 
@@ -150,13 +154,17 @@ void compute_gerschgorin(DTYPE * glow, DTYPE * gup, armas_dense_t * D,
  * \param tau
  *      requested precision; must be < max|T_i|*eps
  *
+ * \param pivmin
+ *      Smallest pivot
+ *
  * \retval eigenvalue or NaN
  */
 static
 DTYPE trd_bisect_one(armas_dense_t * D,
                        armas_dense_t * E,
                        DTYPE left,
-                       DTYPE right, int nleft, int nright, DTYPE tau)
+                       DTYPE right, int nleft, int nright, DTYPE tau,
+                       DTYPE pivmin)
 {
     int nl, nr, nmid, working = 1;
     DTYPE mid, eigen;
@@ -165,8 +173,8 @@ DTYPE trd_bisect_one(armas_dense_t * D,
         return NAN;
     }
 
-    nl = float_count_ieee(D, E, left);
-    nr = float_count_ieee(D, E, right);
+    nl = float_count_ieee(D, E, left, pivmin);
+    nr = float_count_ieee(D, E, right, pivmin);
     if (nl > nleft || nr < nright) {
         return NAN;
     }
@@ -179,7 +187,7 @@ DTYPE trd_bisect_one(armas_dense_t * D,
             // printf("  eigen: %e [%d iterations]\n", eigen, count);
             working = 0;
         } else {
-            nmid = float_count_ieee(D, E, mid);
+            nmid = float_count_ieee(D, E, mid, pivmin);
             nmid = IMIN(IMAX(nmid, nleft), nright);
             if (nmid > nleft) {
                 right = mid;
@@ -225,29 +233,31 @@ int armas_trdbisect(armas_dense_t * Y,
                       armas_conf_t * conf)
 {
     //armas_dense_t Xrow;
-    DTYPE gleft, gright, bnorm, tau, eigen;
+    DTYPE gleft, gright, bnorm, tau, eigen, pivmin;
     int nleft, nright;
     int first, last;
 
     if (!conf)
         conf = armas_conf_default();
 
-    if (armas_size(D) == 0 || armas_size(E) == 0)
+    if (armas_size(D) == 0)
         return 0;
 
-    compute_gerschgorin(&gleft, &gright, D, E);
+    compute_gerschgorin(&gleft, &gright, &pivmin, D, E);
     bnorm = MAX(ABS(gleft), ABS(gright));
     tau = params ? params->tau : 0.0;
     if (tau < bnorm * EPS)
         tau = bnorm * EPS * 2.1;
+    if (tau < pivmin)
+        tau = pivmin;
 
     if (params && params->ileft != -1 && params->iright != -1) {
         if (params->ileft == 0 && params->iright == 0) {
             // index parameters are zero; eigenvalue range defined.
             gleft = MAX(gleft, params->left);
             gright = MIN(gright, params->right);
-            nleft = float_count_ieee(D, E, gleft);
-            nright = IMAX(0, float_count_ieee(D, E, gright));
+            nleft = float_count_ieee(D, E, gleft, pivmin);
+            nright = IMAX(0, float_count_ieee(D, E, gright, pivmin));
         } else {
             // index range
             nleft = IMAX(0, params->ileft);
@@ -261,12 +271,17 @@ int armas_trdbisect(armas_dense_t * Y,
         last = armas_size(D);
     }
 
+    if (!armas_isvector(Y) || armas_size(Y) < last) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     for (int k = first; k < last; k++) {
-        eigen = trd_bisect_one(D, E, gleft, gright, k, k + 1, tau);
+        eigen = trd_bisect_one(D, E, gleft, gright, k, k + 1, tau, pivmin);
         if (isnan(eigen)) {
             return -1;
         }
-        armas_set_unsafe(Y, k, 0, eigen);
+        armas_set_at_unsafe(Y, k, eigen);
         gleft = (eigen > ZERO ? (ONE - EPS) : (ONE + EPS)) * gleft;
     }
     return 0;
-- 
2.43.0


From 63d7ed3760254c938154b2a9660f89910fada5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:44 +0000
Subject: [PATCH 034/136] fix: secular equation solver convergence and NULL Qd

---
 src/lapack/trdsec.c | 70 ++++++++++++++++++++++++++-------------------
 1 file changed, 40 insertions(+), 30 deletions(-)

diff --git a/src/lapack/trdsec.c b/src/lapack/trdsec.c
index 8d9cd9c..9cdd7be 100644
--- a/src/lapack/trdsec.c
+++ b/src/lapack/trdsec.c
@@ -91,11 +91,13 @@ static inline
 void compute_delta(armas_dense_t * delta, armas_dense_t * D, int ik,
                    DTYPE tau)
 {
-    DTYPE d0, d1;
+    DTYPE d0;
+    // order of the subtractions matters; do not let compiler to reassociate it
+    volatile DTYPE d1;
     d0 = armas_get_at_unsafe(D, ik);
     for (int i = 0; i < armas_size(D); i++) {
-        d1 = (armas_get_at_unsafe(D, i) - d0) - tau;
-        armas_set_at_unsafe(delta, i, d1);
+        d1 = armas_get_at_unsafe(D, i) - d0;
+        armas_set_at_unsafe(delta, i, d1 - tau);
     }
     armas_set_at_unsafe(delta, ik, -tau);
 }
@@ -330,31 +332,25 @@ int trdsec_root(DTYPE * lambda, armas_dense_t * D, armas_dense_t * Z,
 
     N = armas_size(D);
     tau = ZERO;
+    if (N == 1) {
+        A = armas_get_at_unsafe(Z, 0);
+        tau = rho * A * A;
+        armas_set_at_unsafe(delta, 0, -tau);
+        *lambda = armas_get_at_unsafe(D, 0) + tau;
+        return 0;
+    }
 
     // compute initial value at (D[k] + D[k+1])/2
     // note: D[i] - (D[k] + D[k+1])/2 == D[i] - D[k] - (D[k+1] - D[k])/2.0
     iK = trdsec_initial_guess(&tau, &tau_low,
                               &tau_high, D, Z, delta, index, rho);
-    if (iK == index) {
-        iK1 = index + 1;
-        delta_k = armas_get_at_unsafe(delta, iK);
-        if (index < N - 1) {
-            delta_k1 = armas_get_at_unsafe(delta, iK1);
-        } else {
-            delta_k1 = tau;
-        }
-    } else {
-        iK1 = index;
-        delta_k1 = armas_get_at_unsafe(delta, iK1);
-        if (index < N - 1) {
-            delta_k = armas_get_at_unsafe(delta, iK);
-        } else {
-            delta_k = tau;
-        }
-    }
+    // for the last root the interpolation points are the two last entries
+    iK1 = iK == index ? index + 1 : index;
+    delta_k = armas_get_at_unsafe(delta, iK);
+    delta_k1 = armas_get_at_unsafe(delta, iK1);
     eta = ONE;
     eta0 = ONE;
-    maxiter = 20;
+    maxiter = 30;
     for (niter = 0; niter < maxiter; niter++) {
 
         G = ZERO;
@@ -365,7 +361,7 @@ int trdsec_root(DTYPE * lambda, armas_dense_t * D, armas_dense_t * Z,
         rational_backward(&H, &dH, Z, delta, iK + 1, N);
         F = 1 / rho + G + H;
         dF = dG + dH;
-        Fa = 1 / rho + ABS(G + H);
+        Fa = 1 / rho + ABS(G) + ABS(H);
 
         da_k = ABS(delta_k);
         da_k1 = ABS(delta_k1);
@@ -377,7 +373,7 @@ int trdsec_root(DTYPE * lambda, armas_dense_t * D, armas_dense_t * Z,
             break;
         }
         // stopping criterion from (1), eq 49
-        if (eta * eta < EPS * edif) {
+        if (niter > 1 && eta * eta < EPS * edif) {
             break;
         }
         if (F < ZERO) {
@@ -393,7 +389,14 @@ int trdsec_root(DTYPE * lambda, armas_dense_t * D, armas_dense_t * Z,
         B /= 2.0;
         armas_discriminant(&dd, A, B, C);
         eta0 = eta;
-        if (B > 0) {
+        if (index == N - 1) {
+            // root is above the both poles
+            if (B > ZERO) {
+                eta = (B + SQRT(dd)) / ABS(A);
+            } else {
+                eta = C / (B - SQRT(dd));
+            }
+        } else if (B > ZERO) {
             eta = C / (B + SQRT(dd));
         } else {
             eta = (B - SQRT(dd)) / A;
@@ -412,6 +415,10 @@ int trdsec_root(DTYPE * lambda, armas_dense_t * D, armas_dense_t * Z,
             }
         }
 
+        // stopping criterion from (1), eq 48; step is too small to matter
+        if (ABS(eta) <= 4 * EPS * (da_k < da_k1 ? da_k : da_k1)) {
+            break;
+        }
         tau += eta;
         delta_k -= eta;
         delta_k1 -= eta;
@@ -475,18 +482,18 @@ void update_vec_delta(DTYPE * vk, armas_dense_t * d,
  * For details see (3). Computation as equation 3.3 in (3)
  */
 static inline
-void trdsec_update_vec_delta(armas_dense_t * z, armas_dense_t * Q,
-                             armas_dense_t * d, DTYPE rho)
+void trdsec_update_vec_delta(armas_dense_t * v, armas_dense_t * Q,
+                             armas_dense_t * d, armas_dense_t * z, DTYPE rho)
 {
     armas_dense_t delta;
     DTYPE zk;
     int i;
     EMPTY(delta);
 
-    for (i = 0; i < armas_size(z); i++) {
+    for (i = 0; i < armas_size(v); i++) {
         armas_column(&delta, Q, i);
         update_vec_delta(&zk, d, &delta, i, rho);
-        armas_set_at_unsafe(z, i, zk);
+        armas_set_at_unsafe(v, i, COPYSIGN(zk, armas_get_at_unsafe(z, i)));
     }
 }
 
@@ -702,7 +709,7 @@ int armas_trdsec_solve_vec(armas_dense_t * y, armas_dense_t * v,
         armas_set_at_unsafe(y, i, dlam);
     }
     if (err == 0) {
-        trdsec_update_vec_delta(v, Qd, d, rho);
+        trdsec_update_vec_delta(v, Qd, d, z, rho);
     } else {
         conf->error = ARMAS_ECONVERGE;
     }
@@ -734,6 +741,9 @@ int armas_trdsec_eigen(armas_dense_t * Q, armas_dense_t * v,
     if (!conf)
         conf = armas_conf_default();
 
+    if (!Qd)
+        Qd = Q;
+
     if (Q->rows != Q->cols || Qd->rows != Qd->cols) {
         conf->error = ARMAS_ESIZE;
         return -1;
@@ -743,7 +753,7 @@ int armas_trdsec_eigen(armas_dense_t * Q, armas_dense_t * v,
         return -1;
     }
 
-    if (!Qd || Q == Qd) {
+    if (Q == Qd) {
         trdsec_eigenbuild_inplace(Q, v, conf);
     } else {
         trdsec_eigen2_build(Q, v, Qd, conf);
-- 
2.43.0


From 630531f3ac068bfc19a3a3873fa5b104ce8f8ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:19 +0000
Subject: [PATCH 035/136] fix: trdbisect hangs when interval is one ulp wide

---
 src/lapack/trdbis.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lapack/trdbis.c b/src/lapack/trdbis.c
index 82c01ed..ce39ab9 100644
--- a/src/lapack/trdbis.c
+++ b/src/lapack/trdbis.c
@@ -182,7 +182,8 @@ DTYPE trd_bisect_one(armas_dense_t * D,
     for (int count = 0; working; count++) {
         // inside(l, r) (see Assumption 3 in (1))
         mid = (right + left) / 2.0;
-        if (right - left < tau) {
+        // stop also if there is nothing left between left and right
+        if (right - left < tau || mid <= left || mid >= right) {
             eigen = MIN(MAX(mid, left), right);
             // printf("  eigen: %e [%d iterations]\n", eigen, count);
             working = 0;
-- 
2.43.0


From 9e5b39502d1c19b35983020725d69dc1b699c6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 036/136] fix: bdsvd Demmel-Kahan thresholds, shift and
 direction

---
 src/lapack/bdsvd_dk.c | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/lapack/bdsvd_dk.c b/src/lapack/bdsvd_dk.c
index 6def402..b112f73 100644
--- a/src/lapack/bdsvd_dk.c
+++ b/src/lapack/bdsvd_dk.c
@@ -47,7 +47,7 @@ void estimate_sval(DTYPE * smin, DTYPE * smax, armas_dense_t * D,
     int k, N = armas_size(D);
 
     d1 = ABS(armas_get_at_unsafe(D, 0));
-    e1 = ABS(armas_get_at_unsafe(E, 0));
+    e1 = N > 1 ? ABS(armas_get_at_unsafe(E, 0)) : ZERO;
     e0 = e1;
     ssmax = d1 > e1 ? d1 : e1;
     mu = ssmin = d1;
@@ -143,15 +143,9 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
     }
 
     estimate_sval(&slow, &shigh, D, E);
-    if (conf->optflags & ARMAS_OABSTOL) {
+    threshold = tol * (abstol ? shigh : slow);
+    if (threshold < maxit * SAFEMIN)
         threshold = maxit * SAFEMIN;
-        if (tol * shigh < threshold)
-            threshold = tol * shigh;
-    } else {
-        threshold = tol * slow;
-        if (maxit * SAFEMIN < threshold)
-            threshold = maxit * SAFEMIN;
-    }
 
     // iq points past the last entry i.e. last entry on index iq-1
     // First divide B to blocks B0, B1, B2 where B2 has all off diagonal
@@ -171,7 +165,7 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
         // We search from bottom of the matrix to top and zero values below threshold
         // on the way upwards. And update estimates of singular values.
         d0 = ABS(armas_get_at_unsafe(D, iq - 1));
-        if (abstol && d0 < threshold)
+        if (abstol && d0 <= threshold)
             armas_set_at_unsafe(D, iq - 1, ZERO);
         shigh = ABS(armas_get_at_unsafe(D, iq - 1));
         slow = shigh;
@@ -179,7 +173,7 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
         for (k = iq - 1; k > 0; k--) {
             d0 = ABS(armas_get_at_unsafe(D, k - 1));
             e0 = ABS(armas_get_at_unsafe(E, k - 1));
-            if (e0 < threshold) {
+            if (e0 <= threshold) {
                 armas_set_at_unsafe(E, k - 1, ZERO);
                 if (k == (iq - 1)) {
                     // convergence of bottom singular value
@@ -193,6 +187,10 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
                 break;
             }
             ip = k - 1;
+            if (abstol && d0 <= threshold) {
+                armas_set_at_unsafe(D, k - 1, ZERO);
+                d0 = ZERO;
+            }
             // update estimates
             slow = MIN(slow, d0);
             shigh = MAX(MAX(shigh, d0), e0);
@@ -236,7 +234,7 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
             d0 = ABS(armas_get_at_unsafe(D, ip));
             d1 = ABS(armas_get_at_unsafe(D, iq - 1));
             // select direction
-            forwards = d1 >= d0 || (flags & ARMAS_FORWARD) != 0;
+            forwards = d0 >= d1 || (flags & ARMAS_FORWARD) != 0;
         }
         // convergence
         if (forwards) {
@@ -244,14 +242,15 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
             e0 = ABS(armas_get_at_unsafe(E, iq - 2));
             d0 = ABS(armas_get_at_unsafe(D, iq - 1));
             // this is the standard convergence test 
-            if ((abstol && e0 < threshold) || e0 < tol * d0) {
+            if ((abstol && e0 <= threshold) || e0 <= tol * d0) {
                 armas_set_at_unsafe(E, iq - 2, ZERO);
                 iq = iq - 1;
                 goto Next;
             }
             // if relative tolerance then criteria 1a.
             if (!abstol) {
-                mu = ABS(armas_get_at_unsafe(D, ip));
+                // smallest of the recurrence values is lower bound for singular values
+                slow = mu = ABS(armas_get_at_unsafe(D, ip));
                 for (k = ip; k < iq - 1; k++) {
                     e0 = armas_get_at_unsafe(E, k);
                     if (ABS(e0) <= tol * mu) {
@@ -261,20 +260,21 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
                     }
                     d0 = ABS(armas_get_at_unsafe(D, k + 1));
                     mu = d0 * (mu / (mu + ABS(e0)));
+                    slow = MIN(slow, mu);
                 }
             }
         } else {
             // criterion 1a, 1b, 2b
             e0 = ABS(armas_get_at_unsafe(E, ip));
             d0 = ABS(armas_get_at_unsafe(D, ip));
-            if ((abstol && e0 < threshold) || e0 < tol * d0) {
+            if ((abstol && e0 <= threshold) || e0 <= tol * d0) {
                 armas_set_at_unsafe(E, ip, ZERO);
                 ip = ip + 1;
                 goto Next;
             }
             // if relative tolerance then criteria 1b.
             if (!abstol) {
-                mu = ABS(armas_get_at_unsafe(D, iq - 1));
+                slow = mu = ABS(armas_get_at_unsafe(D, iq - 1));
                 for (k = iq - 1; k > ip; k--) {
                     e0 = armas_get_at_unsafe(E, k - 1);
                     if (ABS(e0) <= tol * mu) {
@@ -284,28 +284,28 @@ int armas_bdsvd_demmel(armas_dense_t * D, armas_dense_t * E,
                     }
                     d0 = ABS(armas_get_at_unsafe(D, k - 1));
                     mu = d0 * (mu / (mu + ABS(e0)));
+                    slow = MIN(slow, mu);
                 }
             }
         }
         // compute shift
-        if (!abstol && (N * tol * (slow / shigh)) <= max(EPS, 0.01 * tol)) {
+        if (slow == ZERO || (!abstol && (N * tol * (slow / shigh)) <= MAX(EPS, 0.01 * tol))) {
             zero = 1;
         } else {
             if (forwards) {
-                d0 = ABS(armas_get_at_unsafe(D, ip));
+                d0 = armas_get_at_unsafe(D, ip);
                 d1 = armas_get_at_unsafe(D, iq - 2);
                 e1 = armas_get_at_unsafe(E, iq - 2);
                 dp = armas_get_at_unsafe(D, iq - 1);
                 armas_bdsvd2x2(&ushift, &r, d1, e1, dp);
             } else {
-                d0 = ABS(armas_get_at_unsafe(D, iq - 1));
+                d0 = armas_get_at_unsafe(D, iq - 1);
                 d1 = armas_get_at_unsafe(D, ip);
                 e1 = armas_get_at_unsafe(E, ip);
                 dp = armas_get_at_unsafe(D, ip + 1);
                 armas_bdsvd2x2(&ushift, &r, d1, e1, dp);
             }
-            if (d0 > ZERO)
-                zero = (ushift / d0) * (ushift / d0) <= EPS;
+            zero = d0 == ZERO || (ushift / d0) * (ushift / d0) <= EPS;
         }
 
         armas_subvector(&sD, D, ip, iq - ip);
-- 
2.43.0


From 196845d8e2de54a1cf11a36ffaa912a9a3a92062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 037/136] fix: bdsvd Golub deflation of zero diagonals and
 shift

---
 src/lapack/bdsvd_gr.c | 83 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 67 insertions(+), 16 deletions(-)

diff --git a/src/lapack/bdsvd_gr.c b/src/lapack/bdsvd_gr.c
index f4f4572..3b688c8 100644
--- a/src/lapack/bdsvd_gr.c
+++ b/src/lapack/bdsvd_gr.c
@@ -99,20 +99,63 @@ int find_diagonal_blocks(int *ip, int *iq, armas_dense_t * D,
 static
 DTYPE compute_bsvd_shift(DTYPE e, DTYPE f, DTYPE g, DTYPE h)
 {
-    DTYPE e1, e2, a, b, c, T, D;
-    a = f * f + e * e;
+    DTYPE b, c, d, t;
+    // shift is the eigenvalue closer to c; d = (a - c)/2
     b = g * f;
     c = h * h + g * g;
-    T = (a + c) / 2.0;
-    D = a * c - b * b;
-    armas_qdroots(&e1, &e2, 1.0, T, D);
-    if (ABS(e1) - c < ABS(e2) - c)
-        return e1;
-    return e2;
+    if (b == ZERO)
+        return c;
+    d = ((f - h) * (f + h) + (e - g) * (e + g)) / 2.0;
+    t = ABS(d) + HYPOT(d, b);
+    return c - COPYSIGN(b * (b / t), d);
 }
 
 
 
+/*
+ * \brief Deflate block [ip, iq) with zero on diagonal at index i.
+ *
+ * Rotates the off-diagonal entry on the row i out of the block or, if the zero is the last
+ * diagonal entry, the last off-diagonal entry in column iq-1.
+ */
+static
+void zero_diagonal(armas_dense_t * D, armas_dense_t * E, armas_dense_t * U,
+                   armas_dense_t * V, int i, int ip, int iq)
+{
+    int k;
+    DTYPE c, s, r, f, e;
+
+    if (i < iq - 1) {
+        f = armas_get_at_unsafe(E, i);
+        armas_set_at_unsafe(E, i, ZERO);
+        for (k = i + 1; k < iq; k++) {
+            armas_gvcompute(&c, &s, &r, armas_get_at_unsafe(D, k), f);
+            armas_set_at_unsafe(D, k, r);
+            if (k < iq - 1) {
+                e = armas_get_at_unsafe(E, k);
+                f = -s * e;
+                armas_set_at_unsafe(E, k, c * e);
+            }
+            if (U)
+                armas_gvright(U, c, s, k, i, 0, U->rows);
+        }
+        return;
+    }
+    f = armas_get_at_unsafe(E, i - 1);
+    armas_set_at_unsafe(E, i - 1, ZERO);
+    for (k = i - 1; k >= ip; k--) {
+        armas_gvcompute(&c, &s, &r, armas_get_at_unsafe(D, k), f);
+        armas_set_at_unsafe(D, k, r);
+        if (k > ip) {
+            e = armas_get_at_unsafe(E, k - 1);
+            f = -s * e;
+            armas_set_at_unsafe(E, k - 1, c * e);
+        }
+        if (V)
+            armas_gvleft(V, c, s, k, i, 0, V->cols);
+    }
+}
+
 /*
  * Golub-Kahan-Reisch SVD algorithm as described in
  *  - Hogben, Handbook of Linear Algebra 2007, 45.2 algorithm 1b,1c
@@ -123,7 +166,7 @@ int armas_bdsvd_golub(armas_dense_t * D, armas_dense_t * E,
                   armas_dense_t * CS, DTYPE tol, armas_conf_t * conf)
 {
     int N, work, lc, i, n, nrot, ip, iq, zeros, saves;
-    DTYPE e0, e1, d0, d1, dp, c, s, r, ushift;
+    DTYPE e0, e1, d0, d1, dp, ushift, dzero;
     armas_dense_t sD, sE, Cr, Sr, Cl, Sl;
 
     EMPTY(sD);
@@ -141,6 +184,15 @@ int armas_bdsvd_golub(armas_dense_t * D, armas_dense_t * E,
         saves = 1;
     }
 
+    // diagonal entries negligible compared to norm of B are taken as zeros
+    dzero = ZERO;
+    for (i = 0; i < N; i++) {
+        dzero = MAX(dzero, ABS(armas_get_at_unsafe(D, i)));
+        if (i < N - 1)
+            dzero = MAX(dzero, ABS(armas_get_at_unsafe(E, i)));
+    }
+    dzero *= EPS;
+
     ip = 0;
     iq = N;
     for (work = 1, n = 0; work && lc > 0; lc--, n++) {
@@ -152,7 +204,7 @@ int armas_bdsvd_golub(armas_dense_t * D, armas_dense_t * E,
             d0 = armas_get_at_unsafe(D, i);
             d1 = armas_get_at_unsafe(D, i + 1);
             dp = ABS(d0) + ABS(d1);
-            if (ABS(e1) < tol * dp) {
+            if (ABS(e1) <= tol * dp) {
                 armas_set_at(E, i, 0.0);
             }
         }
@@ -167,13 +219,12 @@ int armas_bdsvd_golub(armas_dense_t * D, armas_dense_t * E,
         // from column iq already diagonal; work ip:iq
         zeros = 0;
         for (i = ip; i < iq; i++) {
-            d0 = armas_get_at(D, i);
-            if (d0 == 0.0) {
-                e1 = armas_get_at(E, i);
-                armas_gvcompute(&c, &s, &r, d0, e1);
-                armas_set_at_unsafe(D, i, r);
-                armas_set_at_unsafe(E, i, 0.0);
+            d0 = armas_get_at_unsafe(D, i);
+            if (ABS(d0) <= dzero) {
+                armas_set_at_unsafe(D, i, ZERO);
+                zero_diagonal(D, E, U, V, i, ip, iq);
                 zeros = 1;
+                break;
             }
         }
         if (zeros)
-- 
2.43.0


From 5bf7c6390d8352222b6d036d0672c4c5497c7ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 038/136] fix: bdsvd2x2_vec signs when off-diagonal is zero

---
 src/lapack/aux.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lapack/aux.c b/src/lapack/aux.c
index 9b6b9eb..24ae639 100644
--- a/src/lapack/aux.c
+++ b/src/lapack/aux.c
@@ -279,13 +279,13 @@ void armas_bdsvd2x2_vec(DTYPE * ssmin, DTYPE * ssmax, DTYPE * cosl,
         *sinr = clt;
         *cosl = srt;
         *sinl = crt;
-        tsign = sign(ONE, *cosr) * sign(ONE, *cosl) * sign(ONE, f);
+        tsign = sign(ONE, *sinr) * sign(ONE, *sinl) * sign(ONE, h);
     } else {
         *cosr = crt;
         *sinr = srt;
         *cosl = clt;
         *sinl = slt;
-        tsign = sign(ONE, *sinr) * sign(ONE, *sinl) * sign(ONE, h);
+        tsign = sign(ONE, *cosr) * sign(ONE, *cosl) * sign(ONE, f);
     }
     if (gmax)
         tsign = sign(ONE, *sinr) * sign(ONE, *cosl) * sign(ONE, g);
-- 
2.43.0


From 37e877776e24a9146b2ebafa5b58d1cc7e9e8f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 039/136] fix: svd workspace size and sign of 1-by-1 vectors

---
 src/lapack/svd.c | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/lapack/svd.c b/src/lapack/svd.c
index 8f92e31..060e3f2 100644
--- a/src/lapack/svd.c
+++ b/src/lapack/svd.c
@@ -89,12 +89,12 @@ int armas_svd_small(armas_dense_t * S, armas_dense_t * U,
                         return -ARMAS_ESVD_LEFT;
                 }
             } else {
-                // U is 1-by-1
-                armas_set_unsafe(U, 0, 0, -ONE);
+                // U is 1-by-1, sign of the entry
+                armas_set_unsafe(U, 0, 0, COPYSIGN(ONE, armas_get_unsafe(A, 0, 0)));
             }
         }
         if (flags & ARMAS_WANTV) {
-            if (M == 1) {
+            if (N > 1) {
                 if (V->rows == A->rows) {
                     armas_copy(V, A, conf);
                     armas_lqbuild_w(V, &tau, M, wb, conf);
@@ -106,8 +106,8 @@ int armas_svd_small(armas_dense_t * S, armas_dense_t * U,
                         return -ARMAS_ESVD_RIGHT;
                 }
             } else {
-                // V is 1-by-1
-                armas_set_unsafe(V, 0, 0, -ONE);
+                // V is 1-by-1, sign of the entry
+                armas_set_unsafe(V, 0, 0, COPYSIGN(ONE, armas_get_unsafe(A, 0, 0)));
             }
         }
         return 0;
@@ -272,6 +272,7 @@ int armas_svd_tall(armas_dense_t * S, armas_dense_t * U,
             return -ARMAS_ESVD_RIGHT;
         vv = V;
     }
+    armas_wsetpos(wb, wsz);
     // run bidiagonal SVD
     if (armas_bdsvd_w(S, &sE, uu, vv, flags | ARMAS_UPPER, wb, conf) < 0)
         return -ARMAS_ESVD_EIGEN;
@@ -571,8 +572,8 @@ int armas_svd_w(armas_dense_t * S,
                   armas_dense_t * A,
                   int flags, armas_wbuf_t * wb, armas_conf_t * conf)
 {
-    int err, tall;
-    armas_dense_t W;
+    int err, tall, P;
+    size_t wpos;
     armas_env_t *env;
 
     if (!conf)
@@ -584,14 +585,14 @@ int armas_svd_w(armas_dense_t * S,
     }
 
     tall = A->rows >= A->cols;
+    P = tall ? A->cols : A->rows;
     env = armas_getenv();
     if (wb && wb->bytes == 0) {
-        int P = A->rows >= A->cols ? A->cols : A->rows;
-        int K = A->rows >= A->cols ? A->rows : A->cols;
-        if (P <= env->lb)
-            wb->bytes = 4 * P * sizeof(DTYPE);
-        else
-            wb->bytes = (K + env->lb) * env->lb * sizeof(DTYPE);
+        // scalar coefficents and space for reduction and for building/multiplying U and V
+        wb->bytes = (A->rows + A->cols) * sizeof(DTYPE);
+        if (env->lb > 0 && P > env->lb)
+            wb->bytes = (A->rows + A->cols + env->lb) * env->lb * sizeof(DTYPE);
+        wb->bytes += 2 * P * sizeof(DTYPE);
         return 0;
     }
 
@@ -603,7 +604,7 @@ int armas_svd_w(armas_dense_t * S,
         return -ARMAS_ESIZE;
     }
 
-    if (!wb) {
+    if (!wb || armas_wbytes(wb) < (A->rows + A->cols + 2 * P) * sizeof(DTYPE)) {
         conf->error = ARMAS_EWORK;
         return -ARMAS_EWORK;
     }
@@ -611,7 +612,7 @@ int armas_svd_w(armas_dense_t * S,
     if (flags & ARMAS_WANTU) {
         if (!U) {
             conf->error = ARMAS_EINVAL;
-            return -1;
+            return -ARMAS_EINVAL;
         }
         if (tall) {
             // if M >= N then U be either M-by-N or M-by-M
@@ -658,9 +659,7 @@ int armas_svd_w(armas_dense_t * S,
         }
     }
 
-    int K = armas_wbytes(wb) / sizeof(DTYPE);
-    armas_make(&W, K, 1, K, armas_wptr(wb));
-
+    wpos = armas_wpos(wb);
     if (tall) {
         if (A->cols <= 2) {
             err = armas_svd_small(S, U, V, A, flags, wb, conf);
@@ -674,6 +673,7 @@ int armas_svd_w(armas_dense_t * S,
             err = armas_svd_wide(S, U, V, A, flags, wb, conf);
         }
     }
+    armas_wsetpos(wb, wpos);
     return err;
 }
 #else
-- 
2.43.0


From 09cd9776792af534bdb75b8c43d00d8dc8691230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:23 +0000
Subject: [PATCH 040/136] fix: dqds zeros on diagonal, diagonal matrices and
 index underflow

---
 src/lapack/dqds.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/lapack/dqds.c b/src/lapack/dqds.c
index e236838..646dedd 100644
--- a/src/lapack/dqds.c
+++ b/src/lapack/dqds.c
@@ -278,7 +278,7 @@ void dqds_shift(DTYPE * tau, armas_dense_t * q, armas_dense_t * e,
     qn = an = dm->dn;
     qn1 = armas_get_at_unsafe(q, N - 2);
     en1 = armas_get_at_unsafe(e, N - 2);
-    en2 = armas_get_at_unsafe(e, N - 3);
+    en2 = N > 2 ? armas_get_at_unsafe(e, N - 3) : ZERO;
     an1 = qn1 + en1;
     bn1 = SQRT(qn) * SQRT(en1);
 
@@ -535,10 +535,13 @@ int dqds_neglible(armas_dense_t * Z, int N, int ping, DTYPE sigma)
     //  e(n-2) neglible if
     //    old.e(n-2) <= eps^2*q(n-2) || e(n-2) <= eps^2*(sigma + q(n-1)*q(n)/(q(n)+e(n-1)))
 
-    en1 = armas_get_unsafe(Z, erow, N - 2);
-    en1p = armas_get_unsafe(Z, eerow, N - 2);
     qn = armas_get_unsafe(Z, qrow, N - 1);
-    qn1 = armas_get_unsafe(Z, qrow, N - 2);
+    en1 = en1p = qn1 = ZERO;
+    if (N > 1) {
+        en1 = armas_get_unsafe(Z, erow, N - 2);
+        en1p = armas_get_unsafe(Z, eerow, N - 2);
+        qn1 = armas_get_unsafe(Z, qrow, N - 2);
+    }
 
     // deflate if N == 1 or if last E is neglibe --> 1 eigenvalue 
     if (N == 1 || en1 <= EPS2 * (sigma + qn) || en1p <= EPS2 * qn1) {
@@ -859,7 +862,7 @@ void dqds_li_test(int ping, armas_dense_t * Z, int N, DTYPE * emin,
         ek = armas_get_at_unsafe(&se, k);
         qk1 = armas_get_at_unsafe(&sq, k + 1);
         qk = d + ek;
-        if (ek < EPS2 * d) {
+        if (ek <= EPS2 * d) {
             // Li's test eq.5 in (1), page 12
             //printf("..[li] ek=%13e < EPS2*d [%13e, %13e]\n", ek, d, EPS2*d);
             armas_set_at_unsafe(&se, k, -ZERO);
@@ -1149,6 +1152,11 @@ int armas_dqds_w(armas_dense_t * D, armas_dense_t * E, armas_wbuf_t * wb,
 
     if (emax == ZERO) {
         // already diagonal
+        for (k = 0; k < N; k++) {
+            armas_set_at_unsafe(D, k, armas_get_at_unsafe(&sq, k));
+        }
+        armas_sort_eigenvec(D, __nil, __nil, __nil, ARMAS_DESC);
+        armas_wsetpos(wb, wsz);
         return 0;
     }
 #if defined(__DQDS_SCALING)
-- 
2.43.0


From 53a3fa47ddf962a978b1d13a07d957156d8bf3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:23 +0000
Subject: [PATCH 041/136] fix: keep Givens updates inside the matrix

---
 src/lapack/givens.c | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/lapack/givens.c b/src/lapack/givens.c
index 6871811..b7fa073 100644
--- a/src/lapack/givens.c
+++ b/src/lapack/givens.c
@@ -146,7 +146,7 @@ void armas_gvleft(armas_dense_t * A, DTYPE c, DTYPE s, int r1, int r2,
         }
         return;
     }
-    gvleft(A, c, s, r1, r2, col, ncol);
+    gvleft(A, c, s, r1, r2, col, lastc - col);
 }
 
 
@@ -186,7 +186,7 @@ void armas_gvright(armas_dense_t * A, DTYPE c, DTYPE s, int c1, int c2,
         }
         return;
     }
-    gvright(A, c, s, c1, c2, row, nrow);
+    gvright(A, c, s, c1, c2, row, lastr - row);
 }
 
 /**
@@ -220,8 +220,8 @@ void armas_gvright(armas_dense_t * A, DTYPE c, DTYPE s, int c1, int c2,
  *      flag backward (ARMAS_BACKWARD)  or forward (ARMAS_FORWARD). Forward is
  *      default direction for updates.
  * @return
- *      Number of rotation applied, min(nrot, A->rows-start) for left and
- *      min(nrot, A->cols-start) for right.
+ *      Number of rotation applied, min(nrot, A->rows-start-1) for left and
+ *      min(nrot, A->cols-start-1) for right.
  *
  * @ingroup lapack
  */
@@ -229,21 +229,26 @@ int armas_gvupdate(armas_dense_t * A, int start,
                      armas_dense_t * C, armas_dense_t * S, int nrot,
                      int flags)
 {
-    int k, n, end = start + nrot;
+    int k, n, last;
     DTYPE c, s;
 
+    // rotation at k updates rows (columns) k and k+1; drop rotations not in A
+    last = ((flags & ARMAS_LEFT) ? A->rows : A->cols) - 1;
+    if (nrot > last - start)
+        nrot = last - start;
+    if (nrot <= 0)
+        return 0;
+
     if (flags & ARMAS_BACKWARD) {
         if (flags & ARMAS_LEFT) {
-            end = min(A->rows, end);
-            for (k = end, n = nrot; n > 0 && k > start; n--, k--) {
+            for (k = start + nrot, n = nrot; n > 0; n--, k--) {
                 c = armas_get_at_unsafe(C, n - 1);
                 s = armas_get_at_unsafe(S, n - 1);
                 if (c != 1.0 || s != 0.0)
                     gvleft(A, c, s, k - 1, k, 0, A->cols);
             }
         } else {
-            end = min(A->cols, end);
-            for (k = end, n = nrot; n > 0 && k > start; n--, k--) {
+            for (k = start + nrot, n = nrot; n > 0; n--, k--) {
                 c = armas_get_at_unsafe(C, n - 1);
                 s = armas_get_at_unsafe(S, n - 1);
                 if (c != 1.0 || s != 0.0)
@@ -253,16 +258,14 @@ int armas_gvupdate(armas_dense_t * A, int start,
     } else {
         // here we apply forward direction
         if (flags & ARMAS_LEFT) {
-            end = min(A->rows, end);
-            for (k = start, n = 0; n < nrot && k < end; n++, k++) {
+            for (k = start, n = 0; n < nrot; n++, k++) {
                 c = armas_get_at_unsafe(C, n);
                 s = armas_get_at_unsafe(S, n);
                 if (c != 1.0 || s != 0.0)
                     gvleft(A, c, s, k, k + 1, 0, A->cols);
             }
         } else {
-            end = min(A->cols, end);
-            for (k = start, n = 0; n < nrot && k < end; n++, k++) {
+            for (k = start, n = 0; n < nrot; n++, k++) {
                 c = armas_get_at_unsafe(C, n);
                 s = armas_get_at_unsafe(S, n);
                 if (c != 1.0 || s != 0.0)
@@ -270,7 +273,7 @@ int armas_gvupdate(armas_dense_t * A, int start,
             }
         }
     }
-    return n;
+    return nrot;
 }
 
 
-- 
2.43.0


From fd72c5b315183ce17f51f02fbe91623a8c01d51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:23 +0000
Subject: [PATCH 042/136] fix: correct roots of quadratic with zero linear term

---
 src/lapack/qdroot.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lapack/qdroot.c b/src/lapack/qdroot.c
index 780e8c8..0a9a207 100644
--- a/src/lapack/qdroot.c
+++ b/src/lapack/qdroot.c
@@ -145,9 +145,10 @@ int armas_qdroots(DTYPE * x1, DTYPE * x2, DTYPE a, DTYPE b, DTYPE c)
         return 1;
     }
     signb = SIGN(b) ? -1.0 : 1.0;
-    s = SQRT(d) * (signb + (DTYPE) (b == ZERO)) + b;
+    s = SQRT(d) * signb + b;
     *x1 = s / a;
-    *x2 = c / s;
+    // s is zero only if both b and c are zeros
+    *x2 = s == ZERO ? ZERO : c / s;
     return 0;
 }
 
-- 
2.43.0


From 5e954ec996d49d9d061ef4107b87aec1cd6f9a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:23 +0000
Subject: [PATCH 043/136] fix: size housemult workspace for the default side

---
 src/lapack/housem.c | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/lapack/housem.c b/src/lapack/housem.c
index 424ba82..789f4c8 100644
--- a/src/lapack/housem.c
+++ b/src/lapack/housem.c
@@ -27,6 +27,15 @@
 #include "internal_lapack.h"
 #include "partition.h"
 
+/*
+ * Column vector from left or row vector from right; no workspace needed.
+ */
+static inline
+int vector_operand(const armas_dense_t * X, int flags)
+{
+    return ((flags & ARMAS_RIGHT) != 0 ? X->rows : X->cols) == 1;
+}
+
 /*
  * Unblocked algorith for computing X = Q*X and X = Q.T*X
  *
@@ -69,7 +78,7 @@ void hmult_left(armas_dense_t * X, armas_dense_t * tau, armas_dense_t * P,
 
     int unit = flags & ARMAS_UNIT;
     int m = P->cols;
-    int isvector = armas_isvector(X);
+    int isvector = vector_operand(X, flags);
 
     if ((flags & ARMAS_TRANS) != 0) {
         // compute x = H(m-1)*...H(1)*H(0)*x
@@ -188,7 +197,7 @@ void hmult_right(armas_dense_t * X, armas_dense_t * tau,
 
     int unit = flags & ARMAS_UNIT;
     int m = P->cols;
-    int isvector = armas_isvector(X);
+    int isvector = vector_operand(X, flags);
 
     if ((flags & ARMAS_TRANS) != 0) {
         // compute x = x*H(m-1)*...H(1)*H(0)
@@ -316,13 +325,13 @@ int armas_housemult_w(armas_dense_t * X,
     if (!cf)
         cf = armas_conf_default();
 
-    if (!wb && !armas_isvector(X)) {
+    if (!wb && !vector_operand(X, flags)) {
         cf->error = ARMAS_EINVAL;
         return -1;
     }
-    if (!armas_isvector(X) && wb->bytes == 0) {
+    if (!vector_operand(X, flags) && wb->bytes == 0) {
         // compute workspace size
-        int nelem = flags & ARMAS_LEFT ? X->cols : X->rows;
+        int nelem = flags & ARMAS_RIGHT ? X->rows : X->cols;
         wb->bytes = nelem * sizeof(DTYPE);
         return 0;
     }
@@ -344,9 +353,13 @@ int armas_housemult_w(armas_dense_t * X,
     size_t wpos = armas_wpos(wb);
     armas_dense_t w, *wptr;
     wptr = __nil;
-    if (!armas_isvector(X)) {
-        int nelem = flags & ARMAS_LEFT ? X->cols : X->rows;
+    if (!vector_operand(X, flags)) {
+        int nelem = flags & ARMAS_RIGHT ? X->rows : X->cols;
         DTYPE *t = armas_wreserve(wb, nelem, sizeof(DTYPE));
+        if (!t) {
+            cf->error = ARMAS_EWORK;
+            return -ARMAS_EWORK;
+        }
         armas_make(&w, nelem, 1, nelem, t);
         wptr = &w;
     }
@@ -372,7 +385,7 @@ int armas_housemult(armas_dense_t * X,
 {
     if (!cf)
         cf = armas_conf_default();
-    if (armas_isvector(X)) {
+    if (vector_operand(X, flags)) {
         return armas_housemult_w(X, tau, Q, flags, (armas_wbuf_t *) 0, cf);
     }
     int err;
-- 
2.43.0


From 4056d680357adb1bf47afb9b4c96588c94441013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:23 +0000
Subject: [PATCH 044/136] fix: Householder reflectors honour sign flags for
 zero vectors and apply checks correct sizes

---
 src/lapack/house.c | 51 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/src/lapack/house.c b/src/lapack/house.c
index 61773f5..e91d368 100644
--- a/src/lapack/house.c
+++ b/src/lapack/house.c
@@ -44,7 +44,7 @@
  * where tau is a real scalar and v is a real (n-1)-element vector.
  *
  * If the elements of x are all zero, then tau = 0 and H is taken to be
- * the unit matrix.
+ * the unit matrix, or tau = 2 if sign of alpha needs to be changed.
  *
  * Depending on flag bits generates H such that,
  *   flags == 0
@@ -101,12 +101,32 @@ int internal_householder(armas_dense_t * a11, armas_dense_t * x,
     int nscale = 0;
 
     normx = armas_nrm2(x, cf);
+    alpha = armas_get_unsafe(a11, 0, 0);
     if (normx == 0.0) {
-        armas_set(tau, 0, 0, 0.0);
+        // v = 0; H is identity or with tau = 2 changes the sign of alpha
+        switch ((flags & (ARMAS_HHNEGATIVE | ARMAS_NONNEG))) {
+        case ARMAS_HHNEGATIVE | ARMAS_NONNEG:
+            t = alpha > 0.0 ? TWO : ZERO;
+            beta = ABS(alpha);
+            break;
+        case ARMAS_HHNEGATIVE:
+            t = TWO;
+            beta = alpha;
+            break;
+        case ARMAS_NONNEG:
+            t = alpha < 0.0 ? TWO : ZERO;
+            beta = ABS(alpha);
+            break;
+        default:
+            t = ZERO;
+            beta = alpha;
+            break;
+        }
+        armas_set_unsafe(a11, 0, 0, beta);
+        armas_set(tau, 0, 0, t);
         return 0;
     }
 
-    alpha = armas_get_unsafe(a11, 0, 0);
     sign = SIGN(alpha) ? -1.0 : 1.0;
 
     beta = HYPOT(alpha, normx);
@@ -184,12 +204,15 @@ int hhcompute_unscaled(armas_dense_t * x0, armas_dense_t * x1,
     DTYPE normx, x0val, alpha, beta, delta, sign;
 
     normx = armas_nrm2(x1, cf);
+    x0val = armas_get_unsafe(x0, 0, 0);
     if (normx == 0.0) {
-        armas_set_unsafe(tau, 0, 0, armas_get_unsafe(x0, 0, 0));
+        // v = 0 and H is identity or v = e_0 to change the sign of x0
+        int neg = (flags & ARMAS_NONNEG) && x0val < ZERO;
+        armas_set_unsafe(tau, 0, 0, neg ? -x0val : x0val);
+        armas_set_unsafe(x0, 0, 0, neg ? ONE : ZERO);
         return 0;
     }
 
-    x0val = armas_get_unsafe(x0, 0, 0);
     sign = SIGN(x0val) ? -1.0 : 1.0;
 
     beta = HYPOT(x0val, normx);
@@ -480,8 +503,8 @@ int armas_houseapply2x1(armas_dense_t * a1, armas_dense_t * A2,
  *     Householder scalar for unit scaled reflector or null for unscaled
  *     reflector.
  *  @param [in] v
- *     Reflector vector; for unscaled reflector then length is rows(A) if
- *     applying from right and if applying from LEFT then length is cols(A).
+ *     Reflector vector; for unscaled reflector then length is cols(A) if
+ *     applying from RIGHT and if applying from LEFT then length is rows(A).
  *     If unit scaled reflector then length one element shorter.
  *  @param [in] w
  *     Workspace, at least of size rows(A) for ARMAS_RIGHT or cols(A) for
@@ -502,7 +525,8 @@ int armas_houseapply(armas_dense_t * A,
     if (!cf)
         cf = armas_conf_default();
 
-    int scaled = !tau || (flags & ARMAS_UNIT) != 0 ? 1 : 0;
+    // if tau != __nil then unit scaled reflector otherwise unscaled reflector
+    int scaled = tau ? 1 : 0;
 
     if (armas_isvector(A)) {
         DTYPE alpha;
@@ -527,21 +551,23 @@ int armas_houseapply(armas_dense_t * A,
         }
         return 0;
     }
-    // if tau != __nil then unit scaled reflector otherwise unscaled reflector
     int ok = 0;
+    int n = (flags & ARMAS_RIGHT) != 0 ? A->rows : A->cols;
     switch (flags & ARMAS_RIGHT) {
     case ARMAS_RIGHT:
-        ok = A->rows - scaled == armas_size(v);
+        ok = A->cols - scaled == armas_size(v);
         break;
     default:
-        ok = A->cols - scaled == armas_size(v);
+        ok = A->rows - scaled == armas_size(v);
+        // left is default side
+        flags |= ARMAS_LEFT;
         break;
     }
     if (!ok) {
         cf->error = ARMAS_ESIZE;
         return -1;
     }
-    if (!w || armas_size(w) < armas_size(v) + scaled) {
+    if (!w || armas_size(w) < n) {
         cf->error = ARMAS_EWORK;
         return -1;
     }
@@ -563,7 +589,6 @@ int armas_houseapply(armas_dense_t * A,
         return armas_apply_householder2x1(tau, v, &a1, &A2, &w1, flags, cf);
     }
     // unscaled householder reflector here
-    int n = (flags & ARMAS_RIGHT) != 0 ? A->rows : A->cols;
     armas_make(&w1, n, 1, n, armas_data(w));
     // tau is null pointer here
     return armas_apply_householder1x1(tau, v, A, &w1, flags, cf);
-- 
2.43.0


From bb96102f2d254699baa84e19251ee92fd9352917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:23 +0000
Subject: [PATCH 045/136] fix: hyperbolic reflector for equal norms and tiny
 values

---
 src/lapack/hhouse.c | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/lapack/hhouse.c b/src/lapack/hhouse.c
index 580d5d7..b9d1451 100644
--- a/src/lapack/hhouse.c
+++ b/src/lapack/hhouse.c
@@ -46,8 +46,8 @@
 static inline double sqrt_x2my2(double x, double y)
 {
     // sqrt(x^2 - y^2) == sqrt(abs(x) - abs(y))*sqrt(abs(x) + abs(y))
-    return ABS(x) * SQRT(1.0 -
-                             (ABS(y) / ABS(x)) * (ABS(y) / ABS(x)));
+    double ax = ABS(x), ay = ABS(y);
+    return ax * SQRT(((ax - ay) / ax) * (ONE + ay / ax));
 }
 
 
@@ -103,20 +103,39 @@ int armas_hhouse(armas_dense_t * a11, armas_dense_t * x,
 
     normx = armas_nrm2(x, cf);
     alpha = armas_get(a11, 0, 0);
-    if (ABS(alpha) < normx) {
-        // alpha^2 - normx^2 < 0; sqrt not defined
-        cf->error = ARMAS_EINVAL;
-        return -ARMAS_EINVAL;
-    }
     if (normx == 0.0) {
-        armas_set(tau, 0, 0, 0.0);
+        // v = 0; H is identity or with tau = 2 changes the sign of alpha
+        switch ((flags & (ARMAS_HHNEGATIVE | ARMAS_NONNEG))) {
+        case ARMAS_HHNEGATIVE | ARMAS_NONNEG:
+            t = alpha > 0.0 ? TWO : ZERO;
+            beta = ABS(alpha);
+            break;
+        case ARMAS_HHNEGATIVE:
+            t = TWO;
+            beta = alpha;
+            break;
+        case ARMAS_NONNEG:
+            t = alpha < 0.0 ? TWO : ZERO;
+            beta = ABS(alpha);
+            break;
+        default:
+            t = ZERO;
+            beta = alpha;
+            break;
+        }
+        armas_set(a11, 0, 0, beta);
+        armas_set(tau, 0, 0, t);
         return 0;
     }
+    if (ABS(alpha) <= normx) {
+        // alpha^2 - normx^2 <= 0; no reflector
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     sign = SIGN(alpha) ? -1.0 : 1.0;
     beta = sqrt_x2my2(alpha, normx);
     // guard agains underflow; see (2)
     if (ABS(beta) < safmin) {
-        printf("beta : %e\n", beta);
         // normx, beta may be inaccurate, scale and recompute
         rsafmin = 1.0 / safmin;
         do {
-- 
2.43.0


From a1e8bbba08c2b1cb17631f41fdf336686b21d8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:23 +0000
Subject: [PATCH 046/136] fix: butterfly products from right and for sizes not
 multiple of block

---
 src/lapack/rbtgm.c | 27 ++++++++++++++-------------
 src/lapack/rbtgu.c | 11 +++++++----
 2 files changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/lapack/rbtgm.c b/src/lapack/rbtgm.c
index 6ec7b58..c18d4cf 100644
--- a/src/lapack/rbtgm.c
+++ b/src/lapack/rbtgm.c
@@ -76,7 +76,7 @@ void rbt_left(armas_dense_t * A, armas_dense_t * R, int Nd, int flags,
                 armas_set_unsafe(A, i, j, r0 * (a00 + a10));
                 armas_set_unsafe(A, i + nb, j, r1 * (a00 - a10));
             }
-            for (; i < nb; i++) {
+            for (; i < nb && i < A->rows; i++) {
                 r0 = armas_get_at_unsafe(R, i);
                 a00 = armas_get_unsafe(A, i, j);
                 armas_set_unsafe(A, i, j, r0 * a00);
@@ -95,7 +95,7 @@ void rbt_left(armas_dense_t * A, armas_dense_t * R, int Nd, int flags,
             armas_set_unsafe(A, i + nb, j, a00 - a10);
         }
         // for case when Nd > rows(A)
-        for (; i < nb; i++) {
+        for (; i < nb && i < A->rows; i++) {
             r0 = armas_get_at_unsafe(R, i);
             a00 = armas_get_unsafe(A, i, j);
             armas_set_unsafe(A, i, j, r0 * a00);
@@ -205,12 +205,12 @@ void rbt_right(armas_dense_t * A, armas_dense_t * R, int Nd, int flags,
                 armas_set_unsafe(A, i, j, a00 + a01);
                 armas_set_unsafe(A, i, j + nb, a00 - a01);
             }
-        }
-        // for case when Nd > rows(A)
-        for (; j < nb; j++) {
-            r0 = armas_get_at_unsafe(R, j);
-            a00 = armas_get_unsafe(A, i, j);
-            armas_set_unsafe(A, i, j, r0 * a00);
+            // for case when Nd > cols(A)
+            for (; j < nb && j < A->cols; j++) {
+                r0 = armas_get_at_unsafe(R, j);
+                a00 = armas_get_unsafe(A, i, j);
+                armas_set_unsafe(A, i, j, r0 * a00);
+            }
         }
         return;
     }
@@ -224,7 +224,7 @@ void rbt_right(armas_dense_t * A, armas_dense_t * R, int Nd, int flags,
             armas_set_unsafe(A, i, j, r0 * (a00 + a01));
             armas_set_unsafe(A, i, j + nb, r1 * (a00 - a01));
         }
-        for (; j < nb; j++) {
+        for (; j < nb && j < A->cols; j++) {
             r0 = armas_get_at_unsafe(R, j);
             a00 = armas_get_unsafe(A, i, j);
             armas_set_unsafe(A, i, j, r0 * a00);
@@ -258,9 +258,10 @@ int rbt_recursive_right(armas_dense_t * A, armas_dense_t * R, int flags,
 
     // extended size to multiple of 2^d
     Nd = (A->cols + twod - 1) & ~(twod - 1);
-    // initial/final block size is computed with k = twod/2
+    // initial/final block size is computed with k = twod/2; A*R applies the
+    // smallest butterflies first and A*R^T the largest
     k = twod >> 1;
-    if (flags & ARMAS_TRANS) {
+    if (!(flags & ARMAS_TRANS)) {
         pdir = ARMAS_PLEFT;
         rdir = ARMAS_PRIGHT;
         lb = Nd = Nd / k;
@@ -294,7 +295,7 @@ int rbt_recursive_right(armas_dense_t * A, armas_dense_t * R, int flags,
         }
         mat_continue_1x3to1x2(&RL, &RR, /**/ &R0, &R1, /**/ R, rdir);
         // next butterfly size
-        if (flags & ARMAS_TRANS) {
+        if (!(flags & ARMAS_TRANS)) {
             lb = 2 * lb;
             Nd = 2 * Nd;
             if (lb > A->cols)
@@ -399,7 +400,7 @@ int armas_size_rbt(int *fact, int N, int depth)
     // extended size to multiple of 2^d
     Nd = (N + twod - 1) & ~(twod - 1);
     // initial/final block size is computed with k = twod/2
-    if (*fact)
+    if (fact)
         *fact = twod >> 1;
     return Nd;
 }
diff --git a/src/lapack/rbtgu.c b/src/lapack/rbtgu.c
index 0c103d2..b4fa57f 100644
--- a/src/lapack/rbtgu.c
+++ b/src/lapack/rbtgu.c
@@ -96,7 +96,7 @@ void update2_rbt(armas_dense_t * A, armas_dense_t * R,
                                HALF * s1 * r1 * ((a00 + a11) - (a01 + a10)));
         }
         // for case when Nd > rows(A); here i+lb > rows(A)
-        for (; i < lb; i++) {
+        for (; i < lb && i < A->rows; i++) {
             r0 = armas_get_at_unsafe(R, i);
             a00 = armas_get_unsafe(A, i, j);
             a01 = armas_get_unsafe(A, i, j + lb);
@@ -105,7 +105,7 @@ void update2_rbt(armas_dense_t * A, armas_dense_t * R,
         }
     }
     // Nd > cols(A); here j+lb > cols(A); this updates first and second quadrant
-    for (; j < lb; j++) {
+    for (; j < lb && j < A->cols; j++) {
         s0 = armas_get_at_unsafe(S, j);
         for (i = 0; i < mb; i++) {
             r0 = armas_get_at_unsafe(R, i);
@@ -116,7 +116,7 @@ void update2_rbt(armas_dense_t * A, armas_dense_t * R,
             armas_set_unsafe(A, i + lb, j, HALF * s0 * r1 * (a00 - a10));
         }
         // for case when Nd > rows(A);
-        for (; i < lb; i++) {
+        for (; i < lb && i < A->rows; i++) {
             r0 = armas_get_at_unsafe(R, i);
             a00 = armas_get_unsafe(A, i, j);
             armas_set_unsafe(A, i, j, HALF * s0 * r0 * (a00));
@@ -154,7 +154,10 @@ int armas_update2_rbt_descend(
     mat_partition_2x1(&U0, &U1, /**/ &UL, lb, ARMAS_PTOP);
     mat_partition_2x1(&V0, &V1, /**/ &VL, lb, ARMAS_PTOP);
 
-    mat_partition_2x2(&A00, &A01, &A10, &A11, /**/ A, lb, lb, ARMAS_PTOPLEFT);
+    // A may be smaller than upper left block of size lb
+    mat_partition_2x2(&A00, &A01, &A10, &A11, /**/ A,
+                      lb < A->rows ? lb : A->rows,
+                      lb < A->cols ? lb : A->cols, ARMAS_PTOPLEFT);
 
     // compute subblocks;
     armas_update2_rbt_descend(&A00, &U0, &V0, Nd / 2, conf);
-- 
2.43.0


From de8072616f546a1f2cd13ace9bdb97ad7f92e153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 047/136] fix: ext_mvupdate_sym updated the wrong elements and
 wrote past the triangle

---
 src/eblas/syr_ext.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/eblas/syr_ext.c b/src/eblas/syr_ext.c
index 1042090..c9be89f 100644
--- a/src/eblas/syr_ext.c
+++ b/src/eblas/syr_ext.c
@@ -38,24 +38,27 @@ int armas_ext_mvupdate_trm_unsafe(
     int flags)
 {
     DTYPE p, r, xk;
-    armas_dense_t a0;
+    armas_dense_t a0, v0;
+    int N = A->rows < A->cols ? A->rows : A->cols;
 
     switch (flags & (ARMAS_UPPER|ARMAS_LOWER)) {
     case ARMAS_UPPER:
-        for (int i = 0; i < A->rows; ++i) {
+        for (int i = 0; i < N; ++i) {
             armas_submatrix_unsafe(&a0, A, i, i, 1, A->cols-i);
-            xk = armas_get_at(X, i);
+            armas_subvector_unsafe(&v0, Y, i, A->cols-i);
+            xk = armas_get_at_unsafe(X, i);
             twoprod(&p, &r, alpha, xk);
-            armas_ext_axpby_dx_unsafe(beta, &a0, p, r, Y);
+            armas_ext_axpby_dx_unsafe(beta, &a0, p, r, &v0);
         }
         break;
     case ARMAS_LOWER:
     default:
-        for (int j = 0; j < A->cols; ++j) {
+        for (int j = 0; j < N; ++j) {
             armas_submatrix_unsafe(&a0, A, j, j, A->rows-j, 1);
-            xk = armas_get_at(Y, j);
+            armas_subvector_unsafe(&v0, X, j, A->rows-j);
+            xk = armas_get_at_unsafe(Y, j);
             twoprod(&p, &r, alpha, xk);
-            armas_ext_axpby_dx_unsafe(beta, &a0, p, r, X);
+            armas_ext_axpby_dx_unsafe(beta, &a0, p, r, &v0);
         }
         break;
     }
-- 
2.43.0


From 3d8c79553d9613b6e2a841b7c21fdf12241b1710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 048/136] fix: ext_mvupdate2_sym updated the upper triangle for
 ARMAS_LOWER and lost a rounding term

---
 src/eblas/syr2_ext.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/eblas/syr2_ext.c b/src/eblas/syr2_ext.c
index b49c832..fc6bac5 100644
--- a/src/eblas/syr2_ext.c
+++ b/src/eblas/syr2_ext.c
@@ -53,10 +53,10 @@ int armas_ext_mvupdate2_sym_unsafe(
                 twoprod(&p1, &r, xk, yk);
                 // p + c = alpha*p
                 twoprod(&p1, &c1, alpha, p1);
-                c0 += alpha*r;
+                c1 += alpha*r;
                 // p0 + q0 = alpha*x[i]*y[j] + alpha*y[i]*x[j]
                 twosum(&p0, &q0, p0, p1);
-                q0 += c0;
+                q0 += c0 + c1;
 
                 // p1 + q1 = beta*A[i,j]
                 twoprod(&p1, &q1, beta, armas_get_unsafe(A, i, j));
@@ -68,7 +68,7 @@ int armas_ext_mvupdate2_sym_unsafe(
     case ARMAS_LOWER:
     default:
         for (j = 0; j < A->cols; ++j) {
-            for (i = 0; i < j+1; ++i) {
+            for (i = j; i < A->rows; ++i) {
                 xk = armas_get_at_unsafe(X, i);
                 yk = armas_get_at_unsafe(Y, j);
                 // p + r = X[i]*Y[j]
@@ -83,10 +83,10 @@ int armas_ext_mvupdate2_sym_unsafe(
                 twoprod(&p1, &r, xk, yk);
                 // p + c = alpha*p
                 twoprod(&p1, &c1, alpha, p1);
-                c0 += alpha*r;
+                c1 += alpha*r;
                 // p0 + q0 = alpha*x[i]*y[j] + alpha*y[i]*x[j]
                 twosum(&p0, &q0, p0, p1);
-                q0 += c0;
+                q0 += c0 + c1;
 
                 // p1 + q1 = beta*A[i,j]
                 twoprod(&p1, &q1, beta, armas_get_unsafe(A, i, j));
-- 
2.43.0


From 0c4e03a3f68601ccd6986037dbe07dc2d68d4e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 049/136] fix: ext_mvmult_sym rounded the product before adding
 beta*y

---
 src/eblas/symv_ext.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/eblas/symv_ext.c b/src/eblas/symv_ext.c
index a8eac3d..96d13d2 100644
--- a/src/eblas/symv_ext.c
+++ b/src/eblas/symv_ext.c
@@ -79,14 +79,17 @@ int armas_ext_mvmult_sym_unsafe(
                 twosum(&y0, &c0, y0, x0);
                 s0 += c0 + p0;
             }
-            twoprod(&y0, &p0, y0+s0, alpha);
+            twoprod(&y0, &p0, y0, alpha);
+            p0 += alpha*s0;
             // here: y0 + p0 = alpha*sum(A_i,j*x_j)
-            twoprod(&x0, &s0, Y->elems[(i+0)*yinc], beta);
+            x0 = s0 = ZERO;
+            if (beta != ZERO)
+                twoprod(&x0, &s0, Y->elems[(i+0)*yinc], beta);
             // here: x0 + s0 = beta*y[i]
             p0 += s0;
             twosum(&y0, &s0, x0, y0);
 
-            Y->elems[(i+0)*yinc] = y0 + p0;
+            Y->elems[(i+0)*yinc] = y0 + (p0 + s0);
         }
         return 0;
     }
@@ -108,14 +111,17 @@ int armas_ext_mvmult_sym_unsafe(
             twosum(&y0, &c0, y0, x0);
             s0 += c0 + p0;
         }
-        twoprod(&y0, &p0, y0+s0, alpha);
+        twoprod(&y0, &p0, y0, alpha);
+        p0 += alpha*s0;
         // here: y_i + p_i = alpha*sum(A_i,j*x_j)
-        twoprod(&x0, &s0, Y->elems[(i+0)*yinc], beta);
+        x0 = s0 = ZERO;
+        if (beta != ZERO)
+            twoprod(&x0, &s0, Y->elems[(i+0)*yinc], beta);
         // here: x_i + s_i = beta*y_i
         p0 += s0;
         twosum(&y0, &s0, x0, y0);
 
-        Y->elems[(i+0)*yinc] = y0 + p0;
+        Y->elems[(i+0)*yinc] = y0 + (p0 + s0);
     }
     return 0;
 }
-- 
2.43.0


From 0e8db78b6d0833afcf7aa604f5818618f6c2225c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 050/136] fix: ext_mvmult referenced y when beta is zero

---
 src/eblas/gemv_ext.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/eblas/gemv_ext.c b/src/eblas/gemv_ext.c
index 114fba0..0de0517 100644
--- a/src/eblas/gemv_ext.c
+++ b/src/eblas/gemv_ext.c
@@ -42,7 +42,9 @@ int armas_ext_mvmult_unsafe(
     if (flags & ARMAS_TRANS) {
         for (i = 0; i < nY; ++i) {
             armas_column(&a0, A, i);
-            twoprod(&y0, &c0, beta, armas_get_at_unsafe(Y, i));
+            y0 = c0 = ZERO;
+            if (beta != ZERO)
+                twoprod(&y0, &c0, beta, armas_get_at_unsafe(Y, i));
             armas_ext_adot_unsafe(&y0, &c0, alpha, &a0, X);
             armas_set_at_unsafe(Y, i, y0+c0);
         }
@@ -51,7 +53,9 @@ int armas_ext_mvmult_unsafe(
 
     for (i = 0; i < nY; i++) {
         armas_row(&a0, A, i);
-        twoprod(&y0, &c0, beta, armas_get_at_unsafe(Y, i));
+        y0 = c0 = ZERO;
+        if (beta != ZERO)
+            twoprod(&y0, &c0, beta, armas_get_at_unsafe(Y, i));
         armas_ext_adot_unsafe(&y0, &c0, alpha, &a0, X);
         armas_set_at_unsafe(Y, i, y0+c0);
     }
-- 
2.43.0


From f5a23df04cf4e9ab1b0697b9ded5d6025e4451f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 051/136] fix: ext_sum lost the leading part of the scaled sum

---
 src/eblas/asum_ext.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eblas/asum_ext.c b/src/eblas/asum_ext.c
index 8876a82..450cd3f 100644
--- a/src/eblas/asum_ext.c
+++ b/src/eblas/asum_ext.c
@@ -154,8 +154,8 @@ int armas_ext_sum(DTYPE *result, DTYPE alpha, const armas_dense_t *X, int flags,
     }
 
     if (alpha != ONE) {
-        twoprod(result, &q, alpha, h);
-        *result = q + alpha*l;
+        twoprod(&h, &q, alpha, h);
+        *result = h + (q + alpha*l);
     } else {
         *result = h + l;
     }
-- 
2.43.0


From 2254264532fef6145fcc5f27ba72d2a3cc071fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 052/136] fix: ext_mvsolve_trm read uninitialised workspace

---
 src/eblas/trsv_ext.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/eblas/trsv_ext.c b/src/eblas/trsv_ext.c
index eaea513..d1b88b2 100644
--- a/src/eblas/trsv_ext.c
+++ b/src/eblas/trsv_ext.c
@@ -49,7 +49,6 @@ void trsv_ext_unb_ll(
 
     s0 = armas_get_at_unsafe(X, 0);
     twoprod(&s0, &u0, s0, alpha);
-    u0 = u0 + alpha * armas_get_at_unsafe(dX, 0);
     if (!unit) {
         ak = armas_get_unsafe(Ac, 0, 0);
         approx_twodiv(&p0, &r0, s0, ak);
@@ -107,7 +106,6 @@ void trsv_ext_unb_llt(
 
     s0 = armas_get_at_unsafe(X, Ac->cols-1);
     twoprod(&s0, &u0, s0, alpha);
-    u0 = u0 + alpha * armas_get_at_unsafe(dX, Ac->cols-1);
     if (!unit) {
         ak = armas_get_unsafe(Ac, Ac->cols - 1, Ac->cols - 1);
         approx_twodiv(&p0, &r0, s0, ak);
@@ -164,7 +162,6 @@ void trsv_ext_unb_lu(
 
     s0 = armas_get_at_unsafe(X, Ac->cols-1);
     twoprod(&s0, &u0, s0, alpha);
-    u0 = u0 + alpha * armas_get_at_unsafe(dX, Ac->cols-1);
     if (!unit) {
         ak = armas_get_unsafe(Ac, Ac->cols-1, Ac->cols-1);
         approx_twodiv(&p0, &r0, s0, ak);
@@ -223,7 +220,6 @@ void trsv_ext_unb_lut(
 
     s0 = armas_get_at_unsafe(X, 0);
     twoprod(&s0, &u0, s0, alpha);
-    u0 = u0 + alpha * armas_get_at_unsafe(dX, 0);
     if (!unit) {
         ak = armas_get_unsafe(Ac, 0, 0);
         approx_twodiv(&p0, &r0, s0, ak);
-- 
2.43.0


From 03c2038e552fef13f07f2eab94b79e536a698959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 053/136] fix: ext_mult_sym from right overlapped cache blocks
 when MB < NB

---
 src/eblas/symm_ext.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eblas/symm_ext.c b/src/eblas/symm_ext.c
index c430346..fafada4 100644
--- a/src/eblas/symm_ext.c
+++ b/src/eblas/symm_ext.c
@@ -48,17 +48,18 @@ void mult_ext_symm_diag(
      * lower/upper part
      */
     if (flags & ARMAS_RIGHT) {
-        armas_make(&Acpy, A->rows, A->cols, cache->ab_step, cache->Acpy);
+        // A is here the NB columns operand and B the MB columns operand
+        armas_make(&Acpy, A->rows, A->cols, cache->ab_step, cache->Bcpy);
         if (flags & ARMAS_LOWER) {
             CPTRIL_UFILL(&Acpy, A, A->rows, A->cols, unit);
         } else {
             CPTRIU_LFILL(&Acpy, A, A->rows, A->cols, unit);
         }
         if ((flags & ARMAS_TRANSB) != 0) {
-            armas_make(&Bcpy, B->rows, B->cols, cache->ab_step, cache->Bcpy);
+            armas_make(&Bcpy, B->rows, B->cols, cache->ab_step, cache->Acpy);
             CPBLK(&Bcpy, B, B->rows, B->cols, flags);
         } else {
-            armas_make(&Bcpy, B->cols, B->rows, cache->ab_step, cache->Bcpy);
+            armas_make(&Bcpy, B->cols, B->rows, cache->ab_step, cache->Acpy);
             CPBLK_TRANS(&Bcpy, B, B->rows, B->cols, flags);
         }
         armas_ext_mult_inner(C, dC, alpha, &Bcpy, &Acpy, cache->rb);
-- 
2.43.0


From 5706f2e61fdb5b36e27e631812e9cc091cb04a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 054/136] fix: ext_adot lost the error of adding a dominant
 product to the initial value

---
 src/eblas/dot_ext.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eblas/dot_ext.c b/src/eblas/dot_ext.c
index ca430b7..ffac388 100644
--- a/src/eblas/dot_ext.c
+++ b/src/eblas/dot_ext.c
@@ -99,7 +99,7 @@ void armas_ext_adot_unsafe(
     }
 
     twoprod(&h0, &p0, s0, alpha);
-    fastsum(&s0, &z0, *h, h0);
+    twosum(&s0, &z0, *h, h0);
     c0 = *l + p0 + alpha*c0 + z0;
     // protect against  h < l
     fastsum(h, l, s0, c0);
-- 
2.43.0


From c1c57bc25c79e7bf815c5a7d23af09198b1ee6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:49 +0000
Subject: [PATCH 055/136] fix: ext_mult_trm overran cache blocks when MB < NB
 or unblocked; leaked local cache buffer

---
 src/eblas/trmm_ext.c | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/eblas/trmm_ext.c b/src/eblas/trmm_ext.c
index 4712bb8..7267de8 100644
--- a/src/eblas/trmm_ext.c
+++ b/src/eblas/trmm_ext.c
@@ -77,7 +77,8 @@ void trmm_ext_blk_upper(
     register int i, j, nI, nJ;
     armas_dense_t A0, A1, B0, B1, dB;
     int unit = flags & ARMAS_UNIT ? 1 : 0;
-    int NB = cache->NB;
+    // block is copied both as MB and as NB columns operand
+    int NB = cache->NB < cache->MB ? cache->NB : cache->MB;
 
     for (i = 0; i < A->rows; i += NB) {
         nI = A->rows - i < NB ? A->rows - i : NB;
@@ -150,7 +151,8 @@ void trmm_ext_blk_u_trans(
     register int i, j, nI, nJ;
     armas_dense_t A0, A1, B0, B1, dB;
     int unit = flags & ARMAS_UNIT ? 1 : 0;
-    int NB = cache->NB;
+    // block is copied both as MB and as NB columns operand
+    int NB = cache->NB < cache->MB ? cache->NB : cache->MB;
 
     for (i = A->cols; i > 0; i -= NB) {
         nI = i < NB ? i : NB;
@@ -224,7 +226,8 @@ void trmm_ext_blk_lower(
     register int i, j, nI, nJ;
     armas_dense_t A0, A1, B0, B1, dB;
     int unit = flags & ARMAS_UNIT ? 1 : 0;
-    int NB = cache->NB;
+    // block is copied both as MB and as NB columns operand
+    int NB = cache->NB < cache->MB ? cache->NB : cache->MB;
 
     for (i = A->cols; i > 0; i -= NB) {
         nI = i < NB ? i : NB;
@@ -298,7 +301,8 @@ void trmm_ext_blk_l_trans(
 {
     register int i, j, nI, nJ;
     armas_dense_t A0, A1, B0, B1, dB;
-    int NB = cache->NB;
+    // block is copied both as MB and as NB columns operand
+    int NB = cache->NB < cache->MB ? cache->NB : cache->MB;
     int unit = flags & ARMAS_UNIT ? 1 : 0;
 
     for (i = 0; i < A->cols; i += NB) {
@@ -373,7 +377,8 @@ void trmm_ext_blk_r_upper(
 {
     register int i, j, nI, nJ;
     armas_dense_t A0, A1, B0, B1, dB;
-    int NB = cache->NB;
+    // block is copied both as MB and as NB columns operand
+    int NB = cache->NB < cache->MB ? cache->NB : cache->MB;
     int unit = flags & ARMAS_UNIT ? 1 : 0;
 
     for (i = A->cols; i > 0; i -= NB) {
@@ -448,7 +453,8 @@ void trmm_ext_blk_r_lower(
 {
     register int i, j, nI, nJ;
     armas_dense_t A0, A1, B0, B1, dB;
-    int NB = cache->NB;
+    // block is copied both as MB and as NB columns operand
+    int NB = cache->NB < cache->MB ? cache->NB : cache->MB;
     int unit = flags & ARMAS_UNIT ? 1 : 0;
 
     for (i = 0; i < A->cols; i += NB) {
@@ -522,7 +528,8 @@ void trmm_ext_blk_ru_trans(
 {
     register int i, j, nI, nJ;
     armas_dense_t A0, A1, B0, B1, dB;
-    int NB = cache->NB;
+    // block is copied both as MB and as NB columns operand
+    int NB = cache->NB < cache->MB ? cache->NB : cache->MB;
     int unit = flags & ARMAS_UNIT ? 1 : 0;
 
     for (i = 0; i < A->cols; i += NB) {
@@ -596,7 +603,8 @@ void trmm_ext_blk_rl_trans(
 {
     register int i, j, nI, nJ;
     armas_dense_t A0, A1, B0, B1, dB;
-    int NB = cache->NB;
+    // block is copied both as MB and as NB columns operand
+    int NB = cache->NB < cache->MB ? cache->NB : cache->MB;
     int unit = flags & ARMAS_UNIT ? 1 : 0;
 
     for (i = A->cols; i > 0; i -= NB) {
@@ -630,13 +638,14 @@ void trmm_ext_unb_unsafe(
     int i, nJ;
     armas_dense_t dB, B0;
     int unit = flags & ARMAS_UNIT ? 1 : 0;
-    int NB = mcache->NB;
+    // error terms of B are kept packed in the NB columns work area
+    int NB = (mcache->NB*mcache->ab_step)/A->cols;
 
     if (flags & ARMAS_RIGHT) {
         for (i = 0; i < B->rows; i += NB) {
             nJ = B->rows - i < NB ? B->rows - i : NB;
             armas_submatrix_unsafe(&B0, B, i, 0, nJ, B->cols);
-            armas_make(&dB, nJ, B->cols, mcache->ab_step, mcache->dC);
+            armas_make(&dB, nJ, B->cols, nJ, mcache->dC);
             armas_scale_unsafe(&dB, ZERO);
             switch (flags & (ARMAS_UPPER|ARMAS_TRANSA)) {
             case ARMAS_UPPER|ARMAS_TRANSA:
@@ -658,7 +667,7 @@ void trmm_ext_unb_unsafe(
         for (i = 0; i < B->cols; i += NB) {
             nJ = B->cols - i < NB ? B->cols - i : NB;
             armas_submatrix_unsafe(&B0, B, 0, i, B->rows, nJ);
-            armas_make(&dB, B->rows, nJ, mcache->ab_step, mcache->dC);
+            armas_make(&dB, B->rows, nJ, B->rows, mcache->dC);
             armas_scale_unsafe(&dB, ZERO);
             switch (flags & (ARMAS_UPPER|ARMAS_TRANSA)) {
             case ARMAS_UPPER|ARMAS_TRANSA:
@@ -783,11 +792,10 @@ int armas_ext_mult_trm(
     cache_t cache;
     armas_cache_setup(&cache, &cbuf, 3, sizeof(DTYPE));
 
-    if (cf->optflags & ARMAS_ONAIVE) {
+    if ((cf->optflags & ARMAS_ONAIVE) != 0 && A->cols <= cache.NB*cache.ab_step)
         trmm_ext_unb_unsafe(B, alpha, A, flags, &cache);
-        return 0;
-    }
-    armas_ext_mult_trm_unsafe(B, alpha, A, flags, &cache);
+    else
+        armas_ext_mult_trm_unsafe(B, alpha, A, flags, &cache);
     armas_cbuf_release(&cbuf);
     return 0;
 }
-- 
2.43.0


From 9fd1d5f6ba5e384f3f09e0375f2cdc8bed2cb6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 056/136] fix: ext_solve_trm used wrong blocks from right and
 overran its workspace

---
 src/eblas/trsm_ext.c | 46 ++++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/eblas/trsm_ext.c b/src/eblas/trsm_ext.c
index f1c38b0..9041b0a 100644
--- a/src/eblas/trsm_ext.c
+++ b/src/eblas/trsm_ext.c
@@ -154,7 +154,7 @@ void solve_ext_blk_lu_llt(
     int unit = flags & ARMAS_UNIT ? 1 : 0;
     int upper = (flags & ARMAS_UPPER) != 0 ? 1 : 0;
     int mflags = (flags & ARMAS_TRANS) != 0 ? ARMAS_TRANSA : 0;
-    int NB = dB->cols;
+    int NB = cache->NB < cache->MB ? cache->NB : cache->MB;
 
     nI = A->cols < NB ? A->cols : NB;
     cI = A->cols < NB ? 0 : A->cols-NB;
@@ -185,7 +185,6 @@ void solve_ext_blk_lu_llt(
         armas_ext_panel_dB_unsafe(&B1, &dB1, -ONE, &A0, &B0, &dB0, mflags, cache);
         solve_ext_lu_llt(&B1, &dB1, ONE, &A1, unit, upper);
     }
-    armas_merge_unsafe(B, dB);
 }
 
 
@@ -294,7 +293,7 @@ void solve_ext_blk_lut_ll(
     int unit = flags & ARMAS_UNIT ? 1 : 0;
     int upper = flags & ARMAS_UPPER ? 1 : 0;
     int mflags = flags & ARMAS_UPPER ? ARMAS_TRANS : 0;
-    int NB = cache->NB;
+    int NB = cache->NB < cache->MB ? cache->NB : cache->MB;
 
     nI = A->cols < NB ? A->cols : NB;
     armas_submatrix_unsafe(&A1, A, 0, 0, nI, nI);
@@ -325,7 +324,6 @@ void solve_ext_blk_lut_ll(
         armas_ext_panel_dB_unsafe(&B1, &dB1, -ONE, &A0, &B0, &dB0, mflags, cache);
         solve_ext_lut_ll(&B1, &dB1, ONE, &A1, unit, upper);
     }
-    armas_merge_unsafe(B, dB);
 }
 
 
@@ -384,7 +382,7 @@ void solve_ext_ru_rlt(
 
             bk = armas_get_unsafe(Bc, j, i);
             twoprod(&s0, &u0, alpha, bk);
-            u0 += alpha * armas_get_unsafe(dB, i, j);
+            u0 += alpha * armas_get_unsafe(dB, j, i);
             armas_ext_adot_dx_unsafe(&s0, &u0, -ONE, &b0, &d0, &a0);
 
             if (!unit) {
@@ -431,7 +429,7 @@ void solve_ext_blk_ru_rlt(
     int unit = flags & ARMAS_UNIT ? 1 : 0;
     int upper = flags & ARMAS_UPPER ? 1 : 0;
     int mflags = flags & ARMAS_UPPER ? 0 : ARMAS_TRANSB;
-    int NB = cache->NB;
+    int NB = cache->NB < cache->MB ? cache->NB : cache->MB;
 
     nI = A->cols < NB ? A->cols : NB;
     armas_submatrix_unsafe(&A1, A, 0, 0, nI, nI);
@@ -462,7 +460,6 @@ void solve_ext_blk_ru_rlt(
         armas_ext_panel_dA_unsafe(&B1, &dB1, -ONE, &B0, &dB0, &A0, mflags, cache);
         solve_ext_ru_rlt(&B1, &dB1, ONE, &A1, unit, upper);
     }
-    armas_merge_unsafe(&B1, &dB1);
 }
 
 /*
@@ -570,8 +567,8 @@ void solve_ext_blk_rut_rl(
 
     int unit = flags & ARMAS_UNIT ? 1 : 0;
     int upper = flags & ARMAS_UPPER ? 1 : 0;
-    int mflags = flags & ARMAS_TRANS ? 0 : ARMAS_TRANSB;
-    int NB = cache->NB;
+    int mflags = flags & ARMAS_UPPER ? ARMAS_TRANSB : 0;
+    int NB = cache->NB < cache->MB ? cache->NB : cache->MB;
 
     nI = A->cols < NB ? A->cols : NB;
     cI = nI < NB ? 0 : A->cols - NB;
@@ -603,7 +600,6 @@ void solve_ext_blk_rut_rl(
         armas_ext_panel_dA_unsafe(&B1, &dB1, -ONE, &B0, &dB0, &A0, mflags, cache);
         solve_ext_rut_rl(&B1, &dB1, ONE, &A1, unit, upper);
     }
-    armas_merge_unsafe(B, dB);
 }
 
 
@@ -636,10 +632,10 @@ void armas_ext_solve_trm_unb_unsafe(
 
         if (right) {
             armas_submatrix_unsafe(&B0, B, cJ, 0, nJ, B->cols);
-            armas_submatrix_unsafe(&dB0, dB, cJ, 0, nJ, dB->cols);
+            armas_submatrix_unsafe(&dB0, dB, 0, 0, nJ, dB->cols);
         } else {
             armas_submatrix_unsafe(&B0, B, 0, cJ, B->rows, nJ);
-            armas_submatrix_unsafe(&dB0, dB, 0, cJ, B->rows, nJ);
+            armas_submatrix_unsafe(&dB0, dB, 0, 0, B->rows, nJ);
         }
         armas_scale_unsafe(&dB0, ZERO);
 
@@ -698,10 +694,10 @@ void armas_ext_solve_trm_blk_unsafe(
 
         if (right) {
             armas_submatrix_unsafe(&B0, B, cJ, 0, nJ, B->cols);
-            armas_submatrix_unsafe(&dB0, dB, cJ, 0, nJ, B->cols);
+            armas_submatrix_unsafe(&dB0, dB, 0, 0, nJ, B->cols);
         } else {
             armas_submatrix_unsafe(&B0, B, 0,  cJ, B->rows, nJ);
-            armas_submatrix_unsafe(&dB0, dB, 0,  cJ, B->rows, nJ);
+            armas_submatrix_unsafe(&dB0, dB, 0, 0, B->rows, nJ);
         }
         armas_scale_unsafe(&dB0, ZERO);
 
@@ -798,25 +794,33 @@ int armas_ext_solve_trm_w(
     armas_cbuf_t cbuf = ARMAS_CBUF_EMPTY;
     if (armas_cbuf_select(&cbuf, cf) < 0) {
         cf->error = ARMAS_EMEMORY;
-        return -1;
+        return -ARMAS_EMEMORY;
     }
 
     cache_t cache;
     armas_cache_setup(&cache, &cbuf, 3, sizeof(DTYPE));
+    // panel of B is copied both as MB and as NB columns operand
+    int NB = cache.NB < cache.MB ? cache.NB : cache.MB;
 
     if (wb->bytes == 0) {
-        wb->bytes = A->rows*min(A->cols, cache.NB)*sizeof(DTYPE);
+        wb->bytes = A->rows*min(A->cols, NB)*sizeof(DTYPE);
+        armas_cbuf_release(&cbuf);
         return 0;
     }
-    int ncol = wb->bytes/(A->rows*sizeof(DTYPE));
-    if (ncol < 4) {
+    int ncol = armas_wbytes(wb)/(A->rows*sizeof(DTYPE));
+    if (ncol < 1) {
+        armas_cbuf_release(&cbuf);
         cf->error = ARMAS_EMEMORY;
         return -ARMAS_EMEMORY;
     }
-    if (ncol > cache.NB)
-        ncol = cache.NB;
-    armas_make(&dX, A->cols, ncol, A->cols, (DTYPE *)armas_wptr(wb));
+    if (ncol > NB)
+        ncol = NB;
+    if (flags & ARMAS_RIGHT)
+        armas_make(&dX, ncol, A->cols, ncol, (DTYPE *)armas_wptr(wb));
+    else
+        armas_make(&dX, A->cols, ncol, A->cols, (DTYPE *)armas_wptr(wb));
     armas_ext_solve_trm_blk_unsafe(B, &dX, alpha, A, flags, &cache);
+    armas_cbuf_release(&cbuf);
     return 0;
 }
 
-- 
2.43.0


From 4f13e56cd8e1d775d2a21b82138f350b778ba14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 057/136] fix: ext_mvupdate2_sym accepted vectors of wrong
 length

---
 src/eblas/syr2_ext.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eblas/syr2_ext.c b/src/eblas/syr2_ext.c
index fc6bac5..b511ee9 100644
--- a/src/eblas/syr2_ext.c
+++ b/src/eblas/syr2_ext.c
@@ -148,7 +148,7 @@ int armas_ext_mvupdate2_sym(
         conf->error = ARMAS_ENEED_VECTOR;
         return -ARMAS_ENEED_VECTOR;
     }
-    if (A->cols != A->rows || ny != nx) {
+    if (A->cols != A->rows || ny != nx || A->cols != nx) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-- 
2.43.0


From dc4a8ee3b3b8adde3db9568888f5680d98a80c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:47 +0000
Subject: [PATCH 058/136] fix: extended precision operations returned -1
 instead of the error code

---
 src/eblas/axpy_ext.c | 4 ++--
 src/eblas/dot_ext.c  | 4 ++--
 src/eblas/syr_ext.c  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/eblas/axpy_ext.c b/src/eblas/axpy_ext.c
index 0ab9ed9..4d00d36 100644
--- a/src/eblas/axpy_ext.c
+++ b/src/eblas/axpy_ext.c
@@ -153,11 +153,11 @@ int armas_ext_axpby(
 
     if (!(armas_isvector(x) && armas_isvector(y))) {
         conf->error = ARMAS_ENEED_VECTOR;
-        return -1;
+        return -ARMAS_ENEED_VECTOR;
     }
     if (armas_size(x) != armas_size(y)) {
         conf->error = ARMAS_ESIZE;
-        return -1;
+        return -ARMAS_ESIZE;
     }
 
     armas_ext_axpby_unsafe(beta, y, alpha, x);
diff --git a/src/eblas/dot_ext.c b/src/eblas/dot_ext.c
index ffac388..f418a63 100644
--- a/src/eblas/dot_ext.c
+++ b/src/eblas/dot_ext.c
@@ -180,11 +180,11 @@ int armas_ext_adot(
         cf = armas_conf_default();
     if (!armas_isvector(x) || !armas_isvector(y)) {
         cf->error = ARMAS_ENEED_VECTOR;
-        return -1;
+        return -ARMAS_ENEED_VECTOR;
     }
     if (armas_size(x) != armas_size(y)) {
         cf->error = ARMAS_ESIZE;
-        return -1;
+        return -ARMAS_ESIZE;
     }
     s = u = ZERO;
     armas_ext_adot_unsafe(&s, &u, alpha, x, y);
diff --git a/src/eblas/syr_ext.c b/src/eblas/syr_ext.c
index c9be89f..738c2d0 100644
--- a/src/eblas/syr_ext.c
+++ b/src/eblas/syr_ext.c
@@ -105,11 +105,11 @@ int armas_ext_mvupdate_sym(
 
   if (!armas_isvector(x)) {
     conf->error = ARMAS_ENEED_VECTOR;
-    return -1;
+    return -ARMAS_ENEED_VECTOR;
   }
   if (A->cols != nx || A->rows != nx) {
     conf->error = ARMAS_ESIZE;
-    return -1;
+    return -ARMAS_ESIZE;
   }
 
   armas_ext_mvupdate_trm_unsafe(beta, A, alpha, x, x, flags);
-- 
2.43.0


From a4a306c5c605f47172282cde7590d6dae9df6fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 059/136] fix: ext_mvmult_trm ignored the documented ARMAS_ABS
 flag

---
 src/eblas/trmv_ext.c | 61 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 49 insertions(+), 12 deletions(-)

diff --git a/src/eblas/trmv_ext.c b/src/eblas/trmv_ext.c
index 733fb00..562ce42 100644
--- a/src/eblas/trmv_ext.c
+++ b/src/eblas/trmv_ext.c
@@ -40,19 +40,28 @@ void trmv_ex_unb_ll(
     const armas_dense_t *A,
     DTYPE alpha,
     int unit,
+    int abs,
     int xinc)
 {
     register int i, j;
-    DTYPE s0, u0, p0, r0, c0;
+    DTYPE s0, u0, p0, r0, c0, ak, xk;
     int N = armas_size(X);
 
     //printf("..ex_unb_lut: LOWER-NOTRANSPOSE...\n");
     for (i = N-1; i >= 0; --i) {
         s0 = unit ? X->elems[i*xinc] : 0.0;
+        if (abs)
+            s0 = ABS(s0);
         u0 = 0.0;
         for (j = 0; j < i+(1-unit); ++j) {
             // p + r = A[i,j]*X[j]
-            twoprod(&p0, &r0, A->elems[i+j*A->step], X->elems[j*xinc]);
+            ak = A->elems[i+j*A->step];
+            xk = X->elems[j*xinc];
+            if (abs) {
+                ak = ABS(ak);
+                xk = ABS(xk);
+            }
+            twoprod(&p0, &r0, ak, xk);
             // s + c = s + A[i,j]*X[j]
             twosum(&s0, &c0, s0, p0);
             u0 += c0 + r0;
@@ -81,19 +90,28 @@ void trmv_ex_unb_llt(
     const armas_dense_t *A,
     DTYPE alpha,
     int unit,
+    int abs,
     int xinc)
 {
     register int i, j;
-    DTYPE s0, u0, p0, r0, c0;
+    DTYPE s0, u0, p0, r0, c0, ak, xk;
     int N = armas_size(X);
 
     //printf("..ex_unb_llt: LOWER-TRANSPOSE... unit=%d\n", unit);
     for (i = 0; i < N; ++i) {
         s0 = unit ? X->elems[i*xinc] : 0.0;
+        if (abs)
+            s0 = ABS(s0);
         u0 = 0.0;
         for (j = i+unit; j < N; ++j) {
             // p + r = A[i,j]*X[j]
-            twoprod(&p0, &r0, A->elems[j+i*A->step], X->elems[j*xinc]);
+            ak = A->elems[j+i*A->step];
+            xk = X->elems[j*xinc];
+            if (abs) {
+                ak = ABS(ak);
+                xk = ABS(xk);
+            }
+            twoprod(&p0, &r0, ak, xk);
             // s + c = s + A[i,j]*X[j]
             twosum(&s0, &c0, s0, p0);
             u0 += c0 + r0;
@@ -121,19 +139,28 @@ void trmv_ex_unb_lu(
     const armas_dense_t *A,
     DTYPE alpha,
     int unit,
+    int abs,
     int xinc)
 {
     register int i, j;
-    DTYPE s0, u0, p0, r0, c0;
+    DTYPE s0, u0, p0, r0, c0, ak, xk;
     int N = armas_size(X);
 
     //printf("..ex_unb_lu: UPPER-NOTRANSPOSE...\n");
     for (i = 0; i < N; ++i) {
         s0 = unit ? X->elems[i*xinc] : 0.0;
+        if (abs)
+            s0 = ABS(s0);
         u0 = 0.0;
         for (j = i+unit; j < N; ++j) {
             // p + r = A[i,j]*X[j]
-            twoprod(&p0, &r0, A->elems[i+j*A->step], X->elems[j*xinc]);
+            ak = A->elems[i+j*A->step];
+            xk = X->elems[j*xinc];
+            if (abs) {
+                ak = ABS(ak);
+                xk = ABS(xk);
+            }
+            twoprod(&p0, &r0, ak, xk);
             // s + c = s + A[i,j]*X[j]
             twosum(&s0, &c0, s0, p0);
             u0 += c0 + r0;
@@ -161,18 +188,27 @@ void trmv_ex_unb_lut(
     const armas_dense_t *A,
     DTYPE alpha,
     int unit,
+    int abs,
     int xinc)
 {
     register int i, j;
-    DTYPE s0, u0, p0, r0, c0;
+    DTYPE s0, u0, p0, r0, c0, ak, xk;
     int N = armas_size(X);
 
     for (i = N-1; i >= 0; --i) {
         s0 = unit ? X->elems[i*xinc] : 0.0;
+        if (abs)
+            s0 = ABS(s0);
         u0 = 0.0;
         for (j = 0; j < i+(1-unit); ++j) {
             // p + r = A[i,j]*X[j]
-            twoprod(&p0, &r0, A->elems[j+i*A->step], X->elems[j*xinc]);
+            ak = A->elems[j+i*A->step];
+            xk = X->elems[j*xinc];
+            if (abs) {
+                ak = ABS(ak);
+                xk = ABS(xk);
+            }
+            twoprod(&p0, &r0, ak, xk);
             // s + c = s + A[i,j]*X[j]
             twosum(&s0, &c0, s0, p0);
             u0 += c0 + r0;
@@ -191,21 +227,22 @@ int armas_ext_mvmult_trm_unsafe(
     int flags)
 {
     int unit = flags & ARMAS_UNIT ? 1 : 0;
+    int abs = flags & ARMAS_ABS ? 1 : 0;
     int xinc = X->rows == 1 ? X->step : 1;
 
     switch (flags & (ARMAS_TRANS|ARMAS_UPPER|ARMAS_LOWER)){
     case ARMAS_UPPER|ARMAS_TRANS:
-        trmv_ex_unb_lut(X, A, alpha, unit, xinc);
+        trmv_ex_unb_lut(X, A, alpha, unit, abs, xinc);
         break;
     case ARMAS_LOWER|ARMAS_TRANS:
-        trmv_ex_unb_llt(X, A, alpha, unit, xinc);
+        trmv_ex_unb_llt(X, A, alpha, unit, abs, xinc);
         break;
     case ARMAS_UPPER:
-        trmv_ex_unb_lu(X, A, alpha, unit, xinc);
+        trmv_ex_unb_lu(X, A, alpha, unit, abs, xinc);
         break;
     case ARMAS_LOWER:
     default:
-        trmv_ex_unb_ll(X, A, alpha, unit, xinc);
+        trmv_ex_unb_ll(X, A, alpha, unit, abs, xinc);
         break;
     }
     return 0;
-- 
2.43.0


From db95c827bf40835490c5fd6d0e4aeee93b320a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:44 +0000
Subject: [PATCH 060/136] fix: ext_mvsolve_trm accessed elements of an empty
 system

---
 src/eblas/trsv_ext.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eblas/trsv_ext.c b/src/eblas/trsv_ext.c
index d1b88b2..0a42241 100644
--- a/src/eblas/trsv_ext.c
+++ b/src/eblas/trsv_ext.c
@@ -321,6 +321,8 @@ int armas_ext_mvsolve_trm_w(
         cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
+    if (N == 0)
+        return 0;
     if (wb && wb->bytes == 0) {
         wb->bytes = sizeof(DTYPE) * N;
         return 0;
@@ -354,7 +356,9 @@ int armas_ext_mvsolve_trm(
     if (!cf)
         cf = armas_conf_default();
 
-    if (!armas_walloc(&wb, A->cols*sizeof(DTYPE))) {
+    if ((err = armas_ext_mvsolve_trm_w(x, alpha, A, flags, &wb, cf)) < 0 || wb.bytes == 0)
+        return err;
+    if (!armas_walloc(&wb, wb.bytes)) {
         cf->error = ARMAS_EMEMORY;
         return -ARMAS_EMEMORY;
     }
-- 
2.43.0


From afca6a6cbd7c133e25b3c2231914a310536c1ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 061/136] fix: completion counter wait returned on a spurious
 wake-up

---
 src/workers/counter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/workers/counter.h b/src/workers/counter.h
index dc46337..f8096df 100644
--- a/src/workers/counter.h
+++ b/src/workers/counter.h
@@ -37,7 +37,7 @@ static inline
 void armas_counter_wait(struct armas_ac_counter *c)
 {
     pthread_mutex_lock(&c->lock);
-    if (c->count != 0) {
+    while (c->count != 0) {
         pthread_cond_wait(&c->ready, &c->lock);
     }
     pthread_mutex_unlock(&c->lock);
-- 
2.43.0


From 64d05e394768be864a83a4e5eddf443c296c696f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 062/136] fix: task queue did not wake writers of a full queue
 and polled with relative timeouts

---
 src/workers/queue.h | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/workers/queue.h b/src/workers/queue.h
index 76c8508..87e6406 100644
--- a/src/workers/queue.h
+++ b/src/workers/queue.h
@@ -129,9 +129,9 @@ int taskq_dequeue_nowait(struct armas_ac_queue *ch, void **v, int broadcast)
     int signal = taskq_remove(ch, v);
     if (signal) {
         if (broadcast)
-            pthread_cond_broadcast(&ch->empty);
+            pthread_cond_broadcast(&ch->full);
         else
-            pthread_cond_signal(&ch->empty);
+            pthread_cond_signal(&ch->full);
     }
     pthread_mutex_unlock(&ch->mlock);
     return 0;
@@ -147,9 +147,9 @@ int taskq_dequeue(struct armas_ac_queue *ch, void **v, int broadcast)
     int signal = taskq_remove(ch, v);
     if (signal) {
         if (broadcast)
-            pthread_cond_broadcast(&ch->empty);
+            pthread_cond_broadcast(&ch->full);
         else
-            pthread_cond_signal(&ch->empty);
+            pthread_cond_signal(&ch->full);
     }
     pthread_mutex_unlock(&ch->mlock);
     return 0;
@@ -214,7 +214,7 @@ void taskq_wait_while_full(struct armas_ac_queue *ch)
 {
     pthread_mutex_lock(&ch->mlock);
     if (ch->count == ch->size) {
-        pthread_cond_wait(&ch->empty, &ch->mlock);
+        pthread_cond_wait(&ch->full, &ch->mlock);
     }
     pthread_mutex_unlock(&ch->mlock);
 }
@@ -222,18 +222,14 @@ void taskq_wait_while_full(struct armas_ac_queue *ch)
 static inline
 void taskq_read(struct armas_ac_queue *ch, void **v)
 {
-    while (taskq_dequeue_nowait(ch, v, 1) != 0) {
-        taskq_wait_onempty(ch, 100);
-    }
+    taskq_dequeue(ch, v, 1);
 }
 
 
 static inline
 void taskq_write(struct armas_ac_queue *ch, void *v)
 {
-    while (taskq_enqueue_nowait(ch, v, 1) != 0) {
-        taskq_wait_onfull(ch, 100);
-    }
+    taskq_enqueue(ch, v, 1);
 }
 
 #endif /* ARMAS_QUEUE_H */
-- 
2.43.0


From 8b901d9695bf3986f61d90375171d75ad4a339f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 063/136] fix: accelerated gemm ignored the conjugate transpose
 flags when slicing operands

---
 src/threaded/gemm.c | 5 ++++-
 src/workers/gemm.c  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/threaded/gemm.c b/src/threaded/gemm.c
index 12eeb1b..7e85e16 100644
--- a/src/threaded/gemm.c
+++ b/src/threaded/gemm.c
@@ -47,7 +47,10 @@ void *compute_block(void *argptr)
     armas_submatrix_unsafe(
         &C, blas->C, args->row, args->column, args->nrows, args->ncolumns);
 
-    switch (blas->flags & (ARMAS_TRANSA | ARMAS_TRANSB)) {
+    int trans = ((blas->flags & (ARMAS_TRANSA | ARMAS_CTRANSA)) ? ARMAS_TRANSA : 0)
+        | ((blas->flags & (ARMAS_TRANSB | ARMAS_CTRANSB)) ? ARMAS_TRANSB : 0);
+
+    switch (trans) {
     case ARMAS_TRANSA | ARMAS_TRANSB:
         armas_submatrix_unsafe(
             &A, blas->A, 0, args->row, blas->A->rows, args->nrows);
diff --git a/src/workers/gemm.c b/src/workers/gemm.c
index 626c7b8..ae573b9 100644
--- a/src/workers/gemm.c
+++ b/src/workers/gemm.c
@@ -50,7 +50,10 @@ void *compute_block(void *argptr)
     armas_submatrix_unsafe(
         &C, blas->C, args->row, args->column, args->nrows, args->ncolumns);
 
-    switch (blas->flags & (ARMAS_TRANSA | ARMAS_TRANSB)) {
+    int trans = ((blas->flags & (ARMAS_TRANSA | ARMAS_CTRANSA)) ? ARMAS_TRANSA : 0)
+        | ((blas->flags & (ARMAS_TRANSB | ARMAS_CTRANSB)) ? ARMAS_TRANSB : 0);
+
+    switch (trans) {
     case ARMAS_TRANSA | ARMAS_TRANSB:
         armas_submatrix_unsafe(
             &A, blas->A, 0, args->row, blas->A->rows, args->nrows);
-- 
2.43.0


From da87792ac19ef9d92c606e15f5f2142693313fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:27 +0000
Subject: [PATCH 064/136] fix: threaded operations lost blocks when a thread or
 its buffer was not available

---
 src/threaded/gemm.c | 22 ++++++++++++++++------
 src/threaded/symm.c | 19 +++++++++++++------
 src/threaded/trmm.c | 18 +++++++++++++-----
 src/threaded/trsm.c | 18 +++++++++++++-----
 4 files changed, 55 insertions(+), 22 deletions(-)

diff --git a/src/threaded/gemm.c b/src/threaded/gemm.c
index 7e85e16..5b53441 100644
--- a/src/threaded/gemm.c
+++ b/src/threaded/gemm.c
@@ -89,6 +89,9 @@ void *compute_block(void *argptr)
     armas_mult_kernel(blas->beta, &C,
                         blas->alpha, &A, &B, blas->flags, &cache);
 
+    /* Last block is computed in main thread. Do not release thread global resources. */
+    if (!args->is_last)
+        armas_cbuf_release_thread_global();
     return (void *)0;
 }
 
@@ -126,19 +129,26 @@ int threaded_mult_recursive(
     // last block
     if (thread+1 == nthreads) {
         compute_block(&args);
+        if (args.error)
+            cf->error = args.error;
         return -args.error;
     }
 
     //printf("create thread %d\n", thread);
     err = pthread_create(&th, NULL, compute_block, &args);
     if (err) {
-        cf->error = -err;
-        return -1;
+        /* No thread available; compute this block in the calling thread. */
+        args.is_last = 1;
+        compute_block(&args);
+        err = threaded_mult_recursive(thread+1, nthreads, blas, cf);
+    } else {
+        err = threaded_mult_recursive(thread+1, nthreads, blas, cf);
+        pthread_join(th, NULL);
+    }
+    if (args.error && err == 0) {
+        cf->error = args.error;
+        err = -args.error;
     }
-    err = threaded_mult_recursive(thread+1, nthreads, blas, cf);
-
-    //printf("wait thread %d\n", thread);
-    pthread_join(th, NULL);
     return err;
 }
 
diff --git a/src/threaded/symm.c b/src/threaded/symm.c
index 0a0937b..3fd67fa 100644
--- a/src/threaded/symm.c
+++ b/src/threaded/symm.c
@@ -119,18 +119,25 @@ int threaded_mult_sym_recursive(
     // last block
     if (thread+1 == nthreads) {
         compute_block(&args);
+        if (args.error)
+            cf->error = args.error;
         return -args.error;
     }
 
     err = pthread_create(&th, NULL, compute_block, &args);
     if (err) {
-        cf->error = -err;
-        return -1;
+        /* No thread available; compute this block in the calling thread. */
+        args.is_last = 1;
+        compute_block(&args);
+        err = threaded_mult_sym_recursive(thread+1, nthreads, blas, cf);
+    } else {
+        err = threaded_mult_sym_recursive(thread+1, nthreads, blas, cf);
+        pthread_join(th, NULL);
+    }
+    if (args.error && err == 0) {
+        cf->error = args.error;
+        err = -args.error;
     }
-
-    err = threaded_mult_sym_recursive(thread+1, nthreads, blas, cf);
-
-    pthread_join(th, NULL);
     return err;
 }
 
diff --git a/src/threaded/trmm.c b/src/threaded/trmm.c
index 8cbd668..0d854ec 100644
--- a/src/threaded/trmm.c
+++ b/src/threaded/trmm.c
@@ -101,17 +101,25 @@ int threaded_mult_trm_recursive(int thread, int nthreads, struct armas_ac_blas3
     // last block
     if (thread+1 == nthreads) {
         compute_block(&args);
+        if (args.error)
+            cf->error = args.error;
         return -args.error;
     }
 
     err = pthread_create(&th, NULL, compute_block, &args);
     if (err) {
-        cf->error = -err;
-        return -1;
+        /* No thread available; compute this block in the calling thread. */
+        args.is_last = 1;
+        compute_block(&args);
+        err = threaded_mult_trm_recursive(thread+1, nthreads, blas, cf);
+    } else {
+        err = threaded_mult_trm_recursive(thread+1, nthreads, blas, cf);
+        pthread_join(th, NULL);
+    }
+    if (args.error && err == 0) {
+        cf->error = args.error;
+        err = -args.error;
     }
-    err = threaded_mult_trm_recursive(thread+1, nthreads, blas, cf);
-
-    pthread_join(th, NULL);
     return err;
 }
 
diff --git a/src/threaded/trsm.c b/src/threaded/trsm.c
index eb11679..80d9941 100644
--- a/src/threaded/trsm.c
+++ b/src/threaded/trsm.c
@@ -101,17 +101,25 @@ int threaded_solve_trm_recursive(
     /* last block directly in main thread. */
     if (thread+1 == nthreads) {
         compute_block(&args);
+        if (args.error)
+            cf->error = args.error;
         return -args.error;
     }
 
     err = pthread_create(&th, NULL, compute_block, &args);
     if (err) {
-        cf->error = -err;
-        return -1;
+        /* No thread available; compute this block in the calling thread. */
+        args.is_last = 1;
+        compute_block(&args);
+        err = threaded_solve_trm_recursive(thread+1, nthreads, blas, cf);
+    } else {
+        err = threaded_solve_trm_recursive(thread+1, nthreads, blas, cf);
+        pthread_join(th, NULL);
+    }
+    if (args.error && err == 0) {
+        cf->error = args.error;
+        err = -args.error;
     }
-    err = threaded_solve_trm_recursive(thread+1, nthreads, blas, cf);
-
-    pthread_join(th, NULL);
     return err;
 }
 
-- 
2.43.0


From c2fefbf5c1d83fb8e7263a6fe16d73f4e86cb52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 065/136] fix: transient workers lost tasks and were never
 joined

---
 src/workers/transient.c | 52 ++++++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/src/workers/transient.c b/src/workers/transient.c
index 0c64764..14b203e 100644
--- a/src/workers/transient.c
+++ b/src/workers/transient.c
@@ -29,22 +29,20 @@
 #include "scheduler.h"
 #include "workers.h"
 
-#define cmpxchg(P, O, N) __sync_val_compare_and_swap((P), (O), (N))
-#define atomic_dec(P) __sync_sub_and_fetch((P), 1)
-#define atomic_inc(P) __sync_add_and_fetch((P), 1)
-
 struct armas_ac_sched_transient;
 
 struct armas_ac_thread {
     pthread_t tid;
     struct armas_ac_sched_transient *sched;
     int running;
+    int joinable;
 };
 
 struct armas_ac_sched_transient {
     struct armas_ac_scheduler sched;
     struct armas_ac_queue task_queue;
     struct armas_ac_thread *threads;
+    pthread_mutex_t lock;   // guards thread table and running count
     unsigned int options;
     size_t nworker;
     size_t nrunning;
@@ -61,17 +59,22 @@ void *transient_thread(void *arg)
     armas_cbuf_create_thread_global();
 
     while (1) {
-        if (taskq_dequeue_nowait(&sc->task_queue, (void **)&T, 1) < 0)
+        /* Decide to exit and be counted out in one step. Otherwise a task queued
+         * between the two would be left without a thread. */
+        pthread_mutex_lock(&sc->lock);
+        if (taskq_dequeue_nowait(&sc->task_queue, (void **)&T, 1) < 0) {
+            self->running = 0;
+            sc->nrunning--;
+            pthread_mutex_unlock(&sc->lock);
             break;
+        }
+        pthread_mutex_unlock(&sc->lock);
 
         (T->func)(T->args);
         armas_counter_decrement(T->ready);
     }
 
     armas_cbuf_release_thread_global();
-
-    cmpxchg(&self->running, 1, 0);
-    atomic_dec(&sc->nrunning);
     return (void *)0;
 }
 
@@ -96,6 +99,11 @@ int sched_transient_release(struct armas_ac_scheduler *sc)
     if (!sched)
         return -ARMAS_EINVAL;
 
+    for (size_t k = 0; k < sched->nworker; k++) {
+        if (sched->threads[k].joinable)
+            pthread_join(sched->threads[k].tid, (void **)0);
+    }
+    pthread_mutex_destroy(&sched->lock);
     taskq_release(&sched->task_queue);
     free(sched);
     return 0;
@@ -104,18 +112,35 @@ int sched_transient_release(struct armas_ac_scheduler *sc)
 static
 int sched_transient_schedule(struct armas_ac_scheduler *sc, void *t)
 {
-    unsigned int k;
+    size_t k;
+    int nothreads = 0;
     struct armas_ac_sched_transient *sched = (struct armas_ac_sched_transient *)sc;
     struct armas_ac_task *task = (struct armas_ac_task *)t;
 
     taskq_enqueue(&sched->task_queue, task, 1);
+
+    pthread_mutex_lock(&sched->lock);
     if (sched->nrunning < sched->nworker) {
         for (k = 0; k < sched->nworker && sched->threads[k].running; k++);
 
-        sched->threads[k].running = 1;
-        sched->threads[k].sched = sched;
-        pthread_create(&sched->threads[k].tid, NULL, transient_thread, &sched->threads[k]);
-        atomic_inc(&sched->nrunning);
+        struct armas_ac_thread *thread = &sched->threads[k];
+        if (thread->joinable)
+            pthread_join(thread->tid, (void **)0);
+        thread->running = 1;
+        thread->sched = sched;
+        thread->joinable = pthread_create(&thread->tid, NULL, transient_thread, thread) == 0;
+        if (thread->joinable)
+            sched->nrunning++;
+        else
+            thread->running = 0;
+        nothreads = sched->nrunning == 0;
+    }
+    pthread_mutex_unlock(&sched->lock);
+
+    /* No threads available; run queued tasks here. */
+    while (nothreads && taskq_dequeue_nowait(&sched->task_queue, (void **)&task, 1) == 0) {
+        (task->func)(task->args);
+        armas_counter_decrement(task->ready);
     }
     return 0;
 }
@@ -146,6 +171,7 @@ int armas_ac_sched_transient_init(struct armas_ac_scheduler **scheduler, int qle
     sc->threads = (struct armas_ac_thread *)&buf[sizeof(struct armas_ac_sched_transient)];
     sc->nworker = env->max_cores;
     sc->nrunning = 0;
+    pthread_mutex_init(&sc->lock, NULL);
     sc->options = env->options;
 
     sc->sched.vptr = &ops;
-- 
2.43.0


From 7597a5cda6d0443486fa8b0978d64d0eec8b8512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 066/136] fix: worker pool start, stop and double scheduling
 raced

---
 src/workers/counter.h |   8 +++
 src/workers/workers.c | 115 ++++++++++++++++++++++++------------------
 2 files changed, 75 insertions(+), 48 deletions(-)

diff --git a/src/workers/counter.h b/src/workers/counter.h
index f8096df..ac5b770 100644
--- a/src/workers/counter.h
+++ b/src/workers/counter.h
@@ -22,6 +22,14 @@ void armas_counter_init(struct armas_ac_counter *c, int count)
     pthread_cond_init(&c->ready, NULL);
 }
 
+static inline
+void armas_counter_increment(struct armas_ac_counter *c)
+{
+    pthread_mutex_lock(&c->lock);
+    c->count++;
+    pthread_mutex_unlock(&c->lock);
+}
+
 static inline
 void armas_counter_decrement(struct armas_ac_counter *c)
 {
diff --git a/src/workers/workers.c b/src/workers/workers.c
index ecc09b5..acc2f2b 100644
--- a/src/workers/workers.c
+++ b/src/workers/workers.c
@@ -52,20 +52,22 @@ typedef struct armas_ac_sched_workers {
     struct armas_ac_worker *workers;
     cpu_set_t cpus;
     pthread_t tid;
+    pthread_mutex_t lock;
+    unsigned short xsubi[3];
     unsigned int options;
     unsigned int nworker;
+    unsigned int nactive;
     unsigned int rrindex;
     unsigned int status;
     unsigned int nsched;
 } armas_scheduler_t;
 
 static inline
-void worker_init(
+int worker_init(
     armas_ac_worker_t *W, unsigned long id, unsigned int sz, struct armas_ac_sched_workers *sched)
 {
     W->id = id;
     W->cpuid = -1;
-    taskq_init(&W->inqueue, sz);
     W->running = 0;
     W->tid = 0;
     W->nsched = 0;
@@ -73,6 +75,7 @@ void worker_init(
     W->sched = (struct armas_ac_scheduler *)sched;
     W->cmem = 0;
     W->l1mem = 0;
+    return taskq_init(&W->inqueue, sz);
 }
 
 static
@@ -83,12 +86,11 @@ void *worker_thread(void *arg)
 
     armas_cbuf_create_thread_global();
 
-    W->running = 1;
-    while (W->running) {
+    while (1) {
         taskq_read(&W->inqueue, (void **)&T);
-        if (!T) {
-            continue;
-        }
+        // null task is request to stop
+        if (!T)
+            break;
         W->nsched++;
 
         // try to reserve for this worker
@@ -98,22 +100,25 @@ void *worker_thread(void *arg)
             // run task
             (T->func)(T->args);
             W->nexec++;
-            // decrement task counter
-            armas_counter_decrement(T->ready);
         } else {
             // was already reserved, decrement and forget it
             atomic_dec(&T->wcnt);
         }
+        // decrement task counter; task must not be accessed after this
+        armas_counter_decrement(T->ready);
     }
     armas_cbuf_release_thread_global();
     return (void *)0;
 }
 
 static
-void worker_start(struct armas_ac_worker *W)
+int worker_start(struct armas_ac_worker *W)
 {
     cpu_set_t cpuset;
-    pthread_create(&W->tid, NULL, worker_thread, W);
+    int err = pthread_create(&W->tid, NULL, worker_thread, W);
+    if (err)
+        return -err;
+    W->running = 1;
     if (W->cpuid != -1) {
         // set cpu affinity
         CPU_ZERO(&cpuset);
@@ -121,7 +126,7 @@ void worker_start(struct armas_ac_worker *W)
         //printf(".. set worker %d affinity to cpu %d\n", W->id, W->cpuid);
         pthread_setaffinity_np(W->tid, sizeof(cpuset), &cpuset);
     }
-    return;
+    return 0;
 }
 
 static inline
@@ -155,24 +160,31 @@ static
 int sched_workers_start(struct armas_ac_scheduler *sc)
 {
     struct armas_ac_sched_workers *sched = (struct armas_ac_sched_workers *)sc;
+    sched->nactive = 0;
     for (int i = 0; i < sched->nworker; i++) {
-        worker_start(&sched->workers[i]);
+        if (worker_start(&sched->workers[i]) < 0)
+            break;
+        sched->nactive++;
     }
-    sched->status = 1;
-    return 0;
+    // run with the workers we got
+    sched->status = sched->nactive > 0;
+    return sched->status ? 0 : -1;
 }
 
 static
 int sched_workers_stop(struct armas_ac_scheduler *sc)
 {
     struct armas_ac_sched_workers *sched = (struct armas_ac_sched_workers *)sc;
-    for (int i = 0; i < sched->nworker; i++) {
-        sched->workers[i].running = 0;
+    if (!sched->status)
+        return 0;
+    for (int i = 0; i < sched->nactive; i++) {
         taskq_write(&sched->workers[i].inqueue, NULL);
     }
-    for (int i = 0; i < sched->nworker; i++) {
+    for (int i = 0; i < sched->nactive; i++) {
         pthread_join(sched->workers[i].tid, (void **)0);
+        sched->workers[i].running = 0;
     }
+    sched->nactive = 0;
     sched->status = 0;
     return 0;
 }
@@ -183,6 +195,10 @@ int sched_workers_release(struct armas_ac_scheduler *sc)
     struct armas_ac_sched_workers *sched = (struct armas_ac_sched_workers *)sc;
     if (!sched || sched->status)
         return -1;
+    for (int i = 0; i < sched->nworker; i++) {
+        taskq_release(&sched->workers[i].inqueue);
+    }
+    pthread_mutex_destroy(&sched->lock);
     free(sched);
     return 0;
 }
@@ -190,49 +206,46 @@ int sched_workers_release(struct armas_ac_scheduler *sc)
 static
 int sched_workers_schedule(struct armas_ac_scheduler *sc, void *t)
 {
-    unsigned int k, j;
+    unsigned int k, j, two;
     struct armas_ac_sched_workers *sched = (struct armas_ac_sched_workers *)sc;
     struct armas_ac_task *task = (struct armas_ac_task *)t;
 
-    if (!sched->status) {
-        armas_sched_start(sc);
+    pthread_mutex_lock(&sched->lock);
+    if (!sched->status && armas_sched_start(sc) < 0) {
+        pthread_mutex_unlock(&sched->lock);
+        return -1;
     }
 
     // scheduling ARMAS_SCHED_WORKERS, write directly to worker queues.
     sched->nsched++;
-    if (sched->nworker == 1) {
-        task->wcnt = 1;
-        taskq_write(&sched->workers[0].inqueue, task);
-        return 0;
-    }
-
-    if (sched->options & ARMAS_OSCHED_TWO) {
-        task->wcnt = 2;
-        if (sched->nworker == 2) {
-            taskq_write(&sched->workers[0].inqueue, task);
-            taskq_write(&sched->workers[1].inqueue, task);
-            return 0;
-        }
+    two = (sched->options & ARMAS_OSCHED_TWO) != 0 && sched->nactive > 1;
+    k = j = 0;
+    if (sched->nactive == 2 && two) {
+        j = 1;
+    } else if (sched->nactive > 1) {
         if ((sched->options & ARMAS_OSCHED_ROUNDROBIN) != 0) {
             k = sched->rrindex;
-            sched->rrindex = (sched->rrindex + 1) % sched->nworker;
-            j = sched->rrindex;
-            sched->rrindex = (sched->rrindex + 1) % sched->nworker;
+            sched->rrindex = (sched->rrindex + 1) % sched->nactive;
+            if (two) {
+                j = sched->rrindex;
+                sched->rrindex = (sched->rrindex + 1) % sched->nactive;
+            }
         } else {
-            k = lrand48() % sched->nworker;
-            for (j = k; j == k; j = lrand48() % sched->nworker);
+            k = nrand48(sched->xsubi) % sched->nactive;
+            if (two)
+                for (j = k; j == k; j = nrand48(sched->xsubi) % sched->nactive);
         }
-        taskq_write(&sched->workers[k].inqueue, task);
-        taskq_write(&sched->workers[j].inqueue, task);
-        return 0;
     }
+    pthread_mutex_unlock(&sched->lock);
 
     task->wcnt = 1;
-    if ((sched->options & ARMAS_OSCHED_ROUNDROBIN) != 0) {
-        k = sched->rrindex;
-        sched->rrindex = (sched->rrindex + 1) % sched->nworker;
-    } else {
-        k = lrand48() % sched->nworker;
+    if (two) {
+        // both queue entries must be processed before task is ready.
+        task->wcnt = 2;
+        armas_counter_increment(task->ready);
+        taskq_write(&sched->workers[k].inqueue, task);
+        taskq_write(&sched->workers[j].inqueue, task);
+        return 0;
     }
     taskq_write(&sched->workers[k].inqueue, task);
     return 0;
@@ -263,9 +276,15 @@ int armas_ac_sched_workers_init(struct armas_ac_scheduler **scheduler, int qlen)
     sc->nworker = env->max_cores;
     sc->options = env->options;
     last_cpu = -1;
+    pthread_mutex_init(&sc->lock, NULL);
 
     for (int i = 0; i < sc->nworker; i++) {
-        worker_init(&sc->workers[i], i+1, qlen, sc);
+        if (worker_init(&sc->workers[i], i+1, qlen, sc) < 0) {
+            while (--i >= 0)
+                taskq_release(&sc->workers[i].inqueue);
+            free(sc);
+            return -ARMAS_EMEMORY;
+        }
         // pick up next cpu from list available cpus
         last_cpu = next_cpu_in_set(&sc->cpus, last_cpu);
         sc->workers[i].cpuid = last_cpu;
-- 
2.43.0


From 3a8eb356506595d09ffb9fd9a52d1687d7ab5e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 067/136] fix: worker gemm ignored tasks that could not be
 scheduled or computed

---
 src/workers/gemm.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/workers/gemm.c b/src/workers/gemm.c
index ae573b9..52adff8 100644
--- a/src/workers/gemm.c
+++ b/src/workers/gemm.c
@@ -81,6 +81,10 @@ void *compute_block(void *argptr)
     }
     cache_t cache;
     struct armas_cbuf *cbuf = armas_cbuf_create_thread_global();
+    if (!cbuf) {
+        args->error = ARMAS_EMEMORY;
+        return (void *)0;
+    }
     armas_env_t *env = armas_getenv();
     armas_cache_setup2(&cache, cbuf, env->mb, env->nb, env->kb, sizeof(DTYPE));
 
@@ -114,6 +118,17 @@ void armas_ac_define_block(
     }
 }
 
+static
+void schedule_task(
+    struct armas_ac_scheduler *scheduler, struct armas_ac_worker_task *task)
+{
+    if (armas_sched_schedule(scheduler, task) < 0) {
+        /* No workers; compute in the calling thread. */
+        compute_block(&task->args);
+        armas_counter_decrement(task->task.ready);
+    }
+}
+
 static
 void schedule_blocks(
     struct armas_ac_blas3 *args,
@@ -136,7 +151,7 @@ void schedule_blocks(
         blkargs->is_last = k + 1 == ntask;
 
         armas_task_init(&tasks[k].task, k, compute_block, blkargs, ready);
-        armas_sched_schedule(scheduler, &tasks[k]);
+        schedule_task(scheduler, &tasks[k]);
     }
 }
 
@@ -174,7 +189,7 @@ void schedule_tiles(
             blkargs->block_index = k;
             blkargs->is_last = k + 1 == ntask;
             armas_task_init(&tasks[k].task, k, compute_block, blkargs, ready);
-            armas_sched_schedule(scheduler, &tasks[k]);
+            schedule_task(scheduler, &tasks[k]);
             k++;
         }
     }
@@ -223,9 +238,14 @@ int armas_ac_workers_mult(
     // verify that task worker count is zero on all tasks
     int refcnt = worker_all_ready(tasks, ntask);
     assert(refcnt == 0);
+    int error = 0;
+    for (size_t k = 0; k < ntask && !error; k++)
+        error = tasks[k].args.error;
     // release task memory
     free(tasks);
-    return 0;
+    if (error)
+        cf->error = error;
+    return -error;
 }
 #else
 #warning "Missing defines. No code!"
-- 
2.43.0


From ee95c2022c3f4cc977b8dd2e81b566e9d48a09af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 068/136] fix: accelerator release leaked the scheduler

---
 src/workers/entry.c     | 1 +
 src/workers/scheduler.h | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/workers/entry.c b/src/workers/entry.c
index 2373db6..318d219 100644
--- a/src/workers/entry.c
+++ b/src/workers/entry.c
@@ -64,6 +64,7 @@ int armas_ac_workers_release(void *private)
     if (!scheduler)
         return 0;
     armas_sched_stop(scheduler);
+    armas_sched_release(scheduler);
     return 0;
 }
 
diff --git a/src/workers/scheduler.h b/src/workers/scheduler.h
index da41787..788af8b 100644
--- a/src/workers/scheduler.h
+++ b/src/workers/scheduler.h
@@ -70,7 +70,7 @@ void armas_sched_release(struct armas_ac_scheduler *sc)
 {
     if (!sc || !sc->vptr->release)
         return;
-    (sc->vptr->start)(sc);
+    (sc->vptr->release)(sc);
 }
 
 static inline
-- 
2.43.0


From 37f4d016e6d236bea33456cab90f8392ff2d1a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:55 +0000
Subject: [PATCH 069/136] fix: block index of accelerated operations overflowed

---
 src/include/accel.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/accel.h b/src/include/accel.h
index 0a039db..c602b45 100644
--- a/src/include/accel.h
+++ b/src/include/accel.h
@@ -99,7 +99,8 @@ int armas_ac_block_index(int n, int nblocks, int ntotal)
 {
     if (n == nblocks)
         return ntotal;
-    return (n*ntotal/nblocks) - ((n*ntotal/nblocks) & 0x3);
+    int k = (int)((int64_t)n*ntotal/nblocks);
+    return k - (k & 0x3);
 }
 
 #ifdef ARMAS_DTYPE_H
-- 
2.43.0


From e40d93017587cf77169bcb78444d7d3c47ed9d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:16 +0000
Subject: [PATCH 070/136] fix: processors configured for worker threads were
 ignored

---
 src/workers/workers.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/workers/workers.c b/src/workers/workers.c
index acc2f2b..339abbb 100644
--- a/src/workers/workers.c
+++ b/src/workers/workers.c
@@ -275,6 +275,7 @@ int armas_ac_sched_workers_init(struct armas_ac_scheduler **scheduler, int qlen)
     sc->workers = (struct armas_ac_worker *)&buf[sizeof(struct armas_ac_sched_workers)];
     sc->nworker = env->max_cores;
     sc->options = env->options;
+    sc->cpus = env->cpus;
     last_cpu = -1;
     pthread_mutex_init(&sc->lock, NULL);
 
-- 
2.43.0


From 1de4256af3d0f0f56f73878b5d40e7e03dda5f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 071/136] fix: some workers were left unpinned when fewer
 processors than workers were configured

---
 src/workers/workers.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/workers/workers.c b/src/workers/workers.c
index 339abbb..6f2a22d 100644
--- a/src/workers/workers.c
+++ b/src/workers/workers.c
@@ -288,6 +288,8 @@ int armas_ac_sched_workers_init(struct armas_ac_scheduler **scheduler, int qlen)
         }
         // pick up next cpu from list available cpus
         last_cpu = next_cpu_in_set(&sc->cpus, last_cpu);
+        if (last_cpu < 0)
+            last_cpu = next_cpu_in_set(&sc->cpus, -1);
         sc->workers[i].cpuid = last_cpu;
     }
     sc->nsched = 0;
-- 
2.43.0


From 87a06514b47ccc738b782ea90bfc0e898c5209a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:54 +0000
Subject: [PATCH 072/136] fix: environment was read concurrently by first users

---
 src/base/accel.c | 15 ++++++++++-----
 src/base/env.c   | 14 +++++---------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/base/accel.c b/src/base/accel.c
index 98e4543..5b198a2 100644
--- a/src/base/accel.c
+++ b/src/base/accel.c
@@ -11,6 +11,7 @@
 #include <stdio.h>
 #include <ctype.h>
 #include <sched.h>
+#include <pthread.h>
 
 #include "armas.h"
 #include "accel.h"
@@ -253,16 +254,20 @@ static struct armas_ac_env env = {
     .options = 0,
 };
 
+static pthread_once_t env_once = PTHREAD_ONCE_INIT;
+
+static
+void read_env_once(void)
+{
+    armas_ac_read_env(&env);
+}
+
 /**
  * @brief Get accelerator environment.
  */
 struct armas_ac_env *armas_ac_getenv()
 {
-    static int initialized = 0;
-    if (!initialized) {
-        armas_ac_read_env(&env);
-        initialized = 1;
-    }
+    pthread_once(&env_once, read_env_once);
     return &env;
 }
 //! @}
diff --git a/src/base/env.c b/src/base/env.c
index 07150c0..889ace7 100644
--- a/src/base/env.c
+++ b/src/base/env.c
@@ -10,6 +10,7 @@
 #include <string.h>
 #include <math.h>
 #include <ctype.h>
+#include <pthread.h>
 
 #include "armas.h"
 
@@ -50,7 +51,7 @@ static struct armas_conf __default_conf = {
     .residual = 0.0       // last residual computed (output)
 };
 
-static int has_read_environment = 0;
+static pthread_once_t has_read_environment = PTHREAD_ONCE_INIT;
 
 
 #ifndef ENV_ARMAS_CONFIG
@@ -64,14 +65,11 @@ static int has_read_environment = 0;
 #endif
 
 static
-void armas_read_environment()
+void armas_read_environment(void)
 {
     char *cstr, *tok;
     int n, val;
 
-    if (has_read_environment)
-        return;
-
     cstr = getenv(ENV_ARMAS_CONFIG);
     // parse string: "MB,NB,KB,LB,BLAS1MIN,BLAS2MIN,ISFIXED"
     for (n = 0, tok = strsep(&cstr, ","); tok; tok = strsep(&cstr, ","), n++) {
@@ -140,8 +138,6 @@ void armas_read_environment()
             }
         }
     }
-
-    has_read_environment = 1;
 }
 
 /**
@@ -151,7 +147,7 @@ void armas_read_environment()
  */
 struct armas_env *armas_getenv()
 {
-    armas_read_environment();
+    pthread_once(&has_read_environment, armas_read_environment);
     return &__env_config;
 }
 
@@ -163,7 +159,7 @@ struct armas_env *armas_getenv()
  */
 struct armas_conf *armas_conf_default()
 {
-    armas_read_environment();
+    pthread_once(&has_read_environment, armas_read_environment);
     return &__default_conf;
 }
 
-- 
2.43.0


From 7ca0f083889fc5d8558a1f1c4cdcbba4a46ceb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 073/136] fix: random butterfly generator was seeded through an
 unsynchronised flag

---
 src/lapack/rbtgm.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lapack/rbtgm.c b/src/lapack/rbtgm.c
index c18d4cf..9fd723f 100644
--- a/src/lapack/rbtgm.c
+++ b/src/lapack/rbtgm.c
@@ -24,6 +24,7 @@
 
 #include <stdlib.h>
 #include <time.h>
+#include <pthread.h>
 
 #include "matrix.h"
 #include "internal.h"
@@ -405,6 +406,13 @@ int armas_size_rbt(int *fact, int N, int depth)
     return Nd;
 }
 
+static pthread_once_t rbt_seeded = PTHREAD_ONCE_INIT;
+
+static void rbt_seed(void)
+{
+    srand48((long) time(0));
+}
+
 /**
  * @brief Generate random butterfly matrix
  *
@@ -415,14 +423,10 @@ int armas_size_rbt(int *fact, int N, int depth)
  */
 void armas_gen_rbt(armas_dense_t * R)
 {
-    static int init = 0;
     double r;
     int i, j;
 
-    if (init == 0) {
-        srand48((long) time(0));
-        init = 1;
-    }
+    pthread_once(&rbt_seeded, rbt_seed);
 
     for (j = 0; j < R->cols; j++) {
         for (i = 0; i < R->rows; i++) {
-- 
2.43.0


From 51762937feb6e9c98c65c22632375f151540bddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 074/136] fix: environment parsing modified the environment and
 accepted unusable values

---
 src/base/env.c | 118 +++++++++++++++++++++++++++++++------------------
 1 file changed, 74 insertions(+), 44 deletions(-)

diff --git a/src/base/env.c b/src/base/env.c
index 889ace7..b976a62 100644
--- a/src/base/env.c
+++ b/src/base/env.c
@@ -6,6 +6,9 @@
 // any later version. See the COPYING tile included in this archive.
 
 #include <stdlib.h>
+#include <stdint.h>
+#include <limits.h>
+#include <errno.h>
 #include <unistd.h>
 #include <string.h>
 #include <math.h>
@@ -64,80 +67,107 @@ static pthread_once_t has_read_environment = PTHREAD_ONCE_INIT;
 #define ENV_ARMAS_DEBUG  "ARMAS_DEBUG"
 #endif
 
+/*
+ * Set configuration value if token holds a positive integer; other tokens are ignored.
+ */
+static
+void env_int(int *value, const char *tok, int minval)
+{
+    char *endptr;
+    long val;
+
+    errno = 0;
+    val = strtol(tok, &endptr, 10);
+    if (endptr == tok || errno != 0 || val <= 0 || val > INT_MAX)
+        return;
+    *value = val < minval ? minval : (int)val;
+}
+
+/*
+ * Set memory size if token holds a positive size with optional multiplier; other tokens are ignored.
+ */
+static
+void env_size(size_t *value, const char *tok, size_t minval)
+{
+    char *endptr;
+    unsigned long val, mult = 1;
+
+    errno = 0;
+    val = strtoul(tok, &endptr, 0);
+    if (endptr == tok || errno != 0 || val == 0 || strchr(tok, '-'))
+        return;
+    switch (toupper(*endptr)) {
+    case 'K':
+        mult = 1024;
+        break;
+    case 'M':
+        mult = 1024*1024;
+        break;
+    default:
+        break;
+    }
+    if (val > (SIZE_MAX/2)/mult)
+        return;
+    val *= mult;
+    *value = val < minval ? minval : val;
+}
+
 static
 void armas_read_environment(void)
 {
-    char *cstr, *tok;
-    int n, val;
+    char *str, *cstr, *tok;
+    int n;
 
+    // strings are copied as parsing modifies them and environment must not change
     cstr = getenv(ENV_ARMAS_CONFIG);
+    str = cstr = cstr ? strdup(cstr) : (char *)0;
     // parse string: "MB,NB,KB,LB,BLAS1MIN,BLAS2MIN,ISFIXED"
     for (n = 0, tok = strsep(&cstr, ","); tok; tok = strsep(&cstr, ","), n++) {
-        val = atoi(tok);
         switch (n) {
         case 0:
-            if (val > 0)
-                __env_config.mb = val;
+            env_int(&__env_config.mb, tok, 1);
             break;
         case 1:
-            if (val > 0)
-                __env_config.nb = val;
+            env_int(&__env_config.nb, tok, 1);
             break;
         case 2:
-            if (val > 0)
-                __env_config.kb = val;
+            env_int(&__env_config.kb, tok, 1);
             break;
         case 3:
-            if (val > 0)
-                __env_config.lb = val;
+            env_int(&__env_config.lb, tok, 1);
             break;
         case 4:
-            if (val > 0)
-                __env_config.blas1min = val;
+            // vector of one element cannot be divided further
+            env_int(&__env_config.blas1min, tok, 2);
             break;
         case 5:
-            if (val > 0)
-                __env_config.blas2min = val;
+            env_int(&__env_config.blas2min, tok, 2);
             break;
         case 6:
+            __env_config.fixed = tolower(*tok) == 'y';
+            break;
         default:
-            __env_config.fixed = tok && tolower(*tok) == 'y';
             break;
         }
     }
+    free(str);
 
     // get cache memory size; L2MEM,L1MEM
     cstr = getenv(ENV_ARMAS_CACHE);
-    if (cstr) {
-        char *endptr;
-        size_t val;
-        for (n = 0, tok = strsep(&cstr, ","); tok; tok = strsep(&cstr, ","), n++) {
-            endptr = (char *)0;
-            val = strtoul(tok, &endptr, 0);
-            if (endptr) {
-                switch (toupper(*endptr)) {
-                case 'K':
-                    val *= 1024;
-                    break;
-                case 'M':
-                    val *= 1024*1024;
-                    break;
-                default:
-                    break;
-                }
-            }
-            switch (n) {
-            case 0:
-                if (val > 0)
-                    __env_config.cmem =  val < CMEM_MIN ? CMEM_MIN : val;;
-                break;
-            case 1:
-                if (val > 0)
-                    __env_config.l1mem =  val < L1MEM_MIN ? L1MEM_MIN : val;;
-                break;
-            }
+    str = cstr = cstr ? strdup(cstr) : (char *)0;
+    for (n = 0, tok = strsep(&cstr, ","); tok; tok = strsep(&cstr, ","), n++) {
+        switch (n) {
+        case 0:
+            env_size(&__env_config.cmem, tok, CMEM_MIN);
+            break;
+        case 1:
+            env_size(&__env_config.l1mem, tok, L1MEM_MIN);
+            break;
+        default:
+            break;
         }
     }
+    free(str);
 }
 
 /**
-- 
2.43.0


From 8c4680cab7be6d83b182910bd1b9f434e0e4e058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:12 +0000
Subject: [PATCH 075/136] fix: accelerator environment parsing modified the
 environment and mishandled cpu specs

---
 src/base/accel.c | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/base/accel.c b/src/base/accel.c
index 5b198a2..7b5e91f 100644
--- a/src/base/accel.c
+++ b/src/base/accel.c
@@ -6,6 +6,8 @@
 // any later version. See the COPYING file included in this archive.
 
 #define _GNU_SOURCE
+#include <limits.h>
+#include <stdlib.h>
 #include <string.h>
 #include <unistd.h>
 #include <stdio.h>
@@ -158,18 +160,19 @@ void parse_cpu_spec(struct armas_ac_env *env, char *str)
 {
     char *tok, *s0, *s1;
     char *cstr = str;
-    int n, i, val, start, end, step;
+    int n;
+    long i, val, start, end, step;
     unsigned long bits;
     long nproc = sysconf(_SC_NPROCESSORS_ONLN);;
 
     // parse cpu reservations
     for (n = 0, tok = strsep(&cstr, ","); tok; tok = strsep(&cstr, ","), n++) {
-        // empty token
-        if (!*tok)
+        // empty or malformed token
+        if (!isdigit(*tok))
             continue;
 
         // KK:0xNNN = bitmask, N = number, K-L/N = from K to L with steps of N
-        if ((s0 = strchr(tok, ':')) || tolower(tok[1]) == 'x') {
+        if ((s0 = strchr(tok, ':')) || (tok[0] == '0' && tolower(tok[1]) == 'x')) {
             // hex mask (unsigned long) with optional starting offset
             start = 0;
             if (s0) {
@@ -183,8 +186,8 @@ void parse_cpu_spec(struct armas_ac_env *env, char *str)
             }
 
             // only processer number less than nproc
-            for (i = 0; i < 8 * sizeof(val) && start + i < nproc; i++) {
-                if ((bits & (1 << i)) != 0) {
+            for (i = 0; i < 8 * sizeof(bits) && start < nproc - i; i++) {
+                if ((bits & (1UL << i)) != 0) {
                     CPU_SET(start + i, &env->cpus);
                 }
             }
@@ -199,8 +202,12 @@ void parse_cpu_spec(struct armas_ac_env *env, char *str)
             *s0 = '\0';
             start = strtol(tok, NULL, 10);
             end = strtol(s0 + 1, NULL, 10);
-            for (i = start; i <= end && i < nproc; i += step) {
+            if (end >= nproc)
+                end = nproc - 1;
+            for (i = start; step > 0 && i <= end; i += step) {
                 CPU_SET(i, &env->cpus);
+                if (step > end - i)
+                    break;
             }
         } else {
             val = strtol(tok, NULL, 10);
@@ -215,11 +222,14 @@ void parse_cpu_spec(struct armas_ac_env *env, char *str)
  */
 void armas_ac_read_env(struct armas_ac_env *env)
 {
-    int n, val;
-    char *tok, *cstr;
+    int n;
+    long val;
+    char *tok, *cstr, *str;
 
     env->max_cores = sysconf(_SC_NPROCESSORS_ONLN);
+    // string is copied as parsing modifies it and environment must not change
     cstr = getenv(ENV_ARMAS_AC_CONFIG);
+    str = cstr = cstr ? strdup(cstr) : NULL;
     CPU_ZERO(&env->cpus);
 
     /* parse string:
@@ -228,12 +238,12 @@ void armas_ac_read_env(struct armas_ac_env *env)
     for (n = 0, tok = strsep(&cstr, ","); tok; tok = strsep(&cstr, ","), n++) {
         switch (n) {
         case 0:
-            val = atoi(tok);
-            if (val > 0)
+            val = strtol(tok, NULL, 10);
+            if (val > 0 && val <= INT_MAX)
                 env->num_items = val;
             break;
         case 1:
-            val = atoi(tok);
+            val = strtol(tok, NULL, 10);
             if (val > 0 && val < env->max_cores)
                 env->max_cores = val;
             break;
@@ -245,6 +255,7 @@ void armas_ac_read_env(struct armas_ac_env *env)
             break;
         }
     }
+    free(str);
 }
 
 static struct armas_ac_env env = {
-- 
2.43.0


From 2a4bc5e4c1f73be9ba051098cc545c70c32d3609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 076/136] fix: very large lapack blocking size overflowed
 workspace sizes

---
 src/base/env.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/base/env.c b/src/base/env.c
index b976a62..5a7ff3d 100644
--- a/src/base/env.c
+++ b/src/base/env.c
@@ -27,6 +27,7 @@
 #define CMEMSIZE 256*1024L
 #define CMEM_MIN 4096
 #define L1MEM_MIN 1024
+#define LB_MAX 2048
 
 static struct armas_env __env_config = {
     .mb = 64,             // MB (row count)
@@ -71,7 +72,7 @@ static pthread_once_t has_read_environment = PTHREAD_ONCE_INIT;
  * Set configuration value if token holds a positive integer; other tokens are ignored.
  */
 static
-void env_int(int *value, const char *tok, int minval)
+void env_int(int *value, const char *tok, int minval, int maxval)
 {
     char *endptr;
     long val;
@@ -80,7 +81,7 @@ void env_int(int *value, const char *tok, int minval)
     val = strtol(tok, &endptr, 10);
     if (endptr == tok || errno != 0 || val <= 0 || val > INT_MAX)
         return;
-    *value = val < minval ? minval : (int)val;
+    *value = val < minval ? minval : val > maxval ? maxval : (int)val;
 }
 
 /*
@@ -125,23 +126,24 @@ void armas_read_environment(void)
     for (n = 0, tok = strsep(&cstr, ","); tok; tok = strsep(&cstr, ","), n++) {
         switch (n) {
         case 0:
-            env_int(&__env_config.mb, tok, 1);
+            env_int(&__env_config.mb, tok, 1, INT_MAX);
             break;
         case 1:
-            env_int(&__env_config.nb, tok, 1);
+            env_int(&__env_config.nb, tok, 1, INT_MAX);
             break;
         case 2:
-            env_int(&__env_config.kb, tok, 1);
+            env_int(&__env_config.kb, tok, 1, INT_MAX);
             break;
         case 3:
-            env_int(&__env_config.lb, tok, 1);
+            // workspace sizes grow to square of blocking size
+            env_int(&__env_config.lb, tok, 1, LB_MAX);
             break;
         case 4:
             // vector of one element cannot be divided further
-            env_int(&__env_config.blas1min, tok, 2);
+            env_int(&__env_config.blas1min, tok, 2, INT_MAX);
             break;
         case 5:
-            env_int(&__env_config.blas2min, tok, 2);
+            env_int(&__env_config.blas2min, tok, 2, INT_MAX);
             break;
         case 6:
             __env_config.fixed = tolower(*tok) == 'y';
-- 
2.43.0


From 14907f9651bd9042be2fb0361802aef7fd61e9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:37 +0000
Subject: [PATCH 077/136] fix: overflow in checking of fixed block sizes

---
 src/base/cache.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/base/cache.c b/src/base/cache.c
index 1d75ea1..8245f36 100644
--- a/src/base/cache.c
+++ b/src/base/cache.c
@@ -262,8 +262,9 @@ static
 int armas_cache_fixed2(cache_t *cache, armas_cbuf_t *cbuf,
                        size_t mb, size_t nb, size_t kb, size_t p)
 {
-    size_t bytes = (kb > (CACHELINE/p) ? kb : (CACHELINE/p))*(mb + nb)*p;
-    if (bytes > cbuf->len) {
+    size_t rows = kb > (CACHELINE/p) ? kb : (CACHELINE/p);
+    // divide as product of large values may overflow
+    if (rows > cbuf->len/p || (mb + nb) > cbuf->len/p/rows) {
         return -1;
     }
     if (kb > (CACHELINE/p))
@@ -395,8 +396,9 @@ static
 int armas_cache_fixed3(cache_t *cache, armas_cbuf_t *cbuf,
                        size_t mb, size_t nb, size_t kb, size_t p)
 {
-    size_t bytes = (kb > (CACHELINE/p) ? kb : (CACHELINE/p))*(mb + 2*nb)*p;
-    if (bytes > cbuf->len) {
+    size_t rows = kb > (CACHELINE/p) ? kb : (CACHELINE/p);
+    // divide as product of large values may overflow
+    if (rows > cbuf->len/p || (mb + 2*nb) > cbuf->len/p/rows) {
         return -1;
     }
     if (kb > (CACHELINE/p))
-- 
2.43.0


From 96215daf15958240872a9a623d750b1023293a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:54 +0000
Subject: [PATCH 078/136] fix: small cache buffer with uneven block sizes
 yielded too wide blocks

---
 src/base/cache.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/base/cache.c b/src/base/cache.c
index 8245f36..4bb913f 100644
--- a/src/base/cache.c
+++ b/src/base/cache.c
@@ -193,6 +193,11 @@ void cbuf_adjust(size_t *mn, size_t *nn, size_t *kn, size_t S, size_t nblk, size
         *kn = clp;
         *mn = *nn = (S/(clp*(nblk + 1))) & ~0x3;
     }
+    // blocks are square at most
+    if (*mn > *kn)
+        *mn = *kn;
+    if (*nn > *kn)
+        *nn = *kn;
 }
 
 /**
-- 
2.43.0


From d544b66b478ecbecf00f5391e8bae8a4ac053373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 079/136] fix: sparse: conversions, copies and dense images
 lost structure

---
 src/sparse/convert.c | 50 +++++++++++++++++++++++++++++---------------
 src/sparse/copy.c    | 21 ++++++++++++++++++-
 src/sparse/dense.c   |  6 ++++++
 src/sparse/util.c    | 36 +++++++++++++++++++++----------
 4 files changed, 84 insertions(+), 29 deletions(-)

diff --git a/src/sparse/convert.c b/src/sparse/convert.c
index 65767d7..9c6082c 100644
--- a/src/sparse/convert.c
+++ b/src/sparse/convert.c
@@ -14,7 +14,7 @@
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
-#if defined(armassp_sort)
+#if defined(armassp_sort) && defined(armassp_copy_to)
 #define ARMAS_REQUIRES 1
 #endif
 
@@ -134,6 +134,9 @@ void csc_convert(armas_sparse_t * A, const armas_sparse_t * B)
     DTYPE *Ae = A->elems.v;
     int cur, sum, col, *Ax = A->ix;
 
+    for (int k = 0; k < B->cols + 1; k++)
+        A->ptr[k] = 0;
+
     // count rows in column
     for (int k = 0; k < B->nnz; k++) {
         A->ptr[Be[k].j]++;
@@ -173,7 +176,10 @@ void csr_convert(armas_sparse_t * A, const armas_sparse_t * B)
     DTYPE *Ae = A->elems.v;
     int cur, sum, row, *Ax = A->ix;
 
-    // count rows in column
+    for (int k = 0; k < B->rows + 1; k++)
+        A->ptr[k] = 0;
+
+    // count columns in row
     for (int k = 0; k < B->nnz; k++) {
         A->ptr[Be[k].i]++;
     }
@@ -223,7 +229,7 @@ void csr_convert(armas_sparse_t * A, const armas_sparse_t * B)
 armas_sparse_t *armassp_convert_to(
     armas_sparse_t * A, const armas_sparse_t * B, armassp_type_enum target)
 {
-    if (!B)
+    if (!A || !B)
         return (armas_sparse_t *) 0;
 
     // only conversion to CSR or CSC supported
@@ -234,12 +240,12 @@ armas_sparse_t *armassp_convert_to(
     if (!armassp_test_alloc(A, B->rows, B->cols, B->nnz, target)) {
         return (armas_sparse_t *) 0;
     }
-    // test structure
-    if (!armassp_test_structure(A, B->rows, B->cols, B->nnz, target)) {
-        return (armas_sparse_t *) 0;
-    }
-    // init internal arrays
-    armassp_init_arrays(A, B->rows, B->cols, B->nnz, target);
+    // same storage format implies copying ...
+    if (B->kind == target)
+        return armassp_copy_to(A, B);
+
+    // layout target space for the source matrix
+    armassp_init_structure(A, B->rows, B->cols, B->nnz, target);
 
     switch (B->kind) {
     case ARMASSP_COO:
@@ -250,15 +256,11 @@ armas_sparse_t *armassp_convert_to(
         armassp_sort(A);
         break;
     case ARMASSP_CSC:
-        if (target == ARMASSP_CSR)
-            csc_to_csr(A, B);
-        // target CSC implies copying ...
+        csc_to_csr(A, B);
         break;
     case ARMASSP_CSR:
     default:
-        if (target == ARMASSP_CSC)
-            csr_to_csc(A, B);
-        // target CSR implies copying ...
+        csr_to_csc(A, B);
         break;
     }
     return A;
@@ -279,8 +281,15 @@ armas_sparse_t *armassp_convert_to(
 armas_sparse_t *armassp_convert(const armas_sparse_t * B,
                                     armassp_type_enum target)
 {
+    if (!B)
+        return (armas_sparse_t *) 0;
+
     armas_sparse_t *A = armassp_new(B->rows, B->cols, B->nnz, target);
-    return armassp_convert_to(A, B, target);
+    if (!armassp_convert_to(A, B, target)) {
+        armassp_free(A);
+        return (armas_sparse_t *) 0;
+    }
+    return A;
 }
 
 /**
@@ -320,10 +329,17 @@ armas_sparse_t *armassp_transpose_to(armas_sparse_t * A,
 
 armas_sparse_t *armassp_transpose(const armas_sparse_t * B)
 {
+    if (!B)
+        return (armas_sparse_t *) 0;
+
     armassp_type_enum t = B->kind == ARMASSP_CSC ? ARMASSP_CSR : ARMASSP_CSC;
     // make space reservation as if converted to other storage format
     armas_sparse_t *A = armassp_new(B->rows, B->cols, B->nnz, t);
-    return armassp_transpose_to(A, B);
+    if (!armassp_transpose_to(A, B)) {
+        armassp_free(A);
+        return (armas_sparse_t *) 0;
+    }
+    return A;
 }
 #else
 #warning "Missing defines. No code."
diff --git a/src/sparse/copy.c b/src/sparse/copy.c
index cf0ebc6..c5f38e9 100644
--- a/src/sparse/copy.c
+++ b/src/sparse/copy.c
@@ -21,6 +21,7 @@
 
 #include "matrix.h"
 #include "sparse.h"
+#include "splocal.h"
 
 /**
  * @brief Make A = B
@@ -33,6 +34,9 @@ armas_sparse_t *armassp_copy_to(armas_sparse_t * A,
     if (!B || !A)
         return (armas_sparse_t *) 0;
 
+    if (A == B)
+        return A;
+
     if (armassp_nbytes(A) < armassp_bytes_for(B)) {
         return (armas_sparse_t *) 0;
     }
@@ -41,6 +45,7 @@ armas_sparse_t *armassp_copy_to(armas_sparse_t * A,
     switch (B->kind) {
     case ARMASSP_CSC:
     case ARMASSP_CSR:
+        armassp_init_structure(A, B->rows, B->cols, B->nnz, B->kind);
         Ae = A->elems.v;
         Be = B->elems.v;
         for (int k = 0; k < B->nnz; k++) {
@@ -57,6 +62,13 @@ armas_sparse_t *armassp_copy_to(armas_sparse_t * A,
         for (int k = 0; k < B->nnz; k++) {
             A->elems.ep[k] = B->elems.ep[k];
         }
+        A->ptr = A->ix = (int *) 0;
+        A->nptr = 0;
+        A->rows = B->rows;
+        A->cols = B->cols;
+        A->nnz = B->nnz;
+        A->size = armassp_nbytes(A) / sizeof(coo_elem_t);
+        A->kind = B->kind;
         break;
     }
     return A;
@@ -69,8 +81,15 @@ armas_sparse_t *armassp_copy_to(armas_sparse_t * A,
  */
 armas_sparse_t *armassp_mkcopy(const armas_sparse_t * B)
 {
+    if (!B)
+        return (armas_sparse_t *) 0;
+
     armas_sparse_t *A = armassp_new(B->rows, B->cols, B->nnz, B->kind);
-    return armassp_copy_to(A, B);
+    if (!armassp_copy_to(A, B)) {
+        armassp_free(A);
+        return (armas_sparse_t *) 0;
+    }
+    return A;
 }
 #else
 #warning "Missing defines. No code!"
diff --git a/src/sparse/dense.c b/src/sparse/dense.c
index 89ce9e3..3983c6c 100644
--- a/src/sparse/dense.c
+++ b/src/sparse/dense.c
@@ -34,6 +34,12 @@ int armassp_todense(armas_dense_t * A, const armas_sparse_t * B,
         return -1;
     }
 
+    // elements not in the sparse matrix are zero
+    for (int j = 0; j < A->cols; j++) {
+        for (int i = 0; i < A->rows; i++)
+            armas_set_unsafe(A, i, j, ZERO);
+    }
+
     int stat = 0;
     switch (B->kind) {
     case ARMASSP_CSC:
diff --git a/src/sparse/util.c b/src/sparse/util.c
index 8b5a37a..fbaa888 100644
--- a/src/sparse/util.c
+++ b/src/sparse/util.c
@@ -99,12 +99,15 @@ int armassp_make(armas_sparse_t * A, int rows, int cols, int nnz,
 armas_sparse_t *armassp_init(armas_sparse_t * A, int rows, int cols,
                                  int nnz, armassp_type_enum storage)
 {
-    if (rows == 0 || cols == 0 || nnz == 0) {
+    if (rows < 0 || cols < 0 || nnz < 0)
+        return (armas_sparse_t *) 0;
+    if (rows == 0 || cols == 0) {
         armassp_clear(A);
+        A->kind = storage;
         return A;
     }
     size_t nbytes = armassp_bytes_needed(rows, cols, nnz, storage);
-    void *data = calloc(nbytes, 1);
+    void *data = calloc(nbytes > 0 ? nbytes : 1, 1);
     if (!data)
         return (armas_sparse_t *) 0;
     armassp_make(A, rows, cols, nnz, storage, data, nbytes);
@@ -118,7 +121,11 @@ armas_sparse_t *armassp_new(int rows, int cols, int nnz,
         (armas_sparse_t *) calloc(1, sizeof(armas_sparse_t));
     if (!A)
         return A;
-    return armassp_init(A, rows, cols, nnz, kind);
+    if (!armassp_init(A, rows, cols, nnz, kind)) {
+        free(A);
+        return (armas_sparse_t *) 0;
+    }
+    return A;
 }
 
 /**
@@ -128,6 +135,9 @@ armas_sparse_t *armassp_new(int rows, int cols, int nnz,
 int armassp_resize(armas_sparse_t * A, int newsize)
 {
     if (A->kind == ARMASSP_COO) {
+        // never drop existing elements
+        if (newsize < A->nnz)
+            return -1;
         coo_elem_t *nb = (coo_elem_t *) calloc(newsize, sizeof(coo_elem_t));
         if (!nb)
             return -1;
@@ -135,6 +145,7 @@ int armassp_resize(armas_sparse_t * A, int newsize)
         free(A->elems.ep);
         A->elems.ep = nb;
         A->size = newsize;
+        A->__nbytes = newsize * sizeof(coo_elem_t);
         return 0;
     }
     // others not yet supported
@@ -149,6 +160,8 @@ int armassp_append(armas_sparse_t * A, int m, int n, DTYPE v)
 {
     if (A->kind != ARMASSP_COO)
         return -1;
+    if (m < 0 || m >= A->rows || n < 0 || n >= A->cols)
+        return -1;
 
     if (A->nnz == A->size) {
         if (armassp_resize(A, A->size + 64) < 0)
@@ -173,26 +186,27 @@ int armassp_hasdiag(const armas_sparse_t * A, int diag)
 
     if (!A || A->rows != A->cols)
         return 0;
-    if (diag < 0 && A->rows < -diag)
+    if (diag < 0 && A->rows <= -diag)
         return 0;
-    if (diag > 0 && A->cols < diag)
+    if (diag > 0 && A->cols <= diag)
         return 0;
 
     switch (A->kind) {
     case ARMASSP_COO:
-        roff = diag < 0 ? 0 : diag;
-        coff = diag > 0 ? 0 : diag;
+        // element on diagonal: column == row + diag
+        roff = diag > 0 ? diag : 0;
+        coff = diag < 0 ? -diag : 0;
         nc = diag < 0 ? A->rows + diag : A->cols - diag;
         for (i = 0; i < A->nnz; i++) {
-            if (A->elems.ep[i].i + coff == A->elems.ep[i].j + roff)
+            if (A->elems.ep[i].i + roff == A->elems.ep[i].j + coff)
                 nc--;
         }
         break;
     case ARMASSP_CSC:
         start = diag > 0 ? diag : 0;
-        end = diag < 0 ? A->cols - diag : A->cols;
+        end = diag < 0 ? A->cols + diag : A->cols;
         nc = end - start;
-        for (i = 0, j = start; j < end; i++, j++) {
+        for (i = diag < 0 ? -diag : 0, j = start; j < end; i++, j++) {
             for (p = armassp_index(A, j); p < armassp_index(A, j + 1); p++) {
                 if (armassp_at(A, p) == i) {
                     nc--;
@@ -205,7 +219,7 @@ int armassp_hasdiag(const armas_sparse_t * A, int diag)
         start = diag < 0 ? -diag : 0;
         end = diag > 0 ? A->rows - diag : A->rows;
         nc = end - start;
-        for (j = 0, i = start; i < end; i++, j++) {
+        for (j = diag > 0 ? diag : 0, i = start; i < end; i++, j++) {
             for (p = armassp_index(A, i); p < armassp_index(A, i + 1); p++) {
                 if (armassp_at(A, p) == j) {
                     nc--;
-- 
2.43.0


From 90a54ec07b23f6ac69673b034ffe19ba59467e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 080/136] fix: sparse: products and sums of sparse matrices

---
 src/include/sparse.h |   6 +-
 src/sparse/accum.c   |  24 +++-
 src/sparse/add.c     | 263 ++++++++++++++-----------------------------
 src/sparse/mult.c    | 162 ++++++++++++++++++--------
 4 files changed, 221 insertions(+), 234 deletions(-)

diff --git a/src/include/sparse.h b/src/include/sparse.h
index 8a4370a..38ec321 100644
--- a/src/include/sparse.h
+++ b/src/include/sparse.h
@@ -129,8 +129,8 @@ extern void armas_accum_scatter(armas_accum_t *acc, const armas_spvec_t *x,
                                   DTYPE beta, int mark);
 extern void armas_accum_dot(armas_accum_t *acc, int k, const armas_spvec_t *x,
                               const armas_spvec_t *y, int mark);
-extern void armas_accum_gather(armas_sparse_t *C, DTYPE alpha,
-                                 armas_accum_t *acc, int ik, int maxnz);
+extern int armas_accum_gather(armas_sparse_t *C, DTYPE alpha,
+                                armas_accum_t *acc, int ik, int maxnz);
 extern void armas_accum_clear(armas_accum_t *acc);
 
 
@@ -255,7 +255,7 @@ int *armassp_iptr(const armas_sparse_t *A, int j)
 __ARMAS_INLINE
 int armassp_nz(const armas_sparse_t *A, int j, int ix)
 {
-    for (int p = A->ptr[j]; A->ix[p] <= ix && p < A->ptr[j+1]; p++) {
+    for (int p = A->ptr[j]; p < A->ptr[j+1] && A->ix[p] <= ix; p++) {
         if (A->ix[p] == ix)
             return p;
     }
diff --git a/src/sparse/accum.c b/src/sparse/accum.c
index c196285..ab83037 100644
--- a/src/sparse/accum.c
+++ b/src/sparse/accum.c
@@ -19,7 +19,7 @@
 #if (defined(ARMAS_PROVIDES) && defined(ARMAS_REQUIRES)) || defined(CONFIG_NOTYPENAMES)
 // -----------------------------------------------------------------------------
 
-#include <assert.h>
+#include <stdlib.h>
 #include "matrix.h"
 #include "sparse.h"
 
@@ -149,23 +149,39 @@ void armas_accum_dot(armas_accum_t * acc,
     addpos(acc, k, v, mark);
 }
 
+static
+int index_cmp(const void *a, const void *b)
+{
+    int ia = *(const int *)a;
+    int ib = *(const int *)b;
+    return ia < ib ? -1 : (ia > ib ? 1 : 0);
+}
+
 /**
  * @brief Update matrix from accumulator.
+ *
+ * Gathers accumulated values as ik'th column/row of matrix in ascending
+ * index order.
+ *
+ * @retval  0  Success
+ * @retval <0  No space for elements in the matrix.
  * @ingroup sparse
  */
-void armas_accum_gather(armas_sparse_t * C,
+int armas_accum_gather(armas_sparse_t * C,
                           DTYPE alpha, armas_accum_t * acc, int ik, int maxnz)
 {
     int k, head;
     C->ptr[ik] = C->nnz;
+    if (acc->tail > maxnz - C->nnz)
+        return -ARMAS_ESIZE;
+    qsort(acc->queue, acc->tail, sizeof(acc->queue[0]), index_cmp);
     for (head = 0; head < acc->tail; head++) {
         k = acc->queue[head];
         C->ix[C->nnz] = k;
         C->elems.v[C->nnz] = alpha * acc->elems[k];
         C->nnz++;
-        // need realloc??; core dump now if yes
-        assert(C->nnz < C->size);
     }
+    return 0;
 }
 
 /**
diff --git a/src/sparse/add.c b/src/sparse/add.c
index 53febd8..46c3839 100644
--- a/src/sparse/add.c
+++ b/src/sparse/add.c
@@ -21,163 +21,71 @@
 #if (defined(ARMAS_PROVIDES) && defined(ARMAS_REQUIRES)) || defined(CONFIG_NOTYPENAMES)
 // -----------------------------------------------------------------------------
 
+#include <limits.h>
 #include "matrix.h"
 #include "sparse.h"
 
 #include "splocal.h"
 
+// accumulate i'th row (CSR) or column (CSC) of alpha*op(A)
 static
-void add_csr_nn(armas_sparse_t * C,
-                DTYPE alpha, const armas_sparse_t * A,
-                DTYPE beta, const armas_sparse_t * B,
-                armas_accum_t * spa)
+void add_line(armas_accum_t * spa,
+              DTYPE alpha, const armas_sparse_t * A, int trans, int i)
 {
-    int i, p;
-    DTYPE val;
-
-    C->nnz = 0;
-    armas_accum_clear(spa);
-
-    for (i = 0; i < A->rows; i++) {
-        for (p = A->ptr[i]; p < A->ptr[i + 1]; p++) {
-            val = alpha * armassp_value(A, p);
-            armas_accum_addpos(spa, armassp_at(A, p), val, i);
-        }
-        for (p = B->ptr[i]; p < B->ptr[i + 1]; p++) {
-            val = beta * armassp_value(B, p);
-            armas_accum_addpos(spa, armassp_at(B, p), val, i);
-        }
-        // gather data to C[i,:] row
-        armas_accum_gather(C, 1.0, spa, i, C->size);
-        spa->tail = 0;
-    }
-    C->ptr[A->rows] = C->nnz;
-    C->nptr = A->rows;
-}
-
-static
-void add_csr_nt(armas_sparse_t * C,
-                DTYPE alpha, const armas_sparse_t * A,
-                DTYPE beta, const armas_sparse_t * B,
-                armas_accum_t * spa)
-{
-    int i, j, p;
-    DTYPE val;
-
-    C->nnz = 0;
-    armas_accum_clear(spa);
-
-    for (i = 0; i < A->rows; i++) {
+    int j, p;
+    if (!trans) {
         for (p = A->ptr[i]; p < A->ptr[i + 1]; p++) {
-            val = alpha * armassp_value(A, p);
-            armas_accum_addpos(spa, armassp_at(A, p), val, i);
+            armas_accum_addpos(spa, armassp_at(A, p),
+                               alpha * armassp_value(A, p), i);
         }
-
-        for (j = 0; j < B->rows; j++) {
-            if ((p = armassp_nz(B, j, i)) < 0)
-                continue;
-            val = beta * armassp_value(B, p);
-            armas_accum_addpos(spa, j, val, i);
-        }
-        // gather data to C[i,:] row
-        armas_accum_gather(C, 1.0, spa, i, C->size);
-        spa->tail = 0;
+        return;
     }
-    C->ptr[A->rows] = C->nnz;
-    C->nptr = A->rows;
-}
-
-static
-void add_csr_tn(armas_sparse_t * C,
-                DTYPE alpha, const armas_sparse_t * A,
-                DTYPE beta, const armas_sparse_t * B,
-                armas_accum_t * spa)
-{
-    int i, j, p;
-    DTYPE val;
-
-    C->nnz = 0;
-    armas_accum_clear(spa);
-
-    for (i = 0; i < A->rows; i++) {
-        for (j = 0; j < A->rows; j++) {
-            if ((p = armassp_nz(A, j, i)) < 0)
-                continue;
-            val = beta * armassp_value(A, p);
-            armas_accum_addpos(spa, j, val, i);
-        }
-        for (p = B->ptr[i]; p < B->ptr[i + 1]; p++) {
-            val = beta * armassp_value(B, p);
-            armas_accum_addpos(spa, armassp_at(B, p), val, i);
-        }
-        // gather data to C[i,:] row
-        armas_accum_gather(C, 1.0, spa, i, C->size);
-        spa->tail = 0;
+    for (j = 0; j < A->nptr; j++) {
+        if ((p = armassp_nz(A, j, i)) < 0)
+            continue;
+        armas_accum_addpos(spa, j, alpha * armassp_value(A, p), i);
     }
-    C->ptr[A->rows] = C->nnz;
-    C->nptr = A->rows;
 }
 
-
+// compute C = alpha*op(A) + beta*op(B); all matrices of same storage type
 static
-void add_csc_nn(armas_sparse_t * C,
-                DTYPE alpha, const armas_sparse_t * A,
-                DTYPE beta, const armas_sparse_t * B,
-                armas_accum_t * spa)
+int add_compressed(armas_sparse_t * C,
+                   DTYPE alpha, const armas_sparse_t * A, int transA,
+                   DTYPE beta, const armas_sparse_t * B, int transB,
+                   armas_accum_t * spa)
 {
-    int i, p;
-    DTYPE val;
+    int i;
 
     C->nnz = 0;
+    C->nptr = C->kind == ARMASSP_CSR ? C->rows : C->cols;
     armas_accum_clear(spa);
 
-    for (i = 0; i < A->cols; i++) {
-        for (p = A->ptr[i]; p < A->ptr[i + 1]; p++) {
-            val = alpha * armassp_value(A, p);
-            armas_accum_addpos(spa, armassp_at(A, p), val, i);
-        }
-        for (p = B->ptr[i]; p < B->ptr[i + 1]; p++) {
-            val = beta * armassp_value(B, p);
-            armas_accum_addpos(spa, armassp_at(B, p), val, i);
-        }
-        // gather data to C[i,:] row
-        armas_accum_gather(C, 1.0, spa, i, C->size);
+    for (i = 0; i < C->nptr; i++) {
+        add_line(spa, alpha, A, transA, i);
+        add_line(spa, beta, B, transB, i);
+        // gather data to C[i,:] row (CSR) or C[:,i] column (CSC)
+        if (armas_accum_gather(C, ONE, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
         spa->tail = 0;
     }
-    C->ptr[A->cols] = C->nnz;
-    C->nptr = A->cols;
+    C->ptr[C->nptr] = C->nnz;
+    return 0;
 }
 
+// test operands and get result size for C = alpha*op(A) + beta*op(B)
 static
-void add_csc_nt(armas_sparse_t * C,
-                DTYPE alpha, const armas_sparse_t * A,
-                DTYPE beta, const armas_sparse_t * B,
-                armas_accum_t * spa)
+int add_test(int *rows, int *cols, const armas_sparse_t * A,
+             const armas_sparse_t * B, int bits)
 {
-    int i, j, p;
-    DTYPE val;
-
-    C->nnz = 0;
-    armas_accum_clear(spa);
-
-    for (i = 0; i < A->cols; i++) {
-        for (p = A->ptr[i]; p < A->ptr[i + 1]; p++) {
-            val = alpha * armassp_value(A, p);
-            armas_accum_addpos(spa, armassp_at(A, p), val, i);
-        }
+    if (!A || !B || A->kind != B->kind
+        || (A->kind != ARMASSP_CSR && A->kind != ARMASSP_CSC))
+        return -ARMAS_EINVAL;
 
-        for (j = 0; j < B->cols; j++) {
-            if ((p = armassp_nz(B, j, i)) < 0)
-                continue;
-            val = beta * armassp_value(B, p);
-            armas_accum_addpos(spa, j, val, i);
-        }
-        // gather data to C[i,:] row
-        armas_accum_gather(C, 1.0, spa, i, C->size);
-        spa->tail = 0;
-    }
-    C->ptr[A->cols] = C->nnz;
-    C->nptr = A->cols;
+    *rows = (bits & ARMAS_TRANSA) != 0 ? A->cols : A->rows;
+    *cols = (bits & ARMAS_TRANSA) != 0 ? A->rows : A->cols;
+    int br = (bits & ARMAS_TRANSB) != 0 ? B->cols : B->rows;
+    int bc = (bits & ARMAS_TRANSB) != 0 ? B->rows : B->cols;
+    return *rows == br && *cols == bc ? 0 : -ARMAS_ESIZE;
 }
 
 /**
@@ -203,56 +111,39 @@ int armassp_addto_w(armas_sparse_t * C,
                       const armas_sparse_t * B,
                       int bits, armas_wbuf_t * wb, armas_conf_t * cf)
 {
-    if (!A || !B)
-        return 0;
-
-    if (A->kind != B->kind) {
-        return -ARMAS_EINVAL;
-    }
-    if (A->rows != B->rows || A->cols != B->cols) {
-        return -ARMAS_ESIZE;
+    int rows, cols, stat;
+
+    if (!cf)
+        cf = armas_conf_default();
+
+    stat = add_test(&rows, &cols, A, B, bits);
+    if (stat == 0 && (!C || C->kind != A->kind))
+        stat = -ARMAS_EINVAL;
+    if (stat == 0 && (C->rows != rows || C->cols != cols))
+        stat = -ARMAS_ESIZE;
+    if (stat < 0) {
+        cf->error = -stat;
+        return stat;
     }
 
     if (wb && wb->bytes == 0) {
         wb->bytes = armas_accum_need(C);
         return 0;
     }
-    if (armas_wbytes(wb) < armas_accum_need(C)) {
+    if (!wb || armas_wbytes(wb) < armas_accum_need(C)) {
         cf->error = ARMAS_EWORK;
         return -ARMAS_EWORK;
     }
     armas_accum_t spa;
-    // get current position in wb space
-    size_t pos = armas_wpos(wb);
     // make sparse accumulator 
     armas_accum_make(&spa, armas_accum_dim(C),
                        armas_wptr(wb), armas_wbytes(wb));
 
-    switch (bits & (ARMAS_TRANSA | ARMAS_TRANSB)) {
-    case ARMAS_TRANSB:
-        if (A->kind == ARMASSP_CSC) {
-            add_csc_nt(C, alpha, A, beta, B, &spa);
-        } else {
-            add_csr_nt(C, alpha, A, beta, B, &spa);
-        }
-        break;
-    case ARMAS_TRANSA:
-        if (A->kind == ARMASSP_CSC) {
-        } else {
-            add_csr_tn(C, alpha, A, beta, B, &spa);
-        }
-        break;
-    default:
-        if (A->kind == ARMASSP_CSC) {
-            add_csc_nn(C, alpha, A, beta, B, &spa);
-        } else {
-            add_csr_nn(C, alpha, A, beta, B, &spa);
-        }
-        break;
-    }
-    // release used wbspace
-    armas_wsetpos(wb, pos);
-    return 0;
+    stat = add_compressed(C, alpha, A, (bits & ARMAS_TRANSA) != 0,
+                          beta, B, (bits & ARMAS_TRANSB) != 0, &spa);
+    if (stat < 0)
+        cf->error = -stat;
+    return stat;
 }
 
 /**
@@ -270,26 +161,42 @@ armas_sparse_t *armassp_add(DTYPE alpha,
     armas_sparse_t *C = (armas_sparse_t *) 0;
     armas_wbuf_t work = ARMAS_WBNULL;
 
-    if (!A || !B)
-        return C;
+    int rows, cols, stat;
 
-    if (armassp_addto_w(C, alpha, A, beta, B, bits, &work, cf) < 0)
-        return C;
+    if (!cf)
+        cf = armas_conf_default();
 
-    if (!armas_walloc(&work, work.bytes)) {
-        cf->error = ARMAS_EWORK;
+    stat = add_test(&rows, &cols, A, B, bits);
+    if (stat < 0) {
+        cf->error = -stat;
         return C;
     }
+
     // allocate target matrix; size estimate 
-    int cnz = A->nnz + B->nnz;
-    C = armassp_new(A->rows, A->cols, cnz, A->kind);
+    if (A->nnz > INT_MAX - B->nnz) {
+        cf->error = ARMAS_EMEMORY;
+        return C;
+    }
+    C = armassp_new(rows, cols, A->nnz + B->nnz, A->kind);
     if (!C) {
-        armas_wrelease(&work);
+        cf->error = ARMAS_EMEMORY;
         return C;
     }
 
-    armassp_addto_w(C, alpha, A, beta, B, bits, &work, cf);
-    armas_wrelease(&work);
+    stat = armassp_addto_w(C, alpha, A, beta, B, bits, &work, cf);
+    if (stat == 0) {
+        if (armas_walloc(&work, work.bytes)) {
+            stat = armassp_addto_w(C, alpha, A, beta, B, bits, &work, cf);
+            armas_wrelease(&work);
+        } else {
+            cf->error = ARMAS_EMEMORY;
+            stat = -ARMAS_EMEMORY;
+        }
+    }
+    if (stat < 0) {
+        armassp_free(C);
+        C = (armas_sparse_t *) 0;
+    }
     return C;
 }
 #else
diff --git a/src/sparse/mult.c b/src/sparse/mult.c
index 778d228..edfba40 100644
--- a/src/sparse/mult.c
+++ b/src/sparse/mult.c
@@ -13,7 +13,7 @@
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
-#if defined(armas_accumulator)
+#if defined(armas_accumulator) && defined(armassp_transpose)
 #define ARMAS_REQUIRES 1
 #endif
 
@@ -21,7 +21,7 @@
 #if (defined(ARMAS_PROVIDES) && defined(ARMAS_REQUIRES)) || defined(CONFIG_NOTYPENAMES)
 // -----------------------------------------------------------------------------
 
-#include <assert.h>
+#include <limits.h>
 #include "matrix.h"
 #include "sparse.h"
 // local mappings to type spesific names
@@ -50,7 +50,8 @@ int mult_csr_nn(armas_sparse_t * C,
             armas_accum_scatter(spa, &r, armassp_value(A, p), i);
         }
         // gather data to C[i,:] row
-        armas_accum_gather(C, 1.0, spa, i, C->size);
+        if (armas_accum_gather(C, alpha, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
         spa->tail = 0;
     }
     C->ptr[A->rows] = C->nnz;
@@ -79,7 +80,8 @@ int mult_csr_nt(armas_sparse_t * C,
             armas_accum_dot(spa, k, &a, &b, i);
         }
         // gather data to C[i,:] row
-        armas_accum_gather(C, alpha, spa, i, C->size);
+        if (armas_accum_gather(C, alpha, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
         spa->tail = 0;
     }
     C->ptr[A->rows] = C->nnz;
@@ -100,7 +102,7 @@ int mult_csr_tn(armas_sparse_t * C,
     C->nnz = 0;
     armas_accum_clear(spa);
 
-    for (i = 0; i < A->rows; i++) {
+    for (i = 0; i < A->cols; i++) {
         // for i'th row find non-zero columns j
         for (j = 0; j < A->rows; j++) {
             if ((p = armassp_nz(A, j, i)) < 0)
@@ -109,11 +111,12 @@ int mult_csr_tn(armas_sparse_t * C,
             armas_accum_scatter(spa, &b, armassp_value(A, p), i);
         }
         // gather data to C[i,:] row
-        armas_accum_gather(C, alpha, spa, i, C->size);
+        if (armas_accum_gather(C, alpha, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
         spa->tail = 0;
     }
-    C->ptr[A->rows] = C->nnz;
-    C->nptr = A->rows;
+    C->ptr[A->cols] = C->nnz;
+    C->nptr = A->cols;
     return 0;
 }
 
@@ -132,10 +135,10 @@ int mult_csr_tt(armas_sparse_t * C,
 
     for (i = 0; i < C->rows; i++) {
         for (j = 0; j < C->cols; j++) {
-            // get column j from B;
+            // get row j from B;
             for (p1 = armassp_index(B, j); p1 < armassp_index(B, j + 1); p1++) {
                 k = armassp_at(B, p1);
-                // test if A[i,k] non-zero
+                // test if A[k,i] non-zero
                 if ((p0 = armassp_nz(A, k, i)) < 0)
                     continue;
                 val = armassp_value(A, p0) * armassp_value(B, p1);
@@ -143,11 +146,12 @@ int mult_csr_tt(armas_sparse_t * C,
             }
         }
         // gather data to C[i,:] row
-        armas_accum_gather(C, alpha, spa, i, C->size);
+        if (armas_accum_gather(C, alpha, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
         spa->tail = 0;
     }
-    C->ptr[A->rows] = C->nnz;
-    C->nptr = A->rows;
+    C->ptr[C->rows] = C->nnz;
+    C->nptr = C->rows;
     return 0;
 }
 
@@ -171,7 +175,8 @@ int mult_csc_nn(armas_sparse_t * C,
             armas_accum_scatter(spa, &r, armassp_value(B, p), i);
         }
         // gather data to C[:,i] column
-        armas_accum_gather(C, alpha, spa, i, C->size);
+        if (armas_accum_gather(C, alpha, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
         spa->tail = 0;
     }
     C->ptr[B->cols] = C->nnz;
@@ -200,7 +205,8 @@ int mult_csc_tn(armas_sparse_t * C,
             armas_accum_dot(spa, k, &a, &b, i);
         }
         // gather data to C[i,:] row
-        armas_accum_gather(C, alpha, spa, i, C->size);
+        if (armas_accum_gather(C, alpha, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
         spa->tail = 0;
     }
     C->ptr[B->cols] = C->nnz;
@@ -221,7 +227,7 @@ int mult_csc_nt(armas_sparse_t * C,
     C->nnz = 0;
     armas_accum_clear(spa);
 
-    for (i = 0; i < B->cols; i++) {
+    for (i = 0; i < B->rows; i++) {
         // for i'th row find non-zero columns j
         for (j = 0; j < B->cols; j++) {
             if ((p = armassp_nz(B, j, i)) < 0)
@@ -230,7 +236,8 @@ int mult_csc_nt(armas_sparse_t * C,
             armas_accum_scatter(spa, &a, armassp_value(B, p), i);
         }
         // gather data to C[i,:] row
-        armas_accum_gather(C, alpha, spa, i, C->size);
+        if (armas_accum_gather(C, alpha, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
         spa->tail = 0;
     }
     C->ptr[C->cols] = C->nnz;
@@ -251,12 +258,12 @@ int mult_csc_tt(armas_sparse_t * C,
     C->nnz = 0;
     armas_accum_clear(spa);
 
-    for (i = 0; i < C->rows; i++) {
-        for (j = 0; j < C->cols; j++) {
+    for (i = 0; i < C->cols; i++) {
+        for (j = 0; j < C->rows; j++) {
             // get column j from A;
             for (p1 = armassp_index(A, j); p1 < armassp_index(A, j + 1); p1++) {
                 k = armassp_at(A, p1);
-                // test if A[i,k] non-zero
+                // test if B[i,k] non-zero
                 if ((p0 = armassp_nz(B, k, i)) < 0)
                     continue;
                 val = armassp_value(B, p0) * armassp_value(A, p1);
@@ -264,7 +271,8 @@ int mult_csc_tt(armas_sparse_t * C,
             }
         }
         // gather data to C[:,i] col
-        armas_accum_gather(C, alpha, spa, i, C->size);
+        if (armas_accum_gather(C, alpha, spa, i, C->size) < 0)
+            return -ARMAS_ESIZE;
         spa->tail = 0;
     }
     C->ptr[C->cols] = C->nnz;
@@ -272,11 +280,23 @@ int mult_csc_tt(armas_sparse_t * C,
     return 0;
 }
 
+// Upper bound for number of non-zero elements in op(A)*op(B).
 size_t armassp_mult_nnz(const armas_sparse_t * A,
                           const armas_sparse_t * B, int flags)
 {
-    int n = (flags & ARMAS_TRANSB) == 0 ? B->cols : B->rows;
-    return ((size_t) A->nnz) * ((size_t) B->nnz) / n;
+    size_t m = (flags & ARMAS_TRANSA) == 0 ? A->rows : A->cols;
+    size_t n = (flags & ARMAS_TRANSB) == 0 ? B->cols : B->rows;
+    size_t nz = 0;
+    if ((flags & (ARMAS_TRANSA | ARMAS_TRANSB)) != 0) {
+        nz = ((size_t) A->nnz) * ((size_t) B->nnz);
+    } else if (A->kind == ARMASSP_CSR) {
+        for (int p = 0; p < A->nnz; p++)
+            nz += armassp_len(B, armassp_at(A, p));
+    } else {
+        for (int p = 0; p < B->nnz; p++)
+            nz += armassp_len(A, armassp_at(B, p));
+    }
+    return nz < m * n ? nz : m * n;
 }
 
 /**
@@ -311,6 +331,15 @@ int armassp_multto_w(armas_sparse_t * C,
 {
     int m, n, ok;
 
+    if (!cf)
+        cf = armas_conf_default();
+
+    if (!A || !B || !C || !w || A->kind != B->kind || A->kind != C->kind
+        || (A->kind != ARMASSP_CSR && A->kind != ARMASSP_CSC)) {
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
+
     switch (flags & (ARMAS_TRANSA | ARMAS_TRANSB)) {
     case ARMAS_TRANSA | ARMAS_TRANSB:
         m = A->cols;
@@ -333,9 +362,9 @@ int armassp_multto_w(armas_sparse_t * C,
         ok = A->cols == B->rows && C->rows == m && C->cols == n;
         break;
     }
-    if (!ok || !w) {
-        cf->error = ARMAS_EINVAL;
-        return -1;
+    if (!ok) {
+        cf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
     }
 
     // get estimate for needed work space
@@ -343,24 +372,13 @@ int armassp_multto_w(armas_sparse_t * C,
         w->bytes = armas_accum_need(C);
         return 0;
     }
-    // 
-    // size estimate;
-    int cnz = A->nnz * B->nnz / n;
-    size_t cbytes = armassp_bytes_needed(m, n, cnz, C->kind);
-    if (armassp_nbytes(C) < cbytes) {
-        cf->error = ARMAS_ESIZE;
-        return -2;
-    }
-
-    size_t sz = armas_accum_need(C);
-    if (armas_wbytes(w) < sz) {
+    if (armas_wbytes(w) < armas_accum_need(C)) {
         cf->error = ARMAS_EWORK;
-        return -3;
+        return -ARMAS_EWORK;
     }
 
     armas_accum_t spa;
-    armas_accum_make(&spa, armas_accum_dim(C), armas_wreserve_bytes(w, sz),
-                       armas_wbytes(w));
+    armas_accum_make(&spa, armas_accum_dim(C), armas_wptr(w), armas_wbytes(w));
 
     int stat = 0;
     switch (flags & (ARMAS_TRANSA | ARMAS_TRANSB)) {
@@ -389,6 +407,8 @@ int armassp_multto_w(armas_sparse_t * C,
             stat = mult_csr_nn(C, alpha, A, B, &spa);
         break;
     }
+    if (stat < 0)
+        cf->error = -stat;
     return stat;
 }
 
@@ -415,20 +435,64 @@ armas_sparse_t *armassp_mult(DTYPE alpha,
                                  const armas_sparse_t * B,
                                  int flags, armas_conf_t * cf)
 {
-    armas_sparse_t *C;
-    //armas_accum_t spa;
+    armas_sparse_t *C = (armas_sparse_t *) 0;
+    armas_sparse_t *At = (armas_sparse_t *) 0;
+    armas_sparse_t *Bt = (armas_sparse_t *) 0;
+    armas_wbuf_t work = ARMAS_WBNULL;
+
+    if (!cf)
+        cf = armas_conf_default();
 
-    if (!A || !B || A->kind != B->kind || A->kind == ARMASSP_COO) {
+    if (!A || !B || A->kind != B->kind
+        || (A->kind != ARMASSP_CSR && A->kind != ARMASSP_CSC)) {
+        cf->error = ARMAS_EINVAL;
         return (armas_sparse_t *) 0;
     }
-    // allocate target matrix; size estimate 
-    int cnz = A->nnz * B->nnz / A->cols;
-    C = armassp_new(A->rows, B->cols, cnz, A->kind);
-    if (!C) {
-        cf->error = ARMAS_EMEMORY;
-        return (armas_sparse_t *) 0;
+
+    // operands as in C = alpha*A*B
+    if ((flags & ARMAS_TRANSA) != 0) {
+        if (!(At = armassp_transpose(A)))
+            goto nomem;
+        A = At;
+    }
+    if ((flags & ARMAS_TRANSB) != 0) {
+        if (!(Bt = armassp_transpose(B)))
+            goto nomem;
+        B = Bt;
+    }
+    if (A->cols != B->rows) {
+        cf->error = ARMAS_ESIZE;
+        goto done;
     }
 
+    // allocate target matrix with space for all possible non-zero elements
+    size_t cnz = armassp_mult_nnz(A, B, 0);
+    if (cnz > INT_MAX)
+        goto nomem;
+    if (!(C = armassp_new(A->rows, B->cols, cnz, A->kind)))
+        goto nomem;
+
+    if (armassp_multto_w(C, alpha, A, B, 0, &work, cf) < 0)
+        goto fail;
+    if (!armas_walloc(&work, work.bytes)) {
+        armassp_free(C);
+        C = (armas_sparse_t *) 0;
+        goto nomem;
+    }
+    int stat = armassp_multto_w(C, alpha, A, B, 0, &work, cf);
+    armas_wrelease(&work);
+    if (stat == 0)
+        goto done;
+
+fail:
+    armassp_free(C);
+    C = (armas_sparse_t *) 0;
+    goto done;
+nomem:
+    cf->error = ARMAS_EMEMORY;
+done:
+    armassp_free(At);
+    armassp_free(Bt);
     return C;
 }
 #else
-- 
2.43.0


From b16afba021499a08ffaeb79ac76930b560afc439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 081/136] fix: sparse: matrix-vector products with transposes,
 strided vectors and zero beta

---
 src/sparse/gemv.c | 56 +++++++++++++++++++++++++++--------------------
 src/sparse/symv.c | 54 +++++++++++++++++++++++----------------------
 2 files changed, 60 insertions(+), 50 deletions(-)

diff --git a/src/sparse/gemv.c b/src/sparse/gemv.c
index 148711e..f109374 100644
--- a/src/sparse/gemv.c
+++ b/src/sparse/gemv.c
@@ -23,22 +23,29 @@
 #include "matrix.h"
 #include "sparse.h"
 
+// y = beta*y; elements of y not accessed if beta is zero
+static
+void scale_target(DTYPE * y, int n, int inc, DTYPE beta)
+{
+    for (int i = 0; i < n; i++)
+        y[i * inc] = beta == ZERO ? ZERO : beta * y[i * inc];
+}
+
 // CSC storage
 static
 int csc_mvmult(DTYPE beta, DTYPE * y, DTYPE alpha, const armas_sparse_t * A,
-               const DTYPE * x, int flags)
+               const DTYPE * x, int flags, int yinc, int xinc)
 {
     DTYPE ax, *Ae = A->elems.v;
-    if (flags == 0) {
+    if ((flags & ARMAS_TRANS) == 0) {
 
-        for (int i = 0; i < A->rows; i++)
-            y[i] *= beta;
+        scale_target(y, A->rows, yinc, beta);
 
         // update with linear combinations of A's columns
         for (int j = 0; j < A->cols; j++) {
-            ax = alpha * x[j];
+            ax = alpha * x[j * xinc];
             for (int k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
-                y[A->ix[k]] += ax * Ae[k];
+                y[A->ix[k] * yinc] += ax * Ae[k];
             }
         }
     } else {
@@ -46,9 +53,9 @@ int csc_mvmult(DTYPE beta, DTYPE * y, DTYPE alpha, const armas_sparse_t * A,
         for (int j = 0; j < A->cols; j++) {
             ax = 0;
             for (int k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
-                ax += Ae[k] * x[A->ix[k]];
+                ax += Ae[k] * x[A->ix[k] * xinc];
             }
-            y[j] = beta * y[j] + alpha * ax;
+            y[j * yinc] = (beta == ZERO ? ZERO : beta * y[j * yinc]) + alpha * ax;
         }
     }
     return 0;
@@ -56,28 +63,27 @@ int csc_mvmult(DTYPE beta, DTYPE * y, DTYPE alpha, const armas_sparse_t * A,
 
 static
 int csr_mvmult(DTYPE beta, DTYPE * y, DTYPE alpha, const armas_sparse_t * A,
-               const DTYPE * x, int flags)
+               const DTYPE * x, int flags, int yinc, int xinc)
 {
     DTYPE ax, *Ae = A->elems.v;
-    if (flags == 0) {
+    if ((flags & ARMAS_TRANS) == 0) {
         // y + alpha*A*x
         for (int j = 0; j < A->rows; j++) {
             ax = 0;
             for (int k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
-                ax += Ae[k] * x[A->ix[k]];
+                ax += Ae[k] * x[A->ix[k] * xinc];
             }
-            y[j] = beta * y[j] + alpha * ax;
+            y[j * yinc] = (beta == ZERO ? ZERO : beta * y[j * yinc]) + alpha * ax;
         }
     } else {
         // y + alpha*A^T*x
-        for (int i = 0; i < A->rows; i++)
-            y[i] *= beta;
+        scale_target(y, A->cols, yinc, beta);
 
         // update with linear combinations of A's rows
         for (int j = 0; j < A->rows; j++) {
-            ax = alpha * x[j];
+            ax = alpha * x[j * xinc];
             for (int k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
-                y[A->ix[k]] += ax * Ae[k];
+                y[A->ix[k] * yinc] += ax * Ae[k];
             }
         }
     }
@@ -96,27 +102,29 @@ int armassp_mvmult(DTYPE beta, armas_dense_t * y,
         cf = armas_conf_default();
 
     int ok = (flags & ARMAS_TRANS) == 0
-        ? armas_size(y) == A->rows : armas_size(y) == A->cols;
-    ok = ok && (flags & ARMAS_TRANS) == 0
-        ? armas_size(x) == A->cols : armas_size(x) == A->rows;
+        ? armas_size(y) == A->rows && armas_size(x) == A->cols
+        : armas_size(y) == A->cols && armas_size(x) == A->rows;
 
-    if (!ok) {
+    if (!ok || !armas_isvector(x) || !armas_isvector(y)) {
         cf->error = ARMAS_ESIZE;
-        return -1;
+        return -ARMAS_ESIZE;
     }
+    // element stride; row vector elements are step apart
+    int yinc = y->rows == 1 ? y->step : 1;
+    int xinc = x->rows == 1 ? x->step : 1;
     DTYPE *yd = armas_data(y);
     DTYPE *xd = armas_data(x);
 
     switch (A->kind) {
     case ARMASSP_CSC:
-        return csc_mvmult(beta, yd, alpha, A, xd, flags);
+        return csc_mvmult(beta, yd, alpha, A, xd, flags, yinc, xinc);
     case ARMASSP_CSR:
-        return csr_mvmult(beta, yd, alpha, A, xd, flags);
+        return csr_mvmult(beta, yd, alpha, A, xd, flags, yinc, xinc);
     default:
         break;
     }
     cf->error = ARMAS_EIMP;
-    return -1;
+    return -ARMAS_EIMP;
 }
 #else
 #warning "Missing defines. No code!"
diff --git a/src/sparse/symv.c b/src/sparse/symv.c
index 6e9c7d2..7851ce0 100644
--- a/src/sparse/symv.c
+++ b/src/sparse/symv.c
@@ -97,31 +97,31 @@ int csr_mvmult_usym(DTYPE beta, DTYPE * y, DTYPE alpha,
 // CSC lower triangular == CSR upper triangular
 static
 int csc_mvmult_lsym(DTYPE beta, DTYPE * y, DTYPE alpha,
-                    const armas_sparse_t * A, const DTYPE * x, int flags)
+                    const armas_sparse_t * A, const DTYPE * x, int yinc, int xinc)
 {
     int j, k;
     DTYPE yk, ax, *Ae = A->elems.v;
 
     if (beta != ONE) {
         for (int i = 0; i < A->rows; i++)
-            y[i] *= beta;
+            y[i * yinc] = beta == ZERO ? ZERO : beta * y[i * yinc];
     }
     // update with linear combinations of A's columns
     for (j = 0; j < A->cols; j++) {
-        ax = alpha * x[j];
+        ax = alpha * x[j * xinc];
         // skip element above diagonal (CSC) and below diagonal (CSR) 
-        for (k = A->ptr[j]; A->ix[k] < j && k < A->ptr[j + 1]; k++);
+        for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] < j; k++);
         //
         yk = 0.0;
-        if (A->ix[k] == j) {
-            yk = x[A->ix[k]] * Ae[k];
+        if (k < A->ptr[j + 1] && A->ix[k] == j) {
+            yk = x[A->ix[k] * xinc] * Ae[k];
             k++;
         }
         for (; k < A->ptr[j + 1]; k++) {
-            yk += x[A->ix[k]] * Ae[k];
-            y[A->ix[k]] += ax * Ae[k];
+            yk += x[A->ix[k] * xinc] * Ae[k];
+            y[A->ix[k] * yinc] += ax * Ae[k];
         }
-        y[j] += alpha * yk;
+        y[j * yinc] += alpha * yk;
     }
     return 0;
 }
@@ -129,31 +129,31 @@ int csc_mvmult_lsym(DTYPE beta, DTYPE * y, DTYPE alpha,
 // CSC upper triangular == CSR lower triangular
 static
 int csc_mvmult_usym(DTYPE beta, DTYPE * y, DTYPE alpha,
-                    const armas_sparse_t * A, const DTYPE * x, int flags)
+                    const armas_sparse_t * A, const DTYPE * x, int yinc, int xinc)
 {
     int i, j, k;
     DTYPE yk, ax, *Ae = A->elems.v;
 
     if (beta != ONE) {
         for (int i = 0; i < A->rows; i++)
-            y[i] *= beta;
+            y[i * yinc] = beta == ZERO ? ZERO : beta * y[i * yinc];
     }
     // update with linear combinations of A's columns
     for (j = A->cols - 1; j >= 0; j--) {
-        ax = alpha * x[j];
+        ax = alpha * x[j * xinc];
         // skip rows below diagonal
-        for (k = A->ptr[j + 1] - 1; A->ix[k] > j && k >= A->ptr[j]; k--);
+        for (k = A->ptr[j + 1] - 1; k >= A->ptr[j] && A->ix[k] > j; k--);
         //
         yk = 0.0;
-        if (A->ix[k] == j) {
-            yk = x[A->ix[k]] * Ae[k];
+        if (k >= A->ptr[j] && A->ix[k] == j) {
+            yk = x[A->ix[k] * xinc] * Ae[k];
             k--;
         }
         for (i = A->ptr[j]; i <= k; i++) {
-            yk += x[A->ix[i]] * Ae[i];
-            y[A->ix[i]] += ax * Ae[i];
+            yk += x[A->ix[i] * xinc] * Ae[i];
+            y[A->ix[i] * yinc] += ax * Ae[i];
         }
-        y[j] += alpha * yk;
+        y[j * yinc] += alpha * yk;
     }
     return 0;
 }
@@ -192,32 +192,34 @@ int armassp_mvmult_sym(DTYPE beta, armas_dense_t * y,
         return -ARMAS_EINVAL;
     }
 
-    int ok = (flags & ARMAS_TRANS) == 0
-        ? armas_size(y) == A->rows : armas_size(y) == A->cols;
-    ok = ok && (flags & ARMAS_TRANS) == 0
-        ? armas_size(x) == A->cols : armas_size(x) == A->rows;
+    int ok = A->rows == A->cols
+        && armas_size(y) == A->rows && armas_size(x) == A->cols
+        && armas_isvector(x) && armas_isvector(y);
 
     if (!ok) {
         cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
+    // element stride; row vector elements are step apart
+    int yinc = y->rows == 1 ? y->step : 1;
+    int xinc = x->rows == 1 ? x->step : 1;
     DTYPE *yd = armas_data(y);
     DTYPE *xd = armas_data(x);
 
     switch (flags & (ARMAS_LOWER | ARMAS_UPPER)) {
     case ARMAS_UPPER:
         if (A->kind == ARMASSP_CSR) {
-            return csc_mvmult_lsym(beta, yd, alpha, A, xd, flags);
+            return csc_mvmult_lsym(beta, yd, alpha, A, xd, yinc, xinc);
         } else {
-            return csc_mvmult_usym(beta, yd, alpha, A, xd, flags);
+            return csc_mvmult_usym(beta, yd, alpha, A, xd, yinc, xinc);
         }
         break;
     case ARMAS_LOWER:
     default:
         if (A->kind == ARMASSP_CSR) {
-            return csc_mvmult_usym(beta, yd, alpha, A, xd, flags);
+            return csc_mvmult_usym(beta, yd, alpha, A, xd, yinc, xinc);
         } else {
-            return csc_mvmult_lsym(beta, yd, alpha, A, xd, flags);
+            return csc_mvmult_lsym(beta, yd, alpha, A, xd, yinc, xinc);
         }
         break;
     }
-- 
2.43.0


From ae396d9b8d2017b418d898cab6ade5c489de37a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 082/136] fix: sparse: triangular products and solves with
 absent diagonals and alpha

---
 src/sparse/trmv.c | 118 +++++++++++++++++---------------
 src/sparse/trsv.c | 170 ++++++++++++++++++++++++++++------------------
 2 files changed, 168 insertions(+), 120 deletions(-)

diff --git a/src/sparse/trmv.c b/src/sparse/trmv.c
index 0a9c413..7bce60f 100644
--- a/src/sparse/trmv.c
+++ b/src/sparse/trmv.c
@@ -24,21 +24,22 @@
 
 // b = alpha*A*x; A upper triangular
 static
-int csc_mvmult_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csc_mvmult_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit, int inc)
 {
     DTYPE xj, *Ae = A->elems.v;
     int k;
     // start from upper left corner; update with linear combination
     for (int j = 0; j < A->cols; j++) {
-        xj = x[j];
-        for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] <= j; k++) {
-            x[A->ix[k]] += alpha * Ae[k] * xj;
+        xj = x[j * inc];
+        for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] < j; k++) {
+            x[A->ix[k] * inc] += alpha * Ae[k] * xj;
         }
         if (unit) {
-            x[j] = alpha * xj;
+            x[j * inc] = alpha * xj;
         } else {
-            // k-1 in index to last row in this column; if on diagonal 
-            x[j] = A->ix[k - 1] == j ? alpha * Ae[k - 1] * xj : 0.0;
+            // k in index to first row not above diagonal; if on diagonal 
+            x[j * inc] = k < A->ptr[j + 1] && A->ix[k] == j
+                ? alpha * Ae[k] * xj : 0.0;
         }
     }
     return 0;
@@ -46,57 +47,58 @@ int csc_mvmult_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
 
 // b = alpha*A*x; A upper triangular
 static
-int csr_mvmult_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csr_mvmult_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit, int inc)
 {
     DTYPE xv, *Ae = A->elems.v;
     int k;
     // start from upper left corner
     for (int j = 0; j < A->rows; j++) {
-        xv = unit != 0 ? x[j] : 0.0;
+        xv = unit != 0 ? x[j * inc] : 0.0;
         // skip positions below diagonal; if unit diagonal then skip diagonal
-        for (k = A->ptr[j]; A->ix[k] < j + unit; k++);
+        for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] < j + unit; k++);
         for (; k < A->ptr[j + 1]; k++) {
-            xv += Ae[k] * x[A->ix[k]];
+            xv += Ae[k] * x[A->ix[k] * inc];
         }
-        x[j] = alpha * xv;
+        x[j * inc] = alpha * xv;
     }
     return 0;
 }
 
 // b = alpha*A^T*x; A upper triangular
 static
-int csc_mvmult_ut(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csc_mvmult_ut(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit, int inc)
 {
     // start from lower right corner
     DTYPE xv, *Ae = A->elems.v;
     int j, k;
     for (j = A->cols - 1; j >= 0; j--) {
-        xv = unit != 0 ? x[j] : 0.0;
+        xv = unit != 0 ? x[j * inc] : 0.0;
         // per column only rows that are less or equal to column
         for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] <= j - unit; k++) {
-            xv += Ae[k] * x[A->ix[k]];
+            xv += Ae[k] * x[A->ix[k] * inc];
         }
-        x[j] = alpha * xv;
+        x[j * inc] = alpha * xv;
     }
     return 0;
 }
 
 static
-int csr_mvmult_ut(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csr_mvmult_ut(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit, int inc)
 {
     DTYPE xj, *Ae = A->elems.v;
     int k;
     // start from lower right corner
     for (int j = A->rows - 1; j >= 0; j--) {
-        xj = x[j];
+        xj = x[j * inc];
         for (k = A->ptr[j + 1] - 1; k >= A->ptr[j] && A->ix[k] > j; k--) {
-            x[A->ix[k]] += alpha * Ae[k] * xj;
+            x[A->ix[k] * inc] += alpha * Ae[k] * xj;
         }
         // diagonal element
         if (unit != 0) {
-            x[j] = alpha * xj;
+            x[j * inc] = alpha * xj;
         } else {
-            x[j] = A->ix[k] == j ? alpha * Ae[k] * xj : 0.0;
+            x[j * inc] = k >= A->ptr[j] && A->ix[k] == j
+                ? alpha * Ae[k] * xj : 0.0;
         }
     }
     return 0;
@@ -104,24 +106,26 @@ int csr_mvmult_ut(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
 
 // b = alpha*A*x; A lower triangular
 static
-int csc_mvmult_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csc_mvmult_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit, int inc)
 {
     DTYPE xj, *Ae = A->elems.v;
     int i, k;
     // start from lower right corner
     for (int j = A->cols - 1; j >= 0; j--) {
-        xj = x[j];
+        xj = x[j * inc];
         // skip position above diagonal
-        for (k = A->ptr[j]; A->ix[k] < j + unit; k++);
+        for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] < j; k++);
         // update x rows below diagonal
-        for (i = k; i < A->ptr[j + 1]; i++) {
-            x[A->ix[i]] += alpha * Ae[i] * xj;
+        i = k < A->ptr[j + 1] && A->ix[k] == j ? k + 1 : k;
+        for (; i < A->ptr[j + 1]; i++) {
+            x[A->ix[i] * inc] += alpha * Ae[i] * xj;
         }
         // compute diagonal entry;
         if (unit != 0) {
-            x[j] = alpha * xj;
+            x[j * inc] = alpha * xj;
         } else {
-            x[j] = A->ix[k] == j ? alpha * Ae[k] * xj : 0.0;
+            x[j * inc] = k < A->ptr[j + 1] && A->ix[k] == j
+                ? alpha * Ae[k] * xj : 0.0;
         }
     }
     return 0;
@@ -129,54 +133,55 @@ int csc_mvmult_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
 
 // b = alpha*A*x; A lower triangular
 static
-int csr_mvmult_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csr_mvmult_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit, int inc)
 {
     DTYPE xv, *Ae = A->elems.v;
     int k, j;
     for (j = A->rows - 1; j >= 0; j--) {
-        xv = unit ? x[j] : 0.0;
+        xv = unit ? x[j * inc] : 0.0;
         for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] <= j - unit; k++) {
-            xv += Ae[k] * x[A->ix[k]];
+            xv += Ae[k] * x[A->ix[k] * inc];
         }
-        x[j] = alpha * xv;
+        x[j * inc] = alpha * xv;
     }
     return 0;
 }
 
 // b = alpha*A^T*x; A lower triangular
 static
-int csc_mvmult_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csc_mvmult_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit, int inc)
 {
     DTYPE xv;
     int k, j;
     for (j = 0; j < A->cols; j++) {
-        xv = unit != 0 ? x[j] : 0.0;
+        xv = unit != 0 ? x[j * inc] : 0.0;
         // skip rows above diagonal
-        for (k = A->ptr[j]; A->ix[k] < j + unit; k++);
+        for (k = A->ptr[j]; k < A->ptr[j + 1] && A->ix[k] < j + unit; k++);
         for (; k < A->ptr[j + 1]; k++) {
-            xv += A->elems.v[k] * x[A->ix[k]];
+            xv += A->elems.v[k] * x[A->ix[k] * inc];
         }
-        x[j] = alpha * xv;
+        x[j * inc] = alpha * xv;
     }
     return 0;
 }
 
 static
-int csr_mvmult_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csr_mvmult_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit, int inc)
 {
     DTYPE xj, *Ae = A->elems.v;
     int p;
     for (int j = 0; j < A->rows; j++) {
-        xj = x[j];
+        xj = x[j * inc];
         // update earlier rows with current entry
         for (p = A->ptr[j]; p < A->ptr[j + 1] && A->ix[p] < j; p++) {
-            x[A->ix[p]] += alpha * Ae[p] * xj;
+            x[A->ix[p] * inc] += alpha * Ae[p] * xj;
         }
         // compute diagonal entry;
         if (unit != 0) {
-            x[j] = alpha * xj;
+            x[j * inc] = alpha * xj;
         } else {
-            x[j] = A->ix[p] == j ? alpha * Ae[p] * xj : 0.0;
+            x[j * inc] = p < A->ptr[j + 1] && A->ix[p] == j
+                ? alpha * Ae[p] * xj : 0.0;
         }
     }
     return 0;
@@ -209,12 +214,15 @@ int armassp_mvmult_trm(armas_dense_t * x, DTYPE alpha,
     if (!cf)
         cf = armas_conf_default();
 
-    if (A->kind != ARMASSP_CSC && A->kind != ARMASSP_CSR)
+    if (A->kind != ARMASSP_CSC && A->kind != ARMASSP_CSR) {
+        cf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
+    }
 
-    int ok = (flags & ARMAS_TRANS) == 0
-        ? armas_size(x) == A->cols : armas_size(x) == A->rows;
+    int ok = A->rows == A->cols && armas_size(x) == A->cols
+        && armas_isvector(x);
     if (!ok) {
+        cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
 
@@ -222,33 +230,35 @@ int armassp_mvmult_trm(armas_dense_t * x, DTYPE alpha,
 
     DTYPE *y = armas_data(x);
 
-    // TODO: we assume column vector here; how about a row vector??
+    // element stride; row vector elements are step apart
+    int inc = x->rows == 1 ? x->step : 1;
+
     switch (flags & (ARMAS_UPPER | ARMAS_LOWER | ARMAS_TRANS)) {
     case ARMAS_UPPER | ARMAS_TRANS:
         if (A->kind == ARMASSP_CSR)
-            csr_mvmult_ut(y, alpha, A, unit);
+            csr_mvmult_ut(y, alpha, A, unit, inc);
         else
-            csc_mvmult_ut(y, alpha, A, unit);
+            csc_mvmult_ut(y, alpha, A, unit, inc);
         break;
     case ARMAS_UPPER:
         if (A->kind == ARMASSP_CSR)
-            csr_mvmult_un(y, alpha, A, unit);
+            csr_mvmult_un(y, alpha, A, unit, inc);
         else
-            csc_mvmult_un(y, alpha, A, unit);
+            csc_mvmult_un(y, alpha, A, unit, inc);
         break;
     case ARMAS_LOWER | ARMAS_TRANS:
     case ARMAS_TRANS:
         if (A->kind == ARMASSP_CSR)
-            csr_mvmult_lt(y, alpha, A, unit);
+            csr_mvmult_lt(y, alpha, A, unit, inc);
         else
-            csc_mvmult_lt(y, alpha, A, unit);
+            csc_mvmult_lt(y, alpha, A, unit, inc);
         break;
     case ARMAS_LOWER:
     default:
         if (A->kind == ARMASSP_CSR)
-            csr_mvmult_ln(y, alpha, A, unit);
+            csr_mvmult_ln(y, alpha, A, unit, inc);
         else
-            csc_mvmult_ln(y, alpha, A, unit);
+            csc_mvmult_ln(y, alpha, A, unit, inc);
         break;
     }
     return 0;
diff --git a/src/sparse/trsv.c b/src/sparse/trsv.c
index 964d6d8..88d91a9 100644
--- a/src/sparse/trsv.c
+++ b/src/sparse/trsv.c
@@ -23,38 +23,65 @@
 #include "matrix.h"
 #include "sparse.h"
 
+// get value of diagonal element from position p on j'th row/column
+static inline
+DTYPE diag_value(const armas_sparse_t * A, int j, int p)
+{
+    return p >= A->ptr[j] && p < A->ptr[j + 1] && A->ix[p] == j
+        ? A->elems.v[p] : ZERO;
+}
+
+// find position of first element on or after diagonal on j'th row/column
+static inline
+int diag_start(const armas_sparse_t * A, int j)
+{
+    int p;
+    for (p = A->ptr[j]; p < A->ptr[j + 1] && A->ix[p] < j; p++);
+    return p;
+}
+
+// find position of last element on or before diagonal on j'th row/column
+static inline
+int diag_end(const armas_sparse_t * A, int j)
+{
+    int p;
+    for (p = A->ptr[j + 1] - 1; p >= A->ptr[j] && A->ix[p] > j; p--);
+    return p;
+}
+
 // solve A*x = alpha*b; A upper triangular
 static
-int csc_mvsolve_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csc_mvsolve_un(DTYPE * x, const armas_sparse_t * A, int unit, int inc)
 {
     DTYPE *Ae = A->elems.v;
     int i, j, k;
     for (j = A->cols - 1; j >= 0; j--) {
         // skip rows below diagonal;
-        for (k = A->ptr[j + 1] - 1; A->ix[k] > j; k--);
-        x[j] = unit ? x[j] : x[j] / Ae[k];
-        for (i = A->ptr[j]; i < k; i++) {
-            x[A->ix[i]] -= Ae[i] * x[j];
+        k = diag_end(A, j);
+        if (!unit)
+            x[j * inc] /= diag_value(A, j, k);
+        for (i = A->ptr[j]; i <= k && A->ix[i] < j; i++) {
+            x[A->ix[i] * inc] -= Ae[i] * x[j * inc];
         }
     }
     return 0;
 }
 
 static
-int csr_mvsolve_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csr_mvsolve_un(DTYPE * x, const armas_sparse_t * A, int unit, int inc)
 {
     DTYPE xk, *Ae = A->elems.v;
     int i, j;
     for (j = A->rows - 1; j >= 0; j--) {
         xk = 0;
         for (i = A->ptr[j + 1] - 1; i >= A->ptr[j] && A->ix[i] > j; i--) {
-            xk += Ae[i] * x[A->ix[i]];
+            xk += Ae[i] * x[A->ix[i] * inc];
         }
         // here Ax[i] == j
         if (unit) {
-            x[j] -= xk;
+            x[j * inc] -= xk;
         } else {
-            x[j] = (x[j] - xk) / Ae[i];
+            x[j * inc] = (x[j * inc] - xk) / diag_value(A, j, i);
         }
     }
     return 0;
@@ -62,36 +89,39 @@ int csr_mvsolve_un(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
 
 // solve A^T*x = alpha*b; A upper triangular
 static
-int csc_mvsolve_ut(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csc_mvsolve_ut(DTYPE * x, const armas_sparse_t * A, int unit, int inc)
 {
     DTYPE xk, *Ae = A->elems.v;
     int i, j;
     for (j = 0; j < A->cols; j++) {
         xk = 0;
-        for (i = A->ptr[j]; i < A->ptr[j + 1] - 1 && A->ix[i] < j; i++) {
-            xk += Ae[i] * x[A->ix[i]];
+        for (i = A->ptr[j]; i < A->ptr[j + 1] && A->ix[i] < j; i++) {
+            xk += Ae[i] * x[A->ix[i] * inc];
         }
         // here Ax[i] == j
         if (unit) {
-            x[j] -= xk;
+            x[j * inc] -= xk;
         } else {
-            x[j] = (x[j] - xk) / Ae[i];
+            x[j * inc] = (x[j * inc] - xk) / diag_value(A, j, i);
         }
     }
     return 0;
 }
 
 static
-int csr_mvsolve_ut(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csr_mvsolve_ut(DTYPE * x, const armas_sparse_t * A, int unit, int inc)
 {
     DTYPE *Ae = A->elems.v;
     int j, p;
     for (j = 0; j < A->rows; j++) {
-        // skip elements below diagonal; assume diagonal always exists
-        for (p = A->ptr[j]; A->ix[p] < j; p++);
-        x[j] = unit ? x[j] : (A->ix[p] == j ? x[j] / Ae[p] : x[j] / 0.0);
-        for (p++; p < A->ptr[j + 1]; p++) {
-            x[A->ix[p]] -= Ae[p] * x[j];
+        // skip elements below diagonal
+        p = diag_start(A, j);
+        if (!unit)
+            x[j * inc] /= diag_value(A, j, p);
+        if (p < A->ptr[j + 1] && A->ix[p] == j)
+            p++;
+        for (; p < A->ptr[j + 1]; p++) {
+            x[A->ix[p] * inc] -= Ae[p] * x[j * inc];
         }
     }
     return 0;
@@ -99,89 +129,80 @@ int csr_mvsolve_ut(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
 
 // solve A*x = alpha*b; A lower triangular
 static
-int csc_mvsolve_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csc_mvsolve_ln(DTYPE * x, const armas_sparse_t * A, int unit, int inc)
 {
     int i, j;
     for (j = 0; j < A->cols; j++) {
         // skip elements above diagonal
-        for (i = A->ptr[j]; A->ix[i] < j; i++);
-        // compute diagonal; assumes non-zero ; A->ix[i] == j
+        i = diag_start(A, j);
         if (!unit)
-            x[j] /= A->elems.v[i];
-        for (i += 1; i < A->ptr[j + 1]; i++) {
-            x[A->ix[i]] -= A->elems.v[i] * x[j];
+            x[j * inc] /= diag_value(A, j, i);
+        if (i < A->ptr[j + 1] && A->ix[i] == j)
+            i++;
+        for (; i < A->ptr[j + 1]; i++) {
+            x[A->ix[i] * inc] -= A->elems.v[i] * x[j * inc];
         }
     }
     return 0;
 }
 
 static
-int csr_mvsolve_ln(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csr_mvsolve_ln(DTYPE * x, const armas_sparse_t * A, int unit, int inc)
 {
     DTYPE *Ae = A->elems.v;
     int j, p;
 
-    if (!unit)
-        x[0] /= Ae[A->ptr[0]];
-
-    for (j = 1; j < A->rows; j++) {
-
+    for (j = 0; j < A->rows; j++) {
         for (p = A->ptr[j]; p < A->ptr[j + 1] && A->ix[p] < j; p++) {
-            x[j] -= Ae[p] * x[A->ix[p]];
+            x[j * inc] -= Ae[p] * x[A->ix[p] * inc];
         }
-        // compute diagonal; assumes non-zero ; A->ix[k] == j
         if (!unit)
-            x[j] /= Ae[p];
+            x[j * inc] /= diag_value(A, j, p);
     }
     return 0;
 }
 
 // solve A^T*x = alpha*b; A lower triangular
 static
-int csc_mvsolve_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csc_mvsolve_lt(DTYPE * x, const armas_sparse_t * A, int unit, int inc)
 {
     DTYPE *Ae = A->elems.v;
     int i, j, k;
 
-    // skip elements above diagonal
-    for (i = A->ptr[A->cols - 1]; A->ix[i] < A->cols - 1; i++);
-    // compute diagonal; assumes non-zero ; A->ix[A->ptr[A->cols-1]] == A->cols-1
-    if (!unit)
-        x[A->cols - 1] /= Ae[i];
-
-    for (j = A->cols - 2; j >= 0; j--) {
+    for (j = A->cols - 1; j >= 0; j--) {
         // skip elements above diagonal
-        for (k = A->ptr[j]; A->ix[k] < j; k++);
-        // A->ix[k] == first row index equals column index
-        for (i = k + 1; i < A->ptr[j + 1]; i++) {
-            x[j] -= Ae[i] * x[A->ix[i]];
+        k = diag_start(A, j);
+        i = k < A->ptr[j + 1] && A->ix[k] == j ? k + 1 : k;
+        for (; i < A->ptr[j + 1]; i++) {
+            x[j * inc] -= Ae[i] * x[A->ix[i] * inc];
         }
-        // compute diagonal; assumes non-zero ; A->ix[k] == j
         if (!unit)
-            x[j] /= Ae[k];
+            x[j * inc] /= diag_value(A, j, k);
     }
     return 0;
 }
 
 static
-int csr_mvsolve_lt(DTYPE * x, DTYPE alpha, const armas_sparse_t * A, int unit)
+int csr_mvsolve_lt(DTYPE * x, const armas_sparse_t * A, int unit, int inc)
 {
     int j, p;
     DTYPE *Ae = A->elems.v;
     for (j = A->rows - 1; j >= 0; j--) {
         // skip elements above diagonal
-        for (p = A->ptr[j + 1] - 1; A->ix[p] > j; p--);
+        p = diag_end(A, j);
         if (!unit)
-            x[j] /= Ae[p];
-        for (p--; p >= A->ptr[j]; p--) {
-            x[A->ix[p]] -= Ae[p] * x[j];
+            x[j * inc] /= diag_value(A, j, p);
+        if (p >= A->ptr[j] && A->ix[p] == j)
+            p--;
+        for (; p >= A->ptr[j]; p--) {
+            x[A->ix[p] * inc] -= Ae[p] * x[j * inc];
         }
     }
     return 0;
 }
 
 /**
- * @brief Solve \f$ A^{-1} x = \alpha b \f$ or \f$ A^{-T} x = \alpha b \f$
+ * @brief Solve \f$ A x = \alpha b \f$ or \f$ A^T x = \alpha b \f$
  *
  * @param[in,out] x
  *   On entry the vector b, on exit result vector x.
@@ -208,12 +229,14 @@ int armassp_mvsolve_trm(armas_dense_t * x, DTYPE alpha,
         cf = armas_conf_default();
 
     if (A->kind != ARMASSP_CSC && A->kind != ARMASSP_CSR) {
+        cf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
 
-    int ok = (flags & ARMAS_TRANS) == 0
-        ? armas_size(x) == A->cols : armas_size(x) == A->rows;
+    int ok = A->rows == A->cols && armas_size(x) == A->cols
+        && armas_isvector(x);
     if (!ok) {
+        cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
 
@@ -221,33 +244,48 @@ int armassp_mvsolve_trm(armas_dense_t * x, DTYPE alpha,
 
     DTYPE *y = armas_data(x);
 
-    // TODO: we assume column vector here; how about a row vector??
+    // element stride; row vector elements are step apart
+    int inc = x->rows == 1 ? x->step : 1;
+
+    if (!unit) {
+        // all elements must exist on diagonal
+        for (int j = 0; j < A->cols; j++) {
+            if (diag_value(A, j, diag_start(A, j)) == ZERO) {
+                cf->error = ARMAS_ESINGULAR;
+                return -ARMAS_ESINGULAR;
+            }
+        }
+    }
+    if (alpha != ONE) {
+        for (int j = 0; j < A->cols; j++)
+            y[j * inc] *= alpha;
+    }
     switch (flags & (ARMAS_UPPER | ARMAS_LOWER | ARMAS_TRANS)) {
     case ARMAS_UPPER | ARMAS_TRANS:
         if (A->kind == ARMASSP_CSR)
-            csr_mvsolve_ut(y, alpha, A, unit);
+            csr_mvsolve_ut(y, A, unit, inc);
         else
-            csc_mvsolve_ut(y, alpha, A, unit);
+            csc_mvsolve_ut(y, A, unit, inc);
         break;
     case ARMAS_UPPER:
         if (A->kind == ARMASSP_CSR)
-            csr_mvsolve_un(y, alpha, A, unit);
+            csr_mvsolve_un(y, A, unit, inc);
         else
-            csc_mvsolve_un(y, alpha, A, unit);
+            csc_mvsolve_un(y, A, unit, inc);
         break;
     case ARMAS_LOWER | ARMAS_TRANS:
     case ARMAS_TRANS:
         if (A->kind == ARMASSP_CSR)
-            csr_mvsolve_lt(y, alpha, A, unit);
+            csr_mvsolve_lt(y, A, unit, inc);
         else
-            csc_mvsolve_lt(y, alpha, A, unit);
+            csc_mvsolve_lt(y, A, unit, inc);
         break;
     case ARMAS_LOWER:
     default:
         if (A->kind == ARMASSP_CSR)
-            csr_mvsolve_ln(y, alpha, A, unit);
+            csr_mvsolve_ln(y, A, unit, inc);
         else
-            csc_mvsolve_ln(y, alpha, A, unit);
+            csc_mvsolve_ln(y, A, unit, inc);
         break;
     }
     return 0;
-- 
2.43.0


From 14436496925315a5910fdd5e1300c5cc3dedde52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 083/136] fix: sparse: incomplete factorizations report absent
 or non-positive pivots

---
 src/sparse/icholz.c | 80 ++++++++++++++++++++++++++++-----------------
 src/sparse/iluz.c   | 26 ++++++++-------
 2 files changed, 65 insertions(+), 41 deletions(-)

diff --git a/src/sparse/icholz.c b/src/sparse/icholz.c
index bed4c45..f70ec9e 100644
--- a/src/sparse/icholz.c
+++ b/src/sparse/icholz.c
@@ -22,7 +22,6 @@
 // -----------------------------------------------------------------------------
 
 #include <math.h>
-#include <assert.h>
 #include "matrix.h"
 #include "sparse.h"
 #include "splocal.h"
@@ -61,11 +60,14 @@ int csr_illtz_lower(armas_sparse_t * A)
 
     // compute l11 = sqrt(a11); l21 = a21/l11; A22 = A22 - l21*l21^T
     for (i = 0; i < A->rows; i++) {
-        for (p0 = armassp_index(A, i); armassp_at(A, p0) < i; p0++);
-        // assert p0 points to diagonal entry; p0+1 start of a12^T
-        assert(armassp_at(A, p0) == i);
-
-        a11 = sqrt(armassp_value(A, p0));
+        // p0 points to diagonal entry; p0+1 start of a12^T
+        if ((p0 = armassp_nz(A, i, i)) < 0)
+            return -ARMAS_ESINGULAR;
+        a11 = armassp_value(A, p0);
+        if (!(a11 > ZERO))
+            return -ARMAS_ENEGATIVE;
+
+        a11 = sqrt(a11);
         Le[p0] = a11;
         // l21 = a21/a11; A22 = A22 - l21*l21^T
         for (k = i + 1; k < A->rows; k++) {
@@ -76,7 +78,7 @@ int csr_illtz_lower(armas_sparse_t * A)
             Le[p1] /= a11;
             // A22[k,:] = A22[k,:] - l21[k]*l21^T[0:k]
             for (p = p1 + 1;
-                 armassp_at(A, p) <= k && p < armassp_index(A, k + 1);
+                 p < armassp_index(A, k + 1) && armassp_at(A, p) <= k;
                  p++) {
                 // here j <= k
                 j = armassp_at(A, p);
@@ -101,11 +103,14 @@ int csr_illtz_upper(armas_sparse_t * A)
 
     // compute u11 = sqrt(a11); u12 = a12/u11; A22 = A22 - u12*u12^T
     for (i = 0; i < A->rows; i++) {
-        for (p0 = armassp_index(A, i); armassp_at(A, p0) < i; p0++);
-        // assert p0 points to diagonal entry; p0+1 start of a12^T
-        assert(armassp_at(A, p0) == i);
-
-        a11 = sqrt(armassp_value(A, p0));
+        // p0 points to diagonal entry; p0+1 start of a12^T
+        if ((p0 = armassp_nz(A, i, i)) < 0)
+            return -ARMAS_ESINGULAR;
+        a11 = armassp_value(A, p0);
+        if (!(a11 > ZERO))
+            return -ARMAS_ENEGATIVE;
+
+        a11 = sqrt(a11);
         Ue[p0] = a11;
 
         // u12^T = u12^T/a11;
@@ -118,7 +123,7 @@ int csr_illtz_upper(armas_sparse_t * A)
             j = armassp_at(A, p);
             // find diagonal
             for (p2 = armassp_index(A, j);
-                 armassp_at(A, p2) < j && p2 < armassp_index(A, j + 1);
+                 p2 < armassp_index(A, j + 1) && armassp_at(A, p2) < j;
                  p2++);
             // update values on and above diagonal
             for (p1 = p0 + 1;
@@ -150,11 +155,14 @@ int csc_illtz_lower(armas_sparse_t * A)
 
     // compute l11 = sqrt(a11); l21 = a21/l11; A22 = A22 - l21*l21^T
     for (i = 0; i < A->cols; i++) {
-        for (p0 = armassp_index(A, i); armassp_at(A, p0) < i; p0++);
-        // assert p0 points to diagonal entry; p0+1 start of a12^T
-        assert(armassp_at(A, p0) == i);
-
-        a11 = sqrt(armassp_value(A, p0));
+        // p0 points to diagonal entry; p0+1 start of a12^T
+        if ((p0 = armassp_nz(A, i, i)) < 0)
+            return -ARMAS_ESINGULAR;
+        a11 = armassp_value(A, p0);
+        if (!(a11 > ZERO))
+            return -ARMAS_ENEGATIVE;
+
+        a11 = sqrt(a11);
         Le[p0] = a11;
         // l21 = a21/a11;
         for (p = p0 + 1; p < armassp_index(A, i + 1); p++)
@@ -166,7 +174,7 @@ int csc_illtz_lower(armas_sparse_t * A)
             j = armassp_at(A, p);
             // find diagonal
             for (p2 = armassp_index(A, j);
-                 armassp_at(A, p2) < j && p2 < armassp_index(A, j + 1);
+                 p2 < armassp_index(A, j + 1) && armassp_at(A, p2) < j;
                  p2++);
             // update values on and below diagonal
             for (p1 = p0 + 1;
@@ -199,11 +207,14 @@ int csc_illtz_upper(armas_sparse_t * A)
 
     // compute l11 = sqrt(a11); l21 = a21/l11; A22 = A22 - l21*l21^T
     for (i = 0; i < A->rows; i++) {
-        for (p0 = armassp_index(A, i); armassp_at(A, p0) < i; p0++);
-        // assert p0 points to diagonal entry; p0+1 start of a12^T
-        assert(armassp_at(A, p0) == i);
-
-        a11 = sqrt(armassp_value(A, p0));
+        // p0 points to diagonal entry; p0+1 start of a12^T
+        if ((p0 = armassp_nz(A, i, i)) < 0)
+            return -ARMAS_ESINGULAR;
+        a11 = armassp_value(A, p0);
+        if (!(a11 > ZERO))
+            return -ARMAS_ENEGATIVE;
+
+        a11 = sqrt(a11);
         Ue[p0] = a11;
         // u12^T = u12^T/a11; A22 = A22 - u12*u12^T
         for (k = i + 1; k < A->cols; k++) {
@@ -214,7 +225,7 @@ int csc_illtz_upper(armas_sparse_t * A)
             Ue[p1] /= a11;
             // A22[:,k] = A22[:,k] - u12[k]*u12^T[0:k]
             for (p = p1 + 1;
-                 armassp_at(A, p) <= k && p < armassp_index(A, k + 1);
+                 p < armassp_index(A, k + 1) && armassp_at(A, p) <= k;
                  p++) {
                 // here j <= k
                 j = armassp_at(A, p);
@@ -229,25 +240,34 @@ int csc_illtz_upper(armas_sparse_t * A)
 }
 
 /**
+ * @brief Compute incomplete Cholesky factorization on non-zero pattern of A.
+ *
+ * @retval  0  Success
+ * @retval -ARMAS_EINVAL     Matrix not square or not in compressed format
+ * @retval -ARMAS_ESINGULAR  Diagonal element missing
+ * @retval -ARMAS_ENEGATIVE  Pivot element not positive
  */
 int armassp_icholz(armas_sparse_t * A, int flags)
 {
+    if (!A || A->rows != A->cols
+        || (A->kind != ARMASSP_CSR && A->kind != ARMASSP_CSC))
+        return -ARMAS_EINVAL;
+
     switch (flags & (ARMAS_UPPER | ARMAS_LOWER)) {
 
     case ARMAS_UPPER:
         if (A->kind == ARMASSP_CSR)
-            csr_illtz_upper(A);
+            return csr_illtz_upper(A);
         else
-            csc_illtz_upper(A);
+            return csc_illtz_upper(A);
         break;
     case ARMAS_LOWER:
     default:
         if (A->kind == ARMASSP_CSR)
-            csr_illtz_lower(A);
+            return csr_illtz_lower(A);
         else
-            csc_illtz_lower(A);
+            return csc_illtz_lower(A);
     }
-    return 0;
 }
 
 
diff --git a/src/sparse/iluz.c b/src/sparse/iluz.c
index 3cee9fb..cd233d8 100644
--- a/src/sparse/iluz.c
+++ b/src/sparse/iluz.c
@@ -21,7 +21,6 @@
 #if (defined(ARMAS_PROVIDES) && defined(ARMAS_REQUIRES)) || defined(CONFIG_NOTYPENAMES)
 // -----------------------------------------------------------------------------
 
-#include <assert.h>
 #include "matrix.h"
 #include "sparse.h"
 
@@ -59,10 +58,12 @@ int csr_iluz(armas_sparse_t * L)
 
     // IKJ loop; compute l21 = a21/a11; A22 = A22 - l21*a12^T
     for (i = 0; i < L->rows; i++) {
-        for (p0 = armassp_index(L, i); armassp_at(L, p0) < i; p0++);
-        // assert p0 points to diagonal entry; p0+1 start of a12^T
-        assert(armassp_at(L, p0) == i);
+        // p0 points to diagonal entry; p0+1 start of a12^T
+        if ((p0 = armassp_nz(L, i, i)) < 0)
+            return -ARMAS_ESINGULAR;
         a11 = armassp_value(L, p0);
+        if (a11 == ZERO)
+            return -ARMAS_ESINGULAR;
 
         // l21 = a21/a11; A22 = A22 - l21*a12^T
         for (k = i + 1; k < L->rows; k++) {
@@ -101,10 +102,12 @@ int csc_iluz(armas_sparse_t * L)
 
     // IKJ loop; compute l21 = a21/a11; A22 = A22 - l21*a12^T
     for (i = 0; i < L->cols; i++) {
-        for (p0 = armassp_index(L, i); armassp_at(L, p0) < i; p0++);
-        // assert p0 points to diagonal entry; p0+1 start of a21
-        assert(armassp_at(L, p0) == i);
+        // p0 points to diagonal entry; p0+1 start of a21
+        if ((p0 = armassp_nz(L, i, i)) < 0)
+            return -ARMAS_ESINGULAR;
         a11 = armassp_value(L, p0);
+        if (a11 == ZERO)
+            return -ARMAS_ESINGULAR;
 
         // l21 = a21/a11
         for (p = p0 + 1; p < armassp_index(L, i + 1); p++) {
@@ -138,8 +141,9 @@ int csc_iluz(armas_sparse_t * L)
 
 int armassp_iluz(armas_sparse_t * L)
 {
-    if (L->kind != ARMASSP_CSR && L->kind != ARMASSP_CSC)
-        return -1;
+    if (!L || L->rows != L->cols
+        || (L->kind != ARMASSP_CSR && L->kind != ARMASSP_CSC))
+        return -ARMAS_EINVAL;
 
     if (L->kind == ARMASSP_CSR) {
         return csr_iluz(L);
@@ -154,9 +158,9 @@ int precond_ilu(armas_dense_t * z,
 {
     if (z != x)
         armas_mcopy(z, x, 0, cf);
-    // x = M^-1*x = L^-1*(U^-1*x)
-    armassp_mvsolve_trm(z, ONE, P->M, ARMAS_UPPER, cf);
+    // x = M^-1*x = (L*U)^-1*x = U^-1*(L^-1*x)
     armassp_mvsolve_trm(z, ONE, P->M, ARMAS_UNIT | ARMAS_LOWER, cf);
+    armassp_mvsolve_trm(z, ONE, P->M, ARMAS_UPPER, cf);
     return 0;
 }
 
-- 
2.43.0


From 9488d193e06ea4ff9db8931b10663d4c3d07c3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 084/136] fix: sparse: conjugate gradient solvers report
 convergence truthfully

---
 src/sparse/cgne.c   | 42 +++++++++++++++++++++--------------
 src/sparse/cgnr.c   | 43 +++++++++++++++++++++---------------
 src/sparse/cgrad.c  | 28 +++++++++++++++--------
 src/sparse/pcgrad.c | 54 ++++++++++++++++++++++++++++-----------------
 4 files changed, 103 insertions(+), 64 deletions(-)

diff --git a/src/sparse/cgne.c b/src/sparse/cgne.c
index a2050a2..500ab99 100644
--- a/src/sparse/cgne.c
+++ b/src/sparse/cgne.c
@@ -126,7 +126,7 @@ int armassp_cgne_w(armas_dense_t * x,
 {
     DTYPE dot_r, dot_p, alpha, beta, dot_r1, *t, rstop, rmult;
     armas_dense_t p, Ap, r;
-    int niter, m, n, maxiter;
+    int niter, m, n, maxiter, stat;
 
     if (!cf)
         cf = armas_conf_default();
@@ -142,6 +142,8 @@ int armassp_cgne_w(armas_dense_t * x,
         return 0;
     }
 
+    cf->numiters = 0;
+    cf->residual = 0.0;
     if (A->rows == 0 || A->cols == 0)
         return 0;
 
@@ -158,8 +160,8 @@ int armassp_cgne_w(armas_dense_t * x,
     size_t pos = armas_wpos(wb);
 
     maxiter = cf->maxiter > 0 ? cf->maxiter : 2 * A->rows;
-    rstop = cf->stop != ZERO ? (DTYPE) cf->stop : ZERO;
-    rmult = cf->smult != ZERO ? (DTYPE) cf->smult : EPS;
+    rstop = cf->stop > ZERO ? (DTYPE) cf->stop : ZERO;
+    rmult = cf->smult > ZERO ? (DTYPE) cf->smult : EPS;
 
     m = A->rows;
     n = A->cols;
@@ -167,7 +169,7 @@ int armassp_cgne_w(armas_dense_t * x,
     // r0 = b - A*x
     t = armas_wreserve(wb, m, sizeof(DTYPE));
     armas_make(&r, m, 1, m, t);
-    armas_mcopy(&r, b, 0, cf);
+    armas_copy(&r, b, cf);
     armassp_mvmult(ONE, &r, -ONE, A, x, 0, cf);
 
     if (rstop == ZERO)
@@ -185,12 +187,21 @@ int armassp_cgne_w(armas_dense_t * x,
     armas_make(&Ap, m, 1, m, t);
 
     // -------------------------------------------------------------------------
-    dot_r1 = ZERO;
-    for (niter = 0; niter < maxiter; niter++) {
+    dot_r1 = armas_dot(&r, &r, cf);
+    stat = -ARMAS_ECONVERGE;
+    for (niter = 0;; niter++) {
+        if (dot_r1 == ZERO || dot_r1 < rstop) {
+            stat = 0;
+            break;
+        }
+        if (niter >= maxiter)
+            break;
         // Ap = A*p
         armassp_mvmult(ZERO, &Ap, ONE, A, &p, 0, cf);
-        dot_r = armas_dot(&r, &r, cf);
+        dot_r = dot_r1;
         dot_p = armas_dot(&p, &p, cf);
+        if (dot_p == ZERO)
+            break;
         alpha = dot_r / dot_p;
 
         // x = x + alpha*p
@@ -199,9 +210,6 @@ int armassp_cgne_w(armas_dense_t * x,
         armas_axpy(&r, -alpha, &Ap, cf);
 
         dot_r1 = armas_dot(&r, &r, cf);
-        if (dot_r1 < rstop) {
-            break;
-        }
         beta = dot_r1 / dot_r;
         // p = beta*p + A^T*r;
         armassp_mvmult(beta, &p, ONE, A, &r, ARMAS_TRANS, cf);
@@ -212,7 +220,9 @@ int armassp_cgne_w(armas_dense_t * x,
     cf->residual = (double) SQRT(dot_r1);
 
     armas_wsetpos(wb, pos);
-    return niter >= maxiter ? -ARMAS_ECONVERGE : 0;
+    if (stat < 0)
+        cf->error = -stat;
+    return stat;
 }
 
 /**
@@ -232,20 +242,18 @@ int armassp_cgne(armas_dense_t * x,
 
     if (!check_parms(x, A, b)) {
         cf->error = ARMAS_EINVAL;
-        return -1;
+        return -ARMAS_EINVAL;
     }
 
     if (A->rows == 0 || A->cols == 0)
         return 0;
 
-    if (armassp_cgne_w(x, A, b, &W, cf) < 0) {
-        cf->error = ARMAS_EWORK;
-        return -1;
-    }
+    if ((stat = armassp_cgne_w(x, A, b, &W, cf)) < 0)
+        return stat;
 
     if (!armas_walloc(&W, W.bytes)) {
         cf->error = ARMAS_EWORK;
-        return -1;
+        return -ARMAS_EWORK;
     }
     stat = armassp_cgne_w(x, A, b, &W, cf);
 
diff --git a/src/sparse/cgnr.c b/src/sparse/cgnr.c
index 93ca367..869b311 100644
--- a/src/sparse/cgnr.c
+++ b/src/sparse/cgnr.c
@@ -92,8 +92,8 @@ int check_parms(const armas_dense_t * x,
  * \f$ smult * {\Vert r_0 \Vert}_2 \f$ otherwise value
  * \f$ \epsilon {\Vert r_0 \Vert}_2 \f$ is used.
  *
- * Residual on iterattion k is \f$ r_k = b - A x_k \f$ and residual error
- * \f$ \sqrt {\Vert r_0 \Vert}_2 \f$.
+ * Residual on iterattion k is \f$ z_k = A^T(b - A x_k) \f$ and residual error
+ * \f$ {\Vert z_k \Vert}_2 \f$.
  *
  * The maximum iteration count is *cf.maxiter* or \f$ 2 M(A) \f$ where M(A) is
  * row count of A matrix.
@@ -112,7 +112,7 @@ int armassp_cgnr_w(armas_dense_t * x,
 {
     armas_dense_t p, Ap, r, z;
     DTYPE dot_z, dot_p, alpha, beta, dot_z1, *t, rstop, rmult;
-    int m, n, maxiter, niter;
+    int m, n, maxiter, niter, stat;
 
     if (!cf)
         cf = armas_conf_default();
@@ -126,9 +126,10 @@ int armassp_cgnr_w(armas_dense_t * x,
         W->bytes = CGNR_WSIZE(A->rows, A->cols);
         return 0;
     }
+    cf->numiters = 0;
+    cf->residual = 0.0;
     if (A->rows == 0 || A->cols == 0)
         return 0;
-
     if (check_parms(x, A, b) == 0) {
         cf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
@@ -150,7 +151,7 @@ int armassp_cgnr_w(armas_dense_t * x,
     // r0 = b - A*x
     t = armas_wreserve(W, m, sizeof(DTYPE));
     armas_make(&r, m, 1, m, t);
-    armas_mcopy(&r, b, 0, cf);
+    armas_copy(&r, b, cf);
     armassp_mvmult(ONE, &r, -ONE, A, x, 0, cf);
 
     // no absolute stopping criteria; make it epsilon^2*(r0, r0) 
@@ -174,12 +175,21 @@ int armassp_cgnr_w(armas_dense_t * x,
     armas_make(&Ap, m, 1, m, t);
 
     // --------------------------------------------------------------------
-    dot_z1 = ZERO;
-    for (niter = 0; niter < maxiter; niter++) {
+    dot_z1 = armas_dot(&z, &z, cf);
+    stat = -ARMAS_ECONVERGE;
+    for (niter = 0;; niter++) {
+        if (dot_z1 == ZERO || dot_z1 < rstop) {
+            stat = 0;
+            break;
+        }
+        if (niter >= maxiter)
+            break;
         // Ap = A*p
         armassp_mvmult(ZERO, &Ap, ONE, A, &p, 0, cf);
-        dot_z = armas_dot(&z, &z, cf);
+        dot_z = dot_z1;
         dot_p = armas_dot(&Ap, &Ap, cf);
+        if (dot_p == ZERO)
+            break;
         alpha = dot_z / dot_p;
 
         // x = x + alpha*p
@@ -190,9 +200,6 @@ int armassp_cgnr_w(armas_dense_t * x,
         armassp_mvmult(ZERO, &z, ONE, A, &r, ARMAS_TRANS, cf);
 
         dot_z1 = armas_dot(&z, &z, cf);
-        if (dot_z1 < rstop) {
-            break;
-        }
         beta = dot_z1 / dot_z;
         // p = beta*p + z;
         armas_axpby(beta, &p, ONE, &z, cf);
@@ -202,7 +209,9 @@ int armassp_cgnr_w(armas_dense_t * x,
     cf->residual = (double) SQRT(dot_z1);
 
     armas_wsetpos(W, pos);
-    return niter >= maxiter ? -ARMAS_ECONVERGE : 0;
+    if (stat < 0)
+        cf->error = -stat;
+    return stat;
 }
 
 /**
@@ -222,20 +231,18 @@ int armassp_cgnr(armas_dense_t * x,
 
     if (!check_parms(x, A, b)) {
         cf->error = ARMAS_EINVAL;
-        return -1;
+        return -ARMAS_EINVAL;
     }
 
     if (A->rows == 0 || A->cols == 0)
         return 0;
 
-    if (armassp_cgnr_w(x, A, b, &W, cf) < 0) {
-        cf->error = ARMAS_EWORK;
-        return -1;
-    }
+    if ((stat = armassp_cgnr_w(x, A, b, &W, cf)) < 0)
+        return stat;
 
     if (!armas_walloc(&W, W.bytes)) {
         cf->error = ARMAS_EWORK;
-        return -1;
+        return -ARMAS_EWORK;
     }
     stat = armassp_cgnr_w(x, A, b, &W, cf);
 
diff --git a/src/sparse/cgrad.c b/src/sparse/cgrad.c
index b32e1bf..7e06ca2 100644
--- a/src/sparse/cgrad.c
+++ b/src/sparse/cgrad.c
@@ -111,7 +111,7 @@ int armassp_cgrad_w(armas_dense_t * x,
                       const armas_dense_t * b,
                       int flags, armas_wbuf_t * W, armas_conf_t * cf)
 {
-    int maxiter, niter, m;
+    int maxiter, niter, m, stat;
     DTYPE dot_r, dot_p, alpha, beta, dot_r1, *t, rstop, rmult;
     armas_dense_t p, Ap, r;
 
@@ -127,6 +127,8 @@ int armassp_cgrad_w(armas_dense_t * x,
         W->bytes = CGRAD_WSIZE(A->rows);
         return 0;
     }
+    cf->numiters = 0;
+    cf->residual = 0.0;
     if (A->rows == 0 || A->cols == 0)
         return 0;
 
@@ -150,7 +152,7 @@ int armassp_cgrad_w(armas_dense_t * x,
     // r0 = b - A*x
     t = armas_wreserve(W, m, sizeof(DTYPE));
     armas_make(&r, m, 1, m, t);
-    armas_mcopy(&r, b, 0, cf);
+    armas_copy(&r, b, cf);
     armassp_mvmult_sym(ONE, &r, -ONE, A, x, flags, cf);
 
     if (rstop == ZERO)
@@ -167,12 +169,21 @@ int armassp_cgrad_w(armas_dense_t * x,
     armas_make(&Ap, m, 1, m, t);
 
     // -------------------------------------------------------------------------
-    dot_r1 = ZERO;
-    for (niter = 0; niter < maxiter; niter++) {
+    dot_r1 = armas_dot(&r, &r, cf);
+    stat = -ARMAS_ECONVERGE;
+    for (niter = 0;; niter++) {
+        if (dot_r1 == ZERO || dot_r1 < rstop) {
+            stat = 0;
+            break;
+        }
+        if (niter >= maxiter)
+            break;
         // Ap = A*p
         armassp_mvmult_sym(ZERO, &Ap, ONE, A, &p, flags, cf);
-        dot_r = armas_dot(&r, &r, cf);
+        dot_r = dot_r1;
         dot_p = armas_dot(&Ap, &p, cf);
+        if (dot_p == ZERO)
+            break;
         alpha = dot_r / dot_p;
 
         // x = x + alpha*p
@@ -181,9 +192,6 @@ int armassp_cgrad_w(armas_dense_t * x,
         armas_axpy(&r, -alpha, &Ap, cf);
 
         dot_r1 = armas_dot(&r, &r, cf);
-        if (dot_r1 < rstop) {
-            break;
-        }
         beta = dot_r1 / dot_r;
         // p = beta*p + r;
         armas_axpby(beta, &p, ONE, &r, cf);
@@ -194,7 +202,9 @@ int armassp_cgrad_w(armas_dense_t * x,
     cf->residual = (double) SQRT(dot_r1);
 
     armas_wsetpos(W, pos);
-    return niter >= maxiter ? -ARMAS_ECONVERGE : 0;
+    if (stat < 0)
+        cf->error = -stat;
+    return stat;
 }
 
 /**
diff --git a/src/sparse/pcgrad.c b/src/sparse/pcgrad.c
index 9e25337..a155795 100644
--- a/src/sparse/pcgrad.c
+++ b/src/sparse/pcgrad.c
@@ -108,6 +108,9 @@ int check_parms(const armas_dense_t * x,
  * For details see: Yousef Saad, *Iterative Methods for Sparse Linear System*, 2nd Edition
  * section 9.1
  *
+ * Iteration stops when the residual error \f$ {\Vert b - A x_k \Vert}_2 \f$ goes below
+ * stopping criteria (see armassp_cgrad_w) or maximum iteration count is reached.
+ *
  * On exit *cf.numiters* holds the number of iterations and *cf.residual* holds
  * the final residual error.
  *
@@ -122,15 +125,15 @@ int armassp_pcgrad_w(armas_dense_t * x,
                        armassp_precond_t * M,
                        int flags, armas_wbuf_t * W, armas_conf_t * cf)
 {
-    int m, niter, maxiter;
-    DTYPE dot_rz, dot_p, dot_rz1, *t, rstop, alpha, beta, rmult;
+    int m, niter, maxiter, stat;
+    DTYPE dot_r, dot_rz, dot_p, dot_rz1, *t, rstop, alpha, beta, rmult;
     armas_dense_t Ap, p, z, r;
 
     if (!cf)
         cf = armas_conf_default();
-    if (!A) {
+    if (!A || !M) {
         cf->error = ARMAS_EINVAL;
-        return -1;
+        return -ARMAS_EINVAL;
     }
 
     m = A->rows;
@@ -141,12 +144,14 @@ int armassp_pcgrad_w(armas_dense_t * x,
     }
     if (check_parms(x, A, b) == 0) {
         cf->error = ARMAS_EINVAL;
-        return -1;
+        return -ARMAS_EINVAL;
     }
     if (armas_wbytes(W) < PCGRAD_WSIZE(m)) {
         cf->error = ARMAS_EWORK;
-        return -1;
+        return -ARMAS_EWORK;
     }
+    cf->numiters = 0;
+    cf->residual = 0.0;
     if (A->rows == 0 || A->cols == 0)
         return 0;
 
@@ -156,7 +161,7 @@ int armassp_pcgrad_w(armas_dense_t * x,
     // r0 = b - A*x
     t = armas_wreserve(W, m, sizeof(DTYPE));
     armas_make(&r, m, 1, m, t);
-    armas_mcopy(&r, b, 0, cf);
+    armas_copy(&r, b, cf);
     armassp_mvmult_sym(ONE, &r, -ONE, A, x, flags, cf);
 
     rstop = cf->stop > ZERO ? cf->stop : ZERO;
@@ -182,12 +187,22 @@ int armassp_pcgrad_w(armas_dense_t * x,
     armas_make(&Ap, m, 1, m, t);
 
     // -------------------------------------------------------------------------
-    dot_rz1 = ZERO;
-    for (niter = 0; niter < maxiter; niter++) {
+    dot_r = armas_dot(&r, &r, cf);
+    dot_rz1 = armas_dot(&r, &z, cf);
+    stat = -ARMAS_ECONVERGE;
+    for (niter = 0;; niter++) {
+        if (dot_r == ZERO || dot_r < rstop) {
+            stat = 0;
+            break;
+        }
+        if (niter >= maxiter)
+            break;
         // Ap = A*p
         armassp_mvmult_sym(ZERO, &Ap, ONE, A, &p, flags, cf);
         dot_p = armas_dot(&Ap, &p, cf);
-        dot_rz = armas_dot(&r, &z, cf);
+        dot_rz = dot_rz1;
+        if (dot_p == ZERO || dot_rz == ZERO)
+            break;
         alpha = dot_rz / dot_p;
 
         // x = x + alpha*p
@@ -197,10 +212,8 @@ int armassp_pcgrad_w(armas_dense_t * x,
         // z = M^-1*r
         M->precond(&z, M, &r, cf);
 
+        dot_r = armas_dot(&r, &r, cf);
         dot_rz1 = armas_dot(&r, &z, cf);
-        if (dot_rz1 < rstop) {
-            break;
-        }
         beta = dot_rz1 / dot_rz;
         // p = beta*p + z;
         armas_axpby(beta, &p, ONE, &z, cf);
@@ -208,10 +221,12 @@ int armassp_pcgrad_w(armas_dense_t * x,
     // -------------------------------------------------------------------------
 
     cf->numiters = niter;
-    cf->residual = SQRT(dot_rz1);
+    cf->residual = SQRT(dot_r);
 
     armas_wsetpos(W, wpos);
-    return 0;
+    if (stat < 0)
+        cf->error = -stat;
+    return stat;
 }
 
 /**
@@ -232,18 +247,17 @@ int armassp_pcgrad(armas_dense_t * x,
     }
     if (!check_parms(x, A, b)) {
         cf->error = ARMAS_EINVAL;
-        return -1;
+        return -ARMAS_EINVAL;
     }
     if (A->rows == 0 || A->cols == 0)
         return 0;
 
     // get working size
-    if (armassp_pcgrad_w(x, A, b, M, flags, &W, cf) < 0) {
-        return -1;
-    }
+    if ((stat = armassp_pcgrad_w(x, A, b, M, flags, &W, cf)) < 0)
+        return stat;
     if (!armas_walloc(&W, W.bytes)) {
         cf->error = ARMAS_EWORK;
-        return -1;
+        return -ARMAS_EWORK;
     }
     stat = armassp_pcgrad_w(x, A, b, M, flags, &W, cf);
     armas_wrelease(&W);
-- 
2.43.0


From 4a49312efc4bff7845d35b0a93a6db13e68e746c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 085/136] fix: sparse: GMRES solvers honour stopping criteria
 and report convergence

---
 src/sparse/gmres.c  | 167 ++++++++++++++++++++++++++++++--------------
 src/sparse/pgmres.c | 153 +++++++++++++++++++++++++++-------------
 2 files changed, 216 insertions(+), 104 deletions(-)

diff --git a/src/sparse/gmres.c b/src/sparse/gmres.c
index a310d1d..733fbb7 100644
--- a/src/sparse/gmres.c
+++ b/src/sparse/gmres.c
@@ -82,6 +82,10 @@ void hmult(armas_dense_t * y, armas_dense_t * H, int k, DTYPE val,
  *    On entry residual b - A*x. On exit values destroyed. (length n);
  * \param [out] *res
  *    Error residual; |beta*e_0 - Hy|
+ * \param [in] maxm
+ *    Maximum number of iterations.
+ * \param [out] *breakdown
+ *    Set if iteration is not able to reduce residual further.
  */
 static
 int gmres_hh_fused(armas_dense_t * x,
@@ -92,40 +96,41 @@ int gmres_hh_fused(armas_dense_t * x,
                    armas_dense_t * S,
                    armas_dense_t * y,
                    armas_dense_t * w,
-                   DTYPE * res, DTYPE stop, armas_conf_t * cnf)
+                   DTYPE * res, DTYPE stop, int maxm, int *breakdown,
+                   armas_conf_t * cnf)
 {
-    armas_dense_t PTL, PBL, PBR, P00, p01, p11, p21, P22, PL, PR, P0, p1, P2;
-    armas_dense_t T, z, beta;
+    armas_dense_t T, z, beta, P0, p1, p01, p11, p21;
     DTYPE _beta, u, h0, c, s, r;
     int m = P->cols - 1;
+    int n = P->rows;
 
-    EMPTY(P00);
+    if (m > maxm)
+        m = maxm;
 
     // w = b - A*x0; z = r0
     armas_make(&beta, 1, 1, 1, &_beta);
 
-    mat_partition_2x2(
-        &PTL, __nil,
-        &PBL, &PBR, /**/ P, 1, 1, ARMAS_PTOPLEFT);
-    mat_partition_1x2(
-        &PL, &PR, /**/ P, 1, ARMAS_PLEFT);
+    armas_column(&p1, P, 0);
+    armas_copy(&p1, w, cnf);
+    armas_submatrix(&p11, P, 0, 0, 1, 1);
+    EMPTY(p21);
+    if (n > 1)
+        armas_submatrix(&p21, P, 1, 0, n - 1, 1);
+    armas_house(&p11, &p21, y, 0, cnf);
 
-    armas_copy(&PL, w, cnf);
-    armas_house(&PTL, &PBL, y, 0, cnf);
     int nrot = 0;
     int converged = 0;
-    while (PBR.cols > 0 && converged == 0) {
-        mat_repartition_2x2to3x3(
-            &PTL, /**/
-            &P00, &p01, __nil,
-            __nil, &p11, __nil,
-            __nil, &p21, &P22, /**/ P, 1, ARMAS_PBOTTOMRIGHT);
-        mat_repartition_1x2to1x3(
-            &PL, /**/ &P0, &p1, &P2, /**/ P, 1, ARMAS_PRIGHT);
+    *breakdown = 0;
+    while (nrot < m && converged == 0) {
+        // current column
+        int k = nrot + 1;
+        armas_submatrix(&P0, P, 0, 0, n, k);
+        armas_column(&p1, P, k);
+        armas_submatrix(&p01, P, 0, k, k, 1);
         // ---------------------------------------------------------------------
         // w = v = P_1*..P_j*e_j = Q_j*e_j
         armas_scale(w, ZERO, cnf);
-        armas_set_unsafe(w, P00.rows - 1, 0, ONE);
+        armas_set_unsafe(w, k - 1, 0, ONE);
         armas_housemult_w(w, __nil, &P0, ARMAS_LEFT, __wbnil, cnf);
         // z = Av; p1 == z
         armassp_mvmult(ZERO, &p1, ONE, A, w, 0, cnf);
@@ -137,11 +142,24 @@ int gmres_hh_fused(armas_dense_t * x,
         armas_gvupdate(&p01, 0, C, S, nrot, ARMAS_LEFT | ARMAS_FORWARD);
 
         // unscaled Householder transformation to zero p21
-        armas_house(&p11, &p21, &beta, 0, cnf);
+        // (last column of full Krylov space does not have any)
+        _beta = ZERO;
+        if (k < n) {
+            armas_submatrix(&p11, P, k, k, 1, 1);
+            EMPTY(p21);
+            if (k < n - 1)
+                armas_submatrix(&p21, P, k + 1, k, n - k - 1, 1);
+            armas_house(&p11, &p21, &beta, 0, cnf);
+        }
 
         // compute rotation to zero new beta 
         h0 = armas_get_unsafe(&p01, p01.rows - 1, 0);
         armas_gvcompute(&c, &s, &r, h0, _beta);
+        if (r == ZERO) {
+            // singular; this column does not reduce residual
+            *breakdown = 1;
+            break;
+        }
         armas_set_unsafe(&p01, p01.rows - 1, 0, r);
         // clear y element from old value and rotate
         armas_set_unsafe(y, nrot + 1, 0, ZERO);
@@ -151,12 +169,6 @@ int gmres_hh_fused(armas_dense_t * x,
         armas_set_unsafe(S, nrot, 0, s);
         nrot++;
         converged = ABS(armas_get_unsafe(y, nrot, 0)) < stop;
-        // ---------------------------------------------------------------------
-        mat_continue_3x3to2x2(
-            &PTL, __nil,
-            &PBL, &PBR, /**/ &P00, &p11, &P22, /**/ P, ARMAS_PBOTTOMRIGHT);
-        mat_continue_1x3to1x2(
-            &PL, &PR, /**/ &P0, &p1, /**/ P, ARMAS_PRIGHT);
     }
 
     if (nrot < m) {
@@ -165,6 +177,9 @@ int gmres_hh_fused(armas_dense_t * x,
     // residual of |beta*e0 - H*y| in y[m]
     *res = ABS(armas_get_unsafe(y, m, 0));
 
+    if (m == 0)
+        return 0;
+
     // 2. solve for y; len(y) == cols(H) == m;
     armas_submatrix(&T, P, 0, 1, m, m);
     armas_make(&z, m, 1, m, armas_data(y));
@@ -186,6 +201,21 @@ int gmres_hh_fused(armas_dense_t * x,
     return m;
 }
 
+// rounding error level of residual b - A*x
+static
+DTYPE residual_slack(const armas_dense_t * x,
+                     const armas_sparse_t * A,
+                     const armas_dense_t * b, armas_conf_t * cf)
+{
+    armas_dense_t v;
+    DTYPE anrm = ZERO;
+    if (A->nnz > 0) {
+        armas_make(&v, A->nnz, 1, A->nnz, A->elems.v);
+        anrm = armas_nrm2(&v, cf);
+    }
+    return 10 * A->cols * EPS * (anrm * armas_nrm2(x, cf) + armas_nrm2(b, cf));
+}
+
 /* 
  * Main loop for GMRES. Workspace needed is approxmately (n+3)*(m+2) elements.
  */
@@ -195,7 +225,7 @@ int gmres_hh_loop_fused(armas_dense_t * x,
                         const armas_dense_t * b,
                         int maxiter,
                         int m,
-                        DTYPE * stopping, armas_wbuf_t * W, armas_conf_t * cf)
+                        armas_wbuf_t * W, armas_conf_t * cf)
 {
     armas_dense_t P, w, C, S, y;
     DTYPE nrm_r0, nrm_r1, rstop;
@@ -223,23 +253,40 @@ int gmres_hh_loop_fused(armas_dense_t * x,
     armassp_mvmult(ONE, &w, -ONE, A, x, 0, cf);
     nrm_r0 = armas_nrm2(&w, cf);
 
-    rstop = stopping && *stopping != ZERO ?
-        *stopping : EPS * nrm_r0 * A->cols;
+    rstop = cf->stop > ZERO ? (DTYPE) cf->stop
+        : (cf->smult > ZERO ? (DTYPE) cf->smult * nrm_r0 : EPS * nrm_r0 * n);
 
     int niter = 0;
-    for (int j = 0; j < maxiter; j += m) {
-        niter +=
-            gmres_hh_fused(x, A, b, &P, &C, &S, &y, &w, &nrm_r1, rstop, cf);
-        if (nrm_r1 < rstop) {
-            break;
+    int breakdown = 0;
+    int stat = nrm_r0 == ZERO || nrm_r0 < rstop ? 0 : -ARMAS_ECONVERGE;
+    if (stat < 0) {
+        while (niter < maxiter) {
+            int nit = gmres_hh_fused(x, A, b, &P, &C, &S, &y, &w, &nrm_r1,
+                                     rstop, maxiter - niter, &breakdown, cf);
+            niter += nit;
+            // compute residual; w = b - A*x
+            armas_copy(&w, b, cf);
+            armassp_mvmult(ONE, &w, -ONE, A, x, 0, cf);
+            nrm_r0 = armas_nrm2(&w, cf);
+            // accept if residual is below stopping criteria or estimated residual
+            // is and difference is not more than rounding errors
+            if (nrm_r0 < rstop || (nrm_r1 < rstop
+                && nrm_r0 <= rstop + residual_slack(x, A, b, cf))) {
+                stat = 0;
+                break;
+            }
+            if (breakdown)
+                break;
         }
-        // compute residual; w = b - A*x
-        armas_copy(&w, b, cf);
-        armassp_mvmult(ONE, &w, -ONE, A, x, 0, cf);
     }
 
+    cf->numiters = niter;
+    cf->residual = nrm_r0;
+    if (stat < 0)
+        cf->error = -stat;
+
     armas_wsetpos(W, pos);
-    return niter;
+    return stat;
 }
 
 #ifdef ARMASSP_INCLUDE_GMRES_MGS_VERSION
@@ -389,19 +436,23 @@ int GMRES_WSIZE_MGS(int n, int m)
 #endif
 
 static inline
-int GMRES_WSIZE(int n, int m)
+size_t GMRES_WSIZE(int n, int m)
 {
     //return (n*m + (m+1)*m + n)*sizeof(DTYPE);
-    return (n + 3) * (m + 2) * sizeof(DTYPE);
+    return (size_t) (n + 3) * (m + 2) * sizeof(DTYPE);
 }
 
 static inline
-int compute_m(int n, int w)
+int compute_m(int n, size_t w)
 {
     if (w < n)
         return 0;
-    int m = w / (n + 3) - 2;
-    return m < 3 ? 0 : m;
+    size_t nc = w / (n + 3);
+    int m = nc > (size_t) n + 2 ? n : (int) nc - 2;
+    // never more than dimension of the space
+    if (m > n)
+        m = n;
+    return m < 1 ? 0 : m;
 }
 
 
@@ -441,6 +492,10 @@ int check_params(armas_dense_t * x,
  *   Configuration block. On exit *cf.numiters* holds number of iterations and
  *   *cf.residual* the final error residual.
  *
+ * Iteration stops when *maxiter* iterations is reached or when error residual is less
+ * than the stopping criteria. Stopping criteria is non-zero absolute value defined in
+ * *stop* or value of *smult* times norm of the initial residual.
+ *
  * For details see: Yousef Saad, *Iterative Methods for Sparse Linear System*, 2nd Edition
  * sections 6.5 and algorithm 6.9.
  *
@@ -456,6 +511,10 @@ int armassp_gmres_w(armas_dense_t * x,
     if (!cf)
         cf = armas_conf_default();
 
+    if (!A) {
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     int n = A->rows;
     int m = cf->gmres_m > 0 ? cf->gmres_m : GMRES_M;
 
@@ -466,20 +525,20 @@ int armassp_gmres_w(armas_dense_t * x,
     }
     if (!check_params(x, A, b)) {
         cf->error = ARMAS_EINVAL;
-        return -1;
+        return -ARMAS_EINVAL;
     }
     // estimate of m
     int me = compute_m(n, armas_wbytes(wb) / sizeof(DTYPE));
     if (me == 0) {
         cf->error = ARMAS_EWORK;
-        return -1;
+        return -ARMAS_EWORK;
     }
+    cf->numiters = 0;
+    cf->residual = 0.0;
+    if (n == 0)
+        return 0;
     int maxiter = cf->maxiter > 0 ? cf->maxiter : 5 * A->rows;
-    DTYPE res = ZERO;
-    int niter = gmres_hh_loop_fused(x, A, b, maxiter, me, &res, wb, cf);
-    cf->residual = res;
-    cf->numiters = niter;
-    return 0;
+    return gmres_hh_loop_fused(x, A, b, maxiter, me, wb, cf);
 }
 
 /**
@@ -498,15 +557,15 @@ int armassp_gmres(armas_dense_t * x,
 
     if (!check_params(x, A, b)) {
         cf->error = ARMAS_EINVAL;
-        return -1;
+        return -ARMAS_EINVAL;
     }
 
     int m = cf->gmres_m > 0 ? cf->gmres_m : GMRES_M;
 
-    int nb = GMRES_WSIZE(A->cols, m);
+    size_t nb = GMRES_WSIZE(A->cols, m);
     if (!armas_walloc(&W, nb)) {
         cf->error = ARMAS_EWORK;
-        return -1;
+        return -ARMAS_EWORK;
     }
     int stat = armassp_gmres_w(x, A, b, &W, cf);
     armas_wrelease(&W);
diff --git a/src/sparse/pgmres.c b/src/sparse/pgmres.c
index 07aa9bf..a15cc98 100644
--- a/src/sparse/pgmres.c
+++ b/src/sparse/pgmres.c
@@ -81,6 +81,10 @@ void hmult(armas_dense_t * y, armas_dense_t * H, int k, DTYPE val,
  *    On entry residual b - A*x. On exit values destroyed. (length n);
  * \param [out] *res
  *    Error residual; |beta*e_0 - Hy|
+ * \param [in] maxm
+ *    Maximum number of iterations.
+ * \param [out] *breakdown
+ *    Set if iteration is not able to reduce residual further.
  */
 static
 int pgmres_hh_pfused(armas_dense_t * x,
@@ -92,43 +96,44 @@ int pgmres_hh_pfused(armas_dense_t * x,
                      armas_dense_t * S,
                      armas_dense_t * y,
                      armas_dense_t * w,
-                     DTYPE * res, DTYPE stop, armas_conf_t * cnf)
+                     DTYPE * res, DTYPE stop, int maxm, int *breakdown,
+                     armas_conf_t * cnf)
 {
-    armas_dense_t PTL, PBL, PBR, P00, p01, p11, p21, P22, PL, PR, P0, p1, P2;
-    armas_dense_t T, z, beta;
+    armas_dense_t T, z, beta, P0, p1, p01, p11, p21;
     DTYPE _beta, u, h0, c, s, r;
     int m = P->cols - 1;
+    int n = P->rows;
 
-    EMPTY(P00);
+    if (m > maxm)
+        m = maxm;
 
     // w = b - A*x0; z = r0
     armas_make(&beta, 1, 1, 1, &_beta);
 
-    mat_partition_2x2(
-        &PTL, __nil,
-        &PBL, &PBR, /**/ P, 1, 1, ARMAS_PTOPLEFT);
-    mat_partition_1x2(
-        &PL, &PR, /**/ P, 1, ARMAS_PLEFT);
+    armas_column(&p1, P, 0);
+    armas_copy(&p1, w, cnf);
+    armas_submatrix(&p11, P, 0, 0, 1, 1);
+    EMPTY(p21);
+    if (n > 1)
+        armas_submatrix(&p21, P, 1, 0, n - 1, 1);
+    armas_house(&p11, &p21, y, 0, cnf);
 
-    armas_copy(&PL, w, cnf);
-    armas_house(&PTL, &PBL, y, 0, cnf);
     int nrot = 0;
     int converged = 0;
-    while (PBR.cols > 0 && converged == 0) {
-        mat_repartition_2x2to3x3(
-            &PTL, /**/
-            &P00, &p01, __nil,
-            __nil, &p11, __nil,
-            __nil, &p21, &P22, /**/ P, 1, ARMAS_PBOTTOMRIGHT);
-        mat_repartition_1x2to1x3(
-            &PL, /**/ &P0, &p1, &P2, /**/ P, 1, ARMAS_PRIGHT);
+    *breakdown = 0;
+    while (nrot < m && converged == 0) {
+        // current column
+        int k = nrot + 1;
+        armas_submatrix(&P0, P, 0, 0, n, k);
+        armas_column(&p1, P, k);
+        armas_submatrix(&p01, P, 0, k, k, 1);
         // ---------------------------------------------------------------------
         // w = v = P_1*..P_j*e_j = Q_j*e_j
         armas_scale(w, ZERO, cnf);
-        armas_set_unsafe(w, P00.rows - 1, 0, ONE);
+        armas_set_unsafe(w, k - 1, 0, ONE);
         armas_housemult_w(w, __nil, &P0, ARMAS_LEFT, __wbnil, cnf);
         // z = AM^-1*v; p1 == z
-        M->precond(&p1, M, &p1, cnf);
+        M->precond(w, M, w, cnf);
         armassp_mvmult(ZERO, &p1, ONE, A, w, 0, cnf);
         // z = P_j*...P_1*Av
         armas_housemult_w(&p1, __nil, &P0, ARMAS_LEFT | ARMAS_TRANS, __wbnil,
@@ -138,11 +143,24 @@ int pgmres_hh_pfused(armas_dense_t * x,
         armas_gvupdate(&p01, 0, C, S, nrot, ARMAS_LEFT | ARMAS_FORWARD);
 
         // unscaled Householder transformation to zero p21
-        armas_house(&p11, &p21, &beta, 0, cnf);
+        // (last column of full Krylov space does not have any)
+        _beta = ZERO;
+        if (k < n) {
+            armas_submatrix(&p11, P, k, k, 1, 1);
+            EMPTY(p21);
+            if (k < n - 1)
+                armas_submatrix(&p21, P, k + 1, k, n - k - 1, 1);
+            armas_house(&p11, &p21, &beta, 0, cnf);
+        }
 
         // compute rotation to zero new beta 
         h0 = armas_get_unsafe(&p01, p01.rows - 1, 0);
         armas_gvcompute(&c, &s, &r, h0, _beta);
+        if (r == ZERO) {
+            // singular; this column does not reduce residual
+            *breakdown = 1;
+            break;
+        }
         armas_set_unsafe(&p01, p01.rows - 1, 0, r);
         // clear y element from old value and rotate
         armas_set_unsafe(y, nrot + 1, 0, ZERO);
@@ -152,12 +170,6 @@ int pgmres_hh_pfused(armas_dense_t * x,
         armas_set_unsafe(S, nrot, 0, s);
         nrot++;
         converged = ABS(armas_get_unsafe(y, nrot, 0)) < stop;
-        // ---------------------------------------------------------------------
-        mat_continue_3x3to2x2(
-            &PTL, __nil,
-            &PBL, &PBR, /**/ &P00, &p11, &P22, /**/ P, ARMAS_PBOTTOMRIGHT);
-        mat_continue_1x3to1x2(
-            &PL, &PR, /**/ &P0, &p1, /**/ P, ARMAS_PRIGHT);
     }
 
     if (nrot < m) {
@@ -166,6 +178,9 @@ int pgmres_hh_pfused(armas_dense_t * x,
     // residual of |beta*e0 - H*y| in y[m]
     *res = ABS(armas_get_unsafe(y, m, 0));
 
+    if (m == 0)
+        return 0;
+
     // 2. solve for y; len(y) == cols(H) == m;
     armas_submatrix(&T, P, 0, 1, m, m);
     armas_make(&z, m, 1, m, armas_data(y));
@@ -195,21 +210,40 @@ int pgmres_hh_pfused(armas_dense_t * x,
 #endif
 
 static inline
-int GMRES_WSIZE(int n, int m)
+size_t GMRES_WSIZE(int n, int m)
 {
-    return (n + 3) * (m + 2) * sizeof(DTYPE);
+    return (size_t) (n + 3) * (m + 2) * sizeof(DTYPE);
 }
 
 static inline
-int compute_m(int n, int w)
+int compute_m(int n, size_t w)
 {
     if (w < n)
         return 0;
-    int m = w / (n + 3) - 2;
-    return m < 3 ? 0 : m;
+    size_t nc = w / (n + 3);
+    int m = nc > (size_t) n + 2 ? n : (int) nc - 2;
+    // never more than dimension of the space
+    if (m > n)
+        m = n;
+    return m < 1 ? 0 : m;
 }
 
 
+// rounding error level of residual b - A*x
+static
+DTYPE residual_slack(const armas_dense_t * x,
+                     const armas_sparse_t * A,
+                     const armas_dense_t * b, armas_conf_t * cf)
+{
+    armas_dense_t v;
+    DTYPE anrm = ZERO;
+    if (A->nnz > 0) {
+        armas_make(&v, A->nnz, 1, A->nnz, A->elems.v);
+        anrm = armas_nrm2(&v, cf);
+    }
+    return 10 * A->cols * EPS * (anrm * armas_nrm2(x, cf) + armas_nrm2(b, cf));
+}
+
 static inline
 int check_params(const armas_dense_t * x,
                  const armas_sparse_t * A, const armas_dense_t * b)
@@ -268,14 +302,15 @@ int armassp_pgmres_w(armas_dense_t * x,
                        const armassp_precond_t * M,
                        armas_wbuf_t * W, armas_conf_t * cf)
 {
-    int n, m, me, maxiter, niter;
+    int n, m, me, maxiter, niter, stat, breakdown;
     armas_dense_t P, w, C, S, y;
     DTYPE nrm_r0, nrm_r1, rstop, *t;
 
     if (!cf)
         cf = armas_conf_default();
-    if (!A) {
-        return -1;
+    if (!A || !M || !W) {
+        cf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
     }
 
     n = A->cols;
@@ -287,15 +322,21 @@ int armassp_pgmres_w(armas_dense_t * x,
     }
     if (!check_params(x, A, b)) {
         cf->error = ARMAS_EINVAL;
-        return -1;
+        return -ARMAS_EINVAL;
     }
     // estimate of m
     me = compute_m(n, armas_wbytes(W) / sizeof(DTYPE));
     if (me == 0) {
         cf->error = ARMAS_EWORK;
-        return -1;
+        return -ARMAS_EWORK;
     }
-    maxiter = cf && cf->maxiter > 0 ? cf->maxiter : 5 * A->rows;
+    // use all columns that fit to workspace
+    m = me;
+    cf->numiters = 0;
+    cf->residual = 0.0;
+    if (n == 0)
+        return 0;
+    maxiter = cf->maxiter > 0 ? cf->maxiter : 5 * A->rows;
 
     // ------------------------------------------------------------------------
     size_t pos = armas_wpos(W);
@@ -326,23 +367,35 @@ int armassp_pgmres_w(armas_dense_t * x,
     // ------------------------------------------------------------------------
     nrm_r1 = ZERO;
     niter = 0;
-    for (int j = 0; j < maxiter; j += m) {
-        niter +=
-            pgmres_hh_pfused(x, A, b, M, &P, &C, &S, &y, &w, &nrm_r1, rstop, cf);
-        if (nrm_r1 < rstop) {
-            break;
-        }
+    breakdown = 0;
+    stat = nrm_r0 == ZERO || nrm_r0 < rstop ? 0 : -ARMAS_ECONVERGE;
+    while (stat < 0 && niter < maxiter) {
+        int nit = pgmres_hh_pfused(x, A, b, M, &P, &C, &S, &y, &w, &nrm_r1,
+                                   rstop, maxiter - niter, &breakdown, cf);
+        niter += nit;
         // compute residual; w = b - A*x
         armas_copy(&w, b, cf);
         armassp_mvmult(ONE, &w, -ONE, A, x, 0, cf);
+        nrm_r0 = armas_nrm2(&w, cf);
+        // accept if residual is below stopping criteria or estimated residual
+        // is and difference is not more than rounding errors
+        if (nrm_r0 < rstop || (nrm_r1 < rstop
+            && nrm_r0 <= rstop + residual_slack(x, A, b, cf))) {
+            stat = 0;
+            break;
+        }
+        if (breakdown)
+            break;
     }
 
     armas_wsetpos(W, pos);
 
-    cf->residual = nrm_r1;
+    cf->residual = nrm_r0;
     cf->numiters = niter;
+    if (stat < 0)
+        cf->error = -stat;
 
-    return 0;
+    return stat;
 }
 
 /**
@@ -362,15 +415,15 @@ int armassp_pgmres(armas_dense_t * x,       /*  */
 
     if (!check_params(x, A, b)) {
         cf->error = ARMAS_EINVAL;
-        return -1;
+        return -ARMAS_EINVAL;
     }
 
     int m = cf->gmres_m > 0 ? cf->gmres_m : GMRES_M;
 
-    int nb = GMRES_WSIZE(A->cols, m);
+    size_t nb = GMRES_WSIZE(A->cols, m);
     if (!armas_walloc(&W, nb)) {
         cf->error = ARMAS_EWORK;
-        return -1;
+        return -ARMAS_EWORK;
     }
     int stat = armassp_pgmres_w(x, A, b, M, &W, cf);
     armas_wrelease(&W);
-- 
2.43.0


From 741bc3c7abf3ce1fbe693976faa7ada0bfdefd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 086/136] fix: sparse: CGNR workspace is too small for its
 vectors

---
 src/sparse/cgnr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse/cgnr.c b/src/sparse/cgnr.c
index 869b311..743f4d6 100644
--- a/src/sparse/cgnr.c
+++ b/src/sparse/cgnr.c
@@ -47,7 +47,7 @@
  *  b,r,w = [m,1]
  */
 
-#define CGNR_WSIZE(m, n)  ((2*(n) + (m))*sizeof(DTYPE))
+#define CGNR_WSIZE(m, n)  (2*((n) + (m))*sizeof(DTYPE))
 
 static inline
 int check_parms(const armas_dense_t * x,
-- 
2.43.0


From 9d8dc0bc7bb2f53809e444a9d181a1066a2c6eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:58 +0000
Subject: [PATCH 087/136] fix: refuse matrices whose element count overflows

---
 src/base/matrix.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/base/matrix.c b/src/base/matrix.c
index 43e3780..96fdc67 100644
--- a/src/base/matrix.c
+++ b/src/base/matrix.c
@@ -13,6 +13,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <stdint.h>
+#include <limits.h>
 
 #include "dtype.h"
 #include "matrix.h"
@@ -62,15 +63,21 @@ armas_dense_t *armas_init(armas_dense_t *m, int r, int c)
         m->__nbytes = 0;
         return m;
     }
-    // set first to adjusted element count
-    m->__nbytes = ALIGNSIZE(r*c, DTYPE);
-    m->__data = calloc(m->__nbytes, sizeof(DTYPE));
+    // adjusted element count; elements are indexed with integers
+    size_t nelem = (size_t)r * (size_t)c;
+    m->__data = (void *)0;
+    if (nelem <= INT_MAX) {
+        nelem = ALIGNSIZE(nelem, DTYPE);
+        m->__data = calloc(nelem, sizeof(DTYPE));
+    }
     if ( !m->__data ) {
+        m->rows = m->cols = m->step = 0;
+        m->elems = (DTYPE *)0;
         m->__nbytes = 0;
         return (armas_dense_t *)0;
     }
     // convert to number of bytes
-    m->__nbytes *= sizeof(DTYPE);
+    m->__nbytes = nelem * sizeof(DTYPE);
     m->rows = r;
     m->cols = c;
     m->step = r;
-- 
2.43.0


From 069267b8feb0038b3e74945b574b042b9ed74fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:58 +0000
Subject: [PATCH 088/136] fix: release matrix structure if element allocation
 fails

---
 src/include/matrix.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/include/matrix.h b/src/include/matrix.h
index 8f723fb..418b4bc 100644
--- a/src/include/matrix.h
+++ b/src/include/matrix.h
@@ -203,7 +203,11 @@ armas_dense_t *armas_alloc(int r, int c)
     }
     m = (armas_dense_t *)malloc(sizeof(armas_dense_t));
     if (!m) return m;
-    return armas_init(m, r, c);
+    if (!armas_init(m, r, c)) {
+        free(m);
+        return (armas_dense_t *)0;
+    }
+    return m;
 }
 
 //! @brief Release matrix and its allocated space
-- 
2.43.0


From 84d99d7713428d6c13b155c3362f1794a04af4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:58 +0000
Subject: [PATCH 089/136] fix: compute sparse storage size without integer
 overflow

---
 src/include/sparse.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/sparse.h b/src/include/sparse.h
index 38ec321..f7853a5 100644
--- a/src/include/sparse.h
+++ b/src/include/sparse.h
@@ -174,7 +174,7 @@ size_t armassp_bytes_needed(int rows, int cols,
     if (kind == ARMASSP_COO)
         return nnz*sizeof(coo_elem_t);
     int n = kind == ARMASSP_CSR ? rows : cols;
-    return __align64(nnz*sizeof(DTYPE) + sizeof(int)*(nnz + n+1));
+    return __align64(nnz*sizeof(DTYPE) + sizeof(int)*((size_t)nnz + n+1));
 }
 
 /**
-- 
2.43.0


From 4299b8ade2829dfb24b9a4077c2ae2d3ca78828a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 090/136] fix: refuse malformed sparse matrix market files

---
 src/sparse/io.c | 79 +++++++++++++++++++++++++++++++------------------
 1 file changed, 51 insertions(+), 28 deletions(-)

diff --git a/src/sparse/io.c b/src/sparse/io.c
index d4bcbf6..5d29df1 100644
--- a/src/sparse/io.c
+++ b/src/sparse/io.c
@@ -26,6 +26,8 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <errno.h>
+#include <limits.h>
 
 #include "matrix.h"
 #include "sparse.h"
@@ -74,7 +76,7 @@ static inline
 char *strlower(char *s)
 {
     for (char *cp = s; *cp; cp++)
-        *cp = tolower(*cp);
+        *cp = tolower((unsigned char)*cp);
     return s;
 }
 
@@ -91,7 +93,7 @@ int armasio_mmread_banner(FILE * f, int *typecode)
 
     if (!fgets(iob, sizeof(iob), f))
         return -1;
-    if (iob[0] != '%' && iob[1] != '%')
+    if (iob[0] != '%' || iob[1] != '%')
         return -1;
 
     if ((s = strchr(iob, '\n'))) {
@@ -143,6 +145,25 @@ int armasio_mmread_banner(FILE * f, int *typecode)
     return 0;
 }
 
+/*
+ * Read non-negative integer that ends at white space or end of line.
+ */
+static
+int armasio_mmread_int(char **sp, int *val)
+{
+    char *endptr;
+
+    errno = 0;
+    long v = strtol(*sp, &endptr, 10);
+    if (endptr == *sp || errno != 0 || v < 0 || v > INT_MAX)
+        return -1;
+    if (*endptr && !isspace((unsigned char)*endptr))
+        return -1;
+    *sp = endptr;
+    *val = (int)v;
+    return 0;
+}
+
 /*
  * size row:
  * nrows ncols number-of-non-zeros|<empty>
@@ -151,30 +172,24 @@ static
 int armasio_mmread_size(FILE * f, int typecode, int *m, int *n, int *nnz)
 {
     char *iob = (char *) 0;
-    char *cp, *endptr;
-    int nread;
+    char *cp;
+    int err = -1;
     size_t ioblen = 0;
 
-    while ((nread = getline(&iob, &ioblen, f)) != -1) {
-        if (iob[0] != '%')
-            break;
-    }
-    if (isspace(iob[0]) || isdigit(iob[0])) {
+    while (getline(&iob, &ioblen, f) != -1) {
+        if (iob[0] == '%')
+            continue;
         cp = iob;
-        *m = strtol(cp, &endptr, 10);
-        cp = endptr + 1;
-        *n = strtol(cp, &endptr, 10);
-        if ((typecode & ARMAS_MM_COORDINATE) != 0) {
-            cp = endptr + 1;
-            *nnz = strtol(cp, &endptr, 10);
-        } else {
-            *nnz = 0;
-        }
-    } else {
-        *m = *n = *nnz = 0;
+        *nnz = 0;
+        err = armasio_mmread_int(&cp, m);
+        if (!err)
+            err = armasio_mmread_int(&cp, n);
+        if (!err && (typecode & ARMAS_MM_COORDINATE) != 0)
+            err = armasio_mmread_int(&cp, nnz);
+        break;
     }
     free(iob);
-    return 0;
+    return err;
 }
 
 /**
@@ -212,16 +227,19 @@ armas_sparse_t *armassp_mmload(int *typecode, FILE * f)
 
     ioblen = 0;
     iobuf = (char *) 0;
-    int nread, k = 0;
+    int k = 0;
     double v;
-    while ((nread = getline(&iobuf, &ioblen, f)) != -1 && k < nnz) {
+    while (k < nnz && getline(&iobuf, &ioblen, f) != -1) {
+        if (*iobuf == '%')
+            continue;
         bp = iobuf;
-        m = strtol(bp, &endptr, 10);
-        bp = endptr + 1;
-        n = strtol(bp, &endptr, 10);
-        bp = endptr + 1;
+        if (armasio_mmread_int(&bp, &m) < 0 || armasio_mmread_int(&bp, &n) < 0)
+            break;
         v = strtod(bp, &endptr);
-        armassp_append(A, m - 1, n - 1, v);
+        if (endptr == bp)
+            break;
+        if (armassp_append(A, m - 1, n - 1, v) < 0)
+            break;
 #if 0
         if ((tc & ARMAS_MM_SYMMETRIC) != 0 && m != n) {
             armassp_append(A, n - 1, m - 1, v);
@@ -233,6 +251,11 @@ armas_sparse_t *armassp_mmload(int *typecode, FILE * f)
     if (iobuf)
         free(iobuf);
 
+    if (k != nnz) {
+        // malformed or missing entries
+        armassp_free(A);
+        return (armas_sparse_t *) 0;
+    }
     return A;
 }
 
-- 
2.43.0


From 7835b5c4e8e352f06a84b8baf427572bc1e3ccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:32 +0000
Subject: [PATCH 091/136] fix: write sparse matrix market indices starting from
 1 and values in full

---
 src/sparse/io.c | 59 +++++++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/src/sparse/io.c b/src/sparse/io.c
index 5d29df1..b33a6c2 100644
--- a/src/sparse/io.c
+++ b/src/sparse/io.c
@@ -278,7 +278,7 @@ armas_sparse_t *armassp_mmload(int *typecode, FILE * f)
  */
 int armassp_mmdump(FILE * f, const armas_sparse_t * A, int flags)
 {
-    int n;
+    int n, nw;
     char *s = "general";
 
     if ((flags & MM_SYMMETRIC) != 0)
@@ -286,34 +286,50 @@ int armassp_mmdump(FILE * f, const armas_sparse_t * A, int flags)
 
     switch (A->kind) {
     case ARMASSP_COO:
-        n = fprintf(f, "%%%%Matrixmarket matrix coordinate real %s\n", s);
-        n += fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz);
+    case ARMASSP_CSR:
+    case ARMASSP_CSC:
+        break;
+    default:
+        return 0;
+    }
+
+    n = fprintf(f, "%%%%Matrixmarket matrix coordinate real %s\n", s);
+    nw = fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz);
+    if (n < 0 || nw < 0)
+        return -1;
+    n += nw;
+
+    // indexing starts from 1; values are written with enough digits to read them back
+    switch (A->kind) {
+    case ARMASSP_COO:
         for (int k = 0; k < A->nnz; k++) {
-            n += fprintf(f, "%d %d %.13e\n", A->elems.ep[k].i, A->elems.ep[k].j,
+            nw = fprintf(f, "%d %d %.16e\n", A->elems.ep[k].i + 1, A->elems.ep[k].j + 1,
                          A->elems.ep[k].val);
+            if (nw < 0)
+                return -1;
+            n += nw;
         }
         break;
     case ARMASSP_CSR:
-        n = fprintf(f, "%%%%Matrixmarket matrix coordinate real %s\n", s);
-        n += fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz);
-        for (int i = 0; i < A->rows; i++) {
+        for (int i = 0; i < A->nptr; i++) {
             for (int k = A->ptr[i]; k < A->ptr[i + 1]; k++) {
-                n += fprintf(f, "%d %d %.13e\n", i, A->ix[k], A->elems.v[k]);
+                nw = fprintf(f, "%d %d %.16e\n", i + 1, A->ix[k] + 1, A->elems.v[k]);
+                if (nw < 0)
+                    return -1;
+                n += nw;
             }
         }
         break;
     case ARMASSP_CSC:
-        n = fprintf(f, "%%%%Matrixmarket matrix coordinate real %s\n", s);
-        n += fprintf(f, "%d %d %d\n", A->rows, A->cols, A->nnz);
-        for (int j = 0; j < A->cols; j++) {
+        for (int j = 0; j < A->nptr; j++) {
             for (int k = A->ptr[j]; k < A->ptr[j + 1]; k++) {
-                n += fprintf(f, "%d %d %.13e\n", A->ix[k], j, A->elems.v[k]);
+                nw = fprintf(f, "%d %d %.16e\n", A->ix[k] + 1, j + 1, A->elems.v[k]);
+                if (nw < 0)
+                    return -1;
+                n += nw;
             }
         }
         break;
-    default:
-        n = 0;
-        break;
     }
     return n;
 }
@@ -322,35 +338,36 @@ int armassp_mmdump(FILE * f, const armas_sparse_t * A, int flags)
 void armassp_pprintf(FILE * f, const armas_sparse_t * A)
 {
     coo_elem_t *Ae;
-    char *s = malloc(A->rows * A->cols);
+    size_t rows = A->rows;
+    char *s = malloc(rows * A->cols);
     if (!s)
         return;
-    memset(s, '.', A->rows * A->cols);
+    memset(s, '.', rows * A->cols);
     switch (A->kind) {
     case ARMASSP_COO:
         Ae = A->elems.ep;
         for (int k = 0; k < A->nnz; k++) {
-            s[Ae[k].i + A->rows * Ae[k].j] = 'x';
+            s[Ae[k].i + rows * Ae[k].j] = 'x';
         }
         break;
     case ARMASSP_CSR:
         for (int j = 0; j < A->rows; j++) {
             for (int i = A->ptr[j]; i < A->ptr[j + 1]; i++) {
-                s[j + A->rows * A->ix[i]] = 'x';
+                s[j + rows * A->ix[i]] = 'x';
             }
         }
         break;
     case ARMASSP_CSC:
         for (int j = 0; j < A->cols; j++) {
             for (int i = A->ptr[j]; i < A->ptr[j + 1]; i++) {
-                s[A->ix[i] + A->rows * j] = 'x';
+                s[A->ix[i] + rows * j] = 'x';
             }
         }
         break;
     }
     for (int i = 0; i < A->rows; i++) {
         for (int j = 0; j < A->cols; j++) {
-            fputc(s[i + A->rows * j], f);
+            fputc(s[i + rows * j], f);
         }
         fputc('\n', f);
     }
-- 
2.43.0


From 0cbbe9e2fdd17089ec5465b853fa65a6f544042f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 092/136] fix: refuse malformed dense matrix market files

---
 src/io/iomm.c | 75 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 47 insertions(+), 28 deletions(-)

diff --git a/src/io/iomm.c b/src/io/iomm.c
index 6b155a0..0fb3315 100644
--- a/src/io/iomm.c
+++ b/src/io/iomm.c
@@ -8,6 +8,8 @@
 #include <stdlib.h>
 #include <string.h>
 #include <ctype.h>
+#include <errno.h>
+#include <limits.h>
 
 #include "dtype.h"
 
@@ -140,7 +142,7 @@ static inline
 char *strlower(char *s)
 {
     for (char *cp = s; *cp; cp++)
-        *cp = tolower(*cp);
+        *cp = tolower((unsigned char)*cp);
     return s;
 }
 
@@ -158,7 +160,7 @@ int __mmread_banner(FILE *f, int *typecode)
 
     if (!fgets(iob, sizeof(iob), f))
         return -1;
-    if (iob[0] != '%' && iob[1] != '%')
+    if (iob[0] != '%' || iob[1] != '%')
         return -1;
 
     if ((s = strchr(iob, '\n'))) {
@@ -208,6 +210,25 @@ int __mmread_banner(FILE *f, int *typecode)
     return 0;
 }
 
+/*
+ * Read non-negative integer that ends at white space or end of line.
+ */
+static
+int __mmread_int(char **sp, int *val)
+{
+    char *endptr;
+
+    errno = 0;
+    long v = strtol(*sp, &endptr, 10);
+    if (endptr == *sp || errno != 0 || v < 0 || v > INT_MAX)
+        return -1;
+    if (*endptr && !isspace((unsigned char)*endptr))
+        return -1;
+    *sp = endptr;
+    *val = (int)v;
+    return 0;
+}
+
 /*
  * size row:
  * nrows ncols number-of-non-zeros|<empty>
@@ -216,30 +237,24 @@ static
 int __mmread_size(FILE *f, int typecode, int *m, int *n, int *nnz)
 {
     char *iob = (char *)0;
-    char *cp, *endptr;
-    int nread;
+    char *cp;
+    int err = -1;
     size_t ioblen = 0;
 
-    while ((nread = getline(&iob, &ioblen, f)) != -1) {
-        if (iob[0] != '%')
-            break;
-    }
-    if (isspace(iob[0]) || isdigit(iob[0])) {
+    while (getline(&iob, &ioblen, f) != -1) {
+        if (iob[0] == '%')
+            continue;
         cp = iob;
-        *m = strtol(cp, &endptr, 10);
-        cp = endptr + 1;
-        *n = strtol(cp, &endptr, 10);
-        if ((typecode & ARMAS_MM_COORDINATE) != 0) {
-            cp = endptr + 1;
-            *nnz =strtol(cp, &endptr, 10);
-        } else {
-            *nnz = 0;
-        }
-    } else {
-        *m = *n = *nnz = 0;
+        *nnz = 0;
+        err = __mmread_int(&cp, m);
+        if (!err)
+            err = __mmread_int(&cp, n);
+        if (!err && (typecode & ARMAS_MM_COORDINATE) != 0)
+            err = __mmread_int(&cp, nnz);
+        break;
     }
     free(iob);
-    return 0;
+    return err;
 }
 
 /**
@@ -262,7 +277,7 @@ int __mmread_size(FILE *f, int typecode, int *m, int *n, int *nnz)
 int armas_mmload(armas_dense_t *A, int *flags,  FILE *f)
 {
     int typecode;
-    int m, n, nc, nnz, r, c, nelem, nread, k;
+    int m, n, nc, nnz, r, c, nelem, k;
     char *iobuf;
     size_t ioblen;
     DTYPE v;
@@ -284,7 +299,8 @@ int armas_mmload(armas_dense_t *A, int *flags,  FILE *f)
         return -1;
     }
 
-    armas_init(A, m, n);
+    if (!armas_init(A, m, n))
+        return -1;
 
     // number of elements to expect
     nelem = nnz;
@@ -296,12 +312,12 @@ int armas_mmload(armas_dense_t *A, int *flags,  FILE *f)
     c =  k = 0;
     r = -1;
     nc = m;  // for lower triangular storage index for next column
-    while ((nread = getline(&iobuf, &ioblen, f)) != -1 && k < nelem) {
+    while (k < nelem && getline(&iobuf, &ioblen, f) != -1) {
         if (*iobuf == '%')
             continue;
         if ((typecode & ARMAS_MM_ARRAY) != 0) {
             //v = strtod(iobuf, &endptr);
-            if (read_value(iobuf, &v) < 0)
+            if (read_value(iobuf, &v) != 1)
                 goto endloop;
 
             if ((typecode & ARMAS_MM_SYMMETRIC) != 0) {
@@ -321,10 +337,11 @@ int armas_mmload(armas_dense_t *A, int *flags,  FILE *f)
             }
         }
         else {
-            if (read_line(iobuf, &r, &c, &v) < 0)
+            if (read_line(iobuf, &r, &c, &v) != 3)
                 goto endloop;
             // indexing starting from 1
-            r--; c--;
+            r = r > 0 ? r - 1 : -1;
+            c = c > 0 ? c - 1 : -1;
         }
         if (r >= 0 && r < A->rows && c >= 0 && c < A->cols)
             armas_set_unsafe(A, r, c, v);
@@ -336,8 +353,10 @@ int armas_mmload(armas_dense_t *A, int *flags,  FILE *f)
         free(iobuf);
 
     // assert k == m*n; for general matrix; k == n*(n+1)/2 for lower triangular
-    if (k != nelem)
+    if (k != nelem) {
+        armas_release(A);
         return -1;
+    }
 
     return typecode;
 }
-- 
2.43.0


From e7c52caf3eb4ac51f72fe3fe2b3c28fa8c49688e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 093/136] fix: report storage layout of loaded matrix market
 file

---
 src/io/iomm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/iomm.c b/src/io/iomm.c
index 0fb3315..80caf87 100644
--- a/src/io/iomm.c
+++ b/src/io/iomm.c
@@ -285,6 +285,9 @@ int armas_mmload(armas_dense_t *A, int *flags,  FILE *f)
     if (__mmread_banner(f, &typecode) < 0) {
         return -1;
     }
+    if (flags)
+        *flags = (typecode & ARMAS_MM_SYMMETRIC) != 0 ? ARMAS_SYMM : 0;
+
     // MM_DTYPE is element type 
     if ((typecode & ARMAS_MM_MATRIX) == 0 ||
         (typecode & MM_DTYPE) == 0) {
-- 
2.43.0


From 7034ce738aa4af0428d5d45176f40115d4bad7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 094/136] fix: write dense matrix market values in full

---
 src/io/iomm.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/io/iomm.c b/src/io/iomm.c
index 80caf87..a03eff9 100644
--- a/src/io/iomm.c
+++ b/src/io/iomm.c
@@ -369,18 +369,25 @@ int armas_mmdump(FILE *f, const armas_dense_t *A, int flags)
 {
     char *s = "general";
     char *t = TYPE_STRING;
-    int n, j, k;
+    int n, nw, j, k;
 
     if  ((flags & ARMAS_SYMM) != 0)
         s = "symmetric";
 
     n  = fprintf(f, "%%%%Matrixmarket matrix array %s %s\n", t, s);
-    n += fprintf(f, "%d %d\n", A->rows, A->cols);
+    nw = fprintf(f, "%d %d\n", A->rows, A->cols);
+    if (n < 0 || nw < 0)
+        return -1;
+    n += nw;
 
     for (j = 0; j < A->cols; j++) {
         k = (flags & ARMAS_SYMM) != 0 ? j : 0;
         for ( ; k < A->rows; k++) {
-            n += fprintf(f, "%.13e\n", armas_get_unsafe(A, k, j));
+            // enough digits to read the same value back
+            nw = fprintf(f, "%.16e\n", armas_get_unsafe(A, k, j));
+            if (nw < 0)
+                return -1;
+            n += nw;
         }
     }
     return n;
-- 
2.43.0


From 1570c8ce0869f1d89866b7b87a3c66caa8b91110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 095/136] fix: read string streams without writing to them

---
 src/io/ios.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/io/ios.c b/src/io/ios.c
index 9a28fac..c4dd8e6 100644
--- a/src/io/ios.c
+++ b/src/io/ios.c
@@ -46,7 +46,7 @@ int wb_getc(void *ptr)
 {
     struct armas_wbuf *wb = (struct armas_wbuf *)ptr;
     if (wb->offset < wb->bytes)
-        return wb->buf[wb->offset++];
+        return (unsigned char)wb->buf[wb->offset++];
     return -1;
 }
 
@@ -54,8 +54,9 @@ static
 void wb_ungetc(void *ptr, int c)
 {
     struct armas_wbuf *wb = (struct armas_wbuf *)ptr;
-    if (wb->offset > 0)
-        wb->buf[--wb->offset] = c;
+    // a character read from the buffer is still there; do not write to constant strings
+    if (wb->offset > 0 && wb->buf[--wb->offset] != (char)c)
+        wb->buf[wb->offset] = c;
 }
 
 static
-- 
2.43.0


From 922b3619c74f749c82f7fe5014deac9d1769324a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 096/136] fix: drop JSON coordinate elements outside the matrix

---
 src/io/json_base.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/json_base.c b/src/io/json_base.c
index 1e8a6b4..d0e7401 100644
--- a/src/io/json_base.c
+++ b/src/io/json_base.c
@@ -147,7 +147,7 @@ int armas_json_read_coorddata(armas_dense_t *A, armas_iostream_t *ios, char *iob
             return -1;
 
         n++;
-        if (row >= 0 && row <= A->rows && col >= 0 && col <= A->cols)
+        if (row >= 0 && row < A->rows && col >= 0 && col < A->cols)
             armas_set_unsafe(A, row, col, (DTYPE)dval);
 
         tok = armas_json_read_token(iob, ioblen, ios);
-- 
2.43.0


From 4b4ec62b2efce499bbdb412ddfacfbb55a4c0726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 097/136] fix: check dimensions in JSON matrices

---
 src/io/json_base.c | 52 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/src/io/json_base.c b/src/io/json_base.c
index d0e7401..8d73ea9 100644
--- a/src/io/json_base.c
+++ b/src/io/json_base.c
@@ -20,6 +20,10 @@
 
 //! @cond
 #include <stdio.h>
+#include <errno.h>
+#include <limits.h>
+#include <stdlib.h>
+#include <string.h>
 #include "matrix.h"
 //! @endcond
 
@@ -111,6 +115,20 @@ enum {
     MEMBER_DTA_VAL
 };
 
+/* Convert number token to an integer. */
+static
+int armas_json_int(const char *iob, int *val)
+{
+    char *endptr;
+
+    errno = 0;
+    long v = strtol(iob, &endptr, 10);
+    if (endptr == iob || *endptr != '\0' || errno != 0 || v < INT_MIN || v > INT_MAX)
+        return -1;
+    *val = (int)v;
+    return 0;
+}
+
 static
 int armas_json_read_coord(int *row, int *col, double *dval, armas_iostream_t *ios, char *iob, size_t ioblen)
 {
@@ -120,12 +138,14 @@ int armas_json_read_coord(int *row, int *col, double *dval, armas_iostream_t *io
         return -1;
     if ((tok = armas_json_read_token(iob, ioblen, ios)) != ARMAS_JSON_NUMBER)
         return -1;
-    *row = atoi(iob);
+    if (armas_json_int(iob, row) < 0)
+        return -1;
     if ((tok = armas_json_read_token(iob, ioblen, ios)) != ',')
         return -1;
     if ((tok = armas_json_read_token(iob, ioblen, ios)) != ARMAS_JSON_NUMBER)
         return -1;
-    *col = atoi(iob);
+    if (armas_json_int(iob, col) < 0)
+        return -1;
     if ((tok = armas_json_read_token(iob, ioblen, ios)) != ',')
         return -1;
     if ((tok = armas_json_read_token(iob, ioblen, ios)) != ARMAS_JSON_NUMBER)
@@ -263,25 +283,25 @@ int armas_json_read(armas_dense_t **A, armas_iostream_t *ios)
                 }
                 return -1;
             }
-            if (strncmp(iob, "rows", 4) == 0) {
+            if (strcmp(iob, "rows") == 0) {
                 if ((member_bits & HAVE_ROWS) != 0)
                     return -4;
                 state = MEMBER_ROW_SEP;
             }
-            else if (strncmp(iob, "cols", 4) == 0) {
+            else if (strcmp(iob, "cols") == 0) {
                 if ((member_bits & HAVE_COLS) != 0)
                     return -4;
                 state = MEMBER_COL_SEP;
             }
-            else if (strncmp(iob, "data", 4) == 0) {
+            else if (strcmp(iob, "data") == 0) {
                 state = MEMBER_DTA_SEP;
             }
-            else if (strncmp(iob, "nnz", 3) == 0) {
+            else if (strcmp(iob, "nnz") == 0) {
                 if ((member_bits & HAVE_NNZ) != 0)
                     return -4;
                 state = MEMBER_NNZ_SEP;
             }
-            else if (strncmp(iob, "flags", 5) == 0) {
+            else if (strcmp(iob, "flags") == 0) {
                 if ((member_bits & HAVE_FLAGS) != 0)
                     return -4;
                 state = MEMBER_FLG_SEP;
@@ -306,7 +326,8 @@ int armas_json_read(armas_dense_t **A, armas_iostream_t *ios)
         case MEMBER_ROW_VAL:
             if (tok != ARMAS_JSON_NUMBER)
                 return -1;
-            rows = atoi(iob);
+            if (armas_json_int(iob, &rows) < 0 || rows < 0)
+                return -1;
             member_bits |= HAVE_ROWS;
             state = MEMBER_SEP;
             break;
@@ -319,7 +340,8 @@ int armas_json_read(armas_dense_t **A, armas_iostream_t *ios)
         case MEMBER_COL_VAL:
             if (tok != ARMAS_JSON_NUMBER)
                 return -1;
-            cols = atoi(iob);
+            if (armas_json_int(iob, &cols) < 0 || cols < 0)
+                return -1;
             member_bits |= HAVE_COLS;
             state = MEMBER_SEP;
             break;
@@ -332,7 +354,8 @@ int armas_json_read(armas_dense_t **A, armas_iostream_t *ios)
         case MEMBER_NNZ_VAL:
             if (tok != ARMAS_JSON_NUMBER)
                 return -1;
-            nnz = atoi(iob);
+            if (armas_json_int(iob, &nnz) < 0)
+                return -1;
             member_bits |= HAVE_NNZ;
             state = MEMBER_SEP;
             break;
@@ -345,7 +368,8 @@ int armas_json_read(armas_dense_t **A, armas_iostream_t *ios)
         case MEMBER_FLG_VAL:
             if (tok != ARMAS_JSON_NUMBER)
                 return -1;
-            flags = atoi(iob);
+            if (armas_json_int(iob, &flags) < 0)
+                return -1;
             member_bits |= HAVE_FLAGS;
             state = MEMBER_SEP;
             break;
@@ -377,7 +401,11 @@ int armas_json_read(armas_dense_t **A, armas_iostream_t *ios)
         if (!aa)
             return -1;
     }
-    armas_init(aa, rows, cols);
+    if (!armas_init(aa, rows, cols)) {
+        if (have_new)
+            free(aa);
+        return -1;
+    }
 
     if (armas_json_read_data(aa, ios, iob, sizeof(iob)) < 0)
         goto error_exit;
-- 
2.43.0


From e15800f46229d545ef235b769442a98effd95491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 098/136] fix: refuse malformed JSON tokens

---
 src/io/json_reader.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/io/json_reader.c b/src/io/json_reader.c
index 6f23290..d7bfbf8 100644
--- a/src/io/json_reader.c
+++ b/src/io/json_reader.c
@@ -7,6 +7,7 @@
 
 
 #include <stdio.h>
+#include <stdlib.h>
 #include <ctype.h>
 
 #include "armas.h"
@@ -65,8 +66,11 @@
 enum {
     JSON_STATE_VALUE = 0,
     JSON_STATE_STRING,
+    JSON_STATE_SIGN,
     JSON_STATE_NUMBER,
+    JSON_STATE_FRAC,
     JSON_STATE_EXP,
+    JSON_STATE_EXPSIGN,
     JSON_STATE_EXP1,
     JSON_STATE_ESCAPE,
     JSON_STATE_HEX1,
@@ -141,6 +145,9 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
             case 'b':
                 *bp++ = '\b';
                 break;
+            case 'f':
+                *bp++ = '\f';
+                break;
             case 'n':
                 *bp++ = '\n';
                 break;
@@ -185,11 +192,21 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
                 return ARMAS_JSON_EINVAL;
             *cp++ = c;
             *cp = '\0';
-            c = atoi(lit) & 0xff;
+            c = strtol(lit, (char **)0, 16) & 0xff;
             *bp++ = c;
             state = JSON_STATE_STRING;
             break;
 
+        case JSON_STATE_SIGN:
+        case JSON_STATE_FRAC:
+        case JSON_STATE_EXPSIGN:
+            // must get at least one digit after sign or decimal point
+            if (!isdigit(c))
+                return ARMAS_JSON_EINVAL;
+            *bp++ = c;
+            state = state == JSON_STATE_EXPSIGN ? JSON_STATE_EXP1 : JSON_STATE_NUMBER;
+            break;
+
         case JSON_STATE_NUMBER:
             switch (c) {
             case ',':
@@ -213,6 +230,7 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
                     return ARMAS_JSON_EINVAL;
                 *bp++ = c;
                 is_frac = 1;
+                state = JSON_STATE_FRAC;
                 break;
             default:
                 if (isdigit(c)) {
@@ -231,6 +249,7 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
             case '-':
             case '+':
                 *bp++ = c;
+                state = JSON_STATE_EXPSIGN;
                 break;
             default:
                 if (isdigit(c)) {
@@ -360,10 +379,10 @@ int armas_json_read_token(char *buf, size_t len, armas_iostream_t *reader)
                 }
                 if (isdigit(c) || c == '-') {
                     *bp++ = c;
-                    state = JSON_STATE_NUMBER;
+                    state = c == '-' ? JSON_STATE_SIGN : JSON_STATE_NUMBER;
                     break;
                 }
-                break;
+                return ARMAS_JSON_EINVAL;
             }
         }
         if ((size_t)(bp - buf) >= len-1) {
-- 
2.43.0


From 008884ade4daa134f7f44b6440e071624eac8ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:32 +0000
Subject: [PATCH 099/136] fix: write JSON numbers in full and refuse non-finite
 ones

---
 src/io/json_writer.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/io/json_writer.c b/src/io/json_writer.c
index 4e40bf4..6a84896 100644
--- a/src/io/json_writer.c
+++ b/src/io/json_writer.c
@@ -20,7 +20,7 @@
  */
 int armas_json_write_token(int token, const void *ptr, size_t len, armas_iostream_t *writer)
 {
-    char buf[64], *cp, *numformat = "%.14g";
+    char buf[64], *cp, *numformat = "%.17g";
     int n;
     double v;
 
@@ -90,17 +90,18 @@ int armas_json_write_token(int token, const void *ptr, size_t len, armas_iostrea
             break;
         case sizeof(float):
             v = (double)(*((float *)ptr));
-            numformat = "%.8g";
+            numformat = "%.9g";
             break;
         default:
             return -1;
         }
 
-        if (isfinite(v)) {
-            n = snprintf(buf, sizeof(buf), numformat, v);
-            for (int k = 0; k < n; k++)
-                JSON_ONERROR(armas_ios_putchar(writer, buf[k]));
-        }
+        n = snprintf(buf, sizeof(buf), numformat, v);
+        // there is no JSON number for nan or infinity
+        if (!isdigit((unsigned char)buf[n-1]))
+            return -1;
+        for (int k = 0; k < n; k++)
+            JSON_ONERROR(armas_ios_putchar(writer, buf[k]));
         break;
     case ARMAS_JSON_TRUE:
         JSON_ONERROR(armas_ios_putchar(writer, 't'));
-- 
2.43.0


From c86129d0ef0f807e34ec62b5476acb3f0f53f654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:24 +0000
Subject: [PATCH 100/136] fix: report success when a non-ASCII byte is written
 to a buffer

---
 src/io/ios.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/ios.c b/src/io/ios.c
index c4dd8e6..cb5d270 100644
--- a/src/io/ios.c
+++ b/src/io/ios.c
@@ -65,7 +65,7 @@ int wb_putc(void *ptr, int c)
     struct armas_wbuf *wb = (struct armas_wbuf *)ptr;
     if (wb->offset < wb->bytes) {
         wb->buf[wb->offset++] = c;
-        return c;
+        return (unsigned char)c;
     }
     return -1;
 }
-- 
2.43.0


From 58615ce9b11ace65a51927314955445618d7e2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:06 +0000
Subject: [PATCH 101/136] fix: do not read past the end of a string token

---
 src/io/json_writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/json_writer.c b/src/io/json_writer.c
index 6a84896..25543fb 100644
--- a/src/io/json_writer.c
+++ b/src/io/json_writer.c
@@ -36,7 +36,7 @@ int armas_json_write_token(int token, const void *ptr, size_t len, armas_iostrea
     case ARMAS_JSON_STRING:
         cp = (char *)ptr;
         armas_ios_putchar(writer, '"');
-        for (int k = 0; *cp && k < len; k++, cp++) {
+        for (size_t k = 0; k < len && *cp; k++, cp++) {
             switch (*cp) {
             case '\t':
                 JSON_ONERROR(armas_ios_putchar(writer, '\\'));
-- 
2.43.0


From cfb4c3d469ef99ecbc6d29a6b076bf7d3fa573b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:39 +0000
Subject: [PATCH 102/136] fix: take vectors with negative increments from their
 last element

---
 src/compat/gemv.c    | 28 ++++------------------------
 src/compat/ger.c     | 28 ++++------------------------
 src/compat/symv.c    | 26 ++++----------------------
 src/compat/syr.c     | 12 ++----------
 src/compat/syr2.c    | 24 ++++--------------------
 src/compat/trmv.c    | 12 ++----------
 src/compat/trsv.c    | 12 ++----------
 src/include/compat.h | 18 ++++++++++++++++++
 8 files changed, 40 insertions(+), 120 deletions(-)

diff --git a/src/compat/gemv.c b/src/compat/gemv.c
index c2b6dbb..c5d8c54 100644
--- a/src/compat/gemv.c
+++ b/src/compat/gemv.c
@@ -38,18 +38,8 @@ void blas_gemvf(char *trans, int *m, int *n, DTYPE * alpha, DTYPE * A,
     ylen = flags & ARMAS_TRANS ? *n : *m;
     xlen = flags & ARMAS_TRANS ? *m : *n;
     armas_make(&a, *m, *n, *lda, A);
-    if (*incy == 1) {
-        // column vector
-        armas_make(&y, ylen, 1, ylen, Y);
-    } else {
-        // row vector
-        armas_make(&y, 1, ylen, *incy, Y);
-    }
-    if (*incx == 1) {
-        armas_make(&x, xlen, 1, xlen, X);
-    } else {
-        armas_make(&x, 1, xlen, *incx, X);
-    }
+    compat_vec(&y, ylen, Y, *incy);
+    compat_vec(&x, xlen, X, *incx);
     armas_mvmult(*beta, &y, *alpha, &a, &x, flags, conf);
 }
 #endif
@@ -82,18 +72,8 @@ void cblas_gemv(const enum CBLAS_ORDER order, const enum CBLAS_TRANS trans,
         break;
     }
 
-    if (incy == 1) {
-        // column vector
-        armas_make(&y, ylen, 1, ylen, Y);
-    } else {
-        // row vector
-        armas_make(&y, 1, ylen, incy, Y);
-    }
-    if (incx == 1) {
-        armas_make(&x, xlen, 1, xlen, X);
-    } else {
-        armas_make(&x, 1, xlen, incx, X);
-    }
+    compat_vec(&y, ylen, Y, incy);
+    compat_vec(&x, xlen, X, incx);
     armas_mvmult(beta, &y, alpha, &Aa, &x, flags, conf);
 }
 #endif
diff --git a/src/compat/ger.c b/src/compat/ger.c
index a68f2ad..969273f 100644
--- a/src/compat/ger.c
+++ b/src/compat/ger.c
@@ -31,18 +31,8 @@ void blas_gerf(int *m, int *n, DTYPE * alpha, DTYPE * X,
     armas_dense_t y, a, x;
 
     armas_make(&a, *m, *n, *lda, A);
-    if (*incy == 1) {
-        // column vector
-        armas_make(&y, *n, 1, *n, Y);
-    } else {
-        // row vector
-        armas_make(&y, 1, *n, *incy, Y);
-    }
-    if (*incx == 1) {
-        armas_make(&x, *m, 1, *m, X);
-    } else {
-        armas_make(&x, 1, *m, *incx, X);
-    }
+    compat_vec(&y, *n, Y, *incy);
+    compat_vec(&x, *m, X, *incx);
     armas_mvupdate(ONE, &a, *alpha, &x, &y, conf);
 }
 #endif
@@ -55,18 +45,8 @@ void cblas_ger(const enum CBLAS_ORDER order, const int M,
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t y, a, x;
 
-    if (incy == 1) {
-        // column vector
-        armas_make(&y, N, 1, N, Y);
-    } else {
-        // row vector
-        armas_make(&y, 1, N, incy, Y);
-    }
-    if (incx == 1) {
-        armas_make(&x, M, 1, M, X);
-    } else {
-        armas_make(&x, 1, M, incx, X);
-    }
+    compat_vec(&y, N, Y, incy);
+    compat_vec(&x, M, X, incx);
 
     if (order == CblasRowMajor) {
         armas_make(&a, N, M, lda, A);
diff --git a/src/compat/symv.c b/src/compat/symv.c
index c5e1649..d9c0021 100644
--- a/src/compat/symv.c
+++ b/src/compat/symv.c
@@ -43,18 +43,8 @@ void blas_symvf(char *uplo, int *n, DTYPE * alpha, DTYPE * A,
     }
 
     armas_make(&a, *n, *n, *lda, A);
-    if (*incy == 1) {
-        // column vector
-        armas_make(&y, *n, 1, *n, Y);
-    } else {
-        // row vector
-        armas_make(&y, 1, *n, *incy, Y);
-    }
-    if (*incx == 1) {
-        armas_make(&x, *n, 1, *n, X);
-    } else {
-        armas_make(&x, 1, *n, *incx, X);
-    }
+    compat_vec(&y, *n, Y, *incy);
+    compat_vec(&x, *n, X, *incx);
     armas_mvmult_sym(*beta, &y, *alpha, &a, &x, flags, conf);
 }
 #endif
@@ -78,16 +68,8 @@ void cblas_symv(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
         break;
     }
     armas_make(&Aa, N, N, lda, A);
-    if (incx == 1) {
-        armas_make(&x, N, 1, N, X);
-    } else {
-        armas_make(&x, 1, N, incx, X);
-    }
-    if (incy == 1) {
-        armas_make(&y, N, 1, N, Y);
-    } else {
-        armas_make(&y, 1, N, incy, Y);
-    }
+    compat_vec(&x, N, X, incx);
+    compat_vec(&y, N, Y, incy);
     armas_mvmult_sym(beta, &y, alpha, &Aa, &x, flags, &conf);
 }
 #endif
diff --git a/src/compat/syr.c b/src/compat/syr.c
index 0d9dd7f..a8ab228 100644
--- a/src/compat/syr.c
+++ b/src/compat/syr.c
@@ -34,11 +34,7 @@ void blas_syrf(char *uplo, int *n, DTYPE * alpha, DTYPE * X,
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
 
     armas_make(&a, *n, *n, *lda, A);
-    if (*incx == 1) {
-        armas_make(&x, *n, 1, *n, X);
-    } else {
-        armas_make(&x, 1, *n, *incx, X);
-    }
+    compat_vec(&x, *n, X, *incx);
     armas_mvupdate_sym(ONE, &a, *alpha, &x, flags, conf);
 }
 #endif
@@ -59,11 +55,7 @@ void cblas_syr(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
     }
 
     armas_make(&Aa, N, N, lda, A);
-    if (incx == 1) {
-        armas_make(&x, N, 1, N, X);
-    } else {
-        armas_make(&x, 1, N, incx, X);
-    }
+    compat_vec(&x, N, X, incx);
     armas_mvupdate_sym(ONE, &Aa, alpha, &x, flags, conf);
 }
 #endif
diff --git a/src/compat/syr2.c b/src/compat/syr2.c
index 643ff7d..95e4df7 100644
--- a/src/compat/syr2.c
+++ b/src/compat/syr2.c
@@ -34,16 +34,8 @@ void blas_syr2f(char *uplo, int *n, DTYPE * alpha, DTYPE * X,
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
 
     armas_make(&a, *n, *n, *lda, A);
-    if (*incx == 1) {
-        armas_make(&x, *n, 1, *n, X);
-    } else {
-        armas_make(&x, 1, *n, *incx, X);
-    }
-    if (*incy == 1) {
-        armas_make(&y, *n, 1, *n, Y);
-    } else {
-        armas_make(&y, 1, *n, *incy, Y);
-    }
+    compat_vec(&x, *n, X, *incx);
+    compat_vec(&y, *n, Y, *incy);
     armas_mvupdate2_sym(ONE, &a, *alpha, &x, &y, flags, conf);
 }
 #endif
@@ -67,16 +59,8 @@ void cblas_syr2(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
         break;
     }
     armas_make(&Aa, N, N, lda, A);
-    if (incx == 1) {
-        armas_make(&x, N, 1, N, X);
-    } else {
-        armas_make(&x, 1, N, incx, X);
-    }
-    if (incy == 1) {
-        armas_make(&y, N, 1, N, Y);
-    } else {
-        armas_make(&y, 1, N, incy, Y);
-    }
+    compat_vec(&x, N, X, incx);
+    compat_vec(&y, N, Y, incy);
     armas_mvupdate2_sym(ONE, &Aa, alpha, &x, &y, flags, conf);
 }
 #endif
diff --git a/src/compat/trmv.c b/src/compat/trmv.c
index 11eaa66..c6f9084 100644
--- a/src/compat/trmv.c
+++ b/src/compat/trmv.c
@@ -46,11 +46,7 @@ void blas_trmvf(char *uplo, char *trans, char *diag, int *n, DTYPE * A,
         flags |= ARMAS_UNIT;
 
     armas_make(&a, *n, *n, *lda, A);
-    if (*incx == 1) {
-        armas_make(&x, *n, 1, *n, X);
-    } else {
-        armas_make(&x, 1, *n, *incx, X);
-    }
+    compat_vec(&x, *n, X, *incx);
     armas_mvmult_trm(&x, ONE, &a, flags, conf);
 }
 #endif
@@ -81,11 +77,7 @@ void cblas_trmv(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
             flags |= ARMAS_UNIT;
         break;
     }
-    if (incx == 1) {
-        armas_make(&x, N, 1, N, X);
-    } else {
-        armas_make(&x, 1, N, incx, X);
-    }
+    compat_vec(&x, N, X, incx);
     armas_make(&Aa, N, N, lda, A);
     armas_mvmult_trm(&x, alpha, &Aa, flags, conf);
 }
diff --git a/src/compat/trsv.c b/src/compat/trsv.c
index 96907f9..9398992 100644
--- a/src/compat/trsv.c
+++ b/src/compat/trsv.c
@@ -46,11 +46,7 @@ void blas_trsvf(char *uplo, char *trans, char *diag, int *n, DTYPE * A,
         flags |= ARMAS_UNIT;
 
     armas_make(&a, *n, *n, *lda, A);
-    if (*incx == 1) {
-        armas_make(&x, *n, 1, *n, X);
-    } else {
-        armas_make(&x, 1, *n, *incx, X);
-    }
+    compat_vec(&x, *n, X, *incx);
     armas_mvsolve_trm(&x, ONE, &a, flags, conf);
 }
 #endif
@@ -81,11 +77,7 @@ void cblas_trsv(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
             flags |= ARMAS_UNIT;
         break;
     }
-    if (incx == 1) {
-        armas_make(&x, N, 1, N, X);
-    } else {
-        armas_make(&x, 1, N, incx, X);
-    }
+    compat_vec(&x, N, X, incx);
     armas_make(&Aa, N, N, lda, A);
     armas_mvsolve_trm(&x, alpha, &Aa, flags, conf);
 }
diff --git a/src/include/compat.h b/src/include/compat.h
index 1e08c94..b5790da 100644
--- a/src/include/compat.h
+++ b/src/include/compat.h
@@ -70,5 +70,23 @@ enum CBLAS_SIDE		{CblasLeft=141, CblasRight=142};
 
 #endif  /* FLOAT64 */
 
+#include "matrix.h"
+
+/*
+ * Vector of N elements with standard increment. With negative increment the first element
+ * is the last one in memory.
+ */
+static inline
+void compat_vec(armas_dense_t *x, int n, DTYPE *X, int incx)
+{
+    if (n <= 0) {
+        armas_make(x, 0, 0, 0, (DTYPE *)0);
+    } else if (incx == 1) {
+        armas_make(x, n, 1, n, X);
+    } else {
+        armas_make(x, 1, n, incx, incx < 0 ? &X[-(long)(n - 1)*incx] : X);
+    }
+}
+
 #endif  /* CONFIG_COMPAT */
 #endif  /* ARMAS_COMPAT_H */
-- 
2.43.0


From c3668c862c8b04ea50db555223ab4108e1ff0edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:39 +0000
Subject: [PATCH 103/136] fix: take arguments of dscal in standard order

---
 src/compat/scal.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compat/scal.c b/src/compat/scal.c
index 68813e4..950a44f 100644
--- a/src/compat/scal.c
+++ b/src/compat/scal.c
@@ -24,7 +24,7 @@
 #include "matrix.h"
 
 #if defined(blas_scalf)
-void blas_scalf(int *n, DTYPE * X, int *incx, DTYPE * alpha)
+void blas_scalf(int *n, DTYPE * alpha, DTYPE * X, int *incx)
 {
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
-- 
2.43.0


From c45fbce2035c3394cdbee0f90d8302f05943b0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:39 +0000
Subject: [PATCH 104/136] fix: return at once for non-positive length or
 increment

---
 src/compat/asum.c  | 4 ++++
 src/compat/iamax.c | 4 ++++
 src/compat/nrm2.c  | 4 ++++
 src/compat/scal.c  | 2 ++
 4 files changed, 14 insertions(+)

diff --git a/src/compat/asum.c b/src/compat/asum.c
index e606841..4d709b8 100644
--- a/src/compat/asum.c
+++ b/src/compat/asum.c
@@ -29,6 +29,8 @@ DTYPE blas_asumf(int *n, DTYPE * X, int *incx)
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
 
+    if (*n <= 0 || *incx <= 0)
+        return ZERO;
     if (*incx == 1) {
         armas_make(&x, *n, 1, *n, X);
     } else {
@@ -44,6 +46,8 @@ DTYPE cblas_asum(const int N, DTYPE * X, const int incx)
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
 
+    if (N <= 0 || incx <= 0)
+        return ZERO;
     if (incx == 1) {
         armas_make(&x, N, 1, N, X);
     } else {
diff --git a/src/compat/iamax.c b/src/compat/iamax.c
index fd407a6..fbd9f9e 100644
--- a/src/compat/iamax.c
+++ b/src/compat/iamax.c
@@ -29,6 +29,8 @@ int blas_iamaxf(int *n, DTYPE * X, int *incx)
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
 
+    if (*n <= 0 || *incx <= 0)
+        return 0;
     if (*incx == 1) {
         armas_make(&x, *n, 1, *n, X);
     } else {
@@ -44,6 +46,8 @@ int cblas_iamax(int N, DTYPE * X, int incx)
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
 
+    if (N <= 0 || incx <= 0)
+        return 0;
     if (incx == 1) {
         armas_make(&x, N, 1, N, X);
     } else {
diff --git a/src/compat/nrm2.c b/src/compat/nrm2.c
index cb1ac42..0ad5b60 100644
--- a/src/compat/nrm2.c
+++ b/src/compat/nrm2.c
@@ -29,6 +29,8 @@ DTYPE blas_nrm2f(int *n, DTYPE * X, int *incx)
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
 
+    if (*n <= 0 || *incx <= 0)
+        return ZERO;
     if (*incx == 1) {
         armas_make(&x, *n, 1, *n, X);
     } else {
@@ -44,6 +46,8 @@ DTYPE cblas_nrm2(int N, DTYPE * X, int incx)
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
 
+    if (N <= 0 || incx <= 0)
+        return ZERO;
     if (incx == 1) {
         armas_make(&x, N, 1, N, X);
     } else {
diff --git a/src/compat/scal.c b/src/compat/scal.c
index 950a44f..90e6be0 100644
--- a/src/compat/scal.c
+++ b/src/compat/scal.c
@@ -29,6 +29,8 @@ void blas_scalf(int *n, DTYPE * alpha, DTYPE * X, int *incx)
     armas_conf_t *conf = armas_conf_default();
     armas_dense_t x;
 
+    if (*n <= 0 || *incx <= 0)
+        return;
     if (*incx == 1) {
         armas_make(&x, *n, 1, *n, X);
     } else {
-- 
2.43.0


From 683e171533c5136f562443b34430d2ffb7380fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:40 +0000
Subject: [PATCH 105/136] fix: return Fortran index from idamax

---
 src/compat/iamax.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compat/iamax.c b/src/compat/iamax.c
index fbd9f9e..5463558 100644
--- a/src/compat/iamax.c
+++ b/src/compat/iamax.c
@@ -36,7 +36,8 @@ int blas_iamaxf(int *n, DTYPE * X, int *incx)
     } else {
         armas_make(&x, 1, *n, *incx, X);
     }
-    return armas_iamax(&x, conf);
+    // Fortran indexing starts from one
+    return armas_iamax(&x, conf) + 1;
 }
 #endif
 
-- 
2.43.0


From a60a652b2c898b9d884529da0c5efa31c18ee850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:40 +0000
Subject: [PATCH 106/136] fix: return r and z from drotg and give r the
 standard sign

---
 src/compat/rot.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/compat/rot.c b/src/compat/rot.c
index 41aea13..ee41a84 100644
--- a/src/compat/rot.c
+++ b/src/compat/rot.c
@@ -73,7 +73,24 @@ void blas_rotf(int *n, DTYPE * X, int *incx, DTYPE * Y, int *incy, DTYPE * c,
 void blas_rotgf(DTYPE * sa, DTYPE * sb, DTYPE * c, DTYPE * s)
 {
     DTYPE r;
+    DTYPE z = ONE;
+    int a_larger = ABS(*sa) > ABS(*sb);
+
     armas_gvcompute(c, s, &r, *sa, *sb);
+    // sign of r is sign of the larger element
+    if (!a_larger && ((r < ZERO && *sb > ZERO) || (r > ZERO && *sb < ZERO))) {
+        r = -r;
+        *c = -*c;
+        *s = -*s;
+    }
+    if (a_larger)
+        z = *s;
+    else if (*sb == ZERO)
+        z = ZERO;
+    else if (*c != ZERO)
+        z = ONE / *c;
+    *sa = r;
+    *sb = z;
 }
 #endif
 
-- 
2.43.0


From 526cf162e028a1379c9a3cd453a83d8d84221819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:40 +0000
Subject: [PATCH 107/136] fix: step through vectors with zero and mixed
 increments correctly

---
 src/compat/axpy.c | 9 ++++++---
 src/compat/copy.c | 7 +++++--
 src/compat/dot.c  | 9 ++++++---
 src/compat/rot.c  | 7 +++++--
 src/compat/swap.c | 9 ++++++---
 5 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/compat/axpy.c b/src/compat/axpy.c
index 1737ce2..464949c 100644
--- a/src/compat/axpy.c
+++ b/src/compat/axpy.c
@@ -32,6 +32,9 @@ void compat_axpy(const int n, const DTYPE alpha, DTYPE * X, const int incx,
     int ix, iy, nx, ny, k;
     DTYPE xv, yv;
 
+    if (n <= 0 || alpha == ZERO)
+        return;
+
     ix = incx < 0 ? -incx : incx;
     iy = incy < 0 ? -incy : incy;
 
@@ -45,15 +48,15 @@ void compat_axpy(const int n, const DTYPE alpha, DTYPE * X, const int incx,
     } else {
         armas_make(&y, 1, n, iy, Y);
     }
-    if (incx * incy > 0) {
+    if ((incx > 0 && incy > 0) || (incx < 0 && incy < 0)) {
         armas_axpy(&y, alpha, &x, conf);
         return;
     }
     // if not same sign then iteration direction is different (so clever)
     ix = incx < 0 ? n - 1 : 0;
     iy = incy < 0 ? n - 1 : 0;
-    nx = ix == 0 ? 1 : -1;
-    ny = iy == 0 ? 1 : -1;
+    nx = incx < 0 ? -1 : 1;
+    ny = incy < 0 ? -1 : 1;
     for (k = 0; k < n; ix += nx, iy += ny, k++) {
         xv = armas_get_at_unsafe(&x, ix);
         yv = armas_get_at_unsafe(&y, iy);
diff --git a/src/compat/copy.c b/src/compat/copy.c
index c3287ea..4b89705 100644
--- a/src/compat/copy.c
+++ b/src/compat/copy.c
@@ -32,6 +32,9 @@ void copy_compat(const int N, DTYPE * X, const int incx, DTYPE * Y,
 
     int ix, iy, nx, ny, k;
 
+    if (N <= 0)
+        return;
+
     ix = incx < 0 ? -incx : incx;
     iy = incy < 0 ? -incy : incy;
 
@@ -53,8 +56,8 @@ void copy_compat(const int N, DTYPE * X, const int incx, DTYPE * Y,
     // if not same sign then iteration directions are different
     ix = incx < 0 ? N - 1 : 0;
     iy = incy < 0 ? N - 1 : 0;
-    nx = ix == 0 ? 1 : -1;
-    ny = iy == 0 ? 1 : -1;
+    nx = incx < 0 ? -1 : 1;
+    ny = incy < 0 ? -1 : 1;
     for (k = 0; k < N; ix += nx, iy += ny, k++) {
         armas_set_at_unsafe(&y, iy, armas_get_at_unsafe(&x, ix));
     }
diff --git a/src/compat/dot.c b/src/compat/dot.c
index cfd25b0..c95bc16 100644
--- a/src/compat/dot.c
+++ b/src/compat/dot.c
@@ -32,6 +32,9 @@ DTYPE dot_compat(const int N, DTYPE * X, const int incx, DTYPE * Y,
     int ix, iy, nx, ny, k;
     DTYPE xv, yv;
 
+    if (N <= 0)
+        return ZERO;
+
     ix = incx < 0 ? -incx : incx;
     iy = incy < 0 ? -incy : incy;
 
@@ -45,7 +48,7 @@ DTYPE dot_compat(const int N, DTYPE * X, const int incx, DTYPE * Y,
     } else {
         armas_make(&y, 1, N, iy, Y);
     }
-    if (incx * incy > 0) {
+    if ((incx > 0 && incy > 0) || (incx < 0 && incy < 0)) {
         return armas_dot(&y, &x, conf);
     }
     DTYPE dval = ZERO;
@@ -53,8 +56,8 @@ DTYPE dot_compat(const int N, DTYPE * X, const int incx, DTYPE * Y,
     // if not same sign then iteration directions are different
     ix = incx < 0 ? N - 1 : 0;
     iy = incy < 0 ? N - 1 : 0;
-    nx = ix == 0 ? 1 : -1;
-    ny = iy == 0 ? 1 : -1;
+    nx = incx < 0 ? -1 : 1;
+    ny = incy < 0 ? -1 : 1;
     for (k = 0; k < N; ix += nx, iy += ny, k++) {
         xv = armas_get_at_unsafe(&x, ix);
         yv = armas_get_at_unsafe(&y, iy);
diff --git a/src/compat/rot.c b/src/compat/rot.c
index ee41a84..7272a70 100644
--- a/src/compat/rot.c
+++ b/src/compat/rot.c
@@ -34,6 +34,9 @@ void rot_compat(int N, DTYPE * X, int incx, DTYPE * Y, int incy, DTYPE c,
     int ix, iy, nx, ny, i;
     DTYPE x0, y0;
 
+    if (N <= 0)
+        return;
+
     ix = incx < 0 ? -incx : incx;
     iy = incy < 0 ? -incy : incy;
 
@@ -50,8 +53,8 @@ void rot_compat(int N, DTYPE * X, int incx, DTYPE * Y, int incy, DTYPE c,
 
     ix = incx < 0 ? N - 1 : 0;
     iy = incy < 0 ? N - 1 : 0;
-    nx = ix == 0 ? 1 : -1;
-    ny = iy == 0 ? 1 : -1;
+    nx = incx < 0 ? -1 : 1;
+    ny = incy < 0 ? -1 : 1;
     for (i = 0; i < N; i++, iy += ny, ix += nx) {
         armas_gvrotate(&x0, &y0, c, s,
                          armas_get_at_unsafe(&x, ix),
diff --git a/src/compat/swap.c b/src/compat/swap.c
index 012a779..58e6b2c 100644
--- a/src/compat/swap.c
+++ b/src/compat/swap.c
@@ -32,6 +32,9 @@ void swap_compat(const int N, DTYPE * X, const int incx, DTYPE * Y,
     int ix, iy, nx, ny, k;
     DTYPE yv;
 
+    if (N <= 0)
+        return;
+
     ix = incx < 0 ? -incx : incx;
     iy = incy < 0 ? -incy : incy;
 
@@ -45,15 +48,15 @@ void swap_compat(const int N, DTYPE * X, const int incx, DTYPE * Y,
     } else {
         armas_make(&y, 1, N, iy, Y);
     }
-    if (incx * incy > 0) {
+    if ((incx > 0 && incy > 0) || (incx < 0 && incy < 0)) {
         armas_swap(&y, &x, conf);
         return;
     }
     // if not same sign then iteration direction is different (so clever)
     ix = incx < 0 ? N - 1 : 0;
     iy = incy < 0 ? N - 1 : 0;
-    nx = ix == 0 ? 1 : -1;
-    ny = iy == 0 ? 1 : -1;
+    nx = incx < 0 ? -1 : 1;
+    ny = incy < 0 ? -1 : 1;
     for (k = 0; k < N; ix += nx, iy += ny, k++) {
         yv = armas_get_at_unsafe(&y, iy);
         armas_set_at_unsafe(&y, iy, armas_get_at_unsafe(&x, ix));
-- 
2.43.0


From 6b7ac76742a31f4a2c9b491591389e65bcf2f10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:40 +0000
Subject: [PATCH 108/136] fix: use shapes of transposed operands in dgemm

---
 src/compat/gemm.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/compat/gemm.c b/src/compat/gemm.c
index 1940484..b15bd06 100644
--- a/src/compat/gemm.c
+++ b/src/compat/gemm.c
@@ -33,13 +33,18 @@ void blas_gemmf(char *transa, char *transb, int *m, int *n, int *k,
     int flags = 0;
 
     armas_make(&c, *m, *n, *ldc, C);
-    armas_make(&a, *m, *k, *lda, A);
-    armas_make(&b, *k, *n, *ldb, B);
-
-    if (toupper(*transa) == 'T')
+    if (toupper(*transa) == 'T') {
         flags |= ARMAS_TRANSA;
-    if (toupper(*transb) == 'T')
+        armas_make(&a, *k, *m, *lda, A);
+    } else {
+        armas_make(&a, *m, *k, *lda, A);
+    }
+    if (toupper(*transb) == 'T') {
         flags |= ARMAS_TRANSB;
+        armas_make(&b, *n, *k, *ldb, B);
+    } else {
+        armas_make(&b, *k, *n, *ldb, B);
+    }
 
     armas_mult(*beta, &c, *alpha, &a, &b, flags, conf);
 }
-- 
2.43.0


From 143435e054ef6503e7c3030a0c354c865008d20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:40 +0000
Subject: [PATCH 109/136] fix: compute row major products

---
 src/compat/gemm.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/compat/gemm.c b/src/compat/gemm.c
index b15bd06..7f375aa 100644
--- a/src/compat/gemm.c
+++ b/src/compat/gemm.c
@@ -78,22 +78,22 @@ void cblas_gemm(int order, int transa, int transb, int M, int N,
         armas_make(&Ca, M, N, ldc, C);
         break;
     case CblasRowMajor:
-        if (transa == CblasNoTrans) {
+        // row major storage is the transpose in column major; C^T = op(B)^T * op(A)^T
+        if (transb == CblasTrans) {
             flags |= ARMAS_TRANSA;
-            // error: M > lda
-            armas_make(&Aa, M, K, lda, A);
+            armas_make(&Ba, K, N, ldb, B);
         } else {
-            // error: K > lda
-            armas_make(&Aa, K, M, lda, A);
+            armas_make(&Ba, N, K, ldb, B);
         }
-        if (transb == CblasNoTrans) {
+        if (transa == CblasTrans) {
             flags |= ARMAS_TRANSB;
-            armas_make(&Ba, K, N, ldb, B);
+            armas_make(&Aa, M, K, lda, A);
         } else {
-            armas_make(&Ba, N, K, ldb, B);
+            armas_make(&Aa, K, M, lda, A);
         }
         armas_make(&Ca, N, M, ldc, C);
-        break;
+        armas_mult(beta, &Ca, alpha, &Ba, &Aa, flags, &conf);
+        return;
     default:
         return;
     }
-- 
2.43.0


From ab8d0efd21ea48ea9dc9ef1db82f888ce12d6b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:40 +0000
Subject: [PATCH 110/136] fix: use proper order of symmetric operand in
 cblas_dsymm

---
 src/compat/symm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compat/symm.c b/src/compat/symm.c
index 11df4f5..df7cf1c 100644
--- a/src/compat/symm.c
+++ b/src/compat/symm.c
@@ -79,10 +79,10 @@ void cblas_symm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
     default:
         if (side == CblasRight) {
             flags |= ARMAS_RIGHT;
-            armas_make(&Aa, M, M, lda, A);
+            armas_make(&Aa, N, N, lda, A);
         } else {
             flags |= ARMAS_LEFT;
-            armas_make(&Aa, N, N, lda, A);
+            armas_make(&Aa, M, M, lda, A);
         }
         armas_make(&Ba, M, N, ldb, B);
         armas_make(&Ca, M, N, ldc, C);
-- 
2.43.0


From 7d6f7f1b03c6270b400ea0025427945a25826a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:40 +0000
Subject: [PATCH 111/136] fix: compute row major triangular products and
 solutions

---
 src/compat/trmm.c | 6 +++---
 src/compat/trsm.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/compat/trmm.c b/src/compat/trmm.c
index 0c176de..eaa360c 100644
--- a/src/compat/trmm.c
+++ b/src/compat/trmm.c
@@ -86,16 +86,16 @@ void cblas_trmm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_LOWER : ARMAS_UPPER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasNoTrans)
+        if (transa == CblasTrans)
             flags |= ARMAS_TRANSA;
         // N > ldb --> error
         armas_make(&Ba, N, M, ldb, B);
         if (side == CblasRight) {
             // N > lda --> error
-            armas_make(&Aa, M, M, lda, A);
+            armas_make(&Aa, N, N, lda, A);
         } else {
             // M > lda --> error
-            armas_make(&Aa, N, N, lda, A);
+            armas_make(&Aa, M, M, lda, A);
         }
         break;
     default:
diff --git a/src/compat/trsm.c b/src/compat/trsm.c
index 6f2ed4d..41cd3f1 100644
--- a/src/compat/trsm.c
+++ b/src/compat/trsm.c
@@ -86,16 +86,16 @@ void cblas_trsm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_LOWER : ARMAS_UPPER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasNoTrans)
+        if (transa == CblasTrans)
             flags |= ARMAS_TRANSA;
         // N > ldb --> error
         armas_make(&Ba, N, M, ldb, B);
         if (side == CblasRight) {
             // N > lda --> error
-            armas_make(&Aa, M, M, lda, A);
+            armas_make(&Aa, N, N, lda, A);
         } else {
             // M > lda --> error
-            armas_make(&Aa, N, N, lda, A);
+            armas_make(&Aa, M, M, lda, A);
         }
         break;
     default:
-- 
2.43.0


From 10c3cf289c4e7ec8622d15ee459bb2143259bd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:40 +0000
Subject: [PATCH 112/136] fix: use leading dimension of second operand in syr2k

---
 src/compat/syr2k.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compat/syr2k.c b/src/compat/syr2k.c
index 598e351..2ff11fa 100644
--- a/src/compat/syr2k.c
+++ b/src/compat/syr2k.c
@@ -39,10 +39,10 @@ void blas_syr2kf(char *uplo, char *trans, int *n, int *k, DTYPE * alpha,
     armas_make(&c, *n, *n, *ldc, C);
     if (flags & ARMAS_TRANS) {
         armas_make(&a, *k, *n, *lda, A);
-        armas_make(&b, *k, *n, *lda, B);
+        armas_make(&b, *k, *n, *ldb, B);
     } else {
         armas_make(&a, *n, *k, *lda, A);
-        armas_make(&b, *n, *k, *lda, B);
+        armas_make(&b, *n, *k, *ldb, B);
     }
     armas_update2_sym(*beta, &c, *alpha, &a, &b, flags, conf);
 }
-- 
2.43.0


From e5e20928b4473cde0772a4450f897b6723c57321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:40 +0000
Subject: [PATCH 113/136] fix: export syr2k with its standard name

---
 src/include/float32/names_compat.h | 2 +-
 src/include/float64/names_compat.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/float32/names_compat.h b/src/include/float32/names_compat.h
index 7747fcc..8c800d5 100644
--- a/src/include/float32/names_compat.h
+++ b/src/include/float32/names_compat.h
@@ -32,7 +32,7 @@
 // blas3
 #define blas_gemmf  sgemm_
 #define blas_symmf  ssymm_
-#define blas_syr2kf ssyrk2_
+#define blas_syr2kf ssyr2k_
 #define blas_syrkf  ssyrk_
 #define blas_trmmf  strmm_
 #define blas_trsmf  strsm_
diff --git a/src/include/float64/names_compat.h b/src/include/float64/names_compat.h
index 8e3c537..f78d635 100644
--- a/src/include/float64/names_compat.h
+++ b/src/include/float64/names_compat.h
@@ -32,7 +32,7 @@
 // blas3
 #define blas_gemmf  dgemm_
 #define blas_symmf  dsymm_
-#define blas_syr2kf dsyrk2_
+#define blas_syr2kf dsyr2k_
 #define blas_syrkf  dsyrk_
 #define blas_trmmf  dtrmm_
 #define blas_trsmf  dtrsm_
-- 
2.43.0


From acdc83b319d544e22fd3aed2ff5abcf0e33a348d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:40 +0000
Subject: [PATCH 114/136] fix: provide entry points disabled by misspelled
 guards

---
 src/compat/gemv.c | 4 ++--
 src/compat/ger.c  | 2 +-
 src/compat/syr2.c | 2 +-
 src/compat/trmm.c | 2 +-
 src/compat/trmv.c | 2 +-
 src/compat/trsm.c | 4 ++--
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/compat/gemv.c b/src/compat/gemv.c
index c5d8c54..6a753c9 100644
--- a/src/compat/gemv.c
+++ b/src/compat/gemv.c
@@ -9,11 +9,11 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(gemvf) || defined(cblas_gemv)
+#if defined(blas_gemvf) || defined(cblas_gemv)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
-#if defined(armas_gemv)
+#if defined(armas_mvmult)
 #define ARMAS_REQUIRES 1
 #endif
 
diff --git a/src/compat/ger.c b/src/compat/ger.c
index 969273f..6315fb8 100644
--- a/src/compat/ger.c
+++ b/src/compat/ger.c
@@ -13,7 +13,7 @@
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
-#if defined(ENABLE_COMPAT) && defined(armas_mvupdate)
+#if defined(armas_mvupdate)
 #define ARMAS_REQUIRES 1
 #endif
 
diff --git a/src/compat/syr2.c b/src/compat/syr2.c
index 95e4df7..c22c1ab 100644
--- a/src/compat/syr2.c
+++ b/src/compat/syr2.c
@@ -9,7 +9,7 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(syr2f) || defined(cblas_syr2)
+#if defined(blas_syr2f) || defined(cblas_syr2)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
diff --git a/src/compat/trmm.c b/src/compat/trmm.c
index eaa360c..9da9686 100644
--- a/src/compat/trmm.c
+++ b/src/compat/trmm.c
@@ -9,7 +9,7 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(trmmf) || defined(cblas_trmm)
+#if defined(blas_trmmf) || defined(cblas_trmm)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
diff --git a/src/compat/trmv.c b/src/compat/trmv.c
index c6f9084..1eb9976 100644
--- a/src/compat/trmv.c
+++ b/src/compat/trmv.c
@@ -9,7 +9,7 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(trmvf) || defined(cblas_trmv)
+#if defined(blas_trmvf) || defined(cblas_trmv)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
diff --git a/src/compat/trsm.c b/src/compat/trsm.c
index 41cd3f1..3190d6e 100644
--- a/src/compat/trsm.c
+++ b/src/compat/trsm.c
@@ -9,7 +9,7 @@
 
 // -----------------------------------------------------------------------------
 // this file provides following type dependent functions
-#if defined(trsmf) || defined(cblas_trsm)
+#if defined(blas_trsmf) || defined(cblas_trsm)
 #define ARMAS_PROVIDES 1
 #endif
 // this file requires external public functions
@@ -23,7 +23,7 @@
 #include <ctype.h>
 #include "matrix.h"
 
-#if defined(trsmf)
+#if defined(blas_trsmf)
 void blas_trsmf(char *side, char *uplo, char *transa, char *diag, int *m,
                 int *n, DTYPE * alpha, DTYPE * A, int *lda, DTYPE * B, int *ldb)
 {
-- 
2.43.0


From ad26fa2ae756fb59d7236023b2cfd8a5e47e4992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:41 +0000
Subject: [PATCH 115/136] fix: accept conjugate transpose for real matrices

---
 src/compat/gemm.c    | 12 ++++++------
 src/compat/gemv.c    |  4 ++--
 src/compat/syr2k.c   |  4 ++--
 src/compat/syrk.c    |  4 ++--
 src/compat/trmm.c    |  6 +++---
 src/compat/trmv.c    |  4 ++--
 src/compat/trsm.c    |  6 +++---
 src/compat/trsv.c    |  4 ++--
 src/include/compat.h |  7 +++++++
 9 files changed, 29 insertions(+), 22 deletions(-)

diff --git a/src/compat/gemm.c b/src/compat/gemm.c
index 7f375aa..6141acf 100644
--- a/src/compat/gemm.c
+++ b/src/compat/gemm.c
@@ -33,13 +33,13 @@ void blas_gemmf(char *transa, char *transb, int *m, int *n, int *k,
     int flags = 0;
 
     armas_make(&c, *m, *n, *ldc, C);
-    if (toupper(*transa) == 'T') {
+    if (compat_trans(*transa)) {
         flags |= ARMAS_TRANSA;
         armas_make(&a, *k, *m, *lda, A);
     } else {
         armas_make(&a, *m, *k, *lda, A);
     }
-    if (toupper(*transb) == 'T') {
+    if (compat_trans(*transb)) {
         flags |= ARMAS_TRANSB;
         armas_make(&b, *n, *k, *ldb, B);
     } else {
@@ -61,7 +61,7 @@ void cblas_gemm(int order, int transa, int transb, int M, int N,
 
     switch (order) {
     case CblasColMajor:
-        if (transa == CblasTrans) {
+        if (transa != CblasNoTrans) {
             flags |= ARMAS_TRANSA;
             // error: K > lda
             armas_make(&Aa, K, M, lda, A);
@@ -69,7 +69,7 @@ void cblas_gemm(int order, int transa, int transb, int M, int N,
             // error: M > lda
             armas_make(&Aa, M, K, lda, A);
         }
-        if (transb == CblasTrans) {
+        if (transb != CblasNoTrans) {
             flags |= ARMAS_TRANSB;
             armas_make(&Ba, N, K, ldb, B);
         } else {
@@ -79,13 +79,13 @@ void cblas_gemm(int order, int transa, int transb, int M, int N,
         break;
     case CblasRowMajor:
         // row major storage is the transpose in column major; C^T = op(B)^T * op(A)^T
-        if (transb == CblasTrans) {
+        if (transb != CblasNoTrans) {
             flags |= ARMAS_TRANSA;
             armas_make(&Ba, K, N, ldb, B);
         } else {
             armas_make(&Ba, N, K, ldb, B);
         }
-        if (transa == CblasTrans) {
+        if (transa != CblasNoTrans) {
             flags |= ARMAS_TRANSB;
             armas_make(&Aa, M, K, lda, A);
         } else {
diff --git a/src/compat/gemv.c b/src/compat/gemv.c
index 6a753c9..3d82b4f 100644
--- a/src/compat/gemv.c
+++ b/src/compat/gemv.c
@@ -32,7 +32,7 @@ void blas_gemvf(char *trans, int *m, int *n, DTYPE * alpha, DTYPE * A,
     armas_dense_t y, a, x;
     int ylen, xlen, flags = 0;
 
-    if (toupper(*trans) == 'T')
+    if (compat_trans(*trans))
         flags |= ARMAS_TRANS;
 
     ylen = flags & ARMAS_TRANS ? *n : *m;
@@ -64,7 +64,7 @@ void cblas_gemv(const enum CBLAS_ORDER order, const enum CBLAS_TRANS trans,
         break;
     case CblasColMajor:
     default:
-        if (trans == CblasTrans)
+        if (trans != CblasNoTrans)
             flags |= ARMAS_TRANS;
         ylen = flags & ARMAS_TRANS ? N : M;
         xlen = flags & ARMAS_TRANS ? M : N;
diff --git a/src/compat/syr2k.c b/src/compat/syr2k.c
index 2ff11fa..e63f146 100644
--- a/src/compat/syr2k.c
+++ b/src/compat/syr2k.c
@@ -33,7 +33,7 @@ void blas_syr2kf(char *uplo, char *trans, int *n, int *k, DTYPE * alpha,
     int flags = 0;
 
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
-    if (toupper(*trans) == 'T')
+    if (compat_trans(*trans))
         flags |= ARMAS_TRANS;
 
     armas_make(&c, *n, *n, *ldc, C);
@@ -71,7 +71,7 @@ void cblas_syr2k(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
     case CblasColMajor:
     default:
         flags |= uplo == CblasUpper ? ARMAS_UPPER : ARMAS_LOWER;
-        if (trans == CblasTrans) {
+        if (trans != CblasNoTrans) {
             flags |= ARMAS_TRANS;
             armas_make(&Aa, K, N, lda, A);
             armas_make(&Ba, K, N, ldb, B);
diff --git a/src/compat/syrk.c b/src/compat/syrk.c
index d13235b..ae2eaec 100644
--- a/src/compat/syrk.c
+++ b/src/compat/syrk.c
@@ -32,7 +32,7 @@ void blas_syrkf(char *uplo, char *trans, int *n, int *k, DTYPE * alpha,
     int flags = 0;
 
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
-    if (toupper(*trans) == 'T')
+    if (compat_trans(*trans))
         flags |= ARMAS_TRANS;
 
     armas_make(&c, *n, *n, *ldc, C);
@@ -68,7 +68,7 @@ void cblas_syrk(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
     case CblasColMajor:
     default:
         flags |= uplo == CblasUpper ? ARMAS_UPPER : ARMAS_LOWER;
-        if (trans == CblasTrans) {
+        if (trans != CblasNoTrans) {
             flags |= ARMAS_TRANS;
             armas_make(&Aa, K, N, lda, A);
         } else {
diff --git a/src/compat/trmm.c b/src/compat/trmm.c
index 9da9686..bc5f121 100644
--- a/src/compat/trmm.c
+++ b/src/compat/trmm.c
@@ -45,7 +45,7 @@ void blas_trmmf(char *side, char *uplo, char *transa, char *diag, int *m,
         break;
     }
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
-    if (toupper(*transa) == 'T')
+    if (compat_trans(*transa))
         flags |= ARMAS_TRANS;
     if (toupper(*diag) == 'U')
         flags |= ARMAS_UNIT;
@@ -69,7 +69,7 @@ void cblas_trmm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_UPPER : ARMAS_LOWER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasTrans)
+        if (transa != CblasNoTrans)
             flags |= ARMAS_TRANSA;
         // M > ldb --> error
         armas_make(&Ba, M, N, ldb, B);
@@ -86,7 +86,7 @@ void cblas_trmm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_LOWER : ARMAS_UPPER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasTrans)
+        if (transa != CblasNoTrans)
             flags |= ARMAS_TRANSA;
         // N > ldb --> error
         armas_make(&Ba, N, M, ldb, B);
diff --git a/src/compat/trmv.c b/src/compat/trmv.c
index 1eb9976..ec54604 100644
--- a/src/compat/trmv.c
+++ b/src/compat/trmv.c
@@ -40,7 +40,7 @@ void blas_trmvf(char *uplo, char *trans, char *diag, int *n, DTYPE * A,
         flags |= ARMAS_UPPER;
         break;
     }
-    if (toupper(*trans) == 'T')
+    if (compat_trans(*trans))
         flags |= ARMAS_TRANS;
     if (toupper(*diag) == 'U')
         flags |= ARMAS_UNIT;
@@ -71,7 +71,7 @@ void cblas_trmv(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
     case CblasColMajor:
     default:
         flags |= uplo == CblasUpper ? ARMAS_UPPER : ARMAS_LOWER;
-        if (trans == CblasTrans)
+        if (trans != CblasNoTrans)
             flags |= ARMAS_TRANS;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
diff --git a/src/compat/trsm.c b/src/compat/trsm.c
index 3190d6e..be79839 100644
--- a/src/compat/trsm.c
+++ b/src/compat/trsm.c
@@ -45,7 +45,7 @@ void blas_trsmf(char *side, char *uplo, char *transa, char *diag, int *m,
         break;
     }
     flags |= toupper(*uplo) == 'L' ? ARMAS_LOWER : ARMAS_UPPER;
-    if (toupper(*transa) == 'T')
+    if (compat_trans(*transa))
         flags |= ARMAS_TRANS;
     if (toupper(*diag) == 'U')
         flags |= ARMAS_UNIT;
@@ -69,7 +69,7 @@ void cblas_trsm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_UPPER : ARMAS_LOWER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasTrans)
+        if (transa != CblasNoTrans)
             flags |= ARMAS_TRANSA;
         // M > ldb --> error
         armas_make(&Ba, M, N, ldb, B);
@@ -86,7 +86,7 @@ void cblas_trsm(const enum CBLAS_ORDER order, const enum CBLAS_SIDE side,
         flags |= uplo == CblasUpper ? ARMAS_LOWER : ARMAS_UPPER;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
-        if (transa == CblasTrans)
+        if (transa != CblasNoTrans)
             flags |= ARMAS_TRANSA;
         // N > ldb --> error
         armas_make(&Ba, N, M, ldb, B);
diff --git a/src/compat/trsv.c b/src/compat/trsv.c
index 9398992..2a37d0f 100644
--- a/src/compat/trsv.c
+++ b/src/compat/trsv.c
@@ -40,7 +40,7 @@ void blas_trsvf(char *uplo, char *trans, char *diag, int *n, DTYPE * A,
         flags |= ARMAS_UPPER;
         break;
     }
-    if (toupper(*trans) == 'T')
+    if (compat_trans(*trans))
         flags |= ARMAS_TRANS;
     if (toupper(*diag) == 'U')
         flags |= ARMAS_UNIT;
@@ -71,7 +71,7 @@ void cblas_trsv(const enum CBLAS_ORDER order, const enum CBLAS_UPLO uplo,
     case CblasColMajor:
     default:
         flags |= uplo == CblasUpper ? ARMAS_UPPER : ARMAS_LOWER;
-        if (trans == CblasTrans)
+        if (trans != CblasNoTrans)
             flags |= ARMAS_TRANS;
         if (diag == CblasUnit)
             flags |= ARMAS_UNIT;
diff --git a/src/include/compat.h b/src/include/compat.h
index b5790da..2466c39 100644
--- a/src/include/compat.h
+++ b/src/include/compat.h
@@ -72,6 +72,13 @@ enum CBLAS_SIDE		{CblasLeft=141, CblasRight=142};
 
 #include "matrix.h"
 
+// transpose and conjugate transpose are the same for real matrices
+static inline
+int compat_trans(char c)
+{
+    return c == 'T' || c == 't' || c == 'C' || c == 'c';
+}
+
 /*
  * Vector of N elements with standard increment. With negative increment the first element
  * is the last one in memory.
-- 
2.43.0


From 18683d164be8f6cb1278f0b230cf6947937ae897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:06 +0000
Subject: [PATCH 116/136] fix: do not reference old diagonal in rank-2k update
 if beta is zero

---
 src/blas/syr2k.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/blas/syr2k.c b/src/blas/syr2k.c
index 5a8a564..049a44d 100644
--- a/src/blas/syr2k.c
+++ b/src/blas/syr2k.c
@@ -66,7 +66,8 @@ void update_syr2k_unb(
         // -------------------------------------------------------------------
         ak = ZERO;
         armas_adot_unsafe(&ak, 2.0*alpha, &x1, &y1);
-        ak += armas_get_unsafe(&a11, 0, 0) * beta;
+        if (beta != ZERO)
+            ak += armas_get_unsafe(&a11, 0, 0) * beta;
         armas_set_unsafe(&a11, 0, 0, ak);
         if (flags & ARMAS_UPPER) {
             armas_mvmult_unsafe(beta, &a01, alpha, &Y0, &x1, 0);
@@ -161,7 +162,8 @@ void update_syr2k_trans_unb(
         // -------------------------------------------------------------------
         ak = ZERO;
         armas_adot_unsafe(&ak, 2.0*alpha, &x1, &y1);
-        ak += armas_get_unsafe(&a11, 0, 0) * beta;
+        if (beta != ZERO)
+            ak += armas_get_unsafe(&a11, 0, 0) * beta;
         armas_set_unsafe(&a11, 0, 0, ak);
         if (flags & ARMAS_UPPER) {
             armas_mvmult_unsafe(beta, &a01, alpha, &Y0, &x1, ARMAS_TRANS);
-- 
2.43.0


From 06b2b3e026bfb08e36ac8276a7c3aebe20138d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 117/136] fix: scale result in standard updates with empty
 inner dimension

---
 src/compat/gemm.c    | 12 ++++++++++++
 src/compat/syr2k.c   |  4 ++++
 src/compat/syrk.c    |  4 ++++
 src/include/compat.h | 15 +++++++++++++++
 4 files changed, 35 insertions(+)

diff --git a/src/compat/gemm.c b/src/compat/gemm.c
index 6141acf..b6cf829 100644
--- a/src/compat/gemm.c
+++ b/src/compat/gemm.c
@@ -33,6 +33,10 @@ void blas_gemmf(char *transa, char *transb, int *m, int *n, int *k,
     int flags = 0;
 
     armas_make(&c, *m, *n, *ldc, C);
+    if (*k == 0) {
+        compat_scale(&c, *beta, 0);
+        return;
+    }
     if (compat_trans(*transa)) {
         flags |= ARMAS_TRANSA;
         armas_make(&a, *k, *m, *lda, A);
@@ -92,11 +96,19 @@ void cblas_gemm(int order, int transa, int transb, int M, int N,
             armas_make(&Aa, K, M, lda, A);
         }
         armas_make(&Ca, N, M, ldc, C);
+        if (K == 0) {
+            compat_scale(&Ca, beta, 0);
+            return;
+        }
         armas_mult(beta, &Ca, alpha, &Ba, &Aa, flags, &conf);
         return;
     default:
         return;
     }
+    if (K == 0) {
+        compat_scale(&Ca, beta, 0);
+        return;
+    }
     armas_mult(beta, &Ca, alpha, &Aa, &Ba, flags, &conf);
 }
 #endif
diff --git a/src/compat/syr2k.c b/src/compat/syr2k.c
index e63f146..f54a618 100644
--- a/src/compat/syr2k.c
+++ b/src/compat/syr2k.c
@@ -37,6 +37,10 @@ void blas_syr2kf(char *uplo, char *trans, int *n, int *k, DTYPE * alpha,
         flags |= ARMAS_TRANS;
 
     armas_make(&c, *n, *n, *ldc, C);
+    if (*k == 0) {
+        compat_scale(&c, *beta, flags);
+        return;
+    }
     if (flags & ARMAS_TRANS) {
         armas_make(&a, *k, *n, *lda, A);
         armas_make(&b, *k, *n, *ldb, B);
diff --git a/src/compat/syrk.c b/src/compat/syrk.c
index ae2eaec..0c92a52 100644
--- a/src/compat/syrk.c
+++ b/src/compat/syrk.c
@@ -36,6 +36,10 @@ void blas_syrkf(char *uplo, char *trans, int *n, int *k, DTYPE * alpha,
         flags |= ARMAS_TRANS;
 
     armas_make(&c, *n, *n, *ldc, C);
+    if (*k == 0) {
+        compat_scale(&c, *beta, flags);
+        return;
+    }
     if (flags & ARMAS_TRANS) {
         armas_make(&a, *k, *n, *lda, A);
     } else {
diff --git a/src/include/compat.h b/src/include/compat.h
index 2466c39..83da9ce 100644
--- a/src/include/compat.h
+++ b/src/include/compat.h
@@ -95,5 +95,20 @@ void compat_vec(armas_dense_t *x, int n, DTYPE *X, int incx)
     }
 }
 
+/*
+ * C = beta*C for the updates with empty inner dimension. Elements are not read if beta is zero.
+ */
+static inline
+void compat_scale(armas_dense_t *c, DTYPE beta, int flags)
+{
+    for (int j = 0; j < c->cols; j++) {
+        int first = flags & ARMAS_LOWER ? j : 0;
+        int last = flags & ARMAS_UPPER ? j + 1 : c->rows;
+        for (int i = first; i < last; i++) {
+            armas_set_unsafe(c, i, j, beta == ZERO ? ZERO : beta * armas_get_unsafe(c, i, j));
+        }
+    }
+}
+
 #endif  /* CONFIG_COMPAT */
 #endif  /* ARMAS_COMPAT_H */
-- 
2.43.0


From fe7a38418c1fb7f266a02d87597585d2ac0c50e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:59 +0000
Subject: [PATCH 118/136] fix: complete operations with small cache if memory
 for configured one runs out

---
 src/base/cache.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/base/cache.c b/src/base/cache.c
index 4bb913f..1a80300 100644
--- a/src/base/cache.c
+++ b/src/base/cache.c
@@ -530,6 +530,22 @@ void armas_cbuf_release_thread_global()
     }
 }
 
+/*
+ * Space for working cache when memory for configured one is not available. Operations are slower
+ * with small cache but they are completed.
+ */
+#define CBUF_SPARE  (8*1024)
+
+static __thread unsigned char cbuf_spare[CBUF_SPARE];
+
+static
+int cbuf_select_spare(armas_cbuf_t *cbuf, const armas_env_t *env)
+{
+    size_t l1mem = env->l1mem < CBUF_SPARE/4 ? env->l1mem : CBUF_SPARE/4;
+    armas_cbuf_make(cbuf, cbuf_spare, CBUF_SPARE, l1mem);
+    return 0;
+}
+
 /**
  * @brief Select internal cache memory buffer based on configuration.
  */
@@ -548,7 +564,7 @@ int armas_cbuf_select(armas_cbuf_t *cbuf, armas_conf_t *cf)
         }
     }
     if (cf && (cf->optflags & ARMAS_CBUF_LOCAL) != 0) {
-        return armas_cbuf_init(cbuf, env->cmem, env->l1mem) ? 0 : -1;
+        return armas_cbuf_init(cbuf, env->cmem, env->l1mem) ? 0 : cbuf_select_spare(cbuf, env);
     }
 
     cb = armas_cbuf_create_thread_global();
@@ -556,7 +572,7 @@ int armas_cbuf_select(armas_cbuf_t *cbuf, armas_conf_t *cf)
         *cbuf = *cb;
         return 0;
     }
-    return -1;
+    return cbuf_select_spare(cbuf, env);
 }
 
 //! @}
-- 
2.43.0


From 3ccd1f0847e6c6a8c6858e89abf46273701eda8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:59 +0000
Subject: [PATCH 119/136] fix: report memory error from dqds

---
 src/lapack/dqds.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/dqds.c b/src/lapack/dqds.c
index 646dedd..168b4f6 100644
--- a/src/lapack/dqds.c
+++ b/src/lapack/dqds.c
@@ -1052,7 +1052,7 @@ int armas_dqds(armas_dense_t * D, armas_dense_t * E, armas_conf_t * conf)
         wbs = &wb;
         if (wb.bytes > 0) {
             if (!armas_walloc(&wb, wb.bytes)) {
-                conf->error = ARMAS_EWORK;
+                conf->error = ARMAS_EMEMORY;
                 return -1;
             }
         } else
-- 
2.43.0


From 4a471ca7fad1d2ffd8fb2a7afaad582f9aaf2e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:53 +0000
Subject: [PATCH 120/136] fix: report too short workspace of extended solvers
 as workspace error

---
 src/eblas/trsm_ext.c | 8 ++++----
 src/eblas/trsv_ext.c | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/eblas/trsm_ext.c b/src/eblas/trsm_ext.c
index 9041b0a..bd72631 100644
--- a/src/eblas/trsm_ext.c
+++ b/src/eblas/trsm_ext.c
@@ -787,8 +787,8 @@ int armas_ext_solve_trm_w(
         return -ARMAS_ESIZE;
     }
     if (!wb) {
-        cf->error = ARMAS_EMEMORY;
-        return -ARMAS_EMEMORY;
+        cf->error = ARMAS_EWORK;
+        return -ARMAS_EWORK;
     }
 
     armas_cbuf_t cbuf = ARMAS_CBUF_EMPTY;
@@ -810,8 +810,8 @@ int armas_ext_solve_trm_w(
     int ncol = armas_wbytes(wb)/(A->rows*sizeof(DTYPE));
     if (ncol < 1) {
         armas_cbuf_release(&cbuf);
-        cf->error = ARMAS_EMEMORY;
-        return -ARMAS_EMEMORY;
+        cf->error = ARMAS_EWORK;
+        return -ARMAS_EWORK;
     }
     if (ncol > NB)
         ncol = NB;
diff --git a/src/eblas/trsv_ext.c b/src/eblas/trsv_ext.c
index 0a42241..4cd062d 100644
--- a/src/eblas/trsv_ext.c
+++ b/src/eblas/trsv_ext.c
@@ -328,8 +328,8 @@ int armas_ext_mvsolve_trm_w(
         return 0;
     }
     if (armas_wbytes(wb) < sizeof(DTYPE)*N) {
-        cf->error = ARMAS_EMEMORY;
-        return -ARMAS_EMEMORY;
+        cf->error = ARMAS_EWORK;
+        return -ARMAS_EWORK;
     }
     armas_make(&dX, A->cols, 1, A->cols, (DTYPE *)armas_wptr(wb));
     armas_ext_mvsolve_trm_unsafe(x, &dX, alpha, A, flags);
-- 
2.43.0


From 5d0fdcdfa29beb00b1557c8d20b6bdb1f2c37753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:53 +0000
Subject: [PATCH 121/136] fix: check workspace before rearranging in bdbuild
 and trdbuild

---
 src/lapack/bibld.c  | 12 ++++++++++++
 src/lapack/tribld.c |  8 +++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/lapack/bibld.c b/src/lapack/bibld.c
index aa4fe6f..6bdcde7 100644
--- a/src/lapack/bibld.c
+++ b/src/lapack/bibld.c
@@ -123,6 +123,18 @@ int armas_bdbuild_w(armas_dense_t * A,
     if (armas_size(A) == 0)
         return 0;
 
+    if (!tau || tau->cols > 1) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
+
+    // matrix is rearranged before reflectors are applied, need workspace for that
+    j = A->rows < A->cols ? A->rows : A->cols;
+    if (armas_wbytes(wb) < (j - 1) * sizeof(DTYPE)) {
+        conf->error = ARMAS_EWORK;
+        return -ARMAS_EWORK;
+    }
+
     if (A->rows > A->cols || (A->rows == A->cols && !(flags & ARMAS_LOWER))) {
         switch (flags & (ARMAS_WANTQ | ARMAS_WANTP)) {
         case ARMAS_WANTQ:
diff --git a/src/lapack/tribld.c b/src/lapack/tribld.c
index e1dd45a..dd2ea9f 100644
--- a/src/lapack/tribld.c
+++ b/src/lapack/tribld.c
@@ -108,7 +108,7 @@ int armas_trdbuild_w(armas_dense_t * A,
     if (armas_size(A) == 0)
         return 0;
 
-    if (!tau || armas_size(tau) != A->cols) {
+    if (!tau || tau->cols > 1 || armas_size(tau) != A->cols) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
@@ -118,6 +118,12 @@ int armas_trdbuild_w(armas_dense_t * A,
         return -ARMAS_ESIZE;
     }
 
+    // matrix is rearranged before reflectors are applied, need workspace for that
+    if (armas_wbytes(wb) < (A->cols - 1) * sizeof(DTYPE)) {
+        conf->error = ARMAS_EWORK;
+        return -ARMAS_EWORK;
+    }
+
     if (K > A->rows - 1)
         K = A->rows - 1;
 
-- 
2.43.0


From 3c3f03aa19b77d9e6361cde7b6cc39f03518cf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:53 +0000
Subject: [PATCH 122/136] fix: reject too short and row vector tau in bdreduce

---
 src/lapack/bired.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lapack/bired.c b/src/lapack/bired.c
index 83bfbed..867ba5b 100644
--- a/src/lapack/bired.c
+++ b/src/lapack/bired.c
@@ -945,6 +945,14 @@ int armas_bdreduce_w(armas_dense_t * A,
         return 0;
     }
 
+    // reflectors Q=H(1)...H(N), P=G(1)...G(N-1) if M >= N; one less of H, one more of G if M < N
+    if (!tauq || tauq->cols > 1 || !taup || taup->cols > 1
+        || armas_size(tauq) < (A->rows >= A->cols ? A->cols : A->rows - 1)
+        || armas_size(taup) < (A->rows >= A->cols ? A->cols - 1 : A->rows)) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     lb = env->lb;
     wsmin = (A->cols + A->rows) * sizeof(DTYPE);
     if (!wb || (wsz = armas_wbytes(wb)) < wsmin) {
-- 
2.43.0


From d59193f43292f8e9b6c3ce5424517c715e017c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:53 +0000
Subject: [PATCH 123/136] fix: answer workspace query of cholfactor without
 pivoting

---
 src/lapack/chol.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lapack/chol.c b/src/lapack/chol.c
index 3aa5547..206ea03 100644
--- a/src/lapack/chol.c
+++ b/src/lapack/chol.c
@@ -373,6 +373,10 @@ int armas_cholfactor_w(armas_dense_t * A, armas_pivot_t * P,
         return armas_cholfactor_pv(A, &W, P, flags, cf);
     }
 
+    if (wb && wb->bytes == 0) {
+        // no need for workspace
+        return 0;
+    }
     if (A->rows != A->cols) {
         cf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
-- 
2.43.0


From ebb2e8eb64e493437380346e783db63d735cd1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:53 +0000
Subject: [PATCH 124/136] fix: check size of D before reduction in
 eigen_sym_selected

---
 src/lapack/evd.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lapack/evd.c b/src/lapack/evd.c
index 6c80895..667f23a 100644
--- a/src/lapack/evd.c
+++ b/src/lapack/evd.c
@@ -304,6 +304,14 @@ int armas_eigen_sym_selected_w(armas_dense_t * D,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
+    // all values or index range; number of values in value range not known before A is reduced
+    int last = N;
+    if (params && params->ileft != -1 && params->iright != -1)
+        last = params->iright < N ? params->iright : N;
+    if (!armas_isvector(D) || armas_size(D) < last) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
 
     if (N > 2 && (!wb || (wsz = armas_wbytes(wb)) < 2 * N * sizeof(DTYPE))) {
         conf->error = ARMAS_EWORK;
-- 
2.43.0


From 4d2da902eef02f5edaf478a39f3c34ea255739f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:53 +0000
Subject: [PATCH 125/136] fix: reject non-square matrix in bksolve

---
 src/lapack/ldlbk.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lapack/ldlbk.c b/src/lapack/ldlbk.c
index ed90362..7888d2d 100644
--- a/src/lapack/ldlbk.c
+++ b/src/lapack/ldlbk.c
@@ -251,7 +251,7 @@ int armas_bksolve_w(armas_dense_t * B, const armas_dense_t * A,
         return 0;
     }
 
-    if (A->cols != B->rows) {
+    if (A->rows != A->cols || A->cols != B->rows) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-- 
2.43.0


From 2682c93873f41d934ed6d0cbb1cec01691739729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:53 +0000
Subject: [PATCH 126/136] fix: check sizes in orthogonal matrix builders

---
 src/lapack/lqbld.c | 11 ++++++++---
 src/lapack/qlbld.c | 12 +++++++++---
 src/lapack/qrbld.c | 11 ++++++++---
 src/lapack/rqbld.c |  2 +-
 4 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/lapack/lqbld.c b/src/lapack/lqbld.c
index a54a95e..6ef8b1c 100644
--- a/src/lapack/lqbld.c
+++ b/src/lapack/lqbld.c
@@ -256,7 +256,7 @@ int armas_lqbuild_w(armas_dense_t * A,
                       const armas_dense_t * tau,
                       int K, armas_wbuf_t * wb, armas_conf_t * conf)
 {
-    armas_dense_t T, Wrk;
+    armas_dense_t T, Wrk, tauk;
     armas_env_t *env;
     size_t wsmin, wsz = 0;
     int lb;
@@ -282,6 +282,10 @@ int armas_lqbuild_w(armas_dense_t * A,
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
+    if (K < 0 || K > A->rows || A->cols < A->rows || tau->cols > 1 || armas_size(tau) < A->rows) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
 
     lb = env->lb;
     wsmin = A->rows * sizeof(DTYPE);
@@ -299,19 +303,20 @@ int armas_lqbuild_w(armas_dense_t * A,
         }
     }
 
+    armas_submatrix(&tauk, tau, 0, 0, A->rows, 1);
     wsz = armas_wpos(wb);
     buf = (DTYPE *) armas_wptr(wb);
 
     if (lb == 0 || A->rows <= lb) {
         armas_make(&Wrk, A->rows, 1, A->rows, buf);
-        unblk_lqbuild(A, (armas_dense_t *) tau, &Wrk, A->rows - K,
+        unblk_lqbuild(A, &tauk, &Wrk, A->rows - K,
                         A->cols - K, TRUE, conf);
     } else {
         // block reflector [lb,lb]; temporary space [M(A)-lb,lb] matrix
         armas_make(&T, lb, lb, lb, buf);
         armas_make(&Wrk, A->rows-lb, lb, A->rows-lb, &buf[armas_size(&T)]);
 
-        blk_lqbuild(A, (armas_dense_t *) tau, &T, &Wrk, K, lb, conf);
+        blk_lqbuild(A, &tauk, &T, &Wrk, K, lb, conf);
     }
     armas_wsetpos(wb, wsz);
     return 0;
diff --git a/src/lapack/qlbld.c b/src/lapack/qlbld.c
index 76c53da..2f9a4ee 100644
--- a/src/lapack/qlbld.c
+++ b/src/lapack/qlbld.c
@@ -256,7 +256,7 @@ int armas_qlbuild_w(armas_dense_t * A,
                       const armas_dense_t * tau,
                       int K, armas_wbuf_t * wb, armas_conf_t * conf)
 {
-    armas_dense_t T, Wrk;
+    armas_dense_t T, Wrk, tauk;
     armas_env_t *env;
     size_t wsmin, wsz = 0;
     int lb;
@@ -278,6 +278,11 @@ int armas_qlbuild_w(armas_dense_t * A,
         return 0;
     }
 
+    if (K < 0 || K > A->cols || A->rows < A->cols || tau->cols > 1 || armas_size(tau) < A->cols) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
+
     lb = env->lb;
     wsmin = A->cols * sizeof(DTYPE);
     if (!wb || (wsz = armas_wbytes(wb)) < wsmin) {
@@ -294,19 +299,20 @@ int armas_qlbuild_w(armas_dense_t * A,
         }
     }
 
+    armas_submatrix(&tauk, tau, 0, 0, A->cols, 1);
     wsz = armas_wpos(wb);
     buf = (DTYPE *) armas_wptr(wb);
 
     if (lb == 0 || A->cols <= lb) {
         armas_make(&Wrk, A->cols, 1, A->cols, buf);
-        unblk_qlbuild(A, (armas_dense_t *) tau, &Wrk, A->rows-K,
+        unblk_qlbuild(A, &tauk, &Wrk, A->rows-K,
                       A->cols-K, TRUE, conf);
     } else {
         // block reflector [lb, lb]; temporary space  [N(A)-lb, lb] matrix
         armas_make(&T, lb, lb, lb, buf);
         armas_make(&Wrk, A->cols-lb, lb, A->cols-lb, &buf[armas_size(&T)]);
 
-        blk_qlbuild(A, (armas_dense_t *) tau, &T, &Wrk, K, lb, conf);
+        blk_qlbuild(A, &tauk, &T, &Wrk, K, lb, conf);
     }
     armas_wsetpos(wb, wsz);
     return 0;
diff --git a/src/lapack/qrbld.c b/src/lapack/qrbld.c
index 2f45c5f..df12676 100644
--- a/src/lapack/qrbld.c
+++ b/src/lapack/qrbld.c
@@ -275,7 +275,7 @@ int armas_qrbuild_w(armas_dense_t * A,
                       const armas_dense_t * tau,
                       int K, armas_wbuf_t * wb, armas_conf_t * conf)
 {
-    armas_dense_t T, Wrk;
+    armas_dense_t T, Wrk, tauk;
     armas_env_t *env;
     size_t wsmin, wsz = 0;
     int lb;
@@ -301,6 +301,10 @@ int armas_qrbuild_w(armas_dense_t * A,
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
+    if (K < 0 || K > A->cols || A->rows < A->cols || tau->cols > 1 || armas_size(tau) < A->cols) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
 
     lb = env->lb;
     wsmin = A->cols * sizeof(DTYPE);
@@ -318,19 +322,20 @@ int armas_qrbuild_w(armas_dense_t * A,
         }
     }
 
+    armas_submatrix(&tauk, tau, 0, 0, A->cols, 1);
     wsz = armas_wpos(wb);
     buf = (DTYPE *) armas_wptr(wb);
 
     if (lb == 0 || A->cols <= lb) {
         armas_make(&Wrk, A->cols, 1, A->cols, buf);
-        unblk_qrbuild(A, (armas_dense_t *) tau, &Wrk, A->rows-K,
+        unblk_qrbuild(A, &tauk, &Wrk, A->rows-K,
                       A->cols-K, TRUE, conf);
     } else {
         // block reflector at start of workspace; other temporary space after
         armas_make(&T, lb, lb, lb, buf);
         armas_make(&Wrk, A->cols-lb, lb, A->cols-lb, &buf[armas_size(&T)]);
 
-        blk_qrbuild(A, (armas_dense_t *) tau, &T, &Wrk, K, lb, conf);
+        blk_qrbuild(A, &tauk, &T, &Wrk, K, lb, conf);
     }
     armas_wsetpos(wb, wsz);
 
diff --git a/src/lapack/rqbld.c b/src/lapack/rqbld.c
index 280d91f..137d909 100644
--- a/src/lapack/rqbld.c
+++ b/src/lapack/rqbld.c
@@ -265,7 +265,7 @@ int armas_rqbuild_w(armas_dense_t * A,
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
-    if (armas_size(tau) != A->rows) {
+    if (K < 0 || K > A->rows || A->cols < A->rows || tau->cols > 1 || armas_size(tau) != A->rows) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-- 
2.43.0


From 4d0a0b98505f117a42675e08e5e66125c31b32fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:53 +0000
Subject: [PATCH 127/136] fix: store scalars in leading part of longer tau in
 qlfactor

---
 src/lapack/ql.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lapack/ql.c b/src/lapack/ql.c
index 2a34ede..04ee812 100644
--- a/src/lapack/ql.c
+++ b/src/lapack/ql.c
@@ -443,7 +443,7 @@ int armas_qlfactor_w(armas_dense_t * A,
                        armas_dense_t * tau,
                        armas_wbuf_t * wb, armas_conf_t * conf)
 {
-    armas_dense_t T, Wrk;
+    armas_dense_t T, Wrk, tauk;
     armas_env_t *env;
     size_t wsmin, wsz = 0;
     DTYPE *buf;
@@ -469,7 +469,7 @@ int armas_qlfactor_w(armas_dense_t * A,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-    if (!armas_isvector(tau) || armas_size(tau) < A->cols) {
+    if (!armas_isvector(tau) || tau->cols > 1 || armas_size(tau) < A->cols) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
@@ -490,18 +490,19 @@ int armas_qlfactor_w(armas_dense_t * A,
         }
     }
 
+    armas_submatrix(&tauk, tau, 0, 0, A->cols, 1);
     wsz = armas_wpos(wb);
     buf = (DTYPE *) armas_wptr(wb);
 
     if (lb == 0 || A->cols <= lb) {
         armas_make(&Wrk, A->cols, 1, A->cols, buf);
-        unblk_qlfactor(A, tau, &Wrk, conf);
+        unblk_qlfactor(A, &tauk, &Wrk, conf);
     } else {
         // block reflector [lb, lb]; temporary space [N(A)-lb,lb] matrix
         armas_make(&T, lb, lb, lb, buf);
         armas_make(&Wrk, A->cols-lb, lb, A->cols-lb, &buf[armas_size(&T)]);
 
-        blk_qlfactor(A, tau, &T, &Wrk, lb, conf);
+        blk_qlfactor(A, &tauk, &T, &Wrk, lb, conf);
     }
     armas_wsetpos(wb, wsz);
     return 0;
-- 
2.43.0


From ea8a9114b274c7ca2499dae06d753e2c8f66d6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:53 +0000
Subject: [PATCH 128/136] fix: reject row vector tau in factorizations

---
 src/lapack/hess.c   | 2 +-
 src/lapack/lq.c     | 2 +-
 src/lapack/qr.c     | 2 +-
 src/lapack/rq.c     | 2 +-
 src/lapack/trired.c | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lapack/hess.c b/src/lapack/hess.c
index dfba204..33aacd0 100644
--- a/src/lapack/hess.c
+++ b/src/lapack/hess.c
@@ -520,7 +520,7 @@ int armas_hessreduce_w(armas_dense_t * A,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-    if (!armas_isvector(tau) || armas_size(tau) != A->rows - 1) {
+    if (!armas_isvector(tau) || tau->cols > 1 || armas_size(tau) != A->rows - 1) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
diff --git a/src/lapack/lq.c b/src/lapack/lq.c
index 240f8be..82ec2d6 100644
--- a/src/lapack/lq.c
+++ b/src/lapack/lq.c
@@ -420,7 +420,7 @@ int armas_lqfactor_w(armas_dense_t * A,
         return 0;
     }
 
-    if (!armas_isvector(tau) || A->rows > armas_size(tau)) {
+    if (!armas_isvector(tau) || tau->cols > 1 || A->rows > armas_size(tau)) {
         conf->error = ARMAS_EINVAL;
         return -1;
     }
diff --git a/src/lapack/qr.c b/src/lapack/qr.c
index af18514..4b9bdb7 100644
--- a/src/lapack/qr.c
+++ b/src/lapack/qr.c
@@ -456,7 +456,7 @@ int armas_qrfactor_w(armas_dense_t * A,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-    if (!armas_isvector(tau) || armas_size(tau) < A->cols) {
+    if (!armas_isvector(tau) || tau->cols > 1 || armas_size(tau) < A->cols) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
diff --git a/src/lapack/rq.c b/src/lapack/rq.c
index 5150488..ad32b51 100644
--- a/src/lapack/rq.c
+++ b/src/lapack/rq.c
@@ -457,7 +457,7 @@ int armas_rqfactor_w(armas_dense_t * A,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-    if (!armas_isvector(tau) || armas_size(tau) != A->rows) {
+    if (!armas_isvector(tau) || tau->cols > 1 || armas_size(tau) != A->rows) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
diff --git a/src/lapack/trired.c b/src/lapack/trired.c
index 2fbd0f2..4f4628b 100644
--- a/src/lapack/trired.c
+++ b/src/lapack/trired.c
@@ -658,7 +658,7 @@ int armas_trdreduce_w(armas_dense_t * A,
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-    if (!armas_isvector(tauq) || armas_size(tauq) != A->cols) {
+    if (!armas_isvector(tauq) || tauq->cols > 1 || armas_size(tauq) != A->cols) {
         conf->error = ARMAS_EINVAL;
         return -ARMAS_EINVAL;
     }
-- 
2.43.0


From 1a732b1c77b688eb8b6501b552c7cf33c7fa38b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:53 +0000
Subject: [PATCH 129/136] fix: reject row vector tau in multiplications

---
 src/lapack/biredm.c  | 4 ++++
 src/lapack/hessm.c   | 2 +-
 src/lapack/housem.c  | 2 +-
 src/lapack/lqmult.c  | 2 +-
 src/lapack/qlmult.c  | 2 +-
 src/lapack/qrmult.c  | 2 +-
 src/lapack/rqmult.c  | 2 +-
 src/lapack/triredm.c | 2 +-
 8 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/lapack/biredm.c b/src/lapack/biredm.c
index 9726df1..2f4f306 100644
--- a/src/lapack/biredm.c
+++ b/src/lapack/biredm.c
@@ -158,6 +158,10 @@ int armas_bdmult_w(armas_dense_t * C,
     if (!(flags & (ARMAS_LEFT | ARMAS_RIGHT)))
         flags |= ARMAS_LEFT;
 
+    if (!A || !tau || tau->cols > 1) {
+        conf->error = ARMAS_EINVAL;
+        return -ARMAS_EINVAL;
+    }
     // NOTE: sizes are checked in QR/LQ functions.
     if (flags & ARMAS_MULTP) {
         flags = (flags & ARMAS_TRANS) ? flags ^ ARMAS_TRANS : flags | ARMAS_TRANS;
diff --git a/src/lapack/hessm.c b/src/lapack/hessm.c
index 57b936f..50c6a20 100644
--- a/src/lapack/hessm.c
+++ b/src/lapack/hessm.c
@@ -114,7 +114,7 @@ int armas_hessmult_w(armas_dense_t * C,
     if (!conf)
         conf = armas_conf_default();
 
-    if (!C) {
+    if (!C || !A || !tau || tau->cols > 1) {
         conf->error = ARMAS_EINVAL;
         return -1;
     }
diff --git a/src/lapack/housem.c b/src/lapack/housem.c
index 789f4c8..3c43535 100644
--- a/src/lapack/housem.c
+++ b/src/lapack/housem.c
@@ -338,7 +338,7 @@ int armas_housemult_w(armas_dense_t * X,
     // check parameter sizes;
     if (flags & ARMAS_UNIT) {
         // this is unit scaled reflector; tau is needed
-        if (armas_size(tau) != Q->cols) {
+        if (!tau || tau->cols > 1 || armas_size(tau) != Q->cols) {
             cf->error = ARMAS_ESIZE;
             return -1;
         }
diff --git a/src/lapack/lqmult.c b/src/lapack/lqmult.c
index 3cb25a4..d06e85d 100644
--- a/src/lapack/lqmult.c
+++ b/src/lapack/lqmult.c
@@ -487,7 +487,7 @@ int armas_lqmult_w(armas_dense_t * C,
     }
     // check sizes; A, tau return from armas_qrfactor()
     P = (flags & ARMAS_RIGHT) != 0 ? C->cols : C->rows;
-    if (P != A->cols || armas_size(tau) != A->rows) {
+    if (P != A->cols || tau->cols > 1 || armas_size(tau) != A->rows) {
         conf->error = ARMAS_ESIZE;
         return -1;
     }
diff --git a/src/lapack/qlmult.c b/src/lapack/qlmult.c
index 8839412..0984236 100644
--- a/src/lapack/qlmult.c
+++ b/src/lapack/qlmult.c
@@ -447,7 +447,7 @@ int armas_qlmult_w(armas_dense_t * C,
     }
     // check sizes; A, tau return from armas_qrfactor()
     P = (flags & ARMAS_RIGHT) != 0 ? C->cols : C->rows;
-    if (P != A->rows || armas_size(tau) != A->cols) {
+    if (P != A->rows || tau->cols > 1 || armas_size(tau) != A->cols) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/qrmult.c b/src/lapack/qrmult.c
index 2fea3f7..45cd495 100644
--- a/src/lapack/qrmult.c
+++ b/src/lapack/qrmult.c
@@ -487,7 +487,7 @@ int armas_qrmult_w(armas_dense_t * C,
     }
     // check sizes; A, tau return from armas_qrfactor()
     P = (flags & ARMAS_RIGHT) != 0 ? C->cols : C->rows;
-    if (P != A->rows || armas_size(tau) != A->cols) {
+    if (P != A->rows || tau->cols > 1 || armas_size(tau) != A->cols) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/rqmult.c b/src/lapack/rqmult.c
index f7d8656..0b120bd 100644
--- a/src/lapack/rqmult.c
+++ b/src/lapack/rqmult.c
@@ -479,7 +479,7 @@ int armas_rqmult_w(armas_dense_t * C,
     }
     // check sizes; A, tau return from armas_qrfactor()
     P = (flags & ARMAS_RIGHT) != 0 ? C->cols : C->rows;
-    if (P != A->cols || armas_size(tau) != A->rows) {
+    if (P != A->cols || tau->cols > 1 || armas_size(tau) != A->rows) {
         conf->error = ARMAS_ESIZE;
         return -1;
     }
diff --git a/src/lapack/triredm.c b/src/lapack/triredm.c
index c7bc69a..093f097 100644
--- a/src/lapack/triredm.c
+++ b/src/lapack/triredm.c
@@ -108,7 +108,7 @@ int armas_trdmult_w(armas_dense_t * C,
         return err;
     }
 
-    if (!A || !tau || armas_size(tau) != A->cols) {
+    if (!A || !tau || tau->cols > 1 || armas_size(tau) != A->cols) {
         conf->error = ARMAS_EINVAL;
         return -1;
     }
-- 
2.43.0


From c7fc48227d888af923cf0ef418435527f7fb4a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:53 +0000
Subject: [PATCH 130/136] fix: report failing multiplication in qrsolve and
 lqsolve

---
 src/lapack/lqsolve.c | 2 +-
 src/lapack/qrsolve.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lapack/lqsolve.c b/src/lapack/lqsolve.c
index 8fca073..7aa622b 100644
--- a/src/lapack/lqsolve.c
+++ b/src/lapack/lqsolve.c
@@ -131,7 +131,7 @@ int armas_lqsolve_w(armas_dense_t * B,
         return armas_lqmult_w(B, A, tau, ARMAS_LEFT, wb, conf);
     }
 
-    if (B->rows != A->cols) {
+    if (B->rows != A->cols || A->cols < A->rows || tau->cols > 1 || armas_size(tau) != A->rows) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
diff --git a/src/lapack/qrsolve.c b/src/lapack/qrsolve.c
index bde09b1..ae9bba0 100644
--- a/src/lapack/qrsolve.c
+++ b/src/lapack/qrsolve.c
@@ -120,7 +120,7 @@ int armas_qrsolve_w(armas_dense_t * B,
         return armas_qrmult_w(B, A, tau, ARMAS_LEFT, wb, conf);
     }
 
-    if (B->rows != A->rows) {
+    if (B->rows != A->rows || A->rows < A->cols || tau->cols > 1 || armas_size(tau) != A->cols) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-- 
2.43.0


From 0ba26bdb1173a6078774922652e1af80fbeae38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:01 +0000
Subject: [PATCH 131/136] fix: reject vectors of wrong size in symmetric rank-2
 update

---
 src/blas/syr2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blas/syr2.c b/src/blas/syr2.c
index d76464f..003e353 100644
--- a/src/blas/syr2.c
+++ b/src/blas/syr2.c
@@ -151,7 +151,7 @@ int armas_mvupdate2_sym(
         conf->error = ARMAS_ENEED_VECTOR;
         return -ARMAS_ENEED_VECTOR;
     }
-    if (A->cols != A->rows || ny != nx) {
+    if (A->cols != A->rows || ny != nx || A->cols != nx) {
         conf->error = ARMAS_ESIZE;
         return -ARMAS_ESIZE;
     }
-- 
2.43.0


From 7ffc943d61ed745e087a9d8157b6c69cb7d3bf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:01 +0000
Subject: [PATCH 132/136] fix: check sizes in cholupdate

---
 src/lapack/cholupd.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lapack/cholupd.c b/src/lapack/cholupd.c
index 6ee7fa7..f1181c8 100644
--- a/src/lapack/cholupd.c
+++ b/src/lapack/cholupd.c
@@ -161,6 +161,10 @@ int armas_cholupdate(armas_dense_t * A, armas_dense_t * X, int flags,
     if (armas_size(A) == 0 || armas_size(X) == 0)
         return 0;
 
+    if (A->rows != A->cols || !armas_isvector(X) || armas_size(X) != A->cols) {
+        conf->error = ARMAS_ESIZE;
+        return -ARMAS_ESIZE;
+    }
     // private functions expect row vector
     if (X->cols == 1) {
         armas_col_as_row(&Xrow, X);
-- 
2.43.0


From ee430481028f4c6e198588a57cc984aa139c9ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:18 +0000
Subject: [PATCH 133/136] fix: print matrices on the given stream

---
 src/base/matrix.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/base/matrix.c b/src/base/matrix.c
index 96fdc67..2cc0b81 100644
--- a/src/base/matrix.c
+++ b/src/base/matrix.c
@@ -181,20 +181,20 @@ void armas_printf(FILE *out, const char *efmt, const armas_dense_t *m)
     int rowpartial = m->rows > 18;
     int colpartial = m->cols > 9;
     for (i = 0; i < m->rows; i++ ) {
-        printf("[");
+        fprintf(out, "[");
         for (j = 0; j < m->cols; j++ ) {
             if (j > 0) {
-                printf(", ");
+                fprintf(out, ", ");
             }
-            printf(efmt, m->elems[j*m->step+i]);
+            fprintf(out, efmt, m->elems[j*m->step+i]);
             if (colpartial && j == 3) {
                 j = m->cols - 5;
-                printf(", ...");
+                fprintf(out, ", ...");
             }
         }
-        printf("]\n");
+        fprintf(out, "]\n");
         if (rowpartial && i == 8) {
-            printf(" ....\n");
+            fprintf(out, " ....\n");
             i = m->rows - 10;
         }
     }
@@ -202,6 +202,6 @@ void armas_printf(FILE *out, const char *efmt, const armas_dense_t *m)
 
 void armas_print(const armas_dense_t *m, FILE *out)
 {
-    armas_printf(out, "%8.1", m);
+    armas_printf(out, "%8.1e", m);
 }
 
-- 
2.43.0


From 8b042bd5e516a535a114e928f881d3b43e1b3c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:10 +0000
Subject: [PATCH 134/136] fix: write control characters in JSON strings

---
 src/io/json_writer.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/io/json_writer.c b/src/io/json_writer.c
index 25543fb..558571c 100644
--- a/src/io/json_writer.c
+++ b/src/io/json_writer.c
@@ -66,9 +66,19 @@ int armas_json_write_token(int token, const void *ptr, size_t len, armas_iostrea
                 JSON_ONERROR(armas_ios_putchar(writer, '\\'));
                 JSON_ONERROR(armas_ios_putchar(writer, '"'));
                 break;
+            case '\f':
+                JSON_ONERROR(armas_ios_putchar(writer, '\\'));
+                JSON_ONERROR(armas_ios_putchar(writer, 'f'));
+                break;
             default:
-                if (!iscntrl(*cp))
+                if ((unsigned char)*cp < 0x20) {
+                    // other control characters have only the numeric escape
+                    n = snprintf(buf, sizeof(buf), "\\u%04x", (unsigned char)*cp);
+                    for (int i = 0; i < n; i++)
+                        JSON_ONERROR(armas_ios_putchar(writer, buf[i]));
+                } else {
                     JSON_ONERROR(armas_ios_putchar(writer, *cp));
+                }
                 break;
             }
         }
-- 
2.43.0


From ddee5d24ef20a4c2ef8b27ab1774eb52b89fddd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:10 +0000
Subject: [PATCH 135/136] fix: report a failed write of the opening quote of a
 JSON string

---
 src/io/json_writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/json_writer.c b/src/io/json_writer.c
index 558571c..8982df5 100644
--- a/src/io/json_writer.c
+++ b/src/io/json_writer.c
@@ -35,7 +35,7 @@ int armas_json_write_token(int token, const void *ptr, size_t len, armas_iostrea
         break;
     case ARMAS_JSON_STRING:
         cp = (char *)ptr;
-        armas_ios_putchar(writer, '"');
+        JSON_ONERROR(armas_ios_putchar(writer, '"'));
         for (size_t k = 0; k < len && *cp; k++, cp++) {
             switch (*cp) {
             case '\t':
-- 
2.43.0


From 18b4842037be4d876ab56546605cb8d7514409f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:39 +0000
Subject: [PATCH 136/136] fix: stop CGNR before rounding errors blow up the
 iterates

---
 src/sparse/cgnr.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/sparse/cgnr.c b/src/sparse/cgnr.c
index 743f4d6..bc860bc 100644
--- a/src/sparse/cgnr.c
+++ b/src/sparse/cgnr.c
@@ -111,7 +111,7 @@ int armassp_cgnr_w(armas_dense_t * x,
                      armas_wbuf_t * W, armas_conf_t * cf)
 {
     armas_dense_t p, Ap, r, z;
-    DTYPE dot_z, dot_p, alpha, beta, dot_z1, *t, rstop, rmult;
+    DTYPE dot_z, dot_p, alpha, beta, dot_z1, dot_r0, *t, rstop, rmult;
     int m, n, maxiter, niter, stat;
 
     if (!cf)
@@ -154,9 +154,10 @@ int armassp_cgnr_w(armas_dense_t * x,
     armas_copy(&r, b, cf);
     armassp_mvmult(ONE, &r, -ONE, A, x, 0, cf);
 
+    dot_r0 = armas_dot(&r, &r, cf);
     // no absolute stopping criteria; make it epsilon^2*(r0, r0) 
     if (rstop == ZERO)
-        rstop = rmult * (rmult * armas_dot(&r, &r, cf));
+        rstop = rmult * (rmult * dot_r0);
     else
         // absolute stopping relative to epsilon*nrm2(r0)
         rstop *= rstop;
@@ -200,6 +201,12 @@ int armassp_cgnr_w(armas_dense_t * x,
         armassp_mvmult(ZERO, &z, ONE, A, &r, ARMAS_TRANS, cf);
 
         dot_z1 = armas_dot(&z, &z, cf);
+        // method minimizes the residual; if it grows only rounding errors are left
+        // and the next iterations would blow them up
+        if (armas_dot(&r, &r, cf) > 2.0 * dot_r0) {
+            niter++;
+            break;
+        }
         beta = dot_z1 / dot_z;
         // p = beta*p + z;
         armas_axpby(beta, &p, ONE, &z, cf);
-- 
2.43.0

