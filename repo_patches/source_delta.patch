From b1055eaed87c822f1e6355375a89dae77253dec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:37 +0000
Subject: [PATCH 01/50] fix: middle_product overflowed delayed sums longer than
 KARX terms

---
 .../lzz_pX_middle_product/src/lzz_pX_middle_product.cpp      | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/lzz_pX_middle_product/src/lzz_pX_middle_product.cpp b/ntl-extras/lzz_pX_middle_product/src/lzz_pX_middle_product.cpp
index 57efc8f..cdd729a 100644
--- a/ntl-extras/lzz_pX_middle_product/src/lzz_pX_middle_product.cpp
+++ b/ntl-extras/lzz_pX_middle_product/src/lzz_pX_middle_product.cpp
@@ -22,14 +22,15 @@ void reduce(zz_p& r, long a, long p, mulmod_t pinv)
 
 /*------------------------------------------------------------*/
 /* naive transposed product of (a,c)                          */
-/* use_long = 1 -> delays reduction                           */
+/* use_long = 1 -> delays reduction (only when sa <= KARX,    */
+/* since use_long is computed for sums of at most KARX terms) */
 /*------------------------------------------------------------*/
 void tPlainMul2(zz_p *b, long sb, const zz_p *a, long sa, const zz_p *c, long sc, long use_long)
 {
     long p = zz_p::modulus();
     mulmod_t pinv = PrepMulMod(p);
 
-    if (use_long == 0)
+    if (use_long == 0 || sa > KARX)
     {
         for (long i = 0; i < sb; i++)
             b[i].LoopHole() = 0;
-- 
2.43.0


From 4175dd29d95b7cf397bc09650883bd8c2b22faf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:37 +0000
Subject: [PATCH 02/50] fix: Taylor shift of the zero polynomial wrote out of
 bounds

---
 ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
index cebac40..45308d4 100644
--- a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
+++ b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
@@ -367,6 +367,10 @@ void zz_pX_shift_DAC::shift(zz_pX& g, const zz_pX& f) const
 zz_pX_shift_large_characteristic::zz_pX_shift_large_characteristic(long d, const zz_p& c) 
     : zz_pX_shift(d)
 {
+    // only the zero polynomial can be shifted, nothing to prepare
+    if (d < 0)
+        return;
+
     // fact contains the factorials 0!, 1!, 2!, ..., d!
     fact.SetLength(d+1);
     set(fact[0]);
-- 
2.43.0


From 8ea81ff2ca3807593623c5223326da03378c77eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:37 +0000
Subject: [PATCH 03/50] fix: add_LeftShift returned an unnormalized polynomial
 when b is zero

---
 ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
index 45308d4..783df52 100644
--- a/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
+++ b/ntl-extras/lzz_pX_extra/src/lzz_pX_extra.cpp
@@ -450,6 +450,12 @@ void shift(zz_pX& g, const zz_pX& f, const zz_p& c)
  * `a` but not `b`. */
 void add_LeftShift(zz_pX & c, const zz_pX & a, const zz_pX & b, const long k)
 {
+   if (IsZero(b))
+   {
+       c = a;
+       return;
+   }
+
    const long da = deg(a);
    const long db = deg(b)+k;
    const long minab = min(da, db);
-- 
2.43.0


From 53b3e10b2880762fa8d949a9b7c60c5a667897dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:51 +0000
Subject: [PATCH 04/50] fix: conversion to matrix polynomial read past the end
 of entries of smaller degree

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
index dbf67d7..631cde8 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
@@ -571,7 +571,7 @@ void conv(Vec<Mat<zz_p>> & matp, const Mat<zz_pX> & pmat)
         for (long i = 0; i < m; ++i)
             for (long j = 0; j < n; ++j)
                 for (long kk = 0; kk < k_bound; ++kk)
-                    matp[k+kk][i][j] = pmat[i][j][k+kk];
+                    matp[k+kk][i][j] = coeff(pmat[i][j], k+kk);
     }
 }
 
-- 
2.43.0


From 5bcb679531e61a802e0fba182f072019c4ecb2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:51 +0000
Subject: [PATCH 05/50] fix: row/column truncation left the other entries of
 the destination as they were

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
index 631cde8..62d91d9 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_utils.cpp
@@ -255,16 +255,18 @@ void trunc(Mat<zz_pX>& x, const Mat<zz_pX>& a, long n)
 
 void truncRow(Mat<zz_pX>& x, const Mat<zz_pX>& a, long r, long n)
 {
-    x.SetDims(a.NumRows(), a.NumCols()); // does nothing if x is a
+    if (&x != &a)
+        x = a;
     for (long c = 0; c < x.NumCols(); ++c)
-        trunc(x[r][c], a[r][c], n);
+        trunc(x[r][c], x[r][c], n);
 }
 
 void truncCol(Mat<zz_pX>& x, const Mat<zz_pX>& a, long c, long n)
 {
-    x.SetDims(a.NumRows(), a.NumCols()); // does nothing if x is a
+    if (&x != &a)
+        x = a;
     for (long r = 0; r < x.NumRows(); ++r)
-        trunc(x[r][c], a[r][c], n);
+        trunc(x[r][c], x[r][c], n);
 }
 
 
-- 
2.43.0


From 878f3b36399cbb2317dc2c4dfb071c3a00cb69ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:51 +0000
Subject: [PATCH 06/50] fix: vector-matrix product aborted on swapping a
 fixed-length row

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
index 1d9c46a..cb7e448 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
@@ -120,7 +120,7 @@ void multiply(Vec<zz_pX>& c, const Vec<zz_pX>& a, const Mat<zz_pX>& b, long is_p
     amat[0] = a;
     Mat<zz_pX> cmat;
     multiply(cmat, amat, b, is_prime);
-    c.swap(cmat[0]);
+    c = cmat[0];
 }
 
 
-- 
2.43.0


From 820c5c0cee71095c3918ff1817a4d88a08d3cc7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:51 +0000
Subject: [PATCH 07/50] fix: FFT products with matmul3 dereferenced an empty
 array for outer-product shapes

---
 .../src/mat_lzz_pX_middle_product_evaluate_FFT.cpp               | 1 +
 .../mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product_evaluate_FFT.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product_evaluate_FFT.cpp
index 23ba4b0..1fc3033 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product_evaluate_FFT.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product_evaluate_FFT.cpp
@@ -569,6 +569,7 @@ void middle_product_evaluate_FFT_matmul3(Mat<zz_pX> & b, const Mat<zz_pX> & a, c
         tmp.swap(mat_valA[j]);
     }
 
+    R.tbl[0].SetLength(len); // may have been swapped with an empty array
     b.SetDims(s, u);
     for (long i = 0; i < s; ++i)
         for (long k = 0; k < u; k+=MATRIX_BLOCK_SIZE)
diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp
index c60bd67..e504fa2 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_FFT.cpp
@@ -511,6 +511,7 @@ void multiply_evaluate_FFT_matmul3(Mat<zz_pX> & c, const Mat<zz_pX> & a, const M
     }
 
     // interpolate c from the values in mat_valA
+    R.tbl[0].SetLength(n); // may have been swapped with an empty array
     c.SetDims(s, u);
     for (long i = 0; i < s; ++i)
         for (long k = 0; k < u; k+=MATRIX_BLOCK_SIZE)
-- 
2.43.0


From 0d351378b8adcc357c3611e148e3a10bd69d74b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:51 +0000
Subject: [PATCH 08/50] fix: column Popov test read past the last column of
 tall matrices

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp
index 3fe0a74..07c4519 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_forms.cpp
@@ -818,7 +818,7 @@ bool is_col_popov(const Mat<zz_pX> & pmat)
         for (long j = 0; j < i; ++j)
             if (deg(pmat[pivind[i]][j]) >= pivdeg[i])
                 return false;
-        for (long j = i+1; j < pmat.NumRows(); ++j)
+        for (long j = i+1; j < pmat.NumCols(); ++j)
             if (deg(pmat[pivind[i]][j]) >= pivdeg[i])
                 return false;
     }
@@ -856,7 +856,7 @@ bool is_col_popov(const Mat<zz_pX> & pmat, const VecLong & shift)
         for (long j = 0; j < i; ++j)
             if (deg(pmat[pivind[i]][j]) >= pivdeg[i])
                 return false;
-        for (long j = i+1; j < pmat.NumRows(); ++j)
+        for (long j = i+1; j < pmat.NumCols(); ++j)
             if (deg(pmat[pivind[i]][j]) >= pivdeg[i])
                 return false;
     }
-- 
2.43.0


From c027fd7692222f4f5d370c5219fa078f5d8e1b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:51 +0000
Subject: [PATCH 09/50] fix: partially linearized products added to stale
 coefficients of the destination

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
index dde7d1c..58f0c91 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
@@ -231,6 +231,7 @@ void right_parlin_multiply(
         for (long j=0; j<b.NumCols(); ++j)
         {
             c[i][j].SetLength(deg_a + column_degree[j] + 1);
+            clear(c[i][j].rep);
             long d_init=0;
             for (long jj=parlin_cols[j]; jj<parlin_cols[j+1]; ++jj)
             {
@@ -273,6 +274,7 @@ void right_parlin_middle_product(
         for (long j=0; j<b.NumCols(); ++j)
         {
             c[i][j].SetLength(deg_a + target_degree[j] - d_inf + 1);
+            clear(c[i][j].rep);
             long d_init=0;
             for (long jj=parlin_cols[j]; jj<parlin_cols[j+1]; ++jj)
             {
-- 
2.43.0


From c396cfb539f53457b44b62ef48bb2c464b9ac089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:42 +0000
Subject: [PATCH 10/50] fix: kernel-based linear solver reported no solution
 when A was not column reduced

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp  | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
index 6c927da..f44c967 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
@@ -482,17 +482,22 @@ long linsolve_via_kernel(
     row_pivots(pivind, shift, kerbas, copy_shift);
 
     // find index of row of kerbas with pivot index in the last entry
-    VecLong::const_iterator pivind_n = std::find(pivind.begin(), pivind.end(), n);
+    long row = std::find(pivind.begin(), pivind.end(), n) - pivind.begin();
 
-    // if no such row, there is no solution
+    // if no such row, take any row whose last entry is nonzero
+    // --> happens if A is not column reduced: then, the degrees in A*u may
+    // cancel out, and the pivot may be in an entry of u
+    const long nrows = kerbas.NumRows();
+    if (row == (long) pivind.size())
+        for (row = 0; row < nrows && IsZero(kerbas[row][n]); ++row) ;
+
+    // if still no such row, there is no solution
     // --> may happen if kernel is empty, which itself may happen only if m > n
     // --> may also happen if A is rank-deficient but b is not in the
     // K(x)-column space of A, then kerbas is simply a kernel basis for A
-    if (pivind_n==pivind.end())
+    if (row == nrows)
         return 0;
 
-    const long row = pivind_n - pivind.begin();
-
     // deduce solution
     u.SetLength(n);
     for (long j = 0; j < n; ++j)
-- 
2.43.0


From 3aa8c245785b4cddecc1a782911419d676919132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:42 +0000
Subject: [PATCH 11/50] fix: geometric truncated inverse aborted when Newton
 iteration starts at order 1

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
index 1e0d55f..353327d 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
@@ -332,7 +332,8 @@ void newton_inv_trunc_geometric(Mat<zz_pX>& x, const Mat<zz_pX>& a, long m, long
 
     while (k < m)
     {
-        long n = 3*k - 2;
+        // need deg(delta x) < n, and also deg(a mod t^(2k)) < n for evaluation
+        long n = max(3*k - 2, 2*k);
         zz_pX_Multipoint_Geometric ev = get_geometric_points(n);
 
         ev.prepare_degree(k - 1);
-- 
2.43.0


From a1d2513fa891bb53d0121654753da2eed2a31919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:44 +0000
Subject: [PATCH 12/50] fix: matrix middle product wrote out of bounds when the
 first operand is zero

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp
index 0f4e11d..6c58fb0 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_middle_product.cpp
@@ -20,6 +20,16 @@ void middle_product(Mat<zz_pX> & b, const Mat<zz_pX> & a, const Mat<zz_pX> & c,
     // TODO do proper timing to find some better threshold (maybe all the
     // copying when we just have degA == dA-1 is not a good idea)
     const long degA = deg(a);
+    if (degA < 0)
+    {
+        const long m = a.NumRows();
+        const long p = c.NumCols();
+        b.SetDims(m, p);
+        for (long i = 0; i < m; ++i)
+            for (long j = 0; j < p; ++j)
+                clear(b[i][j]);
+        return;
+    }
     if (degA < dA)
     {
         Mat<zz_pX> cc;
-- 
2.43.0


From 873e76d69ce279b13153856e07e8dddb54c408df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:32 +0000
Subject: [PATCH 13/50] fix: series-based linear solver overwrote the
 right-hand side when A is constant and u aliases b

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp   | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
index f44c967..d657fb7 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linsolve.cpp
@@ -314,19 +314,17 @@ void linsolve_via_series(Vec<zz_pX> &u, zz_pX& den, const Mat<zz_pX>& A, const V
     {
         Mat<zz_p> iA;
         inv(iA, coeff(A, 0));
-        u.SetLength(n);
+        // note: u may alias b
+        Vec<zz_pX> sol(INIT_SIZE, n);
         // TODO write function for mul(u, iA, b);
-        zz_pX buf1, buf2;
+        zz_pX buf;
         for (long i = 0; i < n; ++i)
-        {
-            clear(buf1);
             for (long j = 0; j < n; ++j)
             {
-                mul(buf2, iA[i][j], b[j]);
-                add(buf1, buf1, buf2);
+                mul(buf, iA[i][j], b[j]);
+                add(sol[i], sol[i], buf);
             }
-            u[i].swap(buf1);
-        }
+        u.swap(sol);
         set(den);
         return;
     }
-- 
2.43.0


From 5004d2209a1f8f7f2a50663fb500971d3dc70466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:52 +0000
Subject: [PATCH 14/50] fix: kernel bases reported shifted row degrees off by a
 constant

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
index ab06b2e..9a6650a 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_kernel.cpp
@@ -492,6 +492,8 @@ void kernel_basis_zls_via_approximation(
         for (long i = 0; i < m1; ++i)
             kerbas[i].swap(appbas[rows_app_ker[i]]);
         shift.swap(rdeg1);
+        for (long & x : shift) // shifted row degree for the input shift
+            x += diff_shift;
         return;
     }
 
@@ -539,6 +541,8 @@ void kernel_basis_zls_via_approximation(
         for (long i = 0; i < m1; ++i)
             kerbas[i].swap(appbas[rows_app_ker[i]]);
         shift.swap(rdeg1);
+        for (long & x : shift) // shifted row degree for the input shift
+            x += diff_shift;
         return;
     }
 
@@ -804,6 +808,8 @@ void kernel_basis_zls_via_interpolation(
         for (long i = 0; i < m1; ++i)
             kerbas[i].swap(intbas[rows_int_ker[i]]);
         shift.swap(rdeg1);
+        for (long & x : shift) // shifted row degree for the input shift
+            x += diff_shift;
         return;
     }
 
@@ -858,6 +864,8 @@ void kernel_basis_zls_via_interpolation(
         for (long i = 0; i < m1; ++i)
             kerbas[i].swap(intbas[rows_int_ker[i]]);
         shift.swap(rdeg1);
+        for (long & x : shift) // shifted row degree for the input shift
+            x += diff_shift;
         return;
     }
 
-- 
2.43.0


From 3ff8d769392dd783dd899ea9a663df9b34a46549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:52 +0000
Subject: [PATCH 15/50] fix: approximant_basis indexed the empty default shift

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_approximant.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_approximant.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_approximant.cpp
index cadf63d..cb9ed34 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_approximant.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_approximant.cpp
@@ -33,6 +33,8 @@ void approximant_basis(
     if (row_wise && not generic)
     {
         rdeg = shift;
+        if (rdeg.empty()) // default shift: uniform
+            rdeg.resize(pmat.NumRows(), 0);
         if (form<PolMatForm::POPOV)
         {
             appbas_iterative(appbas,pmat,order,rdeg);
-- 
2.43.0


From cd0caf112194edafc3abeaa33d3a5028848a9bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:12 +0000
Subject: [PATCH 16/50] fix: geometric interpolant basis verification aborted
 on bases of degree reaching the order

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp
index 9f760ff..fd44307 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_interpolant.cpp
@@ -87,6 +87,12 @@ bool is_interpolant_basis_geometric(
 
     // test that the matrix consists of interpolants
     zz_pX_Multipoint_Geometric ev(pt, order);
+    if (deg(intbas) >= order) // geometric evaluation requires degree < order
+    {
+        Vec<zz_p> pts;
+        ev.get_points(pts);
+        return is_interpolant_basis(intbas, evals, pts, shift, form, randomized);
+    }
     Vec<Mat<zz_p>> intbas_evals;
     ev.evaluate_matrix(intbas_evals, intbas);
     Mat<zz_p> res;
-- 
2.43.0


From 40de87b41090802a4010c08243e0a1635c096121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:12 +0000
Subject: [PATCH 17/50] fix: generic matrix-Pade approximation aborted at order
 3

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp    | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
index c041c3e..7190416 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
@@ -1757,6 +1757,13 @@ void matrix_pade_generic_iterative(
 #ifdef MATRIX_PADE_GEN_PROFILE
     tt = GetWallTime();
 #endif // MATRIX_PADE_GEN_PROFILE
+        // order==3: the residual is still [[pmat], [-Id]] and K0 is in D2[1]
+        if (d==1)
+        {
+            K0 = D2[1];
+            R_bot[order-2].SetDims(n, n);
+            R_bot[order-1].SetDims(n, n);
+        }
         // update the residual
         // --> left-multiply by [ [X I, 0], [K0, I] ]
         // here, no need for updating R_top[0...order-2], R_bot[0...order-3]
-- 
2.43.0


From 28543d16fe5269bc42386313e3c0ed3ca3b8700b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:12 +0000
Subject: [PATCH 18/50] fix: generic approximant bases had unnormalized entries

---
 .../src/mat_lzz_pX_pmbasis_generic.cpp         | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
index 7190416..06bef3c 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_pmbasis_generic.cpp
@@ -729,6 +729,11 @@ void mbasis_generic_2n_n_rescomp(
             SetCoeff(appbas[i][i], d);
     }
 
+    // leading coefficients may be zero
+    for (long i = 0; i < 2*n; ++i)
+        for (long j = 0; j < 2*n; ++j)
+            appbas[i][j].normalize();
+
 #ifdef MBASIS_GEN_PROFILE
     t_others += GetWallTime()-tt;
     double t_total = t_res + t_app + t_ker + t_others;
@@ -1309,6 +1314,11 @@ void mbasis_generic_2n_n_resupdate(
         for (long i = 0; i < 2*n; ++i)
             SetCoeff(appbas[i][i], d);
     }
+
+    // leading coefficients may be zero
+    for (long i = 0; i < 2*n; ++i)
+        for (long j = 0; j < 2*n; ++j)
+            appbas[i][j].normalize();
 #ifdef MBASIS_GEN_PROFILE
     t_others += GetWallTime()-tt;
     double t_total = t_res + t_app + t_ker + t_others;
@@ -1898,6 +1908,14 @@ void matrix_pade_generic_iterative(
             }
     }
 
+    // leading coefficients may be zero
+    for (long i = 0; i < n; ++i)
+        for (long j = 0; j < n; ++j)
+        {
+            den1[i][j].normalize();
+            den2[i][j].normalize();
+        }
+
 #ifdef MATRIX_PADE_GEN_PROFILE
     t_others += GetWallTime()-tt;
     double t_total = t_res + t_app + t_ker + t_others;
-- 
2.43.0


From e5369ff60f248de721955d37323816cad742e0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:06 +0000
Subject: [PATCH 19/50] fix: one-point geometric progressions reported a wrong
 point

---
 ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
index 0e4e253..15b8828 100644
--- a/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
+++ b/ntl-extras/lzz_pX_CRT/src/lzz_pX_Multipoint_Geometric.cpp
@@ -104,7 +104,7 @@ zz_pX_Multipoint_Geometric::zz_pX_Multipoint_Geometric(const zz_p& r, const zz_p
     if (n==1)
     {
         pts.SetLength(1);
-        mul(pts[0], s, r);
+        pts[0] = s;
     }
 
     // bad case: we have an FFT prime of low order
@@ -255,7 +255,7 @@ zz_p zz_pX_Multipoint_Geometric::get_q() const
 zz_p zz_pX_Multipoint_Geometric::get_s() const
 {
     if (n == 1)
-        return to_zz_p(1);
+        return pts[0];
     else
         return xs[1] / x[1];
 }
-- 
2.43.0


From 2375020e6b2e8eca5b6b5fb72a22b712dc2d15b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:21 +0000
Subject: [PATCH 20/50] fix: integer polynomials were written in a ring that is
 never declared

---
 ntl-extras/magma_output/src/magma_output.cpp | 4 ++--
 ntl-extras/sage_output/src/sage_output.cpp   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ntl-extras/magma_output/src/magma_output.cpp b/ntl-extras/magma_output/src/magma_output.cpp
index e36bbba..49ef01c 100644
--- a/ntl-extras/magma_output/src/magma_output.cpp
+++ b/ntl-extras/magma_output/src/magma_output.cpp
@@ -25,11 +25,11 @@ void magma_init_X()
 }
 
 /*------------------------------------------------------------*/
-/* initializes U<XX>=Z[XX]                                    */
+/* initializes UZ<XX>=Z[XX]                                   */
 /*------------------------------------------------------------*/
 void magma_init_ZZX()
 {
-    cout << "U<XX> := PolynomialRing(Integers());\n";
+    cout << "UZ<XX> := PolynomialRing(Integers());\n";
 }
 
 
diff --git a/ntl-extras/sage_output/src/sage_output.cpp b/ntl-extras/sage_output/src/sage_output.cpp
index d03eb98..fb546fc 100644
--- a/ntl-extras/sage_output/src/sage_output.cpp
+++ b/ntl-extras/sage_output/src/sage_output.cpp
@@ -29,7 +29,7 @@ void sage_init_X()
 /*------------------------------------------------------------*/
 void sage_init_ZZX()
 {
-    cout << "U.<XX> = PolynomialRing(Integers())\n";
+    cout << "UZ.<XX> = PolynomialRing(Integers())\n";
 }
 
 
-- 
2.43.0


From f6f024703adf6b37c548e45e7d680c7fc898d8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:21 +0000
Subject: [PATCH 21/50] fix: vectors of polynomials were written without the
 requested variable

---
 ntl-extras/magma_output/src/magma_output.cpp | 2 +-
 ntl-extras/sage_output/src/sage_output.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/magma_output/src/magma_output.cpp b/ntl-extras/magma_output/src/magma_output.cpp
index 49ef01c..f4a3981 100644
--- a/ntl-extras/magma_output/src/magma_output.cpp
+++ b/ntl-extras/magma_output/src/magma_output.cpp
@@ -187,7 +187,7 @@ void magma_output(const Vec<zz_pX> & v, const string & var)
     cout << "[";
     for (long i = 0; i < v.length(); i++)
     {
-        magma_output(v[i]);
+        magma_output(v[i], var);
         if (i < v.length()-1)
             cout << ", ";
     }
diff --git a/ntl-extras/sage_output/src/sage_output.cpp b/ntl-extras/sage_output/src/sage_output.cpp
index fb546fc..155ecf2 100644
--- a/ntl-extras/sage_output/src/sage_output.cpp
+++ b/ntl-extras/sage_output/src/sage_output.cpp
@@ -189,7 +189,7 @@ void sage_output(const Vec<zz_pX> & v, const string & var)
     cout << "[";
     for (long i = 0; i < v.length(); i++)
     {
-        sage_output(v[i]);
+        sage_output(v[i], var);
         if (i < v.length()-1)
             cout << ", ";
     }
-- 
2.43.0


From c33ce6a6ab34ed8cab7946288aad7bcc5ced2655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:54 +0000
Subject: [PATCH 22/50] fix: Cauchy-like systems of rank 0 stopped with an
 error instead of being solved

---
 .../structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp    | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp
index 52f3438..e19917e 100644
--- a/ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/cauchy_like_geometric_lzz_p.cpp
@@ -107,6 +107,9 @@ void cauchy_like_geometric_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>&
     for (long i = 0; i < m; i++)
         output[i] = 0;
 
+    if (m == 0 || n == 0)
+        return;
+
     for (long i = 0; i < alpha; i++)
     {
         for (long j = 0; j < n; j++)
@@ -317,6 +320,9 @@ void cauchy_like_geometric_lzz_p::mul_left(Vec<zz_p>& output, const Vec<zz_p>& i
     for (long i = 0; i < n; i++)
         output[i] = 0;
 
+    if (m == 0 || n == 0)
+        return;
+
     for (long i = 0; i < alpha; i++)
     {
         for (long j = 0; j < m; j++)
-- 
2.43.0


From 2940c9743185cab922ff18d69e3522926e5679c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:54 +0000
Subject: [PATCH 23/50] fix: left product by a circulant_column matrix wrote
 past its buffer when there are fewer columns than rows

---
 ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
index fe33fbf..e666ee4 100644
--- a/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
@@ -198,7 +198,7 @@ void circulant_column_lzz_p::mul_left(Vec<zz_p>& res, const Vec<zz_p>& input) co
     fftRep fft_input = fftRep(INIT_SIZE, K);
     
     zz_pX input_X;
-    input_X.rep.SetLength(m);
+    input_X.rep.SetLength(n);
     zz_p *cf = input_X.rep.elts();
     for (long i = 0; i < n; i++)
             cf[i] = input[i];
-- 
2.43.0


From fd47da0854f5a64ac73cf2f31ad4a671c5b69182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:14 +0000
Subject: [PATCH 24/50] fix: to_dense of structured matrices added to, or kept,
 what the destination held

---
 ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp      | 1 +
 ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp       | 1 +
 .../structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp     | 1 +
 ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp    | 1 +
 ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp     | 1 +
 .../structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp   | 1 +
 ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp  | 1 +
 7 files changed, 7 insertions(+)

diff --git a/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
index ee35dac..fd8aba7 100644
--- a/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
@@ -132,6 +132,7 @@ void hankel_like_minus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) cons
 void hankel_like_minus_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += lower_triangular_toeplitz_G[i].to_dense() * circulant_H[i].to_dense();
diff --git a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
index a6d7c7d..5758f22 100644
--- a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
@@ -128,6 +128,7 @@ void hankel_like_plus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 void hankel_like_plus_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += circulant_G[i].to_dense() * lower_triangular_toeplitz_H[i].to_dense();
diff --git a/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
index 4f89305..c7f9b12 100644
--- a/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
@@ -62,6 +62,7 @@ long lower_triangular_toeplitz_lzz_p::NumRows() const
 void lower_triangular_toeplitz_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(n, n);
+    clear(Mdense);
     for (long j = 0; j < n; j++)
         for (long i = j; i < n; i++)
             Mdense[i][j] = data[i-j];
diff --git a/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
index a9478eb..e73da70 100644
--- a/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
@@ -133,6 +133,7 @@ void toeplitz_like_minus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) co
 void toeplitz_like_minus_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += toeplitz_G[i].to_dense() * circulant_H[i].to_dense();
diff --git a/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
index f2d4100..6f23876 100644
--- a/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
@@ -124,6 +124,7 @@ void toeplitz_like_plus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) con
 void toeplitz_like_plus_lzz_p::to_dense(Mat<zz_p>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += circulant_G[i].to_dense() * lower_triangular_toeplitz_H[i].to_dense();
diff --git a/ntl-extras/structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp b/ntl-extras/structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp
index 2cc33ed..44dc71a 100644
--- a/ntl-extras/structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp
+++ b/ntl-extras/structured_lzz_pX/src/lower_triangular_toeplitz_lzz_pX.cpp
@@ -92,6 +92,7 @@ long lower_triangular_toeplitz_lzz_pX::NumRows() const
 void lower_triangular_toeplitz_lzz_pX::to_dense(Mat<zz_pX>& Mdense) const 
 {
     Mdense.SetDims(n, n);
+    clear(Mdense);
     for (long j = 0; j < n; j++)
         for (long i = j; i < n; i++)
             Mdense[i][j] = data[i-j];
diff --git a/ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp b/ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp
index 6b9f25d..6012c6a 100644
--- a/ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp
+++ b/ntl-extras/structured_lzz_pX/src/toeplitz_like_minus_lzz_pX.cpp
@@ -198,6 +198,7 @@ void toeplitz_like_minus_lzz_pX::mul_left_trunc(Vec<zz_pX>& output, const Vec<zz
 void toeplitz_like_minus_lzz_pX::to_dense(Mat<zz_pX>& Mdense) const 
 {
     Mdense.SetDims(m, n);
+    clear(Mdense);
     for (long i = 0; i < NumGens(); i++)
     {
         Mdense += toeplitz_G[i].to_dense() * circulant_H[i].to_dense();
-- 
2.43.0


From 418f32dbde96592fa955037d426b908fa1299c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:14 +0000
Subject: [PATCH 25/50] fix: mosaic solvers read past an empty vector when the
 system has no solution

---
 ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp   | 6 ++++++
 ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
index 574e30d..be3450f 100644
--- a/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
@@ -623,6 +623,12 @@ long mosaic_hankel_lzz_p::solve(Vec<zz_p>& x, const Vec<zz_p> b, long thresh, lo
 
     if (s != 1)
         return 0;
+
+    if (xp.length() == 0) // no solution
+    {
+        x.SetLength(0);
+        return 1;
+    }
     
     for (long i = 0; i < m; i++)
         xp[i] = xp[i] * f[i];
diff --git a/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
index 4b70add..3fdc303 100644
--- a/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
@@ -641,6 +641,12 @@ long mosaic_toeplitz_lzz_p::solve(Vec<zz_p>& x, const Vec<zz_p> b, long thresh,
 
     if (s != 1)
         return 0;
+
+    if (xp.length() == 0) // no solution
+    {
+        x.SetLength(0);
+        return 1;
+    }
     
     for (long i = 0; i < m; i++)
         xp[i] = xp[i] * f[i];
-- 
2.43.0


From 55085b1596e36ac334f454592dc3d4a32d4ef49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:14 +0000
Subject: [PATCH 26/50] fix: mosaic solvers scaled by a diagonal matrix that
 could be singular

---
 ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp   | 8 ++++++--
 ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
index be3450f..7807dc3 100644
--- a/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/mosaic_hankel_lzz_p.cpp
@@ -503,11 +503,15 @@ static long to_cauchy_grp(cauchy_like_geometric_lzz_p& CL,
 
     e.SetLength(n);
     for (long i = 0; i < n; i++)
-        e[i] = random_zz_p();
+        do
+            e[i] = random_zz_p();
+        while (e[i] == 0);
 
     f.SetLength(m);
     for (long i = 0; i < m; i++)
-        f[i] = random_zz_p();
+        do
+            f[i] = random_zz_p();
+        while (f[i] == 0);
 
     Vec<zz_p> tmp_v;
     for (long j = 0; j < alpha; j++)
diff --git a/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
index 3fdc303..b4874ac 100644
--- a/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/mosaic_toeplitz_lzz_p.cpp
@@ -512,11 +512,15 @@ static long to_cauchy_grp(cauchy_like_geometric_lzz_p& CL,
 
     e.SetLength(n);
     for (long i = 0; i < n; i++)
-        e[i] = random_zz_p();
+        do
+            e[i] = random_zz_p();
+        while (e[i] == 0);
 
     f.SetLength(m);
     for (long i = 0; i < m; i++)
-        f[i] = random_zz_p();
+        do
+            f[i] = random_zz_p();
+        while (f[i] == 0);
 
 
     // gens 0 to alpha-1
-- 
2.43.0


From 9530532939dcb928d400b6a2b631c1137e5d9376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:32 +0000
Subject: [PATCH 27/50] fix: top_right_block_inverse read past the end of the
 cofactors

---
 ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
index 641ae98..2376898 100644
--- a/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/sylvester_lzz_p.cpp
@@ -514,13 +514,13 @@ long sylvester_lzz_p::top_right_block_inverse(Mat<zz_p>& block, long m)
     zz_pX rS;
     rS.rep.SetLength(dB);
     for (long i = 0; i < dB; i++)
-        rS[i] = s[dB - 1 - i];
+        rS[i] = coeff(s, dB - 1 - i);
     rS.normalize();
 
     zz_pX rT;
     rT.rep.SetLength(dA);
     for (long i = 0; i < dA; i++)
-        rT[i] = t[dA - 1 - i];
+        rT[i] = coeff(t, dA - 1 - i);
     rT.normalize();
 
     zz_pX rS_over_rB, R_rS_rB, rT_over_rA, R_rT_rA;
-- 
2.43.0


From f3c0945228fb15c015b82a5cc3d8e21ee2f687bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:59 +0000
Subject: [PATCH 28/50] fix: products by a polynomial Sylvester matrix wrote
 past their buffers when one half of the vector is zero

---
 .../src/sylvester_lzz_pX.cpp                  | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp b/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
index d13ee8b..2b31260 100644
--- a/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
+++ b/ntl-extras/structured_lzz_pX/src/sylvester_lzz_pX.cpp
@@ -81,8 +81,8 @@ void sylvester_lzz_pX::mul_right(Vec<zz_pX>& out, const Vec<zz_pX>& in) const
     for (long i = 0; i < dAy; i++)
         in_G[i] = in[i + dBy];
 
-    long dFx = deg(in_F);    
-    long dGx = deg(in_G);
+    long dFx = max(deg(in_F), 0L); // 0 if zero    
+    long dGx = max(deg(in_G), 0L); // 0 if zero
 
     to_kronecker(kro_A, a, dAx + dFx);  
     to_kronecker(kro_F, in_F, dAx + dFx); 
@@ -137,8 +137,8 @@ void sylvester_lzz_pX::mul_right_trunc(Vec<zz_pX>& out, const Vec<zz_pX>& in, lo
         trunc(in_F[i], in[i], s);
     for (long i = 0; i < dAy; i++)
         trunc(in_G[i], in[i + dBy], s);
-    long dFx = deg(in_F);    
-    long dGx = deg(in_G);
+    long dFx = max(deg(in_F), 0L); // 0 if zero    
+    long dGx = max(deg(in_G), 0L); // 0 if zero
 
     Vec<zz_pX> truncA, truncB;
     truncA.SetLength(a.length());
@@ -147,8 +147,8 @@ void sylvester_lzz_pX::mul_right_trunc(Vec<zz_pX>& out, const Vec<zz_pX>& in, lo
         trunc(truncA[i], a[i], s);
     for (long i = 0; i < b.length(); i++)
         trunc(truncB[i], b[i], s);
-    long dTAx = deg(truncA);
-    long dTBx = deg(truncB);
+    long dTAx = max(deg(truncA), 0L); // 0 if zero
+    long dTBx = max(deg(truncB), 0L); // 0 if zero
 
     to_kronecker(kro_A, truncA, dTAx + dFx);  
     to_kronecker(kro_F, in_F, dTAx + dFx); 
@@ -202,7 +202,7 @@ void sylvester_lzz_pX::mul_left(Vec<zz_pX>& out, const Vec<zz_pX>& in) const
         return;
     }
 
-    long d = deg(in);
+    long d = max(deg(in), 0L); // 0 if zero
     Vec<zz_pX> outA, outB;
     zz_pX kro_revA, kro_revB;
     to_kronecker(kro_revA, revA, dAx + d);  
@@ -270,9 +270,9 @@ void sylvester_lzz_pX::mul_left_trunc(Vec<zz_pX>& out, const Vec<zz_pX>& in, lon
     for (long i = 0; i < revB.length(); i++)
         trunc(revB_trunc[i], revB[i], s);
 
-    long d = deg(in_trunc);
-    long dTAx = deg(revA_trunc);
-    long dTBx = deg(revB_trunc);
+    long d = max(deg(in_trunc), 0L); // 0 if zero
+    long dTAx = max(deg(revA_trunc), 0L); // 0 if zero
+    long dTBx = max(deg(revB_trunc), 0L); // 0 if zero
 
     Vec<zz_pX> outA, outB;
     zz_pX kro_revA, kro_revB;
-- 
2.43.0


From 56c9a5c170bd52df6e930ae4dff9784ce64abcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:31 +0000
Subject: [PATCH 29/50] fix: products by circulant, triangular Toeplitz and
 Toeplitz-/Hankel-like matrices left the destination unset

---
 .../src/circulant_column_lzz_p.cpp            | 18 +++++++
 .../src/circulant_row_lzz_p.cpp               | 19 ++++++-
 .../src/hankel_like_minus_lzz_p.cpp           | 50 +++++++++++++++++++
 .../src/hankel_like_plus_lzz_p.cpp            | 46 +++++++++++++++++
 .../src/lower_triangular_toeplitz_lzz_p.cpp   | 18 +++++++
 .../src/toeplitz_like_minus_lzz_p.cpp         | 46 +++++++++++++++++
 .../src/toeplitz_like_plus_lzz_p.cpp          | 46 +++++++++++++++++
 7 files changed, 242 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
index e666ee4..ef28030 100644
--- a/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/circulant_column_lzz_p.cpp
@@ -176,6 +176,19 @@ void circulant_column_lzz_p::mul_right(Mat<zz_p>& res, const Mat<zz_p>& input) c
         res = mul_right(input);
         return;
     }
+
+    long p = input.NumCols();
+    res.SetDims(n, p);
+    Vec<zz_p> col_in, col_out;
+    col_in.SetLength(input.NumRows());
+    for (long j = 0; j < p; j++)
+    {
+        for (long i = 0; i < input.NumRows(); i++)
+            col_in[i] = input[i][j];
+        mul_right(col_out, col_in);
+        for (long i = 0; i < n; i++)
+            res[i][j] = col_out[i];
+    }
 }
 
 /*------------------------------------------------------------*/
@@ -247,6 +260,11 @@ void circulant_column_lzz_p::mul_left(Mat<zz_p>& res, const Mat<zz_p>& input) co
         res = mul_left(input);
         return;
     }
+
+    long p = input.NumRows();
+    res.SetDims(p, m);
+    for (long i = 0; i < p; i++)
+        mul_left(res[i], input[i]);
 }
 
 
diff --git a/ntl-extras/structured_lzz_p/src/circulant_row_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/circulant_row_lzz_p.cpp
index 0ccf51f..169e2f6 100644
--- a/ntl-extras/structured_lzz_p/src/circulant_row_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/circulant_row_lzz_p.cpp
@@ -157,7 +157,19 @@ void circulant_row_lzz_p::mul_right(Mat<zz_p>& res, const Mat<zz_p>& input) cons
         res = mul_right(input);
         return;
     }
-    Error ("not implemented yet."); // todo: move to structured_lzz_p.cpp
+
+    long p = input.NumCols();
+    res.SetDims(n, p);
+    Vec<zz_p> col_in, col_out;
+    col_in.SetLength(input.NumRows());
+    for (long j = 0; j < p; j++)
+    {
+        for (long i = 0; i < input.NumRows(); i++)
+            col_in[i] = input[i][j];
+        mul_right(col_out, col_in);
+        for (long i = 0; i < n; i++)
+            res[i][j] = col_out[i];
+    }
 }
 
 /*------------------------------------------------------------*/
@@ -249,6 +261,11 @@ void circulant_row_lzz_p::mul_left(Mat<zz_p>& res, const Mat<zz_p>& input) const
         res = mul_left(input);
         return;
     }
+
+    long p = input.NumRows();
+    res.SetDims(p, m);
+    for (long i = 0; i < p; i++)
+        mul_left(res[i], input[i]);
 }
 
 
diff --git a/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
index fd8aba7..9b18e2e 100644
--- a/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/hankel_like_minus_lzz_p.cpp
@@ -113,6 +113,24 @@ void hankel_like_minus_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>& inpu
 
 void hankel_like_minus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_right(in);
+        return;
+    }
+
+    long p = in.NumCols();
+    out.SetDims(m, p);
+    Vec<zz_p> col_in, col_out;
+    col_in.SetLength(in.NumRows());
+    for (long j = 0; j < p; j++)
+    {
+        for (long i = 0; i < in.NumRows(); i++)
+            col_in[i] = in[i][j];
+        mul_right(col_out, col_in);
+        for (long i = 0; i < m; i++)
+            out[i][j] = col_out[i];
+    }
 }
 
 /*------------------------------------------------------------*/
@@ -120,10 +138,42 @@ void hankel_like_minus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) con
 /*------------------------------------------------------------*/
 void hankel_like_minus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    out.SetLength(n);
+    for (long i = 0; i < n; i++)
+        out[i] = 0;
+
+    Vec<zz_p> tmp0, tmp1, tmp2;
+    tmp0.SetLength(m);
+    for (long i = 0; i < m; i++)
+        tmp0[i] = in[m - 1 - i];
+
+    for (long i = 0; i < NumGens(); i++)
+    {
+        lower_triangular_toeplitz_G[i].mul_left(tmp1, tmp0);
+        circulant_H[i].mul_left(tmp2, tmp1);
+        for (long j = 0; j < n; j++)
+            out[j] += tmp2[j];
+    }
 }
 
 void hankel_like_minus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    long p = in.NumRows();
+    out.SetDims(p, n);
+    for (long i = 0; i < p; i++)
+        mul_left(out[i], in[i]);
 }
 
 /*------------------------------------------------------------*/
diff --git a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
index 5758f22..c67bc30 100644
--- a/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/hankel_like_plus_lzz_p.cpp
@@ -109,6 +109,24 @@ void hankel_like_plus_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>& input
 
 void hankel_like_plus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_right(in);
+        return;
+    }
+
+    long p = in.NumCols();
+    out.SetDims(m, p);
+    Vec<zz_p> col_in, col_out;
+    col_in.SetLength(in.NumRows());
+    for (long j = 0; j < p; j++)
+    {
+        for (long i = 0; i < in.NumRows(); i++)
+            col_in[i] = in[i][j];
+        mul_right(col_out, col_in);
+        for (long i = 0; i < m; i++)
+            out[i][j] = col_out[i];
+    }
 }
 
 /*------------------------------------------------------------*/
@@ -116,10 +134,38 @@ void hankel_like_plus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) cons
 /*------------------------------------------------------------*/
 void hankel_like_plus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    out.SetLength(n);
+    for (long i = 0; i < n; i++)
+        out[i] = 0;
+
+    Vec<zz_p> tmp1, tmp2;
+    for (long i = 0; i < NumGens(); i++)
+    {
+        circulant_G[i].mul_left(tmp1, in);
+        lower_triangular_toeplitz_H[i].mul_left(tmp2, tmp1);
+        for (long j = 0; j < n; j++)
+            out[j] += tmp2[n - 1 - j];
+    }
 }
 
 void hankel_like_plus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    long p = in.NumRows();
+    out.SetDims(p, n);
+    for (long i = 0; i < p; i++)
+        mul_left(out[i], in[i]);
 }
 
 /*------------------------------------------------------------*/
diff --git a/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
index c7f9b12..bf98a8e 100644
--- a/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/lower_triangular_toeplitz_lzz_p.cpp
@@ -126,6 +126,19 @@ void lower_triangular_toeplitz_lzz_p::mul_right(Mat<zz_p>& res, const Mat<zz_p>&
         res = mul_right(input);
         return;
     }
+
+    long p = input.NumCols();
+    res.SetDims(n, p);
+    Vec<zz_p> col_in, col_out;
+    col_in.SetLength(input.NumRows());
+    for (long j = 0; j < p; j++)
+    {
+        for (long i = 0; i < input.NumRows(); i++)
+            col_in[i] = input[i][j];
+        mul_right(col_out, col_in);
+        for (long i = 0; i < n; i++)
+            res[i][j] = col_out[i];
+    }
 }
 
 
@@ -192,6 +205,11 @@ void lower_triangular_toeplitz_lzz_p::mul_left(Mat<zz_p>& res, const Mat<zz_p>&
         res = mul_left(input);
         return;
     }
+
+    long p = input.NumRows();
+    res.SetDims(p, n);
+    for (long i = 0; i < p; i++)
+        mul_left(res[i], input[i]);
 }
 
 
diff --git a/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
index e73da70..bed54c6 100644
--- a/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/toeplitz_like_minus_lzz_p.cpp
@@ -114,6 +114,24 @@ void toeplitz_like_minus_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>& in
 
 void toeplitz_like_minus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_right(in);
+        return;
+    }
+
+    long p = in.NumCols();
+    out.SetDims(m, p);
+    Vec<zz_p> col_in, col_out;
+    col_in.SetLength(in.NumRows());
+    for (long j = 0; j < p; j++)
+    {
+        for (long i = 0; i < in.NumRows(); i++)
+            col_in[i] = in[i][j];
+        mul_right(col_out, col_in);
+        for (long i = 0; i < m; i++)
+            out[i][j] = col_out[i];
+    }
 }
 
 /*------------------------------------------------------------*/
@@ -121,10 +139,38 @@ void toeplitz_like_minus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) c
 /*------------------------------------------------------------*/
 void toeplitz_like_minus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    out.SetLength(n);
+    for (long i = 0; i < n; i++)
+        out[i] = 0;
+
+    Vec<zz_p> tmp1, tmp2;
+    for (long i = 0; i < NumGens(); i++)
+    {
+        toeplitz_G[i].mul_left(tmp1, in);
+        circulant_H[i].mul_left(tmp2, tmp1);
+        for (long j = 0; j < n; j++)
+            out[j] += tmp2[j];
+    }
 }
 
 void toeplitz_like_minus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    long p = in.NumRows();
+    out.SetDims(p, n);
+    for (long i = 0; i < p; i++)
+        mul_left(out[i], in[i]);
 }
 
 /*------------------------------------------------------------*/
diff --git a/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp b/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
index 6f23876..37c18d8 100644
--- a/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
+++ b/ntl-extras/structured_lzz_p/src/toeplitz_like_plus_lzz_p.cpp
@@ -105,6 +105,24 @@ void toeplitz_like_plus_lzz_p::mul_right(Vec<zz_p>& output, const Vec<zz_p>& inp
 
 void toeplitz_like_plus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_right(in);
+        return;
+    }
+
+    long p = in.NumCols();
+    out.SetDims(m, p);
+    Vec<zz_p> col_in, col_out;
+    col_in.SetLength(in.NumRows());
+    for (long j = 0; j < p; j++)
+    {
+        for (long i = 0; i < in.NumRows(); i++)
+            col_in[i] = in[i][j];
+        mul_right(col_out, col_in);
+        for (long i = 0; i < m; i++)
+            out[i][j] = col_out[i];
+    }
 }
 
 /*------------------------------------------------------------*/
@@ -112,10 +130,38 @@ void toeplitz_like_plus_lzz_p::mul_right(Mat<zz_p>& out, const Mat<zz_p>& in) co
 /*------------------------------------------------------------*/
 void toeplitz_like_plus_lzz_p::mul_left(Vec<zz_p>& out, const Vec<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    out.SetLength(n);
+    for (long i = 0; i < n; i++)
+        out[i] = 0;
+
+    Vec<zz_p> tmp1, tmp2;
+    for (long i = 0; i < NumGens(); i++)
+    {
+        circulant_G[i].mul_left(tmp1, in);
+        lower_triangular_toeplitz_H[i].mul_left(tmp2, tmp1);
+        for (long j = 0; j < n; j++)
+            out[j] += tmp2[j];
+    }
 }
 
 void toeplitz_like_plus_lzz_p::mul_left(Mat<zz_p>& out, const Mat<zz_p>& in) const
 {
+    if (&out == &in)
+    {
+        out = mul_left(in);
+        return;
+    }
+
+    long p = in.NumRows();
+    out.SetDims(p, n);
+    for (long i = 0; i < p; i++)
+        mul_left(out[i], in[i]);
 }
 
 /*------------------------------------------------------------*/
-- 
2.43.0


From 616d907e5b89e361d94effc3dc9b3030aa6c589c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:03 +0000
Subject: [PATCH 30/50] fix: Newton truncated inverse kept stale coefficients
 of its destination

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
index 353327d..f4b6ff5 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_inv_trunc.cpp
@@ -212,7 +212,10 @@ void newton_inv_trunc_FFT(Mat<zz_pX>& x, const Mat<zz_pX>& a, long m, long thres
                 zz_pX P;
                 FromfftRep(P, R1, 0, k - 1);
 
+                const long x_len = x[i][ell].rep.length();
                 x[i][ell].rep.SetLength(2*k);
+                for (long ii = x_len; ii < k; ii++)
+                    clear(x[i][ell].rep[ii]);
                 long y_len = P.rep.length();
                 for (long ii = k; ii < 2*k; ii++)
                 {
@@ -406,7 +409,10 @@ void newton_inv_trunc_geometric(Mat<zz_pX>& x, const Mat<zz_pX>& a, long m, long
             {
                 zz_pX P;
                 ev.interpolate(P, mat_val3[i*s + ell]);
+                const long x_len = x[i][ell].rep.length();
                 x[i][ell].rep.SetLength(2*k);
+                for (long ii = x_len; ii < k; ii++)
+                    clear(x[i][ell].rep[ii]);
                 long y_len = P.rep.length();
                 for (long ii = k; ii < 2*k; ii++)
                 {
-- 
2.43.0


From 1e7626f9ec912d19a2deb872e0375a11d3be2fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:19 +0000
Subject: [PATCH 31/50] fix: shift_y shifted twice in place, and stopped with
 an error when all coefficients are shifted out

---
 ntl-extras/lzz_pXY/src/lzz_pXY.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
index cff28e6..69322ca 100644
--- a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
+++ b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
@@ -355,6 +355,7 @@ void shift_y(zz_pXY& b, const zz_pXY& a, long i)
     if (&b == &a)
     {
         b = shift_y(a, i);
+        return;
     }
 
     long dy = a.degY();
@@ -368,7 +369,7 @@ void shift_y(zz_pXY& b, const zz_pXY& a, long i)
     }
     else
     {
-        b.rep.SetLength(dy + 1 + i);
+        b.rep.SetLength(max(dy + 1 + i, 0L));
         for (long j = 0; j <= dy + i; j++)
             b.rep[j] = a.rep[j - i];
     }
-- 
2.43.0


From 9b8f524082cb0e782d7c5a7c850436a15869c0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:19 +0000
Subject: [PATCH 32/50] fix: products of sequences by bivariate polynomials
 were always empty, so check_cancel accepted everything

---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index 324badb..f20bc5e 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -28,7 +28,7 @@ Vec<zz_pX> mul(const Vec<zz_pX> &S, const zz_pX &a){
 Vec<zz_pX> mul(const Vec<zz_pX> &S, const zz_pXY &f){
   Vec<zz_pX> res;
   long dy = f.degY();
-  res.SetLength(min(0, S.length() - dy));
+  res.SetLength(max(0, S.length() - dy));
   for (long i = 0; i < res.length(); i++){
     zz_pX val{0};
     for (long t = 0; t <= dy; t++)
@@ -52,7 +52,7 @@ Vec<Vec<zz_pX>> mul(const Vec<Vec<zz_pX>> &S, const zz_pX &a){
 Vec<Vec<zz_pX>> mul(const Vec<Vec<zz_pX>> &S, const zz_pXY &f){
   Vec<Vec<zz_pX>> res;
   long dy = f.degY();
-  res.SetLength(min(0, S.length() - dy));
+  res.SetLength(max(0, S.length() - dy));
   for (long i = 0; i < res.length(); i++){
     Vec<zz_pX> val;
     val.SetLength(S[i].length());
@@ -78,11 +78,11 @@ Vec<zz_pX> mulTrunc(const Vec<zz_pX> &S, const zz_pX &a, const long d){
 Vec<zz_pX> mulTrunc(const Vec<zz_pX> &S, const zz_pXY &f, const long d){
   Vec<zz_pX> res;
   long dy = f.degY();
-  res.SetLength(min(0, S.length() - dy));
+  res.SetLength(max(0, S.length() - dy));
   for (long i = 0; i < res.length(); i++){
     zz_pX val{0};
     for (long t = 0; t <= dy; t++)
-      MulTrunc(val, f.rep[t], S[i+t], d);
+      val += MulTrunc(f.rep[t], S[i+t], d);
     res[i] = val;
   }
 
-- 
2.43.0


From 771b4db34c342fbed917a539ccfeba9200a77b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:04 +0000
Subject: [PATCH 33/50] fix: modified_kurakin read out of bounds when a
 multiple of the sequence is zero, and mishandled zero entries

---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index f20bc5e..724c479 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -419,6 +419,9 @@ void modified_kurakin(const long d, const Vec<zz_pX> &S, Vec<zz_pXY> &gens){
       I_fs[k] = f_xy;
     }
 
+    // x^t S = 0: nothing left to cancel
+    if (is_zero_seq(u)) continue;
+
     // check if we can find t' st (t'+t) < d and x^t' u[k] = 0
     long tprime = d - valuation(u[k]);
     if (tprime+t < d){ 
@@ -654,9 +657,11 @@ Vec<zz_pX> solve(const Vec<zz_pX> &l, const Vec<Vec<zz_pX>> &rs, const long d,
   if (ind == -1){
     // check for the minimal valuation on the last column
     long min_val = valuation(appbas[0][n]);
-    for (long r = 1; r < n+1; r++)
-      if (min_val < 0  || valuation(appbas[r][n]) < min_val)
-	min_val = valuation(appbas[r][n]);
+    for (long r = 1; r < n+1; r++){
+      long val = valuation(appbas[r][n]);
+      if (val >= 0 && (min_val < 0 || val < min_val))
+	min_val = val;
+    }
     if (verbose) std::cout << "minval: " << min_val << std::endl;
     tprime = min_val;
     if (verbose) std::cout << "tprime: " << tprime << std::endl;
@@ -793,7 +798,8 @@ long valuation(const Module &a){
   if (is_zero_seq(a)) return -1;
   long min_val = valuation(a[0]);
   for(long i = 1; i < a.length(); i++){
-    if (min_val > valuation(a[i])) min_val = valuation(a[i]);
+    long val = valuation(a[i]);
+    if (val >= 0 && (min_val < 0 || val < min_val)) min_val = val;
   }
   return min_val;
 }
@@ -832,6 +838,9 @@ void modified_kurakin(const long d, const Vec<Module> &S, Vec<zz_pXY> &gens){
       I[k].emplace_back(p);
     }
 
+    // x^t S = 0: nothing left to cancel
+    if (is_zero_seq(u)) continue;
+
     // check if we can find t' st (t'+t) < d and x^t' u[k] = 0
     long tprime = d - valuation(u[k]);
     if (tprime+t < d && !bitmap[tprime+t]){
-- 
2.43.0


From a1dfb4bf513d5d062b6565ef57494f555adc7e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:04 +0000
Subject: [PATCH 34/50] fix: random_zz_pXY could return a polynomial with a
 zero leading coefficient

---
 ntl-extras/lzz_pXY/src/lzz_pXY.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
index 69322ca..c17d183 100644
--- a/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
+++ b/ntl-extras/lzz_pXY/src/lzz_pXY.cpp
@@ -112,6 +112,7 @@ void random_zz_pXY(zz_pXY&  f, long dx, long dy)
     f.rep.SetLength(dy);
     for (long i = 0; i < dy; i++)
         f.rep[i] = random_zz_pX(dx);
+    f.normalize();
 }
 
 /*------------------------------------------------------------*/
-- 
2.43.0


From 83d4afa8a2ca14a00217286d0c78596126cd4f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:29 +0000
Subject: [PATCH 35/50] fix: kurakin for sequences of vectors stopped reducing
 after two steps, giving generators of too large degree

---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index 724c479..8a97b6f 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -714,8 +714,7 @@ void kurakin(const long d, const Vec<Module> &S, Vec<zz_pXY> &gens){
 	std::cout << "u: " << u << std::endl;
       }
 
-      long temp_counter = 0;
-      while (temp_counter++ < 2){
+      while (true){
 	if (u.length() == 0) break;
 	if (is_zero_seq(u)) break;
 
-- 
2.43.0


From 7b27a9146faba7a43caf7b125b253796f4440656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:05 +0000
Subject: [PATCH 36/50] fix: berlekamp_massey_pmbasis appended to what the
 destination held

---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index 8a97b6f..1c0e48a 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -1046,6 +1046,7 @@ void minpoly_nondegenerate(const long d, const Vec<zz_pX> &S, zz_pXY &P){
 
 void berlekamp_massey_pmbasis(const long d, const Vec<zz_pX> &S,
     Vec<zz_pXY> &gens){
+  gens.SetLength(0);
   long n = S.length()/2;
   Mat<zz_pX> T;
   T.SetDims(n+1,n);
@@ -1067,6 +1068,7 @@ void berlekamp_massey_pmbasis(const long d, const Vec<zz_pX> &S,
 
 void berlekamp_massey_pmbasis(const long d, const Vec<Module> &S,
     Vec<zz_pXY> & gens){
+  gens.SetLength(0);
   long e = S.length()/2;
   long n = S[0].length();
 
@@ -1106,6 +1108,7 @@ void berlekamp_massey_pmbasis(const long d, const Vec<Module> &S,
 
 void berlekamp_massey_pmbasis_hnf(const long d, const Vec<Module> &S,
     Vec<zz_pXY> & gens){
+  gens.SetLength(0);
   long e = S.length()/2;
   long n = S[0].length();
 
@@ -1287,6 +1290,7 @@ void compress(Mat<zz_pX> &mat, const long d, const Vec<Module> &S){
 
 void berlekamp_massey_pmbasis_compressed(const long d, const Vec<Module> &S,
     Vec<zz_pXY> & gens){
+  gens.SetLength(0);
 
   long e = S.length()/2;
 
-- 
2.43.0


From aa721204cd68a68b1bbe02e2e6062fc3efc58564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:26 +0000
Subject: [PATCH 37/50] fix: modified_kurakin kept stale generators of its
 destination

---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index 1c0e48a..0a75b87 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -540,6 +540,7 @@ void modified_kurakin(const long d, const Vec<zz_pX> &S, Vec<zz_pXY> &gens){
   gens.SetLength(d);
   for (long t = 0; t < d; t++){
     if (bitmap[t] == true) gens[t] = fs[t];
+    else gens[t] = zz_pXY();
   }
 }
 
@@ -960,6 +961,7 @@ void modified_kurakin(const long d, const Vec<Module> &S, Vec<zz_pXY> &gens){
   gens.SetLength(d);
   for (long t = 0;  t< d; t++)
     if (bitmap[t]) gens[t] = fs[t];
+    else gens[t] = zz_pXY();
 }
 
 void minpoly_DAC(const long d, const zz_pXY &SXY, const zz_pX &S0X, 
-- 
2.43.0


From f6f1f1ddff4b74f511e91bef2eb57ff966d48fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:26 +0000
Subject: [PATCH 38/50] fix: middle_product_3_primes used too few FFT primes
 when dA is larger than dB

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp
index 8067db4..75a99de 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_3_primes.cpp
@@ -332,7 +332,8 @@ void multiply_3_primes(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> &
 /*------------------------------------------------------------*/
 void middle_product_3_primes(Mat<zz_pX> & b, const Mat<zz_pX> & a, const Mat<zz_pX> & c, long dA, long dB)
 {
-    lzz_pX_3_primes primes(a.NumCols(), dA, dB);
+    // each coefficient of the middle product sums up to dA+1 products
+    lzz_pX_3_primes primes(a.NumCols(), dA, dA + dB);
     const long nb = primes.nb();
 
     if (nb == 1)
-- 
2.43.0


From 632884e329e6c1b4a18207ea64e7e60da68d9d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:55 +0000
Subject: [PATCH 39/50] fix: minpoly_nondegenerate returned a polynomial which
 does not cancel the sequence, and read out of bounds

---
 ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp | 54 +++++++++++++-----------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
index 0a75b87..79ba04b 100644
--- a/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
+++ b/ntl-extras/lzz_pX_seq/src/lzz_pX_seq.cpp
@@ -964,35 +964,38 @@ void modified_kurakin(const long d, const Vec<Module> &S, Vec<zz_pXY> &gens){
     else gens[t] = zz_pXY();
 }
 
-void minpoly_DAC(const long d, const zz_pXY &SXY, const zz_pX &S0X, 
+// solves for P, of degree less than n in y, such that the coefficients of 
+// degrees n-1 .. 2n-2 in y of SXY * P are those of rhs, modulo x^d
+void minpoly_DAC(const long d, const long n, const zz_pXY &SXY, const zz_pX &S0X, 
     const zz_pXY &rhs, zz_pXY &P){
   if (d == 1){
     VecLong shift;
     shift.emplace_back(0);
-    shift.emplace_back(0);
+    shift.emplace_back(1);
+    shift.emplace_back(n-1);
     Mat<zz_pX> appbas;
     Mat<zz_pX> pmat;
-    long order = deg(S0X)+1;
+    long order = 2*n-1;
     pmat.SetDims(3,1);
     pmat[0][0] = S0X;
     pmat[1][0] = zz_pX{-1};
 
     // construct rhs mod x
     zz_pX rhs_x;
-    for (long i = 0; i <= rhs.degY(); i++){
-      if (rhs.rep[0] != zz_p(0))
-	SetCoeff(rhs_x, i, rhs.rep[i][0]);
-    }
-    LeftShift(rhs_x,rhs_x, rhs.degY());
+    for (long i = 0; i <= rhs.degY(); i++)
+      SetCoeff(rhs_x, i, coeff(rhs.rep[i],0));
+    LeftShift(rhs_x,rhs_x, n-1);
     pmat[2][0] = -rhs_x;
     pmbasis(appbas, pmat, order, shift);
-    long r_cor = 0;
+    long r_cor = -1;
     for (long i = 0; i < 3; i++){
-      if (deg(appbas[i][2]) == 0){
+      if (deg(appbas[i][2]) == 0 && deg(appbas[i][0]) < n && deg(appbas[i][1]) < n-1){
 	r_cor = i;
 	break;
       }
     }
+    if (r_cor < 0)
+      LogicError("minpoly_nondegenerate: degenerate sequence");
     zz_pX px = appbas[r_cor][0]*InvTrunc(appbas[r_cor][2],1);
 
     P = zz_pX{0};
@@ -1006,44 +1009,45 @@ void minpoly_DAC(const long d, const zz_pXY &SXY, const zz_pX &S0X,
     }
     return;
   }
+  const long d0 = d/2;
   zz_pXY P0;
-  minpoly_DAC(d/2, trunc_x(SXY,d/2), S0X, trunc_x(rhs,d/2),P0);
+  minpoly_DAC(d0, n, trunc_x(SXY,d0), S0X, trunc_x(rhs,d0),P0);
 
   // compute the residue
   zz_pXY r;
   mul(r, SXY, P0);
   r = trunc_x(r,d);
-  r = shift_y(r,-rhs.degY());
-  r = trunc_y(r,rhs.degY()+1);
+  r = shift_y(r,-(n-1));
+  r = trunc_y(r,n);
   r = rhs - r;
 
-  r = shift_x(r,-d/2);
+  r = shift_x(r,-d0);
 
   zz_pXY P1;
-  minpoly_DAC(d/2, trunc_x(SXY,d/2), S0X, r, P1);
-  shift_x(P1,P1,d/2);
+  minpoly_DAC(d-d0, n, trunc_x(SXY,d-d0), S0X, r, P1);
+  shift_x(P1,P1,d0);
   P = P0 + P1;
 }
 
 void minpoly_nondegenerate(const long d, const Vec<zz_pX> &S, zz_pXY &P){
+  const long n = S.length()/2;
   // make bivariate polynomial of S for multiplication
   zz_pXY SXY;
   for (long i = 0; i < S.length()-1; i++)
     SXY  = SXY + shift_y(zz_pXY{S[i]}, i);
   zz_pX S0X;
   for (long i = 0; i < S.length()-1; i++)
-    SetCoeff(S0X, i, S[i][0]);
+    SetCoeff(S0X, i, coeff(S[i],0));
   // construct rhs
   zz_pXY rhs;
-  for (long i = S.length()/2; i < S.length(); i++)
-    rhs = rhs + shift_y(zz_pXY{S[i]},(i-S.length()/2));
+  for (long i = n; i < 2*n; i++)
+    rhs = rhs + shift_y(zz_pXY{S[i]},(i-n));
   zz_pXY P_res;
-  minpoly_DAC(d,SXY,S0X,zz_pXY{zz_pX{0}}-rhs,P_res);
-  P = zz_pXY{zz_pX{0}};
-  for (long i = 0; i < P_res.degY(); i++){
-    P.rep.append(P_res.rep[i]);
-  }
-  P = P + shift_y(zz_pXY{zz_pX{1}}, S.length()/2);
+  minpoly_DAC(d,n,SXY,S0X,zz_pXY{zz_pX{0}}-rhs,P_res);
+  // the coefficients of P are those of P_res, in reverse order
+  P = shift_y(zz_pXY{zz_pX{1}}, n);
+  for (long i = 0; i <= P_res.degY(); i++)
+    P = P + shift_y(zz_pXY{P_res.rep[i]}, n-1-i);
 }
 
 void berlekamp_massey_pmbasis(const long d, const Vec<zz_pX> &S,
-- 
2.43.0


From 8287ec554c7915c0cd71f8d442ab1fa1f7ff89b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:08 +0000
Subject: [PATCH 40/50] fix: partial linearization of columns with zero or
 low-degree entries stopped with an error or read out of bounds

---
 .../src/mat_lzz_pX_linearization.cpp             | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
index 58f0c91..b9b6613 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
@@ -136,8 +136,12 @@ VecLong column_partial_linearization(
                     parlin[i][jj][dd] = coeff(pmat[i][j], d++);
                 parlin[i][jj].normalize();
             }
+            // no column at all for a zero column of pmat (target degree -1)
+            if (jj >= parlin_cols[j+1])
+                continue;
             const long reached_deg = d;
-            parlin[i][jj].SetLength(deg(pmat[i][j]) - reached_deg + 1);
+            // entries of lower degree than the column leave nothing for the last expanded column
+            parlin[i][jj].SetLength(std::max<long>(0, deg(pmat[i][j]) - reached_deg + 1));
             for (long dd=0; dd<=deg(pmat[i][j]) - reached_deg; ++dd)
                 parlin[i][jj][dd] = coeff(pmat[i][j], d++);
         }
@@ -193,8 +197,12 @@ VecLong column_partial_linearization(
                     parlin[i][jj][dd] = coeff(pmat[i][j], d++);
                 parlin[i][jj].normalize();
             }
+            // no column at all for a zero column of pmat (target degree -1)
+            if (jj >= parlin_cols[j+1])
+                continue;
             const long reached_deg = d;
-            parlin[i][jj].SetLength(deg(pmat[i][j]) - reached_deg + 1);
+            // entries of lower degree than the column leave nothing for the last expanded column
+            parlin[i][jj].SetLength(std::max<long>(0, deg(pmat[i][j]) - reached_deg + 1));
             for (long dd=0; dd<=deg(pmat[i][j]) - reached_deg; ++dd)
                 parlin[i][jj][dd] = coeff(pmat[i][j], d++);
         }
@@ -230,7 +238,7 @@ void right_parlin_multiply(
         long deg_a = deg(a[i]);
         for (long j=0; j<b.NumCols(); ++j)
         {
-            c[i][j].SetLength(deg_a + column_degree[j] + 1);
+            c[i][j].SetLength(std::max<long>(0, deg_a + column_degree[j] + 1));
             clear(c[i][j].rep);
             long d_init=0;
             for (long jj=parlin_cols[j]; jj<parlin_cols[j+1]; ++jj)
@@ -273,7 +281,7 @@ void right_parlin_middle_product(
         long deg_a = deg(a[i]);
         for (long j=0; j<b.NumCols(); ++j)
         {
-            c[i][j].SetLength(deg_a + target_degree[j] - d_inf + 1);
+            c[i][j].SetLength(std::max<long>(0, deg_a + target_degree[j] - d_inf + 1));
             clear(c[i][j].rep);
             long d_init=0;
             for (long jj=parlin_cols[j]; jj<parlin_cols[j+1]; ++jj)
-- 
2.43.0


From 6180f7b31f35feaeade6dd79fedcd459f0819892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:08 +0000
Subject: [PATCH 41/50] fix: matrix product in place ignored that the modulus
 may not be prime

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
index cb7e448..1018969 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply.cpp
@@ -24,7 +24,7 @@ void multiply(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_pX> & b, long i
     if (&c == &a || &c == &b)
     {
         Mat<zz_pX> c2;
-        multiply(c2, a, b);
+        multiply(c2, a, b, is_prime);
         c.swap(c2);
         return;
     }
-- 
2.43.0


From de90c58a9d07041362c3dc696b1d1eaa8f293d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:32 +0000
Subject: [PATCH 42/50] fix: verify_determinant up to a constant accepted zero
 for any matrix, and anything for a singular matrix

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
index 009a7a1..e6fe2f1 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
@@ -32,7 +32,10 @@ bool verify_determinant(const zz_pX & det, const Mat<zz_pX> & pmat, bool up_to_c
         zz_p det_pt2 = determinant(eval(pmat, pt));
         // evaluate the provided determinant
         zz_p ev_det2 = eval(det,pt);
-        return (det_pt * ev_det2 == det_pt2 * ev_det);
+        // the constant is nonzero: both sides must vanish at the same points
+        return (det_pt * ev_det2 == det_pt2 * ev_det
+                && IsZero(det_pt) == IsZero(ev_det)
+                && IsZero(det_pt2) == IsZero(ev_det2));
     }
 }
 
-- 
2.43.0


From f06c48fd81fa34147c0109770eabbc0607b6f75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:55 +0000
Subject: [PATCH 43/50] fix: determinants by evaluation hung or stopped with an
 error on zero matrices

---
 .../src/mat_lzz_pX_determinant.cpp                 | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
index e6fe2f1..0f5219c 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_determinant.cpp
@@ -296,6 +296,13 @@ void determinant_via_linsolve(zz_pX & det, const Mat<zz_pX> & pmat)
 
 void determinant_via_evaluation_general(zz_pX & det, const Mat<zz_pX> & pmat)
 {
+    // zero matrix
+    if (IsZero(pmat))
+    {
+        clear(det);
+        return;
+    }
+
     const long nb_points = pmat.NumRows() * deg(pmat) + 1;
     zz_pX_Multipoint_General ev = get_general_points(nb_points);
     Vec<Mat<zz_p>> evals;
@@ -308,6 +315,13 @@ void determinant_via_evaluation_general(zz_pX & det, const Mat<zz_pX> & pmat)
 
 void determinant_via_evaluation_geometric(zz_pX & det, const Mat<zz_pX> & pmat)
 {
+    // zero matrix
+    if (IsZero(pmat))
+    {
+        clear(det);
+        return;
+    }
+
     const long d = deg(pmat);
     const long nb_points = pmat.NumRows() * d + 1;
     zz_pX_Multipoint_Geometric ev = get_geometric_points(nb_points);
-- 
2.43.0


From 660b913d50eb41a23cc2f4275bca36581585367b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:03 +0000
Subject: [PATCH 44/50] fix: multiply_evaluate_geometric gave a zero product
 the dimensions of its left operand

---
 .../src/mat_lzz_pX_multiply_evaluate_geometric.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_geometric.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_geometric.cpp
index 8b380f2..e9a2b05 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_geometric.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_geometric.cpp
@@ -22,7 +22,7 @@ void multiply_evaluate_geometric(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat
     // if a or b is zero, return
     if (dA < 0 || dB < 0)
     {
-        c.SetDims(s, t);
+        c.SetDims(s, u);
         clear(c);
         return;
     }
-- 
2.43.0


From 7577c0caee52acbc283f3b9bc93324a21db82726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:03 +0000
Subject: [PATCH 45/50] fix: multiply_evaluate_dense wrote out of bounds when
 an operand is zero

---
 .../src/mat_lzz_pX_multiply_evaluate_dense.cpp            | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp
index a27cac5..9706c65 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_evaluate_dense.cpp
@@ -112,6 +112,14 @@ void multiply_evaluate_dense(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz_
     const long p = b.NumCols();
     long ell;
 
+    // if a or b is zero, return
+    if (dA < 0 || dB < 0)
+    {
+        c.SetDims(m, p);
+        clear(c);
+        return;
+    }
+
 #ifdef PROFILE_ON
     double t = GetWallTime();
 #endif // PROFILE_ON
-- 
2.43.0


From 0d9057dcbff0d4561a53e54cbcd2d44144669447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:03 +0000
Subject: [PATCH 46/50] fix: dense and geometric left multipliers by a zero
 matrix wrote out of bounds or refused their operands

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp      | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
index ae8fe4c..6b507fc 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
@@ -386,7 +386,8 @@ void mat_lzz_pX_lmultiplier_FFT_matmul::multiply(Mat<zz_pX>& c, const Mat<zz_pX>
 mat_lzz_pX_lmultiplier_geometric::mat_lzz_pX_lmultiplier_geometric(const Mat<zz_pX> & a, long dB) :
     mat_lzz_pX_lmultiplier(a, dB)
 {
-    long n = __dA + __dB + 1;
+    // (a zero matrix is treated as a constant one)
+    long n = max(__dA, 0L) + __dB + 1;
     ev = get_geometric_points(n);
     ev.prepare_degree(__dB);
 
@@ -479,12 +480,14 @@ void mat_lzz_pX_lmultiplier_geometric::multiply(Mat<zz_pX>& c, const Mat<zz_pX>&
 mat_lzz_pX_lmultiplier_dense::mat_lzz_pX_lmultiplier_dense(const Mat<zz_pX> & a, long dB) :
     mat_lzz_pX_lmultiplier(a, dB)
 {
+    // (a zero matrix is treated as a constant one)
+    const long dA = max(__dA, 0L);
     Mat<zz_p> vA;
-    vandermonde(vA, vB, iV, __dA, __dB);
+    vandermonde(vA, vB, iV, dA, __dB);
     nb_points = vA.NumRows();
 
     // evaluate a: reorganize data
-    Mat<zz_p> tmp_mat(INIT_SIZE, __dA + 1, __s * __t);
+    Mat<zz_p> tmp_mat(INIT_SIZE, dA + 1, __s * __t);
     long ell = 0;
     for (long i = 0; i < __s; ++i)
         for (long j = 0; j < __t; ++j, ++ell)
-- 
2.43.0


From 6e2bc136273a1ef948ae20be16970299988a2cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:03 +0000
Subject: [PATCH 47/50] fix: dense left multiplier wrote out of bounds instead
 of refusing a right operand of too large degree

---
 ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
index 6b507fc..c502999 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_lmultiplier.cpp
@@ -519,6 +519,9 @@ void mat_lzz_pX_lmultiplier_dense::multiply(Mat<zz_pX>& c, const Mat<zz_pX>& b)
     const long n = NumCols();
     const long p = b.NumCols();
 
+    if (deg(b) > degB())
+        LogicError("Rhs degree too large in multiplier");
+
     Mat<zz_p> tmp_mat(INIT_SIZE, __dB + 1, n * p);
     long ell = 0;
     for (long i = 0; i < n; ++i)
-- 
2.43.0


From 8b4d38d11a2506e5ed4880acac9a2f07780fa89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:47 +0000
Subject: [PATCH 48/50] fix: multiply_transform_naive returned an empty matrix
 for the product of two zero matrices

---
 .../mat_lzz_pX_extra/src/mat_lzz_pX_multiply_transform.cpp     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_transform.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_transform.cpp
index a93dc6b..86976bd 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_transform.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_multiply_transform.cpp
@@ -12,7 +12,8 @@ void multiply_transform_naive(Mat<zz_pX> & c, const Mat<zz_pX> & a, const Mat<zz
     long dA = deg(a);
     long dB = deg(b);
 
-    zz_pX_Transform_naive trs_naive(max(dA, dB) + 1);
+    // (zero matrices are treated as constant ones)
+    zz_pX_Transform_naive trs_naive(max(max(dA, dB), 0L) + 1);
 
     Vec<Mat<zz_p>> valA, valB, valC;
     trs_naive.forward_left_matrix(valA, a);
-- 
2.43.0


From 54d16342cf91d6aaeff4a744836ea8ed6bd56565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:23 +0000
Subject: [PATCH 49/50] fix: products by partial linearization with a zero left
 operand stopped with an error or returned entries not normalized

---
 ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h    | 2 +-
 .../mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp     | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h b/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h
index 7acfa64..0ca0402 100644
--- a/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h
+++ b/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h
@@ -250,7 +250,7 @@ inline void right_parlin_multiply(
 {
     VecLong cdeg(b.NumCols());
     col_degree(cdeg, b);
-    right_parlin_multiply(c, a, b, deg(a), cdeg);
+    right_parlin_multiply(c, a, b, max(deg(a), 0L), cdeg);
 }
 
 /* c = trunc( trunc(a, dA+1)*b div x^dA, dB+1 )           */
diff --git a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
index b9b6613..f38f5ce 100644
--- a/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
+++ b/ntl-extras/mat_lzz_pX_extra/src/mat_lzz_pX_linearization.cpp
@@ -264,6 +264,14 @@ void right_parlin_middle_product(
                                  long dB
                                 )
 {
+    // if a is zero, return
+    if (deg(a) < 0)
+    {
+        c.SetDims(a.NumRows(), b.NumCols());
+        clear(c);
+        return;
+    }
+
     long d_inf = dA-deg(a);
     VecLong parlin_degrees(b.NumCols(),parlin_degree);
     // compute the column partial linearization of b
-- 
2.43.0


From 71e213f106104f857479895dc90c4a60914be147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:23 +0000
Subject: [PATCH 50/50] fix: default column partial linearization lost columns
 when the sum of the degrees is negative

---
 ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h b/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h
index 0ca0402..370417c 100644
--- a/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h
+++ b/ntl-extras/mat_lzz_pX_extra/mat_lzz_pX_linearization.h
@@ -169,7 +169,7 @@ inline VecLong column_partial_linearization(
                                            )
 {
     long parlin_degree = std::accumulate(target_degree.begin(), target_degree.end(), 0);
-    parlin_degree = 1 + parlin_degree / target_degree.size();
+    parlin_degree = 1 + parlin_degree / (long)target_degree.size();
     VecLong parlin_degrees(pmat.NumCols(), parlin_degree);
     return column_partial_linearization(parlin, pmat, parlin_degrees, target_degree);
 }
@@ -184,7 +184,7 @@ inline VecLong column_partial_linearization_cdeg(
     VecLong cdeg(pmat.NumCols());
     col_degree(cdeg, pmat);
     long parlin_degree = std::accumulate(cdeg.begin(), cdeg.end(), 0);
-    parlin_degree = 1 + parlin_degree / cdeg.size();
+    parlin_degree = 1 + parlin_degree / (long)cdeg.size();
     VecLong parlin_degrees(pmat.NumCols(), parlin_degree);
     return column_partial_linearization(parlin, pmat, parlin_degrees, cdeg);
 }
-- 
2.43.0

