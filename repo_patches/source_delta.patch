From 7b191fb53d5056fe6b4e9a226c743cff99e195d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:01 +0000
Subject: [PATCH 01/15] fix: Cholesky reports a NaN pivot as not positive
 definite

---
 src/cholesky.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cholesky.rs b/src/cholesky.rs
index f98091b..d23b6ec 100644
--- a/src/cholesky.rs
+++ b/src/cholesky.rs
@@ -66,7 +66,7 @@ where
                 d = *self.at((j, j)) - d;
             }
 
-            if d <= A::zero() {
+            if d.is_nan() || d <= A::zero() {
                 return Err(LinalgError::NotPositiveDefinite);
             }
 
-- 
2.43.0


From 4bd50438a05c02c7e92af83f40424e25636207e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:38 +0000
Subject: [PATCH 02/15] fix: SVD terminates on input containing NaN or infinity

---
 src/svd.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/svd.rs b/src/svd.rs
index e2f6105..6f1fbfa 100644
--- a/src/svd.rs
+++ b/src/svd.rs
@@ -223,6 +223,12 @@ fn svd<A: NdFloat, S: DataMut<Elem = A>>(
     Ok((u, diag, vt))
 }
 
+/// Whether an off-diagonal element can be dropped. This includes any comparison with NaN, which no
+/// iteration would ever bring below the tolerance.
+fn negligible<A: NdFloat>(off_diag: A, tol: A) -> bool {
+    off_diag.is_nan() || tol.is_nan() || off_diag.abs() <= tol
+}
+
 fn delimit_subproblem<A: NdFloat>(
     diag: &mut Array1<A>,
     off_diag: &mut Array1<A>,
@@ -237,7 +243,7 @@ fn delimit_subproblem<A: NdFloat>(
         let m = n - 1;
         unsafe {
             if off_diag.at(m).is_zero()
-                || off_diag.at(m).abs() <= eps * (diag.at(n).abs() + diag.at(m).abs())
+                || negligible(*off_diag.at(m), eps * (diag.at(n).abs() + diag.at(m).abs()))
             {
                 *off_diag.atm(m) = A::zero();
             } else if diag.at(m).abs() <= eps {
@@ -266,7 +272,10 @@ fn delimit_subproblem<A: NdFloat>(
         let m = new_start - 1;
 
         unsafe {
-            if off_diag.at(m).abs() <= eps * (diag.at(new_start).abs() + diag.at(m).abs()) {
+            if negligible(
+                *off_diag.at(m),
+                eps * (diag.at(new_start).abs() + diag.at(m).abs()),
+            ) {
                 *off_diag.atm(m) = A::zero();
                 break;
             }
-- 
2.43.0


From ad8a8092bf619ff075c51183a6b0dd03c8513c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:54 +0000
Subject: [PATCH 03/15] fix: eigh computes the 2x2 eigenvector without
 cancellation

---
 src/eigh.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/eigh.rs b/src/eigh.rs
index d99f0ea..f9b0f47 100644
--- a/src/eigh.rs
+++ b/src/eigh.rs
@@ -108,7 +108,14 @@ fn symmetric_eig<A: NdFloat, S: DataMut<Elem = A>>(
                 diag[start + 1],
             )
             .unwrap(); // XXX not sure when this unwrap panics
-            let basis = (eigvals.0 - diag[start + 1], off_diag[start]);
+            // Of the two proportional forms of the eigenvector, pick the one whose subtraction does
+            // not cancel. `eigvals.0` is the larger eigenvalue.
+            let off = off_diag[start];
+            let basis = if diag[start] >= diag[start + 1] {
+                (eigvals.0 - diag[start + 1], off)
+            } else {
+                (off.abs(), off.signum() * (eigvals.0 - diag[start]))
+            };
 
             diag[start] = eigvals.0;
             diag[start + 1] = eigvals.1;
-- 
2.43.0


From 6f3073f4635e00ee411c95ab8e77ceb3ca0c871f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:20 +0000
Subject: [PATCH 04/15] fix: 2x2 SVD computes both singular vectors without
 cancellation

---
 src/svd.rs | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/svd.rs b/src/svd.rs
index 6f1fbfa..fd3d5d8 100644
--- a/src/svd.rs
+++ b/src/svd.rs
@@ -387,31 +387,32 @@ fn compute_2x2_uptrig_svd<A: NdFloat>(
     let two = A::from(2.0).unwrap();
     let denom = (m11 + m22).hypot(m12) + (m11 - m22).hypot(m12);
 
-    // NOTE: v1 is the singular value that is the closest to m22.
-    // This prevents cancellation issues when constructing the vector `csv` below. If we chose
-    // otherwise, we would have v1 ~= m11 when m12 is small. This would cause catastrophic
-    // cancellation on `v1 * v1 - m11 * m11` below.
-    let mut v1 = m11 * m22 * two / denom;
-    let mut v2 = denom / two;
+    // NOTE: v1 is the smaller singular value (up to sign), v2 the larger one.
+    let v1 = m11 * m22 * two / denom;
+    let v2 = denom / two;
 
     let mut u = None;
     let mut v_t = None;
 
     if compute_v || compute_u {
-        let cv = m11 * m12;
-        let sv = v1 * v1 - m11 * m11;
-        let (csv, sgn_v) = GivensRotation::new(cv, sv);
-        v1 *= sgn_v;
-        v2 *= sgn_v;
+        // Of the two proportional forms of the right singular vector of v1, pick the one whose
+        // subtraction does not cancel: when m12 is small, v1 is close to the smaller diagonal.
+        let cross = m11 * m12;
+        let (cv, sv) = if m11.abs() >= m22.abs() {
+            (cross, v1 * v1 - m11 * m11)
+        } else {
+            let comp = (m22 - v1) * (m22 + v1) + m12 * m12;
+            (cross.signum() * comp, -cross.abs())
+        };
+        let (csv, _) = GivensRotation::new(cv, sv);
         if compute_v {
             v_t = Some(csv.clone());
         }
 
-        let cu = (m11 * csv.c() + m12 * csv.s()) / v1;
-        let su = (m22 * csv.s()) / v1;
-        let (csu, sgn_u) = GivensRotation::new(cu, su);
-        v1 *= sgn_u;
-        v2 *= sgn_u;
+        // The left vectors follow from the right vector of v2, as dividing by v1 may cancel.
+        let cu = (m22 * csv.c()) / v2;
+        let su = (m11 * csv.s() - m12 * csv.c()) / v2;
+        let (csu, _) = GivensRotation::new(cu, su);
         if compute_u {
             u = Some(csu);
         }
-- 
2.43.0


From 24ae22852c90e4455bb74ced7693ebe651022bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:20 +0000
Subject: [PATCH 05/15] fix: LOBPCG constraints need not be orthonormal

---
 src/lobpcg/algorithm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index 9bdce9e..c720672 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -67,9 +67,14 @@ fn apply_constraints<A: NdFloat>(
 ) {
     let gram_yv = y.t().dot(&v);
 
+    // solve `y.t y u = y.t v` with both factors of the Cholesky decomposition of `y.t y`
     let u = cholesky_yy
         .solve_triangular_into(gram_yv, UPLO::Lower)
         .unwrap();
+    let u = cholesky_yy
+        .t()
+        .solve_triangular_into(u, UPLO::Upper)
+        .unwrap();
 
     // performs `v = -1 y . u + 1 v`, therefore `v -= y.u`
     ndarray::linalg::general_mat_mul(-A::one(), &y, &u, A::one(), &mut v);
-- 
2.43.0


From a0b92812ab112fd31ed437cd72ad39e56a346c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:21 +0000
Subject: [PATCH 06/15] fix: reading the values of an empty truncated SVD does
 not panic

---
 src/lobpcg/svd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lobpcg/svd.rs b/src/lobpcg/svd.rs
index ac941af..2299a05 100644
--- a/src/lobpcg/svd.rs
+++ b/src/lobpcg/svd.rs
@@ -37,7 +37,7 @@ impl<A: NdFloat + 'static + MagnitudeCorrection> TruncatedSvdResult<A> {
             // calculate cut-off magnitude (borrowed from scipy)
             let cutoff = A::epsilon() * // float precision
                          A::correction() * // correction term (see trait below)
-                         *a[0].1; // max eigenvalue
+                         a.first().map_or(A::zero(), |(_, x)| **x); // max eigenvalue
 
             // filter low singular values away
             let (values, indices): (Vec<A>, Vec<usize>) = a
-- 
2.43.0


From c3918ffdc7c324c513eeaa9958753240b1db616c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:42 +0000
Subject: [PATCH 07/15] fix: the truncated eigenproblem iterator counts the
 preset constraints

---
 src/lobpcg/eig.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lobpcg/eig.rs b/src/lobpcg/eig.rs
index 2cc15e6..01ff2eb 100644
--- a/src/lobpcg/eig.rs
+++ b/src/lobpcg/eig.rs
@@ -179,13 +179,19 @@ impl<A: NdFloat + Sum, R: Rng> IntoIterator for TruncatedEig<A, R> {
     fn into_iter(self) -> TruncatedEigIterator<A, R> {
         TruncatedEigIterator {
             step_size: 1,
-            remaining: self.problem.len_of(Axis(0)),
+            remaining: self.remaining_dim(),
             eig: self,
         }
     }
 }
 
 impl<A: NdFloat + Sum, R: Rng> TruncatedEig<A, R> {
+    /// Number of eigenpairs left once the constraints are taken into account
+    fn remaining_dim(&self) -> usize {
+        let fixed = self.constraints.as_ref().map_or(0, |c| c.ncols());
+        self.problem.len_of(Axis(0)).saturating_sub(fixed)
+    }
+
     pub fn into_iter_step_size(self, step_size: usize) -> Result<TruncatedEigIterator<A, R>> {
         TruncatedEigIterator::new(self, step_size)
     }
@@ -230,7 +236,7 @@ impl<A: NdFloat + Sum, R: Rng> TruncatedEigIterator<A, R> {
         }
 
         Ok(TruncatedEigIterator {
-            remaining: obj.problem.len_of(Axis(0)),
+            remaining: obj.remaining_dim(),
             eig: obj,
             step_size,
         })
-- 
2.43.0


From 023e64928f736a5735ec716b1e50008ba787e084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:18 +0000
Subject: [PATCH 08/15] fix: LOBPCG residuals are those of the problem
 restricted by the constraints

---
 src/lobpcg/algorithm.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index c720672..8dfc9cc 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -201,7 +201,13 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
         let lambda_x = x.dot(&lambda_diag);
 
         // calculate residual AX - lambdaX
-        let r = &ax - &lambda_x;
+        let mut r = &ax - &lambda_x;
+
+        // the problem is restricted to the orthogonal complement of the constraints, so the part of
+        // the residual along them is no error and must not keep the iteration going
+        if let (Some(ref y), Some(ref cholesky_yy)) = (&y, &cholesky_yy) {
+            apply_constraints(r.view_mut(), cholesky_yy, y.view());
+        }
 
         // calculate L2 norm of error for every eigenvalue
         let residual_norms = r
-- 
2.43.0


From 9adb123cabdb365ffa6c78ea284221ce77a4c05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:32 +0000
Subject: [PATCH 09/15] fix: LOBPCG reports numerically dependent blocks
 instead of normalizing rounding noise

---
 src/lobpcg/algorithm.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index 8dfc9cc..04a7126 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -82,11 +82,18 @@ fn apply_constraints<A: NdFloat>(
 
 /// Orthonormalize `V` with Cholesky factorization
 ///
-/// This also returns the matrix `R` of the `QR` problem
+/// This also returns the matrix `R` of the `QR` problem. Columns which are linearly dependent up to
+/// rounding are an error, because normalizing what is left of them would only amplify noise.
 fn orthonormalize<T: NdFloat>(v: Array2<T>) -> Result<(Array2<T>, Array2<T>)> {
     let gram_vv = v.t().dot(&v);
+    let norms = gram_vv.diag().to_owned();
     let gram_vv_fac = gram_vv.cholesky_into()?;
 
+    let cutoff = T::epsilon() * T::from(10 * norms.len()).unwrap();
+    if (gram_vv_fac.diag().iter().zip(&norms)).any(|(&r, &n)| r * r < cutoff * n) {
+        return Err(LinalgError::NotPositiveDefinite);
+    }
+
     //assert_abs_diff_eq!(
     //    &gram_vv,
     //    &gram_vv_fac.dot(&gram_vv_fac.t()),
-- 
2.43.0


From ee12663e621377dffba51987eb9f98597c279ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:43 +0000
Subject: [PATCH 10/15] fix: LOBPCG reports a start within the span of the
 constraints

---
 src/lobpcg/algorithm.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index 04a7126..f263ab6 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -164,12 +164,22 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
     let tol = NumCast::from(tol).unwrap();
 
     // calculate cholesky factorization of YY' and apply constraints to initial guess
+    let start_norms = (x.columns().into_iter())
+        .map(|x| x.dot(&x))
+        .collect::<Vec<A>>();
     let cholesky_yy = y.as_ref().map(|y| {
         let cholesky_yy = y.t().dot(y).cholesky_into().unwrap();
         apply_constraints(x.view_mut(), &cholesky_yy, y.view());
         cholesky_yy
     });
 
+    // nothing but rounding is left of a start vector which lies in the span of the constraints
+    let cutoff = A::epsilon() * A::from(10 * n).unwrap();
+    let left = x.columns().into_iter().map(|x| x.dot(&x));
+    if left.zip(&start_norms).any(|(l, &s)| l < cutoff * s) {
+        return Err((LinalgError::NotPositiveDefinite, None));
+    }
+
     // orthonormalize the initial guess
     let (x, _) = orthonormalize(x).map_err(|err| (err, None))?;
 
-- 
2.43.0


From b337669f591fcb6d84175fed3224f28e66ddd946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:50 +0000
Subject: [PATCH 11/15] fix: smallest truncated singular values of a
 rank-deficient problem are not NaN

---
 src/lobpcg/svd.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lobpcg/svd.rs b/src/lobpcg/svd.rs
index 2299a05..4d3c13e 100644
--- a/src/lobpcg/svd.rs
+++ b/src/lobpcg/svd.rs
@@ -50,7 +50,11 @@ impl<A: NdFloat + 'static + MagnitudeCorrection> TruncatedSvdResult<A> {
         } else {
             a.sort_by(|(_, x), (_, y)| x.partial_cmp(y).unwrap());
 
-            let (values, indices) = a.into_iter().map(|(a, b)| (b.sqrt(), a)).unzip();
+            // rounding can turn the eigenvalue of a null singular value negative
+            let (values, indices) = a
+                .into_iter()
+                .map(|(a, b)| (b.max(A::zero()).sqrt(), a))
+                .unzip();
 
             (values, indices)
         };
-- 
2.43.0


From f97886a9467ec411c248f6c73813dfb97ba8ed0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:53 +0000
Subject: [PATCH 12/15] fix: eigenvalues of a reversed 2x2 matrix have standard
 layout and can be sorted

---
 src/tridiagonal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tridiagonal.rs b/src/tridiagonal.rs
index 29148c5..958c489 100644
--- a/src/tridiagonal.rs
+++ b/src/tridiagonal.rs
@@ -95,7 +95,8 @@ impl<A: NdFloat, S: DataMut<Elem = A>> TridiagonalDecomp<A, S> {
     /// arrays
     pub fn into_diagonals(self) -> (Array1<A>, Array1<A>) {
         (
-            self.diag_matrix.diag().to_owned(),
+            // always in standard layout, `to_owned` keeps a reversed one
+            self.diag_matrix.diag().iter().copied().collect(),
             self.off_diagonal.mapv_into(A::abs),
         )
     }
-- 
2.43.0


From b21874d32f0a223d29340514e76d4bbefde6b3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:35 +0000
Subject: [PATCH 13/15] fix: SVD negates the left vector of a negative singular
 value instead of zeroing it

---
 src/svd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svd.rs b/src/svd.rs
index fd3d5d8..2792229 100644
--- a/src/svd.rs
+++ b/src/svd.rs
@@ -215,7 +215,7 @@ fn svd<A: NdFloat, S: DataMut<Elem = A>>(
         if val.is_sign_negative() {
             diag[i] = -val;
             if let Some(u) = &mut u {
-                u.column_mut(i).mul_assign(-A::zero());
+                u.column_mut(i).mul_assign(-A::one());
             }
         }
     }
-- 
2.43.0


From 8c5ca89f066425be9e74bd0238bf1b4e8a98ef0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 14/15] fix: LOBPCG returned zero vectors as eigenvectors when
 its trial basis was linearly dependent

---
 src/lobpcg/algorithm.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index f263ab6..8efe412 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -15,8 +15,14 @@ use super::{Lobpcg, LobpcgResult};
 /// Solve the generalized eigenvalue problem with pencil (A, B)
 fn generalized_eig<A: NdFloat>(a: Array2<A>, b: Array2<A>) -> Result<(Array1<A>, Array2<A>)> {
     let (vals_b, vecs_b) = b.eigh_into()?;
-    let vals_b_recip = vals_b.mapv_into(|x| (x.max(A::from(1e-10f32).unwrap())).sqrt().recip());
-    let vecs_b_tilde = vecs_b * vals_b_recip;
+
+    // nothing but rounding is left of directions in which `b` vanishes, work without them
+    let cutoff = A::from(1e-10f32).unwrap().max(A::from(100.0).unwrap() * A::epsilon());
+    let mask: Vec<_> = vals_b.iter().map(|x| *x > cutoff).collect();
+    let vals_b_recip: Array1<A> = (vals_b.iter().filter(|x| **x > cutoff))
+        .map(|x| x.sqrt().recip())
+        .collect();
+    let vecs_b_tilde = ndarray_mask(vecs_b.view(), &mask) * vals_b_recip;
     let a_tilde = vecs_b_tilde.t().dot(&a.dot(&vecs_b_tilde));
     let (vals_a, vecs_a) = a_tilde.eigh_into()?;
     let vecs = vecs_b_tilde.dot(&vecs_a);
@@ -36,6 +42,10 @@ fn sorted_eig<A: NdFloat>(
         _ => a.eigh_into()?,
     };
 
+    if res.0.len() < size {
+        return Err(LinalgError::NonInvertible);
+    }
+
     // sort and ensure that signs are deterministic
     let (vals, vecs) = res.sort_eig(order);
     let s = vecs.row(0).mapv(|x| x.signum());
-- 
2.43.0


From f0a716b49cf9333be3315c468a844d5147e6404d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 15/15] fix: LOBPCG continues with the span of linearly
 dependent residuals

---
 src/lobpcg/algorithm.rs | 44 +++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/lobpcg/algorithm.rs b/src/lobpcg/algorithm.rs
index 8efe412..7a93994 100644
--- a/src/lobpcg/algorithm.rs
+++ b/src/lobpcg/algorithm.rs
@@ -2,8 +2,8 @@
 //!
 //! This module implements the Locally Optimal Block Preconditioned Conjugated (LOBPCG) algorithm,
 //!  which can be used as a solver for large symmetric eigenproblems.
-use ndarray::concatenate;
 use ndarray::prelude::*;
+use ndarray::{concatenate, stack};
 use num_traits::NumCast;
 use std::iter::Sum;
 
@@ -118,6 +118,28 @@ fn orthonormalize<T: NdFloat>(v: Array2<T>) -> Result<(Array2<T>, Array2<T>)> {
     Ok((u, gram_vv_fac))
 }
 
+/// Orthonormal basis of the span of `V`, skipping columns which depend on the columns before them
+fn orthonormal_basis<T: NdFloat>(v: ArrayView2<T>) -> Result<Array2<T>> {
+    let cutoff = T::epsilon() * T::from(10 * v.ncols()).unwrap();
+    let mut basis: Vec<Array1<T>> = Vec::new();
+
+    for col in v.columns() {
+        // remove the part along the basis, twice because of rounding
+        let mut rest = col.to_owned();
+        for b in basis.iter().chain(&basis) {
+            rest.scaled_add(-b.dot(&rest), b);
+        }
+
+        let (norm_sq, rest_sq) = (col.dot(&col), rest.dot(&rest));
+        if rest_sq > cutoff * norm_sq {
+            basis.push(rest / rest_sq.sqrt());
+        }
+    }
+
+    let basis: Vec<_> = basis.iter().map(|b| b.view()).collect();
+    stack(Axis(1), &basis).map_err(|_| LinalgError::NotPositiveDefinite)
+}
+
 /// Eigenvalue solver for large symmetric positive definite (SPD) eigenproblems
 ///
 /// # Arguments
@@ -292,10 +314,16 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
             &mut active_block_r,
         );
 
-        let (r, _) = match orthonormalize(active_block_r) {
-            Ok(x) => x,
-            Err(err) => break Err(err),
+        // the residuals may be linearly dependent, for example because there are more of them than
+        // dimensions left; it is their span which matters
+        let r = match orthonormalize(active_block_r.clone()) {
+            Ok((r, _)) => r,
+            Err(_) => match orthonormal_basis(active_block_r.view()) {
+                Ok(r) => r,
+                Err(err) => break Err(err),
+            },
         };
+        let size_r = r.ncols();
 
         let ar = a(r.view());
 
@@ -331,8 +359,8 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
             (
                 lambda_diag,
                 ident0.clone(),
-                ident.clone(),
-                Array2::zeros((size_x, current_block_size)),
+                Array2::eye(size_r),
+                Array2::zeros((size_x, size_r)),
             )
         };
 
@@ -423,9 +451,9 @@ pub fn lobpcg<A: NdFloat + Sum, F: Fn(ArrayView2<A>) -> Array2<A>, G: Fn(ArrayVi
             // tau are eigenvalues to basis of X
             let tau = eig_vecs.slice(s![..size_x, ..]);
             // alpha are eigenvalues to basis of R
-            let alpha = eig_vecs.slice(s![size_x..size_x + current_block_size, ..]);
+            let alpha = eig_vecs.slice(s![size_x..size_x + size_r, ..]);
             // gamma are eigenvalues to basis of P
-            let gamma = eig_vecs.slice(s![size_x + current_block_size.., ..]);
+            let gamma = eig_vecs.slice(s![size_x + size_r.., ..]);
 
             // update AP and P in span{R, P} as linear combination
             let updated_p = r.dot(&alpha) + active_p.dot(&gamma);
-- 
2.43.0

