From 25be14301750dddbbdabbaef2a1ffa59faf29d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:53 +0000
Subject: [PATCH 01/13] fix: SE2 exp/log used the small-angle branch for every
 negative angle

The test lacked an absolute value, so any negative rotation was treated as
small, and the small-angle value of (1 - cos)/theta was 0 instead of theta/2.
---
 src/variables/se2.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/variables/se2.rs b/src/variables/se2.rs
index 444aa04..7ee0c13 100644
--- a/src/variables/se2.rs
+++ b/src/variables/se2.rs
@@ -91,9 +91,9 @@ impl<T: Numeric> Variable<T> for SE2<T> {
         } else {
             let A;
             let B;
-            if theta < T::from(1e-5) {
+            if theta.abs() < T::from(1e-5) {
                 A = T::from(1.0);
-                B = T::from(0.0);
+                B = theta / T::from(2.0);
             } else {
                 A = theta.sin() / theta;
                 B = (T::from(1.0) - theta.cos()) / theta;
@@ -115,9 +115,9 @@ impl<T: Numeric> Variable<T> for SE2<T> {
         } else {
             let A;
             let B;
-            if theta < T::from(1e-5) {
+            if theta.abs() < T::from(1e-5) {
                 A = T::from(1.0);
-                B = T::from(0.0);
+                B = theta / T::from(2.0);
             } else {
                 A = theta.sin() / theta;
                 B = (T::from(1.0) - theta.cos()) / theta;
-- 
2.43.0


From 61c4f211f39a13ac9f981bfc79c2ac5b11f6104c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:53 +0000
Subject: [PATCH 02/13] fix: SO3 log reversed the rotation of quaternions with
 negative w

q and -q are the same rotation; only w was negated, which gives the log of
the inverse rotation.
---
 src/variables/so3.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/variables/so3.rs b/src/variables/so3.rs
index d795c1e..45c27ab 100644
--- a/src/variables/so3.rs
+++ b/src/variables/so3.rs
@@ -135,9 +135,13 @@ impl<T: Numeric> Variable<T> for SO3<T> {
     }
 
     fn log(&self) -> VectorX<T> {
-        let xi = vectorx![self.xyzw.x, self.xyzw.y, self.xyzw.z];
-        // Abs value in case we had a negative quaternion
-        let w = self.xyzw.w.abs();
+        let mut xi = vectorx![self.xyzw.x, self.xyzw.y, self.xyzw.z];
+        let mut w = self.xyzw.w;
+        // q and -q are the same rotation, use the one with positive w
+        if w < T::from(0.0) {
+            xi = -xi;
+            w = -w;
+        }
 
         let norm_v = xi.norm();
         if norm_v < T::from(1e-3) {
-- 
2.43.0


From 9505b724c0b9bd903a1392f65ed1b26f066ffa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:53 +0000
Subject: [PATCH 03/13] fix: SO3 exp lost the sign of sin(theta/2) for
 rotations beyond 2 pi

---
 src/variables/so3.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variables/so3.rs b/src/variables/so3.rs
index 45c27ab..42105f0 100644
--- a/src/variables/so3.rs
+++ b/src/variables/so3.rs
@@ -125,7 +125,7 @@ impl<T: Numeric> Variable<T> for SO3<T> {
             xyzw.w = (theta * T::from(0.5)).cos();
 
             let omega = xi / theta;
-            let sin_theta_half = (T::from(1.0) - xyzw.w * xyzw.w).sqrt();
+            let sin_theta_half = (theta * T::from(0.5)).sin();
             xyzw.x = omega[0] * sin_theta_half;
             xyzw.y = omega[1] * sin_theta_half;
             xyzw.z = omega[2] * sin_theta_half;
-- 
2.43.0


From 0c88ae381f38148d7e0caeccc70acb81fd3f9b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:53 +0000
Subject: [PATCH 04/13] fix: NumericalDiff wrote every variable's columns over
 the first one's

The column offset was reset for each variable.
---
 src/linalg/numerical_diff.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linalg/numerical_diff.rs b/src/linalg/numerical_diff.rs
index 19f07eb..fc20c39 100644
--- a/src/linalg/numerical_diff.rs
+++ b/src/linalg/numerical_diff.rs
@@ -55,8 +55,8 @@ macro_rules! numerical_maker {
                 let mut jac: MatrixX = MatrixX::zeros(res.len(), dim);
                 let mut tvs = [$( VectorX::zeros($name.dim()), )*];
 
+                let mut curr_dim = 0;
                 for i in 0..$num {
-                    let mut curr_dim = 0;
                     for j in 0..tvs[i].len() {
                         tvs[i][j] = eps;
                         // TODO: It'd be more efficient to not have to add tangent vectors to each variable
@@ -127,8 +127,8 @@ macro_rules! numerical_variable_maker {
                 let mut jac: MatrixX = MatrixX::zeros(VOut::DIM, dim);
                 let mut tvs = [$( VectorX::zeros($name.dim()), )*];
 
+                let mut curr_dim = 0;
                 for i in 0..$num {
-                    let mut curr_dim = 0;
                     for j in 0..tvs[i].len() {
                         tvs[i][j] = eps;
                         // TODO: It'd be more efficient to not have to add tangent vectors to each variable
-- 
2.43.0


From fa63c8012aaf8851bf61628db8291ea00bdd078c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:38 +0000
Subject: [PATCH 05/13] fix: load_g20 applied 2D information matrices in the
 wrong order

g2o writes them as (x, y, theta); SE2 residuals are (theta, x, y).
---
 src/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 2317677..06eb3bd 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -61,7 +61,8 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
                 let m22 = parts[9].parse::<dtype>().expect("Failed to parse g20");
                 let m23 = parts[10].parse::<dtype>().expect("Failed to parse g20");
                 let m33 = parts[11].parse::<dtype>().expect("Failed to parse g20");
-                let inf = Matrix3::new(m11, m12, m13, m12, m22, m23, m13, m23, m33);
+                // g2o orders translation before rotation, we have rotation first
+                let inf = Matrix3::new(m33, m13, m23, m13, m11, m12, m23, m12, m22);
 
                 let key1 = X(id_prev);
                 let key2 = X(id_curr);
-- 
2.43.0


From c0bbaa74cc11311dcfa1e7bfbfa45401845976b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:38 +0000
Subject: [PATCH 06/13] fix: load_g20 transposed the rotation-translation
 blocks of 3D information matrices

---
 src/utils.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 06eb3bd..c52a305 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -132,12 +132,12 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
                 let m66 = parts[30].parse::<dtype>().expect("Failed to parse g20");
                 #[rustfmt::skip]
                 let inf = Matrix6::new(
-                    m44, m45, m46, m14, m15, m16,
-                    m45, m55, m56, m24, m25, m26,
-                    m46, m56, m66, m34, m35, m36,
-                    m14, m24, m34, m11, m12, m13,
-                    m15, m25, m35, m12, m22, m23,
-                    m16, m26, m36, m13, m23, m33,
+                    m44, m45, m46, m14, m24, m34,
+                    m45, m55, m56, m15, m25, m35,
+                    m46, m56, m66, m16, m26, m36,
+                    m14, m15, m16, m11, m12, m13,
+                    m24, m25, m26, m12, m22, m23,
+                    m34, m35, m36, m13, m23, m33,
                 );
 
                 let rot = SO3::from_xyzw(qx, qy, qz, qw);
-- 
2.43.0


From 71e8257b6445d1f355f0bc6aa8833cc6bb2d3be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:38 +0000
Subject: [PATCH 07/13] fix: load_g20 put the prior on the second vertex
 instead of the first

Files with a single vertex got no prior at all, and a vertex repeated while
the store held one entry got several.
---
 src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index c52a305..c075887 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -40,7 +40,7 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
                 let key = X(id);
 
                 // Add prior on whatever the first variable is
-                if values.len() == 1 {
+                if values.is_empty() {
                     let factor = fac![PriorResidual::new(var.clone()), key];
                     graph.add_factor(factor);
                 }
@@ -88,7 +88,7 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
                 let key = X(id);
 
                 // Add prior on whatever the first variable is
-                if values.len() == 1 {
+                if values.is_empty() {
                     let noise =
                         GaussianNoise::<6>::from_diag_covs(1e-6, 1e-6, 1e-6, 1e-4, 1e-4, 1e-4);
                     let factor = fac![PriorResidual::new(var.clone()), key, noise];
-- 
2.43.0


From a465e517662c64b7a5a8dac8d986d8e99cc53ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:38 +0000
Subject: [PATCH 08/13] fix: IMU preintegration propagated the gyro bias noise
 as gyro noise

The gyroscope measurement covariance was never used.
---
 src/residuals/imu_preint/residual.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/residuals/imu_preint/residual.rs b/src/residuals/imu_preint/residual.rs
index 0c21949..15b2438 100644
--- a/src/residuals/imu_preint/residual.rs
+++ b/src/residuals/imu_preint/residual.rs
@@ -155,7 +155,7 @@ impl ImuPreintegrator {
         // Copy them into place
         let mut B = Matrix::<15, 15>::zeros();
         // First column (wrt theta)
-        let M = H_theta_w * p.cov_gyro_bias * H_theta_w.transpose()
+        let M = H_theta_w * p.cov_gyro * H_theta_w.transpose()
             + H_theta_winit * p.cov_winit * H_theta_winit.transpose();
         B.fixed_view_mut::<3, 3>(0, 0).copy_from(&M);
 
-- 
2.43.0


From 2cae62bc29fdb0330799f8f8dc54f3f5aac2a944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:38 +0000
Subject: [PATCH 09/13] fix: LevenMarquardt kept the damping of the previous
 optimization

After a run that failed, lambda stayed above lambda_max and every later run
on the same optimizer failed at its first rejected step or crept.
---
 src/optimizers/levenberg_marquardt.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/optimizers/levenberg_marquardt.rs b/src/optimizers/levenberg_marquardt.rs
index 43fa6ac..cd1ced2 100644
--- a/src/optimizers/levenberg_marquardt.rs
+++ b/src/optimizers/levenberg_marquardt.rs
@@ -51,6 +51,9 @@ pub struct LevenMarquardt<S: LinearSolver = CholeskySolver> {
     graph_order: Option<GraphOrder>,
 }
 
+// Damping at the start of every optimization
+const LAMBDA_INIT: dtype = 1e-5;
+
 impl<S: LinearSolver> GraphOptimizer for LevenMarquardt<S> {
     fn new(graph: Graph) -> Self {
         Self {
@@ -59,7 +62,7 @@ impl<S: LinearSolver> GraphOptimizer for LevenMarquardt<S> {
             params_base: OptParams::default(),
             params_leven: LevenParams::default(),
             observers: OptObserverVec::default(),
-            lambda: 1e-5,
+            lambda: LAMBDA_INIT,
             graph_order: None,
         }
     }
@@ -81,6 +84,9 @@ impl<S: LinearSolver> Optimizer for LevenMarquardt<S> {
     }
 
     fn init(&mut self, _values: &Values) {
+        // Don't carry over damping from previous optimizations
+        self.lambda = LAMBDA_INIT;
+
         // TODO: Some way to manual specify how to computer ValuesOrder
         // Precompute the sparsity pattern
         self.graph_order = Some(
-- 
2.43.0


From 0dc8a2ec3d6818ca8219364eba02e561072a7602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:38 +0000
Subject: [PATCH 10/13] fix: LevenMarquardt looped forever once lambda had
 decayed to zero

With lambda_min = 0 the damping underflows after enough accepted steps, and
multiplying zero never reaches lambda_max.
---
 src/optimizers/levenberg_marquardt.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/optimizers/levenberg_marquardt.rs b/src/optimizers/levenberg_marquardt.rs
index cd1ced2..4b795a9 100644
--- a/src/optimizers/levenberg_marquardt.rs
+++ b/src/optimizers/levenberg_marquardt.rs
@@ -177,6 +177,8 @@ impl<S: LinearSolver> Optimizer for LevenMarquardt<S> {
         if self.lambda < self.params_leven.lambda_min {
             self.lambda = self.params_leven.lambda_min;
         }
+        // Zero could never be raised again by a rejected step
+        self.lambda = self.lambda.max(dtype::MIN_POSITIVE);
 
         self.observers.notify(&values, idx);
 
-- 
2.43.0


From bc32e35ba857c2b9b6c2085443ce13b1c9771942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:58 +0000
Subject: [PATCH 11/13] fix: linear solvers reused a symbolic factorization
 made for another sparsity pattern

The symbolic analysis of the first system was used for every later one, so a
solver (and an optimizer reused on values with another layout) gave wrong
answers or panicked when the pattern changed.
---
 src/linear/solvers.rs | 98 ++++++++++++++++++++++++-------------------
 1 file changed, 55 insertions(+), 43 deletions(-)

diff --git a/src/linear/solvers.rs b/src/linear/solvers.rs
index f09e6dc..f8bfaee 100644
--- a/src/linear/solvers.rs
+++ b/src/linear/solvers.rs
@@ -2,7 +2,7 @@ use std::ops::Mul;
 
 use faer::{
     prelude::SpSolver,
-    sparse::{linalg::solvers, SparseColMatRef},
+    sparse::{linalg::solvers, SparseColMatRef, SymbolicSparseColMat, SymbolicSparseColMatRef},
     Mat, MatRef,
 };
 
@@ -24,12 +24,40 @@ pub trait LinearSolver: Default {
     fn solve_lst_sq(&mut self, a: SparseColMatRef<usize, dtype>, b: MatRef<dtype>) -> Mat<dtype>;
 }
 
+// A symbolic factorization, along with the sparsity pattern it was made for
+type Cached<F> = Option<(SymbolicSparseColMat<usize>, F)>;
+
+// Reuse the cached symbolic factorization if it belongs to this sparsity
+// pattern, otherwise make a new one
+fn symbolic<F: Clone>(
+    cache: &mut Cached<F>,
+    a: SymbolicSparseColMatRef<usize>,
+    make: impl FnOnce(SymbolicSparseColMatRef<usize>) -> F,
+) -> F {
+    if let Some((pattern, factorization)) = cache {
+        let p = pattern.as_ref();
+        if p.nrows() == a.nrows()
+            && p.ncols() == a.ncols()
+            && p.col_ptrs() == a.col_ptrs()
+            && p.nnz_per_col() == a.nnz_per_col()
+            && p.row_indices() == a.row_indices()
+        {
+            return factorization.clone();
+        }
+    }
+
+    let factorization = make(a);
+    let pattern = a.to_owned().expect("Failed to copy sparsity pattern");
+    *cache = Some((pattern, factorization.clone()));
+    factorization
+}
+
 // ------------------------- Cholesky Linear Solver ------------------------- //
 
 /// Cholesky linear solver
 #[derive(Default)]
 pub struct CholeskySolver {
-    sparsity_pattern: Option<solvers::SymbolicCholesky<usize>>,
+    sparsity_pattern: Cached<solvers::SymbolicCholesky<usize>>,
 }
 
 impl LinearSolver for CholeskySolver {
@@ -38,22 +66,14 @@ impl LinearSolver for CholeskySolver {
         a: SparseColMatRef<usize, dtype>,
         b: MatRef<dtype>,
     ) -> Mat<dtype> {
-        if self.sparsity_pattern.is_none() {
-            self.sparsity_pattern = Some(
-                solvers::SymbolicCholesky::try_new(a.symbolic(), faer::Side::Lower)
-                    .expect("Symbolic cholesky failed"),
-            );
-        }
-
-        solvers::Cholesky::try_new_with_symbolic(
-            self.sparsity_pattern
-                .clone()
-                .expect("Missing symbol cholesky"),
-            a,
-            faer::Side::Lower,
-        )
-        .expect("Cholesky decomp failed")
-        .solve(&b)
+        let sparsity_pattern = symbolic(&mut self.sparsity_pattern, a.symbolic(), |p| {
+            solvers::SymbolicCholesky::try_new(p, faer::Side::Lower)
+                .expect("Symbolic cholesky failed")
+        });
+
+        solvers::Cholesky::try_new_with_symbolic(sparsity_pattern, a, faer::Side::Lower)
+            .expect("Cholesky decomp failed")
+            .solve(&b)
     }
 
     fn solve_lst_sq(&mut self, a: SparseColMatRef<usize, dtype>, b: MatRef<dtype>) -> Mat<dtype> {
@@ -74,7 +94,7 @@ impl LinearSolver for CholeskySolver {
 /// QR linear solver
 #[derive(Default)]
 pub struct QRSolver {
-    sparsity_pattern: Option<solvers::SymbolicQr<usize>>,
+    sparsity_pattern: Cached<solvers::SymbolicQr<usize>>,
 }
 
 impl LinearSolver for QRSolver {
@@ -87,21 +107,17 @@ impl LinearSolver for QRSolver {
     }
 
     fn solve_lst_sq(&mut self, a: SparseColMatRef<usize, dtype>, b: MatRef<dtype>) -> Mat<dtype> {
-        if self.sparsity_pattern.is_none() {
-            self.sparsity_pattern =
-                Some(solvers::SymbolicQr::try_new(a.symbolic()).expect("Symbolic QR failed"));
-        }
+        let sparsity_pattern = symbolic(&mut self.sparsity_pattern, a.symbolic(), |p| {
+            solvers::SymbolicQr::try_new(p).expect("Symbolic QR failed")
+        });
 
         // TODO: I think we're doing an extra copy here from solution -> slice solution
-        solvers::Qr::try_new_with_symbolic(
-            self.sparsity_pattern.clone().expect("Missing symbolic QR"),
-            a,
-        )
-        .expect("QR failed")
-        .solve(&b)
-        .as_ref()
-        .subrows(0, a.ncols())
-        .to_owned()
+        solvers::Qr::try_new_with_symbolic(sparsity_pattern, a)
+            .expect("QR failed")
+            .solve(&b)
+            .as_ref()
+            .subrows(0, a.ncols())
+            .to_owned()
     }
 }
 
@@ -110,7 +126,7 @@ impl LinearSolver for QRSolver {
 /// LU linear solver
 #[derive(Default)]
 pub struct LUSolver {
-    sparsity_pattern: Option<solvers::SymbolicLu<usize>>,
+    sparsity_pattern: Cached<solvers::SymbolicLu<usize>>,
 }
 
 impl LinearSolver for LUSolver {
@@ -119,17 +135,13 @@ impl LinearSolver for LUSolver {
         a: SparseColMatRef<usize, dtype>,
         b: MatRef<dtype>,
     ) -> Mat<dtype> {
-        if self.sparsity_pattern.is_none() {
-            self.sparsity_pattern =
-                Some(solvers::SymbolicLu::try_new(a.symbolic()).expect("Symbolic LU failed"));
-        }
+        let sparsity_pattern = symbolic(&mut self.sparsity_pattern, a.symbolic(), |p| {
+            solvers::SymbolicLu::try_new(p).expect("Symbolic LU failed")
+        });
 
-        solvers::Lu::try_new_with_symbolic(
-            self.sparsity_pattern.clone().expect("Symbolic LU missing"),
-            a.as_ref(),
-        )
-        .expect("LU decomp failed")
-        .solve(&b)
+        solvers::Lu::try_new_with_symbolic(sparsity_pattern, a.as_ref())
+            .expect("LU decomp failed")
+            .solve(&b)
     }
 
     fn solve_lst_sq(&mut self, a: SparseColMatRef<usize, dtype>, b: MatRef<dtype>) -> Mat<dtype> {
-- 
2.43.0


From e3208877862a4596a7ecb4f545fb49f77fa447d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:50 +0000
Subject: [PATCH 12/13] fix: optimize overflowed when max_iterations is
 usize::MAX

---
 src/optimizers/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimizers/traits.rs b/src/optimizers/traits.rs
index e173a69..e2e3ee1 100644
--- a/src/optimizers/traits.rs
+++ b/src/optimizers/traits.rs
@@ -129,7 +129,7 @@ pub trait Optimizer {
 
         // Begin iterations
         let mut error_new = error_old;
-        for i in 1..self.params().max_iterations + 1 {
+        for i in 1..=self.params().max_iterations {
             error_old = error_new;
             values = self.step(values, i)?;
 
-- 
2.43.0


From 7720ae4e5ec786b1ddd0485a3717507a5abdade1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:58 +0000
Subject: [PATCH 13/13] fix: SE2/SE3 exp and log lost all precision in the
 single-precision build for small rotations

---
 src/variables/se2.rs | 8 ++++++--
 src/variables/se3.rs | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/variables/se2.rs b/src/variables/se2.rs
index 7ee0c13..c3512f7 100644
--- a/src/variables/se2.rs
+++ b/src/variables/se2.rs
@@ -96,7 +96,9 @@ impl<T: Numeric> Variable<T> for SE2<T> {
                 B = theta / T::from(2.0);
             } else {
                 A = theta.sin() / theta;
-                B = (T::from(1.0) - theta.cos()) / theta;
+                // (1 - cos) / theta, without the cancellation
+                let half = theta / T::from(2.0);
+                B = half.sin() * half.sin() / half;
             };
             let V = Matrix2::new(A, -B, B, A);
             V * xy
@@ -120,7 +122,9 @@ impl<T: Numeric> Variable<T> for SE2<T> {
                 B = theta / T::from(2.0);
             } else {
                 A = theta.sin() / theta;
-                B = (T::from(1.0) - theta.cos()) / theta;
+                // (1 - cos) / theta, without the cancellation
+                let half = theta / T::from(2.0);
+                B = half.sin() * half.sin() / half;
             };
             let V = Matrix2::new(A, -B, B, A);
 
diff --git a/src/variables/se3.rs b/src/variables/se3.rs
index e04cb67..f694ec3 100644
--- a/src/variables/se3.rs
+++ b/src/variables/se3.rs
@@ -82,7 +82,9 @@ impl<T: Numeric> Variable<T> for SE3<T> {
             } else {
                 let w = w2.sqrt();
                 let A = w.sin() / w;
-                B = (T::from(1.0) - w.cos()) / w2;
+                // (1 - cos) / w2, without the cancellation
+                let sin_half = (w / T::from(2.0)).sin();
+                B = sin_half * sin_half * T::from(2.0) / w2;
                 C = (T::from(1.0) - A) / w2;
             };
             let I = Matrix3::identity();
@@ -111,7 +113,9 @@ impl<T: Numeric> Variable<T> for SE3<T> {
             } else {
                 let w = w2.sqrt();
                 let A = w.sin() / w;
-                B = (T::from(1.0) - w.cos()) / w2;
+                // (1 - cos) / w2, without the cancellation
+                let sin_half = (w / T::from(2.0)).sin();
+                B = sin_half * sin_half * T::from(2.0) / w2;
                 C = (T::from(1.0) - A) / w2;
             };
 
-- 
2.43.0

