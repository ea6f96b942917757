From a82d2843062e791e7cdb40a279ebc489292c8cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:50 +0000
Subject: [PATCH 01/17] fix: SE2 exp/log used the small-angle approximation for
 every negative angle

The test was theta < 1e-5 instead of |theta| < 1e-5, so V was the identity for all negative
rotations, and the small-angle branch dropped the first-order term (wrong Jacobian at 0).
---
 src/variables/se2.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/variables/se2.rs b/src/variables/se2.rs
index 444aa04..5a25dab 100644
--- a/src/variables/se2.rs
+++ b/src/variables/se2.rs
@@ -91,9 +91,9 @@ impl<T: Numeric> Variable<T> for SE2<T> {
         } else {
             let A;
             let B;
-            if theta < T::from(1e-5) {
-                A = T::from(1.0);
-                B = T::from(0.0);
+            if theta.abs() < T::from(1e-5) {
+                A = T::from(1.0) - theta * theta / T::from(6.0);
+                B = theta * T::from(0.5);
             } else {
                 A = theta.sin() / theta;
                 B = (T::from(1.0) - theta.cos()) / theta;
@@ -115,9 +115,9 @@ impl<T: Numeric> Variable<T> for SE2<T> {
         } else {
             let A;
             let B;
-            if theta < T::from(1e-5) {
-                A = T::from(1.0);
-                B = T::from(0.0);
+            if theta.abs() < T::from(1e-5) {
+                A = T::from(1.0) - theta * theta / T::from(6.0);
+                B = theta * T::from(0.5);
             } else {
                 A = theta.sin() / theta;
                 B = (T::from(1.0) - theta.cos()) / theta;
-- 
2.43.0


From 0a4a6e1585d4237ae22bb4a54a409bc22df6e946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:50 +0000
Subject: [PATCH 02/17] fix: SO3 log of a quaternion with negative w returned
 the inverse rotation

Only w was made positive; the vector part kept its sign, so log(-q) = -log(q).
---
 src/variables/so3.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/variables/so3.rs b/src/variables/so3.rs
index d795c1e..3e2dc89 100644
--- a/src/variables/so3.rs
+++ b/src/variables/so3.rs
@@ -135,9 +135,13 @@ impl<T: Numeric> Variable<T> for SO3<T> {
     }
 
     fn log(&self) -> VectorX<T> {
-        let xi = vectorx![self.xyzw.x, self.xyzw.y, self.xyzw.z];
-        // Abs value in case we had a negative quaternion
-        let w = self.xyzw.w.abs();
+        let mut xi = vectorx![self.xyzw.x, self.xyzw.y, self.xyzw.z];
+        let mut w = self.xyzw.w;
+        // Flip the whole quaternion if it's negative (q and -q are the same rotation)
+        if w < T::from(0.0) {
+            xi = -xi;
+            w = -w;
+        }
 
         let norm_v = xi.norm();
         if norm_v < T::from(1e-3) {
-- 
2.43.0


From a15da694ba141e1fcd133fb134196a6f9a40de17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:50 +0000
Subject: [PATCH 03/17] fix: SO3 exp was wrong for rotation vectors longer than
 2 pi

sin(theta/2) was taken as the non-negative root of 1 - cos^2(theta/2).
---
 src/variables/so3.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variables/so3.rs b/src/variables/so3.rs
index 3e2dc89..aed2d5f 100644
--- a/src/variables/so3.rs
+++ b/src/variables/so3.rs
@@ -125,7 +125,7 @@ impl<T: Numeric> Variable<T> for SO3<T> {
             xyzw.w = (theta * T::from(0.5)).cos();
 
             let omega = xi / theta;
-            let sin_theta_half = (T::from(1.0) - xyzw.w * xyzw.w).sqrt();
+            let sin_theta_half = (theta * T::from(0.5)).sin();
             xyzw.x = omega[0] * sin_theta_half;
             xyzw.y = omega[1] * sin_theta_half;
             xyzw.z = omega[2] * sin_theta_half;
-- 
2.43.0


From 636c1496a807728bd5a60a40273b00e1a8025d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:54 +0000
Subject: [PATCH 04/17] fix: SE2 vee returned the wrong entries of the Lie
 algebra matrix

---
 src/variables/se2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/variables/se2.rs b/src/variables/se2.rs
index 5a25dab..250345a 100644
--- a/src/variables/se2.rs
+++ b/src/variables/se2.rs
@@ -180,7 +180,7 @@ impl<T: Numeric> MatrixLieGroup<T> for SE2<T> {
     }
 
     fn vee(xi: MatrixView<3, 3, T>) -> Vector3<T> {
-        Vector3::new(xi[(1, 0)], xi[(0, 1)], xi[(0, 2)])
+        Vector3::new(xi[(1, 0)], xi[(0, 2)], xi[(1, 2)])
     }
 
     fn apply(&self, v: VectorView2<T>) -> Vector2<T> {
-- 
2.43.0


From 893a33d55425d79433db83a9e7c72f28f11d77b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:54 +0000
Subject: [PATCH 05/17] fix: SE2 adjoint indexed out of bounds and used the
 wrong tangent ordering

---
 src/variables/se2.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/variables/se2.rs b/src/variables/se2.rs
index 250345a..9205de5 100644
--- a/src/variables/se2.rs
+++ b/src/variables/se2.rs
@@ -161,9 +161,11 @@ impl<T: Numeric> MatrixLieGroup<T> for SE2<T> {
 
         let r_mat = self.rot.to_matrix();
 
-        mat.fixed_view_mut::<2, 2>(0, 0).copy_from(&r_mat);
-        mat[(0, 2)] = self.xy[2];
-        mat[(1, 2)] = -self.xy[1];
+        // Rotation first, same ordering as exp/log/hat
+        mat[(0, 0)] = T::from(1.0);
+        mat[(1, 0)] = self.xy[1];
+        mat[(2, 0)] = -self.xy[0];
+        mat.fixed_view_mut::<2, 2>(1, 1).copy_from(&r_mat);
 
         mat
     }
-- 
2.43.0


From d44262cb41523ab554ae6f86ee5eac24237548af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:46 +0000
Subject: [PATCH 06/17] fix: NumericalDiff wrote every variable's Jacobian
 columns over the first variable's

---
 src/linalg/numerical_diff.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/linalg/numerical_diff.rs b/src/linalg/numerical_diff.rs
index 19f07eb..fc20c39 100644
--- a/src/linalg/numerical_diff.rs
+++ b/src/linalg/numerical_diff.rs
@@ -55,8 +55,8 @@ macro_rules! numerical_maker {
                 let mut jac: MatrixX = MatrixX::zeros(res.len(), dim);
                 let mut tvs = [$( VectorX::zeros($name.dim()), )*];
 
+                let mut curr_dim = 0;
                 for i in 0..$num {
-                    let mut curr_dim = 0;
                     for j in 0..tvs[i].len() {
                         tvs[i][j] = eps;
                         // TODO: It'd be more efficient to not have to add tangent vectors to each variable
@@ -127,8 +127,8 @@ macro_rules! numerical_variable_maker {
                 let mut jac: MatrixX = MatrixX::zeros(VOut::DIM, dim);
                 let mut tvs = [$( VectorX::zeros($name.dim()), )*];
 
+                let mut curr_dim = 0;
                 for i in 0..$num {
-                    let mut curr_dim = 0;
                     for j in 0..tvs[i].len() {
                         tvs[i][j] = eps;
                         // TODO: It'd be more efficient to not have to add tangent vectors to each variable
-- 
2.43.0


From 8a93356cff012570f214155824079050ffd5c5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:46 +0000
Subject: [PATCH 07/17] fix: forward_prop_derivative never seeded the dual
 number, so it always returned 0

---
 src/linalg/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linalg/mod.rs b/src/linalg/mod.rs
index 3433edd..5dc97b0 100644
--- a/src/linalg/mod.rs
+++ b/src/linalg/mod.rs
@@ -135,7 +135,7 @@ pub fn forward_prop_derivative<F: Fn(DualScalar) -> DualScalar>(
     f: F,
     x: dtype,
 ) -> DiffResult<dtype, dtype> {
-    let xd = x.into();
+    let xd = DualScalar::from(x).derivative();
     let r = f(xd);
     DiffResult {
         value: r.re,
-- 
2.43.0


From cd092b64aead9195bf758457d895b8d418b6a4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:46 +0000
Subject: [PATCH 08/17] fix: optimizers carried the linear solver's cached
 pattern and LM damping into the next optimize call

---
 src/optimizers/gauss_newton.rs        | 2 ++
 src/optimizers/levenberg_marquardt.rs | 8 +++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/optimizers/gauss_newton.rs b/src/optimizers/gauss_newton.rs
index df0390d..1aadd67 100644
--- a/src/optimizers/gauss_newton.rs
+++ b/src/optimizers/gauss_newton.rs
@@ -60,6 +60,8 @@ impl<S: LinearSolver> Optimizer for GaussNewton<S> {
             self.graph
                 .sparsity_pattern(ValuesOrder::from_values(_values)),
         );
+        // The solver caches the previous sparsity pattern, don't reuse it
+        self.solver = S::default();
     }
 
     fn step(&mut self, mut values: Values, idx: usize) -> OptResult<Values> {
diff --git a/src/optimizers/levenberg_marquardt.rs b/src/optimizers/levenberg_marquardt.rs
index 43fa6ac..10beab8 100644
--- a/src/optimizers/levenberg_marquardt.rs
+++ b/src/optimizers/levenberg_marquardt.rs
@@ -11,6 +11,9 @@ use crate::{
     linear::{CholeskySolver, LinearSolver, LinearValues},
 };
 
+// Damping used at the start of every optimization
+const LAMBDA_INIT: dtype = 1e-5;
+
 pub struct LevenParams {
     pub lambda_min: dtype,
     pub lambda_max: dtype,
@@ -59,7 +62,7 @@ impl<S: LinearSolver> GraphOptimizer for LevenMarquardt<S> {
             params_base: OptParams::default(),
             params_leven: LevenParams::default(),
             observers: OptObserverVec::default(),
-            lambda: 1e-5,
+            lambda: LAMBDA_INIT,
             graph_order: None,
         }
     }
@@ -87,6 +90,9 @@ impl<S: LinearSolver> Optimizer for LevenMarquardt<S> {
             self.graph
                 .sparsity_pattern(ValuesOrder::from_values(_values)),
         );
+        // The solver caches the previous sparsity pattern, don't reuse it
+        self.solver = S::default();
+        self.lambda = LAMBDA_INIT;
     }
 
     // TODO: Some form of logging of the lambda value
-- 
2.43.0


From 8fa4186101116a005fa5eaca55c5e2d4ba589832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:46 +0000
Subject: [PATCH 09/17] fix: IMU rotation covariance used the gyro bias
 covariance instead of the gyro covariance

---
 src/residuals/imu_preint/residual.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/residuals/imu_preint/residual.rs b/src/residuals/imu_preint/residual.rs
index 0c21949..15b2438 100644
--- a/src/residuals/imu_preint/residual.rs
+++ b/src/residuals/imu_preint/residual.rs
@@ -155,7 +155,7 @@ impl ImuPreintegrator {
         // Copy them into place
         let mut B = Matrix::<15, 15>::zeros();
         // First column (wrt theta)
-        let M = H_theta_w * p.cov_gyro_bias * H_theta_w.transpose()
+        let M = H_theta_w * p.cov_gyro * H_theta_w.transpose()
             + H_theta_winit * p.cov_winit * H_theta_winit.transpose();
         B.fixed_view_mut::<3, 3>(0, 0).copy_from(&M);
 
-- 
2.43.0


From 12c2a0b011b2a25ec64baff10544469a11912cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:46 +0000
Subject: [PATCH 10/17] fix: g2o SE2 information matrix was not reordered to
 put rotation first

---
 src/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 2317677..cf61b35 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -61,7 +61,8 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
                 let m22 = parts[9].parse::<dtype>().expect("Failed to parse g20");
                 let m23 = parts[10].parse::<dtype>().expect("Failed to parse g20");
                 let m33 = parts[11].parse::<dtype>().expect("Failed to parse g20");
-                let inf = Matrix3::new(m11, m12, m13, m12, m22, m23, m13, m23, m33);
+                // g2o orders as (x, y, theta), we put rotation first
+                let inf = Matrix3::new(m33, m13, m23, m13, m11, m12, m23, m12, m22);
 
                 let key1 = X(id_prev);
                 let key2 = X(id_curr);
-- 
2.43.0


From 7ba25b471d3975437f986362eb70e381dd0ac33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:46 +0000
Subject: [PATCH 11/17] fix: g2o loader anchored the second vertex instead of
 the first

---
 src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index cf61b35..cfb6fa7 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -40,7 +40,7 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
                 let key = X(id);
 
                 // Add prior on whatever the first variable is
-                if values.len() == 1 {
+                if values.is_empty() {
                     let factor = fac![PriorResidual::new(var.clone()), key];
                     graph.add_factor(factor);
                 }
@@ -88,7 +88,7 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
                 let key = X(id);
 
                 // Add prior on whatever the first variable is
-                if values.len() == 1 {
+                if values.is_empty() {
                     let noise =
                         GaussianNoise::<6>::from_diag_covs(1e-6, 1e-6, 1e-6, 1e-4, 1e-4, 1e-4);
                     let factor = fac![PriorResidual::new(var.clone()), key, noise];
-- 
2.43.0


From d912dee895354b784feb8431e79046b9089da7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:46 +0000
Subject: [PATCH 12/17] fix: fac! rejected a single key like X(0), as used in
 the README

---
 factrs-proc/src/fac.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factrs-proc/src/fac.rs b/factrs-proc/src/fac.rs
index 9b21744..e82b4bc 100644
--- a/factrs-proc/src/fac.rs
+++ b/factrs-proc/src/fac.rs
@@ -60,7 +60,7 @@ impl Parse for Factor {
             // in parentheses
             Expr::Tuple(t) => t.elems.clone(),
             // a single key for unary factors
-            Expr::Path(_) => {
+            Expr::Path(_) | Expr::Call(_) => {
                 let mut p = Punctuated::<Expr, Token![,]>::new();
                 p.push(input[1].clone());
                 p
-- 
2.43.0


From 109debd415c45038672b5c7c4adb3ae2e1615bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:33:46 +0000
Subject: [PATCH 13/17] fix: decoding a Key lost part of the symbol's character
 outside Latin-1

---
 src/containers/symbol.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/containers/symbol.rs b/src/containers/symbol.rs
index d34a6dc..23d564e 100644
--- a/src/containers/symbol.rs
+++ b/src/containers/symbol.rs
@@ -11,7 +11,7 @@ use crate::variables::VariableUmbrella;
 const KEY_BITS: usize = u64::BITS as usize;
 const CHR_BITS: usize = size_of::<char>() * 8;
 const IDX_BITS: usize = KEY_BITS - CHR_BITS;
-const CHR_MASK: u64 = (char::MAX as u64) << IDX_BITS;
+const CHR_MASK: u64 = (u32::MAX as u64) << IDX_BITS;
 const IDX_MASK: u64 = !CHR_MASK;
 
 // ------------------------- Symbol Parser ------------------------- //
@@ -45,7 +45,8 @@ impl Symbol for DefaultSymbol {}
 
 impl From<Key> for DefaultSymbol {
     fn from(key: Key) -> Self {
-        let chr = ((key.0 & CHR_MASK) >> IDX_BITS) as u8 as char;
+        let chr = char::from_u32(((key.0 & CHR_MASK) >> IDX_BITS) as u32)
+            .unwrap_or(char::REPLACEMENT_CHARACTER);
         let idx = key.0 & IDX_MASK;
         Self { chr, idx }
     }
-- 
2.43.0


From 73af470fadf0e831624dbfaa52b6d20ac63528fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:00 +0000
Subject: [PATCH 14/17] fix: g2o SE3 information matrix had its
 rotation-translation block transposed

g2o stores the upper triangle in (translation, rotation) order. Moving the rotation
first makes entry (rotation i, translation j) the file's (j, i+3) entry; the loader used
(i, j+3), which is only right when the cross block is symmetric.
---
 src/utils.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index cfb6fa7..ba1c813 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -132,12 +132,12 @@ pub fn load_g20(file: &str) -> (Graph, Values) {
                 let m66 = parts[30].parse::<dtype>().expect("Failed to parse g20");
                 #[rustfmt::skip]
                 let inf = Matrix6::new(
-                    m44, m45, m46, m14, m15, m16,
-                    m45, m55, m56, m24, m25, m26,
-                    m46, m56, m66, m34, m35, m36,
-                    m14, m24, m34, m11, m12, m13,
-                    m15, m25, m35, m12, m22, m23,
-                    m16, m26, m36, m13, m23, m33,
+                    m44, m45, m46, m14, m24, m34,
+                    m45, m55, m56, m15, m25, m35,
+                    m46, m56, m66, m16, m26, m36,
+                    m14, m15, m16, m11, m12, m13,
+                    m24, m25, m26, m12, m22, m23,
+                    m34, m35, m36, m13, m23, m33,
                 );
 
                 let rot = SO3::from_xyzw(qx, qy, qz, qw);
-- 
2.43.0


From 470818bf43e7dd0453f9b3a8436d4edca77802bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:04 +0000
Subject: [PATCH 15/17] fix: deserialise a tagged BetweenResidual as a
 BetweenResidual

The between registration of every variable type deserialised into a
PriorResidual, so a serialised between factor could not be read back.
---
 factrs-proc/src/variable.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factrs-proc/src/variable.rs b/factrs-proc/src/variable.rs
index 3b7f5fd..c844f70 100644
--- a/factrs-proc/src/variable.rs
+++ b/factrs-proc/src/variable.rs
@@ -118,7 +118,7 @@ fn tag_all(kind: &TokenStream2, name: &str) -> TokenStream2 {
                 #name_between,
                 (|deserializer| typetag::__private::Result::Ok(
                     typetag::__private::Box::new(
-                        typetag::__private::erased_serde::deserialize::<factrs::residuals::PriorResidual<#kind>>(deserializer)?
+                        typetag::__private::erased_serde::deserialize::<factrs::residuals::BetweenResidual<#kind>>(deserializer)?
                     ),
                 )) as typetag::__private::DeserializeFn<<dyn factrs::residuals::Residual as typetag::__private::Strictest>::Object>,
             )
-- 
2.43.0


From 12196e18efdf5aa8ed1a2bb9726166af8da493dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:23 +0000
Subject: [PATCH 16/17] fix: an iteration limit of usize::MAX overflowed the
 optimisation loop

---
 src/optimizers/traits.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimizers/traits.rs b/src/optimizers/traits.rs
index e173a69..e2e3ee1 100644
--- a/src/optimizers/traits.rs
+++ b/src/optimizers/traits.rs
@@ -129,7 +129,7 @@ pub trait Optimizer {
 
         // Begin iterations
         let mut error_new = error_old;
-        for i in 1..self.params().max_iterations + 1 {
+        for i in 1..=self.params().max_iterations {
             error_old = error_new;
             values = self.step(values, i)?;
 
-- 
2.43.0


From 8161c2b17ca47be53354352e369ad7cac9afc832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:07 +0000
Subject: [PATCH 17/17] fix: SE2 exp/log derivatives were up to twice too large
 at small angles in f32

---
 src/variables/se2.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/variables/se2.rs b/src/variables/se2.rs
index 9205de5..f3f35a4 100644
--- a/src/variables/se2.rs
+++ b/src/variables/se2.rs
@@ -96,7 +96,9 @@ impl<T: Numeric> Variable<T> for SE2<T> {
                 B = theta * T::from(0.5);
             } else {
                 A = theta.sin() / theta;
-                B = (T::from(1.0) - theta.cos()) / theta;
+                // 1 - cos would cancel for small angles, in particular in f32
+                let half_sin = (theta * T::from(0.5)).sin();
+                B = half_sin * half_sin * T::from(2.0) / theta;
             };
             let V = Matrix2::new(A, -B, B, A);
             V * xy
@@ -120,7 +122,9 @@ impl<T: Numeric> Variable<T> for SE2<T> {
                 B = theta * T::from(0.5);
             } else {
                 A = theta.sin() / theta;
-                B = (T::from(1.0) - theta.cos()) / theta;
+                // 1 - cos would cancel for small angles, in particular in f32
+                let half_sin = (theta * T::from(0.5)).sin();
+                B = half_sin * half_sin * T::from(2.0) / theta;
             };
             let V = Matrix2::new(A, -B, B, A);
 
-- 
2.43.0

