From 5a57a3122b824343a0838eedf5a3bf25c88cb241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:20 +0000
Subject: [PATCH 01/11] fix: Matrix::diagonal returns all N diagonal entries
 for every N

It always returned a Vector4: padded with zeros below 4x4, out of bounds above.
---
 crates/cglinalg_core/src/matrix.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index d808038..be5c255 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -22,7 +22,6 @@ use crate::vector::{
     Vector,
     Vector2,
     Vector3,
-    Vector4,
 };
 use crate::{
     impl_coords,
@@ -1364,7 +1363,7 @@ where
     /// assert_eq!(result, expected);
     /// ```
     #[inline]
-    pub fn diagonal(&self) -> Vector4<S> {
+    pub fn diagonal(&self) -> Vector<S, N> {
         // PERFORMANCE: The const loop should get unrolled during optimization.
         let mut result = Vector::zero();
         for i in 0..N {
-- 
2.43.0


From 43f1b2b48a93b8e8691af314daf950154d065133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:07 +0000
Subject: [PATCH 02/11] fix: Matrix2x2::rotation_between turns clockwise when
 that is the way from v1 to v2

The sine was taken as sqrt(1 - cos^2), which is never negative, so for a
clockwise pair the matrix did not map v1 onto v2.
---
 crates/cglinalg_core/src/matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cglinalg_core/src/matrix.rs b/crates/cglinalg_core/src/matrix.rs
index be5c255..c960c83 100644
--- a/crates/cglinalg_core/src/matrix.rs
+++ b/crates/cglinalg_core/src/matrix.rs
@@ -3233,7 +3233,7 @@ where
     #[inline]
     pub fn rotation_between_axis(v1: &Unit<Vector2<S>>, v2: &Unit<Vector2<S>>) -> Self {
         let cos_angle = v1.as_ref().dot(v2.as_ref());
-        let sin_angle = S::sqrt(S::one() - cos_angle * cos_angle);
+        let sin_angle = v1[0] * v2[1] - v1[1] * v2[0];
 
         Self::from_angle(Radians::atan2(sin_angle, cos_angle))
     }
-- 
2.43.0


From 0a2b3610af3db7db5db0748e4b3e38cdc2f334f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:58 +0000
Subject: [PATCH 03/11] fix: Perspective3::project_point uses the off-centre
 coefficient of the y row

---
 crates/cglinalg_transform/src/projection.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cglinalg_transform/src/projection.rs b/crates/cglinalg_transform/src/projection.rs
index f720587..99c9eb6 100644
--- a/crates/cglinalg_transform/src/projection.rs
+++ b/crates/cglinalg_transform/src/projection.rs
@@ -1921,7 +1921,7 @@ where
 
         Point3::new(
             (self.matrix.c0r0 * point.x + self.matrix.c2r0 * point.z) * inverse_w,
-            (self.matrix.c1r1 * point.y + self.matrix.c3r1 * point.z) * inverse_w,
+            (self.matrix.c1r1 * point.y + self.matrix.c2r1 * point.z) * inverse_w,
             (self.matrix.c2r2 * point.z + self.matrix.c3r2) * inverse_w,
         )
     }
-- 
2.43.0


From 765fe0445b2c91fcf3cb4faceb159b728819a8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:06 +0000
Subject: [PATCH 04/11] fix: Perspective3::vfov is right for fields of view of
 a quarter turn and wider

---
 crates/cglinalg_transform/src/projection.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/cglinalg_transform/src/projection.rs b/crates/cglinalg_transform/src/projection.rs
index 99c9eb6..1c7da0d 100644
--- a/crates/cglinalg_transform/src/projection.rs
+++ b/crates/cglinalg_transform/src/projection.rs
@@ -826,8 +826,9 @@ where
         let two = one + one;
         let numerator = two * self.matrix[1][1];
         let denominator = self.matrix[2][1] * self.matrix[2][1] + self.matrix[1][1] * self.matrix[1][1] - one;
-        let tan_vfov = numerator / denominator;
-        let vfov = tan_vfov.atan();
+        // The field of view lies in `(0, pi)`, and the numerator is positive, so the
+        // denominator is negative for a field of view wider than a quarter turn.
+        let vfov = numerator.atan2(denominator);
 
         Radians(vfov)
     }
-- 
2.43.0


From b4a200201ed8185bc653fc5a278849d3a8ce9789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:07 +0000
Subject: [PATCH 05/11] fix: Complex::powi ignored part of a negative exponent

For a negative exponent the squaring loop never ran, so every negative exponent
that is not minus a power of two gave the wrong power, e.g. z.powi(-3) was z.powi(-1).
---
 crates/cglinalg_core/src/complex.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cglinalg_core/src/complex.rs b/crates/cglinalg_core/src/complex.rs
index 7df2ddf..cefc515 100644
--- a/crates/cglinalg_core/src/complex.rs
+++ b/crates/cglinalg_core/src/complex.rs
@@ -1307,8 +1307,8 @@ where
         }
 
         // exponent != 0
-        let mut _exponent = exponent;
-        let mut base = if _exponent > 0 {
+        let mut _exponent = exponent.unsigned_abs();
+        let mut base = if exponent > 0 {
             self
         } else {
             let norm_squared = self.norm_squared();
-- 
2.43.0


From 88185abbe76dd955cb83d5b99c4e1d82b23952df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:39 +0000
Subject: [PATCH 06/11] fix: Quaternion::polar_decomposition keeps the sign of
 the scalar part

With a negative scalar part the angle returned was that of the quaternion with
the scalar part made positive, so the polar form did not give the quaternion back.
---
 crates/cglinalg_core/src/quaternion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index f80c098..dc17b99 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -3056,7 +3056,7 @@ where
         let pair = Unit::try_from_value_with_norm(*self, S::zero());
         if let Some((unit_q, norm_q)) = pair {
             if let Some(axis) = Unit::try_from_value(self.vector(), S::zero()) {
-                let cos_angle_over_two = unit_q.scalar().abs();
+                let cos_angle_over_two = unit_q.scalar();
                 let sin_angle_over_two = unit_q.vector().norm();
                 let angle_over_two = Radians::atan2(sin_angle_over_two, cos_angle_over_two);
 
-- 
2.43.0


From 9f2d7f90510dd46026151d95e83cd00bb33402d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:39 +0000
Subject: [PATCH 07/11] fix: Quaternion::acos of a pure quaternion

q * q - 1 is a negative real number there, and its square root was taken along the
x-axis whatever the direction of q, so cos(acos(q)) was not q. 1 - q * q is positive.
---
 crates/cglinalg_core/src/quaternion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index dc17b99..93a4574 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -3189,7 +3189,7 @@ where
     pub fn acos(&self) -> Self {
         let signum_vec_self = Self::from_pure(self.vector().normalize());
         let identity = Self::identity();
-        let q = (self + (self.squared() - identity).sqrt()).ln();
+        let q = (self + signum_vec_self * (identity - self.squared()).sqrt()).ln();
 
         -(signum_vec_self * q)
     }
-- 
2.43.0


From 7d66bc3c0afc32a985e0674b781348a75803f2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:03 +0000
Subject: [PATCH 08/11] fix: Isometry3 inverse viewing frames put the origin at
 the eye

---
 crates/cglinalg_transform/src/isometry.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/cglinalg_transform/src/isometry.rs b/crates/cglinalg_transform/src/isometry.rs
index cc9e806..49776e3 100644
--- a/crates/cglinalg_transform/src/isometry.rs
+++ b/crates/cglinalg_transform/src/isometry.rs
@@ -1638,7 +1638,7 @@ where
     #[inline]
     pub fn look_to_lh_inv(eye: &Point3<S>, direction: &Vector3<S>, up: &Vector3<S>) -> Self {
         let rotation = Rotation3::look_to_lh_inv(direction, up);
-        let vector = rotation * (-eye) - Point3::origin();
+        let vector = eye - Point3::origin();
         let translation = Translation3::from_vector(&vector);
 
         Self::from_parts(&translation, &rotation)
@@ -1683,7 +1683,7 @@ where
     #[inline]
     pub fn look_to_rh_inv(eye: &Point3<S>, direction: &Vector3<S>, up: &Vector3<S>) -> Self {
         let rotation = Rotation3::look_to_rh_inv(direction, up);
-        let vector = rotation * (-eye) - Point3::origin();
+        let vector = eye - Point3::origin();
         let translation = Translation3::from_vector(&vector);
 
         Self::from_parts(&translation, &rotation)
@@ -1728,7 +1728,7 @@ where
     #[inline]
     pub fn look_at_lh_inv(eye: &Point3<S>, target: &Point3<S>, up: &Vector3<S>) -> Self {
         let rotation = Rotation3::look_at_lh_inv(eye, target, up);
-        let vector = rotation * (-eye) - Point3::origin();
+        let vector = eye - Point3::origin();
         let translation = Translation3::from_vector(&vector);
 
         Self::from_parts(&translation, &rotation)
@@ -1773,7 +1773,7 @@ where
     #[inline]
     pub fn look_at_rh_inv(eye: &Point3<S>, target: &Point3<S>, up: &Vector3<S>) -> Self {
         let rotation = Rotation3::look_at_rh_inv(eye, target, up);
-        let vector = rotation * (-eye) - Point3::origin();
+        let vector = eye - Point3::origin();
         let translation = Translation3::from_vector(&vector);
 
         Self::from_parts(&translation, &rotation)
-- 
2.43.0


From d8c8b2d674d18767514b36674083b2f32f57653b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:39 +0000
Subject: [PATCH 09/11] fix: Euler angles read from a rotation in gimbal lock
 describe that rotation in machine arithmetic

---
 crates/cglinalg_core/src/euler.rs         | 25 +++++++++++------------
 crates/cglinalg_transform/src/rotation.rs | 25 +++++++++++------------
 2 files changed, 24 insertions(+), 26 deletions(-)

diff --git a/crates/cglinalg_core/src/euler.rs b/crates/cglinalg_core/src/euler.rs
index e040d69..34eae7a 100644
--- a/crates/cglinalg_core/src/euler.rs
+++ b/crates/cglinalg_core/src/euler.rs
@@ -492,19 +492,18 @@ where
 
     #[inline]
     fn from_matrix(matrix: &Matrix3x3<S>) -> Euler<Radians<S>> {
-        let yaw = Radians::asin(matrix[2][0]);
-        let cos_yaw = Radians::cos(yaw);
-        let (pitch, roll) = if cos_yaw.abs().is_zero() {
-            let _pitch = Radians::zero();
-            let _roll = Radians::atan2(matrix[1][2], matrix[1][1]);
-
-            (_pitch, _roll)
-        } else {
-            let _pitch = Radians::atan2(-matrix[1][0], matrix[0][0]);
-            let _roll = Radians::atan2(-matrix[2][1], matrix[2][2]);
-
-            (_pitch, _roll)
-        };
+        // Rounding can push the sine of the yaw angle past one.
+        let sin_yaw = matrix[2][0].clamp(-S::one(), S::one());
+        let yaw = Radians::asin(sin_yaw);
+        // In gimbal lock the pitch angle is arbitrary. Reading the roll angle off the second
+        // column of `Rx(roll) * Ry(yaw) = matrix * Rz(-pitch)` gives the roll angle that goes
+        // with the chosen pitch angle, in gimbal lock and away from it.
+        let pitch = Radians::atan2(-matrix[1][0], matrix[0][0]);
+        let (sin_pitch, cos_pitch) = Radians::sin_cos(pitch);
+        let roll = Radians::atan2(
+            sin_pitch * matrix[0][2] + cos_pitch * matrix[1][2],
+            sin_pitch * matrix[0][1] + cos_pitch * matrix[1][1],
+        );
 
         Euler::new(roll, yaw, pitch)
     }
diff --git a/crates/cglinalg_transform/src/rotation.rs b/crates/cglinalg_transform/src/rotation.rs
index 487fbea..08be549 100644
--- a/crates/cglinalg_transform/src/rotation.rs
+++ b/crates/cglinalg_transform/src/rotation.rs
@@ -1835,19 +1835,18 @@ where
     /// ```
     #[inline]
     pub fn euler_angles(&self) -> Euler<Radians<S>> {
-        let yaw = Radians::asin(self.matrix[2][0]);
-        let cos_yaw = Radians::cos(yaw);
-        let (pitch, roll) = if cos_yaw.abs().is_zero() {
-            let _pitch = Radians::zero();
-            let _roll = Radians::atan2(self.matrix[1][2], self.matrix[1][1]);
-
-            (_pitch, _roll)
-        } else {
-            let _pitch = Radians::atan2(-self.matrix[1][0], self.matrix[0][0]);
-            let _roll = Radians::atan2(-self.matrix[2][1], self.matrix[2][2]);
-
-            (_pitch, _roll)
-        };
+        // Rounding can push the sine of the yaw angle past one.
+        let sin_yaw = self.matrix[2][0].clamp(-S::one(), S::one());
+        let yaw = Radians::asin(sin_yaw);
+        // In gimbal lock the pitch angle is arbitrary. Reading the roll angle off the second
+        // column of `Rx(roll) * Ry(yaw) = matrix * Rz(-pitch)` gives the roll angle that goes
+        // with the chosen pitch angle, in gimbal lock and away from it.
+        let pitch = Radians::atan2(-self.matrix[1][0], self.matrix[0][0]);
+        let (sin_pitch, cos_pitch) = Radians::sin_cos(pitch);
+        let roll = Radians::atan2(
+            sin_pitch * self.matrix[0][2] + cos_pitch * self.matrix[1][2],
+            sin_pitch * self.matrix[0][1] + cos_pitch * self.matrix[1][1],
+        );
 
         Euler::new(roll, yaw, pitch)
     }
-- 
2.43.0


From 30c8188c803e6cfc68523a33cbfc77cf361aa924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:51 +0000
Subject: [PATCH 10/11] fix: compare the translation in
 Isometry::abs_diff_all_eq

---
 crates/cglinalg_transform/src/isometry.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/cglinalg_transform/src/isometry.rs b/crates/cglinalg_transform/src/isometry.rs
index 49776e3..bab0ab1 100644
--- a/crates/cglinalg_transform/src/isometry.rs
+++ b/crates/cglinalg_transform/src/isometry.rs
@@ -1835,10 +1835,13 @@ where
 
     #[inline]
     fn abs_diff_all_eq(&self, other: &Self, max_abs_diff: &Self::AllTolerance) -> bool {
-        let lhs = self.rotation.matrix();
-        let rhs = other.rotation.matrix();
+        let lhs_rotation = self.rotation.matrix();
+        let rhs_rotation = other.rotation.matrix();
+        let lhs_translation = self.translation.vector();
+        let rhs_translation = other.translation.vector();
 
-        approx_cmp::AbsDiffAllEq::abs_diff_all_eq(lhs, rhs, max_abs_diff)
+        approx_cmp::AbsDiffAllEq::abs_diff_all_eq(lhs_rotation, rhs_rotation, max_abs_diff)
+            && approx_cmp::AbsDiffAllEq::abs_diff_all_eq(lhs_translation, rhs_translation, max_abs_diff)
     }
 }
 
-- 
2.43.0


From 6c21ef78dc902e4756e99e9c5df8a71c14502855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:04 +0000
Subject: [PATCH 11/11] fix: Quaternion::half divides by two, also over the
 integers

---
 crates/cglinalg_core/src/quaternion.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/cglinalg_core/src/quaternion.rs b/crates/cglinalg_core/src/quaternion.rs
index 93a4574..aa30331 100644
--- a/crates/cglinalg_core/src/quaternion.rs
+++ b/crates/cglinalg_core/src/quaternion.rs
@@ -814,9 +814,9 @@ where
     #[inline]
     pub fn half(&self) -> Self {
         let one = S::one();
-        let one_half = one / (one + one);
+        let two = one + one;
 
-        self * one_half
+        self / two
     }
 }
 
-- 
2.43.0

