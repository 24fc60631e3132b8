From f6505375d412b46405df3a6dcc03f5650d2d93af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:35 +0000
Subject: [PATCH 1/8] fix: KD-tree re-inserted duplicates of inner nodes

The equality check only ran when the right branch was empty, so a point equal
to a node that already had a right child was stored and counted again.
---
 crates/mapping-algorithms/src/kd_tree/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/mapping-algorithms/src/kd_tree/mod.rs b/crates/mapping-algorithms/src/kd_tree/mod.rs
index ca81f07..bc07a93 100644
--- a/crates/mapping-algorithms/src/kd_tree/mod.rs
+++ b/crates/mapping-algorithms/src/kd_tree/mod.rs
@@ -63,10 +63,10 @@ where
                 Ordering::Greater => (&mut self.right, false)
             };
 
-        if let Some(branch_exists) = branch_to_use.as_mut() {
-            return branch_exists.insert(data, depth + 1);
-        } else if verify_equals && self.internal_data == data {
+        if verify_equals && self.internal_data == data {
             return false;
+        } else if let Some(branch_exists) = branch_to_use.as_mut() {
+            return branch_exists.insert(data, depth + 1);
         }
 
         *branch_to_use = Some(Box::new(KDNode::new(data)));
-- 
2.43.0


From fc6a0765e3df1b3a23108df3dc13ec01ddb522de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:35 +0000
Subject: [PATCH 2/8] fix: haversine distance returned NaN for many antipodal
 points

Rounding can push the haversine term slightly above one (or below zero next to
a pole), and the square roots then return NaN. Clamp the term to [0, 1].
---
 crates/mapping-algorithms/src/geo/haversine.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/mapping-algorithms/src/geo/haversine.rs b/crates/mapping-algorithms/src/geo/haversine.rs
index c9f0f37..356a08f 100644
--- a/crates/mapping-algorithms/src/geo/haversine.rs
+++ b/crates/mapping-algorithms/src/geo/haversine.rs
@@ -62,8 +62,13 @@ where
     let lat1_radians = point_a.x.to_radians();
     let lat2_radians = point_b.x.to_radians();
 
-    let basic_haversine = half_angle_sine_squared(delta_lat)
-        + half_angle_sine_squared(delta_lon) * lat1_radians.cos() * lat2_radians.cos();
+    // Rounding may push this slightly out of [0, 1], which would make the square roots below NaN
+    let basic_haversine = num_traits::clamp(
+        half_angle_sine_squared(delta_lat)
+            + half_angle_sine_squared(delta_lon) * lat1_radians.cos() * lat2_radians.cos(),
+        T::zero(),
+        T::one(),
+    );
 
     let inverse_haversine = (T::one() + T::one())
         * basic_haversine
-- 
2.43.0


From 9e23273c26e1625929145a8cad40f862f3b3eddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:35 +0000
Subject: [PATCH 3/8] fix: Graham scan used unsorted points after voxel
 downsampling

Downsampling returns the centroids in hash-map order, so with assume_sorted the
hull was built from an arbitrarily ordered sequence. Always sort its result.
---
 crates/mapping-algorithms/src/polygons/graham_scan.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/crates/mapping-algorithms/src/polygons/graham_scan.rs b/crates/mapping-algorithms/src/polygons/graham_scan.rs
index 757c1f9..20b80c2 100644
--- a/crates/mapping-algorithms/src/polygons/graham_scan.rs
+++ b/crates/mapping-algorithms/src/polygons/graham_scan.rs
@@ -96,15 +96,12 @@ where
     let points_sorted;
     let points_sorted_slice = match (assume_sorted, voxel_size) {
         (true, None) => points,
-        (true, Some(voxel_size)) => {
-            points_sorted = downsample_point_cloud_voxel(points, voxel_size);
-            points_sorted.as_slice()
-        }
         (false, None) => {
             points_sorted = lex_sort(points)?;
             points_sorted.as_slice()
         }
-        (false, Some(voxel_size)) => {
+        // Downsampling does not preserve order, so its result is always sorted
+        (_, Some(voxel_size)) => {
             let downsampled_points = downsample_point_cloud_voxel(points, voxel_size);
             points_sorted = lex_sort(downsampled_points.as_slice())?;
             points_sorted.as_slice()
-- 
2.43.0


From 973019725c20fd0b7d54d0b476b4a72dbf283fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:35 +0000
Subject: [PATCH 4/8] fix: ICP accepted a NaN interval threshold

A NaN threshold passed the <= epsilon check and could never be met.
---
 crates/mapping-algorithms/src/point_clouds/icp/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/mapping-algorithms/src/point_clouds/icp/mod.rs b/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
index 535548f..c7a6f11 100644
--- a/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
+++ b/crates/mapping-algorithms/src/point_clouds/icp/mod.rs
@@ -162,7 +162,9 @@ where
         return Err(ICPError::IterationNumIsZero);
     }
 
-    if config.mse_interval_threshold <= T::default_epsilon() {
+    if config.mse_interval_threshold.is_nan()
+        || config.mse_interval_threshold <= T::default_epsilon()
+    {
         return Err(ICPError::MSEIntervalThreshold);
     }
 
-- 
2.43.0


From dadd8be59d1e9e7a067f9b8eebcef95a82f68cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:02 +0000
Subject: [PATCH 5/8] fix: convex hulls of integer points overflowed

The orientation determinant was computed in the coordinate type, so any unsigned
input, and small signed types, overflowed. Compute it in the precision type.
---
 crates/mapping-algorithms/src/polygons/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/mapping-algorithms/src/polygons/mod.rs b/crates/mapping-algorithms/src/polygons/mod.rs
index e14b31f..80ea6a0 100644
--- a/crates/mapping-algorithms/src/polygons/mod.rs
+++ b/crates/mapping-algorithms/src/polygons/mod.rs
@@ -95,10 +95,12 @@ fn calculate_determinant<O: ComplexField + Copy, T: Scalar + NumOps + AsPrimitiv
     point_b: &Point2<T>,
     point_c: &Point2<T>,
 ) -> O {
-    T::as_(
-        ((point_b.y - point_a.y) * (point_c.x - point_b.x))
-            - ((point_b.x - point_a.x) * (point_c.y - point_b.y)),
-    )
+    // Convert before subtracting, integer coordinates may overflow (or be unsigned)
+    let [point_a, point_b, point_c] =
+        [point_a, point_b, point_c].map(|point| Point2::<O>::new(point.x.as_(), point.y.as_()));
+
+    ((point_b.y - point_a.y) * (point_c.x - point_b.x))
+        - ((point_b.x - point_a.x) * (point_c.y - point_b.y))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 4da46ec50476f5c2e5e8393e50d16c7480e3b713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 6/8] fix: Jarvis march looped forever on collinear points and
 skipped vertices

A point straight behind the current vertex is collinear with the next edge, so
it could be chosen as the endpoint: a line of points in descending order never
closed the hull, and an edge with a point on it could hide its far vertex.
Ignore the points behind, and stop when no point is left to go to.
---
 .../src/polygons/jarvis_march.rs              | 53 +++++++++++++------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/crates/mapping-algorithms/src/polygons/jarvis_march.rs b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
index 71a4b7a..481132d 100644
--- a/crates/mapping-algorithms/src/polygons/jarvis_march.rs
+++ b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
@@ -28,6 +28,15 @@ use crate::{point_clouds::downsample_point_cloud_voxel, Ordering, Vec};
 
 use super::calculate_determinant;
 
+fn compare_points<T: PartialOrd + Scalar>(a: &Point2<T>, b: &Point2<T>) -> Ordering {
+    a.coords
+        .iter()
+        .zip(b.coords.iter())
+        .fold(Ordering::Equal, |ord, (a, b)| {
+            ord.then_with(|| a.partial_cmp(b).unwrap())
+        })
+}
+
 /// Computes the convex hull of a set of points using the Jarvis March algorithm.
 /// This algorithm uses a pivot point to find the next point in the convex hull by selecting for each point, the point which makes the largest outwards turn that is less than 180 degrees.
 ///
@@ -65,28 +74,40 @@ where
     }
 
     // Get leftest, lowest point as a starting point
-    let mut current_vertex = points_downsampled_slice.iter().min_by(|a, b| {
-        a.coords
-            .iter()
-            .zip(b.coords.iter())
-            .fold(Ordering::Equal, |ord, (a, b)| {
-                ord.then_with(|| a.partial_cmp(b).unwrap())
-            })
-    })?;
+    let mut current_vertex = points_downsampled_slice
+        .iter()
+        .min_by(|a, b| compare_points(a, b))?;
 
-    let mut hull = Vec::with_capacity(points_downsampled_slice.len());
-    loop {
+    let mut hull = Vec::<Point2<T>>::with_capacity(points_downsampled_slice.len());
+    // The hull cannot be longer than the input, unless rounding prevents it from closing
+    while hull.len() < points_downsampled_slice.len() {
+        let previous_vertex = hull.last().copied();
         hull.push(*current_vertex);
-        let mut endpoint = &points_downsampled_slice[0];
+
+        // Points that lie straight behind us are never the next vertex
+        let is_behind = |point: &Point2<T>| {
+            previous_vertex.is_some_and(|previous| {
+                calculate_determinant(&previous, current_vertex, point) == O::zero()
+                    && compare_points(&previous, current_vertex)
+                        == compare_points(point, current_vertex)
+            })
+        };
+
+        let mut endpoint = None;
         for point in points_downsampled_slice {
-            if endpoint == current_vertex
-                || calculate_determinant(hull.last().unwrap(), endpoint, point) < O::zero()
-            {
-                endpoint = point;
+            if point == current_vertex || is_behind(point) {
+                continue;
+            }
+
+            if endpoint.map_or(true, |endpoint| {
+                calculate_determinant(current_vertex, endpoint, point) < O::zero()
+            }) {
+                endpoint = Some(point);
             }
         }
 
-        current_vertex = endpoint;
+        // If there is nowhere to go, then all of the points are on a single line
+        current_vertex = endpoint?;
 
         if current_vertex == &hull[0] {
             break;
-- 
2.43.0


From 4da061d862cb6c0512da0b7f6dfdc9db23688149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:59 +0000
Subject: [PATCH 7/8] fix: Jarvis march dropped or kept boundary points
 depending on their order

Of several points on the same hull edge the scan kept whichever was met first,
so the result changed with the input order, and from run to run when the cloud
was voxel-downsampled through a hash map. Always continue with the nearest one.
---
 crates/mapping-algorithms/src/polygons/jarvis_march.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/mapping-algorithms/src/polygons/jarvis_march.rs b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
index 481132d..3a70dac 100644
--- a/crates/mapping-algorithms/src/polygons/jarvis_march.rs
+++ b/crates/mapping-algorithms/src/polygons/jarvis_march.rs
@@ -99,8 +99,12 @@ where
                 continue;
             }
 
+            // Of several points on the same edge, the nearest one is next, whatever their order
             if endpoint.map_or(true, |endpoint| {
-                calculate_determinant(current_vertex, endpoint, point) < O::zero()
+                let determinant = calculate_determinant(current_vertex, endpoint, point);
+                determinant < O::zero()
+                    || determinant == O::zero()
+                        && compare_points(current_vertex, point) == compare_points(point, endpoint)
             }) {
                 endpoint = Some(point);
             }
-- 
2.43.0


From 9663bfd4c603ea7af70606d0afde926689f6eb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:31 +0000
Subject: [PATCH 8/8] fix: ICP alignment of degenerate clouds hung or kept a
 wrong rotation

The rotation matrix from the SVD was converted by an iterative extraction started from the identity, which
is stuck when the rotation is a half turn: collinear 3D clouds were left misaligned, and in f64 the call
did not return. The matrix is a rotation already, so convert it directly.
---
 crates/mapping-algorithms/src/types/isometry.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/mapping-algorithms/src/types/isometry.rs b/crates/mapping-algorithms/src/types/isometry.rs
index bb72dc2..900e5b1 100644
--- a/crates/mapping-algorithms/src/types/isometry.rs
+++ b/crates/mapping-algorithms/src/types/isometry.rs
@@ -22,7 +22,7 @@
  */
 
 use nalgebra::{
-    AbstractRotation, Isometry, Point, RealField, SMatrix, UnitComplex, UnitQuaternion,
+    AbstractRotation, Isometry, Point, RealField, Rotation, SMatrix, UnitComplex, UnitQuaternion,
 };
 
 use crate::{marker::PhantomData, utils::verify_rotation_matrix_determinant};
@@ -70,8 +70,10 @@ where
         let rotation = verify_rotation_matrix_determinant(svd.u.unwrap(), svd.v_t.unwrap());
         let translation = mean_b.coords - (rotation * mean_a.coords);
 
-        Isometry::from_parts(translation.into(), Self::RotType::from_matrix(&rotation))
-            * old_transform
+        Isometry::from_parts(
+            translation.into(),
+            Self::RotType::from_rotation_matrix(&Rotation::from_matrix_unchecked(rotation)),
+        ) * old_transform
     }
 }
 
@@ -95,7 +97,9 @@ where
         let rotation = verify_rotation_matrix_determinant(svd.u.unwrap(), svd.v_t.unwrap());
         let translation = mean_b.coords - (rotation * mean_a.coords);
 
-        Isometry::from_parts(translation.into(), Self::RotType::from_matrix(&rotation))
-            * old_transform
+        Isometry::from_parts(
+            translation.into(),
+            Self::RotType::from_rotation_matrix(&Rotation::from_matrix_unchecked(rotation)),
+        ) * old_transform
     }
 }
-- 
2.43.0

