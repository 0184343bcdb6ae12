From 721a60676e4e534ec40f30a4793cce53cf4663b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:48 +0000
Subject: [PATCH 1/6] fix: make cast_ray always terminate at the end cell

Floating point errors in t_max could make the ray step past the end cell along
one axis, after which it could never hit the end cell: it ran on until max_len
was exceeded (reporting no end cell), or forever if max_len is not positive.
---
 src/ray_caster.rs | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/src/ray_caster.rs b/src/ray_caster.rs
index 608e5ad..5482034 100644
--- a/src/ray_caster.rs
+++ b/src/ray_caster.rs
@@ -76,7 +76,7 @@ where
     let ray = end - origin;
     let ray_length = ray.norm();
     let direction = ray / ray_length;
-    let step = geom::vector::signum(&direction);
+    let step = (&end_cell - &origin_cell).map(|diff| diff.signum() as f32);
     let mut current_cell = origin_cell.clone();
     let mut t_max = Point::<NaD>::origin();
     let mut t_delta = Point::<NaD>::origin();
@@ -95,29 +95,18 @@ where
         t_delta[i] = resolution / direction[i].abs();
     }
     loop {
-        // This somewhat clunky logic is just a fast way of finding the index of the minimum value
-        // in t_max. I.E. which direction (x, y, or z) is the nearest cell border.
-        let dim = {
-            if origin_cell.len() == 3 {
-                if t_max[0] < t_max[1] {
-                    if t_max[0] < t_max[2] {
-                        0
-                    } else {
-                        2
-                    }
-                } else if t_max[1] < t_max[2] {
-                    1
-                } else {
-                    2
-                }
-            } else {
-                if t_max[0] < t_max[1] {
-                    0
-                } else {
-                    1
-                }
+        // Find the index of the minimum value in t_max. I.E. which direction (x, y, or z) is the
+        // nearest cell border. Directions that already reached the end cell are ignored, because
+        // floating point errors in t_max could otherwise make the ray step past the end cell and
+        // never hit it.
+        let mut dim = current_cell.len();
+        for i in 0..current_cell.len() {
+            if current_cell[i] != end_cell[i]
+                && (dim == current_cell.len() || !(t_max[dim] < t_max[i]))
+            {
+                dim = i;
             }
-        };
+        }
         current_cell[dim] += step[dim] as isize;
         t_max[dim] += t_delta[dim];
         if current_cell == end_cell {
-- 
2.43.0


From f378c3894c1fd8724574478c13abf902d92125bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:49 +0000
Subject: [PATCH 2/6] fix: expand_bounds must include the cell of every point
 in the bounds

A point in the upper half of the last cell of a tile lies in the next tile, which
was not allocated, so integrating it panicked with an index out of bounds.
---
 src/map/grid_map.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/map/grid_map.rs b/src/map/grid_map.rs
index 3b4af0c..e0aa434 100644
--- a/src/map/grid_map.rs
+++ b/src/map/grid_map.rs
@@ -209,12 +209,14 @@ where
     A: na::Scalar,
 {
     fn expand_bounds(&mut self, bounds: &Bounds<na::U2>, default_value: A) {
-        // Expand the bounds here when discretizing in case any point in the point_cloud lie exactly
-        // on a cell boundary. Otherwise it won't be resized to include the cell containing the
-        // boundary point.
-        let new_bounds = self
-            .bounds
-            .enclosing(&bounds.discretized(self.resolution, true));
+        // Always expand the max bounds by one cell after discretizing. Otherwise it won't be
+        // resized to include the cell containing a point in the upper half of the last cell,
+        // because cells are centered on multiples of the resolution.
+        let mut bounds = bounds.discretized(self.resolution, false);
+        for max_val in bounds.max.iter_mut() {
+            *max_val += self.resolution;
+        }
+        let new_bounds = self.bounds.enclosing(&bounds);
         let new_cell_bounds =
             CellBounds2::from_bounds(&new_bounds, self.resolution).discretized(self.tile_size);
         let new_bounds = Bounds2::from_cell_bounds(&new_cell_bounds, self.resolution);
@@ -256,12 +258,14 @@ where
     A: na::Scalar,
 {
     fn expand_bounds(&mut self, bounds: &Bounds<na::U3>, default_value: A) {
-        // Expand the bounds here when discretizing in case any point in the point_cloud lie exactly
-        // on a cell boundary. Otherwise it won't be resized to include the cell containing the
-        // boundary point.
-        let new_bounds = self
-            .bounds
-            .enclosing(&bounds.discretized(self.resolution, true));
+        // Always expand the max bounds by one cell after discretizing. Otherwise it won't be
+        // resized to include the cell containing a point in the upper half of the last cell,
+        // because cells are centered on multiples of the resolution.
+        let mut bounds = bounds.discretized(self.resolution, false);
+        for max_val in bounds.max.iter_mut() {
+            *max_val += self.resolution;
+        }
+        let new_bounds = self.bounds.enclosing(&bounds);
         let new_cell_bounds =
             CellBounds3::from_bounds(&new_bounds, self.resolution).discretized(self.tile_size);
         let new_bounds = Bounds3::from_cell_bounds(&new_cell_bounds, self.resolution);
-- 
2.43.0


From 6e5a4d232095547bc6704bb91bd9aec4293a54d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 3/6] fix: expand the grid map to include the sensor origin

Integrating a point cloud panicked with an index out of bounds when the origin of
the rays was outside of the bounds of the point cloud.
---
 src/map/lidar_noise_model.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/map/lidar_noise_model.rs b/src/map/lidar_noise_model.rs
index 26c7e40..f3daa93 100644
--- a/src/map/lidar_noise_model.rs
+++ b/src/map/lidar_noise_model.rs
@@ -119,7 +119,13 @@ where
         origin: &Point<NaD>,
         point_cloud: &PointCloud<NaD>,
     ) {
-        grid_map.expand_bounds(&point_cloud.bounds(), self.default_cell_value());
+        // The rays start at the origin, so it has to be within the grid map as well.
+        let mut bounds = point_cloud.bounds();
+        for i in 0..origin.len() {
+            bounds.min[i] = bounds.min[i].min(origin[i]);
+            bounds.max[i] = bounds.max[i].max(origin[i]);
+        }
+        grid_map.expand_bounds(&bounds, self.default_cell_value());
         let (free_cells, occupied_cells) = ray_caster::cast_rays(
             origin,
             point_cloud,
-- 
2.43.0


From b92ea2388b74d930a0313ad12789f22ae9a29224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:50 +0000
Subject: [PATCH 4/6] fix: scale the longitude by the circumference at the
 latitude of the gps origin

The circumference was scaled by the cosine of the latitude difference, which is
always about 1, so the distances along x were wrong away from the equator.
---
 src/kitti/oxt_reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kitti/oxt_reader.rs b/src/kitti/oxt_reader.rs
index eeaa2d4..c74ada8 100644
--- a/src/kitti/oxt_reader.rs
+++ b/src/kitti/oxt_reader.rs
@@ -32,7 +32,7 @@ fn gps_to_meters(
 ) -> na::Translation3<f32> {
     let dlat = gps_point.vector[0] - gps_origin.vector[0];
     let dlon = gps_point.vector[1] - gps_origin.vector[1];
-    let lat_circumference = EARTH_EQUATOR_CIRCUMFERENCE * dlat.to_radians().cos();
+    let lat_circumference = EARTH_EQUATOR_CIRCUMFERENCE * gps_origin.vector[0].to_radians().cos();
     na::Translation3::<f32>::new(
         (dlon * lat_circumference / 360.0) as f32,
         (dlat * EARTH_POLE_CIRCUMFERENCE / 360.0) as f32,
-- 
2.43.0


From 4bf030ac74b18e3fa7dca30da6e4fb0e2653dcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:02 +0000
Subject: [PATCH 5/6] fix: keep tracked changed cells valid when the grid map
 is expanded

The changed cells recorded so far kept their old indices when the min bounds of the
map moved, so changed_cells() reported cells that were never changed.
---
 src/map/grid_map.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/map/grid_map.rs b/src/map/grid_map.rs
index e0aa434..88437d4 100644
--- a/src/map/grid_map.rs
+++ b/src/map/grid_map.rs
@@ -243,6 +243,10 @@ where
             ]);
             let from_slice = self.data.slice(nd::s![0..cells_size.x, 0..cells_size.y,]);
             to_slice.assign(&from_slice);
+            // Cells are relative to the min bounds, so they move when the min bounds change.
+            for cell in self.changed_cells.iter_mut() {
+                *cell += &offset;
+            }
         }
         self.bounds = new_bounds;
         self.data = to_data;
@@ -295,6 +299,10 @@ where
                 self.data
                     .slice(nd::s![0..cells_size.x, 0..cells_size.y, 0..cells_size.z,]);
             to_slice.assign(&from_slice);
+            // Cells are relative to the min bounds, so they move when the min bounds change.
+            for cell in self.changed_cells.iter_mut() {
+                *cell += &offset;
+            }
         }
         self.bounds = new_bounds;
         self.data = to_data;
-- 
2.43.0


From 24c3b41c8239154940deb59d40a2b803869ec487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:17 +0000
Subject: [PATCH 6/6] fix: do not panic on file names that are not UTF-8 when
 printing progress

---
 src/kitti/oxt_reader.rs         | 2 +-
 src/kitti/point_cloud_reader.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kitti/oxt_reader.rs b/src/kitti/oxt_reader.rs
index c74ada8..256294a 100644
--- a/src/kitti/oxt_reader.rs
+++ b/src/kitti/oxt_reader.rs
@@ -97,7 +97,7 @@ pub fn read_from_dir(dir: &std::path::Path, print_status: bool) -> std::io::Resu
                     "Reading file ({} of {}) {}",
                     i + 1,
                     num_paths,
-                    path.file_name().unwrap().to_str().unwrap()
+                    path.file_name().unwrap().to_string_lossy()
                 );
             }
             match read_from_file(&path, gps_origin) {
diff --git a/src/kitti/point_cloud_reader.rs b/src/kitti/point_cloud_reader.rs
index dc45871..e48f30b 100644
--- a/src/kitti/point_cloud_reader.rs
+++ b/src/kitti/point_cloud_reader.rs
@@ -54,7 +54,7 @@ pub fn read_from_dir(
                     "Reading file ({} of {}) {}",
                     i + 1,
                     num_paths,
-                    path.file_name().unwrap().to_str().unwrap()
+                    path.file_name().unwrap().to_string_lossy()
                 );
             }
             read_from_file(&path)
-- 
2.43.0

