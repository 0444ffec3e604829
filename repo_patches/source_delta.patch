From 1ccce8cce68c72289a47376e7cf0f2efdcf72919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:23 +0000
Subject: [PATCH 01/17] fix: report every hazard covering a quadtree node when
 collecting collisions

---
 jagua-rs/src/collision_detection/quadtree/qt_node.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jagua-rs/src/collision_detection/quadtree/qt_node.rs b/jagua-rs/src/collision_detection/quadtree/qt_node.rs
index 5a15332..1475413 100644
--- a/jagua-rs/src/collision_detection/quadtree/qt_node.rs
+++ b/jagua-rs/src/collision_detection/quadtree/qt_node.rs
@@ -186,7 +186,11 @@ impl QTNode {
                 false => (),
                 true => match strongest_hazard.presence {
                     QTHazPresence::None => (),
-                    QTHazPresence::Entire => detected.push(strongest_hazard.entity),
+                    QTHazPresence::Entire => {
+                        detected.push(strongest_hazard.entity);
+                        //Other hazards present in this node can collide as well
+                        self.collect_collisions(entity, detected)
+                    }
                     QTHazPresence::Partial(_) => match &self.children {
                         Some(children) => {
                             //Check if any of the children intersect with the entity
-- 
2.43.0


From acb7bcc32dffde8716c6d238d2168c42421ca1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:10 +0000
Subject: [PATCH 02/17] fix: restore the bin of a layout when it was changed
 since the snapshot

---
 jagua-rs/src/entities/layout.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/jagua-rs/src/entities/layout.rs b/jagua-rs/src/entities/layout.rs
index 22dbfd3..c9f883e 100644
--- a/jagua-rs/src/entities/layout.rs
+++ b/jagua-rs/src/entities/layout.rs
@@ -8,6 +8,7 @@ use crate::geometry::d_transformation::DTransformation;
 use crate::geometry::geo_traits::Shape;
 use crate::util::assertions;
 use slotmap::SlotMap;
+use std::sync::Arc;
 
 ///A Layout is made out of a [Bin] with a set of [Item]s positioned inside of it in a specific way.
 ///It is a mutable representation, and can be modified by placing or removing items.
@@ -67,6 +68,12 @@ impl Layout {
     pub fn restore(&mut self, layout_snapshot: &LayoutSnapshot) {
         assert_eq!(self.id, layout_snapshot.id);
 
+        if !Arc::ptr_eq(&self.bin.base_cde, &layout_snapshot.bin.base_cde) {
+            // the bin was changed since the snapshot was made, revert to the bin (and its CDE) of the snapshot
+            self.bin = layout_snapshot.bin.clone();
+            self.cde = self.bin.base_cde.as_ref().clone();
+        }
+
         self.placed_items = layout_snapshot.placed_items.clone();
         self.cde.restore(&layout_snapshot.cde_snapshot);
 
-- 
2.43.0


From eff8363bd36729b90a93e8076d576b9a36f94df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:10 +0000
Subject: [PATCH 03/17] fix: do not underflow when restoring a solution with
 more items placed than demanded

---
 jagua-rs/src/entities/problems/bin_packing.rs   | 2 +-
 jagua-rs/src/entities/problems/strip_packing.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/jagua-rs/src/entities/problems/bin_packing.rs b/jagua-rs/src/entities/problems/bin_packing.rs
index 2b26a5c..50abb5d 100644
--- a/jagua-rs/src/entities/problems/bin_packing.rs
+++ b/jagua-rs/src/entities/problems/bin_packing.rs
@@ -287,7 +287,7 @@ impl ProblemGeneric for BPProblem {
             .iter_mut()
             .enumerate()
             .for_each(|(i, missing_qty)| {
-                *missing_qty = (self.instance.item_qty(i) - solution.placed_item_qtys[i]) as isize
+                *missing_qty = self.instance.item_qty(i) as isize - solution.placed_item_qtys[i] as isize
             });
 
         self.bin_qtys.clone_from_slice(&solution.bin_qtys);
diff --git a/jagua-rs/src/entities/problems/strip_packing.rs b/jagua-rs/src/entities/problems/strip_packing.rs
index f941a91..44dd0ef 100644
--- a/jagua-rs/src/entities/problems/strip_packing.rs
+++ b/jagua-rs/src/entities/problems/strip_packing.rs
@@ -247,7 +247,7 @@ impl ProblemGeneric for SPProblem {
             .iter_mut()
             .enumerate()
             .for_each(|(i, qty)| {
-                *qty = (self.instance.item_qty(i) - solution.placed_item_qtys[i]) as isize
+                *qty = self.instance.item_qty(i) as isize - solution.placed_item_qtys[i] as isize
             });
 
         debug_assert!(assertions::problem_matches_solution(self, solution));
-- 
2.43.0


From 4aaf8c9c87f3c11465a42a6b69a6833bf0158442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:10 +0000
Subject: [PATCH 04/17] fix: report a usage of zero instead of NaN when no
 layouts are open

---
 jagua-rs/src/entities/problems/problem_generic.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jagua-rs/src/entities/problems/problem_generic.rs b/jagua-rs/src/entities/problems/problem_generic.rs
index 68f7d92..0b78dc3 100644
--- a/jagua-rs/src/entities/problems/problem_generic.rs
+++ b/jagua-rs/src/entities/problems/problem_generic.rs
@@ -57,7 +57,10 @@ pub trait ProblemGeneric: ProblemGenericPrivate {
                 let used_area = bin_area * l.usage();
                 (acc.0 + bin_area, acc.1 + used_area)
             });
-        total_used_area / total_bin_area
+        match total_bin_area > 0.0 {
+            true => total_used_area / total_bin_area,
+            false => 0.0, //no bins are used
+        }
     }
 
     fn used_bin_cost(&self) -> u64 {
-- 
2.43.0


From a5275d1355e06b826f923f7fa48994a164983a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:04 +0000
Subject: [PATCH 05/17] fix: square the distance from the border for points
 inside a rectangle

---
 jagua-rs/src/geometry/primitives/aa_rectangle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jagua-rs/src/geometry/primitives/aa_rectangle.rs b/jagua-rs/src/geometry/primitives/aa_rectangle.rs
index f0da1ee..105e423 100644
--- a/jagua-rs/src/geometry/primitives/aa_rectangle.rs
+++ b/jagua-rs/src/geometry/primitives/aa_rectangle.rs
@@ -323,7 +323,7 @@ impl DistanceFrom<Point> for AARectangle {
                 .into_iter()
                 .min_by_key(|&d| OrderedFloat(d))
                 .unwrap();
-                (GeoPosition::Interior, min_distance)
+                (GeoPosition::Interior, min_distance.powi(2))
             }
         }
     }
-- 
2.43.0


From dc1699ccf4311db0375d1c27faabdd7a5b01f494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:48 +0000
Subject: [PATCH 06/17] fix: contain every circle in a bounding circle, also
 when one contains the others

---
 jagua-rs/src/geometry/primitives/circle.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/jagua-rs/src/geometry/primitives/circle.rs b/jagua-rs/src/geometry/primitives/circle.rs
index 3c79578..921ce87 100644
--- a/jagua-rs/src/geometry/primitives/circle.rs
+++ b/jagua-rs/src/geometry/primitives/circle.rs
@@ -40,7 +40,10 @@ impl Circle {
 
         for circle in circles {
             let distance_between_centers = bounding_circle.center.distance(circle.center);
-            if bounding_circle.radius < distance_between_centers + circle.radius {
+            if circle.radius >= distance_between_centers + bounding_circle.radius {
+                // circle fully contains the bounding circle
+                bounding_circle = circle.clone();
+            } else if bounding_circle.radius < distance_between_centers + circle.radius {
                 // circle not contained in bounding circle, expand
                 let diameter = Edge::new(bounding_circle.center, circle.center)
                     .extend_at_front(bounding_circle.radius)
-- 
2.43.0


From 6989f495a06cd76039c6a9a7d458833885588bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:24 +0000
Subject: [PATCH 07/17] fix: detect edges that cross a rectangle through its
 corners

---
 jagua-rs/src/geometry/primitives/aa_rectangle.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/jagua-rs/src/geometry/primitives/aa_rectangle.rs b/jagua-rs/src/geometry/primitives/aa_rectangle.rs
index 105e423..d6b7770 100644
--- a/jagua-rs/src/geometry/primitives/aa_rectangle.rs
+++ b/jagua-rs/src/geometry/primitives/aa_rectangle.rs
@@ -272,14 +272,8 @@ impl CollidesWith<Edge> for AARectangle {
             .windows(2)
             .all(|w| w[0] == w[1]);
 
-        if all_corners_same_side {
-            return false;
-        }
-
-        //The only possible that remains is that the edge collides with one of the edges of the AARectangle
-        self.edges()
-            .iter()
-            .any(|rect_edge| edge.collides_with(rect_edge))
+        //The bounding boxes overlap and the edge separates the corners: no separating axis exists, so they must collide
+        !all_corners_same_side
     }
 }
 
-- 
2.43.0


From c1ac43a7d44216229fe110f56eb6cb3017314ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:38 +0000
Subject: [PATCH 08/17] fix: keep all corners of the convex hull when points
 share an x coordinate

---
 jagua-rs/src/geometry/convex_hull.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/jagua-rs/src/geometry/convex_hull.rs b/jagua-rs/src/geometry/convex_hull.rs
index 86f8bab..c5fdc4d 100644
--- a/jagua-rs/src/geometry/convex_hull.rs
+++ b/jagua-rs/src/geometry/convex_hull.rs
@@ -31,11 +31,8 @@ pub fn convex_hull_from_shapes<'a>(
 pub fn convex_hull_from_points(mut points: Vec<Point>) -> Vec<Point> {
     //https://en.wikibooks.org/wiki/Algorithm_Implementation/Geometry/Convex_hull/Monotone_chain
 
-    //sort the points by x coordinate
-    points.sort_by(|a, b| {
-        let (a_x, b_x) = (a.0, b.0);
-        a_x.partial_cmp(&b_x).unwrap()
-    });
+    //sort the points by x coordinate, points with an equal x coordinate are sorted by y coordinate
+    points.sort_by(|a, b| (a.0, a.1).partial_cmp(&(b.0, b.1)).unwrap());
 
     let mut lower_hull = points
         .iter()
-- 
2.43.0


From 140ad6469c9c1e77a04bf7a217ed1580b6f40446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:04 +0000
Subject: [PATCH 09/17] fix: cover the whole shape with candidate piers,
 wherever it lies

---
 jagua-rs/src/geometry/fail_fast/piers.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/jagua-rs/src/geometry/fail_fast/piers.rs b/jagua-rs/src/geometry/fail_fast/piers.rs
index d2669ad..bbb27f1 100644
--- a/jagua-rs/src/geometry/fail_fast/piers.rs
+++ b/jagua-rs/src/geometry/fail_fast/piers.rs
@@ -26,11 +26,10 @@ pub fn generate(shape: &SimplePolygon, n: usize, poles: &[Circle]) -> Vec<Edge>
     //Start by creating a set of N_TESTS_PER_ANGLE vertical lines across the bounding box
     let bbox = shape.bbox();
     let expanded_bbox = bbox.clone().inflate_to_square();
-    let centroid = shape.centroid();
-    //vertical ray from the centroid
+    //vertical ray through the origin
     let base_ray = Edge::new(
-        Point(centroid.0, centroid.1 - 2.0 * expanded_bbox.height()),
-        Point(centroid.0, centroid.1 + 2.0 * expanded_bbox.height()),
+        Point(0.0, -2.0 * expanded_bbox.height()),
+        Point(0.0, 2.0 * expanded_bbox.height()),
     );
 
     let transformations = generate_ray_transformations(&expanded_bbox, RAYS_PER_ANGLE, N_ANGLES);
@@ -93,24 +92,25 @@ fn generate_ray_transformations(
     rays_per_angle: usize,
     n_angles: usize,
 ) -> Vec<Transformation> {
-    //translations
+    //translations, spread evenly over the width of the bbox around the origin
     let dx = bbox.width() / rays_per_angle as fsize;
     let translations = (0..rays_per_angle)
-        .map(|i| bbox.x_min + dx * i as fsize)
+        .map(|i| dx * i as fsize - bbox.width() / 2.0)
         .map(|x| Transformation::from_translation((x, 0.0)))
         .collect_vec();
 
     let angles = Array::linspace(0.0, fsize::PI(), n_angles + 1).to_vec();
     let angles_slice = &angles[0..n_angles]; //skip the last angle, which is the same as the first
 
-    //rotate the translations by each angle
+    //rotate the translations by each angle and move them to the center of the bbox
+    let Point(cx, cy) = bbox.centroid();
     angles_slice
         .iter()
         .flat_map(|angle| {
             translations
                 .iter()
                 .cloned()
-                .map(move |translation| translation.rotate(*angle))
+                .map(move |translation| translation.rotate(*angle).translate((cx, cy)))
         })
         .collect_vec()
 }
-- 
2.43.0


From b6286901f9940a4b70fcb5545b09f9361718bcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:05 +0000
Subject: [PATCH 10/17] fix: do not accept a simplification that leaves a shape
 without area

---
 jagua-rs/src/util/polygon_simplification.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/jagua-rs/src/util/polygon_simplification.rs b/jagua-rs/src/util/polygon_simplification.rs
index 9ce308a..ed3e6e2 100644
--- a/jagua-rs/src/util/polygon_simplification.rs
+++ b/jagua-rs/src/util/polygon_simplification.rs
@@ -155,7 +155,8 @@ pub fn simplify_shape(
             let new_shape = execute_candidate(&ref_points, best_candidate);
             let new_shape_area = SimplePolygon::calculate_area(&new_shape);
             let area_delta = (new_shape_area - original_area).abs() / original_area;
-            if area_delta <= max_area_delta {
+            //a replacing vertex that is (numerically) at infinity leaves a shape without area
+            if new_shape_area > 0.0 && area_delta <= max_area_delta {
                 debug!(
                     "Simplified {:?} causing {:.2}% area change",
                     best_candidate,
-- 
2.43.0


From 8c8a91f0537cd7fab7ece86bba786fa32ce07e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:10 +0000
Subject: [PATCH 11/17] fix: do not overflow when several bins have unlimited
 stock

---
 jagua-rs/src/io/parser.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/jagua-rs/src/io/parser.rs b/jagua-rs/src/io/parser.rs
index 71b15c1..2c7c056 100644
--- a/jagua-rs/src/io/parser.rs
+++ b/jagua-rs/src/io/parser.rs
@@ -98,7 +98,9 @@ impl Parser {
                     json_instance.name,
                     bpi.total_item_qty(),
                     bpi.items.len(),
-                    bpi.bins.iter().map(|(_, qty)| *qty).sum::<usize>(),
+                    bpi.bins
+                        .iter()
+                        .fold(0, |sum: usize, (_, qty)| sum.saturating_add(*qty)),
                     bpi.bins.len()
                 );
             }
-- 
2.43.0


From 332e7065c754b1611f9e3bb56551de1c99f03521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:09 +0000
Subject: [PATCH 12/17] fix: use the cost of a bin given in the instance
 instead of its area

---
 jagua-rs/src/io/parser.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/jagua-rs/src/io/parser.rs b/jagua-rs/src/io/parser.rs
index 2c7c056..c5cb84e 100644
--- a/jagua-rs/src/io/parser.rs
+++ b/jagua-rs/src/io/parser.rs
@@ -14,7 +14,6 @@ use crate::entities::problems::strip_packing::SPProblem;
 use crate::entities::quality_zone::InferiorQualityZone;
 use crate::entities::quality_zone::N_QUALITIES;
 use crate::entities::solution::Solution;
-use crate::fsize;
 use crate::geometry::d_transformation::DTransformation;
 use crate::geometry::geo_enums::AllowedRotation;
 use crate::geometry::geo_traits::{Shape, Transformable};
@@ -203,9 +202,6 @@ impl Parser {
             }
         };
 
-        let material_value =
-            (bin_outer.area() - bin_holes.iter().map(|hole| hole.area()).sum::<fsize>()) as u64;
-
         assert!(
             json_bin.zones.iter().all(|zone| zone.quality < N_QUALITIES),
             "Quality must be less than N_QUALITIES"
@@ -241,7 +237,7 @@ impl Parser {
         let base_bin = Bin::new(
             bin_id,
             bin_outer,
-            material_value,
+            json_bin.cost,
             Transformation::empty(),
             bin_holes,
             quality_zones,
-- 
2.43.0


From b922d24457bf818f553dd49713b27ab872143afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:52 +0000
Subject: [PATCH 13/17] fix: shift the mean of the local search also for
 discrete rotations

---
 lbf/src/samplers/rotation_distr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lbf/src/samplers/rotation_distr.rs b/lbf/src/samplers/rotation_distr.rs
index 3b7c1ba..9b580bd 100644
--- a/lbf/src/samplers/rotation_distr.rs
+++ b/lbf/src/samplers/rotation_distr.rs
@@ -62,7 +62,8 @@ impl NormalRotDistr {
             NormalRotDistr::Range(n) => {
                 *n = Normal::new(mean, n.std_dev()).unwrap();
             }
-            NormalRotDistr::Discrete(_) | NormalRotDistr::None => {}
+            NormalRotDistr::Discrete(r) => *r = mean,
+            NormalRotDistr::None => {}
         }
     }
 
-- 
2.43.0


From b8d9009488dec1493cadb838f2893c04840ca66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:19 +0000
Subject: [PATCH 14/17] fix: keep simplifications within the area tolerance
 when the replacing vertex is far away

---
 jagua-rs/src/util/polygon_simplification.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jagua-rs/src/util/polygon_simplification.rs b/jagua-rs/src/util/polygon_simplification.rs
index ed3e6e2..1d00a59 100644
--- a/jagua-rs/src/util/polygon_simplification.rs
+++ b/jagua-rs/src/util/polygon_simplification.rs
@@ -155,8 +155,14 @@ pub fn simplify_shape(
             let new_shape = execute_candidate(&ref_points, best_candidate);
             let new_shape_area = SimplePolygon::calculate_area(&new_shape);
             let area_delta = (new_shape_area - original_area).abs() / original_area;
+            //far away replacing vertices make the area of the whole shape unreliable, so the change itself has to be within the constraints too
+            let candidate_delta = calculate_area_delta(&ref_points, best_candidate)
+                .map_or(fsize::INFINITY, |d| d.into_inner() / original_area);
             //a replacing vertex that is (numerically) at infinity leaves a shape without area
-            if new_shape_area > 0.0 && area_delta <= max_area_delta {
+            if new_shape_area > 0.0
+                && area_delta <= max_area_delta
+                && candidate_delta <= max_area_delta
+            {
                 debug!(
                     "Simplified {:?} causing {:.2}% area change",
                     best_candidate,
-- 
2.43.0


From df1e42e5c2c14a64ce93c3dcd59dc3f786c779a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:50 +0000
Subject: [PATCH 15/17] fix: report a solution file that could not be written
 completely

---
 lbf/src/io/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lbf/src/io/mod.rs b/lbf/src/io/mod.rs
index 091cb51..4d15854 100644
--- a/lbf/src/io/mod.rs
+++ b/lbf/src/io/mod.rs
@@ -1,6 +1,6 @@
 use std::fs;
 use std::fs::File;
-use std::io::{BufReader, BufWriter};
+use std::io::{BufReader, BufWriter, Write};
 use std::path::Path;
 
 use log::{info, log, Level, LevelFilter};
@@ -29,9 +29,13 @@ pub fn write_json_output(json_output: &JsonOutput, path: &Path) {
     let file = File::create(path)
         .unwrap_or_else(|_| panic!("could not open solution file: {}", path.display()));
 
-    let writer = BufWriter::new(file);
+    let mut writer = BufWriter::new(file);
 
-    serde_json::to_writer_pretty(writer, &json_output)
+    serde_json::to_writer_pretty(&mut writer, &json_output)
+        .unwrap_or_else(|_| panic!("could not write solution file: {}", path.display()));
+    //errors during the implicit flush on drop would go unnoticed
+    writer
+        .flush()
         .unwrap_or_else(|_| panic!("could not write solution file: {}", path.display()));
 
     info!(
-- 
2.43.0


From 5dcecce04fa7c9513bba866b9a549f8ad562b132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:33 +0000
Subject: [PATCH 16/17] fix: locate points in polygons exactly, also far from
 the origin

---
 jagua-rs/src/geometry/primitives/simple_polygon.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/jagua-rs/src/geometry/primitives/simple_polygon.rs b/jagua-rs/src/geometry/primitives/simple_polygon.rs
index 5c72da3..3714d51 100644
--- a/jagua-rs/src/geometry/primitives/simple_polygon.rs
+++ b/jagua-rs/src/geometry/primitives/simple_polygon.rs
@@ -18,7 +18,6 @@ use crate::geometry::primitives::edge::Edge;
 use crate::geometry::primitives::point::Point;
 use crate::geometry::transformation::Transformation;
 use crate::util::config::SPSurrogateConfig;
-use crate::util::fpa::FPA;
 
 /// Geometric primitive representing a simple polygon: <https://en.wikipedia.org/wiki/Simple_polygon>
 #[derive(Clone, Debug)]
@@ -287,15 +286,16 @@ impl CollidesWith<Point> for SimplePolygon {
 
                 let mut n_intersections = 0;
                 for edge in self.edge_iter() {
-                    //Check if the ray does not go through (or almost through) a vertex
+                    //Check if the ray does not go through a vertex
                     //This can result in funky behaviour, which could incorrect results
                     //Therefore we handle this case
-                    let (s_x, s_y) = (FPA(edge.start.0), FPA(edge.start.1));
-                    let (e_x, e_y) = (FPA(edge.end.0), FPA(edge.end.1));
-                    let (p_x, p_y) = (FPA(point.0), FPA(point.1));
+                    //(the comparisons are exact: with a tolerance, points next to the border would be misjudged)
+                    let Point(s_x, s_y) = edge.start;
+                    let Point(e_x, e_y) = edge.end;
+                    let Point(p_x, p_y) = *point;
 
                     if (s_y == p_y && s_x > p_x) || (e_y == p_y && e_x > p_x) {
-                        //in this case, the ray passes through (or dangerously close to) a vertex
+                        //in this case, the ray passes through a vertex
                         //We handle this case by only counting an intersection if the edge is below the ray
                         if s_y < p_y || e_y < p_y {
                             n_intersections += 1;
-- 
2.43.0


From aaf6339ca8e3475cc43691dcfc4357219167e381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:40 +0000
Subject: [PATCH 17/17] fix: compute centroids precisely, also far from the
 origin

---
 jagua-rs/src/geometry/primitives/simple_polygon.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jagua-rs/src/geometry/primitives/simple_polygon.rs b/jagua-rs/src/geometry/primitives/simple_polygon.rs
index 3714d51..363f402 100644
--- a/jagua-rs/src/geometry/primitives/simple_polygon.rs
+++ b/jagua-rs/src/geometry/primitives/simple_polygon.rs
@@ -179,6 +179,8 @@ impl Shape for SimplePolygon {
         //based on: https://en.wikipedia.org/wiki/Centroid#Of_a_polygon
 
         let area = self.area();
+        //relative to one of the points: products of coordinates far from the origin are too large to be exact
+        let Point(x_ref, y_ref) = self.get_point(0);
         let mut c_x = 0.0;
         let mut c_y = 0.0;
 
@@ -188,8 +190,8 @@ impl Shape for SimplePolygon {
             } else {
                 i + 1
             };
-            let Point(x_i, y_i) = self.get_point(i);
-            let Point(x_j, y_j) = self.get_point(j);
+            let (x_i, y_i) = (self.get_point(i).0 - x_ref, self.get_point(i).1 - y_ref);
+            let (x_j, y_j) = (self.get_point(j).0 - x_ref, self.get_point(j).1 - y_ref);
             c_x += (x_i + x_j) * (x_i * y_j - x_j * y_i);
             c_y += (y_i + y_j) * (x_i * y_j - x_j * y_i);
         }
@@ -197,7 +199,7 @@ impl Shape for SimplePolygon {
         c_x /= 6.0 * area;
         c_y /= 6.0 * area;
 
-        (c_x, c_y).into()
+        (c_x + x_ref, c_y + y_ref).into()
     }
 
     fn area(&self) -> fsize {
-- 
2.43.0

