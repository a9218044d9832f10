From c2b1614efbe64d4198ae55d2c1c9f3c80f19b5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:08 +0000
Subject: [PATCH 01/39] fix: evaluate the first span, not the second, below the
 first knot

---
 src/knot.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/knot.rs b/src/knot.rs
index 79d792a..62814a5 100644
--- a/src/knot.rs
+++ b/src/knot.rs
@@ -57,7 +57,7 @@ impl KnotVector {
                 index
             }
         } else {
-            self.multiplicity(0)
+            self.multiplicity(0) - 1
         }
     }
 
-- 
2.43.0


From 44eaebb5adb2c297089c5255b2a97b22eb5584c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:08 +0000
Subject: [PATCH 02/39] fix: polyline evaluation just below t = 1 could panic
 by rounding

---
 src/curve/polyline.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/curve/polyline.rs b/src/curve/polyline.rs
index a244777..0a56293 100644
--- a/src/curve/polyline.rs
+++ b/src/curve/polyline.rs
@@ -53,7 +53,8 @@ impl Curve for Polyline {
                         .lerp(self.vertices[index + 1], length / segment_length);
                 }
             }
-            unreachable!()
+            // rounding left a remainder after the last segment
+            self.end()
         }
     }
 
-- 
2.43.0


From 03a3287678529da872181f4dd82608d24c0932b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:08 +0000
Subject: [PATCH 03/39] fix: polyline projection must not leave the nearest
 segment

---
 src/curve/polyline.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/curve/polyline.rs b/src/curve/polyline.rs
index 0a56293..c6cc84d 100644
--- a/src/curve/polyline.rs
+++ b/src/curve/polyline.rs
@@ -70,9 +70,14 @@ impl Curve for Polyline {
             }
         }
 
-        let length = self.segment_lengths.iter().take(min_index).sum::<Float>()
-            + (point - self.vertices[min_index])
-                .dot((self.vertices[min_index + 1] - self.vertices[min_index]).normalize());
+        let mut length = self.segment_lengths.iter().take(min_index).sum::<Float>();
+        let segment_length = self.segment_lengths[min_index];
+        if segment_length > 0.0 {
+            // the nearest point may be an end of the segment
+            length += (point - self.vertices[min_index])
+                .dot((self.vertices[min_index + 1] - self.vertices[min_index]).normalize())
+                .clamp(0.0, segment_length);
+        }
         (length / self.length).clamp(0.0, 1.0)
     }
 }
-- 
2.43.0


From 097d6a7da4844547fb316d7eb93e08b93eceb24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:08 +0000
Subject: [PATCH 04/39] fix: project onto a line whose direction is not a unit
 vector

---
 src/curve/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/line.rs b/src/curve/line.rs
index 355bc73..36734d5 100644
--- a/src/curve/line.rs
+++ b/src/curve/line.rs
@@ -13,6 +13,6 @@ impl Curve for Line {
     }
 
     fn project(&self, point: Point3) -> Float {
-        (point - self.origin).dot(self.direction)
+        (point - self.origin).dot(self.direction) / self.direction.length_squared()
     }
 }
-- 
2.43.0


From 787aafe4f5dc8b21710236410d19a06af45cc911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:08 +0000
Subject: [PATCH 05/39] fix: inserting a knot among the first ones underflowed
 an index

---
 src/curve/bspline.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/curve/bspline.rs b/src/curve/bspline.rs
index 5dced54..49c4ae2 100644
--- a/src/curve/bspline.rs
+++ b/src/curve/bspline.rs
@@ -55,8 +55,13 @@ impl BSplineCurve<Point3> {
             for i in (start..end).rev() {
                 let delta = self.knots[i + p + 1] - self.knots[i];
                 let a = (knot - self.knots[i]) * utils::inv_or_zero(delta);
-                self.control_points[i] =
-                    self.control_points[i - 1] * (1.0 - a) + self.control_points[i] * a;
+                // there is no control point before the first one
+                let previous = if i > 0 {
+                    self.control_points[i - 1]
+                } else {
+                    Point3::ZERO
+                };
+                self.control_points[i] = previous * (1.0 - a) + self.control_points[i] * a;
             }
         }
     }
-- 
2.43.0


From 803f00795d69e791c0560ff13f38831186d8cc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:08 +0000
Subject: [PATCH 06/39] fix: a boxed surface lost its normals

---
 src/surface.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/surface.rs b/src/surface.rs
index e9c65b7..1f50a33 100644
--- a/src/surface.rs
+++ b/src/surface.rs
@@ -24,6 +24,10 @@ impl Surface for Box<dyn Surface> {
         self.as_ref().get_point(u, v)
     }
 
+    fn get_normals(&self, params: &[Point2]) -> Vec<Vec3> {
+        self.as_ref().get_normals(params)
+    }
+
     fn trim(&self, bounds: &[EdgeLoop]) -> TriangleMesh {
         self.as_ref().trim(bounds)
     }
-- 
2.43.0


From 3d7bf3ef8274c3b6e1a54c60d8682cafc90d808d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:08 +0000
Subject: [PATCH 07/39] fix: trimming a B-spline surface wrote bound.obj into
 the working directory

---
 src/surface/bspline.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/surface/bspline.rs b/src/surface/bspline.rs
index 5717765..71d43d0 100644
--- a/src/surface/bspline.rs
+++ b/src/surface/bspline.rs
@@ -222,7 +222,6 @@ impl Surface for BSplineSurface<Point3> {
             })
             .flatten()
             .collect::<Vec<_>>();
-        save_bound_as_obj(&vertices, "bound.obj").unwrap();
         let mut points: Vec<Point2> = self.project_points(&vertices);
         let boundary_point_count = points.len();
 
-- 
2.43.0


From b1b9ab250a5e36206ce80794b822204c19a80a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:08 +0000
Subject: [PATCH 08/39] fix: the polygon of an empty edge loop is empty

---
 src/surface.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/surface.rs b/src/surface.rs
index 1f50a33..8128a8b 100644
--- a/src/surface.rs
+++ b/src/surface.rs
@@ -83,6 +83,9 @@ impl EdgeLoop {
             vertices.extend(edge.get_points());
         }
         vertices.dedup_by(|a, b| a.distance_squared(*b).near(0.0));
+        if vertices.is_empty() {
+            return vertices;
+        }
         if vertices[0]
             .distance_squared(vertices[vertices.len() - 1])
             .near(0.0)
-- 
2.43.0


From 0771f8a0807f3159896f8c433bbcf6efda49e0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:08 +0000
Subject: [PATCH 09/39] fix: an arc whose ends coincide is the full circle

---
 src/curve/circle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve/circle.rs b/src/curve/circle.rs
index 216d839..29dc47b 100644
--- a/src/curve/circle.rs
+++ b/src/curve/circle.rs
@@ -31,10 +31,10 @@ impl Curve for Circle {
     // The sense of a curve is in the direction of increasing parameter
     fn refine_parameter_range(&self, range: (Float, Float), same_sense: bool) -> (Float, Float) {
         let (a0, a1) = range;
-        if same_sense && a0 > a1 {
+        if same_sense && a0 >= a1 {
             return (a0, a1 + crate::consts::TAU);
         }
-        if !same_sense && a0 < a1 {
+        if !same_sense && a0 <= a1 {
             return (a0 + crate::consts::TAU, a1);
         }
         (a0, a1)
-- 
2.43.0


From 96443920f5d5b090b9839b814abf1b0463234251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:43 +0000
Subject: [PATCH 10/39] fix: degree 1 B-spline projection must return a knot
 parameter, not an arc length ratio

---
 src/curve/bspline.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/curve/bspline.rs b/src/curve/bspline.rs
index 49c4ae2..19154bc 100644
--- a/src/curve/bspline.rs
+++ b/src/curve/bspline.rs
@@ -150,8 +150,18 @@ impl Curve for BSplineCurve<Point3> {
 
     fn project(&self, point: Point3) -> Float {
         if self.degree() == 1 {
-            let ratio = crate::curve::Polyline::new(self.control_points.clone()).project(point);
-            return utils::range_at(self.knots.range(), ratio);
+            // the curve is a polyline, its knots tell the parameters of the vertices
+            let polyline = crate::curve::Polyline::new(self.control_points.clone());
+            let mut length = polyline.project(point) * polyline.length;
+            let mut index = 0;
+            while index + 1 < polyline.segment_lengths.len()
+                && length > polyline.segment_lengths[index]
+            {
+                length -= polyline.segment_lengths[index];
+                index += 1;
+            }
+            let ratio = (length * utils::inv_or_zero(polyline.segment_lengths[index])).min(1.0);
+            return utils::range_at((self.knots[index + 1], self.knots[index + 2]), ratio);
         }
         let der1 = self.derivative();
         let der2 = der1.derivative();
-- 
2.43.0


From 54b02149145f8db0ff90fbc9028f4e7ca554b75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:43 +0000
Subject: [PATCH 11/39] fix: a malformed number in a point cloud file is an
 error, not a panic

---
 src/points.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/points.rs b/src/points.rs
index 77f3391..f24b7b7 100644
--- a/src/points.rs
+++ b/src/points.rs
@@ -25,14 +25,14 @@ pub fn load_point_cloud<P: AsRef<Path>>(file: P) -> std::io::Result<Vec<Point3>>
             .as_slice()
         {
             [x, y, z] => points.push(Point3::new(
-                Float::from_str(x).unwrap(),
-                Float::from_str(y).unwrap(),
-                Float::from_str(z).unwrap(),
+                parse_coordinate(x)?,
+                parse_coordinate(y)?,
+                parse_coordinate(z)?,
             )),
             [_, x, y, z] => points.push(Point3::new(
-                Float::from_str(x).unwrap(),
-                Float::from_str(y).unwrap(),
-                Float::from_str(z).unwrap(),
+                parse_coordinate(x)?,
+                parse_coordinate(y)?,
+                parse_coordinate(z)?,
             )),
             _ => {}
         }
@@ -40,6 +40,11 @@ pub fn load_point_cloud<P: AsRef<Path>>(file: P) -> std::io::Result<Vec<Point3>>
     Ok(points)
 }
 
+fn parse_coordinate(item: &str) -> std::io::Result<Float> {
+    Float::from_str(item)
+        .map_err(|error| std::io::Error::new(std::io::ErrorKind::InvalidData, error))
+}
+
 pub fn save_point_cloud<P: AsRef<Path>>(points: &[Point3], file: P) -> std::io::Result<()> {
     let mut file = File::create(file)?;
     for point in points {
-- 
2.43.0


From 94e05566ca1ce6da1a97347a41197903fee50e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:43 +0000
Subject: [PATCH 12/39] fix: flip the SVG image about the page height, not its
 rounded value

---
 src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.rs b/src/model.rs
index a75f71b..f1c6267 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -94,7 +94,7 @@ impl<F: Face> Model<F> {
             .set("height", format!("{}mm", height))
             .set("viewBox", (0, 0, width, height));
         let mut group = Group::new()
-            .set("transform", format!("matrix(1 0 0 -1 0 {:.0})", height))
+            .set("transform", format!("matrix(1 0 0 -1 0 {})", height))
             .set("fill", "none")
             .set("stroke", "black")
             .set("stroke-linecap", "round");
-- 
2.43.0


From b67625ba66e1f82eb8ee21e3dbd4d014e903a022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:43 +0000
Subject: [PATCH 13/39] fix: a vertex dropped while clipping ears must not
 block other ears

---
 src/utils/polygon.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/polygon.rs b/src/utils/polygon.rs
index 16d916d..9ba747a 100644
--- a/src/utils/polygon.rs
+++ b/src/utils/polygon.rs
@@ -108,6 +108,7 @@ pub fn trianglate_polygon(
                                 concave_points.remove(j);
                             }
                             Convexity::Colinear => {
+                                concave_points.remove(j);
                                 to_delete.push((m + i - 1).rem_euclid(m));
                             }
                             _ => {}
@@ -120,6 +121,7 @@ pub fn trianglate_polygon(
                                 concave_points.remove(j);
                             }
                             Convexity::Colinear => {
+                                concave_points.remove(j);
                                 to_delete.push((i + 1).rem_euclid(m));
                             }
                             _ => {}
-- 
2.43.0


From e75ea760f90d20c664fdea5b95757f53de852a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:43 +0000
Subject: [PATCH 14/39] fix: projection onto splines may not end farther away
 than its best sample

---
 src/surface/bspline.rs | 21 ++++++++++++++++-----
 src/utils.rs           | 20 ++++++++++++++------
 2 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/surface/bspline.rs b/src/surface/bspline.rs
index 71d43d0..c640fa9 100644
--- a/src/surface/bspline.rs
+++ b/src/surface/bspline.rs
@@ -134,15 +134,23 @@ impl BSplineSurface<Point3> {
             .map(|point| {
                 let (i, j) = utils::find_nearest_point_in_grid(&vertices, *point);
                 let (mut u, mut v) = (u_parameters[i], v_parameters[j]);
-                for _ in 0..trials {
+                // Newton iteration may diverge, so keep the best parameters
+                let mut nearest = Point2::new(u, v);
+                let mut min = Float::MAX;
+                for _ in 0..=trials {
                     let r = self.get_point(u, v) - *point;
-                    if r.length_squared().near(0.0) {
-                        return Point2::new(u, v);
+                    let distance = r.length_squared();
+                    if distance < min {
+                        min = distance;
+                        nearest = Point2::new(u, v);
+                    }
+                    if distance.near(0.0) {
+                        break;
                     }
                     let su = der_u.get_point(u, v);
                     let sv = der_v.get_point(u, v);
                     if su.dot(r).near(0.0) && sv.dot(r).near(0.0) {
-                        return Point2::new(u, v);
+                        break;
                     }
 
                     let suu = der_uu.get_point(u, v);
@@ -157,10 +165,13 @@ impl BSplineSurface<Point3> {
                     let j = Mat2::from_cols_array(&[fu, gu, fv, gv]);
                     let k = Vec2::new(-r.dot(su), -r.dot(sv));
                     let delta = j.inverse() * k;
+                    if !delta.is_finite() {
+                        break;
+                    }
                     u = utils::clamp_in_range(u + delta.x, u_range);
                     v = utils::clamp_in_range(v + delta.y, v_range);
                 }
-                return Point2::new(u, v);
+                nearest
             })
             .collect::<Vec<_>>()
     }
diff --git a/src/utils.rs b/src/utils.rs
index 9adb3bb..78cd399 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -152,21 +152,29 @@ pub fn find_nearest_parameter(
             .collect::<Vec<_>>(),
         point,
     )];
-    // use Newton iteration to minimize the distance between point and curve
-    for _ in 0..trials {
+    // use Newton iteration to minimize the distance between point and curve,
+    // it may diverge, so keep the best parameter
+    let mut nearest = u;
+    let mut min = Float::MAX;
+    for _ in 0..=trials {
         let delta = curve.get_point(u) - point;
-        if delta.length_squared().near(0.0) {
-            return u;
+        let distance = delta.length_squared();
+        if distance < min {
+            min = distance;
+            nearest = u;
+        }
+        if distance.near(0.0) {
+            break;
         }
         let tangent = der1.get_point(u);
         let f = tangent.dot(delta);
         if f.near(0.0) {
-            return u;
+            break;
         }
         let fprime = der2.get_point(u).dot(delta) + tangent.length_squared();
         u = clamp_in_range(u - f / fprime, range);
     }
-    u
+    nearest
 }
 
 pub fn get_min_max_by_key<T, F: Fn(&T) -> Float>(items: &Vec<T>, key: F) -> (Float, Float) {
-- 
2.43.0


From 26bcadde88c2b7032a7948d9801e55bada739264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:12 +0000
Subject: [PATCH 15/39] fix: bridge holes to a visible vertex and triangulate
 the merged ring

---
 src/surface/plane.rs | 11 ++++++++---
 src/utils/meshgen.rs |  2 +-
 src/utils/polygon.rs | 47 ++++++++++++++++++++++++++++++++++++--------
 3 files changed, 48 insertions(+), 12 deletions(-)

diff --git a/src/surface/plane.rs b/src/surface/plane.rs
index 4ed183c..c5e5a76 100644
--- a/src/surface/plane.rs
+++ b/src/surface/plane.rs
@@ -76,9 +76,14 @@ impl Surface for Plane {
             }
         } else if polygons.len() > 2 {
             // triangulate polygon with holes
-            let mut vertex_indices = utils::merge_polygons(&points, &polygons);
-            let concave_points = utils::find_concave_vertices(&points, &mut vertex_indices);
-            let triangles = utils::trianglate_polygon(&points, vertex_indices, concave_points);
+            let ring = utils::merge_polygons(&points, &polygons);
+            // the ends of a bridge appear twice on the ring, with different angles
+            let ring_points = ring.iter().map(|&i| points[i]).collect::<Vec<_>>();
+            let (vertex_indices, concave_points) = utils::compute_vertex_convexity(&ring_points);
+            let triangles = utils::trianglate_polygon(&ring_points, vertex_indices, concave_points)
+                .into_iter()
+                .map(|i| ring[i as usize] as u32)
+                .collect();
 
             TriangleMesh {
                 vertices,
diff --git a/src/utils/meshgen.rs b/src/utils/meshgen.rs
index 415190c..5308d2b 100644
--- a/src/utils/meshgen.rs
+++ b/src/utils/meshgen.rs
@@ -130,7 +130,7 @@ fn point_on_normal_bisector(a: Point2, b: Point2, ratio: Float) -> Point2 {
     center + displace * ratio
 }
 
-fn is_segments_intersect(a: Point2, b: Point2, c: Point2, d: Point2) -> bool {
+pub(super) fn is_segments_intersect(a: Point2, b: Point2, c: Point2, d: Point2) -> bool {
     if a.x.min(b.x) > c.x.max(d.x)
         || c.x.min(d.x) > a.x.max(b.x)
         || a.y.min(b.y) > c.y.max(d.y)
diff --git a/src/utils/polygon.rs b/src/utils/polygon.rs
index 9ba747a..63c4682 100644
--- a/src/utils/polygon.rs
+++ b/src/utils/polygon.rs
@@ -1,4 +1,5 @@
-use crate::utils::{Point, Tolerance};
+use super::meshgen::is_segments_intersect;
+use crate::utils::Tolerance;
 use crate::{Float, Point2};
 use std::collections::VecDeque;
 
@@ -176,7 +177,11 @@ fn is_ear(
     next: usize,
 ) -> bool {
     for &other in concave_points {
-        if other != prev && other != next {
+        // a bridge to a hole visits its ends twice
+        if [prev, curr, next]
+            .iter()
+            .all(|&index| points[other] != points[index])
+        {
             if is_inside_triangle(points[prev], points[curr], points[next], points[other]) {
                 return false;
             }
@@ -221,15 +226,16 @@ fn merge_two_polygons(
     max_x_index: usize,
 ) {
     let inner_point = points[max_x_index];
-    // find nearest edge to inner point
+    // find nearest vertex on the right that is visible from inner point
     let mut min = Float::MAX;
     let mut min_index = 0;
     for i in 0..outer.len() {
-        let distance = inner_point.distance_to_line_segment(
-            points[outer[i]],
-            points[outer[(i + 1).rem_euclid(outer.len())]],
-        );
-        if distance < min {
+        let vertex = points[outer[i]];
+        let distance = inner_point.distance_squared(vertex);
+        if vertex.x > inner_point.x
+            && distance < min
+            && is_vertex_visible(points, outer, i, inner_point)
+        {
             min = distance;
             min_index = i;
         }
@@ -245,6 +251,31 @@ fn merge_two_polygons(
     }
 }
 
+/// Check if the segment from the point to vertex i of the polygon runs inside the polygon
+fn is_vertex_visible(
+    points: &[Point2],
+    polygon: &VecDeque<usize>,
+    i: usize,
+    point: Point2,
+) -> bool {
+    let n = polygon.len();
+    let vertex = points[polygon[i]];
+    let prev = points[polygon[(n + i - 1).rem_euclid(n)]];
+    let next = points[polygon[(i + 1).rem_euclid(n)]];
+    let left_of_prev = (vertex - prev).perp_dot(point - vertex) > 0.0;
+    let left_of_next = (next - vertex).perp_dot(point - vertex) > 0.0;
+    let is_inside_corner = if (vertex - prev).perp_dot(next - vertex) > 0.0 {
+        left_of_prev && left_of_next
+    } else {
+        left_of_prev || left_of_next
+    };
+    is_inside_corner
+        && (0..n).all(|j| {
+            let (c, d) = (points[polygon[j]], points[polygon[(j + 1).rem_euclid(n)]]);
+            c == vertex || d == vertex || !is_segments_intersect(point, vertex, c, d)
+        })
+}
+
 #[test]
 fn test_compute_convexity() {
     let a = Point2::new(7.46852, 258.22396);
-- 
2.43.0


From ca89bb5c0576a3572cabed3c658ba462e6773ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:53 +0000
Subject: [PATCH 16/39] fix: an ear may not touch another vertex within the
 tolerance

---
 src/utils/polygon.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/utils/polygon.rs b/src/utils/polygon.rs
index 63c4682..b6f31bf 100644
--- a/src/utils/polygon.rs
+++ b/src/utils/polygon.rs
@@ -1,5 +1,5 @@
 use super::meshgen::is_segments_intersect;
-use crate::utils::Tolerance;
+use crate::utils::{Point, Tolerance};
 use crate::{Float, Point2};
 use std::collections::VecDeque;
 
@@ -163,12 +163,6 @@ fn compute_convexity(a: Point2, b: Point2, c: Point2) -> Convexity {
     }
 }
 
-fn is_inside_triangle(a: Point2, b: Point2, c: Point2, p: Point2) -> bool {
-    (a - p).perp_dot(b - p) >= 0.0
-        && (b - p).perp_dot(c - p) >= 0.0
-        && (c - p).perp_dot(a - p) >= 0.0
-}
-
 fn is_ear(
     points: &[Point2],
     concave_points: &[usize],
@@ -182,7 +176,7 @@ fn is_ear(
             .iter()
             .all(|&index| points[other] != points[index])
         {
-            if is_inside_triangle(points[prev], points[curr], points[next], points[other]) {
+            if points[other].is_inside_triangle(points[prev], points[curr], points[next]) {
                 return false;
             }
         }
-- 
2.43.0


From c6a45662fded7e426815e34180a00e01fc720b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:05 +0000
Subject: [PATCH 17/39] fix: a bridge must leave the hole by more than the
 tolerance

---
 src/utils/polygon.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/polygon.rs b/src/utils/polygon.rs
index b6f31bf..ec1eb7a 100644
--- a/src/utils/polygon.rs
+++ b/src/utils/polygon.rs
@@ -227,6 +227,7 @@ fn merge_two_polygons(
         let vertex = points[outer[i]];
         let distance = inner_point.distance_squared(vertex);
         if vertex.x > inner_point.x
+            && !vertex.x.near(inner_point.x)
             && distance < min
             && is_vertex_visible(points, outer, i, inner_point)
         {
-- 
2.43.0


From f65ccae67786cf66b23da4446566bce5745b3b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:10 +0000
Subject: [PATCH 18/39] fix: advancing a front in a small region could go on
 for ever

---
 src/utils/meshgen.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/utils/meshgen.rs b/src/utils/meshgen.rs
index 5308d2b..5e36221 100644
--- a/src/utils/meshgen.rs
+++ b/src/utils/meshgen.rs
@@ -1,5 +1,5 @@
 use crate::consts::HALF_SQRT_3;
-use crate::{utils::Point, Float, Point2};
+use crate::{Float, Point2};
 use std::collections::VecDeque;
 
 /// generate triangular mesh by advancing front method
@@ -75,7 +75,7 @@ fn find_intersection_with_front(
         .iter()
         .filter_map(|e| {
             if selected_node != Some(e.0) {
-                if e.0 != start && e.0 != end && vertices[e.0].is_inside_triangle(a, b, new_point) {
+                if e.0 != start && e.0 != end && is_inside_triangle(vertices[e.0], a, b, new_point) {
                     let factor = shape_factor(a, b, vertices[e.0]);
                     // give inner nodes higher priority
                     return Some((e.0, 1.0 + factor));
@@ -120,6 +120,15 @@ fn find_intersection_with_front(
     nearby_nodes.pop().map(|(node, _)| node)
 }
 
+/// The tolerance is relative to the size of the triangle, an absolute one takes in all of a small region
+fn is_inside_triangle(p: Point2, a: Point2, b: Point2, c: Point2) -> bool {
+    let tolerance = 1.0e-10 * (b - a).length_squared().max((c - a).length_squared());
+    let (pa, pb, pc) = (a - p, b - p, c - p);
+    pa.perp_dot(pb) >= -tolerance
+        && pb.perp_dot(pc) >= -tolerance
+        && pc.perp_dot(pa) >= -tolerance
+}
+
 const MIN_GRID_SIZE: Float = 0.001;
 fn point_on_normal_bisector(a: Point2, b: Point2, ratio: Float) -> Point2 {
     let center = (a + b) / 2.0;
-- 
2.43.0


From d829afc4b551c512618517077d9975261d0d1df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:30 +0000
Subject: [PATCH 19/39] fix: new vertices of a cylinder with holes must be
 lifted from the ring

---
 src/surface/cylinder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/cylinder.rs b/src/surface/cylinder.rs
index 4259fed..6490266 100644
--- a/src/surface/cylinder.rs
+++ b/src/surface/cylinder.rs
@@ -114,7 +114,7 @@ impl Surface for Cylinder {
             vertices.extend(
                 points[boundary_point_count..]
                     .iter()
-                    .map(|p| self.get_point(p.x, p.y)),
+                    .map(|&p| self.generate_point_from_ring(p, d)),
             );
             return TriangleMesh {
                 vertices,
-- 
2.43.0


From f362c1d0c5feaba3455b37dbba490bf5da06868a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:31 +0000
Subject: [PATCH 20/39] fix: trimming a cylinder depended on the position of
 its origin

---
 src/surface/cylinder.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/surface/cylinder.rs b/src/surface/cylinder.rs
index 6490266..e4e89ad 100644
--- a/src/surface/cylinder.rs
+++ b/src/surface/cylinder.rs
@@ -70,10 +70,15 @@ impl Surface for Cylinder {
         let points: Vec<Point2> = vertices.iter().map(|v| self.project(*v)).collect();
         let (min_z, max_z) = utils::get_min_max_by_key(&points, |p| p.x);
         let d = (max_z - min_z) * 2.0;
+        // measure lengths from the lower end, so that all points are below the center of projection
+        let base = Cylinder {
+            origin: self.origin + self.axis * min_z,
+            ..*self
+        };
 
         let mut points: Vec<Point2> = vertices
             .iter()
-            .map(|v| self.project_to_ring(*v, d))
+            .map(|v| base.project_to_ring(*v, d))
             .collect();
         let boundary_point_count = points.len();
 
@@ -83,7 +88,7 @@ impl Surface for Cylinder {
                 vertices.extend(
                     points[boundary_point_count..]
                         .iter()
-                        .map(|&p| self.generate_point_from_ring(p, d)),
+                        .map(|&p| base.generate_point_from_ring(p, d)),
                 );
 
                 return TriangleMesh {
@@ -99,7 +104,7 @@ impl Surface for Cylinder {
                 vertices.extend(
                     points[boundary_point_count..]
                         .iter()
-                        .map(|&p| self.generate_point_from_ring(p, d)),
+                        .map(|&p| base.generate_point_from_ring(p, d)),
                 );
 
                 return TriangleMesh {
@@ -114,7 +119,7 @@ impl Surface for Cylinder {
             vertices.extend(
                 points[boundary_point_count..]
                     .iter()
-                    .map(|&p| self.generate_point_from_ring(p, d)),
+                    .map(|&p| base.generate_point_from_ring(p, d)),
             );
             return TriangleMesh {
                 vertices,
-- 
2.43.0


From 68eef4895587caf0b165d8da5fb96d3f8d7c19c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:03 +0000
Subject: [PATCH 21/39] fix: a trimmed curved surface must face the side its
 loop is counter-clockwise from

---
 src/surface/bspline.rs  | 6 +++---
 src/surface/cylinder.rs | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/surface/bspline.rs b/src/surface/bspline.rs
index c640fa9..c4f6ccb 100644
--- a/src/surface/bspline.rs
+++ b/src/surface/bspline.rs
@@ -249,8 +249,7 @@ impl Surface for BSplineSurface<Point3> {
                     vertices,
                     triangles,
                     normals: Vec::new(),
-                }
-                .reverse_winding_direction();
+                };
             } else {
                 vertices.reverse();
                 points.reverse();
@@ -265,7 +264,8 @@ impl Surface for BSplineSurface<Point3> {
                     vertices,
                     triangles,
                     normals: Vec::new(),
-                };
+                }
+                .reverse_winding_direction();
             }
         } else if polygons.len() > 2 {
             // triangulate polygon with holes
diff --git a/src/surface/cylinder.rs b/src/surface/cylinder.rs
index e4e89ad..812f89b 100644
--- a/src/surface/cylinder.rs
+++ b/src/surface/cylinder.rs
@@ -95,8 +95,7 @@ impl Surface for Cylinder {
                     vertices,
                     triangles,
                     normals: Vec::new(),
-                }
-                .reverse_winding_direction();
+                };
             } else {
                 vertices.reverse();
                 points.reverse();
@@ -111,7 +110,8 @@ impl Surface for Cylinder {
                     vertices,
                     triangles,
                     normals: Vec::new(),
-                };
+                }
+                .reverse_winding_direction();
             }
         } else if polygons.len() > 2 {
             // triangulate polygon with holes
-- 
2.43.0


From 43cafbea79c4a81dad7f5006c55d8d81455d1fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:05 +0000
Subject: [PATCH 22/39] fix: trim curved surfaces with several loops in either
 direction

---
 src/surface/bspline.rs  | 14 ++++++++++++--
 src/surface/cylinder.rs | 13 ++++++++++++-
 src/utils/polygon.rs    | 12 ++++++++++++
 3 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/surface/bspline.rs b/src/surface/bspline.rs
index c4f6ccb..db71e6d 100644
--- a/src/surface/bspline.rs
+++ b/src/surface/bspline.rs
@@ -269,18 +269,28 @@ impl Surface for BSplineSurface<Point3> {
             }
         } else if polygons.len() > 2 {
             // triangulate polygon with holes
-            dbg!(polygons.len());
+            let is_clockwise = !utils::is_region_counter_clockwise(&points, &polygons);
+            if is_clockwise {
+                vertices.reverse();
+                points.reverse();
+                polygons = polygons.iter().rev().map(|end| points.len() - end).collect();
+            }
             let (points, triangles) = utils::generate_triangular_mesh(&points, &polygons);
             vertices.extend(
                 points[boundary_point_count..]
                     .iter()
                     .map(|p| self.get_point(p.x, p.y)),
             );
-            return TriangleMesh {
+            let mesh = TriangleMesh {
                 vertices,
                 triangles,
                 normals: Vec::new(),
             };
+            return if is_clockwise {
+                mesh.reverse_winding_direction()
+            } else {
+                mesh
+            };
         } else {
             return TriangleMesh::new();
         }
diff --git a/src/surface/cylinder.rs b/src/surface/cylinder.rs
index 812f89b..4a85989 100644
--- a/src/surface/cylinder.rs
+++ b/src/surface/cylinder.rs
@@ -115,17 +115,28 @@ impl Surface for Cylinder {
             }
         } else if polygons.len() > 2 {
             // triangulate polygon with holes
+            let is_clockwise = !utils::is_region_counter_clockwise(&points, &polygons);
+            if is_clockwise {
+                vertices.reverse();
+                points.reverse();
+                polygons = polygons.iter().rev().map(|end| points.len() - end).collect();
+            }
             let (points, triangles) = utils::generate_triangular_mesh(&points, &polygons);
             vertices.extend(
                 points[boundary_point_count..]
                     .iter()
                     .map(|&p| base.generate_point_from_ring(p, d)),
             );
-            return TriangleMesh {
+            let mesh = TriangleMesh {
                 vertices,
                 triangles,
                 normals: Vec::new(),
             };
+            return if is_clockwise {
+                mesh.reverse_winding_direction()
+            } else {
+                mesh
+            };
         } else {
             return TriangleMesh::new();
         }
diff --git a/src/utils/polygon.rs b/src/utils/polygon.rs
index ec1eb7a..00a44f8 100644
--- a/src/utils/polygon.rs
+++ b/src/utils/polygon.rs
@@ -13,6 +13,18 @@ pub fn is_polygon_counter_clockwise(points: &[Point2]) -> bool {
     sum < 0.0
 }
 
+/// Check if the outer one of several loops is counter-clockwise, the inner ones being opposite to it
+pub fn is_region_counter_clockwise(points: &[Point2], polygons: &[usize]) -> bool {
+    let mut sum = 0.0;
+    for pair in polygons.windows(2) {
+        let polygon = &points[pair[0]..pair[1]];
+        for i in 0..polygon.len() {
+            sum += polygon[i].perp_dot(polygon[(i + 1) % polygon.len()]);
+        }
+    }
+    sum > 0.0
+}
+
 pub fn compute_vertex_convexity(points: &[Point2]) -> (VecDeque<usize>, Vec<usize>) {
     let n = points.len();
     let mut vertices = VecDeque::with_capacity(n);
-- 
2.43.0


From 375e97eee07f00853d6c3f0283a2fc272f84d448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:38 +0000
Subject: [PATCH 23/39] fix: a loop with a seam could not be meshed

---
 src/utils/meshgen.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/utils/meshgen.rs b/src/utils/meshgen.rs
index 5e36221..f7daeca 100644
--- a/src/utils/meshgen.rs
+++ b/src/utils/meshgen.rs
@@ -1,5 +1,5 @@
 use crate::consts::HALF_SQRT_3;
-use crate::{Float, Point2};
+use crate::{utils::TOLERANCE, Float, Point2};
 use std::collections::VecDeque;
 
 /// generate triangular mesh by advancing front method
@@ -18,6 +18,7 @@ pub fn generate_triangular_mesh(points: &[Point2], polygons: &[usize]) -> (Vec<P
             front.push_back((end - 1, start));
         }
     }
+    remove_seams(points, &mut front);
 
     // advancing the front unit it is empty
     while let Some(edge) = front.pop_back() {
@@ -58,6 +59,24 @@ pub fn generate_triangular_mesh(points: &[Point2], polygons: &[usize]) -> (Vec<P
     (vertices, triangles)
 }
 
+/// A loop that goes around and back along a seam passes the seam in both directions.
+/// Coincident vertices are replaced by the first of them and opposite edges cancel.
+fn remove_seams(points: &[Point2], front: &mut VecDeque<(usize, usize)>) {
+    let first = |i: usize| {
+        (0..i)
+            .find(|&j| points[i].distance(points[j]) < TOLERANCE)
+            .unwrap_or(i)
+    };
+    let edges = front
+        .iter()
+        .map(|e| (first(e.0), first(e.1)))
+        .collect::<Vec<_>>();
+    if edges.iter().any(|e| edges.contains(&(e.1, e.0))) {
+        front.clear();
+        front.extend(edges.iter().filter(|e| !edges.contains(&(e.1, e.0))));
+    }
+}
+
 fn find_intersection_with_front(
     start: usize,
     end: usize,
-- 
2.43.0


From ee1ac8fc0a4ee67ae52d3d7566f736f03eebccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:34 +0000
Subject: [PATCH 24/39] fix: draw the part of a polyline or cubic spline its
 segment covers, in its direction

The whole curve was drawn from its own start to its own end whatever the
parameter range of the segment, so a trimmed segment was too long, a spline
that is not clamped was drawn outside its domain, and after a segment against
its curve the next sampled segment was joined to the wrong end.
---
 src/model.rs | 44 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/src/model.rs b/src/model.rs
index f1c6267..daf4454 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -83,6 +83,7 @@ impl<F: Face> Model<F> {
         filename: P,
         (width, height): (f64, f64),
     ) -> std::io::Result<()> {
+        use crate::utils::Tolerance;
         use curve::Curve;
         use svg::{
             node::element::{Group, Path},
@@ -111,7 +112,23 @@ impl<F: Face> Model<F> {
                     continue;
                 }
                 if let Some(polyline) = segment.curve.downcast_ref::<curve::Polyline>() {
-                    for (index, point) in polyline.vertices.iter().enumerate() {
+                    let (u0, u1) = segment.parameter_range;
+                    let mut points = vec![polyline.get_point(u0.min(u1))];
+                    let mut length = 0.0;
+                    for (vertex, segment_length) in
+                        polyline.vertices[1..].iter().zip(&polyline.segment_lengths)
+                    {
+                        length += segment_length;
+                        let u = length / polyline.length;
+                        if u > u0.min(u1) && u < u0.max(u1) {
+                            points.push(*vertex);
+                        }
+                    }
+                    points.push(polyline.get_point(u0.max(u1)));
+                    if u0 > u1 {
+                        points.reverse();
+                    }
+                    for (index, point) in points.iter().enumerate() {
                         if index == 0 {
                             data.push_str(&format!("M {:.2},{:.2}", point.x, point.y));
                         } else {
@@ -121,10 +138,27 @@ impl<F: Face> Model<F> {
                     continue;
                 }
                 if let Some(bspline) = segment.curve.downcast_ref::<curve::BSplineCurve<Point3>>() {
-                    if bspline.degree == 3 {
-                        for (index, bezier_curve) in
-                            bspline.to_piecewise_bezier().into_iter().enumerate()
-                        {
+                    let (u0, u1) = segment.parameter_range;
+                    if bspline.degree == 3 && !u0.near(u1) {
+                        // keep the part of the curve within the range of the segment
+                        let mut part = bspline.clone();
+                        part.clamp();
+                        let (begin, end) = part.knots.range();
+                        let (first, last) = (u0.min(u1), u0.max(u1));
+                        if first > begin && !first.near(begin) {
+                            part = part.split(first);
+                        }
+                        if last < end && !last.near(end) {
+                            part.split(last);
+                        }
+                        let mut pieces = part.to_piecewise_bezier();
+                        if u0 > u1 {
+                            pieces.reverse();
+                            for piece in &mut pieces {
+                                piece.control_points.reverse();
+                            }
+                        }
+                        for (index, bezier_curve) in pieces.into_iter().enumerate() {
                             let start = bezier_curve.control_points[0];
                             let cp1 = bezier_curve.control_points[1];
                             let cp2 = bezier_curve.control_points[2];
-- 
2.43.0


From 15a2f9f2ff2aed3ae35249044808200f9bff33c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:08 +0000
Subject: [PATCH 25/39] fix: take off every vertex of a loop's end that
 coincides with its first one

Short edges at the end of a loop can leave two vertices, apart from each other
but both within the tolerance of the first one; only one was removed.
---
 src/surface.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/surface.rs b/src/surface.rs
index 8128a8b..d78e8f3 100644
--- a/src/surface.rs
+++ b/src/surface.rs
@@ -83,12 +83,11 @@ impl EdgeLoop {
             vertices.extend(edge.get_points());
         }
         vertices.dedup_by(|a, b| a.distance_squared(*b).near(0.0));
-        if vertices.is_empty() {
-            return vertices;
-        }
-        if vertices[0]
-            .distance_squared(vertices[vertices.len() - 1])
-            .near(0.0)
+        // several of the last vertices may coincide with the first one
+        while !vertices.is_empty()
+            && vertices[0]
+                .distance_squared(vertices[vertices.len() - 1])
+                .near(0.0)
         {
             vertices.pop();
         }
-- 
2.43.0


From 0f884653d5be71991aa79a8a60ca57c051ef6449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:28 +0000
Subject: [PATCH 26/39] fix: STEP placements have default directions and need
 not be given orthonormal

---
 src/model/step_reader.rs | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index a2d9416..83b7831 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -2,6 +2,7 @@ use super::Model;
 use crate::consts::TAU;
 use crate::curve::{Curve, CurveSegment, Polycurve};
 use crate::surface::{Surface, SurfacePatch, TrimmedSurface};
+use crate::utils::TOLERANCE;
 use crate::{Float, Grid, KnotVector, Point3, Point4, Vec3, Vec4};
 use iso_10303::step::{EntityRef, Real, StepReader};
 use iso_10303_parts::ap214::*;
@@ -33,15 +34,21 @@ fn vertex_point(reader: &Ap214Reader, vertex_ref: &EntityRef) -> Point3 {
         .unwrap()
 }
 
+/// The unit vector along an optional direction
+fn unit_direction(reader: &Ap214Reader, direction_ref: &Option<EntityRef>) -> Option<Vec3> {
+    direction_ref
+        .as_ref()
+        .and_then(|direction| reader.get_entity::<Direction>(direction))
+        .and_then(|direction| vec3(direction.direction_ratios()).try_normalize())
+}
+
 fn axis1_placement(reader: &Ap214Reader, placement_ref: &EntityRef) -> (Point3, Option<Vec3>) {
     let placement = reader.get_entity::<Axis1Placement>(placement_ref).unwrap();
     let location = reader
         .get_entity::<CartesianPoint>(placement.location())
         .map(|point| vec3(point.coordinates()))
         .unwrap();
-    let axis = reader
-        .get_entity::<Direction>(placement.axis().as_ref().unwrap())
-        .map(|direction| vec3(direction.direction_ratios()));
+    let axis = unit_direction(reader, placement.axis()).or(Some(Vec3::Z));
     (location, axis)
 }
 
@@ -56,13 +63,19 @@ fn axis2_placement_3d(
         .get_entity::<CartesianPoint>(placement.location())
         .map(|point| vec3(point.coordinates()))
         .unwrap();
-    let z_axis = reader
-        .get_entity::<Direction>(placement.axis().as_ref().unwrap())
-        .map(|direction| vec3(direction.direction_ratios()));
-    let x_axis = reader
-        .get_entity::<Direction>(placement.ref_direction().as_ref().unwrap())
-        .map(|direction| vec3(direction.direction_ratios()));
-    (location, z_axis, x_axis)
+    let z_axis = unit_direction(reader, placement.axis()).unwrap_or(Vec3::Z);
+    // the reference direction need not be perpendicular to the axis, only its projection counts
+    let project = |direction: Vec3| (direction - z_axis * direction.dot(z_axis)).try_normalize();
+    let x_axis = unit_direction(reader, placement.ref_direction())
+        .and_then(project)
+        .or_else(|| {
+            project(if z_axis.x.abs() < 1.0 - TOLERANCE {
+                Vec3::X
+            } else {
+                Vec3::Y
+            })
+        });
+    (location, Some(z_axis), x_axis)
 }
 
 fn extract_points(reader: &Ap214Reader, points_list: &Vec<EntityRef>) -> Vec<Point3> {
@@ -141,7 +154,7 @@ fn extract_curve(reader: &Ap214Reader, curve_ref: &EntityRef) -> Option<Box<dyn
         return Some(Box::new(crate::curve::Circle {
             center,
             axis: axis.unwrap(),
-            ref_dir: ref_dir.unwrap().normalize(),
+            ref_dir: ref_dir.unwrap(),
             radius: circle.radius().0,
         }));
     }
@@ -219,7 +232,7 @@ fn extract_surface(
         let surface = crate::surface::Cylinder {
             origin,
             axis: axis.unwrap(),
-            ref_dir: ref_dir.unwrap().normalize(),
+            ref_dir: ref_dir.unwrap(),
             radius: cylinder.radius().0,
         };
         return Some(SurfacePatch {
-- 
2.43.0


From 730b5dc046fb12f1c19aee2c2f0d0e584e8c9093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:28 +0000
Subject: [PATCH 27/39] fix: the direction of a STEP line is scaled by the
 magnitude of its vector

---
 src/model/step_reader.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 83b7831..e7b66e0 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -144,8 +144,11 @@ fn extract_curve(reader: &Ap214Reader, curve_ref: &EntityRef) -> Option<Box<dyn
             .unwrap();
         let direction = reader
             .get_entity::<Vector>(line.dir())
-            .and_then(|vector| reader.get_entity::<Direction>(vector.orientation()))
-            .map(|dir| vec3(dir.direction_ratios()))
+            .and_then(|vector| {
+                reader
+                    .get_entity::<Direction>(vector.orientation())
+                    .map(|dir| vec3(dir.direction_ratios()).normalize() * vector.magnitude().0)
+            })
             .unwrap();
         return Some(Box::new(crate::curve::Line { origin, direction }));
     }
-- 
2.43.0


From 7b575718f9cd1fd519f169aaea0499401cd30e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:28 +0000
Subject: [PATCH 28/39] fix: outer bounds of STEP faces were lost

---
 src/model/step_reader.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index e7b66e0..876c7a1 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -453,8 +453,17 @@ impl ModelReader {
             if let Some(surface) = extract_surface(&reader, advanced_face) {
                 let mut bounds = Vec::with_capacity(advanced_face.bounds().len());
                 for bound in advanced_face.bounds() {
-                    if let Some(face_bound) = reader.get_entity::<FaceBound>(bound) {
-                        if let Some(edge_loop) = reader.get_entity::<EdgeLoop>(face_bound.bound()) {
+                    // an outer bound is an entity type of its own
+                    let bound_loop = reader
+                        .get_entity::<FaceOuterBound>(bound)
+                        .map(|face_bound| face_bound.bound())
+                        .or_else(|| {
+                            reader
+                                .get_entity::<FaceBound>(bound)
+                                .map(|face_bound| face_bound.bound())
+                        });
+                    if let Some(bound_loop) = bound_loop {
+                        if let Some(edge_loop) = reader.get_entity::<EdgeLoop>(bound_loop) {
                             let edges = edge_loop
                                 .edge_list()
                                 .iter()
-- 
2.43.0


From 810131c8e565698114d042e56bee5bedb6b25beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:28 +0000
Subject: [PATCH 29/39] fix: the orientation of STEP oriented edges was ignored

---
 src/model/step_reader.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 876c7a1..801f8e5 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -180,6 +180,15 @@ fn extract_curve(reader: &Ap214Reader, curve_ref: &EntityRef) -> Option<Box<dyn
     None
 }
 
+/// Go along the segment in the opposite direction
+fn reverse_segment(segment: CurveSegment<Box<dyn Curve>>) -> CurveSegment<Box<dyn Curve>> {
+    let (start, end) = segment.parameter_range;
+    CurveSegment {
+        parameter_range: (end, start),
+        ..segment
+    }
+}
+
 fn extract_edge_curve(
     reader: &Ap214Reader,
     edge_ref: &EntityRef,
@@ -469,7 +478,13 @@ impl ModelReader {
                                 .iter()
                                 .filter_map(|edge| {
                                     reader.get_entity::<OrientedEdge>(edge).and_then(|edge| {
-                                        extract_edge_curve(&reader, edge.edge_element())
+                                        let segment =
+                                            extract_edge_curve(&reader, edge.edge_element());
+                                        if edge.orientation() {
+                                            segment
+                                        } else {
+                                            segment.map(reverse_segment)
+                                        }
                                     })
                                 })
                                 .collect::<Vec<_>>();
-- 
2.43.0


From 14cf5f0dd06e2b219707d2bd18baa2065fd5a7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:28 +0000
Subject: [PATCH 30/39] fix: the orientation of STEP face bounds was ignored

---
 src/model/step_reader.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 801f8e5..b09fa42 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -465,15 +465,15 @@ impl ModelReader {
                     // an outer bound is an entity type of its own
                     let bound_loop = reader
                         .get_entity::<FaceOuterBound>(bound)
-                        .map(|face_bound| face_bound.bound())
+                        .map(|face_bound| (face_bound.bound(), face_bound.orientation()))
                         .or_else(|| {
                             reader
                                 .get_entity::<FaceBound>(bound)
-                                .map(|face_bound| face_bound.bound())
+                                .map(|face_bound| (face_bound.bound(), face_bound.orientation()))
                         });
-                    if let Some(bound_loop) = bound_loop {
+                    if let Some((bound_loop, orientation)) = bound_loop {
                         if let Some(edge_loop) = reader.get_entity::<EdgeLoop>(bound_loop) {
-                            let edges = edge_loop
+                            let mut edges = edge_loop
                                 .edge_list()
                                 .iter()
                                 .filter_map(|edge| {
@@ -488,6 +488,9 @@ impl ModelReader {
                                     })
                                 })
                                 .collect::<Vec<_>>();
+                            if !orientation {
+                                edges = edges.into_iter().rev().map(reverse_segment).collect();
+                            }
                             bounds.push(crate::surface::EdgeLoop { edges });
                         }
                     }
-- 
2.43.0


From 1f8e77ccd74258bd583fe71d77a71b9dc49562ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:28 +0000
Subject: [PATCH 31/39] fix: the sense of STEP composite curve segments was
 ignored

---
 src/model/step_reader.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index b09fa42..62f5bc3 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -429,11 +429,16 @@ fn extract_curve_segment(
                         .unwrap();
                 let parameter_range = basis_curve
                     .refine_parameter_range((param1, param2), trimmed_curve.sense_agreement());
-                return Some(CurveSegment {
+                let curve_segment = CurveSegment {
                     curve: basis_curve,
                     parameter_range,
                     tolerance: 0.01,
                     parameter_division: 16,
+                };
+                return Some(if segment.same_sense() {
+                    curve_segment
+                } else {
+                    reverse_segment(curve_segment)
                 });
             }
         }
-- 
2.43.0


From 597853e095e8c53aa57b03b5a0054291f1ecad7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:28 +0000
Subject: [PATCH 32/39] fix: a STEP curve trimmed by points, or by points and
 parameters, crashed the reader

---
 src/model/step_reader.rs | 43 +++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 62f5bc3..f6da703 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -7,6 +7,7 @@ use crate::{Float, Grid, KnotVector, Point3, Point4, Vec3, Vec4};
 use iso_10303::step::{EntityRef, Real, StepReader};
 use iso_10303_parts::ap214::*;
 use std::any::Any;
+use std::collections::HashSet;
 
 fn vec3(coordinates: &Vec<Real>) -> Vec3 {
     Vec3::new(
@@ -406,12 +407,24 @@ fn extract_surface(
     return None;
 }
 
-fn get_trimming_parameter_value(measure: &TrimmingSelect) -> Option<f64> {
-    if let TrimmingSelect::ParameterValue(value) = measure {
-        Some(value.0)
-    } else {
-        None
-    }
+fn get_trimming_parameter_value(
+    reader: &Ap214Reader,
+    curve: &dyn Curve,
+    measures: &HashSet<TrimmingSelect>,
+) -> Option<f64> {
+    // a trimming may be given by parameter, by point or both ways, in any order
+    let value = measures.iter().find_map(|measure| match measure {
+        TrimmingSelect::ParameterValue(value) => Some(value.0),
+        _ => None,
+    });
+    value.or_else(|| {
+        measures.iter().find_map(|measure| match measure {
+            TrimmingSelect::CartesianPoint(point) => reader
+                .get_entity::<CartesianPoint>(point)
+                .map(|point| curve.project(vec3(point.coordinates()))),
+            _ => None,
+        })
+    })
 }
 
 fn extract_curve_segment(
@@ -421,12 +434,18 @@ fn extract_curve_segment(
     if let Some(segment) = reader.get_entity::<CompositeCurveSegment>(segment_ref) {
         if let Some(trimmed_curve) = reader.get_entity::<TrimmedCurve>(segment.parent_curve()) {
             if let Some(basis_curve) = extract_curve(reader, trimmed_curve.basis_curve()) {
-                let param1 =
-                    get_trimming_parameter_value(trimmed_curve.trim_1().iter().next().unwrap())
-                        .unwrap();
-                let param2 =
-                    get_trimming_parameter_value(trimmed_curve.trim_2().iter().next().unwrap())
-                        .unwrap();
+                let param1 = get_trimming_parameter_value(
+                    reader,
+                    basis_curve.as_ref(),
+                    trimmed_curve.trim_1(),
+                )
+                .unwrap();
+                let param2 = get_trimming_parameter_value(
+                    reader,
+                    basis_curve.as_ref(),
+                    trimmed_curve.trim_2(),
+                )
+                .unwrap();
                 let parameter_range = basis_curve
                     .refine_parameter_range((param1, param2), trimmed_curve.sense_agreement());
                 let curve_segment = CurveSegment {
-- 
2.43.0


From 63b9af5e4bc7f0cc4a338203dca3fe9637cf1188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:57 +0000
Subject: [PATCH 33/39] fix: trimming parameters of STEP polylines count
 vertices, they are not ratios of the length

---
 src/model/step_reader.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index f6da703..e03c901 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -407,6 +407,15 @@ fn extract_surface(
     return None;
 }
 
+/// The parameter of a polyline counts its vertices in STEP, here it is a ratio of its length
+fn polyline_parameter(polyline: &crate::curve::Polyline, parameter: Float) -> Float {
+    let last = polyline.segment_lengths.len() - 1;
+    let index = (parameter.max(0.0) as usize).min(last);
+    let length = polyline.segment_lengths[..index].iter().sum::<Float>()
+        + polyline.segment_lengths[index] * (parameter - index as Float);
+    (length / polyline.length).clamp(0.0, 1.0)
+}
+
 fn get_trimming_parameter_value(
     reader: &Ap214Reader,
     curve: &dyn Curve,
@@ -417,6 +426,12 @@ fn get_trimming_parameter_value(
         TrimmingSelect::ParameterValue(value) => Some(value.0),
         _ => None,
     });
+    let value = value.map(
+        |value| match curve.downcast_ref::<crate::curve::Polyline>() {
+            Some(polyline) => polyline_parameter(polyline, value),
+            None => value,
+        },
+    );
     value.or_else(|| {
         measures.iter().find_map(|measure| match measure {
             TrimmingSelect::CartesianPoint(point) => reader
-- 
2.43.0


From d17ec0857ec2f4094f506a9476d76104e7195578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:57 +0000
Subject: [PATCH 34/39] fix: a STEP reference to an entity of unknown type
 crashed the reader

---
 src/model/step_reader.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index e03c901..58b804d 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -177,10 +177,19 @@ fn extract_curve(reader: &Ap214Reader, curve_ref: &EntityRef) -> Option<Box<dyn
         }));
     }
     let id = curve_ref.0;
-    println!("{}: {} is unrecoginzed", id, reader.get_type_name(id));
+    report_unrecognized(reader, id);
     None
 }
 
+/// Entities of unknown types have not been read at all
+fn report_unrecognized(reader: &Ap214Reader, id: i64) {
+    if reader.entities.contains_key(&id) {
+        println!("{}: {} is unrecoginzed", id, reader.get_type_name(id));
+    } else {
+        println!("{} is missing", id);
+    }
+}
+
 /// Go along the segment in the opposite direction
 fn reverse_segment(segment: CurveSegment<Box<dyn Curve>>) -> CurveSegment<Box<dyn Curve>> {
     let (start, end) = segment.parameter_range;
@@ -541,7 +550,7 @@ impl ModelReader {
                 model.add_face(trimmed_surface);
             } else {
                 let id = advanced_face.face_geometry().0;
-                println!("{}: {} is unrecoginzed", id, reader.get_type_name(id));
+                report_unrecognized(&reader, id);
             }
         }
         Ok(model)
-- 
2.43.0


From e22e2fae069e31c99a261db1f8ec621067b259a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:57 +0000
Subject: [PATCH 35/39] fix: an edge around a closed polyline or B-spline curve
 had an empty range

---
 src/curve.rs          | 26 +++++++++++++++++++++++++-
 src/curve/bspline.rs  |  8 ++++++++
 src/curve/polyline.rs |  4 ++++
 3 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/curve.rs b/src/curve.rs
index b239e89..0cbfc76 100644
--- a/src/curve.rs
+++ b/src/curve.rs
@@ -1,4 +1,4 @@
-use crate::{utils, Float, Point3};
+use crate::{utils, utils::Tolerance, Float, Point3};
 use downcast_rs::{impl_downcast, Downcast};
 
 /// Parametric curve
@@ -29,6 +29,30 @@ impl Curve for Box<dyn Curve> {
     }
 }
 
+/// The point where a closed curve begins and ends has two parameters, take the one the sense asks for
+fn refine_closed_range(
+    curve: &impl Curve,
+    domain: (Float, Float),
+    range: (Float, Float),
+    same_sense: bool,
+) -> (Float, Float) {
+    let seam = curve.get_point(domain.0);
+    let is_seam = |u: Float| curve.get_point(u).distance_squared(seam).near(0.0);
+    if !is_seam(domain.1) || (same_sense && range.0 < range.1) || (!same_sense && range.0 > range.1)
+    {
+        return range;
+    }
+    let (begin, end) = if same_sense {
+        domain
+    } else {
+        (domain.1, domain.0)
+    };
+    (
+        if is_seam(range.0) { begin } else { range.0 },
+        if is_seam(range.1) { end } else { range.1 },
+    )
+}
+
 #[derive(Debug)]
 pub struct CurveSegment<C: Curve> {
     pub curve: C,
diff --git a/src/curve/bspline.rs b/src/curve/bspline.rs
index 19154bc..d6cacf6 100644
--- a/src/curve/bspline.rs
+++ b/src/curve/bspline.rs
@@ -175,6 +175,14 @@ impl Curve for BSplineCurve<Point3> {
             10,
         )
     }
+
+    fn refine_parameter_range(&self, range: (Float, Float), same_sense: bool) -> (Float, Float) {
+        let domain = (
+            self.knots[self.degree()],
+            self.knots[self.control_points.len()],
+        );
+        super::refine_closed_range(self, domain, range, same_sense)
+    }
 }
 
 /// Rational BSpline curve, point (x,y,z) with weight w is (wx,wy,wz,w)
diff --git a/src/curve/polyline.rs b/src/curve/polyline.rs
index c6cc84d..e4c675a 100644
--- a/src/curve/polyline.rs
+++ b/src/curve/polyline.rs
@@ -80,4 +80,8 @@ impl Curve for Polyline {
         }
         (length / self.length).clamp(0.0, 1.0)
     }
+
+    fn refine_parameter_range(&self, range: (Float, Float), same_sense: bool) -> (Float, Float) {
+        super::refine_closed_range(self, (0.0, 1.0), range, same_sense)
+    }
 }
-- 
2.43.0


From 6469e2b145c9fba4c711fd0e8efffae63774e7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:01 +0000
Subject: [PATCH 36/39] fix: write every point of a point file or report an
 error

File::write may write a part of the line only, when the disk becomes full for example.
---
 src/points.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/points.rs b/src/points.rs
index f24b7b7..33a92b4 100644
--- a/src/points.rs
+++ b/src/points.rs
@@ -48,7 +48,7 @@ fn parse_coordinate(item: &str) -> std::io::Result<Float> {
 pub fn save_point_cloud<P: AsRef<Path>>(points: &[Point3], file: P) -> std::io::Result<()> {
     let mut file = File::create(file)?;
     for point in points {
-        file.write(format!("{} {} {}\n", point.x, point.y, point.z).as_bytes())?;
+        file.write_all(format!("{} {} {}\n", point.x, point.y, point.z).as_bytes())?;
     }
     Ok(())
 }
@@ -59,7 +59,7 @@ pub fn save_point_cloud_with_normal<P: AsRef<Path>>(
 ) -> std::io::Result<()> {
     let mut file = File::create(file)?;
     for (point, normal) in points {
-        file.write(
+        file.write_all(
             format!(
                 "{} {} {} {} {} {}\n",
                 point.x, point.y, point.z, normal.x, normal.y, normal.z
@@ -73,7 +73,7 @@ pub fn save_point_cloud_with_normal<P: AsRef<Path>>(
 pub fn save_points<P: AsRef<Path>>(points: &[Point2], file: P) -> std::io::Result<()> {
     let mut file = File::create(file)?;
     for point in points {
-        file.write(format!("{},{}\n", point.x, point.y).as_bytes())?;
+        file.write_all(format!("{},{}\n", point.x, point.y).as_bytes())?;
     }
     Ok(())
 }
-- 
2.43.0


From 84a9209af6cc722a6560a428508e9bdcac0e1805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:01 +0000
Subject: [PATCH 37/39] fix: STL export to a path without a file name is an
 error, not a panic

---
 src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.rs b/src/model.rs
index daf4454..1141fdd 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -25,7 +25,7 @@ impl<F: Face> Model<F> {
     pub fn save_as_stl<P: AsRef<std::path::Path>>(&self, filename: P) -> std::io::Result<()> {
         use std::io::{Seek, SeekFrom, Write};
         let path = std::path::Path::new(filename.as_ref());
-        let name = path.file_stem().unwrap().to_string_lossy();
+        let name = path.file_stem().unwrap_or_default().to_string_lossy();
         let file = std::fs::File::create(path)?;
         let mut writer = std::io::BufWriter::new(file);
 
-- 
2.43.0


From 15c7b8f737aa0fd2c222286f2b9f40ac0b36bc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:59 +0000
Subject: [PATCH 38/39] fix: end adaptive sampling where a curve jumps

The bisection at a jump never met the tolerance and went on with intervals
that cannot be divided any more, until the stack overflowed.
---
 src/utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils.rs b/src/utils.rs
index 78cd399..69d5be5 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -76,6 +76,10 @@ pub fn parameter_division(curve: &dyn Curve, range: (Float, Float), tol: Float)
         vec![range.0, range.1]
     } else {
         let mid = (range.0 + range.1) / 2.0;
+        if mid == range.0 || mid == range.1 {
+            // the curve jumps here
+            return vec![range.0, range.1];
+        }
         let mut res = parameter_division(curve, (range.0, mid), tol);
         let _ = res.pop();
         res.extend(parameter_division(curve, (mid, range.1), tol));
-- 
2.43.0


From 97df9017804477f44b1ff698b2190448d3911e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:24 +0000
Subject: [PATCH 39/39] fix: a polyline without length evaluates and projects
 to its point instead of NaN

---
 src/curve/polyline.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/curve/polyline.rs b/src/curve/polyline.rs
index e4c675a..ad8fdad 100644
--- a/src/curve/polyline.rs
+++ b/src/curve/polyline.rs
@@ -46,7 +46,7 @@ impl Curve for Polyline {
         } else {
             let mut length = t * self.length;
             for (index, &segment_length) in self.segment_lengths.iter().enumerate() {
-                if length > segment_length {
+                if length > segment_length || segment_length == 0.0 {
                     length -= segment_length;
                 } else {
                     return self.vertices[index]
@@ -78,7 +78,11 @@ impl Curve for Polyline {
                 .dot((self.vertices[min_index + 1] - self.vertices[min_index]).normalize())
                 .clamp(0.0, segment_length);
         }
-        (length / self.length).clamp(0.0, 1.0)
+        if self.length > 0.0 {
+            (length / self.length).clamp(0.0, 1.0)
+        } else {
+            0.0
+        }
     }
 
     fn refine_parameter_range(&self, range: (Float, Float), same_sense: bool) -> (Float, Float) {
-- 
2.43.0

