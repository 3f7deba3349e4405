From 5cf8eb3bc8a2f57cccbcce40ff38ebd5c8d8dd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:29 +0000
Subject: [PATCH 01/22] fix: inserting a knot into the first spans of an
 unclamped B-spline curve indexed control point -1

---
 src/curve/bspline.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/curve/bspline.rs b/src/curve/bspline.rs
index 5dced54..4ee762d 100644
--- a/src/curve/bspline.rs
+++ b/src/curve/bspline.rs
@@ -55,8 +55,13 @@ impl BSplineCurve<Point3> {
             for i in (start..end).rev() {
                 let delta = self.knots[i + p + 1] - self.knots[i];
                 let a = (knot - self.knots[i]) * utils::inv_or_zero(delta);
-                self.control_points[i] =
-                    self.control_points[i - 1] * (1.0 - a) + self.control_points[i] * a;
+                // there is no control point before the first one
+                let previous = if i > 0 {
+                    self.control_points[i - 1] * (1.0 - a)
+                } else {
+                    Point3::ZERO
+                };
+                self.control_points[i] = previous + self.control_points[i] * a;
             }
         }
     }
-- 
2.43.0


From 2d45fccdf748e8fc1827ced54cb54fc827ccd358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:19 +0000
Subject: [PATCH 02/22] fix: projecting onto a line with a direction of length
 other than 1 returned a scaled parameter

---
 src/curve/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/line.rs b/src/curve/line.rs
index 355bc73..36734d5 100644
--- a/src/curve/line.rs
+++ b/src/curve/line.rs
@@ -13,6 +13,6 @@ impl Curve for Line {
     }
 
     fn project(&self, point: Point3) -> Float {
-        (point - self.origin).dot(self.direction)
+        (point - self.origin).dot(self.direction) / self.direction.length_squared()
     }
 }
-- 
2.43.0


From f7759e57440cf2af43108c411e5afc63aa65d22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:19 +0000
Subject: [PATCH 03/22] fix: evaluating a polyline just below t = 1 could
 panic, and a polyline of equal vertices gave NaN

---
 src/curve/polyline.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/curve/polyline.rs b/src/curve/polyline.rs
index a244777..46bf72e 100644
--- a/src/curve/polyline.rs
+++ b/src/curve/polyline.rs
@@ -48,12 +48,15 @@ impl Curve for Polyline {
             for (index, &segment_length) in self.segment_lengths.iter().enumerate() {
                 if length > segment_length {
                     length -= segment_length;
+                } else if segment_length == 0.0 {
+                    return self.vertices[index];
                 } else {
                     return self.vertices[index]
                         .lerp(self.vertices[index + 1], length / segment_length);
                 }
             }
-            unreachable!()
+            // the remaining length can exceed the last segment by a rounding error
+            self.end()
         }
     }
 
-- 
2.43.0


From bbca609ab296ff7de81ffe4f2a9f10351f57dec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:19 +0000
Subject: [PATCH 04/22] fix: projecting onto a polyline ran past segment ends
 at corners and gave NaN at repeated vertices

---
 src/curve/polyline.rs | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/curve/polyline.rs b/src/curve/polyline.rs
index 46bf72e..2869eb2 100644
--- a/src/curve/polyline.rs
+++ b/src/curve/polyline.rs
@@ -35,6 +35,25 @@ impl Polyline {
     pub fn nearest_vertex(&self, point: Point3) -> usize {
         utils::find_nearest_point(&self.vertices, point)
     }
+
+    /// Get index of the nearest segment and the position of the nearest point on it, from 0 to 1
+    pub fn nearest_segment(&self, point: Point3) -> (usize, Float) {
+        let mut min = Float::MAX;
+        let mut min_index = 0;
+
+        for (index, pair) in self.vertices.windows(2).enumerate() {
+            let distance = utils::distance_to_line_segment(pair[0], pair[1], point);
+            if distance < min {
+                min = distance;
+                min_index = index;
+            }
+        }
+
+        let start = self.vertices[min_index];
+        let vector = self.vertices[min_index + 1] - start;
+        let ratio = (point - start).dot(vector) * utils::inv_or_zero(vector.length_squared());
+        (min_index, ratio.clamp(0.0, 1.0))
+    }
 }
 
 impl Curve for Polyline {
@@ -61,20 +80,12 @@ impl Curve for Polyline {
     }
 
     fn project(&self, point: Point3) -> Float {
-        let mut min = Float::MAX;
-        let mut min_index = 0;
-
-        for (index, pair) in self.vertices.windows(2).enumerate() {
-            let distance = utils::distance_to_line_segment(pair[0], pair[1], point);
-            if distance < min {
-                min = distance;
-                min_index = index;
-            }
+        if self.length == 0.0 {
+            return 0.0;
         }
-
-        let length = self.segment_lengths.iter().take(min_index).sum::<Float>()
-            + (point - self.vertices[min_index])
-                .dot((self.vertices[min_index + 1] - self.vertices[min_index]).normalize());
+        let (index, ratio) = self.nearest_segment(point);
+        let length = self.segment_lengths.iter().take(index).sum::<Float>()
+            + self.segment_lengths[index] * ratio;
         (length / self.length).clamp(0.0, 1.0)
     }
 }
-- 
2.43.0


From 877e8f1db3a81a1b259db0ea945c751ebff3ffdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:19 +0000
Subject: [PATCH 05/22] fix: projecting onto a degree 1 B-spline curve ignored
 its inner knots

---
 src/curve/bspline.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/curve/bspline.rs b/src/curve/bspline.rs
index 4ee762d..53b9712 100644
--- a/src/curve/bspline.rs
+++ b/src/curve/bspline.rs
@@ -150,8 +150,10 @@ impl Curve for BSplineCurve<Point3> {
 
     fn project(&self, point: Point3) -> Float {
         if self.degree() == 1 {
-            let ratio = crate::curve::Polyline::new(self.control_points.clone()).project(point);
-            return utils::range_at(self.knots.range(), ratio);
+            // segment i between control points spans the knots i + 1 and i + 2
+            let polyline = crate::curve::Polyline::new(self.control_points.clone());
+            let (i, ratio) = polyline.nearest_segment(point);
+            return utils::range_at((self.knots[i + 1], self.knots[i + 2]), ratio);
         }
         let der1 = self.derivative();
         let der2 = der1.derivative();
-- 
2.43.0


From c369f3d3e1571d8800e7465819f9e222fe6872a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:19 +0000
Subject: [PATCH 06/22] fix: a closed circular edge (equal start and end angle)
 had an empty parameter range

---
 src/curve/circle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve/circle.rs b/src/curve/circle.rs
index 216d839..29dc47b 100644
--- a/src/curve/circle.rs
+++ b/src/curve/circle.rs
@@ -31,10 +31,10 @@ impl Curve for Circle {
     // The sense of a curve is in the direction of increasing parameter
     fn refine_parameter_range(&self, range: (Float, Float), same_sense: bool) -> (Float, Float) {
         let (a0, a1) = range;
-        if same_sense && a0 > a1 {
+        if same_sense && a0 >= a1 {
             return (a0, a1 + crate::consts::TAU);
         }
-        if !same_sense && a0 < a1 {
+        if !same_sense && a0 <= a1 {
             return (a0 + crate::consts::TAU, a1);
         }
         (a0, a1)
-- 
2.43.0


From 0ee2a19ae19b4c7c132e72b85aea1cb1cef2f8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:19 +0000
Subject: [PATCH 07/22] fix: a boxed surface lost its normals

---
 src/surface.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/surface.rs b/src/surface.rs
index e9c65b7..1f50a33 100644
--- a/src/surface.rs
+++ b/src/surface.rs
@@ -24,6 +24,10 @@ impl Surface for Box<dyn Surface> {
         self.as_ref().get_point(u, v)
     }
 
+    fn get_normals(&self, params: &[Point2]) -> Vec<Vec3> {
+        self.as_ref().get_normals(params)
+    }
+
     fn trim(&self, bounds: &[EdgeLoop]) -> TriangleMesh {
         self.as_ref().trim(bounds)
     }
-- 
2.43.0


From 4bde82d68e9c19fd66a2440304004ffa2fa4f7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:56 +0000
Subject: [PATCH 08/22] fix: projecting onto a B-spline surface gave NaN (and
 panicked) where the Jacobian is singular

---
 src/surface/bspline.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/surface/bspline.rs b/src/surface/bspline.rs
index 5717765..dbb51a3 100644
--- a/src/surface/bspline.rs
+++ b/src/surface/bspline.rs
@@ -157,6 +157,10 @@ impl BSplineSurface<Point3> {
                     let j = Mat2::from_cols_array(&[fu, gu, fv, gv]);
                     let k = Vec2::new(-r.dot(su), -r.dot(sv));
                     let delta = j.inverse() * k;
+                    if !delta.is_finite() {
+                        // the Jacobian is singular, no further step is defined
+                        break;
+                    }
                     u = utils::clamp_in_range(u + delta.x, u_range);
                     v = utils::clamp_in_range(v + delta.y, v_range);
                 }
-- 
2.43.0


From 4e81989143fda6c2509a6c5e613836f21136f3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:03 +0000
Subject: [PATCH 09/22] fix: an edge loop without edges made polygon
 approximation panic

---
 src/surface.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/surface.rs b/src/surface.rs
index 1f50a33..785dbbd 100644
--- a/src/surface.rs
+++ b/src/surface.rs
@@ -83,11 +83,10 @@ impl EdgeLoop {
             vertices.extend(edge.get_points());
         }
         vertices.dedup_by(|a, b| a.distance_squared(*b).near(0.0));
-        if vertices[0]
-            .distance_squared(vertices[vertices.len() - 1])
-            .near(0.0)
-        {
-            vertices.pop();
+        if let (Some(first), Some(last)) = (vertices.first(), vertices.last()) {
+            if first.distance_squared(*last).near(0.0) {
+                vertices.pop();
+            }
         }
         vertices
     }
-- 
2.43.0


From 464a85583fc93bb2ca4bdb8b12ef4f3625e13bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:15 +0000
Subject: [PATCH 10/22] fix: ear clipping kept vertices it had dropped as
 collinear in the list of concave points, where they block further ears

---
 src/utils/polygon.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/polygon.rs b/src/utils/polygon.rs
index 16d916d..9ba747a 100644
--- a/src/utils/polygon.rs
+++ b/src/utils/polygon.rs
@@ -108,6 +108,7 @@ pub fn trianglate_polygon(
                                 concave_points.remove(j);
                             }
                             Convexity::Colinear => {
+                                concave_points.remove(j);
                                 to_delete.push((m + i - 1).rem_euclid(m));
                             }
                             _ => {}
@@ -120,6 +121,7 @@ pub fn trianglate_polygon(
                                 concave_points.remove(j);
                             }
                             Convexity::Colinear => {
+                                concave_points.remove(j);
                                 to_delete.push((i + 1).rem_euclid(m));
                             }
                             _ => {}
-- 
2.43.0


From a1d2c5138113a2f5d53b2fdc05493c780184720e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:21 +0000
Subject: [PATCH 11/22] fix: merging holes could bridge across edges, and
 clipping mistook bridge ends for one vertex

Holes were connected to an end of the nearest edge, whether or not the connection crossed
other edges, and the vertices occurring twice in the merged polygon had a single entry in
the list of concave points, so the triangulation overlapped or left parts open.
---
 src/utils/polygon.rs | 197 ++++++++++++++++++++++++++++---------------
 1 file changed, 129 insertions(+), 68 deletions(-)

diff --git a/src/utils/polygon.rs b/src/utils/polygon.rs
index 9ba747a..bad4606 100644
--- a/src/utils/polygon.rs
+++ b/src/utils/polygon.rs
@@ -68,74 +68,44 @@ pub fn trianglate_polygon(
     mut vertices: VecDeque<usize>,
     mut concave_points: Vec<usize>,
 ) -> Vec<u32> {
-    let n = vertices.len();
-    let mut triangles = Vec::with_capacity((n - 2) * 3);
+    let mut triangles = Vec::with_capacity(vertices.len().saturating_sub(2) * 3);
     let mut prev_m = usize::MAX;
 
     loop {
         if vertices.len() >= prev_m {
             break;
         }
-        let mut m = vertices.len();
-        prev_m = m;
-        if m < 3 {
-            break;
-        } else if m == 3 {
-            triangles.push(vertices[0] as u32);
-            triangles.push(vertices[1] as u32);
-            triangles.push(vertices[2] as u32);
-            break;
-        }
+        prev_m = vertices.len();
 
         let mut i = 0;
-        while i < m {
+        while i < vertices.len() {
+            let m = vertices.len();
+            if m < 3 {
+                return triangles;
+            } else if m == 3 {
+                triangles.push(vertices[0] as u32);
+                triangles.push(vertices[1] as u32);
+                triangles.push(vertices[2] as u32);
+                return triangles;
+            }
+
+            let prev = vertices[(m + i - 1).rem_euclid(m)];
             let curr = vertices[i];
-            if concave_points.binary_search(&curr).is_err() {
-                let prev = vertices[(m + i - 1).rem_euclid(m)];
-                let next = vertices[(i + 1).rem_euclid(m)];
-                if is_ear(points, &concave_points, prev, curr, next) {
-                    triangles.push(prev as u32);
-                    triangles.push(curr as u32);
-                    triangles.push(next as u32);
-
-                    let mut to_delete = vec![i];
-
-                    // update concave_points
-                    if let Ok(j) = concave_points.binary_search(&prev) {
-                        let prev_prev = vertices[(m + i - 2).rem_euclid(m)];
-                        match compute_convexity(points[prev_prev], points[prev], points[next]) {
-                            Convexity::Convex => {
-                                concave_points.remove(j);
-                            }
-                            Convexity::Colinear => {
-                                concave_points.remove(j);
-                                to_delete.push((m + i - 1).rem_euclid(m));
-                            }
-                            _ => {}
-                        }
-                    }
-                    if let Ok(j) = concave_points.binary_search(&next) {
-                        let next_next = vertices[(i + 2).rem_euclid(m)];
-                        match compute_convexity(points[prev], points[next], points[next_next]) {
-                            Convexity::Convex => {
-                                concave_points.remove(j);
-                            }
-                            Convexity::Colinear => {
-                                concave_points.remove(j);
-                                to_delete.push((i + 1).rem_euclid(m));
-                            }
-                            _ => {}
-                        }
-                    }
-
-                    // drop ear
-                    to_delete.sort();
-                    to_delete.reverse();
-                    m -= to_delete.len();
-                    for j in to_delete {
-                        vertices.remove(j);
-                    }
-                }
+            let next = vertices[(i + 1).rem_euclid(m)];
+            // an end of a bridge occurs several times with different angles, so it's not enough to look it up in concave_points
+            let convex = matches!(
+                compute_convexity(points[prev], points[curr], points[next]),
+                Convexity::Convex
+            );
+            if convex && is_ear(points, &concave_points, prev, curr, next) {
+                triangles.push(prev as u32);
+                triangles.push(curr as u32);
+                triangles.push(next as u32);
+
+                // drop ear
+                remove_vertex(&mut vertices, &mut concave_points, i);
+                update_vertex(points, &mut vertices, &mut concave_points, i);
+                update_vertex(points, &mut vertices, &mut concave_points, i + m - 2);
             }
             i += 1;
         }
@@ -143,6 +113,45 @@ pub fn trianglate_polygon(
     triangles
 }
 
+fn remove_vertex(vertices: &mut VecDeque<usize>, concave_points: &mut Vec<usize>, position: usize) {
+    if let Some(vertex) = vertices.remove(position) {
+        if !vertices.contains(&vertex) {
+            concave_points.retain(|&other| other != vertex);
+        }
+    }
+}
+
+/// Update the list of concave points after the neighbors of a vertex have changed,
+/// drop the vertex if it became colinear, which may in turn make its neighbors colinear.
+fn update_vertex(
+    points: &[Point2],
+    vertices: &mut VecDeque<usize>,
+    concave_points: &mut Vec<usize>,
+    position: usize,
+) {
+    let m = vertices.len();
+    if m < 3 {
+        return;
+    }
+    let i = position.rem_euclid(m);
+    let prev = vertices[(m + i - 1).rem_euclid(m)];
+    let curr = vertices[i];
+    let next = vertices[(i + 1).rem_euclid(m)];
+    match compute_convexity(points[prev], points[curr], points[next]) {
+        Convexity::Concave => {}
+        Convexity::Convex => {
+            if vertices.iter().filter(|&&other| other == curr).count() == 1 {
+                concave_points.retain(|&other| other != curr);
+            }
+        }
+        Convexity::Colinear => {
+            remove_vertex(vertices, concave_points, i);
+            update_vertex(points, vertices, concave_points, i);
+            update_vertex(points, vertices, concave_points, i + m - 2);
+        }
+    }
+}
+
 #[derive(Debug)]
 enum Convexity {
     Convex,
@@ -176,7 +185,7 @@ fn is_ear(
     next: usize,
 ) -> bool {
     for &other in concave_points {
-        if other != prev && other != next {
+        if other != prev && other != curr && other != next {
             if is_inside_triangle(points[prev], points[curr], points[next], points[other]) {
                 return false;
             }
@@ -208,8 +217,17 @@ pub fn merge_polygons(points: &[Point2], polygons: &[usize]) -> VecDeque<usize>
     let (outer_start, outer_end, _, _) = sorted_polygons.pop().unwrap();
     let mut vertices = VecDeque::with_capacity(points.len() + polygons.len() - 1);
     vertices.extend(outer_start..outer_end);
-    for (start, end, i_max, _) in sorted_polygons.into_iter().rev() {
-        merge_two_polygons(points, &mut vertices, start..end, i_max);
+    while let Some((start, end, i_max, _)) = sorted_polygons.pop() {
+        // edges of the polygons which are not part of the outer polygon yet
+        let edges = sorted_polygons
+            .iter()
+            .map(|&(start, end, _, _)| (start, end))
+            .chain(std::iter::once((start, end)))
+            .flat_map(|(start, end)| {
+                (start..end).map(move |i| (i, if i + 1 < end { i + 1 } else { start }))
+            })
+            .collect::<Vec<_>>();
+        merge_two_polygons(points, &mut vertices, start..end, i_max, &edges);
     }
     vertices
 }
@@ -219,17 +237,15 @@ fn merge_two_polygons(
     outer: &mut VecDeque<usize>,
     inner: std::ops::Range<usize>,
     max_x_index: usize,
+    inner_edges: &[(usize, usize)],
 ) {
     let inner_point = points[max_x_index];
-    // find nearest edge to inner point
+    // find nearest vertex which can be connected to inner point
     let mut min = Float::MAX;
     let mut min_index = 0;
     for i in 0..outer.len() {
-        let distance = inner_point.distance_to_line_segment(
-            points[outer[i]],
-            points[outer[(i + 1).rem_euclid(outer.len())]],
-        );
-        if distance < min {
+        let distance = inner_point.distance_squared(points[outer[i]]);
+        if distance < min && is_bridge(points, outer, i, max_x_index, inner_edges) {
             min = distance;
             min_index = i;
         }
@@ -245,6 +261,51 @@ fn merge_two_polygons(
     }
 }
 
+/// Check if the segment from a vertex of outer polygon to a vertex of inner polygon touches no edge
+fn is_bridge(
+    points: &[Point2],
+    outer: &VecDeque<usize>,
+    i: usize,
+    inner_index: usize,
+    inner_edges: &[(usize, usize)],
+) -> bool {
+    let n = outer.len();
+    let outer_index = outer[i];
+    let (a, b) = (points[outer_index], points[inner_index]);
+    // the segment leaves the vertex towards the interior of outer polygon
+    let prev = points[outer[(n + i - 1).rem_euclid(n)]];
+    let next = points[outer[(i + 1).rem_euclid(n)]];
+    let left_of_prev = (a - prev).perp_dot(b - prev) > 0.0;
+    let left_of_next = (next - a).perp_dot(b - a) > 0.0;
+    let inward = match compute_convexity(prev, a, next) {
+        Convexity::Convex => left_of_prev && left_of_next,
+        _ => left_of_prev || left_of_next,
+    };
+    inward
+        && (0..n)
+            .map(|j| (outer[j], outer[(j + 1).rem_euclid(n)]))
+            .chain(inner_edges.iter().cloned())
+            .filter(|e| {
+                e.0 != outer_index
+                    && e.1 != outer_index
+                    && e.0 != inner_index
+                    && e.1 != inner_index
+            })
+            .all(|e| are_segments_separate(a, b, points[e.0], points[e.1]))
+}
+
+fn are_segments_separate(a: Point2, b: Point2, c: Point2, d: Point2) -> bool {
+    let same_side = |a: Point2, b: Point2, c: Point2, d: Point2| {
+        let p = (b - a).perp_dot(c - a);
+        let q = (b - a).perp_dot(d - a);
+        (p > 0.0 && q > 0.0) || (p < 0.0 && q < 0.0)
+    };
+    // colinear segments are told apart by the edges next to them
+    same_side(a, b, c, d)
+        || same_side(c, d, a, b)
+        || ((b - a).perp_dot(c - a) == 0.0 && (b - a).perp_dot(d - a) == 0.0)
+}
+
 #[test]
 fn test_compute_convexity() {
     let a = Point2::new(7.46852, 258.22396);
-- 
2.43.0


From 05382bc18a2fd7dae31307fbbdcee501ddd8cbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:17 +0000
Subject: [PATCH 12/22] fix: trimming a B-spline surface wrote bound.obj into
 the current directory and printed debug output

---
 src/surface/bspline.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/surface/bspline.rs b/src/surface/bspline.rs
index dbb51a3..79af613 100644
--- a/src/surface/bspline.rs
+++ b/src/surface/bspline.rs
@@ -226,7 +226,6 @@ impl Surface for BSplineSurface<Point3> {
             })
             .flatten()
             .collect::<Vec<_>>();
-        save_bound_as_obj(&vertices, "bound.obj").unwrap();
         let mut points: Vec<Point2> = self.project_points(&vertices);
         let boundary_point_count = points.len();
 
@@ -263,7 +262,6 @@ impl Surface for BSplineSurface<Point3> {
             }
         } else if polygons.len() > 2 {
             // triangulate polygon with holes
-            dbg!(polygons.len());
             let (points, triangles) = utils::generate_triangular_mesh(&points, &polygons);
             vertices.extend(
                 points[boundary_point_count..]
-- 
2.43.0


From cc7f28ed6fdddd9ab05d5a1990ef5e51fdbce654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:17 +0000
Subject: [PATCH 13/22] fix: trimming a cylinder with holes took ring
 coordinates of new points for length and angle

---
 src/surface/cylinder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/surface/cylinder.rs b/src/surface/cylinder.rs
index 4259fed..6490266 100644
--- a/src/surface/cylinder.rs
+++ b/src/surface/cylinder.rs
@@ -114,7 +114,7 @@ impl Surface for Cylinder {
             vertices.extend(
                 points[boundary_point_count..]
                     .iter()
-                    .map(|p| self.get_point(p.x, p.y)),
+                    .map(|&p| self.generate_point_from_ring(p, d)),
             );
             return TriangleMesh {
                 vertices,
-- 
2.43.0


From 5ba9143d33723efae3c2f78382c513edd8e0e026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:17 +0000
Subject: [PATCH 14/22] fix: trimming a cylinder away from its origin mapped
 the loops through infinity or to a thin ring

---
 src/surface/cylinder.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/surface/cylinder.rs b/src/surface/cylinder.rs
index 6490266..cf889b2 100644
--- a/src/surface/cylinder.rs
+++ b/src/surface/cylinder.rs
@@ -70,10 +70,17 @@ impl Surface for Cylinder {
         let points: Vec<Point2> = vertices.iter().map(|v| self.project(*v)).collect();
         let (min_z, max_z) = utils::get_min_max_by_key(&points, |p| p.x);
         let d = (max_z - min_z) * 2.0;
+        // the ring map needs heights between zero and the distance
+        let base = Cylinder {
+            origin: self.origin + self.axis * min_z,
+            axis: self.axis,
+            ref_dir: self.ref_dir,
+            radius: self.radius,
+        };
 
         let mut points: Vec<Point2> = vertices
             .iter()
-            .map(|v| self.project_to_ring(*v, d))
+            .map(|v| base.project_to_ring(*v, d))
             .collect();
         let boundary_point_count = points.len();
 
@@ -83,7 +90,7 @@ impl Surface for Cylinder {
                 vertices.extend(
                     points[boundary_point_count..]
                         .iter()
-                        .map(|&p| self.generate_point_from_ring(p, d)),
+                        .map(|&p| base.generate_point_from_ring(p, d)),
                 );
 
                 return TriangleMesh {
@@ -99,7 +106,7 @@ impl Surface for Cylinder {
                 vertices.extend(
                     points[boundary_point_count..]
                         .iter()
-                        .map(|&p| self.generate_point_from_ring(p, d)),
+                        .map(|&p| base.generate_point_from_ring(p, d)),
                 );
 
                 return TriangleMesh {
@@ -114,7 +121,7 @@ impl Surface for Cylinder {
             vertices.extend(
                 points[boundary_point_count..]
                     .iter()
-                    .map(|&p| self.generate_point_from_ring(p, d)),
+                    .map(|&p| base.generate_point_from_ring(p, d)),
             );
             return TriangleMesh {
                 vertices,
-- 
2.43.0


From 8fc1b21f5aa8bfa78a9d70bf77353584f59bba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:45 +0000
Subject: [PATCH 15/22] fix: trimming a cylinder or B-spline with clockwise
 bounds and holes never ended

---
 src/surface/bspline.rs  |  5 +++++
 src/surface/cylinder.rs |  5 +++++
 src/utils/polygon.rs    | 23 +++++++++++++++++++----
 3 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/src/surface/bspline.rs b/src/surface/bspline.rs
index 79af613..28c19e7 100644
--- a/src/surface/bspline.rs
+++ b/src/surface/bspline.rs
@@ -262,6 +262,11 @@ impl Surface for BSplineSurface<Point3> {
             }
         } else if polygons.len() > 2 {
             // triangulate polygon with holes
+            if !utils::is_outer_polygon_counter_clockwise(&points, &polygons) {
+                vertices.reverse();
+                points.reverse();
+                polygons = polygons.iter().rev().map(|i| end - i).collect();
+            }
             let (points, triangles) = utils::generate_triangular_mesh(&points, &polygons);
             vertices.extend(
                 points[boundary_point_count..]
diff --git a/src/surface/cylinder.rs b/src/surface/cylinder.rs
index cf889b2..622e3c4 100644
--- a/src/surface/cylinder.rs
+++ b/src/surface/cylinder.rs
@@ -117,6 +117,11 @@ impl Surface for Cylinder {
             }
         } else if polygons.len() > 2 {
             // triangulate polygon with holes
+            if !utils::is_outer_polygon_counter_clockwise(&points, &polygons) {
+                vertices.reverse();
+                points.reverse();
+                polygons = polygons.iter().rev().map(|i| end - i).collect();
+            }
             let (points, triangles) = utils::generate_triangular_mesh(&points, &polygons);
             vertices.extend(
                 points[boundary_point_count..]
diff --git a/src/utils/polygon.rs b/src/utils/polygon.rs
index bad4606..aac6912 100644
--- a/src/utils/polygon.rs
+++ b/src/utils/polygon.rs
@@ -12,6 +12,24 @@ pub fn is_polygon_counter_clockwise(points: &[Point2]) -> bool {
     sum < 0.0
 }
 
+/// The polygon reaching furthest in x direction encloses the other ones
+pub fn is_outer_polygon_counter_clockwise(points: &[Point2], polygons: &[usize]) -> bool {
+    let max_x = |polygon: &&[Point2]| {
+        polygon
+            .iter()
+            .fold(Float::MIN, |max, point| max.max(point.x))
+    };
+    polygons
+        .windows(2)
+        .map(|pair| &points[pair[0]..pair[1]])
+        .max_by(|a, b| {
+            max_x(a)
+                .partial_cmp(&max_x(b))
+                .unwrap_or(std::cmp::Ordering::Less)
+        })
+        .map_or(true, is_polygon_counter_clockwise)
+}
+
 pub fn compute_vertex_convexity(points: &[Point2]) -> (VecDeque<usize>, Vec<usize>) {
     let n = points.len();
     let mut vertices = VecDeque::with_capacity(n);
@@ -286,10 +304,7 @@ fn is_bridge(
             .map(|j| (outer[j], outer[(j + 1).rem_euclid(n)]))
             .chain(inner_edges.iter().cloned())
             .filter(|e| {
-                e.0 != outer_index
-                    && e.1 != outer_index
-                    && e.0 != inner_index
-                    && e.1 != inner_index
+                e.0 != outer_index && e.1 != outer_index && e.0 != inner_index && e.1 != inner_index
             })
             .all(|e| are_segments_separate(a, b, points[e.0], points[e.1]))
 }
-- 
2.43.0


From 3dd81107e1dd62420c5784f8c77bb4d05de6f30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:17 +0000
Subject: [PATCH 16/22] fix: flip SVG drawings about the exact page height

---
 src/model.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.rs b/src/model.rs
index a75f71b..f1c6267 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -94,7 +94,7 @@ impl<F: Face> Model<F> {
             .set("height", format!("{}mm", height))
             .set("viewBox", (0, 0, width, height));
         let mut group = Group::new()
-            .set("transform", format!("matrix(1 0 0 -1 0 {:.0})", height))
+            .set("transform", format!("matrix(1 0 0 -1 0 {})", height))
             .set("fill", "none")
             .set("stroke", "black")
             .set("stroke-linecap", "round");
-- 
2.43.0


From 5fbbb1390201cc5ae400095aa2ee2278b126aa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:00 +0000
Subject: [PATCH 17/22] fix: read FACE_OUTER_BOUND bounds of STEP faces

---
 src/model/step_reader.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index a2d9416..54cc7db 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -416,6 +416,18 @@ fn extract_curve_segment(
     return None;
 }
 
+fn get_face_bound<'a>(
+    reader: &'a Ap214Reader,
+    bound_ref: &EntityRef,
+) -> Option<&'a dyn IFaceBound> {
+    if let Some(bound) = reader.get_entity::<FaceOuterBound>(bound_ref) {
+        return Some(bound);
+    }
+    reader
+        .get_entity::<FaceBound>(bound_ref)
+        .map(|bound| bound as &dyn IFaceBound)
+}
+
 pub struct ModelReader {}
 pub type StepModel = Model<TrimmedSurface<Box<dyn Surface>>>;
 
@@ -437,7 +449,7 @@ impl ModelReader {
             if let Some(surface) = extract_surface(&reader, advanced_face) {
                 let mut bounds = Vec::with_capacity(advanced_face.bounds().len());
                 for bound in advanced_face.bounds() {
-                    if let Some(face_bound) = reader.get_entity::<FaceBound>(bound) {
+                    if let Some(face_bound) = get_face_bound(&reader, bound) {
                         if let Some(edge_loop) = reader.get_entity::<EdgeLoop>(face_bound.bound()) {
                             let edges = edge_loop
                                 .edge_list()
-- 
2.43.0


From ce137b647ef1434cd131034bc7435e78c638151b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:01 +0000
Subject: [PATCH 18/22] fix: honour the orientation of edges and bounds in STEP
 files

---
 src/model/step_reader.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 54cc7db..3284e9b 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -416,6 +416,18 @@ fn extract_curve_segment(
     return None;
 }
 
+/// A segment whose orientation is false runs from its end to its start
+fn orient_segment(
+    mut segment: CurveSegment<Box<dyn Curve>>,
+    orientation: bool,
+) -> CurveSegment<Box<dyn Curve>> {
+    if !orientation {
+        let (start, end) = segment.parameter_range;
+        segment.parameter_range = (end, start);
+    }
+    segment
+}
+
 fn get_face_bound<'a>(
     reader: &'a Ap214Reader,
     bound_ref: &EntityRef,
@@ -451,15 +463,24 @@ impl ModelReader {
                 for bound in advanced_face.bounds() {
                     if let Some(face_bound) = get_face_bound(&reader, bound) {
                         if let Some(edge_loop) = reader.get_entity::<EdgeLoop>(face_bound.bound()) {
-                            let edges = edge_loop
+                            let mut edges = edge_loop
                                 .edge_list()
                                 .iter()
                                 .filter_map(|edge| {
                                     reader.get_entity::<OrientedEdge>(edge).and_then(|edge| {
-                                        extract_edge_curve(&reader, edge.edge_element())
+                                        let segment =
+                                            extract_edge_curve(&reader, edge.edge_element())?;
+                                        Some(orient_segment(segment, edge.orientation()))
                                     })
                                 })
                                 .collect::<Vec<_>>();
+                            if !face_bound.orientation() {
+                                edges = edges
+                                    .into_iter()
+                                    .rev()
+                                    .map(|edge| orient_segment(edge, false))
+                                    .collect();
+                            }
                             bounds.push(crate::surface::EdgeLoop { edges });
                         }
                     }
-- 
2.43.0


From e223aa3c5bb069f9a527d8d206e1a936c433646c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:01 +0000
Subject: [PATCH 19/22] fix: take the parameter of a trimmed STEP curve that is
 trimmed by points as well

---
 src/model/step_reader.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 3284e9b..cc10c29 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -6,6 +6,7 @@ use crate::{Float, Grid, KnotVector, Point3, Point4, Vec3, Vec4};
 use iso_10303::step::{EntityRef, Real, StepReader};
 use iso_10303_parts::ap214::*;
 use std::any::Any;
+use std::collections::HashSet;
 
 fn vec3(coordinates: &Vec<Real>) -> Vec3 {
     Vec3::new(
@@ -381,12 +382,14 @@ fn extract_surface(
     return None;
 }
 
-fn get_trimming_parameter_value(measure: &TrimmingSelect) -> Option<f64> {
-    if let TrimmingSelect::ParameterValue(value) = measure {
-        Some(value.0)
-    } else {
-        None
-    }
+fn get_trimming_parameter_value(trim: &HashSet<TrimmingSelect>) -> Option<f64> {
+    trim.iter().find_map(|measure| {
+        if let TrimmingSelect::ParameterValue(value) = measure {
+            Some(value.0)
+        } else {
+            None
+        }
+    })
 }
 
 fn extract_curve_segment(
@@ -396,12 +399,8 @@ fn extract_curve_segment(
     if let Some(segment) = reader.get_entity::<CompositeCurveSegment>(segment_ref) {
         if let Some(trimmed_curve) = reader.get_entity::<TrimmedCurve>(segment.parent_curve()) {
             if let Some(basis_curve) = extract_curve(reader, trimmed_curve.basis_curve()) {
-                let param1 =
-                    get_trimming_parameter_value(trimmed_curve.trim_1().iter().next().unwrap())
-                        .unwrap();
-                let param2 =
-                    get_trimming_parameter_value(trimmed_curve.trim_2().iter().next().unwrap())
-                        .unwrap();
+                let param1 = get_trimming_parameter_value(trimmed_curve.trim_1()).unwrap();
+                let param2 = get_trimming_parameter_value(trimmed_curve.trim_2()).unwrap();
                 let parameter_range = basis_curve
                     .refine_parameter_range((param1, param2), trimmed_curve.sense_agreement());
                 return Some(CurveSegment {
-- 
2.43.0


From e8a1cc287bea895f9331ed99b6c572f63b84436f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:01 +0000
Subject: [PATCH 20/22] fix: honour the sense of segments of STEP composite
 curves

---
 src/model/step_reader.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index cc10c29..ae4a069 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -403,12 +403,13 @@ fn extract_curve_segment(
                 let param2 = get_trimming_parameter_value(trimmed_curve.trim_2()).unwrap();
                 let parameter_range = basis_curve
                     .refine_parameter_range((param1, param2), trimmed_curve.sense_agreement());
-                return Some(CurveSegment {
+                let curve_segment = CurveSegment {
                     curve: basis_curve,
                     parameter_range,
                     tolerance: 0.01,
                     parameter_division: 16,
-                });
+                };
+                return Some(orient_segment(curve_segment, segment.same_sense()));
             }
         }
     }
-- 
2.43.0


From 0296922429b612d9dfe5b9f5e0aec88c22e3d2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:01 +0000
Subject: [PATCH 21/22] fix: derive the axes of STEP placements as unit
 vectors, with their defaults

---
 src/model/step_reader.rs | 55 ++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 25 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index ae4a069..0b7c14d 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -34,22 +34,26 @@ fn vertex_point(reader: &Ap214Reader, vertex_ref: &EntityRef) -> Point3 {
         .unwrap()
 }
 
-fn axis1_placement(reader: &Ap214Reader, placement_ref: &EntityRef) -> (Point3, Option<Vec3>) {
+/// Normalized direction, only the ratios of its components are significant
+fn extract_direction(reader: &Ap214Reader, direction_ref: &Option<EntityRef>) -> Option<Vec3> {
+    direction_ref
+        .as_ref()
+        .and_then(|direction| reader.get_entity::<Direction>(direction))
+        .map(|direction| vec3(direction.direction_ratios()).normalize())
+}
+
+fn axis1_placement(reader: &Ap214Reader, placement_ref: &EntityRef) -> (Point3, Vec3) {
     let placement = reader.get_entity::<Axis1Placement>(placement_ref).unwrap();
     let location = reader
         .get_entity::<CartesianPoint>(placement.location())
         .map(|point| vec3(point.coordinates()))
         .unwrap();
-    let axis = reader
-        .get_entity::<Direction>(placement.axis().as_ref().unwrap())
-        .map(|direction| vec3(direction.direction_ratios()));
+    let axis = extract_direction(reader, placement.axis()).unwrap_or(Vec3::Z);
     (location, axis)
 }
 
-fn axis2_placement_3d(
-    reader: &Ap214Reader,
-    placement_ref: &EntityRef,
-) -> (Point3, Option<Vec3>, Option<Vec3>) {
+/// Returns location, z axis and x axis
+fn axis2_placement_3d(reader: &Ap214Reader, placement_ref: &EntityRef) -> (Point3, Vec3, Vec3) {
     let placement = reader
         .get_entity::<Axis2Placement3d>(placement_ref)
         .unwrap();
@@ -57,12 +61,17 @@ fn axis2_placement_3d(
         .get_entity::<CartesianPoint>(placement.location())
         .map(|point| vec3(point.coordinates()))
         .unwrap();
-    let z_axis = reader
-        .get_entity::<Direction>(placement.axis().as_ref().unwrap())
-        .map(|direction| vec3(direction.direction_ratios()));
-    let x_axis = reader
-        .get_entity::<Direction>(placement.ref_direction().as_ref().unwrap())
-        .map(|direction| vec3(direction.direction_ratios()));
+    let z_axis = extract_direction(reader, placement.axis()).unwrap_or(Vec3::Z);
+    let ref_direction =
+        extract_direction(reader, placement.ref_direction()).unwrap_or_else(|| {
+            if z_axis.cross(Vec3::X).length_squared() > 0.0 {
+                Vec3::X
+            } else {
+                Vec3::Y
+            }
+        });
+    // the x axis is the reference direction projected on the plane normal to the z axis
+    let x_axis = (ref_direction - z_axis * ref_direction.dot(z_axis)).normalize();
     (location, z_axis, x_axis)
 }
 
@@ -141,8 +150,8 @@ fn extract_curve(reader: &Ap214Reader, curve_ref: &EntityRef) -> Option<Box<dyn
         let (center, axis, ref_dir) = axis2_placement_3d(reader, circle.position());
         return Some(Box::new(crate::curve::Circle {
             center,
-            axis: axis.unwrap(),
-            ref_dir: ref_dir.unwrap().normalize(),
+            axis,
+            ref_dir,
             radius: circle.radius().0,
         }));
     }
@@ -197,12 +206,8 @@ fn extract_surface(
     let same_sense = face.same_sense();
     if let Some(plane) = reader.get_entity::<Plane>(face.face_geometry()) {
         let (origin, z_axis, x_axis) = axis2_placement_3d(reader, plane.position());
-        let normal = if same_sense {
-            z_axis.unwrap()
-        } else {
-            -z_axis.unwrap()
-        };
-        let u_axis = x_axis.unwrap();
+        let normal = if same_sense { z_axis } else { -z_axis };
+        let u_axis = x_axis;
         let surface = crate::surface::Plane {
             origin,
             normal,
@@ -219,8 +224,8 @@ fn extract_surface(
         let (origin, axis, ref_dir) = axis2_placement_3d(reader, cylinder.position());
         let surface = crate::surface::Cylinder {
             origin,
-            axis: axis.unwrap(),
-            ref_dir: ref_dir.unwrap().normalize(),
+            axis,
+            ref_dir,
             radius: cylinder.radius().0,
         };
         return Some(SurfacePatch {
@@ -369,7 +374,7 @@ fn extract_surface(
             let (origin, axis) = axis1_placement(reader, revolution.axis_position());
             let surface = crate::surface::SpinSurface {
                 origin,
-                axis: axis.unwrap(),
+                axis,
                 section,
             };
             return Some(SurfacePatch {
-- 
2.43.0


From 83fd5903b480a053f094b20d85127eefa661862c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:02 +0000
Subject: [PATCH 22/22] fix: scale lines of STEP files by the magnitude of
 their vector

---
 src/model/step_reader.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/model/step_reader.rs b/src/model/step_reader.rs
index 0b7c14d..f2ee1ed 100644
--- a/src/model/step_reader.rs
+++ b/src/model/step_reader.rs
@@ -141,8 +141,10 @@ fn extract_curve(reader: &Ap214Reader, curve_ref: &EntityRef) -> Option<Box<dyn
             .unwrap();
         let direction = reader
             .get_entity::<Vector>(line.dir())
-            .and_then(|vector| reader.get_entity::<Direction>(vector.orientation()))
-            .map(|dir| vec3(dir.direction_ratios()))
+            .and_then(|vector| {
+                let dir = reader.get_entity::<Direction>(vector.orientation())?;
+                Some(vec3(dir.direction_ratios()).normalize() * vector.magnitude().0)
+            })
             .unwrap();
         return Some(Box::new(crate::curve::Line { origin, direction }));
     }
-- 
2.43.0

