From 63557e466e404b54c600446d816671bfcfa4825b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:32 +0000
Subject: [PATCH 01/11] fix: a single-point segment off the other segment does
 not intersect it

LineSegmentView::intersect took every segment to be colinear with a
single-point 'self' and reported an overlap whenever the point fell in the
lexicographic range of the other segment, e.g. (0,0)..=(0,0) and
(-1,5)..=(1,5).
---
 src/data/line_segment.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/line_segment.rs b/src/data/line_segment.rs
index f0a49a5..853d153 100644
--- a/src/data/line_segment.rs
+++ b/src/data/line_segment.rs
@@ -299,7 +299,9 @@ where
     //   inner_between(self.min.inner(), other.min.as_ref(), other.max.as_ref()),
     //   inner_between(self.max.inner(), other.min.as_ref(), other.max.as_ref()),
     // );
-    if l1_to_b1 == CoLinear && l1_to_b2 == CoLinear {
+    // If 'self' is a single point then every 'other' is colinear with it, so 'self' must
+    // also be on the line through 'other'.
+    if l1_to_b1 == CoLinear && l1_to_b2 == CoLinear && l2_to_a1 == CoLinear {
       let c_min = self.min.rightmost(other.min);
       let c_max = self.max.leftmost(other.max);
       let order = c_min.inner().cmp(c_max.inner());
-- 
2.43.0


From 3c30ce492996381801c91ffb1bc686ae064719d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:14 +0000
Subject: [PATCH 02/11] fix: perpendicular vector of rug::Integer points

The counter-clockwise perpendicular of (x,y) is (-y,x), as for every other
scalar type.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d98de17..fa9943c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -461,7 +461,7 @@ impl PolygonScalar for rug::Integer {
     PolygonScalar::cmp_slope(p, &[new_x, new_y], q)
   }
   fn cmp_perp_vector_slope(vector: &[Self; 2], p: &[Self; 2], q: &[Self; 2]) -> std::cmp::Ordering {
-    let new_x = rug::Integer::from(&p[0] + &vector[1]);
+    let new_x = rug::Integer::from(&p[0] - &vector[1]);
     let new_y = rug::Integer::from(&p[1] + &vector[0]);
     PolygonScalar::cmp_slope(p, &[new_x, new_y], q)
   }
-- 
2.43.0


From 68713eec4aa3ea99d4e3301a045d5d4df0b39f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:52 +0000
Subject: [PATCH 03/11] fix: PolygonConvex::locate reported points on internal
 diagonals as boundary points

---
 src/data/polygon/convex.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/data/polygon/convex.rs b/src/data/polygon/convex.rs
index 8678c42..a9316e6 100644
--- a/src/data/polygon/convex.rs
+++ b/src/data/polygon/convex.rs
@@ -58,7 +58,18 @@ where
     let p1 = poly.point(vertices[lower]);
     let p2 = poly.point(vertices[upper]);
     let triangle = TriangleView::new_unchecked([p0, p1, p2]);
-    triangle.locate(pt)
+    match triangle.locate(pt) {
+      // The edge from p2 to p0 is an internal diagonal of the polygon (and not part of its
+      // boundary) unless p2 is the last vertex.
+      PointLocation::OnBoundary
+        if upper + 1 < vertices.len()
+          && Point::orient(p0, p1, pt) == Orientation::CounterClockWise
+          && Point::orient(p1, p2, pt) == Orientation::CounterClockWise =>
+      {
+        PointLocation::Inside
+      }
+      location => location,
+    }
   }
 
   /// Validates the following properties:
-- 
2.43.0


From e5970f3782deb0637a2acac3d3546e11a9703b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:43 +0000
Subject: [PATCH 04/11] fix: gift wrapping looped forever when the lowest point
 was repeated

---
 src/algorithms/convex_hull/gift_wrapping.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/convex_hull/gift_wrapping.rs b/src/algorithms/convex_hull/gift_wrapping.rs
index c43b60d..a667d97 100644
--- a/src/algorithms/convex_hull/gift_wrapping.rs
+++ b/src/algorithms/convex_hull/gift_wrapping.rs
@@ -106,7 +106,8 @@ where
     }
 
     p = q;
-    if p == leftmost {
+    // Compare points rather than indices since the leftmost point may be repeated.
+    if pts[p] == pts[leftmost] {
       break;
     }
   }
-- 
2.43.0


From a57bdb41d5790feae240478149f95594bec26a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:43 +0000
Subject: [PATCH 05/11] fix: melkman hull followed storage order instead of
 boundary order

---
 src/algorithms/convex_hull/melkman.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms/convex_hull/melkman.rs b/src/algorithms/convex_hull/melkman.rs
index e2879d9..be304da 100644
--- a/src/algorithms/convex_hull/melkman.rs
+++ b/src/algorithms/convex_hull/melkman.rs
@@ -15,7 +15,7 @@ where
 {
   let mut convex_hull: VecDeque<&Point<T, 2>> = VecDeque::new();
   let mut last_idx = 0;
-  for p in polygon.iter() {
+  for p in polygon.iter_boundary().map(|cursor| cursor.point()) {
     // Creat a deque with the first 3 points
     if convex_hull.len() < 2 {
       convex_hull.push_back(p);
-- 
2.43.0


From 8943e7fbd1f93c748474c962b9f34f54be8599ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:14 +0000
Subject: [PATCH 06/11] fix: CursorIter::next_back steps backwards

---
 src/data/polygon/iter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data/polygon/iter.rs b/src/data/polygon/iter.rs
index 0186f3a..53d58a2 100644
--- a/src/data/polygon/iter.rs
+++ b/src/data/polygon/iter.rs
@@ -116,7 +116,7 @@ impl<T> DoubleEndedIterator for CursorIter<'_, T> {
       if out == self.cursor_head {
         self.exhausted = true;
       } else {
-        self.cursor_tail.move_next();
+        self.cursor_tail.move_prev();
       }
       Some(out)
     }
-- 
2.43.0


From 2c7240a25e9ababf22be7a67613cb07f4c33baca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:14 +0000
Subject: [PATCH 07/11] fix: an exhausted CursorIter has no remaining elements

---
 src/data/polygon/iter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data/polygon/iter.rs b/src/data/polygon/iter.rs
index 53d58a2..602390c 100644
--- a/src/data/polygon/iter.rs
+++ b/src/data/polygon/iter.rs
@@ -97,6 +97,9 @@ impl<'a, T> Iterator for CursorIter<'a, T> {
 
 impl<T> ExactSizeIterator for CursorIter<'_, T> {
   fn len(&self) -> usize {
+    if self.exhausted {
+      return 0;
+    }
     let pos_head = self.cursor_head.position;
     let pos_tail = self.cursor_tail.position;
     if pos_head.position_id.0 <= pos_tail.position_id.0 {
-- 
2.43.0


From be1ffc252f8e3ceeb50bcc1c7432ec6855b12643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:57 +0000
Subject: [PATCH 08/11] fix: monotone construction ran its chord through points
 lying on it

---
 src/algorithms/polygonization/monotone.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/algorithms/polygonization/monotone.rs b/src/algorithms/polygonization/monotone.rs
index f59210d..acc442c 100644
--- a/src/algorithms/polygonization/monotone.rs
+++ b/src/algorithms/polygonization/monotone.rs
@@ -75,11 +75,20 @@ where
     points.last().unwrap().clone(),
   );
 
+  // Points on the line between the two extremes are put in the counter-clockwise
+  // chain, unless that line is itself the other chain and would pass through them.
+  let line_is_chain = !points
+    .iter()
+    .any(|pt| Orientation::new(&min_point, &max_point, pt).is_cw());
+
   let mut polygon_points: VecDeque<Point<T, 2>> = VecDeque::new();
 
   while let Some(curr) = points.pop() {
     match Orientation::new(&min_point, &max_point, &curr) {
       Orientation::ClockWise => polygon_points.push_front(curr),
+      Orientation::CoLinear if line_is_chain && curr != min_point && curr != max_point => {
+        polygon_points.push_front(curr)
+      }
       _ => polygon_points.push_back(curr),
     }
   }
-- 
2.43.0


From f854abb27027fbbf452bb91ca40477dd88712a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:05 +0000
Subject: [PATCH 09/11] fix: visibility polygon with several vertices in the
 same direction

---
 src/algorithms/visibility/naive.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/algorithms/visibility/naive.rs b/src/algorithms/visibility/naive.rs
index 55aa6f0..ea16384 100644
--- a/src/algorithms/visibility/naive.rs
+++ b/src/algorithms/visibility/naive.rs
@@ -95,7 +95,13 @@ where
 {
   // FIXME: We want to iterate over all vertices, not just boundary vertices.
   let mut vertices: Vec<Cursor<'_, T>> = polygon.iter_boundary().collect();
-  vertices.sort_by(|a, b| point.ccw_cmp_around(a, b));
+  vertices.sort_by(|a, b| {
+    point
+      .ccw_cmp_around(a, b)
+      .then_with(|| point.cmp_distance_to(a, b))
+  });
+  // Vertices in the same direction share the same two rays. Only look at the nearest of them.
+  vertices.dedup_by(|b, a| point.ccw_cmp_around(a, b) == Ordering::Equal);
 
   let mut polygon_points = Vec::new();
   for vertex in vertices {
-- 
2.43.0


From dfbac174075348f72b96a765cb1b582bba12cc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 10/11] fix: negative zero treated as a different coordinate
 from zero

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index fa9943c..ce15cae 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -347,7 +347,8 @@ macro_rules! floating_precision {
     $(
       impl TotalOrd for $ty {
         fn total_cmp(&self, other: &Self) -> Ordering {
-          <$ty>::total_cmp(self, other)
+          // Negative zero and positive zero are the same coordinate.
+          <$ty>::total_cmp(&(*self + 0.0), &(*other + 0.0))
         }
       }
 
-- 
2.43.0


From 7030d71425f2b7aaa97bf95487e29532dea80ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:42 +0000
Subject: [PATCH 11/11] fix: orientation of floats whose products overflow or
 underflow

---
 src/lib.rs | 44 ++++++++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ce15cae..24a8ae7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -307,18 +307,11 @@ macro_rules! wrapped_floating_precision {
       // quickly compute the orientation of three 2D points. This is about 10x-50x slower
       // than the inexact version.
       fn cmp_slope(p: &[Self; 2], q: &[Self; 2], r: &[Self; 2]) -> std::cmp::Ordering {
-        let orient = geometry_predicates::predicates::orient2d(
+        cmp_slope_f64(
           [p[0].into_inner() as f64, p[1].into_inner() as f64],
           [q[0].into_inner() as f64, q[1].into_inner() as f64],
           [r[0].into_inner() as f64, r[1].into_inner() as f64],
-        );
-        if orient > 0.0 {
-          Ordering::Greater
-        } else if orient < 0.0 {
-          Ordering::Less
-        } else {
-          Ordering::Equal
-        }
+        )
       }
       // FIXME: Use `geometry_predicates` to speed up calculation. Right now we're
       // roughly 100x slower than necessary.
@@ -370,18 +363,11 @@ macro_rules! floating_precision {
       // quickly compute the orientation of three 2D points. This is about 10x-50x slower
       // than the inexact version.
       fn cmp_slope(p: &[Self; 2], q: &[Self; 2], r: &[Self; 2]) -> std::cmp::Ordering {
-        let orient = geometry_predicates::predicates::orient2d(
+        cmp_slope_f64(
           [p[0] as f64, p[1] as f64],
           [q[0] as f64, q[1] as f64],
           [r[0] as f64, r[1] as f64],
-        );
-        if orient > 0.0 {
-          Ordering::Greater
-        } else if orient < 0.0 {
-          Ordering::Less
-        } else {
-          Ordering::Equal
-        }
+        )
       }
       // FIXME: Use `geometry_predicates` to speed up calculation. Right now we're
       // roughly 100x slower than necessary.
@@ -472,5 +458,27 @@ fn float_to_rational(f: impl num::traits::float::FloatCore) -> num::BigRational
   num::BigRational::from_float(f).expect("cannot convert NaN or infinite to exact precision number")
 }
 
+fn cmp_slope_f64(p: [f64; 2], q: [f64; 2], r: [f64; 2]) -> Ordering {
+  // `orient2d` is exact as long as the products of the coordinates neither overflow nor
+  // underflow. Use arbitrary precision outside of that range.
+  let in_range = |c: &f64| *c == 0.0 || (1e-130..1e150).contains(&c.abs());
+  if [p, q, r].iter().flatten().all(in_range) {
+    let orient = geometry_predicates::predicates::orient2d(p, q, r);
+    if orient > 0.0 {
+      Ordering::Greater
+    } else if orient < 0.0 {
+      Ordering::Less
+    } else {
+      Ordering::Equal
+    }
+  } else {
+    PolygonScalar::cmp_slope(
+      &p.map(float_to_rational),
+      &q.map(float_to_rational),
+      &r.map(float_to_rational),
+    )
+  }
+}
+
 #[cfg(test)]
 pub mod testing;
-- 
2.43.0

