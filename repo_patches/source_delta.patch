From 3b5f332d0ff2b615bce042e9c00b5457906b5581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:20 +0000
Subject: [PATCH 01/60] fix: pivot and divide when eliminating in orient

The elimination stopped with zero as soon as a diagonal entry was zero.
It also left a factor of earlier pivots in the result, which flipped the sign
for negative pivots. Swap rows to find a pivot and divide by the previous one.
---
 src/kernel/orientation.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/kernel/orientation.rs b/src/kernel/orientation.rs
index cdb4ffe..a2f3684 100755
--- a/src/kernel/orientation.rs
+++ b/src/kernel/orientation.rs
@@ -41,20 +41,25 @@ where
     let mut m: [[T; N]; N] =
         from_fn(|row| from_fn(|col| &p[row + 1].coords[col] - &p[0].coords[col]));
 
-    // 2. Fraction-free Gaussian elimination → determinant in `det`
-    let mut det = T::one(); // running ±product of pivots
+    // 2. Fraction-free (Bareiss) elimination: the last pivot is ±determinant
+    let mut prev = T::one(); // pivot of the previous step
+    let mut negate = false; // one sign change per row swap
     for k in 0..N {
-        // pivot = m[k][k];  if zero, determinant is zero
-        if m[k][k].abs() == T::zero() {
+        // any row with a non-zero entry can be the pivot row;  if none, determinant is zero
+        let Some(r) = (k..N).find(|&r| m[r][k].abs() != T::zero()) else {
             return T::zero();
+        };
+        if r != k {
+            m.swap(r, k);
+            negate = !negate;
         }
         for i in (k + 1)..N {
             for j in (k + 1)..N {
-                //   m[i][j] = m[i][j] * pivot - m[i][k] * m[k][j];
-                m[i][j] = &(&m[i][j] * &m[k][k]) - &(&m[i][k] * &m[k][j]);
+                //   m[i][j] = (m[i][j] * pivot - m[i][k] * m[k][j]) / prev;
+                m[i][j] = (&(&m[i][j] * &m[k][k]) - &(&m[i][k] * &m[k][j])) / prev.clone();
             }
         }
-        det = det * m[k][k].clone();
+        prev = m[k][k].clone();
     }
-    det
+    if negate { -prev } else { prev }
 }
-- 
2.43.0


From 9eaf49cd1e650f057b93b75a8c79f6002e0989ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:28 +0000
Subject: [PATCH 02/60] fix: accept the start point in is_point_on_segment

The collinearity test was called with the query point and the segment start
first. That pair is degenerate when the two coincide, so the start point of a
segment was reported as not being on it.
---
 src/kernel/predicates.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernel/predicates.rs b/src/kernel/predicates.rs
index 84d6cf3..8c9fb48 100755
--- a/src/kernel/predicates.rs
+++ b/src/kernel/predicates.rs
@@ -134,8 +134,8 @@ where
         + Div<&'a T, Output = T>,
     T: PartialOrd, // needed for comparisons inside the loop
 {
-    // 1.  If P, A, B are not collinear, P cannot lie on AB
-    if !are_collinear(p, &seg.a, &seg.b) {
+    // 1.  If A, B, P are not collinear, P cannot lie on AB
+    if !are_collinear(&seg.a, &seg.b, p) {
         return false;
     }
 
-- 
2.43.0


From 857c42791205c1c70916ff750087809bc100b892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:02 +0000
Subject: [PATCH 03/60] fix: classify points beyond an edge as outside the
 triangle

The near-edge shortcut reported any point on the line of an edge as being on
the edge, including points beyond its ends. The general classification already
handles points on the boundary, so use it for all points.
---
 src/kernel/predicates.rs | 32 +-------------------------------
 1 file changed, 1 insertion(+), 31 deletions(-)

diff --git a/src/kernel/predicates.rs b/src/kernel/predicates.rs
index 8c9fb48..a959ca0 100755
--- a/src/kernel/predicates.rs
+++ b/src/kernel/predicates.rs
@@ -27,8 +27,7 @@ use crate::geometry::util::EPS;
 use crate::geometry::vector::{Cross3, VectorOps};
 use crate::geometry::{Point2, Point3};
 use crate::geometry::{point::Point, vector::Vector};
-use crate::numeric::cgar_f64::CgarF64;
-use crate::numeric::scalar::{RefInto, Scalar};
+use crate::numeric::scalar::Scalar;
 use std::ops::{Add, Div, Mul, Sub};
 
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
@@ -355,15 +354,6 @@ where
         + Mul<&'a T, Output = T>
         + Div<&'a T, Output = T>,
 {
-    #[inline(always)]
-    fn near_edge_approx<TS: Scalar>(e0: &TS, e1: &TS, e2: &TS) -> bool {
-        let eps = RefInto::<CgarF64>::ref_into(&TS::query_tolerance()).0;
-        let e0f = RefInto::<CgarF64>::ref_into(e0).0;
-        let e1f = RefInto::<CgarF64>::ref_into(e1).0;
-        let e2f = RefInto::<CgarF64>::ref_into(e2).0;
-        e0f.abs() <= eps || e1f.abs() <= eps || e2f.abs() <= eps
-    }
-
     #[inline(always)]
     fn classify_from_edges<TS: Scalar + PartialOrd>(e0: &TS, e1: &TS, e2: &TS) -> TrianglePoint {
         let zero = TS::zero();
@@ -421,17 +411,6 @@ where
         let e1 = &(&bcx * &bpy) - &(&bcy * &bpx);
         let e2 = &(&cax * &cpy) - &(&cay * &cpx);
 
-        // near-edge fast path -> confirm exact boundary kind
-        if near_edge_approx::<T>(&e0, &e1, &e2) && (e0.is_zero() || e1.is_zero() || e2.is_zero()) {
-            // figure out vertex vs edge by zero-count
-            let zc = (e0.is_zero() as u8) + (e1.is_zero() as u8) + (e2.is_zero() as u8);
-            return if zc >= 2 {
-                TrianglePoint::OnVertex
-            } else {
-                TrianglePoint::OnEdge
-            };
-        }
-
         return classify_from_edges(&e0, &e1, &e2);
     } else if N == 3 {
         // normal and degeneracy
@@ -453,15 +432,6 @@ where
         let e1 = bc.cross(&bp).dot(&n);
         let e2 = ca.cross(&cp).dot(&n);
 
-        if near_edge_approx::<T>(&e0, &e1, &e2) && (e0.is_zero() || e1.is_zero() || e2.is_zero()) {
-            let zc = (e0.is_zero() as u8) + (e1.is_zero() as u8) + (e2.is_zero() as u8);
-            return if zc >= 2 {
-                TrianglePoint::OnVertex
-            } else {
-                TrianglePoint::OnEdge
-            };
-        }
-
         return classify_from_edges(&e0, &e1, &e2);
     } else {
         panic!("point_in_or_on_triangle only supports N = 2 or N = 3");
-- 
2.43.0


From 7c20f9e7da6f46765d399b55dbd627c3bfbc1ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:52 +0000
Subject: [PATCH 04/60] fix: report the shared part of collinear segments only

Collinear segments that do not meet were reported as overlapping in the gap
between them. Segments meeting in a single point were reported as a zero-length
overlap. The shared range is now computed from the two segments' own ends.
---
 src/geometry/intersection.rs | 80 ++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 35 deletions(-)

diff --git a/src/geometry/intersection.rs b/src/geometry/intersection.rs
index 3344e35..8c63059 100755
--- a/src/geometry/intersection.rs
+++ b/src/geometry/intersection.rs
@@ -64,6 +64,41 @@ where
     }
 }
 
+/// Shared part of the collinear segments `ab` and `cd`, from its lower to its upper end
+/// in lexicographic order; both ends are the same point if they only touch there.
+/// Returns `None` if they do not meet.
+fn collinear_overlap<'p, T: Scalar, const N: usize>(
+    a: &'p Point<T, N>,
+    b: &'p Point<T, N>,
+    c: &'p Point<T, N>,
+    d: &'p Point<T, N>,
+) -> Option<(&'p Point<T, N>, &'p Point<T, N>)> {
+    let less = |p: &Point<T, N>, q: &Point<T, N>| {
+        for i in 0..N {
+            if p[i] < q[i] {
+                return true;
+            }
+            if p[i] > q[i] {
+                return false;
+            }
+        }
+        false
+    };
+
+    let (lo1, hi1) = if less(b, a) { (b, a) } else { (a, b) };
+    let (lo2, hi2) = if less(d, c) { (d, c) } else { (c, d) };
+    let lo = if less(lo1, lo2) { lo2 } else { lo1 };
+    let hi = if less(hi2, hi1) { hi2 } else { hi1 };
+
+    if less(hi, lo) {
+        None
+    } else if less(lo, hi) {
+        Some((lo, hi))
+    } else {
+        Some((lo, lo))
+    }
+}
+
 pub fn segment_segment_intersection_2<T>(
     seg1: &Segment2<T>,
     seg2: &Segment2<T>,
@@ -121,20 +156,11 @@ where
         // Collinear case
         if are_collinear(&a, &b, &c) {
             // Compute overlapping segment
-            let mut pts = [a, b, c, d];
-            pts.sort_by(|p1, p2| {
-                p1[0]
-                    .partial_cmp(&p2[0])
-                    .unwrap_or(std::cmp::Ordering::Equal)
-                    .then(
-                        p1[1]
-                            .partial_cmp(&p2[1])
-                            .unwrap_or(std::cmp::Ordering::Equal),
-                    )
-            });
-
-            let s = Segment2::new(&pts[1], &pts[2]);
-            return SegmentIntersection2::Overlapping(s);
+            return match collinear_overlap(a, b, c, d) {
+                None => SegmentIntersection2::None,
+                Some((lo, hi)) if lo == hi => SegmentIntersection2::Point(lo.clone()),
+                Some((lo, hi)) => SegmentIntersection2::Overlapping(Segment2::new(lo, hi)),
+            };
         }
     }
 
@@ -219,27 +245,11 @@ where
     } else {
         // Segments are parallel — handle collinear case
         if are_collinear(p1, p2, q1) {
-            // Sort points by x (then y then z)
-            let mut pts = [p1, p2, q1, q2];
-            pts.sort_by(|p1, p2| {
-                p1[0]
-                    .partial_cmp(&p2[0])
-                    .unwrap_or(std::cmp::Ordering::Equal)
-                    .then(
-                        p1[1]
-                            .partial_cmp(&p2[1])
-                            .unwrap_or(std::cmp::Ordering::Equal),
-                    )
-                    .then(
-                        p1[2]
-                            .partial_cmp(&p2[2])
-                            .unwrap_or(std::cmp::Ordering::Equal),
-                    )
-            });
-            return SegmentIntersection3::Overlapping(Segment3 {
-                a: pts[1].clone(),
-                b: pts[2].clone(),
-            });
+            return match collinear_overlap(p1, p2, q1, q2) {
+                None => SegmentIntersection3::None,
+                Some((lo, hi)) if lo == hi => SegmentIntersection3::Point(lo.clone()),
+                Some((lo, hi)) => SegmentIntersection3::Overlapping(Segment3::new(lo, hi)),
+            };
         }
 
         return SegmentIntersection3::None;
-- 
2.43.0


From 80abbacd8d8da1275395732eeb8cf99bac2d3701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:52 +0000
Subject: [PATCH 05/60] fix: require edge_edge_intersection_2 to hit both
 segments

The parameter along the first segment had the wrong sign, so crossing edges
were missed. The parameter along the second segment was not checked at all.
---
 src/geometry/edge_edge_intersect.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/geometry/edge_edge_intersect.rs b/src/geometry/edge_edge_intersect.rs
index ed0bdd2..94d5bc7 100644
--- a/src/geometry/edge_edge_intersect.rs
+++ b/src/geometry/edge_edge_intersect.rs
@@ -44,13 +44,16 @@ where
         return None; // Parallel lines
     }
 
-    let d2 = (p1[0].clone() - p3[0].clone()) * (p4[1].clone() - p3[1].clone())
-        - (p1[1].clone() - p3[1].clone()) * (p4[0].clone() - p3[0].clone());
+    let d2 = (p3[0].clone() - p1[0].clone()) * (p4[1].clone() - p3[1].clone())
+        - (p3[1].clone() - p1[1].clone()) * (p4[0].clone() - p3[0].clone());
+    let d3 = (p3[0].clone() - p1[0].clone()) * (p2[1].clone() - p1[1].clone())
+        - (p3[1].clone() - p1[1].clone()) * (p2[0].clone() - p1[0].clone());
 
     let t = d2 / d1.clone();
+    let u = d3 / d1.clone();
 
     // Check if intersection is within both line segments
-    if t >= T::zero() && t <= T::one() {
+    if t >= T::zero() && t <= T::one() && u >= T::zero() && u <= T::one() {
         let x = p1[0].clone() + t.clone() * (p2[0].clone() - p1[0].clone());
         let y = p1[1].clone() + t * (p2[1].clone() - p1[1].clone());
         Some(Point::<T, N>::from_vals(from_fn(|i| match i {
-- 
2.43.0


From 63b1509cdf57eb7c1dc7cba58892e1d0e247c73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:12 +0000
Subject: [PATCH 06/60] fix: place triangle intersection points in the common
 plane

Points found in the projected plane were lifted back with the dropped
coordinate of a reference vertex. They left the plane whenever it was tilted
against that axis. Lift through the plane equation, and clip segments in 3D.
---
 src/geometry/tri_tri_intersect.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/geometry/tri_tri_intersect.rs b/src/geometry/tri_tri_intersect.rs
index 4456f51..5d1b2a0 100644
--- a/src/geometry/tri_tri_intersect.rs
+++ b/src/geometry/tri_tri_intersect.rs
@@ -174,6 +174,13 @@ where
 
     // 2) build 2D points
     let to2d = |p: &Point<T, N>| project_to_2d(p, i0, i1);
+    // lift a 2D point back onto the common plane through p[2] with normal n
+    let to3d = |r: &Point2<T>| {
+        let mut r3 = back_project_to_3d(r, i0, i1, drop, p[2]);
+        let off = n.dot(&(&r3 - p[2]).as_vector());
+        r3[drop] = &r3[drop] - &(&off / &n[drop]);
+        r3
+    };
     let t1 = [to2d(&p[2]), to2d(&p[0]), to2d(&p[1])];
     let t2 = [to2d(&q[2]), to2d(&q[0]), to2d(&q[1])];
 
@@ -181,12 +188,12 @@ where
     let mut pts: Vec<Point<T, N>> = Vec::new();
     for point in &t1 {
         if point_in_tri_2d(point, &t2) {
-            pts.push(back_project_to_3d(point, i0, i1, drop, p[2]));
+            pts.push(to3d(point));
         }
     }
     for point in &t2 {
         if point_in_tri_2d(point, &t1) {
-            pts.push(back_project_to_3d(point, i0, i1, drop, q[2]));
+            pts.push(to3d(point));
         }
     }
 
@@ -196,8 +203,7 @@ where
     for (a, b) in &edges1 {
         for (c, d) in &edges2 {
             if let Some(s) = segment_intersect_2d(a, b, c, d) {
-                // Here we use p0 as the reference for the dropped axis, but you could interpolate if desired
-                pts.push(back_project_to_3d(&s.a, i0, i1, drop, &p[2]));
+                pts.push(to3d(&s.a));
             }
         }
     }
@@ -230,9 +236,7 @@ where
             for w in 0..hull_idx.len() {
                 let i = hull_idx[w];
                 let j = hull_idx[(w + 1) % hull_idx.len()];
-                let a3 = back_project_to_3d(&pts2d[i], i0, i1, drop, p[2]);
-                let b3 = back_project_to_3d(&pts2d[j], i0, i1, drop, p[2]);
-                segs.push(Segment::new(&a3, &b3));
+                segs.push(Segment::new(&uniq[i], &uniq[j]));
             }
             TriTriIntersectionResult::CoplanarPolygon(segs)
         }
@@ -661,7 +665,7 @@ where
         + Add<&'a T, Output = T>
         + Div<&'a T, Output = T>,
 {
-    let (i0, i1, drop) = coplanar_axes(n);
+    let (i0, i1, _drop) = coplanar_axes(n);
     let a = project_to_2d(a3, i0, i1);
     let b = project_to_2d(b3, i0, i1);
     let t = [
@@ -749,12 +753,8 @@ where
         return None;
     }
 
-    let lerp3 = |t: &T| {
-        let ox = &dx * t;
-        let oy = &dy * t;
-        let p2 = Point2::<T>::from_vals([&a[0] + &ox, &a[1] + &oy]);
-        back_project_to_3d::<T, N>(&p2, i0, i1, drop, a3) // drop axis from a3
-    };
+    let dir = (b3 - a3).as_vector();
+    let lerp3 = |t: &T| a3.add_vector(&dir.scale(t));
     let pa = lerp3(&t0);
     let pb = lerp3(&t1);
     if (&pb - &pa)
-- 
2.43.0


From 50d3f1e2d9f92f118145a7653623fb57b5726e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:43 +0000
Subject: [PATCH 07/60] fix: report coplanar triangles that touch in one point

The documented result for a point contact is a segment with equal ends, but
triangles in one plane sharing a single point were reported as disjoint.
---
 src/geometry/tri_tri_intersect.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/geometry/tri_tri_intersect.rs b/src/geometry/tri_tri_intersect.rs
index 5d1b2a0..c5086e1 100644
--- a/src/geometry/tri_tri_intersect.rs
+++ b/src/geometry/tri_tri_intersect.rs
@@ -224,6 +224,7 @@ where
     }
 
     match uniq.len() {
+        1 => TriTriIntersectionResult::Coplanar(Segment::new(&uniq[0], &uniq[0])),
         2 => TriTriIntersectionResult::Coplanar(Segment::new(&uniq[0], &uniq[1])),
         m if m >= 3 => {
             // 1) project all uniq back to 2D
-- 
2.43.0


From 083c4c69a353cf1cfb490b5fe35032f966a0ef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:34 +0000
Subject: [PATCH 08/60] fix: bound the rounding of exact leaves and reciprocals
 in Ball

An exact leaf that is no double got a ball of radius zero around its rounded
value, and a reciprocal ignored its own rounding. The sign of a difference of
close values could then be decided wrongly.
---
 src/numeric/ball.rs       | 16 +++++++++++++++-
 src/numeric/lazy_exact.rs |  2 +-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/numeric/ball.rs b/src/numeric/ball.rs
index 6593619..581bd58 100644
--- a/src/numeric/ball.rs
+++ b/src/numeric/ball.rs
@@ -20,6 +20,8 @@
 // OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE
 // SOFTWARE.
 
+use rug::Rational;
+
 #[derive(Copy, Clone, Debug)]
 pub struct Ball {
     pub m: f64,
@@ -46,6 +48,18 @@ impl Ball {
     pub fn from_f64(x: f64) -> Self {
         Ball { m: x, r: 0.0 }
     }
+    /// Ball around `x` rounded to a double; its radius covers the rounding.
+    pub fn from_rational(x: &Rational) -> Self {
+        let m = x.to_f64();
+        match Rational::from_f64(m) {
+            None => Ball::unknown(),
+            Some(v) if v == *x => Ball::from_f64(m),
+            Some(_) => Ball {
+                m,
+                r: Self::widen_ulp(m),
+            },
+        }
+    }
     #[inline]
     pub fn unknown() -> Self {
         Ball {
@@ -101,7 +115,7 @@ impl Ball {
         }
         let denom = self.m.abs() * (self.m.abs() - self.r);
         let m = 1.0 / self.m;
-        let r = self.r / denom; // outward-bound
+        let r = self.r / denom + Self::widen_ulp(m); // outward-bound
         Ball { m, r }
     }
 
diff --git a/src/numeric/lazy_exact.rs b/src/numeric/lazy_exact.rs
index 82cafe5..4fab4e4 100644
--- a/src/numeric/lazy_exact.rs
+++ b/src/numeric/lazy_exact.rs
@@ -825,7 +825,7 @@ impl LazyExact {
         use Kind::*;
         match kind {
             LeafApprox(a) => Ball::from_f64(a.0),
-            LeafExact(e) => Ball::from_f64(e.to_f64().unwrap_or(0.0)),
+            LeafExact(e) => Ball::from_rational(&e.0),
             Add(a, b) => a.ball_ref().add(b.ball()),
             Sub(a, b) => a.ball_ref().sub(b.ball()),
             Mul(a, b) => a.ball_ref().mul(b.ball()),
-- 
2.43.0


From 2e782b78b13009968ad5a626380cd4b3c5159ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:35 +0000
Subject: [PATCH 09/60] fix: compare zeros of either sign as equal in
 LazyExact::cmp_ref

A leaf holding -0.0 ordered before one holding 0.0 although the two values
are equal everywhere else.
---
 src/numeric/lazy_exact.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numeric/lazy_exact.rs b/src/numeric/lazy_exact.rs
index 4fab4e4..e4c2dd1 100644
--- a/src/numeric/lazy_exact.rs
+++ b/src/numeric/lazy_exact.rs
@@ -159,7 +159,7 @@ impl Scalar for LazyExact {
 
         // 2) If both are exact doubles (or both reduced to machine floats)
         if let (Some(da), Some(db)) = (a.as_f64_if_exact(), b.as_f64_if_exact()) {
-            return da.total_cmp(&db);
+            return da.partial_cmp(&db).unwrap(); // both finite
         }
 
         // 3) Exact comparator WITHOUT building (a-b) node.
-- 
2.43.0


From 374f3b48dda03db9addddbf50f41d7d1f8ed5ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:44 +0000
Subject: [PATCH 10/60] fix: make CgarRational::double_interval contain the
 value

The interval collapsed to the rounded value even when that differs from the
rational it stands for.
---
 src/numeric/cgar_rational.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/numeric/cgar_rational.rs b/src/numeric/cgar_rational.rs
index 6ddea2e..0663444 100644
--- a/src/numeric/cgar_rational.rs
+++ b/src/numeric/cgar_rational.rs
@@ -24,6 +24,7 @@ use num_traits::ToPrimitive;
 use rug::Rational;
 
 use crate::{
+    geometry::util::{f64_next_down, f64_next_up},
     numeric::{
         cgar_f64::CgarF64,
         lazy_exact::LazyExact,
@@ -117,7 +118,12 @@ impl Scalar for CgarRational {
     }
 
     fn double_interval(&self) -> Option<(f64, f64)> {
-        Some((self.0.to_f64(), self.0.to_f64()))
+        let v = self.0.to_f64();
+        if Rational::from_f64(v).is_some_and(|r| r == self.0) {
+            Some((v, v))
+        } else {
+            Some((f64_next_down(v), f64_next_up(v)))
+        }
     }
 
     fn ball_center_f64(&self) -> f64 {
-- 
2.43.0


From 9398baeab0075262f50e4e4895767613945894ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:54 +0000
Subject: [PATCH 11/60] fix: compare LazyExact values beyond the range of
 doubles

as_f64_if_exact turned a rational too large for a double into infinity and
panicked converting it back.
---
 src/numeric/lazy_exact.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/numeric/lazy_exact.rs b/src/numeric/lazy_exact.rs
index e4c2dd1..a5f6524 100644
--- a/src/numeric/lazy_exact.rs
+++ b/src/numeric/lazy_exact.rs
@@ -357,7 +357,7 @@ impl LazyExact {
             Kind::LeafExact(e) => {
                 if let Some(v) = e.to_f64() {
                     // accept only if round-trip is exact (dyadic)
-                    if CgarRational::from(v) == **e {
+                    if v.is_finite() && CgarRational::from(v) == **e {
                         Some(v)
                     } else {
                         None
-- 
2.43.0


From a1e68bd8531acdf6cc63b2403015998943d37f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:09:12 +0000
Subject: [PATCH 12/60] fix: count only valid leaves when inserting beside an
 invalidated leaf

Inserting into a tree that is a single invalidated leaf counted that leaf as valid.
needs_rebuild then reported false for trees with too few valid items.
---
 src/geometry/aabb_tree.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geometry/aabb_tree.rs b/src/geometry/aabb_tree.rs
index 8d0f4a5..6c02679 100644
--- a/src/geometry/aabb_tree.rs
+++ b/src/geometry/aabb_tree.rs
@@ -268,6 +268,7 @@ where
 
                 let node_aabb = left_child.aabb().union(right_child.aabb()); // exact once here
                 let total_items = left_child.size() + right_child.size();
+                let valid_items = *valid as usize + 1;
                 let (lmn, lmx) = left_child.approx_bounds();
                 let (rmn, rmx) = right_child.approx_bounds();
                 let (amin_u, amax_u) = approx_union(&lmn, &lmx, &rmn, &rmx);
@@ -276,7 +277,7 @@ where
                     aabb: node_aabb,
                     left: left_child,
                     right: right_child,
-                    valid_count: total_items,
+                    valid_count: valid_items,
                     total_count: total_items,
                     amin: amin_u,
                     amax: amax_u,
-- 
2.43.0


From 81e331cf1f9ee4aabe88727ca144ff87b9a4ba07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:58 +0000
Subject: [PATCH 13/60] fix: keep border loops intact when splitting a border
 edge

The two new border half-edges were left as self-loops, so the border loop still ran through the removed half-edge.
The end vertices could also keep the removed half-edge as their outgoing one.
---
 src/mesh/core.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 85eebc1..18c7b19 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -857,15 +857,20 @@ impl_mesh! {
                 self.half_edges[ex_he_cb].twin = he_bc;
             }
 
-            // Create two new null faces for border half-edges bhe_wc (w->c) and bhe_aw (a->w)
-            self.half_edges[bhe_wc].face = None;
-            // self-loop
-            self.half_edges[bhe_wc].next = bhe_wc;
-            self.half_edges[bhe_wc].prev = bhe_wc;
+            // The border half-edges a->w and w->c take the place of a->c in its border loop
+            let border_prev = self.half_edges[he_ac].prev;
+            let border_next = self.half_edges[he_ac].next;
 
             self.half_edges[bhe_aw].face = None;
-            self.half_edges[bhe_aw].next = bhe_aw;
-            self.half_edges[bhe_aw].prev = bhe_aw;
+            self.half_edges[bhe_aw].prev = border_prev;
+            self.half_edges[bhe_aw].next = bhe_wc;
+
+            self.half_edges[bhe_wc].face = None;
+            self.half_edges[bhe_wc].prev = bhe_aw;
+            self.half_edges[bhe_wc].next = border_next;
+
+            self.half_edges[border_prev].next = bhe_aw;
+            self.half_edges[border_next].prev = bhe_wc;
 
             // Edge map updates
             self.edge_map.insert((c, w), he_cw);
@@ -877,9 +882,9 @@ impl_mesh! {
 
             // Update representative half-edges at vertices
             self.vertices[w].half_edge.get_or_insert(he_wb);
-            self.vertices[a].half_edge.get_or_insert(he_ab);
+            self.vertices[a].half_edge = Some(he_ab);
             self.vertices[b].half_edge.get_or_insert(he_bc);
-            self.vertices[c].half_edge.get_or_insert(he_cw);
+            self.vertices[c].half_edge = Some(he_cw);
 
             if update_tree {
                 // AABB tree updates (invalidate old real face; null face not in tree originally)
-- 
2.43.0


From 75e4c0b94b353f4ee65e8d184291352e805d732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:44:58 +0000
Subject: [PATCH 14/60] fix: rotate around the same vertex when rebuilding
 boundary loops

The walk stepped to the twin, which leaves another vertex, so a border edge could be linked to one that does not start at its head.
---
 src/mesh/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 18c7b19..d2a2b0b 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -141,8 +141,8 @@ impl_mesh! {
                     break cand;
                 }
 
-                // Keep rotating around the same vertex via the interior side of `cand`
-                t = self.half_edges[cand].twin;
+                // Keep rotating around the same vertex from `cand`
+                t = cand;
                 if t >= m || self.half_edges[t].removed || !self.face_ok(t) {
                     // If we lose a valid interior, bail to self-loop
                     break b;
-- 
2.43.0


From f8980ce8305280fd4ef39830c176cc949a335951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:45:49 +0000
Subject: [PATCH 15/60] fix: keep the border loop when collapsing a border edge

On the side without a face the neighbouring border half-edges were removed along with the edge.
They survive the collapse, so the loop is spliced past the edge instead.
---
 src/mesh/edge_collapse.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mesh/edge_collapse.rs b/src/mesh/edge_collapse.rs
index 34a7c9d..d3653b3 100644
--- a/src/mesh/edge_collapse.rs
+++ b/src/mesh/edge_collapse.rs
@@ -427,8 +427,11 @@ impl_mesh! {
         let splice_r_from = if right_exists { self.half_edges[he_bv].prev } else { usize::MAX };
         let splice_r_to   = if right_exists { self.half_edges[he_ub].next } else { usize::MAX };
 
-        // Half-edges to remove (the two faces' 6 interior half-edges)
-        let remove_set = [he_uv, he_vu, he_va, he_au, he_ub, he_bv];
+        // Half-edges to remove (the collapsing pair and the other interior half-edges of its faces).
+        // On a missing side the neighbours of the pair belong to the border loop and survive.
+        let mut remove_set = [he_uv, he_vu, he_va, he_au, he_ub, he_bv];
+        if !left_exists  { remove_set[2] = he_uv; remove_set[3] = he_uv; }
+        if !right_exists { remove_set[4] = he_vu; remove_set[5] = he_vu; }
 
         // ---------- 2b. Collect all half-edges incident to u or v (for retargeting) ----------
         let affected_u = self.collect_incident_half_edges(u);
@@ -460,10 +463,16 @@ impl_mesh! {
         if left_exists {
             self.half_edges[splice_l_from].next = splice_l_to;
             self.half_edges[splice_l_to].prev = splice_l_from;
+        } else {
+            self.half_edges[he_au].next = he_va;
+            self.half_edges[he_va].prev = he_au;
         }
         if right_exists {
             self.half_edges[splice_r_from].next = splice_r_to;
             self.half_edges[splice_r_to].prev = splice_r_from;
+        } else {
+            self.half_edges[he_bv].next = he_ub;
+            self.half_edges[he_ub].prev = he_bv;
         }
 
         // ---------- 7. Mark faces removed ----------
-- 
2.43.0


From 3634fd955ffbf5cbd393d6c604f033772d9e17c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:15 +0000
Subject: [PATCH 16/60] fix: refuse collapses that pinch the surface

Collapsing an inner edge between two border vertices merged two fans at one vertex, which the half-edge structure then could not walk.
---
 src/mesh/edge_collapse.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/mesh/edge_collapse.rs b/src/mesh/edge_collapse.rs
index d3653b3..32c22ca 100644
--- a/src/mesh/edge_collapse.rs
+++ b/src/mesh/edge_collapse.rs
@@ -228,6 +228,18 @@ impl_mesh! {
         if !self.check_link_condition_triangle(v0, v1) {
             return Err(CollapseReject::LinkCondition);
         }
+        // An inner edge between two border vertices would pinch the surface into one vertex
+        // with two fans, unless one side of it has no further faces.
+        if let (Some(a), Some(b)) = (pr.opposite_a, pr.opposite_b) {
+            let is_inner = |x: usize, y: usize| match self.edge_half_edges(x, y) {
+                Some((h, t)) => self.face_ok(h) && self.face_ok(t),
+                None => false,
+            };
+            let goes_on = |c: usize| is_inner(v0, c) || is_inner(v1, c);
+            if pr.ring0.is_border && pr.ring1.is_border && goes_on(a) && goes_on(b) {
+                return Err(CollapseReject::LinkCondition);
+            }
+        }
         if self.would_create_duplicate_edges(v0, v1) {
             return Err(CollapseReject::DuplicateEdges);
         }
-- 
2.43.0


From 88153f9c21dc851ea3048cc9e60186099319632f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:15 +0000
Subject: [PATCH 17/60] fix: drop edges that a collapse leaves without faces

A triangle whose other two edges are on the border collapses into a bare edge.
The edge stayed in the mesh with no face on either side.
---
 src/mesh/edge_collapse.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/mesh/edge_collapse.rs b/src/mesh/edge_collapse.rs
index 32c22ca..b624819 100644
--- a/src/mesh/edge_collapse.rs
+++ b/src/mesh/edge_collapse.rs
@@ -601,6 +601,27 @@ impl_mesh! {
             }
         }
 
+        // An edge left without a face on either side is taken out of its border loop
+        for &h in &all_affected {
+            let t = self.half_edges[h].twin;
+            if self.half_edges[h].removed || t == usize::MAX { continue; }
+            if self.half_edges[h].face.is_some() || self.half_edges[t].face.is_some() { continue; }
+
+            let (src, dst) = (self.half_edges[t].vertex, self.half_edges[h].vertex);
+            for (x, y) in [(h, t), (t, h)] {
+                let p = self.half_edges[x].prev;
+                let n = self.half_edges[y].next;
+                if p != y {
+                    self.half_edges[p].next = n;
+                    self.half_edges[n].prev = p;
+                }
+            }
+            self.edge_map.remove(&(src, dst));
+            self.edge_map.remove(&(dst, src));
+            self.half_edges[h].removed = true;
+            self.half_edges[t].removed = true;
+        }
+
         let mut fixed_vertices = AHashSet::new();
         for &hid in &all_affected {
             let he = &self.half_edges[hid];
-- 
2.43.0


From 6ca81d284c0c97ed9eb1073c6b92135ea18a1e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:15 +0000
Subject: [PATCH 18/60] fix: do not read the twin of half-edges removed by a
 collapse

The debug check of deferred triangle removal indexed with the unset twin and panicked after any edge collapse.
---
 src/mesh/triangle.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mesh/triangle.rs b/src/mesh/triangle.rs
index d41fd44..aeee35c 100644
--- a/src/mesh/triangle.rs
+++ b/src/mesh/triangle.rs
@@ -238,7 +238,8 @@ impl_mesh! {
         #[cfg(debug_assertions)]
         {
             for h in 0..self.half_edges.len() {
-                if self.half_edges[h].removed {
+                // spokes removed by a collapse have no twin any more
+                if self.half_edges[h].removed && self.half_edges[h].twin < self.half_edges.len() {
                     let (u,v) = key_pair(self, h);
                     if let Some(&owner) = self.edge_map.get(&(u,v)) {
                         debug_assert_ne!(owner, h, "removed spoke {} still owns edge_map ({},{})", h, u, v);
-- 
2.43.0


From 27d687f1cfcca8db00aabc3b214047426252769d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:55 +0000
Subject: [PATCH 19/60] fix: recognise degenerate flips when a component is
 negative zero

Equality of doubles compares bits, so -0.0 did not equal zero and flips into collinear triangles were accepted.
---
 src/mesh/core.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index d2a2b0b..f7d9ee5 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -667,9 +667,8 @@ impl_mesh! {
             let n2y = &cb2 * &db0 - &cb0 * &db2;
             let n2z = &cb0 * &db1 - &cb1 * &db0;
 
-            let zero = n1x.clone() - n1x.clone(); // cheap zero
-            let tri1_degenerate = n1x == zero && n1y == zero && n1z == zero;
-            let tri2_degenerate = n2x == zero && n2y == zero && n2z == zero;
+            let tri1_degenerate = n1x.is_zero() && n1y.is_zero() && n1z.is_zero();
+            let tri2_degenerate = n2x.is_zero() && n2y.is_zero() && n2z.is_zero();
             if tri1_degenerate || tri2_degenerate {
                 return Err("flip_edge: degenerate area");
             }
-- 
2.43.0


From 785633c48cbcb34d624a25ad27a51dadae3a168c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:51:01 +0000
Subject: [PATCH 20/60] fix: find moved vertices and skip removed ones when
 inserting by position

An edge collapse moves the kept vertex and removes the other, but the lookup by position still held both at their old places.
Inserting at the new position made a duplicate, and inserting at the old one returned a removed vertex.
---
 src/mesh/core.rs          |  2 ++
 src/mesh/edge_collapse.rs |  2 +-
 src/mesh/spatial_hash.rs  | 13 +++++++++++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index f7d9ee5..73b8476 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -520,6 +520,7 @@ impl_mesh! {
         // center cell first
         if let Some(bucket) = self.vertex_spatial_hash.get(&center_key) {
             for &vi in bucket {
+                if self.vertices[vi].removed { continue; }
                 if kernel::are_approximately_equal(&self.vertices[vi].position, pos) {
                     return (vi, true);
                 }
@@ -557,6 +558,7 @@ impl_mesh! {
             let key = Self::pack_key3(kx + dx, ky + dy, kz + dz);
             if let Some(bucket) = self.vertex_spatial_hash.get(&key) {
                 for &vi in bucket {
+                    if self.vertices[vi].removed { continue; }
                     if kernel::are_equal(&self.vertices[vi].position, pos) {
                         return (vi, true);
                     }
diff --git a/src/mesh/edge_collapse.rs b/src/mesh/edge_collapse.rs
index b624819..c9b9c7a 100644
--- a/src/mesh/edge_collapse.rs
+++ b/src/mesh/edge_collapse.rs
@@ -506,7 +506,7 @@ impl_mesh! {
         }
 
         // ---------- 9. Retire v, move position into u ----------
-        self.vertices[u].position = plan.p_star;
+        self.set_vertex_position(u, plan.p_star);
         self.vertices[v].removed = true;
         self.vertices[v].half_edge = None;
 
diff --git a/src/mesh/spatial_hash.rs b/src/mesh/spatial_hash.rs
index 51611b6..2d7b316 100644
--- a/src/mesh/spatial_hash.rs
+++ b/src/mesh/spatial_hash.rs
@@ -68,6 +68,19 @@ impl_mesh! {
         )
     }
 
+    /// Move vertex `v`, keeping the hash used by vertex lookup in step.
+    pub(crate) fn set_vertex_position(&mut self, v: usize, position: Point<T, N>) {
+        let old_key = self.position_to_packed_key(&self.vertices[v].position);
+        let new_key = self.position_to_packed_key(&position);
+        self.vertices[v].position = position;
+        if old_key != new_key {
+            if let Some(bucket) = self.vertex_spatial_hash.get_mut(&old_key) {
+                bucket.retain(|x| *x != v);
+            }
+            self.vertex_spatial_hash.entry(new_key).or_default().push(v);
+        }
+    }
+
     #[inline(always)]
     pub fn position_to_packed_key(&self, pos: &Point<T, N>) -> u128 {
         let (x, y, z) = self.position_to_hash_key(pos);
-- 
2.43.0


From dbf6978d74321fdc2399585d0d08a3b35cb777f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:07:19 +0000
Subject: [PATCH 21/60] fix: split a border edge from either of its half-edges

Splitting at the half-edge without a face panicked after the new vertex was already in the mesh.
---
 src/mesh/core.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 73b8476..bc734f1 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -737,7 +737,8 @@ impl_mesh! {
         update_tree: bool,
     ) -> Result<SplitResult, &'static str>
     {
-        let he_ca = he;
+        // A border half-edge names the same edge as its twin, which has the face
+        let he_ca = if self.half_edges[he].face.is_some() { he } else { self.half_edges[he].twin };
         let he_ab = self.half_edges[he_ca].next;
         let he_bc = self.half_edges[he_ab].next;
         let he_ac = self.half_edges[he_ca].twin;
-- 
2.43.0


From 30f9e547f244271c86ccb276474bc8f4c630ea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:41 +0000
Subject: [PATCH 22/60] fix: enumerate outgoing half-edges counter-clockwise

The order was clockwise, and every step printed a line.
---
 src/mesh/topology.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index 7854153..d439242 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -413,10 +413,8 @@ impl_mesh! {
         let mut h = start;
         loop {
             result.push(h);
-            let t = self.half_edges[h].twin;
             // Now that every edge has a twin (real or ghost), we never hit usize::MAX
-            h = self.half_edges[t].next;
-            println!("trapped");
+            h = self.rot_ccw_around_vertex(h);
             if h == start {
                 break;
             }
-- 
2.43.0


From e853f83561483e4677430f6682aeeb84bd691017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:41 +0000
Subject: [PATCH 23/60] fix: leave vertices without edges out of
 boundary_vertices

A vertex without edges, such as one left by a collapse, made it panic.
---
 src/mesh/topology.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index d439242..b50876a 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -432,7 +432,7 @@ impl_mesh! {
     // /// Returns all vertex indices that lie on at least one boundary loop.
     pub fn boundary_vertices(&self) -> Vec<usize> {
         (0..self.vertices.len())
-            .filter(|&v| self.is_boundary_vertex(v))
+            .filter(|&v| self.vertices[v].half_edge.is_some() && self.is_boundary_vertex(v))
             .collect()
     }
 
-- 
2.43.0


From 1087dc2d1d44daf4bd7bf9834b2012dcfb4326dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:41 +0000
Subject: [PATCH 24/60] fix: do not walk the half-edges of removed faces

Building the face adjacency graph panicked or mixed in faces of other cycles
when the half-edge of a removed face had been reused.
---
 src/mesh/topology.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index b50876a..167c2f9 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -1794,7 +1794,7 @@ impl_mesh! {
         }
 
         let face = &self.faces[face_idx];
-        if face.half_edge == usize::MAX || self.half_edges[face.half_edge].removed {
+        if face.removed || face.half_edge == usize::MAX || self.half_edges[face.half_edge].removed {
             return None;
         }
 
-- 
2.43.0


From 3be8d831b00b47545ccc624f85cf3a7a6daeb1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:41 +0000
Subject: [PATCH 25/60] fix: report the faces across the edges in
 faces_around_face

It turned around a corner and reported the face itself.
---
 src/mesh/topology.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index 167c2f9..873c8e3 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -788,7 +788,7 @@ impl_mesh! {
         let mut i = 0;
         loop {
             let current_he = &self.half_edges[current_he_idx];
-            if let Some(face_idx) = current_he.face
+            if let Some(face_idx) = self.half_edges[current_he.twin].face
                 && !self.faces[face_idx].removed
             {
                 result[i] = face_idx; // valid half_edges should always point to valid faces
@@ -798,8 +798,7 @@ impl_mesh! {
                 }
             }
 
-            let twin_idx = current_he.twin;
-            let next_idx = self.half_edges[twin_idx].next;
+            let next_idx = current_he.next;
 
             if next_idx == starting_he_idx {
                 break;
-- 
2.43.0


From 55bf9d11e71668258f4d909b8887ec39080a20a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:41 +0000
Subject: [PATCH 26/60] fix: leave removed faces out of the face tree

The lookup keeps one box per face index.
---
 src/mesh/core.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index bc734f1..ef28a92 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -439,13 +439,17 @@ impl_mesh! {
         for<'a> &'a T: Sub<&'a T, Output = T>,
     {
         let face_aabbs = self.internal_build_face_tree();
-        AabbTree::build_with_lookup(face_aabbs)
+        let lookup = (0..self.faces.len()).map(|f| self.face_aabb(f)).collect();
+        (AabbTree::build(face_aabbs), lookup)
     }
 
     fn internal_build_face_tree(&self) -> Vec<(Aabb<T, N, Point<T, N>>, usize)> {
         let mut face_aabbs = Vec::with_capacity(self.faces.len());
 
         for (face_idx, face) in self.faces.iter().enumerate() {
+            if face.removed {
+                continue;
+            }
             let he0 = face.half_edge;
 
             let he1 = self.half_edges[he0].next;
-- 
2.43.0


From 31cb2eeb47d7551970ee03cb34774fe5c635364a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:20 +0000
Subject: [PATCH 27/60] fix: locate points in planar meshes from removed faces

The search over all faces panicked for two-dimensional points.
---
 src/mesh/topology.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index 873c8e3..248821e 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -1330,12 +1330,10 @@ impl_mesh! {
                 return true;
             }
 
-            // collinear A,B,C => degenerate (3D-safe; for 2D z=0 it still works)
-            let ab3 = ab.0.as_vector_3();
-            let ac3 = ac.0.as_vector_3();
-            let n = ab3.cross(&ac3);               // compute once
+            // collinear A,B,C => degenerate (same denominator as the barycentric coordinates)
+            let d = ab.dot(&ac);
             // exact test with LazyExact: only true if *exactly* collinear
-            n[0].is_zero() && n[1].is_zero() && n[2].is_zero()
+            (&(&ab.dot(&ab) * &ac.dot(&ac)) - &(&d * &d)).is_zero()
         }
 
         // Exact barycentrics (l0,l1,l2) with respect to face f, using current vertex positions
-- 
2.43.0


From f7d18f64b2089c9a770581834700ee5dd340ee14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:23 +0000
Subject: [PATCH 28/60] fix: let handles of split faces and half-edges lead to
 their successors

The maps that point location reads for removed faces and half-edges were
never filled. Locating a point from a removed handle answered with any face
whose plane projection covers the point.
---
 src/mesh/core.rs     | 26 ++++++++++++++++++++++++++
 src/mesh/topology.rs |  7 ++++---
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index ef28a92..a7fad36 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -249,6 +249,19 @@ impl_mesh! {
 
         // Replace faces
         self.faces = new_faces;
+        self.face_split_map.clear(); // holds the old face indices
+    }
+
+    /// Remember which faces replaced a split face
+    fn record_face_split(&mut self, face: usize, new_faces: &[usize]) {
+        let new_faces = new_faces
+            .iter()
+            .map(|&f| {
+                let [a, b, c] = self.face_vertices(f);
+                FaceInfo { face_idx: f, vertices: Triangle(a, b, c) }
+            })
+            .collect();
+        self.face_split_map.insert(face, FaceSplitMap { face, new_faces });
     }
 
     /// Remove duplicate vertices and update all references
@@ -902,6 +915,11 @@ impl_mesh! {
                 aabb_tree.insert(f2_aabb, base_face_idx + 1);
             }
 
+            // Let the old handles lead to what replaced them
+            self.half_edge_split_map.insert(he_ca, (he_cw, he_wa));
+            self.half_edge_split_map.insert(he_ac, (bhe_aw, bhe_wc));
+            self.record_face_split(original_face_1, &[base_face_idx, base_face_idx + 1]);
+
             let split_result = SplitResult {
                 kind: SplitResultKind::SplitEdge,
                 vertex: w,
@@ -1020,6 +1038,12 @@ impl_mesh! {
         self.half_edges[he_cd].vertex = d; // c -> d
         self.half_edges[he_da].vertex = a; // d -> a
 
+        // Let the old handles lead to what replaced them
+        self.half_edge_split_map.insert(he_ca, (base_half_edge_idx + 1, base_half_edge_idx + 2)); // c -> w -> a
+        self.half_edge_split_map.insert(he_ac, (base_half_edge_idx + 7, base_half_edge_idx + 4)); // a -> w -> c
+        self.record_face_split(original_face_1, &[base_face_idx, base_face_idx + 1]);
+        self.record_face_split(original_face_2, &[base_face_idx + 2, base_face_idx + 3]);
+
         let split_result = SplitResult {
             kind: SplitResultKind::SplitEdge,
             vertex: w,
@@ -1220,6 +1244,8 @@ impl_mesh! {
         self.edge_map.insert((b, w), base_he_idx_3);
         self.edge_map.insert((w, a), base_he_idx_3 + 1);
 
+        self.record_face_split(face, &[subface_1_idx, subface_2_idx, subface_3_idx]);
+
         let split_result = SplitResult {
             kind: SplitResultKind::SplitFace,
             vertex: w,
diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index 248821e..b0f56dd 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -1392,12 +1392,12 @@ impl_mesh! {
 
                 for tri in &mapping.new_faces {
                     let [i0,i1,i2] = tri.vertices.as_array();
-                    let (l0,l1,l2) = barycentric_coords(
+                    let Some((l0,l1,l2)) = barycentric_coords(
                         point,
                         &self.vertices[i0].position,
                         &self.vertices[i1].position,
                         &self.vertices[i2].position,
-                    ).unwrap();
+                    ) else { continue };
 
                     let neg = |x: &T| -> bool { x.is_negative() };
                     if neg(&l0) || neg(&l1) || neg(&l2) {
@@ -1412,8 +1412,9 @@ impl_mesh! {
                     }
                 }
 
+                // the containing descendants come before any neighbor
+                for fc in boundary  { if !seen.contains(&fc) { q.push_front(fc); } }
                 for fc in interior { if !seen.contains(&fc) { q.push_front(fc); } }
-                for fc in boundary  { if !seen.contains(&fc) { q.push_back(fc); } }
                 for tri in &mapping.new_faces {
                     let fc = tri.face_idx;
                     if !seen.contains(&fc) { q.push_back(fc); }
-- 
2.43.0


From 16235979e1f0d82309fcc02d2ddc17e0766c7b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:02:48 +0000
Subject: [PATCH 29/60] fix: hash vertex positions beyond the range of the grid

Inserting a vertex with a very large coordinate overflowed.
---
 src/mesh/core.rs         | 2 +-
 src/mesh/spatial_hash.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index a7fad36..f15a30e 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -572,7 +572,7 @@ impl_mesh! {
 
         let (kx, ky, kz) = self.position_to_hash_key(pos);
         for (dx,dy,dz) in OFFS {
-            let key = Self::pack_key3(kx + dx, ky + dy, kz + dz);
+            let key = Self::pack_key3(kx.saturating_add(dx), ky.saturating_add(dy), kz.saturating_add(dz));
             if let Some(bucket) = self.vertex_spatial_hash.get(&key) {
                 for &vi in bucket {
                     if self.vertices[vi].removed { continue; }
diff --git a/src/mesh/spatial_hash.rs b/src/mesh/spatial_hash.rs
index 2d7b316..93db21c 100644
--- a/src/mesh/spatial_hash.rs
+++ b/src/mesh/spatial_hash.rs
@@ -40,7 +40,7 @@ impl_mesh! {
     fn floor_sat_i64(x: f64) -> i64 {
         if !x.is_finite() { return if x.is_sign_positive() { i64::MAX } else { i64::MIN }; }
         let i = x as i64;
-        i - ((i as f64 > x) as i64)
+        i.saturating_sub((i as f64 > x) as i64)
     }
 
     #[inline(always)]
-- 
2.43.0


From 4b7ff7bf88a45edc2b1e0bd110e740e0bd922a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:02:48 +0000
Subject: [PATCH 30/60] fix: merge duplicate vertices into live vertices that
 keep their edges

Live vertices were merged into removed ones, and a vertex without edges that
stood for one with edges stayed without.
---
 src/mesh/core.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index f15a30e..5cbc1d0 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -277,6 +277,9 @@ impl_mesh! {
         let mut spatial_groups: AHashMap<u128, Bucket> = AHashMap::new();
 
         for (vertex_idx, vertex) in self.vertices.iter().enumerate() {
+            if vertex.removed {
+                continue;
+            }
             let hash_key = self.position_to_packed_key(&vertex.position);
             spatial_groups.entry(hash_key).or_default().push(vertex_idx);
         }
@@ -333,6 +336,10 @@ impl_mesh! {
         for &duplicate_idx in &duplicates {
             let canonical_idx = vertex_mapping[duplicate_idx];
             old_to_new[duplicate_idx] = old_to_new[canonical_idx];
+
+            // A canonical vertex without edges takes those of its duplicate
+            let canonical = &mut new_vertices[old_to_new[canonical_idx]];
+            canonical.half_edge = canonical.half_edge.or(self.vertices[duplicate_idx].half_edge);
         }
 
         // Update all half-edge vertex references
@@ -389,6 +396,7 @@ impl_mesh! {
         self.vertices = new_vertices;
         self.edge_map = new_edge_map;
         self.vertex_spatial_hash = new_spatial_hash;
+        self.face_split_map.clear(); // holds the old vertex indices
 
         // Remove any degenerate faces that may have been created
         // self.remove_degenerate_faces();
-- 
2.43.0


From 239d1901b67cdbf176e5b894fe83133fb1d46683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:11 +0000
Subject: [PATCH 31/60] fix: report malformed OBJ vertices and faces as errors

read_obj panicked on missing or malformed numbers and on face indices
that name no vertex.  It also panicked on corners with texture or normal
indices, which are valid OBJ.
---
 src/io/obj.rs | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/io/obj.rs b/src/io/obj.rs
index cd6fe3e..0600456 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -80,6 +80,24 @@ where
 
 /// Read a mesh from a Wavefront OBJ file.
 /// Only supports `v x y z` and `f i j k` lines; ignores others.
+fn bad_data(what: &str) -> io::Error {
+    io::Error::new(io::ErrorKind::InvalidData, what)
+}
+
+fn parse_coord(tok: Option<&str>) -> io::Result<f64> {
+    tok.and_then(|t| t.parse::<f64>().ok())
+        .filter(|x| x.is_finite())
+        .ok_or_else(|| bad_data("OBJ: bad vertex coordinate"))
+}
+
+/// 1-based vertex index of a face corner (`v`, `v/vt`, `v//vn` or `v/vt/vn`).
+fn parse_index(tok: Option<&str>, vertex_count: usize) -> io::Result<usize> {
+    tok.and_then(|t| t.split('/').next())
+        .and_then(|t| t.parse::<usize>().ok())
+        .filter(|i| (1..=vertex_count).contains(i))
+        .ok_or_else(|| bad_data("OBJ: bad face index"))
+}
+
 pub fn read_obj<T: Scalar, P: AsRef<Path>>(path: P) -> io::Result<Mesh<T, 3>>
 where
     Point<T, 3>: PointOps<T, 3, Vector = Vector<T, 3>>,
@@ -102,17 +120,20 @@ where
         match parts.next() {
             Some("v") => {
                 // parse three floats
-                let x: f64 = parts.next().unwrap().parse().unwrap();
-                let y: f64 = parts.next().unwrap().parse().unwrap();
-                let z: f64 = parts.next().unwrap().parse().unwrap();
+                let x = parse_coord(parts.next())?;
+                let y = parse_coord(parts.next())?;
+                let z = parse_coord(parts.next())?;
                 let vid = mesh.add_vertex(Point3::<T>::from_vals([x, y, z]));
                 vertex_map.push(vid);
             }
             Some("f") => {
                 // parse three vertex indices (1-based OBJ)
-                let i: usize = parts.next().unwrap().parse().unwrap();
-                let j: usize = parts.next().unwrap().parse().unwrap();
-                let k: usize = parts.next().unwrap().parse().unwrap();
+                let i = parse_index(parts.next(), vertex_map.len())?;
+                let j = parse_index(parts.next(), vertex_map.len())?;
+                let k = parse_index(parts.next(), vertex_map.len())?;
+                if i == j || j == k || k == i {
+                    return Err(bad_data("OBJ: face repeats a vertex"));
+                }
                 // subtract 1 for zero-based
                 mesh.add_triangle(i - 1, j - 1, k - 1);
             }
-- 
2.43.0


From 1624209e13346e85854ca8f2d5a81b859dc15fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:11 +0000
Subject: [PATCH 32/60] fix: report OFF faces with missing or invalid vertices
 as errors

read_off panicked when a face named a vertex that does not exist.
It accepted faces that repeat a vertex.
A polygon cut off by the end of the file was accepted.
---
 src/io/off.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/io/off.rs b/src/io/off.rs
index 7509a44..c47f53f 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -230,11 +230,20 @@ where
                 })?
                 .parse()
                 .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "OFF: bad index c"))?;
+            if a >= vcount || b >= vcount || c >= vcount || a == b || b == c || c == a {
+                return Err(io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    "OFF: face index out of range or repeated",
+                ));
+            }
             mesh.add_triangle(a, b, c);
         } else {
             // Skip non-triangle indices
             for _ in 0..poly_size {
-                let _ = it.next(); // discard
+                // discard
+                it.next().ok_or_else(|| {
+                    io::Error::new(io::ErrorKind::InvalidData, "OFF: face missing index")
+                })?;
             }
         }
     }
-- 
2.43.0


From eeff9ec1a47b65f5cd1f45b263cbb3b301c2dab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:11 +0000
Subject: [PATCH 33/60] fix: reject coordinates that are not finite when
 reading OFF and STL

The exact number types panicked on them.
---
 src/io/off.rs | 7 +++++++
 src/io/stl.rs | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/io/off.rs b/src/io/off.rs
index c47f53f..9e9edc5 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -190,6 +190,13 @@ where
             .parse()
             .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "OFF: bad vertex z"))?;
 
+        if !(x.is_finite() && y.is_finite() && z.is_finite()) {
+            return Err(io::Error::new(
+                io::ErrorKind::InvalidData,
+                "OFF: vertex is not finite",
+            ));
+        }
+
         // Assuming Point3::<T>::from_vals accepts f64s as in your OBJ reader
         let _vid = mesh.add_vertex(Point::<T, 3>::from_vals([x, y, z]));
         // We don't need to store a map because OFF face indices are zero-based
diff --git a/src/io/stl.rs b/src/io/stl.rs
index 4a5b6b5..9627f15 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -173,6 +173,13 @@ where
                     .parse()
                     .map_err(|_| io::Error::new(io::ErrorKind::InvalidData, "STL: bad vertex z"))?;
 
+                if !(x.is_finite() && y.is_finite() && z.is_finite()) {
+                    return Err(io::Error::new(
+                        io::ErrorKind::InvalidData,
+                        "STL: vertex is not finite",
+                    ));
+                }
+
                 let vid = mesh.add_vertex(Point::<T, 3>::from_vals([x, y, z]));
                 vertices.push(vid);
             }
-- 
2.43.0


From 55a099c7ab5286c340fc0310564eb38c3e943e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:18:09 +0000
Subject: [PATCH 34/60] fix: place the super-triangle of the triangulation
 around the points

Its apex was at (cy + 2) * r instead of cy + 2 * r.
The batch variant also doubled the centre of the points instead of halving it.
Points away from the origin were left out of the triangulation.
---
 src/operations/triangulation/delaunay.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index 5421113..3d7caaa 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -139,8 +139,8 @@ where
             let dx = &max[0] - &min[0];
             let dy = &max[1] - &min[1];
             let delta = dx.max(dy);
-            let cx = (&min[0] + &max[0]) * T::from_num_den(2, 1);
-            let cy = (&min[1] + &max[1]) * T::from_num_den(2, 1);
+            let cx = &(&min[0] + &max[0]) * &T::from_num_den(1, 2);
+            let cy = &(&min[1] + &max[1]) * &T::from_num_den(1, 2);
             let r = &(&T::from_num_den(64, 1) * &delta) + &T::from_num_den(1, 1);
 
             super_triangles.push(Some((cx, cy, r)));
@@ -165,7 +165,7 @@ where
             points.extend([
                 Point2::<T>::from_vals([
                     T::from(cx.clone()),
-                    T::from(&(cy + &T::from_num_den(2, 1)) * &r),
+                    T::from(cy + &(&T::from_num_den(2, 1) * r)),
                 ]),
                 Point2::<T>::from_vals([T::from(cx - &(&sqrt_3 * &r)), T::from(cy - &r)]),
                 Point2::<T>::from_vals([T::from(cx + &(&sqrt_3 * &r)), T::from(cy - &r)]),
@@ -256,7 +256,7 @@ where
         let sqrt_3 = T::from(SQRT_3);
         let p_super0 = Point2::<T>::from_vals([
             T::from(cx.clone()),
-            T::from(&(&cy + &T::from_num_den(2, 1)) * &r),
+            T::from(&cy + &(&T::from_num_den(2, 1) * &r)),
         ]);
         let p_super1 = Point2::<T>::from_vals([T::from(&cx - &(&sqrt_3 * &r)), T::from(&cy - &r)]);
         let p_super2 = Point2::<T>::from_vals([T::from(&cx + &(&sqrt_3 * &r)), T::from(&cy - &r)]);
-- 
2.43.0


From 5e817fc805f5e16f42c60f263ec4c5be63cca4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:18:09 +0000
Subject: [PATCH 35/60] fix: keep batch triangulations in the order of their
 jobs

Results of jobs with fewer than three points were moved to the front.
---
 src/operations/triangulation/delaunay.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index 3d7caaa..b1d3ce1 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -127,10 +127,6 @@ where
         let mut super_triangles = Vec::with_capacity(jobs.len());
         for job in jobs {
             if job.points_uv.len() < 3 {
-                results.push(Self {
-                    points: job.points_uv.clone(),
-                    triangles: Vec::new(),
-                });
                 super_triangles.push(None);
                 continue;
             }
@@ -148,11 +144,11 @@ where
 
         // Process each job with pre-computed super-triangle
         for (job_idx, job) in jobs.iter().enumerate() {
-            if job.points_uv.len() < 3 {
-                continue;
-            }
-
             let Some((cx, cy, r)) = &super_triangles[job_idx] else {
+                results.push(Self {
+                    points: job.points_uv.clone(),
+                    triangles: Vec::new(),
+                });
                 continue;
             };
 
-- 
2.43.0


From 414a44bfeeebc41c1786864ccd6df0c5a052d814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:00 +0000
Subject: [PATCH 36/60] fix: collect triangles away from the outline of a face
 job

triangles_inside_for_job looked for the next triangle on the side it came from.
Triangles that do not touch the outline were never found.
---
 src/operations/triangulation/delaunay.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index b1d3ce1..70a5787 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -1524,7 +1524,7 @@ where
         // accept it
         accepted.insert(ti);
 
-        // push its other two edges with **directed** wanted side = orient(i->j, k)
+        // push its other two edges with **directed** wanted side opposite to orient(i->j, k)
         let t = dt_tris[ti];
         for (i, j, k) in [(t.0, t.1, t.2), (t.1, t.2, t.0), (t.2, t.0, t.1)] {
             // skip the edge we used to reach this tri
@@ -1541,7 +1541,7 @@ where
                 0
             };
             if side_dir != 0 {
-                q.push_back((i, j, side_dir));
+                q.push_back((i, j, -side_dir));
             }
         }
     }
-- 
2.43.0


From a3c3cb8665dd67ce5fe06621c7516f45023fd73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:02 +0000
Subject: [PATCH 37/60] fix: exchange only diagonals of convex quadrilaterals

Inserting a constraint flipped edges whose two triangles are not convex together.
The new triangles overlapped others.
---
 src/operations/triangulation/delaunay.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index 70a5787..206b7b2 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -803,6 +803,11 @@ where
         // Build new triangles (preserve CCW)
         let a0 = orient2d(&self.points[x], &self.points[u], &self.points[y]);
         let a1 = orient2d(&self.points[x], &self.points[y], &self.points[v]);
+
+        // The new edge lies inside both triangles only if they form a convex quadrilateral
+        if a0.is_zero() || a1.is_zero() || a0.is_positive() != a1.is_positive() {
+            return None;
+        }
         let t0_new = if a0.is_positive_or_zero() {
             Triangle(x, u, y)
         } else {
-- 
2.43.0


From 3758f96844d5c994a8d9b0fe3735b1b6e983d750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:02 +0000
Subject: [PATCH 38/60] fix: insert constraints that cross several edges

The walk along a constraint stopped when an edge it crosses could not be exchanged at once.
The edges are now exchanged in turn until none crosses the constraint.
---
 src/operations/triangulation/delaunay.rs | 59 ++++++++++++++++++++++++
 1 file changed, 59 insertions(+)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index 206b7b2..43d9332 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -481,6 +481,62 @@ where
         set
     }
 
+    /// Exchange the edges that cross (a,b), in turn, until none is left.
+    /// Returns whether (a,b) is an edge afterwards.
+    fn flip_crossing_edges(
+        &mut self,
+        a: usize,
+        b: usize,
+        adj: &mut Adj,
+        constrained: &AHashSet<Edge>,
+    ) -> bool {
+        fn crosses<TS: Scalar>(pts: &[Point2<TS>], a: usize, b: usize, e: &Edge) -> bool
+        where
+            for<'x> &'x TS: std::ops::Sub<&'x TS, Output = TS>
+                + std::ops::Mul<&'x TS, Output = TS>
+                + std::ops::Add<&'x TS, Output = TS>
+                + std::ops::Div<&'x TS, Output = TS>
+                + std::ops::Neg<Output = TS>,
+        {
+            let split = |i: usize, j: usize, k: usize, l: usize| {
+                let s = orient2d(&pts[i], &pts[j], &pts[k]);
+                let t = orient2d(&pts[i], &pts[j], &pts[l]);
+                !s.is_zero() && !t.is_zero() && s.is_positive() != t.is_positive()
+            };
+            split(a, b, e.a(), e.b()) && split(e.a(), e.b(), a, b)
+        }
+
+        let mut edges: Vec<Edge> = adj
+            .edge2tris
+            .keys()
+            .filter(|e| crosses(&self.points, a, b, e))
+            .copied()
+            .collect();
+        edges.sort_unstable_by_key(|e| (e.a(), e.b()));
+
+        let mut queue = std::collections::VecDeque::from(edges);
+        let mut budget = 4 * queue.len() * queue.len() + 16;
+        while let Some(e) = queue.pop_front() {
+            let pair = match adj.edge2tris.get(&e) {
+                Some(v) if v.len() == 2 => (v[0], v[1]),
+                _ => return false,
+            };
+            if budget == 0 || constrained.contains(&e) {
+                return false;
+            }
+            budget -= 1;
+            match self.flip_shared_edge_with_adj(e, pair.0, pair.1, constrained, adj) {
+                Some(new_e) => {
+                    if crosses(&self.points, a, b, &new_e) {
+                        queue.push_back(new_e);
+                    }
+                }
+                None => queue.push_back(e),
+            }
+        }
+        self.edge_exists(Edge::new(a, b))
+    }
+
     fn insert_constraint_walk(
         &mut self,
         mut a: usize,
@@ -491,6 +547,9 @@ where
         if self.edge_exists(Edge::new(a, b)) {
             return Ok(());
         }
+        if self.flip_crossing_edges(a, b, adj, constrained) {
+            return Ok(());
+        }
 
         // Choose a starting triangle that actually faces toward the segment (a,b).
         // Prefer a's incident triangles; if none useful, swap endpoints and try b.
-- 
2.43.0


From 89432a27765db2d442294058becc9216182cba16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:00 +0000
Subject: [PATCH 39/60] fix: approximate circumcircles relative to the tested
 point

With coordinates far from the origin the approximation was off by more than its tolerance.
Duplicate points and points near the circle were then decided wrongly, also for exact numbers.
---
 src/operations/triangulation/delaunay.rs | 31 ++++++++++++------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/operations/triangulation/delaunay.rs b/src/operations/triangulation/delaunay.rs
index 43d9332..b9b2313 100644
--- a/src/operations/triangulation/delaunay.rs
+++ b/src/operations/triangulation/delaunay.rs
@@ -348,15 +348,10 @@ where
 
     fn point_in_circumcircle_fast(p: &Point2<T>, t: Triangle, points: &[Point2<T>]) -> bool {
         if let Some((cx, cy, r2)) =
-            circumcircle_approx_fast(&points[t.0], &points[t.1], &points[t.2])
+            circumcircle_approx_fast(&points[t.0], &points[t.1], &points[t.2], p)
         {
-            let px = p[0].ball_center_f64();
-            let py = p[1].ball_center_f64();
-
-            if [px, py, cx, cy, r2].iter().all(|x| x.is_finite()) {
-                let dx = px - cx;
-                let dy = py - cy;
-                let dist2 = dx * dx + dy * dy;
+            if [cx, cy, r2].iter().all(|x| x.is_finite()) {
+                let dist2 = cx * cx + cy * cy;
 
                 let tolerance = EPS * r2.max(1.0);
 
@@ -1613,24 +1608,30 @@ where
     accepted
 }
 
+/// Center (relative to `p`) and squared radius of the circumcircle of `a`, `b`, `c`.
+/// None if the triangle is too thin for the approximation to be reliable.
 fn circumcircle_approx_fast<T: Scalar>(
     a: &Point2<T>,
     b: &Point2<T>,
     c: &Point2<T>,
+    p: &Point2<T>,
 ) -> Option<(f64, f64, f64)> {
-    let ax = a[0].ball_center_f64();
-    let ay = a[1].ball_center_f64();
-    let bx = b[0].ball_center_f64();
-    let by = b[1].ball_center_f64();
-    let cx = c[0].ball_center_f64();
-    let cy = c[1].ball_center_f64();
+    let px = p[0].ball_center_f64();
+    let py = p[1].ball_center_f64();
+    let ax = a[0].ball_center_f64() - px;
+    let ay = a[1].ball_center_f64() - py;
+    let bx = b[0].ball_center_f64() - px;
+    let by = b[1].ball_center_f64() - py;
+    let cx = c[0].ball_center_f64() - px;
+    let cy = c[1].ball_center_f64() - py;
 
     if ![ax, ay, bx, by, cx, cy].iter().all(|x| x.is_finite()) {
         return None;
     }
 
     let d = 2.0 * (ax * (by - cy) + bx * (cy - ay) + cx * (ay - by));
-    if d.abs() < 1e-15 {
+    let d_scale = (ax * (by - cy)).abs() + (bx * (cy - ay)).abs() + (cx * (ay - by)).abs();
+    if d.abs() < 1e-15 || d.abs() < 1e-4 * d_scale {
         return None;
     }
 
-- 
2.43.0


From e05e47084ebf9f06d78b945cf484c48e93854aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:00 +0000
Subject: [PATCH 40/60] fix: let rays reach every face of the tree

The search box of a cast ray ended 1e7 times the direction's length away.
Meshes further away than that were missed.
---
 src/geometry/aabb_tree.rs |  2 +-
 src/mesh/topology.rs      | 47 +++++++++++++++++++++++++++------------
 2 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/geometry/aabb_tree.rs b/src/geometry/aabb_tree.rs
index 6c02679..a38de33 100644
--- a/src/geometry/aabb_tree.rs
+++ b/src/geometry/aabb_tree.rs
@@ -142,7 +142,7 @@ where
     }
 
     /// Get AABB of this node/leaf
-    fn aabb(&self) -> &Aabb<T, N, P> {
+    pub(crate) fn aabb(&self) -> &Aabb<T, N, P> {
         match self {
             AabbTree::Leaf { aabb, .. } => aabb,
             AabbTree::Node { aabb, .. } => aabb,
diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index b0f56dd..6aa0158 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -640,20 +640,7 @@ impl_mesh! {
         let mut best_t: Option<T> = None;
         let mut best_result = IntersectionResult::Miss;
 
-        let far_multiplier = T::from(10e6); // 10 km in mm units
-        let far_point = Point::<T, N>::from_vals(std::array::from_fn(|i| {
-            let tmp = &p[i] + &(&dir[i] * &far_multiplier);
-            tmp.into()
-        }));
-        let p_f = Point::<T, N>::from_vals(std::array::from_fn(|i| {
-            p[i].clone().into()
-        }));
-        let ray_aabb = Aabb::<T, N, Point<T, N>>::from_points(&p_f, &far_point);
-
-        let mut candidate_faces = Vec::new();
-        tree.query_valid(&ray_aabb, &mut candidate_faces);
-
-        for &fi in &candidate_faces {
+        for fi in ray_candidates(p, dir, tree) {
             let vs_idxs = self.face_vertices(*fi);
             let vs = [
                 &self.vertices[vs_idxs[0]].position,
@@ -2099,6 +2086,38 @@ where
     Some((t, u))
 }
 
+/// Faces whose boxes the ray may reach: the ray's box extends as far as the tree does.
+fn ray_candidates<'t, T: Scalar, const N: usize>(
+    p: &Point<T, N>,
+    dir: &Vector<T, N>,
+    tree: &'t AabbTree<T, N, Point<T, N>, usize>,
+) -> Vec<&'t usize>
+where
+    Point<T, N>: PointOps<T, N, Vector = Vector<T, N>>,
+    Vector<T, N>: VectorOps<T, N>,
+    for<'a> &'a T: Add<&'a T, Output = T>
+        + Sub<&'a T, Output = T>
+        + Mul<&'a T, Output = T>
+        + Div<&'a T, Output = T>,
+{
+    let bounds = tree.aabb();
+    let far_point = Point::<T, N>::from_vals(std::array::from_fn(|i| {
+        let far = if dir[i].is_positive() {
+            &bounds.max()[i]
+        } else if dir[i].is_negative() {
+            &bounds.min()[i]
+        } else {
+            &p[i]
+        };
+        far.clone()
+    }));
+    let ray_aabb = Aabb::<T, N, Point<T, N>>::from_points(p, &far_point);
+
+    let mut candidate_faces = Vec::new();
+    tree.query_valid(&ray_aabb, &mut candidate_faces);
+    candidate_faces
+}
+
 /// Robust ray-triangle intersection using Möller-Trumbore algorithm
 fn ray_triangle_intersection<T: Scalar, const N: usize>(
     ray_origin: &Point<T, N>,
-- 
2.43.0


From 10fd64087aa95cdf61f2818975d3f5ffc9128107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:00 +0000
Subject: [PATCH 41/60] fix: test boundary edges when locating a point in a
 planar mesh

The ray was tested against the edge following each boundary edge.
An edge end on the ray was counted once for each edge meeting there.
---
 src/mesh/topology.rs | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index 6aa0158..b7b35f9 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -728,8 +728,8 @@ impl_mesh! {
             + Mul<&'a T, Output = T>
             + Div<&'a T, Output = T>
     {
-        let v1 = self.half_edges[he].vertex;
-        let v2 = self.half_edges[self.half_edges[he].next].vertex;
+        let v1 = self.half_edges[self.half_edges[he].prev].vertex;
+        let v2 = self.half_edges[he].vertex;
 
         let p1 = &self.vertices[v1].position;
         let p2 = &self.vertices[v2].position;
@@ -737,20 +737,12 @@ impl_mesh! {
         // Ray casting from point horizontally to the right
         // Check if edge crosses the horizontal ray
 
-        // Both points above or below the ray
-        if ((&p1[1] - &point[1]).is_positive() && (&p2[1] - &point[1]).is_positive()) ||
-        ((&p1[1] - &point[1]).is_negative() && (&p2[1] - &point[1]).is_negative()) {
+        // Both points above, or both not above the ray: an endpoint on the ray
+        // counts as below it, so that the two edges meeting there count once
+        if (&p1[1] - &point[1]).is_positive() == (&p2[1] - &point[1]).is_positive() {
             return false;
         }
 
-        // Edge is horizontal and at same y-level as point
-        if (&p1[1] - &p2[1]).is_zero() && (&p1[1] - &point[1]).is_zero() {
-            // Check if point is between edge endpoints
-            let min_x = if (&p1[0] - &p2[0]).is_negative() { &p1[0] } else { &p2[0] };
-            let max_x = if (&p1[0] - &p2[0]).is_positive() { &p1[0] } else { &p2[0] };
-            return !(&point[0] - min_x).is_negative() && !(&point[0] - max_x).is_positive();
-        }
-
         // Calculate intersection x-coordinate
         let dy = &p2[1] - &p1[1];
         if dy.is_zero() {
-- 
2.43.0


From 6429e99b05c860fd0913088889c629de0e8c1855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:00 +0000
Subject: [PATCH 42/60] fix: correct the sign of the edge parameter of geodesic
 rays

The cross product had its operands swapped.
Rays through the opposite edge were reported as misses.
---
 src/mesh/topology.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index b7b35f9..f1e54a3 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -929,7 +929,7 @@ impl_mesh! {
 
         let inv_det = T::one() / det;
         let t = &rhs.cross(&edge_vec).dot(&face_normal) * &inv_det;
-        let u = &geodesic_dir.cross(&rhs).dot(&face_normal) * &inv_det;
+        let u = &rhs.cross(&geodesic_dir).dot(&face_normal) * &inv_det;
 
         // Validate solution
         if t <= tol || u < T::zero() || u > T::one() {
-- 
2.43.0


From 8598438bea7620b9e43f25324fa0e6b59886e800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:00 +0000
Subject: [PATCH 43/60] fix: locate points in a mesh by the parity of crossings

Only the nearest hit of each axis ray was looked at.
Points in hollows of a mesh were taken for inside points.
---
 src/mesh/topology.rs | 64 +++++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 22 deletions(-)

diff --git a/src/mesh/topology.rs b/src/mesh/topology.rs
index f1e54a3..11861b0 100644
--- a/src/mesh/topology.rs
+++ b/src/mesh/topology.rs
@@ -563,33 +563,53 @@ impl_mesh! {
             Vector::<T, N>::from_vals(from_fn(|i| [T::zero(), T::zero(), T::from(-1.0)][i].clone())),
         ];
 
-        let total_rays = rays.len();
-        let mut inside_count = 0usize;
-        let mut on_surface = false;
-
-        for r in rays {
-            match self.cast_ray_3(p, &r, tree, &None) {
-                IntersectionResult::Hit(_hit, t) => {
-                    if t.is_zero() {
-                        on_surface = true; // optionally: return PointInMeshResult::OnSurface immediately
-                    } else {
-                        // odd parity for this direction
-                        inside_count += 1;
-                    }
-                }
-                IntersectionResult::Miss => {
-                    // even parity for this direction (0), do nothing
+        // No plane through the origin holds more than two of the directions (1, k, k^2),
+        // so each edge can spoil at most two of them.
+        let oblique = (1..6 * self.faces.len() + 2).map(|k| {
+            let k = T::from(k as f64);
+            Vector::<T, N>::from_vals(from_fn(|i| [T::one(), k.clone(), &k * &k][i].clone()))
+        });
+
+        for r in rays.into_iter().chain(oblique) {
+            if let Some((crossings, on_surface)) = self.count_crossings(p, &r, tree) {
+                if on_surface {
+                    return PointInMeshResult::OnSurface;
                 }
+                return if crossings % 2 == 1 {
+                    PointInMeshResult::Inside
+                } else {
+                    PointInMeshResult::Outside
+                };
             }
         }
 
-        if on_surface {
-            PointInMeshResult::OnSurface
-        } else if inside_count > total_rays / 2 {
-            PointInMeshResult::Inside
-        } else {
-            PointInMeshResult::Outside
+        PointInMeshResult::Outside
+    }
+
+    /// Number of faces the ray passes through, and whether it starts on one of them.
+    /// None if it touches an edge or a vertex further on, where the count decides nothing.
+    fn count_crossings(
+        &self,
+        p: &Point<T, N>,
+        dir: &Vector<T, N>,
+        tree: &AabbTree<T, N, Point<T, N>, usize>,
+    ) -> Option<(usize, bool)> where Vector<T, N>: VectorOps<T, N>,
+    {
+        let mut crossings = 0usize;
+        let mut degenerate = false;
+        for &fi in ray_candidates(p, dir, tree) {
+            let vs = self.face_vertices(fi);
+            let tri = from_fn(|i| &self.vertices[vs[i]].position);
+            if let Some((t, u, v)) = ray_triangle_intersection(p, dir, tri, &None) {
+                if t.is_zero() {
+                    return Some((crossings, true));
+                }
+                let w = &T::one() - &(&u + &v);
+                degenerate |= u.is_zero() || v.is_zero() || w.is_zero();
+                crossings += 1;
+            }
         }
+        if degenerate { None } else { Some((crossings, false)) }
     }
 
     fn get_boundary_half_edges(&self) -> Vec<usize> {
-- 
2.43.0


From f30add5222dc026dc6263b5544ce71a718bdbb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:00 +0000
Subject: [PATCH 44/60] fix: make approximate face boxes contain their faces

Boxes of faces with exact coordinates were rounded to the nearest doubles.
Queries touching such a face missed it.
---
 src/mesh/core.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 5cbc1d0..e845a89 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -1450,21 +1450,21 @@ where
     T: From<f64>,
 {
     // Single allocation for all coordinates
-    let mut coords = [[0.0; N]; 3];
+    let mut coords = [[(0.0, 0.0); N]; 3];
 
-    // Batch extract all coordinates
+    // Batch extract all coordinates, as intervals: the box must hold the triangle
     for i in 0..N {
-        coords[0][i] = p0[i].as_f64_fast()?;
-        coords[1][i] = p1[i].as_f64_fast()?;
-        coords[2][i] = p2[i].as_f64_fast()?;
+        coords[0][i] = p0[i].double_interval()?;
+        coords[1][i] = p1[i].double_interval()?;
+        coords[2][i] = p2[i].double_interval()?;
     }
 
     // Vectorized min/max computation
     let min_coords =
-        std::array::from_fn(|i| T::from(coords[0][i].min(coords[1][i]).min(coords[2][i])));
+        std::array::from_fn(|i| T::from(coords[0][i].0.min(coords[1][i].0).min(coords[2][i].0)));
 
     let max_coords =
-        std::array::from_fn(|i| T::from(coords[0][i].max(coords[1][i]).max(coords[2][i])));
+        std::array::from_fn(|i| T::from(coords[0][i].1.max(coords[1][i].1).max(coords[2][i].1)));
 
     Some(Aabb::new(
         Point::<T, N>::from_vals(min_coords),
-- 
2.43.0


From 4dd08890bfebacddcf57c0414b6fef32a88b7293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:27 +0000
Subject: [PATCH 45/60] fix: leave removed faces out of the classification tree

Faces that were split stayed in the tree as boxes at the origin.
Rays through the origin then met faces that no longer exist.
---
 src/mesh_processing/boolean.rs | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/src/mesh_processing/boolean.rs b/src/mesh_processing/boolean.rs
index e16a2c6..4a058c3 100644
--- a/src/mesh_processing/boolean.rs
+++ b/src/mesh_processing/boolean.rs
@@ -32,7 +32,7 @@ use ahash::{AHashMap, AHashSet};
 
 use crate::{
     geometry::{
-        Aabb, AabbTree,
+        AabbTree,
         plane::{Plane, PlaneOps},
         point::{Point, PointOps},
         segment::{Segment, SegmentOps},
@@ -120,21 +120,7 @@ where
         include_on_surface: bool,
     ) -> Vec<bool> {
         // build adjacency & boundary‐map
-        let tree_b = AabbTree::<T, N, _, _>::build(
-            (0..other.faces.len())
-                .map(|i| {
-                    let aabb_n = other.face_aabb(i);
-                    let min = aabb_n.min();
-                    let max = aabb_n.max();
-                    // Convert Aabb<T, N, Point<T, N>> to Aabb<T, 3, Point<T, 3>>
-                    let aabb3 = Aabb::<T, N, Point<T, N>>::from_points(
-                        &Point::<T, N>::from_vals(from_fn(|i| min[i].clone())),
-                        &Point::<T, N>::from_vals(from_fn(|i| max[i].clone())),
-                    );
-                    (aabb3, i)
-                })
-                .collect::<Vec<(Aabb<T, N, Point<T, N>>, usize)>>(),
-        );
+        let tree_b = other.build_face_tree();
 
         let mut visited = vec![false; self.faces.len()];
         let mut inside = vec![false; self.faces.len()];
-- 
2.43.0


From eb550f830a0e45a80c30faec198973842684bf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:27 +0000
Subject: [PATCH 46/60] fix: classify every region of faces in boolean
 operations

Only the region around one seed face was taken as inside.
Further regions cut off by other intersection loops were put on the wrong side.
---
 src/mesh_processing/boolean.rs | 136 ++++++++-------------------------
 1 file changed, 31 insertions(+), 105 deletions(-)

diff --git a/src/mesh_processing/boolean.rs b/src/mesh_processing/boolean.rs
index 4a058c3..1d2952d 100644
--- a/src/mesh_processing/boolean.rs
+++ b/src/mesh_processing/boolean.rs
@@ -32,7 +32,6 @@ use ahash::{AHashMap, AHashSet};
 
 use crate::{
     geometry::{
-        AabbTree,
         plane::{Plane, PlaneOps},
         point::{Point, PointOps},
         segment::{Segment, SegmentOps},
@@ -140,48 +139,6 @@ where
             }
             return inside;
         } else {
-            let mut boundary_faces = AHashSet::new();
-            for seg in intersection_segments {
-                let v0 = seg.a.resulting_vertex.unwrap();
-                let v1 = seg.b.resulting_vertex.unwrap();
-
-                if let Some(&he) = self.edge_map.get(&(v0, v1)) {
-                    if let Some(f0) = self.half_edges[he].face {
-                        boundary_faces.insert(f0);
-                    }
-                    if let Some(f1) = self.half_edges[self.half_edges[he].twin].face {
-                        boundary_faces.insert(f1);
-                    }
-                }
-            }
-
-            // 3) pick a seed face that lies inside B
-            let seed_result = Self::get_seed_face_3(
-                &self,
-                &other,
-                &tree_b,
-                intersection_segments,
-                &boundary_faces,
-                include_on_surface,
-            );
-
-            if seed_result.is_none() {
-                for (f, face) in self.faces.iter().enumerate() {
-                    if face.removed {
-                        continue;
-                    }
-                    let c = self.face_centroid_fast(f);
-                    match other.point_in_mesh_3(&tree_b, &c) {
-                        PointInMeshResult::Inside => inside[f] = true,
-                        PointInMeshResult::OnSurface if include_on_surface => inside[f] = true,
-                        _ => {}
-                    }
-                }
-                return inside;
-            }
-
-            let (_seed_intersection_idx, selected_face) = seed_result.unwrap();
-
             let mut face_pairs: AHashMap<usize, Vec<usize>> = AHashMap::new();
             for seg_idx in 0..intersection_segments.len() {
                 let seg = &intersection_segments[seg_idx];
@@ -211,40 +168,44 @@ where
             // 4) iterative flood‐fill without crossing the boundary_map
             let mut queue = VecDeque::new();
 
-            // seed found as before
-            visited[selected_face] = true;
-            inside[selected_face] = true;
-            queue.push_back(selected_face);
-            let mut num_visited = 1;
+            // each region between the boundaries lies on one side of B
+            for seed in 0..self.faces.len() {
+                if self.faces[seed].removed || visited[seed] {
+                    continue;
+                }
+                let c = self.face_centroid_fast(seed);
+                let region_inside = match other.point_in_mesh_3(&tree_b, &c) {
+                    PointInMeshResult::Inside => true,
+                    PointInMeshResult::OnSurface => include_on_surface,
+                    PointInMeshResult::Outside => false,
+                };
 
-            while let Some(curr) = queue.pop_front() {
-                for nbr in self.adjacent_faces(curr) {
-                    if visited[nbr] {
-                        continue;
-                    }
+                visited[seed] = true;
+                inside[seed] = region_inside;
+                queue.push_back(seed);
 
-                    let paired = face_pairs.get(&curr);
-                    // skip exactly the neighbor that comes from the same segment split
-                    if let Some(pv) = paired {
-                        if pv.iter().any(|&pf| pf == nbr) {
-                            // this nbr is the other half of a segment splitting curr
+                while let Some(curr) = queue.pop_front() {
+                    for nbr in self.adjacent_faces(curr) {
+                        if visited[nbr] {
                             continue;
                         }
-                    }
 
-                    // otherwise, it's a genuine inside‐region adjacency
-                    visited[nbr] = true;
-                    inside[nbr] = true;
-                    num_visited += 1;
-                    queue.push_back(nbr);
+                        let paired = face_pairs.get(&curr);
+                        // skip exactly the neighbor that comes from the same segment split
+                        if let Some(pv) = paired {
+                            if pv.iter().any(|&pf| pf == nbr) {
+                                // this nbr is the other half of a segment splitting curr
+                                continue;
+                            }
+                        }
+
+                        // otherwise, it's a genuine same‐region adjacency
+                        visited[nbr] = true;
+                        inside[nbr] = region_inside;
+                        queue.push_back(nbr);
+                    }
                 }
             }
-
-            println!(
-                "Flood-fill visited {} faces out of {}",
-                num_visited,
-                self.faces.len()
-            );
         }
 
         if include_on_surface {
@@ -1105,41 +1066,6 @@ where
         triangles_per_group
     }
 
-    fn get_seed_face_3(
-        a: &Mesh<T, N>,
-        b: &Mesh<T, N>,
-        tree_b: &AabbTree<T, N, Point<T, N>, usize>,
-        intersection_segments: &Vec<IntersectionSegment<T, N>>,
-        boundary_faces: &AHashSet<usize>,
-        include_on_surface: bool,
-    ) -> Option<(usize, usize)> {
-        for (seg_idx, seg) in intersection_segments.iter().enumerate() {
-            let v0 = seg.a.resulting_vertex.unwrap();
-            let v1 = seg.b.resulting_vertex.unwrap();
-
-            if let Some(&he) = a.edge_map.get(&(v0, v1)) {
-                for &face_id in &[
-                    a.half_edges[he].face,
-                    a.half_edges[a.half_edges[he].twin].face,
-                ] {
-                    if let Some(f) = face_id {
-                        if boundary_faces.contains(&f) {
-                            let centroid = a.face_centroid_fast(f);
-                            match b.point_in_mesh_3(tree_b, &centroid) {
-                                PointInMeshResult::Inside => return Some((seg_idx, f)),
-                                PointInMeshResult::OnSurface if include_on_surface => {
-                                    return Some((seg_idx, f));
-                                }
-                                _ => {}
-                            }
-                        }
-                    }
-                }
-            }
-        }
-        None
-    }
-
     fn get_seed_face_2(
         a: &Mesh<T, N>,
         b: &Mesh<T, N>,
-- 
2.43.0


From 96ea347a47c165662c060961525dc907832a2baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:39 +0000
Subject: [PATCH 47/60] fix: decide coplanar faces by the way they face in
 boolean operations

Faces lying in the surface of the other mesh were kept or dropped in pairs.
Coinciding faces are now kept once when they face the way the result does.
Centroids are computed exactly, so that they are found on the surface.
---
 src/mesh_processing/boolean.rs | 480 +++++++--------------------------
 1 file changed, 104 insertions(+), 376 deletions(-)

diff --git a/src/mesh_processing/boolean.rs b/src/mesh_processing/boolean.rs
index 1d2952d..84d9706 100644
--- a/src/mesh_processing/boolean.rs
+++ b/src/mesh_processing/boolean.rs
@@ -32,6 +32,7 @@ use ahash::{AHashMap, AHashSet};
 
 use crate::{
     geometry::{
+        AabbTree,
         plane::{Plane, PlaneOps},
         point::{Point, PointOps},
         segment::{Segment, SegmentOps},
@@ -40,10 +41,10 @@ use crate::{
             ContactOnTri, TriPrecomp, TriTriIntersectionDetailed, segment_intersect_2d,
             tri_tri_intersection_with_precomp_detailed,
         },
-        vector::{Cross2, Cross3, Vector, VectorOps, vector_cross},
+        vector::{Cross2, Cross3, Vector, VectorOps},
     },
     mesh::{
-        basic_types::{Mesh, PointInMeshResult, VertexSource},
+        basic_types::{IntersectionHit, IntersectionResult, Mesh, PointInMeshResult, VertexSource},
         intersection_segment::{IntersectionEndPoint, IntersectionSegment},
     },
     mesh_processing::batching::{FaceJobUV, build_face_pslgs_2, build_face_pslgs_3},
@@ -93,6 +94,17 @@ pub enum SplitType {
     Face,
 }
 
+/// Where a face lies relative to the solid bounded by the other mesh.
+#[derive(Debug, Clone, Copy, PartialEq)]
+enum FaceSide {
+    Outside,
+    Inside,
+    /// On its surface, facing the same way
+    OnSame,
+    /// On its surface, facing the opposite way
+    OnOpposite,
+}
+
 #[derive(Debug, PartialEq, Eq)]
 pub enum BooleanOp {
     Union,
@@ -111,118 +123,88 @@ where
         + Div<&'a T, Output = T>
         + Neg<Output = T>,
 {
+    /// Where the face lies relative to the solid bounded by `other`.
+    fn face_side(
+        &self,
+        face: usize,
+        other: &Mesh<T, N>,
+        tree_other: &AabbTree<T, N, Point<T, N>, usize>,
+    ) -> FaceSide {
+        let c = self.face_centroid(face).0;
+        match other.point_in_mesh_3(tree_other, &c) {
+            PointInMeshResult::Inside => FaceSide::Inside,
+            PointInMeshResult::Outside => FaceSide::Outside,
+            PointInMeshResult::OnSurface => {
+                let normal = self.face_normal(face);
+                let dir = Vector::<T, N>::from_vals(from_fn(|i| normal[i].clone()));
+                let hit = match other.cast_ray_3(&c, &dir, tree_other, &None) {
+                    IntersectionResult::Hit(IntersectionHit::Face(f, _), _) => Some(f),
+                    IntersectionResult::Hit(IntersectionHit::Edge(v0, v1, _), _) => {
+                        other.half_edges[other.edge_map[&(v0, v1)]].face
+                    }
+                    IntersectionResult::Hit(IntersectionHit::Vertex(v), _) => {
+                        other.faces_around_vertex(v).first().copied()
+                    }
+                    IntersectionResult::Miss => None,
+                };
+                match hit {
+                    Some(f) if other.face_normal(f).dot(&normal).is_negative() => {
+                        FaceSide::OnOpposite
+                    }
+                    _ => FaceSide::OnSame,
+                }
+            }
+        }
+    }
+
     fn classify_faces_3(
-        &mut self,
+        &self,
         other: &Mesh<T, N>,
         intersection_segments: &Vec<IntersectionSegment<T, N>>,
-        coplanar_triangles: &Vec<CoplanarTriangle>,
-        include_on_surface: bool,
-    ) -> Vec<bool> {
-        // build adjacency & boundary‐map
+    ) -> Vec<FaceSide> {
         let tree_b = other.build_face_tree();
 
+        // Intersection edges separate the regions
+        let mut boundary = AHashSet::new();
+        for seg in intersection_segments {
+            boundary.insert(ordered(
+                seg.a.resulting_vertex.unwrap(),
+                seg.b.resulting_vertex.unwrap(),
+            ));
+        }
+
         let mut visited = vec![false; self.faces.len()];
-        let mut inside = vec![false; self.faces.len()];
+        let mut sides = vec![FaceSide::Outside; self.faces.len()];
+        let mut queue = VecDeque::new();
 
-        // Non-coplanar intersections first.
-        if intersection_segments.is_empty() {
-            for f in 0..self.faces.len() {
-                if self.faces[f].removed {
-                    continue;
-                }
-                let c = self.face_centroid_fast(f);
-                match other.point_in_mesh_3(&tree_b, &c) {
-                    PointInMeshResult::Inside => inside[f] = true,
-                    PointInMeshResult::OnSurface if include_on_surface => inside[f] = true,
-                    _ => {}
-                }
-            }
-            return inside;
-        } else {
-            let mut face_pairs: AHashMap<usize, Vec<usize>> = AHashMap::new();
-            for seg_idx in 0..intersection_segments.len() {
-                let seg = &intersection_segments[seg_idx];
-                if seg[0].resulting_vertex == seg[1].resulting_vertex {
-                    continue; // degenerate segment
-                }
-                let he = self
-                    .edge_map
-                    .get(&(
-                        seg.a.resulting_vertex.unwrap(),
-                        seg.b.resulting_vertex.unwrap(),
-                    ))
-                    .expect("Edge must exist in edge_map");
-
-                let f0 = self.half_edges[*he]
-                    .face
-                    .expect("Half-edge must have a face");
-                let f1 = self.half_edges
-                    [self.find_valid_half_edge(self.half_edges[*he].twin, &seg.segment.b)]
-                .face
-                .expect("Half-edge must have a face");
-
-                face_pairs.entry(f0).or_default().push(f1);
-                face_pairs.entry(f1).or_default().push(f0);
+        for seed in 0..self.faces.len() {
+            if self.faces[seed].removed || visited[seed] {
+                continue;
             }
+            let side = self.face_side(seed, other, &tree_b);
 
-            // 4) iterative flood‐fill without crossing the boundary_map
-            let mut queue = VecDeque::new();
-
-            // each region between the boundaries lies on one side of B
-            for seed in 0..self.faces.len() {
-                if self.faces[seed].removed || visited[seed] {
-                    continue;
-                }
-                let c = self.face_centroid_fast(seed);
-                let region_inside = match other.point_in_mesh_3(&tree_b, &c) {
-                    PointInMeshResult::Inside => true,
-                    PointInMeshResult::OnSurface => include_on_surface,
-                    PointInMeshResult::Outside => false,
-                };
+            visited[seed] = true;
+            queue.push_back(seed);
 
-                visited[seed] = true;
-                inside[seed] = region_inside;
-                queue.push_back(seed);
-
-                while let Some(curr) = queue.pop_front() {
-                    for nbr in self.adjacent_faces(curr) {
-                        if visited[nbr] {
-                            continue;
-                        }
-
-                        let paired = face_pairs.get(&curr);
-                        // skip exactly the neighbor that comes from the same segment split
-                        if let Some(pv) = paired {
-                            if pv.iter().any(|&pf| pf == nbr) {
-                                // this nbr is the other half of a segment splitting curr
-                                continue;
-                            }
+            while let Some(curr) = queue.pop_front() {
+                sides[curr] = side;
+                for he in self.face_half_edges(curr) {
+                    let twin = self.half_edges[he].twin;
+                    let edge = ordered(self.half_edges[he].vertex, self.half_edges[twin].vertex);
+                    if boundary.contains(&edge) {
+                        continue;
+                    }
+                    if let Some(nbr) = self.half_edges[twin].face {
+                        if !visited[nbr] {
+                            visited[nbr] = true;
+                            queue.push_back(nbr);
                         }
-
-                        // otherwise, it's a genuine same‐region adjacency
-                        visited[nbr] = true;
-                        inside[nbr] = region_inside;
-                        queue.push_back(nbr);
                     }
                 }
             }
         }
 
-        if include_on_surface {
-            // Now do co-planar intersections.
-            for triangle in coplanar_triangles {
-                let face = self.face_from_vertices(
-                    triangle.verts[0],
-                    triangle.verts[1],
-                    triangle.verts[2],
-                );
-                if face != usize::MAX {
-                    inside[face] = true;
-                }
-            }
-        }
-
-        inside
+        sides
     }
 
     fn classify_faces_2(
@@ -758,19 +740,13 @@ where
             vid_map.insert((VertexSource::A, i), ni);
         }
 
-        // Build chains
-        let start = Instant::now();
-        let mut a_coplanars = Self::build_links(&a, &mut intersection_segments_a);
-        let mut b_coplanars = Self::build_links(&b, &mut intersection_segments_b);
-        println!("Chains built in {:.2?}", start.elapsed());
-
         // Classify faces using topological method
         let start = Instant::now();
         let a_classification = {
             if N == 3 {
-                a.classify_faces_3(&b, &mut intersection_segments_a, &mut a_coplanars, true)
+                a.classify_faces_3(&b, &intersection_segments_a)
             } else {
-                a.classify_faces_2(&b, &intersection_segments_a)
+                sides(a.classify_faces_2(&b, &intersection_segments_a))
             }
         };
 
@@ -779,23 +755,18 @@ where
             start.elapsed()
         );
 
-        let inside = match op {
-            BooleanOp::Union => false,
-            BooleanOp::Intersection => true,
-            BooleanOp::Difference => false,
-        };
-
-        let include_on_surface = match op {
-            BooleanOp::Union => true,
-            BooleanOp::Intersection => true,
-            BooleanOp::Difference => false,
+        // Where the surfaces coincide, A's face stands for both
+        let (kept, kept_on_surface) = match op {
+            BooleanOp::Union => (FaceSide::Outside, FaceSide::OnSame),
+            BooleanOp::Intersection => (FaceSide::Inside, FaceSide::OnSame),
+            BooleanOp::Difference => (FaceSide::Outside, FaceSide::OnOpposite),
         };
 
-        for (fa, fa_inside) in a_classification.iter().enumerate() {
+        for (fa, side) in a_classification.iter().enumerate() {
             if a.faces[fa].removed {
                 continue;
             }
-            if *fa_inside == inside {
+            if *side == kept || *side == kept_on_surface {
                 let vs = a.face_vertices(fa);
                 result.add_triangle(
                     vid_map[&(VertexSource::A, vs[0])],
@@ -815,21 +786,16 @@ where
                 }
 
                 let b_classification = if N == 3 {
-                    b.classify_faces_3(
-                        &a,
-                        &mut intersection_segments_b,
-                        &mut b_coplanars,
-                        include_on_surface,
-                    )
+                    b.classify_faces_3(&a, &intersection_segments_b)
                 } else {
-                    b.classify_faces_2(&a, &intersection_segments_b)
+                    sides(b.classify_faces_2(&a, &intersection_segments_b))
                 };
 
-                for (fb, inside) in b_classification.iter().enumerate() {
+                for (fb, side) in b_classification.iter().enumerate() {
                     if b.faces[fb].removed {
                         continue;
                     }
-                    if !*inside {
+                    if *side == FaceSide::Outside {
                         let vs = b.face_vertices(fb);
                         result.add_triangle(
                             vid_map[&(VertexSource::B, vs[0])],
@@ -847,20 +813,15 @@ where
                 }
 
                 let b_classification = if N == 3 {
-                    b.classify_faces_3(
-                        &a,
-                        &mut intersection_segments_b,
-                        &mut b_coplanars,
-                        include_on_surface,
-                    )
+                    b.classify_faces_3(&a, &intersection_segments_b)
                 } else {
-                    b.classify_faces_2(&a, &intersection_segments_b)
+                    sides(b.classify_faces_2(&a, &intersection_segments_b))
                 };
-                for (fb, inside) in b_classification.iter().enumerate() {
+                for (fb, side) in b_classification.iter().enumerate() {
                     if b.faces[fb].removed {
                         continue;
                     }
-                    if *inside {
+                    if *side == FaceSide::Inside {
                         let vs = b.face_vertices(fb);
                         result.add_triangle(
                             vid_map[&(VertexSource::B, vs[0])],
@@ -879,22 +840,17 @@ where
 
                 let start = Instant::now();
                 let b_classification = if N == 3 {
-                    b.classify_faces_3(
-                        &a,
-                        &mut intersection_segments_b,
-                        &mut b_coplanars,
-                        include_on_surface,
-                    )
+                    b.classify_faces_3(&a, &intersection_segments_b)
                 } else {
-                    b.classify_faces_2(&a, &intersection_segments_b)
+                    sides(b.classify_faces_2(&a, &intersection_segments_b))
                 };
 
                 println!("B CLASSIFICATION:");
-                for (fb, inside) in b_classification.iter().enumerate() {
+                for (fb, side) in b_classification.iter().enumerate() {
                     if b.faces[fb].removed {
                         continue;
                     }
-                    if *inside {
+                    if *side == FaceSide::Inside {
                         let vs = b.face_vertices(fb);
                         // Flip face orientation for caps
                         result.add_triangle(
@@ -924,148 +880,6 @@ where
         result
     }
 
-    /// Build clean links between "intersection_segments" in-place. Removing coplanars from the collection.
-    /// Returns a separate vector of vectors of intersections that are coplanar and form graphs.
-    /// The coplanar segments are grouped by a shared plane.
-    fn build_links(
-        mesh: &Mesh<T, N>,
-        intersection_segments: &mut Vec<IntersectionSegment<T, N>>,
-    ) -> Vec<CoplanarTriangle> {
-        if intersection_segments.is_empty() {
-            return Vec::new();
-        }
-
-        if N == 2 {
-            let mut vertex_to_segments: AHashMap<usize, Vec<usize>> = AHashMap::new();
-
-            for (seg_idx, seg) in intersection_segments.iter().enumerate() {
-                let [v0, v1] = [
-                    seg.a.resulting_vertex.unwrap(),
-                    seg.b.resulting_vertex.unwrap(),
-                ];
-                vertex_to_segments.entry(v0).or_default().push(seg_idx);
-                vertex_to_segments.entry(v1).or_default().push(seg_idx);
-            }
-
-            for (seg_idx, seg) in intersection_segments.iter_mut().enumerate() {
-                let [v0, v1] = [
-                    seg.a.resulting_vertex.unwrap(),
-                    seg.b.resulting_vertex.unwrap(),
-                ];
-                let mut connected_segments = AHashSet::new();
-
-                if let Some(segments) = vertex_to_segments.get(&v0) {
-                    for &other_idx in segments {
-                        if other_idx != seg_idx {
-                            connected_segments.insert(other_idx);
-                        }
-                    }
-                }
-                if let Some(segments) = vertex_to_segments.get(&v1) {
-                    for &other_idx in segments {
-                        if other_idx != seg_idx {
-                            connected_segments.insert(other_idx);
-                        }
-                    }
-                }
-
-                seg.links.extend(connected_segments);
-            }
-
-            return Vec::new();
-        }
-
-        // First let's drain the coplanar segments into a separate structure
-        let mut coplanar_groups: AHashMap<Plane<T, N>, Vec<IntersectionSegment<T, N>>> =
-            AHashMap::new();
-
-        println!(
-            "intersection_segments.len() = {}",
-            intersection_segments.len()
-        );
-        let mut i = 0;
-        while i < intersection_segments.len() {
-            if intersection_segments[i].coplanar {
-                let seg = intersection_segments.remove(i);
-                let edge = mesh.edge_map.get(&(
-                    seg.a.resulting_vertex.unwrap(),
-                    seg.b.resulting_vertex.unwrap(),
-                ));
-                if let Some(half_edge) = edge {
-                    if let Some(face_0) = mesh.half_edges[*half_edge].face {
-                        let plane_key = mesh.plane_from_face(face_0).canonicalized();
-                        coplanar_groups
-                            .entry(plane_key)
-                            .or_default()
-                            .push(seg.clone());
-                    }
-                    if let Some(face_1) = mesh.half_edges[mesh.half_edges[*half_edge].twin].face {
-                        let plane_key = mesh.plane_from_face(face_1).canonicalized();
-                        coplanar_groups.entry(plane_key).or_default().push(seg);
-                    }
-                }
-            } else {
-                i += 1;
-            }
-        }
-        println!(
-            "intersection_segments.len() = {}",
-            intersection_segments.len()
-        );
-
-        let mut vertex_to_segments: AHashMap<usize, Vec<usize>> = AHashMap::new();
-
-        for (seg_idx, seg) in intersection_segments.iter().enumerate() {
-            let [v0, v1] = [
-                seg.a.resulting_vertex.unwrap(),
-                seg.b.resulting_vertex.unwrap(),
-            ];
-            vertex_to_segments.entry(v0).or_default().push(seg_idx);
-            vertex_to_segments.entry(v1).or_default().push(seg_idx);
-        }
-
-        // === NON-COPLANAR SEGMENTS: Build double-linked structure ===
-        for (seg_idx, seg) in intersection_segments.iter_mut().enumerate() {
-            let [v0, v1] = [
-                seg.a.resulting_vertex.unwrap(),
-                seg.b.resulting_vertex.unwrap(),
-            ];
-            let mut connected_segments = AHashSet::new();
-
-            if let Some(segments) = vertex_to_segments.get(&v0) {
-                for &other_idx in segments {
-                    if other_idx != seg_idx {
-                        connected_segments.insert(other_idx);
-                    }
-                }
-            }
-            if let Some(segments) = vertex_to_segments.get(&v1) {
-                for &other_idx in segments {
-                    if other_idx != seg_idx {
-                        connected_segments.insert(other_idx);
-                    }
-                }
-            }
-
-            let mut links: Vec<usize> = connected_segments.into_iter().collect();
-            links.sort_unstable();
-
-            seg.links.extend_from_slice(&links);
-        }
-
-        let mut triangles_per_group: Vec<CoplanarTriangle> = Vec::new();
-        for (_plane, group) in &coplanar_groups {
-            if group.len() >= 3 {
-                let triangles = extract_triangles_in_group(mesh, group);
-                triangles_per_group.extend(triangles);
-            }
-        }
-
-        // panic!("testing");
-
-        triangles_per_group
-    }
-
     fn get_seed_face_2(
         a: &Mesh<T, N>,
         b: &Mesh<T, N>,
@@ -1186,101 +1000,15 @@ pub fn remove_duplicate_and_invalid_segments<T: Scalar + Eq + Hash, const N: usi
     }
 }
 
-#[derive(Debug, Clone, Copy)]
-pub struct CoplanarTriangle {
-    verts: [usize; 3], // (a,b,c) with a<b<c
+fn sides(inside: Vec<bool>) -> Vec<FaceSide> {
+    let side = |i| if i { FaceSide::Inside } else { FaceSide::Outside };
+    inside.into_iter().map(side).collect()
 }
 
 fn ordered(a: usize, b: usize) -> (usize, usize) {
     if a < b { (a, b) } else { (b, a) }
 }
 
-fn extract_triangles_in_group<T: Scalar, const N: usize>(
-    mesh: &Mesh<T, N>,
-    group: &[IntersectionSegment<T, N>],
-) -> Vec<CoplanarTriangle>
-where
-    Point<T, N>: PointOps<T, N, Vector = Vector<T, N>>,
-    Vector<T, N>: VectorOps<T, N>,
-    for<'a> &'a T: Sub<&'a T, Output = T>
-        + Mul<&'a T, Output = T>
-        + Add<&'a T, Output = T>
-        + Div<&'a T, Output = T>,
-{
-    // 1) adjacency and one seg index per undirected edge
-    let mut adj: AHashMap<usize, AHashSet<usize>> = AHashMap::new();
-    let mut edge_to_seg: AHashMap<(usize, usize), usize> = AHashMap::new();
-
-    for (ei, seg) in group.iter().enumerate() {
-        let [v0, v1] = [
-            seg.a.resulting_vertex.unwrap(),
-            seg.b.resulting_vertex.unwrap(),
-        ];
-        adj.entry(v0).or_default().insert(v1);
-        adj.entry(v1).or_default().insert(v0);
-        edge_to_seg.entry(ordered(v0, v1)).or_insert(ei);
-    }
-
-    // quick accessor for point coords
-    let get_p = |i: usize| &mesh.vertices[i].position;
-
-    // 2) enumerate unique triangles a<b<c s.t. (a,b), (a,c), (b,c) are edges
-    let mut verts: Vec<usize> = adj.keys().copied().collect();
-    verts.sort_unstable();
-
-    let mut out = Vec::new();
-
-    for (_, &a) in verts.iter().enumerate() {
-        // neighbors of a
-        let mut na: Vec<usize> = adj[&a].iter().copied().collect();
-        na.sort_unstable();
-
-        for (bi, &b) in na.iter().enumerate() {
-            if b <= a {
-                continue;
-            }
-
-            // candidates c are neighbors of a with c>b
-            for &c in na.iter().skip(bi + 1) {
-                if c <= b {
-                    continue;
-                }
-
-                // edge (b,c) must exist to close the triangle
-                if !adj.get(&b).map_or(false, |nb| nb.contains(&c)) {
-                    continue;
-                }
-
-                // 3) reject collinear (degenerate) triangles
-                let ab = (get_p(b) - get_p(a)).as_vector();
-                let ac = (get_p(c) - get_p(a)).as_vector();
-
-                let cr = vector_cross(&ab, &ac);
-
-                let area2 = cr.dot(&cr); // squared area
-                if area2 == T::zero() {
-                    // exact-zero ok for rationals
-                    continue;
-                }
-
-                // 4) pick one segment index per edge
-                let e_ab = *edge_to_seg.get(&ordered(a, b)).unwrap();
-                let e_bc = *edge_to_seg.get(&ordered(b, c)).unwrap();
-                let e_ca = *edge_to_seg.get(&ordered(c, a)).unwrap();
-
-                // (paranoia) ensure distinct segment indices
-                if e_ab == e_bc || e_bc == e_ca || e_ab == e_ca {
-                    continue;
-                }
-
-                out.push(CoplanarTriangle { verts: [a, b, c] });
-            }
-        }
-    }
-
-    out
-}
-
 #[inline(always)]
 fn bucket_u(u: f64, eps: f64) -> i64 {
     // Quantize to tolerance-sized bins
-- 
2.43.0


From 52dd6662d209cb571a50d145670755e7630e0ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:01:14 +0000
Subject: [PATCH 48/60] fix: keep intersection segments that end at a corner of
 a face

Their other end was replaced by the corner itself, or they were pruned.
The face was then cut without them and the result did not close.
---
 src/mesh_processing/batching.rs | 63 ++-------------------------------
 1 file changed, 3 insertions(+), 60 deletions(-)

diff --git a/src/mesh_processing/batching.rs b/src/mesh_processing/batching.rs
index f0d6011..36c293a 100644
--- a/src/mesh_processing/batching.rs
+++ b/src/mesh_processing/batching.rs
@@ -452,11 +452,7 @@ where
             let mut b_res = usize::MAX;
             // project both candidates in the SAME basis you use for points_uv
             if va != usize::MAX {
-                let (u, v, _) =
-                    barycentric_coords(&mesh.vertices[va].position, pa, pb, pc).unwrap();
-                let pa_uv = Point2::new([u, v]);
-                a_res = choose_vertex_on_face(mesh, face_id, &[va, vb], &pa_uv, pa, pb, pc)
-                    .unwrap_or(va);
+                a_res = va;
                 if !boundary_verts.contains(&a_res) {
                     push_vertex_uv_3(
                         mesh,
@@ -472,11 +468,7 @@ where
             }
 
             if vb != usize::MAX {
-                let (u, v, _) =
-                    barycentric_coords(&mesh.vertices[vb].position, pa, pb, pc).unwrap();
-                let pb_uv = Point2::new([u, v]);
-                b_res = choose_vertex_on_face(mesh, face_id, &[vb, va], &pb_uv, pa, pb, pc)
-                    .unwrap_or(vb);
+                b_res = vb;
                 if !boundary_verts.contains(&b_res) {
                     push_vertex_uv_3(
                         mesh,
@@ -564,12 +556,7 @@ where
                 return seg_on_any_outer_edge(*a, *b, &points_uv);
             }
 
-            // 3) boundary–interior: allow only if the segment lies on an outer edge
-            if a_is_boundary ^ b_is_boundary {
-                return seg_on_any_outer_edge(*a, *b, &points_uv);
-            }
-
-            // 4) interior–interior: always ok (intersection chords etc.)
+            // 3) anything else: always ok (intersection chords etc.)
             true
         });
 
@@ -735,47 +722,3 @@ pub fn on_edge_with_t<TS: Scalar>(a: &Point2<TS>, b: &Point2<TS>, p: &Point2<TS>
     let t = dot / len2;
     (t >= -EPS && t <= 1.0 + EPS, t)
 }
-
-/// Return the global vertex from `candidates` that is *incident to this face*,
-/// else fall back to the nearest-on-this-face edge.
-fn choose_vertex_on_face<T: Scalar, const N: usize>(
-    mesh: &Mesh<T, N>,
-    face_id: usize,
-    candidates: &[usize],
-    projected_uv: &Point2<T>, // must be barycentric_uv in the SAME (a,b,c) basis
-    pa: &Point<T, N>,
-    pb: &Point<T, N>,
-    pc: &Point<T, N>,
-) -> Option<usize>
-where
-    Point<T, N>: PointOps<T, N, Vector = Vector<T, N>>,
-    Vector<T, N>: VectorOps<T, N>,
-    for<'a> &'a T: std::ops::Sub<&'a T, Output = T>
-        + std::ops::Mul<&'a T, Output = T>
-        + std::ops::Add<&'a T, Output = T>
-        + std::ops::Div<&'a T, Output = T>
-        + std::ops::Neg<Output = T>,
-{
-    // 1) prefer a candidate that touches this face
-    for &g in candidates {
-        if g < mesh.vertices.len() && mesh.vertex_touches_face(g, face_id) {
-            return Some(g);
-        }
-    }
-    // 2) otherwise: minimal barycentric-UV distance
-    let mut best: Option<(usize, T)> = None;
-    for &g in candidates {
-        if g >= mesh.vertices.len() {
-            continue;
-        }
-        let p = &mesh.vertices[g].position;
-        let (u, v, _) = barycentric_coords(p, pa, pb, pc).unwrap();
-        let du = &u - &projected_uv[0];
-        let dv = &v - &projected_uv[1];
-        let d2 = &du * &du + &dv * &dv;
-        if best.as_ref().map_or(true, |(_, bd2)| d2 < *bd2) {
-            best = Some((g, d2));
-        }
-    }
-    best.map(|(g, _)| g)
-}
-- 
2.43.0


From 7f6edfd71917e8cc3aa75083b4882cfb62cad2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:15:47 +0000
Subject: [PATCH 49/60] fix: combine with an empty mesh in boolean operations

---
 src/mesh_processing/boolean.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mesh_processing/boolean.rs b/src/mesh_processing/boolean.rs
index 84d9706..2f232d0 100644
--- a/src/mesh_processing/boolean.rs
+++ b/src/mesh_processing/boolean.rs
@@ -162,6 +162,11 @@ where
         other: &Mesh<T, N>,
         intersection_segments: &Vec<IntersectionSegment<T, N>>,
     ) -> Vec<FaceSide> {
+        let mut sides = vec![FaceSide::Outside; self.faces.len()];
+        if other.faces.iter().all(|f| f.removed) {
+            // Nothing lies inside an empty mesh
+            return sides;
+        }
         let tree_b = other.build_face_tree();
 
         // Intersection edges separate the regions
@@ -174,7 +179,6 @@ where
         }
 
         let mut visited = vec![false; self.faces.len()];
-        let mut sides = vec![FaceSide::Outside; self.faces.len()];
         let mut queue = VecDeque::new();
 
         for seed in 0..self.faces.len() {
@@ -310,6 +314,9 @@ where
         Vec<IntersectionSegment<T, N>>,
         Vec<IntersectionSegment<T, N>>,
     ) {
+        if other.faces.iter().all(|f| f.removed) {
+            return (Vec::new(), Vec::new());
+        }
         let start = Instant::now();
         let tree_b = other.build_face_tree();
         println!("Total AABB computation: {:.2?}", start.elapsed());
-- 
2.43.0


From a41358c279dfdcf1873a87aef0624180214ac94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:04 +0000
Subject: [PATCH 50/60] fix: keep vertex lookup in step with smoothing

A smoothed vertex stayed filed under its old position.
Looking it up at its new position created a second vertex.
---
 src/mesh/core.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index e845a89..2053739 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -1413,9 +1413,7 @@ impl_mesh! {
         // ...existing degeneracy check...
 
         // Commit new position
-        self.vertices[v].position[0] = axp;
-        self.vertices[v].position[1] = ayp;
-        self.vertices[v].position[2] = azp;
+        self.set_vertex_position(v, new_pos);
 
         true
     }
-- 
2.43.0


From 85bed2b2b200c3cc99a4228a02d612f9d1d5a56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:04 +0000
Subject: [PATCH 51/60] fix: do not turn triangles over when smoothing

A vertex that does not see every side of its ring was moved across a side.
The triangle on that side then faced the other way.
---
 src/mesh/core.rs | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/mesh/core.rs b/src/mesh/core.rs
index 2053739..8cab40c 100644
--- a/src/mesh/core.rs
+++ b/src/mesh/core.rs
@@ -1409,8 +1409,33 @@ impl_mesh! {
             }
         }
 
-        // Fast rejection using ball approximation for degeneracy check
-        // ...existing degeneracy check...
+        // Reject a move that turns a triangle over or flattens it
+        for &(he, b_idx) in &valid_neighbors {
+            if self.half_edges[he].face.is_none() {
+                continue;
+            }
+            let c_idx = self.half_edges[self.half_edges[he].next].vertex;
+            let b = &self.vertices[b_idx].position;
+            let c = &self.vertices[c_idx].position;
+
+            let normal = |p: &Point<T, N>| {
+                let (ux, uy, uz) = (&b[0] - &p[0], &b[1] - &p[1], &b[2] - &p[2]);
+                let (vx, vy, vz) = (&c[0] - &p[0], &c[1] - &p[1], &c[2] - &p[2]);
+                [
+                    &(&uy * &vz) - &(&uz * &vy),
+                    &(&uz * &vx) - &(&ux * &vz),
+                    &(&ux * &vy) - &(&uy * &vx),
+                ]
+            };
+            let dot = |m: &[T; 3], n: &[T; 3]| &m[0] * &n[0] + &m[1] * &n[1] + &m[2] * &n[2];
+            let before = normal(a);
+            if dot(&before, &before).is_zero() {
+                continue;
+            }
+            if !dot(&before, &normal(&new_pos)).is_positive() {
+                return false;
+            }
+        }
 
         // Commit new position
         self.set_vertex_position(v, new_pos);
-- 
2.43.0


From 2a135c431a6e33c2249226bde05710ea234297e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:04 +0000
Subject: [PATCH 52/60] fix: reject edge collapses that flip a face

The option to forbid normal flips is on by default but was never looked at.
Collapsing an edge could turn a neighbouring triangle over.
---
 src/mesh/edge_collapse.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/mesh/edge_collapse.rs b/src/mesh/edge_collapse.rs
index c9b9c7a..cfc1e8b 100644
--- a/src/mesh/edge_collapse.rs
+++ b/src/mesh/edge_collapse.rs
@@ -257,6 +257,9 @@ impl_mesh! {
             if a2x4 <= &(&eps * &eps) * &(&eps * &eps) {
                 return Err(CollapseReject::DegenerateFace);
             }
+            if opts.forbid_normal_flip && self.normal_flips_after_move_face(f, v0, v1, &p_star) {
+                return Err(CollapseReject::NormalFlip);
+            }
         }
 
         Ok(p_star)
@@ -301,6 +304,27 @@ impl_mesh! {
         n.dot(&n) // (2*area)^2
     }
 
+    fn normal_flips_after_move_face(
+        &self,
+        f: usize,
+        v_keep: usize,
+        v_gone: usize,
+        p_star: &Point<T, N>,
+    ) -> bool
+    where
+        Vector<T, N>: VectorOps<T, N> + Cross3<T>,
+    {
+        let idx = self.face_vertices(f);
+        let normal = |p: [&Point<T, N>; 3]| {
+            (p[1] - p[0]).as_vector().cross(&(p[2] - p[0]).as_vector())
+        };
+        let old = normal(idx.map(|i| &self.vertices[i].position));
+        let new = normal(idx.map(|i| {
+            if i == v_keep || i == v_gone { p_star } else { &self.vertices[i].position }
+        }));
+        old.dot(&new).is_negative()
+    }
+
     /// Begin collapse from a half-edge handle `he_ab`.
     /// Convention here: keep `a`, delete `b`.
     pub fn collapse_edge_begin_he(
-- 
2.43.0


From 4583a0ffecd863e6ca5208a4618e46227974c864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:04 +0000
Subject: [PATCH 53/60] fix: reject edge collapses that leave two faces on the
 same vertices

Collapsing an edge of a tetrahedron left two faces back to back.
Splitting an edge of these corrupted the mesh, and remeshing could panic.
---
 src/mesh/edge_collapse.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mesh/edge_collapse.rs b/src/mesh/edge_collapse.rs
index cfc1e8b..64120e1 100644
--- a/src/mesh/edge_collapse.rs
+++ b/src/mesh/edge_collapse.rs
@@ -239,6 +239,16 @@ impl_mesh! {
             if pr.ring0.is_border && pr.ring1.is_border && goes_on(a) && goes_on(b) {
                 return Err(CollapseReject::LinkCondition);
             }
+            // Faces over edge ab at both ends would become two faces on the same three vertices.
+            let faces0 = self.incident_faces(v0);
+            let faces1 = self.incident_faces(v1);
+            let meets_ab = |f: &usize| {
+                let idx = self.face_vertices(*f);
+                idx.contains(&a) && idx.contains(&b)
+            };
+            if faces0.iter().any(meets_ab) && faces1.iter().any(meets_ab) {
+                return Err(CollapseReject::LinkCondition);
+            }
         }
         if self.would_create_duplicate_edges(v0, v1) {
             return Err(CollapseReject::DuplicateEdges);
-- 
2.43.0


From d8ca69392d3fad92120977a6084001bab9fcef96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:04 +0000
Subject: [PATCH 54/60] fix: do not panic on coincident vertices when flipping
 edges in remeshing

No angle is defined for a triangle with two corners at one place.
Such an edge is now left alone.
---
 src/mesh_processing/remesh.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mesh_processing/remesh.rs b/src/mesh_processing/remesh.rs
index f09f11b..eb94c17 100644
--- a/src/mesh_processing/remesh.rs
+++ b/src/mesh_processing/remesh.rs
@@ -219,13 +219,13 @@ impl_mesh! {
         if v2 == v3 { return false; } // would collapse
 
         // Old triangles: (v0,v1,v2) and (v1,v0,v3)
-        let old1 = self.tri_min_angle_cos_f64(v0,v1,v2).unwrap();
-        let old2 = self.tri_min_angle_cos_f64(v1,v0,v3).unwrap();
+        let Some(old1) = self.tri_min_angle_cos_f64(v0,v1,v2) else { return false; };
+        let Some(old2) = self.tri_min_angle_cos_f64(v1,v0,v3) else { return false; };
         let old_min = old1.max(old2); // since each returns cos(minAngle of tri), worst small angle
 
         // New triangles after flip: (v0,v2,v3) and (v1,v3,v2)
-        let new1 = self.tri_min_angle_cos_f64(v0,v2,v3).unwrap();
-        let new2 = self.tri_min_angle_cos_f64(v1,v3,v2).unwrap();
+        let Some(new1) = self.tri_min_angle_cos_f64(v0,v2,v3) else { return false; };
+        let Some(new2) = self.tri_min_angle_cos_f64(v1,v3,v2) else { return false; };
         let new_min = new1.max(new2);
 
         // Require a strict improvement with a small epsilon
-- 
2.43.0


From d306bbedf1f17bcc539a32b91ebff7ebba845d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:45:04 +0000
Subject: [PATCH 55/60] fix: do not fold the surface when flipping edges in
 remeshing

The diagonal of a quad with a reflex corner was flipped as well.
One of the new triangles then lay over the other, facing the other way.
---
 src/mesh_processing/remesh.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/mesh_processing/remesh.rs b/src/mesh_processing/remesh.rs
index eb94c17..2f76ed0 100644
--- a/src/mesh_processing/remesh.rs
+++ b/src/mesh_processing/remesh.rs
@@ -246,7 +246,15 @@ impl_mesh! {
         area_safe(&pa,&pb,&pc) &&
         area_safe(&pb,&pa,&pd) &&
         area_safe(&pa,&pc,&pd) &&
-        area_safe(&pb,&pd,&pc)
+        area_safe(&pb,&pd,&pc) && {
+            // The new triangles must face the way the old pair does
+            let normal = |p0: &Point::<T, N>, p1: &Point::<T, N>, p2: &Point::<T, N>| {
+                (p1 - p0).as_vector().cross(&(p2 - p0).as_vector())
+            };
+            let old = &normal(&pa,&pb,&pc) + &normal(&pb,&pa,&pd);
+            normal(&pa,&pd,&pc).dot(&old).is_positive() &&
+            normal(&pb,&pc,&pd).dot(&old).is_positive()
+        }
     }
 
     /// Flip edges using quality-based predicate plus lightweight valence improvement.
-- 
2.43.0


From 8b9616f39eb0dbbf0f72edea94590fef0c09922a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:54:36 +0000
Subject: [PATCH 56/60] fix: use every coordinate in the parameter along a
 canonical edge

---
 src/geometry/canonical_edge.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/geometry/canonical_edge.rs b/src/geometry/canonical_edge.rs
index ea7fa15..eded1ff 100644
--- a/src/geometry/canonical_edge.rs
+++ b/src/geometry/canonical_edge.rs
@@ -56,13 +56,17 @@ impl<T: Scalar, const N: usize> CanonicalEdge<T, N> {
         let edge_vec = &self.b - &self.a;
         let point_vec = p - &self.a;
 
-        let edge_len2 = &(&edge_vec[0] * &edge_vec[0]) + &(&edge_vec[1] * &edge_vec[1]);
+        let mut edge_len2 = T::zero();
+        let mut dot = T::zero();
+        for i in 0..N {
+            edge_len2 = &edge_len2 + &(&edge_vec[i] * &edge_vec[i]);
+            dot = &dot + &(&point_vec[i] * &edge_vec[i]);
+        }
 
         if edge_len2.is_zero() {
             return T::zero();
         }
 
-        let dot = &(&point_vec[0] * &edge_vec[0]) + &(&point_vec[1] * &edge_vec[1]);
         dot / edge_len2
     }
 }
-- 
2.43.0


From a24a98efaecc11eeaf82b95f7840d271896ae7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:54:36 +0000
Subject: [PATCH 57/60] fix: do not bring signed zeros back when a plane's
 canonical form is flipped

---
 src/geometry/plane.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/geometry/plane.rs b/src/geometry/plane.rs
index ab4ea61..f1275ae 100644
--- a/src/geometry/plane.rs
+++ b/src/geometry/plane.rs
@@ -74,14 +74,15 @@ where
                 for x in plane.normal.coords_mut() {
                     *x = x.clone() / s.clone();
                 }
-                plane.d = plane.d / s;
+                // Adding zero removes a signed zero
+                plane.d = plane.d / s + T::zero();
             }
             // flip if original first non-zero was negative
             if c < T::zero() {
                 for x in plane.normal.coords_mut() {
-                    *x = -x.clone();
+                    *x = T::zero() - x.clone();
                 }
-                plane.d = -plane.d;
+                plane.d = T::zero() - plane.d;
             }
         }
         plane
-- 
2.43.0


From f62611d6cc98daf1180d406a95bf431578cbcc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:09:16 +0000
Subject: [PATCH 58/60] fix: convert scalars to integers without going through
 a rounded or clamped double

---
 src/numeric/cgar_f64.rs      | 4 ++--
 src/numeric/cgar_rational.rs | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/numeric/cgar_f64.rs b/src/numeric/cgar_f64.rs
index 353983d..ee9a728 100644
--- a/src/numeric/cgar_f64.rs
+++ b/src/numeric/cgar_f64.rs
@@ -244,10 +244,10 @@ impl From<LazyExact> for CgarF64 {
 
 impl ToPrimitive for CgarF64 {
     fn to_i64(&self) -> Option<i64> {
-        Some(self.0 as i64)
+        self.0.to_i64()
     }
     fn to_u64(&self) -> Option<u64> {
-        Some(self.0 as u64)
+        self.0.to_u64()
     }
     fn to_f32(&self) -> Option<f32> {
         Some(self.0 as f32)
diff --git a/src/numeric/cgar_rational.rs b/src/numeric/cgar_rational.rs
index 0663444..cef2bb9 100644
--- a/src/numeric/cgar_rational.rs
+++ b/src/numeric/cgar_rational.rs
@@ -21,7 +21,7 @@
 // SOFTWARE.
 
 use num_traits::ToPrimitive;
-use rug::Rational;
+use rug::{Integer, Rational};
 
 use crate::{
     geometry::util::{f64_next_down, f64_next_up},
@@ -253,10 +253,10 @@ impl From<LazyExact> for CgarRational {
 
 impl ToPrimitive for CgarRational {
     fn to_i64(&self) -> Option<i64> {
-        Some(self.0.to_f64() as i64)
+        Integer::from(self.0.trunc_ref()).to_i64()
     }
     fn to_u64(&self) -> Option<u64> {
-        Some(self.0.to_f64() as u64)
+        Integer::from(self.0.trunc_ref()).to_u64()
     }
     fn to_f32(&self) -> Option<f32> {
         Some(self.0.to_f64() as f32)
-- 
2.43.0


From 4983cc1f30080d6485e5211527a35426cdfa6294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:56:27 +0000
Subject: [PATCH 59/60] fix: report STL facets without three vertices instead
 of dropping them

---
 src/io/stl.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/io/stl.rs b/src/io/stl.rs
index 9627f15..a83fa93 100644
--- a/src/io/stl.rs
+++ b/src/io/stl.rs
@@ -148,7 +148,12 @@ where
             }
             Some("facet") => {
                 // Start of facet, normal is ignored during reading
-                vertices.clear();
+                if !vertices.is_empty() {
+                    return Err(io::Error::new(
+                        io::ErrorKind::InvalidData,
+                        "STL: facet is not closed",
+                    ));
+                }
             }
             Some("vertex") => {
                 let x: f64 = parts
@@ -184,9 +189,13 @@ where
                 vertices.push(vid);
             }
             Some("endfacet") => {
-                if vertices.len() == 3 {
-                    mesh.add_triangle(vertices[0], vertices[1], vertices[2]);
+                if vertices.len() != 3 {
+                    return Err(io::Error::new(
+                        io::ErrorKind::InvalidData,
+                        "STL: facet does not have three vertices",
+                    ));
                 }
+                mesh.add_triangle(vertices[0], vertices[1], vertices[2]);
                 vertices.clear();
             }
             Some("endsolid") => {
@@ -199,5 +208,12 @@ where
         }
     }
 
+    if !vertices.is_empty() {
+        return Err(io::Error::new(
+            io::ErrorKind::InvalidData,
+            "STL: file ends within a facet",
+        ));
+    }
+
     Ok(mesh)
 }
-- 
2.43.0


From 8ffd1cfec0779b399ca0c94b57eeb425cdb9d03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:56:28 +0000
Subject: [PATCH 60/60] fix: leave removed vertices out of OBJ and OFF files

---
 src/io/obj.rs | 14 ++++++++++----
 src/io/off.rs | 15 +++++++++++----
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/io/obj.rs b/src/io/obj.rs
index 0600456..c68ac56 100644
--- a/src/io/obj.rs
+++ b/src/io/obj.rs
@@ -53,8 +53,15 @@ where
     let file = File::create(path)?;
     let mut out = BufWriter::new(file);
 
-    // 1) write vertices
-    for v in &mesh.vertices {
+    // 1) write vertices (1-based indices of the ones that are left)
+    let mut index = vec![0; mesh.vertices.len()];
+    let mut count = 0;
+    for (i, v) in mesh.vertices.iter().enumerate() {
+        if v.removed {
+            continue; // skip removed vertices
+        }
+        count += 1;
+        index[i] = count;
         let coords = v.position.coords();
         writeln!(
             out,
@@ -71,8 +78,7 @@ where
             continue; // skip removed faces
         }
         let vs = mesh.face_vertices(f);
-        // OBJ is 1-based
-        writeln!(out, "f {:?} {:?} {:?}", vs[0] + 1, vs[1] + 1, vs[2] + 1)?;
+        writeln!(out, "f {:?} {:?} {:?}", index[vs[0]], index[vs[1]], index[vs[2]])?;
     }
 
     out.flush()
diff --git a/src/io/off.rs b/src/io/off.rs
index 9e9edc5..634c8d1 100644
--- a/src/io/off.rs
+++ b/src/io/off.rs
@@ -61,14 +61,21 @@ where
 
     // Count non-removed faces
     let face_count = mesh.faces.iter().filter(|f| !f.removed).count();
-    let vert_count = mesh.vertices.len();
+    let vert_count = mesh.vertices.iter().filter(|v| !v.removed).count();
 
     // OFF header (edges count can be 0 if unknown)
     writeln!(out, "OFF")?;
     writeln!(out, "{} {} {}", vert_count, face_count, 0)?;
 
-    // 1) vertices
-    for v in &mesh.vertices {
+    // 1) vertices (zero-based indices of the ones that are left)
+    let mut index = vec![0; mesh.vertices.len()];
+    let mut next = 0;
+    for (i, v) in mesh.vertices.iter().enumerate() {
+        if v.removed {
+            continue;
+        }
+        index[i] = next;
+        next += 1;
         let c = v.position.coords();
         // OFF requires plain numbers (typically floats)
         writeln!(
@@ -87,7 +94,7 @@ where
         }
         let vs = mesh.face_vertices(f);
         // OFF face line: "<n> v0 v1 v2"
-        writeln!(out, "3 {} {} {}", vs[0], vs[1], vs[2])?;
+        writeln!(out, "3 {} {} {}", index[vs[0]], index[vs[1]], index[vs[2]])?;
     }
 
     out.flush()
-- 
2.43.0

