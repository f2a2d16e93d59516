From 415ba2e36e7a9c44115745450681cb68f4ae684f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 01/33] fix: AxisTransform2d::inverse ignored the scale when
 inverting the position

---
 src/col2d/transformation2d/axis_transform2d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/col2d/transformation2d/axis_transform2d.rs b/src/col2d/transformation2d/axis_transform2d.rs
index e5dd49e..ba621b0 100644
--- a/src/col2d/transformation2d/axis_transform2d.rs
+++ b/src/col2d/transformation2d/axis_transform2d.rs
@@ -41,7 +41,7 @@ impl Transformation2d for AxisTransform2d {
 impl Invertible for AxisTransform2d {
     fn inverse(&self) -> Self {
         Self {
-            pos: -self.pos,
+            pos: self.unapply(Vec2::ZERO),
             scale: 1.0 / self.scale,
         }
     }
-- 
2.43.0


From e16a4d7a5b387b6dee87fe72defb4178029b3339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 02/33] fix: the default AxisTransform2d collapsed everything
 to scale zero

---
 src/col2d/transformation2d/axis_transform2d.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/col2d/transformation2d/axis_transform2d.rs b/src/col2d/transformation2d/axis_transform2d.rs
index ba621b0..aac6031 100644
--- a/src/col2d/transformation2d/axis_transform2d.rs
+++ b/src/col2d/transformation2d/axis_transform2d.rs
@@ -1,11 +1,16 @@
 use super::*;
 
-#[derive(Default)]
 pub struct AxisTransform2d {
     pos: Vec2,
     scale: f32,
 }
 
+impl Default for AxisTransform2d {
+    fn default() -> Self {
+        Self::new(Vec2::ZERO, 1.0)
+    }
+}
+
 impl AxisTransform2d {
     pub const fn new(pos: Vec2, scale: f32) -> Self {
         Self { pos, scale }
-- 
2.43.0


From 6eaf7fb07349ed63617c0a86dae73afa2bb9e041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 03/33] fix: Penetrates2d and DistanceTo2d returned vectors in
 a's local space

---
 src/col2d/detection/distance_to.rs | 3 ++-
 src/col2d/detection/penetrates.rs  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/col2d/detection/distance_to.rs b/src/col2d/detection/distance_to.rs
index 23f6f4f..c6828a4 100644
--- a/src/col2d/detection/distance_to.rs
+++ b/src/col2d/detection/distance_to.rs
@@ -79,6 +79,7 @@ where
         let a: Collider2d<'a, A, T> = self.into();
         let b: Collider2d<'a, B, T> = bb.into();
         let rel = a.transform.delta_transform(b.transform);
-        a.shape.distance_to_rel(b.shape, &rel)
+        let distance_local = a.shape.distance_to_rel(b.shape, &rel);
+        distance_local.map(|v| a.transform.apply_normal(v))
     }
 }
diff --git a/src/col2d/detection/penetrates.rs b/src/col2d/detection/penetrates.rs
index db96494..fcfc698 100644
--- a/src/col2d/detection/penetrates.rs
+++ b/src/col2d/detection/penetrates.rs
@@ -71,6 +71,7 @@ where
         let a: Collider2d<'a, A, T> = self.into();
         let b: Collider2d<'a, B, T> = bb.into();
         let rel = a.transform.delta_transform(b.transform);
-        a.shape.penetrates_rel(b.shape, &rel)
+        let penetration_local = a.shape.penetrates_rel(b.shape, &rel);
+        penetration_local.map(|v| a.transform.apply_normal(v))
     }
 }
-- 
2.43.0


From 3c4baf4b8b4b48622fffeaef3b9628ad7e9fc045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 04/33] fix: Tilemap::remove_tile announced absent chunks as
 removed and hid changes

---
 src/col2d/shape/tilemap.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/col2d/shape/tilemap.rs b/src/col2d/shape/tilemap.rs
index 12e5cd4..0b9da44 100644
--- a/src/col2d/shape/tilemap.rs
+++ b/src/col2d/shape/tilemap.rs
@@ -108,11 +108,16 @@ impl Tilemap {
 
     pub fn remove_tile(&mut self, pos: V2i32) {
         let (chunk_pos, local) = pos.modular_decompose(CHUNK_SIZE);
-        let chunk = self.chunks.entry(chunk_pos).or_default();
+        let Some(chunk) = self.chunks.get_mut(&chunk_pos) else {
+            return;
+        };
+        let changed = chunk.array2d.get(local).is_some_and(|x| *x != 0);
         chunk.array2d.set(local, 0);
         if chunk.array2d.data.iter().all(|x| x == &0) {
             self.events.notify(TilemapEvent::ChunkRemoved(chunk_pos));
             self.chunks.remove(&chunk_pos);
+        } else if changed {
+            self.events.notify(TilemapEvent::ChunkChanged(chunk_pos));
         }
     }
 
-- 
2.43.0


From e570befea9a68a95657f5df16b08712cc01c64ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 05/33] fix: Rect2i32::pad moved the rectangle instead of
 growing it

---
 src/utils/rect2.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/rect2.rs b/src/utils/rect2.rs
index 9037e88..77455f5 100644
--- a/src/utils/rect2.rs
+++ b/src/utils/rect2.rs
@@ -14,7 +14,7 @@ impl Rect2i32 {
     pub fn pad(self, padding: V2i32) -> Self {
         Self {
             min: self.min - padding,
-            max: self.max - padding,
+            max: self.max + padding,
         }
     }
 
-- 
2.43.0


From 2854e1a6cd475fcb88976143971d09773fde7ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 06/33] fix: GJK queries printed to stdout

---
 src/col2d/shape/local_minkowski_diff/v.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/col2d/shape/local_minkowski_diff/v.rs b/src/col2d/shape/local_minkowski_diff/v.rs
index 4be036a..ce1ca96 100644
--- a/src/col2d/shape/local_minkowski_diff/v.rs
+++ b/src/col2d/shape/local_minkowski_diff/v.rs
@@ -17,7 +17,7 @@ where
     T: Transformation2d,
 {
     fn sdfv_minkowski(&self) -> (bool, Vec2) {
-        println!("[ GJK (collision only)]");
+        trace!("[ GJK (collision only)]");
         let mut direction = self.initial_direction();
         trace!("initial direction: {}", direction);
         let mut simplex = Simplex2d::new();
@@ -60,7 +60,7 @@ where
     T: Transformation2d,
 {
     fn sdfv_minkowski(&self) -> (bool, Vec2) {
-        println!("[ GJK (distance only)]");
+        trace!("[ GJK (distance only)]");
         let mut direction = self.initial_direction();
         let mut simplex = Simplex2d::new();
         let iteration_limit = 20;
-- 
2.43.0


From 0e806f85c40a738204d44c828f53a778b81185df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 07/33] fix: GJK distance query did not terminate reliably and
 reported wrong collisions

---
 src/col2d/shape/local_minkowski_diff/v.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/col2d/shape/local_minkowski_diff/v.rs b/src/col2d/shape/local_minkowski_diff/v.rs
index ce1ca96..4b2de14 100644
--- a/src/col2d/shape/local_minkowski_diff/v.rs
+++ b/src/col2d/shape/local_minkowski_diff/v.rs
@@ -74,7 +74,11 @@ where
 
             if fitness <= 0.0 {
                 let last_fitness = last_a.dot(direction);
-                if fitness <= last_fitness {
+                if !is_a_sufficiently_better_than_b(
+                    fitness,
+                    last_fitness,
+                    DISTANCE_ITERATION_FITNESS_RELATIVE_IMPROVEMENT_REQUIRED,
+                ) {
                     return (false, simplex.distance_to_origin());
                 }
             }
-- 
2.43.0


From 4677ae738d5fec480ffc99ee242eba3969767545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 08/33] fix: sdfv panicked on touching shapes

---
 src/col2d/shape/local_minkowski_diff/mod.rs | 2 +-
 src/col2d/shape/local_minkowski_diff/v.rs   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/col2d/shape/local_minkowski_diff/mod.rs b/src/col2d/shape/local_minkowski_diff/mod.rs
index 1b3f4a7..58d6ea4 100644
--- a/src/col2d/shape/local_minkowski_diff/mod.rs
+++ b/src/col2d/shape/local_minkowski_diff/mod.rs
@@ -1,6 +1,6 @@
 mod v;
 
-use crate::{error, info, trace, warn};
+use crate::{info, trace, warn};
 
 use super::*;
 
diff --git a/src/col2d/shape/local_minkowski_diff/v.rs b/src/col2d/shape/local_minkowski_diff/v.rs
index 4b2de14..4bd6cd7 100644
--- a/src/col2d/shape/local_minkowski_diff/v.rs
+++ b/src/col2d/shape/local_minkowski_diff/v.rs
@@ -216,8 +216,9 @@ where
 
             let (collides, new_direction) = simplex.add_point(a);
             if collides && !collision_possible {
-                error!("Simplex collided after collision was no longer possible");
-                panic!("Simplex collided after collision was no longer possible");
+                // The boundary passes within rounding error of the origin: the shapes touch.
+                warn!("Simplex collided after collision was no longer possible");
+                return (false, Vec2::ZERO);
             }
             trace!("new direction: {}", new_direction);
             // very close to zero. This is a sign that the origin lies on the boundary of the
-- 
2.43.0


From a9cabe2971ddc8f74868798d4e58da6b0b3abba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 09/33] fix: GJK mistook small shapes for degenerate ones

---
 src/col2d/shape/local_minkowski_diff/v.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/col2d/shape/local_minkowski_diff/v.rs b/src/col2d/shape/local_minkowski_diff/v.rs
index 4bd6cd7..e45aed1 100644
--- a/src/col2d/shape/local_minkowski_diff/v.rs
+++ b/src/col2d/shape/local_minkowski_diff/v.rs
@@ -254,5 +254,5 @@ where
 }
 
 fn direction_is_too_small(direction: Vec2) -> bool {
-    direction.length_squared() < f32::EPSILON * f32::EPSILON
+    direction.length_squared() < f32::MIN_POSITIVE
 }
-- 
2.43.0


From 873989b3e0d6ee385261ea4b839c975476aaa43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 10/33] fix: GJK searched along an edge when the closest
 feature is a vertex

---
 src/col2d/shape/local_minkowski_diff/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/col2d/shape/local_minkowski_diff/mod.rs b/src/col2d/shape/local_minkowski_diff/mod.rs
index 58d6ea4..1cc8c36 100644
--- a/src/col2d/shape/local_minkowski_diff/mod.rs
+++ b/src/col2d/shape/local_minkowski_diff/mod.rs
@@ -204,6 +204,10 @@ impl Simplex2d {
                         self.0.points = vec![a, b];
                         trace!("points after: {:?}", self.0.points);
                         (false, ab_perp)
+                    } else if !same_direction(ac, ao) {
+                        trace!("opposite direction ab ao and ac ao");
+                        self.0.points = vec![a];
+                        (false, ao)
                     } else {
                         trace!("opposite direction ab ao");
                         self.0.points = vec![a, c];
@@ -214,6 +218,10 @@ impl Simplex2d {
                     // self.0.points = vec![a, b];
                     // trace!("points after: {:?}", self.0.points);
                     // (false, ab_perp)
+                } else if same_direction(ac_perp, ao) && !same_direction(ac, ao) {
+                    trace!("same direction ac_perp ao, opposite direction ac ao");
+                    self.0.points = vec![a];
+                    (false, ao)
                 } else if same_direction(ac_perp, ao) {
                     trace!("same direction ac_perp ao");
                     self.0.points = vec![a, c];
-- 
2.43.0


From ef7f61d79d8f59921c28a3023dd76e5cd595d822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 11/33] fix: EPA reported zero penetration when it ran out of
 iterations

---
 src/col2d/shape/local_minkowski_diff/mod.rs | 12 ++++++++----
 src/col2d/shape/local_minkowski_diff/v.rs   |  4 ++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/col2d/shape/local_minkowski_diff/mod.rs b/src/col2d/shape/local_minkowski_diff/mod.rs
index 1cc8c36..aacc396 100644
--- a/src/col2d/shape/local_minkowski_diff/mod.rs
+++ b/src/col2d/shape/local_minkowski_diff/mod.rs
@@ -79,6 +79,7 @@ impl EpaPoly2d {
             self.0.points
         );
 
+        let mut penetration = Vec2::ZERO;
         for _i in 0..iteration_limit {
             trace!("[EPA] iteration {}", _i);
             let (edge_index, a, b) = self.find_closest_edge();
@@ -91,6 +92,9 @@ impl EpaPoly2d {
             trace!("fitness: {}", fitness);
             let fitness_to_beat = a.dot(normal);
             trace!("fitness to beat: {}", fitness_to_beat);
+            let denom = normal.dot(normal);
+            trace!("denom: {}", denom);
+            penetration = normal * (-fitness / denom);
 
             if !is_a_sufficiently_better_than_b(
                 fitness,
@@ -98,9 +102,7 @@ impl EpaPoly2d {
                 DISTANCE_ITERATION_FITNESS_RELATIVE_IMPROVEMENT_REQUIRED,
             ) {
                 trace!("EPA converged");
-                let denom = normal.dot(normal);
-                trace!("denom: {}", denom);
-                return normal * (-fitness / denom);
+                return penetration;
             }
 
             trace!("splitting edge at index {}", edge_index);
@@ -110,7 +112,7 @@ impl EpaPoly2d {
 
         warn!("EPA did not converge in {} iterations", iteration_limit);
 
-        Vec2::ZERO
+        penetration
     }
 
     fn find_closest_edge(&self) -> (usize, Vec2, Vec2) {
@@ -338,6 +340,8 @@ impl Cross2d for Vec2 {
     }
 }
 
+const EPA_ITERATION_LIMIT: usize = 64;
+
 const DISTANCE_ITERATION_FITNESS_RELATIVE_IMPROVEMENT_REQUIRED: f32 = 0.01;
 
 fn is_a_sufficiently_better_than_b(a: f32, b: f32, t: f32) -> bool {
diff --git a/src/col2d/shape/local_minkowski_diff/v.rs b/src/col2d/shape/local_minkowski_diff/v.rs
index e45aed1..f3ea540 100644
--- a/src/col2d/shape/local_minkowski_diff/v.rs
+++ b/src/col2d/shape/local_minkowski_diff/v.rs
@@ -152,7 +152,7 @@ where
                 trace!("Simplex collides");
                 simplex.enforce_counter_clockwise_winding();
                 let mut epa = EpaPoly2d(simplex.0);
-                let penetration = epa.calculate_penetration(&self, iteration_limit);
+                let penetration = epa.calculate_penetration(&self, EPA_ITERATION_LIMIT);
                 return (true, penetration);
             }
 
@@ -238,7 +238,7 @@ where
                 trace!("Simplex collides");
                 simplex.enforce_counter_clockwise_winding();
                 let mut epa = EpaPoly2d(simplex.0);
-                let penetration = epa.calculate_penetration(&self, iteration_limit);
+                let penetration = epa.calculate_penetration(&self, EPA_ITERATION_LIMIT);
                 return (true, penetration);
             }
 
-- 
2.43.0


From 1fcfb9a1e1db3651b60a1c77a03db3bf99ae55d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 12/33] fix: Box2d to Ball sdf was wrong at corners and when
 overlapping

---
 src/col2d/shape/box2d/v_ball.rs | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/src/col2d/shape/box2d/v_ball.rs b/src/col2d/shape/box2d/v_ball.rs
index 575c54d..ddb8ce7 100644
--- a/src/col2d/shape/box2d/v_ball.rs
+++ b/src/col2d/shape/box2d/v_ball.rs
@@ -17,23 +17,7 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
 
 impl SdfRel2d<Ball> for Box2d {
     fn sdf_rel(&self, b: &Ball, rel: &impl Transformation2d) -> f32 {
-        let b_center = rel.apply_origin();
-        let towards_self = -b_center;
-        // TODO: Exploit ball symmetry
-        let p = b.extreme_point_t(rel, towards_self);
-        let px = p.x.abs() - self.halfsize.x;
-        let py = p.y.abs() - self.halfsize.y;
-
-        if self.collides_rel(b, rel) {
-            px.min(py)
-        } else {
-            if px.is_sign_negative() {
-                py
-            } else if py.is_sign_negative() {
-                px
-            } else {
-                Vec2::new(px, py).length()
-            }
-        }
+        let rounded_box = RoundedBox2d::new(self.halfsize, b.radius);
+        SdfRel2d::sdf_rel(&rounded_box, &Point, rel)
     }
 }
-- 
2.43.0


From 73fd39c5c8067e8fa57fdedb56ea948807da2331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 13/33] fix: Rotor2d::from_quaternion scaled vectors when
 rotating outside the XY plane

---
 src/col2d/transformation2d/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/col2d/transformation2d/mod.rs b/src/col2d/transformation2d/mod.rs
index 47b5fde..448c45b 100644
--- a/src/col2d/transformation2d/mod.rs
+++ b/src/col2d/transformation2d/mod.rs
@@ -107,7 +107,10 @@ impl Rotor2d {
 
     /// Ignore rotation outside of the XY plane.
     pub fn from_quaternion(quat: crate::Quat) -> Rotor2d {
-        let norm = quat.dot(quat).sqrt();
+        let norm = (quat.w * quat.w + quat.z * quat.z).sqrt();
+        if norm == 0.0 {
+            return Self::IDENTITY;
+        }
         let w = quat.w / norm;
         let z = quat.z / norm;
 
-- 
2.43.0


From e4717e48fa4e40392456e925ced39d6ea8ee4cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 14/33] fix: closed-form queries ignored the scale of the
 relative transform

---
 src/col2d/shape/ball2d/v_ball2d.rs | 4 ++--
 src/col2d/shape/box2d/v_ball.rs    | 4 ++--
 src/col2d/shape/point2d.rs         | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/col2d/shape/ball2d/v_ball2d.rs b/src/col2d/shape/ball2d/v_ball2d.rs
index 3549fba..8e73aa1 100644
--- a/src/col2d/shape/ball2d/v_ball2d.rs
+++ b/src/col2d/shape/ball2d/v_ball2d.rs
@@ -4,7 +4,7 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
     SdfvCommonRel2d<COMPUTE_PENETRATION, COMPUTE_DISTANCE, Ball, T> for Ball
 {
     fn sdfv_common_rel(&self, b: &Ball, rel: &T) -> (bool, Vec2) {
-        let radius = self.radius + b.radius;
+        let radius = self.radius + rel.scaling_factor() * b.radius;
         let delta = rel.apply_origin();
         let length = delta.length();
         if length > 0.0 {
@@ -19,7 +19,7 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
 
 impl SdfRel2d<Ball> for Ball {
     fn sdf_rel(&self, b: &Ball, rel: &impl Transformation2d) -> f32 {
-        let radius = self.radius + b.radius;
+        let radius = self.radius + rel.scaling_factor() * b.radius;
         let delta = rel.apply_origin();
         delta.length() - radius
     }
diff --git a/src/col2d/shape/box2d/v_ball.rs b/src/col2d/shape/box2d/v_ball.rs
index ddb8ce7..e714115 100644
--- a/src/col2d/shape/box2d/v_ball.rs
+++ b/src/col2d/shape/box2d/v_ball.rs
@@ -6,7 +6,7 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
     SdfvCommonRel2d<COMPUTE_PENETRATION, COMPUTE_DISTANCE, Ball, T> for Box2d
 {
     fn sdfv_common_rel(&self, t: &Ball, rel: &T) -> (bool, Vec2) {
-        let rounded_box = RoundedBox2d::new(self.halfsize, t.radius);
+        let rounded_box = RoundedBox2d::new(self.halfsize, rel.scaling_factor() * t.radius);
         SdfvCommonRel2d::<COMPUTE_PENETRATION, COMPUTE_DISTANCE, _, T>::sdfv_common_rel(
             &rounded_box,
             &Point,
@@ -17,7 +17,7 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
 
 impl SdfRel2d<Ball> for Box2d {
     fn sdf_rel(&self, b: &Ball, rel: &impl Transformation2d) -> f32 {
-        let rounded_box = RoundedBox2d::new(self.halfsize, b.radius);
+        let rounded_box = RoundedBox2d::new(self.halfsize, rel.scaling_factor() * b.radius);
         SdfRel2d::sdf_rel(&rounded_box, &Point, rel)
     }
 }
diff --git a/src/col2d/shape/point2d.rs b/src/col2d/shape/point2d.rs
index bb944d7..6236efa 100644
--- a/src/col2d/shape/point2d.rs
+++ b/src/col2d/shape/point2d.rs
@@ -45,7 +45,7 @@ macro_rules! impl_reverse_sdfv_common_rel {
                 let (collides, sdfv) =
                     SdfvCommonRel2d::<P, D, $a, T>::sdfv_common_rel(b, self, &inv_rel);
                 let negated_sdfv = -sdfv;
-                let transformed_sdfv = rel.apply_normal(negated_sdfv);
+                let transformed_sdfv = rel.scaling_factor() * rel.apply_normal(negated_sdfv);
                 (collides, transformed_sdfv)
             }
         }
-- 
2.43.0


From cc8371849f4a91d0fa29f2cf240141f8f9969680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 15/33] fix: collider queries ignored the scale of the first
 collider

---
 src/col2d/detection/distance_to.rs | 2 +-
 src/col2d/detection/penetrates.rs  | 2 +-
 src/col2d/detection/sdf.rs         | 2 +-
 src/col2d/detection/sdfv.rs        | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/col2d/detection/distance_to.rs b/src/col2d/detection/distance_to.rs
index c6828a4..492b827 100644
--- a/src/col2d/detection/distance_to.rs
+++ b/src/col2d/detection/distance_to.rs
@@ -80,6 +80,6 @@ where
         let b: Collider2d<'a, B, T> = bb.into();
         let rel = a.transform.delta_transform(b.transform);
         let distance_local = a.shape.distance_to_rel(b.shape, &rel);
-        distance_local.map(|v| a.transform.apply_normal(v))
+        distance_local.map(|v| a.transform.scaling_factor() * a.transform.apply_normal(v))
     }
 }
diff --git a/src/col2d/detection/penetrates.rs b/src/col2d/detection/penetrates.rs
index fcfc698..c3dffaf 100644
--- a/src/col2d/detection/penetrates.rs
+++ b/src/col2d/detection/penetrates.rs
@@ -72,6 +72,6 @@ where
         let b: Collider2d<'a, B, T> = bb.into();
         let rel = a.transform.delta_transform(b.transform);
         let penetration_local = a.shape.penetrates_rel(b.shape, &rel);
-        penetration_local.map(|v| a.transform.apply_normal(v))
+        penetration_local.map(|v| a.transform.scaling_factor() * a.transform.apply_normal(v))
     }
 }
diff --git a/src/col2d/detection/sdf.rs b/src/col2d/detection/sdf.rs
index 9564b59..20c6b27 100644
--- a/src/col2d/detection/sdf.rs
+++ b/src/col2d/detection/sdf.rs
@@ -72,6 +72,6 @@ where
         let a: Collider2d<'a, A, T> = self.into();
         let b: Collider2d<'a, B, T> = bb.into();
         let rel = a.transform.delta_transform(b.transform);
-        a.shape.sdf_rel(b.shape, &rel)
+        a.transform.scaling_factor() * a.shape.sdf_rel(b.shape, &rel)
     }
 }
diff --git a/src/col2d/detection/sdfv.rs b/src/col2d/detection/sdfv.rs
index 355ee79..de03161 100644
--- a/src/col2d/detection/sdfv.rs
+++ b/src/col2d/detection/sdfv.rs
@@ -72,7 +72,7 @@ where
         let b: Collider2d<'a, B, T> = bb.into();
         let rel = a.transform.delta_transform(b.transform);
         let (collides, sdfv_local) = a.shape.sdfv_rel(b.shape, &rel);
-        let sdfv = a.transform.apply_normal(sdfv_local);
+        let sdfv = a.transform.scaling_factor() * a.transform.apply_normal(sdfv_local);
         (collides, sdfv)
     }
 }
-- 
2.43.0


From 1ff7b93234707f69d878943ebc6ad9eb56927568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 16/33] fix: ball centred on a box's face was pushed out the
 long way

---
 src/col2d/shape/rounded_box2d/v_point.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/col2d/shape/rounded_box2d/v_point.rs b/src/col2d/shape/rounded_box2d/v_point.rs
index 027af39..6f2b7a8 100644
--- a/src/col2d/shape/rounded_box2d/v_point.rs
+++ b/src/col2d/shape/rounded_box2d/v_point.rs
@@ -8,7 +8,7 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
         let delta_x = delta.x.abs() - self.halfsize.x;
         let delta_y = delta.y.abs() - self.halfsize.y;
 
-        if self.box_part().collides_rel(&Point, rel) {
+        if delta_x <= 0.0 && delta_y <= 0.0 {
             if delta_x > delta_y {
                 (
                     true,
-- 
2.43.0


From 36cd68ef016a75d99ab1e903eac71002597ea606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:22 +0000
Subject: [PATCH 17/33] fix: vectors with NaN components compared approximately
 equal to zero

---
 src/utils/approx.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/utils/approx.rs b/src/utils/approx.rs
index f35f834..a69f053 100644
--- a/src/utils/approx.rs
+++ b/src/utils/approx.rs
@@ -37,11 +37,6 @@ impl Approx for f32 {
 
 impl Approx for Vec2 {
     fn approx_eq_tolerance(&self, other: &Self, tolerance: f32) -> bool {
-        let magn_sq = self.length_squared().max(other.length_squared());
-        if magn_sq == 0.0 {
-            return true;
-        }
-
         let error = *self - *other;
         if error.x.is_nan() || error.y.is_nan() {
             return false;
@@ -51,6 +46,11 @@ impl Approx for Vec2 {
             return self == other;
         }
 
+        let magn_sq = self.length_squared().max(other.length_squared());
+        if magn_sq == 0.0 {
+            return true;
+        }
+
         let error_sq = error.length_squared();
         let relative_error_sq = error_sq / magn_sq;
 
@@ -73,11 +73,6 @@ impl Approx for Vec2 {
 
 impl Approx for Vec3 {
     fn approx_eq_tolerance(&self, other: &Self, tolerance: f32) -> bool {
-        let magn_sq = self.length_squared().max(other.length_squared());
-        if magn_sq == 0.0 {
-            return true;
-        }
-
         let error = *self - *other;
         if error.x.is_nan() || error.y.is_nan() || error.z.is_nan() {
             return false;
@@ -87,6 +82,11 @@ impl Approx for Vec3 {
             return self == other;
         }
 
+        let magn_sq = self.length_squared().max(other.length_squared());
+        if magn_sq == 0.0 {
+            return true;
+        }
+
         let error_sq = error.length_squared();
         let relative_error_sq = error_sq / magn_sq;
 
-- 
2.43.0


From 1bb2bc7cab5c7fd49fb250314a8c9a36301bf34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:39 +0000
Subject: [PATCH 18/33] fix: approximate equality of vectors too long or too
 short to be squared

---
 src/utils/approx.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/utils/approx.rs b/src/utils/approx.rs
index a69f053..9f83d80 100644
--- a/src/utils/approx.rs
+++ b/src/utils/approx.rs
@@ -46,10 +46,15 @@ impl Approx for Vec2 {
             return self == other;
         }
 
-        let magn_sq = self.length_squared().max(other.length_squared());
-        if magn_sq == 0.0 {
+        // scaled so that squares neither overflow nor underflow
+        let scale = self.abs().max(other.abs()).max_element();
+        if scale == 0.0 {
             return true;
         }
+        let error = error / scale;
+        let magn_sq = (*self / scale)
+            .length_squared()
+            .max((*other / scale).length_squared());
 
         let error_sq = error.length_squared();
         let relative_error_sq = error_sq / magn_sq;
@@ -82,10 +87,15 @@ impl Approx for Vec3 {
             return self == other;
         }
 
-        let magn_sq = self.length_squared().max(other.length_squared());
-        if magn_sq == 0.0 {
+        // scaled so that squares neither overflow nor underflow
+        let scale = self.abs().max(other.abs()).max_element();
+        if scale == 0.0 {
             return true;
         }
+        let error = error / scale;
+        let magn_sq = (*self / scale)
+            .length_squared()
+            .max((*other / scale).length_squared());
 
         let error_sq = error.length_squared();
         let relative_error_sq = error_sq / magn_sq;
-- 
2.43.0


From db33cad3496bad42958d319d06882526cf66da1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:13 +0000
Subject: [PATCH 19/33] fix: EPA returned an arbitrary vector for touching
 shapes when it did not converge

---
 src/col2d/shape/local_minkowski_diff/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/col2d/shape/local_minkowski_diff/mod.rs b/src/col2d/shape/local_minkowski_diff/mod.rs
index aacc396..f969122 100644
--- a/src/col2d/shape/local_minkowski_diff/mod.rs
+++ b/src/col2d/shape/local_minkowski_diff/mod.rs
@@ -79,7 +79,9 @@ impl EpaPoly2d {
             self.0.points
         );
 
+        // Leaving along any probed direction separates the shapes; remember the shortest way out.
         let mut penetration = Vec2::ZERO;
+        let mut shortest = f32::INFINITY;
         for _i in 0..iteration_limit {
             trace!("[EPA] iteration {}", _i);
             let (edge_index, a, b) = self.find_closest_edge();
@@ -94,7 +96,11 @@ impl EpaPoly2d {
             trace!("fitness to beat: {}", fitness_to_beat);
             let denom = normal.dot(normal);
             trace!("denom: {}", denom);
-            penetration = normal * (-fitness / denom);
+            let way_out = normal * (-fitness / denom);
+            if way_out.length_squared() < shortest {
+                shortest = way_out.length_squared();
+                penetration = way_out;
+            }
 
             if !is_a_sufficiently_better_than_b(
                 fitness,
-- 
2.43.0


From c121fc381ec3c80e1247d78d165ca813bd6a612b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:38 +0000
Subject: [PATCH 20/33] fix: GJK cycled and reported a distance between
 touching shapes

---
 src/col2d/shape/local_minkowski_diff/v.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/col2d/shape/local_minkowski_diff/v.rs b/src/col2d/shape/local_minkowski_diff/v.rs
index f3ea540..dbfa2f4 100644
--- a/src/col2d/shape/local_minkowski_diff/v.rs
+++ b/src/col2d/shape/local_minkowski_diff/v.rs
@@ -67,6 +67,7 @@ where
 
         let mut last_a = self.extreme_point(direction);
         direction = simplex.add_point(last_a).1;
+        let mut closest = simplex.distance_to_origin();
 
         for _ in 0..iteration_limit {
             let a = self.extreme_point(direction);
@@ -79,7 +80,7 @@ where
                     last_fitness,
                     DISTANCE_ITERATION_FITNESS_RELATIVE_IMPROVEMENT_REQUIRED,
                 ) {
-                    return (false, simplex.distance_to_origin());
+                    return (false, closest);
                 }
             }
             last_a = a;
@@ -98,12 +99,13 @@ where
                 return (true, Vec2::NAN);
             }
 
+            closest = shorter_of(simplex.distance_to_origin(), closest);
             direction = new_direction;
         }
 
         warn_simplex_not_converged!(iteration_limit);
 
-        (false, simplex.distance_to_origin())
+        (false, closest)
     }
 }
 
@@ -183,6 +185,7 @@ where
         let mut last_a = self.extreme_point(direction);
         trace!("M1 point: {}", last_a);
         direction = simplex.add_point(last_a).1;
+        let mut closest = simplex.distance_to_origin();
 
         let mut collision_possible = true;
 
@@ -208,7 +211,7 @@ where
                 ) {
                     trace!("fitness: {fitness} is *NOT* sufficiently better than last_fitness: {last_fitness} (break)");
                     trace!("No intersection");
-                    return (false, simplex.distance_to_origin());
+                    return (false, closest);
                 }
                 trace!("fitness: {fitness} *is* sufficiently better than last_fitness: {last_fitness} (continue)");
             }
@@ -244,15 +247,25 @@ where
 
             trace!("new direction: {}", new_direction);
 
+            closest = shorter_of(simplex.distance_to_origin(), closest);
             direction = new_direction;
         }
 
         warn_simplex_not_converged!(iteration_limit);
 
-        (false, simplex.distance_to_origin())
+        (false, closest)
     }
 }
 
 fn direction_is_too_small(direction: Vec2) -> bool {
     direction.length_squared() < f32::MIN_POSITIVE
 }
+
+/// Any point of the Minkowski difference bounds the distance, so the shortest one seen is the best.
+fn shorter_of(a: Vec2, b: Vec2) -> Vec2 {
+    if a.length_squared() < b.length_squared() {
+        a
+    } else {
+        b
+    }
+}
-- 
2.43.0


From ef0c02c2b2cface6022c66ac51d40d057bacd4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:00 +0000
Subject: [PATCH 21/33] fix: GJK directions overflowed or vanished for very
 large or very small shapes

---
 src/col2d/shape/local_minkowski_diff/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/col2d/shape/local_minkowski_diff/mod.rs b/src/col2d/shape/local_minkowski_diff/mod.rs
index f969122..2529dfc 100644
--- a/src/col2d/shape/local_minkowski_diff/mod.rs
+++ b/src/col2d/shape/local_minkowski_diff/mod.rs
@@ -196,7 +196,7 @@ impl Simplex2d {
                 trace!("ac: {}", ac);
                 trace!("ao: {}", ao);
 
-                let abc = ab.cross(ac);
+                let abc = sign(ab.cross(ac));
                 let ac_perp = abc.cross(ac);
                 let ab_perp = ab.cross_f32(abc);
 
@@ -310,6 +310,15 @@ fn same_direction(a: Vec2, b: Vec2) -> bool {
     a.dot(b) >= 0.0
 }
 
+/// Only the side matters: directions as long as products of lengths overflow or vanish.
+fn sign(x: f32) -> f32 {
+    if x == 0.0 {
+        0.0
+    } else {
+        x.signum()
+    }
+}
+
 trait Crossf32 {
     fn cross(self, other: Vec2) -> Vec2;
 }
@@ -337,7 +346,7 @@ impl Cross2d for Vec2 {
     }
 
     fn cross_aba(self, other: Self) -> Self {
-        let cross = self.cross(other);
+        let cross = sign(self.cross(other));
         Vec2::new(-self.y * cross, self.x * cross)
     }
 
-- 
2.43.0


From f77dc37fe51f93a9d2a87ca40765da1f52306c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:00 +0000
Subject: [PATCH 22/33] fix: a ball's extreme point was its centre for very
 long or very short directions

---
 src/col2d/shape/ball2d/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/col2d/shape/ball2d/mod.rs b/src/col2d/shape/ball2d/mod.rs
index d5c53fb..784cce3 100644
--- a/src/col2d/shape/ball2d/mod.rs
+++ b/src/col2d/shape/ball2d/mod.rs
@@ -14,6 +14,8 @@ impl SymmetricBoundingBox2d for Ball {
 
 impl ExtremePoint2d for Ball {
     fn extreme_point(&self, direction: Vec2) -> Vec2 {
+        // Scaled to unit size first: the squares of long (or short) directions overflow (or vanish).
+        let direction = direction / direction.abs().max_element();
         self.radius * direction.normalize_or_zero()
     }
 }
-- 
2.43.0


From 343b218ca96796aacc904fd2f59e0316c525eabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 23/33] fix: the 3d feature did not compile

---
 src/col3d/shape/box3d.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/col3d/shape/box3d.rs b/src/col3d/shape/box3d.rs
index 5c6ed54..8c6f221 100644
--- a/src/col3d/shape/box3d.rs
+++ b/src/col3d/shape/box3d.rs
@@ -50,8 +50,10 @@ impl ExtremePoint3d for Box3d {
     }
 }
 
+#[cfg(minkowski)]
 impl MinkowskiNegationIsIdentity for Box3d {}
 
+#[cfg(minkowski)]
 impl MinkowskiSum<Box3d> for Box3d {
     type Output = Self;
 
-- 
2.43.0


From 3dfe5fd481b7d68debabe1b217e7aa133aa09332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 24/33] fix: the 3d and bevy features together did not compile

---
 src/col3d/transformation3d/mod.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/col3d/transformation3d/mod.rs b/src/col3d/transformation3d/mod.rs
index 24e4187..58af66c 100644
--- a/src/col3d/transformation3d/mod.rs
+++ b/src/col3d/transformation3d/mod.rs
@@ -10,8 +10,3 @@ pub use isotropic3d::*;
 pub use transform3d::*;
 pub use translate3d::*;
 
-#[cfg(feature = "bevy")]
-mod bevy_transform;
-#[cfg(feature = "bevy")]
-pub use bevy_transform::*;
-
-- 
2.43.0


From 14ac6cfcaf3668197e1562c02e21d566e8776599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 25/33] fix: AxisTransform3d::inverse ignored the scale when
 inverting the position

---
 src/col3d/transformation3d/axis_transform3d.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/col3d/transformation3d/axis_transform3d.rs b/src/col3d/transformation3d/axis_transform3d.rs
index 7b4a560..22f23fa 100644
--- a/src/col3d/transformation3d/axis_transform3d.rs
+++ b/src/col3d/transformation3d/axis_transform3d.rs
@@ -29,7 +29,7 @@ impl Transformation3d for AxisTransform3d {
 impl Invertible for AxisTransform3d {
     fn inverse(&self) -> Self {
         Self {
-            pos: -self.pos,
+            pos: self.unapply(Vec3::ZERO),
             scale: 1.0 / self.scale,
         }
     }
-- 
2.43.0


From 2f339b48ba5a3ce8901da1b89ff460caa8910c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 26/33] fix: the default 3D transforms collapsed everything to
 scale zero

---
 src/col3d/transformation3d/axis_transform3d.rs |  7 ++++++-
 src/col3d/transformation3d/isotropic3d.rs      | 12 +++++++++++-
 src/col3d/transformation3d/transform3d.rs      | 12 +++++++++++-
 3 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/col3d/transformation3d/axis_transform3d.rs b/src/col3d/transformation3d/axis_transform3d.rs
index 22f23fa..2fcf4f7 100644
--- a/src/col3d/transformation3d/axis_transform3d.rs
+++ b/src/col3d/transformation3d/axis_transform3d.rs
@@ -1,11 +1,16 @@
 use super::*;
 
-#[derive(Default)]
 pub struct AxisTransform3d {
     pos: Vec3,
     scale: f32,
 }
 
+impl Default for AxisTransform3d {
+    fn default() -> Self {
+        Self::new(Vec3::ZERO, 1.0)
+    }
+}
+
 impl AxisTransform3d {
     pub const fn new(pos: Vec3, scale: f32) -> Self {
         Self { pos, scale }
diff --git a/src/col3d/transformation3d/isotropic3d.rs b/src/col3d/transformation3d/isotropic3d.rs
index be6bc65..acd876a 100644
--- a/src/col3d/transformation3d/isotropic3d.rs
+++ b/src/col3d/transformation3d/isotropic3d.rs
@@ -1,6 +1,6 @@
 use super::*;
 
-#[derive(Default, Debug, Clone, PartialEq)]
+#[derive(Debug, Clone, PartialEq)]
 /// Apply translation, rotation, and scale in this order:
 /// 1. Scale
 /// 2. Rotate
@@ -11,6 +11,16 @@ pub struct Isotropic3d {
     scale: f32,
 }
 
+impl Default for Isotropic3d {
+    fn default() -> Self {
+        Self {
+            pos: Vec3::ZERO,
+            rot: Quat::IDENTITY,
+            scale: 1.0,
+        }
+    }
+}
+
 // trait Approx {
 //     fn approx_eq(&self, other: &Self) -> bool;
 // }
diff --git a/src/col3d/transformation3d/transform3d.rs b/src/col3d/transformation3d/transform3d.rs
index c07e27b..1765871 100644
--- a/src/col3d/transformation3d/transform3d.rs
+++ b/src/col3d/transformation3d/transform3d.rs
@@ -1,6 +1,6 @@
 use super::*;
 
-#[derive(Default, Debug, Clone, PartialEq)]
+#[derive(Debug, Clone, PartialEq)]
 /// Standard 3D transform.
 ///
 /// Applies translation, rotation, and scale in this order:
@@ -15,6 +15,16 @@ pub struct Transform3d {
     scale: Vec3,
 }
 
+impl Default for Transform3d {
+    fn default() -> Self {
+        Self {
+            pos: Vec3::ZERO,
+            rot: Quat::IDENTITY,
+            scale: Vec3::ONE,
+        }
+    }
+}
+
 #[cfg(feature = "bevy")]
 impl From<bevy::prelude::Transform> for Transform3d {
     fn from(transform: bevy::prelude::Transform) -> Self {
-- 
2.43.0


From 3767160c226809b67531afa5eebbd3da54fd7479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 27/33] fix: Box3d::cover ignored the z axis

---
 src/col3d/shape/box3d.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/col3d/shape/box3d.rs b/src/col3d/shape/box3d.rs
index 8c6f221..f0469a4 100644
--- a/src/col3d/shape/box3d.rs
+++ b/src/col3d/shape/box3d.rs
@@ -17,8 +17,10 @@ impl Box3d {
     pub fn cover(&mut self, point: &Vec3) {
         let x = point.x.abs();
         let y = point.y.abs();
+        let z = point.z.abs();
         self.halfsize.x = self.halfsize.x.max(x);
         self.halfsize.y = self.halfsize.y.max(y);
+        self.halfsize.z = self.halfsize.z.max(z);
     }
 }
 
-- 
2.43.0


From 1b70c7d23df62581156d51405e232955a875bbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 28/33] fix: Box3d to Point sdf was wrong above and below the
 box

---
 src/col3d/shape/box3d.rs | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/src/col3d/shape/box3d.rs b/src/col3d/shape/box3d.rs
index f0469a4..4badd20 100644
--- a/src/col3d/shape/box3d.rs
+++ b/src/col3d/shape/box3d.rs
@@ -119,23 +119,7 @@ impl SdfRel3d<Point> for Box3d {
         if self.collides_rel(t, rel) {
             delta_x.max(delta_y).max(delta_z)
         } else {
-            if delta_z < 0.0 {
-                if delta_x < 0.0 {
-                    delta_y
-                } else if delta_y < 0.0 {
-                    delta_x
-                } else {
-                    Vec2::new(delta_x, delta_y).length()
-                }
-            } else {
-                if delta_x < 0.0 {
-                    Vec2::new(delta_z, delta_y).length()
-                } else if delta_y < 0.0 {
-                    Vec2::new(delta_z, delta_x).length()
-                } else {
-                    Vec3::new(delta_x, delta_y, delta_z).length()
-                }
-            }
+            Vec3::new(delta_x, delta_y, delta_z).max(Vec3::ZERO).length()
         }
     }
 }
-- 
2.43.0


From fdcaed55fae5e5160ae1bfdf2cb075147e5b8331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 29/33] fix: 3D queries of a Point ignored the rotation and
 scale of the relative transform

---
 src/col3d/default_impls.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/col3d/default_impls.rs b/src/col3d/default_impls.rs
index 234d8cb..e1bcf70 100644
--- a/src/col3d/default_impls.rs
+++ b/src/col3d/default_impls.rs
@@ -10,7 +10,7 @@ where
     A: CollidesRel3d<Point>,
 {
     fn collides_rel(&self, other: &A, rel: &impl Transformation3d) -> bool {
-        other.collides_rel(&Point, rel)
+        other.collides_rel(&Point, &rel.unapply_origin())
     }
 }
 
@@ -32,7 +32,9 @@ where
     A: PenetratesRel3d<Point>,
 {
     fn penetrates_rel(&self, other: &A, rel: &impl Transformation3d) -> Option<Vec3> {
-        other.penetrates_rel(&Point, rel) // .map(|v| -v)
+        other
+            .penetrates_rel(&Point, &rel.unapply_origin())
+            .map(|v| rel.apply_origin() - rel.apply(v))
     }
 }
 
@@ -66,7 +68,10 @@ where
     A: SdfRel3d<Point>,
 {
     fn sdf_rel(&self, t: &A, rel: &impl Transformation3d) -> f32 {
-        t.sdf_rel(&Point, rel)
+        let sdf = t.sdf_rel(&Point, &rel.unapply_origin());
+        (rel.apply(sdf * Vec3::X) - rel.apply_origin())
+            .length()
+            .copysign(sdf)
     }
 }
 
@@ -88,6 +93,7 @@ where
     A: SdfvRel3d<Point>,
 {
     fn sdfv_rel(&self, t: &A, rel: &impl Transformation3d) -> Vec3 {
-        t.sdfv_rel(&Point, rel)
+        let sdfv = t.sdfv_rel(&Point, &rel.unapply_origin());
+        rel.apply_origin() - rel.apply(sdfv)
     }
 }
-- 
2.43.0


From 966848e04c3c168ad29e523b17530667a47c23d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 30/33] fix: Penetrates3d returned vectors in the local space
 of the first shape

---
 src/col3d/detection/penetrates.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/col3d/detection/penetrates.rs b/src/col3d/detection/penetrates.rs
index 8e22c8c..f155081 100644
--- a/src/col3d/detection/penetrates.rs
+++ b/src/col3d/detection/penetrates.rs
@@ -61,6 +61,7 @@ where
 {
     fn penetrates(&self, transform: &T, t: &B, t_transform: &T) -> Option<Vec3> {
         let rel = transform.delta_transform(t_transform);
-        self.penetrates_rel(t, &rel)
+        let penetration_local = self.penetrates_rel(t, &rel);
+        penetration_local.map(|v| transform.apply(v) - transform.apply_origin())
     }
 }
-- 
2.43.0


From f349dc8c1afc3853afef980eee7a042d46df7465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:37 +0000
Subject: [PATCH 31/33] fix: a 3D ball's extreme point was its centre for very
 long or very short directions

---
 src/col3d/shape/ball3d.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/col3d/shape/ball3d.rs b/src/col3d/shape/ball3d.rs
index 46f4881..ecd552f 100644
--- a/src/col3d/shape/ball3d.rs
+++ b/src/col3d/shape/ball3d.rs
@@ -10,6 +10,8 @@ use core::ops::Mul;
 
 impl ExtremePoint3d for Ball {
     fn extreme_point(&self, direction: Vec3) -> Vec3 {
+        // Scaled to unit size first: the squares of long (or short) directions overflow (or vanish).
+        let direction = direction / direction.abs().max_element();
         self.radius * direction.normalize_or_zero()
     }
 }
-- 
2.43.0


From cc1cccb0d0ca7caffbc4d9f2ea4f856247af6137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:17 +0000
Subject: [PATCH 32/33] fix: offsets too short to square gave infinite or
 wrong-length penetrations

---
 src/col2d/shape/ball2d/v_ball2d.rs       | 3 ++-
 src/col2d/shape/ball2d/v_point.rs        | 3 ++-
 src/col2d/shape/rounded_box2d/v_point.rs | 6 ++++++
 src/col3d/shape/ball3d.rs                | 3 ++-
 4 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/col2d/shape/ball2d/v_ball2d.rs b/src/col2d/shape/ball2d/v_ball2d.rs
index 8e73aa1..6fa5082 100644
--- a/src/col2d/shape/ball2d/v_ball2d.rs
+++ b/src/col2d/shape/ball2d/v_ball2d.rs
@@ -7,7 +7,8 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
         let radius = self.radius + rel.scaling_factor() * b.radius;
         let delta = rel.apply_origin();
         let length = delta.length();
-        if length > 0.0 {
+        // Offsets whose squares vanish have no reliable length: any direction will do for those.
+        if delta.length_squared() >= f32::MIN_POSITIVE {
             let collides = length < radius;
             let new_length = length - radius;
             (collides, delta * (new_length / length))
diff --git a/src/col2d/shape/ball2d/v_point.rs b/src/col2d/shape/ball2d/v_point.rs
index 5606a69..fb54bc0 100644
--- a/src/col2d/shape/ball2d/v_point.rs
+++ b/src/col2d/shape/ball2d/v_point.rs
@@ -6,7 +6,8 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
     fn sdfv_common_rel(&self, _: &Point, rel: &T) -> (bool, Vec2) {
         let delta = rel.apply_origin();
         let length = delta.length();
-        if length > 0.0 {
+        // Offsets whose squares vanish have no reliable length: any direction will do for those.
+        if delta.length_squared() >= f32::MIN_POSITIVE {
             let collides = length < self.radius;
             let new_length = length - self.radius;
             (collides, delta * (new_length / length))
diff --git a/src/col2d/shape/rounded_box2d/v_point.rs b/src/col2d/shape/rounded_box2d/v_point.rs
index 6f2b7a8..6a9f06d 100644
--- a/src/col2d/shape/rounded_box2d/v_point.rs
+++ b/src/col2d/shape/rounded_box2d/v_point.rs
@@ -31,6 +31,12 @@ impl<const COMPUTE_PENETRATION: bool, const COMPUTE_DISTANCE: bool, T: Transform
                     delta_x < self.radius,
                     Vec2::new((delta_x - self.radius) * delta.x.signum(), 0.0),
                 )
+            } else if Vec2::new(delta_x, delta_y).length_squared() < f32::MIN_POSITIVE {
+                // The square of the way to the corner vanishes: any direction will do.
+                (
+                    true,
+                    Vec2::new(-self.radius * delta.x.signum(), 0.0),
+                )
             } else {
                 let corner = Vec2::new(delta_x * delta.x.signum(), delta_y * delta.y.signum());
                 let corner_length = corner.length();
diff --git a/src/col3d/shape/ball3d.rs b/src/col3d/shape/ball3d.rs
index ecd552f..79540c4 100644
--- a/src/col3d/shape/ball3d.rs
+++ b/src/col3d/shape/ball3d.rs
@@ -59,7 +59,8 @@ impl SdfvRel3d<Point> for Ball {
     fn sdfv_rel(&self, _t: &Point, rel: &impl Transformation3d) -> Vec3 {
         let delta = rel.apply_origin();
         let length = delta.length();
-        if length > 0.0 {
+        // Offsets whose squares vanish have no reliable length: any direction will do for those.
+        if delta.length_squared() >= f32::MIN_POSITIVE {
             let new_length = length - self.radius;
             delta.mul(new_length / length)
         } else {
-- 
2.43.0


From 9bbe4c97a3b914192c30d91c909de19e52693b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:54 +0000
Subject: [PATCH 33/33] fix: points beside the centre of a very small 3D ball
 are pushed out the shortest way

---
 src/col3d/shape/ball3d.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/col3d/shape/ball3d.rs b/src/col3d/shape/ball3d.rs
index 79540c4..4666a7f 100644
--- a/src/col3d/shape/ball3d.rs
+++ b/src/col3d/shape/ball3d.rs
@@ -33,7 +33,8 @@ impl PenetratesRel3d<Point> for Ball {
         if self.collides_rel(t, rel) {
             let delta = rel.apply_origin();
             let distance_to_center = delta.length();
-            if distance_to_center < f32::EPSILON {
+            // Offsets whose squares vanish have no reliable length: any direction will do for those.
+            if delta.length_squared() < f32::MIN_POSITIVE {
                 Some(Vec3::new(self.radius, 0.0, 0.0))
             } else {
                 let old_magn = distance_to_center;
-- 
2.43.0

