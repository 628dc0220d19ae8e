From 5bb3ee6cbe8f0e0eb3bce0a93a81495f6a6079a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:38 +0000
Subject: [PATCH 1/7] fix: stepping a traffic light that has no phases no
 longer panics

---
 src/light.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/light.rs b/src/light.rs
index a79a064..1acf468 100644
--- a/src/light.rs
+++ b/src/light.rs
@@ -142,6 +142,10 @@ impl TrafficLight {
 
     /// Applies the current traffic light phase to each movement.
     fn apply_phase(&mut self) {
+        if self.phases.is_empty() {
+            return;
+        }
+
         let Phase { mask, .. } = self.phases[self.phase];
         for (idx, movement) in self.movements.iter_mut().enumerate() {
             movement.active = (mask >> idx) & 1 != 0;
-- 
2.43.0


From 4d554d6d07f2623a67523ee3488927fcf730146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:38 +0000
Subject: [PATCH 2/7] fix: look up the projection of the requested lane pair in
 a link group

---
 src/group.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/group.rs b/src/group.rs
index 642a2ad..30bec44 100644
--- a/src/group.rs
+++ b/src/group.rs
@@ -92,7 +92,9 @@ impl LinkGroup {
         let src_idx = self.find_link(src).expect("Link is not in group.");
         let dst_idx = self.find_link(dst).expect("Link is not in group.");
         let n = self.links.len() - 1;
-        &self.projections[(n * src_idx) + dst_idx]
+        // A link is never projected onto itself, so later links are shifted down by one
+        let offset = if dst_idx > src_idx { dst_idx - 1 } else { dst_idx };
+        &self.projections[(n * src_idx) + offset]
     }
 
     /// Gets the index of the `link` in this link group.
-- 
2.43.0


From af732503428fe233e56298aa92005bc3e4ff526e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:38 +0000
Subject: [PATCH 3/7] fix: do not overestimate the arrival time of vehicles
 above the speed limit

---
 src/vehicle/acceleration.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vehicle/acceleration.rs b/src/vehicle/acceleration.rs
index c3be662..62080fd 100644
--- a/src/vehicle/acceleration.rs
+++ b/src/vehicle/acceleration.rs
@@ -61,6 +61,8 @@ impl AccelerationModel {
     /// Calculates the time it would take the vehicle to reach the given `pos`
     /// if it maximally accelerated.
     pub fn min_reach_time(&self, vel: f64, dist: f64, max_vel: f64) -> f64 {
+        // The vehicle may already be travelling faster than `max_vel`
+        let max_vel = f64::max(max_vel, vel);
         let discr = 2.0 * self.max_acc * dist + vel.powi(2);
         if discr < max_vel.powi(2) {
             (discr.sqrt() - vel) / self.max_acc
-- 
2.43.0


From 59223c99ddcc4fbccd0b7d7f1f876ec60132602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:55 +0000
Subject: [PATCH 4/7] fix: do not brake for a vehicle ahead that is pulling
 away

---
 src/vehicle/acceleration.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vehicle/acceleration.rs b/src/vehicle/acceleration.rs
index 62080fd..9a9b8dd 100644
--- a/src/vehicle/acceleration.rs
+++ b/src/vehicle/acceleration.rs
@@ -142,7 +142,8 @@ impl AccelerationModel {
         } else {
             let appr = my_vel - their_vel;
             let factor = 1. / (2. * (max_acc * comf_dec).sqrt());
-            let ss = MIN_GAP + (my_vel * self.headway) + (my_vel * appr * factor);
+            // The desired gap never drops below the minimum, however fast the vehicle ahead is
+            let ss = MIN_GAP + f64::max((my_vel * self.headway) + (my_vel * appr * factor), 0.0);
             let term = ss / net_dist;
             max_acc * (1. - (term * term))
         }
-- 
2.43.0


From d56de8b76d40778dfd18ca7ff81c1474943a84ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:53:55 +0000
Subject: [PATCH 5/7] fix: a vehicle loses its place in the queue when the link
 it queued for is no longer next

---
 src/vehicle.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vehicle.rs b/src/vehicle.rs
index c45277c..c34b3f1 100644
--- a/src/vehicle.rs
+++ b/src/vehicle.rs
@@ -361,6 +361,10 @@ impl Vehicle {
                 if let Some(link_id) = self.route.first() {
                     self.pathfind.set_origin(*link_id, links);
                 }
+                if self.entered == 1 {
+                    // The vehicle overran the link it was queued for
+                    self.queued = None;
+                }
                 self.entered = usize::max(self.entered - 1, 1);
                 self.pos -= length;
                 if let Some(lc) = self.lane_change.as_mut() {
@@ -385,6 +389,7 @@ impl Vehicle {
         self.route = vec![link_id];
         self.pathfind.set_origin(link_id, links);
         self.entered = 1;
+        self.queued = None;
         self.pos = pos;
         self.lane_change = lane_change;
         self.can_exit = false;
@@ -444,6 +449,10 @@ impl Vehicle {
 
         self.route.clear();
         self.route.extend_from_slice(&path.links);
+        if self.entered >= matched {
+            // The link the vehicle was queued for is no longer next on its route
+            self.queued = None;
+        }
         self.entered = usize::min(self.entered, matched);
         self.can_exit = path.can_exit;
     }
-- 
2.43.0


From a47c3d113d698c99d4d07c362c6cd71e313ab112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:57:55 +0000
Subject: [PATCH 6/7] fix: measure the time to clear a conflict from the
 vehicle's own position

---
 src/link.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/link.rs b/src/link.rs
index 6198207..b89afbc 100644
--- a/src/link.rs
+++ b/src/link.rs
@@ -269,7 +269,7 @@ impl Link {
                             if links[link_id].can_enter(
                                 links,
                                 vehicles,
-                                &vehicle.offset(self.length()),
+                                &vehicle,
                                 frame,
                                 priority,
                             ) {
@@ -571,14 +571,6 @@ pub(crate) struct RelativeVehicle<'a> {
 }
 
 impl<'a> RelativeVehicle<'a> {
-    pub fn offset(&self, offset: f64) -> RelativeVehicle {
-        Self {
-            vehicle: self.vehicle,
-            pos: self.pos + offset,
-            route_idx: self.route_idx + 1,
-        }
-    }
-
     pub fn pos_front(&self) -> f64 {
         self.vehicle.pos_front() - self.pos
     }
-- 
2.43.0


From 9ef5f64970d11999e9435e727987a797b33a53a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:42:33 +0000
Subject: [PATCH 7/7] fix: always keep a sample for every segment of a lane
 projection

Building a lane group dropped all samples of a projection when the first
point could not be projected onto the other lane. Looking up a position
on that lane then failed.
---
 src/group.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/group.rs b/src/group.rs
index 30bec44..610ac23 100644
--- a/src/group.rs
+++ b/src/group.rs
@@ -58,9 +58,12 @@ impl LinkGroup {
                     .map(|i| segment_len * i as f64)
                     .take_while(|pos| *pos < src.curve().length())
                     .map(|pos| src.curve().sample_centre(pos).pos)
-                    .scan(Some(0.0), |pos, point| {
-                        *pos = project_point_onto_curve(dst.curve(), point, 0.1, *pos);
-                        pos.map(|pos| (point, pos))
+                    .scan(0.0, |pos, point| {
+                        // Keep the last position if the projection doesn't converge,
+                        // so that there is always a sample for every segment
+                        *pos = project_point_onto_curve(dst.curve(), point, 0.1, Some(*pos))
+                            .unwrap_or(*pos);
+                        Some((point, *pos))
                     })
                     .map(|(point, pos)| {
                         let s = dst.curve().sample_centre(pos);
-- 
2.43.0

