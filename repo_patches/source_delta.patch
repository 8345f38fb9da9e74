From 5d880858ed75bd0d17f8c38c0a0edb5fead76e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 01/30] fix: IntersectionBook::AddIntersection() reads the ID
 before giving the intersection away

On a duplicate ID, the error message was built from an already moved-from
unique_ptr (null dereference) instead of throwing std::logic_error.
---
 src/maliput/base/intersection_book.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/maliput/base/intersection_book.cc b/src/maliput/base/intersection_book.cc
index b8a19e9..b133f71 100644
--- a/src/maliput/base/intersection_book.cc
+++ b/src/maliput/base/intersection_book.cc
@@ -53,9 +53,10 @@ class IntersectionBook::Impl {
 
   void AddIntersection(std::unique_ptr<Intersection> intersection) {
     MALIPUT_THROW_UNLESS(intersection != nullptr);
-    auto result = book_.emplace(intersection->id(), std::move(intersection));
+    const Intersection::Id id = intersection->id();
+    auto result = book_.emplace(id, std::move(intersection));
     if (!result.second) {
-      throw std::logic_error("Attempted to add multiple Intersection instances with ID " + intersection->id().string());
+      throw std::logic_error("Attempted to add multiple Intersection instances with ID " + id.string());
     }
   }
 
-- 
2.43.0


From e8e5e2b256624c72b3152fb27e85ec100a0dfc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 02/30] fix: ManualRulebook can remove rules whose zone repeats
 a lane

Removing such a rule threw std::out_of_range on the second range of the lane,
and left the rule half removed.
---
 src/maliput/base/manual_rulebook.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/maliput/base/manual_rulebook.cc b/src/maliput/base/manual_rulebook.cc
index 8d53c49..443c017 100644
--- a/src/maliput/base/manual_rulebook.cc
+++ b/src/maliput/base/manual_rulebook.cc
@@ -280,9 +280,14 @@ class ManualRulebook::Impl {
 
     // Removes all associations involving `id` and `lane_id`.
     void RemoveRanges(const IdVariant& id, const LaneId& lane_id) {
-      map_.at(lane_id).erase(id);
-      if (map_[lane_id].empty()) {
-        map_.erase(lane_id);
+      auto it = map_.find(lane_id);
+      // A zone may hold many ranges of the same lane: the first one already removed all of them.
+      if (it == map_.end()) {
+        return;
+      }
+      it->second.erase(id);
+      if (it->second.empty()) {
+        map_.erase(it);
       }
     }
 
-- 
2.43.0


From ce2700eac0a4f3fc6d1e19a3de0aa2f264573657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 03/30] fix: ManualPhaseRingBook::AddPhaseRing() leaves the
 book untouched when it rejects a ring

A ring rejected because one of its rules belongs to another ring stayed
registered under its ID.
---
 src/maliput/base/manual_phase_ring_book.cc | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/maliput/base/manual_phase_ring_book.cc b/src/maliput/base/manual_phase_ring_book.cc
index cb20aae..6e72bde 100644
--- a/src/maliput/base/manual_phase_ring_book.cc
+++ b/src/maliput/base/manual_phase_ring_book.cc
@@ -51,27 +51,35 @@ class ManualPhaseRingBook::Impl {
   ~Impl() {}
 
   void AddPhaseRing(const PhaseRing& ring) {
-    auto result = ring_book_.emplace(ring.id(), ring);
-    if (!result.second) {
+    // Validates everything before changing any of the books, so a rejected ring leaves no trace.
+    if (ring_book_.find(ring.id()) != ring_book_.end()) {
       throw std::logic_error("Attempted to add multiple PhaseRing instances with ID " + ring.id().string());
     }
     const Phase& phase = ring.phases().begin()->second;
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wdeprecated-declarations"
     for (const auto& element : phase.rule_states()) {
-      auto r = right_of_way_rule_book_.emplace(element.first, ring.id());
-#pragma GCC diagnostic pop
-      if (!r.second) {
+      if (right_of_way_rule_book_.find(element.first) != right_of_way_rule_book_.end()) {
         throw std::logic_error("RightOfWayRule with ID " + element.first.string() +
                                " is part of more than one PhaseRing.");
       }
     }
+#pragma GCC diagnostic pop
     for (const auto& element : phase.discrete_value_rule_states()) {
-      auto r = rule_book_.emplace(element.first, ring.id());
-      if (!r.second) {
+      if (rule_book_.find(element.first) != rule_book_.end()) {
         throw std::logic_error("Rule with ID " + element.first.string() + " is part of more than one PhaseRing.");
       }
     }
+    ring_book_.emplace(ring.id(), ring);
+#pragma GCC diagnostic push
+#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
+    for (const auto& element : phase.rule_states()) {
+      right_of_way_rule_book_.emplace(element.first, ring.id());
+    }
+#pragma GCC diagnostic pop
+    for (const auto& element : phase.discrete_value_rule_states()) {
+      rule_book_.emplace(element.first, ring.id());
+    }
   }
 
   void RemovePhaseRing(const PhaseRing::Id& ring_id) {
-- 
2.43.0


From cb884631ebf9c734345f47ec44aa69d4e0c7b25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:14 +0000
Subject: [PATCH 04/30] fix: compare related rules and unique ids of rule
 states symmetrically

Values of map_b missing in map_a went unnoticed, so a == b could hold while b == a did not, and a rule whose
states relate to {x} and {x, y} was rejected as having duplicated states.
---
 src/maliput/api/rules/rule.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/maliput/api/rules/rule.cc b/src/maliput/api/rules/rule.cc
index 8d3e6cd..414428c 100644
--- a/src/maliput/api/rules/rule.cc
+++ b/src/maliput/api/rules/rule.cc
@@ -29,6 +29,8 @@
 // OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include "maliput/api/rules/rule.h"
 
+#include <algorithm>
+
 #include "maliput/common/maliput_throw.h"
 
 namespace maliput {
@@ -50,10 +52,9 @@ bool CompareMapAttributes(const std::map<std::string, std::vector<T>>& map_a,
     if (it == map_b.end()) {
       return false;
     }
-    for (const auto& value_id : key_val.second) {
-      if (std::find(it->second.begin(), it->second.end(), value_id) == it->second.end()) {
-        return false;
-      }
+    // The order of the values is irrelevant.
+    if (!std::is_permutation(key_val.second.begin(), key_val.second.end(), it->second.begin(), it->second.end())) {
+      return false;
     }
   }
   return true;
-- 
2.43.0


From 51f0054223727ed9cecc2ac467cc0c201b884b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:20 +0000
Subject: [PATCH 05/30] fix: PhaseRing rejects phases where only some define
 bulb states

The check missed bulb states defined by a later phase only, and dereferenced an empty optional when only the
first phase defined them.
---
 src/maliput/api/rules/phase_ring.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/maliput/api/rules/phase_ring.cc b/src/maliput/api/rules/phase_ring.cc
index daee203..dd41d08 100644
--- a/src/maliput/api/rules/phase_ring.cc
+++ b/src/maliput/api/rules/phase_ring.cc
@@ -66,6 +66,9 @@ void VerifyAllPhasesHaveSameCoverage(const PhaseRing::Id& id, const std::vector<
                            ") has duplicated discrete value rule states");
     }
     // Require both set of bulb states to be defined or undefined together.
+    MALIPUT_VALIDATE(phase.bulb_states().has_value() == r.bulb_states().has_value(),
+                     "PhaseRing(" + id.string() + "). Phase(" + phase.id().string() + ") and Phase(" + r.id().string() +
+                         ") must both define or omit bulb_states.");
     if (r.bulb_states() != std::nullopt) {
       MALIPUT_VALIDATE(phase.bulb_states()->size() == r.bulb_states()->size(),
                        "Phase(" + id.string() + "). Phase(" + phase.id().string() + ") and Phase(" + r.id().string() +
-- 
2.43.0


From 601cce99a37527c181ed12a8dc5d8d717e737a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 06/30] fix: PhaseRing rejects next phases that are not in the
 ring

The constructor documents that it throws when next_phases defines a next phase that is not in phases.
---
 src/maliput/api/rules/phase_ring.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/maliput/api/rules/phase_ring.cc b/src/maliput/api/rules/phase_ring.cc
index dd41d08..d9b0368 100644
--- a/src/maliput/api/rules/phase_ring.cc
+++ b/src/maliput/api/rules/phase_ring.cc
@@ -92,6 +92,14 @@ void VerifyNextPhases(const PhaseRing::Id& id, const std::vector<Phase>& phases,
         next_phases.find(phase.id()) != next_phases.end(),
         "In PhaseRing(" + id.string() + "), the Phase(" + phase.id().string() + ") is not in next_phases.");
   }
+  // As every phase defines its next phases and sizes match, the keys of `next_phases` are the phases of the ring.
+  for (const auto& phase_id_next_phases : next_phases) {
+    for (const auto& next_phase : phase_id_next_phases.second) {
+      MALIPUT_VALIDATE(next_phases.find(next_phase.id) != next_phases.end(),
+                       "In PhaseRing(" + id.string() + "), the next Phase(" + next_phase.id.string() + ") of Phase(" +
+                           phase_id_next_phases.first.string() + ") is not in the ring.");
+    }
+  }
 }
 
 }  // namespace
-- 
2.43.0


From a796ac2a5a5bc7fa87384cc9e8f8ba92f5dea565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:39 +0000
Subject: [PATCH 07/30] fix: Rotation::Distance() is never NaN

The dot product of two (nearly) equal unit vectors may exceed one by rounding, for which acos() is NaN. Contiguous
lane ranges were then taken for non contiguous, and CheckInvariants() compared against NaN.
---
 src/maliput/api/lane_data.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/maliput/api/lane_data.cc b/src/maliput/api/lane_data.cc
index 7540038..9e72641 100644
--- a/src/maliput/api/lane_data.cc
+++ b/src/maliput/api/lane_data.cc
@@ -29,6 +29,7 @@
 // OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include "maliput/api/lane_data.h"
 
+#include <algorithm>
 #include <cmath>
 #include <iostream>
 
@@ -84,10 +85,10 @@ double Rotation::Distance(const Rotation& rot) const {
   const InertialPosition bs = rot.Apply({1., 0., 0.});
   const InertialPosition br = rot.Apply({0., 1., 0.});
   const InertialPosition bh = rot.Apply({0., 0., 1.});
-  // Compute angles between pairs of unit vectors.
-  const double ds = std::acos(as.xyz().dot(bs.xyz()));
-  const double dr = std::acos(ar.xyz().dot(br.xyz()));
-  const double dh = std::acos(ah.xyz().dot(bh.xyz()));
+  // Compute angles between pairs of unit vectors. Rounding may take their dot product out of the domain of acos().
+  const double ds = std::acos(std::clamp(as.xyz().dot(bs.xyz()), -1., 1.));
+  const double dr = std::acos(std::clamp(ar.xyz().dot(br.xyz()), -1., 1.));
+  const double dh = std::acos(std::clamp(ah.xyz().dot(bh.xyz()), -1., 1.));
 
   return std::sqrt((ds * ds) + (dr * dr) + (dh * dh));
 }
-- 
2.43.0


From d0a1a6a5b0f518b8e829925daea5f04c4876d506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:04 +0000
Subject: [PATCH 08/30] fix: IsIncluded() looks at every range of the region

---
 src/maliput/api/regions.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/maliput/api/regions.cc b/src/maliput/api/regions.cc
index 00289e0..ba64cdb 100644
--- a/src/maliput/api/regions.cc
+++ b/src/maliput/api/regions.cc
@@ -161,7 +161,9 @@ bool IsIncluded(const InertialPosition& inertial_position, const std::vector<Lan
         road_geometry->ById().GetLane(lane_s_range.lane_id())->ToLanePosition(inertial_position);
     if (result.distance <= linear_tolerance) {
       const double s_position = result.lane_position.s();
-      return lane_s_range.s_range().Intersects(SRange(s_position, s_position), linear_tolerance);
+      if (lane_s_range.s_range().Intersects(SRange(s_position, s_position), linear_tolerance)) {
+        return true;
+      }
     }
   }
   return false;
-- 
2.43.0


From 87a5018a3de87cee80d1d17ccf9027a71a786b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:27 +0000
Subject: [PATCH 09/30] fix: LaneSRoute::Intersects() considers every range on
 the same lane

---
 src/maliput/api/regions.cc | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/maliput/api/regions.cc b/src/maliput/api/regions.cc
index ba64cdb..a79e858 100644
--- a/src/maliput/api/regions.cc
+++ b/src/maliput/api/regions.cc
@@ -136,13 +136,11 @@ std::optional<LaneSRange> LaneSRange::GetIntersection(const LaneSRange& lane_s_r
 
 bool LaneSRoute::Intersects(const LaneSRoute& lane_s_route, double tolerance) const {
   for (const auto& s_range : ranges()) {
-    const auto lane_s_range_it =
-        std::find_if(lane_s_route.ranges().begin(), lane_s_route.ranges().end(),
-                     [s_range](const LaneSRange& lane_s_range) { return s_range.lane_id() == lane_s_range.lane_id(); });
-    if (lane_s_range_it != lane_s_route.ranges().end()) {
-      if (s_range.Intersects(*lane_s_range_it, tolerance)) {
-        return true;
-      }
+    if (std::any_of(lane_s_route.ranges().begin(), lane_s_route.ranges().end(),
+                    [&s_range, tolerance](const LaneSRange& lane_s_range) {
+                      return s_range.Intersects(lane_s_range, tolerance);
+                    })) {
+      return true;
     }
   }
   return false;
-- 
2.43.0


From 2357f991eeb805c4fa608a4a4fbbd9ef86717fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:17 +0000
Subject: [PATCH 10/30] fix: BoundingBox applies its orientation in the right
 direction

---
 src/maliput/math/bounding_box.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/maliput/math/bounding_box.cc b/src/maliput/math/bounding_box.cc
index 178b004..c6d3efb 100644
--- a/src/maliput/math/bounding_box.cc
+++ b/src/maliput/math/bounding_box.cc
@@ -56,7 +56,7 @@ std::vector<Vector3> BoundingBox::get_vertices() const {
   };
   std::vector<Vector3> vertices;
   for (const auto& vertex : vertices_box_frame) {
-    vertices.push_back(orientation_.ToMatrix().inverse() * vertex + position_);
+    vertices.push_back(orientation_.ToMatrix() * vertex + position_);
   }
   return vertices;
 }
@@ -66,7 +66,7 @@ const Vector3& BoundingBox::box_size() const { return box_size_; }
 const RollPitchYaw& BoundingBox::get_orientation() const { return orientation_; }
 
 bool BoundingBox::DoContains(const Vector3& position) const {
-  const Vector3 box_frame_position = orientation_.ToMatrix() * (position - position_);
+  const Vector3 box_frame_position = orientation_.ToMatrix().inverse() * (position - position_);
   return box_frame_position.x() <= xyz_2_.x() + tolerance_ && box_frame_position.x() >= -xyz_2_.x() - tolerance_ &&
          box_frame_position.y() <= xyz_2_.y() + tolerance_ && box_frame_position.y() >= -xyz_2_.y() - tolerance_ &&
          box_frame_position.z() <= xyz_2_.z() + tolerance_ && box_frame_position.z() >= -xyz_2_.z() - tolerance_;
@@ -96,8 +96,9 @@ bool BoundingBox::IsBoxIntersected(const BoundingBox& other) const {
   // Let's compute the relative transformation from this box to the other box.
   // For the purposes of streamlining the math below, translation and rotation
   // will be named `t` and `r` respectively.
-  const Vector3 t = other.position() - position();
-  const Matrix3 r = get_orientation().ToMatrix().inverse() * other.get_orientation().ToMatrix();
+  const Matrix3 inverse_orientation = get_orientation().ToMatrix().inverse();
+  const Vector3 t = inverse_orientation * (other.position() - position());
+  const Matrix3 r = inverse_orientation * other.get_orientation().ToMatrix();
 
   // Compute some common subexpressions and add epsilon to counteract
   // arithmetic error, e.g. when two edges are parallel. We use the value as
@@ -113,7 +114,7 @@ bool BoundingBox::IsBoxIntersected(const BoundingBox& other) const {
   // First category of cases separating along a's axes.
   for (int i = 0; i < 3; ++i) {
     // if (std::abs(t[i]) > xyz_2_[i] + other.xyz_2_.dot(abs_r.block<1, 3>(i, 0))) {
-    const Vector3 abs_r_i = abs_r.col(i);
+    const Vector3 abs_r_i = abs_r.row(i);
     if (std::abs(t[i]) > xyz_2_[i] + other.xyz_2_.dot(abs_r_i)) {
       return false;
     }
-- 
2.43.0


From 46d0e4165f5ebf88df0fad71267d0da6daec27bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:35 +0000
Subject: [PATCH 11/30] fix: SetFromTwoVectors() picks an axis away from
 opposite vectors

The smallest component was chosen by comparing signed values in one of the
branches, so that opposite vectors along -z gave a quaternion of NaN.
---
 src/maliput/math/quaternion.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maliput/math/quaternion.cc b/src/maliput/math/quaternion.cc
index 42eed34..5e2cfbf 100644
--- a/src/maliput/math/quaternion.cc
+++ b/src/maliput/math/quaternion.cc
@@ -717,7 +717,7 @@ void Quaternion::SetFromTwoVectors(const Vector3& a, const Vector3& b) {
           other = Vector3(0, 0, 1);
         }
       } else {
-        if (a.y() < a.z()) {
+        if (a_abs.y() < a_abs.z()) {
           other = Vector3(0, 1, 0);
         } else {
           other = Vector3(0, 0, 1);
-- 
2.43.0


From 62613491058b6565414590cda5d2d962b893fd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 12/30] fix: KDTreeStrategy::FindRoadPositions reports each
 lane once

---
 src/maliput/geometry_base/kd_tree_strategy.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/maliput/geometry_base/kd_tree_strategy.cc b/src/maliput/geometry_base/kd_tree_strategy.cc
index 142fd50..5b7caf5 100644
--- a/src/maliput/geometry_base/kd_tree_strategy.cc
+++ b/src/maliput/geometry_base/kd_tree_strategy.cc
@@ -32,6 +32,7 @@
 
 #include <algorithm>
 #include <cstdlib>
+#include <unordered_set>
 
 #include "maliput/math/kd_tree.h"
 
@@ -118,9 +119,15 @@ std::deque<const api::Lane*> KDTreeStrategy::ClosestLanes(const api::InertialPos
                                  point.z() + half_edge_length};
   const math::AxisAlignedBox search_region{min_corner, max_corner};
   const std::deque<const MaliputPoint*> maliput_points = kd_tree_->RangeSearch(search_region);
-  std::deque<const api::Lane*> maliput_lanes(maliput_points.size());
-  std::transform(maliput_points.begin(), maliput_points.end(), maliput_lanes.begin(),
-                 [](const MaliputPoint* point) { return point->get_lane().value(); });
+  // Several points of the kd-tree sample the same lane: each lane is reported only once.
+  std::deque<const api::Lane*> maliput_lanes;
+  std::unordered_set<const api::Lane*> visited_lanes;
+  for (const MaliputPoint* maliput_point : maliput_points) {
+    const api::Lane* lane = maliput_point->get_lane().value();
+    if (visited_lanes.insert(lane).second) {
+      maliput_lanes.push_back(lane);
+    }
+  }
   return maliput_lanes;
 }
 }  // namespace geometry_base
-- 
2.43.0


From b58b232ef32ef72828900541269501d3be8e22a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 13/30] fix: KDTreeStrategy::FindRoadPositions accounts for the
 sampling step

---
 src/maliput/geometry_base/kd_tree_strategy.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/maliput/geometry_base/kd_tree_strategy.cc b/src/maliput/geometry_base/kd_tree_strategy.cc
index 5b7caf5..0d6c434 100644
--- a/src/maliput/geometry_base/kd_tree_strategy.cc
+++ b/src/maliput/geometry_base/kd_tree_strategy.cc
@@ -68,7 +68,9 @@ api::RoadPositionResult KDTreeStrategy::DoToRoadPosition(const api::InertialPosi
 
 std::vector<api::RoadPositionResult> KDTreeStrategy::DoFindRoadPositions(const api::InertialPosition& inertial_position,
                                                                          double radius) const {
-  const auto closest_lanes = this->ClosestLanes(inertial_position, radius);
+  // As the kd-tree is built with a sampling step, a lane within the radius may only have sampled points slightly beyond
+  // it: the search region is extended by twice the sampling_step_ and the lanes are filtered by their distance.
+  const auto closest_lanes = this->ClosestLanes(inertial_position, radius + 2. * sampling_step_);
   std::vector<api::RoadPositionResult> road_positions;
   for (const auto& lane : closest_lanes) {
     MALIPUT_THROW_UNLESS(lane != nullptr);
-- 
2.43.0


From 37d940329e51b5ab420116f248e1d08ae186223c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:09 +0000
Subject: [PATCH 14/30] fix: compare optional and mapped states without
 dereferencing what is absent

---
 src/maliput/api/rules/compare.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/maliput/api/rules/compare.cc b/src/maliput/api/rules/compare.cc
index d91cd16..7b712c4 100644
--- a/src/maliput/api/rules/compare.cc
+++ b/src/maliput/api/rules/compare.cc
@@ -64,7 +64,11 @@ common::ComparisonResult<std::unordered_map<Rule::Id, DiscreteValueRule::Discret
   common::ComparisonResultCollector c;
   MALIPUT_ADD_RESULT(c, api::IsEqual("a.size()", "b.size()", a.size(), b.size()));
   for (const auto& discrete_value_rule_state : a) {
-    MALIPUT_ADD_RESULT(c, IsEqual(b.at(discrete_value_rule_state.first), discrete_value_rule_state.second));
+    const auto b_it = b.find(discrete_value_rule_state.first);
+    MALIPUT_ADD_RESULT(c, api::IsEqual("(b_it != b.cend())", "true", (b_it != b.cend()), true));
+    if (b_it != b.cend()) {
+      MALIPUT_ADD_RESULT(c, IsEqual(b_it->second, discrete_value_rule_state.second));
+    }
   }
   return {c.result()};
 }
@@ -378,10 +382,14 @@ common::ComparisonResult<std::optional<BulbStates>> IsEqual(const std::optional<
                                                             const std::optional<BulbStates>& b) {
   common::ComparisonResultCollector c;
   MALIPUT_ADD_RESULT(c, api::IsEqual("a.has_value()", "b.has_value()", a.has_value(), b.has_value()));
-  if (a.has_value()) {
+  if (a.has_value() && b.has_value()) {
     MALIPUT_ADD_RESULT(c, api::IsEqual("a->size()", "b->size()", a->size(), b->size()));
     for (const auto& bulb_state : *a) {
-      MALIPUT_ADD_RESULT(c, IsEqual(b->at(bulb_state.first), bulb_state.second));
+      const auto b_it = b->find(bulb_state.first);
+      MALIPUT_ADD_RESULT(c, api::IsEqual("(b_it != b->cend())", "true", (b_it != b->cend()), true));
+      if (b_it != b->cend()) {
+        MALIPUT_ADD_RESULT(c, IsEqual(b_it->second, bulb_state.second));
+      }
     }
   }
   return {c.result()};
@@ -391,7 +399,7 @@ common::ComparisonResult<std::optional<double>> IsEqual(const std::optional<doub
                                                         const std::optional<double>& b) {
   common::ComparisonResultCollector c;
   MALIPUT_ADD_RESULT(c, api::IsEqual("a.has_value()", "b.has_value()", a.has_value(), b.has_value()));
-  if (a.has_value()) {
+  if (a.has_value() && b.has_value()) {
     MALIPUT_ADD_RESULT(c, api::IsEqual("a.value()", "b.value()", a.value(), b.value()));
   }
   return {c.result()};
-- 
2.43.0


From b5fb453f582ad8e249e1ee981d97e6ccade2a6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:58 +0000
Subject: [PATCH 15/30] fix: compare rule states, discrete values and related
 bulb groups completely

---
 src/maliput/api/rules/compare.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/maliput/api/rules/compare.cc b/src/maliput/api/rules/compare.cc
index 7b712c4..df68aef 100644
--- a/src/maliput/api/rules/compare.cc
+++ b/src/maliput/api/rules/compare.cc
@@ -45,6 +45,13 @@ namespace rules {
 common::ComparisonResult<RuleStates> IsEqual(const RuleStates& a, const RuleStates& b) {
   common::ComparisonResultCollector c;
   MALIPUT_ADD_RESULT(c, api::IsEqual("a.size()", "b.size()", a.size(), b.size()));
+  for (const auto& rule_state : a) {
+    const auto b_it = b.find(rule_state.first);
+    MALIPUT_ADD_RESULT(c, api::IsEqual("(b_it != b.cend())", "true", (b_it != b.cend()), true));
+    if (b_it != b.cend()) {
+      MALIPUT_ADD_RESULT(c, api::IsEqual("b_it->second", "rule_state.second", b_it->second, rule_state.second));
+    }
+  }
   return {c.result()};
 }
 
@@ -52,7 +59,7 @@ common::ComparisonResult<RuleStates> IsEqual(const RuleStates& a, const RuleStat
 
 common::ComparisonResult<DiscreteValueRule::DiscreteValue> IsEqual(const DiscreteValueRule::DiscreteValue& a,
                                                                    const DiscreteValueRule::DiscreteValue& b) {
-  if (a.value != b.value) {
+  if (a != b) {
     return {"DiscreteValues are different: " + a.value + " != " + b.value};
   }
   return {std::nullopt};
@@ -341,6 +348,8 @@ common::ComparisonResult<std::unordered_map<TrafficLight::Id, std::vector<BulbGr
       if (b_it == b.cend()) {
         break;
       }
+      MALIPUT_ADD_RESULT(c, api::IsEqual("traffic_light_bulb_group.second.size()", "b_it->second.size()",
+                                         traffic_light_bulb_group.second.size(), b_it->second.size()));
       for (const BulbGroup::Id& bulb_group_id : traffic_light_bulb_group.second) {
         const auto& b_bulb_group_id_it = std::find(b_it->second.cbegin(), b_it->second.cend(), bulb_group_id);
         MALIPUT_ADD_RESULT(c, api::IsEqual("(b_bulb_group_id_it != b_it->second.cend())", "true",
-- 
2.43.0


From c4b0e76f03c0a05e933eee4c631bd1bc2587b3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:12 +0000
Subject: [PATCH 16/30] fix: BuildGraph keeps all branch points and edges of a
 node together

GetNode() returned the matched Node without the branch points it had just added to a copy, and segments that touch two
existing nodes were attached to one of them only.
---
 src/maliput/routing/graph/graph.cc | 78 ++++++++++++++++--------------
 1 file changed, 42 insertions(+), 36 deletions(-)

diff --git a/src/maliput/routing/graph/graph.cc b/src/maliput/routing/graph/graph.cc
index 0f06863..bf0ebef 100644
--- a/src/maliput/routing/graph/graph.cc
+++ b/src/maliput/routing/graph/graph.cc
@@ -28,6 +28,7 @@
 // OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include "maliput/routing/graph/graph.h"
 
+#include <algorithm>
 #include <functional>
 #include <optional>
 #include <string>
@@ -55,43 +56,45 @@ std::set<const api::BranchPoint*> GetBranchPoints(const api::Segment* segment, c
   return branch_points;
 }
 
-// Finds a Node in @p graph by containing at least one branch point in @p branch_points.
-//
-// @param graph The Graph containing the Nodes to search through.
-// @param branch_points The set of api::BranchPoints whose items should be found in one of the Nodes in @p graph.
-// @return An optional containing the matched Node. Otherwise, std::nullopt.
-std::optional<Node> FindNode(const Graph& graph, std::set<const api::BranchPoint*> branch_points) {
-  for (const auto& id_node : graph.nodes) {
-    if (std::any_of(branch_points.begin(), branch_points.end(), [n = id_node.second](const auto bp) {
-          return n.branch_points.find(bp) != n.branch_points.end();
-        })) {
-      return {id_node.second};
-    }
-  }
-  return {};
-}
-
 // Gets a Node from @p graph, or creates one, with @p branch_points.
 //
-// When there is no Node found in @p graph, a new Node is created and returned. Note that
-// @p graph is not changed, but the returned Node might be changed relative to what's in
-// @p graph as it'll always contain at least @p branch_points.
+// All the Nodes in @p graph that hold any of @p branch_points become one Node, which keeps the ID of one of them. When
+// there is none, a new Node is created.
 //
-// @param graph The Graph to look for the matching Node.
-// @param branch_points The set of api::BranchPoints to match the Node in @p graph.
+// @param graph The Graph to look for the matching Nodes. It will contain the returned Node.
+// @param branch_points The set of api::BranchPoints to match the Nodes in @p graph.
 // @param id_generator A functor to obtain an ID for Nodes.
-// @return A Node whose api::BranchPoints set contains @p branch_points.
-Node GetNode(const Graph& graph, std::set<const api::BranchPoint*> branch_points,
-             std::function<NodeId()> id_generator) {
-  const std::optional<Node> node_result = FindNode(graph, branch_points);
-  if (node_result.has_value()) {
-    Node node = node_result.value();
-    for (const api::BranchPoint* bp : branch_points) {
-      node.branch_points.insert(bp);
+// @return The ID of a Node whose api::BranchPoints set contains @p branch_points.
+NodeId GetNode(Graph* graph, const std::set<const api::BranchPoint*>& branch_points,
+               std::function<NodeId()> id_generator) {
+  std::optional<Node> node;
+  for (auto it = graph->nodes.begin(); it != graph->nodes.end();) {
+    const Node& other = it->second;
+    if (std::none_of(branch_points.begin(), branch_points.end(), [&other](const api::BranchPoint* bp) {
+          return other.branch_points.find(bp) != other.branch_points.end();
+        })) {
+      ++it;
+      continue;
+    }
+    if (!node.has_value()) {
+      node = other;
+    } else {
+      node->branch_points.insert(other.branch_points.begin(), other.branch_points.end());
+      node->edges.insert(other.edges.begin(), other.edges.end());
+      for (const EdgeId& edge_id : other.edges) {
+        Edge& edge = graph->edges.at(edge_id);
+        edge.node_a = edge.node_a == other.id ? node->id : edge.node_a;
+        edge.node_b = edge.node_b == other.id ? node->id : edge.node_b;
+      }
     }
-    return node_result.value();
+    it = graph->nodes.erase(it);
   }
-  return Node{id_generator(), branch_points, {}};
+  if (!node.has_value()) {
+    node = Node{id_generator(), {}, {}};
+  }
+  node->branch_points.insert(branch_points.begin(), branch_points.end());
+  graph->nodes.emplace(node->id, *node);
+  return node->id;
 }
 
 }  // namespace
@@ -112,17 +115,20 @@ Graph BuildGraph(const api::RoadGeometry* rg) {
       const std::set<const api::BranchPoint*> end_branch_points =
           GetBranchPoints(segment, api::LaneEnd::Which::kFinish);
 
-      Node start_node = GetNode(graph, start_branch_points, node_id_generator);
-      Node end_node = GetNode(graph, end_branch_points, node_id_generator);
+      const NodeId start_node_id = GetNode(&graph, start_branch_points, node_id_generator);
+      const NodeId end_node_id = GetNode(&graph, end_branch_points, node_id_generator);
+
+      // Both extents share a Node when the start Node was merged into the end Node.
+      Node& end_node = graph.nodes.at(end_node_id);
+      const auto start_node_it = graph.nodes.find(start_node_id);
+      Node& start_node = start_node_it != graph.nodes.end() ? start_node_it->second : end_node;
 
-      Edge edge{EdgeId(segment->id().string()), segment, start_node.id, end_node.id};
+      const Edge edge{EdgeId(segment->id().string()), segment, start_node.id, end_node.id};
 
       start_node.edges.insert(edge.id);
       end_node.edges.insert(edge.id);
 
       graph.edges.insert_or_assign(edge.id, edge);
-      graph.nodes.insert_or_assign(start_node.id, start_node);
-      graph.nodes.insert_or_assign(end_node.id, end_node);
     }
   }
 
-- 
2.43.0


From 855a3f438942a5d72b40aa776beede63a4cca302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:12 +0000
Subject: [PATCH 17/30] fix: U-turn detection compares the ends of the
 traversed lane

---
 src/maliput/routing/find_lane_sequences.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maliput/routing/find_lane_sequences.cc b/src/maliput/routing/find_lane_sequences.cc
index fbf6d75..5fe002e 100644
--- a/src/maliput/routing/find_lane_sequences.cc
+++ b/src/maliput/routing/find_lane_sequences.cc
@@ -143,7 +143,7 @@ bool HasUTurn(const std::vector<const Lane*>& lane_sequence) {
     // Obtain the following connection_set.
     const ConnectionSet next_connection_set = BuildConnectionSet(lane_sequence[i], lane_sequence[i + 1]);
     // Evaluate if there is a U turn.
-    if (next_connection_set.ongoing.end == connection_set.incoming.end) {
+    if (next_connection_set.incoming.end == connection_set.ongoing.end) {
       return true;
     }
     connection_set = next_connection_set;
-- 
2.43.0


From 796dae5b99b58187e8cd9941f2ab546c02bd4405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:28 +0000
Subject: [PATCH 18/30] fix: lane switch detection follows branch points
 instead of position indices

---
 src/maliput/base/distance_router.cc | 45 ++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/src/maliput/base/distance_router.cc b/src/maliput/base/distance_router.cc
index b178bdd..d7fc644 100644
--- a/src/maliput/base/distance_router.cc
+++ b/src/maliput/base/distance_router.cc
@@ -32,6 +32,7 @@
 #include <iterator>
 #include <limits>
 #include <optional>
+#include <set>
 #include <utility>
 #include <vector>
 
@@ -97,28 +98,38 @@ bool HasLaneSwitch(const routing::Route& route) {
   if (route.size() == 1) {
     return route.start_route_position().lane != route.end_route_position().lane;
   }
-  // Traverse the routing::Phases looking for lane switches.
-  auto find_position_index = [](const std::vector<api::RoadPosition>& positions,
-                                const api::Lane* lane) -> std::optional<size_t> {
-    for (size_t i = 0; i < positions.size(); i++) {
-      if (positions[i].lane == lane) {
-        return i;
-      }
-    }
-    return std::nullopt;
+  // Returns the api::BranchPoint at the end of the api::Lane which is closer to @p position.
+  auto find_branch_point = [](const api::RoadPosition& position) {
+    return position.lane->GetBranchPoint(position.pos.s() <= position.lane->length() - position.pos.s()
+                                             ? api::LaneEnd::Which::kStart
+                                             : api::LaneEnd::Which::kFinish);
   };
-  const api::Lane* start_lane = route.start_route_position().lane;
+
+  // Traverse the routing::Phases looking for lane switches. `lanes` are those that can be reached in the current
+  // routing::Phase without switching lanes.
+  std::set<const api::Lane*> lanes{route.start_route_position().lane};
   for (int phase_index = 0; phase_index < route.size(); phase_index++) {
-    const routing::Phase& phase = route.Get(phase_index);
-    // Look in the end positions of the current routing::Phase for a position in the same api::Lane.
-    // When there is no end position on the same start api::Lane, there is a lane switch within the routing::Phase.
-    const std::optional<size_t> end_position_index = find_position_index(phase.end_positions(), start_lane);
-    if (!end_position_index.has_value()) {
+    // Look in the end positions of the current routing::Phase for positions in those lanes.
+    // When there is no end position on any of them, there is a lane switch within the routing::Phase.
+    std::vector<api::RoadPosition> end_positions;
+    for (const api::RoadPosition& end_position : route.Get(phase_index).end_positions()) {
+      if (lanes.find(end_position.lane) != lanes.end()) {
+        end_positions.push_back(end_position);
+      }
+    }
+    if (end_positions.empty()) {
       return true;
     }
-    // Update the start_lane for the next iteration.
+    // Update the lanes for the next iteration: they start where those of this routing::Phase end.
     if (phase_index != route.size() - 1) {
-      start_lane = route.Get(phase_index + 1).start_positions()[end_position_index.value()].lane;
+      lanes.clear();
+      for (const api::RoadPosition& start_position : route.Get(phase_index + 1).start_positions()) {
+        for (const api::RoadPosition& end_position : end_positions) {
+          if (find_branch_point(start_position) == find_branch_point(end_position)) {
+            lanes.insert(start_position.lane);
+          }
+        }
+      }
     }
   }
   return false;
-- 
2.43.0


From 7823f757dd46f291eb03336611c4d2943fc7e98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:45 +0000
Subject: [PATCH 19/30] fix: ThreadPool::Finish() wakes threads that were never
 started

---
 src/maliput/utility/thread_pool.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/maliput/utility/thread_pool.cc b/src/maliput/utility/thread_pool.cc
index 0b4b333..34216cb 100644
--- a/src/maliput/utility/thread_pool.cc
+++ b/src/maliput/utility/thread_pool.cc
@@ -51,6 +51,11 @@ void ThreadPool::Start() {
 
 void ThreadPool::Finish() {
   is_finished_ = true;
+  {
+    // Threads that were never started must not wait for Start() any longer.
+    std::unique_lock<std::mutex> l_s(start_mutex_);
+    start_.notify_all();
+  }
   {
     std::unique_lock<std::mutex> l_t(tasks_mutex_);
     available_.notify_all();
@@ -71,7 +76,7 @@ void ThreadPool::DoWork() {
   {
     std::unique_lock<std::mutex> l_s(start_mutex_);
     if (!is_running_) {
-      start_.wait(l_s, [&] { return is_running_.load(); });
+      start_.wait(l_s, [&] { return is_running_.load() || is_finished_.load(); });
     }
   }
   while (true) {
-- 
2.43.0


From 3445e19df541b5add4b674a4cb1673f96b2073dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:59 +0000
Subject: [PATCH 20/30] fix: start every phase of a phase ring document from
 the default rule states

A state given for one phase was carried over to the phases that follow it.
---
 src/maliput/base/phase_ring_book_loader.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/maliput/base/phase_ring_book_loader.cc b/src/maliput/base/phase_ring_book_loader.cc
index 65ff2f3..8b6cd94 100644
--- a/src/maliput/base/phase_ring_book_loader.cc
+++ b/src/maliput/base/phase_ring_book_loader.cc
@@ -222,10 +222,6 @@ PhaseRing BuildPhaseRing(const RoadRulebook* rulebook, const TrafficLightBook* t
 
   const std::unordered_map<Rule::Id, DiscreteValueRule> discrete_rules =
       GetRightOfWayTypeRules(rulebook, phase_ring_node["Rules"]);
-  // First get default states of all rules.
-  // Then, override the defaults with the states specified in the YAML
-  // document.
-  DiscreteValueRuleStates discrete_rule_states = CreateDefaultRuleStates(discrete_rules);
 
   const YAML::Node& phases_node = phase_ring_node["Phases"];
   MALIPUT_THROW_UNLESS(phases_node.IsDefined());
@@ -235,6 +231,10 @@ PhaseRing BuildPhaseRing(const RoadRulebook* rulebook, const TrafficLightBook* t
     MALIPUT_THROW_UNLESS(phase_node.IsMap());
     MALIPUT_THROW_UNLESS(phase_node["ID"].IsDefined());
     const Phase::Id phase_id(phase_node["ID"].as<std::string>());
+    // First get default states of all rules.
+    // Then, override the defaults with the states specified in the YAML
+    // document.
+    DiscreteValueRuleStates discrete_rule_states = CreateDefaultRuleStates(discrete_rules);
     const YAML::Node& rule_states_node = phase_node["RightOfWayRuleStates"];
     // RightOfWayRuleStates might not be added in the yaml.
     if (rule_states_node.IsDefined()) {
-- 
2.43.0


From ba252e1d0be131442f7d586391877c6a75c5ad62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:51 +0000
Subject: [PATCH 21/30] fix: do not read the last character of an empty path

---
 src/maliput/common/filesystem.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maliput/common/filesystem.cc b/src/maliput/common/filesystem.cc
index 8632bf2..4c096de 100644
--- a/src/maliput/common/filesystem.cc
+++ b/src/maliput/common/filesystem.cc
@@ -144,7 +144,7 @@ void Path::append(const std::string& path_) {
 }
 
 void Path::normalize() {
-    if (path.back() == '/' && path.length() > 1) {
+    if (path.length() > 1 && path.back() == '/') {
         path = path.substr(0, path.length() - 1);
     }
 }
-- 
2.43.0


From 853c7f685ff5df5da34e5931c2c78f7cd3d07686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:51 +0000
Subject: [PATCH 22/30] fix: create the first directory of a relative path
 whose name has one letter

---
 src/maliput/common/filesystem.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maliput/common/filesystem.cc b/src/maliput/common/filesystem.cc
index 4c096de..ff1b716 100644
--- a/src/maliput/common/filesystem.cc
+++ b/src/maliput/common/filesystem.cc
@@ -184,7 +184,7 @@ bool Filesystem::read_as_string(const Path &path, std::string &read_to) {
 }
 
 bool Filesystem::create_directory_recursive(const Path &path) {
-    size_t pos = 1;
+    size_t pos = 0;
     std::string temp(path.get_path());
 
     if (temp == "") {
-- 
2.43.0


From c1b80754e73dc42a24e0c704f7b782e8f2e39fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:51 +0000
Subject: [PATCH 23/30] fix: do not read forever from a path whose content
 cannot be read

---
 src/maliput/common/filesystem.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/maliput/common/filesystem.cc b/src/maliput/common/filesystem.cc
index ff1b716..e1470e2 100644
--- a/src/maliput/common/filesystem.cc
+++ b/src/maliput/common/filesystem.cc
@@ -175,6 +175,8 @@ bool Filesystem::read_as_string(const Path &path, std::string &read_to) {
         while (true) {
             char c = is.get();
             if (is.eof()) { break; }
+            // The content can't be read, e.g. when the path is a directory.
+            if (!is) { return false; }
             ss << c;
         }
         read_to = ss.str();
-- 
2.43.0


From 1e7212abdab083d1cb6fc0eaf2646c8cd094d9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:36 +0000
Subject: [PATCH 24/30] fix: create_directory_recursive succeeds for existing
 directories and trailing slashes, as mkdir -p does

---
 src/maliput/common/filesystem.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maliput/common/filesystem.cc b/src/maliput/common/filesystem.cc
index e1470e2..1158213 100644
--- a/src/maliput/common/filesystem.cc
+++ b/src/maliput/common/filesystem.cc
@@ -202,7 +202,7 @@ bool Filesystem::create_directory_recursive(const Path &path) {
             return false;
         }
     }
-    return create_directory(Path(temp));
+    return Path(temp).is_directory() || create_directory(Path(temp));
 }
 
 std::string Filesystem::get_env_path(const std::string &env_var) {
-- 
2.43.0


From 29b81d199180bca2e9f2ca0f3d3ef7eeebae5bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:44 +0000
Subject: [PATCH 25/30] fix: copies of a GeoMesh keep their own vertices and
 normals

The copy of a UniqueIndexer pointed to the elements of the map it was
copied from, which dangle once the original is gone.
---
 include/maliput/utility/mesh.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/maliput/utility/mesh.h b/include/maliput/utility/mesh.h
index eeb3d76..5734a3f 100644
--- a/include/maliput/utility/mesh.h
+++ b/include/maliput/utility/mesh.h
@@ -60,6 +60,23 @@ class UniqueIndexer {
   /// Creates an empty UniqueIndexer.
   UniqueIndexer() = default;
 
+  /// Copies @p other. The elements of vector() belong to the copy.
+  UniqueIndexer(const UniqueIndexer& other) : map_(other.map_), vector_(map_.size()) {
+    for (const auto& thing_and_index : map_) {
+      vector_[thing_and_index.second] = &thing_and_index.first;
+    }
+  }
+
+  /// Moves @p other. Moving a map does not move its elements.
+  UniqueIndexer(UniqueIndexer&& other) = default;
+
+  /// Copies or moves @p other.
+  UniqueIndexer& operator=(UniqueIndexer other) {
+    map_.swap(other.map_);
+    vector_.swap(other.vector_);
+    return *this;
+  }
+
   /// Pushes @p thing onto the back of this container, and returns the unique
   /// index for @p thing.  If @p thing has already been added to the container,
   /// then this simply returns the original index for @p thing.
-- 
2.43.0


From 96f658b5a99fe6cce247b7d6bdfdc262415e3043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:26 +0000
Subject: [PATCH 26/30] fix: sample the ranges of a route that run against
 their lane

SampleAheadWaypoints() took the s coordinate to grow along every range, and
skipped the samples of those that decrease.
---
 src/maliput/api/road_geometry.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/maliput/api/road_geometry.cc b/src/maliput/api/road_geometry.cc
index 672c89d..18de8b3 100644
--- a/src/maliput/api/road_geometry.cc
+++ b/src/maliput/api/road_geometry.cc
@@ -229,13 +229,16 @@ std::vector<InertialPosition> RoadGeometry::DoSampleAheadWaypoints(const LaneSRo
     MALIPUT_THROW_UNLESS(lane != nullptr);
     const SRange lane_s_range = range.s_range();
 
-    double step_accumulator = previous_s_difference + lane_s_range.s0() + path_length_sampling_rate;
+    // The distance to the next sample from the start of the range, which may run against the lane's s coordinate.
+    double step_accumulator = previous_s_difference + path_length_sampling_rate;
+    const double direction = lane_s_range.s1() < lane_s_range.s0() ? -1. : 1.;
 
-    while (step_accumulator <= lane_s_range.s1()) {
-      waypoints.emplace_back(lane->ToInertialPosition(LanePosition(step_accumulator, 0.0, 0.0)));
+    while (step_accumulator <= lane_s_range.size()) {
+      const double s = lane_s_range.s0() + direction * step_accumulator;
+      waypoints.emplace_back(lane->ToInertialPosition(LanePosition(s, 0.0, 0.0)));
       step_accumulator += path_length_sampling_rate;
     }
-    previous_s_difference = step_accumulator - lane_s_range.s1() - path_length_sampling_rate;
+    previous_s_difference = step_accumulator - lane_s_range.size() - path_length_sampling_rate;
   }
   if (std::abs(previous_s_difference) > linear_tolerance()) {
     const Lane* last_lane = id.GetLane(ranges.back().lane_id());
-- 
2.43.0


From cb607e116c0d63970bf111c0e58c8a4099b56dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:37 +0000
Subject: [PATCH 27/30] fix: an empty route has no waypoints

SampleAheadWaypoints() read the first range of a route without any.
---
 src/maliput/api/road_geometry.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/maliput/api/road_geometry.cc b/src/maliput/api/road_geometry.cc
index 18de8b3..97b536d 100644
--- a/src/maliput/api/road_geometry.cc
+++ b/src/maliput/api/road_geometry.cc
@@ -217,6 +217,9 @@ std::vector<InertialPosition> RoadGeometry::DoSampleAheadWaypoints(const LaneSRo
   std::vector<InertialPosition> waypoints;
   const RoadGeometry::IdIndex& id = ById();
   const std::vector<LaneSRange>& ranges = route.ranges();
+  if (ranges.empty()) {
+    return waypoints;
+  }
 
   /// Sample first point
   const Lane* first_lane = id.GetLane(ranges.front().lane_id());
-- 
2.43.0


From 185ac747bfeaa6ff089cdd2ba13d55005690d870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:32 +0000
Subject: [PATCH 28/30] fix: reject rule zones whose reversed range begins past
 the end of its lane

---
 src/maliput/base/road_rulebook_loader.cc                     | 1 +
 src/maliput/base/road_rulebook_loader_using_rule_registry.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/maliput/base/road_rulebook_loader.cc b/src/maliput/base/road_rulebook_loader.cc
index fde7abf..6544daf 100644
--- a/src/maliput/base/road_rulebook_loader.cc
+++ b/src/maliput/base/road_rulebook_loader.cc
@@ -174,6 +174,7 @@ SRange ObtainSRange(const Lane* lane, const YAML::Node& lane_node) {
   if (lane_node["SRange"]) {
     const SRange srange = lane_node["SRange"].as<SRange>();
     MALIPUT_THROW_UNLESS(srange.s0() >= 0);
+    MALIPUT_THROW_UNLESS(srange.s0() <= lane->length());
     MALIPUT_THROW_UNLESS(srange.s1() <= lane->length());
     return srange;
   } else {
diff --git a/src/maliput/base/road_rulebook_loader_using_rule_registry.cc b/src/maliput/base/road_rulebook_loader_using_rule_registry.cc
index cc5171c..b1de97e 100644
--- a/src/maliput/base/road_rulebook_loader_using_rule_registry.cc
+++ b/src/maliput/base/road_rulebook_loader_using_rule_registry.cc
@@ -116,6 +116,7 @@ SRange GetSRange(const Lane* lane, const YAML::Node& lane_node) {
   if (lane_node[RuleConstants::kSRange]) {
     const SRange s_range = lane_node[RuleConstants::kSRange].as<SRange>();
     MALIPUT_THROW_UNLESS(s_range.s0() >= 0);
+    MALIPUT_THROW_UNLESS(s_range.s0() <= lane->length());
     MALIPUT_THROW_UNLESS(s_range.s1() <= lane->length());
     return s_range;
   } else {
-- 
2.43.0


From 2eca8a58aaeed19d205eebed9a91b33ba454055a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:06 +0000
Subject: [PATCH 29/30] fix: relative comparisons report an infinite value
 against any other

---
 src/maliput/math/compare.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/maliput/math/compare.cc b/src/maliput/math/compare.cc
index aefa626..77dc527 100644
--- a/src/maliput/math/compare.cc
+++ b/src/maliput/math/compare.cc
@@ -77,7 +77,9 @@ common::ComparisonResult<math::VectorBase<N, Derived>> CompareVectors(const math
       const auto max_value = std::max(std::abs(v1[i]), std::abs(v2[i]));
       const auto relative_tolerance = tolerance * std::max(1., max_value);
 
-      if (delta > relative_tolerance) {
+      // When only one value is infinite, or both are with opposite signs, the
+      // relative tolerance is infinite too.
+      if (delta > relative_tolerance || std::isinf(max_value)) {
         return {"Value at (" + std::to_string(i) + ") exceeds tolerance: " + std::to_string(v1[i]) + " vs. " +
                 std::to_string(v2[i]) + ", diff = " + std::to_string(delta) + ", tolerance = " +
                 std::to_string(tolerance) + ", relative tolerance = " + std::to_string(relative_tolerance) +
@@ -131,7 +133,9 @@ common::ComparisonResult<math::Matrix<N>> CompareMatrices(const math::Matrix<N>&
         const auto max_value = std::max(std::abs(m1[ii][jj]), std::abs(m2[ii][jj]));
         const auto relative_tolerance = tolerance * std::max(1., max_value);
 
-        if (delta > relative_tolerance) {
+        // When only one value is infinite, or both are with opposite signs, the
+        // relative tolerance is infinite too.
+        if (delta > relative_tolerance || std::isinf(max_value)) {
           return {"Value at (" + std::to_string(ii) + ", " + std::to_string(jj) +
                   ") exceeds tolerance: " + std::to_string(m1[ii][jj]) + " vs. " + std::to_string(m2[ii][jj]) +
                   ", diff = " + std::to_string(delta) + ", tolerance = " + std::to_string(tolerance) +
-- 
2.43.0


From d9dcbac1c219cae1159fc8420a8c9e747bb46f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:40 +0000
Subject: [PATCH 30/30] fix: check the indexing of branch points of geometries
 without junctions

---
 src/maliput/api/compare.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/maliput/api/compare.cc b/src/maliput/api/compare.cc
index 736e94e..77baadc 100644
--- a/src/maliput/api/compare.cc
+++ b/src/maliput/api/compare.cc
@@ -346,11 +346,11 @@ std::optional<std::string> CheckIdIndexing(const RoadGeometry* road_geometry) {
                                       road_geometry->ById().GetLane(lane->id()), lane));
       }
     }
-    for (int bi = 0; bi < road_geometry->num_branch_points(); ++bi) {
-      const api::BranchPoint* branch_point = road_geometry->branch_point(bi);
-      MALIPUT_ADD_RESULT(c, IsEqual("road_geometry->ById().GetBranchPoint(branch_point->id())", "branch_point",
-                                    road_geometry->ById().GetBranchPoint(branch_point->id()), branch_point));
-    }
+  }
+  for (int bi = 0; bi < road_geometry->num_branch_points(); ++bi) {
+    const api::BranchPoint* branch_point = road_geometry->branch_point(bi);
+    MALIPUT_ADD_RESULT(c, IsEqual("road_geometry->ById().GetBranchPoint(branch_point->id())", "branch_point",
+                                  road_geometry->ById().GetBranchPoint(branch_point->id()), branch_point));
   }
   return c.result();
 }
-- 
2.43.0

