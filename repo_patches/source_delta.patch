From 27fec445335c25c5f6aa11a4e6573cc0a4419184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:59 +0000
Subject: [PATCH 01/44] fix: let ManualRulebook remove rules whose zone repeats
 a lane

RangeIndex::RemoveRanges() was called once per range of the zone and used
map_.at(), which throws when a previous call already erased the lane's entry.
RemoveRule() then threw and left the rule in the book but not in its index.
---
 src/maliput/base/manual_rulebook.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/maliput/base/manual_rulebook.cc b/src/maliput/base/manual_rulebook.cc
index 8d53c49..8d3a9b0 100644
--- a/src/maliput/base/manual_rulebook.cc
+++ b/src/maliput/base/manual_rulebook.cc
@@ -280,9 +280,14 @@ class ManualRulebook::Impl {
 
     // Removes all associations involving `id` and `lane_id`.
     void RemoveRanges(const IdVariant& id, const LaneId& lane_id) {
-      map_.at(lane_id).erase(id);
-      if (map_[lane_id].empty()) {
-        map_.erase(lane_id);
+      // A zone may have several ranges on the same lane, in which case all of them are erased at once.
+      const auto it = map_.find(lane_id);
+      if (it == map_.end()) {
+        return;
+      }
+      it->second.erase(id);
+      if (it->second.empty()) {
+        map_.erase(it);
       }
     }
 
-- 
2.43.0


From 1d85fdb49888392266971b001236ef17e1cb9b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:33 +0000
Subject: [PATCH 02/44] fix: let ThreadPool finish and be destroyed without
 having been started

---
 src/maliput/utility/thread_pool.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/maliput/utility/thread_pool.cc b/src/maliput/utility/thread_pool.cc
index 0b4b333..287e178 100644
--- a/src/maliput/utility/thread_pool.cc
+++ b/src/maliput/utility/thread_pool.cc
@@ -51,6 +51,12 @@ void ThreadPool::Start() {
 
 void ThreadPool::Finish() {
   is_finished_ = true;
+  {
+    // Releases the threads that are still waiting for Start(), so that they process the queued tasks and end.
+    std::unique_lock<std::mutex> l_s(start_mutex_);
+    is_running_ = true;
+    start_.notify_all();
+  }
   {
     std::unique_lock<std::mutex> l_t(tasks_mutex_);
     available_.notify_all();
-- 
2.43.0


From 4ebb92feab4ba37d4e75c5276e465b0a21ae67df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:53 +0000
Subject: [PATCH 03/44] fix: reject phase rings with unknown next phases or
 uneven bulb coverage

---
 src/maliput/api/rules/phase_ring.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/maliput/api/rules/phase_ring.cc b/src/maliput/api/rules/phase_ring.cc
index daee203..6c1d13b 100644
--- a/src/maliput/api/rules/phase_ring.cc
+++ b/src/maliput/api/rules/phase_ring.cc
@@ -66,6 +66,9 @@ void VerifyAllPhasesHaveSameCoverage(const PhaseRing::Id& id, const std::vector<
                            ") has duplicated discrete value rule states");
     }
     // Require both set of bulb states to be defined or undefined together.
+    MALIPUT_VALIDATE(phase.bulb_states().has_value() == r.bulb_states().has_value(),
+                     "PhaseRing(" + id.string() + "). Phase(" + phase.id().string() + ") and Phase(" + r.id().string() +
+                         ") must both define bulb_states or neither of them.");
     if (r.bulb_states() != std::nullopt) {
       MALIPUT_VALIDATE(phase.bulb_states()->size() == r.bulb_states()->size(),
                        "Phase(" + id.string() + "). Phase(" + phase.id().string() + ") and Phase(" + r.id().string() +
@@ -88,6 +91,11 @@ void VerifyNextPhases(const PhaseRing::Id& id, const std::vector<Phase>& phases,
     MALIPUT_VALIDATE(
         next_phases.find(phase.id()) != next_phases.end(),
         "In PhaseRing(" + id.string() + "), the Phase(" + phase.id().string() + ") is not in next_phases.");
+    for (const PhaseRing::NextPhase& next_phase : next_phases.at(phase.id())) {
+      MALIPUT_VALIDATE(next_phases.find(next_phase.id) != next_phases.end(),
+                       "In PhaseRing(" + id.string() + "), the next phase Phase(" + next_phase.id.string() +
+                           ") of Phase(" + phase.id().string() + ") is not in phases.");
+    }
   }
 }
 
-- 
2.43.0


From b1236f712db7423e1b6f19663b824479d291e750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:53 +0000
Subject: [PATCH 04/44] fix: leave ManualPhaseRingBook unchanged when a phase
 ring is rejected

---
 src/maliput/base/manual_phase_ring_book.cc | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/maliput/base/manual_phase_ring_book.cc b/src/maliput/base/manual_phase_ring_book.cc
index cb20aae..f479d1b 100644
--- a/src/maliput/base/manual_phase_ring_book.cc
+++ b/src/maliput/base/manual_phase_ring_book.cc
@@ -51,27 +51,32 @@ class ManualPhaseRingBook::Impl {
   ~Impl() {}
 
   void AddPhaseRing(const PhaseRing& ring) {
-    auto result = ring_book_.emplace(ring.id(), ring);
-    if (!result.second) {
+    // Validates everything first, so that a rejected ring leaves the book as it was.
+    if (ring_book_.find(ring.id()) != ring_book_.end()) {
       throw std::logic_error("Attempted to add multiple PhaseRing instances with ID " + ring.id().string());
     }
     const Phase& phase = ring.phases().begin()->second;
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wdeprecated-declarations"
     for (const auto& element : phase.rule_states()) {
-      auto r = right_of_way_rule_book_.emplace(element.first, ring.id());
-#pragma GCC diagnostic pop
-      if (!r.second) {
+      if (right_of_way_rule_book_.find(element.first) != right_of_way_rule_book_.end()) {
         throw std::logic_error("RightOfWayRule with ID " + element.first.string() +
                                " is part of more than one PhaseRing.");
       }
     }
     for (const auto& element : phase.discrete_value_rule_states()) {
-      auto r = rule_book_.emplace(element.first, ring.id());
-      if (!r.second) {
+      if (rule_book_.find(element.first) != rule_book_.end()) {
         throw std::logic_error("Rule with ID " + element.first.string() + " is part of more than one PhaseRing.");
       }
     }
+    ring_book_.emplace(ring.id(), ring);
+    for (const auto& element : phase.rule_states()) {
+      right_of_way_rule_book_.emplace(element.first, ring.id());
+    }
+#pragma GCC diagnostic pop
+    for (const auto& element : phase.discrete_value_rule_states()) {
+      rule_book_.emplace(element.first, ring.id());
+    }
   }
 
   void RemovePhaseRing(const PhaseRing::Id& ring_id) {
-- 
2.43.0


From f1d7d98e8ea5914dbc3345a525acaf6237a546b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:53 +0000
Subject: [PATCH 05/44] fix: report a duplicated intersection id without using
 the moved-from intersection

---
 src/maliput/base/intersection_book.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/maliput/base/intersection_book.cc b/src/maliput/base/intersection_book.cc
index b8a19e9..b133f71 100644
--- a/src/maliput/base/intersection_book.cc
+++ b/src/maliput/base/intersection_book.cc
@@ -53,9 +53,10 @@ class IntersectionBook::Impl {
 
   void AddIntersection(std::unique_ptr<Intersection> intersection) {
     MALIPUT_THROW_UNLESS(intersection != nullptr);
-    auto result = book_.emplace(intersection->id(), std::move(intersection));
+    const Intersection::Id id = intersection->id();
+    auto result = book_.emplace(id, std::move(intersection));
     if (!result.second) {
-      throw std::logic_error("Attempted to add multiple Intersection instances with ID " + intersection->id().string());
+      throw std::logic_error("Attempted to add multiple Intersection instances with ID " + id.string());
     }
   }
 
-- 
2.43.0


From 7266d6f947e362ad0595cbf69b1a79509728dd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 06/44] fix: LaneSRoute::Intersects considers every range on a
 shared lane

Only the first range of the other route on the same lane was compared, so routes
with several ranges on one lane could overlap without being reported (and the
answer depended on the order of the ranges).
---
 src/maliput/api/regions.cc | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/maliput/api/regions.cc b/src/maliput/api/regions.cc
index 00289e0..5603a62 100644
--- a/src/maliput/api/regions.cc
+++ b/src/maliput/api/regions.cc
@@ -136,13 +136,11 @@ std::optional<LaneSRange> LaneSRange::GetIntersection(const LaneSRange& lane_s_r
 
 bool LaneSRoute::Intersects(const LaneSRoute& lane_s_route, double tolerance) const {
   for (const auto& s_range : ranges()) {
-    const auto lane_s_range_it =
-        std::find_if(lane_s_route.ranges().begin(), lane_s_route.ranges().end(),
-                     [s_range](const LaneSRange& lane_s_range) { return s_range.lane_id() == lane_s_range.lane_id(); });
-    if (lane_s_range_it != lane_s_route.ranges().end()) {
-      if (s_range.Intersects(*lane_s_range_it, tolerance)) {
-        return true;
-      }
+    if (std::any_of(lane_s_route.ranges().begin(), lane_s_route.ranges().end(),
+                    [&s_range, tolerance](const LaneSRange& lane_s_range) {
+                      return s_range.Intersects(lane_s_range, tolerance);
+                    })) {
+      return true;
     }
   }
   return false;
-- 
2.43.0


From 9043df44927f251dba3de8d0ba63a66990c07b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 07/44] fix: IsIncluded looks at every lane range before
 answering no

The first range whose lane is within tolerance of the position decided the
answer, although a later range of the region may include the position (e.g. a
second range on the same lane, or an overlapping lane of the junction).
---
 src/maliput/api/regions.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/maliput/api/regions.cc b/src/maliput/api/regions.cc
index 5603a62..a79e858 100644
--- a/src/maliput/api/regions.cc
+++ b/src/maliput/api/regions.cc
@@ -159,7 +159,9 @@ bool IsIncluded(const InertialPosition& inertial_position, const std::vector<Lan
         road_geometry->ById().GetLane(lane_s_range.lane_id())->ToLanePosition(inertial_position);
     if (result.distance <= linear_tolerance) {
       const double s_position = result.lane_position.s();
-      return lane_s_range.s_range().Intersects(SRange(s_position, s_position), linear_tolerance);
+      if (lane_s_range.s_range().Intersects(SRange(s_position, s_position), linear_tolerance)) {
+        return true;
+      }
     }
   }
   return false;
-- 
2.43.0


From c020c203c87f06c1f4a73afd5ab92e9b80ef8ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:45 +0000
Subject: [PATCH 08/44] fix: rule states are equal only if their related groups
 are

Rule::State::operator== accepted any state whose groups of related rules or
unique ids are subsets of the other's. It was not symmetric: a rule with states
that differ in a related group was refused as having duplicated states, and a
state provider accepted states that are not states of the rule.
---
 src/maliput/api/rules/rule.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/maliput/api/rules/rule.cc b/src/maliput/api/rules/rule.cc
index 8d3e6cd..9e78f8f 100644
--- a/src/maliput/api/rules/rule.cc
+++ b/src/maliput/api/rules/rule.cc
@@ -50,6 +50,9 @@ bool CompareMapAttributes(const std::map<std::string, std::vector<T>>& map_a,
     if (it == map_b.end()) {
       return false;
     }
+    if (key_val.second.size() != it->second.size()) {
+      return false;
+    }
     for (const auto& value_id : key_val.second) {
       if (std::find(it->second.begin(), it->second.end(), value_id) == it->second.end()) {
         return false;
-- 
2.43.0


From 25909a124365468b95abb340fc11ebeeec9877ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:31 +0000
Subject: [PATCH 09/44] fix: BranchPoint leaves itself unchanged when it
 rejects a branch

A lane end that already belongs to another BranchPoint was added to the
side and maps before Lane::Set*BranchPoint() threw.
---
 src/maliput/geometry_base/branch_point.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/maliput/geometry_base/branch_point.cc b/src/maliput/geometry_base/branch_point.cc
index 26f12ef..a772622 100644
--- a/src/maliput/geometry_base/branch_point.cc
+++ b/src/maliput/geometry_base/branch_point.cc
@@ -55,9 +55,7 @@ void BranchPoint::AddBranch(Lane* lane, api::LaneEnd::Which end, LaneEndSet* sid
   MALIPUT_THROW_UNLESS(confluent_branches_.count(lane_end) == 0);
   MALIPUT_THROW_UNLESS(ongoing_branches_.count(lane_end) == 0);
   LaneEndSet* const other_side = (side == &a_side_) ? &b_side_ : &a_side_;
-  side->Add(lane_end);
-  confluent_branches_[lane_end] = side;
-  ongoing_branches_[lane_end] = other_side;
+  // Attach the lane first: when its end already belongs to a BranchPoint it throws, and this must remain unchanged.
   switch (end) {
     case api::LaneEnd::kStart: {
       lane->SetStartBranchPoint({}, this);
@@ -68,6 +66,9 @@ void BranchPoint::AddBranch(Lane* lane, api::LaneEnd::Which end, LaneEndSet* sid
       break;
     }
   }
+  side->Add(lane_end);
+  confluent_branches_[lane_end] = side;
+  ongoing_branches_[lane_end] = other_side;
 }
 
 void BranchPoint::SetDefault(const api::LaneEnd& lane_end, const api::LaneEnd& default_branch) {
-- 
2.43.0


From 0a9df8b81e36f13a028fd833094dc5a85d0ab30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 10/44] fix: FindLaneSequences returns each sequence once when
 lanes connect at both ends

---
 src/maliput/routing/find_lane_sequences.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/maliput/routing/find_lane_sequences.cc b/src/maliput/routing/find_lane_sequences.cc
index fbf6d75..ef8256e 100644
--- a/src/maliput/routing/find_lane_sequences.cc
+++ b/src/maliput/routing/find_lane_sequences.cc
@@ -43,11 +43,13 @@ namespace maliput {
 namespace routing {
 namespace {
 
-// Adds the lanes in @p lane_end_set to @p container.
+// Adds the lanes in @p lane_end_set that are not in @p container yet to @p container.
 void AddLanes(const LaneEndSet* lane_end_set, std::vector<const Lane*>* container) {
   for (int i = 0; i < lane_end_set->size(); ++i) {
     const LaneEnd& lane_end = lane_end_set->get(i);
-    container->push_back(lane_end.lane);
+    if (std::find(container->begin(), container->end(), lane_end.lane) == container->end()) {
+      container->push_back(lane_end.lane);
+    }
   }
 }
 
-- 
2.43.0


From 08eaa25fd370fed36d1576f12970f6fd3420bcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 11/44] fix: a U-turn leaves a lane through the end it was
 entered by

---
 src/maliput/routing/find_lane_sequences.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maliput/routing/find_lane_sequences.cc b/src/maliput/routing/find_lane_sequences.cc
index ef8256e..533e063 100644
--- a/src/maliput/routing/find_lane_sequences.cc
+++ b/src/maliput/routing/find_lane_sequences.cc
@@ -144,8 +144,8 @@ bool HasUTurn(const std::vector<const Lane*>& lane_sequence) {
   for (size_t i = 1; i < lane_sequence.size() - 1u; ++i) {
     // Obtain the following connection_set.
     const ConnectionSet next_connection_set = BuildConnectionSet(lane_sequence[i], lane_sequence[i + 1]);
-    // Evaluate if there is a U turn.
-    if (next_connection_set.ongoing.end == connection_set.incoming.end) {
+    // Evaluate if there is a U turn: the i-th Lane is left through the end it was entered by.
+    if (next_connection_set.incoming.end == connection_set.ongoing.end) {
       return true;
     }
     connection_set = next_connection_set;
-- 
2.43.0


From 5c9324612e70953a711a9f93fea6190e91353855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 12/44] fix: DeriveLaneSRoutes leaves and enters lanes through
 connected ends

---
 src/maliput/routing/derive_lane_s_routes.cc | 53 +++++++++++++++------
 1 file changed, 38 insertions(+), 15 deletions(-)

diff --git a/src/maliput/routing/derive_lane_s_routes.cc b/src/maliput/routing/derive_lane_s_routes.cc
index 0d7a512..f44e421 100644
--- a/src/maliput/routing/derive_lane_s_routes.cc
+++ b/src/maliput/routing/derive_lane_s_routes.cc
@@ -52,6 +52,25 @@ bool LaneExistsInSet(const api::LaneEndSet* set, const api::Lane& lane) {
   return false;
 }
 
+// Returns the end by which @p next_lane is entered when leaving @p lane through @p end, or std::nullopt when @p next_lane
+// is not an ongoing lane there.
+std::optional<api::LaneEnd::Which> FindOngoingEnd(const api::Lane& lane, api::LaneEnd::Which end,
+                                                  const api::Lane& next_lane) {
+  const api::LaneEndSet* set = lane.GetOngoingBranches(end);
+  MALIPUT_THROW_UNLESS(set != nullptr);
+  for (int i = 0; i < set->size(); ++i) {
+    if (set->get(i).lane == &next_lane) {
+      return set->get(i).end;
+    }
+  }
+  return std::nullopt;
+}
+
+// Returns the S coordinate of @p end in @p lane.
+double GetEndS(const api::Lane& lane, api::LaneEnd::Which end) {
+  return end == api::LaneEnd::kStart ? 0. : lane.length();
+}
+
 }  // namespace
 
 std::optional<double> DetermineEdgeS(const api::Lane& lane, const api::Lane& next_lane) {
@@ -88,26 +107,30 @@ std::vector<api::LaneSRoute> DeriveLaneSRoutes(const api::RoadPosition& start, c
     }
 
     // Handles the case when lane_sequence has a length greater than 1.
+    // Two lanes may connect at both of their ends, so the end by which a lane is entered follows from the end by which
+    // the previous one is left.
+    std::optional<api::LaneEnd::Which> entry_end;
     for (size_t i = 0; i < lane_sequence.size(); ++i) {
       const api::Lane* lane = lane_sequence.at(i);
       MALIPUT_THROW_UNLESS(lane != nullptr);
-      if (i == 0) {
-        MALIPUT_THROW_UNLESS(lane->id() == start.lane->id());
-        const std::optional<double> first_end_s = DetermineEdgeS(*lane, *lane_sequence.at(1));
-        MALIPUT_THROW_UNLESS(first_end_s.has_value());
-        ranges.emplace_back(lane->id(), api::SRange(start_s, first_end_s.value()));
-      } else if (i + 1 == lane_sequence.size()) {
+      const double range_start_s = entry_end.has_value() ? GetEndS(*lane, entry_end.value()) : start_s;
+      if (i + 1 == lane_sequence.size()) {
         MALIPUT_THROW_UNLESS(lane->id() == end.lane->id());
-        MALIPUT_THROW_UNLESS(i > 0);
-        const std::optional<double> last_start_s = DetermineEdgeS(*lane, *lane_sequence.at(i - 1));
-        MALIPUT_THROW_UNLESS(last_start_s.has_value());
-        ranges.emplace_back(lane->id(), api::SRange(last_start_s.value(), end_s));
-      } else {
-        const std::optional<double> middle_start_s = DetermineEdgeS(*lane, *lane_sequence.at(i - 1));
-        const std::optional<double> middle_end_s = DetermineEdgeS(*lane, *lane_sequence.at(i + 1));
-        MALIPUT_THROW_UNLESS(middle_start_s && middle_end_s);
-        ranges.emplace_back(lane->id(), api::SRange(middle_start_s.value(), middle_end_s.value()));
+        ranges.emplace_back(lane->id(), api::SRange(range_start_s, end_s));
+        break;
+      }
+      // Traverses the lane whenever that is possible.
+      const api::Lane& next_lane = *lane_sequence.at(i + 1);
+      api::LaneEnd::Which exit_end =
+          entry_end == api::LaneEnd::kFinish ? api::LaneEnd::kStart : api::LaneEnd::kFinish;
+      std::optional<api::LaneEnd::Which> next_entry_end = FindOngoingEnd(*lane, exit_end, next_lane);
+      if (!next_entry_end.has_value()) {
+        exit_end = exit_end == api::LaneEnd::kStart ? api::LaneEnd::kFinish : api::LaneEnd::kStart;
+        next_entry_end = FindOngoingEnd(*lane, exit_end, next_lane);
       }
+      MALIPUT_THROW_UNLESS(next_entry_end.has_value());
+      ranges.emplace_back(lane->id(), api::SRange(range_start_s, GetEndS(*lane, exit_end)));
+      entry_end = next_entry_end;
     }
     result.emplace_back(ranges);
   }
-- 
2.43.0


From d8a405c23182433ca9f3df46aa12ded2fb0aad89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 13/44] fix: BuildGraph joins the branch points of a segment's
 end in one node

---
 src/maliput/routing/graph/graph.cc | 114 +++++++++++++++--------------
 1 file changed, 61 insertions(+), 53 deletions(-)

diff --git a/src/maliput/routing/graph/graph.cc b/src/maliput/routing/graph/graph.cc
index 0f06863..1a83177 100644
--- a/src/maliput/routing/graph/graph.cc
+++ b/src/maliput/routing/graph/graph.cc
@@ -28,9 +28,10 @@
 // OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include "maliput/routing/graph/graph.h"
 
-#include <functional>
-#include <optional>
+#include <algorithm>
+#include <iterator>
 #include <string>
+#include <vector>
 
 #include "maliput/common/maliput_throw.h"
 
@@ -55,74 +56,81 @@ std::set<const api::BranchPoint*> GetBranchPoints(const api::Segment* segment, c
   return branch_points;
 }
 
-// Finds a Node in @p graph by containing at least one branch point in @p branch_points.
+// Bundles of api::BranchPoints, each of which makes a Node.
+using BranchPointBundles = std::vector<std::set<const api::BranchPoint*>>;
+
+// Adds @p branch_points to @p bundles.
 //
-// @param graph The Graph containing the Nodes to search through.
-// @param branch_points The set of api::BranchPoints whose items should be found in one of the Nodes in @p graph.
-// @return An optional containing the matched Node. Otherwise, std::nullopt.
-std::optional<Node> FindNode(const Graph& graph, std::set<const api::BranchPoint*> branch_points) {
-  for (const auto& id_node : graph.nodes) {
-    if (std::any_of(branch_points.begin(), branch_points.end(), [n = id_node.second](const auto bp) {
-          return n.branch_points.find(bp) != n.branch_points.end();
-        })) {
-      return {id_node.second};
-    }
+// All the bundles that share an api::BranchPoint with @p branch_points become one, in the place of the first of them.
+// When there is none, @p branch_points is a new bundle, added at the end.
+//
+// @param branch_points The set of api::BranchPoints at one end of an api::Segment.
+// @param bundles The disjoint bundles to modify.
+void AddBundle(const std::set<const api::BranchPoint*>& branch_points, BranchPointBundles* bundles) {
+  if (branch_points.empty()) {
+    return;
   }
-  return {};
+  const auto shares_branch_point = [&branch_points](const std::set<const api::BranchPoint*>& bundle) {
+    return std::any_of(branch_points.begin(), branch_points.end(),
+                       [&bundle](const auto bp) { return bundle.find(bp) != bundle.end(); });
+  };
+  const auto first = std::find_if(bundles->begin(), bundles->end(), shares_branch_point);
+  if (first == bundles->end()) {
+    bundles->push_back(branch_points);
+    return;
+  }
+  const auto last = std::stable_partition(
+      std::next(first), bundles->end(), [&](const auto& bundle) { return !shares_branch_point(bundle); });
+  first->insert(branch_points.begin(), branch_points.end());
+  std::for_each(last, bundles->end(), [&first](const auto& bundle) { first->insert(bundle.begin(), bundle.end()); });
+  bundles->erase(last, bundles->end());
 }
 
-// Gets a Node from @p graph, or creates one, with @p branch_points.
-//
-// When there is no Node found in @p graph, a new Node is created and returned. Note that
-// @p graph is not changed, but the returned Node might be changed relative to what's in
-// @p graph as it'll always contain at least @p branch_points.
+// Returns the NodeId of the Node in @p graph that contains @p branch_points, which are one end of an api::Segment.
 //
-// @param graph The Graph to look for the matching Node.
-// @param branch_points The set of api::BranchPoints to match the Node in @p graph.
-// @param id_generator A functor to obtain an ID for Nodes.
-// @return A Node whose api::BranchPoints set contains @p branch_points.
-Node GetNode(const Graph& graph, std::set<const api::BranchPoint*> branch_points,
-             std::function<NodeId()> id_generator) {
-  const std::optional<Node> node_result = FindNode(graph, branch_points);
-  if (node_result.has_value()) {
-    Node node = node_result.value();
-    for (const api::BranchPoint* bp : branch_points) {
-      node.branch_points.insert(bp);
-    }
-    return node_result.value();
+// The ends of an api::Segment without api::Lanes have no api::BranchPoints: each of them gets a Node of its own.
+NodeId GetNodeId(const std::set<const api::BranchPoint*>& branch_points, Graph* graph) {
+  if (branch_points.empty()) {
+    const NodeId node_id(std::to_string(graph->nodes.size()));
+    graph->nodes.emplace(node_id, Node{node_id, {}, {}});
+    return node_id;
   }
-  return Node{id_generator(), branch_points, {}};
+  const auto it = std::find_if(graph->nodes.begin(), graph->nodes.end(), [&branch_points](const auto& id_node) {
+    return id_node.second.branch_points.find(*branch_points.begin()) != id_node.second.branch_points.end();
+  });
+  MALIPUT_THROW_UNLESS(it != graph->nodes.end());
+  return it->first;
 }
 
 }  // namespace
 
 Graph BuildGraph(const api::RoadGeometry* rg) {
   MALIPUT_THROW_UNLESS(rg != nullptr);
-  size_t node_index = 0;
-  auto node_id_generator = [&node_index]() mutable { return NodeId(std::to_string(node_index++)); };
-  Graph graph;
+  // Bundles the api::BranchPoints first, as an api::Segment may join the bundles of others.
+  BranchPointBundles bundles;
+  for (int j_id = 0; j_id < rg->num_junctions(); ++j_id) {
+    const api::Junction* junction = rg->junction(j_id);
+    for (int s_id = 0; s_id < junction->num_segments(); ++s_id) {
+      AddBundle(GetBranchPoints(junction->segment(s_id), api::LaneEnd::Which::kStart), &bundles);
+      AddBundle(GetBranchPoints(junction->segment(s_id), api::LaneEnd::Which::kFinish), &bundles);
+    }
+  }
 
+  Graph graph;
+  for (size_t i = 0; i < bundles.size(); ++i) {
+    const NodeId node_id(std::to_string(i));
+    graph.nodes.emplace(node_id, Node{node_id, bundles[i], {}});
+  }
   for (int j_id = 0; j_id < rg->num_junctions(); ++j_id) {
     const api::Junction* junction = rg->junction(j_id);
     for (int s_id = 0; s_id < junction->num_segments(); ++s_id) {
       const api::Segment* segment = junction->segment(s_id);
-
-      const std::set<const api::BranchPoint*> start_branch_points =
-          GetBranchPoints(segment, api::LaneEnd::Which::kStart);
-      const std::set<const api::BranchPoint*> end_branch_points =
-          GetBranchPoints(segment, api::LaneEnd::Which::kFinish);
-
-      Node start_node = GetNode(graph, start_branch_points, node_id_generator);
-      Node end_node = GetNode(graph, end_branch_points, node_id_generator);
-
-      Edge edge{EdgeId(segment->id().string()), segment, start_node.id, end_node.id};
-
-      start_node.edges.insert(edge.id);
-      end_node.edges.insert(edge.id);
-
-      graph.edges.insert_or_assign(edge.id, edge);
-      graph.nodes.insert_or_assign(start_node.id, start_node);
-      graph.nodes.insert_or_assign(end_node.id, end_node);
+      const Edge edge{EdgeId(segment->id().string()), segment,
+                      GetNodeId(GetBranchPoints(segment, api::LaneEnd::Which::kStart), &graph),
+                      GetNodeId(GetBranchPoints(segment, api::LaneEnd::Which::kFinish), &graph)};
+      graph.nodes.at(edge.node_a).edges.insert(edge.id);
+      graph.nodes.at(edge.node_b).edges.insert(edge.id);
+      graph.edges.emplace(edge.id, edge);
     }
   }
 
-- 
2.43.0


From 5c9b9b4cd5ce04d3666af23a4d2742432cf3bc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 14/44] fix: the tolerance of a nearest point search is a
 distance

Distances in the k-d tree are squared, the tolerance was compared with them
as given: with a tolerance below 1 a point farther than the tolerance was
taken for a match.
---
 include/maliput/math/kd_tree.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/maliput/math/kd_tree.h b/include/maliput/math/kd_tree.h
index e998d8b..8e72b4f 100644
--- a/include/maliput/math/kd_tree.h
+++ b/include/maliput/math/kd_tree.h
@@ -291,7 +291,8 @@ class KDTreeBase {
     MALIPUT_VALIDATE(tolerance > 0, "Tolerance is negative.");
     Node* best = nullptr;
     double best_dist = std::numeric_limits<double>::infinity();
-    nearest_point(root_, point, 0, tolerance, best, &best_dist);
+    // Distances are squared, see SquaredDistance.
+    nearest_point(root_, point, 0, tolerance * tolerance, best, &best_dist);
     return best->get_coordinate();
   }
 
-- 
2.43.0


From e9242dd5fc44278ae7c33c401ca48708fb982f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 15/44] fix: a bounding box is turned by its orientation, not
 by the inverse

Contains, get_vertices and IsBoxIntersected took the orientation of a
BoundingBox in the Inertial-frame for its inverse or for one or the other, and
the separating axis test did not express the translation in the box frame.
---
 src/maliput/math/bounding_box.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/maliput/math/bounding_box.cc b/src/maliput/math/bounding_box.cc
index 178b004..ca91ab5 100644
--- a/src/maliput/math/bounding_box.cc
+++ b/src/maliput/math/bounding_box.cc
@@ -56,7 +56,7 @@ std::vector<Vector3> BoundingBox::get_vertices() const {
   };
   std::vector<Vector3> vertices;
   for (const auto& vertex : vertices_box_frame) {
-    vertices.push_back(orientation_.ToMatrix().inverse() * vertex + position_);
+    vertices.push_back(orientation_.ToMatrix() * vertex + position_);
   }
   return vertices;
 }
@@ -66,7 +66,7 @@ const Vector3& BoundingBox::box_size() const { return box_size_; }
 const RollPitchYaw& BoundingBox::get_orientation() const { return orientation_; }
 
 bool BoundingBox::DoContains(const Vector3& position) const {
-  const Vector3 box_frame_position = orientation_.ToMatrix() * (position - position_);
+  const Vector3 box_frame_position = orientation_.ToMatrix().inverse() * (position - position_);
   return box_frame_position.x() <= xyz_2_.x() + tolerance_ && box_frame_position.x() >= -xyz_2_.x() - tolerance_ &&
          box_frame_position.y() <= xyz_2_.y() + tolerance_ && box_frame_position.y() >= -xyz_2_.y() - tolerance_ &&
          box_frame_position.z() <= xyz_2_.z() + tolerance_ && box_frame_position.z() >= -xyz_2_.z() - tolerance_;
@@ -96,8 +96,9 @@ bool BoundingBox::IsBoxIntersected(const BoundingBox& other) const {
   // Let's compute the relative transformation from this box to the other box.
   // For the purposes of streamlining the math below, translation and rotation
   // will be named `t` and `r` respectively.
-  const Vector3 t = other.position() - position();
-  const Matrix3 r = get_orientation().ToMatrix().inverse() * other.get_orientation().ToMatrix();
+  const Matrix3 inertial_to_box = get_orientation().ToMatrix().inverse();
+  const Vector3 t = inertial_to_box * (other.position() - position());
+  const Matrix3 r = inertial_to_box * other.get_orientation().ToMatrix();
 
   // Compute some common subexpressions and add epsilon to counteract
   // arithmetic error, e.g. when two edges are parallel. We use the value as
@@ -113,7 +114,7 @@ bool BoundingBox::IsBoxIntersected(const BoundingBox& other) const {
   // First category of cases separating along a's axes.
   for (int i = 0; i < 3; ++i) {
     // if (std::abs(t[i]) > xyz_2_[i] + other.xyz_2_.dot(abs_r.block<1, 3>(i, 0))) {
-    const Vector3 abs_r_i = abs_r.col(i);
+    const Vector3 abs_r_i = abs_r.row(i);
     if (std::abs(t[i]) > xyz_2_[i] + other.xyz_2_.dot(abs_r_i)) {
       return false;
     }
-- 
2.43.0


From b50dc1dec1c29d3390d600f70804ba832b111d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 16/44] fix: KDTreeStrategy finds every lane in reach exactly
 once

FindRoadPositions returned a lane once per sample found and missed lanes whose
samples are farther than the radius (the volume of a lane rises above the
sampled surface, and reaches between the samples); so did ToRoadPosition where
lanes overlap in height. A negative radius was not refused.
---
 .../maliput/geometry_base/kd_tree_strategy.h  | 11 +++++--
 src/maliput/geometry_base/kd_tree_strategy.cc | 29 ++++++++++++++-----
 2 files changed, 29 insertions(+), 11 deletions(-)

diff --git a/include/maliput/geometry_base/kd_tree_strategy.h b/include/maliput/geometry_base/kd_tree_strategy.h
index 41353d6..2d1ea8a 100644
--- a/include/maliput/geometry_base/kd_tree_strategy.h
+++ b/include/maliput/geometry_base/kd_tree_strategy.h
@@ -87,13 +87,18 @@ class KDTreeStrategy final : public StrategyBase {
   // @return The closest lane to the point.
   api::RoadPositionResult ClosestLane(const api::InertialPosition& inertial_position) const;
 
-  // Obtains the closest lanes in the road geometry to a given point within a region around the point.
-  // The region is an axis-aligned box with the point as center and the distance as half of the box's edge length.
-  std::deque<const api::Lane*> ClosestLanes(const api::InertialPosition& point, double half_edge_length) const;
+  // Obtains the lanes in the road geometry that may be within a distance of a given point, without repetition.
+  // @param point The point to be used as reference.
+  // @param distance The distance to the point.
+  // @return All the lanes that are within @p distance of @p point, and possibly some that are farther.
+  std::deque<const api::Lane*> ClosestLanes(const api::InertialPosition& point, double distance) const;
 
   std::unique_ptr<math::KDTree3D<MaliputPoint>> kd_tree_;
 
   const double sampling_step_;
+
+  // The farthest that the lanes' volumes extend from the sampled surface.
+  double max_elevation_{0.};
 };
 
 }  // namespace geometry_base
diff --git a/src/maliput/geometry_base/kd_tree_strategy.cc b/src/maliput/geometry_base/kd_tree_strategy.cc
index 142fd50..12a3b87 100644
--- a/src/maliput/geometry_base/kd_tree_strategy.cc
+++ b/src/maliput/geometry_base/kd_tree_strategy.cc
@@ -31,7 +31,9 @@
 #include "maliput/geometry_base/kd_tree_strategy.h"
 
 #include <algorithm>
+#include <cmath>
 #include <cstdlib>
+#include <unordered_set>
 
 #include "maliput/math/kd_tree.h"
 
@@ -49,6 +51,8 @@ KDTreeStrategy::KDTreeStrategy(const api::RoadGeometry* rg, const double samplin
       for (double r = lane_bounds.min(); r <= lane_bounds.max(); r += sampling_step_) {
         const auto inertial_pos = lane.second->ToInertialPosition({s, r, 0. /* h */}).xyz();
         points.push_back(MaliputPoint{{inertial_pos.x(), inertial_pos.y(), inertial_pos.z()}, lane.second});
+        const auto elevation_bounds = lane.second->elevation_bounds(s, r);
+        max_elevation_ = std::max({max_elevation_, std::abs(elevation_bounds.min()), std::abs(elevation_bounds.max())});
       }
     }
   }
@@ -67,6 +71,7 @@ api::RoadPositionResult KDTreeStrategy::DoToRoadPosition(const api::InertialPosi
 
 std::vector<api::RoadPositionResult> KDTreeStrategy::DoFindRoadPositions(const api::InertialPosition& inertial_position,
                                                                          double radius) const {
+  MALIPUT_THROW_UNLESS(radius >= 0.);
   const auto closest_lanes = this->ClosestLanes(inertial_position, radius);
   std::vector<api::RoadPositionResult> road_positions;
   for (const auto& lane : closest_lanes) {
@@ -84,10 +89,9 @@ api::RoadPositionResult KDTreeStrategy::ClosestLane(const api::InertialPosition&
   // Obtains the closest point in the kd-tree to the given point.
   const MaliputPoint maliput_point = kd_tree_->nearest_point(MaliputPoint{point.xyz()});
   // As the kd-tree is built with a sampling step, the closest point may not be the closest lane.
-  // Therefore, we search for the closest lane in a axis-aligned box whose half edge length is the distance between the
-  // nearest point and the given point plus twice the sampling_step_.
-  const double half_edge_length = (point.xyz() - maliput_point).norm() + 2. * sampling_step_;
-  const std::deque<const api::Lane*> closest_lanes = ClosestLanes(point, half_edge_length);
+  // Therefore, we search among the lanes that are at most as far as the nearest point.
+  const double distance = (point.xyz() - maliput_point).norm();
+  const std::deque<const api::Lane*> closest_lanes = ClosestLanes(point, distance);
 
   // Once we have the lanes in the region, we search for the closest lane relying on the lane's ToLanePosition method.
   MALIPUT_THROW_UNLESS(maliput_point.get_lane().has_value());
@@ -111,16 +115,25 @@ api::RoadPositionResult KDTreeStrategy::ClosestLane(const api::InertialPosition&
 }
 
 std::deque<const api::Lane*> KDTreeStrategy::ClosestLanes(const api::InertialPosition& point,
-                                                          double half_edge_length) const {
+                                                          double distance) const {
+  // The samples are on the lanes' surface and within the sampling step of one another. Any point of a lane's volume
+  // that is within `distance` has a sample of its lane in this box.
+  const double half_edge_length = distance + 2. * sampling_step_ + max_elevation_;
   const math::Vector3 min_corner{point.x() - half_edge_length, point.y() - half_edge_length,
                                  point.z() - half_edge_length};
   const math::Vector3 max_corner{point.x() + half_edge_length, point.y() + half_edge_length,
                                  point.z() + half_edge_length};
   const math::AxisAlignedBox search_region{min_corner, max_corner};
   const std::deque<const MaliputPoint*> maliput_points = kd_tree_->RangeSearch(search_region);
-  std::deque<const api::Lane*> maliput_lanes(maliput_points.size());
-  std::transform(maliput_points.begin(), maliput_points.end(), maliput_lanes.begin(),
-                 [](const MaliputPoint* point) { return point->get_lane().value(); });
+  // Several samples of the same lane may be found.
+  std::unordered_set<const api::Lane*> found_lanes;
+  std::deque<const api::Lane*> maliput_lanes;
+  for (const MaliputPoint* maliput_point : maliput_points) {
+    const api::Lane* lane = maliput_point->get_lane().value();
+    if (found_lanes.insert(lane).second) {
+      maliput_lanes.push_back(lane);
+    }
+  }
   return maliput_lanes;
 }
 }  // namespace geometry_base
-- 
2.43.0


From d2e23429b03ce62b9c772b84d958bc6cfbc02e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:37 +0000
Subject: [PATCH 17/44] fix: ToRoadPosition chooses the segment of minimum
 height

As documented in api::RoadGeometry: of the segments whose volume contains the
position, the one with the minimum height prevails; a position on a bridge was
mapped to the road below.
---
 src/maliput/geometry_base/strategy_base.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/maliput/geometry_base/strategy_base.cc b/src/maliput/geometry_base/strategy_base.cc
index 8fb384d..79fdc6d 100644
--- a/src/maliput/geometry_base/strategy_base.cc
+++ b/src/maliput/geometry_base/strategy_base.cc
@@ -45,10 +45,21 @@ bool IsNewRoadPositionResultCloser(const maliput::api::RoadPositionResult& new_r
     return false;
   }
 
+  // They are almost equal. Between positions in different segments, the one with the minimum height prevails.
+  if (new_road_position_result.road_position.lane->segment() != road_position_result.road_position.lane->segment()) {
+    const double delta_h = new_road_position_result.road_position.pos.h() - road_position_result.road_position.pos.h();
+    if (delta_h < -1e-12) {
+      return true;
+    }
+    if (delta_h >= 1e-12) {
+      return false;
+    }
+  }
+
   auto is_within_lane_bounds = [](double r, const maliput::api::RBounds& lane_bounds) {
     return r >= lane_bounds.min() && r < lane_bounds.max();
   };
-  // They are almost equal so it is worth checking the `r` coordinate and the
+  // They are still almost equal so it is worth checking the `r` coordinate and the
   // lane bounds.
   // When both r-coordinates fall within lane bounds or outside, the position
   // with the minimum absolute r-coordinate prevails.
-- 
2.43.0


From 7b7282b935b6f167505f0a41611587c5d673ebde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 18/44] fix: match every end position of a phase with its own
 start position of the next one, at the right lane end

---
 src/maliput/routing/route.cc | 102 ++++++++++++-----------------------
 1 file changed, 34 insertions(+), 68 deletions(-)

diff --git a/src/maliput/routing/route.cc b/src/maliput/routing/route.cc
index c0875e3..c2f3d35 100644
--- a/src/maliput/routing/route.cc
+++ b/src/maliput/routing/route.cc
@@ -366,18 +366,6 @@ int Route::FindDirectionTowardsLaneSRangeWithStraightPredecessor(const Route::La
 
 namespace {
 
-// Finds a RoadPosition by matching @p lane pointer.
-//
-// @param lane Pointer to the api::Lane to match.
-// @param positions Vector of positions to look for one with a matching api::Lane pointer with @p lane.
-// @return An optional with a copy of the first position found with matching api::Lane pointer with @p lane.
-std::optional<api::RoadPosition> FindPositionByLane(const api::Lane* lane,
-                                                    const std::vector<api::RoadPosition>& positions) {
-  const auto it = std::find_if(positions.begin(), positions.end(),
-                               [lane](const api::RoadPosition& position) { return position.lane == lane; });
-  return it != positions.end() ? std::optional<api::RoadPosition>{*it} : std::nullopt;
-}
-
 // Evaluates whether @p pos_a is close to @p pos_b with @p tolerance in the INERTIAL-Frame.
 //
 // @param pos_a Left hand side of the comparison.
@@ -399,36 +387,30 @@ api::LaneEnd::Which GetClosestLaneEndWhich(const api::RoadPosition& position) {
                                                                : api::LaneEnd::Which::kFinish;
 }
 
-// Matches @p position_a in the preceding Phase with an api::RoadPosition in @p positions_b from
-// the succeeding Phase.
+// Evaluates whether @p position_a, at the end of a Phase, connects with @p position_b, at the start of the next one.
 //
-// Filters @p positions_b using @p ongoing_lane_end_set to look for valid positions in the topological
-// sense to then find the first match in the subset by geometrical correspondence within @p tolerance.
+// Positions connect when they are within @p tolerance in the INERTIAL-Frame (geometrical connectivity) and they are
+// in the same api::Lane or at ends of api::Lanes at opposing sides of an api::BranchPoint (topological connectivity).
 //
 // @param position_a api::RoadPosition at the end of the preceding Phase.
-// @param positions_b api::RoadPositions at the start of the succeeding Phase.
-// @param ongoing_lane_end_set The ongoing api::LaneEndSet that corresponds with @p position_a.
+// @param position_b api::RoadPosition at the start of the succeeding Phase.
 // @param tolerance Tolerance to compare the positions.
-// @return An optional with an api::RoadPosition from @p positions_b that corresponds with @p position_a.
-std::optional<api::RoadPosition> MatchPositionInLaneEndSet(const api::RoadPosition& position_a,
-                                                           const std::vector<api::RoadPosition> positions_b,
-                                                           const api::LaneEndSet& ongoing_lane_end_set,
-                                                           double tolerance) {
-  std::vector<api::RoadPosition> matching_positions_b{};
-  std::copy_if(positions_b.begin(), positions_b.end(), std::back_inserter(matching_positions_b),
-               [&ongoing_lane_end_set](const api::RoadPosition& position) {
-                 for (int i = 0; i < ongoing_lane_end_set.size(); ++i) {
-                   if (position.lane == ongoing_lane_end_set.get(i).lane) {
-                     return true;
-                   }
-                 }
-                 return false;
-               });
-  const auto it = std::find_if(matching_positions_b.begin(), matching_positions_b.end(),
-                               [position_a, tolerance](const api::RoadPosition& position) {
-                                 return IsRoadPositionClose(position_a, position, tolerance);
-                               });
-  return it != matching_positions_b.end() ? std::optional<api::RoadPosition>{*it} : std::nullopt;
+// @return true When @p position_a connects with @p position_b.
+bool ArePositionsConnected(const api::RoadPosition& position_a, const api::RoadPosition& position_b, double tolerance) {
+  if (!IsRoadPositionClose(position_a, position_b, tolerance)) {
+    return false;
+  }
+  if (position_a.lane == position_b.lane) {
+    return true;
+  }
+  const api::LaneEndSet* ongoing_branches = position_a.lane->GetOngoingBranches(GetClosestLaneEndWhich(position_a));
+  for (int i = 0; i < ongoing_branches->size(); ++i) {
+    const api::LaneEnd& lane_end = ongoing_branches->get(i);
+    if (lane_end.lane == position_b.lane && lane_end.end == GetClosestLaneEndWhich(position_b)) {
+      return true;
+    }
+  }
+  return false;
 }
 
 }  // namespace
@@ -458,38 +440,22 @@ std::vector<std::string> Route::ValidateEndToEndConnectivity() const {
       errors.push_back(ss.str());
     }
 
-    // For each point in the end positions of phase_a, we need to find the correspondent
-    // in the start positions of phase_b.
-    // The topological connectivity logic follows:
-    // - For each point in the end positions in phase_a, do
-    //   - Try to find a point in the start positions of phase_b with the same api::LaneId. This occurs when the
-    //     boundary between phase_a and phase_b happens in the middle of a lane.
-    //     - If found, assert the points are coincident. Throw otherwise.
-    //   - When not found, this means the boundary between phase_a and phase_b involves two different lanes. In this
-    //     case, identify the api::BranchPoint and the respective ongoing set of LaneEnds.
-    //     - Find which position of the end positions in phase_b belong to the ongoing set of LaneEnds.
+    // For each point in the end positions of phase_a, we need to find its own correspondent in the start positions of
+    // phase_b: a point with the same api::LaneId when the boundary between phase_a and phase_b happens in the middle
+    // of a lane, or one in a different lane that connects via an api::BranchPoint. In both cases they are coincident.
+    std::vector<api::RoadPosition> unmatched_start_positions = phase_b.start_positions();
     for (const api::RoadPosition& end_position : phase_a.end_positions()) {
-      std::optional<api::RoadPosition> found_position_on_b =
-          FindPositionByLane(end_position.lane, phase_b.start_positions());
-      if (found_position_on_b) {
-        if (!IsRoadPositionClose(end_position, *found_position_on_b, tolerance)) {
-          std::stringstream ss;
-          ss << "RoadPosition: {id: " << end_position.lane->id().string() << ", pos: {" << end_position.pos
-             << "}} from Phases[" << phase_index
-             << "] was found in the next Phase but position is not within tolerance.";
-          errors.push_back(ss.str());
-        }
+      const auto it = std::find_if(unmatched_start_positions.begin(), unmatched_start_positions.end(),
+                                   [&end_position, tolerance](const api::RoadPosition& start_position) {
+                                     return ArePositionsConnected(end_position, start_position, tolerance);
+                                   });
+      if (it == unmatched_start_positions.end()) {
+        std::stringstream ss;
+        ss << "RoadPosition: {id: " << end_position.lane->id().string() << ", pos: {" << end_position.pos
+           << "}} from Phases[" << phase_index << "] was not found in next Phase within tolerance.";
+        errors.push_back(ss.str());
       } else {
-        const api::LaneEndSet* lane_end_set =
-            end_position.lane->GetOngoingBranches(GetClosestLaneEndWhich(end_position));
-        found_position_on_b =
-            MatchPositionInLaneEndSet(end_position, phase_b.start_positions(), *lane_end_set, tolerance);
-        if (!found_position_on_b) {
-          std::stringstream ss;
-          ss << "RoadPosition: {id: " << end_position.lane->id().string() << ", pos: {" << end_position.pos
-             << "}} from Phases[" << phase_index << "] was not found in next Phase within tolerance.";
-          errors.push_back(ss.str());
-        }
+        unmatched_start_positions.erase(it);
       }
     }
   }
-- 
2.43.0


From cc8acb2f84c56f18c6d52e2adf28097773d129dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 19/44] fix: left and right lane ranges of a route follow the
 direction of travel

---
 include/maliput/routing/route.h |  7 ++++
 src/maliput/routing/route.cc    | 58 ++++++++++++++++++++-------------
 2 files changed, 42 insertions(+), 23 deletions(-)

diff --git a/include/maliput/routing/route.h b/include/maliput/routing/route.h
index f2f1be7..ffd8b88 100644
--- a/include/maliput/routing/route.h
+++ b/include/maliput/routing/route.h
@@ -287,6 +287,13 @@ class Route final {
   // Route.
   std::optional<LaneSRangeIndex> FindLaneSRangeIndex(const api::LaneSRange& lane_s_range) const;
 
+  // Computes the relation between the api::LaneSRange at @p index_b with respect to the one at @p index_a.
+  //
+  // @param index_a The index of an api::LaneSRange. It must be a valid index.
+  // @param index_b The index of an api::LaneSRange. It must be a valid index.
+  // @return The LaneSRangeRelation between the api::LaneSRange at @p index_b with respect to the one at @p index_a.
+  LaneSRangeRelation ComputeLaneSRangeRelation(const LaneSRangeIndex& index_a, const LaneSRangeIndex& index_b) const;
+
   // Finds the LaneSRangeIndex of the api::LaneSRange that is
   // LaneSRelation::kPrecedingStraight with respect to @p index api::LaneSRange.
   //
diff --git a/src/maliput/routing/route.cc b/src/maliput/routing/route.cc
index c2f3d35..dba5f36 100644
--- a/src/maliput/routing/route.cc
+++ b/src/maliput/routing/route.cc
@@ -110,7 +110,14 @@ namespace {
 
 enum class RelativePosition { kLeft = 0, kCenter, kRight };
 
-RelativePosition ComputeRelativePosition(const api::RoadPosition& pos_a, const api::RoadPosition& pos_b,
+// Computes where @p pos_b is with respect to @p pos_a for an agent that travels through @p pos_a.
+//
+// @param pos_a The reference position.
+// @param pos_b The position to locate.
+// @param with_s Whether the direction of travel at @p pos_a is the one of increasing s.
+// @param tolerance Tolerance to consider that the positions are the same.
+// @return The relative position of @p pos_b.
+RelativePosition ComputeRelativePosition(const api::RoadPosition& pos_a, const api::RoadPosition& pos_b, bool with_s,
                                          double tolerance) {
   const api::InertialPosition inertial_pos_a = pos_a.lane->ToInertialPosition(pos_a.pos);
   const api::InertialPosition inertial_pos_b = pos_b.lane->ToInertialPosition(pos_b.pos);
@@ -127,7 +134,8 @@ RelativePosition ComputeRelativePosition(const api::RoadPosition& pos_a, const a
 
   const math::Vector3 norm_b_to_a = (inertial_pos_b.xyz() - inertial_pos_a.xyz()).normalized();
 
-  const bool is_to_left = s_hat_a.cross(norm_b_to_a).dot(h_hat_a) > 0.;
+  const double left_component = s_hat_a.cross(norm_b_to_a).dot(h_hat_a) * (with_s ? 1. : -1.);
+  const bool is_to_left = left_component > 0.;
   return is_to_left ? RelativePosition::kLeft : RelativePosition::kRight;
 }
 
@@ -143,28 +151,32 @@ LaneSRangeRelation Route::ComputeLaneSRangeRelation(const api::LaneSRange& lane_
   if (!index_a.has_value() || !index_b.has_value()) {
     return LaneSRangeRelation::kUnknown;
   }
+  return ComputeLaneSRangeRelation(*index_a, *index_b);
+}
 
+LaneSRangeRelation Route::ComputeLaneSRangeRelation(const LaneSRangeIndex& index_a,
+                                                    const LaneSRangeIndex& index_b) const {
   // lane_s_range_b is unrelated to lane_s_range_a because they are in different non-adjacent phases.
-  if (index_a->phase > index_b->phase + 1 || index_b->phase > index_a->phase + 1) {
+  if (index_a.phase > index_b.phase + 1 || index_b.phase > index_a.phase + 1) {
     return LaneSRangeRelation::kUnrelated;
   }
 
-  const size_t lane_s_range_b_next_index = index_b->lane_s_range + 1;
-  const size_t lane_s_range_b_previous_index = index_b->lane_s_range - 1;
+  // The direction of travel along lane_s_range_a tells which side is left.
+  const api::SRange& s_range_a = GetLaneSRange(index_a.phase, index_a.lane_s_range).s_range();
+  const bool with_s = s_range_a.s0() <= s_range_a.s1();
 
   // When both Phase indices are the same, we should look into the indices for the lane_s_ranges.
-  if (index_a->phase == index_b->phase) {
-    if (index_a->lane_s_range == index_b->lane_s_range) {
+  if (index_a.phase == index_b.phase) {
+    if (index_a.lane_s_range == index_b.lane_s_range) {
       return LaneSRangeRelation::kCoincident;
-    } else if (index_a->lane_s_range == lane_s_range_b_next_index) {
-      return LaneSRangeRelation::kAdjacentRight;
-    } else if (index_a->lane_s_range > lane_s_range_b_next_index) {
-      return LaneSRangeRelation::kRight;
-    } else if (index_a->lane_s_range == lane_s_range_b_previous_index) {
-      return LaneSRangeRelation::kAdjacentLeft;
-    } else {  // (index_a->lane_s_range < lane_s_range_b_previous_index)
-      return LaneSRangeRelation::kLeft;
     }
+    const bool is_to_left = (index_b.lane_s_range > index_a.lane_s_range) == with_s;
+    const size_t hops = index_b.lane_s_range > index_a.lane_s_range ? index_b.lane_s_range - index_a.lane_s_range
+                                                                     : index_a.lane_s_range - index_b.lane_s_range;
+    if (hops == 1u) {
+      return is_to_left ? LaneSRangeRelation::kAdjacentLeft : LaneSRangeRelation::kAdjacentRight;
+    }
+    return is_to_left ? LaneSRangeRelation::kLeft : LaneSRangeRelation::kRight;
   }
 
   auto get_lane_s_range_road_position = [&](size_t phase_index, size_t lane_range_index, bool start) {
@@ -184,25 +196,25 @@ LaneSRangeRelation Route::ComputeLaneSRangeRelation(const api::LaneSRange& lane_
   const double tolerance = road_network_->road_geometry()->linear_tolerance();
 
   // Determine whether lane_s_range_b is ahead of lane_s_range_a.
-  if (index_a->phase == index_b->phase - 1) {
+  if (index_a.phase == index_b.phase - 1) {
     const api::RoadPosition lane_s_range_a_road_pos =
-        get_lane_s_range_road_position(index_a->phase, index_a->lane_s_range, kEnd);
+        get_lane_s_range_road_position(index_a.phase, index_a.lane_s_range, kEnd);
     const api::RoadPosition lane_s_range_b_road_pos =
-        get_lane_s_range_road_position(index_b->phase, index_b->lane_s_range, kStart);
+        get_lane_s_range_road_position(index_b.phase, index_b.lane_s_range, kStart);
 
     return kRelativePositionToSucceedingLaneSRange[static_cast<size_t>(
-        ComputeRelativePosition(lane_s_range_a_road_pos, lane_s_range_b_road_pos, tolerance))];
+        ComputeRelativePosition(lane_s_range_a_road_pos, lane_s_range_b_road_pos, with_s, tolerance))];
   }
 
   // lane_s_range_b is behind of lane_s_range_a.
-  // index_a->phase == index_b->phase - 1
+  // index_a.phase == index_b.phase - 1
   const api::RoadPosition lane_s_range_a_road_pos =
-      get_lane_s_range_road_position(index_a->phase, index_a->lane_s_range, kStart);
+      get_lane_s_range_road_position(index_a.phase, index_a.lane_s_range, kStart);
   const api::RoadPosition lane_s_range_b_road_pos =
-      get_lane_s_range_road_position(index_b->phase, index_b->lane_s_range, kEnd);
+      get_lane_s_range_road_position(index_b.phase, index_b.lane_s_range, kEnd);
 
   return kRelativePositionToPrecedingLaneSRange[static_cast<size_t>(
-      ComputeRelativePosition(lane_s_range_a_road_pos, lane_s_range_b_road_pos, tolerance))];
+      ComputeRelativePosition(lane_s_range_a_road_pos, lane_s_range_b_road_pos, with_s, tolerance))];
 }
 
 api::LaneSRoute Route::ComputeLaneSRoute(const api::RoadPosition& start_position) const {
-- 
2.43.0


From 267005a7dd8c32fc9a59d8aa1d6e00aadf4c3003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 20/44] fix: compute lane routes from positions out of the
 route, towards the last phase, and through the nearest lane

---
 src/maliput/routing/route.cc | 89 ++++++++++++++----------------------
 1 file changed, 34 insertions(+), 55 deletions(-)

diff --git a/src/maliput/routing/route.cc b/src/maliput/routing/route.cc
index dba5f36..aae27ab 100644
--- a/src/maliput/routing/route.cc
+++ b/src/maliput/routing/route.cc
@@ -220,18 +220,28 @@ LaneSRangeRelation Route::ComputeLaneSRangeRelation(const LaneSRangeIndex& index
 api::LaneSRoute Route::ComputeLaneSRoute(const api::RoadPosition& start_position) const {
   MALIPUT_THROW_UNLESS(start_position.lane != nullptr);
 
-  const api::RoadPosition& end_position = end_route_position();
-  // Creates a point like api::LaneSRange to find the appropriate LaneSRangeIndex of the start
-  // and end positions.
-  const api::LaneSRange end_point(end_position.lane->id(), api::SRange(end_position.pos.s(), end_position.pos.s()));
+  // Creates a point like api::LaneSRange to find the appropriate LaneSRangeIndex of the start position.
   const api::LaneSRange start_point(start_position.lane->id(),
                                     api::SRange(start_position.pos.s(), start_position.pos.s()));
+  std::optional<LaneSRangeIndex> start_index = FindLaneSRangeIndex(start_point);
+  if (!start_index.has_value()) {
+    // The start position is not within this Route, use the position of the Route it maps to.
+    const RoutePositionResult result = FindRoutePosition(start_position);
+    start_index = LaneSRangeIndex{static_cast<size_t>(result.phase_index),
+                                  static_cast<size_t>(result.phase_position_result.lane_s_range_index)};
+  }
 
-  const std::optional<LaneSRangeIndex> start_index = FindLaneSRangeIndex(start_point);
-  MALIPUT_THROW_UNLESS(start_index.has_value());
-
-  const std::optional<LaneSRangeIndex> end_index = FindLaneSRangeIndex(end_point);
-  MALIPUT_THROW_UNLESS(end_index.has_value());
+  // The end position of the Route is always within the last Phase.
+  const api::RoadPosition& end_position = end_route_position();
+  const Phase& end_phase = phases_.back();
+  const auto end_it = std::find_if(end_phase.lane_s_ranges().begin(), end_phase.lane_s_ranges().end(),
+                                   [&](const api::LaneSRange& lane_s_range) {
+                                     return ValidatePositionIsInLaneSRanges(end_position, {lane_s_range},
+                                                                            end_phase.lane_s_range_tolerance());
+                                   });
+  MALIPUT_THROW_UNLESS(end_it != end_phase.lane_s_ranges().end());
+  const std::optional<LaneSRangeIndex> end_index = LaneSRangeIndex{
+      phases_.size() - 1u, static_cast<size_t>(std::distance(end_phase.lane_s_ranges().begin(), end_it))};
 
   // Inserts @p index into the beginning of @p lane_s_ranges.
   auto prepend_to_route = [this](const LaneSRangeIndex& index, std::vector<api::LaneSRange>* lane_s_ranges) -> void {
@@ -285,31 +295,10 @@ api::LaneSRoute Route::ComputeLaneSRoute(const api::RoadPosition& start_position
   // TODO(#543): make the set of LaneSRanges of the right length once we can easily map s-coordinates LaneSRange to
   // LaneSRange.
   // Prepend the remaining api::LaneSRanges within the initial Phase towards the starting api::LaneSRange.
-  LaneSRangeRelation lane_s_range_relation{LaneSRangeRelation::kUnknown};
-  while (lane_s_range_relation != LaneSRangeRelation::kCoincident) {
+  prepend_to_route(current_index, &lane_s_ranges);
+  while (current_index.lane_s_range != start_index->lane_s_range) {
+    current_index.lane_s_range += current_index.lane_s_range > start_index->lane_s_range ? kTowardsRight : kTowardsLeft;
     prepend_to_route(current_index, &lane_s_ranges);
-    const api::LaneSRange start_lane_s_range = GetLaneSRange(start_index->phase, start_index->lane_s_range);
-    const api::LaneSRange current_lane_s_range = GetLaneSRange(current_index.phase, current_index.lane_s_range);
-    lane_s_range_relation = ComputeLaneSRangeRelation(start_lane_s_range, current_lane_s_range);
-    switch (lane_s_range_relation) {
-      case LaneSRangeRelation::kLeft:
-      case LaneSRangeRelation::kAdjacentLeft:
-        current_index.lane_s_range += kTowardsRight;
-        break;
-
-      case LaneSRangeRelation::kRight:
-      case LaneSRangeRelation::kAdjacentRight:
-        current_index.lane_s_range += kTowardsLeft;
-        break;
-
-      case LaneSRangeRelation::kCoincident:
-        // Do nothing, leaving the loop now.
-        break;
-
-      default:
-        MALIPUT_THROW_MESSAGE("Code should not arrive here.");
-        break;
-    };
   }
   return api::LaneSRoute(lane_s_ranges);
 }
@@ -332,19 +321,13 @@ std::optional<Route::LaneSRangeIndex> Route::FindStraightPredecessor(const Route
   MALIPUT_THROW_UNLESS(index.phase > 0u);
   const size_t preceding_phase_index = index.phase - 1u;
   const Phase& preceding_phase = phases_.at(preceding_phase_index);
-  const api::LaneSRange& lane_s_range = GetLaneSRange(index.phase, index.lane_s_range);
-  const auto preceding_lane_s_range_it =
-      std::find_if(preceding_phase.lane_s_ranges().begin(), preceding_phase.lane_s_ranges().end(),
-                   [this, lane_s_range](const api::LaneSRange& preceding_lane_s_range) {
-                     return ComputeLaneSRangeRelation(lane_s_range, preceding_lane_s_range) ==
-                            LaneSRangeRelation::kPrecedingStraight;
-                   });
-  if (preceding_lane_s_range_it == preceding_phase.lane_s_ranges().end()) {
-    return std::nullopt;
+  for (size_t i = 0u; i < preceding_phase.lane_s_ranges().size(); ++i) {
+    const LaneSRangeIndex preceding_index{preceding_phase_index, i};
+    if (ComputeLaneSRangeRelation(index, preceding_index) == LaneSRangeRelation::kPrecedingStraight) {
+      return {preceding_index};
+    }
   }
-  const size_t preceding_index =
-      static_cast<size_t>(std::distance(preceding_phase.lane_s_ranges().begin(), preceding_lane_s_range_it));
-  return {LaneSRangeIndex{preceding_phase_index, preceding_index}};
+  return std::nullopt;
 }
 
 int Route::FindDirectionTowardsLaneSRangeWithStraightPredecessor(const Route::LaneSRangeIndex& index) const {
@@ -359,17 +342,13 @@ int Route::FindDirectionTowardsLaneSRangeWithStraightPredecessor(const Route::La
     return kTowardsRight;
   }
 
-  // Evaluate if there are less elements to the right than to the left.
-  if (index.lane_s_range <= (max_current_index - max_current_index)) {
-    for (size_t i = index.lane_s_range - 1; i >= min_current_index; i--) {
-      if (FindStraightPredecessor({index.phase, i} /* right_index */).has_value()) {
-        return kTowardsRight;
-      }
+  // Evaluate which side has the closest api::LaneSRange with a straight predecessor.
+  for (size_t hops = 1u; hops <= max_current_index; ++hops) {
+    if (hops <= index.lane_s_range && FindStraightPredecessor({index.phase, index.lane_s_range - hops}).has_value()) {
+      return kTowardsRight;
     }
-    return kTowardsLeft;
-  }
-  for (size_t i = index.lane_s_range + 1; i <= max_current_index; i++) {
-    if (FindStraightPredecessor({index.phase, i} /* left_index */).has_value()) {
+    if (index.lane_s_range + hops <= max_current_index &&
+        FindStraightPredecessor({index.phase, index.lane_s_range + hops}).has_value()) {
       return kTowardsLeft;
     }
   }
-- 
2.43.0


From 27c9e092794f31c9e6c20fcdb93c2c6a5fb1b1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 21/44] fix: the distance router follows every segment through
 the ends its path uses

Segments that share both nodes were traversed by arbitrary ends, joints paired
lanes of the same side of a branch point, and a path with no connected or
drivable lanes made ComputeRoutes throw instead of leaving that route out.
---
 src/maliput/base/distance_router.cc | 216 ++++++++++------------------
 1 file changed, 77 insertions(+), 139 deletions(-)

diff --git a/src/maliput/base/distance_router.cc b/src/maliput/base/distance_router.cc
index b178bdd..9343b09 100644
--- a/src/maliput/base/distance_router.cc
+++ b/src/maliput/base/distance_router.cc
@@ -151,32 +151,6 @@ std::vector<routing::Route> FilterRoutes(const routing::RoutingConstraints& rout
   return filtered_routes;
 }
 
-// Concatenates items in @p errors into just one string.
-//
-// When @p errors is empty an empty string is computed.
-// Otherwise, the "Route has connectivity errors: <error> | <error> | ... |" formula to concatenate items from @p errors
-// is used.
-// @param errors A vector of error strings.
-// @return An empty string when @p errors is empty, otherwise a string with all the items in @p errors.
-std::string AggregateRouteConnectivityErrors(const std::vector<std::string>& errors) {
-  std::string result{errors.empty() ? "" : "Route has connectivity errors: "};
-  for (const std::string& error : errors) {
-    result += error + " | ";
-  }
-  return result;
-}
-
-// Iterates over @p routes and validates none have end to end connectivity errors.
-//
-// @param routes Vector of Routes to validate.
-// @throws common::assertion_error When one of the Routes in @p routes has end to end connectivity errors.
-void ValidateEndToEndConnectivityInRoutes(const std::vector<routing::Route>& routes) {
-  for (const auto& route : routes) {
-    const std::vector<std::string> connectivity_errors = route.ValidateEndToEndConnectivity();
-    MALIPUT_VALIDATE(connectivity_errors.empty(), AggregateRouteConnectivityErrors(connectivity_errors));
-  }
-}
-
 // Finds an equivalent s-coordinate from @p ref_pos in the target @p lane.
 //
 // The equivalence is derived by linearly scaling @p ref_pos's s-coordinate by the ratio of api::Lane::length().
@@ -238,92 +212,79 @@ routing::Phase MakePhase(int index, const routing::graph::Edge& edge, double lan
   return routing::Phase{index, lane_s_range_tolerance, start_positions, end_positions, lane_s_ranges, &road_network};
 }
 
-// Computes all api::RoadPositions for @p ref ref_edge at @p ref_end side when connecting with @p target_edge.
+// An edge to traverse together with the ends through which it is entered and left.
+struct Leg {
+  routing::graph::Edge edge;
+  api::LaneEnd::Which entry{api::LaneEnd::Which::kStart};
+  api::LaneEnd::Which exit{api::LaneEnd::Which::kFinish};
+};
+
+// Computes all api::RoadPositions of @p ref_edge at @p ref_end that lead to @p target_edge at @p target_end.
 //
 // @param ref_edge The reference routing::graph::Edge to compute the api::RoadPositions for.
 // @param ref_end Indicates api::LaneEnd::Which side of the api::Lanes from @p ref_edge to take the positions.
 // @param target_edge The connecting routing::graph::Edge.
-// @return A vector with the api::RoadPositions to that connect @p ref_edge with @p target_edge at @p ref_end side.
-// @throws common::assertion_error When the return vector is empty.
+// @param target_end Indicates api::LaneEnd::Which side of the api::Lanes from @p target_edge connects.
+// @return A vector with the api::RoadPositions that connect @p ref_edge with @p target_edge from opposing sides of an
+// api::BranchPoint. It is empty when it is not possible to drive from one edge to the other.
 std::vector<api::RoadPosition> ComputeAllRoadPositions(const routing::graph::Edge& ref_edge,
                                                        const api::LaneEnd::Which ref_end,
-                                                       const routing::graph::Edge& target_edge) {
-  auto is_lane_connected = [segment = target_edge.segment, end = ref_end](const api::Lane* lane,
-                                                                          bool is_confluent) -> bool {
-    const api::LaneEndSet* lane_end_set =
-        is_confluent ? lane->GetConfluentBranches(end) : lane->GetOngoingBranches(end);
-    for (int i = 0; i < lane_end_set->size(); ++i) {
-      const api::LaneEnd lane_end = lane_end_set->get(i);
-      if (lane_end.lane->segment() == segment) {
-        return true;
-      }
-    }
-    return false;
-  };
-  auto process_positions = [segment = ref_edge.segment, end = ref_end, is_lane_connected](bool is_confluent) {
-    std::vector<api::RoadPosition> positions;
-    for (int i = 0; i < segment->num_lanes(); ++i) {
-      const api::Lane* lane = segment->lane(i);
-      if (is_lane_connected(lane, is_confluent)) {
-        positions.emplace_back(lane,
-                               api::LanePosition{end == api::LaneEnd::Which::kStart ? 0. : lane->length(), 0., 0.});
+                                                       const routing::graph::Edge& target_edge,
+                                                       const api::LaneEnd::Which target_end) {
+  std::vector<api::RoadPosition> positions;
+  for (int i = 0; i < ref_edge.segment->num_lanes(); ++i) {
+    const api::Lane* lane = ref_edge.segment->lane(i);
+    const api::LaneEndSet* ongoing_branches = lane->GetOngoingBranches(ref_end);
+    for (int j = 0; j < ongoing_branches->size(); ++j) {
+      const api::LaneEnd& lane_end = ongoing_branches->get(j);
+      if (lane_end.lane->segment() == target_edge.segment && lane_end.end == target_end) {
+        positions.emplace_back(
+            lane, api::LanePosition{ref_end == api::LaneEnd::Which::kStart ? 0. : lane->length(), 0., 0.});
+        break;
       }
     }
-    return positions;
-  };
-  constexpr bool kIsConfluent{true};
-  constexpr bool kIsOngoing{!kIsConfluent};
-  std::vector<api::RoadPosition> positions = process_positions(kIsConfluent);
-  if (positions.empty()) {
-    positions = process_positions(kIsOngoing);
   }
-  MALIPUT_THROW_UNLESS(!positions.empty());
   return positions;
 }
 
-// Optionally introduces routing::graph::Edges at the beginning or end of @p edge_sequence to make sure @p start and
-// @p end are included in it.
+// Computes the legs to traverse @p edge_sequence from @p start to @p end.
 //
 // Points fall always into routing::graph::Edges and the routing query requires an entry and exit routing::graph::Node.
 // Because there is no notion of direction of travel, i.e. routing::graph::Edges are not directed, the paths may miss
 // the edge that contains @p start and / or @p end. This function will introduce the missing routing::graph::Edge at
-// the beginning and end of the sequence in @p edge_sequences when they are missing.
+// the beginning and end of the sequence in @p edge_sequence when they are missing.
 //
 // @param graph The routing::graph::Graph to extract the routing::graph::Edges containing @p start and @p end.
 // @param start The start api::RoadPosition. It must be valid.
 // @param end The end api::RoadPosition. It must be valid.
-// @param edge_sequences The vector of routing::graph::Edge sequences to amend.
-// @return A vector of routing::graph::Edge sequences of the same size as @p edge_sequences whose sequences have at
-// the beginning and at the end a routing::graph::Edge that contains @p start and @p end points respectively.
-// @throws common::assertion_error When @p start or @p end are invalid api::RoadPositions.
-std::vector<std::vector<routing::graph::Edge>> MaybeAddStartAndEndEdges(
-    const routing::graph::Graph& graph, const api::RoadPosition& start, const api::RoadPosition& end,
-    const std::vector<std::vector<routing::graph::Edge>>& edge_sequences) {
-  MALIPUT_THROW_UNLESS(start.lane != nullptr);
-  MALIPUT_THROW_UNLESS(end.lane != nullptr);
-
-  const routing::graph::EdgeId start_edge_id(start.lane->segment()->id().string());
-  const routing::graph::EdgeId end_edge_id(end.lane->segment()->id().string());
-  const routing::graph::Edge& start_edge = graph.edges.at(start_edge_id);
-  const routing::graph::Edge& end_edge = graph.edges.at(end_edge_id);
+// @param start_node The node @p edge_sequence starts from: the one at the start of the api::Lane of @p start.
+// @param edge_sequence The routing::graph::Edge sequence from @p start_node to the node at the finish of the api::Lane
+// of @p end.
+// @return The legs, whose first and last edges contain @p start and @p end respectively.
+std::vector<Leg> MakeLegs(const routing::graph::Graph& graph, const api::RoadPosition& start,
+                          const api::RoadPosition& end, const routing::graph::Node& start_node,
+                          const std::vector<routing::graph::Edge>& edge_sequence) {
+  const routing::graph::Edge& start_edge =
+      graph.edges.at(routing::graph::EdgeId(start.lane->segment()->id().string()));
+  const routing::graph::Edge& end_edge = graph.edges.at(routing::graph::EdgeId(end.lane->segment()->id().string()));
 
-  std::vector<std::vector<routing::graph::Edge>> result;
-
-  for (const auto& edge_sequence : edge_sequences) {
-    std::vector<routing::graph::Edge> edge_sequence_to_return(edge_sequence);
-    // When edge_sequence is empty, the start and end routing::graph::Edge are the same thus we simply add the
-    // first one as if the edge is missing.
-    if (edge_sequence.empty() || edge_sequence.front().segment != start_edge.segment) {
-      edge_sequence_to_return.insert(edge_sequence_to_return.begin(), start_edge);
-    }
-    // Adds the end routing::graph::Edge when it is missing.
-    if (edge_sequence.back().segment != end_edge.segment) {
-      edge_sequence_to_return.push_back(end_edge);
-    }
-    result.push_back(edge_sequence_to_return);
+  std::vector<Leg> legs;
+  // Adds the start routing::graph::Edge when it is missing: it is left through its start.
+  if (edge_sequence.front().segment != start_edge.segment) {
+    legs.push_back({start_edge, api::LaneEnd::Which::kFinish, api::LaneEnd::Which::kStart});
   }
-
-  return result;
+  routing::graph::NodeId node_id = start_node.id;
+  for (const routing::graph::Edge& edge : edge_sequence) {
+    const bool forward = edge.node_a == node_id;
+    legs.push_back({edge, forward ? api::LaneEnd::Which::kStart : api::LaneEnd::Which::kFinish,
+                    forward ? api::LaneEnd::Which::kFinish : api::LaneEnd::Which::kStart});
+    node_id = forward ? edge.node_b : edge.node_a;
+  }
+  // Adds the end routing::graph::Edge when it is missing: it is entered through its finish.
+  if (legs.back().edge.segment != end_edge.segment) {
+    legs.push_back({end_edge, api::LaneEnd::Which::kFinish, api::LaneEnd::Which::kStart});
+  }
+  return legs;
 }
 
 }  // namespace
@@ -355,65 +316,42 @@ std::vector<routing::Route> DistanceRouter::DoComputeRoutes(
   MALIPUT_THROW_UNLESS(end_node.has_value());
 
   // Obtain the sequences of routing::graph::Edges that connect the start with end, i.e. the routing algorithm.
-  std::vector<std::vector<routing::graph::Edge>> edge_sequences =
+  const std::vector<std::vector<routing::graph::Edge>> edge_sequences =
       routing::graph::FindAllEdgeSequences(graph_, start_node.value(), end_node.value());
 
-  // Amends the routing::graph::Edge sequences by introducing the start and end routing::graph::Edges when
-  // missing due to the direction of travel.
-  edge_sequences = MaybeAddStartAndEndEdges(graph_, start, end, edge_sequences);
-
   std::vector<routing::Route> routes;
   for (const std::vector<routing::graph::Edge>& edge_sequence : edge_sequences) {
-    // Handles the case when edge_sequence has a length of 1. This implies the route only has one routing::Phase.
-    if (edge_sequence.size() == 1u) {
-      routes.emplace_back(std::vector<routing::Phase>{MakePhase(0, edge_sequence[0], lane_s_range_tolerance_, {start},
-                                                                {end}, road_network_)},
-                          &road_network_);
-      continue;
-    }
-
-    // Handles the case when edge_sequence has a length greater than 1. This implies the route has more than one
-    // routing::Phase.
+    // Amends the routing::graph::Edge sequences by introducing the start and end routing::graph::Edges when
+    // missing due to the direction of travel.
+    const std::vector<Leg> legs = MakeLegs(graph_, start, end, start_node.value(), edge_sequence);
     std::vector<routing::Phase> phases;
-    for (int i = 0; i < static_cast<int>(edge_sequence.size()); ++i) {
-      const routing::graph::Edge& edge = edge_sequence[i];
-      if (i == 0) {
-        const std::optional<api::LaneEnd::Which> edge_end =
-            routing::graph::DetermineEdgeEnd(graph_, edge, edge_sequence[i + 1]);
-        MALIPUT_THROW_UNLESS(edge_end.has_value());
-        phases.push_back(MakePhase(i, edge, lane_s_range_tolerance_, {start},
-                                   ComputeAllRoadPositions(edge, edge_end.value(), edge_sequence[i + 1]),
-                                   road_network_));
-      } else if (i + 1 == static_cast<int>(edge_sequence.size())) {
-        const std::optional<api::LaneEnd::Which> edge_end =
-            routing::graph::DetermineEdgeEnd(graph_, edge, edge_sequence[i - 1]);
-        MALIPUT_THROW_UNLESS(edge_end.has_value());
-        phases.push_back(MakePhase(i, edge, lane_s_range_tolerance_,
-                                   ComputeAllRoadPositions(edge, edge_end.value(), edge_sequence[i - 1]), {end},
-                                   road_network_));
-      } else {
-        const std::optional<api::LaneEnd::Which> start_edge_end =
-            routing::graph::DetermineEdgeEnd(graph_, edge, edge_sequence[i - 1]);
-        MALIPUT_THROW_UNLESS(start_edge_end.has_value());
-        const std::optional<api::LaneEnd::Which> finish_edge_end =
-            routing::graph::DetermineEdgeEnd(graph_, edge, edge_sequence[i + 1]);
-        MALIPUT_THROW_UNLESS(finish_edge_end.has_value());
-        phases.push_back(MakePhase(i, edge, lane_s_range_tolerance_,
-                                   ComputeAllRoadPositions(edge, start_edge_end.value(), edge_sequence[i - 1]),
-                                   ComputeAllRoadPositions(edge, finish_edge_end.value(), edge_sequence[i + 1]),
-                                   road_network_));
+    for (size_t i = 0; i < legs.size(); ++i) {
+      const Leg& leg = legs[i];
+      const std::vector<api::RoadPosition> start_positions =
+          i == 0 ? std::vector<api::RoadPosition>{start}
+                 : ComputeAllRoadPositions(leg.edge, leg.entry, legs[i - 1].edge, legs[i - 1].exit);
+      const std::vector<api::RoadPosition> end_positions =
+          i + 1 == legs.size() ? std::vector<api::RoadPosition>{end}
+                               : ComputeAllRoadPositions(leg.edge, leg.exit, legs[i + 1].edge, legs[i + 1].entry);
+      // It is not possible to drive through the start or the end routing::graph::Edge as required.
+      if (start_positions.empty() || end_positions.empty()) {
+        break;
       }
+      phases.push_back(
+          MakePhase(static_cast<int>(i), leg.edge, lane_s_range_tolerance_, start_positions, end_positions, road_network_));
+    }
+    if (phases.size() != legs.size()) {
+      continue;
+    }
+    routing::Route route(phases, &road_network_);
+    // Discards those routes that are not end to end connected.
+    if (route.ValidateEndToEndConnectivity().empty()) {
+      routes.push_back(std::move(route));
     }
-    routes.emplace_back(phases, &road_network_);
   }
 
   // Filter routes based on constraints.
-  routes = FilterRoutes(routing_constraints, routes);
-
-  // Validate end to end connectivity in resulting routes.
-  ValidateEndToEndConnectivityInRoutes(routes);
-
-  return routes;
+  return FilterRoutes(routing_constraints, routes);
 }
 
 }  // namespace maliput
-- 
2.43.0


From 8e748f1a08ed9d1df27b1ed2d1960df0e8d1fdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 22/44] fix: the distance router finds a route between adjacent
 segments that start and end at one node

---
 src/maliput/base/distance_router.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/maliput/base/distance_router.cc b/src/maliput/base/distance_router.cc
index 9343b09..fb91907 100644
--- a/src/maliput/base/distance_router.cc
+++ b/src/maliput/base/distance_router.cc
@@ -270,7 +270,7 @@ std::vector<Leg> MakeLegs(const routing::graph::Graph& graph, const api::RoadPos
 
   std::vector<Leg> legs;
   // Adds the start routing::graph::Edge when it is missing: it is left through its start.
-  if (edge_sequence.front().segment != start_edge.segment) {
+  if (edge_sequence.empty() || edge_sequence.front().segment != start_edge.segment) {
     legs.push_back({start_edge, api::LaneEnd::Which::kFinish, api::LaneEnd::Which::kStart});
   }
   routing::graph::NodeId node_id = start_node.id;
@@ -316,8 +316,11 @@ std::vector<routing::Route> DistanceRouter::DoComputeRoutes(
   MALIPUT_THROW_UNLESS(end_node.has_value());
 
   // Obtain the sequences of routing::graph::Edges that connect the start with end, i.e. the routing algorithm.
+  // When both nodes are the same one, there is no need to traverse any other routing::graph::Edge.
   const std::vector<std::vector<routing::graph::Edge>> edge_sequences =
-      routing::graph::FindAllEdgeSequences(graph_, start_node.value(), end_node.value());
+      start_node->id == end_node->id
+          ? std::vector<std::vector<routing::graph::Edge>>{{}}
+          : routing::graph::FindAllEdgeSequences(graph_, start_node.value(), end_node.value());
 
   std::vector<routing::Route> routes;
   for (const std::vector<routing::graph::Edge>& edge_sequence : edge_sequences) {
-- 
2.43.0


From 1f26de9b9c6b98d144d092bab0fbbdb3f6385091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 23/44] fix: the distance router detects lane switches by
 connected lanes, not by index

---
 src/maliput/base/distance_router.cc | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/maliput/base/distance_router.cc b/src/maliput/base/distance_router.cc
index fb91907..c9747c7 100644
--- a/src/maliput/base/distance_router.cc
+++ b/src/maliput/base/distance_router.cc
@@ -87,6 +87,28 @@ double MaxPhaseCostInRoute(const routing::Route& route) {
   return cost;
 }
 
+// Finds the api::Lane of the next routing::Phase that the api::Lane of @p end_position leads to.
+//
+// @param end_position A position at the end of a routing::Phase.
+// @param start_positions The start positions of the next routing::Phase.
+// @return The api::Lane of the position in @p start_positions that is at the opposing side of the api::BranchPoint where
+// @p end_position is, or nullptr when there is none.
+const api::Lane* FindConnectedLane(const api::RoadPosition& end_position,
+                                   const std::vector<api::RoadPosition>& start_positions) {
+  const api::LaneEnd::Which end = end_position.pos.s() <= end_position.lane->length() - end_position.pos.s()
+                                      ? api::LaneEnd::Which::kStart
+                                      : api::LaneEnd::Which::kFinish;
+  const api::LaneEndSet* ongoing_branches = end_position.lane->GetOngoingBranches(end);
+  for (const api::RoadPosition& start_position : start_positions) {
+    for (int i = 0; i < ongoing_branches->size(); ++i) {
+      if (ongoing_branches->get(i).lane == start_position.lane) {
+        return start_position.lane;
+      }
+    }
+  }
+  return nullptr;
+}
+
 // Whether the agent driving the @p route is required to switch lanes to traverse the route.
 //
 // @param route To evaluate whether it has lane switches.
@@ -118,7 +140,11 @@ bool HasLaneSwitch(const routing::Route& route) {
     }
     // Update the start_lane for the next iteration.
     if (phase_index != route.size() - 1) {
-      start_lane = route.Get(phase_index + 1).start_positions()[end_position_index.value()].lane;
+      start_lane = FindConnectedLane(phase.end_positions()[end_position_index.value()],
+                                     route.Get(phase_index + 1).start_positions());
+      if (start_lane == nullptr) {
+        return true;
+      }
     }
   }
   return false;
-- 
2.43.0


From 99d97446989411f0a9688ca826f6ff0aa7443a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 24/44] fix: refuse rule types whose value nodes have unknown
 attributes

---
 src/maliput/base/rule_registry_loader.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/maliput/base/rule_registry_loader.cc b/src/maliput/base/rule_registry_loader.cc
index 5fd1b2f..d0599cf 100644
--- a/src/maliput/base/rule_registry_loader.cc
+++ b/src/maliput/base/rule_registry_loader.cc
@@ -94,6 +94,9 @@ RuleType EvaluateRuleType(const YAML::Node& rule_nodes) {
         break;
       }
       rule_type = RuleType::kRangeValueRuleType;
+    } else {
+      rule_type = RuleType::kUnknownRuleType;
+      break;
     }
   }
   return rule_type;
-- 
2.43.0


From f51c87b558b7c527426ed1b35b48a9a6c858bfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 25/44] fix: refuse rule zones with decreasing ranges beyond
 their lane

---
 src/maliput/base/road_rulebook_loader.cc                     | 4 ++--
 src/maliput/base/road_rulebook_loader_using_rule_registry.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/maliput/base/road_rulebook_loader.cc b/src/maliput/base/road_rulebook_loader.cc
index fde7abf..5b6df27 100644
--- a/src/maliput/base/road_rulebook_loader.cc
+++ b/src/maliput/base/road_rulebook_loader.cc
@@ -173,8 +173,8 @@ namespace {
 SRange ObtainSRange(const Lane* lane, const YAML::Node& lane_node) {
   if (lane_node["SRange"]) {
     const SRange srange = lane_node["SRange"].as<SRange>();
-    MALIPUT_THROW_UNLESS(srange.s0() >= 0);
-    MALIPUT_THROW_UNLESS(srange.s1() <= lane->length());
+    MALIPUT_THROW_UNLESS(srange.s0() >= 0 && srange.s0() <= lane->length());
+    MALIPUT_THROW_UNLESS(srange.s1() >= 0 && srange.s1() <= lane->length());
     return srange;
   } else {
     return SRange(0, lane->length());
diff --git a/src/maliput/base/road_rulebook_loader_using_rule_registry.cc b/src/maliput/base/road_rulebook_loader_using_rule_registry.cc
index cc5171c..5560495 100644
--- a/src/maliput/base/road_rulebook_loader_using_rule_registry.cc
+++ b/src/maliput/base/road_rulebook_loader_using_rule_registry.cc
@@ -115,8 +115,8 @@ SRange GetSRange(const Lane* lane, const YAML::Node& lane_node) {
   MALIPUT_THROW_UNLESS(lane != nullptr);
   if (lane_node[RuleConstants::kSRange]) {
     const SRange s_range = lane_node[RuleConstants::kSRange].as<SRange>();
-    MALIPUT_THROW_UNLESS(s_range.s0() >= 0);
-    MALIPUT_THROW_UNLESS(s_range.s1() <= lane->length());
+    MALIPUT_THROW_UNLESS(s_range.s0() >= 0 && s_range.s0() <= lane->length());
+    MALIPUT_THROW_UNLESS(s_range.s1() >= 0 && s_range.s1() <= lane->length());
     return s_range;
   } else {
     return SRange(0, lane->length());
-- 
2.43.0


From 17349f61862dd762fc0206ef9a1b44e0a7e4489c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 26/44] fix: refuse phase rings of rules without a right-of-way
 state instead of aborting

---
 src/maliput/base/phase_ring_book_loader.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/maliput/base/phase_ring_book_loader.cc b/src/maliput/base/phase_ring_book_loader.cc
index 65ff2f3..278a252 100644
--- a/src/maliput/base/phase_ring_book_loader.cc
+++ b/src/maliput/base/phase_ring_book_loader.cc
@@ -43,7 +43,6 @@
 #include "maliput/api/rules/traffic_lights.h"
 #include "maliput/base/manual_phase_ring_book.h"
 #include "maliput/base/rule_registry.h"
-#include "maliput/common/maliput_abort.h"
 #include "maliput/common/maliput_throw.h"
 
 namespace YAML {
@@ -120,7 +119,7 @@ DiscreteValueRule::DiscreteValue GetDefaultState(const std::vector<DiscreteValue
       return *it;
     }
   }
-  MALIPUT_ABORT_MESSAGE("The rule has no states.");
+  MALIPUT_THROW_MESSAGE("The rule has none of the states: Stop, StopThenGo, Go.");
 }
 
 // Given a set of rules, determine default states for each rule and return them
-- 
2.43.0


From 2e02d9c4960a17c30d9c0702e22ae31f8e20f556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:06 +0000
Subject: [PATCH 27/44] fix: default the rule states of every phase of a loaded
 phase ring

---
 src/maliput/base/phase_ring_book_loader.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/maliput/base/phase_ring_book_loader.cc b/src/maliput/base/phase_ring_book_loader.cc
index 278a252..76ef4d9 100644
--- a/src/maliput/base/phase_ring_book_loader.cc
+++ b/src/maliput/base/phase_ring_book_loader.cc
@@ -221,10 +221,6 @@ PhaseRing BuildPhaseRing(const RoadRulebook* rulebook, const TrafficLightBook* t
 
   const std::unordered_map<Rule::Id, DiscreteValueRule> discrete_rules =
       GetRightOfWayTypeRules(rulebook, phase_ring_node["Rules"]);
-  // First get default states of all rules.
-  // Then, override the defaults with the states specified in the YAML
-  // document.
-  DiscreteValueRuleStates discrete_rule_states = CreateDefaultRuleStates(discrete_rules);
 
   const YAML::Node& phases_node = phase_ring_node["Phases"];
   MALIPUT_THROW_UNLESS(phases_node.IsDefined());
@@ -234,6 +230,10 @@ PhaseRing BuildPhaseRing(const RoadRulebook* rulebook, const TrafficLightBook* t
     MALIPUT_THROW_UNLESS(phase_node.IsMap());
     MALIPUT_THROW_UNLESS(phase_node["ID"].IsDefined());
     const Phase::Id phase_id(phase_node["ID"].as<std::string>());
+    // First get default states of all rules.
+    // Then, override the defaults with the states specified in the YAML
+    // document.
+    DiscreteValueRuleStates discrete_rule_states = CreateDefaultRuleStates(discrete_rules);
     const YAML::Node& rule_states_node = phase_node["RightOfWayRuleStates"];
     // RightOfWayRuleStates might not be added in the yaml.
     if (rule_states_node.IsDefined()) {
-- 
2.43.0


From cf008232542f3fac57d7aa619eef066f181cf5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:04 +0000
Subject: [PATCH 28/44] fix: Rotation::Distance was not a number between nearly
 equal rotations

---
 src/maliput/api/lane_data.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/maliput/api/lane_data.cc b/src/maliput/api/lane_data.cc
index 7540038..51ff8a5 100644
--- a/src/maliput/api/lane_data.cc
+++ b/src/maliput/api/lane_data.cc
@@ -29,6 +29,7 @@
 // OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include "maliput/api/lane_data.h"
 
+#include <algorithm>
 #include <cmath>
 #include <iostream>
 
@@ -84,10 +85,11 @@ double Rotation::Distance(const Rotation& rot) const {
   const InertialPosition bs = rot.Apply({1., 0., 0.});
   const InertialPosition br = rot.Apply({0., 1., 0.});
   const InertialPosition bh = rot.Apply({0., 0., 1.});
-  // Compute angles between pairs of unit vectors.
-  const double ds = std::acos(as.xyz().dot(bs.xyz()));
-  const double dr = std::acos(ar.xyz().dot(br.xyz()));
-  const double dh = std::acos(ah.xyz().dot(bh.xyz()));
+  // Compute angles between pairs of unit vectors. Rounding may take the dot product of (almost) parallel vectors beyond
+  // [-1, 1], where the arc cosine is not defined.
+  const double ds = std::acos(std::clamp(as.xyz().dot(bs.xyz()), -1., 1.));
+  const double dr = std::acos(std::clamp(ar.xyz().dot(br.xyz()), -1., 1.));
+  const double dh = std::acos(std::clamp(ah.xyz().dot(bh.xyz()), -1., 1.));
 
   return std::sqrt((ds * ds) + (dr * dr) + (dh * dh));
 }
-- 
2.43.0


From d38609014f8f7bb414fa9a8295e639a81c149762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:04 +0000
Subject: [PATCH 29/44] fix: contiguity of lane ranges ignored the direction
 they are travelled in

---
 src/maliput/api/regions.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/maliput/api/regions.cc b/src/maliput/api/regions.cc
index a79e858..ca0f317 100644
--- a/src/maliput/api/regions.cc
+++ b/src/maliput/api/regions.cc
@@ -57,8 +57,13 @@ bool IsContiguous(const LaneSRange& lane_range_a, const LaneSRange& lane_range_b
       lane_a->ToInertialPosition(LanePosition(lane_range_a.s_range().s1(), 0, 0));
   const InertialPosition inertial_position_b =
       lane_b->ToInertialPosition(LanePosition(lane_range_b.s_range().s0(), 0, 0));
-  const Rotation lane_a_rot = lane_a->GetOrientation(LanePosition(lane_range_a.s_range().s1(), 0, 0));
-  const Rotation lane_b_rot = lane_b->GetOrientation(LanePosition(lane_range_b.s_range().s0(), 0, 0));
+  // Orientations when travelling along each range, which may go against the direction of its lane.
+  const auto travel_rotation = [](const Lane* lane, const SRange& s_range, double s) {
+    const Rotation rotation = lane->GetOrientation(LanePosition(s, 0, 0));
+    return s_range.s1() < s_range.s0() ? rotation.Reverse() : rotation;
+  };
+  const Rotation lane_a_rot = travel_rotation(lane_a, lane_range_a.s_range(), lane_range_a.s_range().s1());
+  const Rotation lane_b_rot = travel_rotation(lane_b, lane_range_b.s_range(), lane_range_b.s_range().s0());
   return inertial_position_a.Distance(inertial_position_b) < road_geometry->linear_tolerance() &&
          lane_a_rot.Distance(lane_b_rot) < road_geometry->angular_tolerance();
 }
-- 
2.43.0


From 3ff01c776b7dc7304a990171f557ca5e85f71cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:04 +0000
Subject: [PATCH 30/44] fix: network validation did not check the zones of
 right of way rules for contiguity

---
 src/maliput/api/road_network_validator.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/maliput/api/road_network_validator.cc b/src/maliput/api/road_network_validator.cc
index 4189f78..a57a43a 100644
--- a/src/maliput/api/road_network_validator.cc
+++ b/src/maliput/api/road_network_validator.cc
@@ -76,6 +76,9 @@ void CheckContiguityBetweenLanes(const RoadNetwork& road_network) {
   for (const std::pair<rules::RangeValueRule::Id, rules::RangeValueRule>& key_value : rules.range_value_rules) {
     CheckLaneSRouteContiguity(road_geometry, key_value.second.zone());
   }
+  for (const auto& key_value : rules.right_of_way) {
+    CheckLaneSRouteContiguity(road_geometry, key_value.second.zone());
+  }
 }
 
 // Confirms full DirectionUsageRule coverage. This is determined by
-- 
2.43.0


From 2b00301cdf726ba78be60a11e1d66eafa332d4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:04 +0000
Subject: [PATCH 31/44] fix: network validation accepted a missing traffic
 light with an empty list of bulb groups

---
 src/maliput/api/road_network_validator.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/maliput/api/road_network_validator.cc b/src/maliput/api/road_network_validator.cc
index a57a43a..053ad0a 100644
--- a/src/maliput/api/road_network_validator.cc
+++ b/src/maliput/api/road_network_validator.cc
@@ -150,18 +150,14 @@ void CheckRoadGeometryHierarchyConsistency(const RoadNetwork& road_network) {
 // Checks that TrafficLight::Ids and BulbGroup::Ids in RightOfWayRules
 // as RelatedBulbGroups have a supporting entity in TrafficLightBook.
 void CheckRelatedBulbGroups(const RoadNetwork& road_network) {
-  auto evaluate_related_bulb_group_existance = [&](const TrafficLight::Id& traffic_light_id,
-                                                   const BulbGroup::Id& bulb_group_id) {
-    const TrafficLight* traffic_light = road_network.traffic_light_book()->GetTrafficLight(traffic_light_id);
-    MALIPUT_THROW_UNLESS(traffic_light != nullptr);
-    MALIPUT_THROW_UNLESS(traffic_light->GetBulbGroup(bulb_group_id) != nullptr);
-  };
-
   const rules::RoadRulebook::QueryResults result = road_network.rulebook()->Rules();
   for (const auto& rule_id_to_rule : result.right_of_way) {
     for (const auto& traffic_light_bulb_groups : rule_id_to_rule.second.related_bulb_groups()) {
+      const TrafficLight* traffic_light =
+          road_network.traffic_light_book()->GetTrafficLight(traffic_light_bulb_groups.first);
+      MALIPUT_THROW_UNLESS(traffic_light != nullptr);
       for (const BulbGroup::Id& bulb_group_id : traffic_light_bulb_groups.second) {
-        evaluate_related_bulb_group_existance(traffic_light_bulb_groups.first, bulb_group_id);
+        MALIPUT_THROW_UNLESS(traffic_light->GetBulbGroup(bulb_group_id) != nullptr);
       }
     }
   }
-- 
2.43.0


From 9365f207be5c6923245e52db9b2d1b2152d7baba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:33 +0000
Subject: [PATCH 32/44] fix: refuse malformed text when parsing vectors

VectorBase::FromStr accepted text with the braces reversed, with anything
before, between or after the values, or with values that were not
numbers to their end. It now takes exactly '{v1, ..., vN}'.
---
 src/maliput/math/vector.cc | 44 ++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/maliput/math/vector.cc b/src/maliput/math/vector.cc
index d4d0f83..b0af676 100644
--- a/src/maliput/math/vector.cc
+++ b/src/maliput/math/vector.cc
@@ -29,10 +29,15 @@
 // OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include "maliput/math/vector.h"
 
+#include <algorithm>
+#include <cctype>
 #include <complex>
 #include <functional>
 #include <limits>
 #include <numeric>
+#include <sstream>
+#include <stdexcept>
+#include <string>
 
 namespace maliput {
 namespace math {
@@ -63,27 +68,28 @@ Derived VectorBase<N, Derived>::FromStr(const std::string& vector_str) {
   MALIPUT_THROW_UNLESS(std::count(vector_str.begin(), vector_str.end(), kComma) == N - 1);
   // @}
 
+  // The braces must enclose the values, and there must be nothing but white spaces around them.
+  const std::size_t left_brace_pos = vector_str.find(kLeftBrace);
+  const std::size_t right_brace_pos = vector_str.find(kRightBrace);
+  MALIPUT_THROW_UNLESS(left_brace_pos < right_brace_pos);
+  const auto is_blank = [](const std::string& str) {
+    return std::all_of(str.begin(), str.end(), [](unsigned char c) { return std::isspace(c); });
+  };
+  MALIPUT_THROW_UNLESS(is_blank(vector_str.substr(0, left_brace_pos)));
+  MALIPUT_THROW_UNLESS(is_blank(vector_str.substr(right_brace_pos + 1)));
+
   std::array<double, N> ret;
-  if (ret.size() == 1) {
-    // 1-D vector.
-    const std::string value_str = vector_str.substr(1, vector_str.find_first_of(kRightBrace) - 1);
-    ret[0] = std::stod(value_str);
-  } else {
-    std::size_t previous_comma_pos{0};
-    for (size_t i = 0; i < ret.size(); ++i) {
-      // Extracts each number.
-      std::string value_str{};
-      const std::size_t comma_pos = vector_str.find_first_of(kComma, previous_comma_pos + 1);
-      if (i == ret.size() - 1) {
-        // Last value.
-        value_str = vector_str.substr(previous_comma_pos + 1, vector_str.find_first_of(kRightBrace) - 1);
-      } else {
-        value_str = vector_str.substr(previous_comma_pos + 1, comma_pos - 1);
-      }
-
-      ret[i] = std::stod(value_str);
-      previous_comma_pos = comma_pos;
+  std::stringstream values(vector_str.substr(left_brace_pos + 1, right_brace_pos - left_brace_pos - 1));
+  for (double& value : ret) {
+    std::string value_str{};
+    std::getline(values, value_str, kComma);
+    std::size_t parsed_size{0};
+    try {
+      value = std::stod(value_str, &parsed_size);
+    } catch (const std::logic_error&) {
+      MALIPUT_THROW_MESSAGE("'" + value_str + "' in '" + vector_str + "' is not a number.");
     }
+    MALIPUT_THROW_UNLESS(is_blank(value_str.substr(parsed_size)));
   }
   return Derived{ret};
 }
-- 
2.43.0


From 355c56e6c61fb0e5b3ca6a9b0f1f57ef213682c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:33 +0000
Subject: [PATCH 33/44] fix: choose the axis of a half turn by magnitude in
 SetFromTwoVectors

For antiparallel vectors along Z the auxiliary vector was chosen
comparing signed components, could be parallel to the vectors, and the
resulting quaternion was not a number.
---
 src/maliput/math/quaternion.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maliput/math/quaternion.cc b/src/maliput/math/quaternion.cc
index 42eed34..5e2cfbf 100644
--- a/src/maliput/math/quaternion.cc
+++ b/src/maliput/math/quaternion.cc
@@ -717,7 +717,7 @@ void Quaternion::SetFromTwoVectors(const Vector3& a, const Vector3& b) {
           other = Vector3(0, 0, 1);
         }
       } else {
-        if (a.y() < a.z()) {
+        if (a_abs.y() < a_abs.z()) {
           other = Vector3(0, 1, 0);
         } else {
           other = Vector3(0, 0, 1);
-- 
2.43.0


From 49e469c472babe272a54a2d122c9d4359fa5fc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:43 +0000
Subject: [PATCH 34/44] fix: sample ranges travelled against s in
 SampleAheadWaypoints

---
 src/maliput/api/road_geometry.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/maliput/api/road_geometry.cc b/src/maliput/api/road_geometry.cc
index 672c89d..9ad253c 100644
--- a/src/maliput/api/road_geometry.cc
+++ b/src/maliput/api/road_geometry.cc
@@ -228,14 +228,14 @@ std::vector<InertialPosition> RoadGeometry::DoSampleAheadWaypoints(const LaneSRo
     const Lane* lane = id.GetLane(range.lane_id());
     MALIPUT_THROW_UNLESS(lane != nullptr);
     const SRange lane_s_range = range.s_range();
-
-    double step_accumulator = previous_s_difference + lane_s_range.s0() + path_length_sampling_rate;
-
-    while (step_accumulator <= lane_s_range.s1()) {
-      waypoints.emplace_back(lane->ToInertialPosition(LanePosition(step_accumulator, 0.0, 0.0)));
+    // Distances are measured along the direction of travel, which is against `s` when `s0` is greater than `s1`.
+    double step_accumulator = previous_s_difference + path_length_sampling_rate;
+    while (step_accumulator <= lane_s_range.size()) {
+      const double s = lane_s_range.WithS() ? lane_s_range.s0() + step_accumulator : lane_s_range.s0() - step_accumulator;
+      waypoints.emplace_back(lane->ToInertialPosition(LanePosition(s, 0.0, 0.0)));
       step_accumulator += path_length_sampling_rate;
     }
-    previous_s_difference = step_accumulator - lane_s_range.s1() - path_length_sampling_rate;
+    previous_s_difference = step_accumulator - lane_s_range.size() - path_length_sampling_rate;
   }
   if (std::abs(previous_s_difference) > linear_tolerance()) {
     const Lane* last_lane = id.GetLane(ranges.back().lane_id());
-- 
2.43.0


From 6cbd62398a36de9d487aacde3223a780c7e0295a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:41 +0000
Subject: [PATCH 35/44] fix: leave faces around a hole as they are in
 SimplifyMeshFaces

---
 src/maliput/utility/mesh_simplification.cc | 30 +++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/maliput/utility/mesh_simplification.cc b/src/maliput/utility/mesh_simplification.cc
index aa359e7..c722705 100644
--- a/src/maliput/utility/mesh_simplification.cc
+++ b/src/maliput/utility/mesh_simplification.cc
@@ -239,6 +239,23 @@ GeoFace MergeMeshFaces(const GeoMesh& mesh, const std::set<int>& mergeable_faces
   return merged_face;
 }
 
+namespace {
+
+// Returns true when the union of @p faces_indices is a simply connected region, i.e. when following its contour goes
+// through all of its outer edges.
+bool IsSimplyConnected(const std::set<int>& faces_indices, const FaceAdjacencyMap& adjacent_faces_map) {
+  std::size_t outer_edges_count{0};
+  for (int face_index : faces_indices) {
+    const std::vector<FaceEdgeIndex>& adjacent_face_edges = adjacent_faces_map.at(face_index);
+    outer_edges_count += std::count_if(
+        adjacent_face_edges.begin(), adjacent_face_edges.end(),
+        [&faces_indices](const FaceEdgeIndex& face_edge) { return faces_indices.count(face_edge.face_index) == 0; });
+  }
+  return ComputeMeshFacesContour(faces_indices, adjacent_faces_map).size() == outer_edges_count;
+}
+
+}  // namespace
+
 GeoMesh SimplifyMeshFaces(const GeoMesh& input_mesh, double tolerance) {
   GeoMesh output_mesh;
   std::set<int> visited_faces_indices;
@@ -252,7 +269,18 @@ GeoMesh SimplifyMeshFaces(const GeoMesh& input_mesh, double tolerance) {
     const std::set<int> mergeable_faces_indices = AggregateAdjacentCoplanarMeshFaces(
         input_mesh, face_index, adjacent_faces_map, tolerance, &visited_faces_indices);
 
-    output_mesh.PushFace(MergeMeshFaces(input_mesh, mergeable_faces_indices, adjacent_faces_map, tolerance));
+    if (IsSimplyConnected(mergeable_faces_indices, adjacent_faces_map)) {
+      output_mesh.PushFace(MergeMeshFaces(input_mesh, mergeable_faces_indices, adjacent_faces_map, tolerance));
+      continue;
+    }
+    // A single face cannot have holes, so faces around one are left as they are.
+    for (int mergeable_face_index : mergeable_faces_indices) {
+      GeoFace face;
+      for (const IndexFace::Vertex& vertex : input_mesh.faces()[mergeable_face_index].vertices()) {
+        face.push_vn(input_mesh.get_vertex(vertex.vertex_index), input_mesh.get_normal(vertex.normal_index));
+      }
+      output_mesh.PushFace(face);
+    }
   }
   return output_mesh;
 }
-- 
2.43.0


From 7d8896a6f0ceb2baed711855fccc6815c2d57b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:41 +0000
Subject: [PATCH 36/44] fix: keep the contours of meshes that go through a
 vertex twice

---
 src/maliput/utility/mesh_simplification.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/maliput/utility/mesh_simplification.cc b/src/maliput/utility/mesh_simplification.cc
index c722705..550c668 100644
--- a/src/maliput/utility/mesh_simplification.cc
+++ b/src/maliput/utility/mesh_simplification.cc
@@ -45,6 +45,10 @@ double DistanceToAPlane(const math::Vector3 n, const math::Vector3 p, const math
 }
 
 double DistanceToALine(const math::Vector3& p, const math::Vector3& r, const math::Vector3& q) {
+  if (r.norm() == 0.) {
+    // The line degenerates to a point.
+    return (q - p).norm();
+  }
   const auto r_normalized{r.normalized()};
   return ((q - p) - r_normalized.dot((q - p)) * r_normalized).norm();
 }
@@ -217,7 +221,10 @@ std::vector<FaceVertexIndex> SimplifyMeshFacesContour(const GeoMesh& mesh,
         return GetMeshFaceVertexPosition(mesh, MeshFaceVertexAt(mesh, face_vertex_index));
       },
       [](const math::Vector3& start_vertex, const math::Vector3& end_vertex) {
-        return std::pair<math::Vector3, math::Vector3>{start_vertex, {(end_vertex - start_vertex).normalized()}};
+        // A contour may go through one vertex more than once.
+        const math::Vector3 direction = end_vertex - start_vertex;
+        return std::pair<math::Vector3, math::Vector3>{
+            start_vertex, direction.norm() == 0. ? direction : direction.normalized()};
       },
       tolerance, std::back_inserter(simplified_contour_indices));
   return simplified_contour_indices;
-- 
2.43.0


From efd4ab30c20c5fbcc1f7b3f4bd4b2e847fc69ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:41 +0000
Subject: [PATCH 37/44] fix: no degenerate faces at the bounds of precise road
 meshes

---
 src/maliput/utility/generate_obj.cc | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/maliput/utility/generate_obj.cc b/src/maliput/utility/generate_obj.cc
index 54138a5..83fdb34 100644
--- a/src/maliput/utility/generate_obj.cc
+++ b/src/maliput/utility/generate_obj.cc
@@ -215,8 +215,11 @@ void GeneratePreciseRoadMesh(GeoMesh* mesh, const api::Lane* lane, double grid_u
       double r00 = 0.;
       double r10 = 0.;
       while ((r00 < rb0.max()) && (r10 < rb1.max())) {
-        const double r01 = std::min(r00 + grid_unit, rb0.max());
-        const double r11 = std::min(r10 + grid_unit, rb1.max());
+        // Avoids leaving a sliver for another, degenerate, face.
+        const bool is_last =
+            r00 + grid_unit > rb0.max() - linear_tolerance && r10 + grid_unit > rb1.max() - linear_tolerance;
+        const double r01 = is_last ? rb0.max() : std::min(r00 + grid_unit, rb0.max());
+        const double r11 = is_last ? rb1.max() : std::min(r10 + grid_unit, rb1.max());
         //
         // (s1,r11) o <-- o (s1,r10)       ^ +s
         //          |     ^                |
@@ -230,8 +233,8 @@ void GeneratePreciseRoadMesh(GeoMesh* mesh, const api::Lane* lane, double grid_u
                          {0., 0., 1.});
         mesh->PushFace(srh_face.ToGeoFace(lane));
 
-        r00 += grid_unit;
-        r10 += grid_unit;
+        r00 = r01;
+        r10 = r11;
       }
     }
     // Right side of lane (r <= 0).
@@ -239,8 +242,11 @@ void GeneratePreciseRoadMesh(GeoMesh* mesh, const api::Lane* lane, double grid_u
       double r00 = 0.;
       double r10 = 0.;
       while ((r00 > rb0.min()) && (r10 > rb1.min())) {
-        const double r01 = std::max(r00 - grid_unit, rb0.min());
-        const double r11 = std::max(r10 - grid_unit, rb1.min());
+        // Avoids leaving a sliver for another, degenerate, face.
+        const bool is_last =
+            r00 - grid_unit < rb0.min() + linear_tolerance && r10 - grid_unit < rb1.min() + linear_tolerance;
+        const double r01 = is_last ? rb0.min() : std::max(r00 - grid_unit, rb0.min());
+        const double r11 = is_last ? rb1.min() : std::max(r10 - grid_unit, rb1.min());
         //
         // (s1,r10) o <-- o (s1,r11)  ^ +s
         //          |     ^           |
@@ -254,8 +260,8 @@ void GeneratePreciseRoadMesh(GeoMesh* mesh, const api::Lane* lane, double grid_u
                          {0., 0., 1.});
         mesh->PushFace(srh_face.ToGeoFace(lane));
 
-        r00 -= grid_unit;
-        r10 -= grid_unit;
+        r00 = r01;
+        r10 = r11;
       }
     }
   }
-- 
2.43.0


From 0c0e78f83277642db34836a4458a58e14568c34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:41 +0000
Subject: [PATCH 38/44] fix: no degenerate faces in the arrows of lanes without
 one side

---
 src/maliput/utility/generate_obj.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/maliput/utility/generate_obj.cc b/src/maliput/utility/generate_obj.cc
index 83fdb34..438214a 100644
--- a/src/maliput/utility/generate_obj.cc
+++ b/src/maliput/utility/generate_obj.cc
@@ -369,8 +369,8 @@ void DrawLaneArrow(GeoMesh* mesh, const api::Lane* lane, double grid_unit, doubl
   for (int si = 0; si < num_units; ++si) {
     double s0 = s_offset + (si * s_unit);
     double s1 = s_offset + ((si + 1.) * s_unit);
-    // Left side of lane.
-    {
+    // Left side of lane, if any.
+    if (rl_unit > 0.) {
       double r00 = 0.;
       double r10 = 0.;
       for (int ri = 0; ri < (num_r_units - 1); ++ri) {
@@ -396,8 +396,8 @@ void DrawLaneArrow(GeoMesh* mesh, const api::Lane* lane, double grid_unit, doubl
       SrhFace srh_face({{s0, r00, h_offset}, {s1, r10, h_offset}, {s0, r00 + rl_unit, h_offset}}, {0., 0., 1.});
       mesh->PushFace(srh_face.ToGeoFace(lane));
     }
-    // Right side of lane.
-    {
+    // Right side of lane, if any.
+    if (rr_unit > 0.) {
       double r00 = 0.;
       double r10 = 0.;
       for (int ri = 0; ri < (num_r_units - 1); ++ri) {
-- 
2.43.0


From eefcaccade1a700d5866f0da4e0523af183be5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:22 +0000
Subject: [PATCH 39/44] fix: make directories recursively as mkdir -p does

---
 src/maliput/common/filesystem.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maliput/common/filesystem.cc b/src/maliput/common/filesystem.cc
index 8632bf2..3659b5a 100644
--- a/src/maliput/common/filesystem.cc
+++ b/src/maliput/common/filesystem.cc
@@ -184,7 +184,7 @@ bool Filesystem::read_as_string(const Path &path, std::string &read_to) {
 }
 
 bool Filesystem::create_directory_recursive(const Path &path) {
-    size_t pos = 1;
+    size_t pos = 0;
     std::string temp(path.get_path());
 
     if (temp == "") {
@@ -200,7 +200,7 @@ bool Filesystem::create_directory_recursive(const Path &path) {
             return false;
         }
     }
-    return create_directory(Path(temp));
+    return path.is_directory() || create_directory(path);
 }
 
 std::string Filesystem::get_env_path(const std::string &env_var) {
-- 
2.43.0


From a4c0f67e69f84bb4043a677516feaf53fc870971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:22 +0000
Subject: [PATCH 40/44] fix: reading a directory as a string does not loop
 forever, an empty path has no last character

---
 src/maliput/common/filesystem.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/maliput/common/filesystem.cc b/src/maliput/common/filesystem.cc
index 3659b5a..9c52b2c 100644
--- a/src/maliput/common/filesystem.cc
+++ b/src/maliput/common/filesystem.cc
@@ -144,7 +144,7 @@ void Path::append(const std::string& path_) {
 }
 
 void Path::normalize() {
-    if (path.back() == '/' && path.length() > 1) {
+    if (path.length() > 1 && path.back() == '/') {
         path = path.substr(0, path.length() - 1);
     }
 }
@@ -172,11 +172,14 @@ bool Filesystem::read_as_string(const Path &path, std::string &read_to) {
     std::ifstream is(path.get_path());
     std::stringstream ss;
     if (is.is_open()) {
-        while (true) {
-            char c = is.get();
-            if (is.eof()) { break; }
+        char c;
+        while (is.get(c)) {
             ss << c;
         }
+        // Opening a directory succeeds, reading it does not.
+        if (is.bad()) {
+            return false;
+        }
         read_to = ss.str();
         return true;
     }
-- 
2.43.0


From 512acde14c170672a326f9cb9c0b7595eaed166c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:22 +0000
Subject: [PATCH 41/44] fix: comparisons of rules look at every part of both
 values and do not throw

---
 src/maliput/api/rules/compare.cc | 42 ++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/src/maliput/api/rules/compare.cc b/src/maliput/api/rules/compare.cc
index d91cd16..b097d3e 100644
--- a/src/maliput/api/rules/compare.cc
+++ b/src/maliput/api/rules/compare.cc
@@ -30,6 +30,7 @@
 
 #include "maliput/api/rules/compare.h"
 
+#include <algorithm>
 #include <optional>
 #include <unordered_map>
 
@@ -45,6 +46,13 @@ namespace rules {
 common::ComparisonResult<RuleStates> IsEqual(const RuleStates& a, const RuleStates& b) {
   common::ComparisonResultCollector c;
   MALIPUT_ADD_RESULT(c, api::IsEqual("a.size()", "b.size()", a.size(), b.size()));
+  for (const auto& rule_state : a) {
+    const auto b_it = b.find(rule_state.first);
+    MALIPUT_ADD_RESULT(c, api::IsEqual("(b_it != b.cend())", "true", (b_it != b.cend()), true));
+    if (b_it != b.cend()) {
+      MALIPUT_ADD_RESULT(c, api::IsEqual("rule_state.second", "b_it->second", rule_state.second, b_it->second));
+    }
+  }
   return {c.result()};
 }
 
@@ -52,8 +60,10 @@ common::ComparisonResult<RuleStates> IsEqual(const RuleStates& a, const RuleStat
 
 common::ComparisonResult<DiscreteValueRule::DiscreteValue> IsEqual(const DiscreteValueRule::DiscreteValue& a,
                                                                    const DiscreteValueRule::DiscreteValue& b) {
-  if (a.value != b.value) {
-    return {"DiscreteValues are different: " + a.value + " != " + b.value};
+  if (a != b) {
+    return {"DiscreteValues are different: value: " + a.value + " , severity: " + std::to_string(a.severity) +
+            " vs. value: " + b.value + " , severity: " + std::to_string(b.severity) +
+            ", or their related rules or related unique ids are"};
   }
   return {std::nullopt};
 }
@@ -64,7 +74,11 @@ common::ComparisonResult<std::unordered_map<Rule::Id, DiscreteValueRule::Discret
   common::ComparisonResultCollector c;
   MALIPUT_ADD_RESULT(c, api::IsEqual("a.size()", "b.size()", a.size(), b.size()));
   for (const auto& discrete_value_rule_state : a) {
-    MALIPUT_ADD_RESULT(c, IsEqual(b.at(discrete_value_rule_state.first), discrete_value_rule_state.second));
+    const auto b_it = b.find(discrete_value_rule_state.first);
+    MALIPUT_ADD_RESULT(c, api::IsEqual("(b_it != b.cend())", "true", (b_it != b.cend()), true));
+    if (b_it != b.cend()) {
+      MALIPUT_ADD_RESULT(c, IsEqual(b_it->second, discrete_value_rule_state.second));
+    }
   }
   return {c.result()};
 }
@@ -145,10 +159,12 @@ common::ComparisonResult<std::vector<DiscreteValueRule::DiscreteValue>> IsEqual(
     const std::vector<DiscreteValueRule::DiscreteValue>& a, const std::vector<DiscreteValueRule::DiscreteValue>& b) {
   common::ComparisonResultCollector c;
   MALIPUT_ADD_RESULT(c, api::IsEqual("a.size()", "b.size()", a.size(), b.size()));
-  const int smallest = std::min(a.size(), b.size());
-  for (int i = 0; i < smallest; ++i) {
-    MALIPUT_ADD_RESULT(c, api::IsEqual("std::find(b.begin(), b.end(), a.at(i)) != b.end()", "true",
-                                       std::find(b.begin(), b.end(), a.at(i)) != b.end(), true));
+  if (a.size() == b.size()) {
+    for (const auto& value : a) {
+      MALIPUT_ADD_RESULT(c, api::IsEqual("std::count(a.begin(), a.end(), value)", "std::count(b.begin(), b.end(), value)",
+                                         static_cast<std::size_t>(std::count(a.begin(), a.end(), value)),
+                                         static_cast<std::size_t>(std::count(b.begin(), b.end(), value))));
+    }
   }
   return {c.result()};
 }
@@ -337,6 +353,8 @@ common::ComparisonResult<std::unordered_map<TrafficLight::Id, std::vector<BulbGr
       if (b_it == b.cend()) {
         break;
       }
+      MALIPUT_ADD_RESULT(c, api::IsEqual("traffic_light_bulb_group.second.size()", "b_it->second.size()",
+                                         traffic_light_bulb_group.second.size(), b_it->second.size()));
       for (const BulbGroup::Id& bulb_group_id : traffic_light_bulb_group.second) {
         const auto& b_bulb_group_id_it = std::find(b_it->second.cbegin(), b_it->second.cend(), bulb_group_id);
         MALIPUT_ADD_RESULT(c, api::IsEqual("(b_bulb_group_id_it != b_it->second.cend())", "true",
@@ -378,10 +396,14 @@ common::ComparisonResult<std::optional<BulbStates>> IsEqual(const std::optional<
                                                             const std::optional<BulbStates>& b) {
   common::ComparisonResultCollector c;
   MALIPUT_ADD_RESULT(c, api::IsEqual("a.has_value()", "b.has_value()", a.has_value(), b.has_value()));
-  if (a.has_value()) {
+  if (a.has_value() && b.has_value()) {
     MALIPUT_ADD_RESULT(c, api::IsEqual("a->size()", "b->size()", a->size(), b->size()));
     for (const auto& bulb_state : *a) {
-      MALIPUT_ADD_RESULT(c, IsEqual(b->at(bulb_state.first), bulb_state.second));
+      const auto b_it = b->find(bulb_state.first);
+      MALIPUT_ADD_RESULT(c, api::IsEqual("(b_it != b->cend())", "true", (b_it != b->cend()), true));
+      if (b_it != b->cend()) {
+        MALIPUT_ADD_RESULT(c, IsEqual(b_it->second, bulb_state.second));
+      }
     }
   }
   return {c.result()};
@@ -391,7 +413,7 @@ common::ComparisonResult<std::optional<double>> IsEqual(const std::optional<doub
                                                         const std::optional<double>& b) {
   common::ComparisonResultCollector c;
   MALIPUT_ADD_RESULT(c, api::IsEqual("a.has_value()", "b.has_value()", a.has_value(), b.has_value()));
-  if (a.has_value()) {
+  if (a.has_value() && b.has_value()) {
     MALIPUT_ADD_RESULT(c, api::IsEqual("a.value()", "b.value()", a.value(), b.value()));
   }
   return {c.result()};
-- 
2.43.0


From 0d4a0a9fb68e29bf84c2618c9650ba2cbacef7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:22 +0000
Subject: [PATCH 42/44] fix: infinities compare equal to themselves only under
 relative tolerances

---
 src/maliput/math/compare.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/maliput/math/compare.cc b/src/maliput/math/compare.cc
index aefa626..213958c 100644
--- a/src/maliput/math/compare.cc
+++ b/src/maliput/math/compare.cc
@@ -58,6 +58,12 @@ common::ComparisonResult<math::VectorBase<N, Derived>> CompareVectors(const math
       return {"Nan mismatch at (" + std::to_string(i) + "):\nv1 =\n" + v1.to_str() + "\nv2 =\n" + v2.to_str()};
     }
 
+    // Check for case where only one value is infinite, or both are with different sign: a tolerance relative to it
+    // would be infinite as well.
+    if (std::isinf(v1[i]) || std::isinf(v2[i])) {
+      return {"Infinity mismatch at (" + std::to_string(i) + "):\nv1 =\n" + v1.to_str() + "\nv2 =\n" + v2.to_str()};
+    }
+
     // Determine whether the difference between the two vectors is less than
     // the tolerance.
     const auto delta = std::abs(v1[i] - v2[i]);
@@ -112,6 +118,13 @@ common::ComparisonResult<math::Matrix<N>> CompareMatrices(const math::Matrix<N>&
                 "\nm2 =\n" + m2.to_str()};
       }
 
+      // Check for case where only one value is infinite, or both are with different sign: a tolerance relative to it
+      // would be infinite as well.
+      if (std::isinf(m1[ii][jj]) || std::isinf(m2[ii][jj])) {
+        return {"Infinity mismatch at (" + std::to_string(ii) + ", " + std::to_string(jj) + "):\nm1 =\n" + m1.to_str() +
+                "\nm2 =\n" + m2.to_str()};
+      }
+
       // Determine whether the difference between the two matrices is less than
       // the tolerance.
       const auto delta = std::abs(m1[ii][jj] - m2[ii][jj]);
-- 
2.43.0


From 258987e6ed348c2f749187abf246d90a2406df63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:22 +0000
Subject: [PATCH 43/44] fix: comparing lane ends without lane

---
 src/maliput/api/compare.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/maliput/api/compare.cc b/src/maliput/api/compare.cc
index 736e94e..72fbb19 100644
--- a/src/maliput/api/compare.cc
+++ b/src/maliput/api/compare.cc
@@ -239,8 +239,9 @@ common::ComparisonResult<LaneEnd> IsLaneEndEqual(const LaneEnd& lane_end1, const
     return end == LaneEnd::Which::kStart ? std::string("kStart") : std::string("kFinish");
   };
   if (lane_end1.lane != lane_end2.lane) {
-    return {"lane_end1.lane is different from lane_end2.lane. lane_end1.lane: " + lane_end1.lane->id().string() +
-            " vs. lane_end2.lane: " + lane_end2.lane->id().string() + "\n"};
+    auto lane_to_string = [](const Lane* lane) { return lane == nullptr ? std::string("nullptr") : lane->id().string(); };
+    return {"lane_end1.lane is different from lane_end2.lane. lane_end1.lane: " + lane_to_string(lane_end1.lane) +
+            " vs. lane_end2.lane: " + lane_to_string(lane_end2.lane) + "\n"};
   }
   if (lane_end1.end != lane_end2.end) {
     return {"lane_end1.end is different from lane_end2.end. lane_end1.end: " + which_to_string(lane_end1.end) +
-- 
2.43.0


From e2275203e5c6fdaf9506320571a1f00036086e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:07 +0000
Subject: [PATCH 44/44] fix: integrators do not continue from a failed
 integration

When the integrated function threw, InitialValueProblem kept the state (and the dense
integration) left half way by the integrator, and the next query continued from it.
---
 .../systems/analysis/initial_value_problem.cc    | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/maliput/drake/systems/analysis/initial_value_problem.cc b/src/maliput/drake/systems/analysis/initial_value_problem.cc
index 617b990..9260971 100644
--- a/src/maliput/drake/systems/analysis/initial_value_problem.cc
+++ b/src/maliput/drake/systems/analysis/initial_value_problem.cc
@@ -134,7 +134,13 @@ VectorX<T> InitialValueProblem<T>::Solve(const T& tf, const OdeContext& values)
   }
 
   // Integrates up to the requested time.
-  integrator_->IntegrateWithMultipleStepsToTime(tf);
+  try {
+    integrator_->IntegrateWithMultipleStepsToTime(tf);
+  } catch (...) {
+    // Whatever was left half way is not a state to continue from.
+    ResetCachedState(safe_values);
+    throw;
+  }
 
   // Retrieves the state vector. This cast is safe because the
   // ContinuousState<T> of a LeafSystem<T> is flat i.e. it is just
@@ -235,7 +241,13 @@ std::unique_ptr<DenseOutput<T>> InitialValueProblem<T>::DenseSolve(const T& tf,
   integrator_->StartDenseIntegration();
 
   // Steps the integrator through the entire interval.
-  integrator_->IntegrateWithMultipleStepsToTime(tf);
+  try {
+    integrator_->IntegrateWithMultipleStepsToTime(tf);
+  } catch (...) {
+    // Whatever was left half way is not a state to continue from.
+    ResetCachedState(safe_values);
+    throw;
+  }
 
   // Stops dense integration to prevent future updates to
   // the dense output just built and yields it to the caller.
-- 
2.43.0

