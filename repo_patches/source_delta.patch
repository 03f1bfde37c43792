From d16ef4ed5c50dd6d56ba35f58f0a7d3d54ea006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:02 +0000
Subject: [PATCH 01/98] fix: inseparable chain lookup must not be shared
 between graphs with equal work ids

functools.cache keys GraphNode by id, so with two live graphs having the same
ids (a copy, a deserialized graph) one graph got the other's nodes.
---
 sampo/schemas/graph.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index 771a474..64b9b5d 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -1,7 +1,7 @@
 from collections import deque
 from dataclasses import dataclass, field
 from enum import Enum
-from functools import cached_property, cache
+from functools import cached_property
 from random import Random
 from typing import Optional
 
@@ -129,14 +129,12 @@ class GraphNode(JSONSerializable['GraphNode']):
         self.__dict__.pop('parents_set', None)
         self.__dict__.pop('inseparable_parent', None)
         self.__dict__.pop('inseparable_son', None)
-        self.get_inseparable_chain.cache_clear()
 
     def invalidate_children_cache(self):
         self.__dict__.pop('children', None)
         self.__dict__.pop('children_set', None)
         self.__dict__.pop('inseparable_parent', None)
         self.__dict__.pop('inseparable_son', None)
-        self.get_inseparable_chain.cache_clear()
 
     def is_inseparable_parent(self) -> bool:
         return self.inseparable_son is not None
@@ -241,7 +239,6 @@ class GraphNode(JSONSerializable['GraphNode']):
     def id(self) -> str:
         return self.work_unit.id
 
-    @cache
     def get_inseparable_chain(self) -> Optional[list['GraphNode']]:
         """
         Gets an ordered list of whole chain of nodes, connected with edges of type INSEPARABLE_FINISH_START =
-- 
2.43.0


From cd31054f9a78349b497f7de2fc2ee25f827b54ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 02/98] fix: parallel SGS must not redistribute the durations
 inside an inseparable chain

The estimated cascade time was passed to the timeline as if it were a time
assigned by the specification, so the members of a chain got a share of it by
volume instead of their own durations.
---
 sampo/scheduler/genetic/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/scheduler/genetic/converter.py b/sampo/scheduler/genetic/converter.py
index 4cea529..d97c3eb 100644
--- a/sampo/scheduler/genetic/converter.py
+++ b/sampo/scheduler/genetic/converter.py
@@ -207,7 +207,7 @@ def parallel_schedule_generation_scheme(chromosome: ChromosomeType,
 
             # finish using time spec
             timeline.schedule(node, node2swork, worker_team, contractor, work_spec,
-                              st, exec_time, assigned_parent_time, work_estimator)
+                              st, work_spec.assigned_time, assigned_parent_time, work_estimator)
 
             if idx == len(works_order) - 1:  # we are scheduling the work `end of the project`
                 node2swork[node].zones_pre = finalizing_zones
-- 
2.43.0


From 2ec809861c1647cbce0daef988aa9b3b33920277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 03/98] fix: contractor borders of chromosomes must follow the
 worker index

The borders were filled by the position of a worker in the contractor's own
dictionary, so a contractor that lacks a specialty or lists its specialties in
another order got the wrong limits.
---
 sampo/scheduler/genetic/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/genetic/utils.py b/sampo/scheduler/genetic/utils.py
index abd6406..f932bf6 100644
--- a/sampo/scheduler/genetic/utils.py
+++ b/sampo/scheduler/genetic/utils.py
@@ -50,8 +50,8 @@ def prepare_optimized_data_structures(wg: WorkGraph,
 
     contractor_borders = np.zeros((len(contractor2index), len(worker_name2index)), dtype=int)
     for ind, contractor in enumerate(contractors):
-        for ind_worker, worker in enumerate(contractor.workers.values()):
-            contractor_borders[ind, ind_worker] = worker.count
+        for worker_name, worker in contractor.workers.items():
+            contractor_borders[ind, worker_name2index[worker_name]] = worker.count
 
     nodes, node_id2parent_ids, node_id2child_ids = get_head_nodes_with_connections_mappings(wg)
     node_indices = list(range(len(nodes)))
-- 
2.43.0


From b3fe01e870ba886a54dbe4964955d04790ea879e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 04/98] fix: worker counts assigned by the schedule spec must
 survive the resource optimization

---
 sampo/scheduler/generic.py                     |  4 ++++
 sampo/scheduler/resource/average_req.py        |  2 +-
 sampo/scheduler/resource/coordinate_descent.py | 13 ++++++-------
 sampo/scheduler/resource/full_scan.py          |  7 ++++++-
 sampo/utilities/base_opt.py                    |  2 +-
 5 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/sampo/scheduler/generic.py b/sampo/scheduler/generic.py
index 211ca5b..e9d6707 100644
--- a/sampo/scheduler/generic.py
+++ b/sampo/scheduler/generic.py
@@ -85,6 +85,10 @@ class GenericScheduler(Scheduler):
                 if len(workers) != len(node.work_unit.worker_reqs):
                     return assigned_parent_time, Time.inf(), []
 
+                if any(spec.assigned_workers.get(worker.name, 0) > worker.count for worker in workers):
+                    # the contractor can't provide the team required by the spec
+                    return assigned_parent_time, Time.inf(), []
+
                 workers = [worker.copy() for worker in workers]
 
                 # apply worker team spec
diff --git a/sampo/scheduler/resource/average_req.py b/sampo/scheduler/resource/average_req.py
index bd71886..2cb1c94 100644
--- a/sampo/scheduler/resource/average_req.py
+++ b/sampo/scheduler/resource/average_req.py
@@ -37,7 +37,7 @@ class AverageReqResourceOptimizer(ResourceOptimizer):
         :param get_finish_time: optimization function that should give execution time based on worker team
         """
 
-        if optimize_array:
+        if optimize_array is not None:
             for worker, up, down, optimize in zip(worker_team, up_border, down_border, optimize_array):
                 if optimize:
                     worker.count = max(0, down) + int((up - down) / self.k)
diff --git a/sampo/scheduler/resource/coordinate_descent.py b/sampo/scheduler/resource/coordinate_descent.py
index c884c94..8bffb5e 100644
--- a/sampo/scheduler/resource/coordinate_descent.py
+++ b/sampo/scheduler/resource/coordinate_descent.py
@@ -46,14 +46,13 @@ class CoordinateDescentResourceOptimizer(ResourceOptimizer):
                 worker.count = worker_count[ind]
             return get_finish_time(worker_team)
 
+        if optimize_array is not None:
+            # the positions that shouldn't be optimized keep the count they have
+            down_border = np.where(optimize_array, down_border, [worker.count for worker in worker_team])
+
         count_worker_team = coordinate_descent(down_border, up_border,
                                                self.one_dimension_optimizer,
                                                fitness,
                                                optimize_array)
-        if optimize_array:
-            for i, worker in enumerate(worker_team):
-                if optimize_array[i]:
-                    worker.count = count_worker_team[i]
-        else:
-            for i, worker in enumerate(worker_team):
-                worker.count = count_worker_team[i]
+        for i, worker in enumerate(worker_team):
+            worker.count = count_worker_team[i]
diff --git a/sampo/scheduler/resource/full_scan.py b/sampo/scheduler/resource/full_scan.py
index 291ea24..7be74c9 100644
--- a/sampo/scheduler/resource/full_scan.py
+++ b/sampo/scheduler/resource/full_scan.py
@@ -35,7 +35,12 @@ class FullScanResourceOptimizer(ResourceOptimizer):
         :param get_finish_time: optimization function that should give execution time based on worker team
         """
 
-        # TODO Handle optimize_array
+        if optimize_array is not None:
+            # the positions that shouldn't be optimized keep the count they have
+            fixed_counts = [worker.count for worker in worker_team]
+            down_border = np.where(optimize_array, down_border, fixed_counts)
+            up_border = np.where(optimize_array, up_border, fixed_counts)
+
         def fitness(worker_count: np.ndarray):
             """
             Function that counts finish time with a current set of resources
diff --git a/sampo/utilities/base_opt.py b/sampo/utilities/base_opt.py
index 484353f..aec86f9 100644
--- a/sampo/utilities/base_opt.py
+++ b/sampo/utilities/base_opt.py
@@ -46,7 +46,7 @@ def coordinate_descent(down: np.ndarray, up: np.ndarray,
                        optimize_array: Optional[np.ndarray]) -> np.ndarray:
     cur = down.copy()
     for i in range(down.size):
-        if optimize_array and not optimize_array[i]:
+        if optimize_array is not None and not optimize_array[i]:
             continue
 
         def part(x) -> Time:
-- 
2.43.0


From a7180706b00845579670bf8e67c54305f4df4b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:59 +0000
Subject: [PATCH 05/98] fix: momentum timeline must search the slot for the
 assigned time and keep the chain lags

---
 sampo/scheduler/timeline/momentum_timeline.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/sampo/scheduler/timeline/momentum_timeline.py b/sampo/scheduler/timeline/momentum_timeline.py
index ae64168..b76a643 100644
--- a/sampo/scheduler/timeline/momentum_timeline.py
+++ b/sampo/scheduler/timeline/momentum_timeline.py
@@ -1,4 +1,5 @@
 from collections import deque
+from dataclasses import replace
 from typing import Optional, Union
 
 from sortedcontainers import SortedList
@@ -112,9 +113,14 @@ class MomentumTimeline(Timeline):
 
         exec_time: Time = Time(0)
         exec_times: dict[GraphNode, tuple[Time, Time]] = {}  # node: (lag, exec_time)
+        assigned_exec_times = {} if spec.assigned_time is None else \
+            get_exec_times_from_assigned_time_for_chain(inseparable_chain, spec.assigned_time)
         for chain_node in inseparable_chain:
-            node_exec_time: Time = Time(0) if len(chain_node.work_unit.worker_reqs) == 0 else \
-                work_estimator.estimate_time(chain_node.work_unit, worker_team)
+            if chain_node in assigned_exec_times:
+                _, node_exec_time = assigned_exec_times[chain_node]
+            else:
+                node_exec_time: Time = Time(0) if len(chain_node.work_unit.worker_reqs) == 0 else \
+                    work_estimator.estimate_time(chain_node.work_unit, worker_team)
 
             lag_req = nodes_max_parent_times[chain_node] - max_parent_time - exec_time
             lag = lag_req if lag_req > 0 else 0
@@ -399,11 +405,12 @@ class MomentumTimeline(Timeline):
                  assigned_parent_time: Time = Time(0),
                  work_estimator: WorkTimeEstimator = DefaultWorkEstimator()):
         inseparable_chain = node.get_inseparable_chain_with_self()
+        if assigned_time is not None:
+            # the time slot should be searched for the assigned time, not for the estimated one
+            spec = replace(spec, assigned_time=assigned_time)
         start_time, _, exec_times = \
             self.find_min_start_time_with_additional(node, workers, node2swork, spec, assigned_start_time,
                                                      assigned_parent_time, work_estimator)
-        if assigned_time is not None:
-            exec_times = get_exec_times_from_assigned_time_for_chain(inseparable_chain, assigned_time)
 
         # TODO Decide how to deal with exec_times(maybe we should remove using pre-computed exec_times)
         self._schedule_with_inseparables(node, node2swork, inseparable_chain, spec,
-- 
2.43.0


From 648e5e8a714f16ebc922b6ae436a229993dd312d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 06/98] fix: parallel SGS must check the start moment for the
 worker team of the schedule spec

---
 sampo/scheduler/genetic/converter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sampo/scheduler/genetic/converter.py b/sampo/scheduler/genetic/converter.py
index d97c3eb..2b43691 100644
--- a/sampo/scheduler/genetic/converter.py
+++ b/sampo/scheduler/genetic/converter.py
@@ -174,6 +174,8 @@ def parallel_schedule_generation_scheme(chromosome: ChromosomeType,
                                          .copy().with_count(worker_count)
                                          for worker_index, worker_count in enumerate(cur_resources)
                                          if worker_count > 0]
+        # apply worker spec
+        Scheduler.optimize_resources_using_spec(cur_node.work_unit, cur_worker_team, cur_work_spec)
         if cur_work_spec.assigned_time is not None:
             cur_exec_time = cur_work_spec.assigned_time
         else:
@@ -194,9 +196,6 @@ def parallel_schedule_generation_scheme(chromosome: ChromosomeType,
         idx, (work_idx, node, worker_team, contractor, exec_time, work_spec) = args
 
         if timeline.can_schedule_at_the_moment(node, worker_team, work_spec, node2swork, start_time, exec_time):
-            # apply worker spec
-            Scheduler.optimize_resources_using_spec(node.work_unit, worker_team, work_spec)
-
             st = start_time
             if idx == 0:  # we are scheduling the work `start of the project`
                 st = assigned_parent_time  # this work should always have st = 0, so we just re-assign it
-- 
2.43.0


From e4e2e4eb964c96c9f1d9102097add100cd793e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 07/98] fix: independent works must neither share resources
 later nor start before their parents

---
 .../scheduler/timeline/just_in_time_timeline.py  | 16 ++++++++--------
 sampo/scheduler/timeline/momentum_timeline.py    | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/sampo/scheduler/timeline/just_in_time_timeline.py b/sampo/scheduler/timeline/just_in_time_timeline.py
index 7115b87..60d70a9 100644
--- a/sampo/scheduler/timeline/just_in_time_timeline.py
+++ b/sampo/scheduler/timeline/just_in_time_timeline.py
@@ -142,6 +142,14 @@ class JustInTimeTimeline(Timeline):
                                    node2swork: dict[GraphNode, ScheduledWork],
                                    start_time: Time,
                                    exec_time: Time) -> bool:
+        # checking edges
+        chain = set(node.get_inseparable_chain_with_self())
+        for dep_node in chain:
+            if any(p not in chain and p not in node2swork for p in dep_node.parents):
+                return False
+        if node.min_start_time(node2swork) > start_time:
+            return False
+
         if spec.is_independent:
             # squash all the timeline to the last point
             for worker in worker_team:
@@ -151,14 +159,6 @@ class JustInTimeTimeline(Timeline):
                     return False
             return True
         else:
-            # checking edges
-            chain = set(node.get_inseparable_chain_with_self())
-            for dep_node in chain:
-                if any(p not in chain and p not in node2swork for p in dep_node.parents):
-                    return False
-            if node.min_start_time(node2swork) > start_time:
-                return False
-
             max_agent_time = Time(0)
             for worker in worker_team:
                 needed_count = worker.count
diff --git a/sampo/scheduler/timeline/momentum_timeline.py b/sampo/scheduler/timeline/momentum_timeline.py
index b76a643..a045618 100644
--- a/sampo/scheduler/timeline/momentum_timeline.py
+++ b/sampo/scheduler/timeline/momentum_timeline.py
@@ -309,9 +309,7 @@ class MomentumTimeline(Timeline):
         if spec.is_independent:
             # squash all the timeline to the last point
             for worker in worker_team:
-                worker_timeline = self._timeline[(worker.contractor_id, worker.name)]
-                last_cpkt_time, _ = worker_timeline[0]
-                if last_cpkt_time >= start_time:
+                if self._timeline[worker.contractor_id][worker.name][-1].time > start_time:
                     return False
             return True
         else:
@@ -373,14 +371,16 @@ class MomentumTimeline(Timeline):
             start_idx = state.bisect_right(start)
             end_idx = state.bisect_left((end, -1, EventType.INITIAL))
             available_workers_count = state[start_idx - 1].available_workers_count
+            # independent work shouldn't have parallel users of its types of resources, so it holds all of them
+            held_count = state[0].available_workers_count if spec.is_independent else w.count
             # updating all events in between the start and the end of our current task
             for event in state[start_idx: end_idx]:
-                assert event.available_workers_count >= w.count
-                event.available_workers_count -= w.count
+                assert event.available_workers_count >= held_count
+                event.available_workers_count -= held_count
 
-            assert available_workers_count >= w.count
+            assert available_workers_count >= held_count
 
-            state.add(ScheduleEvent(task_index, EventType.START, start, None, available_workers_count - w.count))
+            state.add(ScheduleEvent(task_index, EventType.START, start, None, available_workers_count - held_count))
 
             # move the index on time when resources of the work will be freed
             end_idx = state.bisect_right(end) - 1
@@ -390,7 +390,7 @@ class MomentumTimeline(Timeline):
                 end_count = state[end_idx].available_workers_count
             else:
                 # time when resources will be freed is not in timeline
-                end_count = state[end_idx].available_workers_count + w.count
+                end_count = state[end_idx].available_workers_count + held_count
 
             state.add(ScheduleEvent(task_index, EventType.END, end, None, end_count))
 
-- 
2.43.0


From 6291ff422711e374b7f8f7b5d3aa1883451ca70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:41 +0000
Subject: [PATCH 08/98] fix: zone timeline must keep statuses during works and
 reserve the time of status changes

---
 sampo/scheduler/timeline/zone_timeline.py | 83 ++++++++---------------
 1 file changed, 27 insertions(+), 56 deletions(-)

diff --git a/sampo/scheduler/timeline/zone_timeline.py b/sampo/scheduler/timeline/zone_timeline.py
index 50cf0f9..87d6333 100644
--- a/sampo/scheduler/timeline/zone_timeline.py
+++ b/sampo/scheduler/timeline/zone_timeline.py
@@ -9,6 +9,10 @@ from sampo.schemas.zones import ZoneConfiguration, Zone, ZoneTransition
 from sampo.utilities.collections_util import build_index
 
 
+# the status of a zone during the change of its status, it doesn't match any required status
+_CHANGING_STATUS = -1
+
+
 class ZoneTimeline:
 
     def __init__(self, config: ZoneConfiguration):
@@ -142,29 +146,11 @@ class ZoneTimeline:
                                               - (current_start_time - state[-1].time))
                     break  # if we are in the very end, break
 
-                # if we are inside the interval with wrong status
-                # we should go right and search the better begin
-                if state[current_start_idx].event_type == EventType.START \
-                        and not self._match_status(current_start_status, required_status):
-                    current_start_idx += 1
-                    current_start_time = state[current_start_idx].time
-                    continue
-
-                # here we are outside the all intervals or inside the interval with right status
-                # if we are outside intervals, we can be in right or wrong status, so let's check it
-                # else we are inside the interval with right status so let
-
-                if self._is_inside_interval(state, current_start_idx):
-                    if not self._match_status(current_start_status, required_status):
-                        # we are inside the interval with wrong status, so we can't change it, go next
-                        current_start_idx += 1
-                        current_start_time = state[current_start_idx].time
-                        continue
-                else:
-                    # we are outside the interval, should change status
-                    # check that we can do it
-                    current_start_time += self._config.time_costs[current_start_status, required_status]
-                    end_idx = state.bisect_right(current_start_time + exec_time)
+                # the following intervals rely on the current status (or change it by themselves), so the status
+                # can be changed only after all of them, let's go right and search the better begin
+                current_start_idx += 1
+                current_start_time = state[current_start_idx].time
+                continue
 
             # here we are guaranteed that current_start_time is in right status
             # so go right and check matching statuses
@@ -185,17 +171,8 @@ class ZoneTimeline:
             if not not_compatible_status_found:
                 break
 
-            if current_start_idx >= len(state):
-                # This should be uncommented when there are problems with zone scheduling correctness
-
-                # cur_cpkt = state[-1]
-                # if cur_cpkt.time == current_start_time and not self._match_status(cur_cpkt.available_workers_count,
-                #                                                                   required_status):
-                #     # print('Problem!')
-                #     current_start_time = max(parent_time, state[-1].time + 1)
-                current_start_time = max(parent_time, state[-1].time + 1)
-                break
-
+            # the last status is incompatible too, so it should be changed at the very end
+            current_start_idx = min(current_start_idx, len(state) - 1)
             current_start_time = state[current_start_idx].time
 
         # This should be uncommented when there are problems with zone scheduling correctness
@@ -203,20 +180,6 @@ class ZoneTimeline:
 
         return current_start_time
 
-    # noinspection PyMethodMayBeStatic
-    def _is_inside_interval(self, state: SortedList[ScheduleEvent], idx: int) -> bool:
-        # TODO Make better algorithms to check that we can change status in point `start_time - change_cost`
-        starts_count = 0
-        ends_count = 0
-        # checking from end because it's more realistic to call this function at the almost end of timeline
-        for cpkt in state[idx:]:
-            if cpkt.event_type == EventType.START:
-                starts_count += 1
-            else:
-                ends_count += 1
-        # we are inside the interval with incompatible status, break
-        return starts_count == ends_count
-
     def can_schedule_at_the_moment(self, zones: list[ZoneReq], start_time: Time, exec_time: Time):
         for zone in zones:
             state = self._timeline[zone.kind]
@@ -233,7 +196,8 @@ class ZoneTimeline:
                     # we have incompatible status inside our interval, break
                     return False
 
-                if not self._is_inside_interval(state, start_idx):
+                if start_idx != len(state):
+                    # the following intervals rely on the current status, break
                     return False
 
             # checking all events in between the start and the end of our current task
@@ -247,6 +211,10 @@ class ZoneTimeline:
         sworks = []
 
         for zone in zones:
+            if zone.status == 0:
+                # the status is not stated, so the zone is neither changed nor occupied
+                continue
+
             state = self._timeline[zone.name]
             start_idx = state.bisect_right(start_time)
             start_status = state[start_idx - 1].available_workers_count
@@ -258,10 +226,13 @@ class ZoneTimeline:
                 if not self._config.statuses.match_status(start_status, zone.status) \
                 else 0
 
-            state.add(ScheduleEvent(index, EventType.START, start_time - change_cost, None, zone.status))
-            state.add(ScheduleEvent(index, EventType.END, start_time - change_cost + exec_time, None, zone.status))
+            if change_cost > 0:
+                # while the status is being changed, the zone has no status at all
+                state.add(ScheduleEvent(index, EventType.START, start_time - change_cost, None, _CHANGING_STATUS))
+            state.add(ScheduleEvent(index, EventType.START, start_time, None, zone.status))
+            state.add(ScheduleEvent(index, EventType.END, start_time + exec_time, None, zone.status))
 
-            if start_status != zone.status and zone.status != 0:
+            if start_status != zone.status:
                 # if we need to change status, record it
                 sworks.append(ZoneTransition(name=zone.name,
                                              from_status=start_status,
@@ -277,7 +248,7 @@ class ZoneTimeline:
         for zone in zones:
             state = self._timeline[zone.name]
             latest_time = state[-1].time + 1
-            latest_status = state[-1].available_workers_time
+            latest_status = state[-1].available_workers_count
             change_cost = self._config.time_costs[latest_status, zone.status] \
                 if not self._config.statuses.match_status(latest_status, zone.status) \
                 else 0
@@ -291,12 +262,12 @@ class ZoneTimeline:
                 sworks.append(ZoneTransition(name=zone.name,
                                              from_status=latest_status,
                                              to_status=zone.status,
-                                             start_time=latest_time - change_cost,
-                                             end_time=latest_time))
+                                             start_time=latest_time,
+                                             end_time=finish_time))
 
             global_finish_time = max(global_finish_time, finish_time)
 
         return global_finish_time, sworks
 
     def finish_statuses(self) -> tuple[Time, list[ZoneTransition]]:
-        return self.append_statuses([Zone(*v) for v in self._config.end_statuses])
+        return self.append_statuses([Zone(*v) for v in self._config.end_statuses.items()])
-- 
2.43.0


From ba15467700b8484cd7f65ab589c99dffe50c22dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 09/98] fix: just in time timeline must request zones and
 materials no earlier than the predecessors finish

---
 sampo/scheduler/timeline/just_in_time_timeline.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sampo/scheduler/timeline/just_in_time_timeline.py b/sampo/scheduler/timeline/just_in_time_timeline.py
index 60d70a9..84bb334 100644
--- a/sampo/scheduler/timeline/just_in_time_timeline.py
+++ b/sampo/scheduler/timeline/just_in_time_timeline.py
@@ -65,9 +65,8 @@ class JustInTimeTimeline(Timeline):
             return max_zone_time, max_zone_time, None
         # define the max end time of all parent tasks
         max_parent_time = max(node.min_start_time(node2swork), assigned_parent_time)
-        # define the max agents time when all needed workers are off from previous tasks
-        max_agent_time = Time(0)
-        cur_start_time = max_agent_time
+        # the work can't be started (nor zones and materials can be requested) before that moment
+        cur_start_time = max_parent_time
 
         inseparable_chain = node.get_inseparable_chain_with_self()
 
-- 
2.43.0


From 68eaa4ebcd1aa3adb41e26e4a8b4024ce426535e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 10/98] fix: a zone status change must not be accepted before
 the project start or the previous interval

---
 sampo/scheduler/timeline/zone_timeline.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sampo/scheduler/timeline/zone_timeline.py b/sampo/scheduler/timeline/zone_timeline.py
index 87d6333..932124b 100644
--- a/sampo/scheduler/timeline/zone_timeline.py
+++ b/sampo/scheduler/timeline/zone_timeline.py
@@ -191,9 +191,8 @@ class ZoneTimeline:
             if not self._match_status(start_status, zone.required_status):
                 # starting status don't match, trying to change status
                 change_cost = self._config.time_costs[start_status, zone.required_status]
-                new_start_idx = state.bisect_right(start_time - change_cost)
-                if new_start_idx != start_idx:
-                    # we have incompatible status inside our interval, break
+                if start_time - change_cost < state[start_idx - 1].time:
+                    # there is no time to change the status after the previous interval, break
                     return False
 
                 if start_idx != len(state):
-- 
2.43.0


From fde5f3bc113fa113c572aee57e899c40e9118ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 11/98] fix: serial SGS must apply the end zone statuses and
 process zones at the finish of the work

---
 sampo/scheduler/genetic/converter.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/genetic/converter.py b/sampo/scheduler/genetic/converter.py
index 2b43691..e14806a 100644
--- a/sampo/scheduler/genetic/converter.py
+++ b/sampo/scheduler/genetic/converter.py
@@ -295,9 +295,18 @@ def serial_schedule_generation_scheme(chromosome: ChromosomeType,
         if order_index == 0:  # we are scheduling the work `start of the project`
             st = assigned_parent_time  # this work should always have st = 0, so we just re-assign it
 
+        if order_index == len(works_order) - 1:  # we are scheduling the work `end of the project`
+            finish_time, finalizing_zones = timeline.zone_timeline.finish_statuses()
+            st = max(st, finish_time)
+
         # finish using time spec
-        ft = timeline.schedule(node, node2swork, worker_team, contractor, work_spec,
-                               st, work_spec.assigned_time, assigned_parent_time, work_estimator)
+        timeline.schedule(node, node2swork, worker_team, contractor, work_spec,
+                          st, work_spec.assigned_time, assigned_parent_time, work_estimator)
+        ft = node2swork[node.get_inseparable_chain_with_self()[-1]].finish_time
+
+        if order_index == len(works_order) - 1:  # we are scheduling the work `end of the project`
+            node2swork[node].zones_pre = finalizing_zones
+
         # process zones
         zone_reqs = [ZoneReq(index2zone[i], zone_status) for i, zone_status in enumerate(zone_statuses[work_index])]
         zone_start_time = timeline.zone_timeline.find_min_start_time(zone_reqs, ft, 0)
-- 
2.43.0


From f08cf3dee6f4e16e35e5acff9af52cb587678f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:12 +0000
Subject: [PATCH 12/98] fix: genetic order operators must process the last
 priority group too

---
 sampo/scheduler/genetic/operators.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sampo/scheduler/genetic/operators.py b/sampo/scheduler/genetic/operators.py
index 8fd3114..ce1e78c 100644
--- a/sampo/scheduler/genetic/operators.py
+++ b/sampo/scheduler/genetic/operators.py
@@ -496,9 +496,13 @@ def mate_scheduling_order(ind1: Individual, ind2: Individual, rand: random.Rando
     cur_priority_group_start = 0
     for i in range(len(order1)):
         if priorities[order1[i]] != cur_priority:
+            mate_parts(order1[cur_priority_group_start:i], order2[cur_priority_group_start:i])
+
             cur_priority = priorities[order1[i]]
+            cur_priority_group_start = i
 
-            mate_parts(order1[cur_priority_group_start:i], order2[cur_priority_group_start:i])
+    # the last priority group
+    mate_parts(order1[cur_priority_group_start:], order2[cur_priority_group_start:])
 
     return toolbox.Individual(child1), toolbox.Individual(child2)
 
@@ -608,6 +612,10 @@ def mutate_scheduling_order(ind: Individual, mutpb: float, rand: random.Random,
             cur_priority = priorities[order[i]]
             cur_priority_group_start = i
 
+    # the last priority group
+    mutate_scheduling_order_core(order[cur_priority_group_start:], mutpb_for_priority_group,
+                                 rand, parents, children)
+
     return ind
 
 
-- 
2.43.0


From 402acbfb0940f253a9f92594a4ddee40b4a117fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:10 +0000
Subject: [PATCH 13/98] fix: copies of workers and materials must keep their
 cost

---
 sampo/schemas/resources.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sampo/schemas/resources.py b/sampo/schemas/resources.py
index ce96871..7708204 100644
--- a/sampo/schemas/resources.py
+++ b/sampo/schemas/resources.py
@@ -81,7 +81,8 @@ class Worker(Resource):
                       name=self.name,
                       count=self.count,
                       contractor_id=self.contractor_id,
-                      productivity=self.productivity)
+                      productivity=self.productivity,
+                      cost_one_unit=self.cost_one_unit)
 
     def with_count(self, count: int) -> 'Worker':
         """
@@ -155,7 +156,8 @@ class Material(Resource):
     def copy(self) -> 'Material':
         return Material(id=self.id,
                         name=self.name,
-                        count=self.count)
+                        count=self.count,
+                        cost_one_unit=self.cost_one_unit)
 
     def with_count(self, count: int) -> 'Material':
         self.count = count
-- 
2.43.0


From 0cfb266cf2840e32f57e83d7b7897eb470f445dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:10 +0000
Subject: [PATCH 14/98] fix: resources_sum must select workers by name

---
 sampo/utilities/resource_usage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/utilities/resource_usage.py b/sampo/utilities/resource_usage.py
index faab513..05c13e4 100644
--- a/sampo/utilities/resource_usage.py
+++ b/sampo/utilities/resource_usage.py
@@ -47,7 +47,7 @@ def resources_sum(schedule: Schedule, resources_names: Iterable[str] | None = No
     resources_names = set(resources_names) if not is_none else {}
 
     res_sum = sum([sum([worker.count * work.duration.value for worker in work.workers
-                        if worker.model_name in resources_names or is_none], start=0)
+                        if worker.name in resources_names or is_none], start=0)
                    for work in schedule.works])
 
     return res_sum
-- 
2.43.0


From a037437534ceded98497b45e6a7356e7ea1f267f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:10 +0000
Subject: [PATCH 15/98] fix: schedule must be convertible to a chromosome
 without an explicit order

---
 sampo/scheduler/genetic/converter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/genetic/converter.py b/sampo/scheduler/genetic/converter.py
index e14806a..1388eea 100644
--- a/sampo/scheduler/genetic/converter.py
+++ b/sampo/scheduler/genetic/converter.py
@@ -45,8 +45,8 @@ def convert_schedule_to_chromosome(work_id2index: dict[str, int],
     :return:
     """
 
-    # order: list[GraphNode] = order if order is not None else [work for work in schedule.works
-    #                                                           if work.id in work_id2index]
+    if order is None:
+        order = [work for work in schedule.works if work.id in work_id2index]
 
     # order works part of chromosome
     order_chromosome: np.ndarray = np.array([work_id2index[work.id] for work in order])
-- 
2.43.0


From 08dab919a61e23ac6097ac245deba41140f94910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:28 +0000
Subject: [PATCH 16/98] fix: average binary search must keep the schedule spec
 and survive refused probes

---
 .../resources_in_time/average_binary_search.py   | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/sampo/scheduler/resources_in_time/average_binary_search.py b/sampo/scheduler/resources_in_time/average_binary_search.py
index eb0df9f..b72ed8a 100644
--- a/sampo/scheduler/resources_in_time/average_binary_search.py
+++ b/sampo/scheduler/resources_in_time/average_binary_search.py
@@ -34,22 +34,20 @@ class AverageBinarySearchResourceOptimizingScheduler:
         def call_scheduler(k: float, inner_spec: ScheduleSpec) \
                 -> tuple[tuple[Schedule, Time, Timeline, list[GraphNode]], ScheduleSpec]:
             self._resource_optimizer.k = k
-            try:
-                return self._base_scheduler.schedule_with_cache(wg, contractors, inner_spec, validate,
-                                                                assigned_parent_time,
-                                                                landscape=landscape)[0], inner_spec
-            except NoSufficientContractorError:
-                return (None, Time.inf(), None, None), inner_spec
+            return self._base_scheduler.schedule_with_cache(wg, contractors, inner_spec, validate,
+                                                            assigned_parent_time,
+                                                            landscape=landscape)[0], inner_spec
 
         def fitness(k: float, inner_spec: ScheduleSpec):
-            result = call_scheduler(k, inner_spec)[0][0].execution_time
+            try:
+                result = call_scheduler(k, inner_spec)[0][0].execution_time
+            except NoSufficientContractorError:
+                result = Time.inf()
             # if result > deadline:
             #     result = Time.inf()
             return result
 
         copied_spec = deepcopy(spec)
-        # FIXME Investigate why `spec` given to this method can be saved from previous call and remove this
-        copied_spec._work2spec.clear()
 
         k_min = 1
         k_max = 10000
-- 
2.43.0


From 7e488470708d8d2cbb698e3add76e1e6a351a295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:41 +0000
Subject: [PATCH 17/98] fix: hybrid initial population must keep the node order
 and the start time of the heuristics

---
 sampo/hybrid/population.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sampo/hybrid/population.py b/sampo/hybrid/population.py
index 0c635da..6a2401a 100644
--- a/sampo/hybrid/population.py
+++ b/sampo/hybrid/population.py
@@ -49,6 +49,8 @@ class HeuristicPopulationScheduler(PopulationScheduler):
         toolbox = create_toolbox(wg=wg, contractors=contractors,
                                  spec=spec, assigned_parent_time=assigned_parent_time,
                                  landscape=landscape)
-        return [toolbox.Individual(toolbox.schedule_to_chromosome(schedule=schedule))
+        return [toolbox.Individual(toolbox.schedule_to_chromosome(schedule=schedule, order=node_order))
                 for scheduler in self._schedulers
-                for schedule in scheduler.schedule(wg, contractors, spec, landscape=landscape)]
+                for schedule, _, _, node_order in scheduler.schedule_with_cache(wg, contractors, spec,
+                                                                                assigned_parent_time=assigned_parent_time,
+                                                                                landscape=landscape)]
-- 
2.43.0


From b45141674f1924e5134772316dde0e7c00006ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:08 +0000
Subject: [PATCH 18/98] fix: chromosomes whose contractor can not supply the
 specified team must be rejected

---
 sampo/scheduler/genetic/operators.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/sampo/scheduler/genetic/operators.py b/sampo/scheduler/genetic/operators.py
index ce1e78c..05cadf1 100644
--- a/sampo/scheduler/genetic/operators.py
+++ b/sampo/scheduler/genetic/operators.py
@@ -221,7 +221,8 @@ def init_toolbox(wg: WorkGraph,
                      statuses_available=landscape.zone_config.statuses.statuses_available())
 
     toolbox.register('validate', is_chromosome_correct, node_indices=node_indices, parents=parents,
-                     contractor_borders=contractor_borders, index2node=index2node, index2contractor=index2contractor_obj)
+                     contractor_borders=contractor_borders, index2node=index2node, index2contractor=index2contractor_obj,
+                     worker_name2index=worker_name2index)
     toolbox.register('schedule_to_chromosome', convert_schedule_to_chromosome,
                      work_id2index=work_id2index, worker_name2index=worker_name2index,
                      contractor2index=contractor2index, contractor_borders=contractor_borders, spec=spec,
@@ -390,12 +391,13 @@ def select_new_population(population: list[Individual], k: int) -> list[Individu
 
 def is_chromosome_correct(ind: Individual, node_indices: list[int], parents: dict[int, set[int]],
                           contractor_borders: np.ndarray, index2node: dict[int, GraphNode],
-                          index2contractor: dict[int, Contractor]) -> bool:
+                          index2contractor: dict[int, Contractor], worker_name2index: dict[str, int]) -> bool:
     """
     Check correctness of works order and contractors borders.
     """
     return is_chromosome_order_correct(ind, parents, index2node) and \
-        is_chromosome_contractors_correct(ind, node_indices, contractor_borders, index2node, index2contractor)
+        is_chromosome_contractors_correct(ind, node_indices, contractor_borders, index2node, index2contractor,
+                                          worker_name2index)
 
 
 def is_chromosome_order_correct(ind: Individual, parents: dict[int, set[int]], index2node: dict[int, GraphNode]) -> bool:
@@ -421,7 +423,8 @@ def is_chromosome_order_correct(ind: Individual, parents: dict[int, set[int]], i
 def is_chromosome_contractors_correct(ind: Individual, work_indices: Iterable[int],
                                       contractor_borders: np.ndarray,
                                       index2node: dict[int, GraphNode],
-                                      index2contractor: dict[int, Contractor]) -> bool:
+                                      index2contractor: dict[int, Contractor],
+                                      worker_name2index: dict[str, int]) -> bool:
     """
     Checks that assigned contractors can supply assigned workers.
     """
@@ -436,9 +439,14 @@ def is_chromosome_contractors_correct(ind: Individual, work_indices: Iterable[in
     contractors = resources[:, -1]
     for i in range(len(order)):
         work_index = order[i]
-        work_spec = spec[index2node[work_index].id]
+        work_unit = index2node[work_index].work_unit
+        work_spec = spec[work_unit.id]
         if not work_spec.is_contractor_enabled(index2contractor[contractors[work_index]].id):
             return False
+        # the team from the spec replaces the one from the chromosome, so contractor should be able to supply it
+        for req in work_unit.worker_reqs:
+            if req.kind in work_spec.assigned_workers:
+                resources[work_index, worker_name2index[req.kind]] = work_spec.assigned_workers[req.kind]
 
     # sort resource part of chromosome by contractor ids
     resources = resources[resources[:, -1].argsort()]
-- 
2.43.0


From 86ec62fa64c2554f38189a5b5ecfb9cf2e98d8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:54 +0000
Subject: [PATCH 19/98] fix: materials must not be taken from a platform before
 the already planned consumption

---
 sampo/scheduler/timeline/platform_timeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/scheduler/timeline/platform_timeline.py b/sampo/scheduler/timeline/platform_timeline.py
index 8a94fa8..29a5582 100644
--- a/sampo/scheduler/timeline/platform_timeline.py
+++ b/sampo/scheduler/timeline/platform_timeline.py
@@ -62,7 +62,7 @@ class PlatformTimeline:
             start = platform_state[mat.name].bisect_right(start_time)
             finish = len(platform_state[mat.name])
 
-            if finish - start > 1:
+            if finish - start > 0:
                 return False
 
         return True
-- 
2.43.0


From 844f349cf83982cc6763695df4b5a66ca5e95985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:54 +0000
Subject: [PATCH 20/98] fix: a delivery must not hide the consumption of the
 other materials of the work

---
 sampo/scheduler/timeline/hybrid_supply_timeline.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sampo/scheduler/timeline/hybrid_supply_timeline.py b/sampo/scheduler/timeline/hybrid_supply_timeline.py
index 60be8b5..2fa4f16 100644
--- a/sampo/scheduler/timeline/hybrid_supply_timeline.py
+++ b/sampo/scheduler/timeline/hybrid_supply_timeline.py
@@ -296,7 +296,10 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
 
         # update the platform timeline
         node_mat_req = {mat.name: mat.count for mat in node.work_unit.need_materials()}
-        update_mat_req_info = [(mat.name, node_mat_req[mat.name] - mat.count, finish_delivery_time) for mat in materials]
+        delivered = {mat.name: mat.count for mat in materials}
+        # materials that are already on the platform should be consumed too
+        update_mat_req_info = [(name, count - delivered.get(name, 0), finish_delivery_time)
+                               for name, count in node_mat_req.items()]
         self._platform_timeline.update_timeline(platform.id, update_mat_req_info)
 
         # update the supply timeline
-- 
2.43.0


From eb064461e7891530cdcdd7929c44d7d03aff2db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:27 +0000
Subject: [PATCH 21/98] fix: vehicles of a depot must be reserved for the whole
 trip

---
 .../timeline/hybrid_supply_timeline.py        | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/sampo/scheduler/timeline/hybrid_supply_timeline.py b/sampo/scheduler/timeline/hybrid_supply_timeline.py
index 2fa4f16..0cfcbab 100644
--- a/sampo/scheduler/timeline/hybrid_supply_timeline.py
+++ b/sampo/scheduler/timeline/hybrid_supply_timeline.py
@@ -219,18 +219,23 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
                 vehicle_count_need = self._get_necessary_vehicles_amount(depot, materials)
                 selected_vehicles = depot.vehicles[:vehicle_count_need]
 
-                # get information about route: start time, deliveries,
-                # time of vehicles routing to platform and back separately
-                route_start_time, deliveries, exec_ahead_time, exec_return_time = \
-                    self._get_route_with_additional(depot.node, platform, selected_vehicles, depot_mat_start_time)
-
-                # get the minimum start time that all required vehicles are available
-                depot_vehicle_start_time = self._find_earliest_start_time(self._timeline[depot.id]['vehicles'],
-                                                                          vehicle_count_need,
-                                                                          route_start_time,
-                                                                          exec_return_time + exec_ahead_time)
-
-                yield depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, deliveries
+                while True:
+                    # get information about route: start time, deliveries,
+                    # time of vehicles routing to platform and back separately
+                    route_start_time, deliveries, exec_ahead_time, exec_return_time = \
+                        self._get_route_with_additional(depot.node, platform, selected_vehicles, depot_mat_start_time)
+
+                    # get the minimum start time that all required vehicles are available
+                    depot_vehicle_start_time = self._find_earliest_start_time(self._timeline[depot.id]['vehicles'],
+                                                                              vehicle_count_need,
+                                                                              route_start_time,
+                                                                              exec_return_time + exec_ahead_time)
+                    if depot_vehicle_start_time == route_start_time:
+                        break
+                    # vehicles go later, so the route should be found for that time
+                    depot_mat_start_time = depot_vehicle_start_time
+
+                yield depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, selected_vehicles, deliveries
 
         delivery = MaterialDelivery(node.id)
 
@@ -264,7 +269,8 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
             start_delivery_time += 1
 
             # iterate over depots and find the earliest time when the depot could supply resources
-            for depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, deliveries in get_finish_time(start_delivery_time):
+            for depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, vehicles, deliveries \
+                    in get_finish_time(start_delivery_time):
                 # choose the current depot if only it could supply resources earlier than the previous one
                 if finish_delivery_time > deadline and depot_vehicle_start_time + exec_ahead_time < finish_delivery_time \
                         or finish_delivery_time < deadline:
@@ -272,6 +278,7 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
                     min_depot_time = depot_vehicle_start_time
                     finish_delivery_time = depot_vehicle_start_time + exec_ahead_time
                     selected_depot = depot
+                    selected_vehicles = vehicles
 
                     road_deliveries = deliveries
 
-- 
2.43.0


From bd8c2dbddb15a0ec6d64dcf00de0bef354b35c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 22/98] fix: topological and randomised LFT orders must not
 depend on string hashing

---
 sampo/scheduler/lft/prioritization.py | 2 +-
 sampo/scheduler/topological/base.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sampo/scheduler/lft/prioritization.py b/sampo/scheduler/lft/prioritization.py
index c36d256..5a6e9a8 100644
--- a/sampo/scheduler/lft/prioritization.py
+++ b/sampo/scheduler/lft/prioritization.py
@@ -86,7 +86,7 @@ def lft_randomized_prioritization_core(head_nodes: list[GraphNode],
     candidates = {head_nodes[0].id}
 
     while candidates:
-        eligibles = [node_id for node_id in candidates if is_eligible(node_id)]
+        eligibles = [node_id for node_id in sorted(candidates) if is_eligible(node_id)]
         min_group_priority = min(node_id2group_priority[node_id] for node_id in eligibles)
         eligibles = [node_id for node_id in eligibles if node_id2group_priority[node_id] == min_group_priority]
 
diff --git a/sampo/scheduler/topological/base.py b/sampo/scheduler/topological/base.py
index da31daa..f2fd8bc 100644
--- a/sampo/scheduler/topological/base.py
+++ b/sampo/scheduler/topological/base.py
@@ -36,7 +36,7 @@ class TopologicalScheduler(GenericScheduler):
         :param nodes: list of nodes
         :return: list of shuffled indices
         """
-        return list(nodes)
+        return sorted(nodes)
 
     # noinspection PyMethodMayBeStatic
     def _topological_sort(self,
@@ -132,7 +132,7 @@ class RandomizedTopologicalScheduler(TopologicalScheduler):
         :param nodes: list of nodes
         :return: list of shuffled indices
         """
-        nds = list(nodes)
+        nds = sorted(nodes)
         indices = np.arange(len(nds))
         self._random_state.shuffle(indices)
         return [nds[ind] for ind in indices]
-- 
2.43.0


From c4dca08ad5df3337c186d924851dfbb5986f6c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:22 +0000
Subject: [PATCH 23/98] fix: validation must see lags and missing required
 workers

---
 sampo/utilities/validation.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/sampo/utilities/validation.py b/sampo/utilities/validation.py
index 9eba876..5b6a4a3 100644
--- a/sampo/utilities/validation.py
+++ b/sampo/utilities/validation.py
@@ -2,7 +2,7 @@ from copy import deepcopy
 from operator import attrgetter, itemgetter
 
 from sampo.schemas.contractor import Contractor
-from sampo.schemas.graph import WorkGraph
+from sampo.schemas.graph import EdgeType, WorkGraph
 from sampo.schemas.schedule import ScheduledWork, Schedule
 from sampo.schemas.schedule_spec import ScheduleSpec
 from sampo.schemas.time import Time
@@ -53,9 +53,11 @@ def _check_parent_dependencies(schedule: Schedule, wg: WorkGraph) -> None:
 
     for node in wg.nodes:
         start, end = scheduled_works[node.work_unit.id].start_end_time
-        for pnode in node.parents:
-            pstart, pend = scheduled_works[pnode.work_unit.id].start_end_time
-            assert pstart <= pend <= start <= end
+        for edge in node.edges_to:
+            if not EdgeType.is_dependency(edge.type):
+                continue
+            pstart, pend = scheduled_works[edge.start.id].start_end_time
+            assert pstart <= pend and pend + int(edge.lag) <= start <= end
 
 
 def _check_all_tasks_corresponds_to_spec(schedule: Schedule, wg: WorkGraph, spec: ScheduleSpec) -> None:
@@ -174,6 +176,9 @@ def check_all_allocated_workers_do_not_exceed_capacity_of_contractors(schedule:
 def _check_all_workers_correspond_to_worker_reqs(wg: WorkGraph, schedule: Schedule):
     for swork in schedule.works:
         worker2req = build_index(wg[swork.id].work_unit.worker_reqs, attrgetter('kind'))
+        worker_names = {worker.name for worker in swork.workers}
+        assert all(kind in worker_names for kind, req in worker2req.items() if req.min_count > 0), \
+            f'Work {swork.id} lacks required workers'
         for worker in swork.workers:
             req = worker2req[worker.name]
             assert req.min_count <= worker.count <= req.max_count
-- 
2.43.0


From 2c353a9115e1c644ac22fe757e7e36b943ab667e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 24/98] fix: restored work units must keep their description
 and name

---
 sampo/schemas/works.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sampo/schemas/works.py b/sampo/schemas/works.py
index 8af0bf0..c371c36 100644
--- a/sampo/schemas/works.py
+++ b/sampo/schemas/works.py
@@ -150,6 +150,8 @@ class WorkUnit(AutoJSONSerializable['WorkUnit'], Identifiable):
         self.material_reqs = new_work_unit.material_reqs
         self.zone_reqs = new_work_unit.zone_reqs
         self.id = new_work_unit.id
+        self.name = new_work_unit.name
+        self.description = new_work_unit.description
         self.model_name = new_work_unit.model_name
         self.is_service_unit = new_work_unit.is_service_unit
         self.volume = new_work_unit.volume
-- 
2.43.0


From 45c256668b5527afc7c68cfb0f2d01b2bd0f670d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:16 +0000
Subject: [PATCH 25/98] fix: restructuring must not rename the works of the
 original graph

---
 sampo/structurator/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/structurator/base.py b/sampo/structurator/base.py
index 444cc66..4c457d6 100644
--- a/sampo/structurator/base.py
+++ b/sampo/structurator/base.py
@@ -184,7 +184,8 @@ def split_node_into_stages(origin_node: GraphNode, restructuring_edges: list[tup
         # update id attribute with current stage node id
         wu_attrs['id'] = stage_node_id
         # update name attribute with current index of stage
-        wu_attrs['model_name']['granular_name'] = f'{wu.model_name["granular_name"]}{STAGE_SEP}{stage_i}'
+        wu_attrs['model_name'] = dict(wu.model_name,
+                                      granular_name=f'{wu.model_name["granular_name"]}{STAGE_SEP}{stage_i}')
         # update volume attribute with passed proportion
         wu_attrs['volume'] = wu.volume * volume_proportion
         # remove because it's unused field from Identifiable
-- 
2.43.0


From b058a83a8d76e077dc9fa724a07d2396f71a7ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 26/98] fix: deleting a work must delete its whole chain and no
 other edge

---
 sampo/structurator/delete_graph_node.py | 29 ++++++++++---------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/sampo/structurator/delete_graph_node.py b/sampo/structurator/delete_graph_node.py
index a13d85a..ef36f6b 100644
--- a/sampo/structurator/delete_graph_node.py
+++ b/sampo/structurator/delete_graph_node.py
@@ -16,16 +16,11 @@ def delete_graph_node(original_wg: WorkGraph, remove_gn_id: str, change_id: bool
 
     copied_remove_gn = copied_nodes[old_to_new_ids[remove_gn_id]]
 
-    inseparable_chain = copied_remove_gn.get_inseparable_chain()
-    if inseparable_chain is not None:
-        copied_remove_gn = inseparable_chain[len(inseparable_chain) - 1]
-        parent_to_delete = copied_remove_gn.inseparable_parent
-        while parent_to_delete is not None:
-            copied_remove_gn = parent_to_delete
-            parent_to_delete = copied_remove_gn.inseparable_parent
-            _node_deletion(copied_remove_gn, copied_nodes)
-    else:
-        _node_deletion(copied_remove_gn, copied_nodes)
+    # the given node can be any node of the chain
+    while copied_remove_gn.inseparable_parent is not None:
+        copied_remove_gn = copied_remove_gn.inseparable_parent
+    for node in reversed(copied_remove_gn.get_inseparable_chain_with_self()):
+        _node_deletion(node, copied_nodes)
 
     start, finish = new_start_finish(original_wg, copied_nodes, old_to_new_ids)
 
@@ -36,15 +31,13 @@ def _node_deletion(remove_gn: GraphNode, nodes: dict[str, GraphNode]):
     parents = remove_gn.parents
     children = remove_gn.children
 
-    for parent in parents:
-        for edge in parent.edges_from:
-            if edge.finish.id == remove_gn.id:
-                parent.edges_from.remove(edge)
+    for edge in remove_gn.edges_to:
+        edge.start.edges_from.remove(edge)
+        edge.start.invalidate_children_cache()
 
-    for child in children:
-        for edge in child.edges_to:
-            if edge.start.id == remove_gn.id:
-                child.edges_to.remove(edge)
+    for edge in remove_gn.edges_from:
+        edge.finish.edges_to.remove(edge)
+        edge.finish.invalidate_parents_cache()
 
     nodes.pop(remove_gn.id)
 
-- 
2.43.0


From 9c76ef1acc02e744fe70f3b199f61e598fe8a9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 27/98] fix: plain edges of an inserted work must have no lag

---
 sampo/structurator/insert_wu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/structurator/insert_wu.py b/sampo/structurator/insert_wu.py
index e904a3d..3b837d5 100644
--- a/sampo/structurator/insert_wu.py
+++ b/sampo/structurator/insert_wu.py
@@ -43,7 +43,7 @@ def _new_edges(copied_nodes: dict[str, GraphNode], original_old_to_new_ids: dict
 def _reduce_to_tuple_type(edges: list[GraphNode] or list[tuple[GraphNode, float, EdgeType]]) \
         -> list[tuple[GraphNode, float, EdgeType]]:
     if isinstance(edges[0], GraphNode):
-        return [(edge, -1, EdgeType.FinishStart) for edge in edges]
+        return [(edge, 0, EdgeType.FinishStart) for edge in edges]
     else:
         return edges
 
-- 
2.43.0


From 2e071fd56648867c487c0f445988cc37a020f917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 28/98] fix: copies of works must keep all attributes and share
 none

---
 sampo/structurator/prepare_wg_copy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sampo/structurator/prepare_wg_copy.py b/sampo/structurator/prepare_wg_copy.py
index 66706cf..c272cef 100644
--- a/sampo/structurator/prepare_wg_copy.py
+++ b/sampo/structurator/prepare_wg_copy.py
@@ -21,13 +21,16 @@ def copy_graph_node(node: GraphNode, new_id: int | str | None = None,
         new_id = node.work_unit.id
     wu = node.work_unit
     new_wu = WorkUnit(id=new_id,
-                      model_name=wu.model_name,
+                      model_name=deepcopy(wu.model_name),
                       worker_reqs=deepcopy(wu.worker_reqs),
                       material_reqs=deepcopy(wu.material_reqs),
                       equipment_reqs=deepcopy(wu.equipment_reqs),
                       object_reqs=deepcopy(wu.object_reqs),
                       zone_reqs=deepcopy(wu.zone_reqs),
+                      description=wu.description,
                       group=wu.group,
+                      priority=wu.priority,
+                      display_name=wu.display_name,
                       is_service_unit=wu.is_service_unit, volume=wu.volume)
     return GraphNode(new_wu, []), (wu.id, new_id)
 
-- 
2.43.0


From 5a930bdbc9b5b5df6e518214bcbbc78e3b76830e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 29/98] fix: inserting a graph must respect the request to keep
 ids

---
 sampo/structurator/graph_insertion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/structurator/graph_insertion.py b/sampo/structurator/graph_insertion.py
index cc05c6b..d7378fe 100644
--- a/sampo/structurator/graph_insertion.py
+++ b/sampo/structurator/graph_insertion.py
@@ -16,7 +16,8 @@ def graph_in_graph_insertion(master_wg: WorkGraph, master_start: GraphNode, mast
     :return: new union WorkGraph
     """
     master_nodes, master_old_to_new_ids = prepare_work_graph_copy(master_wg, change_id=change_id)
-    slave_nodes, slave_old_to_new = prepare_work_graph_copy(slave_wg, [slave_wg.start, slave_wg.finish], change_id)
+    slave_nodes, slave_old_to_new = prepare_work_graph_copy(slave_wg, [slave_wg.start, slave_wg.finish],
+                                                            change_id=change_id)
 
     # add parent links from slave_wg's nodes to master_start node from slave_wg's nodes
     master_start = master_nodes[master_old_to_new_ids[master_start.id]]
-- 
2.43.0


From a4e66b9f081aae9b64d8da99b3c954459cb24b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 30/98] fix: works with equipment or object requirements must
 be serializable

---
 sampo/schemas/works.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/sampo/schemas/works.py b/sampo/schemas/works.py
index c371c36..091bbe2 100644
--- a/sampo/schemas/works.py
+++ b/sampo/schemas/works.py
@@ -84,6 +84,8 @@ class WorkUnit(AutoJSONSerializable['WorkUnit'], Identifiable):
     @custom_serializer('worker_reqs')
     @custom_serializer('zone_reqs')
     @custom_serializer('material_reqs')
+    @custom_serializer('equipment_reqs')
+    @custom_serializer('object_reqs')
     def serialize_serializable_list(self, value) -> list:
         """
         Return serialized list of values.
@@ -116,6 +118,28 @@ class WorkUnit(AutoJSONSerializable['WorkUnit'], Identifiable):
         """
         return [WorkerReq._deserialize(wr) for wr in value]
 
+    @classmethod
+    @custom_serializer('equipment_reqs', deserializer=True)
+    def equipment_reqs_deserializer(cls, value) -> list[EquipmentReq]:
+        """
+        Get list of equipment requirements
+
+        :param value: serialized list of equipment requirements
+        :return: list of equipment requirements
+        """
+        return [EquipmentReq._deserialize(er) for er in value]
+
+    @classmethod
+    @custom_serializer('object_reqs', deserializer=True)
+    def object_reqs_deserializer(cls, value) -> list[ConstructionObjectReq]:
+        """
+        Get list of construction object requirements
+
+        :param value: serialized list of construction object requirements
+        :return: list of construction object requirements
+        """
+        return [ConstructionObjectReq._deserialize(cr) for cr in value]
+
     @classmethod
     @custom_serializer('zone_reqs', deserializer=True)
     def zone_reqs_deserializer(cls, value) -> list[ZoneReq]:
-- 
2.43.0


From fd77aa037e9e9f712c3c7b61caed9c02faad064c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 31/98] fix: loading must not change the given representation

---
 sampo/schemas/graph.py        | 1 +
 sampo/schemas/schedule.py     | 3 ++-
 sampo/schemas/serializable.py | 7 ++-----
 3 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index 64b9b5d..5c43f3f 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -94,6 +94,7 @@ class GraphNode(JSONSerializable['GraphNode']):
 
     @classmethod
     def _deserialize(cls, representation: T) -> dict:
+        representation = dict(representation)
         representation['work_unit'] = WorkUnit._deserialize(representation['work_unit'])
         representation['parent_edges'] = [(e[0], e[1], EdgeType(e[2])) for e in representation['parent_edges']]
         # representation['child_edges'] = [(e[0], e[1], EdgeType(e[2])) for e in representation['child_edges']]
diff --git a/sampo/schemas/schedule.py b/sampo/schemas/schedule.py
index de53fbf..a72eb25 100644
--- a/sampo/schemas/schedule.py
+++ b/sampo/schemas/schedule.py
@@ -101,7 +101,8 @@ class Schedule(JSONSerializable['Schedule']):
     @classmethod
     def _deserialize(cls, dict_representation: T) -> 'Schedule':
         # Method described in base class
-        dict_representation['works'] = [ScheduledWork._deserialize(sw) for sw in dict_representation['works']]
+        dict_representation = dict(dict_representation,
+                                   works=[ScheduledWork._deserialize(sw) for sw in dict_representation['works']])
         return Schedule.from_scheduled_works(**dict_representation)
 
     @lru_cache
diff --git a/sampo/schemas/serializable.py b/sampo/schemas/serializable.py
index d158127..31e0ccd 100644
--- a/sampo/schemas/serializable.py
+++ b/sampo/schemas/serializable.py
@@ -403,10 +403,7 @@ class AutoJSONSerializable(JSONSerializable[AJS], ABC):
                                                                                           CUSTOM_TYPE_DESERIALIZER)]
                                                for attr in [getattr(cls, name) for name in dir(cls)]
                                                if hasattr(attr, CUSTOM_TYPE_DESERIALIZER)]))
-        type_hints = {}
-        if TYPE_HINTS in dict_representation:
-            type_hints = dict_representation[TYPE_HINTS]
-            del dict_representation[TYPE_HINTS]
+        type_hints = dict_representation.get(TYPE_HINTS, {})
 
         def deserialize_field(name, value):
             """
@@ -430,7 +427,7 @@ class AutoJSONSerializable(JSONSerializable[AJS], ABC):
         fields = dict({f: None for f in cls.ignored_fields},
                       **{k: deserialize_field(k, v)
                          for k, v in dict_representation.items()
-                         if k not in cls.ignored_fields})
+                         if k not in cls.ignored_fields and k != TYPE_HINTS})
 
         self = cls.__new__(cls)
         try:
-- 
2.43.0


From fe263bd2b61978c4f9e543e77c17d5d1162b78d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:37 +0000
Subject: [PATCH 32/98] fix: pickled and deeply copied work graphs must keep
 their edges

---
 sampo/schemas/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index 5c43f3f..e4c11bc 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -436,6 +436,8 @@ class WorkGraph(JSONSerializable['WorkGraph']):
         deserialized = self._deserialize(state)
         object.__setattr__(self, 'start', deserialized.start)
         object.__setattr__(self, 'finish', deserialized.finish)
+        # the nodes belong to this graph now, so the temporary one must not unlink them when it is deleted
+        deserialized.nodes = []
         self.__post_init__()
 
     def __del__(self):
-- 
2.43.0


From bbc23ac0aa971df2ae2a3e333223a6abe36fce89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 33/98] fix: a work graph must be convertible to a data frame

---
 sampo/schemas/graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index e4c11bc..2b3e115 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -383,9 +383,9 @@ class WorkGraph(JSONSerializable['WorkGraph']):
                 # Get information about tasks from graph nodes (work units)
                 graph_df_structure['activity_id'].append(node_info_dict['work_unit']['id'])
                 graph_df_structure['activity_name'].append(node_info_dict['work_unit']['display_name'])
-                graph_df_structure['granular_name'].append(node_info_dict['work_unit']['name'])
+                graph_df_structure['granular_name'].append(node_info_dict['work_unit']['model_name']['granular_name'])
                 graph_df_structure['volume'].append(node_info_dict['work_unit']['volume'])
-                graph_df_structure['measurement'].append(node_info_dict['work_unit']['volume_type'])
+                graph_df_structure['measurement'].append(node_info_dict['work_unit']['model_name']['measurement'])
                 graph_df_structure['priority'].append(node_info_dict['work_unit']['priority'])
 
                 if save_req:
-- 
2.43.0


From 5965acd6fe195f9cbbd5c76df7334d36be055869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 34/98] fix: neighbours of a work must follow later added edges

---
 sampo/schemas/graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index 2b3e115..171632f 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -128,6 +128,7 @@ class GraphNode(JSONSerializable['GraphNode']):
     def invalidate_parents_cache(self):
         self.__dict__.pop('parents', None)
         self.__dict__.pop('parents_set', None)
+        self.__dict__.pop('neighbors', None)
         self.__dict__.pop('inseparable_parent', None)
         self.__dict__.pop('inseparable_son', None)
 
-- 
2.43.0


From 70f6b3ce82711ce8bce4d20aa9afdb6414445d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:23 +0000
Subject: [PATCH 35/98] fix: links of imported works without types or lags must
 be plain ones

---
 sampo/userinput/parser/general_build.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sampo/userinput/parser/general_build.py b/sampo/userinput/parser/general_build.py
index 23fb7bc..bdf6c4d 100644
--- a/sampo/userinput/parser/general_build.py
+++ b/sampo/userinput/parser/general_build.py
@@ -187,11 +187,13 @@ def preprocess_graph_df(frame: pd.DataFrame,
 
     frame['predecessor_ids'] = fix_df_column_with_arrays(frame['predecessor_ids'], cast=normalize_if_number)
     frame['connection_types'] = fix_df_column_with_arrays(frame['connection_types'],
-                                                          cast=EdgeType,
+                                                          cast=lambda s: EdgeType(s.strip()),
                                                           none_elem=EdgeType.FinishStart)
-    if 'lags' not in frame.columns:
-        frame['lags'] = [NONE_ELEM] * len(frame)
-    frame['lags'] = fix_df_column_with_arrays(frame['lags'], float)
+    frame['lags'] = fix_df_column_with_arrays(frame['lags'], float, none_elem=0.0)
+    # empty cells mean plain links with all predecessors
+    for preds, types, lags in zip(frame['predecessor_ids'], frame['connection_types'], frame['lags']):
+        types.extend([EdgeType.FinishStart] * (len(preds) - len(types)))
+        lags.extend([0.0] * (len(preds) - len(lags)))
     for col in ['predecessor_ids', 'connection_types', 'lags', 'counts']:
         frame[col] = frame[col].astype(object)
 
-- 
2.43.0


From c87f17d21ce23d6a032e470e20b3c31fb1f82cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:23 +0000
Subject: [PATCH 36/98] fix: predecessors of imported works must be found by
 ids that look like fractions

---
 sampo/userinput/parser/general_build.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sampo/userinput/parser/general_build.py b/sampo/userinput/parser/general_build.py
index bdf6c4d..7a21853 100644
--- a/sampo/userinput/parser/general_build.py
+++ b/sampo/userinput/parser/general_build.py
@@ -156,11 +156,6 @@ def fix_df_column_with_arrays(column: pd.Series, cast: Callable[[str], Any] | No
 
 def preprocess_graph_df(frame: pd.DataFrame,
                         name_mapper: NameMapper | None = None) -> pd.DataFrame:
-    def normalize_if_number(s):
-        return str(int(float(s))) \
-            if s.replace('.', '', 1).isdigit() \
-            else s
-
     temp_lst = [math.nan] * frame.shape[0]
 
     for col in ['predecessor_ids', 'connection_types', 'lags', 'counts']:
@@ -179,6 +174,15 @@ def preprocess_graph_df(frame: pd.DataFrame,
     frame['model_name'] = frame[['activity_name', 'model_name']].apply(map_activity, axis=1)
 
     frame['activity_id'] = frame['activity_id'].astype(str)
+    existed_ids = set(frame['activity_id'])
+
+    def normalize_if_number(s):
+        s = s.strip()
+        # ids such as '1.2' or '01' have to be kept as is
+        return str(int(float(s))) \
+            if s not in existed_ids and s.replace('.', '', 1).isdigit() \
+            else s
+
     frame['volume'] = [float(x.replace(',', '.')) if isinstance(x, str) else float(x) for x in frame['volume']]
 
     if 'min_req' in frame.columns and 'max_req' in frame.columns:
-- 
2.43.0


From 4e4ca8371b34166b93c296df6a011e72d94c6677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:23 +0000
Subject: [PATCH 37/98] fix: works must be importable without a model name

---
 sampo/userinput/parser/general_build.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sampo/userinput/parser/general_build.py b/sampo/userinput/parser/general_build.py
index 7a21853..3441f26 100644
--- a/sampo/userinput/parser/general_build.py
+++ b/sampo/userinput/parser/general_build.py
@@ -162,16 +162,20 @@ def preprocess_graph_df(frame: pd.DataFrame,
         if col not in frame.columns:
             frame[col] = temp_lst
 
+    if 'granular_name' not in frame.columns:
+        frame['granular_name'] = [name_mapper[name] if name_mapper else name for name in frame['activity_name']]
+
     if 'model_name' not in frame.columns:
-        frame['model_name'] = ''
+        columns = [col for col in ['granular_name', 'measurement'] if col in frame.columns]
+        frame['model_name'] = [str(dict(zip(columns, values))) for values in frame[columns].to_numpy().tolist()]
 
     def map_activity(row):
         model_name_dict = eval(row['model_name'])
         if 'granular_name' not in model_name_dict:
-            model_name_dict['granular_name'] = name_mapper[row['activity_name']]
+            model_name_dict['granular_name'] = row['granular_name']
         return str(model_name_dict)
 
-    frame['model_name'] = frame[['activity_name', 'model_name']].apply(map_activity, axis=1)
+    frame['model_name'] = frame[['granular_name', 'model_name']].apply(map_activity, axis=1)
 
     frame['activity_id'] = frame['activity_id'].astype(str)
     existed_ids = set(frame['activity_id'])
-- 
2.43.0


From bfc891f94b3cd981ac3bdc0a5714219ea1213931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:23 +0000
Subject: [PATCH 38/98] fix: imported works must have their model name as given

---
 sampo/userinput/parser/general_build.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/userinput/parser/general_build.py b/sampo/userinput/parser/general_build.py
index 3441f26..0a3fb4c 100644
--- a/sampo/userinput/parser/general_build.py
+++ b/sampo/userinput/parser/general_build.py
@@ -274,7 +274,7 @@ def build_work_graph(frame: pd.DataFrame, resource_names: list[str], work_estima
         group = row['group'] if 'group' in frame.columns else 'main project'
         priority = row['priority'] if 'priority' in frame.columns else 1
 
-        work_unit = WorkUnit(row['activity_id'], row['model_name'], reqs, group=group,
+        work_unit = WorkUnit(row['activity_id'], eval(row['model_name']), reqs, group=group,
                              description=description, volume=row['volume'],
                              is_service_unit=is_service_unit, display_name=row['activity_name_original'],
                              zone_reqs=zone_reqs, priority=priority)
-- 
2.43.0


From b4dcbef5c2a5d920148c96477fcdc41d147f58f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 39/98] fix: requirement volumes must be readable from a file

---
 sampo/userinput/parser/general_build.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sampo/userinput/parser/general_build.py b/sampo/userinput/parser/general_build.py
index 0a3fb4c..39e9ca1 100644
--- a/sampo/userinput/parser/general_build.py
+++ b/sampo/userinput/parser/general_build.py
@@ -192,6 +192,8 @@ def preprocess_graph_df(frame: pd.DataFrame,
     if 'min_req' in frame.columns and 'max_req' in frame.columns:
         frame['min_req'] = [literal_eval(x) if isinstance(x, str) else x for x in frame['min_req']]
         frame['max_req'] = [literal_eval(x) if isinstance(x, str) else x for x in frame['max_req']]
+    if 'req_volume' in frame.columns:
+        frame['req_volume'] = [literal_eval(x) if isinstance(x, str) else x for x in frame['req_volume']]
 
     frame['predecessor_ids'] = fix_df_column_with_arrays(frame['predecessor_ids'], cast=normalize_if_number)
     frame['connection_types'] = fix_df_column_with_arrays(frame['connection_types'],
-- 
2.43.0


From db8cebb50d38b52c63124e4190fd5589f69a3d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:24 +0000
Subject: [PATCH 40/98] fix: imported works and requirements must have the same
 order in every process

---
 sampo/userinput/parser/csv_parser.py    | 2 +-
 sampo/userinput/parser/general_build.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/sampo/userinput/parser/csv_parser.py b/sampo/userinput/parser/csv_parser.py
index aae71e4..1f14cdb 100644
--- a/sampo/userinput/parser/csv_parser.py
+++ b/sampo/userinput/parser/csv_parser.py
@@ -128,7 +128,7 @@ class CSVParser:
                                                                                         work_volume=float(w[1])))
                      for w in works_info.loc[:, ['model_name', 'volume']].to_numpy()]
 
-        unique_res = list(set(chain(*[r.keys() for r in resources])))
+        unique_res = list(dict.fromkeys(chain(*[r.keys() for r in resources])))
 
         works_resources = add_graph_info(works_info)
         works_resources = topsort_graph_df(works_resources)
diff --git a/sampo/userinput/parser/general_build.py b/sampo/userinput/parser/general_build.py
index 39e9ca1..b0c692c 100644
--- a/sampo/userinput/parser/general_build.py
+++ b/sampo/userinput/parser/general_build.py
@@ -284,8 +284,7 @@ def build_work_graph(frame: pd.DataFrame, resource_names: list[str], work_estima
         node = GraphNode(work_unit, parents)
         id_to_node[row['activity_id']] = node
 
-    all_nodes = [id_to_node[index] for index in list(set(id_to_node.keys()))]
-    return WorkGraph.from_nodes(all_nodes)
+    return WorkGraph.from_nodes(list(id_to_node.values()))
 
 
 def get_graph_contractors(path: str, contractor_name: str | None = 'ООО "***"') -> (
-- 
2.43.0


From 7a25aacc92b420afc1d662e362d3158badfff127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:47 +0000
Subject: [PATCH 41/98] fix: name mapper must return the name it is asked for

---
 sampo/utilities/name_mapper.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sampo/utilities/name_mapper.py b/sampo/utilities/name_mapper.py
index 9aa1c1a..80c63dc 100644
--- a/sampo/utilities/name_mapper.py
+++ b/sampo/utilities/name_mapper.py
@@ -60,7 +60,7 @@ class DummyNameMapper(NameMapper):
         return item
 
     def get(self, item):
-        self.__getitem__(item)
+        return self.__getitem__(item)
 
     @property
     def _source(self) -> NameMapper:
@@ -72,7 +72,7 @@ class DictNameMapper(NameMapper):
         self._source = source
 
     def get(self, item):
-        self.__getitem__(item)
+        return self.__getitem__(item)
 
     def __getitem__(self, item) -> str:
         return self._source[item] if item in self._source else item
@@ -88,7 +88,7 @@ class ModelNameMapper(NameMapper):
         self.__nie()
 
     def get(self, item):
-        self.__getitem__(item)
+        return self.__getitem__(item)
 
     def __getitem__(self, item):
         self.__nie()
-- 
2.43.0


From 7e84f51ae6da4289eeee3f005cc490b069c101e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:47 +0000
Subject: [PATCH 42/98] fix: building a work graph must not change the given
 table

---
 sampo/userinput/parser/csv_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sampo/userinput/parser/csv_parser.py b/sampo/userinput/parser/csv_parser.py
index 1f14cdb..3d55fa7 100644
--- a/sampo/userinput/parser/csv_parser.py
+++ b/sampo/userinput/parser/csv_parser.py
@@ -119,6 +119,7 @@ class CSVParser:
         :return: WorkGraph and list of Contractors
         """
 
+        works_info = works_info.copy()
         works_info['activity_name_original'] = works_info.activity_name
         if name_mapper:
             works_info.activity_name = works_info.activity_name.apply(lambda name: name_mapper[name])
-- 
2.43.0


From 5a38dab784c36a12283297a43be881cd7f199313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:47 +0000
Subject: [PATCH 43/98] fix: contractors must be readable from a data frame

---
 sampo/userinput/parser/csv_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/userinput/parser/csv_parser.py b/sampo/userinput/parser/csv_parser.py
index 3d55fa7..98fbf14 100644
--- a/sampo/userinput/parser/csv_parser.py
+++ b/sampo/userinput/parser/csv_parser.py
@@ -176,7 +176,7 @@ class CSVParser:
 
         if isinstance(contractor_info, list):
             contractors = contractor_info
-        elif isinstance(contractor_info, str):
+        elif isinstance(contractor_info, (str, pd.DataFrame)):
             # if contractor info is given or contractor info and work resource estimator are received simultaneously
             contractor_df = pd.read_csv(contractor_info, sep=';', header=0) if isinstance(contractor_info,
                                                                                           str) else contractor_info
-- 
2.43.0


From 7cf8cb07c467c53f1d3a294da9eb4186e8d80526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:47 +0000
Subject: [PATCH 44/98] fix: ids of imported contractors must be strings

---
 sampo/userinput/parser/csv_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/userinput/parser/csv_parser.py b/sampo/userinput/parser/csv_parser.py
index 98fbf14..713ad11 100644
--- a/sampo/userinput/parser/csv_parser.py
+++ b/sampo/userinput/parser/csv_parser.py
@@ -183,7 +183,7 @@ class CSVParser:
             for index, row in contractor_df.iterrows():
                 specified_id = 'contractor_id' in contractor_df.columns
                 column_lag = 2 if specified_id else 1
-                contractor_id = row['contractor_id'] if specified_id else str(uuid4())
+                contractor_id = str(row['contractor_id']) if specified_id else str(uuid4())
                 contractors.append(
                     Contractor(id=contractor_id,
                                name=row['name'],
-- 
2.43.0


From 24517c6876433ac83b9c5b24e71a3c13a1c06d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:47 +0000
Subject: [PATCH 45/98] fix: preparation without contractors must generate them

---
 sampo/pipeline/preparation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sampo/pipeline/preparation.py b/sampo/pipeline/preparation.py
index 51a7299..c0026a8 100644
--- a/sampo/pipeline/preparation.py
+++ b/sampo/pipeline/preparation.py
@@ -92,9 +92,11 @@ class PreparationPipeline:
         return wg
 
     def build_wg_and_contractors(self) -> tuple[WorkGraph, list[Contractor]]:
+        # the parser generates contractors if none are given
+        contractors = {} if self._contractors is None else {'contractor_info': self._contractors}
         return CSVParser.work_graph_and_contractors(
             works_info=self._prepare_works_info(),
             name_mapper=self._name_mapper,
-            contractor_info=self._contractors,
-            work_resource_estimator=self._work_estimator
+            work_resource_estimator=self._work_estimator,
+            **contractors
         )
-- 
2.43.0


From 7223f140df209805d790107f882acdb85bbb7a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 46/98] fix: estimators must get the model name of imported
 works as a dictionary

---
 sampo/userinput/parser/csv_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/userinput/parser/csv_parser.py b/sampo/userinput/parser/csv_parser.py
index 713ad11..50348ac 100644
--- a/sampo/userinput/parser/csv_parser.py
+++ b/sampo/userinput/parser/csv_parser.py
@@ -1,4 +1,5 @@
 import math
+from ast import literal_eval
 from itertools import chain
 from uuid import uuid4
 
@@ -125,7 +126,7 @@ class CSVParser:
             works_info.activity_name = works_info.activity_name.apply(lambda name: name_mapper[name])
 
         resources = [dict((worker_req.kind, int(worker_req.volume))
-                          for worker_req in work_resource_estimator.find_work_resources(model_name=w[0],
+                          for worker_req in work_resource_estimator.find_work_resources(model_name=literal_eval(w[0]),
                                                                                         work_volume=float(w[1])))
                      for w in works_info.loc[:, ['model_name', 'volume']].to_numpy()]
 
-- 
2.43.0


From eb81bcdae1332a7a35a292439beb14001cc6faa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:41 +0000
Subject: [PATCH 47/98] fix: ids of works in a file must be read as strings

---
 sampo/userinput/parser/csv_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sampo/userinput/parser/csv_parser.py b/sampo/userinput/parser/csv_parser.py
index 50348ac..4ababbb 100644
--- a/sampo/userinput/parser/csv_parser.py
+++ b/sampo/userinput/parser/csv_parser.py
@@ -76,8 +76,10 @@ class CSVParser:
         :param sep_history: separating character. It's mandatory if you send the HistoryData .csv file path
         :return: preprocessed info about works
         """
-        graph_df = pd.read_csv(project_info, sep=sep_wg, header=0) if isinstance(project_info,
-                                                                                 str) else project_info.copy()
+        # ids like '1.10' are no numbers
+        graph_df = pd.read_csv(project_info, sep=sep_wg, header=0,
+                               dtype={'activity_id': str, 'predecessor_ids': str}) if isinstance(project_info, str) \
+            else project_info.copy()
         history_df = pd.read_csv(history_data, sep=sep_history) if isinstance(history_data,
                                                                               str) else history_data.copy()
 
-- 
2.43.0


From 5ec6e938a52162e0bceb2cb62bdaff8cebb8dda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 48/98] fix: random integers of an interval must lie in its
 boundary

---
 sampo/schemas/interval.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/sampo/schemas/interval.py b/sampo/schemas/interval.py
index 7aec4cc..d4ef487 100644
--- a/sampo/schemas/interval.py
+++ b/sampo/schemas/interval.py
@@ -1,3 +1,4 @@
+import math
 import random
 from abc import abstractmethod, ABC
 from dataclasses import dataclass
@@ -7,7 +8,7 @@ from typing import Optional
 from sampo.schemas.serializable import AutoJSONSerializable
 
 # to work with float and avoid errors due to inaccuracy
-EPS = 1e5
+EPS = 1e-5
 # to work with distributions when certain start and finish value is undefined
 INF = float('inf')
 MINUS_INF = float('-inf')
@@ -42,6 +43,17 @@ class Interval(AutoJSONSerializable['BaseReq'], ABC):
         ...
 
 
+def _clamp_int(value: int, min_val: float, max_val: float) -> int:
+    """
+    Moves the value to the closest integer inside the given boundary, that may be infinite
+    """
+    if value < min_val - EPS:
+        value = math.ceil(min_val - EPS)
+    if value > max_val + EPS:
+        value = math.floor(max_val + EPS)
+    return value
+
+
 @dataclass(frozen=True)
 class IntervalUniform(Interval):
     """
@@ -74,10 +86,7 @@ class IntervalUniform(Interval):
         """
         rand = rand or self.rand
         value = round(rand.uniform(self.min_val, self.max_val))
-        # TODO fix cast math.inf to int
-        value = max(value, int(self.min_val - EPS))
-        value = min(value, int(self.max_val + EPS))
-        return value
+        return _clamp_int(value, self.min_val, self.max_val)
 
 
 @dataclass(frozen=True)
@@ -121,7 +130,4 @@ class IntervalGaussian(Interval):
         """
         rand = rand or self.rand
         value = round(rand.gauss(self.mean, self.sigma))
-        # TODO fix cast math.inf to int
-        value = max(value, int(self.min_val - EPS))
-        value = min(value, int(self.max_val + EPS))
-        return value
+        return _clamp_int(value, self.min_val, self.max_val)
-- 
2.43.0


From 7a6c905dd13019843504955a103109fcfb8ed61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 49/98] fix: default productivity must not always be zero in
 the stochastic mode

---
 sampo/schemas/time_estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/schemas/time_estimator.py b/sampo/schemas/time_estimator.py
index 441124b..8500783 100644
--- a/sampo/schemas/time_estimator.py
+++ b/sampo/schemas/time_estimator.py
@@ -63,7 +63,7 @@ class DefaultWorkEstimator(WorkTimeEstimator):
         self._estimation_mode = WorkEstimationMode.Realistic
         self.rand = rand
         self._productivity_mode = WorkerProductivityMode.Static
-        self._productivity = {worker: {'__ALL__': IntervalGaussian(1, 0.2, 1, 0)}
+        self._productivity = {worker: {'__ALL__': IntervalGaussian(1, 0.2, 0, 1)}
                               for worker in ['driver', 'fitter', 'manager', 'handyman', 'electrician', 'engineer']}
 
     def find_work_resources(self,
-- 
2.43.0


From a78eb33f50a00343a0cfedb6621b99e67f32292b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:12 +0000
Subject: [PATCH 50/98] fix: linked list must iterate over all its elements and
 keep its tail

---
 sampo/utilities/linked_list.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sampo/utilities/linked_list.py b/sampo/utilities/linked_list.py
index 9819f77..72e0f72 100644
--- a/sampo/utilities/linked_list.py
+++ b/sampo/utilities/linked_list.py
@@ -17,7 +17,7 @@ class Iterator(Generic[T]):
         self._prev = None
 
     def __iter__(self):
-        while self._node.next is not None:
+        while self._node is not None:
             yield self._node
             self.__next__()
 
@@ -36,15 +36,19 @@ class Iterator(Generic[T]):
         return self._node is not None
 
     def remove(self) -> T:
-        if self._node == self._lst._root:
+        if self._node is self._lst._root:
             old = self._lst._root
             self._lst._root = old.next
             self._node = self._lst._root
+            if self._node is None:
+                self._lst._tail = None
             self._lst._len -= 1
             return old.value
         node = self._node
         next = node.next
         self._prev.next = next
+        if next is None:
+            self._lst._tail = self._prev
         self._node = next
         self._lst._len -= 1
         return node.value
-- 
2.43.0


From 5795c39f8028d3b3d77ea1d40aebe9b84f3c8000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 51/98] fix: correction of priorities must not walk over every
 path of the graph

---
 sampo/utilities/priority.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sampo/utilities/priority.py b/sampo/utilities/priority.py
index cd23be6..18eb55d 100644
--- a/sampo/utilities/priority.py
+++ b/sampo/utilities/priority.py
@@ -6,12 +6,18 @@ def update_priority(node, priority_value, visited=None):
     if visited is None:
         visited = set()
 
-    visited.add(node)
+    stack = [node]
 
-    node.work_unit.priority = min(node.work_unit.priority, priority_value)
+    # every ancestor has to be visited only once
+    while stack:
+        node = stack.pop()
+        if node in visited:
+            continue
+        visited.add(node)
 
-    for parent in getattr(node, "parents", []):
-        update_priority(parent, priority_value, visited)
+        node.work_unit.priority = min(node.work_unit.priority, priority_value)
+
+        stack.extend(getattr(node, "parents", []))
 
 
 def check_and_correct_priorities(wg: WorkGraph, verbose: bool = True):
-- 
2.43.0


From da88de1288ec4045f9a9abcb52dc79ddb188585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 52/98] fix: LFT must count an assignment for the contractor
 that got it

---
 sampo/scheduler/lft/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/scheduler/lft/base.py b/sampo/scheduler/lft/base.py
index 3732d9e..516ca92 100644
--- a/sampo/scheduler/lft/base.py
+++ b/sampo/scheduler/lft/base.py
@@ -229,7 +229,7 @@ class LFTScheduler(Scheduler):
             assigned_amount = workers_amounts[contractor_index]
 
             # increase the counter for the assigned contractor
-            contractors_assignments_count[contractor_index] += 1
+            contractors_assignments_count[np.flatnonzero(accepted_contractors_mask)[contractor_index]] += 1
 
             if not spec[work_unit.id].is_contractor_enabled(assigned_contractor.id):
                 raise
-- 
2.43.0


From d245218b68f6f8fd4fac7974c39f25b999d0711c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 53/98] fix: works of a schedule must have the same order in
 every process

---
 sampo/schemas/schedule.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sampo/schemas/schedule.py b/sampo/schemas/schedule.py
index a72eb25..8155e7d 100644
--- a/sampo/schemas/schedule.py
+++ b/sampo/schemas/schedule.py
@@ -206,13 +206,13 @@ def order_nodes_by_start_time(works: Iterable[ScheduledWork], wg: WorkGraph) ->
                            sorted(works, key=lambda item: item.start_time)]
 
     cur_time = 0
-    cur_class: set[GraphNode] = set()
+    cur_class: list[GraphNode] = []
     for start_time, work in order_by_start_time:
         node = wg[work]
         if len(cur_class) == 0:
             cur_time = start_time
         if start_time == cur_time:
-            cur_class.add(node)
+            cur_class.append(node)
             continue
         # TODO Perform real toposort
         cur_not_added: set[GraphNode] = set(cur_class)
@@ -222,9 +222,9 @@ def order_nodes_by_start_time(works: Iterable[ScheduledWork], wg: WorkGraph) ->
                     continue  # we add this node later
                 res.append(cur_node.id)
                 cur_not_added.remove(cur_node)
-            cur_class = set(cur_not_added)
+            cur_class = [cur_node for cur_node in cur_class if cur_node in cur_not_added]
         cur_time = start_time
-        cur_class = {node}
+        cur_class = [node]
 
     cur_not_added: set[GraphNode] = set(cur_class)
     while len(cur_not_added) > 0:
@@ -233,6 +233,6 @@ def order_nodes_by_start_time(works: Iterable[ScheduledWork], wg: WorkGraph) ->
                 continue  # we add this node later
             res.append(cur_node.id)
             cur_not_added.remove(cur_node)
-        cur_class = set(cur_not_added)
+        cur_class = [cur_node for cur_node in cur_class if cur_node in cur_not_added]
 
     return res
-- 
2.43.0


From 4498d7344c7103f23ddfe6d9ac1be311664781ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 54/98] fix: merging of stages must not change the given table
 and its order must not depend on hashes

---
 sampo/utilities/schedule.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sampo/utilities/schedule.py b/sampo/utilities/schedule.py
index 05322be..be7a9ac 100644
--- a/sampo/utilities/schedule.py
+++ b/sampo/utilities/schedule.py
@@ -32,11 +32,10 @@ def fix_split_tasks(baps_schedule_df: pd.DataFrame) -> pd.DataFrame:
     :param baps_schedule_df: pd.DataFrame: schedule with info for tasks separated on stages
     :return: pd.DataFrame: schedule with merged info for all real tasks
     """
-    df_len = baps_schedule_df.shape[0]
-    baps_schedule_df.index = range(df_len)
+    baps_schedule_df = baps_schedule_df.reset_index(drop=True)
 
     df = pd.DataFrame(columns=baps_schedule_df.columns)
-    unique_ids = {x.split(STAGE_SEP)[0] for x in baps_schedule_df.task_id}
+    unique_ids = dict.fromkeys(x.split(STAGE_SEP)[0] for x in baps_schedule_df.task_id)
 
     for task_id in unique_ids:
         task_stages_df = baps_schedule_df.loc[
-- 
2.43.0


From 2a0a200fe71e9cd9131cce4f2c4c0a8465eb95c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 55/98] fix: merged stages must have the span, the duration and
 the cost of all of them

---
 sampo/schemas/schedule.py   |  1 +
 sampo/utilities/schedule.py | 14 ++++++--------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/sampo/schemas/schedule.py b/sampo/schemas/schedule.py
index 8155e7d..878446a 100644
--- a/sampo/schemas/schedule.py
+++ b/sampo/schemas/schedule.py
@@ -128,6 +128,7 @@ class Schedule(JSONSerializable['Schedule']):
             swork.model_name['granular_name'] = row['granular_name']
             swork.display_name = row['task_name']
             swork.volume = float(row['volume'])
+            swork.cost = row['cost']
             swork.start_end_time = Time(int(row['start'])), Time(int(row['finish']))
             return row
 
diff --git a/sampo/utilities/schedule.py b/sampo/utilities/schedule.py
index be7a9ac..e6d4b31 100644
--- a/sampo/utilities/schedule.py
+++ b/sampo/utilities/schedule.py
@@ -1,7 +1,6 @@
-from datetime import datetime
+from datetime import datetime, timedelta
 from functools import partial
 
-import numpy as np
 import pandas as pd
 from pandas import DataFrame
 
@@ -75,15 +74,14 @@ def merge_split_stages(task_df: pd.DataFrame) -> pd.Series:
 
         # sum up volumes through all stages
         df.loc[0, 'volume'] = sum(task_df.loc[:, 'volume'])
+        df.loc[0, 'cost'] = sum(task_df.loc[:, 'cost'])
         df.loc[0, 'workers'] = task_df.loc[0, 'workers']
 
         # fix task's start time and duration
-        df.loc[0, 'start'] = task_df.loc[0, 'start']
-        df.loc[0, 'finish'] = task_df.loc[len(task_df) - 1, 'finish']
-        if isinstance(df.loc[0, 'start'], np.int64) or isinstance(df.loc[0, 'start'], np.int32):
-            df.loc[0, 'duration'] = df.loc[0, 'finish'] - df.loc[0, 'start'] + 1
-        else:
-            df.loc[0, 'duration'] = (df.loc[0, 'finish'] - df.loc[0, 'start']).days + 1
+        df.loc[0, 'start'] = task_df['start'].min()
+        df.loc[0, 'finish'] = task_df['finish'].max()
+        duration = df.loc[0, 'finish'] - df.loc[0, 'start']
+        df.loc[0, 'duration'] = duration.days if isinstance(duration, timedelta) else duration
     else:
         df = task_df.copy()
 
-- 
2.43.0


From 1295cc876577d583ebba38541dfa74ce5b16c299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:03 +0000
Subject: [PATCH 56/98] fix: merged stages must keep zone changes and
 deliveries of all of them

---
 sampo/schemas/schedule.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sampo/schemas/schedule.py b/sampo/schemas/schedule.py
index 878446a..3004084 100644
--- a/sampo/schemas/schedule.py
+++ b/sampo/schemas/schedule.py
@@ -1,3 +1,4 @@
+from collections import defaultdict
 from copy import deepcopy
 from datetime import datetime
 from functools import lru_cache
@@ -6,7 +7,9 @@ from typing import Iterable, Union, Any
 
 from pandas import DataFrame
 
+from sampo.api.const import STAGE_SEP
 from sampo.schemas.graph import WorkGraph, GraphNode
+from sampo.schemas.landscape import MaterialDelivery
 from sampo.schemas.scheduled_work import ScheduledWork
 from sampo.schemas.serializable import JSONSerializable, T
 from sampo.schemas.time import Time
@@ -122,6 +125,10 @@ class Schedule(JSONSerializable['Schedule']):
         """
         merged_df = fix_split_tasks(self._schedule)
 
+        stages = defaultdict(list)
+        for stage in self.works:
+            stages[stage.id.split(STAGE_SEP)[0]].append(stage)
+
         def f(row):
             swork: ScheduledWork = deepcopy(row[self._scheduled_work_column])
             row[self._scheduled_work_column] = swork
@@ -129,6 +136,12 @@ class Schedule(JSONSerializable['Schedule']):
             swork.display_name = row['task_name']
             swork.volume = float(row['volume'])
             swork.cost = row['cost']
+            swork.zones_pre = [zone for stage in stages[swork.id] for zone in stage.zones_pre]
+            swork.zones_post = [zone for stage in stages[swork.id] for zone in stage.zones_post]
+            swork.materials = MaterialDelivery(swork.materials.id)
+            for stage in stages[swork.id]:
+                for name, deliveries in stage.materials.delivery.items():
+                    swork.materials.add_deliveries(name, list(deliveries))
             swork.start_end_time = Time(int(row['start'])), Time(int(row['finish']))
             return row
 
-- 
2.43.0


From 32d24694406965019dd023ca8f17536ad8515244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:03 +0000
Subject: [PATCH 57/98] fix: works with different parts of the model name must
 fit into one schedule

---
 sampo/schemas/schedule.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sampo/schemas/schedule.py b/sampo/schemas/schedule.py
index 3004084..5f85341 100644
--- a/sampo/schemas/schedule.py
+++ b/sampo/schemas/schedule.py
@@ -2,7 +2,6 @@ from collections import defaultdict
 from copy import deepcopy
 from datetime import datetime
 from functools import lru_cache
-from operator import itemgetter
 from typing import Iterable, Union, Any
 
 from pandas import DataFrame
@@ -13,7 +12,6 @@ from sampo.schemas.landscape import MaterialDelivery
 from sampo.schemas.scheduled_work import ScheduledWork
 from sampo.schemas.serializable import JSONSerializable, T
 from sampo.schemas.time import Time
-from sampo.utilities.collections_util import first
 from sampo.utilities.schedule import fix_split_tasks, offset_schedule
 
 ResourceSchedule = dict[str, list[tuple[Time, Time]]]
@@ -21,7 +19,7 @@ ScheduleWorkDict = dict[str, ScheduledWork]
 
 
 def _get_granular_name_columns(sworks: Iterable[ScheduledWork] | None = None):
-    return list(sorted(first(sworks).model_name.keys()))
+    return sorted({column for swork in sworks for column in swork.model_name})
 
 
 # TODO: Rebase object onto ScheduleWorkDict and ordered ScheduledWork list
@@ -160,6 +158,7 @@ class Schedule(JSONSerializable['Schedule']):
         :param works: Iterable collection of ScheduledWork's.
         :return: Schedule.
         """
+        works = list(works)
         ordered_task_ids = order_nodes_by_start_time(works, wg) if wg else None
 
         def sed(time1, time2) -> tuple:
@@ -175,7 +174,7 @@ class Schedule(JSONSerializable['Schedule']):
         model_name_columns = _get_granular_name_columns(works)
 
         def make_model_name_columns(swork: ScheduledWork) -> list[Any]:
-            return list(map(itemgetter(1), sorted(swork.model_name.items(), key=itemgetter(0))))
+            return [swork.model_name.get(column) for column in model_name_columns]
 
         data_frame = [(i,                                                   # idx
                        w.id,                                                # task_id
-- 
2.43.0


From 3e0961b90df634dcaab3de2c4ba66ef28804af0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:03 +0000
Subject: [PATCH 58/98] fix: execution time must be the latest finish in any
 order of works

---
 sampo/schemas/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/schemas/schedule.py b/sampo/schemas/schedule.py
index 5f85341..2c7e2e7 100644
--- a/sampo/schemas/schedule.py
+++ b/sampo/schemas/schedule.py
@@ -81,7 +81,7 @@ class Schedule(JSONSerializable['Schedule']):
 
         :return: Finish time of the last work.
         """
-        return Time(self._schedule.iloc[-1].finish)
+        return Time(self._schedule['finish'].max())
 
     def __init__(self, schedule: DataFrame) -> None:
         """
-- 
2.43.0


From a1a807d58afe0ef5d84bcd1c111282ff97a5d22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 59/98] fix: search of resources for a deadline must try the
 whole resources

---
 sampo/scheduler/resources_in_time/average_binary_search.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sampo/scheduler/resources_in_time/average_binary_search.py b/sampo/scheduler/resources_in_time/average_binary_search.py
index b72ed8a..390a0df 100644
--- a/sampo/scheduler/resources_in_time/average_binary_search.py
+++ b/sampo/scheduler/resources_in_time/average_binary_search.py
@@ -100,4 +100,8 @@ class AverageBinarySearchResourceOptimizingScheduler:
 
             if best_left_fit < Time.inf():
                 return call_scheduler(best_left_m, copied_spec)
+
+            # no part of the resources keeps the deadline, but the whole ones were not tried yet
+            if fitness(1, copied_spec).value - deadline.value <= best_right_fit:
+                best_right_m = 1
             return call_scheduler(best_right_m, copied_spec)
-- 
2.43.0


From d341ea16b7e4d292364aa67956f7eee77fd16386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:41 +0000
Subject: [PATCH 60/98] fix: restructuring of a restructured graph must not
 make cycles

---
 sampo/structurator/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sampo/structurator/base.py b/sampo/structurator/base.py
index 4c457d6..14988f2 100644
--- a/sampo/structurator/base.py
+++ b/sampo/structurator/base.py
@@ -41,8 +41,9 @@ def fill_parents_to_new_nodes(origin_node: GraphNode, id2new_nodes: dict[str, Gr
     last_stage_id = origin_node.id
     # make first stage id
     first_stage_id = make_new_node_id(origin_node.id, 0)
-    # if first stage id not in id2new_nodes then there are no stages, so then first stage id is equal to last stage id
-    first_stage_id = first_stage_id if first_stage_id in id2new_nodes else last_stage_id
+    # if the node has no stages, then first stage id is equal to last stage id
+    # (another node may already have such id, for example, when the graph has already been restructured)
+    first_stage_id = first_stage_id if id2new_nodes[last_stage_id].edges_to else last_stage_id
 
     # basic time lag of FinishStart or InseparableFinishStart edges
     indent = 0
-- 
2.43.0


From 93ae70a8c658f78085c628bb01edd78e8ad65ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:52 +0000
Subject: [PATCH 61/98] fix: pipeline must restructure the graph as its lag
 optimization strategy says

---
 sampo/pipeline/default.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/pipeline/default.py b/sampo/pipeline/default.py
index 79c1c80..91da561 100644
--- a/sampo/pipeline/default.py
+++ b/sampo/pipeline/default.py
@@ -276,7 +276,7 @@ class DefaultInputPipeline(InputPipeline):
                     wg = wg2
                     schedules = schedules2
 
-            case LagOptimizationStrategy.TRUE, LagOptimizationStrategy.FALSE:
+            case LagOptimizationStrategy.TRUE | LagOptimizationStrategy.FALSE:
                 wg = graph_restructuring(self._wg, self._lag_optimize.value)
                 schedules = scheduler.schedule_with_cache(wg, self._contractors,
                                                           self._spec,
-- 
2.43.0


From 96a980ce1f1523039170d3d76cc20dcb436346cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:48 +0000
Subject: [PATCH 62/98] fix: local optimizers must swap only independent works

---
 sampo/scheduler/utils/local_optimization.py | 27 +++++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/sampo/scheduler/utils/local_optimization.py b/sampo/scheduler/utils/local_optimization.py
index 194e5fd..d4c97ee 100644
--- a/sampo/scheduler/utils/local_optimization.py
+++ b/sampo/scheduler/utils/local_optimization.py
@@ -59,6 +59,12 @@ class ScheduleLocalOptimizer(ABC):
         ...
 
 
+def _get_chain_head(node: GraphNode) -> GraphNode:
+    while node.is_inseparable_son():
+        node = node.inseparable_parent
+    return node
+
+
 def get_swap_candidates(node: GraphNode,
                         node_index: int,
                         candidates: Iterable[GraphNode],
@@ -74,19 +80,24 @@ def get_swap_candidates(node: GraphNode,
     :param node2ind: a dict from node to its index
     :param processed: a set of nodes that should not be swapped yet
     """
-    cur_children: set[GraphNode] = node.children_set
+    # inseparable chains are represented in the order by their heads
+    cur_parents = [_get_chain_head(parent) for dep_node in node.get_inseparable_chain_with_self()
+                   for parent in dep_node.parents]
 
     def is_candidate_accepted(candidate: GraphNode) -> bool:
-        if candidate in cur_children or candidate in processed:
+        if candidate in processed:
             return False
         candidate_ind = node2ind[candidate]
-        for child in cur_children:
-            if node2ind.get(child, 0) >= candidate_ind:  # we have a child between us and candidate
-                return False
-        candidate_parents = candidate.parents
-        for parent in candidate_parents:
-            if node2ind.get(parent, 0) <= node_index:  # candidate has a parent between us and candidate
+        for parent in cur_parents:
+            # we have a parent between us and candidate, or the candidate is our parent
+            if parent is not node and node2ind.get(parent, -1) >= candidate_ind:
                 return False
+        for dep_node in candidate.get_inseparable_chain_with_self():
+            for child in dep_node.children:
+                child = _get_chain_head(child)
+                # candidate has a child between us and candidate
+                if child is not candidate and child in node2ind and node2ind[child] <= node_index:
+                    return False
         return True
 
     return [candidate for candidate in candidates if is_candidate_accepted(candidate)]
-- 
2.43.0


From 0540dfac34fa3956602c89567a55e00d82c33548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:48 +0000
Subject: [PATCH 63/98] fix: area of a local optimizer may be larger than the
 order

---
 sampo/scheduler/utils/local_optimization.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sampo/scheduler/utils/local_optimization.py b/sampo/scheduler/utils/local_optimization.py
index d4c97ee..9a2c3c2 100644
--- a/sampo/scheduler/utils/local_optimization.py
+++ b/sampo/scheduler/utils/local_optimization.py
@@ -115,6 +115,8 @@ class SwapOrderLocalOptimizer(OrderLocalOptimizer):
         if node_order is None:
             return
 
+        # the order contains only heads of inseparable chains, so it can be shorter than the area
+        area = range(area.start, min(area.stop, len(node_order)))
         start_index = area.start
         end_index = area.stop
 
@@ -224,9 +226,11 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
         :param area:
         :return:
         """
+        # the order contains only heads of inseparable chains, so it can be shorter than the area
+        area = range(area.start, min(area.stop, len(node_order)))
         start_index = area.start
         end_index = area.stop
-        
+
         # preprocessing
         node2ind: dict[GraphNode, int] = {node: start_index + ind for ind, node in
                                           enumerate(node_order[start_index:end_index])}
-- 
2.43.0


From d8d03b533adf1aad95cb9120aec5b8ec8c4ed9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:48 +0000
Subject: [PATCH 64/98] fix: several optimizers of a schedule must be
 applicable one after another

---
 sampo/schemas/apply_queue.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sampo/schemas/apply_queue.py b/sampo/schemas/apply_queue.py
index 4f5a637..c33b957 100644
--- a/sampo/schemas/apply_queue.py
+++ b/sampo/schemas/apply_queue.py
@@ -14,14 +14,15 @@ class ApplyQueue:
         self.stack.append((function, args))
         return self
 
-    def apply(self, *first_args):
+    def apply(self, first_arg, *common_args):
         """
-        Sequentially applies functions to the result of previous function and the args stored in queue.
+        Sequentially applies functions to the result of previous function, the common args
+        and the args stored in queue.
         """
-        res = first_args
+        res = first_arg
         for f, args in self.stack:
-            res = (f(*res, *args),)
-        return res[0]
+            res = f(res, *common_args, *args)
+        return res
 
     def empty(self) -> bool:
         return len(self.stack) == 0
-- 
2.43.0


From 397e741ead4fad3b83e8d3c01e6fb77313e8e29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:09 +0000
Subject: [PATCH 65/98] fix: parallelizing optimizer must recalculate the
 schedule in its order

---
 sampo/scheduler/utils/local_optimization.py | 25 +++++++++++++--------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/sampo/scheduler/utils/local_optimization.py b/sampo/scheduler/utils/local_optimization.py
index 9a2c3c2..7b00fbc 100644
--- a/sampo/scheduler/utils/local_optimization.py
+++ b/sampo/scheduler/utils/local_optimization.py
@@ -166,7 +166,7 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
         super().__init__(timeline_type)
 
     def recalc_schedule(self,
-                        node_order: Iterable[GraphNode],
+                        node_order: list[GraphNode],
                         contractors: list[Contractor],
                         landscape_config: LandscapeConfiguration,
                         spec: ScheduleSpec,
@@ -192,18 +192,25 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
         timeline = self._timeline_type(worker_pool, landscape_config)
         node2swork_new: dict[GraphNode, ScheduledWork] = {}
 
-        id2contractor = build_index(contractors, attrgetter('name'))
+        id2contractor = build_index(contractors, attrgetter('id'))
 
         for index, node in enumerate(node_order):
             node_schedule = node2swork[node]
             work_spec = spec.get_work_spec(node.id)
-            # st = timeline.find_min_start_time(node, node_schedule.workers, node2swork_new)
-            # ft = st + node_schedule.get_actual_duration(work_estimator)
+            start_time = None
+
+            if index == len(node_order) - 1:  # we are scheduling the work `end of the project`
+                start_time = timeline.find_min_start_time(node, node_schedule.workers, node2swork_new, work_spec,
+                                                          assigned_parent_time, work_estimator)
+                zones_finish_time, finalizing_zones = timeline.zone_timeline.finish_statuses()
+                start_time = max(start_time, zones_finish_time)
+
             timeline.schedule(node, node2swork_new, node_schedule.workers,
-                              id2contractor[node_schedule.contractor], work_spec, None, work_spec.assigned_time,
-                              assigned_parent_time, work_estimator)
-            # node_schedule.start_end_time = (st, ft)
-            node2swork_new[node] = node_schedule
+                              id2contractor.get(node_schedule.contractor_id), work_spec, start_time,
+                              work_spec.assigned_time, assigned_parent_time, work_estimator)
+
+            if index == len(node_order) - 1:  # we are scheduling the work `end of the project`
+                node2swork_new[node].zones_pre = finalizing_zones
 
         return node2swork_new
 
@@ -304,7 +311,7 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
                     # candidate_schedule.start_time = my_schedule.start_time
                     break
 
-        return self.recalc_schedule(reversed(node_order), contractors, landscape_config, spec, scheduled_works,
+        return self.recalc_schedule(node_order, contractors, landscape_config, spec, scheduled_works,
                                     worker_pool, assigned_parent_time, work_estimator)
 
 
-- 
2.43.0


From 29db7bfa28db8e709421e53572b4040f802efa1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:26 +0000
Subject: [PATCH 66/98] fix: parallelizing optimizer must balance teams within
 the limits of works and contractors

---
 sampo/scheduler/utils/local_optimization.py | 32 ++++++++++++---------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/sampo/scheduler/utils/local_optimization.py b/sampo/scheduler/utils/local_optimization.py
index 7b00fbc..c67f74b 100644
--- a/sampo/scheduler/utils/local_optimization.py
+++ b/sampo/scheduler/utils/local_optimization.py
@@ -255,8 +255,6 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
             my_workers: dict[str, Worker] = build_index(my_schedule.workers, attrgetter('name'))
             my_schedule_reqs: dict[str, WorkerReq] = build_index(node.work_unit.worker_reqs, attrgetter('kind'))
 
-            new_my_workers = {}
-
             # now accepted_candidates is a list of nodes that can(according to dependencies) run in parallel
             for candidate in accepted_candidates:
                 candidate_schedule = scheduled_works[candidate]
@@ -264,21 +262,27 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
                 candidate_schedule_reqs: dict[str, WorkerReq] = build_index(candidate.work_unit.worker_reqs,
                                                                             attrgetter('kind'))
 
+                new_my_workers: dict[str, int] = {}
                 new_candidate_workers: dict[str, int] = {}
 
                 satisfy = True
 
-                for candidate_worker in candidate_schedule.workers:
-                    my_worker = my_workers.get(candidate_worker.model_name, None)
+                # these two works don't compete if they have different contractors
+                is_competing = candidate_schedule.contractor_id == my_schedule.contractor_id
+
+                for candidate_worker in candidate_schedule.workers if is_competing else []:
+                    my_worker = my_workers.get(candidate_worker.name, None)
                     if my_worker is None:  # these two works are not compete for this worker
                         continue
 
-                    need_me = my_workers[candidate_worker.model_name].count
+                    need_me = my_workers[candidate_worker.name].count
                     need_candidate = candidate_worker.count
 
-                    total = need_me + need_candidate
-                    my_req = my_schedule_reqs[candidate_worker.model_name]
-                    candidate_req = candidate_schedule_reqs[candidate_worker.model_name]
+                    # both teams should fit into the contractor
+                    total = min(need_me + need_candidate,
+                                worker_pool[candidate_worker.name][my_schedule.contractor_id].count)
+                    my_req = my_schedule_reqs[candidate_worker.name]
+                    candidate_req = candidate_schedule_reqs[candidate_worker.name]
                     needed_min = my_req.min_count + candidate_req.min_count
 
                     if needed_min > total:  # these two works can't run in parallel
@@ -289,23 +293,23 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
                     my_worker_count = my_req.min_count
                     total -= needed_min
 
-                    add_me = min(my_req.max_count, total // 2)
-                    add_candidate = min(candidate_req.max_count, total - add_me)
+                    add_me = min(my_req.max_count - my_req.min_count, total // 2)
+                    add_candidate = min(candidate_req.max_count - candidate_req.min_count, total - add_me)
 
                     my_worker_count += add_me
                     candidate_worker_count += add_candidate
 
-                    new_my_workers[candidate_worker.model_name] = my_worker_count
-                    new_candidate_workers[candidate_worker.model_name] = candidate_worker_count
+                    new_my_workers[candidate_worker.name] = my_worker_count
+                    new_candidate_workers[candidate_worker.name] = candidate_worker_count
 
                 if satisfy:  # replacement found, apply changes and leave candidates bruteforce
                     print(f'Found! {candidate.work_unit.name} {node.work_unit.name}')
                     for worker in my_schedule.workers:
-                        worker_count = new_my_workers.get(worker.model_name, None)
+                        worker_count = new_my_workers.get(worker.name, None)
                         if worker_count is not None:
                             worker.count = worker_count
                     for worker in candidate_schedule.workers:
-                        worker_count = new_candidate_workers.get(worker.model_name, None)
+                        worker_count = new_candidate_workers.get(worker.name, None)
                         if worker_count is not None:
                             worker.count = worker_count
                     # candidate_schedule.start_time = my_schedule.start_time
-- 
2.43.0


From d75c0ec9b83895fc0f0525f74524f50a00224aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:26 +0000
Subject: [PATCH 67/98] fix: parallelizing optimizer must not change specified
 teams

---
 sampo/scheduler/utils/local_optimization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sampo/scheduler/utils/local_optimization.py b/sampo/scheduler/utils/local_optimization.py
index c67f74b..fc5c2ae 100644
--- a/sampo/scheduler/utils/local_optimization.py
+++ b/sampo/scheduler/utils/local_optimization.py
@@ -248,7 +248,10 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
             node = node_order[i]
             if node in processed:
                 continue
-            chain_candidates: list[GraphNode] = node_order[start_index:i]
+            if spec.get_work_spec(node.id).assigned_workers:  # the team is specified, so it can't be changed
+                continue
+            chain_candidates: list[GraphNode] = [candidate for candidate in node_order[start_index:i]
+                                                 if not spec.get_work_spec(candidate.id).assigned_workers]
             accepted_candidates = get_swap_candidates(node, i, chain_candidates, node2ind, processed)
 
             my_schedule: ScheduledWork = scheduled_works[node]
-- 
2.43.0


From 0e4d6093d94924003462f0d117327844a4eeb48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:26 +0000
Subject: [PATCH 68/98] fix: parallelizing optimizer must not change the given
 schedule

---
 sampo/scheduler/utils/local_optimization.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sampo/scheduler/utils/local_optimization.py b/sampo/scheduler/utils/local_optimization.py
index fc5c2ae..47f2d79 100644
--- a/sampo/scheduler/utils/local_optimization.py
+++ b/sampo/scheduler/utils/local_optimization.py
@@ -1,4 +1,5 @@
 from abc import ABC, abstractmethod
+from copy import copy
 from operator import attrgetter
 from typing import Iterable
 
@@ -45,7 +46,7 @@ class ScheduleLocalOptimizer(ABC):
         """
         Optimizes works `scheduled_works`, referenced by `node_order` and `area` parameters.
 
-        Result writes to `scheduled_works` in-place.
+        Given `scheduled_works` stay unchanged.
         :param node_order:
         :param contractors:
         :param landscape_config:
@@ -244,6 +245,11 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
 
         processed: set[GraphNode] = set()
 
+        # teams of the given schedule should stay unchanged
+        scheduled_works = {node: copy(swork) for node, swork in scheduled_works.items()}
+        for swork in scheduled_works.values():
+            swork.workers = [worker.copy() for worker in swork.workers]
+
         for i in reversed(area):
             node = node_order[i]
             if node in processed:
-- 
2.43.0


From 3096082a40f5aa7b05f45a953cc8d02e5319762b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:39 +0000
Subject: [PATCH 69/98] fix: pipeline must refuse or skip contractors without a
 required profession

---
 sampo/pipeline/default.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/pipeline/default.py b/sampo/pipeline/default.py
index 91da561..3778ed5 100644
--- a/sampo/pipeline/default.py
+++ b/sampo/pipeline/default.py
@@ -34,7 +34,7 @@ def contractors_can_perform_work_graph(contractors: list[Contractor], wg: WorkGr
         for contractor in contractors:
             offers = contractor.workers
             for req in reqs:
-                if req.min_count > offers[req.kind].count:
+                if req.kind not in offers or req.min_count > offers[req.kind].count:
                     is_at_least_one_contractor_can_perform = False
                     break
             if is_at_least_one_contractor_can_perform:
-- 
2.43.0


From 91bcd5c9e315e3a1afc920430f9f1915d0714bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:02 +0000
Subject: [PATCH 70/98] fix: specification of a work must apply to all of its
 stages in the pipeline

---
 sampo/pipeline/default.py | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/sampo/pipeline/default.py b/sampo/pipeline/default.py
index 3778ed5..55d9671 100644
--- a/sampo/pipeline/default.py
+++ b/sampo/pipeline/default.py
@@ -21,6 +21,7 @@ from sampo.schemas.schedule_spec import ScheduleSpec
 from sampo.schemas.time import Time
 from sampo.schemas.time_estimator import WorkTimeEstimator, DefaultWorkEstimator
 from sampo.structurator import graph_restructuring
+from sampo.structurator.base import make_new_node_id
 from sampo.userinput.parser.csv_parser import CSVParser
 from sampo.utilities.name_mapper import NameMapper, read_json
 
@@ -48,6 +49,21 @@ def contractors_can_perform_work_graph(contractors: list[Contractor], wg: WorkGr
     return True
 
 
+def restructure_spec(spec: ScheduleSpec, wg: WorkGraph, restructured_wg: WorkGraph) -> ScheduleSpec:
+    """
+    Transfers the specification to the restructured graph, where a work is represented by the chain of its stages
+    and the specification of a chain is the specification of its first work
+    """
+    result = ScheduleSpec()
+    result._work2spec.update(spec._work2spec)
+    for node in wg.nodes:
+        first_stage_id = make_new_node_id(node.id, 0)
+        is_split = first_stage_id in restructured_wg.dict_nodes and first_stage_id not in wg.dict_nodes
+        if is_split and first_stage_id not in spec._work2spec and node.id in spec._work2spec:
+            result._work2spec[first_stage_id] = result._work2spec.pop(node.id)
+    return result
+
+
 class DefaultInputPipeline(InputPipeline):
     """
     Default pipeline, that help to use the framework
@@ -248,8 +264,9 @@ class DefaultInputPipeline(InputPipeline):
             case LagOptimizationStrategy.AUTO:
                 # Searching the best
                 wg1 = graph_restructuring(self._wg, False)
+                spec1 = restructure_spec(self._spec, self._wg, wg1)
                 schedules = scheduler.schedule_with_cache(wg1, self._contractors,
-                                                          self._spec,
+                                                          spec1,
                                                           landscape=self._landscape_config,
                                                           assigned_parent_time=self._assigned_parent_time,
                                                           validate=validate)
@@ -258,8 +275,9 @@ class DefaultInputPipeline(InputPipeline):
                 min_time1 = min([schedule.execution_time for schedule in schedules1])
 
                 wg2 = graph_restructuring(self._wg, True)
+                spec2 = restructure_spec(self._spec, self._wg, wg2)
                 schedules = scheduler.schedule_with_cache(wg2, self._contractors,
-                                                          self._spec,
+                                                          spec2,
                                                           landscape=self._landscape_config,
                                                           assigned_parent_time=self._assigned_parent_time,
                                                           validate=validate)
@@ -270,16 +288,19 @@ class DefaultInputPipeline(InputPipeline):
                 if min_time1 < min_time2:
                     self._node_orders = node_orders1
                     wg = wg1
+                    spec = spec1
                     schedules = schedules1
                 else:
                     self._node_orders = node_orders2
                     wg = wg2
+                    spec = spec2
                     schedules = schedules2
 
             case LagOptimizationStrategy.TRUE | LagOptimizationStrategy.FALSE:
                 wg = graph_restructuring(self._wg, self._lag_optimize.value)
+                spec = restructure_spec(self._spec, self._wg, wg)
                 schedules = scheduler.schedule_with_cache(wg, self._contractors,
-                                                          self._spec,
+                                                          spec,
                                                           landscape=self._landscape_config,
                                                           assigned_parent_time=self._assigned_parent_time,
                                                           validate=validate)
@@ -288,6 +309,7 @@ class DefaultInputPipeline(InputPipeline):
                 self._node_orders = node_orders
             case _:
                 wg = self._wg
+                spec = self._spec
                 schedules = scheduler.schedule_with_cache(wg, self._contractors,
                                                           self._spec,
                                                           landscape=self._landscape_config,
@@ -297,15 +319,16 @@ class DefaultInputPipeline(InputPipeline):
                 schedules = [schedule for schedule, _, _, _ in schedules]
                 self._node_orders = node_orders
 
-        return DefaultSchedulePipeline(self, wg, schedules)
+        return DefaultSchedulePipeline(self, wg, schedules, spec)
 
 
 # noinspection PyProtectedMember
 class DefaultSchedulePipeline(SchedulePipeline):
 
-    def __init__(self, s_input: DefaultInputPipeline, wg: WorkGraph, schedules: list[Schedule]):
+    def __init__(self, s_input: DefaultInputPipeline, wg: WorkGraph, schedules: list[Schedule], spec: ScheduleSpec):
         self._input = s_input
         self._wg = wg
+        self._spec = spec
         self._worker_pool = get_worker_contractor_pool(s_input._contractors)
         self._schedules = schedules
         self._scheduled_works = [{wg[swork.id]: swork for swork in schedule.to_schedule_work_dict.values()}
@@ -316,7 +339,7 @@ class DefaultSchedulePipeline(SchedulePipeline):
     def optimize_local(self, optimizer: ScheduleLocalOptimizer, area: range) -> 'SchedulePipeline':
         self._local_optimize_stack.add(optimizer.optimize,
                                        self._input._contractors, self._input._landscape_config,
-                                       self._input._spec, self._worker_pool, self._input._work_estimator,
+                                       self._spec, self._worker_pool, self._input._work_estimator,
                                        self._input._assigned_parent_time, area)
         return self
 
-- 
2.43.0


From e71d7379263f70b840cf9536b08666aa891f8739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:54 +0000
Subject: [PATCH 71/98] fix: structure estimator must apply to graphs that are
 built together with contractors

---
 sampo/pipeline/preparation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sampo/pipeline/preparation.py b/sampo/pipeline/preparation.py
index c0026a8..db7db9a 100644
--- a/sampo/pipeline/preparation.py
+++ b/sampo/pipeline/preparation.py
@@ -94,9 +94,14 @@ class PreparationPipeline:
     def build_wg_and_contractors(self) -> tuple[WorkGraph, list[Contractor]]:
         # the parser generates contractors if none are given
         contractors = {} if self._contractors is None else {'contractor_info': self._contractors}
-        return CSVParser.work_graph_and_contractors(
+        wg, contractors = CSVParser.work_graph_and_contractors(
             works_info=self._prepare_works_info(),
             name_mapper=self._name_mapper,
             work_resource_estimator=self._work_estimator,
             **contractors
         )
+
+        if self._structure_estimator is not None:
+            wg = self._structure_estimator.restruct(wg)
+
+        return wg, contractors
-- 
2.43.0


From aa183f5fd4898779e69914dc767fc2fe5f1749b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:00 +0000
Subject: [PATCH 72/98] fix: works must wait for the whole of a lag that is not
 a whole number

---
 sampo/schemas/graph.py        | 3 ++-
 sampo/utilities/validation.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index 171632f..a845dd2 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -2,6 +2,7 @@ from collections import deque
 from dataclasses import dataclass, field
 from enum import Enum
 from functools import cached_property
+from math import ceil
 from random import Random
 from typing import Optional
 
@@ -286,7 +287,7 @@ class GraphNode(JSONSerializable['GraphNode']):
         self._children_edges.append(child)
 
     def min_start_time(self, node2swork: dict['GraphNode', ScheduledWork]) -> Time:
-        return max((node2swork[edge.start].finish_time + int(edge.lag)
+        return max((node2swork[edge.start].finish_time + ceil(edge.lag)
                     for edge in self.edges_to if edge.start in node2swork), default=Time(0))
 
 
diff --git a/sampo/utilities/validation.py b/sampo/utilities/validation.py
index 5b6a4a3..7add318 100644
--- a/sampo/utilities/validation.py
+++ b/sampo/utilities/validation.py
@@ -1,4 +1,5 @@
 from copy import deepcopy
+from math import ceil
 from operator import attrgetter, itemgetter
 
 from sampo.schemas.contractor import Contractor
@@ -57,7 +58,7 @@ def _check_parent_dependencies(schedule: Schedule, wg: WorkGraph) -> None:
             if not EdgeType.is_dependency(edge.type):
                 continue
             pstart, pend = scheduled_works[edge.start.id].start_end_time
-            assert pstart <= pend and pend + int(edge.lag) <= start <= end
+            assert pstart <= pend and pend + ceil(edge.lag) <= start <= end
 
 
 def _check_all_tasks_corresponds_to_spec(schedule: Schedule, wg: WorkGraph, spec: ScheduleSpec) -> None:
-- 
2.43.0


From f562821d78f928489030e3b59e5a54aef30b880c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:15 +0000
Subject: [PATCH 73/98] fix: initial population of the multiprocessing backend
 had the reversed order of heuristics

---
 sampo/backend/multiproc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sampo/backend/multiproc.py b/sampo/backend/multiproc.py
index 691ecd1..e2da645 100644
--- a/sampo/backend/multiproc.py
+++ b/sampo/backend/multiproc.py
@@ -170,7 +170,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                                                                   resource_optimizer=AverageReqResourceOptimizer(k))
                                                   .schedule_with_cache(g_wg, g_contractors, g_spec,
                                                                        landscape=g_landscape))[0]
-                    return schedule, node_order[::-1], g_spec
+                    return schedule, node_order, g_spec
                 except NoSufficientContractorError:
                     return None, None, None
 
@@ -180,7 +180,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                         schedule, _, _, node_order = (scheduler_class(work_estimator=g_work_estimator)
                                                       .schedule_with_cache(g_wg, g_contractors, g_spec,
                                                                            landscape=g_landscape))[0]
-                        return schedule, node_order[::-1], g_spec
+                        return schedule, node_order, g_spec
                     except NoSufficientContractorError:
                         return None, None, None
 
@@ -190,7 +190,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                         (schedule, _, _, node_order), modified_spec = AverageBinarySearchResourceOptimizingScheduler(
                             scheduler_class(work_estimator=g_work_estimator)
                         ).schedule_with_cache(g_wg, g_contractors, g_deadline, g_spec, landscape=g_landscape)
-                        return schedule, node_order[::-1], modified_spec
+                        return schedule, node_order, modified_spec
                     except NoSufficientContractorError:
                         return None, None, None
 
-- 
2.43.0


From 2cb51ee373701d00d5b7b3bc8c5bdb985aa33010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:15 +0000
Subject: [PATCH 74/98] fix: random individuals of the multiprocessing backend
 ignored the specification and were equal in all processes

---
 sampo/backend/multiproc.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/sampo/backend/multiproc.py b/sampo/backend/multiproc.py
index e2da645..b702efb 100644
--- a/sampo/backend/multiproc.py
+++ b/sampo/backend/multiproc.py
@@ -158,10 +158,12 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
         self._ensure_toolbox_created()
         self._ensure_pool_created()
 
-        def mapper(key: str):
+        def mapper(key_with_seed: tuple[str, int]):
+            key, seed = key_with_seed
+
             def randomized_init():
-                schedule, _, _, order = RandomizedTopologicalScheduler(g_work_estimator, int(g_rand.random() * 1000000)) \
-                    .schedule_with_cache(g_wg, g_contractors, landscape=g_landscape)[0]
+                schedule, _, _, order = RandomizedTopologicalScheduler(g_work_estimator, seed) \
+                    .schedule_with_cache(g_wg, g_contractors, g_spec, landscape=g_landscape)[0]
                 return schedule, order, g_spec
 
             def init_k_schedule(scheduler_class, k) -> tuple[Schedule | None, list[GraphNode] | None, ScheduleSpec | None]:
@@ -228,7 +230,10 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
         counts += [count_for_topological]
 
         chromosome_keys = ['heft_end', 'heft_between', '12.5%', '25%', '75%', '87.5%', 'randomized']
-        chromosome_types = self._rand.sample(chromosome_keys, k=size_population, counts=counts)
+        rand = self._rand or Random()
+        chromosome_types = rand.sample(chromosome_keys, k=size_population, counts=counts)
+        # all processes have equal copies of the random generator, so the seeds should be drawn here
+        seeds = [int(rand.random() * 1000000) for _ in chromosome_types]
 
-        chromosomes = self.map(mapper, chromosome_types)
+        chromosomes = self.map(mapper, list(zip(chromosome_types, seeds)))
         return [self._toolbox.Individual(chromosome) for chromosome in chromosomes]
-- 
2.43.0


From bc164b33ed4c2ffa1030f04e66543589ecbc8e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:15 +0000
Subject: [PATCH 75/98] fix: multiprocessing backend must know the weight and
 the initialization of LFT

---
 sampo/backend/multiproc.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/sampo/backend/multiproc.py b/sampo/backend/multiproc.py
index b702efb..336147d 100644
--- a/sampo/backend/multiproc.py
+++ b/sampo/backend/multiproc.py
@@ -13,6 +13,7 @@ from sampo.backend.default import DefaultComputationalBackend
 from sampo.scheduler.genetic.operators import Individual
 from sampo.scheduler.genetic.utils import create_toolbox_using_cached_chromosomes, init_chromosomes_f
 from sampo.scheduler.heft import HEFTScheduler, HEFTBetweenScheduler
+from sampo.scheduler.lft.base import LFTScheduler, RandomizedLFTScheduler
 from sampo.scheduler.resource import AverageReqResourceOptimizer
 from sampo.scheduler.resources_in_time import AverageBinarySearchResourceOptimizingScheduler
 from sampo.scheduler.topological.base import RandomizedTopologicalScheduler
@@ -166,6 +167,16 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                     .schedule_with_cache(g_wg, g_contractors, g_spec, landscape=g_landscape)[0]
                 return schedule, order, g_spec
 
+            def init_lft():
+                schedule, _, _, order = LFTScheduler(work_estimator=g_work_estimator) \
+                    .schedule_with_cache(g_wg, g_contractors, g_spec, landscape=g_landscape)[0]
+                return schedule, order, g_spec
+
+            def randomized_lft_init():
+                schedule, _, _, order = RandomizedLFTScheduler(work_estimator=g_work_estimator, rand=Random(seed)) \
+                    .schedule_with_cache(g_wg, g_contractors, g_spec, landscape=g_landscape)[0]
+                return schedule, order, g_spec
+
             def init_k_schedule(scheduler_class, k) -> tuple[Schedule | None, list[GraphNode] | None, ScheduleSpec | None]:
                 try:
                     schedule, _, _, node_order = (scheduler_class(work_estimator=g_work_estimator,
@@ -200,6 +211,10 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                 return g_toolbox.schedule_to_chromosome(schedule=schedule, spec=spec, order=priority_list)
 
             match key:
+                case 'lft':
+                    return convert(*init_lft())
+                case 'rand_lft':
+                    return convert(*randomized_lft_init())
                 case 'heft_end':
                     return convert(*init_schedule(HEFTScheduler))
                 case 'heft_between':
@@ -215,7 +230,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                 case 'randomized':
                     return convert(*randomized_init())
 
-        weights = self._weights or [2, 2, 1, 1, 1, 1]
+        weights = self._weights or [2, 2, 2, 1, 1, 1, 1]
 
         count_for_specified_types = (size_population // 3) // len(weights)
         count_for_specified_types = count_for_specified_types if count_for_specified_types > 0 else 1
@@ -229,9 +244,12 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
         count_for_topological = count_for_topological if count_for_topological > 0 else 1
         counts += [count_for_topological]
 
-        chromosome_keys = ['heft_end', 'heft_between', '12.5%', '25%', '75%', '87.5%', 'randomized']
+        chromosome_keys = ['lft', 'heft_end', 'heft_between', '12.5%', '25%', '75%', '87.5%', 'randomized']
         rand = self._rand or Random()
-        chromosome_types = rand.sample(chromosome_keys, k=size_population, counts=counts)
+        if self._only_lft_initialization:
+            chromosome_types = ['rand_lft'] * (size_population - 1) + ['lft']
+        else:
+            chromosome_types = rand.sample(chromosome_keys, k=size_population, counts=counts)
         # all processes have equal copies of the random generator, so the seeds should be drawn here
         seeds = [int(rand.random() * 1000000) for _ in chromosome_types]
 
-- 
2.43.0


From d565b417901cba7a0721d5ff611ce3497bb2f9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:15 +0000
Subject: [PATCH 76/98] fix: work estimator was recreated without its settings
 in other processes

---
 sampo/schemas/time_estimator.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/sampo/schemas/time_estimator.py b/sampo/schemas/time_estimator.py
index 8500783..1cd66ec 100644
--- a/sampo/schemas/time_estimator.py
+++ b/sampo/schemas/time_estimator.py
@@ -1,4 +1,5 @@
 from abc import ABC, abstractmethod
+from copy import deepcopy
 from enum import Enum
 from operator import attrgetter
 from random import Random
@@ -58,12 +59,16 @@ class WorkTimeEstimator(ABC):
 class DefaultWorkEstimator(WorkTimeEstimator):
 
     def __init__(self,
-                 rand: Random = Random()):
-        self._use_idle = True
-        self._estimation_mode = WorkEstimationMode.Realistic
+                 rand: Random = Random(),
+                 use_idle: bool = True,
+                 estimation_mode: WorkEstimationMode = WorkEstimationMode.Realistic,
+                 productivity_mode: WorkerProductivityMode = WorkerProductivityMode.Static,
+                 productivity: dict[str, dict[str, Interval]] | None = None):
+        self._use_idle = use_idle
+        self._estimation_mode = estimation_mode
         self.rand = rand
-        self._productivity_mode = WorkerProductivityMode.Static
-        self._productivity = {worker: {'__ALL__': IntervalGaussian(1, 0.2, 0, 1)}
+        self._productivity_mode = productivity_mode
+        self._productivity = productivity or {worker: {'__ALL__': IntervalGaussian(1, 0.2, 0, 1)}
                               for worker in ['driver', 'fitter', 'manager', 'handyman', 'electrician', 'engineer']}
 
     def find_work_resources(self,
@@ -132,7 +137,8 @@ class DefaultWorkEstimator(WorkTimeEstimator):
         self._productivity[name][contractor] = productivity
 
     def get_recreate_info(self) -> tuple[Type, tuple]:
-        return DefaultWorkEstimator, ()
+        return DefaultWorkEstimator, (self.rand, self._use_idle, self._estimation_mode,
+                                      self._productivity_mode, deepcopy(self._productivity))
 
 
 def communication_coefficient(groups_count: int, max_groups: int) -> float:
-- 
2.43.0


From 07a664f1726e771918f4ee0f36abdf87e3d6c6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:58 +0000
Subject: [PATCH 77/98] fix: an obstruction must be inserted as a whole between
 two works

---
 sampo/scheduler/utils/obstruction.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/sampo/scheduler/utils/obstruction.py b/sampo/scheduler/utils/obstruction.py
index 2bfcad2..05be231 100644
--- a/sampo/scheduler/utils/obstruction.py
+++ b/sampo/scheduler/utils/obstruction.py
@@ -51,16 +51,20 @@ class OneInsertObstruction(Obstruction):
     def apply(self, wg: WorkGraph):
         # get the insert graph
         insert_wg = self._insert_wg_getter(self._rand)
+
+        # inseparable works go one after another, so nothing can be inserted between them
+        def get_insert_ends(node: GraphNode) -> list[GraphNode]:
+            return [child for child in node.children if child is not node.inseparable_son]
+
         # get the insert point
-        insert_node: GraphNode = self._rand.sample(wg.nodes, 1)[0]
+        insert_node: GraphNode = self._rand.sample([node for node in wg.nodes if get_insert_ends(node)], 1)[0]
+        # get the insert end point
+        insert_node_child: GraphNode = self._rand.sample(get_insert_ends(insert_node), 1)[0]
         # insert
         insert_wg.start.add_parents([insert_node])
-
-        if insert_node.children:
-            # get the insert end point
-            insert_node_child: GraphNode = self._rand.sample(insert_node.children, 1)[0]
-            # insert
-            insert_node_child.add_parents([insert_wg.start])
+        insert_node_child.add_parents([insert_wg.finish])
+        # the nodes belong to the given graph now, so the inserted one must not unlink them when it is deleted
+        insert_wg.nodes = []
 
         wg.reinit()
 
-- 
2.43.0


From a470f1f98d398a8b3f0b80c6100a5fb5c8647d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:58 +0000
Subject: [PATCH 78/98] fix: agents that are not able to perform a block must
 not stop the auction

---
 sampo/scheduler/multi_agency/multi_agency.py | 25 ++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/sampo/scheduler/multi_agency/multi_agency.py b/sampo/scheduler/multi_agency/multi_agency.py
index 5eef6fa..ff90da6 100644
--- a/sampo/scheduler/multi_agency/multi_agency.py
+++ b/sampo/scheduler/multi_agency/multi_agency.py
@@ -14,6 +14,7 @@ from sampo.scheduler.timeline.base import Timeline
 from sampo.scheduler.utils.obstruction import Obstruction
 from sampo.schemas import WorkerProductivityMode
 from sampo.schemas.contractor import Contractor
+from sampo.schemas.exceptions import IncorrectAmountOfWorker, NoSufficientContractorError
 from sampo.schemas.graph import WorkGraph
 from sampo.schemas.schedule import Schedule
 from sampo.schemas.time import Time
@@ -165,6 +166,23 @@ class Manager:
             obstruction.generate(wg)
         return self.run_auction(wg, parent_time)
 
+    def _collect_offers(self, wg: WorkGraph, parent_time: Time) \
+            -> list[tuple[Agent, tuple[Time, Time, Schedule, Timeline]]]:
+        """
+        Asks all agents for their offers. Agents that are not able to perform the given works do not make one.
+        """
+        offers = []
+        for agent in self._agents:
+            try:
+                offer = agent.offer(wg, parent_time)
+            except (NoSufficientContractorError, IncorrectAmountOfWorker):
+                continue
+            if not offer[1].is_inf():
+                offers.append((agent, offer))
+        if not offers:
+            raise NoSufficientAgents('There is no agent that is able to perform the given works')
+        return offers
+
     def run_auction(self, wg: WorkGraph, parent_time: Time = Time(0)) -> tuple[Time, Time, Schedule, Agent]:
         """
         Runs the auction on the given `WorkGraph`.
@@ -179,7 +197,7 @@ class Manager:
         best_timeline = None
         best_agent = None
 
-        offers = [(agent, agent.offer(wg, parent_time)) for agent in self._agents]
+        offers = self._collect_offers(wg, parent_time)
 
         for offered_agent, (offered_start_time, offered_end_time, offered_schedule, offered_timeline) in offers:
             if offered_end_time < best_end_time:
@@ -220,11 +238,10 @@ class StochasticManager(Manager):
         best_end_time = Time.inf()
         best_agent = None
 
-        def get_offer(agent: Agent):
+        for agent in self._agents:
             agent._scheduler.work_estimator.set_productivity_mode(WorkerProductivityMode.Static)
-            return agent, agent.offer(wg, parent_time)
 
-        offers = [get_offer(agent) for agent in self._agents]
+        offers = self._collect_offers(wg, parent_time)
 
         for offered_agent, (offered_start_time, offered_end_time, _, _) in offers:
             offered_end_time = offered_start_time + (offered_end_time - offered_start_time) * self._confidence[offered_agent.name]
-- 
2.43.0


From 69133c47e891863a851829e3bf9466f6716f2224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:49 +0000
Subject: [PATCH 79/98] fix: copying a block graph must not reverse its edges

---
 sampo/scheduler/multi_agency/block_graph.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/sampo/scheduler/multi_agency/block_graph.py b/sampo/scheduler/multi_agency/block_graph.py
index a8a808e..c9988ee 100644
--- a/sampo/scheduler/multi_agency/block_graph.py
+++ b/sampo/scheduler/multi_agency/block_graph.py
@@ -56,7 +56,7 @@ class BlockGraph:
         return len(self.nodes)
 
     def __copy__(self) -> 'BlockGraph':
-        parent_ids = [[parent.id for parent in node.blocks_to] for node in self.nodes]
+        parent_ids = [[parent.id for parent in node.blocks_from] for node in self.nodes]
         nodes = [BlockNode(old_node.wg, old_node.obstruction) for old_node in self.nodes]
         nodes_index = build_index(nodes, attrgetter('id'))
 
@@ -82,10 +82,8 @@ class BlockGraph:
         global_start = GraphNode(WorkUnit('start', 'start', is_service_unit=True), [])
 
         for end in copied_nodes:
-            end.wg.start.add_parents([start.wg.finish for start in end.blocks_to])
-            if len(end.wg.start.parents) == 0:
-                end.wg.start.add_parents([global_start])
-            if len(end.wg.finish.children) == 0:
+            end.wg.start.add_parents([start.wg.finish for start in end.blocks_from] or [global_start])
+            if len(end.blocks_to) == 0:
                 nodes_without_children.append(end.wg.finish)
 
         global_end = GraphNode(WorkUnit('finish', 'finish', is_service_unit=True), nodes_without_children)
-- 
2.43.0


From e10055174432b7c0258cf3b6d1b8c9713e210ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:49 +0000
Subject: [PATCH 80/98] fix: a work graph merged from blocks must survive the
 copies of the blocks

---
 sampo/scheduler/multi_agency/block_graph.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sampo/scheduler/multi_agency/block_graph.py b/sampo/scheduler/multi_agency/block_graph.py
index c9988ee..e3f0b7c 100644
--- a/sampo/scheduler/multi_agency/block_graph.py
+++ b/sampo/scheduler/multi_agency/block_graph.py
@@ -91,7 +91,11 @@ class BlockGraph:
         # global_start: GraphNode = [node for node in copied_nodes if len(node.blocks_to) == 0][0].wg.start
         # global_end:   GraphNode = [node for node in copied_nodes if len(node.blocks_from) == 0][0].wg.finish
 
-        return WorkGraph(global_start, global_end)
+        merged_graph = WorkGraph(global_start, global_end)
+        for node in copied_nodes:
+            # the nodes belong to the merged graph now, so the copied ones must not unlink them when they are deleted
+            node.wg.nodes = []
+        return merged_graph
 
     def toposort(self) -> list[BlockNode]:
         """
-- 
2.43.0


From 1917f5bc26089b5f2790b7a6a57359634472ad49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:49 +0000
Subject: [PATCH 81/98] fix: downtime and end time of an agent must not depend
 on blocks counted before

---
 sampo/scheduler/multi_agency/multi_agency.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/multi_agency/multi_agency.py b/sampo/scheduler/multi_agency/multi_agency.py
index ff90da6..a6982c0 100644
--- a/sampo/scheduler/multi_agency/multi_agency.py
+++ b/sampo/scheduler/multi_agency/multi_agency.py
@@ -33,6 +33,8 @@ class Agent:
         self._contractors = contractors
         self._last_task_executed = Time(0)
         self._downtime = Time(0)
+        # the moment up to which the downtime is already counted
+        self._downtime_counted = Time(0)
 
     def offer(self, wg: WorkGraph, parent_time: Time) -> tuple[Time, Time, Schedule, Timeline]:
         """
@@ -60,7 +62,8 @@ class Agent:
         self._timeline = timeline
         self.update_stat(start)
         # update last task statistic
-        self._last_task_executed = end
+        self._last_task_executed = max(self._last_task_executed, end)
+        self._downtime_counted = max(self._downtime_counted, end)
 
     def update_stat(self, start: Time):
         """
@@ -69,7 +72,8 @@ class Agent:
 
         :param start: global start time of confirmed block
         """
-        self._downtime += max(Time(0), start - self._last_task_executed)
+        self._downtime += max(Time(0), start - self._downtime_counted)
+        self._downtime_counted = max(self._downtime_counted, start)
 
     def __str__(self) -> str:
         return f'Agent(name={self.name}, scheduler={self._scheduler}, downtime={self._downtime})'
-- 
2.43.0


From db2b275c0a930ee557f668972503b10811894727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:49 +0000
Subject: [PATCH 82/98] fix: the stochastic manager must not leave the
 estimators stochastic

---
 sampo/scheduler/multi_agency/multi_agency.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sampo/scheduler/multi_agency/multi_agency.py b/sampo/scheduler/multi_agency/multi_agency.py
index a6982c0..69ca23d 100644
--- a/sampo/scheduler/multi_agency/multi_agency.py
+++ b/sampo/scheduler/multi_agency/multi_agency.py
@@ -257,6 +257,8 @@ class StochasticManager(Manager):
 
         old_best_end_time = best_end_time
         best_start_time, best_end_time, best_schedule, best_timeline = best_agent.offer(wg, parent_time)
+        # the estimator may be shared, so only this offer should be stochastic
+        best_agent._scheduler.work_estimator.set_productivity_mode(WorkerProductivityMode.Static)
         modified_end_time = best_start_time + (best_end_time - best_start_time) * self._confidence[
             best_agent.name]
         best_agent.confirm(best_timeline, best_start_time, best_end_time)
-- 
2.43.0


From b6d9ec24d1f2d8efefd64608e6a8243eed5f1905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:51 +0000
Subject: [PATCH 83/98] fix: routes must consist of the roads that are
 available, also when there are parallel ones

---
 sampo/schemas/landscape.py       | 17 ++++++++++-------
 sampo/schemas/landscape_graph.py |  3 ++-
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/sampo/schemas/landscape.py b/sampo/schemas/landscape.py
index ca362e4..e9fee4e 100644
--- a/sampo/schemas/landscape.py
+++ b/sampo/schemas/landscape.py
@@ -140,8 +140,8 @@ class LandscapeConfiguration:
 
         return [self.road_mx[path[v - 1]][path[v]] for v in range(len(path) - 1, 0, -1)]
 
-    def _dijkstra(self, node_ind: int, distances: list[float], path_mx: np.ndarray, roads_available_set: set[str]) \
-            -> np.ndarray:
+    def _dijkstra(self, node_ind: int, distances: list[float], path_mx: np.ndarray, roads_available_set: set[str],
+                  used_roads: dict[int, str]) -> np.ndarray:
         prior_queue = [(.0, node_ind)]
         distances[node_ind] = 0
 
@@ -159,6 +159,7 @@ class LandscapeConfiguration:
                 if d < distances[finish_ind]:
                     distances[finish_ind] = d
                     path_mx[node_ind][finish_ind] = v
+                    used_roads[finish_ind] = road.id
                     heapq.heappush(prior_queue, (d, finish_ind))
         return path_mx
 
@@ -183,7 +184,9 @@ class LandscapeConfiguration:
 
         from_ind = self._node2ind[from_node]
         to_ind = self._node2ind[to_node]
-        path_mx = self._dijkstra(to_ind, distances, path_mx, roads_available_set)
+        # the last road of the way from to_node to each of the nodes
+        used_roads: dict[int, str] = {}
+        path_mx = self._dijkstra(to_ind, distances, path_mx, roads_available_set, used_roads)
 
         if path_mx[to_ind][from_ind] == -1:
             return []
@@ -195,7 +198,7 @@ class LandscapeConfiguration:
             fr = path_mx[to_ind][fr]
         path.append(to_ind)
 
-        return [self.road_mx[path[v]][path[v + 1]] for v in range(len(path) - 1)]
+        return [used_roads[v] for v in path[:-1]]
 
     @cached_property
     def holders(self) -> list[ResourceHolder]:
@@ -248,9 +251,9 @@ class LandscapeConfiguration:
                     path_mx[v][u] = 0
                 elif dist_mx[v][u] != np.inf:
                     path_mx[v][u] = v
-                    for road in self.lg.nodes[v].roads:
-                        if self.lg.node2ind[road.finish] == u:
-                            road_mx[v][u] = road.id
+                    # there can be several roads between two nodes, the shortest one is taken
+                    road_mx[v][u] = min((road for road in self.lg.nodes[v].roads
+                                         if self.lg.node2ind[road.finish] == u), key=lambda road: road.weight).id
                 else:
                     path_mx[v][u] = -1
 
diff --git a/sampo/schemas/landscape_graph.py b/sampo/schemas/landscape_graph.py
index 828be0e..4f2896e 100644
--- a/sampo/schemas/landscape_graph.py
+++ b/sampo/schemas/landscape_graph.py
@@ -140,6 +140,7 @@ class LandGraph:
         for v, i in node2ind.items():
             for child in v.roads:
                 c_i = node2ind[child.finish]
-                adj_mtrx[i, c_i] = child.weight
+                # there can be several roads between two nodes
+                adj_mtrx[i, c_i] = min(adj_mtrx[i, c_i], child.weight)
 
         return adj_mtrx, node2ind, id2ind
-- 
2.43.0


From b2adff435c60357775408b0b07e148d3b681bceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:51 +0000
Subject: [PATCH 84/98] fix: there is no route between nodes that are not
 connected

---
 sampo/schemas/landscape.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sampo/schemas/landscape.py b/sampo/schemas/landscape.py
index e9fee4e..7fcd26e 100644
--- a/sampo/schemas/landscape.py
+++ b/sampo/schemas/landscape.py
@@ -126,11 +126,14 @@ class LandscapeConfiguration:
 
     def get_route(self, from_node: LandGraphNode, to_node: LandGraphNode) -> list[str]:
         """
-        Return a list of roads' id that are part of the route
+        Return a list of roads' id that are part of the route, it is empty if there is no route
         """
         from_ind = self._node2ind[from_node]
         to_ind = self._node2ind[to_node]
 
+        if self.path_mx[from_ind][to_ind] == -1:
+            return []
+
         path = [to_ind]
         to = to_ind
         while self.path_mx[from_ind][to] != from_ind:
-- 
2.43.0


From ce8dee316f315cf17a82da2923110f2965afdede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:51 +0000
Subject: [PATCH 85/98] fix: neighbours of a land graph node were lost or could
 not be given at all

---
 sampo/schemas/landscape_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/schemas/landscape_graph.py b/sampo/schemas/landscape_graph.py
index 4f2896e..d113959 100644
--- a/sampo/schemas/landscape_graph.py
+++ b/sampo/schemas/landscape_graph.py
@@ -52,9 +52,9 @@ class LandGraphNode:
         """
         self.id = id
         self.name = name
+        self._roads: list[LandEdge] = []
         if not (neighbour_nodes is None):
             self.add_neighbours(neighbour_nodes)
-        self._roads: list[LandEdge] = []
         self.nodes: list['GraphNode'] = []
         if works is not None:
             self.nodes.extend(works) if isinstance(works, list) else self.nodes.append(works)
@@ -63,7 +63,7 @@ class LandGraphNode:
     def __hash__(self):
         return hash(self.id)
 
-    @cached_property
+    @property
     def neighbours(self) -> list['LandGraphNode']:
         if self._roads:
             return [neighbour_edge.finish for neighbour_edge in self._roads]
-- 
2.43.0


From a9f1ae4129d6b4648f9cc78efaba83928ca86be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:42 +0000
Subject: [PATCH 86/98] fix: generated graphs must keep the borders for the
 number of works and follow the seed

---
 sampo/generator/pipeline/project.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sampo/generator/pipeline/project.py b/sampo/generator/pipeline/project.py
index a8031de..44912ae 100644
--- a/sampo/generator/pipeline/project.py
+++ b/sampo/generator/pipeline/project.py
@@ -107,6 +107,10 @@ def get_graph(mode: SyntheticGraphType | None = SyntheticGraphType.GENERAL,
         checkpoints, roads, count_works = _get_cluster_graph(f'{cluster_name_prefix}{masters_clusters_ind}',
                                                              addition_cluster_probability=addition_cluster_probability,
                                                              rand=rand)
+        # the cluster that does not fit under the top border is not added
+        if stages and 0 < top_border < count_works + works_generated:
+            break
+
         root_stage = get_root_stage(stages, branching_probability, rand)
         if root_stage is not None:
             for checkpoint in checkpoints:
@@ -120,8 +124,8 @@ def get_graph(mode: SyntheticGraphType | None = SyntheticGraphType.GENERAL,
                 or 0 < cluster_counts <= (len(stages) - 1)):
             break
 
-    if len(stages) == 1:
-        return get_small_graph(cluster_name=f'{cluster_name_prefix}1')
+    if len(stages) == 1 and bottom_border <= 0 or 0 < top_border < works_generated:
+        return get_small_graph(cluster_name=f'{cluster_name_prefix}1', rand=rand)
 
     nodes = [road for _, roads in stages for road in roads.values()]
     nodes.extend([c for c, _ in stages])
-- 
2.43.0


From cef2288aa7070403669bed43353d087c911c1e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:42 +0000
Subject: [PATCH 87/98] fix: generated graph had one cluster more than
 requested

---
 sampo/generator/pipeline/project.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/generator/pipeline/project.py b/sampo/generator/pipeline/project.py
index 44912ae..ee46fe6 100644
--- a/sampo/generator/pipeline/project.py
+++ b/sampo/generator/pipeline/project.py
@@ -101,7 +101,7 @@ def get_graph(mode: SyntheticGraphType | None = SyntheticGraphType.GENERAL,
     stages = []
 
     while True:
-        if cluster_counts > 0 and cluster_counts == len(stages) - 1:
+        if cluster_counts > 0 and len(stages) == cluster_counts - 1:
             addition_cluster_probability = 0
 
         checkpoints, roads, count_works = _get_cluster_graph(f'{cluster_name_prefix}{masters_clusters_ind}',
@@ -121,7 +121,7 @@ def get_graph(mode: SyntheticGraphType | None = SyntheticGraphType.GENERAL,
         works_generated += count_works
 
         if (0 < bottom_border <= works_generated or 0 < top_border < count_works + works_generated
-                or 0 < cluster_counts <= (len(stages) - 1)):
+                or 0 < cluster_counts <= len(stages)):
             break
 
     if len(stages) == 1 and bottom_border <= 0 or 0 < top_border < works_generated:
-- 
2.43.0


From 41514af1b4f82974b84035863057208bddd194c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:42 +0000
Subject: [PATCH 88/98] fix: generated data must depend on the seed only

---
 sampo/generator/pipeline/extension.py   | 4 ++--
 sampo/utilities/sampler/requirements.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sampo/generator/pipeline/extension.py b/sampo/generator/pipeline/extension.py
index a91237d..f4661d3 100644
--- a/sampo/generator/pipeline/extension.py
+++ b/sampo/generator/pipeline/extension.py
@@ -23,7 +23,7 @@ def _extend_str_fields(new_uniq_count: int, wg: WorkGraph, rand: Random,
 
 
 def _get_uniq_resource_kinds(wg: WorkGraph) -> list[str]:
-    uniq_res_kinds = list(set(req.kind for req in chain(*[n.work_unit.worker_reqs for n in wg.nodes])))
+    uniq_res_kinds = sorted(set(req.kind for req in chain(*[n.work_unit.worker_reqs for n in wg.nodes])))
     return uniq_res_kinds
 
 
@@ -39,7 +39,7 @@ def _update_resource_names(node: GraphNode, name_to_suffixes: dict[str, list[str
 
 def _get_uniq_work_names(wg: WorkGraph) -> list[str]:
     start_finish_names = {wg.start.work_unit.name, wg.finish.work_unit.name}
-    uniq_work_names = list(set(node.work_unit.name for node in wg.nodes) - start_finish_names)
+    uniq_work_names = sorted(set(node.work_unit.name for node in wg.nodes) - start_finish_names)
     return uniq_work_names
 
 
diff --git a/sampo/utilities/sampler/requirements.py b/sampo/utilities/sampler/requirements.py
index 2bbeb2d..d9a6971 100644
--- a/sampo/utilities/sampler/requirements.py
+++ b/sampo/utilities/sampler/requirements.py
@@ -19,7 +19,7 @@ def get_worker_reqs_list(rand: random.Random,
                          volume: Optional[MinMax[int]] = MinMax[int](1, 50),
                          worker_count: Optional[MinMax[int]] = MinMax[int](1, 100)
                          ) -> list[WorkerReq]:
-    names: list[WorkerSpecialization] = list(WORKER_TYPES)
+    names: list[WorkerSpecialization] = sorted(WORKER_TYPES)
     rand.shuffle(names)
     req_count = rand.randint(1, len(names))
     names = names[:req_count]
-- 
2.43.0


From 4ac57d988aceaf43d58b84046c28cee2263df3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:42 +0000
Subject: [PATCH 89/98] fix: generated materials must keep the borders for the
 number of kinds and follow the seed

---
 sampo/generator/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sampo/generator/base.py b/sampo/generator/base.py
index c34f3ce..b5ab0e8 100644
--- a/sampo/generator/base.py
+++ b/sampo/generator/base.py
@@ -88,8 +88,8 @@ class SimpleSynthetic:
         """
         if materials_name is None:
             materials_name = ['stone', 'brick', 'sand', 'rubble', 'concrete', 'metal']
-            bottom_border = 2
-            top_border = 6
+            bottom_border = 2 if bottom_border is None else bottom_border
+            top_border = 6 if top_border is None else top_border
         else:
             if bottom_border is None:
                 bottom_border = len(materials_name) // 2
@@ -101,7 +101,7 @@ class SimpleSynthetic:
 
         for node in wg.nodes:
             if not node.work_unit.is_service_unit:
-                work_materials = list(set(self._rand.choices(materials_name, k=self._rand.randint(bottom_border, top_border))))
+                work_materials = self._rand.sample(materials_name, k=self._rand.randint(bottom_border, top_border))
                 node.work_unit.material_reqs = [MaterialReq(name, self._rand.randint(52, 345), name) for name in
                                                 work_materials]
 
-- 
2.43.0


From 2ad97f1bddf887e16716cccc3839ee4bc215ce59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:42 +0000
Subject: [PATCH 90/98] fix: vehicles of generated landscapes must be able to
 carry every material

---
 sampo/generator/environment/landscape.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/generator/environment/landscape.py b/sampo/generator/environment/landscape.py
index 1edea2f..dfb97f8 100644
--- a/sampo/generator/environment/landscape.py
+++ b/sampo/generator/environment/landscape.py
@@ -166,7 +166,7 @@ def get_landscape_by_wg(wg: WorkGraph, rnd: random.Random) -> LandscapeConfigura
         holders.append(ResourceHolder(str(uuid.uuid4()), holders_node[-1].name,
                                       vehicles=[
                                           Vehicle(str(uuid.uuid4()), f'vehicle{j}',
-                                                  [Material(name, name, count // 2)
+                                                  [Material(name, name, max(count // 2, 1))
                                                    for name, count in max_materials.items()])
                                           for j in range(vehicles_number)
                                       ], node=holders_node[-1]))
-- 
2.43.0


From 9800f92f7783ee9f663d8b318e34340574cf187e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:42 +0000
Subject: [PATCH 91/98] fix: generation of block graphs failed after all blocks
 were generated

---
 sampo/scheduler/multi_agency/block_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/scheduler/multi_agency/block_generator.py b/sampo/scheduler/multi_agency/block_generator.py
index 6038225..8efda21 100644
--- a/sampo/scheduler/multi_agency/block_generator.py
+++ b/sampo/scheduler/multi_agency/block_generator.py
@@ -93,7 +93,7 @@ def generate_blocks(graph_type: SyntheticBlockGraphType, n_blocks: int, type_pro
             bg.add_edge(global_start, node)
             bg.add_edge(node, global_end)
 
-    logger(f'{graph_type.name} ' + ' '.join([str(mode.model_name) for i, mode in enumerate(modes)
+    logger(f'{graph_type.name} ' + ' '.join([str(mode.name) for i, mode in enumerate(modes)
                                              if nodes[i].vertex_count != EMPTY_GRAPH_VERTEX_COUNT]))
     return bg
 
-- 
2.43.0


From a9225cc01066766711e8266a387a976829cacd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:44 +0000
Subject: [PATCH 92/98] fix: extension of work names always failed, as the
 names of works are kept in their models

---
 sampo/generator/pipeline/extension.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sampo/generator/pipeline/extension.py b/sampo/generator/pipeline/extension.py
index f4661d3..28e6d9a 100644
--- a/sampo/generator/pipeline/extension.py
+++ b/sampo/generator/pipeline/extension.py
@@ -38,16 +38,17 @@ def _update_resource_names(node: GraphNode, name_to_suffixes: dict[str, list[str
 
 
 def _get_uniq_work_names(wg: WorkGraph) -> list[str]:
-    start_finish_names = {wg.start.work_unit.name, wg.finish.work_unit.name}
-    uniq_work_names = sorted(set(node.work_unit.name for node in wg.nodes) - start_finish_names)
+    start_finish_names = {node.work_unit.model_name['granular_name'] for node in (wg.start, wg.finish)}
+    uniq_work_names = sorted(set(node.work_unit.model_name['granular_name'] for node in wg.nodes) - start_finish_names)
     return uniq_work_names
 
 
 def _update_work_name(node: GraphNode, name_to_suffixes: dict[str, list[str]], rand: Random) -> None:
-    name = node.work_unit.name
+    name = node.work_unit.model_name['granular_name']
     if name in name_to_suffixes:
         options = name_to_suffixes[name]
-        node.work_unit.name = name + options[rand.randint(0, len(options)-1)]
+        node.work_unit.model_name = dict(node.work_unit.model_name,
+                                         granular_name=name + options[rand.randint(0, len(options)-1)])
 
 
 def extend_resources(uniq_resources: int, wg: WorkGraph, rand: Random) -> WorkGraph:
-- 
2.43.0


From 4b81eaaa8657a0a4bff744ba4e9418e5a5dc9a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:56 +0000
Subject: [PATCH 93/98] fix: keep the order of given predecessors when their
 connections are taken from the history

---
 sampo/userinput/parser/history.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sampo/userinput/parser/history.py b/sampo/userinput/parser/history.py
index c1c8cec..d526d82 100644
--- a/sampo/userinput/parser/history.py
+++ b/sampo/userinput/parser/history.py
@@ -307,10 +307,11 @@ def set_connections_info(graph_df: pd.DataFrame,
         else:
             if row['predecessor_ids'] != ['-1']:
                 # if 'lags' is unknown, thus 'connection_type' is also unknown
-                pred_info_lst = [[pred_types_lst[i], pred_lags_lst[i], pred_counts_lst[i]]
-                                 for i in range(len(pred_ids_lst)) if pred_ids_lst[i] in row['predecessor_ids']]
+                pred_id2info = dict(zip(pred_ids_lst, zip(pred_types_lst, pred_lags_lst, pred_counts_lst)))
                 pred_ids_lst = row['predecessor_ids']
-                if len(pred_info_lst) > 0:
+                if any(pred_id in pred_id2info for pred_id in pred_ids_lst):
+                    # the info should be in the order of the predecessors
+                    pred_info_lst = [pred_id2info.get(pred_id, ('FS', 1, 0)) for pred_id in pred_ids_lst]
                     pred_types_lst, pred_lags_lst, pred_counts_lst = map(list, zip(*pred_info_lst))
                 else:
                     pred_types_lst, pred_lags_lst, pred_counts_lst = ['-1'], [1], [INF]
-- 
2.43.0


From 9b41a1ec07b4d7b5b3a6dc9e1a41b962a56410a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:56 +0000
Subject: [PATCH 94/98] fix: use the names of works when the history has no
 granular names

---
 sampo/userinput/parser/history.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sampo/userinput/parser/history.py b/sampo/userinput/parser/history.py
index d526d82..646b131 100644
--- a/sampo/userinput/parser/history.py
+++ b/sampo/userinput/parser/history.py
@@ -107,8 +107,6 @@ def get_all_seq_statistic(history_data: pd.DataFrame,
                           graph_df: pd.DataFrame,
                           use_model_name: bool = False,
                           mapper: NameMapper | None = None):
-    df_grouped = history_data.copy()
-
     if use_model_name:
         column_name = 'model_name'
     else:
@@ -116,7 +114,7 @@ def get_all_seq_statistic(history_data: pd.DataFrame,
             history_data['granular_name'] = [activity_name for activity_name in history_data['work_name']]
         column_name = 'granular_name'
 
-    df_grouped = df_grouped.groupby('upper_works')[column_name].apply(list).reset_index(name="Works")
+    df_grouped = history_data.groupby('upper_works')[column_name].apply(list).reset_index(name="Works")
     works1, works2 = get_all_connections(graph_df, use_model_name, mapper)
 
     # Declare structure with updated connections
-- 
2.43.0


From badf56b8ceb9af3f37d8d7c307c0bd7184bc36b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:13 +0000
Subject: [PATCH 95/98] fix: works were all named dummy, so probabilities of
 sub-works set for one work applied to all

---
 sampo/generator/pipeline/extension.py | 4 ++--
 sampo/schemas/works.py                | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/sampo/generator/pipeline/extension.py b/sampo/generator/pipeline/extension.py
index 28e6d9a..a3ea3fb 100644
--- a/sampo/generator/pipeline/extension.py
+++ b/sampo/generator/pipeline/extension.py
@@ -47,8 +47,8 @@ def _update_work_name(node: GraphNode, name_to_suffixes: dict[str, list[str]], r
     name = node.work_unit.model_name['granular_name']
     if name in name_to_suffixes:
         options = name_to_suffixes[name]
-        node.work_unit.model_name = dict(node.work_unit.model_name,
-                                         granular_name=name + options[rand.randint(0, len(options)-1)])
+        node.work_unit.name = name + options[rand.randint(0, len(options)-1)]
+        node.work_unit.model_name = dict(node.work_unit.model_name, granular_name=node.work_unit.name)
 
 
 def extend_resources(uniq_resources: int, wg: WorkGraph, rand: Random) -> WorkGraph:
diff --git a/sampo/schemas/works.py b/sampo/schemas/works.py
index 091bbe2..0b78ca1 100644
--- a/sampo/schemas/works.py
+++ b/sampo/schemas/works.py
@@ -50,7 +50,7 @@ class WorkUnit(AutoJSONSerializable['WorkUnit'], Identifiable):
 
         self.model_name = model_name
 
-        super(WorkUnit, self).__init__(id, 'dummy')
+        super(WorkUnit, self).__init__(id, model_name['granular_name'])
 
         if material_reqs is None:
             material_reqs = []
-- 
2.43.0


From e963496e2ac9d5382774914513499695336164f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:13 +0000
Subject: [PATCH 96/98] fix: generated sub-works should not have a higher
 priority than the work they follow

---
 sampo/schemas/structure_estimator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/schemas/structure_estimator.py b/sampo/schemas/structure_estimator.py
index fc461c7..bb704ef 100644
--- a/sampo/schemas/structure_estimator.py
+++ b/sampo/schemas/structure_estimator.py
@@ -67,7 +67,8 @@ class DefaultStructureEstimator(StructureEstimator):
 
         worker_reqs = self._work_estimator.find_work_resources(sub_work_name, volume)
         return WorkUnit(str(uuid4()), sub_work_name,
-                        worker_reqs=worker_reqs, zone_reqs=zone_reqs, volume=volume)
+                        worker_reqs=worker_reqs, zone_reqs=zone_reqs, volume=volume,
+                        priority=work_unit.priority)
 
     def _gen_sub_works(self, work_unit: WorkUnit) -> list[WorkUnit]:
         probabilities = list(self._generator.generate_probabilities(work_unit).items())
-- 
2.43.0


From 7b6b6ef121721b9c6078c323d7536198c73341ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:13 +0000
Subject: [PATCH 97/98] fix: work estimators expect the model of a work, not
 its name

---
 sampo/schemas/structure_estimator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sampo/schemas/structure_estimator.py b/sampo/schemas/structure_estimator.py
index bb704ef..ad8edb8 100644
--- a/sampo/schemas/structure_estimator.py
+++ b/sampo/schemas/structure_estimator.py
@@ -65,8 +65,9 @@ class DefaultStructureEstimator(StructureEstimator):
         zone_reqs = deepcopy(work_unit.zone_reqs)
         volume = float(self._generator.get_volume(work_unit, sub_work_name))
 
-        worker_reqs = self._work_estimator.find_work_resources(sub_work_name, volume)
-        return WorkUnit(str(uuid4()), sub_work_name,
+        model_name = {'granular_name': sub_work_name, 'measurement': 'unit'}
+        worker_reqs = self._work_estimator.find_work_resources(model_name, volume)
+        return WorkUnit(str(uuid4()), model_name,
                         worker_reqs=worker_reqs, zone_reqs=zone_reqs, volume=volume,
                         priority=work_unit.priority)
 
-- 
2.43.0


From 3cc18be0177e070dc39c7743ced3d11d680fda17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:32 +0000
Subject: [PATCH 98/98] fix: a table of probabilities of sub-works need not
 name every work and is left unchanged

---
 sampo/schemas/structure_estimator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sampo/schemas/structure_estimator.py b/sampo/schemas/structure_estimator.py
index ad8edb8..9f399a6 100644
--- a/sampo/schemas/structure_estimator.py
+++ b/sampo/schemas/structure_estimator.py
@@ -26,7 +26,9 @@ class DefaultStructureGenerationEstimator(StructureGenerationEstimator):
         self._volume = IntervalGaussian(5, 2, 0.1, 10, self._rand)
 
     def set_probabilities(self, defect_probabilities: dict[str, dict[str, float]]) -> 'DefaultStructureGenerationEstimator':
-        self._gen_probabilities = defect_probabilities
+        self._gen_probabilities = defaultdict(lambda: defaultdict(float),
+                                              {parent: dict(probabilities)
+                                               for parent, probabilities in defect_probabilities.items()})
         return self
 
     def set_probability(self, parent: str, child: str, probability: float) -> 'DefaultStructureGenerationEstimator':
-- 
2.43.0

