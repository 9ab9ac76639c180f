From ca1b6176af7393389bd5f40101b68ba1b0761abe Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 01/23] fix: forget the cached feasibility of a stop when its
 schedule is flushed

---
 jinete/models/stops.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jinete/models/stops.py b/jinete/models/stops.py
index bb3833f..26da533 100644
--- a/jinete/models/stops.py
+++ b/jinete/models/stops.py
@@ -227,6 +227,7 @@ class Stop(Model):
             "arrival_time",
             "departure_time",
             "capacity",
+            "feasible",
         ):
             self.__dict__.pop(key, None)
         for planned_trip in self.planned_trips:
-- 
2.43.0


From 9fd91803d98c94c2f903ef4630c126fe5dbf83f9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 02/23] fix: return the inserted stop instead of the last one
 of the route

---
 jinete/models/routes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jinete/models/routes.py b/jinete/models/routes.py
index 3f3dba2..f57cc8f 100644
--- a/jinete/models/routes.py
+++ b/jinete/models/routes.py
@@ -251,8 +251,8 @@ class Route(Model):
 
         self.stops.insert(idx, stop)
 
-        for stop in self.stops[idx:]:
-            stop.flush()
+        for flushed_stop in self.stops[idx:]:
+            flushed_stop.flush()
 
         return stop
 
-- 
2.43.0


From d7af2916755c3930ef71b1a24c7f0c344cc2222b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 03/23] fix: forget the cached feasibility of a route when its
 stops change

---
 jinete/models/routes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jinete/models/routes.py b/jinete/models/routes.py
index f57cc8f..9a17426 100644
--- a/jinete/models/routes.py
+++ b/jinete/models/routes.py
@@ -251,6 +251,7 @@ class Route(Model):
 
         self.stops.insert(idx, stop)
 
+        self.__dict__.pop("feasible", None)
         for flushed_stop in self.stops[idx:]:
             flushed_stop.flush()
 
@@ -265,6 +266,7 @@ class Route(Model):
 
         removed_stop = self.stops.pop(idx)
 
+        self.__dict__.pop("feasible", None)
         for stop in self.stops[idx:]:
             stop.flush()
         return removed_stop
-- 
2.43.0


From 93659c2f231ca089353241ba0beae218c5262f66 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 04/23] fix: flush the whole route when two of its stops are
 flipped

---
 .../heuristics/local_search/strategies/routes/one_shift.py     | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py b/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py
index 67ed11e..831e008 100644
--- a/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py
+++ b/jinete/algorithms/heuristics/local_search/strategies/routes/one_shift.py
@@ -48,5 +48,4 @@ class OneShiftLocalSearchStrategy(LocalSearchStrategy):
         other.previous = previous.previous
         previous.previous = other
 
-        for stop in route.stops[self_index:]:
-            stop.flush()
+        route.flush()
-- 
2.43.0


From c80f5ffcb602b527f108c623a3e8fd8988367f6e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 05/23] fix: pass the candidates as an iterable to the best
 stateless insertion ranking

---
 jinete/algorithms/heuristics/insertion/iterators/stateless.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/algorithms/heuristics/insertion/iterators/stateless.py b/jinete/algorithms/heuristics/insertion/iterators/stateless.py
index e0a5c4e..385ff35 100644
--- a/jinete/algorithms/heuristics/insertion/iterators/stateless.py
+++ b/jinete/algorithms/heuristics/insertion/iterators/stateless.py
@@ -55,7 +55,7 @@ class BestStatelessInsertionIterator(StatelessInsertionIterator):
         self.random = Random(seed)
 
     def __next__(self) -> Route:
-        candidates = self._criterion.nbest(self.randomized_size, *self.iterator)
+        candidates = self._criterion.nbest(self.randomized_size, self.iterator)
 
         if not any(candidates):
             raise StopIteration
-- 
2.43.0


From c2c316a34ffc99ac2b4f58b0f2fde4e778172234 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 06/23] fix: consider feasible a planning without routes

---
 jinete/models/plannings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/models/plannings.py b/jinete/models/plannings.py
index d489f89..df171ff 100644
--- a/jinete/models/plannings.py
+++ b/jinete/models/plannings.py
@@ -74,7 +74,7 @@ class Planning(Model):
 
     @property
     def feasible(self) -> bool:
-        return reduce(and_, (route.feasible for route in self.routes))
+        return reduce(and_, (route.feasible for route in self.routes), True)
 
     def __iter__(self) -> Generator[Tuple[str, Any], None, None]:
         yield from (("uuid", self.uuid), ("route_identifiers", tuple(route.identifier for route in self.routes)))
-- 
2.43.0


From 0d56943035deae186761cb576253d229737acb18 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 07/23] fix: compute the coverage rate of a job without trips

---
 jinete/models/results.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jinete/models/results.py b/jinete/models/results.py
index 79fdd8d..70ea2e8 100644
--- a/jinete/models/results.py
+++ b/jinete/models/results.py
@@ -78,6 +78,8 @@ class Result(Model):
 
     @property
     def coverage_rate(self):
+        if not self.job.trips:
+            return 1.0
         return len(self.completed_trips) / len(self.job.trips)
 
     @property
-- 
2.43.0


From 92f90b28492e3041f96bd48b2c14cb47e526a6c9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 08/23] fix: tolerate rounding errors when unloading fractional
 capacities

---
 jinete/models/stops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/models/stops.py b/jinete/models/stops.py
index 26da533..6f537ae 100644
--- a/jinete/models/stops.py
+++ b/jinete/models/stops.py
@@ -100,7 +100,7 @@ class Stop(Model):
         result = self.previous_capacity
         result += sum(trip.capacity for trip in self.pickup_planned_trips)
         result -= sum(trip.capacity for trip in self.delivery_planned_trips)
-        assert 0 <= result
+        assert 0 - ERROR_BOUND <= result
         return result
 
     @property
-- 
2.43.0


From 6f90a4f345e83dba708b818eb9238c8a90cbbd6e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:17 +0000
Subject: [PATCH 09/23] fix: offer the current routes instead of outdated ones
 to insertion iterators

---
 .../heuristics/insertion/iterators/abc.py         | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/jinete/algorithms/heuristics/insertion/iterators/abc.py b/jinete/algorithms/heuristics/insertion/iterators/abc.py
index bbad14f..7170bc3 100644
--- a/jinete/algorithms/heuristics/insertion/iterators/abc.py
+++ b/jinete/algorithms/heuristics/insertion/iterators/abc.py
@@ -77,7 +77,6 @@ class InsertionIterator(ABC):
         self.fleet = fleet
         self.job = job
         self.routes_container = {route.vehicle: route for route in routes}
-        self.__attractive_routes = None
         self.pending_trips = pending_trips
 
         self.strategy_cls = strategy_cls
@@ -92,14 +91,12 @@ class InsertionIterator(ABC):
 
     @property
     def _attractive_routes(self) -> Set[Route]:
-        if self.__attractive_routes is None:
-            self.__attractive_routes = set(route for route in self._routes if any(route.planned_trips))
-
-        if not any(any(route.planned_trips) for route in self.__attractive_routes):
-            empty_route = next((route for route in self._routes if not any(route.planned_trips)), None)
-            if empty_route is not None:
-                self.__attractive_routes.add(empty_route)
-        return self.__attractive_routes
+        routes = self.routes_container.values()
+        attractive_routes = set(route for route in routes if any(route.planned_trips))
+        empty_route = next((route for route in routes if not any(route.planned_trips)), None)
+        if empty_route is not None:
+            attractive_routes.add(empty_route)
+        return attractive_routes
 
     def _set_route(self, route: Route) -> None:
         vehicle = route.vehicle
-- 
2.43.0


From e4ed98c7fb8ec5c10eda7d770718449b065adea4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:01 +0000
Subject: [PATCH 10/23] fix: accumulate the departure delay and do not apply it
 over shared stops

---
 jinete/algorithms/heuristics/insertion/strategies/abc.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/jinete/algorithms/heuristics/insertion/strategies/abc.py b/jinete/algorithms/heuristics/insertion/strategies/abc.py
index 1d5b068..7a087a8 100644
--- a/jinete/algorithms/heuristics/insertion/strategies/abc.py
+++ b/jinete/algorithms/heuristics/insertion/strategies/abc.py
@@ -55,7 +55,9 @@ class InsertionStrategy(object):
         return routes
 
     def _compute_one(self, route: Route, trip: Trip, previous_idx: int, following_idx: int, *args, **kwargs) -> Route:
-        cloner = RouteCloner(route, previous_idx + 1)
+        # The departure is going to be delayed when there is a wait on the second stop, so no stop can be shared.
+        idx = previous_idx + 1 if route.stops[1].waiting_time == 0 else 0
+        cloner = RouteCloner(route, idx)
         route = cloner.clone()
 
         pickup = self._build_pickup(route, trip, previous_idx)
@@ -69,8 +71,8 @@ class InsertionStrategy(object):
 
     def _improve_ride_times(self, route: Route, idx: int) -> None:
         if route.stops[1].waiting_time != 0:
-            route.stops[0].starting_time = route.stops[1].waiting_time
-            route.stops[0].flush(), route.stops[1].flush()
+            route.stops[0].starting_time += route.stops[1].waiting_time
+            route.flush()
 
         if route.feasible:
             return
-- 
2.43.0


From 1c7f8ed552b936f0d5d589e886250cd914f7a967 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:17 +0000
Subject: [PATCH 11/23] fix: keep only the best route of each vehicle found by
 the 2-opt local search

---
 .../heuristics/local_search/strategies/routes/two_opt.py    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py b/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py
index 8a73514..3830e6b 100644
--- a/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py
+++ b/jinete/algorithms/heuristics/local_search/strategies/routes/two_opt.py
@@ -19,6 +19,7 @@ class TwoOPTLocalSearchStrategy(LocalSearchStrategy):
         for route in self._routes:
             logger.info(f'Improving route performed with vehicle identified by "{route.vehicle_identifier}"...')
             cost = self._objective.optimization_function(route)
+            improved_route = None
 
             for i, k in combinations(range(1, len(route.stops) - 1), 2):
                 j = k + 1
@@ -53,7 +54,10 @@ class TwoOPTLocalSearchStrategy(LocalSearchStrategy):
                     continue
 
                 logger.info(f'Improved planning with "{self.__class__.__name__}": "{new_cost}" > "{cost}"')
-                overwritten_routes.add(new_route)
+                improved_route = new_route
                 cost = new_cost
 
+            if improved_route is not None:
+                overwritten_routes.add(improved_route)
+
         self._update_routes(overwritten_routes)
-- 
2.43.0


From 0d6f619c34da6dd52065d5638e1efa1c8f9831d7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:01 +0000
Subject: [PATCH 12/23] fix: use the requested local search strategy on
 sequential algorithms

---
 jinete/algorithms/metaheuristics/sequential.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/jinete/algorithms/metaheuristics/sequential.py b/jinete/algorithms/metaheuristics/sequential.py
index 61b250d..476d41a 100644
--- a/jinete/algorithms/metaheuristics/sequential.py
+++ b/jinete/algorithms/metaheuristics/sequential.py
@@ -62,11 +62,17 @@ class SequentialAlgorithm(Algorithm):
             from ..heuristics import (
                 InsertionAlgorithm,
                 LocalSearchAlgorithm,
+                LocalSearchStrategy,
                 ReallocationLocalSearchStrategy,
             )
 
+            local_search_kwargs = {**kwargs, "strategy_cls": ReallocationLocalSearchStrategy}
+            strategy_cls = kwargs.get("strategy_cls")
+            if isinstance(strategy_cls, type) and issubclass(strategy_cls, LocalSearchStrategy):
+                local_search_kwargs["strategy_cls"] = kwargs.pop("strategy_cls")
+
             algorithms_cls = [
-                (LocalSearchAlgorithm, {**kwargs, "strategy_cls": ReallocationLocalSearchStrategy}),
+                (LocalSearchAlgorithm, local_search_kwargs),
                 (InsertionAlgorithm, kwargs),
             ]
 
-- 
2.43.0


From a4f54db1e1b541f3926a7c4431ab1b3dc2008d53 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:16 +0000
Subject: [PATCH 13/23] fix: keep the stops shared with other trips when a trip
 is removed from a route

---
 jinete/models/routes.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/jinete/models/routes.py b/jinete/models/routes.py
index 9a17426..7199254 100644
--- a/jinete/models/routes.py
+++ b/jinete/models/routes.py
@@ -286,15 +286,18 @@ class Route(Model):
 
     def remove_trip(self, trip: Trip) -> None:
 
-        old_len = len(self.stops)
-
         for i in reversed(range(len(self.stops))):
             stop = self.stops[i]
             if trip not in stop.trips:
                 continue
+            stop.pickup_planned_trips = {pickup for pickup in stop.pickup_planned_trips if pickup.trip != trip}
+            stop.delivery_planned_trips = {dlv for dlv in stop.delivery_planned_trips if dlv.trip != trip}
+            if any(stop.planned_trips):
+                # The stop is still needed by other trips, so only its share of work is removed.
+                self.flush()
+                continue
             self.remove_stop_at(i)
 
-        assert old_len - 2 == len(self.stops)
         assert all(s1 == s2.previous for s1, s2 in zip(self.stops[:-1], self.stops[1:]))
         assert all(s1.departure_time <= s2.arrival_time for s1, s2 in zip(self.stops[:-1], self.stops[1:]))
 
-- 
2.43.0


From 8245e8ff61175924981be6109c9f533f8600ea71 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:57 +0000
Subject: [PATCH 14/23] fix: load the latest finish of HashCode rides as the
 deadline of the arrival

---
 jinete/loaders/formatters/hashcode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jinete/loaders/formatters/hashcode.py b/jinete/loaders/formatters/hashcode.py
index ee20fb9..56eec81 100644
--- a/jinete/loaders/formatters/hashcode.py
+++ b/jinete/loaders/formatters/hashcode.py
@@ -70,8 +70,8 @@ class HashCodeLoaderFormatter(LoaderFormatter):
         earliest: float,
         latest: float,
     ) -> Trip:
-        origin = Service(position=surface.get_or_create_position([x1, y1]), earliest=earliest, latest=latest,)
-        destination = Service(position=surface.get_or_create_position([x2, y2]),)
+        origin = Service(position=surface.get_or_create_position([x1, y1]), earliest=earliest,)
+        destination = Service(position=surface.get_or_create_position([x2, y2]), latest=latest,)
         trip = Trip(identifier, on_time_bonus=bonus, origin=origin, destination=destination)
         logger.debug("Created trip!")
         return trip
-- 
2.43.0


From 6f98a67a917e1a213226a7e57baee4d2c9bea207 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:46 +0000
Subject: [PATCH 15/23] fix: do not penalize arcs between different nodes
 placed at the same position

---
 jinete/algorithms/exacts/models/three_index.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index a558f83..d9239c4 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -151,10 +151,10 @@ class ThreeIndexLinearModel(LinearModel):
     @cached_property
     def _costs(self):
         costs = list()
-        for origin in self._positions:
+        for i, origin in enumerate(self._positions):
             origin_costs = list()
-            for destination in self._positions:
-                if origin == destination:
+            for j, destination in enumerate(self._positions):
+                if i == j:
                     cost = BIG
                 else:
                     cost = origin.distance_to(destination)
-- 
2.43.0


From 941279fb496b05f0ecaa770e735c8bc9f1e5fe3f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:59 +0000
Subject: [PATCH 16/23] fix: distinguish pickups from deliveries by node on the
 time windows of the model

---
 jinete/algorithms/exacts/models/three_index.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index d9239c4..6e9b6f8 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -191,16 +191,13 @@ class ThreeIndexLinearModel(LinearModel):
         return self._positions.index(position)
 
     def _time_window_by_position_idx(self, idx: int) -> Tuple[float, float]:
-        position = self._positions[idx]
         trip = self._trip_by_position_idx(idx)
         if trip is None:
             earliest, latest = 0, 1440
-        elif position == trip.origin_position:
+        elif idx <= self._n:
             earliest, latest = trip.origin_earliest, trip.origin_latest
-        elif position == trip.destination_position:
-            earliest, latest = trip.destination_earliest, trip.destination_latest
         else:
-            raise Exception("There was a problem related with earliest, latest indices.")
+            earliest, latest = trip.destination_earliest, trip.destination_latest
         return earliest, latest
 
     def _capacity_by_position_idx(self, idx: int) -> float:
-- 
2.43.0


From 3807758511f0e0f32488aa9ec66829b83fc8b5d7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:59 +0000
Subject: [PATCH 17/23] fix: use the duration of the destination as the load
 time of deliveries on the model

---
 jinete/algorithms/exacts/models/three_index.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index 6e9b6f8..8092c87 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -215,6 +215,8 @@ class ThreeIndexLinearModel(LinearModel):
         trip = self._trip_by_position_idx(idx)
         if trip is None:
             return 0
+        if idx > self._n:
+            return trip.destination_duration
         return trip.origin_duration
 
     def _timeout_by_position_idx(self, idx: int) -> float:
-- 
2.43.0


From f8699ab2120c6c8e62ec59a90ca5f734da167a3b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:21 +0000
Subject: [PATCH 18/23] fix: rebuild the routes of the model by following the
 arcs of its solution

---
 .../algorithms/exacts/models/three_index.py   | 82 ++++++-------------
 1 file changed, 26 insertions(+), 56 deletions(-)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index 8092c87..de258e0 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -5,9 +5,6 @@ from __future__ import (
 )
 
 import logging
-from collections import (
-    defaultdict,
-)
 from itertools import (
     product,
 )
@@ -36,7 +33,6 @@ if TYPE_CHECKING:
         Tuple,
         Iterable,
         Optional,
-        Dict,
     )
     from jinete.models import (
         Trip,
@@ -187,9 +183,6 @@ class ThreeIndexLinearModel(LinearModel):
             return None
         return self._trips[(idx % self._n) - 1]
 
-    def _idx_by_position(self, position: Position):
-        return self._positions.index(position)
-
     def _time_window_by_position_idx(self, idx: int) -> Tuple[float, float]:
         trip = self._trip_by_position_idx(idx)
         if trip is None:
@@ -381,12 +374,11 @@ class ThreeIndexLinearModel(LinearModel):
             vehicle = self._vehicles[k]
             route = Route(vehicle)
 
-            positions = self._solution_to_positions(k)
-            stops = self._positions_to_stops(route, positions)
-            trips = self._positions_to_trips(positions)
+            nodes = self._solution_to_nodes(k)
+            stops = self._nodes_to_stops(route, nodes)
 
-            self._build_planned_trips(vehicle, trips, stops)
-            self._adjust_waiting_times(stops, k)
+            self._build_planned_trips(vehicle, nodes, stops)
+            self._adjust_waiting_times(nodes, stops, k)
 
             for stop in stops:
                 route.insert_stop(stop)
@@ -394,57 +386,35 @@ class ThreeIndexLinearModel(LinearModel):
             routes.add(route)
         return routes
 
-    def _positions_to_trips(self, positions) -> List[Trip]:
-        trips: List[Trip] = list()
-        for position in positions:
-            trip = next((trip for trip in self._trips if trip.origin_position == position), None)
-            if trip is None:
-                continue
-            if trip in trips:
-                continue
-            trips.append(trip)
-        return trips
-
-    def _build_planned_trips(self, vehicle: Vehicle, trips: List[Trip], stops: List[Stop]) -> List[PlannedTrip]:
-        stop_mapper = self._stop_to_stop_mapper(stops)
+    def _build_planned_trips(self, vehicle: Vehicle, nodes: List[int], stops: List[Stop]) -> List[PlannedTrip]:
+        stop_mapper = dict(zip(nodes, stops))
 
         planned_trips = list()
-        for trip in trips:
-            pickup = stop_mapper[trip.origin_position].pop(0)
-            delivery = stop_mapper[trip.destination_position].pop(0)
-            planned_trip = PlannedTrip(vehicle, trip, pickup, delivery)
+        for node in nodes:
+            if node not in self._pickups_indexer:
+                continue
+            trip = self._trip_by_position_idx(node)
+            planned_trip = PlannedTrip(vehicle, trip, stop_mapper[node], stop_mapper[node + self._n])
             planned_trips.append(planned_trip)
         return planned_trips
 
-    def _solution_to_positions(self, k: int) -> List[Position]:
-        ordered_trip_indexes = [idx for idx in sorted(range(len(self._u[k])), key=lambda x: self._u[k][x].varValue)]
+    def _solution_to_nodes(self, k: int) -> List[int]:
+        last = len(self._positions) - 1
 
-        positions = list()
-        for i, j in product(ordered_trip_indexes, self._positions_indexer):
-            if not int(self._x[k][i][j].varValue) == 1:
-                continue
-            positions.append(self._positions[i])
-        return positions
+        nodes = [0]
+        while True:
+            node = next(j for j in self._positions_indexer if round(self._x[k][nodes[-1]][j].varValue) == 1)
+            if node == last:
+                return nodes
+            nodes.append(node)
 
-    @staticmethod
-    def _positions_to_stops(route, positions) -> List[Stop]:
+    def _nodes_to_stops(self, route: Route, nodes: List[int]) -> List[Stop]:
         stops = [route.first_stop]
-        for position in positions:
-            if position == stops[-1].position:
-                continue
-            pickup = Stop(route.vehicle, position, stops[-1])
-            stops.append(pickup)
+        for node in nodes[1:]:
+            stop = Stop(route.vehicle, self._positions[node], stops[-1])
+            stops.append(stop)
         return stops
 
-    @staticmethod
-    def _stop_to_stop_mapper(stops: List[Stop]) -> Dict[Position, List[Stop]]:
-        mapper: Dict[Position, List[Stop]] = defaultdict(list)
-        for stop in stops:
-            mapper[stop.position].append(stop)
-        return mapper
-
-    def _adjust_waiting_times(self, stops: List[Stop], k: int):
-        starting_times = tuple(float(u_k.varValue) for u_k in self._u[k])
-        for stop in stops:
-            stop.flush()
-            stop.starting_time = starting_times[self._idx_by_position(stop.position)]
+    def _adjust_waiting_times(self, nodes: List[int], stops: List[Stop], k: int):
+        for node, stop in zip(nodes, stops):
+            stop.starting_time = float(self._u[k][node].varValue)
-- 
2.43.0


From c8f26b617c776feab0b60e49d315052faf483881 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:36 +0000
Subject: [PATCH 19/23] fix: forbid the arcs of the model which can not be part
 of a route

---
 jinete/algorithms/exacts/models/three_index.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index de258e0..78a7ab2 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -251,6 +251,10 @@ class ThreeIndexLinearModel(LinearModel):
             lhs = lp.lpSum(self._x[k][i][-1] for i in self._positions_indexer)
             constraints.append(lhs == 1)
 
+            # Arcs which can not be part of a route: self loops, returns to the origin and exits from the destination.
+            lhs = lp.lpSum(self._x[k][i][i] + self._x[k][i][0] + self._x[k][-1][i] for i in self._positions_indexer)
+            constraints.append(lhs == 0)
+
         return constraints
 
     @cached_property
-- 
2.43.0


From 3fe225d3a47c3cb1b64c710bbff2aa6bd95ae9f3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:50 +0000
Subject: [PATCH 20/23] fix: do not build routes from the values of an unsolved
 model

---
 jinete/algorithms/exacts/models/three_index.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/jinete/algorithms/exacts/models/three_index.py b/jinete/algorithms/exacts/models/three_index.py
index 78a7ab2..ee13844 100644
--- a/jinete/algorithms/exacts/models/three_index.py
+++ b/jinete/algorithms/exacts/models/three_index.py
@@ -328,6 +328,10 @@ class ThreeIndexLinearModel(LinearModel):
         logger.info("Starting to solve...")
         self._problem.solve(self.solver)
 
+        if self._problem.status != lp.LpStatusOptimal:
+            logger.warning(f'The problem can not be solved, reaching "{lp.LpStatus[self._problem.status]}".')
+            return set(Route(vehicle) for vehicle in self._vehicles)
+
         self._validate()
         logger.info(f'Obtained "{lp.value(self._objective)}" reaching "{lp.LpStatus[self._problem.status]}".')
         return self._solution_to_routes()
-- 
2.43.0


From 8de31cee2ccf78ff492814e611cc94c394a2e33c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:39 +0000
Subject: [PATCH 21/23] fix: compare services by their values instead of by
 their hashes

---
 jinete/models/services.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jinete/models/services.py b/jinete/models/services.py
index 6918ecc..336d242 100644
--- a/jinete/models/services.py
+++ b/jinete/models/services.py
@@ -81,7 +81,7 @@ class Service(Model):
         return self
 
     def __eq__(self, other: Service) -> bool:
-        return hash(self) == hash(other)
+        return isinstance(other, Service) and tuple(self) == tuple(other)
 
     def __hash__(self):
         return hash(tuple(self))
-- 
2.43.0


From 3862b7fc40007b9095c0de45fe10c3a766dc41ab Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:03 +0000
Subject: [PATCH 22/23] fix: tighten the pickup window of trips by the duration
 of the pickup

---
 jinete/models/trips.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/jinete/models/trips.py b/jinete/models/trips.py
index 05ae73c..df307a5 100644
--- a/jinete/models/trips.py
+++ b/jinete/models/trips.py
@@ -117,12 +117,12 @@ class Trip(Model):
 
     @property
     def origin_earliest(self) -> float:
-        return max(self.destination.earliest - self.destination.duration - self.timeout, self.origin.earliest,)
+        return max(self.destination.earliest - self.origin.duration - self.timeout, self.origin.earliest,)
 
     @property
     def origin_latest(self) -> float:
         return min(
-            self.destination.latest - self.destination.duration - self.origin.time_to(self.destination),
+            self.destination.latest - self.origin.duration - self.origin.time_to(self.destination),
             self.origin.latest,
         )
 
-- 
2.43.0


From 5c68541366f73a54a793e2105668bfb0b770473e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:58 +0000
Subject: [PATCH 23/23] fix: draw each plot on a figure of its own

---
 jinete/storers/plots/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/jinete/storers/plots/graph.py b/jinete/storers/plots/graph.py
index 4d0623b..6223135 100644
--- a/jinete/storers/plots/graph.py
+++ b/jinete/storers/plots/graph.py
@@ -96,12 +96,14 @@ class GraphPlotStorer(Storer):
         edge_color = [metadata["color"] for metadata in graph.edges.values()]
         edge_labels = {edge: metadata["label"] for edge, metadata in graph.edges.items()}
 
+        figure = plt.figure()
         nx.draw(graph, pos=pos, edge_color=edge_color, node_size=100)
         nx.draw_networkx_labels(graph, pos, labels=node_labels, font_size=5, font_color="white")
         nx.draw_networkx_edge_labels(graph, pos, edge_labels=edge_labels)
 
         if self.file_path is not None:
             plt.savefig(str(self.file_path))
+            plt.close(figure)
         else:
             plt.show()
 
-- 
2.43.0

