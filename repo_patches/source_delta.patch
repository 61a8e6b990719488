From 35e4af1c395d192822c0ff3fecfd95fde28ac899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:55 +0000
Subject: [PATCH 01/17] fix: route schedule respects the vehicle's shift window
 at the end depot

The route's duration and time warp account for the vehicle having to end
its shift in [tw_early, tw_late], but the schedule only looked at the end
depot's opening hours. A route that returns after the end of the shift thus
had time warp, but a schedule without any.
---
 pyvrp/cpp/Route.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvrp/cpp/Route.cpp b/pyvrp/cpp/Route.cpp
index 3414351..130b135 100644
--- a/pyvrp/cpp/Route.cpp
+++ b/pyvrp/cpp/Route.cpp
@@ -323,8 +323,8 @@ void Route::setSchedule(ProblemData const &data, Activities const &activities)
     now += durations(prevLoc, end.location);
     handle({Activity::ActivityType::DEPOT, vehData.endDepot},
            releaseTimes.size(),
-           end.twEarly,
-           end.twLate,
+           std::max(end.twEarly, vehData.twEarly),
+           std::min(end.twLate, vehData.twLate),
            0);
 }
 
-- 
2.43.0


From 8b6b8706463e70ba71bacaa2e03093f36c1b0634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:55 +0000
Subject: [PATCH 02/17] fix: route schedule does not start before the start
 depot opens

When the vehicle's latest start is before its start depot opens, and the
first trip is released after that latest start, the schedule warped back to
the latest start and began service there, before the depot opens.
---
 pyvrp/cpp/Route.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvrp/cpp/Route.cpp b/pyvrp/cpp/Route.cpp
index 130b135..a87c8cd 100644
--- a/pyvrp/cpp/Route.cpp
+++ b/pyvrp/cpp/Route.cpp
@@ -250,7 +250,7 @@ void Route::setSchedule(ProblemData const &data, Activities const &activities)
     handle({Activity::ActivityType::DEPOT, vehData.startDepot},
            0,
            std::max(start.twEarly, std::min(releaseTime_, start.twLate)),
-           std::min(start.twLate, vehData.startLate),
+           std::max(start.twEarly, std::min(start.twLate, vehData.startLate)),
            start.serviceDuration);
 
     size_t prevLoc = start.location;
-- 
2.43.0


From 401218381d8ce4047977ef9842cf184e4bd3c06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:24 +0000
Subject: [PATCH 03/17] fix: subtract release time warp from net duration like
 other time warp

The maximum duration applies to the net duration, that is, after subtracting
time warp. Time warp due to the current trip's release time was not subtracted,
whereas that of other trips was, so the same route could have different time
warp depending on how its segments were concatenated.
---
 pyvrp/cpp/DurationSegment.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyvrp/cpp/DurationSegment.h b/pyvrp/cpp/DurationSegment.h
index 8853bdf..d2ccac9 100644
--- a/pyvrp/cpp/DurationSegment.h
+++ b/pyvrp/cpp/DurationSegment.h
@@ -271,12 +271,15 @@ Duration DurationSegment::duration() const
 
 Duration DurationSegment::timeWarp(Duration maxDuration) const
 {
-    auto const timeWarp = cumTimeWarp_ + timeWarp_;
+    auto const timeWarp
+        = cumTimeWarp_
+          + timeWarp_
+          // Additional time warp from having to wait until release time.
+          + std::max<Duration>(releaseTime_ - startLate_, 0);
+
     auto const netDuration = duration() - timeWarp;
 
     return timeWarp
-           // Additional time warp from having to wait until release time.
-           + std::max<Duration>(releaseTime_ - startLate_, 0)
            // Max duration constraint applies only to net route duration,
            // subtracting existing time warp. Use ternary to avoid underflow.
            + (netDuration > maxDuration ? netDuration - maxDuration : 0);
-- 
2.43.0


From b110710938377378ce37b906cd0c069ffd6b4a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:57 +0000
Subject: [PATCH 04/17] fix: failed reload depot insertion leaves the search
 route unchanged

Route::insert() stored its copy of the depot before checking the number of
trips, so that a rejected insertion left an orphan depot behind that was
counted as a trip, and could replace the start depot on a later removal.
---
 pyvrp/cpp/search/Route.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyvrp/cpp/search/Route.cpp b/pyvrp/cpp/search/Route.cpp
index a5e992e..4cea56f 100644
--- a/pyvrp/cpp/search/Route.cpp
+++ b/pyvrp/cpp/search/Route.cpp
@@ -95,6 +95,10 @@ void Route::insert(size_t idx, Node *node)
     {
     case Activity::ActivityType::DEPOT:  // insert copy into owned memory
     {
+        if (numTrips() >= maxTrips())
+            throw std::invalid_argument(
+                "Vehicle cannot perform this many trips.");
+
         if (depots_.size() == depots_.capacity())  // then we reallocate and
         {                                          // must update references
             depots_.reserve(depots_.size() + 1);
@@ -110,9 +114,6 @@ void Route::insert(size_t idx, Node *node)
         break;
     }
 
-    if (numTrips() > maxTrips())
-        throw std::invalid_argument("Vehicle cannot perform this many trips.");
-
     nodes.insert(nodes.begin() + idx, node);
     node->assign(this, idx, nodes[idx - 1]->trip());
 
-- 
2.43.0


From 8d013eecedc1d62004d16da69bbe6cfdb4d9100d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:10 +0000
Subject: [PATCH 05/17] fix: Swap does not treat a reload depot as a swappable
 segment

---
 pyvrp/cpp/search/Swap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvrp/cpp/search/Swap.h b/pyvrp/cpp/search/Swap.h
index 6a218bf..2a6d541 100644
--- a/pyvrp/cpp/search/Swap.h
+++ b/pyvrp/cpp/search/Swap.h
@@ -52,7 +52,7 @@ bool Swap<N, M>::hasDepot(Route::Node *node, size_t segLength) const
     auto const last = first + segLength - 1;
     auto const &route = *node->route();
 
-    return first == 0                               // contains start depot
+    return node->isDepot()                          // starts with a depot
            || last >= route.size() - 1              // contains end depot
            || node->trip() != route[last]->trip();  // contains reload depot
 }
-- 
2.43.0


From be74e6076b2bf3f6cf409e88b9283f2c6a897a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:36 +0000
Subject: [PATCH 06/17] fix: PenaltyManager does not truncate penalties to
 integers

When the initial penalties and penalty bounds are all given as integers, the
penalties were stored in an integer array, and each update was truncated.
---
 pyvrp/PenaltyManager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvrp/PenaltyManager.py b/pyvrp/PenaltyManager.py
index 8987eea..b41f91d 100644
--- a/pyvrp/PenaltyManager.py
+++ b/pyvrp/PenaltyManager.py
@@ -158,7 +158,7 @@ class PenaltyManager:
     ):
         self._params = params
         self._penalties = np.clip(
-            initial_penalties[0] + list(initial_penalties[1:]),
+            np.array([*initial_penalties[0], *initial_penalties[1:]], float),
             params.min_penalty,
             params.max_penalty,
         )
-- 
2.43.0


From d5e0c69a9b5cb21c6b2ffbf9fa8ec45b53fe2088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:19 +0000
Subject: [PATCH 07/17] fix: iterating over a temporary group or route reads
 freed memory

The iterators did not keep the object they iterate over alive.
---
 pyvrp/cpp/bindings.cpp        | 2 ++
 pyvrp/cpp/search/bindings.cpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/pyvrp/cpp/bindings.cpp b/pyvrp/cpp/bindings.cpp
index 6c2042d..79310eb 100644
--- a/pyvrp/cpp/bindings.cpp
+++ b/pyvrp/cpp/bindings.cpp
@@ -477,6 +477,7 @@ PYBIND11_MODULE(_pyvrp, m)
             "__iter__",
             [](ClientGroup const &group)
             { return py::make_iterator(group.begin(), group.end()); },
+            py::keep_alive<0, 1>(),  // iterator refers to self
             py::return_value_policy::reference_internal)
         .def(
             "__str__",
@@ -944,6 +945,7 @@ PYBIND11_MODULE(_pyvrp, m)
             "__iter__",
             [](Route const &route)
             { return py::make_iterator(route.begin(), route.end()); },
+            py::keep_alive<0, 1>(),  // iterator refers to self
             py::return_value_policy::reference_internal)
         .def(
             "__getitem__",
diff --git a/pyvrp/cpp/search/bindings.cpp b/pyvrp/cpp/search/bindings.cpp
index a87d4d8..8e54bfe 100644
--- a/pyvrp/cpp/search/bindings.cpp
+++ b/pyvrp/cpp/search/bindings.cpp
@@ -685,6 +685,7 @@ PYBIND11_MODULE(_search, m)
             "__iter__",
             [](Route const &route)
             { return py::make_iterator(route.begin(), route.end()); },
+            py::keep_alive<0, 1>(),  // iterator refers to self
             py::return_value_policy::reference_internal)
         .def("__len__", &Route::size)
         .def("__str__",
-- 
2.43.0


From f5f3aa90475a18a63a8272a3eac7177bc6838739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:19 +0000
Subject: [PATCH 08/17] fix: changing a group obtained from problem data does
 not change that data

Adding a client to a group of a model made with Model.from_data() modified
the problem data instance that the model was made from, since groups are
mutable and were returned by reference.
---
 pyvrp/cpp/bindings.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvrp/cpp/bindings.cpp b/pyvrp/cpp/bindings.cpp
index 79310eb..de29a74 100644
--- a/pyvrp/cpp/bindings.cpp
+++ b/pyvrp/cpp/bindings.cpp
@@ -699,7 +699,7 @@ PYBIND11_MODULE(_pyvrp, m)
              DOC(pyvrp, ProblemData, depots))
         .def("groups",
              &ProblemData::groups,
-             py::return_value_policy::reference_internal,
+             py::return_value_policy::copy,  // because groups are mutable
              DOC(pyvrp, ProblemData, groups))
         .def("shipments",
              &ProblemData::shipments,
@@ -756,7 +756,7 @@ PYBIND11_MODULE(_pyvrp, m)
         .def("group",
              &ProblemData::group,
              py::arg("group"),
-             py::return_value_policy::reference_internal,
+             py::return_value_policy::copy,  // because groups are mutable
              DOC(pyvrp, ProblemData, group))
         .def(
             "shipment",
-- 
2.43.0


From 35d529d99209c16b02461660b304c81808c1ca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:50 +0000
Subject: [PATCH 09/17] fix: keep at least one vehicle when minimising the
 fleet

minimise_fleet() raised a ValueError about num_available when a single vehicle
or an empty solution was enough and the capacity bound was zero.
---
 pyvrp/minimise_fleet.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyvrp/minimise_fleet.py b/pyvrp/minimise_fleet.py
index 143a84e..a3cb3db 100644
--- a/pyvrp/minimise_fleet.py
+++ b/pyvrp/minimise_fleet.py
@@ -82,7 +82,8 @@ def minimise_fleet(
         if best.num_routes() < data.num_vehicles:
             # Then we can make a bigger jump because more than one vehicle of
             # the feasible fleet was unused.
-            feas_fleet = fleet.replace(num_available=best.num_routes())
+            num_available = max(best.num_routes(), 1)
+            feas_fleet = fleet.replace(num_available=num_available)
 
     return feas_fleet
 
@@ -95,8 +96,9 @@ def _lower_bound(data: ProblemData) -> int:
     # details.
 
     # Computes a bound based on packing delivery or pickup demands in the given
-    # vehicles over all load dimensions. The strongest bound is returned.
-    bound = 0
+    # vehicles over all load dimensions. The strongest bound is returned, which
+    # is at least one because a fleet cannot be empty.
+    bound = 1
     for dim in range(data.num_load_dimensions):
         delivery = sum(c.delivery[dim] for c in data.clients())
         pickup = sum(c.pickup[dim] for c in data.clients())
-- 
2.43.0


From 2fe3b4e28280fd2dd9b09e8d6f290b35d00e28dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:44 +0000
Subject: [PATCH 10/17] fix: pickling a route loses its fixed vehicle cost

---
 pyvrp/cpp/Route.cpp    | 2 ++
 pyvrp/cpp/Route.h      | 1 +
 pyvrp/cpp/bindings.cpp | 8 +++++---
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyvrp/cpp/Route.cpp b/pyvrp/cpp/Route.cpp
index a87c8cd..5000bc5 100644
--- a/pyvrp/cpp/Route.cpp
+++ b/pyvrp/cpp/Route.cpp
@@ -475,6 +475,7 @@ Route::Route(Schedule schedule,
              Duration startTime,
              Duration releaseTime,
              Duration slack,
+             Cost fixedVehicleCost,
              Cost prizes,
              size_t vehicleType,
              size_t numShipments)
@@ -494,6 +495,7 @@ Route::Route(Schedule schedule,
       startTime_(startTime),
       releaseTime_(releaseTime),
       slack_(slack),
+      fixedVehicleCost_(fixedVehicleCost),
       prizes_(prizes),
       vehicleType_(vehicleType),
       numShipments_(numShipments)
diff --git a/pyvrp/cpp/Route.h b/pyvrp/cpp/Route.h
index ea29650..8e1e4d9 100644
--- a/pyvrp/cpp/Route.h
+++ b/pyvrp/cpp/Route.h
@@ -333,6 +333,7 @@ public:
           Duration startTime,
           Duration releaseTime,
           Duration slack,
+          Cost fixedVehicleCost,
           Cost prizes,
           size_t vehicleType,
           size_t numShipments);
diff --git a/pyvrp/cpp/bindings.cpp b/pyvrp/cpp/bindings.cpp
index de29a74..0caba84 100644
--- a/pyvrp/cpp/bindings.cpp
+++ b/pyvrp/cpp/bindings.cpp
@@ -976,6 +976,7 @@ PYBIND11_MODULE(_pyvrp, m)
                                       route.startTime(),
                                       route.releaseTime(),
                                       route.slack(),
+                                      route.fixedVehicleCost(),
                                       route.prizes(),
                                       route.vehicleType(),
                                       route.numShipments());
@@ -1000,9 +1001,10 @@ PYBIND11_MODULE(_pyvrp, m)
                     t[13].cast<pyvrp::Duration>(),          // start time
                     t[14].cast<pyvrp::Duration>(),          // release time
                     t[15].cast<pyvrp::Duration>(),          // slack
-                    t[16].cast<pyvrp::Cost>(),              // prizes
-                    t[17].cast<size_t>(),                   // vehicle type
-                    t[18].cast<size_t>());                  // num shipments
+                    t[16].cast<pyvrp::Cost>(),              // fixed veh cost
+                    t[17].cast<pyvrp::Cost>(),              // prizes
+                    t[18].cast<size_t>(),                   // vehicle type
+                    t[19].cast<size_t>());                  // num shipments
 
                 return route;
             }))
-- 
2.43.0


From 2a10ee941b0fe517c0c02a784af6a844a171746c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:12 +0000
Subject: [PATCH 11/17] fix: pickling a solution loses its unplanned activities

---
 pyvrp/cpp/Solution.cpp | 6 ++++--
 pyvrp/cpp/Solution.h   | 3 ++-
 pyvrp/cpp/bindings.cpp | 7 +++++--
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/pyvrp/cpp/Solution.cpp b/pyvrp/cpp/Solution.cpp
index 940b416..5838e20 100644
--- a/pyvrp/cpp/Solution.cpp
+++ b/pyvrp/cpp/Solution.cpp
@@ -381,7 +381,8 @@ Solution::Solution(size_t numClients,
                    Cost prizes,
                    Cost uncollectedPrizes,
                    Duration timeWarp,
-                   Routes routes)
+                   Routes routes,
+                   Unplanned unplanned)
     : numClients_(numClients),
       numShipments_(numShipments),
       numMissingClients_(numMissingClients),
@@ -398,7 +399,8 @@ Solution::Solution(size_t numClients,
       prizes_(prizes),
       uncollectedPrizes_(uncollectedPrizes),
       timeWarp_(timeWarp),
-      routes_(std::move(routes))
+      routes_(std::move(routes)),
+      unplanned_(std::move(unplanned))
 {
 }
 
diff --git a/pyvrp/cpp/Solution.h b/pyvrp/cpp/Solution.h
index e05ce6f..ff26f46 100644
--- a/pyvrp/cpp/Solution.h
+++ b/pyvrp/cpp/Solution.h
@@ -280,7 +280,8 @@ public:
              Cost prizes,
              Cost uncollectedPrizes,
              Duration timeWarp,
-             Routes routes);
+             Routes routes,
+             Unplanned unplanned);
 };
 
 template <>  // specialisation for pyvrp::Solution
diff --git a/pyvrp/cpp/bindings.cpp b/pyvrp/cpp/bindings.cpp
index 0caba84..2433342 100644
--- a/pyvrp/cpp/bindings.cpp
+++ b/pyvrp/cpp/bindings.cpp
@@ -1135,10 +1135,12 @@ PYBIND11_MODULE(_pyvrp, m)
                                       sol.prizes(),
                                       sol.uncollectedPrizes(),
                                       sol.timeWarp(),
-                                      sol.routes());
+                                      sol.routes(),
+                                      sol.unplanned());
             },
             [](py::tuple t) {  // __setstate__
                 using Routes = std::vector<Route>;
+                using Unplanned = std::vector<Activity>;
 
                 Solution sol(
                     t[0].cast<size_t>(),            // num clients
@@ -1157,7 +1159,8 @@ PYBIND11_MODULE(_pyvrp, m)
                     t[13].cast<pyvrp::Cost>(),               // prizes
                     t[14].cast<pyvrp::Cost>(),               // uncollected
                     t[15].cast<pyvrp::Duration>(),           // time warp
-                    t[16].cast<Routes>());                   // routes
+                    t[16].cast<Routes>(),                    // routes
+                    t[17].cast<Unplanned>());                // unplanned
 
                 return sol;
             }))
-- 
2.43.0


From 3ba610b1bef47d43f95f19cc7cf14850e7353db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:12 +0000
Subject: [PATCH 12/17] fix: shipment deliveries are misread with more than one
 depot

---
 pyvrp/read.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyvrp/read.py b/pyvrp/read.py
index e11bea3..ff29736 100644
--- a/pyvrp/read.py
+++ b/pyvrp/read.py
@@ -574,7 +574,6 @@ class _ProblemDataBuilder:
         return [ClientGroup(group) for group in groups]
 
     def _shipments(self) -> list[Shipment]:
-        num_depots = self.parser.num_depots
         data = self.parser.shipments()
 
         shipments = []
@@ -582,11 +581,11 @@ class _ProblemDataBuilder:
             *_, pick_idx, deliv_idx = pickup_data
 
             if pick_idx == 0 and deliv_idx > 0:  # parse PD pair
-                delivery_data = data[deliv_idx - num_depots]
+                delivery_data = data[deliv_idx - 1]
                 shipments.append(
                     Shipment(
                         pickup_location=idx,
-                        delivery_location=deliv_idx - num_depots,
+                        delivery_location=deliv_idx - 1,
                         pickup_tw_early=pickup_data[1],
                         pickup_tw_late=pickup_data[2],
                         pickup_service_duration=pickup_data[3],
-- 
2.43.0


From c1b4760e505eca470a5d26d31b036e6b2771e094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:31 +0000
Subject: [PATCH 13/17] fix: shipments with fractional data cannot be read

---
 pyvrp/read.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyvrp/read.py b/pyvrp/read.py
index ff29736..81180ae 100644
--- a/pyvrp/read.py
+++ b/pyvrp/read.py
@@ -356,9 +356,10 @@ class _InstanceParser:
         # Round demand, time windows, and service duration. Skip the pickup
         # and delivery index fields; we need those unchanged.
         shipments = self.instance["pickup_and_delivery"]
-        shipments[:, :4] = self.round_func(shipments[:, :4])
+        fields = self.round_func(shipments[:, :4])
+        idcs = shipments[:, 4:].astype(np.int64)
 
-        return shipments
+        return np.hstack((fields, idcs))
 
 
 class _ProblemDataBuilder:
-- 
2.43.0


From c26ce4dd80071878bca0012dc53a79a8dad10258 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:57 +0000
Subject: [PATCH 14/17] fix: Swap passed up moves of a client and a pickup with
 equal indices

The operator evaluates symmetric swaps in one direction, chosen by index. A
client and a pickup can have equal indices, and were then evaluated in neither
direction.
---
 pyvrp/cpp/search/Swap.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyvrp/cpp/search/Swap.h b/pyvrp/cpp/search/Swap.h
index 2a6d541..b125a00 100644
--- a/pyvrp/cpp/search/Swap.h
+++ b/pyvrp/cpp/search/Swap.h
@@ -104,7 +104,10 @@ std::pair<Cost, bool> Swap<N, M>::evaluate(Route::Node *U,
         return std::make_pair(0, false);
 
     if constexpr (N == M)  // symmetric, so only have to evaluate this once
-        if (U->idx() >= V->idx())
+        // in one direction. Indices alone do not order U and V, since a client
+        // and a pickup may have the same index.
+        if (std::make_pair(U->idx(), U->type())
+            >= std::make_pair(V->idx(), V->type()))
             return std::make_pair(0, false);
 
     Cost deltaCost = 0;
-- 
2.43.0


From ae7462851331eafefbc769f42a1d1eadb732aae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:57 +0000
Subject: [PATCH 15/17] fix: SwapTails passed up moves with the start depot of
 an earlier route

Moves between two non-empty routes are left to the call with U and V in each
other's role, but that call does not happen when V is a start depot.
---
 pyvrp/cpp/search/SwapTails.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvrp/cpp/search/SwapTails.cpp b/pyvrp/cpp/search/SwapTails.cpp
index 9e87ef5..df291cc 100644
--- a/pyvrp/cpp/search/SwapTails.cpp
+++ b/pyvrp/cpp/search/SwapTails.cpp
@@ -34,7 +34,7 @@ std::pair<pyvrp::Cost, bool> SwapTails::evaluate(
     if (!uRoute || uRoute == vRoute)
         return std::make_pair(0, false);  // unassigned, or same route
 
-    if (uRoute > vRoute && !uRoute->empty() && !vRoute->empty())
+    if (uRoute > vRoute && !vRoute->empty() && !V->isStartDepot())
         return std::make_pair(0, false);  // move will be tackled later
 
     if (!onLastTrip(U) || !onLastTrip(V))
-- 
2.43.0


From 05e5e0154d17d2efc46c8e656482c90843df275c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:40 +0000
Subject: [PATCH 16/17] fix: plot time windows of instances without clients

---
 pyvrp/plotting/plot_time_windows.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvrp/plotting/plot_time_windows.py b/pyvrp/plotting/plot_time_windows.py
index 7ec4bb9..333bdd0 100644
--- a/pyvrp/plotting/plot_time_windows.py
+++ b/pyvrp/plotting/plot_time_windows.py
@@ -25,6 +25,7 @@ def plot_time_windows(
         _, ax = plt.subplots()
 
     tw = np.array([[c.tw_early, c.tw_late] for c in data.clients()])
+    tw = tw.reshape(-1, 2)  # keeps two columns also when there are no clients
 
     # Lexicographic sort so for equal start we get shorter TW first
     tw = tw[np.lexsort((tw[:, 1], tw[:, 0]))]
-- 
2.43.0


From dfc339dc90a4f185e16eb4b29a99277ef8cec655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:40 +0000
Subject: [PATCH 17/17] fix: plot the load in the vehicle per trip, and with
 initial load

---
 pyvrp/plotting/plot_route_schedule.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pyvrp/plotting/plot_route_schedule.py b/pyvrp/plotting/plot_route_schedule.py
index fabb732..9ca41aa 100644
--- a/pyvrp/plotting/plot_route_schedule.py
+++ b/pyvrp/plotting/plot_route_schedule.py
@@ -55,9 +55,18 @@ def plot_route_schedule(
     serv_time = 0
     dist = 0
 
+    # Deliveries are loaded at the depot where a trip starts. Any initial load
+    # is in the vehicle from the start, until the first depot after that.
     load = 0
+    trip_delivery = [0] * (route.num_trips() + 1)
     if track_load:
-        load = route.delivery()[load_dimension]
+        for activity in route:
+            if activity.is_client():
+                client = data.client(activity.idx)
+                amount = client.delivery[load_dimension]
+                trip_delivery[activity.trip] += amount
+
+        load = vehicle_type.initial_load[load_dimension] + trip_delivery[0]
 
     # Traces and objects used for plotting
     trace_time = []
@@ -74,13 +83,16 @@ def plot_route_schedule(
         trace_load.append((dist, load))
 
     prev_loc = data.depot(vehicle_type.start_depot).location
-    for activity in route:
+    for idx, activity in enumerate(route):
         load_diff = 0
 
         match activity.type:
             case ActivityType.DEPOT:
                 stop = data.depot(activity.idx)  # type: ignore
 
+                if 0 < idx < len(route) - 1:  # a reload starts a new trip
+                    load_diff = trip_delivery[activity.trip] - load
+
             case ActivityType.CLIENT:
                 client = data.client(activity.idx)
                 stop = client  # type: ignore
-- 
2.43.0

