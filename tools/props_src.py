#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run after editing."""

import json
from pathlib import Path

HERE = Path(__file__).resolve().parent.parent
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, tech="", note="", hook=False):
    anchors = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe:
        anchors["observe_at"] = observe
    if state:
        anchors["state"] = [dict(name=n, meaning=m) for n, m in state]
    P.append(
        dict(
            rec=dict(
                id=id,
                title=title,
                statement=statement,
                quantifier=dict(over=over, text=text),
                why_tests_cant=why,
                anchors=anchors,
            ),
            tech=tech,
            note=note,
        )
    )


C = "pyvrp/cpp/"
S = "pyvrp/cpp/search/"

prop(
    "C01",
    "Route timing is what driving the route would give",
    "For every instance and valid route, the reported duration, time warp, start time, slack, release time, "
    "travel, service and wait durations and overtime equal those of driving the route activity by activity from the best "
    "allowed departure time, with trips starting only after their release times and any excess over the maximum duration "
    "counted as time warp. The reported schedule is the timetable of that drive: it lists the route's activities in order "
    "with the right trip, start, end, wait and time warp, never outside opening hours or the vehicle's shift.",
    ["inputs"],
    "all instances (time windows, release times, multiple depots and profiles, depot service, shifts, overtime) and all valid routes of them, with any number of trips",
    "Route tests check a handful of hand-computed routes; the concatenation arithmetic interacts over windows x release times x trips x shift limits.",
    [C + "Route.cpp", C + "DurationSegment.h", C + "VehicleType.cpp"],
    [("right-to-left duration concatenation and forward schedule", C + "Route.cpp setSchedule"), ("segment merge and finalise", C + "DurationSegment.h")],
    observe=["Route.duration/time_warp/start_time/end_time/slack/release_time/overtime/wait_duration/...", "Route.schedule"],
    tech="TLA+ semantics of driving a route (VRP.tla); TLC judges recorded real routes; TLC design model relating driving and segment concatenation",
)
prop(
    "C02",
    "Route loads and excess loads follow the load on board",
    "For every instance and valid route, the excess load in each dimension is the sum over trips of how far the largest load "
    "on board during that trip exceeds the capacity, where a trip departs with everything it delivers to clients (and, on the first trip, the vehicle's "
    "initial load), clients exchange deliveries for pickups, and shipments are on board only between pickup and delivery. The reported "
    "delivery and pickup totals count each client once, and the initial load as pickup.",
    ["inputs"],
    "all instances with any number of load dimensions and all valid routes, with any number of trips",
    "The tests cover single instances; the peak depends on the order of mixed pickups, deliveries, shipments, reloads and initial load.",
    [C + "Route.cpp", C + "LoadSegment.h", C + "LoadSegment.cpp"],
    [("load concatenation", C + "LoadSegment.h merge/finalise"), ("per-route load", C + "Route.cpp setLoad")],
    observe=["Route.delivery", "Route.pickup", "Route.excess_load"],
    tech="TLA+ load semantics (VRP.tla); TLC judges recorded real routes",
)
prop(
    "C03",
    "Route distance, cost components and counts are exact",
    "For every instance and valid route, the distance is the sum of the arcs travelled in the vehicle's profile, the excess "
    "distance is the part above the maximum, distance and duration cost (including overtime cost) are unit costs times those totals, the fixed cost is the vehicle type's, prizes are those of the clients and "
    "shipments visited, and the counts of clients, shipments, trips and depots are those of the activities. A route is feasible exactly "
    "when it has no excess load, excess distance or time warp.",
    ["inputs"],
    "all instances (asymmetric matrices, several profiles and depots, heterogeneous vehicles) and all valid routes",
    "Tests use a few fixed instances; profile, depot and cost parameters vary independently.",
    [C + "Route.cpp", C + "Matrix.h"],
    [("distance and other statistics", C + "Route.cpp setDistance, setOtherStatistics")],
    observe=["Route statistics getters"],
    tech="TLA+ semantics (VRP.tla); TLC judges recorded real routes",
)
prop(
    "C04",
    "Exactly the valid routes and solutions can be constructed",
    "A route is accepted exactly when all its activities exist, every shipment in it is picked up once and delivered once, afterwards and within the same trip, and the number "
    "of trips is within the vehicle's limit. A solution is accepted exactly when it has no empty routes, visits no client or shipment more than once, "
    "visits at most one client of each mutually exclusive group, and uses no more vehicles of a type than available; everything else raises an error.",
    ["inputs"],
    "all instances and all activity lists and collections of routes",
    "Acceptance is a predicate over all activity sequences; tests try one rejected example per rule.",
    [C + "Route.cpp", C + "Solution.cpp"],
    [("route validation", C + "Route.cpp validate"), ("solution validation", C + "Solution.cpp constructor")],
    observe=["Route(...) and Solution(...) constructors"],
    tech="TLA+ validity predicates (VRP.tla); TLC judges recorded accept/reject outcomes of the real constructors",
)
prop(
    "C05",
    "Solution totals, completeness and feasibility match the routes",
    "Every total a solution reports (distance, duration, overtime, costs, excesses, time warp, prizes collected and uncollected, numbers of routes, trips, clients and shipments) is the sum "
    "over its routes, and the lists and counts of unplanned and missing clients, shipments and groups are exactly those not visited. A solution is complete exactly when every "
    "required client, shipment and group is visited, and feasible exactly when it is complete and has no excess load, excess distance or time warp.",
    ["inputs"],
    "all instances and all valid solutions of them, complete or not",
    "Tests check individual totals on single instances; the combination of optional clients, groups and shipments is open-ended.",
    [C + "Solution.cpp"],
    [("solution evaluation", C + "Solution.cpp evaluate and constructor")],
    observe=["Solution getters"],
    tech="TLA+ semantics (VRP.tla); TLC judges recorded real solutions",
)
prop(
    "C06",
    "Objective and penalised objective are as documented",
    "The cost of a feasible solution is the sum of fixed, distance, duration and overtime costs of its routes plus the prizes left uncollected, and the "
    "cost of an infeasible solution is the largest representable number. The penalised cost of any solution is that same sum plus, per route, each excess load, the time warp and the "
    "excess distance multiplied by its penalty; it equals the cost when the solution is feasible.",
    ["inputs", "configurations"],
    "all instances, all valid solutions, and all penalty values (checked for multiples of 1/4, so that the arithmetic is exact)",
    "Tests evaluate a few solutions of fixed instances with fixed penalties.",
    [C + "CostEvaluator.h", C + "CostEvaluator.cpp", C + "Route.cpp", C + "Solution.cpp"],
    [("cost and penalised cost", C + "CostEvaluator.h")],
    observe=["CostEvaluator.cost", "CostEvaluator.penalised_cost", "CostEvaluator.load_penalty/tw_penalty/dist_penalty"],
    tech="TLA+ objective (VRP.tla); TLC judges recorded evaluations",
)
prop(
    "C07",
    "Segments can be concatenated in any order with the same outcome",
    "Splitting a route's activities anywhere and concatenating the duration and load segments of the parts in any association order gives the same duration, time "
    "warp, start and end times, slack, release time, load and excess load as driving the whole. This holds across trip boundaries, whether trips are finalised from the front or the back, for routes in which no trip is released after its reload depot closes.",
    ["inputs", "histories"],
    "all segments reachable from client, depot, shipment and vehicle attributes, all edge durations, and all ways to parenthesise their concatenation",
    "Associativity is over all triples and all finalisation points; tests check a few fixed triples.",
    [C + "DurationSegment.h", C + "DurationSegment.cpp", C + "LoadSegment.h"],
    [("merge, finaliseBack, finaliseFront", C + "DurationSegment.h"), ("merge, finalise", C + "LoadSegment.h")],
    observe=["DurationSegment and LoadSegment in Python"],
    tech="TLA+ segment algebra (Segments.tla) model-checked against driving; TLC judges recorded merges of the real classes",
)
prop(
    "C08",
    "Search routes stay consistent under every edit history",
    "After any history of inserting, removing, swapping and clearing activities followed by an update, a search route lists exactly the activities that history leaves, every node knows its "
    "route, position and trip, and distance, duration, load, time warp, excess and cost figures equal those of a freshly evaluated route with the same activities. "
    "Distances, durations and loads queried for any prefix, suffix or range of the route equal those of evaluating just those activities.",
    ["histories", "inputs"],
    "all sequences of edit operations on one or more search routes of any vehicle type, all query ranges and profiles",
    "The cached prefix and suffix arrays and trip bookkeeping depend on the edit history; tests perform one or two edits.",
    [S + "Route.h", S + "Route.cpp"],
    [("edit operations and caches", S + "Route.cpp insert/remove/swap/clear/update"), ("segment views", S + "Route.h SegmentBefore/After/Between")],
    state=[("nodes, trips, cumulative segment caches", "search route contents and per-position cached statistics")],
    observe=["pyvrp.search._search.Route, Node"],
    tech="TLA+ state machine of search routes (EditRoutes.tla); TLC validates recorded edit histories step by step",
)
prop(
    "C09",
    "Search moves cost what they claim and do what they say",
    "On routes where no trip is released after its reload depot closes: whenever a local search operator judges a move applicable, the cost change it reports equals the change in penalised cost (including prizes) obtained by applying the move, and applying it performs exactly the operator's "
    "described rearrangement: activities not part of the move keep their order and route, and the result is again structurally valid. An operator never judges a move applicable "
    "that is not improving (or neutral, where documented), does not pass up an improving move of its kind between the given activities, and evaluating a move does not change the routes.",
    ["inputs", "configurations", "histories"],
    "all operators, all pairs of nodes of all valid search solutions, all vehicle types and penalty values",
    "Tests check selected moves of selected instances; delta evaluation has separate code paths per operator, trip, depot and segment kind.",
    [S + "LocalSearchOperator.h", S + "Relocate.h", S + "Swap.h", S + "SwapTails.cpp", S + "RelocateWithDepot.cpp", S + "Route.h", C + "CostEvaluator.h"],
    [("evaluate/apply of each operator", S), ("proposal-based delta cost", S + "Route.h Proposal; " + C + "CostEvaluator.h deltaCost")],
    observe=["operator.evaluate(...), operator.apply(...)"],
    tech="TLA+ move semantics (Moves.tla) over VRP.tla; TLC judges recorded evaluate/apply pairs of every operator",
)
prop(
    "C10",
    "Local search returns valid, complete, never worse solutions",
    "For every input solution, the local search returns a valid solution that is complete and visits at most one client per group, without modifying its input, whatever it searched before. Searching a "
    "complete solution exhaustively never returns one with a higher penalised cost under the evaluator used, returns it unchanged when it applies no moves, and no relocating, swapping or removing operator in use has an improving move left "
    "between an activity of the result (after perturbing: an activity that was perturbed) and one of its neighbours, the depot before it, or an empty vehicle.",
    ["inputs", "histories", "configurations"],
    "all instances, starting solutions (complete or not), penalties, neighbourhoods, operator sets, seeds, and previous uses of the same search object",
    "Tests check a few instances; validity and monotonicity must hold for every reachable search state.",
    [S + "LocalSearch.cpp", S + "Solution.cpp", "pyvrp/search/LocalSearch.py"],
    [("search loop", S + "LocalSearch.cpp search, ensureStructuralFeasibility"), ("load/unload", S + "Solution.cpp")],
    observe=["pyvrp.search.LocalSearch.__call__"],
    tech="TLA+ contract of local search over VRP.tla; TLC judges recorded calls",
)
prop(
    "C11",
    "Perturbation and insertion make bounded, valid, local changes",
    "Perturbing a search solution changes the planned status of exactly as many distinct clients and shipments as drawn within the configured bounds (or all, if fewer), from the neighbourhoods of successive activities in the search order, by removing planned and "
    "inserting unplanned ones; it marks these as promising and leaves every route structurally valid with all other activities where they were, in order. Inserting an activity puts it at the cheapest considered position next to its neighbours, or an empty "
    "vehicle that is cheaper still, always when it is required and otherwise only when that reduces cost.",
    ["inputs", "configurations", "histories"],
    "all instances, solutions, seeds and perturbation bounds",
    "Random choices over all neighbourhoods; tests check isolated cases.",
    [S + "PerturbationManager.cpp", S + "SearchSpace.cpp", S + "Solution.cpp"],
    [("perturb", S + "PerturbationManager.cpp"), ("insert", S + "Solution.cpp"), ("promising activities and orders", S + "SearchSpace.cpp")],
    observe=["PerturbationManager.perturb", "search Solution.insert", "SearchSpace"],
    tech="TLA+ transition relation of a perturbation (Perturb.tla); TLC validates recorded perturbations",
)
prop(
    "C12",
    "Iterated local search follows its documented protocol",
    "The iterated local search runs one search per iteration until the stopping criterion (asked with the best cost before each iteration) says stop, keeps as best solution the least costly seen, accepts candidates that beat "
    "the current solution or the one from a history-length of iterations ago, and restarts from the best solution after the configured number of iterations without improvement. Callbacks are invoked in the documented order with the matching solutions, and the "
    "returned result carries the best solution, the number of iterations and statistics of exactly those iterations.",
    ["histories", "configurations"],
    "all sequences of candidate solutions, penalties and stop decisions, and all history lengths and restart limits",
    "Behaviour depends on the whole history of candidate costs; tests replay one or two.",
    ["pyvrp/IteratedLocalSearch.py", "pyvrp/RingBuffer.py"],
    [("main loop", "pyvrp/IteratedLocalSearch.py run")],
    state=[("best, current, history, iterations without improvement", "loop state")],
    observe=["IteratedLocalSearchCallbacks", "Result"],
    tech="TLA+ state machine (ILS.tla) model-checked; TLC-generated behaviours replayed into the real loop and recorded runs validated by TLC",
)
prop(
    "C13",
    "Penalties adapt to feasibility and stay within bounds",
    "Starting from the initial penalties, after every full window of registered solutions each penalty is raised when too few of the window's solutions satisfied its constraint, lowered when too many did, and left alone "
    "within the tolerance, and always stays within the configured minimum and maximum. No penalty changes at any other time, load dimensions adapt independently, cost evaluators use the penalties in force, and a warning is given exactly when a penalty at its maximum would have to be raised further and its constraint is violated no less than in the window before.",
    ["histories", "configurations"],
    "all registration histories and all parameter combinations",
    "The update depends on the registration history; tests register a few hand-made sequences.",
    ["pyvrp/PenaltyManager.py"],
    [("register and update", "pyvrp/PenaltyManager.py")],
    state=[("penalties and feasibility windows", "per-constraint penalty and recent feasibility")],
    observe=["PenaltyManager.penalties, cost_evaluator()"],
    tech="TLA+ state machine (Penalty.tla) model-checked; recorded registration histories validated by TLC",
)
prop(
    "C14",
    "Stopping criteria fire exactly when documented",
    "A maximum-iterations criterion stops on exactly the call after its limit, a no-improvement criterion after its number of consecutive calls without a strictly better best cost, a first-feasible "
    "criterion once the best cost is finite, a runtime criterion once its time has passed since the first call, and a combination as soon as any of its members does.",
    ["histories"],
    "all sequences of best costs and all limits and combinations",
    "They are automata over unbounded call histories; tests drive a few fixed ones.",
    ["pyvrp/stop/MaxIterations.py", "pyvrp/stop/NoImprovement.py", "pyvrp/stop/FirstFeasible.py", "pyvrp/stop/MaxRuntime.py", "pyvrp/stop/MultipleCriteria.py"],
    [("__call__", "pyvrp/stop/")],
    observe=["criterion(best_cost)"],
    tech="TLA+ automata (Stop.tla) explored exhaustively; every explored history replayed into the real criteria",
)
prop(
    "C15",
    "Solving is reproducible given a seed",
    "Solving the same instance with the same seed, parameters and iteration limit gives the same best solution, cost trajectory and iteration count every time, in any process, whatever was solved before, and whether or not "
    "progress is displayed or statistics are collected.",
    ["histories", "configurations", "schedules"],
    "all instances, seeds, parameters, and preceding solves in the process",
    "Determinism is a statement about pairs of runs; hidden state shows up only in particular histories.",
    ["pyvrp/solve.py", "pyvrp/IteratedLocalSearch.py", C + "RandomNumberGenerator.cpp", S + "LocalSearch.cpp"],
    [("solve", "pyvrp/solve.py"), ("random number generation", C + "RandomNumberGenerator.h")],
    observe=["solve(...), Model.solve(...)"],
    tech="TLA+ self-composition contract (DetTrace.tla); TLC judges recorded sets of real runs",
)
prop(
    "C16",
    "Granular neighbourhoods contain the nearest compatible activities",
    "Every client and shipment activity's neighbourhood lists distinct other activities, in order of non-decreasing proximity, never itself or, for a shipment, its own counterpart, with as many neighbours as "
    "asked for, unless fewer than that many other clients and other shipments' pickups and deliveries exist. Proximity is as documented (distance, duration, minimum wait, over the cheapest vehicle cost profile, the symmetric minimum), and members of the same mutually exclusive group and pairs that cannot be visited in sequence come last.",
    ["inputs", "configurations"],
    "all instances and neighbourhood parameters",
    "The ranking is over all pairs of activities of arbitrary instances; tests check one or two instances.",
    [S + "neighbourhood.cpp", "pyvrp/search/neighbourhood.py"],
    [("compute_neighbours", S + "neighbourhood.cpp")],
    observe=["compute_neighbours(data, params)"],
    tech="TLA+ definition of proximity (Neighbours.tla); TLC judges recorded neighbourhoods",
)
prop(
    "C17",
    "Models translate faithfully to problem data",
    "The data a model produces contains each added location, client, depot, group, shipment and vehicle type once, in the order added, with exactly the attributes given and references by identity resolved; the distance and duration matrices hold the "
    "last edge added for each pair, profile edges override base edges for that profile only, missing pairs get the documented large value and diagonals are zero. A model made from problem data produces the same data again, building further on a model never changes data it produced or was made from, and solving a model gives what solving the data it produces gives, with the same arguments.",
    ["programs", "inputs"],
    "all sequences of model-building calls",
    "Tests build a few models; identity-based references and edge overrides interact over call sequences.",
    ["pyvrp/Model.py"],
    [("add_* and data()", "pyvrp/Model.py")],
    state=[("objects and edges added so far", "model state")],
    observe=["Model.data()"],
    tech="TLA+ state machine (Model.tla) model-checked; TLC-generated and random model-building programs replayed into the real Model and judged by TLC",
)
prop(
    "C18",
    "Only well-formed problem data can be constructed",
    "Constructing clients, depots, shipments, groups, vehicle types and problem data succeeds exactly when the documented requirements hold (non-negative amounts, ordered time windows, existing references, consistent groups and "
    "load dimensions, overlapping vehicle and depot windows, matrix shapes and zero diagonals), and otherwise raises an error. A constructed object reports the values it was given (with documented padding and defaults), and replacing some fields keeps all others.",
    ["inputs"],
    "all combinations of field values",
    "Each requirement has one rejected example in the tests; combinations and boundary values are not covered.",
    [C + "ProblemData.cpp", C + "Client.cpp", C + "VehicleType.cpp", C + "Shipment.cpp", C + "Depot.cpp", C + "ClientGroup.cpp"],
    [("validation", C + "ProblemData.cpp validate and the constructors")],
    observe=["constructors, attributes, replace()"],
    tech="TLA+ well-formedness predicates (Data.tla); TLC judges recorded constructions",
)
prop(
    "C19",
    "Random solutions are valid and complete",
    "For every instance and random number generator state, the random initial solution is valid and complete: every required client, shipment and group is visited, at most one client per group, and no more vehicles of a type are used than available. The solution depends only on the instance and generator state, and over different states every optional client, shipment and group is visited at times and left out at times.",
    ["inputs", "configurations"],
    "all instances and generator states",
    "A statement over all random choices; tests sample a few seeds.",
    [C + "Solution.cpp"],
    [("random constructor", C + "Solution.cpp")],
    observe=["Solution.make_random"],
    tech="TLA+ validity and completeness (VRP.tla); TLC judges recorded random solutions",
)
prop(
    "C20",
    "Fleet minimisation returns a feasible, never larger fleet",
    "Minimising the fleet returns the instance's vehicle type with a positive number of vehicles no larger than available and otherwise unchanged, and whenever it returns fewer vehicles than available, a feasible solution with that many vehicles exists. "
    "It stops above the larger of one and the capacity-based lower bound only when the stopping criterion says stop, leaves the instance unchanged, and rejects instances with several vehicle types or clients that are not required.",
    ["inputs"],
    "all instances with a single vehicle type, and stopping criteria",
    "Tests use one or two instances.",
    ["pyvrp/minimise_fleet.py"],
    [("minimise_fleet and its lower bound", "pyvrp/minimise_fleet.py")],
    observe=["minimise_fleet(...)"],
    tech="TLA+ contract (Fleet.tla) over VRP.tla, with existence decided by TLC by exhaustive search on small instances; TLC judges recorded calls",
)
prop(
    "C21",
    "Search statistics and results are recorded faithfully",
    "Collected statistics have one row per iteration with the costs and feasibility of the current, candidate and best solutions of that iteration under the evaluator in force, nothing is collected when collection is disabled, and writing collected "
    "statistics to a file and reading them back yields equal statistics. A result reports the cost and feasibility of its best solution, and its text lists its summary and routes faithfully.",
    ["histories"],
    "all collection histories",
    "Tests round-trip one run.",
    ["pyvrp/Statistics.py", "pyvrp/Result.py"],
    [("collect, to_csv, from_csv", "pyvrp/Statistics.py")],
    observe=["Statistics, Result"],
    tech="TLA+ state machine (Stats.tla); TLC validates recorded collection histories and round trips",
)
prop(
    "C22",
    "Copies and serialised objects are indistinguishable from originals",
    "Pickling and unpickling or copying any data object, activity, route or solution yields an object that compares equal to the original and reports the same values for everything observable, including costs. Data objects compare equal exactly when all their fields "
    "agree, routes of an instance when vehicle type and activities do, and solutions when they have the same routes in any order; equal objects have equal hashes.",
    ["inputs"],
    "all serialisable objects",
    "Tests pickle one object each and compare with ==, which ignores many fields.",
    [C + "bindings.cpp", C + "Route.cpp", C + "Solution.cpp", C + "bindings.h"],
    [("pickle support", C + "bindings.cpp"), ("operator==", C + "*.cpp")],
    observe=["pickle.loads(pickle.dumps(x)), copy, ==, hash"],
    tech="TLA+ observational-equality contract (Copies.tla); TLC judges recorded round trips",
)
prop(
    "C23",
    "Instance and solution files are read and written faithfully",
    "Reading an instance file yields problem data with the depots, clients, demands, time windows, service times, release times, prizes, shipments, groups, vehicles and matrices that the file describes under the chosen rounding, and files that give a wrong number of vehicle entries or depots other than the lowest indices are rejected with a ValueError. "
    "Reading a solution file yields exactly the routes it lists, on the vehicles it lists them for, and writing a solution and reading it back yields the same solution. "
    "The command line program prints and stores the outcome of solving with the given settings.",
    ["inputs"],
    "all instance files in the documented format and rounding functions, and all solutions",
    "Tests read a few fixed files.",
    ["pyvrp/read.py", "pyvrp/cli.py"],
    [("read, read_solution", "pyvrp/read.py"), ("write_solution, main", "pyvrp/cli.py")],
    observe=["read(...), read_solution(...), cli.write_solution(...), cli.main()"],
    tech="TLA+ meaning of instance and solution files (Files.tla); TLC judges recorded reads and writes of generated files",
)
prop(
    "C24",
    "Building blocks behave as the abstract types they implement",
    "The bitset behaves as a set of indices under every operation for every size, the ring buffer returns the element appended its length ago (or nothing), the piecewise linear function evaluates to the segment in force (at a breakpoint, the one starting there), and the random number generator "
    "is the documented xorshift generator, whose state can be saved and restored and whose draws stay within their documented bounds.",
    ["histories", "inputs"],
    "all operation histories and sizes",
    "Tests exercise a few operations and sizes.",
    [C + "DynamicBitset.cpp", "pyvrp/RingBuffer.py", C + "PiecewiseLinearFunction.h", C + "RandomNumberGenerator.cpp"],
    [("implementations", C)],
    observe=["DynamicBitset, RingBuffer, PiecewiseLinearFunction, RandomNumberGenerator"],
    tech="TLA+ abstract data types (Basics.tla), the ring buffer also explored exhaustively and all its histories replayed; TLC validates recorded operation histories",
)
prop(
    "C25",
    "Solver settings mean what was given, and impossible ones are rejected",
    "Settings that are not given take their documented defaults, given ones take their given values, and values outside the documented ranges and unknown names are rejected. "
    "Settings read from a file equal, and solve like, the same settings made directly, and two settings are equal exactly when all their values are.",
    ["inputs"],
    "all combinations of given settings, directly or in a file",
    "Tests check a few values.",
    ["pyvrp/solve.py", "pyvrp/PenaltyManager.py", "pyvrp/IteratedLocalSearch.py", C + "search/neighbourhood.cpp", C + "search/PerturbationManager.cpp"],
    [("SolveParams.from_file, parameter validation", "pyvrp/solve.py")],
    observe=["SolveParams, PenaltyParams, IteratedLocalSearchParams, NeighbourhoodParams, PerturbationParams"],
    tech="TLA+ meaning of settings (Settings.tla); TLC judges recorded constructions, comparisons and files",
)
prop(
    "C26",
    "Displayed progress agrees with what was collected",
    "While solving with display on and statistics collected, an iteration is displayed exactly when the display interval has passed since the last one displayed, with the most recently collected costs and feasibilities, and is marked exactly when its feasible best cost is lower than any marked before. "
    "Restarts are announced when they happen, the opening lines count what the instance contains, the closing lines give the result's iterations, time and cost, and nothing is displayed when display is off.",
    ["histories"],
    "all histories of iterations, restarts and times",
    "Tests check one run with fixed output.",
    ["pyvrp/ProgressPrinter.py", "pyvrp/IteratedLocalSearch.py"],
    [("ProgressPrinter", "pyvrp/ProgressPrinter.py")],
    observe=["log records of solve(..., display=True)"],
    tech="TLA+ display state machine (Progress.tla), explored exhaustively with all short histories replayed on virtual time; TLC validates recorded displays",
)
prop(
    "C27",
    "Solving combines its parts as configured and returns the best it found",
    "solve() starts from the given initial solution, or from a valid and complete one of its own, and runs exactly as many iterations as the stopping criterion allows, with exactly those configured operators that support the instance, the configured neighbourhood, and penalties that start midway between their bounds and never leave them. "
    "Every solution it visits is valid, every candidate complete, and it returns the least costly feasible solution visited (the initial one if there is none), so never one worse than where it started. "
    "A few hundred iterations solve tiny instances without reloads, shipments or mixed fleets to optimality, but for rare exceptions.",
    ["inputs", "histories"],
    "all instances, settings and seeds",
    "Tests solve a handful of fixed instances and check a few of these facts on each.",
    ["pyvrp/solve.py", "pyvrp/IteratedLocalSearch.py", "pyvrp/search/LocalSearch.h"],
    [("solve", "pyvrp/solve.py"), ("IteratedLocalSearch", "pyvrp/IteratedLocalSearch.py")],
    observe=["solve(data, stop, seed, ..., params, initial_solution)"],
    tech="TLA+ account of a run and of the optimum by enumeration (Solve.tla over VRP.tla); TLC judges recorded solver runs",
)

prop(
    "C28",
    "Objects handed out stay valid and unchanged for as long as they are held",
    "Whatever is obtained from problem data, shipments, groups, routes, solutions, results, search routes and solutions, and local searches keeps reporting what it reported when it was obtained for as long as it is held, whatever else is dropped or collected, and in whatever order. "
    "Routes, solutions, search spaces, operators and local searches likewise keep working after the data, nodes, operators and perturbation managers they were given are dropped. "
    "Changing a list, matrix or group that was passed in or handed out never changes any other object, and matrices and attributes that are handed out cannot be changed.",
    ["histories"],
    "all orders of obtaining, dropping and changing objects",
    "Tests keep everything alive in local variables and fixtures, where a dangling reference goes unnoticed.",
    ["pyvrp/cpp/bindings.cpp", "pyvrp/cpp/search/bindings.cpp"],
    [("keep_alive and return value policies", "pyvrp/cpp/bindings.cpp"), ("keep_alive and return value policies", "pyvrp/cpp/search/bindings.cpp")],
    observe=["attributes, getters and calls of held objects, in a process where freed memory is overwritten"],
    tech="TLA+ model of objects that refer to each other (Lifetimes.tla, MCLifetimes.tla); TLC prints all orders of obtaining and dropping, which are replayed on the real classes, and judges what the held objects report",
)

prop(
    "C29",
    "Plots show exactly what is plotted",
    "Plots of coordinates, demands and time windows show each depot, client, pickup and delivery of the given data once, at its place or with its value, bars in sorted order, and plots of solutions draw each trip's visits in order, from the depot where the trip starts to the depot where it ends, with dots for visited and unvisited locations when asked for. "
    "A route's schedule shows, against distance travelled, arrival, start and end times, driving and service times, time windows, time warp, slack, and what is on board in the given load dimension, also with several trips and initial loads. "
    "Plots of a result show the current, candidate and best objectives of each iteration that is not skipped, and each iteration's runtime with their trend.",
    ["inputs"],
    "all instances, solutions, routes and results, with and without axes that are passed in",
    "Tests compare a handful of images of fixed instances without reloads or initial loads.",
    ["pyvrp/plotting"],
    [(f, f"pyvrp/plotting/{f}.py") for f in ("plot_coordinates", "plot_demands", "plot_time_windows", "plot_solution", "plot_route_schedule", "plot_objectives", "plot_runtimes")],
    observe=["the points, lines, areas, bars and arrows on the axes, with their labels"],
    tech="TLA+ specification of what each plot shows (Plots.tla); TLC judges the artists on the axes of plots that the real functions drew (PlotsTrace.tla)",
)

BUILT = {}
NOT_APPLICABLE = {}


def main():
    import sys

    sys.path.insert(0, str(HERE))
    from registry import PROPS

    with open(HERE / "properties.jsonl", "w") as fh:
        for p in P:
            fh.write(json.dumps(p["rec"], ensure_ascii=False) + "\n")

    checks = []
    na = []
    for p in P:
        id = p["rec"]["id"]
        if id in PROPS:
            conf = PROPS[id]
            checks.append(
                dict(
                    property=id,
                    quick_cmd=f"python3 check.py {id} --tier quick",
                    thorough_cmd=f"python3 check.py {id} --tier thorough",
                    technique=p["tech"],
                    level="model_checking",
                    level_note=conf.get("note", p["note"])
                    or "Every recorded execution of the real code is judged by TLC against the TLA+ specification; holds for the executions explored (randomised and enumerated small instances, counts in the evidence file). Trusts TLC, the recorder in harness/, and the specification.",
                )
            )
        else:
            na.append(
                dict(
                    property=id,
                    reason=NOT_APPLICABLE.get(id, "specification and driver not built yet"),
                )
            )
    manifest = dict(
        version=1,
        setup_cmd="python3 setup.py",
        checks=checks,
        not_applicable=na,
        notes="TLA+ specifications in spec/, drivers in harness/, see DESIGN.md. No hooks in /repo are needed.",
    )
    (HERE / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
    assert len({p["rec"]["id"] for p in P}) == len(P)
    for p in P:
        assert len(p["rec"]["title"]) <= 80, p["rec"]["id"]


if __name__ == "__main__":
    main()
