------------------------------- MODULE MCPlans -------------------------------
(***************************************************************************)
(* All short plans of a few small instances, activity by activity: valid   *)
(* and invalid ones.  Design invariants relate the parts of VRP.tla to     *)
(* each other; every plan is replayed into the real constructors (C04) and *)
(* every valid one evaluated by the real code (C01-C03, C05, C06).         *)
(***************************************************************************)
EXTENDS VRP, TLC, Json
CONSTANTS MaxRoutes, MaxActs, Which, Emit

Cli(l, dlv, pck, e, w, serv, rel, prize, req, grp) ==
  [loc |-> l, dlv |-> dlv, pck |-> pck, early |-> e, late |-> w, serv |-> serv, rel |-> rel,
   prize |-> prize, req |-> req, grp |-> grp]
Dep(l, e, w, serv) == [loc |-> l, early |-> e, late |-> w, serv |-> serv]
Site1(l, e, w, serv) == [loc |-> l, early |-> e, late |-> w, serv |-> serv]
Vehicle(n, cap, s, e, rld, maxrl) ==
  [n |-> n, cap |-> cap, s |-> s, e |-> e, fixed |-> 0, early |-> 0, late |-> INF, shift |-> INF,
   maxdist |-> INF, ud |-> 1, ut |-> 1, prof |-> 0, slate |-> INF, init |-> [k \in 1 .. Len(cap) |-> 0],
   rld |-> rld, maxrl |-> maxrl, maxot |-> 0, uo |-> 0]
M3 == << <<0, 3, 5>>, <<4, 0, 2>>, <<6, 1, 0>> >>
T3 == << <<0, 2, 4>>, <<3, 0, 2>>, <<5, 3, 0>> >>

\* One vehicle, with a reload; a shipment; windows and release times.
One ==
  [ nloc |-> 3, ndim |-> 1, depots |-> <<Dep(0, 0, 40, 1)>>,
    clients |-> <<Cli(1, <<3>>, <<0>>, 5, 9, 1, 4, 0, TRUE, -1), Cli(2, <<1>>, <<2>>, 0, 12, 2, 0, 6, FALSE, -1)>>,
    groups |-> <<>>,
    ships |-> <<[p |-> Site1(2, 3, 20, 1), d |-> Site1(1, 0, 15, 0), amt |-> <<2>>, prize |-> 4, req |-> FALSE]>>,
    vehs |-> <<[Vehicle(1, <<4>>, 0, 0, <<0>>, 1) EXCEPT
                 !.shift = 14, !.maxot = 6, !.uo = 2, !.slate = 7, !.init = <<1>>, !.maxdist = 20]>>,
    dist |-> <<M3>>, dur |-> <<T3>> ]

\* Two vehicle types, two depots, two profiles, a group and a shipment.
Two ==
  [ nloc |-> 3, ndim |-> 2, depots |-> <<Dep(0, 0, INF, 0), Dep(2, 2, 30, 1)>>,
    clients |-> <<Cli(1, <<2, 0>>, <<0, 1>>, 0, INF, 1, 0, 3, FALSE, 0), Cli(2, <<1, 1>>, <<0, 0>>, 2, 8, 0, 0, 5, FALSE, 0),
                  Cli(1, <<0, 3>>, <<0, 0>>, 0, 6, 2, 3, 0, TRUE, -1)>>,
    groups |-> <<[cl |-> <<0, 1>>, req |-> FALSE]>>,
    ships |-> <<>>,
    vehs |-> <<[Vehicle(1, <<2, 3>>, 0, 1, <<>>, INF) EXCEPT !.fixed = 7],
               [Vehicle(2, <<5, 1>>, 1, 0, <<1>>, 1) EXCEPT !.prof = 1, !.ud = 2, !.ut = 0, !.late = 20, !.slate = 20]>>,
    dist |-> <<M3, T3>>, dur |-> <<T3, M3>> ]

Ds == <<One, Two>>
\* what may be put into a route, including what does not exist
Alphabet(k) ==
  IF k = 1
  THEN { [t |-> "C", i |-> 0], [t |-> "C", i |-> 1], [t |-> "C", i |-> 2], [t |-> "P", i |-> 0], [t |-> "L", i |-> 0],
         [t |-> "D", i |-> 0] }
  ELSE { [t |-> "C", i |-> 0], [t |-> "C", i |-> 1], [t |-> "C", i |-> 2], [t |-> "D", i |-> 1] }

QuickRoutes == <<1, 2>>
QuickActs == <<5, 3>>
DeepRoutes == <<1, 3>>
DeepActs == <<6, 4>>

VARIABLES which, plan
Init == which \in Which /\ plan = <<>>
Open(v) == Len(plan) < MaxRoutes[which] /\ plan' = Append(plan, [v |-> v, acts |-> <<>>])
Add(a) == /\ plan # <<>>
          /\ Len(AllActs(plan)) < MaxActs[which]
          /\ plan' = [plan EXCEPT ![Len(plan)].acts = Append(@, a)]
Next == /\ \/ \E v \in 0 .. NumVehTypes(Ds[which]) - 1 : Open(v)
           \/ \E a \in Alphabet(which) : Add(a)
        /\ UNCHANGED which

(***************************************************************************)
(* What holds of the semantics itself.                                     *)
(***************************************************************************)
d == Ds[which]
Routes == 1 .. Len(plan)
AllRoutesOk == \A k \in Routes : ValidRoute(d, plan[k].v, plan[k].acts)

RouteFacts(v, acts) ==
  LET te == TimeEval(d, v, acts)
      N == 1 .. Len(te.table)
      stops == Stops(d, v, acts)
  IN  /\ te.contiguous
      \* the timetable adds up
      /\ Sum([k \in N |-> te.table[k].tw]) = te.warp
      /\ Sum([k \in N |-> te.table[k].wait]) = te.wait
      /\ te.table[Len(stops)].done = te.start + te.duration - te.warp
      /\ te.duration = Travel(d, v, acts) + Service(d, v, acts) + te.wait
      \* nothing happens before it may, or after it must
      /\ \A k \in N : te.table[k].begin <= stops[k].late
      /\ \A k \in N : te.table[k].begin >= Min2(stops[k].early, stops[k].late)
      \* warp is there exactly when no departure avoids it
      /\ te.timeWarp >= te.warp /\ te.overtime >= 0
      \* loads: some trip exceeds capacity exactly when its peak does
      /\ \A m \in Dims(d) : ExcessLoad(d, v, acts, m) >= 0

Facts ==
  AllRoutesOk =>
    /\ \A k \in Routes : RouteFacts(plan[k].v, plan[k].acts)
    /\ PlanErrors(d, plan) = {} =>
         LET tes == TimeEvals(d, plan)
             free == [load |-> [m \in Dims(d) |-> 0], tw |-> 0, dist |-> 0]
             dear == [load |-> [m \in Dims(d) |-> 40], tw |-> 40, dist |-> 40]
             whole == Complete(d, plan)
         IN  /\ UncollectedPrizes(d, plan) >= 0
             \* penalties matter exactly when some route is infeasible
             /\ (PenCost(d, plan, tes, free) = PenCost(d, plan, tes, dear))
                = (\A k \in Routes : RouteFeasible(d, plan[k].v, plan[k].acts, tes[k]))
             /\ Feasible(d, plan, tes) => whole
             /\ Cardinality(Unplanned(d, plan))
                = NumClients(d) - Cardinality(VisitedClients(plan))
                  + 2 * (NumShips(d) - Cardinality(VisitedShips(plan)))

EmitOk == Emit => IF plan = <<>> THEN PrintT(ToJson([which |-> which, inst |-> d]))
                  ELSE PrintT(ToJson([which |-> which, plan |-> plan,
                                      routesOk |-> AllRoutesOk,
                                      ok |-> AllRoutesOk /\ PlanErrors(d, plan) = {}]))
=============================================================================
