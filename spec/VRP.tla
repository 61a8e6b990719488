-------------------------------- MODULE VRP --------------------------------
(***************************************************************************)
(* First-principles semantics of PyVRP's problem data, routes, solutions   *)
(* and objective.  Nothing in here concatenates segments: a route is       *)
(* evaluated by driving it, activity by activity.                          *)
(*                                                                         *)
(* A problem instance d is a record                                        *)
(*   ndim, nloc, depots, clients, groups, ships, vehs, dist, dur           *)
(* with zero-based indices in its fields, as PyVRP uses them.  INF stands  *)
(* for "unconstrained".  A plan is a sequence of [v, acts], where v is a   *)
(* vehicle type and acts the activities between its start and end depot;   *)
(* an activity is [t, i] with t one of                                     *)
(*   "C" client, "P" pickup, "L" delivery, "D" (reload) depot.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

INF == 100000000
BIG == 50000000

Norm(x) == IF x > BIG THEN INF ELSE IF x < -BIG THEN -INF ELSE x
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Pos(x) == Max2(x, 0)

Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
MaxSeq(s, z) == FoldLeft(LAMBDA a, b : Max2(a, b), z, s)
SumOver(s, F(_)) == FoldLeft(LAMBDA a, b : a + F(b), 0, s)
CountIn(s, P(_)) == FoldLeft(LAMBDA a, b : IF P(b) THEN a + 1 ELSE a, 0, s)
Last1(s) == s[Len(s)]

NumClients(d) == Len(d.clients)
NumShips(d)   == Len(d.ships)
NumDepots(d)  == Len(d.depots)
NumVehTypes(d) == Len(d.vehs)
NumVehicles(d) == SumOver(d.vehs, LAMBDA v : v.n)
Dims(d) == 1 .. d.ndim

Veh(d, v)    == d.vehs[v + 1]
Depot(d, i)  == d.depots[i + 1]
Client(d, i) == d.clients[i + 1]
Ship(d, i)   == d.ships[i + 1]

MaxTrips(v) == IF Len(v.rld) = 0 THEN 1
               ELSE IF v.maxrl >= INF THEN INF ELSE v.maxrl + 1

\* Physical site of an activity: location, time window, service duration.
Site(d, a) ==
  CASE a.t = "C" -> [loc |-> Client(d, a.i).loc, early |-> Client(d, a.i).early,
                     late |-> Client(d, a.i).late, serv |-> Client(d, a.i).serv]
    [] a.t = "P" -> Ship(d, a.i).p
    [] a.t = "L" -> Ship(d, a.i).d
    [] a.t = "D" -> Depot(d, a.i)

Loc(d, a) == Site(d, a).loc
Release(d, a) == IF a.t = "C" THEN Client(d, a.i).rel ELSE 0

Dist(d, v, i, j) == d.dist[Veh(d, v).prof + 1][i + 1][j + 1]
Dur(d, v, i, j)  == d.dur[Veh(d, v).prof + 1][i + 1][j + 1]

StartAct(d, v) == [t |-> "D", i |-> Veh(d, v).s]
EndAct(d, v)   == [t |-> "D", i |-> Veh(d, v).e]

\* All activities of a route, including the start and end depots.
Full(d, v, acts) == <<StartAct(d, v)>> \o acts \o <<EndAct(d, v)>>

IsReload(a) == a.t = "D"
NumTrips(acts) == 1 + CountIn(acts, IsReload)

\* Sequence of trips; each a sequence of non-depot activities.
Trips(acts) ==
  FoldLeft(LAMBDA ts, a : IF IsReload(a)
                          THEN Append(ts, <<>>)
                          ELSE [ts EXCEPT ![Len(ts)] = Append(@, a)],
           << <<>> >>, acts)

TripRelease(d, trip) == MaxSeq([k \in 1 .. Len(trip) |-> Release(d, trip[k])], 0)

RouteClients(acts) == { acts[k].i : k \in { m \in 1 .. Len(acts) : acts[m].t = "C" } }
RouteShips(acts)   == { acts[k].i : k \in { m \in 1 .. Len(acts) : acts[m].t = "P" } }
IsEmptyRoute(acts) == \A k \in 1 .. Len(acts) : IsReload(acts[k])

(***************************************************************************)
(* Distance.                                                               *)
(***************************************************************************)
Edges(full) == [k \in 1 .. Len(full) - 1 |-> <<full[k], full[k + 1]>>]

Distance(d, v, acts) ==
  LET E == Edges(Full(d, v, acts))
  IN  SumOver(E, LAMBDA e : Dist(d, v, Loc(d, e[1]), Loc(d, e[2])))

Travel(d, v, acts) ==
  LET E == Edges(Full(d, v, acts))
  IN  SumOver(E, LAMBDA e : Dur(d, v, Loc(d, e[1]), Loc(d, e[2])))

\* Service happens everywhere except at the end depot.
Service(d, v, acts) ==
  SumOver(<<StartAct(d, v)>> \o acts, LAMBDA a : Site(d, a).serv)

ExcessDistance(d, v, acts) == Pos(Distance(d, v, acts) - Veh(d, v).maxdist)

(***************************************************************************)
(* Load: drive each trip, starting with everything that trip delivers (and *)
(* the vehicle's initial load, on the first trip); the excess of a trip is *)
(* how far the largest load on board is above capacity.                    *)
(***************************************************************************)
LoadChange(d, a, k) ==
  CASE a.t = "C" -> Client(d, a.i).pck[k] - Client(d, a.i).dlv[k]
    [] a.t = "P" -> Ship(d, a.i).amt[k]
    [] a.t = "L" -> - Ship(d, a.i).amt[k]

TripPeak(d, trip, k, init) ==
  LET start == init + SumOver(trip, LAMBDA a : IF a.t = "C" THEN Client(d, a.i).dlv[k] ELSE 0)
      r == FoldLeft(LAMBDA s, a : LET l == s.load + LoadChange(d, a, k)
                                  IN [load |-> l, peak |-> Max2(s.peak, l)],
                    [load |-> start, peak |-> start], trip)
  IN  r.peak

ExcessLoad(d, v, acts, k) ==
  LET ts == Trips(acts)
      veh == Veh(d, v)
  IN  Sum([j \in 1 .. Len(ts) |->
             Pos(TripPeak(d, ts[j], k, IF j = 1 THEN veh.init[k] ELSE 0) - veh.cap[k])])

Delivery(d, v, acts, k) ==
  SumOver(acts, LAMBDA a : IF a.t = "C" THEN Client(d, a.i).dlv[k] ELSE 0)
Pickup(d, v, acts, k) ==
  Veh(d, v).init[k]
  + SumOver(acts, LAMBDA a : IF a.t = "C" THEN Client(d, a.i).pck[k] ELSE 0)

(***************************************************************************)
(* Time.  Stops lists what a vehicle does, in order: travel there, then be *)
(* inside [early, late] (waiting, or warping back in time), and serve.     *)
(* "rel" is the earliest moment a (re)loading may begin: the release time  *)
(* of the trip that starts there.                                          *)
(***************************************************************************)
Stops(d, v, acts) ==
  LET full == Full(d, v, acts)
      ts == Trips(acts)
      \* trip index of position k of full (0-based)
      tripAt == [k \in 1 .. Len(full) |->
                   IF k = 1 THEN 0
                   ELSE Cardinality({ m \in 2 .. k : IsReload(full[m]) })]
      veh == Veh(d, v)
  IN  [k \in 1 .. Len(full) |->
        LET a == full[k]
            s == Site(d, a)
        IN  [ t |-> a.t, i |-> a.i, trip |-> tripAt[k],
              leg |-> IF k = 1 THEN 0 ELSE Dur(d, v, Loc(d, full[k-1]), Loc(d, a)),
              early |-> IF k = Len(full) THEN Max2(s.early, veh.early) ELSE s.early,
              late |-> IF k = Len(full) THEN Min2(s.late, veh.late) ELSE s.late,
              serv |-> IF k = Len(full) THEN 0 ELSE s.serv,
              rel |-> IF 1 < k /\ k < Len(full) /\ IsReload(a)
                      THEN TripRelease(d, ts[tripAt[k] + 1]) ELSE 0 ] ]

\* One stop: arrive, wait until it opens (and is released), warp back when late.
Serve(s, now) ==
  LET arrive == now + s.leg
      open == Max2(arrive, Max2(s.early, s.rel))
      begin == Min2(open, s.late)
  IN  [ begin |-> begin, done |-> begin + s.serv,
        wait |-> open - arrive, tw |-> open - begin ]

\* Leaving after the latest shift start (because the first trip was released
\* late) warps back to that latest start.
Drive(stops, t0, slate) ==
  FoldLeft(LAMBDA st, s : LET x == Serve(s, st.now)
                          IN [now |-> x.done, tw |-> st.tw + x.tw, wait |-> st.wait + x.wait],
           [now |-> Min2(t0, slate), tw |-> Pos(t0 - slate), wait |-> 0], stops)

\* The same drive, keeping every stop.
Timetable(stops, t0, slate) ==
  LET log == FoldLeft(LAMBDA st, s : LET x == Serve(s, st.now)
                                     IN [now |-> x.done, log |-> Append(st.log, x)],
                      [now |-> Min2(t0, slate), log |-> <<>>], stops).log
  IN  [log EXCEPT ![1].tw = @ + Pos(t0 - slate)]

\* A moment after which every finite opening/release/closing has passed.
TimeHorizon(stops, veh) ==
  LET F(x) == IF x >= INF THEN 0 ELSE x
  IN  1 + MaxSeq([k \in 1 .. Len(stops) |->
                    Max2(F(stops[k].early), Max2(F(stops[k].late), F(stops[k].rel)))],
                 Max2(F(veh.early), F(veh.slate)))

(***************************************************************************)
(* Best departure: over all departure times that the shift and the first   *)
(* trip's release time allow, the least time warp, and then the least      *)
(* duration; start is the earliest such departure, slack how much later    *)
(* one may leave without losing either.                                    *)
(***************************************************************************)
TimeEval(d, v, acts) ==
  LET stops == Stops(d, v, acts)
      veh == Veh(d, v)
      rel == TripRelease(d, Trips(acts)[1])
      lo == Max2(veh.early, rel)
      hor == 1 + Max2(TimeHorizon(stops, veh), lo)
      hi == Min2(Max2(veh.slate, rel), hor)
      T == lo .. hi
      runs == [t \in T |-> Drive(stops, t, veh.slate)]
      minTw == CHOOSE x \in { runs[t].tw : t \in T } :
                 \A t \in T : x <= runs[t].tw
      T1 == { t \in T : runs[t].tw = minTw }
      minWait == CHOOSE x \in { runs[t].wait : t \in T1 } :
                   \A t \in T1 : x <= runs[t].wait
      best == { t \in T1 : runs[t].wait = minWait }
      s0 == CHOOSE t \in best : \A u \in best : t <= u
      s1 == CHOOSE t \in best : \A u \in best : t >= u
      duration == Travel(d, v, acts) + Service(d, v, acts) + minWait
      maxDur == Min2(INF, veh.shift + veh.maxot)
  IN  [ duration |-> duration,
        wait |-> minWait,
        start |-> s0,
        slack |-> IF s1 = hor /\ veh.slate >= INF THEN INF ELSE s1 - s0,
        contiguous |-> best = s0 .. s1,
        release |-> rel,
        warp |-> minTw,                      \* from time windows, releases
        \* The maximum duration applies net of time warp.
        timeWarp |-> minTw + Pos(duration - minTw - maxDur),
        overtime |-> Pos(duration - veh.shift),
        table |-> Timetable(stops, s0, veh.slate) ]

DistanceCost(d, v, acts) == Veh(d, v).ud * Distance(d, v, acts)
DurationCost(d, v, te) == Veh(d, v).ut * te.duration + Veh(d, v).uo * te.overtime

RoutePrizes(d, acts) ==
  SumOver(acts, LAMBDA a : CASE a.t = "C" -> Client(d, a.i).prize
                             [] a.t = "P" -> Ship(d, a.i).prize
                             [] OTHER -> 0)

(***************************************************************************)
(* Which activity lists are routes, and which sets of routes solutions.    *)
(***************************************************************************)
InRange(d, a) ==
  CASE a.t = "C" -> a.i < NumClients(d)
    [] a.t \in {"P", "L"} -> a.i < NumShips(d)
    [] a.t = "D" -> a.i < NumDepots(d)

\* The reasons why an activity list is not a route of vehicle type v.
RouteErrors(d, v, acts) ==
  LET N == 1 .. Len(acts)
      P(i) == { k \in N : acts[k].t = "P" /\ acts[k].i = i }
      L(i) == { k \in N : acts[k].t = "L" /\ acts[k].i = i }
      Ids == { acts[k].i : k \in { m \in N : acts[m].t \in {"P", "L"} } }
  IN  (IF \A k \in N : InRange(d, acts[k]) THEN {} ELSE {"range"})
      \cup (IF \A i \in Ids : /\ Cardinality(P(i)) = 1
                              /\ Cardinality(L(i)) = 1
                              /\ \A p \in P(i), l \in L(i) :
                                    /\ p < l
                                    /\ \A m \in p .. l : ~IsReload(acts[m])
            THEN {} ELSE {"pairing"})
      \cup (IF NumTrips(acts) <= MaxTrips(Veh(d, v)) THEN {} ELSE {"trips"})

ValidRoute(d, v, acts) == RouteErrors(d, v, acts) = {}

AllActs(plan) == FoldLeft(LAMBDA s, r : s \o r.acts, <<>>, plan)

CountAct(acts, t, i) == CountIn(acts, LAMBDA a : a.t = t /\ a.i = i)

VisitedClients(plan) == UNION { RouteClients(plan[k].acts) : k \in 1 .. Len(plan) }
VisitedShips(plan)   == UNION { RouteShips(plan[k].acts) : k \in 1 .. Len(plan) }

GroupCount(d, plan, g) ==
  Cardinality({ k \in 1 .. Len(g.cl) : g.cl[k] \in VisitedClients(plan) })

\* Reasons why a plan of valid routes is not a solution.
PlanErrors(d, plan) ==
  LET acts == AllActs(plan)
      used(v) == CountIn(plan, LAMBDA r : r.v = v)
  IN  (IF \A k \in 1 .. Len(plan) : ~IsEmptyRoute(plan[k].acts) THEN {} ELSE {"empty"})
      \cup (IF \A i \in VisitedClients(plan) : CountAct(acts, "C", i) = 1
            THEN {} ELSE {"client-twice"})
      \cup (IF \A i \in VisitedShips(plan) : CountAct(acts, "P", i) = 1
            THEN {} ELSE {"shipment-twice"})
      \cup (IF \A k \in 1 .. Len(d.groups) : GroupCount(d, plan, d.groups[k]) <= 1
            THEN {} ELSE {"group-twice"})
      \cup (IF \A v \in 0 .. NumVehTypes(d) - 1 : used(v) <= Veh(d, v).n
            THEN {} ELSE {"fleet"})

ValidPlan(d, plan) ==
  /\ \A k \in 1 .. Len(plan) : ValidRoute(d, plan[k].v, plan[k].acts)
  /\ PlanErrors(d, plan) = {}

MissingClients(d, plan) ==
  Cardinality({ i \in 0 .. NumClients(d) - 1 :
                  Client(d, i).req /\ i \notin VisitedClients(plan) })
MissingShips(d, plan) ==
  Cardinality({ i \in 0 .. NumShips(d) - 1 :
                  Ship(d, i).req /\ i \notin VisitedShips(plan) })
MissingGroups(d, plan) ==
  Cardinality({ k \in 1 .. Len(d.groups) :
                  d.groups[k].req /\ GroupCount(d, plan, d.groups[k]) = 0 })

Complete(d, plan) ==
  MissingClients(d, plan) + MissingShips(d, plan) + MissingGroups(d, plan) = 0

Unplanned(d, plan) ==
  { [t |-> "C", i |-> i] : i \in (0 .. NumClients(d) - 1) \ VisitedClients(plan) }
  \cup { [t |-> x, i |-> i] : x \in {"P", "L"},
                              i \in (0 .. NumShips(d) - 1) \ VisitedShips(plan) }

AllPrizes(d) == SumOver(d.clients, LAMBDA c : c.prize) + SumOver(d.ships, LAMBDA s : s.prize)

UncollectedPrizes(d, plan) ==
  AllPrizes(d) - SumOver(plan, LAMBDA r : RoutePrizes(d, r.acts))

(***************************************************************************)
(* Objective.  Penalties are given in quarters (4 * penalty, an integer),  *)
(* and each penalty term is truncated to an integer cost.                  *)
(***************************************************************************)
PenTerm(p4, amount) == (p4 * amount) \div 4

\* Objective contribution of a non-empty route; te its TimeEval.
RouteCost(d, v, acts, te) ==
  DistanceCost(d, v, acts) + DurationCost(d, v, te) + Veh(d, v).fixed

RoutePenalties(d, v, acts, te, pen) ==
  Sum([k \in Dims(d) |-> PenTerm(pen.load[k], ExcessLoad(d, v, acts, k))])
  + PenTerm(pen.tw, te.timeWarp)
  + PenTerm(pen.dist, ExcessDistance(d, v, acts))

RoutePenCost(d, v, acts, te, pen) ==
  IF IsEmptyRoute(acts) THEN 0
  ELSE RouteCost(d, v, acts, te) + RoutePenalties(d, v, acts, te, pen)

PenCost(d, plan, tes, pen) ==
  UncollectedPrizes(d, plan)
  + Sum([k \in 1 .. Len(plan) |-> RoutePenCost(d, plan[k].v, plan[k].acts, tes[k], pen)])

RouteFeasible(d, v, acts, te) ==
  /\ te.timeWarp = 0
  /\ ExcessDistance(d, v, acts) = 0
  /\ \A k \in Dims(d) : ExcessLoad(d, v, acts, k) = 0

Feasible(d, plan, tes) ==
  /\ Complete(d, plan)
  /\ \A k \in 1 .. Len(plan) : RouteFeasible(d, plan[k].v, plan[k].acts, tes[k])

TimeEvals(d, plan) ==
  [k \in 1 .. Len(plan) |-> TimeEval(d, plan[k].v, plan[k].acts)]

PlanPenCost(d, plan, pen) == PenCost(d, plan, TimeEvals(d, plan), pen)

=============================================================================
