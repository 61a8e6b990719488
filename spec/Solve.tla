------------------------------- MODULE Solve -------------------------------
(***************************************************************************)
(* What solving an instance may do and must return (C27), on top of        *)
(* VRP.tla.                                                                *)
(*                                                                         *)
(* Visited solutions are numbered; a run is what the configured parts make *)
(* of them.  Optimum(d) is the least cost of all feasible plans of single  *)
(* trips, by enumeration.                                                  *)
(***************************************************************************)
EXTENDS VRP

PlanCost(d, plan) ==
  LET tes == TimeEvals(d, plan)
  IN  IF Feasible(d, plan, tes)
      THEN UncollectedPrizes(d, plan)
           + Sum([k \in 1 .. Len(plan) |-> RouteCost(d, plan[k].v, plan[k].acts, tes[k])])
      ELSE INF

(************************** the best there is ******************************)
Visits(d) == { [t |-> "C", i |-> i] : i \in 0 .. NumClients(d) - 1 }
             \cup { [t |-> "S", i |-> i] : i \in 0 .. NumShips(d) - 1 }
ActsOf(S) == UNION { IF x.t = "C" THEN {x}
                     ELSE {[t |-> "P", i |-> x.i], [t |-> "L", i |-> x.i]} : x \in S }
MinOf(S) == IF S = {} THEN INF ELSE CHOOSE x \in S : \A y \in S : x <= y

\* Least cost of one vehicle of type v visiting exactly what is in todo,
\* after acts.
RECURSIVE RouteMin(_, _, _, _)
RouteMin(d, v, acts, todo) ==
  IF todo = {}
  THEN LET te == TimeEval(d, v, acts)
       IN  IF RouteFeasible(d, v, acts, te) THEN RouteCost(d, v, acts, te) ELSE INF
  ELSE MinOf({ RouteMin(d, v, Append(acts, a), todo \ {a})
               : a \in { b \in todo : b.t = "L" => [t |-> "P", i |-> b.i] \notin todo } })

Prize(d, x) == IF x.t = "C" THEN Client(d, x.i).prize ELSE Ship(d, x.i).prize
PrizeOf(d, S) == SumOver(SetToSeq(S), LAMBDA x : Prize(d, x))
GroupOk(d, S) ==
  \A g \in 1 .. Len(d.groups) :
    Cardinality({ k \in 1 .. Len(d.groups[g].cl) : [t |-> "C", i |-> d.groups[g].cl[k]] \in S }) <= 1
Whole(d, S) ==
  /\ \A i \in 0 .. NumClients(d) - 1 : Client(d, i).req => [t |-> "C", i |-> i] \in S
  /\ \A i \in 0 .. NumShips(d) - 1 : Ship(d, i).req => [t |-> "S", i |-> i] \in S
  /\ \A g \in 1 .. Len(d.groups) :
       d.groups[g].req => \E k \in 1 .. Len(d.groups[g].cl) : [t |-> "C", i |-> d.groups[g].cl[k]] \in S

\* One vehicle per element of vs (a sequence of vehicle types).
Optimum(d) ==
  LET all == Visits(d)
      subs == { S \in SUBSET all : GroupOk(d, S) }
      N == Cardinality(all)
      one == [v \in 0 .. NumVehTypes(d) - 1 |->
                [S \in subs |-> IF S = {} THEN 0 ELSE RouteMin(d, v, <<>>, ActsOf(S))]]
      vs == FoldLeft(LAMBDA s, v : s \o [n \in 1 .. Min2(Veh(d, v).n, N) |-> v],
                     <<>>, [v \in 1 .. NumVehTypes(d) |-> v - 1])
      cost == FoldLeft(LAMBDA c, v :
                 [S \in subs |-> MinOf({ Min2(INF, c[S \ T] + one[v][T]) : T \in SUBSET S })],
                 [S \in subs |-> IF S = {} THEN 0 ELSE INF], vs)
      total == PrizeOf(d, all)
  IN  MinOf({ IF cost[S] >= INF THEN INF ELSE cost[S] + total - PrizeOf(d, S)
              : S \in { T \in subs : Whole(d, T) } })
=============================================================================
