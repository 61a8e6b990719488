------------------------------- MODULE Fleet -------------------------------
(***************************************************************************)
(* What a fleet of n vehicles of one type can do: the first-principles     *)
(* meaning of fleet minimisation (C20), on top of VRP.tla.                 *)
(***************************************************************************)
EXTENDS VRP

Ceil(a, b) == (a + b - 1) \div b

\* Vehicles needed to carry all client demand, over the trips a vehicle may
\* make.
Bound(d) ==
  LET veh == Veh(d, 0)
      need(k) == LET dlv == SumOver(d.clients, LAMBDA c : c.dlv[k])
                     pck == SumOver(d.clients, LAMBDA c : c.pck[k])
                     cap == IF MaxTrips(veh) >= INF
                            THEN IF veh.cap[k] = 0 THEN 0 ELSE INF
                            ELSE veh.cap[k] * MaxTrips(veh)
                 IN  Ceil(Max2(dlv, pck), Max2(cap, 1))
  IN  MaxSeq([k \in Dims(d) |-> need(k)], 0)

Supported(d) == /\ NumVehTypes(d) = 1
                /\ \A k \in 1 .. NumClients(d) : d.clients[k].req

Visits(d) == { [t |-> "C", i |-> i] : i \in 0 .. NumClients(d) - 1 }
             \cup { [t |-> "S", i |-> i] : i \in 0 .. NumShips(d) - 1 }
Must(d) == { x \in Visits(d) : x.t = "C" \/ Ship(d, x.i).req }

ActsOf(S) == UNION { IF x.t = "C" THEN {x}
                     ELSE {[t |-> "P", i |-> x.i], [t |-> "L", i |-> x.i]} : x \in S }

\* Can one vehicle serve exactly the visits S?  Extends a partial route by
\* one activity (or a reload) at a time.
RECURSIVE CanServe(_, _, _)
CanServe(d, acts, todo) ==
  \/ /\ todo = {}
     /\ ValidRoute(d, 0, acts)
     /\ RouteFeasible(d, 0, acts, TimeEval(d, 0, acts))
  \/ \E a \in todo :
       /\ a.t = "L" => [t |-> "P", i |-> a.i] \notin todo
       /\ CanServe(d, Append(acts, a), todo \ {a})
  \/ /\ todo # {}
     /\ NumTrips(acts) < MaxTrips(Veh(d, 0))
     /\ \A a \in todo : a.t = "L" => [t |-> "P", i |-> a.i] \in todo
     /\ \E k \in 1 .. Len(Veh(d, 0).rld) :
          CanServe(d, Append(acts, [t |-> "D", i |-> Veh(d, 0).rld[k]]), todo)

\* Can n vehicles serve all that must be served?
RECURSIVE CanCover(_, _, _)
CanCover(servable, must, n) ==
  \/ must = {}
  \/ /\ n > 0
     /\ LET x == CHOOSE y \in must : TRUE
        IN  \E S \in servable : x \in S /\ CanCover({ T \in servable : T \cap S = {} },
                                                    must \ S, n - 1)

Enough(d, n) ==
  LET servable == { S \in SUBSET Visits(d) : S # {} /\ CanServe(d, <<>>, ActsOf(S)) }
  IN  CanCover(servable, Must(d), n)
=============================================================================
