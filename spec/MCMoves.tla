------------------------------- MODULE MCMoves -------------------------------
(***************************************************************************)
(* All plans of a few small instances that local search moves lead to from *)
(* nothing, whether or not they improve.  Checks that moves keep plans     *)
(* valid and complete, and that the cost change of a move is the change in *)
(* the objective; every plan is emitted for replay: all operators, on all  *)
(* pairs of activities, on the real code (C09).                            *)
(***************************************************************************)
EXTENDS Moves, TLC, Json
CONSTANTS Which, Emit

Cli(l, dlv, pck, e, w, serv, rel, prize, req, grp) ==
  [loc |-> l, dlv |-> dlv, pck |-> pck, early |-> e, late |-> w, serv |-> serv, rel |-> rel,
   prize |-> prize, req |-> req, grp |-> grp]
Dep(l, e, w, serv) == [loc |-> l, early |-> e, late |-> w, serv |-> serv]
Vehicle(n, cap, s, e, rld, maxrl) ==
  [n |-> n, cap |-> cap, s |-> s, e |-> e, fixed |-> 0, early |-> 0, late |-> INF, shift |-> INF,
   maxdist |-> INF, ud |-> 1, ut |-> 1, prof |-> 0, slate |-> INF, init |-> [k \in 1 .. Len(cap) |-> 0],
   rld |-> rld, maxrl |-> maxrl, maxot |-> 0, uo |-> 0]
M4 == << <<0, 3, 5, 7>>, <<4, 0, 2, 6>>, <<6, 1, 0, 3>>, <<5, 8, 2, 0>> >>
T4 == << <<0, 2, 4, 3>>, <<3, 0, 2, 7>>, <<5, 3, 0, 1>>, <<6, 4, 2, 0>> >>

\* Two vehicles with a reload, windows and release times.
Reloads ==
  [ nloc |-> 4, ndim |-> 1, depots |-> <<Dep(0, 0, 40, 1), Dep(3, 1, 30, 0)>>,
    clients |-> <<Cli(1, <<3>>, <<0>>, 5, 9, 1, 4, 0, TRUE, -1), Cli(2, <<2>>, <<2>>, 0, 12, 2, 0, 6, FALSE, -1),
                  Cli(3, <<2>>, <<0>>, 0, INF, 0, 6, 9, FALSE, -1)>>,
    groups |-> <<>>, ships |-> <<>>,
    vehs |-> <<[Vehicle(2, <<4>>, 0, 0, <<1>>, 1) EXCEPT
                 !.shift = 14, !.maxot = 6, !.uo = 2, !.slate = 7, !.init = <<1>>, !.maxdist = 20, !.fixed = 3]>>,
    dist |-> <<M4>>, dur |-> <<T4>> ]

\* Shipments and a client, with two different vehicles.
Shipments ==
  [ nloc |-> 4, ndim |-> 1, depots |-> <<Dep(0, 0, INF, 0)>>,
    clients |-> <<Cli(1, <<1>>, <<0>>, 0, 12, 2, 0, 6, FALSE, -1)>>,
    groups |-> <<>>,
    ships |-> <<[p |-> Dep(2, 3, 20, 1), d |-> Dep(1, 0, 15, 0), amt |-> <<2>>, prize |-> 4, req |-> TRUE],
                [p |-> Dep(3, 0, 8, 1), d |-> Dep(2, 4, 18, 2), amt |-> <<3>>, prize |-> 12, req |-> FALSE]>>,
    vehs |-> <<Vehicle(1, <<4>>, 0, 0, <<>>, INF),
               [Vehicle(1, <<3>>, 0, 0, <<>>, INF) EXCEPT !.prof = 1, !.ud = 2, !.fixed = 5, !.late = 25, !.slate = 25]>>,
    dist |-> <<M4, T4>>, dur |-> <<T4, M4>> ]

\* Groups, one required; two depots; two load dimensions.
Groups ==
  [ nloc |-> 4, ndim |-> 2, depots |-> <<Dep(0, 0, INF, 0), Dep(2, 2, 30, 1)>>,
    clients |-> <<Cli(1, <<2, 0>>, <<0, 1>>, 0, INF, 1, 0, 3, FALSE, 0), Cli(2, <<1, 1>>, <<0, 0>>, 2, 8, 0, 0, 5, FALSE, 0),
                  Cli(3, <<0, 2>>, <<0, 0>>, 0, 6, 2, 3, 4, FALSE, 1), Cli(1, <<1, 1>>, <<1, 0>>, 0, 9, 1, 0, 0, FALSE, 1),
                  Cli(2, <<1, 0>>, <<0, 2>>, 3, 11, 0, 0, 2, FALSE, -1)>>,
    groups |-> <<[cl |-> <<0, 1>>, req |-> FALSE], [cl |-> <<2, 3>>, req |-> TRUE]>>,
    ships |-> <<>>,
    vehs |-> <<[Vehicle(1, <<2, 3>>, 0, 1, <<>>, INF) EXCEPT !.fixed = 7],
               [Vehicle(1, <<5, 1>>, 1, 0, <<>>, INF) EXCEPT !.prof = 1, !.ud = 2, !.ut = 0, !.late = 20, !.slate = 20]>>,
    dist |-> <<M4, T4>>, dur |-> <<T4, M4>> ]

\* A shipment among reloads.
Mixed ==
  [ nloc |-> 4, ndim |-> 1, depots |-> <<Dep(0, 0, 50, 1)>>,
    clients |-> <<Cli(1, <<1>>, <<0>>, 0, 14, 1, 2, 6, FALSE, -1), Cli(3, <<3>>, <<1>>, 2, 20, 0, 0, 0, TRUE, -1)>>,
    groups |-> <<>>,
    ships |-> <<[p |-> Dep(2, 3, 20, 1), d |-> Dep(1, 0, 15, 0), amt |-> <<2>>, prize |-> 4, req |-> FALSE]>>,
    vehs |-> <<[Vehicle(1, <<3>>, 0, 0, <<0>>, 1) EXCEPT !.shift = 16, !.maxot = 5, !.uo = 3],
               [Vehicle(1, <<2>>, 0, 0, <<>>, INF) EXCEPT !.prof = 1, !.fixed = 2]>>,
    dist |-> <<M4, T4>>, dur |-> <<T4, M4>> ]

Ds == <<Reloads, Shipments, Groups, Mixed>>
Ops == {"Relocate1", "Relocate2", "Relocate3", "Swap11", "Swap21", "Swap22", "Swap31", "Swap32", "Swap33",
        "SwapTails", "RelocateAlternative", "RelocateShipment", "RelocateWithDepot", "RemoveAdjacentDepot",
        "RemoveOptionalClient", "RemoveOptionalShipment", "ReplaceGroup", "ReplaceOptionalClient",
        "ReplaceOptionalShipment", "InsertOptionalClient", "InsertOptionalShipment", "RelocateDelivery",
        "RelocatePickup"}
Unary == {"RemoveAdjacentDepot", "RemoveOptionalClient", "RemoveOptionalShipment", "ReplaceGroup",
          "RelocateDelivery", "RelocatePickup"}

VARIABLES which, R, op
d == Ds[which]
Us(e) == { C(i) : i \in 0 .. NumClients(e) - 1 } \cup { P(i) : i \in 0 .. NumShips(e) - 1 }
Vs(rts) == UNION { { [r |-> r, k |-> k] : k \in 0 .. Len(rts[r].acts) } : r \in 1 .. Len(rts) }
Fleet(e) == FoldLeft(LAMBDA s, v : s \o [n \in 1 .. Veh(e, v).n |-> [v |-> v, acts |-> <<>>]],
                     <<>>, [v \in 1 .. NumVehTypes(e) |-> v - 1])
\* a route without clients and shipments is cleared after a move
Cleared(rts) == [k \in 1 .. Len(rts) |-> IF IsEmptyRoute(rts[k].acts) THEN [rts[k] EXCEPT !.acts = <<>>] ELSE rts[k]]

Init == /\ which \in Which
        /\ op = "none"
        \* no move inserts members of required groups: also start with one of them
        /\ R \in { IF x.t = "" THEN Fleet(Ds[which]) ELSE [Fleet(Ds[which]) EXCEPT ![1].acts = <<x>>] :
                  x \in {[t |-> ""]} \cup { C(i) : i \in { j \in 0 .. NumClients(Ds[which]) - 1 :
                                       Grouped(Ds[which], j) /\ GroupOf(Ds[which], j).req } } }
After(o) == UNION { Outcomes(o, d, R, u, v)
                    : u \in Us(d), v \in IF o \in Unary THEN {[r |-> 1, k |-> 0]}
                                         ELSE { x \in Vs(R) : o = "SwapTails" => ~IsReloadAt(R[x.r].acts, x.k) } }
Next == \E o \in Ops : \E S \in After(o) : R' = Cleared(S) /\ op' = o /\ UNCHANGED which
View == <<which, R>>

Pen == [load |-> [m \in Dims(d) |-> 12], tw |-> 20, dist |-> 8]
Obj(rts) == LET p == NonEmpty(rts) IN PenCost(d, p, TimeEvals(d, p), Pen)

Valid == Structural(d, R)
\* Only removals may make a complete plan incomplete; and they do not.
StaysComplete == [][Complete(d, NonEmpty(R)) => Complete(d, NonEmpty(R'))]_<<which, R, op>>
\* The change in cost that an evaluation must report is the change in the objective.
DeltaIsObjective == [][Obj(R') - Obj(R) = DeltaCost(d, R, R', Pen)]_<<which, R, op>>

EmitOk == Emit => PrintT(ToJson(
  IF NonEmpty(R) = <<>> THEN [which |-> which, inst |-> d, plan |-> <<>>]
  ELSE [which |-> which, plan |-> NonEmpty(R)]))
=============================================================================
