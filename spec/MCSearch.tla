------------------------------ MODULE MCSearch ------------------------------
(***************************************************************************)
(* Local search as a state machine, over the small instances of MCMoves:   *)
(*  scramble  any move at all: leads to every plan the search may be given;*)
(*  repair    inserts what must be planned, anywhere;                      *)
(*  search    moves that improve, and removals of depots that cost nothing;*)
(*  done      when there are none.                                         *)
(* The search ends, never makes a plan worse, and ends in complete plans   *)
(* from which no move improves: the contract that LSTrace judges (C10).    *)
(***************************************************************************)
EXTENDS MCMoves
VARIABLE phase
vars == <<which, R, op, phase>>

Missing(rts) ==
  LET p == NonEmpty(rts)
  IN  { a \in Us(d) :
          /\ ~Planned(rts, a)
          /\ IF a.t = "P" THEN Ship(d, a.i).req
             ELSE \/ Client(d, a.i).req
                  \/ /\ Grouped(d, a.i) /\ GroupOf(d, a.i).req
                     /\ \A i \in Members(GroupOf(d, a.i)) : ~Planned(rts, C(i)) }
Inserted(rts, a) ==
  { [rts EXCEPT ![V.r].acts = s] :
      <<V, s>> \in UNION { { <<V, s>> : s \in IF a.t = "C" THEN { InsAfter(rts[V.r].acts, V.k, <<a>>) }
                                             ELSE PlaceShipment(rts[V.r].acts, V.k, a.i) } : V \in Vs(rts) } }

\* Moves that the search takes: they improve, or remove a depot at no cost.
Takes(o) == { S \in After(o) :
                LET dc == DeltaCost(d, R, S, Pen)
                IN  dc < 0 \/ (o = "RemoveAdjacentDepot" /\ dc = 0) }

SInit == Init /\ phase = "scramble"
Scramble == phase = "scramble" /\ Next /\ UNCHANGED phase
Begin == phase = "scramble" /\ phase' = "repair" /\ op' = "none" /\ UNCHANGED <<which, R>>
Repair == /\ phase = "repair"
          /\ \E a \in Missing(R) : R' \in Inserted(R, a)
          /\ UNCHANGED <<which, op, phase>>
Repaired == phase = "repair" /\ Missing(R) = {} /\ phase' = "search" /\ UNCHANGED <<which, R, op>>
Improve == /\ phase = "search"
           /\ \E o \in Ops : \E S \in Takes(o) : R' = Cleared(S) /\ op' = o
           /\ UNCHANGED <<which, phase>>
End == /\ phase = "search" /\ \A o \in Ops : Takes(o) = {}
       /\ phase' = "done" /\ UNCHANGED <<which, R, op>>
Step == Begin \/ Repair \/ Repaired \/ Improve \/ End
SNext == Scramble \/ Step
SSpec == SInit /\ [][SNext]_vars /\ WF_vars(Step)
SView == <<which, R, phase>>

Depots(rts) == Sum([k \in 1 .. Len(rts) |-> NumTrips(rts[k].acts)])
Searched == phase \in {"search", "done"} => Complete(d, NonEmpty(R))
NeverWorse == [][phase = "search" => \/ Obj(R') < Obj(R)
                                     \/ Obj(R') = Obj(R) /\ Depots(R') < Depots(R)
                                     \/ phase' = "done" /\ R' = R]_vars
Optimal == phase = "done" =>
             \A o \in Ops : \A S \in After(o) : DeltaCost(d, R, S, Pen) >= 0
Ends == (phase # "scramble") ~> (phase = "done")
=============================================================================
