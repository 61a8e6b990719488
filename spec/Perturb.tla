------------------------------- MODULE Perturb -------------------------------
(***************************************************************************)
(* Perturbation and insertion of activities in a search solution.          *)
(*  N     neighbours: function from activities to sequences of activities. *)
(*  order the search space's activity order; types its vehicle type order. *)
(***************************************************************************)
EXTENDS Moves

All(d) == { C(i) : i \in 0 .. NumClients(d) - 1 } \cup { P(i) : i \in 0 .. NumShips(d) - 1 }
Visits(d, R) == { a \in All(d) : Planned(R, a) }

\* A delivery stands for its shipment.
Head1(a) == IF a.t = "L" THEN P(a.i) ELSE a
Around(nbs, a) == {a} \cup { Head1(nbs[k]) : k \in 1 .. Len(nbs) }

Toggled(d, R, S) == (Visits(d, R) \ Visits(d, S)) \cup (Visits(d, S) \ Visits(d, R))
Keep(acts, A) == SelectSeq(acts, LAMBDA a : a.t = "D" \/ Head1(a) \in A)

\* S is R after n perturbations, of the neighbourhoods of activities in order.
Perturbed(d, R, S, n, order, nbs) ==
  LET T == Toggled(d, R, S)
      stay == Visits(d, R) \cap Visits(d, S)
      Hood(m) == UNION { Around(nbs[k], order[k]) : k \in 1 .. m }
  IN  [ count |-> Cardinality(T) = Min2(n, Cardinality(All(d))),
        local |-> \E m \in 0 .. Len(order) :
                    T \subseteq Hood(m) /\ (m > 0 => Hood(m - 1) \subseteq T),
        \* what is not perturbed stays where it is, in order
        rest |-> \A r \in 1 .. Len(R) : Keep(R[r].acts, stay) = Keep(S[r].acts, stay),
        routes |-> /\ Len(R) = Len(S)
                   /\ \A r \in 1 .. Len(S) : S[r].v = R[r].v /\ ValidRoute(d, S[r].v, S[r].acts),
        once |-> LET acts == AllActs(S) IN
                 \A a \in Visits(d, S) : CountAct(acts, a.t, a.i) = 1 ]

\* First empty vehicle of each type.
Offset(d, v) == Sum([k \in 1 .. v |-> d.vehs[k].n])
Empties(d, R) ==
  { r \in 1 .. Len(R) :
      /\ IsEmptyRoute(R[r].acts)
      /\ \A q \in Offset(d, R[r].v) + 1 .. r - 1 : ~IsEmptyRoute(R[q].acts) }

Put(R, a, V) == [R EXCEPT ![V[1]].acts = InsAfter(@, V[2], <<a>>)]
Puts(R, a, V) == { [R EXCEPT ![V[1]].acts = s] : s \in PlaceShipment(R[V[1]].acts, V[2], a.i) }

\* Next to a planned neighbour.
NearOutcomes(R, a, nbs) ==
  LET near == { Place(R, nbs[k]) : k \in { m \in 1 .. Len(nbs) : Planned(R, nbs[m]) } }
  IN  IF a.t = "C" THEN { Put(R, a, V) : V \in near }
      ELSE UNION { Puts(R, a, V) : V \in near \cup { <<V[1], V[2] - 1>> : V \in near } }
EmptyOutcomes(d, R, a) ==
  { IF a.t = "C" THEN Put(R, a, <<r, 0>>)
    ELSE [R EXCEPT ![r].acts = InsAfter(@, 0, <<a, L(a.i)>>)] : r \in Empties(d, R) }
\* When all else fails: at the front of the first vehicle.
Fallback(R, a) ==
  IF a.t = "C" THEN Put(R, a, <<1, 0>>)
  ELSE [R EXCEPT ![1].acts = InsAfter(@, 0, <<a, L(a.i)>>)]
=============================================================================
