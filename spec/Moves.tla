------------------------------- MODULE Moves -------------------------------
(***************************************************************************)
(* Local search moves.  R is a sequence of routes [v, acts], one for each  *)
(* vehicle.  U is an activity (client or pickup).  V = [r, k] is a         *)
(* position: 0 is the start depot of route r, k the k-th of its acts.      *)
(* Outcomes(op, d, R, U, V) is the set of routes that a move may lead to;  *)
(* it is empty when the move is not defined.                               *)
(***************************************************************************)
EXTENDS VRP

Cut(s, i, j) == SubSeq(s, i, j)
Without(s, i, j) == SubSeq(s, 1, i - 1) \o SubSeq(s, j + 1, Len(s))
InsAfter(s, k, xs) == SubSeq(s, 1, k) \o xs \o SubSeq(s, k + 1, Len(s))

Places(R, a) ==
  { <<r, k>> \in UNION { {r} \X (1 .. Len(R[r].acts)) : r \in 1 .. Len(R) } :
      R[r].acts[k] = a }
Planned(R, a) == Places(R, a) # {}
Place(R, a) == CHOOSE p \in Places(R, a) : TRUE

\* Trip of position k; shipments on board when leaving position k.
TripAt(acts, k) == Cardinality({ m \in 1 .. k : acts[m].t = "D" })
OnBoard(acts, k) ==
  Cardinality({ m \in 1 .. k : acts[m].t = "P" }) - Cardinality({ m \in 1 .. k : acts[m].t = "L" })
IsReloadAt(acts, k) == k \in 1 .. Len(acts) /\ acts[k].t = "D"

\* Last position of the trip that position k is in.
TripEnd(acts, k) ==
  IF \E m \in k + 1 .. Len(acts) : acts[m].t = "D"
  THEN (CHOOSE m \in k + 1 .. Len(acts) :
          acts[m].t = "D" /\ \A x \in k + 1 .. m - 1 : acts[x].t # "D") - 1
  ELSE Len(acts)
\* First position of the trip that position k is in, after its depot.
TripStart(acts, k) ==
  IF \E m \in 1 .. k : acts[m].t = "D"
  THEN (CHOOSE m \in 1 .. k : acts[m].t = "D" /\ \A x \in m + 1 .. k : acts[x].t # "D") + 1
  ELSE 1

\* Positions k .. k + n - 1 exist, hold no depot, and split no shipment.
Movable(acts, k, n) ==
  /\ 1 <= k /\ k + n - 1 <= Len(acts)
  /\ \A m \in k .. k + n - 1 : acts[m].t # "D"
  /\ OnBoard(acts, k - 1) = 0
  /\ OnBoard(acts, k + n - 1) = 0

\* Position p after removing i .. j (p not among them).
Shifted(p, i, j) == IF p > j THEN p - (j - i + 1) ELSE p

\* Moves positions i .. j of route r to after V, replacing them by xs.
MoveBlock(R, r, i, j, V, xs) ==
  IF V.r = r
  THEN [R EXCEPT ![r].acts = InsAfter(Without(@, i, j), Shifted(V.k, i, j), xs)]
  ELSE [R EXCEPT ![r].acts = Without(@, i, j), ![V.r].acts = InsAfter(@, V.k, xs)]

Grouped(d, c) == Client(d, c).grp >= 0
GroupOf(d, c) == d.groups[Client(d, c).grp + 1]
Members(g) == { g.cl[k] : k \in 1 .. Len(g.cl) }
C(i) == [t |-> "C", i |-> i]
P(i) == [t |-> "P", i |-> i]
L(i) == [t |-> "L", i |-> i]
D(i) == [t |-> "D", i |-> i]

Relocate(R, U, V, n) ==
  IF ~Planned(R, U) THEN {} ELSE
  LET r == Place(R, U)[1]
      k == Place(R, U)[2]
      acts == R[r].acts
  IN  IF /\ Movable(acts, k, n)
         /\ V.r = r => /\ TripAt(acts, k) = TripAt(acts, V.k)
                       /\ ~(k <= V.k /\ V.k <= k + n - 1)
                       /\ k # V.k + 1
      THEN { MoveBlock(R, r, k, k + n - 1, V, Cut(acts, k, k + n - 1)) }
      ELSE {}

SwapBlocks(R, U, V, n, m) ==
  IF ~Planned(R, U) \/ V.k = 0 THEN {} ELSE
  LET r == Place(R, U)[1]
      k == Place(R, U)[2]
      a == R[r].acts
      b == R[V.r].acts
      x == Cut(a, k, k + n - 1)
      y == Cut(b, V.k, V.k + m - 1)
  IN  IF /\ Movable(a, k, n)
         /\ Movable(b, V.k, m)
         /\ V.r = r => /\ TripAt(a, k) = TripAt(a, V.k)
                       /\ (k + n < V.k \/ V.k + m < k)
      THEN { IF V.r # r
             THEN [R EXCEPT ![r].acts = SubSeq(a, 1, k - 1) \o y \o SubSeq(a, k + n, Len(a)),
                            ![V.r].acts = SubSeq(b, 1, V.k - 1) \o x \o SubSeq(b, V.k + m, Len(b))]
             ELSE IF k < V.k
             THEN [R EXCEPT ![r].acts = SubSeq(a, 1, k - 1) \o y \o SubSeq(a, k + n, V.k - 1)
                                        \o x \o SubSeq(a, V.k + m, Len(a))]
             ELSE [R EXCEPT ![r].acts = SubSeq(a, 1, V.k - 1) \o x \o SubSeq(a, V.k + m, k - 1)
                                        \o y \o SubSeq(a, k + n, Len(a))] }
      ELSE {}

SwapTails(R, U, V) ==
  IF ~Planned(R, U) THEN {} ELSE
  LET r == Place(R, U)[1]
      k == Place(R, U)[2]
      a == R[r].acts
      b == R[V.r].acts
  IN  IF /\ r # V.r
         /\ TripAt(a, k) = TripAt(a, Len(a))
         /\ TripAt(b, V.k) = TripAt(b, Len(b))
         /\ OnBoard(a, k) = 0 /\ OnBoard(b, V.k) = 0
      THEN { [R EXCEPT ![r].acts = SubSeq(a, 1, k) \o SubSeq(b, V.k + 1, Len(b)),
                       ![V.r].acts = SubSeq(b, 1, V.k) \o SubSeq(a, k + 1, Len(a))] }
      ELSE {}

RelocateAlternative(d, R, U, V) ==
  IF U.t # "C" \/ ~Planned(R, U) \/ ~Grouped(d, U.i) THEN {} ELSE
  LET r == Place(R, U)[1]
      k == Place(R, U)[2]
  IN  IF V.r = r /\ (V.k = k \/ k = V.k + 1 \/ TripAt(R[r].acts, k) # TripAt(R[r].acts, V.k))
      THEN {}
      ELSE { MoveBlock(R, r, k, k, V, <<C(i)>>) : i \in Members(GroupOf(d, U.i)) \ {U.i} }

\* Shipment i: pickup right after position k, delivery at or after that.
PlaceShipment(acts, k, i) ==
  { InsAfter(InsAfter(acts, j, <<L(i)>>), k, <<P(i)>>) : j \in k .. TripEnd(acts, k) }

DropShipment(acts, i) == SelectSeq(acts, LAMBDA a : ~(a.t \in {"P", "L"} /\ a.i = i))

RelocateShipment(R, U, V) ==
  IF U.t # "P" \/ ~Planned(R, U) THEN {} ELSE
  LET r == Place(R, U)[1]
  IN  IF V.r = r THEN {}
      ELSE { [R EXCEPT ![r].acts = DropShipment(@, U.i), ![V.r].acts = s] :
             s \in PlaceShipment(R[V.r].acts, V.k, U.i) }

RelocateWithDepot(d, R, U, V) ==
  IF U.t # "C" \/ ~Planned(R, U) THEN {} ELSE
  LET r == Place(R, U)[1]
      k == Place(R, U)[2]
      b == R[V.r].acts
      veh == Veh(d, R[V.r].v)
      Deps == { veh.rld[m] : m \in 1 .. Len(veh.rld) }
  IN  IF \/ IsEmptyRoute(b)
         \/ NumTrips(b) >= MaxTrips(veh)
         \/ OnBoard(b, V.k) # 0
         \/ V.r = r /\ (k = V.k \/ k = V.k + 1 \/ TripAt(b, k) # TripAt(b, V.k))
      THEN {}
      ELSE { MoveBlock(R, r, k, k, V, xs) : xs \in
               (IF IsReloadAt(b, V.k) THEN {} ELSE { <<D(x), U>> : x \in Deps })
               \cup (IF IsReloadAt(b, V.k + 1) THEN {} ELSE { <<U, D(x)>> : x \in Deps }) }

RemoveAdjacentDepot(R, U) ==
  IF ~Planned(R, U) THEN {} ELSE
  LET r == Place(R, U)[1]
      k == Place(R, U)[2]
  IN  { [R EXCEPT ![r].acts = Without(@, m, m)] :
        m \in { x \in {k - 1, k + 1} : IsReloadAt(R[r].acts, x) } }

RemoveOptionalClient(d, R, U) ==
  IF \/ U.t # "C" \/ ~Planned(R, U) \/ Client(d, U.i).req
     \/ Grouped(d, U.i) /\ GroupOf(d, U.i).req
  THEN {}
  ELSE LET p == Place(R, U) IN { [R EXCEPT ![p[1]].acts = Without(@, p[2], p[2])] }

RemoveOptionalShipment(d, R, U) ==
  IF U.t # "P" \/ ~Planned(R, U) \/ Ship(d, U.i).req THEN {}
  ELSE { [R EXCEPT ![Place(R, U)[1]].acts = DropShipment(@, U.i)] }

ReplaceAct(R, old, new) ==
  LET p == Place(R, old) IN [R EXCEPT ![p[1]].acts[p[2]] = new]

ReplaceGroup(d, R, U) ==
  IF U.t # "C" \/ Planned(R, U) \/ ~Grouped(d, U.i) THEN {}
  ELSE { ReplaceAct(R, C(i), U) : i \in { x \in Members(GroupOf(d, U.i)) : Planned(R, C(x)) } }

ReplaceOptionalClient(d, R, U, V) ==
  IF U.t # "C" \/ Planned(R, U) \/ V.k = 0 THEN {} ELSE
  LET w == R[V.r].acts[V.k]
  IN  IF w.t # "C" \/ Client(d, w.i).req \/ Grouped(d, U.i) \/ Grouped(d, w.i) THEN {}
      ELSE { ReplaceAct(R, w, U) }

ReplaceOptionalShipment(d, R, U, V) ==
  IF U.t # "P" \/ Planned(R, U) \/ V.k = 0 THEN {} ELSE
  LET w == R[V.r].acts[V.k]
  IN  IF w.t \notin {"P", "L"} \/ Ship(d, w.i).req THEN {}
      ELSE { ReplaceAct(ReplaceAct(R, P(w.i), P(U.i)), L(w.i), L(U.i)) }

InsertOptionalClient(d, R, U, V) ==
  IF \/ U.t # "C" \/ Planned(R, U)
     \/ Grouped(d, U.i) /\ (\/ GroupOf(d, U.i).req
                            \/ \E i \in Members(GroupOf(d, U.i)) : Planned(R, C(i)))
  THEN {} ELSE { [R EXCEPT ![V.r].acts = InsAfter(@, V.k, <<U>>)] }

InsertOptionalShipment(R, U, V) ==
  IF U.t # "P" \/ Planned(R, U) THEN {}
  ELSE { [R EXCEPT ![V.r].acts = s] : s \in PlaceShipment(R[V.r].acts, V.k, U.i) }

\* Delivery or pickup elsewhere in the trip, pickup first.
RelocateDelivery(R, U) ==
  IF U.t # "P" \/ ~Planned(R, U) THEN {} ELSE
  LET r == Place(R, U)[1]
      k == Place(R, U)[2]
      l == Place(R, L(U.i))[2]
      rest == Without(R[r].acts, l, l)
  IN  { [R EXCEPT ![r].acts = InsAfter(rest, j, <<L(U.i)>>)] :
        j \in (k .. TripEnd(rest, k)) \ {l - 1} }

RelocatePickup(R, U) ==
  IF U.t # "P" \/ ~Planned(R, U) THEN {} ELSE
  LET r == Place(R, U)[1]
      k == Place(R, U)[2]
      l == Place(R, L(U.i))[2]
      rest == Without(R[r].acts, k, k)
  IN  { [R EXCEPT ![r].acts = InsAfter(rest, j - 1, <<U>>)] :
        j \in (TripStart(rest, l - 1) .. l - 1) \ {k} }

Outcomes(op, d, R, U, V) ==
  CASE op = "Relocate1" -> Relocate(R, U, V, 1)
    [] op = "Relocate2" -> Relocate(R, U, V, 2)
    [] op = "Relocate3" -> Relocate(R, U, V, 3)
    [] op = "Swap11" -> SwapBlocks(R, U, V, 1, 1)
    [] op = "Swap21" -> SwapBlocks(R, U, V, 2, 1)
    [] op = "Swap22" -> SwapBlocks(R, U, V, 2, 2)
    [] op = "Swap31" -> SwapBlocks(R, U, V, 3, 1)
    [] op = "Swap32" -> SwapBlocks(R, U, V, 3, 2)
    [] op = "Swap33" -> SwapBlocks(R, U, V, 3, 3)
    [] op = "SwapTails" -> SwapTails(R, U, V)
    [] op = "RelocateAlternative" -> RelocateAlternative(d, R, U, V)
    [] op = "RelocateShipment" -> RelocateShipment(R, U, V)
    [] op = "RelocateWithDepot" -> RelocateWithDepot(d, R, U, V)
    [] op = "RemoveAdjacentDepot" -> RemoveAdjacentDepot(R, U)
    [] op = "RemoveOptionalClient" -> RemoveOptionalClient(d, R, U)
    [] op = "RemoveOptionalShipment" -> RemoveOptionalShipment(d, R, U)
    [] op = "ReplaceGroup" -> ReplaceGroup(d, R, U)
    [] op = "ReplaceOptionalClient" -> ReplaceOptionalClient(d, R, U, V)
    [] op = "ReplaceOptionalShipment" -> ReplaceOptionalShipment(d, R, U, V)
    [] op = "InsertOptionalClient" -> InsertOptionalClient(d, R, U, V)
    [] op = "InsertOptionalShipment" -> InsertOptionalShipment(R, U, V)
    [] op = "RelocateDelivery" -> RelocateDelivery(R, U)
    [] op = "RelocatePickup" -> RelocatePickup(R, U)

\* Moves that are their own mirror image, with the roles of U and V swapped: it
\* is enough to consider one of the two.
Symmetric(op) == op \in {"Swap11", "Swap22", "Swap33", "SwapTails"}

\* Change in penalised cost (including prizes) from R to S.
RCost(d, r, pen) ==
  IF IsEmptyRoute(r.acts) THEN 0
  ELSE RoutePenCost(d, r.v, r.acts, TimeEval(d, r.v, r.acts), pen) - RoutePrizes(d, r.acts)
DeltaCost(d, R, S, pen) ==
  Sum([k \in 1 .. Len(R) |->
         IF R[k] = S[k] THEN 0 ELSE RCost(d, S[k], pen) - RCost(d, R[k], pen)])

NonEmpty(R) == SelectSeq(R, LAMBDA r : ~IsEmptyRoute(r.acts))
\* Routes are structurally valid, and clients, shipments and groups are visited once.
Structural(d, R) == ValidPlan(d, NonEmpty(R))
=============================================================================
