----------------------------- MODULE Neighbours -----------------------------
(***************************************************************************)
(* Granular neighbourhoods.  Parameters q: num (neighbours asked for),     *)
(* w4 (weight of waiting time, in quarters), sym (symmetric proximity).    *)
(* Proximities are in quarters; FAR is that of activities that cannot      *)
(* follow each other, or exclude each other.                               *)
(***************************************************************************)
EXTENDS VRP
FAR == 1000000000

Clients(d) == { [t |-> "C", i |-> i] : i \in 0 .. NumClients(d) - 1 }
Pickups(d) == { [t |-> "P", i |-> i] : i \in 0 .. NumShips(d) - 1 }
Deliveries(d) == { [t |-> "L", i |-> i] : i \in 0 .. NumShips(d) - 1 }
From(d) == Clients(d) \cup Pickups(d)
To(d) == Clients(d) \cup Pickups(d) \cup Deliveries(d)

\* Going straight from a to b with vehicle type v.
Arc(d, v, a, b, q) ==
  LET x == Site(d, a)
      y == Site(d, b)
      leg == Dur(d, v, x.loc, y.loc)
      wait == Pos(y.early - leg - x.serv - x.late)
  IN  IF x.early + x.serv + leg > y.late THEN FAR
      ELSE 4 * Veh(d, v).ud * Dist(d, v, x.loc, y.loc)
           + 4 * Veh(d, v).ut * (leg + wait) + q.w4 * wait

Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Sites(a) == IF a.t = "P" THEN {a, [t |-> "L", i |-> a.i]} ELSE {a}
SameGroup(d, a, b) ==
  a.t = "C" /\ b.t = "C" /\ Client(d, a.i).grp >= 0 /\ Client(d, a.i).grp = Client(d, b.i).grp

Proximity(d, a, b, q) ==
  IF SameGroup(d, a, b) THEN FAR
  ELSE Least(UNION { { Arc(d, v, x, b, q) : x \in Sites(a) }
                     \cup (IF q.sym THEN { Arc(d, v, b, x, q) : x \in Sites(a) } ELSE {})
                     : v \in 0 .. NumVehTypes(d) - 1 })

\* The activities that may neighbour a.
Others(d, a) == To(d) \ (IF a.t = "P" THEN Sites(a) ELSE {a})

\* At least those of all other clients and of all other shipments together
\* are listed, if that many are asked for.
AtLeast(d, q) == Min2(q.num, Pos(NumClients(d) - 1) + Pos(2 * NumShips(d) - 2))
AtMost(d, a, q) == Min2(q.num, Cardinality(Others(d, a)))
=============================================================================
