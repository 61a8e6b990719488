----------------------------- MODULE MCNeighbours -----------------------------
(***************************************************************************)
(* Neighbourhoods of all small instances: two or three clients and a       *)
(* shipment, over all combinations of time windows, service, groups,       *)
(* vehicle cost profiles and parameters.  Checks that the definition makes *)
(* sense (lists of the required size exist, symmetric proximity is         *)
(* symmetric and no larger, waiting and driving are never free); every     *)
(* instance is emitted and replayed into the real computation (C16).       *)
(***************************************************************************)
EXTENDS Neighbours, TLC, Json
CONSTANTS Deep, Emit

W == IF Deep THEN << <<0, INF>>, <<4, 6>>, <<9, 12>>, <<0, 2>> >> ELSE << <<0, INF>>, <<4, 6>>, <<9, 12>> >>
M4 == << <<0, 3, 5, 7>>, <<4, 0, 2, 6>>, <<6, 1, 0, 3>>, <<5, 8, 2, 0>> >>
T4 == << <<0, 2, 4, 3>>, <<3, 0, 2, 7>>, <<5, 3, 0, 1>>, <<6, 4, 2, 0>> >>
Cli(l, w, serv, grp) ==
  [loc |-> l, dlv |-> <<>>, pck |-> <<>>, early |-> w[1], late |-> w[2], serv |-> serv, rel |-> 0, prize |-> 1,
   req |-> FALSE, grp |-> grp]
Stop(l, w, serv) == [loc |-> l, early |-> w[1], late |-> w[2], serv |-> serv]
Vehicle(ud, ut, prof) ==
  [n |-> 1, cap |-> <<>>, s |-> 0, e |-> 0, fixed |-> 0, early |-> 0, late |-> INF, shift |-> INF,
   maxdist |-> INF, ud |-> ud, ut |-> ut, prof |-> prof, slate |-> INF, init |-> <<>>,
   rld |-> <<>>, maxrl |-> INF, maxot |-> 0, uo |-> 0]
Fleets == << <<Vehicle(1, 0, 0)>>, <<Vehicle(0, 1, 1)>>, <<Vehicle(2, 0, 1), Vehicle(1, 1, 0)>>, <<Vehicle(0, 0, 0)>> >>

\* g: "no" groups, the first "two" clients in one, or each in its "own".
Grp(g, i) == CASE g = "no" -> -1 [] g = "two" -> (IF i < 2 THEN 0 ELSE -1) [] g = "own" -> i
Groups(g, n) ==
  CASE g = "no" -> <<>>
    [] g = "two" -> <<[cl |-> IF n > 1 THEN <<0, 1>> ELSE <<0>>, req |-> FALSE]>>
    [] g = "own" -> [k \in 1 .. n |-> [cl |-> <<k - 1>>, req |-> FALSE]]

\* ws, ss: windows and services of the clients; ps: windows of the shipments.
Instance(ws, ss, ps, fleet, g) ==
  [ nloc |-> 4, ndim |-> 0, depots |-> <<Stop(0, <<0, INF>>, 0)>>,
    clients |-> [i \in 1 .. Len(ws) |-> Cli(i, W[ws[i]], ss[i], Grp(g, i - 1))],
    groups |-> IF ws = <<>> THEN <<>> ELSE Groups(g, Len(ws)),
    ships |-> [i \in 1 .. Len(ps) |->
                [p |-> Stop(2, W[ps[i][1]], 1), d |-> Stop(3, W[ps[i][2]], 0), amt |-> <<>>, prize |-> 0, req |-> FALSE]],
    vehs |-> Fleets[fleet],
    dist |-> <<M4, T4>>, dur |-> <<T4, M4>> ]

NW == 1 .. Len(W)
Seqs(S, n) == [1 .. n -> S]
\* The sizes: (clients, shipments).
Sizes == IF Deep THEN { <<2, 1>>, <<3, 0>>, <<1, 2>>, <<0, 2>>, <<1, 0>>, <<0, 0>>, <<0, 1>> }
         ELSE { <<2, 1>>, <<3, 0>>, <<0, 2>>, <<1, 0>>, <<0, 0>>, <<0, 1>> }

VARIABLES d, q
Init ==
  /\ \E sz \in Sizes :
       \E ws \in Seqs(NW, sz[1]), ss \in Seqs({0, 3}, sz[1]), ps \in Seqs(NW \X NW, sz[2]),
          fleet \in 1 .. Len(Fleets), g \in (IF sz[1] > 0 THEN {"no", "two", "own"} ELSE {"no"}) :
         /\ \A k \in 1 .. Len(ps) : W[ps[k][1]][1] <= W[ps[k][2]][2]
         /\ d = Instance(ws, ss, ps, fleet, g)
  /\ q = [num |-> 0, w4 |-> 0, sym |-> FALSE]
Params == [num : {1, 2, 4, 50}, w4 : {0, 2, 9}, sym : BOOLEAN]
Next == /\ q.num = 0 /\ ~Emit
        /\ q' \in Params
        /\ UNCHANGED d

\* A list of the size required can always be had.
Possible == \A a \in From(d) : AtLeast(d, q) <= AtMost(d, a, q)

Sensible ==
  \A a \in From(d) : \A b \in Others(d, a) :
    LET p == Proximity(d, a, b, q) IN
    /\ p >= 0 /\ p <= FAR
    /\ Proximity(d, a, b, [q EXCEPT !.sym = TRUE]) <= p
    /\ p <= Proximity(d, a, b, [q EXCEPT !.w4 = @ + 1])
    /\ (a.t = "C" /\ b.t = "C" /\ q.sym) => p = Proximity(d, b, a, q)
    \* far means that b cannot be reached from a in time, by any vehicle
    /\ (p = FAR /\ ~SameGroup(d, a, b)) =>
         \A v \in 0 .. NumVehTypes(d) - 1 : \A x \in Sites(a) :
           Site(d, x).early + Site(d, x).serv + Dur(d, v, Site(d, x).loc, Site(d, b).loc) > Site(d, b).late

EmitOk == Emit => PrintT(ToJson([d |-> d]))
=============================================================================
