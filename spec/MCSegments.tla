----------------------------- MODULE MCSegments -----------------------------
(***************************************************************************)
(* Design model: for every small route (start depot, clients and at most   *)
(* one reload depot, end depot) with attributes from small sets, the       *)
(* segment algebra agrees with driving, at every cut and in every          *)
(* association order.                                                      *)
(***************************************************************************)
EXTENDS Segments, TLC
CONSTANTS Earlies, Widths, Servs, Legs, Rels, Shape, Slates

ShapeCCC == <<"C", "C", "C">>
ShapeCDC == <<"C", "D", "C">>
ShapeCCDC == <<"C", "C", "D", "C">>
ShapeCDCDC == <<"C", "D", "C", "D", "C">>

\* Shape: sequence of "C" and "D"; the stops between start and end depot.
VARIABLES k, d

VehRec(slate) == [ n |-> 1, cap |-> <<>>, s |-> 0, e |-> 0, fixed |-> 0, early |-> 1,
                   late |-> 7, shift |-> INF, maxdist |-> INF, ud |-> 1, ut |-> 1,
                   prof |-> 0, slate |-> slate, init |-> <<>>, rld |-> <<1>>, maxrl |-> INF,
                   maxot |-> 0, uo |-> 0 ]

N == Len(Shape)
\* location 0: start and end depot; j: the j-th stop; duration between
\* consecutive stops is chosen, all others are 1.
Init ==
  /\ k = 0
  /\ \E slate \in Slates :
       d = [ ndim |-> 0, nloc |-> N + 1,
             depots |-> <<[loc |-> 0, early |-> 0, late |-> INF, serv |-> 1]>>,
             clients |-> <<>>, ships |-> <<>>, groups |-> <<>>,
             vehs |-> <<VehRec(slate)>>,
             dist |-> <<[i \in 1 .. N + 1 |-> [j \in 1 .. N + 1 |-> 0]]>>,
             dur |-> <<[i \in 1 .. N + 1 |-> [j \in 1 .. N + 1 |-> IF i = j THEN 0 ELSE 1]]>> ]

AddStop ==
  /\ k < N
  /\ \E e \in Earlies, w \in Widths, s \in Servs, g \in Legs :
       LET late == IF w >= INF THEN INF ELSE e + w
           dd == [d EXCEPT !.dur[1][k + 1][k + 2] = g]
       IN  IF Shape[k + 1] = "C"
           THEN \E r \in { x \in Rels : x <= late } :
                  d' = [dd EXCEPT !.clients = Append(@,
                          [loc |-> k + 1, early |-> e, late |-> late, serv |-> s, rel |-> r,
                           dlv |-> <<>>, pck |-> <<>>, prize |-> 0, req |-> TRUE, grp |-> -1])]
           ELSE d' = [dd EXCEPT !.depots = Append(@,
                          [loc |-> k + 1, early |-> e, late |-> late, serv |-> s])]
  /\ k' = k + 1

Next == AddStop
Spec == Init /\ [][Next]_<<k, d>>

Acts == [j \in 1 .. N |->
           IF Shape[j] = "C"
           THEN [t |-> "C", i |-> Cardinality({ m \in 1 .. j : Shape[m] = "C" }) - 1]
           ELSE [t |-> "D", i |-> Cardinality({ m \in 1 .. j : Shape[m] = "D" })]]

\* Driving and concatenating agree: at every cut for routes on which no trip
\* is released only after the reload depot it leaves from has closed, and from
\* the first stop always.
CutsAgree ==
  k = N =>
    LET full == Full(d, 0, Acts)
        te == TimeEval(d, 0, Acts)
    IN  /\ Reachable(d, 0, Acts) => \A c \in 1 .. Len(full) - 1 :
             LET s == DCut(d, 0, full, c)
             IN  /\ DDuration(s) = te.duration
                 /\ \A m \in {0, 4, 2 * INF} :
                      DTimeWarp(s, m) = te.warp + Pos(te.duration - te.warp - m)
        /\ LET s == DAfter(d, 0, full, 1)
           IN  /\ DStartEarly(s) = te.start
               /\ Norm(DSlack(s)) = Norm(te.slack)
               /\ s.rel = te.release
               /\ DDuration(s) = te.duration
               /\ DTimeWarp(s, 2 * INF) = te.warp
        /\ te.contiguous

\* Within a trip, concatenation is associative.
Assoc ==
  (k = N /\ N >= 3 /\ \A j \in 1 .. N : Shape[j] = "C") =>
    LET full == Full(d, 0, Acts)
        A(j) == DAt(d, 0, full, j)
        L(j) == Leg(d, 0, full, j)
    IN  \A j \in 1 .. Len(full) - 2 :
          DMerge(L(j), A(j), DMerge(L(j + 1), A(j + 1), A(j + 2)))
          = DMerge(L(j + 1), DMerge(L(j), A(j), A(j + 1)), A(j + 2))
=============================================================================
