------------------------------ MODULE MCPerturb ------------------------------
(***************************************************************************)
(* Perturbation, one toggle at a time: removes what is planned and inserts *)
(* what is not, in and around the neighbourhoods of activities in order,   *)
(* each activity once, until n have been perturbed or there are no more.   *)
(* Every outcome is one that Perturb!Perturbed allows, so that relation is *)
(* not too strict; and it tells perturbations of different sizes apart.    *)
(***************************************************************************)
EXTENDS Perturb, TLC
CONSTANTS N

Cli(l, req) ==
  [loc |-> l, dlv |-> <<1>>, pck |-> <<0>>, early |-> 0, late |-> INF, serv |-> 0, rel |-> 0,
   prize |-> 0, req |-> req, grp |-> -1]
Stp(l) == [loc |-> l, early |-> 0, late |-> INF, serv |-> 0]
d == [ nloc |-> 1, ndim |-> 1, depots |-> <<Stp(0)>>,
       clients |-> <<Cli(0, TRUE), Cli(0, FALSE)>>, groups |-> <<>>,
       ships |-> <<[p |-> Stp(0), d |-> Stp(0), amt |-> <<1>>, prize |-> 1, req |-> TRUE]>>,
       vehs |-> <<[n |-> 2, cap |-> <<9>>, s |-> 0, e |-> 0, fixed |-> 0, early |-> 0, late |-> INF, shift |-> INF,
                   maxdist |-> INF, ud |-> 1, ut |-> 0, prof |-> 0, slate |-> INF, init |-> <<0>>,
                   rld |-> <<0>>, maxrl |-> 1, maxot |-> 0, uo |-> 0]>>,
       dist |-> << << <<0>> >> >>, dur |-> << << <<0>> >> >> ]

VARIABLES pre, R, order, nbs, at, todo, done, n
vars == <<pre, R, order, nbs, at, todo, done, n>>

Acts == All(d)
Orders == { s \in [1 .. Cardinality(Acts) -> Acts] : \A i, j \in DOMAIN s : i # j => s[i] # s[j] }
Hoods == { <<x>> : x \in Acts \cup {L(0)} } \cup {<<>>}
Starts == { <<[v |-> 0, acts |-> a], [v |-> 0, acts |-> b]>> :
              a \in {<<>>, <<C(0)>>, <<P(0), C(1), L(0)>>, <<C(1), D(0), P(0), L(0)>>}, b \in {<<>>, <<C(0)>>} }

Init == /\ pre \in { S \in Starts : ValidPlan(d, NonEmpty(S)) }
        /\ R = pre
        /\ order \in Orders
        /\ nbs \in { f \in [1 .. Len(order) -> Hoods] :
                       \A k \in 1 .. Len(order) : Len(f[k]) = 1 => Head1(f[k][1]) # order[k] }
        /\ at = 0 /\ todo = {} /\ done = {} /\ n \in 0 .. N

\* All places at which activity a may be put.
Spots(S, a) ==
  UNION { LET s == S[r].acts
          IN  IF a.t = "C" THEN { [S EXCEPT ![r].acts = InsAfter(@, k, <<a>>)] : k \in 0 .. Len(s) }
              ELSE UNION { { [S EXCEPT ![r].acts = x] : x \in PlaceShipment(s, k, a.i) } : k \in 0 .. Len(s) }
          : r \in 1 .. Len(S) }
Gone(S, a) == [r \in 1 .. Len(S) |->
                 [S[r] EXCEPT !.acts = SelectSeq(@, LAMBDA x : x.t = "D" \/ Head1(x) # a)]]

Open == todo = {} /\ at < Len(order) /\ Cardinality(done) < n
        /\ at' = at + 1
        /\ todo' = Around(nbs[at + 1], order[at + 1]) \ done
        /\ UNCHANGED <<pre, R, order, nbs, done, n>>
Toggle == /\ Cardinality(done) < n
          /\ \E a \in todo : /\ R' \in IF Planned(R, a) THEN {Gone(R, a)} ELSE Spots(R, a)
                             /\ todo' = todo \ {a} /\ done' = done \cup {a}
          /\ UNCHANGED <<pre, order, nbs, at, n>>
Next == Open \/ Toggle
Ended == ~ENABLED Next

Allowed == Ended => LET p == Perturbed(d, pre, R, n, order, nbs)
                    IN  p.count /\ p.local /\ p.rest /\ p.routes /\ p.once
Exact == Ended => \A m \in (0 .. N) \ {n} :
           Min2(m, Cardinality(Acts)) # Min2(n, Cardinality(Acts)) => ~Perturbed(d, pre, R, m, order, nbs).count
=============================================================================
