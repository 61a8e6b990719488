-------------------------------- MODULE MCILS --------------------------------
(***************************************************************************)
(* Explores all runs of the iterated local search over a few solutions,    *)
(* for all choices the search method may make (its exhaustive search never *)
(* increases penalised cost), with the history kept in a ring buffer as    *)
(* in the implementation next to the log of ILS.tla.                       *)
(***************************************************************************)
EXTENDS ILS, TLC, Json, FiniteSets
CONSTANTS MaxN, Hs, Ks, Emit

S == 1 .. 4
Feas == <<TRUE, TRUE, FALSE, FALSE>>
Cost == <<4, 2, 0, 0>>
\* Penalties change after two iterations: infeasible 3 gets dear, 4 cheap.
PC(n) == IF n <= 2 THEN <<4, 2, 1, 5>> ELSE <<4, 2, 6, 3>>

Configs == [ H : Hs, K : Ks, ex : BOOLEAN, init : {1, 3},
             feas : {Feas}, cost : {Cost}, pc : {[n \in 1 .. MaxN |-> PC(n)]} ]

VARIABLES c, st, buf, idx, seen, hist
vars == <<c, st, buf, idx, seen, hist>>

Init ==
  /\ c \in Configs
  /\ st = [best |-> c.init, curr |-> c.init, log |-> <<>>, ni |-> 0, n |-> 0, cand |-> c.init]
  /\ buf = [k \in 0 .. c.H - 1 |-> NONE]
  /\ idx = 0
  /\ seen = {c.init}
  /\ hist = <<>>

Next ==
  /\ st.n < MaxN
  /\ \E cand \in S :
     \E deep \in IF Better(c, st, cand) /\ c.ex
                 THEN { x \in S : c.pc[st.n + 1][x] <= c.pc[st.n + 1][cand] } ELSE {cand} :
       LET b0 == IF Restarts(c, st) THEN [k \in 0 .. c.H - 1 |-> NONE] ELSE buf
           i0 == IF Restarts(c, st) THEN 0 ELSE idx
           nx == Iterate(c, st, cand, deep)
           late == b0[i0 % c.H]
           lateCost == c.pc[nx.n][IF late = NONE THEN c.init ELSE late]
       IN  /\ st' = nx
           /\ buf' = IF late = NONE \/ c.pc[nx.n][nx.curr] < lateCost
                     THEN [b0 EXCEPT ![i0 % c.H] = nx.curr] ELSE b0
           /\ idx' = i0 + 1
           /\ seen' = seen \cup {cand, nx.cand}
           /\ hist' = Append(hist, [cand |-> cand, deep |-> deep])
  /\ UNCHANGED c

Spec == Init /\ [][Next]_vars

\* The ring buffer implements the log.
RingOk == buf[idx % c.H] = Late(c, st.log)
\* Best: least cost of all feasible solutions seen, and feasible if any was.
BestOk == \A s \in seen : CostOf(c, st.best) <= CostOf(c, s)
TypeOk == st.ni <= c.K /\ st.best \in S /\ st.curr \in S
\* The best never gets worse.
BestMonotone == [][CostOf(c, st'.best) <= CostOf(c, st.best)]_vars
\* Current only gets worse than before when late acceptance allows it.
EmitOk == (Emit /\ st.n = MaxN) =>
            PrintT(ToJson([H |-> c.H, K |-> c.K, ex |-> c.ex, init |-> c.init, hist |-> hist]))
=============================================================================
