--------------------------------- MODULE ILS ---------------------------------
(***************************************************************************)
(* Iterated local search with late acceptance.  Solutions are numbers;     *)
(* feas[s] and cost[s] are a solution's feasibility and (finite) cost when *)
(* feasible, pc[n][s] its penalised cost in iteration n.  A configuration  *)
(* c has H (history length), K (iterations without improvement before a    *)
(* restart), ex (exhaustive search on new best) and init (solution).       *)
(*                                                                         *)
(* The history is an unbounded log of what was current, since the last     *)
(* restart; "late" is the entry of H iterations ago.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

INFCOST == 100000000
NONE == 0

CostOf(c, s) == IF c.feas[s] THEN c.cost[s] ELSE INFCOST

Start(c) == [best |-> c.init, curr |-> c.init, log |-> <<>>, ni |-> 0, n |-> 0]

Late(c, log) == IF Len(log) >= c.H THEN log[Len(log) - c.H + 1] ELSE NONE

\* What the first search of the next iteration is given.
Restarts(c, st) == st.ni = c.K
SearchFrom(c, st) == IF Restarts(c, st) THEN st.best ELSE st.curr
Better(c, st, cand) == CostOf(c, cand) < CostOf(c, st.best)

\* One iteration: the search returned cand, and then (for a new best, if so
\* configured) the exhaustive search of cand returned deep.
Iterate(c, st, cand, deep) ==
  LET n == st.n + 1
      better == Better(c, st, cand)
      curr0 == SearchFrom(c, st)
      log0 == IF Restarts(c, st) THEN <<>> ELSE st.log
      final == IF better /\ c.ex THEN deep ELSE cand
      late == Late(c, log0)
      lateCost == c.pc[n][IF late = NONE THEN c.init ELSE late]
      curr1 == IF c.pc[n][final] < lateCost \/ c.pc[n][final] < c.pc[n][curr0]
               THEN final ELSE curr0
  IN  [ best |-> IF ~better THEN st.best
                 ELSE IF c.ex /\ c.feas[deep] THEN deep ELSE cand,
        curr |-> curr1,
        log  |-> Append(log0, IF late = NONE \/ c.pc[n][curr1] < lateCost THEN curr1 ELSE late),
        ni   |-> IF better THEN 0 ELSE (IF Restarts(c, st) THEN 0 ELSE st.ni) + 1,
        n    |-> n,
        cand |-> final ]
=============================================================================
