----------------------------- MODULE SolveTrace -----------------------------
(***************************************************************************)
(* Judges recorded solver runs (C27).  Cases:                              *)
(*  run [d, p, pool, given, init, ops, wantOps, nbs, its, res, ..]         *)
(*    pool: the plans seen, without repeats; given, init, cur, cand, best  *)
(*    and new are numbers into it (0: none).                               *)
(*  small [runs], each [d, cost, feas]: what a few hundred iterations gave.*)
(***************************************************************************)
EXTENDS Solve, Json, IOUtils, TLC
CONSTANT NCHUNK

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
Bad(cond, name) == IF cond THEN {} ELSE {name}
Abs(x) == IF x < 0 THEN -x ELSE x

RunOk(c) ==
  LET d == c.d
      P == 1 .. Len(c.pool)
      valid == \A k \in P : ValidPlan(d, c.pool[k])
      n == Len(c.its)
      visited == {c.init} \cup { c.its[k].cand : k \in 1 .. n } \cup { c.its[k].best : k \in 1 .. n }
                 \cup { c.its[k].cur : k \in 1 .. n }
      cost == [k \in P |-> PlanCost(d, c.pool[k])]
      bestOf(S) == CHOOSE x \in { cost[s] : s \in S } : \A s \in S : x <= cost[s]
      seen(k) == {c.init} \cup UNION { {c.its[j].cand, c.its[j].best} : j \in 1 .. k }
      lo == c.p.lo
      hi == c.p.hi
  IN  Bad(valid, "invalid-solution")
      \cup IF ~valid THEN {} ELSE
      Bad(c.given # 0 => c.init = c.given, "initial-solution-given")
      \cup Bad(c.given = 0 => Complete(d, c.pool[c.init]), "initial-solution-incomplete")
      \cup Bad(\A k \in 1 .. n : Complete(d, c.pool[c.its[k].cand]), "candidate-incomplete")
      \cup Bad(\A k \in 1 .. n : cost[c.its[k].best] = bestOf(seen(k)), "best-not-least-costly")
      \cup Bad(bestOf(visited) = cost[c.res], "result-not-least-costly")
      \cup Bad(c.res = IF n = 0 THEN c.init ELSE c.its[n].best, "result-not-best")
      \cup Bad(cost[c.res] >= INF => c.res = c.init, "infeasible-result-not-initial")
      \cup Bad(c.cost = cost[c.res] /\ c.feas = (cost[c.res] < INF), "result-cost")
      \cup Bad(cost[c.res] <= cost[c.init], "worse-than-initial")
      \cup Bad(c.ops = c.wantOps, "operators")
      \cup Bad(c.nbs, "neighbourhood")
      \cup Bad(c.settings, "settings")
      \cup Bad(c.iterations = c.allowed /\ n = c.allowed, "iterations")
      \cup Bad(c.rows = IF c.collect THEN n ELSE 0, "statistics-rows")
      \cup Bad(\A k \in 1 .. n : Len(c.its[k].pens) = d.ndim + 2, "penalty-dimensions")
      \cup Bad(\A k \in 1 .. n : \A j \in 1 .. Len(c.its[k].pens) :
                 c.its[k].pens[j] >= lo - 1 /\ c.its[k].pens[j] <= hi + 1, "penalty-bounds")
      \cup Bad(\A k \in 1 .. n : k <= c.p.w => \A j \in 1 .. Len(c.its[k].pens) :
                 Abs(2 * c.its[k].pens[j] - (lo + hi)) <= 2, "penalties-start-midway")
      \cup Bad(\A k \in 2 .. n : (k - 1) % c.p.w # 0 => c.its[k].pens = c.its[k - 1].pens,
               "penalties-change-within-window")
      \cup Bad(c.parts, "not-the-sum-of-its-parts")

\* The search is heuristic: an optimum may be missed, but not often.
SmallOk(c) ==
  LET N == 1 .. Len(c.runs)
      o == [k \in N |-> Optimum(c.runs[k].d)]
      missed == { k \in N : c.runs[k].cost > o[k] }
  IN  Bad(\A k \in N : c.runs[k].cost >= o[k] /\ c.runs[k].feas = (c.runs[k].cost < INF),
          "better-than-possible")
      \cup Bad(10 * Cardinality(missed) <= Len(c.runs), "optima-missed")

Verdict(c) ==
  IF "exc" \in DOMAIN c THEN {"unexpected-exception"}
  ELSE CASE c.kind = "run" -> RunOk(c)
         [] c.kind = "small" -> SmallOk(c)

VARIABLES lane, pos
INSTANCE Batch
=============================================================================
