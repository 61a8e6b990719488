------------------------------ MODULE ILSTrace ------------------------------
(***************************************************************************)
(* Judges recorded runs of the iterated local search against ILS.tla.      *)
(* Solutions are numbered; costs are ranks (only comparisons matter).      *)
(***************************************************************************)
EXTENDS ILS, SequencesExt, Json, IOUtils, TLC
CONSTANT NCHUNK

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
Bad(cond, name) == IF cond THEN {} ELSE {name}

\* One recorded iteration e, in state acc.st.  The exhaustive search may end
\* in another solution of the same cost; either is then the best.
Step(c, acc, e) ==
  LET st == acc.st
      n == st.n + 1
      restarts == Restarts(c, st)
      s == e.search
      shape == /\ Len(s) >= 1 /\ ~s[1].ex
               /\ Len(s) = IF Better(c, st, s[1].out) /\ c.ex THEN 2 ELSE 1
               /\ Len(e.it) = 1
  IN  IF acc.stuck THEN acc
      ELSE IF ~shape
      THEN [acc EXCEPT !.bad = @ \cup {"searches"}, !.stuck = TRUE]
      ELSE
      LET better == Better(c, st, s[1].out)
          two == Len(s) = 2
          deep == IF two THEN s[2].out ELSE s[1].out
          nx == Iterate(c, st, s[1].out, deep)
          b == e.it[1].best
          bestOk == \/ b = nx.best
                    \/ /\ better
                       /\ b \in {s[1].out, deep}
                       /\ CostOf(c, b) = CostOf(c, nx.best)
          cbs == (IF restarts THEN <<"restart">> ELSE <<>>)
                 \o (IF better THEN <<"best">> ELSE <<>>) \o <<"iteration">>
      IN  [ st |-> [nx EXCEPT !.best = b],
            stuck |-> ~bestOk,
            bad |-> acc.bad
              \cup Bad(e.stop = CostOf(c, st.best), "stop-cost")
              \cup Bad(s[1].in = SearchFrom(c, st), "search-from")
              \cup Bad(two => (s[2].ex /\ s[2].in = s[1].out), "exhaustive")
              \cup Bad(\A k \in 1 .. Len(s) : s[k].ev = n, "evaluator")
              \cup Bad(e.reg = <<s[1].out>>, "registered")
              \cup Bad(e.cb = cbs, "callbacks")
              \cup Bad(restarts => e.restart = <<st.best>>, "restart-callback")
              \cup Bad(better => e.best = <<b>>, "best-callback")
              \cup Bad(bestOk, "best")
              \cup Bad(e.it[1].curr = nx.curr, "current")
              \cup Bad(e.it[1].cand = nx.cand, "candidate")
              \cup Bad(e.it[1].ev = n, "iteration-evaluator") ]

RunOk(c, r) ==
  LET acc == FoldLeft(LAMBDA a, e : Step(c, a, e),
                      [st |-> Start(c), stuck |-> FALSE, bad |-> {}], r.iters)
  IN  acc.bad
      \cup IF acc.stuck THEN {}
           ELSE Bad(r.laststop = CostOf(c, acc.st.best), "last-stop-cost")
                \cup Bad(r.ends = <<"start", "end">>, "start-end")
                \cup Bad(r.best = acc.st.best, "result-best")
                \cup Bad(r.n = Len(r.iters), "result-iterations")
                \cup Bad(r.rows = IF r.collect THEN Len(r.iters) ELSE 0, "result-statistics")
                \cup Bad(r.same, "result-callback")

Verdict(c) ==
  IF "exc" \in DOMAIN c THEN {"unexpected-exception"}
  ELSE RunOk(c, c.run)

VARIABLES lane, pos
INSTANCE Batch
=============================================================================
