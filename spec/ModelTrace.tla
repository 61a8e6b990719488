------------------------------ MODULE ModelTrace ------------------------------
(* Judges recorded model-building programs.                                    *)
EXTENDS Model, Json, IOUtils, TLC
CONSTANT NCHUNK

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
Bad(cond, name) == IF cond THEN {} ELSE {name}

\* acc: the model, the data produced so far, and what went wrong.
Call(acc, s) ==
  CASE s.op = "data" ->
         LET x == DataOf(acc.m, s.missing)
         IN  IF s.ok # ValidData(x) THEN [acc EXCEPT !.bad = @ \cup {"data-accepted"}, !.xs = Append(@, x)]
             ELSE [acc EXCEPT !.xs = Append(@, x),
                              !.bad = @ \cup (IF s.ok THEN Bad(Reports(x, s.obs), "data")
                                                           \cup Bad(s.again = s.obs, "data-changed-later") ELSE {})]
    \* solving a model is solving the data it stands for
    [] s.op = "solve" -> [acc EXCEPT !.bad = @ \cup Bad(s.mine = s.same, "solve")]
    [] s.op = "from" -> [acc EXCEPT !.m = ModelOf(acc.xs[s.k])]
    [] OTHER ->
         LET r == Step(acc.m, s)
         IN  [acc EXCEPT !.m = r.m, !.bad = @ \cup Bad(s.ok = r.ok, "call-" \o s.op)]

Verdict(c) ==
  IF "exc" \in DOMAIN c THEN {"unexpected-exception"}
  ELSE FoldLeft(LAMBDA acc, s : IF acc.bad = {} THEN Call(acc, s) ELSE acc,
                [m |-> EmptyModel, xs |-> <<>>, bad |-> {}], c.steps).bad

VARIABLES lane, pos
INSTANCE Batch
=============================================================================
