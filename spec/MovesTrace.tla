----------------------------- MODULE MovesTrace -----------------------------
(***************************************************************************)
(* Judges recorded evaluations and applications of real local search       *)
(* operators.  A case is a history: a plan, and steps that each use one    *)
(* operator on a few (U, V) pairs, applying at most the last of them.      *)
(***************************************************************************)
EXTENDS Moves, Json, IOUtils, TLC
CONSTANT NCHUNK

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
Bad(cond, name) == IF cond THEN {} ELSE {name}

Neutral(op) == op = "RemoveAdjacentDepot"
Improves(op, delta) == delta < 0 \/ (delta = 0 /\ Neutral(op))

EvalOk(d, pen, op, R, e) ==
  LET out == Outcomes(op, d, R, e.u, e.v)
      better == \E S \in out : Improves(op, DeltaCost(d, R, S, pen))
  IN  Bad(e.should => better, op \o ":unjustified")
      \cup Bad(better => (e.should \/ (Symmetric(op) /\ e.mirror)), op \o ":missed")
      \cup Bad(e.should = Improves(op, e.delta) \/ (~e.should /\ e.delta = 0), op \o ":sign")

ApplyOk(d, pen, op, s) ==
  LET e == s.evals[Len(s.evals)]
      out == Outcomes(op, d, s.pre, e.u, e.v)
  IN  Bad(s.post \in out, op \o ":outcome")
      \cup Bad(DeltaCost(d, s.pre, s.post, pen) = e.delta, op \o ":delta")
      \cup Bad(Structural(d, s.post), op \o ":structure")

StepOk(d, s) ==
  Bad(s.same, s.op \o ":evaluate-changes-routes")
  \cup Bad((Complete(d, s.pre) /\ \E k \in 1 .. Len(s.evals) : s.evals[k].should) => s.supports, s.op \o ":supports")
  \cup UNION { EvalOk(d, s.pen, s.op, s.pre, s.evals[k]) : k \in 1 .. Len(s.evals) }
  \cup IF s.applied THEN ApplyOk(d, s.pen, s.op, s) ELSE {}

Verdict(c) ==
  IF "exc" \in DOMAIN c THEN {"unexpected-exception"}
  ELSE UNION { StepOk(c.d, c.steps[n]) : n \in 1 .. Len(c.steps) }

VARIABLES lane, pos
INSTANCE Batch
=============================================================================
