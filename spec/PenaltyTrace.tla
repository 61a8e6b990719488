---------------------------- MODULE PenaltyTrace ----------------------------
(***************************************************************************)
(* Judges recorded histories of the penalty manager.  Recorded penalties   *)
(* are rounded to units of 1/1024, hence the slack of two units.           *)
(***************************************************************************)
EXTENDS Penalty, Json, IOUtils, FiniteSets, TLC
CONSTANT NCHUNK

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
Bad(cond, name) == IF cond THEN {} ELSE {name}
Near(a, b) == Abs(a - b) <= 2
AllNear(xs, ys) == Len(xs) = Len(ys) /\ \A k \in 1 .. Len(xs) : Near(xs[k], ys[k])

StepOk(p, dims, e, k) ==
  LET dim == dims[k]
      post == e.pens[k]
      s == Append(dim.win, e.viol[k])
  IN  Bad(IF Full(p, dim)
          THEN Abs(16 * post - Updated16(p, dim.pen, s)) <= 32
          ELSE post = dim.pen,
          IF Full(p, dim) THEN "update" ELSE "changed-within-window")
      \cup Bad(post >= p.lo /\ post <= p.hi, "bounds")

Step(c, acc, e) ==
  LET p == c.p
      n == Len(acc.dims)
  IN  IF Len(e.pens) # n THEN [acc EXCEPT !.bad = @ \cup {"dimensions"}]
      ELSE
      [ dims |-> [ k \in 1 .. n |-> Register(p, acc.dims[k], e.viol[k], e.pens[k]) ],
        bad |-> acc.bad
          \cup UNION { StepOk(p, acc.dims, e, k) : k \in 1 .. n }
          \cup Bad(AllNear(e.ev, e.pens), "cost-evaluator")
          \cup Bad(\A k \in 1 .. n : Near(e.max[k], p.hi), "max-cost-evaluator")
          \cup Bad(/\ e.warns >= Cardinality({ k \in 1 .. n : MustWarn(p, acc.dims[k], e.viol[k]) })
                   /\ e.warns <= Cardinality({ k \in 1 .. n : MayWarn(p, acc.dims[k], e.viol[k]) }),
                   "warnings") ]

HistoryOk(c) ==
  LET n == Len(c.init)
      d0 == [ k \in 1 .. n |-> StartDim(c.p, c.init[k]) ]
      acc == FoldLeft(LAMBDA a, e : Step(c, a, e),
               [ bad |-> {},
                 dims |-> [ k \in 1 .. n |-> [d0[k] EXCEPT !.pen = c.start[k]] ] ],
               c.steps)
  IN  Bad(\A k \in 1 .. n : Near(c.start[k], d0[k].pen), "initial")
      \cup acc.bad
      \cup Bad(AllNear(c.first, c.start), "evaluator-changed")
      \cup Bad(\A k \in 1 .. Len(c.mid) : Near(2 * c.mid[k], c.p.lo + c.p.hi), "midpoint")

Verdict(c) ==
  IF "exc" \in DOMAIN c THEN {"unexpected-exception"}
  ELSE CASE c.kind = "history" -> HistoryOk(c)
         [] c.kind = "params" -> Bad(c.ok = ParamsOk(c.p), "parameters")

VARIABLES lane, pos
INSTANCE Batch
=============================================================================
