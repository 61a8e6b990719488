--------------------------- MODULE ProgressTrace ---------------------------
(***************************************************************************)
(* Judges what was displayed (C26).  Cases:                                *)
(*   printer [p, t0, events, n]  calls of the display with virtual time    *)
(*     events: [op, now, x, out] with the lines that the call displayed;   *)
(*   solve [p, lines, rows, restarts, counts, iters, cost]  a real run.    *)
(***************************************************************************)
EXTENDS Progress, Json, IOUtils, SequencesExt
CONSTANT NCHUNK

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
Bad(cond, name) == IF cond THEN {} ELSE {name}

StartLine(n) ==
  [k |-> "start",
   text |-> <<Plural(n.depots, "depot"), Plural(n.clients, "client"), Plural(n.ships, "shipment"),
              Plural(n.vehicles, "vehicle"), Plural(n.types, "vehicle type")>>]
Restart == [k |-> "restart"]
NoTime(l) == [f \in DOMAIN l \ {"secs"} |-> l[f]]

\* state: [s, bad]
Step(c, a, e) ==
  LET s == a.s IN
  CASE e.op = "iter" ->
         LET due == Due(c.p, s, e.now) IN
         [s |-> AfterIter(c.p, s, e.x, e.now),
          bad |-> a.bad \cup
            (IF ~due THEN Bad(e.out = <<>>, "shown-too-soon")
             ELSE IF Len(e.out) # 1 THEN {"not-shown"}
             ELSE IF e.out[1].k # "iter" THEN {"line-form"}
             ELSE Bad(NoTime(e.out[1]) = Shown(s, e.x), "line-contents")
                  \cup Bad(TimeOk(e.x.time, e.out[1].secs), "line-time"))]
    [] e.op = "restart" ->
         [s |-> s, bad |-> a.bad \cup Bad(e.out = IF c.p.on THEN <<Restart>> ELSE <<>>, "restart-line")]
    [] e.op = "start" ->
         [s |-> s, bad |-> a.bad \cup Bad(e.out = IF c.p.on THEN <<StartLine(c.counts)>> ELSE <<>>, "start-lines")]
    [] e.op = "end" ->
         [s |-> s, bad |-> a.bad \cup
            (IF ~c.p.on THEN Bad(e.out = <<>>, "end-lines")
             ELSE Bad(e.out = <<[k |-> "end", iters |-> e.iters, cost |-> e.cost, time |-> e.time]>>, "end-lines"))]

PrinterCase(c) ==
  IF c.p.every < 0 THEN Bad(~c.ok, "negative-interval") ELSE IF ~c.ok THEN {"rejected"} ELSE
  FoldLeft(LAMBDA a, e : Step(c, a, e), [s |-> Begin(c.t0), bad |-> {}], c.events).bad

\* A run with display interval zero: every iteration is shown, in order.
SolveCase(c) ==
  LET its == SelectSeq(c.lines, LAMBDA l : l.k = "iter")
      res == SelectSeq(c.lines, LAMBDA l : l.k = "restart")
      states == [ k \in 1 .. Len(c.rows) |->
                    FoldLeft(LAMBDA s, x : AfterIter(c.p, s, x, 0), Begin(0), SubSeq(c.rows, 1, k - 1)) ]
  IN  IF ~c.p.on THEN Bad(c.lines = <<>>, "silent-run")
      ELSE Bad(Len(its) = (IF c.p.stats THEN c.iters ELSE 0), "iterations-shown")
           \cup Bad(Len(its) = Len(c.rows) => \A k \in 1 .. Len(its) :
                      NoTime(its[k]) = Shown(states[k], c.rows[k]), "run-lines")
           \cup Bad(Len(res) = c.restarts, "run-restarts")
           \cup Bad(c.lines[1] = StartLine(c.counts), "run-start")
           \cup Bad(c.lines[Len(c.lines)] = [k |-> "end", iters |-> c.iters, cost |-> c.cost, time |-> c.time],
                    "run-end")
           \cup Bad(Len(c.lines) = Len(its) + Len(res) + 2, "run-other-lines")

Verdict(c) ==
  IF "exc" \in DOMAIN c THEN {"unexpected-exception"} ELSE
  CASE c.kind = "printer" -> PrinterCase(c)
    [] c.kind = "solve" -> SolveCase(c)

VARIABLES lane, pos
INSTANCE Batch
=============================================================================
