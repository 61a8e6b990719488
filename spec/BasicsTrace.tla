---------------------------- MODULE BasicsTrace ----------------------------
(* Judges recorded uses of the building blocks against Basics.tla (C24).   *)
EXTENDS Basics, Json, IOUtils, TLC
CONSTANT NCHUNK

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
Bad(cond, name) == IF cond THEN {} ELSE {name}
ToSetOf(s) == { s[k] : k \in 1 .. Len(s) }

\* [kind, regs, ops, obs]: sizes of the registers, the operations, and per
\* operation what was observed of all registers afterwards.
RegBad(m, o) ==
  LET U == Universe(m.n) IN
  Bad(ToSetOf(o.members) = m.s, "bitset-members")
  \cup Bad(o.count = Cardinality(m.s), "bitset-count")
  \cup Bad(o.len = Cardinality(U), "bitset-len")
  \cup Bad(o.all = (m.s = U), "bitset-all")
  \cup Bad(o.any = (m.s # {}), "bitset-any")
  \cup Bad(o.none = (m.s = {}), "bitset-none")
SetCase(c) ==
  LET start == [k \in 1 .. Len(c.regs) |-> [n |-> c.regs[k], s |-> {}]]
      step(st, k) ==
        LET op == c.ops[k]
            o == c.obs[k]
            regs == SetOp(st.regs, op)
            R == 1 .. Len(regs)
        IN  [regs |-> regs,
             bad |-> st.bad
               \cup Bad(o.raised = SetRaises(st.regs, op), "bitset-index-error")
               \cup UNION { RegBad(regs[r], o.regs[r]) : r \in R }
               \cup UNION { Bad(o.eq[a][b] = (/\ Universe(regs[a].n) = Universe(regs[b].n)
                                              /\ regs[a].s = regs[b].s), "bitset-eq")
                            : a, b \in R }]
  IN  FoldLeft(step, [regs |-> start, bad |-> {}], [k \in 1 .. Len(c.ops) |-> k]).bad

RingCase(c) ==
  LET step(st, k) ==
        LET q == RingOp(st.q, c.h[k]) IN
        [q |-> q, bad |-> st.bad
            \cup Bad(c.obs[k].len = RingLen(q), "ring-len")
            \cup Bad(c.obs[k].peek = RingPeek(q), "ring-peek")
            \cup Bad(c.obs[k].maxlen = c.n, "ring-maxlen")]
  IN  FoldLeft(step, [q |-> RingNew(c.n), bad |-> {}], [k \in 1 .. Len(c.h) |-> k]).bad

PointsCase(c) ==
  IF ~c.ok \/ ~PointsOk(c.points) THEN Bad(c.ok = PointsOk(c.points), "plf-points") ELSE
  UNION { Bad(c.ys[k] = PointsAt(c.points, c.xs[k]), "plf-value") : k \in 1 .. Len(c.xs) }
  \cup Bad(c.rising = PointsRising(c.points), "plf-monotone")
  \cup Bad(c.breaks = PointsBreaks(c.points), "plf-breakpoints")
  \cup Bad(c.lines = PointsLines(c.points), "plf-segments")
LinesCase(c) ==
  IF ~c.ok \/ ~LinesOk(c.breaks, c.lines) THEN Bad(c.ok = LinesOk(c.breaks, c.lines), "plf-lines") ELSE
  UNION { Bad(c.ys[k] = LinesAt(c.breaks, c.lines, c.xs[k]), "plf-value") : k \in 1 .. Len(c.xs) }
  \cup Bad(c.rising = LinesRising(c.breaks, c.lines), "plf-monotone")
  \cup Bad(c.breaks2 = c.breaks /\ c.lines2 = c.lines, "plf-fields")

RngCase(c) ==
  LET step(st, k) ==
        LET e == c.draws[k]
            s == Draw(st.s)
        IN  [s |-> s, bad |-> st.bad
              \cup Bad(e.state = s, "rng-state")
              \cup CASE e.k = "call" -> Bad(e.out = s[1], "rng-call")
                     [] e.k = "rand" -> Bad(e.unit /\ e.out = s[1], "rng-rand")
                     [] e.k = "int"  -> Bad(e.out = ModOf(s[1], e.high), "rng-randint")]
  IN  (IF c.seeded THEN Bad(c.start = Seeded(c.seed), "rng-seed") ELSE Bad(c.start = c.seed, "rng-restore"))
      \cup FoldLeft(step, [s |-> c.start, bad |-> {}], [k \in 1 .. Len(c.draws) |-> k]).bad

\* [t, i, str, ok]: an activity's notation, and what parsing gives back.
Letter(t) == CASE t = "D" -> "D" [] t = "C" -> "C" [] t = "P" -> "L" [] t = "L" -> "U"
ActCase(c) ==
  Bad(c.str = Letter(c.t) \o ToString(c.i), "activity-string")
  \cup Bad(c.back = [t |-> c.t, i |-> c.i] /\ c.eq, "activity-parse")
  \cup Bad(/\ c.is.client = (c.t = "C") /\ c.is.depot = (c.t = "D")
           /\ c.is.ship = (c.t \in {"P", "L"})
           /\ c.is.pickup = (c.t = "P") /\ c.is.delivery = (c.t = "L"), "activity-type")

Verdict(c) ==
  IF "exc" \in DOMAIN c THEN {"unexpected-exception"} ELSE
  CASE c.kind = "set" -> SetCase(c)
    [] c.kind = "ring" -> RingCase(c)
    [] c.kind = "points" -> PointsCase(c)
    [] c.kind = "lines" -> LinesCase(c)
    [] c.kind = "rng" -> RngCase(c)
    [] c.kind = "act" -> ActCase(c)

VARIABLES lane, pos
INSTANCE Batch
=============================================================================
