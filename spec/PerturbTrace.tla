---------------------------- MODULE PerturbTrace ----------------------------
(***************************************************************************)
(* Judges recorded perturbations, insertions and search space histories.   *)
(***************************************************************************)
EXTENDS Perturb, Json, IOUtils, TLC
CONSTANT NCHUNK

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
Bad(cond, name) == IF cond THEN {} ELSE {name}
ToSet1(s) == { s[k] : k \in 1 .. Len(s) }

PerturbOk(d, s) ==
  LET p == Perturbed(d, s.pre, s.post, s.n, s.order, s.nbs)
      T == Toggled(d, s.pre, s.post)
      prom == ToSet1(s.promising)
  IN  Bad(p.count, "count") \cup Bad(p.local, "local") \cup Bad(p.rest, "rest")
      \cup Bad(p.routes, "routes") \cup Bad(p.once, "once")
      \cup Bad(s.n >= s.min /\ s.n <= s.max, "bounds")
      \cup Bad(T \subseteq prom, "promising")
      \cup IF s.n = 0 THEN Bad(s.post = s.pre /\ prom = ToSet1(s.promBefore), "nothing-to-do")
           ELSE Bad(Cardinality(prom) <= 5 * Cardinality(T), "promising-too-many")

InsertOk(d, s) ==
  LET near == NearOutcomes(s.pre, s.a, s.nbs)
      empt == EmptyOutcomes(d, s.pre, s.a)
      \* shipments only fall back when they must
      base == IF s.a.t = "C" \/ (s.required /\ near \cup empt = {}) THEN near \cup {Fallback(s.pre, s.a)} ELSE near
      Cost(S) == DeltaCost(d, s.pre, S, s.pen)
      here == Cost(s.post)
  IN  Bad(s.res = (s.post # s.pre), "insert-reported")
      \cup IF s.post = s.pre
           THEN \* empty vehicles are tried until one is cheaper than the rest
                Bad(/\ ~s.required
                    /\ \A S \in base : Cost(S) >= 0
                    /\ empt = {} \/ \E S \in empt : Cost(S) >= 0, "insert-missed")
           ELSE Bad(s.post \in base \cup empt, "insert-place")
                \cup Bad(s.required \/ here < 0, "insert-unjustified")
                \cup Bad(\A S \in base : here <= Cost(S), "insert-cheapest")
                \cup Bad((\E E \in empt : \A S \in base : Cost(E) < Cost(S))
                         => \A S \in base : here < Cost(S), "insert-empty")

\* Search space: the promising set, and the orders.
Mark(prom, o) ==
  CASE o.op = "mark" -> prom \cup {Head1(o.a)}
    [] o.op = "node" -> prom \cup { Head1(x) : x \in { y \in ToSet1(o.near) : y.t # "D" } }
    [] o.op = "none" -> {}
    [] o.op = "shuffle" -> prom
SpaceAfter(d, ops, n) ==
  FoldLeft(LAMBDA p, o : IF o.op = "all" THEN All(d)
                         ELSE Mark(p, o), {}, SubSeq(ops, 1, n))
SpaceOk(d, ops, n) ==
  Bad(ToSet1(ops[n].promising) = SpaceAfter(d, ops, n), "space-promising")
  \cup Bad(/\ ToSet1(ops[n].order) = All(d)
           /\ Len(ops[n].order) = Cardinality(All(d)), "space-activities")
  \cup Bad(/\ Len(ops[n].types) = NumVehTypes(d)
           /\ { <<x.v, x.off>> : x \in ToSet1(ops[n].types) }
              = { <<v, Offset(d, v)>> : v \in 0 .. NumVehTypes(d) - 1 }, "space-vehicle-types")
  \cup (IF n > 1 /\ ops[n].op # "shuffle"
        THEN Bad(ops[n].order = ops[n - 1].order /\ ops[n].types = ops[n - 1].types, "space-order-changed")
        ELSE {})

Verdict(c) ==
  IF "exc" \in DOMAIN c THEN {"unexpected-exception"}
  ELSE CASE c.kind = "perturb" -> UNION { PerturbOk(c.d, c.steps[n]) : n \in 1 .. Len(c.steps) }
         [] c.kind = "insert" -> UNION { InsertOk(c.d, c.steps[n]) : n \in 1 .. Len(c.steps) }
         [] c.kind = "space" -> UNION { SpaceOk(c.d, c.ops, n) : n \in 1 .. Len(c.ops) }

VARIABLES lane, pos
INSTANCE Batch
=============================================================================
