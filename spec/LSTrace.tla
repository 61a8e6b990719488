------------------------------ MODULE LSTrace ------------------------------
(***************************************************************************)
(* Judges recorded uses of real local search objects.                      *)
(*  search: one local search object improves a series of solutions.        *)
(*  load:   one search solution loads a series of solutions.               *)
(***************************************************************************)
EXTENDS Moves, Json, IOUtils, TLC
CONSTANT NCHUNK

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
Bad(cond, name) == IF cond THEN {} ELSE {name}

Bag(plan) == [r \in { plan[k] : k \in 1 .. Len(plan) } |->
                Cardinality({ k \in 1 .. Len(plan) : plan[k] = r })]
SamePlan(p, q) == Bag(p) = Bag(q)

\* A plan's routes in the slots of the fleet's vehicles: vehicles are ordered
\* by type, and a plan's routes of a type take its first vehicles, in order.
Slots(d, plan) ==
  LET OfType(v) == SelectSeq(plan, LAMBDA r : r.v = v)
      Type(v) == [n \in 1 .. Veh(d, v).n |->
                    IF n <= Len(OfType(v)) THEN OfType(v)[n] ELSE [v |-> v, acts |-> <<>>]]
  IN  FoldLeft(LAMBDA s, v : s \o Type(v), <<>>, [v \in 1 .. NumVehTypes(d) |-> v - 1])

Where(R, a) == IF Planned(R, a) THEN Place(R, a) ELSE <<0, 0>>

LoadOk(d, s) ==
  LET R == Slots(d, s.plan)
  IN  Bad(s.routes = R, "load-routes")
      \cup Bad(\A k \in 1 .. Len(s.where) :
                 <<s.where[k].r, s.where[k].k>> = Where(R, [t |-> s.where[k].t, i |-> s.where[k].i]),
               "load-nodes")
      \cup Bad(SamePlan(s.unload, s.plan), "unload")

Neutral(op) == op = "RemoveAdjacentDepot"

\* The result has no improving move of the given kind. A symmetric move may be
\* left to its mirror image, which is only sure to be tried when U and V are
\* neighbours of each other.
OptOk(d, R, pen, q) ==
  IF Symmetric(q.op) /\ q.v.k # 0 /\ ~q.mutual THEN {}
  ELSE UNION { Bad(LET dc == DeltaCost(d, R, S, pen) IN dc > 0 \/ (dc = 0 /\ ~Neutral(q.op)),
                   "optimum:" \o q.op)
               : S \in Outcomes(q.op, d, R, q.u, q.v) }

SearchOk(d, s) ==
  LET valid == ValidPlan(d, s.after)
      whole == Complete(d, s.before)
  IN  Bad(SamePlan(s.input, s.before), "input-changed")
      \cup Bad(valid, "valid")
      \cup IF ~valid THEN {} ELSE
           Bad(Complete(d, s.after), "complete")
           \cup Bad((s.exhaustive /\ whole) => (s.costAfter <= s.costBefore), "never-worse")
           \cup (IF ~s.big THEN
                   Bad(s.costBefore = PlanPenCost(d, s.before, s.pen)
                       /\ s.costAfter = PlanPenCost(d, s.after, s.pen), "costs")
                   \cup UNION { OptOk(d, Slots(d, s.after), s.pen, s.probes[k]) : k \in 1 .. Len(s.probes) }
                 ELSE {})
           \cup Bad((s.exhaustive /\ whole /\ s.improving = 0) => SamePlan(s.after, s.before), "no-moves-no-change")
           \cup Bad((s.exhaustive /\ whole /\ s.strict /\ s.improving > 0) => s.costAfter < s.costBefore,
                    "moves-improve")
           \cup Bad(s.improving <= s.updates /\ s.improving <= s.moves, "statistics")

Verdict(c) ==
  IF "exc" \in DOMAIN c THEN {"unexpected-exception"}
  ELSE CASE c.kind = "load" -> UNION { LoadOk(c.d, c.steps[n]) : n \in 1 .. Len(c.steps) }
         [] c.kind = "search" -> UNION { SearchOk(c.d, c.steps[n]) : n \in 1 .. Len(c.steps) }

VARIABLES lane, pos
INSTANCE Batch
=============================================================================
