------------------------------ MODULE StopTrace ------------------------------
(* Judges recorded call histories of real stopping criteria.  Combinations  *)
(* are judged until they first stop: what happens to their members after    *)
(* that is left open.                                                       *)
EXTENDS Stop, Json, IOUtils, TLC, FiniteSets
CONSTANT NCHUNK

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
Bad(cond, name) == IF cond THEN {} ELSE {name}

Judged(c, n) == c.c.k # "any" \/ \A k \in 1 .. n - 1 : ~c.out[k]
HistoryOk(c) ==
  UNION { LET h == SubSeq(c.h, 1, n) IN
          IF ~Judged(c, n) THEN {}
          ELSE Bad(Must(c.c, h) => c.out[n], c.c.k \o "-late")
               \cup Bad(c.out[n] => May(c.c, h), c.c.k \o "-early") : n \in 1 .. Len(c.h) }

Verdict(c) ==
  IF "exc" \in DOMAIN c THEN {"unexpected-exception"}
  ELSE IF c.kind = "history" THEN HistoryOk(c)
  ELSE Bad(c.ok = Valid(c.c), "construction")

VARIABLES lane, pos
INSTANCE Batch
=============================================================================
