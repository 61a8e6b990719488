----------------------------- MODULE LifeTrace -----------------------------
(***************************************************************************)
(* Judges recorded histories of obtaining, dropping and changing objects   *)
(* (C28).  A case is [ops, first, views]: what each object reported when   *)
(* it was obtained, and what each object obtained so far reports after     *)
(* each operation ("-" when it is not held, or is an iterator that is yet  *)
(* to be used).                                                            *)
(***************************************************************************)
EXTENDS Lifetimes, Json, IOUtils, TLC
CONSTANT NCHUNK

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
Bad(cond, name) == IF cond THEN {} ELSE {name}

RECURSIVE After(_, _)
After(c, n) == IF n = 0 THEN <<>> ELSE Step(After(c, n - 1), c.ops[n])

Allowed(c, n) ==
  LET s == After(c, n - 1)
      op == c.ops[n]
  IN  CASE op.op = "make" -> CanMake(s, op.k, { op.from[j] : j \in 1 .. Len(op.from) })
        [] OTHER -> CanDrop(s, op.i)

ViewsBad(c, n) ==
  LET s == After(c, n) IN
  Bad(Allowed(c, n), "malformed-history")
  \cup { s[i].k \o "-changed" :
         i \in { i \in 1 .. Len(s) :
                   /\ s[i].held /\ ~s[i].own
                   /\ c.views[n][i] # "-"
                   /\ c.views[n][i] # c.first[i] } }

Verdict(c) ==
  IF "exc" \in DOMAIN c THEN {"unexpected-exception"} ELSE
  UNION { ViewsBad(c, n) : n \in 1 .. Len(c.ops) }

VARIABLES lane, pos
INSTANCE Batch
=============================================================================
