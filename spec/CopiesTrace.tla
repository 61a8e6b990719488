---------------------------- MODULE CopiesTrace ----------------------------
(***************************************************************************)
(* Judges recorded copies and comparisons (C22).  A case is                *)
(*   [kind, keys, eq, ne, hash, copies]                                    *)
(* with the identifying value of each object, the outcomes of comparing    *)
(* all pairs, the hash classes (0 when unhashable), and, per copy,         *)
(*   [how, a, b, eq, qe, ne, hash]:                                        *)
(* what original and copy report and how they compare.                     *)
(***************************************************************************)
EXTENDS Copies, Json, IOUtils, TLC
CONSTANT NCHUNK

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
Bad(cond, name) == IF cond THEN {} ELSE {name}

PairsBad(c) ==
  UNION { LET same == Same(c.kind, c.keys[i], c.keys[j]) IN
          Bad(c.eq[i][j] = same, IF same THEN c.kind \o "-same-unequal" ELSE c.kind \o "-different-equal")
          \cup Bad(c.ne[i][j] = ~c.eq[i][j], c.kind \o "-not-equal")
          \cup Bad(same => c.hash[i] = c.hash[j], c.kind \o "-hash")
        : i, j \in 1 .. Len(c.keys) }

CopyBad(kind, x) ==
  { kind \o "-" \o x.how \o "-" \o f : f \in Differences(x.a, x.b) }
  \cup Bad(x.eq /\ x.qe /\ ~x.ne, kind \o "-" \o x.how \o "-unequal")
  \cup Bad(x.hash, kind \o "-" \o x.how \o "-hash")

Verdict(c) ==
  IF "exc" \in DOMAIN c THEN {"unexpected-exception"} ELSE
  PairsBad(c) \cup UNION { CopyBad(c.kind, c.copies[k]) : k \in 1 .. Len(c.copies) }

VARIABLES lane, pos
INSTANCE Batch
=============================================================================
