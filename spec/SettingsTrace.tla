--------------------------- MODULE SettingsTrace ---------------------------
(***************************************************************************)
(* Judges recorded settings (C25).  Cases:                                 *)
(*   group [g, given, ok, s, mid]  settings made from the given values;    *)
(*   pair  [g, a, b, eq, ne]       two settings compared;                  *)
(*   file  [f, ok, s, ops, same]   settings read from a file, and whether  *)
(*         they equal, and solve like, the same settings made directly;    *)
(*   files [a, b, eq]              settings of two files compared.         *)
(***************************************************************************)
EXTENDS Settings, Json, IOUtils
CONSTANT NCHUNK

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
Bad(cond, name) == IF cond THEN {} ELSE {name}
\* an empty JSON object and an empty JSON list read the same
Rec(r) == IF r = <<>> THEN [x \in {} |-> 0] ELSE r
Ops(f) == IF f.hasOps THEN f.ops ELSE AllOperators
Norm(f) == [f EXCEPT !.ils = Rec(@), !.penalty = Rec(@), !.neighbourhood = Rec(@), !.perturbation = Rec(@)]

GroupCase(c) ==
  LET given == Rec(c.given) IN
  IF c.ok # Accepts(c.g, given) THEN {c.g \o (IF c.ok THEN "-accepted" ELSE "-rejected")}
  ELSE IF ~c.ok THEN {}
  ELSE Bad(c.s = Full(c.g, given), c.g \o "-values")
       \cup (IF c.g # "penalty" THEN {} ELSE
             LET m == Full(c.g, given).min_penalty + (Full(c.g, given).max_penalty - Full(c.g, given).min_penalty) \div 2
             IN  Bad(/\ Len(c.mid) = c.dims + 2
                     /\ \A k \in 1 .. Len(c.mid) : c.mid[k] \in {m, m + 1}, "midpoints"))

PairCase(c) ==
  LET same == Full(c.g, Rec(c.a)) = Full(c.g, Rec(c.b))
  IN  Bad(c.eq = same /\ c.ne = ~same, c.g \o "-equality")

FileCase(c) ==
  LET f == Norm(c.f) IN
  IF c.ok # FileAccepted(f) THEN {IF c.ok THEN "file-accepted" ELSE "file-rejected"}
  ELSE IF ~c.ok THEN {}
  ELSE Bad(c.s = FileMeans(f), "file-values")
       \cup Bad(IF f.hasOps THEN c.ops = f.ops ELSE SameOps(c.ops, AllOperators), "file-operators")
       \cup Bad(c.same, "file-equality")
       \cup Bad(c.runs, "file-run")

FilesCase(c) ==
  LET a == Norm(c.a)
      b == Norm(c.b)
      same == FileMeans(a) = FileMeans(b) /\ Ops(a) = Ops(b)
  IN  Bad(c.eq = same, "settings-equality")

Verdict(c) ==
  IF "exc" \in DOMAIN c THEN {"unexpected-exception"} ELSE
  CASE c.kind = "group" -> GroupCase(c)
    [] c.kind = "pair" -> PairCase(c)
    [] c.kind = "file" -> FileCase(c)
    [] c.kind = "files" -> FilesCase(c)

VARIABLES lane, pos
INSTANCE Batch
=============================================================================
