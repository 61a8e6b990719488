----------------------------- MODULE FilesTrace -----------------------------
(***************************************************************************)
(* Judges recorded readings and writings of files (C23).  Cases:           *)
(*   read  [f, ok, err, x, idcs]  an instance file and what was read;      *)
(*   sol   [.., lines, plan]      a solution file and the plan read;       *)
(*   write [.., plan, lines, cost, real, again]  a plan, the file written  *)
(*         for it and whether reading that gives the same solution;        *)
(*   cli   [..]                   a run of the command line program.       *)
(***************************************************************************)
EXTENDS Files, Json, IOUtils, TLC
CONSTANT NCHUNK

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
Bad(cond, name) == IF cond THEN {} ELSE {name}

ReadVerdict(c) ==
  IF ~Readable(c.f) THEN Bad(~c.ok /\ c.err = "ValueError", "malformed-accepted")
  ELSE IF ~c.ok THEN {"readable-rejected"}
  ELSE ReadBad(c.f, c.x, c.idcs)

SolVerdict(c) == Bad(SameBag(FileRoutes(c.x, c.idcs, c.lines), c.plan), "solution-read")

\* Lines stand for vehicles; with one vehicle type all vehicles are alike.
WriteVerdict(c) ==
  Bad(Len(c.x.vehs) > 1 => Len(c.lines) = c.vehicles, "all-vehicles-listed")
  \cup Bad(Len(c.lines) <= c.vehicles, "too-many-lines")
  \cup Bad(c.numbers = [ n \in 1 .. Len(c.lines) |-> n ], "line-numbers")
  \cup (IF Len(c.lines) <= c.vehicles
        THEN Bad(SameBag(FileRoutes(c.x, c.idcs, c.lines), c.plan), "solution-written") ELSE {})
  \cup Bad(c.cost = c.real, "cost-written")
  \cup Bad(c.again, "round-trip")

CliVerdict(c) ==
  Bad(c.name = c.stem, "cli-name")
  \cup Bad(c.shown = c.cost, "cli-cost-shown")
  \cup Bad(c.file = c.cost, "cli-cost-in-file")
  \cup Bad(c.flag = (IF c.feas THEN "Y" ELSE "N"), "cli-feasible")
  \cup Bad(c.iters = c.want, "cli-iterations")
  \cup Bad(c.rows = c.want, "cli-statistics")
  \cup Bad(c.same, "cli-differs-from-solve")

Verdict(c) ==
  IF "exc" \in DOMAIN c THEN {"unexpected-exception"} ELSE
  CASE c.kind = "read"  -> ReadVerdict(c)
    [] c.kind = "sol"   -> SolVerdict(c)
    [] c.kind = "write" -> WriteVerdict(c)
    [] c.kind = "cli"   -> CliVerdict(c)

VARIABLES lane, pos
INSTANCE Batch
=============================================================================
