------------------------------ MODULE DetTrace ------------------------------
(***************************************************************************)
(* Reproducibility, as a property of sets of runs (self-composition): a    *)
(* run is a function of the instance, seed, parameters and iteration       *)
(* limit.  Each case has all recorded runs of one such configuration, in   *)
(* different processes, with different histories and display options.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
CONSTANT NCHUNK

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
Bad(cond, name) == IF cond THEN {} ELSE {name}

Pairs(c) == (1 .. Len(c.runs)) \X (1 .. Len(c.runs))
Same(c, f(_)) == Cardinality({ f(c.runs[k]) : k \in 1 .. Len(c.runs) }) = 1

\* What ran before must not matter, nor where and how it is displayed.
RunsOk(c) ==
  Bad(Same(c, LAMBDA r : r.best), "best")
  \cup Bad(Same(c, LAMBDA r : r.traj), "trajectory")
  \cup Bad(Same(c, LAMBDA r : r.n), "iterations")
  \cup Bad(Same(c, LAMBDA r : r.init), "initial")
  \cup Bad(\A k \in 1 .. Len(c.runs) : c.runs[k].n = c.limit /\ Len(c.runs[k].traj) = c.limit,
           "limit")
  \cup Bad(\A k \in 1 .. Len(c.runs) :
             c.runs[k].rows = IF c.runs[k].collect THEN c.limit ELSE 0, "statistics")
  \cup Bad(\A k \in 1 .. Len(c.runs) : c.runs[k].stats = <<>> \/ c.runs[k].stats = c.runs[k].traj,
           "statistics-trajectory")

Verdict(c) ==
  IF "exc" \in DOMAIN c THEN {"unexpected-exception"}
  ELSE RunsOk(c)

VARIABLES lane, pos
INSTANCE Batch
=============================================================================
