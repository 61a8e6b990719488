----------------------------- MODULE FleetTrace -----------------------------
(***************************************************************************)
(* Judges recorded fleet minimisations (C20).  A case is [d, ok, n, same,  *)
(* stopped, judge]: the instance, whether the call returned (or raised a   *)
(* ValueError), the number of vehicles returned, whether the returned type *)
(* is otherwise the instance's, and whether the stopping criterion ever    *)
(* said stop.  Large instances, where the existence of a feasible plan     *)
(* cannot be decided by enumeration, come with judge = FALSE.              *)
(***************************************************************************)
EXTENDS Fleet, Json, IOUtils, TLC

CONSTANT NCHUNK

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)

Bad(cond, name) == IF cond THEN {} ELSE {name}

Verdict(c) ==
  IF "exc" \in DOMAIN c THEN {"unexpected-exception"} ELSE
  LET d == c.d
      avail == Veh(d, 0).n
  IN  IF ~c.ok \/ ~Supported(d) THEN Bad(c.ok = Supported(d), "support") ELSE
      Bad(c.same, "vehicle-type-changed")
      \cup Bad(c.data, "instance-changed")
      \cup Bad(1 <= c.n /\ c.n <= avail, "fleet-size")
      \cup Bad(c.n <= Max2(Bound(d), 1) \/ c.n = 1 \/ c.stopped, "gave-up-early")
      \cup Bad(c.n < avail /\ c.judge => Enough(d, c.n), "no-feasible-solution")
      \cup Bad(c.n < avail => c.n >= Bound(d), "below-bound")

VARIABLES lane, pos
INSTANCE Batch
=============================================================================
