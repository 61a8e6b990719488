----------------------------- MODULE RandTrace -----------------------------
(***************************************************************************)
(* Judges recorded random solutions (C19).  A case is [d, plans, again,    *)
(* many]: the instance, the random solutions made from different generator *)
(* states, those made again from the first states, and whether there are   *)
(* enough of them for every optional choice to have gone either way.       *)
(***************************************************************************)
EXTENDS VRP, Json, IOUtils, TLC

CONSTANT NCHUNK

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)

Bad(cond, name) == IF cond THEN {} ELSE {name}

PlanBad(d, plan) ==
  UNION { RouteErrors(d, plan[k].v, plan[k].acts) : k \in 1 .. Len(plan) }
  \cup PlanErrors(d, plan)
  \cup Bad(MissingClients(d, plan) = 0, "missing-client")
  \cup Bad(MissingShips(d, plan) = 0, "missing-shipment")
  \cup Bad(MissingGroups(d, plan) = 0, "missing-group")

\* Everything that can be left out is left out at times, and all that may be
\* visited is visited at times; likewise for the vehicle types.
Varied(d, plans) ==
  LET N == 1 .. Len(plans)
      C == [n \in N |-> VisitedClients(plans[n])]
      S == [n \in N |-> VisitedShips(plans[n])]
  IN  UNION { Bad(\E n \in N : i \in C[n], "client-never-visited")
              \cup Bad(Client(d, i).req \/ (Client(d, i).grp >= 0
                       /\ Len(d.groups[Client(d, i).grp + 1].cl) = 1
                       /\ d.groups[Client(d, i).grp + 1].req)
                       \/ \E n \in N : i \notin C[n], "optional-client-always-visited")
              : i \in 0 .. NumClients(d) - 1 }
      \cup UNION { Bad(\E n \in N : i \in S[n], "shipment-never-visited")
              \cup Bad(Ship(d, i).req \/ \E n \in N : i \notin S[n],
                       "optional-shipment-always-visited")
              : i \in 0 .. NumShips(d) - 1 }
      \cup UNION { Bad(d.groups[g].req \/ \E n \in N : GroupCount(d, plans[n], d.groups[g]) = 0,
                       "optional-group-always-visited") : g \in 1 .. Len(d.groups) }

Verdict(c) ==
  IF "exc" \in DOMAIN c THEN {"unexpected-exception"} ELSE
  UNION { PlanBad(c.d, c.plans[n]) : n \in 1 .. Len(c.plans) }
  \cup (IF c.many THEN Varied(c.d, c.plans) ELSE {})
  \cup Bad(c.again = SubSeq(c.plans, 1, Len(c.again)), "not-determined-by-state")

VARIABLES lane, pos
INSTANCE Batch
=============================================================================
