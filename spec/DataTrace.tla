------------------------------ MODULE DataTrace ------------------------------
(* Judges recorded constructions of data objects.                             *)
EXTENDS Data, Json, IOUtils, TLC
CONSTANT NCHUNK

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
Bad(cond, name) == IF cond THEN {} ELSE {name}

\* Overrides the fields of a that r gives.
Over(a, r) == [f \in DOMAIN a |-> IF f \in DOMAIN r THEN r[f] ELSE a[f]]

Judge(c, valid, norm) ==
  IF c.ok # valid THEN {c.kind \o "-accepted"}
  ELSE IF c.ok THEN Bad(c.obs = norm, c.kind \o "-reports") ELSE {}

GroupObs(a) == [cl |-> a.cl, req |-> a.req, name |-> a.name, it |-> a.cl, len |-> Len(a.cl), mx |-> TRUE]

\* additions to a group, one by one
GroupSteps(a, adds) ==
  FoldLeft(LAMBDA st, x : IF \E k \in 1 .. Len(st.cl) : st.cl[k] = x THEN [st EXCEPT !.oks = Append(@, FALSE)]
                          ELSE [cl |-> Append(st.cl, x), oks |-> Append(st.oks, TRUE)],
           [cl |-> a.cl, oks |-> <<>>], adds)

VehReplace(c) ==
  LET old == NormVeh(c.a)
      base == [Over(c.a, old) EXCEPT !.sl = TRUE]
      new == Over(base, c.r)
  IN  Bad(c.before = old, "veh-reports")
      \cup (IF c.ok # ValidVeh(new) THEN {"veh-replace-accepted"}
            ELSE IF c.ok THEN Bad(c.obs = NormVeh(new), "veh-replace") ELSE {})
      \cup Bad(c.after = old, "veh-replace-changes-original")

DataOk(c) ==
  IF c.ok # ValidData(c.x) THEN {"data-accepted"}
  ELSE IF c.ok THEN Bad(Reports(c.x, c.obs), "data-reports")
                    \cup Bad(c.again = c.obs, "data-changed-through-arguments") ELSE {}

DataReplace(c) ==
  LET new == Over(c.x, c.r)
  IN  IF c.ok # ValidData(new) THEN {"data-replace-accepted"}
      ELSE (IF c.ok THEN Bad(Reports(new, c.obs), "data-replace") ELSE {})
           \cup Bad(Reports(c.x, c.after), "data-replace-changes-original")

Verdict(c) ==
  IF "exc" \in DOMAIN c THEN {"unexpected-exception"}
  ELSE CASE c.kind = "client" -> Judge(c, ValidClient(c.a), NormClient(c.a))
         [] c.kind = "depot" -> Judge(c, ValidDepot(c.a), c.a)
         [] c.kind = "step" -> Judge(c, ValidStep(c.a), c.a)
         [] c.kind = "ship" -> Judge(c, ValidShip(c.a), c.a)
         [] c.kind = "veh" -> Judge(c, ValidVeh(c.a), NormVeh(c.a))
         [] c.kind = "loc" -> Judge(c, TRUE, c.a)
         [] c.kind = "group" -> Judge(c, ValidGroup(c.a), GroupObs(c.a))
         [] c.kind = "groupadd" ->
              LET st == GroupSteps(c.a, c.adds)
              IN  Bad(c.oks = st.oks, "group-add-accepted")
                  \cup Bad(c.obs = GroupObs([c.a EXCEPT !.cl = st.cl]), "group-add")
         [] c.kind = "vehreplace" -> VehReplace(c)
         [] c.kind = "data" -> DataOk(c)
         [] c.kind = "datareplace" -> DataReplace(c)

VARIABLES lane, pos
INSTANCE Batch
=============================================================================
