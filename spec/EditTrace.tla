----------------------------- MODULE EditTrace -----------------------------
(***************************************************************************)
(* Judges recorded edit histories of real search routes: after each edit   *)
(* the routes' listings, and after each update everything a route reports, *)
(* including its prefixes, suffixes and ranges.                            *)
(***************************************************************************)
EXTENDS EditRoutes, Segments, Json, IOUtils, TLC
CONSTANT NCHUNK

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
Bad(cond, name) == IF cond THEN {} ELSE {name}

\* Routes after the first n operations.
RECURSIVE StateAfter(_, _)
StateAfter(c, n) ==
  IF n = 0 THEN [r \in 1 .. Len(c.vehs) |-> [v |-> c.vehs[r], nodes |-> <<>>]]
  ELSE Apply(c.d, StateAfter(c, n - 1), c.ops[n])

Span(r, acts) == 1 .. Len(acts) + 2

DistRange(d, prof, full, i, j) ==
  Sum([k \in 1 .. j - i |->
         d.dist[prof + 1][Loc(d, full[i + k - 1]) + 1][Loc(d, full[i + k]) + 1]])

LView(s, cap) == [ init |-> s.init, delta |-> s.delta, inc |-> s.inc,
                   load |-> LLoad(s), excess |-> LExcess(s, cap) ]

QueryOk(d, v, full, q) ==
  LET veh == Veh(d, v)
      L(m, s) == LView(s, veh.cap[m])
      i == q.i + 1
      j == q.j + 1
      D == Dims(d)
  IN  CASE q.q = "before" ->
             Bad(q.dist = DistRange(d, veh.prof, full, 1, j), "dist-before")
             \cup Bad(q.dur = DView(DBefore(d, v, full, j)), "duration-before")
             \cup Bad(q.load = [m \in D |-> L(m, LBefore(d, v, full, m, j))], "load-before")
        [] q.q = "after" ->
             Bad(q.dist = DistRange(d, veh.prof, full, i, Len(full)), "dist-after")
             \cup Bad(q.dur = DView(DAfter(d, v, full, i)), "duration-after")
             \cup Bad(q.load = [m \in D |-> L(m, LAfter(d, v, full, m, i))], "load-after")
        [] q.q = "between" ->
             Bad(q.dist = DistRange(d, q.prof, full, i, j), "dist-between")
             \cup Bad(q.dur = DView(DRange(d, v, q.prof, full, i, j)), "duration-between")
             \cup Bad(q.load = [m \in D |-> L(m, LRange(d, v, full, m, i, j))], "load-between")
        [] q.q = "at" ->
             Bad(q.dist = 0, "dist-at")
             \cup Bad(q.dur = DView(DAt(d, v, full, i)), "duration-at")
             \cup Bad(q.load = [m \in D |-> L(m, LAt(d, v, full, m, i))], "load-at")

StatsOk(d, v, acts, o) ==
  LET te == TimeEval(d, v, acts)
      veh == Veh(d, v)
      ts == Trips(acts)
      full == Full(d, v, acts)
  IN  Bad(o.distance = Distance(d, v, acts), "distance")
      \cup Bad(o.excessDist = ExcessDistance(d, v, acts), "excess-distance")
      \cup Bad(o.distCost = DistanceCost(d, v, acts), "distance-cost")
      \cup Bad(o.duration = te.duration, "duration")
      \cup Bad(o.overtime = te.overtime, "overtime")
      \cup Bad(o.durCost = DurationCost(d, v, te), "duration-cost")
      \cup Bad(o.timeWarp = te.timeWarp, "time-warp")
      \cup Bad(o.load = [k \in Dims(d) |->
                 Sum([j \in 1 .. Len(ts) |-> TripPeak(d, ts[j], k, IF j = 1 THEN veh.init[k] ELSE 0)])],
               "load")
      \cup Bad(o.excessLoad = [k \in Dims(d) |-> ExcessLoad(d, v, acts, k)], "excess-load")
      \cup Bad(o.feas = RouteFeasible(d, v, acts, te), "feasible")
      \cup Bad(o.hasTw = (te.timeWarp > 0) /\ o.hasEd = (ExcessDistance(d, v, acts) > 0)
               /\ o.hasEl = (\E k \in Dims(d) : ExcessLoad(d, v, acts, k) > 0), "has-violations")
      \cup Bad(o.nCli = CountIn(acts, LAMBDA a : a.t = "C"), "num-clients")
      \cup Bad(o.nPick = CountIn(acts, LAMBDA a : a.t = "P"), "num-pickups")
      \cup Bad(o.nTrips = NumTrips(acts), "num-trips")
      \cup Bad(o.nDep = NumTrips(acts) + 1, "num-depots")
      \cup Bad(o.len = Len(acts) + 2, "len")
      \cup Bad(o.maxTrips = Norm(MaxTrips(veh)), "max-trips")
      \cup Bad(o.v = v /\ o.fixed = veh.fixed /\ o.prof = veh.prof /\ o.cap = veh.cap
               /\ o.s = veh.s /\ o.e = veh.e, "vehicle")
      \cup UNION { QueryOk(d, v, full, o.qs[k]) : k \in 1 .. Len(o.qs) }

StepOk(c, n) ==
  LET before == StateAfter(c, n - 1)
      o == c.ops[n]
      after == Apply(c.d, before, o)
  IN  Bad(o.ok = (o.op \notin {"insert", "append"} \/ CanInsert(c.d, before[o.r], o.x)),
          "accepted")
      \cup Bad(o.lists = [r \in 1 .. Len(after) |-> Listing(c.d, after, r)], "listing")
      \cup Bad(o.where = [k \in 1 .. Len(c.nodes) |-> Where(after, k - 1)], "node-place")
      \cup IF o.op # "update" THEN {}
           ELSE StatsOk(c.d, after[o.r].v, Acts(after[o.r]), o.stats)

Verdict(c) ==
  IF "exc" \in DOMAIN c THEN {"unexpected-exception"}
  ELSE UNION { StepOk(c, n) : n \in 1 .. Len(c.ops) }

VARIABLES lane, pos
INSTANCE Batch
=============================================================================
