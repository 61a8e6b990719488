----------------------------- MODULE RouteTrace -----------------------------
(***************************************************************************)
(* Judges recorded evaluations of real Route and Solution objects against  *)
(* VRP.tla.  A case is [d, plan, routes, sol, pen, ...]: the instance, the *)
(* plan handed to the real constructors, and everything observed.          *)
(***************************************************************************)
EXTENDS VRP, Json, IOUtils, TLC

CONSTANT NCHUNK

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
Prop == IOEnv.PROP

Bad(cond, name) == IF cond THEN {} ELSE {name}

\* ---- C01: timing and schedule ----------------------------------------
SchedOk(d, v, acts, te, o) ==
  LET stops == Stops(d, v, acts) IN
  IF Len(o.sched) # Len(stops) THEN {"schedule-length"} ELSE
  UNION { LET s == stops[k]
              x == te.table[k]
              y == o.sched[k]
          IN  Bad(y.t = s.t /\ y.i = s.i, "schedule-activity")
              \cup Bad(y.trip = s.trip, "schedule-trip")
              \cup Bad(y.start = x.begin, "schedule-start")
              \cup Bad(y.end = x.done, "schedule-end")
              \cup Bad(y.dur = s.serv, "schedule-duration")
              \* Waiting for a release beyond the depot's closing time, or for the
              \* depot to open after warping back to the latest shift start, may
              \* be reported net of the warp.
              \cup IF s.rel > s.late \/ (x.wait > 0 /\ x.tw > 0)
                   THEN Bad(y.wait - y.tw = x.wait - x.tw, "schedule-net-wait")
                   ELSE Bad(y.wait = x.wait, "schedule-wait")
                        \cup Bad(y.tw = x.tw, "schedule-time-warp")
        : k \in 1 .. Len(stops) }

TimingOk(d, v, acts, te, o) ==
  Bad(o.duration = te.duration, "duration")
  \cup Bad(o.timeWarp = te.timeWarp, "time-warp")
  \cup Bad(o.hasTw = (te.timeWarp > 0), "has-time-warp")
  \cup Bad(o.overtime = te.overtime, "overtime")
  \cup Bad(o.start = te.start, "start-time")
  \cup Bad(o.end = te.start + te.duration - te.timeWarp, "end-time")
  \cup Bad(o.slack = Norm(te.slack), "slack")
  \cup Bad(o.release = te.release, "release-time")
  \cup Bad(o.travel = Travel(d, v, acts), "travel-duration")
  \cup Bad(o.service = Service(d, v, acts), "service-duration")
  \cup Bad(o.wait = te.wait, "wait-duration")
  \cup Bad(te.contiguous, "spec-contiguous")
  \cup SchedOk(d, v, acts, te, o)

\* ---- C02: load --------------------------------------------------------
LoadOk(d, v, acts, o) ==
  Bad(o.delivery = [k \in Dims(d) |-> Delivery(d, v, acts, k)], "delivery")
  \cup Bad(o.pickup = [k \in Dims(d) |-> Pickup(d, v, acts, k)], "pickup")
  \cup Bad(o.excessLoad = [k \in Dims(d) |-> ExcessLoad(d, v, acts, k)], "excess-load")
  \cup Bad(o.hasEl = (\E k \in Dims(d) : ExcessLoad(d, v, acts, k) > 0), "has-excess-load")

\* ---- C03: distance, cost components, counts ---------------------------
DistOk(d, v, acts, te, o) ==
  Bad(o.distance = Distance(d, v, acts), "distance")
  \cup Bad(o.distCost = DistanceCost(d, v, acts), "distance-cost")
  \cup Bad(o.excessDist = ExcessDistance(d, v, acts), "excess-distance")
  \cup Bad(o.hasEd = (ExcessDistance(d, v, acts) > 0), "has-excess-distance")
  \cup Bad(o.durCost = DurationCost(d, v, te), "duration-cost")
  \cup Bad(o.fixed = Veh(d, v).fixed, "fixed-cost")
  \cup Bad(o.prizes = RoutePrizes(d, acts), "prizes")
  \cup Bad(o.nCli = CountIn(acts, LAMBDA a : a.t = "C"), "num-clients")
  \cup Bad(o.nShip = CountIn(acts, LAMBDA a : a.t = "P"), "num-shipments")
  \cup Bad(o.nTrips = NumTrips(acts), "num-trips")
  \cup Bad(o.nDep = NumTrips(acts) + 1, "num-depots")
  \cup Bad(o.len = Len(acts) + 2, "len")
  \cup Bad(o.v = v, "vehicle-type")
  \cup Bad(o.s = Veh(d, v).s /\ o.e = Veh(d, v).e, "depots")
  \cup Bad(o.feas = RouteFeasible(d, v, acts, te), "route-feasible")

\* ---- C05: solution aggregates -----------------------------------------
ActOf(x) == [t |-> x.t, i |-> x.i]
SolOk(c, d, plan, tes) ==
  LET o == c.sol
      R == 1 .. Len(plan)
      S(F(_)) == Sum([k \in R |-> F(k)])
      feas == Feasible(d, plan, tes)
      el == [m \in Dims(d) |-> S(LAMBDA k : ExcessLoad(d, plan[k].v, plan[k].acts, m))]
      ed == S(LAMBDA k : ExcessDistance(d, plan[k].v, plan[k].acts))
      tw == S(LAMBDA k : tes[k].timeWarp)
  IN  Bad(o.distance = S(LAMBDA k : Distance(d, plan[k].v, plan[k].acts)), "distance")
      \cup Bad(o.distCost = S(LAMBDA k : DistanceCost(d, plan[k].v, plan[k].acts)), "distance-cost")
      \cup Bad(o.duration = S(LAMBDA k : tes[k].duration), "duration")
      \cup Bad(o.overtime = S(LAMBDA k : tes[k].overtime), "overtime")
      \cup Bad(o.durCost = S(LAMBDA k : DurationCost(d, plan[k].v, tes[k])), "duration-cost")
      \cup Bad(o.timeWarp = tw, "time-warp")
      \cup Bad(o.excessDist = ed, "excess-distance")
      \cup Bad(o.excessLoad = el, "excess-load")
      \cup Bad(o.hasTw = (tw > 0) /\ o.hasEd = (ed > 0)
               /\ o.hasEl = (\E m \in Dims(d) : el[m] > 0), "has-violations")
      \cup Bad(o.fixed = S(LAMBDA k : Veh(d, plan[k].v).fixed), "fixed-cost")
      \cup Bad(o.prizes = S(LAMBDA k : RoutePrizes(d, plan[k].acts)), "prizes")
      \cup Bad(o.uncollected = UncollectedPrizes(d, plan), "uncollected-prizes")
      \cup Bad(o.nRoutes = Len(plan), "num-routes")
      \cup Bad(o.nTrips = S(LAMBDA k : NumTrips(plan[k].acts)), "num-trips")
      \cup Bad(o.nCli = Cardinality(VisitedClients(plan)), "num-clients")
      \cup Bad(o.nShip = Cardinality(VisitedShips(plan)), "num-shipments")
      \cup Bad(o.missCli = MissingClients(d, plan), "missing-clients")
      \cup Bad(o.missGrp = MissingGroups(d, plan), "missing-groups")
      \cup Bad(o.missShip = MissingShips(d, plan), "missing-shipments")
      \cup Bad(o.complete = Complete(d, plan), "complete")
      \cup Bad(o.feas = feas, "feasible")
      \cup Bad(/\ { ActOf(o.unplanned[k]) : k \in 1 .. Len(o.unplanned) } = Unplanned(d, plan)
               /\ Len(o.unplanned) = Cardinality(Unplanned(d, plan)), "unplanned")
      \cup Bad([k \in R |-> [v |-> plan[k].v, acts |-> plan[k].acts]]
               = [k \in 1 .. Len(o.routes) |-> [v |-> o.routes[k].v, acts |-> o.routes[k].acts]],
               "routes")

\* ---- C06: objective ---------------------------------------------------
CostOk(c, d, plan, tes) ==
  LET J == 1 .. Len(c.pens)
  IN  UNION { LET p == c.pens[j]
                  pc == PenCost(d, plan, tes, p)
              IN  Bad(p.penCost = pc, "penalised-cost")
                  \cup Bad(p.cost = (IF Feasible(d, plan, tes) THEN pc ELSE INF), "cost")
                  \cup UNION { LET q == p.load_q[k]
                               IN Bad(q.out = PenTerm(p.load[q.dim + 1], Pos(q.load - q.cap)),
                                      "load-penalty") : k \in 1 .. Len(p.load_q) }
                  \cup UNION { LET q == p.tw_q[k] IN Bad(q.out = PenTerm(p.tw, q.tw), "tw-penalty")
                               : k \in 1 .. Len(p.tw_q) }
                  \cup UNION { LET q == p.dist_q[k]
                               IN Bad(q.out = PenTerm(p.dist, Pos(q.dist - q.max)), "dist-penalty")
                               : k \in 1 .. Len(p.dist_q) }
            : j \in J }

\* ---- C04: accepted plans ----------------------------------------------
\* attempts on routes: [v, acts, ok]; attempts on solutions: [plan, ok]
AcceptOk(c, d) ==
  UNION { LET r == c.rtry[k]
          IN  Bad(r.ok = (RouteErrors(d, r.v, r.acts) = {}),
                  IF r.ok THEN "accepted-invalid-route" ELSE "rejected-valid-route")
        : k \in 1 .. Len(c.rtry) }
  \cup
  UNION { LET s == c.stry[k]
          IN  Bad(s.ok = (PlanErrors(d, s.plan) = {}),
                  IF s.ok THEN "accepted-invalid-solution" ELSE "rejected-valid-solution")
        : k \in 1 .. Len(c.stry) }

Verdict(c) ==
  IF "exc" \in DOMAIN c THEN {"unexpected-exception"} ELSE
  LET d == c.d IN
  IF Prop = "C04" THEN AcceptOk(c, d) ELSE
  LET plan == c.plan
      tes == TimeEvals(d, plan)
      R == 1 .. Len(plan)
  IN  CASE Prop = "C01" -> UNION { TimingOk(d, plan[k].v, plan[k].acts, tes[k], c.routes[k]) : k \in R }
        [] Prop = "C02" -> UNION { LoadOk(d, plan[k].v, plan[k].acts, c.routes[k]) : k \in R }
        [] Prop = "C03" -> UNION { DistOk(d, plan[k].v, plan[k].acts, tes[k], c.routes[k]) : k \in R }
        [] Prop = "C05" -> IF c.solved THEN SolOk(c, d, plan, tes) ELSE {}
        [] Prop = "C06" -> IF c.solved THEN CostOk(c, d, plan, tes) ELSE {}

VARIABLES lane, pos
INSTANCE Batch
=============================================================================
