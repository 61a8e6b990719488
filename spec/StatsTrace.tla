----------------------------- MODULE StatsTrace -----------------------------
(* Judges recorded statistics, their files, and results (C21).              *)
EXTENDS Stats, Json, IOUtils, TLC
CONSTANT NCHUNK

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
Bad(cond, name) == IF cond THEN {} ELSE {name}

Costs(r) == <<r.cc, r.dc, r.bc>>
Flags(r) == <<r.cf, r.df, r.bf>>

\* [d, plans, pens, on, t0, calls, obs, file, back]
StatsCase(c) ==
  LET d == c.d
      tes == [k \in 1 .. Len(c.plans) |-> TimeEvals(d, c.plans[k])]
      seen == [k \in 1 .. Len(c.plans) |-> [j \in 1 .. Len(c.pens) |->
                  Seen(d, c.plans[k], tes[k], c.pens[j])]]
      step(s, x) == StatsCollect(s, seen[x.cur][x.pen], seen[x.cand][x.pen], seen[x.best][x.pen], x.t)
      s == FoldLeft(step, StatsNew(c.on, c.t0), c.calls)
      o == c.obs
  IN  Bad(o.on = c.on, "is-collecting")
      \cup Bad(o.n = Len(s.rows), "num-iterations")
      \cup Bad(o.rows = s.rows, "rows")
      \cup Bad(o.iter = s.rows, "iteration")
      \cup Bad(o.times = s.times, "runtimes")
      \cup (IF ~c.on THEN {} ELSE
            Bad(c.file.header = Header, "file-header")
            \cup Bad(Len(c.file.lines) = Len(s.rows), "file-lines")
            \cup UNION { LET l == c.file.lines[k] IN
                         Bad(/\ <<l[2], l[4], l[6]>> = [j \in 1 .. 3 |-> ToString(Costs(s.rows[k])[j])]
                             /\ <<l[3], l[5], l[7]>> = [j \in 1 .. 3 |-> Flag(Flags(s.rows[k])[j])]
                             /\ c.file.times[k] = s.times[k], "file-line")
                         : k \in 1 .. Len(c.file.lines) \cap 1 .. Len(s.rows) }
            \cup Bad(c.back.eq /\ c.back.qe, "read-back-unequal")
            \cup Bad(c.back.n = Len(s.rows) /\ c.back.rows = s.rows /\ c.back.times = s.times
                     /\ c.back.on, "read-back"))
      \cup Bad(c.same = (c.on => c.calls2 = c.calls), "equality")

\* [kind, d, plan, n, ok, cost, feas, sum, text]: a result, and its summary.
ResultCase(c) ==
  IF c.ok # (c.n >= 0 /\ c.rt >= 0) THEN {"result-accepted"} ELSE IF ~c.ok THEN {} ELSE
  LET d == c.d
      plan == c.plan
      R == 1 .. Len(plan)
      tes == TimeEvals(d, plan)
      feas == Feasible(d, plan, tes)
      cost == PenCost(d, plan, tes, Free(d))
      tot(F(_)) == ToString(Sum([k \in R |-> F(k)]))
      s == c.sum
  IN  Bad(c.feas = feas, "result-feasible")
      \cup Bad(c.cost = (IF feas THEN ToString(cost) ELSE "inf"), "result-cost")
      \cup Bad(/\ s.routes = ToString(Len(plan))
               /\ s.trips = tot(LAMBDA k : NumTrips(plan[k].acts))
               /\ s.clients = ToString(Cardinality(VisitedClients(plan)))
               /\ s.ships = ToString(Cardinality(VisitedShips(plan)))
               /\ s.obj = (IF feas THEN ToString(cost) ELSE "INFEASIBLE")
               /\ s.dist = tot(LAMBDA k : Distance(d, plan[k].v, plan[k].acts))
               /\ s.dur = tot(LAMBDA k : tes[k].duration)
               /\ s.iters = ToString(c.n)
               /\ s.time = c.rtText, "summary")
      \cup Bad(c.lines = [k \in R |-> [j \in 1 .. Len(plan[k].acts) |->
                  LET a == plan[k].acts[j] IN
                  CASE a.t = "D" -> "|" [] a.t = "C" -> "C" \o ToString(a.i)
                    [] a.t = "P" -> "L" \o ToString(a.i) [] a.t = "L" -> "U" \o ToString(a.i)]],
               "routes-text")

Verdict(c) ==
  IF "exc" \in DOMAIN c THEN {"unexpected-exception"}
  ELSE IF c.kind = "stats" THEN StatsCase(c)
  ELSE IF c.kind = "result" THEN ResultCase(c)
  ELSE IF c.kind = "big" THEN   \* costs beyond TLC's integers: as texts
    Bad(c.rows = c.want, "rows") \cup Bad(c.file = c.want, "file-line")
    \cup Bad(c.back = c.want /\ c.eq, "read-back-unequal")
  ELSE Bad(c.eq /\ c.n = c.m, "run-read-back-unequal")

VARIABLES lane, pos
INSTANCE Batch
=============================================================================
