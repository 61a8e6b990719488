------------------------------ MODULE SegTrace ------------------------------
(***************************************************************************)
(* Judges recorded concatenations of real duration and load segments.      *)
(* Whole routes are judged against driving them (VRP.tla), parts of trips  *)
(* and arbitrary segments against the segment algebra (Segments.tla).      *)
(***************************************************************************)
EXTENDS Segments, Json, IOUtils, TLC
CONSTANT NCHUNK

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
Bad(cond, name) == IF cond THEN {} ELSE {name}

CutOk(d, v, acts, te, x) ==
  Bad(x.view.duration = te.duration, "cut-duration")
  \cup UNION { Bad(x.tws[k].tw = te.warp + Pos(te.duration - te.warp - x.tws[k].max), "cut-time-warp")
               : k \in 1 .. Len(x.tws) }
  \cup IF x.trip # 0 THEN {} ELSE
         Bad(x.view.startEarly = te.start, "cut-start")
         \cup Bad(x.view.slack = Norm(te.slack), "cut-slack")
         \cup Bad(x.view.release = te.release, "cut-release")
         \cup Bad(x.view.endEarly = Norm(te.start + te.duration - te.warp), "cut-end")

LoadOk(d, v, acts, x) ==
  LET ts == Trips(acts)
      veh == Veh(d, v)
      k == x.dim
      Peak(j) == TripPeak(d, ts[j], k, IF j = 1 THEN veh.init[k] ELSE 0)
      others == Sum([j \in 1 .. Len(ts) |-> IF j = x.trip + 1 THEN 0 ELSE Pos(Peak(j) - veh.cap[k])])
  IN  Bad(x.load = Peak(x.trip + 1), "load")
      \cup Bad(x.excess = ExcessLoad(d, v, acts, k), "excess-load")
      \cup UNION { Bad(x.caps[j].excess = others + Pos(Peak(x.trip + 1) - x.caps[j].cap),
                       "excess-load-cap") : j \in 1 .. Len(x.caps) }

Seg(r) == DSeg(r.dur, r.tw, r.early, r.late, r.rel, r.cdur, r.ctw, r.pel)
RawOk(r) ==
  LET a == Seg(r.a)
      m == DMerge(r.e, a, Seg(r.b))
  IN  Bad(r.va = DView(a), "raw-view")
      \cup Bad(r.vm = DView(m), "raw-merge")
      \cup Bad(r.vf = DView(DFront(a)), "raw-front")
      \cup Bad(r.vb = DView(DBack(a)), "raw-back")
      \cup Bad(r.twm = DTimeWarp(m, r.max), "raw-max-duration")

Verdict(c) ==
  IF "exc" \in DOMAIN c THEN {"unexpected-exception"} ELSE
  LET d == c.d IN
  UNION { LET r == c.routes[k]
              full == Full(d, r.v, r.acts)
              te == TimeEval(d, r.v, r.acts)
          IN  UNION { IF r.cuts[j].trip = 0 \/ Reachable(d, r.v, r.acts)
                      THEN CutOk(d, r.v, r.acts, te, r.cuts[j]) ELSE {}
                      : j \in 1 .. Len(r.cuts) }
              \cup UNION { LET p == r.parts[j]
                           IN  Bad(p.view = DView(DRange(d, r.v, Veh(d, r.v).prof, full, p.i, p.j)),
                                   "part-view") : j \in 1 .. Len(r.parts) }
              \cup UNION { LoadOk(d, r.v, r.acts, r.loads[j]) : j \in 1 .. Len(r.loads) }
        : k \in 1 .. Len(c.routes) }
  \cup UNION { RawOk(c.raws[k]) : k \in 1 .. Len(c.raws) }

VARIABLES lane, pos
INSTANCE Batch
=============================================================================
