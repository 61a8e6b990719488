---------------------------- MODULE PlotsTrace ----------------------------
(***************************************************************************)
(* Judges recorded pictures (C29).  Curves and dots come with the label    *)
(* that the legend shows for them; those without one have label "".        *)
(***************************************************************************)
EXTENDS Plots, Json, IOUtils, TLC
CONSTANT NCHUNK

Cases == ndJsonDeserialize(IOEnv.TRACE_FILE)
Bad(cond, name) == IF cond THEN {} ELSE {name}

\* All points with a label.
Labelled(s, label) == FlatMap(s, LAMBDA x : IF x.label = label THEN x.pts ELSE <<>>)
Dots(pic, label) == Labelled(pic.dots, label)
Lines(pic) == [k \in 1 .. Len(pic.lines) |-> pic.lines[k].pts]
Line(pic, label) == Labelled(pic.lines, label)

CoordsBad(c, d, pic) ==
  Bad(SameBag(Dots(pic, "Depot"), DepotDots(d)), "coordinates-depots")
  \cup Bad(SameBag(Dots(pic, "Clients"), ClientDots(d)), "coordinates-clients")
  \cup Bad(SameBag(Dots(pic, "Pickups"), PickupDots(d)), "coordinates-pickups")
  \cup Bad(SameBag(Dots(pic, "Deliveries"), DeliveryDots(d)), "coordinates-deliveries")

Heights(pic) == [k \in 1 .. Len(pic.bars) |-> pic.bars[k][2]]
DemandsBad(d, pic, dim) == Bad(Heights(pic) = Demands(d, dim), "demands")
WindowsBad(d, pic) ==
  Bad([k \in 1 .. Len(pic.bars) |-> <<pic.bars[k][1], pic.bars[k][2]>>]
        = [k \in 1 .. Len(d.clients) |-> <<Windows(d)[k][1], Norm(Windows(d)[k][2] - Windows(d)[k][1])>>],
      "time-windows")

SolutionBad(c, pic, all) ==
  Bad(SameBag(Lines(pic), SolutionLines(c.d, c.plan)), "solution-lines")
  \cup Bad(SameBag(pic.arrows, SolutionArrows(c.d, c.plan)), "solution-arrows")
  \cup Bad(SameBag(Dots(pic, "Depot"), DepotDots(c.d)), "solution-depots")
  \cup UNION { Bad(SameBag(Dots(pic, "Route " \o ToString(k)), RouteDots(c.d, c.plan[k], all)), "solution-dots")
               : k \in 1 .. Len(c.plan) }
  \cup Bad(SameBag(Dots(pic, "Unvisited"), IF all THEN UnplannedDots(c.d, c.plan) ELSE <<>>),
           "solution-unvisited")

\* An area, if there is to be one, is that between two curves.
Lift(pts, by) == [k \in 1 .. Len(pts) |-> <<pts[k][1], Norm(pts[k][2] + by)>>]
Between(area, one, other, there) ==
  IF there THEN area \in {<<one, other>>, <<other, one>>} ELSE area = <<>>

ScheduleBad(c) ==
  LET full == Full(c.d, c.v, c.acts)
      want == ScheduleLines(c.d, c.v, full, c.sched, IF c.dim < c.d.ndim THEN c.dim + 1 ELSE 0)
      pic == c.pic
      Segs(label) == FlatMap(pic.segs, LAMBDA x : IF x.label = label THEN <<x.pts>> ELSE <<>>)
  IN  IF Len(c.sched) # Len(full) THEN {"schedule-shape"}
      ELSE Bad(Line(pic, "Time (earliest)") = want.time, "schedule-time")
      \cup Bad(Line(pic, "Drive time") = want.drive, "schedule-drive")
      \cup Bad(Line(pic, "Drive + service time") = want.busy, "schedule-service")
      \cup Bad(SameBag(Segs("Time window"), want.windows), "schedule-windows")
      \cup Bad(SameBag(Segs("Time warp"), want.warps), "schedule-warps")
      \cup Bad(Between(c.load, Lift(want.load, 0), [k \in 1 .. Len(want.load) |-> <<want.load[k][1], 0>>],
                       want.load # <<>>), "schedule-load")
      \cup Bad(Between(c.slackfill, want.time, Lift(want.time, c.slack), c.slack > 0), "schedule-slack")

ObjectivesBad(c, pic, skip) ==
  LET s == Skipped(c.n, skip) IN
  Bad(Line(pic, "Current") = Curve(c.cur, s), "objectives-current")
  \cup Bad(Line(pic, "Candidate") = Curve(c.cand, s), "objectives-candidate")
  \cup Bad(Line(pic, "Best") = Curve(c.best, s), "objectives-best")

\* A line through the runtimes, and their trend, which is exact where the
\* runtimes are on a line.  It starts at the first iteration: where it is
\* known to be drawn one to the left is judged in one case only.
RuntimesBad(c, pic) ==
  LET want == Curve(c.times, 0)
      Shift(pts, by) == [k \in 1 .. Len(pts) |-> <<pts[k][1] + by, pts[k][2]>>]
      Trend(l) == /\ Len(l) = c.n
                  /\ \A k \in 1 .. c.n : l[k][1] - l[1][1] = k - 1
                  /\ l[1][1] \in IF "strict" \in DOMAIN c THEN {1} ELSE {0, 1}
                  /\ c.linear => Shift(l, 1 - l[1][1]) = want
      place == IF "strict" \in DOMAIN c THEN "trend-place" ELSE "runtimes-trend"
  IN  IF c.n <= 1 THEN Bad(Lines(pic) = <<want>>, "runtimes")
      ELSE Bad(\E k \in 1 .. Len(pic.lines) : Lines(pic)[k] = want, "runtimes")
           \cup Bad(Len(pic.lines) = 2 /\ \E k \in 1 .. 2 : Lines(pic)[k] = want /\ Trend(Lines(pic)[3 - k]),
                    place)

Verdict(c) ==
  IF "exc" \in DOMAIN c THEN {"unexpected-exception"}
  ELSE CASE c.kind = "coords" -> CoordsBad(c, c.d, c.pic)
         [] c.kind = "demands" -> DemandsBad(c.d, c.pic, c.dim + 1)
         [] c.kind = "windows" -> WindowsBad(c.d, c.pic)
         [] c.kind = "instance" ->
              CoordsBad(c, c.d, c.pics[3]) \cup DemandsBad(c.d, c.pics[2], 1) \cup WindowsBad(c.d, c.pics[1])
         [] c.kind = "solution" -> SolutionBad(c, c.pic, c.all)
         [] c.kind = "schedule" -> ScheduleBad(c)
         [] c.kind = "objectives" -> ObjectivesBad(c, c.pic, c.skip)
         [] c.kind = "runtimes" -> RuntimesBad(c, c.pic)
         [] c.kind = "result" -> ObjectivesBad(c, c.pics[1], -1) \cup RuntimesBad(c, c.pics[2])
                                 \cup SolutionBad(c, c.pics[3], FALSE)

VARIABLES lane, pos
INSTANCE Batch
=============================================================================
