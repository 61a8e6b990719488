------------------------------- MODULE Plots -------------------------------
(***************************************************************************)
(* What the plots show, as functions of what is plotted.  A picture is     *)
(* what can be seen of it: points, lines through points, bars, arrows, and *)
(* filled areas.  The i-th location lies at XY(i).                         *)
(***************************************************************************)
EXTENDS VRP

XY(l) == <<3 * l, 7 * l>>
At(d, a) == XY(Loc(d, a))

Count(s, x) == Cardinality({ k \in 1 .. Len(s) : s[k] = x })
SameBag(s, t) == Len(s) = Len(t) /\ \A k \in 1 .. Len(s) : Count(s, s[k]) = Count(t, s[k])

\* s applied to each element, one after the other.
FlatMap(s, f(_)) == FoldLeft(LAMBDA acc, x : acc \o f(x), <<>>, s)

(***************************************************************************)
(* Instances.                                                              *)
(***************************************************************************)
DepotDots(d) == [k \in 1 .. Len(d.depots) |-> XY(d.depots[k].loc)]
ClientDots(d) == [k \in 1 .. Len(d.clients) |-> XY(d.clients[k].loc)]
PickupDots(d) == [k \in 1 .. Len(d.ships) |-> XY(d.ships[k].p.loc)]
DeliveryDots(d) == [k \in 1 .. Len(d.ships) |-> XY(d.ships[k].d.loc)]

\* Bars from left to right.
Demands(d, k) == SortSeq([j \in 1 .. Len(d.clients) |-> d.clients[j].dlv[k]], LAMBDA x, y : x < y)
Windows(d) ==
  SortSeq([j \in 1 .. Len(d.clients) |-> <<d.clients[j].early, d.clients[j].late>>],
          LAMBDA x, y : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]))

(***************************************************************************)
(* Solutions: of each trip that has visits, a line through them, a line to *)
(* the depot where it ends, and an arrow from where it starts.             *)
(***************************************************************************)
TripsOf(d, r) ==
  LET full == Full(d, r.v, r.acts)
      D == { k \in 1 .. Len(full) : full[k].t = "D" }
      NextD(k) == CHOOSE j \in D : j > k /\ \A m \in D : m > k => m >= j
      ks == SetToSortSeq(D \ {Len(full)}, <)
  IN  [n \in 1 .. Len(ks) |-> [from |-> At(d, full[ks[n]]), to |-> At(d, full[NextD(ks[n])]),
                               via |-> [m \in 1 .. NextD(ks[n]) - ks[n] - 1 |-> At(d, full[ks[n] + m])]]]

Visiting(d, plan) ==
  SelectSeq(FlatMap(plan, LAMBDA r : TripsOf(d, r)), LAMBDA t : Len(t.via) > 0)

SolutionLines(d, plan) ==
  FlatMap(Visiting(d, plan),
          LAMBDA t : (IF Len(t.via) > 1 THEN <<t.via>> ELSE <<>>) \o << <<t.via[Len(t.via)], t.to>> >>)
SolutionArrows(d, plan) ==
  FlatMap(Visiting(d, plan), LAMBDA t : << <<t.from, t.via[1]>> >>)
RouteDots(d, r, all) ==
  FlatMap(TripsOf(d, r), LAMBDA t : IF all \/ Len(t.via) = 1 THEN t.via ELSE <<>>)
UnplannedDots(d, plan) ==
  LET s == SetToSeq(Unplanned(d, plan)) IN [k \in 1 .. Len(s) |-> At(d, s[k])]

(***************************************************************************)
(* Route schedules: three points for each activity, on arrival, when it    *)
(* starts, and when it ends, against the distance travelled.  The schedule *)
(* itself is given; [act, start, end, wait, warp, dur] for each activity.  *)
(***************************************************************************)
Travelled(d, v, full, k, Leg(_, _)) ==
  Sum([j \in 1 .. k - 1 |-> Leg(Loc(d, full[j]), Loc(d, full[j + 1]))])

\* On board when the k-th activity is reached, and when it was done.
Boarded(d, v, full, dim) ==
  LET TripStart(k) ==  \* what the trip that starts at k delivers
        LET ends == { j \in k + 1 .. Len(full) : full[j].t = "D" }
            last == CHOOSE j \in ends : \A m \in ends : m >= j
        IN  Sum([j \in 1 .. last - k - 1 |->
                   IF full[k + j].t = "C" THEN Client(d, full[k + j].i).dlv[dim] ELSE 0])
      first == Veh(d, v).init[dim] + TripStart(1)
  IN  FoldLeft(LAMBDA acc, k :
        LET before == IF k = 1 THEN first ELSE acc[Len(acc)][2]
            after == IF k = 1 \/ k = Len(full) THEN before
                     ELSE IF full[k].t = "D" THEN TripStart(k)
                     ELSE before + LoadChange(d, full[k], dim)
        IN  Append(acc, <<before, after>>),
        <<>>, [k \in 1 .. Len(full) |-> k])

ScheduleLines(d, v, full, sched, dim) ==
  LET N == 1 .. Len(full)
      ks == [k \in N |-> k]
      x == [k \in N |-> Travelled(d, v, full, k, LAMBDA i, j : Dist(d, v, i, j))]
      drive == [k \in N |-> Travelled(d, v, full, k, LAMBDA i, j : Dur(d, v, i, j))]
      served == [k \in N |-> Sum([j \in 1 .. k - 1 |-> sched[j].dur])]
      load == IF dim = 0 THEN <<>> ELSE Boarded(d, v, full, dim)
  IN  [ time |-> FlatMap(ks, LAMBDA k : << <<x[k], sched[k].start - sched[k].wait>>,
                                           <<x[k], sched[k].start>>, <<x[k], sched[k].end>> >>),
        drive |-> FlatMap(ks, LAMBDA k : << <<x[k], drive[k]>>, <<x[k], drive[k]>>, <<x[k], drive[k]>> >>),
        busy |-> FlatMap(ks, LAMBDA k : << <<x[k], drive[k] + served[k]>>, <<x[k], drive[k] + served[k]>>,
                                           <<x[k], drive[k] + served[k] + sched[k].dur>> >>),
        windows |-> [k \in N |-> << <<x[k], Site(d, full[k]).early>>, <<x[k], Site(d, full[k]).late>> >>],
        warps |-> FlatMap(ks, LAMBDA k :
                    IF sched[k].warp > 0
                    THEN << << <<x[k], sched[k].start + sched[k].warp>>, <<x[k], Site(d, full[k]).late>> >> >>
                    ELSE <<>>),
        load |-> IF dim = 0 THEN <<>>
                 ELSE FlatMap(ks, LAMBDA k : << <<x[k], load[k][1]>>, <<x[k], load[k][2]>>,
                                                <<x[k], load[k][2]>> >>) ]

(***************************************************************************)
(* Runs: one point per iteration that is not skipped.                      *)
(***************************************************************************)
Skipped(n, skip) == IF skip < 0 THEN n \div 20 ELSE IF skip > n THEN n ELSE skip
Curve(ys, skip) == [k \in 1 .. Len(ys) - skip |-> <<skip + k, ys[skip + k]>>]
=============================================================================
