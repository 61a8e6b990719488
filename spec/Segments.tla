------------------------------ MODULE Segments ------------------------------
(***************************************************************************)
(* The segment algebra: what a part of a route contributes to duration,    *)
(* time warp and load, and how parts concatenate.  MCSegments relates it   *)
(* to driving (VRP.tla).                                                   *)
(*                                                                         *)
(* A duration segment covers the last (first) part of zero or more         *)
(* complete trips, and one current trip:                                   *)
(*   dur, tw, early, late, rel : of the current trip                       *)
(*   cdur, ctw : of the completed trips;  pel : when they may end at last  *)
(***************************************************************************)
EXTENDS VRP

DSeg(dur, tw, early, late, rel, cdur, ctw, pel) ==
  [dur |-> dur, tw |-> tw, early |-> early, late |-> late, rel |-> rel,
   cdur |-> cdur, ctw |-> ctw, pel |-> pel]

DSite(s, serv) == DSeg(serv, 0, s.early, s.late, 0, 0, 0, INF)
DClient(c) == DSeg(c.serv, 0, c.early, c.late, c.rel, 0, 0, INF)
DWindow(early, late) == DSeg(0, 0, early, late, 0, 0, 0, INF)
DService(serv) == DSeg(serv, 0, 0, INF, 0, 0, 0, INF)

DMerge(edge, a, b) ==
  LET at == a.dur - a.tw + edge
      dtw == Pos(a.early + at - b.late)
      dwait == Pos(b.early - at - a.late)
      blate == IF b.late - at > INF THEN INF ELSE b.late - at
  IN  [ dur |-> a.dur + b.dur + edge + dwait,
        tw |-> a.tw + b.tw + dtw,
        early |-> Max2(a.early, b.early - at) - dwait,
        late |-> Min2(a.late, blate) + dtw,
        rel |-> Max2(a.rel, b.rel),
        cdur |-> a.cdur + b.cdur,
        ctw |-> a.ctw + b.ctw,
        pel |-> a.pel ]

DStartEarly(a) == Max2(a.early, a.rel)
DStartLate(a)  == Max2(a.late, a.rel)
DDuration(a)   == a.cdur + a.dur + Pos(DStartEarly(a) - a.pel)
DTimeWarp(a, maxDur) ==
  LET tw == a.ctw + a.tw + Pos(a.rel - a.late)
  IN  tw + Pos(DDuration(a) - tw - maxDur)
DNet(a) == (DDuration(a) - a.cdur) - (DTimeWarp(a, 2 * INF) - a.ctw)
DEndEarly(a) == DStartEarly(a) + DNet(a)
DEndLate(a)  == Min2(INF, DStartLate(a) + DNet(a))
DSlack(a) == Min2(DStartLate(a) - DStartEarly(a), Pos(a.pel - a.rel))

\* Close the current trip towards earlier trips.
DFront(a) ==
  DMerge(0, DWindow(DStartEarly(a), DStartLate(a)),
            DSeg(a.dur, a.tw, a.early, a.late, 0, 0, 0, INF))

\* Close the current trip towards later trips.
DBack(a) ==
  LET f == DMerge(0, DWindow(0, a.pel), DFront(a))
  IN  DSeg(0, 0, DEndEarly(f), INF, DEndEarly(f),
           a.cdur + DDuration(f), a.ctw + DTimeWarp(f, 2 * INF), DEndLate(f))

\* What can be observed of a segment.
DView(a) ==
  [ duration |-> DDuration(a), timeWarp |-> DTimeWarp(a, 2 * INF),
    startEarly |-> Norm(DStartEarly(a)), startLate |-> Norm(DStartLate(a)),
    endEarly |-> Norm(DEndEarly(a)), endLate |-> Norm(DEndLate(a)),
    release |-> Norm(a.rel), slack |-> Norm(DSlack(a)), prevEndLate |-> Norm(a.pel) ]

(***************************************************************************)
(* Load segments.                                                          *)
(***************************************************************************)
LSeg(init, delta, inc, exc) == [init |-> init, delta |-> delta, inc |-> inc, exc |-> exc]
LNone == LSeg(0, 0, 0, 0)
LMerge(a, b) ==
  [ init |-> a.init + b.init, delta |-> a.delta + b.delta,
    inc |-> Max2(a.inc, a.delta + b.inc), exc |-> a.exc + b.exc ]
LLoad(a) == a.init + a.inc
LExcess(a, cap) == a.exc + Pos(LLoad(a) - cap)
LFinal(a, cap) == LSeg(0, 0, 0, LExcess(a, cap))

LAct(d, a, k) ==
  CASE a.t = "C" -> LET c == Client(d, a.i)
                        dl == c.pck[k] - c.dlv[k]
                    IN  LSeg(c.dlv[k], dl, Pos(dl), 0)
    [] a.t = "P" -> LSeg(0, Ship(d, a.i).amt[k], Pos(Ship(d, a.i).amt[k]), 0)
    [] a.t = "L" -> LSeg(0, - Ship(d, a.i).amt[k], 0, 0)
    [] a.t = "D" -> LNone

(***************************************************************************)
(* Segments of the positions 1 .. n of a whole route (full includes the    *)
(* start and end depots), and of its prefixes, suffixes and ranges.        *)
(* Service at a reload depot belongs to the trip that leaves from it.      *)
(***************************************************************************)
IsReloadPos(full, k) == 1 < k /\ k < Len(full) /\ full[k].t = "D"

DAt(d, v, full, k) ==
  LET veh == Veh(d, v) s == Site(d, full[k])
  IN  CASE k = 1 -> DMerge(0, DWindow(veh.early, veh.slate), DSite(s, s.serv))
        [] k = Len(full) -> DMerge(0, DSite(s, 0), DWindow(veh.early, veh.late))
        [] OTHER -> CASE full[k].t = "D" -> DSite(s, 0)
                      [] full[k].t = "C" -> DClient(Client(d, full[k].i))
                      [] OTHER -> DSite(s, s.serv)

Leg(d, prof, full, k) == d.dur[prof + 1][Loc(d, full[k]) + 1][Loc(d, full[k + 1]) + 1]
DepServ(d, full, k) == DService(Site(d, full[k]).serv)

RECURSIVE DBefore(_, _, _, _)
DBefore(d, v, full, k) ==
  IF k = 1 THEN DAt(d, v, full, 1)
  ELSE LET p == DBefore(d, v, full, k - 1)
           q == IF IsReloadPos(full, k - 1)
                THEN DMerge(0, DBack(p), DepServ(d, full, k - 1)) ELSE p
       IN  DMerge(Leg(d, Veh(d, v).prof, full, k - 1), q, DAt(d, v, full, k))

RECURSIVE DAfter(_, _, _, _)
DAfter(d, v, full, k) ==
  IF k = Len(full) THEN DAt(d, v, full, k)
  ELSE LET p == DAfter(d, v, full, k + 1)
           q == IF IsReloadPos(full, k + 1) THEN DFront(p) ELSE p
           r == IF IsReloadPos(full, k) THEN DMerge(0, DepServ(d, full, k), q) ELSE q
       IN  DMerge(Leg(d, Veh(d, v).prof, full, k), DAt(d, v, full, k), r)

\* Range i .. j with no reload depot strictly inside, on profile prof.
RECURSIVE DRange(_, _, _, _, _, _)
DRange(d, v, prof, full, i, j) ==
  IF i = j THEN DAt(d, v, full, i)
  ELSE LET p == IF j - 1 = i /\ IsReloadPos(full, i)
                THEN DMerge(0, DAt(d, v, full, i), DepServ(d, full, i))
                ELSE DRange(d, v, prof, full, i, j - 1)
       IN  DMerge(Leg(d, prof, full, j - 1), p, DAt(d, v, full, j))

LAt(d, v, full, m, k) ==
  IF k = 1 THEN LSeg(Veh(d, v).init[m], 0, 0, 0)
  ELSE IF k = Len(full) THEN LNone ELSE LAct(d, full[k], m)

RECURSIVE LBefore(_, _, _, _, _)
LBefore(d, v, full, m, k) ==
  IF k = 1 THEN LAt(d, v, full, m, 1)
  ELSE LET p == LBefore(d, v, full, m, k - 1)
           q == IF IsReloadPos(full, k - 1) THEN LFinal(p, Veh(d, v).cap[m]) ELSE p
       IN  LMerge(q, LAt(d, v, full, m, k))

RECURSIVE LAfter(_, _, _, _, _)
LAfter(d, v, full, m, k) ==
  IF k = Len(full) THEN LAt(d, v, full, m, k)
  ELSE LET p == LAfter(d, v, full, m, k + 1)
           q == IF IsReloadPos(full, k + 1) THEN LFinal(p, Veh(d, v).cap[m]) ELSE p
       IN  LMerge(LAt(d, v, full, m, k), q)

RECURSIVE LRange(_, _, _, _, _, _)
LRange(d, v, full, m, i, j) ==
  IF i = j THEN LAt(d, v, full, m, i)
  ELSE LMerge(LRange(d, v, full, m, i, j - 1), LAt(d, v, full, m, j))

\* No trip is released only after its reload depot has closed.  (A segment
\* that is closed towards later trips no longer knows when its depot closes.)
Reachable(d, v, acts) ==
  LET st == Stops(d, v, acts) IN \A k \in 1 .. Len(st) : st[k].rel <= st[k].late

\* Whole-route figures from the segments around the cut between k and k + 1.
DCut(d, v, full, k) ==
  LET b == DBefore(d, v, full, k)
      bb == IF IsReloadPos(full, k) THEN DMerge(0, DBack(b), DepServ(d, full, k)) ELSE b
      a == DAfter(d, v, full, k + 1)
      aa == IF IsReloadPos(full, k + 1) THEN DFront(a) ELSE a
  IN  DMerge(Leg(d, Veh(d, v).prof, full, k), bb, aa)
=============================================================================
