-------------------------------- MODULE Data --------------------------------
(***************************************************************************)
(* What counts as well-formed problem data, and what a constructed object  *)
(* reports.  An "argument" record holds what a caller passes; Norm*(a) is  *)
(* the object that results, as its attributes report it.                   *)
(***************************************************************************)
EXTENDS VRP

RECURSIVE Pad(_, _)
Pad(s, n) == IF Len(s) >= n THEN s ELSE Pad(Append(s, 0), n)
NonNeg(s) == \A k \in 1 .. Len(s) : s[k] >= 0
NoRepeat(s) == \A j, k \in 1 .. Len(s) : j # k => s[j] # s[k]

(* --- single objects ------------------------------------------------------ *)
ValidWindow(a) == a.early >= 0 /\ a.early <= a.late
ValidDepot(a) == a.loc >= 0 /\ ValidWindow(a) /\ a.serv >= 0
ValidStep(a) == a.loc >= 0 /\ ValidWindow(a) /\ a.serv >= 0

ValidClient(a) ==
  /\ a.loc >= 0 /\ ValidWindow(a) /\ a.serv >= 0
  /\ a.rel >= 0 /\ a.rel <= a.late
  /\ a.prize >= 0 /\ NonNeg(a.dlv) /\ NonNeg(a.pck)

NormClient(a) ==
  LET n == Max2(Len(a.dlv), Len(a.pck))
  IN  [a EXCEPT !.dlv = Pad(a.dlv, n), !.pck = Pad(a.pck, n)]

ValidShip(a) ==
  /\ ValidStep(a.p) /\ ValidStep(a.d)
  /\ a.d.late >= a.p.early
  /\ NonNeg(a.amt) /\ a.prize >= 0

ValidGroup(a) == NonNeg(a.cl) /\ NoRepeat(a.cl)

\* a.sl says whether a latest start was given; it is the shift end otherwise.
SlateOf(a) == IF a.sl THEN a.slate ELSE a.late

ValidVeh(a) ==
  LET n == Max2(Len(a.cap), Len(a.init))
      cap == Pad(a.cap, n)
      init == Pad(a.init, n)
  IN  /\ a.n > 0 /\ a.s >= 0 /\ a.e >= 0 /\ a.prof >= 0 /\ NonNeg(a.rld) /\ a.maxrl >= 0
      /\ NonNeg(cap) /\ NonNeg(init) /\ \A k \in 1 .. n : init[k] <= cap[k]
      /\ a.early >= 0 /\ a.early <= SlateOf(a) /\ SlateOf(a) <= a.late
      /\ a.shift >= 0 /\ a.maxdist >= 0
      /\ a.ud >= 0 /\ a.ut >= 0 /\ a.maxot >= 0 /\ a.uo >= 0

NormVeh(a) ==
  LET n == Max2(Len(a.cap), Len(a.init))
  IN  [n |-> a.n, cap |-> Pad(a.cap, n), s |-> a.s, e |-> a.e, fixed |-> a.fixed,
       early |-> a.early, late |-> a.late, shift |-> a.shift, maxdist |-> a.maxdist,
       ud |-> a.ud, ut |-> a.ut, prof |-> a.prof, slate |-> SlateOf(a),
       init |-> Pad(a.init, n), rld |-> a.rld, maxrl |-> a.maxrl,
       maxot |-> a.maxot, uo |-> a.uo, name |-> a.name,
       maxdur |-> IF a.shift >= INF \/ a.maxot >= INF THEN INF ELSE a.shift + a.maxot,
       trips |-> MaxTrips(a)]

(* --- problem data -------------------------------------------------------- *)
\* x: locs, depots, clients, groups, ships, vehs (normalised), dist, dur.
NumLocs(x) == Len(x.locs)
DimsOf(x) == IF Len(x.vehs) > 0 THEN Len(x.vehs[1].cap) ELSE 0
Meets(a, b) == a.early <= b.late /\ a.late >= b.early
SquareZero(m, n) ==
  /\ Len(m) = n
  /\ \A i \in 1 .. n : Len(m[i]) = n /\ m[i][i] = 0

ValidData(x) ==
  /\ Len(x.depots) > 0 /\ Len(x.vehs) > 0
  /\ \A k \in 1 .. Len(x.depots) : x.depots[k].loc < NumLocs(x)
  /\ \A k \in 1 .. Len(x.clients) :
       LET c == x.clients[k]
       IN  /\ c.loc < NumLocs(x)
           /\ Len(c.dlv) = DimsOf(x) /\ Len(c.pck) = DimsOf(x)
           /\ c.grp >= 0 =>
                /\ c.grp < Len(x.groups)
                /\ \E j \in 1 .. Len(x.groups[c.grp + 1].cl) : x.groups[c.grp + 1].cl[j] = k - 1
                /\ ~c.req
  /\ \A g \in 1 .. Len(x.groups) :
       /\ Len(x.groups[g].cl) > 0
       /\ \A j \in 1 .. Len(x.groups[g].cl) :
            LET c == x.groups[g].cl[j]
            IN  c < Len(x.clients) /\ x.clients[c + 1].grp = g - 1
  /\ \A k \in 1 .. Len(x.ships) :
       /\ x.ships[k].p.loc < NumLocs(x) /\ x.ships[k].d.loc < NumLocs(x)
       /\ Len(x.ships[k].amt) = DimsOf(x)
  /\ \A k \in 1 .. Len(x.vehs) :
       LET v == x.vehs[k]
       IN  /\ Len(v.cap) = DimsOf(x)
           /\ v.s < Len(x.depots) /\ v.e < Len(x.depots)
           /\ v.prof < Len(x.dist)
           /\ Meets(x.depots[v.s + 1], v) /\ Meets(x.depots[v.e + 1], v)
           /\ \A j \in 1 .. Len(v.rld) : v.rld[j] < Len(x.depots)
  /\ Len(x.dist) > 0 /\ Len(x.dist) = Len(x.dur)
  /\ \A p \in 1 .. Len(x.dist) : SquareZero(x.dist[p], NumLocs(x)) /\ SquareZero(x.dur[p], NumLocs(x))

HasTw(a) == a.early # 0 \/ a.late < INF
Counts(x) ==
  [clients |-> Len(x.clients), groups |-> Len(x.groups), ships |-> Len(x.ships),
   depots |-> Len(x.depots), locs |-> Len(x.locs), vehs |-> Len(x.vehs),
   vehicles |-> SumOver(x.vehs, LAMBDA v : v.n), profiles |-> Len(x.dist),
   dims |-> DimsOf(x),
   tw |-> \/ \E k \in 1 .. Len(x.clients) : HasTw(x.clients[k])
          \/ \E k \in 1 .. Len(x.depots) : HasTw(x.depots[k])
          \/ \E k \in 1 .. Len(x.vehs) : HasTw(x.vehs[k]) \/ x.vehs[k].slate < INF
          \/ \E k \in 1 .. Len(x.ships) : HasTw(x.ships[k].p) \/ HasTw(x.ships[k].d)]

\* What a ProblemData built from x reports, by list and by single accessors.
Reports(x, o) ==
  /\ o.lists = x
  /\ o.singles = x
  /\ o.counts = Counts(x)
=============================================================================
