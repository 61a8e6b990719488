------------------------------- MODULE MCEdits -------------------------------
(***************************************************************************)
(* All short histories of edits of two search routes (EditRoutes.tla).     *)
(* Design invariants: every node is in at most one route, no route has     *)
(* more trips than its vehicle may make, listings and nodes agree.  Every  *)
(* history of full length is emitted, to be replayed on real routes (C08). *)
(***************************************************************************)
EXTENDS EditRoutes, TLC, Json
CONSTANTS Depth, Emit

Cli(l, dlv, pck, e, w, serv, rel) ==
  [loc |-> l, dlv |-> dlv, pck |-> pck, early |-> e, late |-> w, serv |-> serv, rel |-> rel,
   prize |-> 0, req |-> FALSE, grp |-> -1]
Dep(l, e, w, serv) == [loc |-> l, early |-> e, late |-> w, serv |-> serv]
Vehicle(cap, s, e, rld, maxrl) ==
  [n |-> 1, cap |-> cap, s |-> s, e |-> e, fixed |-> 1, early |-> 0, late |-> INF, shift |-> INF,
   maxdist |-> INF, ud |-> 1, ut |-> 1, prof |-> 0, slate |-> INF, init |-> [k \in 1 .. Len(cap) |-> 0],
   rld |-> rld, maxrl |-> maxrl, maxot |-> 0, uo |-> 0]
M3 == << <<0, 3, 5>>, <<4, 0, 2>>, <<6, 1, 0>> >>
T3 == << <<0, 2, 4>>, <<3, 0, 2>>, <<5, 3, 0>> >>
d ==
  [ nloc |-> 3, ndim |-> 1, depots |-> <<Dep(0, 0, 40, 1), Dep(2, 3, 30, 2)>>,
    clients |-> <<Cli(1, <<3>>, <<0>>, 5, 9, 1, 4), Cli(2, <<1>>, <<2>>, 0, 12, 2, 0)>>,
    groups |-> <<>>,
    ships |-> <<[p |-> Dep(2, 3, 20, 1), d |-> Dep(1, 0, 15, 0), amt |-> <<2>>, prize |-> 4, req |-> FALSE]>>,
    vehs |-> <<[Vehicle(<<4>>, 0, 1, <<0>>, 1) EXCEPT !.shift = 14, !.maxot = 6, !.uo = 2, !.init = <<1>>, !.maxdist = 20],
               [Vehicle(<<2>>, 1, 0, <<>>, INF) EXCEPT !.prof = 1, !.ud = 2, !.early = 2, !.late = 25, !.slate = 9]>>,
    dist |-> <<M3, T3>>, dur |-> <<T3, M3>> ]
Vehs == <<0, 1>>
Names == << [t |-> "C", i |-> 0, id |-> 0], [t |-> "C", i |-> 1, id |-> 1], [t |-> "P", i |-> 0, id |-> 2] >>
Reload == [t |-> "D", i |-> 0, id |-> -1]
None == [t |-> "", i |-> 0, id |-> -2]

VARIABLES rts, hist
Op(op, r, k, x, y) == [op |-> op, r |-> r, k |-> k, x |-> x, y |-> y]
Free == { n \in 1 .. Len(Names) : Find(rts, Names[n].id) = {} }
Moves ==
  { Op("insert", r, k, Names[n], None) : <<r, k, n>> \in
      { <<r, k, n>> \in (1 .. 2) \X (1 .. 5) \X Free : k <= Len(rts[r].nodes) + 1 } }
  \cup { Op("append", r, 0, Names[n], None) : r \in 1 .. 2, n \in Free }
  \cup { Op("insert", 1, k, Reload, None) : k \in 1 .. Len(rts[1].nodes) + 1 }
  \cup { Op("remove", r, k, None, None) : <<r, k>> \in
      { <<r, k>> \in (1 .. 2) \X (1 .. 5) : k <= Len(rts[r].nodes) } }
  \cup { Op("clear", r, 0, None, None) : r \in { x \in 1 .. 2 : rts[x].nodes # <<>> } }
  \cup { Op("swap", 1, 0, Names[p[1]], Names[p[2]]) : p \in
      { q \in (1 .. Len(Names)) \X (1 .. Len(Names)) : q[1] < q[2] /\ ~({q[1], q[2]} \subseteq Free) } }

Init == rts = [r \in 1 .. 2 |-> [v |-> Vehs[r], nodes |-> <<>>]] /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in Moves : rts' = Apply(d, rts, o) /\ hist' = Append(hist, o)

(* design invariants *)
Once == \A n \in 1 .. Len(Names) : Cardinality(Find(rts, Names[n].id)) <= 1
TripsOk == \A r \in 1 .. 2 : NumTrips(Acts(rts[r])) <= MaxTrips(Veh(d, rts[r].v))
Agree == \A n \in 1 .. Len(Names) :
           LET w == Where(rts, Names[n].id)
           IN  w.route # 0 => LET x == Listing(d, rts, w.route)[w.pos + 1]
                              IN  x.t = Names[n].t /\ x.i = Names[n].i /\ x.trip = w.trip
\* swapping is its own inverse; removing undoes inserting
Undo == /\ \A a, b \in 1 .. Len(Names) : Exchange(Exchange(rts, Names[a], Names[b]), Names[a], Names[b]) = rts
        /\ \A o \in Moves : o.op = "insert" /\ CanInsert(d, rts[o.r], o.x)
             => Apply(d, Apply(d, rts, o), Op("remove", o.r, o.k, None, None)) = rts

EmitOk == Emit => IF hist = <<>> THEN PrintT(ToJson([inst |-> d, vehs |-> Vehs, nodes |-> Names]))
                  ELSE Len(hist) = Depth => PrintT(ToJson([hist |-> hist]))
=============================================================================
