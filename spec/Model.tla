-------------------------------- MODULE Model --------------------------------
(***************************************************************************)
(* The model-building interface as a state machine.  The state m holds     *)
(* what has been added so far; Step(m, s) is the effect of one call s, and *)
(* DataOf(m, missing) the problem data that m stands for.                  *)
(*                                                                         *)
(* Objects are referred to by identity, in calls as the position of the    *)
(* object in the model; -1 stands for "not given" where that is allowed,   *)
(* and -2 for an object that is not part of this model, even if it looks   *)
(* the same as one that is.                                                *)
(***************************************************************************)
EXTENDS Data

EmptyModel ==
  [locs |-> <<>>, depots |-> <<>>, clients |-> <<>>, groups |-> <<>>, ships |-> <<>>,
   vehs |-> <<>>, profs |-> <<>>, base |-> <<>>]

Fail(m) == [ok |-> FALSE, m |-> m]
Done(m) == [ok |-> TRUE, m |-> m]

AddLocation(m, a) == Done([m EXCEPT !.locs = Append(@, a)])

AddDepot(m, a) == IF ValidDepot(a) THEN Done([m EXCEPT !.depots = Append(@, a)]) ELSE Fail(m)

AddGroup(m, a) == Done([m EXCEPT !.groups = Append(@, [cl |-> <<>>, req |-> a.req, name |-> a.name])])

AddClient(m, a) ==
  IF a.grp = -2 \/ (a.grp >= 0 /\ a.req) \/ ~ValidClient(a) THEN Fail(m)
  ELSE LET new == [m EXCEPT !.clients = Append(@, NormClient(a))]
       IN  Done(IF a.grp < 0 THEN new
                ELSE [new EXCEPT !.groups[a.grp + 1].cl = Append(@, Len(m.clients))])

AddShipment(m, a) == IF ValidShip(a) THEN Done([m EXCEPT !.ships = Append(@, a)]) ELSE Fail(m)

AddProfile(m, a) == Done([m EXCEPT !.profs = Append(@, <<>>)])

ValidEdge(a) == a.dist >= 0 /\ a.dur >= 0 /\ (a.f = a.t => a.dist = 0 /\ a.dur = 0)
AddEdge(m, a) ==
  IF ~ValidEdge(a) THEN Fail(m)
  ELSE IF a.prof < 0 THEN Done([m EXCEPT !.base = Append(@, a)])
  ELSE Done([m EXCEPT !.profs[a.prof + 1] = Append(@, a)])

OrFirst(h) == IF h = -1 THEN 0 ELSE h
AddVehicle(m, a) ==
  LET b == [a EXCEPT !.s = OrFirst(a.s), !.e = OrFirst(a.e), !.prof = OrFirst(a.prof)]
  IN  IF ValidVeh(b) THEN Done([m EXCEPT !.vehs = Append(@, NormVeh(b))]) ELSE Fail(m)

(* --- the data a model stands for ----------------------------------------- *)
\* The last edge from i to j among es, if any, and otherwise what others says.
RECURSIVE LastEdge(_, _, _, _, _)
LastEdge(es, i, j, F(_), other) ==
  IF es = <<>> THEN other
  ELSE LET e == es[Len(es)]
       IN  IF e.f = i - 1 /\ e.t = j - 1 THEN F(e)
           ELSE LastEdge(SubSeq(es, 1, Len(es) - 1), i, j, F, other)

MatrixOf(m, es, missing, F(_)) ==
  [i \in 1 .. Len(m.locs) |-> [j \in 1 .. Len(m.locs) |->
     LastEdge(m.base \o es, i, j, F, IF i = j THEN 0 ELSE Min2(missing, INF))]]

Profiles(m) == IF m.profs = <<>> THEN << <<>> >> ELSE m.profs

DataOf(m, missing) ==
  [locs |-> m.locs, depots |-> m.depots, clients |-> m.clients, groups |-> m.groups,
   ships |-> m.ships, vehs |-> m.vehs,
   dist |-> [p \in 1 .. Len(Profiles(m)) |-> MatrixOf(m, Profiles(m)[p], missing, LAMBDA e : e.dist)],
   dur |-> [p \in 1 .. Len(Profiles(m)) |-> MatrixOf(m, Profiles(m)[p], missing, LAMBDA e : e.dur)]]

EdgesOf(x, p) ==
  LET n == Len(x.locs)
  IN  [k \in 1 .. n * n |->
         LET i == (k - 1) \div n
             j == (k - 1) % n
         IN  [f |-> i, t |-> j, dist |-> x.dist[p][i + 1][j + 1], dur |-> x.dur[p][i + 1][j + 1], prof |-> p - 1]]

ModelOf(x) ==
  [locs |-> x.locs, depots |-> x.depots, clients |-> x.clients, groups |-> x.groups,
   ships |-> x.ships, vehs |-> x.vehs, base |-> <<>>,
   profs |-> [p \in 1 .. Len(x.dist) |-> EdgesOf(x, p)]]

Step(m, s) ==
  CASE s.op = "loc"  -> AddLocation(m, s.a)
    [] s.op = "dep"  -> AddDepot(m, s.a)
    [] s.op = "cli"  -> AddClient(m, s.a)
    [] s.op = "grp"  -> AddGroup(m, s.a)
    [] s.op = "ship" -> AddShipment(m, s.a)
    [] s.op = "prof" -> AddProfile(m, s.a)
    [] s.op = "edge" -> AddEdge(m, s.a)
    [] s.op = "veh"  -> AddVehicle(m, s.a)

\* Whatever is called, clients and groups agree on who is in which group.
GroupsAgree(m) ==
  /\ \A k \in 1 .. Len(m.clients) : m.clients[k].grp >= 0 =>
       \E j \in 1 .. Len(m.groups[m.clients[k].grp + 1].cl) : m.groups[m.clients[k].grp + 1].cl[j] = k - 1
  /\ \A g \in 1 .. Len(m.groups) : NoRepeat(m.groups[g].cl) /\ \A j \in 1 .. Len(m.groups[g].cl) :
       m.clients[m.groups[g].cl[j] + 1].grp = g - 1
=============================================================================
