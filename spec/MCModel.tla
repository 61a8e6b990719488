-------------------------------- MODULE MCModel --------------------------------
(* All short model-building programs over a small alphabet of calls, after a   *)
(* fixed start (two equal-looking locations and a depot).  Handles range over  *)
(* everything added so far, plus "not in this model".                          *)
EXTENDS Model, TLC, Json
CONSTANTS MaxN, Emit

C(op, a) == [op |-> op, a |-> a]
TheLoc == C("loc", [x |-> "1.0", y |-> "2.0", name |-> "here"])
TheDepot(l) == C("dep", [loc |-> l, early |-> 0, late |-> INF, serv |-> 0, name |-> ""])
TheClient(l, g, req) ==
  C("cli", [loc |-> l, dlv |-> <<1>>, pck |-> <<>>, serv |-> 0, early |-> 0, late |-> INF, rel |-> 0,
            prize |-> 3, req |-> req, grp |-> g, name |-> "c"])
TheGroup(r) == C("grp", [req |-> r, name |-> "g"])
TheProfile == C("prof", [name |-> "p"])
TheEdge(f, t, n, p) == C("edge", [f |-> f, t |-> t, dist |-> n, dur |-> n + 1, prof |-> p])
TheVehicle(s, p, r) ==
  C("veh", [n |-> 1, cap |-> <<5>>, s |-> s, e |-> -1, fixed |-> 0, early |-> 0, late |-> INF, shift |-> INF,
            maxdist |-> INF, ud |-> 1, ut |-> 0, prof |-> p, slate |-> 0, sl |-> FALSE, init |-> <<>>,
            rld |-> r, maxrl |-> INF, maxot |-> 0, uo |-> 0, name |-> ""])

Start == <<TheLoc, TheLoc, TheDepot(0)>>

Calls(m) ==
  LET L == 0 .. Len(m.locs) - 1
      G == 0 .. Len(m.groups) - 1
      P == 0 .. Len(m.profs) - 1
      D == 0 .. Len(m.depots) - 1
  IN  {TheLoc, TheProfile, TheGroup(FALSE)}
      \cup { TheDepot(1) }
      \cup { TheClient(l, g, FALSE) : l \in {1, -2}, g \in {-1} \cup G }
      \cup { TheClient(0, g, TRUE) : g \in {-1, -2} \cup G }
      \cup { TheEdge(0, 1, n, p) : n \in {3, 4}, p \in {-1} \cup P }
      \cup { TheEdge(1, 1, 2, -1) }
      \cup { TheVehicle(s, p, <<>>) : s \in {-1, -2} \cup D, p \in {-1} \cup P }
      \cup { TheVehicle(-1, -1, <<0, r>>) : r \in {-2} }

VARIABLES m, h
Replay(prog) == FoldLeft(LAMBDA st, s : Step(st, s).m, EmptyModel, prog)
Init == m = Replay(Start) /\ h = <<>>
Next ==
  /\ Len(h) < MaxN
  /\ \E s \in Calls(m) : m' = Step(m, s).m /\ h' = Append(h, s)

Agree == GroupsAgree(m)
\* a model made from the data it stands for stands for that data
RoundTrip == DataOf(ModelOf(DataOf(m, 7)), INF) = DataOf(m, 7)
\* the program determines the model
Determined == m = Replay(Start \o h)
EmitOk == (Emit /\ Len(h) = MaxN) => PrintT(ToJson([steps |-> Start \o h]))
=============================================================================
