----------------------------- MODULE Lifetimes -----------------------------
(***************************************************************************)
(* What it means for the objects that the library hands out to stay valid. *)
(*                                                                         *)
(* Somebody obtains objects from others (a route from a solution, a node   *)
(* from a search route, a search from data, operators and a perturbation   *)
(* manager), holds on to some of them, drops others, and tries to change   *)
(* some.  A held object reports what it reported when it was obtained      *)
(* until its holder changes that very object, and only objects that are    *)
(* their holder's own (lists, groups) can be changed at all.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

\* Which objects each kind of object is obtained from.
Sources == [
  data        |-> {},
  \* what somebody prepared to make data or a route from
  parts       |-> {},           built      |-> {"parts"},
  visits      |-> {},           driven     |-> {"data", "visits"},
  \* problem data
  location    |-> {"data"},  locations    |-> {"data"},
  client      |-> {"data"},  clients      |-> {"data"},
  depot       |-> {"data"},  depots       |-> {"data"},
  vehicle     |-> {"data"},  vehicles     |-> {"data"},
  shipment    |-> {"data"},  shipments    |-> {"data"},
  group       |-> {"data"},  groups       |-> {"data"},
  distance    |-> {"data"},  distances    |-> {"data"},
  duration    |-> {"data"},  durations    |-> {"data"},
  clientOf    |-> {"clients"},  depotOf    |-> {"depots"},
  vehicleOf   |-> {"vehicles"}, shipmentOf |-> {"shipments"},
  groupOf     |-> {"groups"},   locationOf |-> {"locations"},
  matrixOf    |-> {"distances"},
  pickup      |-> {"shipment"}, delivery   |-> {"shipment"},
  members     |-> {"group"},    memberIter |-> {"group"},
  amounts     |-> {"client"},   capacity   |-> {"vehicle"},
  reloads     |-> {"vehicle"},
  changed     |-> {"data"},
  \* solutions
  route       |-> {"data"},     solution   |-> {"data"},
  routes      |-> {"solution"}, routeOf    |-> {"routes"},
  unplanned   |-> {"solution"}, excess     |-> {"solution"},
  schedule    |-> {"routeOf"},  visit      |-> {"routeOf"},
  visitIter   |-> {"routeOf"},  visitOf    |-> {"schedule"},
  result      |-> {"solution"}, best       |-> {"result"},
  \* search
  node        |-> {},
  sroute      |-> {"data", "node"},
  snode       |-> {"sroute"},   snodeIter  |-> {"sroute"},
  srouteOf    |-> {"snode"},    sload      |-> {"sroute"},
  ssolution   |-> {"data"},
  sroutes     |-> {"ssolution"}, srouteIn  |-> {"sroutes"},
  sclients    |-> {"ssolution"}, sclient   |-> {"sclients"},
  splanned    |-> {"ssolution"}, srouteAt  |-> {"splanned"},
  neighbours  |-> {"data"},
  space       |-> {"data", "neighbours"},
  unary       |-> {"data"},     binary     |-> {"data"},
  manager     |-> {},
  search      |-> {"data", "neighbours", "manager", "unary", "binary"},
  operators   |-> {"search"},   operatorOf |-> {"operators"},
  around      |-> {"search"}
]
Kinds == DOMAIN Sources

\* These are their holder's own, so that changing them succeeds.
Own == { "locations", "clients", "depots", "vehicles", "shipments", "groups",
         "distances", "durations", "group", "groupOf", "members", "amounts",
         "capacity", "reloads", "routes", "unplanned", "excess", "schedule",
         "sload", "sroutes", "sclients", "operators", "neighbours", "around",
         "result", "parts", "visits" }

\* These can be used once, and not after what they go through was changed.
Iterators == { "memberIter", "visitIter", "snodeIter" }

(***************************************************************************)
(* States: a sequence of objects, each with its kind, the positions of the *)
(* objects it was obtained from, whether it is held, and whether its       *)
(* holder has changed it.                                                  *)
(***************************************************************************)
Make(s, k, from) == Append(s, [k |-> k, from |-> from, held |-> TRUE, own |-> FALSE])
Drop(s, i) == [s EXCEPT ![i].held = FALSE]
\* A group in a list that somebody holds is part of that list.
Touches(s, i) ==
  IF s[i].k = "groupOf" THEN {i} \cup s[i].from \cup { j \in 1 .. Len(s) : s[j].k = "groupOf" /\ s[j].from = s[i].from }
  ELSE {i}
Change(s, i) ==
  IF s[i].k \in Own
  THEN [j \in 1 .. Len(s) |-> IF j \in Touches(s, i) THEN [s[j] EXCEPT !.own = TRUE] ELSE s[j]]
  ELSE s

CanMake(s, k, from) ==
  /\ \A i \in from : i \in 1 .. Len(s) /\ s[i].held
  /\ { s[i].k : i \in from } = Sources[k]
  /\ Cardinality(from) = Cardinality(Sources[k])
CanDrop(s, i) == i \in 1 .. Len(s) /\ s[i].held

Step(s, op) ==
  CASE op.op = "make" -> Make(s, op.k, { op.from[j] : j \in 1 .. Len(op.from) })
    [] op.op = "drop" -> Drop(s, op.i)
    [] op.op = "change" -> Change(s, op.i)

\* An object is needed while it, or something obtained from it, is held.
RECURSIVE Needed(_, _)
Needed(s, i) == s[i].held \/ \E j \in i + 1 .. Len(s) : i \in s[j].from /\ Needed(s, j)
=============================================================================
