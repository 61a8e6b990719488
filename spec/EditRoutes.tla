----------------------------- MODULE EditRoutes -----------------------------
(***************************************************************************)
(* Search routes as they are edited.  State: a sequence of routes, each    *)
(* [v, nodes], with nodes a sequence of [t, i, id] between the start and   *)
(* end depots.  Clients and shipment activities are node objects with an   *)
(* identity id >= 0, owned by the caller, each in at most one route; a     *)
(* route owns its reload depots (id = -1).                                 *)
(***************************************************************************)
EXTENDS VRP

Acts(r) == [k \in 1 .. Len(r.nodes) |-> [t |-> r.nodes[k].t, i |-> r.nodes[k].i]]

InsertSeq(s, k, x) == SubSeq(s, 1, k - 1) \o <<x>> \o SubSeq(s, k, Len(s))
RemoveSeq(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))

\* Positions count the start depot as 0; nodes[k] is at position k.
CanInsert(d, r, x) == x.t # "D" \/ NumTrips(Acts(r)) < MaxTrips(Veh(d, r.v))

Find(rts, id) ==
  { <<r, k>> \in UNION { {r} \X (1 .. Len(rts[r].nodes)) : r \in 1 .. Len(rts) } :
      rts[r].nodes[k].id = id }

Exchange(rts, a, b) ==
  [r \in 1 .. Len(rts) |->
     [rts[r] EXCEPT !.nodes =
        [k \in 1 .. Len(@) |-> IF @[k].id = a.id THEN b
                               ELSE IF @[k].id = b.id THEN a ELSE @[k]]]]

\* op: [op, r, k, x, y]; r a route, k a position, x and y nodes.
Apply(d, rts, o) ==
  CASE o.op = "insert" ->
         IF CanInsert(d, rts[o.r], o.x)
         THEN [rts EXCEPT ![o.r].nodes = InsertSeq(@, o.k, o.x)] ELSE rts
    [] o.op = "append" ->
         IF CanInsert(d, rts[o.r], o.x)
         THEN [rts EXCEPT ![o.r].nodes = Append(@, o.x)] ELSE rts
    [] o.op = "remove" -> [rts EXCEPT ![o.r].nodes = RemoveSeq(@, o.k)]
    [] o.op = "clear" -> [rts EXCEPT ![o.r].nodes = <<>>]
    [] o.op = "swap" -> Exchange(rts, o.x, o.y)
    [] o.op = "update" -> rts

\* What every node must say about where it is: route (0 if none), position, trip.
Where(rts, id) ==
  LET f == Find(rts, id)
  IN  IF f = {} THEN [route |-> 0, pos |-> 0, trip |-> 0]
      ELSE LET p == CHOOSE q \in f : TRUE
           IN  [ route |-> p[1], pos |-> p[2],
                 trip |-> Cardinality({ m \in 1 .. p[2] : rts[p[1]].nodes[m].t = "D" }) ]

\* What a route lists: every node with its position, trip and route.
Listing(d, rts, r) ==
  LET full == Full(d, rts[r].v, Acts(rts[r]))
  IN  [k \in 1 .. Len(full) |->
         [ t |-> full[k].t, i |-> full[k].i, pos |-> k - 1, route |-> r,
           trip |-> Cardinality({ m \in 2 .. k : full[m].t = "D" }) ]]
=============================================================================
