------------------------------- MODULE MCData -------------------------------
(***************************************************************************)
(* Data objects, and problem data as a whole, changed field by field from  *)
(* a well-formed one: all combinations of up to MaxDev deviations.  The    *)
(* design invariants say that what is accepted is what evaluation needs;   *)
(* every object is replayed into the real constructors, and every step     *)
(* into replace().                                                         *)
(***************************************************************************)
EXTENDS Data, TLC, Json
CONSTANTS Kinds, MaxDev, Emit

(* --- single objects: a base, and other values of its fields --------------- *)
Base ==
  [client |-> [loc |-> 0, dlv |-> <<2>>, pck |-> <<1>>, serv |-> 1, early |-> 3, late |-> 6, rel |-> 2,
               prize |-> 1, req |-> FALSE, grp |-> -1, name |-> "a"],
   depot |-> [loc |-> 0, early |-> 3, late |-> 6, serv |-> 1, name |-> "a"],
   step |-> [loc |-> 0, early |-> 3, late |-> 6, serv |-> 1],
   ship |-> [p |-> [loc |-> 0, early |-> 3, late |-> 6, serv |-> 1],
             d |-> [loc |-> 1, early |-> 0, late |-> 9, serv |-> 0],
             amt |-> <<1>>, prize |-> 1, req |-> TRUE, name |-> ""],
   veh |-> [n |-> 1, cap |-> <<2>>, s |-> 0, e |-> 0, fixed |-> 1, early |-> 3, late |-> 6, shift |-> 4,
            maxdist |-> 5, ud |-> 1, ut |-> 0, prof |-> 0, sl |-> FALSE, slate |-> 0, init |-> <<1>>,
            rld |-> <<0>>, maxrl |-> 1, maxot |-> 2, uo |-> 1, name |-> "v"],
   group |-> [cl |-> <<0, 1>>, req |-> TRUE, name |-> ""]]

Amounts == << <<>>, <<0>>, <<-1>>, <<0, 3>>, <<0, -1>>, <<2, 0, 1>> >>
Site1(l, e, w, s) == [loc |-> l, early |-> e, late |-> w, serv |-> s]
Other ==
  [client |-> [loc |-> <<-1, 2>>, dlv |-> Amounts, pck |-> Amounts, serv |-> <<-1, 0>>,
               early |-> <<-1, 0, 6, 7>>, late |-> <<-1, 2, 3, INF>>, rel |-> <<-1, 0, 6, 7>>,
               prize |-> <<-1, 0>>, req |-> <<TRUE>>, grp |-> <<0, 2>>, name |-> <<"">>],
   depot |-> [loc |-> <<-1, 1>>, early |-> <<-1, 0, 6, 7>>, late |-> <<-1, 2, 3, INF>>, serv |-> <<-1, 0>>,
              name |-> <<"">>],
   step |-> [loc |-> <<-1, 1>>, early |-> <<-1, 0, 6, 7>>, late |-> <<-1, 2, 3, INF>>, serv |-> <<-1, 0>>],
   ship |-> [p |-> <<Site1(-1, 3, 6, 1), Site1(1, -1, 6, 1), Site1(0, 9, 9, 1), Site1(0, 10, 12, 1), Site1(0, 7, 6, 1),
                     Site1(0, 3, 6, -1), Site1(0, 0, INF, 0)>>,
             d |-> <<Site1(-1, 0, 9, 0), Site1(1, -1, 9, 0), Site1(1, 0, 3, 0), Site1(1, 0, 2, 0), Site1(1, 3, 2, 0),
                     Site1(1, 0, 9, -1), Site1(1, 0, INF, 2)>>,
             amt |-> Amounts, prize |-> <<-1, 0>>, req |-> <<FALSE>>, name |-> <<"b">>],
   veh |-> [n |-> <<-1, 0, 2>>, cap |-> << <<>>, <<0>>, <<1>>, <<-1>>, <<2, 3>> >>, s |-> <<1>>, e |-> <<1>>,
            fixed |-> <<0>>, early |-> <<-1, 0, 6, 7>>, late |-> <<-1, 2, 3, INF>>, shift |-> <<-1, 0, INF>>,
            maxdist |-> <<-1, 0, INF>>, ud |-> <<-1, 0>>, ut |-> <<-1, 2>>, prof |-> <<1>>,
            sl |-> <<TRUE>>, slate |-> <<-1, 2, 3, 6, 7>>, init |-> << <<>>, <<2>>, <<3>>, <<-1>>, <<1, 1>>, <<0, 0>> >>,
            rld |-> << <<>>, <<1, 0>> >>, maxrl |-> <<0, INF>>, maxot |-> <<-1, 0, INF>>, uo |-> <<-1, 0>>,
            name |-> <<"">>],
   group |-> [cl |-> << <<>>, <<1>>, <<0, 0>>, <<1, 0, 1>>, <<2, 0>> >>, req |-> <<FALSE>>, name |-> <<"g">>]]

(* --- problem data as a whole ---------------------------------------------- *)
Place1(x, n) == [x |-> x, y |-> "0.5", name |-> n]
Cli(l, grp, e, w) ==
  [loc |-> l, dlv |-> <<1>>, pck |-> <<0>>, serv |-> 0, early |-> e, late |-> w, rel |-> 0, prize |-> 2,
   req |-> FALSE, grp |-> grp, name |-> ""]
Veh1(s, e, early, late, rld, prof) ==
  NormVeh([n |-> 1, cap |-> <<3>>, s |-> s, e |-> e, fixed |-> 0, early |-> early, late |-> late, shift |-> INF,
           maxdist |-> INF, ud |-> 1, ut |-> 1, prof |-> prof, sl |-> TRUE, slate |-> late, init |-> <<0>>,
           rld |-> rld, maxrl |-> INF, maxot |-> 0, uo |-> 0, name |-> "v"])
M3 == << <<0, 3, 5>>, <<4, 0, 2>>, <<6, 1, 0>> >>
Whole ==
  [locs |-> <<Place1("0.0", ""), Place1("1.0", "l"), Place1("2.0", "")>>,
   depots |-> <<[loc |-> 0, early |-> 0, late |-> 10, serv |-> 1, name |-> "d"],
                [loc |-> 1, early |-> 5, late |-> 20, serv |-> 0, name |-> ""]>>,
   clients |-> <<Cli(1, 0, 0, INF), Cli(2, -1, 2, 9)>>,
   groups |-> <<[cl |-> <<0>>, req |-> TRUE, name |-> ""]>>,
   ships |-> <<[p |-> Site1(1, 0, 9, 0), d |-> Site1(2, 0, 9, 0), amt |-> <<1>>, prize |-> 0, req |-> TRUE, name |-> ""]>>,
   vehs |-> <<Veh1(0, 1, 0, 20, <<1>>, 1), Veh1(1, 1, 3, 9, <<>>, 0)>>,
   dist |-> <<M3, M3>>, dur |-> <<M3, M3>>]

Drop(s) == SubSeq(s, 1, Len(s) - 1)
Narrow(m) == [i \in 1 .. Len(m) |-> Drop(m[i])]
ShorterBy1(s) == IF s = <<>> THEN s ELSE Drop(s)
SetClient(x, k, r) == [x EXCEPT !.clients[k] = r]
SetVeh(x, k, v) == [x EXCEPT !.vehs[k] = [v EXCEPT !.trips = MaxTrips(v)]]

\* All data that differ from x in one place.
Changes(x) ==
  UNION
  { UNION { LET c == x.clients[k] IN
            { SetClient(x, k, [c EXCEPT !.loc = l]) : l \in {0, 2, 3} }
            \cup { SetClient(x, k, [c EXCEPT !.grp = g]) : g \in {-1, 0, 1} }
            \cup { SetClient(x, k, [c EXCEPT !.req = ~@]) }
            \cup { SetClient(x, k, [c EXCEPT !.dlv = a, !.pck = a]) : a \in { <<>>, <<1, 1>> } }
          : k \in 1 .. Len(x.clients) },
    { [x EXCEPT !.clients = ShorterBy1(@)] },
    UNION { { [x EXCEPT !.groups[g].cl = s] : s \in { <<>>, <<0>>, <<1>>, <<0, 1>>, <<1, 0>>, <<2>>, <<0, 2>> } }
          : g \in 1 .. Len(x.groups) },
    { [x EXCEPT !.groups = Append(@, [cl |-> s, req |-> FALSE, name |-> "n"])] : s \in { <<>>, <<1>>, <<0>> } },
    { [x EXCEPT !.groups = ShorterBy1(@)] },
    UNION { { [x EXCEPT !.depots[k].loc = l] : l \in {0, 2, 3} }
            \cup { [x EXCEPT !.depots[k].early = w[1], !.depots[k].late = w[2]]
                   : w \in { <<0, 2>>, <<9, 9>>, <<10, 30>>, <<21, 21>>, <<0, INF>> } }
          : k \in 1 .. Len(x.depots) },
    { [x EXCEPT !.depots = ShorterBy1(@)] },
    UNION { { [x EXCEPT !.ships[k].p.loc = l] : l \in {0, 3} } \cup { [x EXCEPT !.ships[k].d.loc = l] : l \in {0, 3} }
            \cup { [x EXCEPT !.ships[k].amt = a] : a \in { <<>>, <<1, 0>> } }
          : k \in 1 .. Len(x.ships) },
    { [x EXCEPT !.ships = ShorterBy1(@)] },
    UNION { LET v == x.vehs[k] IN
            { SetVeh(x, k, [v EXCEPT !.s = i]) : i \in {0, 1, 2} }
            \cup { SetVeh(x, k, [v EXCEPT !.e = i]) : i \in {0, 1, 2} }
            \cup { SetVeh(x, k, [v EXCEPT !.prof = i]) : i \in {0, 1, 2} }
            \cup { SetVeh(x, k, [v EXCEPT !.rld = s]) : s \in { <<>>, <<0>>, <<1, 2>>, <<2>> } }
            \cup { SetVeh(x, k, [v EXCEPT !.cap = s, !.init = s]) : s \in { <<>>, <<1, 1>> } }
            \cup { SetVeh(x, k, [v EXCEPT !.early = w[1], !.late = w[2], !.slate = w[2]])
                   : w \in { <<0, 4>>, <<0, 5>>, <<10, 12>>, <<11, 30>>, <<20, 20>>, <<21, INF>> } }
          : k \in 1 .. Len(x.vehs) },
    { [x EXCEPT !.vehs = ShorterBy1(@)] },
    { [x EXCEPT !.locs = ShorterBy1(@)], [x EXCEPT !.locs = Append(@, Place1("9.0", "z"))] },
    { [x EXCEPT !.dist = ShorterBy1(@)], [x EXCEPT !.dur = ShorterBy1(@)],
      [x EXCEPT !.dist = Append(@, M3)], [x EXCEPT !.dur = Append(@, M3)] },
    UNION { { [x EXCEPT !.dist[p][i][i] = 1] : i \in { j \in 1 .. Len(x.dist[p]) : j <= Len(x.dist[p][j]) } } : p \in 1 .. Len(x.dist) },
    UNION { { [x EXCEPT !.dur[p][i][i] = 1] : i \in { j \in 1 .. Len(x.dur[p]) : j <= Len(x.dur[p][j]) } } : p \in 1 .. Len(x.dur) },
    UNION { { [x EXCEPT !.dist[p] = Drop(@)], [x EXCEPT !.dist[p] = Append(@, <<0, 0, 0>>)] }
          : p \in { q \in 1 .. Len(x.dist) : x.dist[q] = M3 } },
    UNION { { [x EXCEPT !.dur[p] = Drop(@)], [x EXCEPT !.dur[p] = Narrow(@)] }
          : p \in { q \in 1 .. Len(x.dur) : x.dur[q] = M3 } } }

VARIABLES kind, a, n
Init == /\ kind \in Kinds
        /\ a = IF kind = "data" THEN Whole ELSE Base[kind]
        /\ n = 0
Set(f, k) == /\ a[f] = Base[kind][f]
             /\ a' = [a EXCEPT ![f] = Other[kind][f][k]]
Next == /\ n < MaxDev[kind] /\ n' = n + 1 /\ UNCHANGED kind
        /\ IF kind = "data" THEN a' \in Changes(a) \ {a}
           ELSE \E f \in DOMAIN Base[kind] : \E k \in 1 .. Len(Other[kind][f]) : Set(f, k)
Seen == <<kind, a>>

Quick == [client |-> 3, depot |-> 4, step |-> 4, ship |-> 4, veh |-> 2, group |-> 3, data |-> 2]
Deep == [client |-> 4, depot |-> 5, step |-> 4, ship |-> 5, veh |-> 3, group |-> 3, data |-> 2]
AllKinds == DOMAIN Quick

(* --- design ---------------------------------------------------------------- *)
Valid == CASE kind = "client" -> ValidClient(a) [] kind = "depot" -> ValidDepot(a) [] kind = "step" -> ValidStep(a)
           [] kind = "ship" -> ValidShip(a) [] kind = "veh" -> ValidVeh(a) [] kind = "group" -> ValidGroup(a)
           [] kind = "data" -> ValidData(a)

\* A copy of what an object reports is accepted, and reports the same.
Settled ==
  Valid => CASE kind = "client" -> ValidClient(NormClient(a)) /\ NormClient(NormClient(a)) = NormClient(a)
             [] kind = "veh" ->
                  LET v == NormVeh(a)
                      again == [a EXCEPT !.cap = v.cap, !.init = v.init, !.sl = TRUE, !.slate = v.slate]
                  IN  ValidVeh(again) /\ NormVeh(again) = v
             [] OTHER -> TRUE

Instance(x) ==
  [nloc |-> Len(x.locs), ndim |-> DimsOf(x), depots |-> x.depots, clients |-> x.clients, groups |-> x.groups,
   ships |-> x.ships, vehs |-> x.vehs, dist |-> x.dist, dur |-> x.dur]

\* Accepted data can be evaluated: empty vehicles, and visits one at a time.
Evaluable ==
  (kind = "data" /\ Valid) =>
    LET d == Instance(a)
        ok(v, acts) ==
          /\ ValidRoute(d, v, acts)
          /\ Distance(d, v, acts) >= 0
          /\ \A m \in Dims(d) : ExcessLoad(d, v, acts, m) >= 0
          /\ LET te == TimeEval(d, v, acts) IN
             /\ te.contiguous /\ te.timeWarp >= 0 /\ te.duration >= 0
             \* the windows of a vehicle and its depots leave a time to be there
             /\ te.table[1].begin <= Min2(a.depots[Veh(d, v).s + 1].late, Max2(Veh(d, v).late, a.depots[Veh(d, v).s + 1].early))
    IN  \A v \in 0 .. NumVehTypes(d) - 1 :
          /\ ok(v, <<>>)
          /\ \A i \in 0 .. NumClients(d) - 1 : ok(v, <<[t |-> "C", i |-> i]>>)
          /\ \A i \in 0 .. NumShips(d) - 1 : ok(v, <<[t |-> "P", i |-> i], [t |-> "L", i |-> i]>>)

\* Every client is in the one group it refers to, and no group is empty.
Grouped ==
  (kind = "data" /\ Valid) =>
    /\ \A g \in 1 .. Len(a.groups) : a.groups[g].cl # <<>>
    /\ \A k \in 1 .. Len(a.clients) :
         { g \in 1 .. Len(a.groups) : \E j \in 1 .. Len(a.groups[g].cl) : a.groups[g].cl[j] = k - 1 }
         = (IF a.clients[k].grp < 0 THEN {} ELSE {a.clients[k].grp + 1})

EmitOk == Emit => PrintT(ToJson([kind |-> kind, a |-> a, n |-> n]))
=============================================================================
