------------------------------- MODULE Files -------------------------------
(***************************************************************************)
(* What an instance file in the VRPLIB format means, and what a solution   *)
(* file means for the instance it belongs to.  Follows the glossary in     *)
(* docs/source/dev/supported_vrplib_fields.rst.                            *)
(*                                                                         *)
(* A file f is a record of its specifications and data sections.  Data     *)
(* values that the rounding function applies to are given in quarters      *)
(* (exactly representable in binary), so value q stands for q / 4.  Each   *)
(* optional part is [how, v] with how one of                               *)
(*   "absent"   not in the file,                                           *)
(*   "spec"     one value v[1] that holds for all,                         *)
(*   "section"  one row per location or vehicle.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

INF == 100000000

(* --- rounding ------------------------------------------------------------ *)
TruncDiv(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)

\* The values that quarter count q may become; two at ties of "round".
Scaled(rf, q) ==
  CASE rf = "round"  -> { n \in {TruncDiv(q, 4) - 1, TruncDiv(q, 4), TruncDiv(q, 4) + 1} :
                            4 * n - q <= 2 /\ q - 4 * n <= 2 }
    [] rf = "trunc"  -> {TruncDiv(q, 4)}
    [] rf = "dimacs" -> {TruncDiv(10 * q, 4)}
    [] rf = "exact"  -> {250 * q}
    [] rf = "none"   -> {q \div 4}
    [] rf = "quads"  -> {q}            \* a function of the caller's: 4 * value

\* Is n what rounding turns the distance sqrt(s) / 4 into?
RoundedRoot(rf, s, n) ==
  CASE rf = "round"  -> n >= 0 /\ s <= (4 * n + 2) * (4 * n + 2)
                        /\ (n = 0 \/ (4 * n - 2) * (4 * n - 2) <= s)
    [] rf = "trunc"  -> n >= 0 /\ 16 * n * n <= s /\ s < 16 * (n + 1) * (n + 1)
    [] rf = "dimacs" -> n >= 0 /\ 16 * n * n <= 100 * s /\ 100 * s < 16 * (n + 1) * (n + 1)
    [] rf = "exact"  -> n >= 0 /\ (n = 0 \/ (2 * n - 1) * (2 * n - 1) <= 250000 * s)
                        /\ 250000 * s <= (2 * n + 1) * (2 * n + 1)
    [] rf = "quads"  -> n >= 0 /\ n * n <= s /\ s < (n + 1) * (n + 1)

(* --- sizes --------------------------------------------------------------- *)
HasPd(f) == Len(f.pd) > 0
NumDepots(f) == IF Len(f.depots) = 0 THEN 1 ELSE Len(f.depots)
NumClients(f) == IF HasPd(f) THEN 0 ELSE f.dim - NumDepots(f)
NumVehicles(f) == IF f.vehicles = 0 THEN f.dim - NumDepots(f) ELSE f.vehicles

\* The value an optional part gives to entry i (1-based), or the default.
At(part, i, default) ==
  CASE part.how = "absent"  -> default
    [] part.how = "spec"    -> part.v[1]
    [] part.how = "section" -> part.v[i]

AtRounded(f, part, i, default) ==
  IF part.how = "absent" THEN {default} ELSE Scaled(f.rf, At(part, i, 0))

(* --- which files are readable -------------------------------------------- *)
DepotsOk(f) == \A i \in 1 .. Len(f.depots) : f.depots[i] = i
LengthOk(f, part) == part.how = "section" => Len(part.v) = NumVehicles(f)
LengthsOk(f) ==
  /\ LengthOk(f, f.cap) /\ LengthOk(f, f.allowed) /\ LengthOk(f, f.rld) /\ LengthOk(f, f.vdepot)
  /\ LengthOk(f, f.maxdist) /\ LengthOk(f, f.maxdur) /\ LengthOk(f, f.maxrl)
  /\ LengthOk(f, f.fixed) /\ LengthOk(f, f.ud)
Readable(f) == DepotsOk(f) /\ LengthsOk(f)

(* --- clients ------------------------------------------------------------- *)
\* Loads in dimension d of row i; missing dimensions are zero.
LoadAt(f, part, i, d) ==
  IF part.how = "absent" THEN {0}
  ELSE IF d > Len(part.v[i]) THEN {0} ELSE Scaled(f.rf, part.v[i][d])
Dims(f, part) == IF part.how = "absent" THEN 1 ELSE Len(part.v[1])

\* Groups of at least two clients, as client indices.
Groups(f) ==
  LET big == SelectSeq(f.groups, LAMBDA g : Len(g) > 1)
  IN  [ k \in 1 .. Len(big) |-> [ m \in 1 .. Len(big[k]) |-> big[k][m] - NumDepots(f) - 1 ] ]
GroupOf(f, c) ==
  LET gs == Groups(f)
      in == { k \in 1 .. Len(gs) : \E m \in 1 .. Len(gs[k]) : gs[k][m] = c }
  IN  IF in = {} THEN -1 ELSE (CHOOSE k \in in : TRUE) - 1

\* Fields in which client c (0-based) as read differs from the file.
ClientBad(f, c, x) ==
  LET i  == NumDepots(f) + c + 1
      dd == Dims(f, f.demand)
      db == Dims(f, f.backhaul)
      n  == IF dd > db THEN dd ELSE db
      tw == IF f.tw.how = "absent" THEN <<{0}, {INF}>>
            ELSE <<Scaled(f.rf, f.tw.v[i][1]), Scaled(f.rf, f.tw.v[i][2])>>
      B(cond, name) == IF cond THEN {} ELSE {name}
  IN  B(x.loc = i - 1, "location")
      \cup B(Len(x.dlv) = n /\ \A d \in 1 .. n : x.dlv[d] \in LoadAt(f, f.demand, i, d), "delivery")
      \cup B(Len(x.pck) = n /\ \A d \in 1 .. n : x.pck[d] \in LoadAt(f, f.backhaul, i, d), "pickup")
      \cup B(x.serv \in AtRounded(f, f.service, i, 0), "service")
      \cup B(x.early \in tw[1] /\ x.late \in tw[2], "time-window")
      \cup B(x.rel \in AtRounded(f, f.release, i, 0), "release")
      \cup B(x.prize \in AtRounded(f, f.prize, i, 0), "prize")
      \cup B(x.grp = GroupOf(f, c), "group")
      \cup B(x.req = (x.prize = 0 /\ GroupOf(f, c) = -1), "required")

(* --- shipments ----------------------------------------------------------- *)
\* Rows (1-based) that are pickups, in file order.
Pickups(f) ==
  SelectSeq([ i \in 1 .. Len(f.pd) |-> i ], LAMBDA i : f.pd[i].p = 0 /\ f.pd[i].d > 0)

StepBad(f, i, s, name) ==
  LET r == f.pd[i] IN
  IF /\ s.loc = i - 1 /\ s.early \in Scaled(f.rf, r.early) /\ s.late \in Scaled(f.rf, r.late)
     /\ s.serv \in Scaled(f.rf, r.serv)
  THEN {} ELSE {name}

ShipsBad(f, ships) ==
  LET ps == Pickups(f)
      \* the shipments as read, whatever their order
      Match(i) == { k \in 1 .. Len(ships) : ships[k].p.loc = i - 1 }
  IN  IF Len(ships) # Len(ps) \/ \E j \in 1 .. Len(ps) : Cardinality(Match(ps[j])) # 1
      THEN {"shipments"}
      ELSE UNION { LET i == ps[j]
                       x == ships[CHOOSE k \in Match(i) : TRUE]
                   IN  StepBad(f, i, x.p, "shipment-pickup")
                       \cup StepBad(f, f.pd[i].d, x.d, "shipment-delivery")
                       \cup (IF Len(x.amt) = 1 /\ x.amt[1] \in Scaled(f.rf, f.pd[i].amt) /\ x.req
                             THEN {} ELSE {"shipment-amount"})
                 : j \in 1 .. Len(ps) }

(* --- vehicles ------------------------------------------------------------ *)
AllowedOf(f, v) ==
  IF f.allowed.how = "absent" THEN { l \in 1 .. f.dim : l > NumDepots(f) }
  ELSE ToSet(f.allowed.v[v])
DepotOf(f, v) == At(f.vdepot, v, 1)
ReloadsOf(f, v) == IF f.rld.how = "absent" THEN <<>> ELSE f.rld.v[v]

CapOf(f, v, d) ==
  CASE f.cap.how = "absent"  -> {INF}
    [] f.cap.how = "spec"    -> Scaled(f.rf, f.cap.v[1])
    [] f.cap.how = "section" -> Scaled(f.rf, f.cap.v[v][d])
CapDims(f) == IF f.cap.how = "section" THEN Len(f.cap.v[1]) ELSE 1

DepotWindow(f, dep) ==
  IF HasPd(f) THEN <<Scaled(f.rf, f.pd[dep].early), Scaled(f.rf, f.pd[dep].late)>>
  ELSE IF f.tw.how = "absent" THEN <<{0}, {INF}>>
  ELSE <<Scaled(f.rf, f.tw.v[dep][1]), Scaled(f.rf, f.tw.v[dep][2])>>

\* Attributes of vehicle v (1-based) that its type t does not have.
VehBad(f, v, t) ==
  LET dep == DepotOf(f, v)
      w   == DepotWindow(f, dep)
      B(cond, name) == IF cond THEN {} ELSE {name}
  IN  B(Len(t.cap) = CapDims(f) /\ \A d \in 1 .. Len(t.cap) : t.cap[d] \in CapOf(f, v, d), "capacity")
      \cup B(t.s = dep - 1 /\ t.e = dep - 1, "vehicle-depot")
      \cup B(t.early \in w[1] /\ t.late \in w[2] /\ t.slate = t.late, "vehicle-time-window")
      \cup B(t.rld = [ k \in 1 .. Len(ReloadsOf(f, v)) |-> ReloadsOf(f, v)[k] - 1 ], "reload-depots")
      \cup B(t.maxdist \in AtRounded(f, f.maxdist, v, INF), "max-distance")
      \cup B(t.shift \in AtRounded(f, f.maxdur, v, INF), "max-duration")
      \cup B(t.maxrl = At(f.maxrl, v, INF), "max-reloads")
      \cup B(t.fixed \in AtRounded(f, f.fixed, v, 0), "fixed-cost")
      \cup B(t.ud = At(f.ud, v, 1), "unit-distance-cost")
      \cup B(t.ut = 0 /\ t.maxot = 0 /\ t.uo = 0 /\ \A d \in 1 .. Len(t.init) : t.init[d] = 0,
             "vehicle-extras")

\* Vehicles the file describes in the same way.
Alike(f, v, w) ==
  /\ AllowedOf(f, v) = AllowedOf(f, w) /\ DepotOf(f, v) = DepotOf(f, w)
  /\ ReloadsOf(f, v) = ReloadsOf(f, w)
  /\ \A d \in 1 .. CapDims(f) : CapOf(f, v, d) = CapOf(f, w, d)
  /\ \A p \in {f.maxdist, f.maxdur, f.fixed, f.maxrl, f.ud} : At(p, v, 0) = At(p, w, 0)

(* --- matrices ------------------------------------------------------------ *)
Sq(f, i, j) ==
  LET dx == f.coords[i][1] - f.coords[j][1]
      dy == f.coords[i][2] - f.coords[j][2]
  IN  dx * dx + dy * dy

\* Is n the weight of the edge from i to j (1-based) under the file's type?
WeightOk(f, i, j, n) ==
  CASE f.ewt = "FULL"     -> n \in Scaled(f.rf, f.w[i][j])
    [] f.ewt = "LOWER"    -> n \in Scaled(f.rf, IF i = j THEN 0 ELSE IF i > j THEN f.w[i][j] ELSE f.w[j][i])
    [] f.ewt = "EUC_2D"   -> RoundedRoot(f.rf, Sq(f, i, j), n)
    [] f.ewt = "FLOOR_2D" -> \E m \in 0 .. 60 : RoundedRoot("trunc", Sq(f, i, j), m) /\ n \in Scaled(f.rf, 4 * m)
    [] f.ewt = "CEIL_2D"  -> \E m \in 0 .. 60 : /\ Sq(f, i, j) <= 16 * m * m
                                                 /\ (m = 0 \/ 16 * (m - 1) * (m - 1) < Sq(f, i, j))
                                                 /\ n \in Scaled(f.rf, 4 * m)

Linehaul(f, i) == \E x \in LoadAt(f, f.demand, i, 1) : x > 0
Backhaul(f, i) == \E x \in LoadAt(f, f.backhaul, i, 1) : x > 0
\* VRPB: linehauls come first on every route
Barred(f, i, j) ==
  f.type = "VRPB" /\ ((Backhaul(f, j) /\ i = 1) \/ (Backhaul(f, i) /\ Linehaul(f, j)))

Allowed(f, v, l) == l <= NumDepots(f) \/ l \in AllowedOf(f, v)

EdgeOk(f, v, i, j, n) ==
  IF i = j THEN n = 0
  ELSE IF ~Allowed(f, v, i) \/ ~Allowed(f, v, j) \/ Barred(f, i, j) THEN n = INF
  ELSE WeightOk(f, i, j, n)

(* --- everything read ----------------------------------------------------- *)
\* x: the data as read, idcs: per vehicle type, the (0-based) vehicles it
\* stands for.
ReadBad(f, x, idcs) ==
  LET B(cond, name) == IF cond THEN {} ELSE {name}
      nv == NumVehicles(f)
      Types(v) == { t \in 1 .. Len(idcs) : \E k \in 1 .. Len(idcs[t]) : idcs[t][k] = v - 1 }
      partition == /\ Len(idcs) = Len(x.vehs)
                   /\ \A v \in 1 .. nv : Cardinality(Types(v)) = 1
                   /\ \A t \in 1 .. Len(idcs) :
                        /\ x.vehs[t].n = Len(idcs[t])
                        /\ \A k \in 1 .. Len(idcs[t]) : idcs[t][k] \in 0 .. nv - 1
                        /\ IsInjective(idcs[t])
      TypeOf(v) == CHOOSE t \in Types(v) : TRUE
  IN  B(Len(x.locs) = f.dim, "locations")
      \cup B(Len(x.locs) = f.dim => \A i \in 1 .. f.dim :
               \A a \in 1 .. 2 :
                 IF Len(f.coords) = 0 THEN x.locs[i][a] = 0
                 ELSE IF f.rf = "none" THEN x.locs[i][a] = f.coords[i][a]
                 ELSE \E n \in Scaled(f.rf, f.coords[i][a]) : x.locs[i][a] = 4 * n, "coordinates")
      \cup B(/\ Len(x.depots) = NumDepots(f)
             /\ \A d \in 1 .. Len(x.depots) :
                  /\ x.depots[d].loc = d - 1 /\ x.depots[d].serv = 0
                  /\ x.depots[d].early = 0 /\ x.depots[d].late = INF, "depots")
      \cup (IF Len(x.clients) # NumClients(f) THEN {"clients"}
            ELSE UNION { ClientBad(f, c - 1, x.clients[c]) : c \in 1 .. NumClients(f) })
      \cup B([ g \in 1 .. Len(x.groups) |-> x.groups[g].cl ] = Groups(f)
             /\ \A g \in 1 .. Len(x.groups) : x.groups[g].req, "groups")
      \cup ShipsBad(f, x.ships)
      \cup (IF ~partition THEN {"fleet"}
            ELSE UNION { VehBad(f, v, x.vehs[TypeOf(v)]) : v \in 1 .. nv }
                 \cup B(\A v, w \in 1 .. nv : Alike(f, v, w) => TypeOf(v) = TypeOf(w), "fleet-grouping")
                 \cup B(\A t \in 1 .. Len(idcs) :
                          LET v == idcs[t][1] + 1
                              m == x.dist[x.vehs[t].prof + 1]
                          IN  \A i, j \in 1 .. f.dim : EdgeOk(f, v, i, j, m[i][j]), "distances"))
      \cup B(x.dur = x.dist, "durations")

(* --- solution files ------------------------------------------------------ *)
\* The activity at location l (0-based) of data x.
ActivityAt(x, l) ==
  LET cs == { c \in 1 .. Len(x.clients) : x.clients[c].loc = l }
      ps == { s \in 1 .. Len(x.ships) : x.ships[s].p.loc = l }
      ds == { s \in 1 .. Len(x.ships) : x.ships[s].d.loc = l }
  IN  IF l < Len(x.depots) THEN [t |-> "D", i |-> l]
      ELSE IF cs # {} THEN [t |-> "C", i |-> (CHOOSE c \in cs : TRUE) - 1]
      ELSE IF ps # {} THEN [t |-> "P", i |-> (CHOOSE s \in ps : TRUE) - 1]
      ELSE [t |-> "L", i |-> (CHOOSE s \in ds : TRUE) - 1]

\* The route that line n (1-based) with the given visits describes.
LineRoute(x, idcs, n, visits) ==
  [v |-> (CHOOSE t \in 1 .. Len(idcs) : \E k \in 1 .. Len(idcs[t]) : idcs[t][k] = n - 1) - 1,
   acts |-> [ k \in 1 .. Len(visits) |-> ActivityAt(x, visits[k]) ]]

\* The routes of a solution file, empty lines left out.
FileRoutes(x, idcs, lines) ==
  LET used == SelectSeq([ n \in 1 .. Len(lines) |-> n ], LAMBDA n : Len(lines[n]) > 0)
  IN  [ k \in 1 .. Len(used) |-> LineRoute(x, idcs, used[k], lines[used[k]]) ]

SameBag(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1 .. Len(a) :
       Cardinality({ k \in 1 .. Len(a) : a[k] = a[i] }) = Cardinality({ k \in 1 .. Len(b) : b[k] = a[i] })
=============================================================================
