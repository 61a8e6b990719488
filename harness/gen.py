"""
Instance and plan generators. An instance is a plain dict (see `instance`),
which is both what the specification reads (as JSON) and what the real
``ProblemData`` is built from (`build`). ``INF`` stands for "unconstrained".
"""

import contextlib

import numpy as np

INF = 100_000_000  # how the specification spells int64 max
BIG = 50_000_000
I64 = np.iinfo(np.int64).max
SZMAX = 2**64 - 1


# Amounts, times, distances and costs may be handed to the real code in units
# of UNIT[0]: everything is linear in these, and large numbers are as good as
# small ones.
UNIT = [1]
UNITS = [10**6, 2**31, 2**33]
ODD = -87_654_321  # not a whole number of units


@contextlib.contextmanager
def units(u):
    UNIT[0] = u
    try:
        yield
    finally:
        UNIT[0] = 1


def some_units(rng, p=0.15):
    return units(rng.choice(UNITS) if rng.random() < p else 1)


def norm(x):
    """Maps observed amounts to the specification's range."""
    x = int(x)
    if x > BIG * UNIT[0]:
        return INF
    if x < -BIG * UNIT[0]:
        return -INF
    return ODD if x % UNIT[0] else x // UNIT[0]


def U(x):
    """An amount (or several) for the real code."""
    if isinstance(x, list):
        return [U(y) for y in x]
    return I64 if x >= INF else x * UNIT[0]


def _i64(x):
    return I64 if x >= INF else x


def maybe(rng, p, val, default):
    return val if rng.random() < p else default


def window(rng, horizon, tight):
    early = rng.randint(0, horizon)
    late = early + rng.randint(0, max(1, int(horizon * tight)))
    return early, late


FEATURES = [
    "tw",
    "release",
    "multidepot",
    "depot_service",
    "profiles",
    "reload",
    "shift",
    "overtime",
    "maxdist",
    "shipments",
    "groups",
    "optional",
    "initial",
    "hetero",
    "start_late",
    "pickup",
    "zero_unit",
]


def instance(
    rng,
    max_clients=6,
    max_shipments=3,
    max_locs=7,
    horizon=None,
    features=None,
    p_feature=0.55,
    min_clients=0,
    max_edge=12,
    max_vehicles=3,
):
    """
    Random instance dict. ``features`` fixes the set of features in play;
    otherwise each is drawn with probability ``p_feature``.
    """
    if features is None:
        features = {f for f in FEATURES if rng.random() < p_feature}
        if rng.random() < 0.1:
            features.add("wide")
    f = set(features)
    wide = "wide" in f  # more of everything

    horizon = horizon or rng.choice([15, 30, 60])
    tight = rng.choice([0.1, 0.4, 1.0])
    n_loc = rng.randint(2, max_locs)
    n_dim = rng.choice([1, 1, 2, 2, 3, 0]) if "dims" not in f else 2
    n_prof = rng.randint(2, 5 if wide else 3) if "profiles" in f else 1
    n_dep = rng.randint(2, 6 if wide else 3) if "multidepot" in f else 1
    if wide:
        n_dim = rng.choice([1, 2, 3, 4, 5, 5])

    depots = []
    for _ in range(n_dep):
        early, late = 0, INF
        if "tw" in f and rng.random() < 0.6:
            early = rng.randint(0, horizon // 2)
            late = early + rng.randint(horizon // 3, horizon * 2)
        depots.append(
            dict(
                loc=rng.randrange(n_loc),
                early=early,
                late=late,
                serv=rng.randint(0, 6) if "depot_service" in f else 0,
            )
        )

    n_cli = rng.randint(min_clients, max_clients)
    clients = []
    for _ in range(n_cli):
        early, late = 0, INF
        if "tw" in f and rng.random() < 0.75:
            early, late = window(rng, horizon, tight)
            if rng.random() < 0.1:
                late = INF
        rel = 0
        if "release" in f and rng.random() < 0.6:
            rel = rng.randint(0, min(late, horizon))
        optional = "optional" in f and rng.random() < 0.5
        clients.append(
            dict(
                loc=rng.randrange(n_loc),
                dlv=[maybe(rng, 0.7, rng.randint(0, 6), 0) for _ in range(n_dim)],
                pck=[
                    rng.randint(0, 6)
                    if "pickup" in f and rng.random() < 0.6
                    else 0
                    for _ in range(n_dim)
                ],
                serv=maybe(rng, 0.7, rng.randint(0, 6), 0),
                early=early,
                late=late,
                rel=rel,
                prize=rng.randint(0, 40) if optional or rng.random() < 0.2 else 0,
                req=not optional,
                grp=-1,
            )
        )

    groups = []
    if "groups" in f and n_cli >= 2:
        pool = list(range(n_cli))
        rng.shuffle(pool)
        for _ in range(rng.randint(1, 4 if wide else 2)):
            if len(pool) < 1:
                break
            size = rng.randint(1, min(5 if wide else 3, len(pool)))
            members = [pool.pop() for _ in range(size)]
            if rng.random() < 0.5:
                members.sort()
            for c in members:
                clients[c]["grp"] = len(groups)
                clients[c]["req"] = False
            groups.append(dict(cl=members, req=rng.random() < 0.5))

    shipments = []
    if "shipments" in f:
        for _ in range(rng.randint(1, max_shipments)):
            pe, pl, de, dl = 0, INF, 0, INF
            if "tw" in f and rng.random() < 0.6:
                pe, pl = window(rng, horizon, tight)
                de, dl = window(rng, horizon, tight)
                dl = max(dl, pe)
            optional = "optional" in f and rng.random() < 0.5
            shipments.append(
                dict(
                    p=dict(
                        loc=rng.randrange(n_loc),
                        early=pe,
                        late=pl,
                        serv=rng.randint(0, 4),
                    ),
                    d=dict(
                        loc=rng.randrange(n_loc),
                        early=de,
                        late=dl,
                        serv=rng.randint(0, 4),
                    ),
                    amt=[rng.randint(0, 6) for _ in range(n_dim)],
                    prize=rng.randint(0, 40) if optional or rng.random() < 0.2 else 0,
                    req=not optional,
                )
            )

    vehs = []
    n_types = rng.randint(2, 6 if wide else 3) if "hetero" in f else 1
    while len(vehs) < n_types:
        cap = [rng.choice([0, 3, 6, 10, 15, 30]) for _ in range(n_dim)]
        if wide and rng.random() < 0.6:  # only one dimension that matters
            k = rng.randrange(n_dim)
            cap = [c if j == k else 1000 for j, c in enumerate(cap)]
        init = [
            rng.randint(0, c) if "initial" in f and rng.random() < 0.6 else 0
            for c in cap
        ]
        early, late = 0, INF
        if "tw" in f and rng.random() < 0.5:
            early = rng.randint(0, horizon // 2)
            late = early + rng.randint(horizon // 3, horizon * 2)
        slate = late
        if "start_late" in f and rng.random() < 0.7:
            slate = early + rng.randint(
                0, min(late - early, horizon)
            )
        v = dict(
            n=rng.randint(1, max_vehicles),
            cap=cap,
            s=rng.randrange(n_dep),
            e=rng.randrange(n_dep),
            fixed=rng.choice([0, 0, 7, 25]),
            early=early,
            late=late,
            shift=rng.randint(0, horizon)
            if "shift" in f and rng.random() < 0.7
            else INF,
            maxdist=rng.randint(0, 40)
            if "maxdist" in f and rng.random() < 0.7
            else INF,
            ud=rng.choice([0, 1, 2]) if "zero_unit" in f else rng.choice([1, 1, 3]),
            ut=rng.choice([0, 1, 2]),
            prof=rng.randrange(n_prof),
            slate=slate,
            init=init,
            rld=rng.sample(range(n_dep), rng.randint(1, n_dep))
            if "reload" in f and rng.random() < 0.85
            else [],
            maxrl=INF,
            maxot=0,
            uo=0,
        )
        if v["rld"]:
            v["maxrl"] = rng.choice([INF, 0, 1, 2, 3, 5] if wide else [INF, 0, 1, 2, 3])
        if "overtime" in f and v["shift"] < INF:
            v["maxot"] = rng.choice([0, 5, 12, INF])
            v["uo"] = rng.choice([0, 1, 4])
        elif "overtime" in f:
            v["uo"] = rng.choice([0, 2])

        def overlap(a, b):
            return a["early"] <= b["late"] and a["late"] >= b["early"]

        if overlap(v, depots[v["s"]]) and overlap(v, depots[v["e"]]):
            vehs.append(v)
        elif rng.random() < 0.3:
            v["early"], v["late"] = 0, INF
            v["slate"] = INF
            vehs.append(v)

    def matrix():
        style = rng.random()
        if style < 0.25:  # planar-ish, symmetric
            xy = [(rng.randint(0, 8), rng.randint(0, 8)) for _ in range(n_loc)]
            return [
                [abs(a[0] - b[0]) + abs(a[1] - b[1]) for b in xy] for a in xy
            ]
        return [
            [0 if i == j else rng.randint(0, max_edge) for j in range(n_loc)]
            for i in range(n_loc)
        ]

    return dict(
        nloc=n_loc,
        ndim=n_dim,
        depots=depots,
        clients=clients,
        groups=groups,
        ships=shipments,
        vehs=vehs,
        dist=[matrix() for _ in range(n_prof)],
        dur=[matrix() for _ in range(n_prof)],
    )


def build(d):
    """Real ProblemData for the given instance dict."""
    import pyvrp as pv

    return pv.ProblemData(
        locations=[pv.Location(3 * i, 7 * i) for i in range(d["nloc"])],
        clients=[build_client(c) for c in d["clients"]],
        depots=[
            pv.Depot(
                location=x["loc"],
                tw_early=U(x["early"]),
                tw_late=U(x["late"]),
                service_duration=U(x["serv"]),
            )
            for x in d["depots"]
        ],
        vehicle_types=[build_vehicle(v) for v in d["vehs"]],
        distance_matrices=[UNIT[0] * np.array(m, dtype=np.int64).reshape(d["nloc"], -1) for m in d["dist"]],
        duration_matrices=[UNIT[0] * np.array(m, dtype=np.int64).reshape(d["nloc"], -1) for m in d["dur"]],
        groups=[
            pv.ClientGroup(clients=g["cl"], required=g["req"])
            for g in d["groups"]
        ],
        shipments=[build_shipment(s) for s in d["ships"]],
    )


def build_client(c):
    import pyvrp as pv

    return pv.Client(
        location=c["loc"],
        delivery=U(c["dlv"]),
        pickup=U(c["pck"]),
        service_duration=U(c["serv"]),
        tw_early=U(c["early"]),
        tw_late=U(c["late"]),
        release_time=U(c["rel"]),
        prize=U(c["prize"]),
        required=c["req"],
        group=None if c["grp"] < 0 else c["grp"],
    )


def build_shipment(s):
    import pyvrp as pv

    return pv.Shipment(
        pickup_location=s["p"]["loc"],
        delivery_location=s["d"]["loc"],
        pickup_tw_early=U(s["p"]["early"]),
        pickup_tw_late=U(s["p"]["late"]),
        pickup_service_duration=U(s["p"]["serv"]),
        delivery_tw_early=U(s["d"]["early"]),
        delivery_tw_late=U(s["d"]["late"]),
        delivery_service_duration=U(s["d"]["serv"]),
        amount=U(s["amt"]),
        prize=U(s["prize"]),
        required=s["req"],
    )


def build_vehicle(v):
    import pyvrp as pv

    kw = dict(
        num_available=v["n"],
        capacity=U(v["cap"]),
        start_depot=v["s"],
        end_depot=v["e"],
        fixed_cost=U(v["fixed"]),
        tw_early=U(v["early"]),
        tw_late=U(v["late"]),
        shift_duration=U(v["shift"]),
        max_distance=U(v["maxdist"]),
        unit_distance_cost=v["ud"],
        unit_duration_cost=v["ut"],
        profile=v["prof"],
        start_late=U(v["slate"]),
        initial_load=U(v["init"]),
        reload_depots=v["rld"],
        max_overtime=U(v["maxot"]),
        unit_overtime_cost=v["uo"],
    )
    if v["maxrl"] < INF:
        kw["max_reloads"] = v["maxrl"]
    return pv.VehicleType(**kw)


def max_trips(v):
    if not v["rld"]:
        return 1
    return INF if v["maxrl"] >= INF else v["maxrl"] + 1


def A(t, i):
    return dict(t=t, i=i)


def activity(a):
    import pyvrp as pv

    T = pv.ActivityType
    return pv.Activity(
        {"C": T.CLIENT, "D": T.DEPOT, "P": T.PICKUP, "L": T.DELIVERY}[a["t"]],
        a["i"],
    )


def act_json(a):
    """Real Activity to its JSON form."""
    if a.is_client():
        return A("C", a.idx)
    if a.is_depot():
        return A("D", a.idx)
    if a.is_pickup():
        return A("P", a.idx)
    if a.is_delivery():
        return A("L", a.idx)
    return A("?", a.idx)


def trip_of(rng, clients, ships):
    """One random trip over the given clients and shipments."""
    acts = [A("C", c) for c in clients]
    rng.shuffle(acts)
    for s in ships:
        i = rng.randint(0, len(acts))
        acts.insert(i, A("P", s))
        j = rng.randint(i + 1, len(acts))
        acts.insert(j, A("L", s))
    return acts


def route_acts(rng, d, v, clients, ships, p_reload=0.7):
    """
    Random valid activity list for a vehicle of type v (no start/end depot)
    servicing all the given clients and shipments.
    """
    veh = d["vehs"][v]
    cap = max_trips(veh)
    n_trips = 1
    if cap > 1 and rng.random() < p_reload:
        n_trips = rng.randint(1, min(cap, 4 if len(clients) < 6 else 6))
    trips = [([], []) for _ in range(n_trips)]
    for c in clients:
        rng.choice(trips)[0].append(c)
    for s in ships:
        rng.choice(trips)[1].append(s)
    acts = []
    for i, (cs, ss) in enumerate(trips):
        if i:
            acts.append(A("D", rng.choice(veh["rld"])))
        acts += trip_of(rng, cs, ss)
    return acts


def plan(rng, d, p_visit=0.8, p_empty=0.0):
    """
    Random valid plan: list of {v, acts}, respecting groups and fleet size.
    Not necessarily complete or feasible.
    """
    vehicles = [i for i, v in enumerate(d["vehs"]) for _ in range(v["n"])]
    rng.shuffle(vehicles)
    vehicles = vehicles[: rng.randint(0 if rng.random() < 0.1 else 1, len(vehicles))]

    chosen = []
    for g in d["groups"]:
        if rng.random() < p_visit:
            chosen.append(rng.choice(g["cl"]))
    for i, c in enumerate(d["clients"]):
        if c["grp"] < 0 and rng.random() < p_visit:
            chosen.append(i)
    ships = [i for i in range(len(d["ships"])) if rng.random() < p_visit]

    buckets = [([], []) for _ in vehicles]
    if buckets:
        for c in chosen:
            rng.choice(buckets)[0].append(c)
        for s in ships:
            rng.choice(buckets)[1].append(s)
    out = []
    for v, (cs, ss) in zip(vehicles, buckets):
        if not cs and not ss and rng.random() >= p_empty:
            continue
        out.append(dict(v=v, acts=route_acts(rng, d, v, cs, ss)))
    return out
