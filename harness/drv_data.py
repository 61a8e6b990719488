"""
Constructs data objects from valid and invalid field values, replaces fields,
and records outcomes and everything the objects report (C18).
"""

import copy

import dump
import gen
import log
import numpy as np
from gen import INF, _i64

ERRORS = (ValueError, IndexError, TypeError, OverflowError)
NAMES = ["", "a", "b c", "ünï", "x" * 40]


def val(x):
    """Field value as passed to the real constructor."""
    if isinstance(x, list):
        return [val(y) for y in x]
    return _i64(x) if isinstance(x, int) and not isinstance(x, bool) else x


# specification field -> constructor argument
CLIENT = dict(
    loc="location", dlv="delivery", pck="pickup", serv="service_duration",
    early="tw_early", late="tw_late", rel="release_time", prize="prize",
    req="required", grp="group", name="name",
)  # fmt: skip
DEPOT = dict(loc="location", early="tw_early", late="tw_late", serv="service_duration", name="name")
VEH = dict(
    n="num_available", cap="capacity", s="start_depot", e="end_depot",
    fixed="fixed_cost", early="tw_early", late="tw_late",
    shift="shift_duration", maxdist="max_distance", ud="unit_distance_cost",
    ut="unit_duration_cost", prof="profile", slate="start_late",
    init="initial_load", rld="reload_depots", maxrl="max_reloads",
    maxot="max_overtime", uo="unit_overtime_cost", name="name",
)  # fmt: skip


def args(spec, a):
    kw = {spec[k]: val(v) for k, v in a.items() if k in spec}
    if kw.get("group", 0) == -1:
        kw["group"] = None
    if a.get("sl") is False:
        kw.pop("start_late", None)
    if a.get("maxrl", 0) == INF:
        kw["max_reloads"] = 2**64 - 1
    return kw


def client(a):
    import pyvrp as pv

    return pv.Client(**args(CLIENT, a))


def depot(a):
    import pyvrp as pv

    return pv.Depot(**args(DEPOT, a))


def step(a):
    from pyvrp import _pyvrp

    return _pyvrp.ShipmentStep(**args(DEPOT, a))


def ship(a):
    import pyvrp as pv

    kw = dict(amount=a["amt"], prize=a["prize"], required=a["req"], name=a["name"])
    for k, pre in (("p", "pickup_"), ("d", "delivery_")):
        for f, v in args(DEPOT, a[k]).items():
            kw[pre + f] = v
    return pv.Shipment(**kw)


def veh(a):
    import pyvrp as pv

    return pv.VehicleType(**args(VEH, a))


def group(a):
    import pyvrp as pv

    return pv.ClientGroup(a["cl"], a["req"], name=a["name"])


def loc(a):
    import pyvrp as pv

    return pv.Location(float(a["x"]), float(a["y"]), name=a["name"])


MAKE = dict(client=client, depot=depot, step=step, ship=ship, veh=veh, loc=loc, group=group)
DUMP = dict(
    client=dump.client, depot=dump.depot, step=dump.step, ship=dump.shipment,
    veh=dump.vehicle, loc=dump.location, group=dump.group_all,
)  # fmt: skip


def attempt(kind, a):
    rec = dict(kind=kind, a=a)
    try:
        x = MAKE[kind](copy.deepcopy(a))
    except ERRORS:
        rec["ok"] = False
        return rec
    rec.update(ok=True, obs=DUMP[kind](x))
    if kind == "group":  # iterate over a group nobody else refers to
        rec["obs"]["it"] = [int(c) for c in iter(MAKE[kind](a))]
    return rec


def group_add(a, adds):
    g = group(a)
    oks = []
    for c in adds:
        try:
            g.add_client(c)
            oks.append(True)
        except ERRORS:
            oks.append(False)
    return dict(kind="groupadd", a=a, adds=adds, oks=oks, obs=dump.group_all(g))


def veh_replace(a, r):
    v = veh(a)
    rec = dict(kind="vehreplace", a=a, r=r, before=dump.vehicle(v))
    try:
        rec.update(ok=True, obs=dump.vehicle(v.replace(**args(VEH, r))))
    except ERRORS:
        rec.update(ok=False)
    rec["after"] = dump.vehicle(v)
    return rec


# --- problem data -----------------------------------------------------------


def parts(x):
    """Real constructor arguments for the (normalised) data record x."""
    vehs = [dict(v, sl=True) for v in x["vehs"]]
    return dict(
        locations=[loc(a) for a in x["locs"]],
        clients=[client(a) for a in x["clients"]],
        depots=[depot(a) for a in x["depots"]],
        vehicle_types=[veh(a) for a in vehs],
        distance_matrices=[mat(m) for m in x["dist"]],
        duration_matrices=[mat(m) for m in x["dur"]],
        groups=[group(a) for a in x["groups"]],
        shipments=[ship(a) for a in x["ships"]],
    )


def mat(m):
    return np.array(m, dtype=np.int64).reshape(len(m), -1 if m else 0)


FIELD = dict(
    locs="locations", clients="clients", depots="depots", vehs="vehicle_types",
    dist="distance_matrices", dur="duration_matrices", groups="groups",
    ships="shipments",
)  # fmt: skip


def meddle(kw, data):
    """Changes everything that can be changed and does not belong to data."""
    for m in kw.get("distance_matrices", []) + kw.get("duration_matrices", []):
        m += 1
    for g in kw.get("groups", []):
        g.add_client(77)
    for xs in kw.values():
        xs.clear()
    for g in data.groups():
        g.add_client(88)
    for i in range(data.num_groups):
        data.group(i).add_client(99)
    for xs in (
        data.locations(), data.clients(), data.depots(), data.groups(),
        data.shipments(), data.vehicle_types(), data.distance_matrices(),
        data.duration_matrices(),
    ):  # fmt: skip
        xs.clear()
    for p in range(data.num_profiles):
        for m in (data.distance_matrix(p), data.duration_matrix(p)):
            try:
                m += 1
            except ValueError:
                pass


def make_data(x):
    import pyvrp as pv

    rec = dict(kind="data", x=x)
    kw = parts(x)
    try:
        data = pv.ProblemData(**kw)
    except ERRORS:
        rec["ok"] = False
        return rec
    rec.update(ok=True, obs=dump.data(data))
    meddle(kw, data)
    rec["again"] = dump.data(data)
    return rec


def replace_data(x, r):
    import pyvrp as pv

    data = pv.ProblemData(**parts(x))
    kw = parts(dict(x, **r))
    kw = {FIELD[k]: kw[FIELD[k]] for k in r}
    rec = dict(kind="datareplace", x=x, r=r)
    try:
        new = data.replace(**kw)
        rec.update(ok=True, obs=dump.data(new))
        meddle(kw, new)
    except ERRORS:
        rec.update(ok=False)
    rec["after"] = dump.data(data)
    return rec


# --- generators --------------------------------------------------------------


def g_client(rng, p):
    def odd(x, alts):
        return rng.choice(alts) if rng.random() < p else x

    early = odd(rng.choice([0, 0, 5, 17]), [-1, 0, INF, 30])
    late = odd(rng.choice([INF, min(early + 4, INF), early]), [-1, 4, 5, 29, 30, INF])
    return dict(
        loc=odd(rng.randint(0, 4), [-1, 0]),
        dlv=odd([rng.randint(0, 5) for _ in range(rng.choice([0, 1, 2]))], [[-1], [0, -1], [1, 2, 3], []]),
        pck=odd([rng.randint(0, 5) for _ in range(rng.choice([0, 1, 2]))], [[-1], [0, -3], [1, 2, 3], []]),
        serv=odd(rng.randint(0, 9), [-1, 0]),
        early=early,
        late=late,
        rel=odd(rng.choice([0, 3]), [-1, late, min(late + 1, INF), min(late, 50) + 1]),
        prize=odd(rng.randint(0, 9), [-1, 0]),
        req=rng.random() < 0.5,
        grp=rng.choice([-1, 0, 3]),
        name=rng.choice(NAMES),
    )


def g_window(rng, p):
    early = rng.choice([0, 0, 5, 17])
    late = rng.choice([INF, early, early + 9])
    if rng.random() < p:
        early = rng.choice([-1, 0, late, late + 1 if late < INF else 0])
    if rng.random() < p:
        late = rng.choice([early, early - 1, -1])
    return early, late


def g_depot(rng, p, name=True):
    early, late = g_window(rng, p)
    a = dict(
        loc=rng.randint(0, 4),
        early=early,
        late=late,
        serv=-1 if rng.random() < p / 2 else rng.randint(0, 9),
    )
    if name:
        a["name"] = rng.choice(NAMES)
    return a


def g_ship(rng, p):
    a = dict(
        p=g_depot(rng, p / 2, False),
        d=g_depot(rng, p / 2, False),
        amt=[-1 if rng.random() < p / 3 else rng.randint(0, 5) for _ in range(rng.choice([0, 1, 2]))],
        prize=-1 if rng.random() < p / 2 else rng.randint(0, 9),
        req=rng.random() < 0.5,
        name=rng.choice(NAMES),
    )
    if rng.random() < 0.3:  # around the boundary: delivery closes as pickup opens
        a["p"]["early"] = rng.randint(2, 9)
        a["p"]["late"] = INF
        a["d"]["early"] = 0
        a["d"]["late"] = a["p"]["early"] + rng.choice([-1, 0, 1])
    return a


def g_veh(rng, p):
    def odd(x, alts):
        return rng.choice(alts) if rng.random() < p else x

    early, late = g_window(rng, p)
    cap = [odd(rng.randint(0, 9), [-1, 0]) for _ in range(rng.choice([0, 1, 2]))]
    init = [odd(rng.randint(0, max(c, 0)), [-1, c, c + 1]) for c in cap]
    if rng.random() < 0.4:
        init = init[: rng.randint(0, len(init))]
    if rng.random() < p:
        init = init + [rng.choice([0, 1])]
    sl = rng.random() < 0.5
    hi = min(late, 40)
    slate = odd(rng.randint(early, hi) if early <= hi else early, [early, early - 1, late, late + 1 if late < INF else late])
    return dict(
        n=odd(rng.randint(1, 3), [0, -1]),
        cap=cap,
        s=rng.randint(0, 2),
        e=rng.randint(0, 2),
        fixed=rng.choice([0, 5]),
        early=early,
        late=late,
        shift=odd(rng.choice([INF, rng.randint(0, 9)]), [-1, 0]),
        maxdist=odd(rng.choice([INF, rng.randint(0, 9)]), [-1, 0]),
        ud=odd(rng.randint(0, 2), [-1, 0]),
        ut=odd(rng.randint(0, 2), [-1, 0]),
        prof=rng.randint(0, 2),
        sl=sl,
        slate=slate if sl else 0,
        init=init,
        rld=[rng.randint(0, 2) for _ in range(rng.choice([0, 0, 1, 2]))],
        maxrl=rng.choice([INF, 0, 1, 5]),
        maxot=odd(rng.choice([0, rng.randint(0, 9), INF]), [-1]),
        uo=odd(rng.randint(0, 2), [-1]),
        name=rng.choice(NAMES),
    )


def g_group(rng, p):
    cl = rng.sample(range(9), rng.randint(0, 4))
    if cl and rng.random() < p:
        cl.insert(rng.randint(0, len(cl)), rng.choice(cl))
    return dict(cl=cl, req=rng.random() < 0.5, name=rng.choice(NAMES))


def g_loc(rng, p):
    return dict(
        x=repr(rng.choice([0.0, 1.5, -2.0, 1e9])),
        y=repr(rng.choice([0.0, 1.5, -2.0, 0.1])),
        name=rng.choice(NAMES),
    )


GENS = dict(
    client=g_client, depot=g_depot, step=lambda r, p: g_depot(r, p, False), ship=g_ship,
    veh=g_veh, group=g_group, loc=g_loc,
)  # fmt: skip


def g_data(rng, big=False):
    """Normalised record of a valid instance, with names and coordinates."""
    d = gen.instance(
        rng,
        max_clients=rng.choice([1, 3, 5]),
        max_shipments=2,
        max_locs=rng.choice([2, 4]),
        p_feature=rng.choice([0.3, 0.7]),
    )

    def nm():
        return rng.choice(NAMES[:3])

    return dict(
        locs=[dict(x=repr(float(rng.randint(0, 3))), y=repr(0.5 * i), name=nm()) for i in range(d["nloc"])],
        depots=[dict(a, name=nm()) for a in d["depots"]],
        clients=[dict(a, name=nm()) for a in d["clients"]],
        groups=[dict(a, name=nm()) for a in d["groups"]],
        ships=[dict(a, name=nm()) for a in d["ships"]],
        vehs=[
            dict(
                a,
                name=nm(),
                maxdur=INF if a["shift"] >= INF or a["maxot"] >= INF else a["shift"] + a["maxot"],
                trips=gen.max_trips(a),
            )
            for a in d["vehs"]
        ],
        dist=d["dist"],
        dur=d["dur"],
    )


def mutate(rng, x):
    """Breaks (or only bends) one requirement on the data as a whole."""
    x = copy.deepcopy(x)
    n = len(x["locs"])
    k = rng.randrange(16)
    cl, gr, sh, ve = x["clients"], x["groups"], x["ships"], x["vehs"]
    if k == 0 and cl:
        rng.choice(cl)["loc"] = rng.choice([n - 1, n, n + 3])
    elif k == 1 and cl:
        c = rng.choice(cl)
        c["dlv"], c["pck"] = c["dlv"] + [0], c["pck"] + [0]
    elif k == 2 and cl:
        c = rng.choice(cl)
        c["grp"] = rng.choice([len(gr), len(gr) - 1, 0, -1])
    elif k == 3 and cl:
        rng.choice(cl)["req"] = True
    elif k == 4 and gr:
        g = rng.choice(gr)
        c = rng.randint(0, len(cl))
        if c not in g["cl"]:
            g["cl"].append(c)
    elif k == 5 and gr:
        g = rng.choice(gr)
        if g["cl"]:
            g["cl"].pop(rng.randrange(len(g["cl"])))
    elif k == 6:
        gr.append(dict(cl=[], req=True, name=""))
    elif k == 7:
        x["depots"] = x["depots"][: rng.randint(0, len(x["depots"]))]
    elif k == 8:
        rng.choice(x["depots"] or [{}])["loc"] = rng.choice([n - 1, n])
    elif k == 9 and sh:
        s = rng.choice(sh)
        s[rng.choice("pd")]["loc"] = rng.choice([n - 1, n])
    elif k == 10 and sh:
        s = rng.choice(sh)
        s["amt"] = s["amt"] + [0] if rng.random() < 0.5 else s["amt"][:-1]
    elif k == 11 and ve:
        v = rng.choice(ve)
        nd = len(x["depots"])
        f = rng.choice(["s", "e", "prof", "rld", "cap"])
        if f == "prof":
            v["prof"] = rng.choice([len(x["dist"]), len(x["dist"]) - 1])
        elif f == "rld":
            v["rld"] = v["rld"] + [rng.choice([nd, nd - 1])] if nd else v["rld"]
            v["trips"] = gen.max_trips(v)
        elif f == "cap":
            v["cap"], v["init"] = v["cap"] + [1], v["init"] + [0]
        else:
            v[f] = rng.choice([nd, max(nd - 1, 0)])
    elif k == 12 and ve and x["depots"]:
        v = rng.choice(ve)  # window next to or just touching a depot's
        dp = rng.choice(x["depots"])
        if rng.random() < 0.5 and dp["late"] < INF:
            v["early"] = dp["late"] + rng.choice([0, 1])
            v["late"] = v["slate"] = v["early"] + 5
        elif dp["early"] > 0:
            v["early"] = 0
            v["late"] = v["slate"] = dp["early"] - rng.choice([0, 1])
    elif k == 13:
        f = rng.choice(["dist", "dur"])
        if rng.random() < 0.5 or not x[f]:
            x[f] = x[f][:-1]
        else:
            x[f] = x[f] + [x[f][0]]
    elif k == 14:
        f = rng.choice(["dist", "dur"])
        if all(x[f]) and x[f]:
            m = x[f][rng.randrange(len(x[f]))]
            how = rng.random()
            if how < 0.4:
                i = rng.randrange(min(len(m), len(m[0])))
                m[i][i] = rng.choice([0, 1, 5])
            elif how < 0.6:
                m.append([0] * len(m[0]))
            elif how < 0.8:
                for row in m:
                    row.append(0)
            else:
                m.pop()
    elif k == 15:
        if rng.random() < 0.3:
            x["vehs"] = []
        elif rng.random() < 0.5:
            x["locs"] = x["locs"][:-1]
        else:
            x["locs"] = x["locs"] + x["locs"][:1]
    return x


COUNT = {"quick": 20000, "thorough": 400000}


def replay(lg, shard, nshard):
    """Constructs everything that TLC generated from MCData."""
    items = log.behaviours("data", 0, 1)
    base = {x["kind"]: x["a"] for x in items if x["n"] == 0}  # well-formed
    for x in items[shard::nshard]:
        kind, a = x["kind"], x["a"]
        old = base[kind]
        diff = {f: v for f, v in a.items() if old[f] != v}
        if kind == "data":
            lg.run(dict(x=a), lambda: make_data(a))
            lg.run(dict(x=old, r=diff), lambda: replace_data(old, diff))
            continue
        lg.run(dict(kind=kind, a=a), lambda: attempt(kind, a))
        if kind == "veh":
            diff.pop("sl", None)
            if not a["sl"]:
                diff.pop("slate", None)
            lg.run(dict(a=old, r=diff), lambda: veh_replace(old, diff))


def run(lg, rng, tier, prop, shard, nshard):
    replay(lg, shard, nshard)
    for k in range(COUNT[tier] // nshard):
        kind = rng.choice(
            ["client", "client", "depot", "step", "ship", "ship", "veh", "veh", "veh", "group", "loc"]
            + ["groupadd", "vehreplace", "vehreplace"]
            + ["data"] * 6
            + ["datareplace"] * 2
        )
        if kind in GENS:
            a = GENS[kind](rng, rng.choice([0, 0.06, 0.2]))
            lg.run(dict(kind=kind, a=a), lambda: attempt(kind, a))
        elif kind == "groupadd":
            a = g_group(rng, 0)
            adds = [rng.randint(0, 9) for _ in range(rng.randint(1, 5))]
            lg.run(dict(a=a, adds=adds), lambda: group_add(a, adds))
        elif kind == "vehreplace":
            a = g_veh(rng, 0)
            other = g_veh(rng, rng.choice([0, 0.1]))
            fields = rng.sample(sorted(VEH), rng.choice([0, 1, 1, 2, 4]))
            r = {f: other[f] for f in fields if f != "slate"}
            if "slate" in fields and other["sl"]:
                r["slate"] = other["slate"]
            lg.run(dict(a=a, r=r), lambda: veh_replace(a, r))
        elif kind == "data":
            x = g_data(rng)
            for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
                x = mutate(rng, x)
            lg.run(dict(x=x), lambda: make_data(x))
        else:
            x = g_data(rng)
            y = mutate(rng, x) if rng.random() < 0.7 else g_data(rng)
            fields = rng.sample(sorted(FIELD), rng.choice([0, 1, 1, 2, 3, 8]))
            r = {f: y[f] for f in fields}
            lg.run(dict(x=x, r=r), lambda: replace_data(x, r))
