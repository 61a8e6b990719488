"""Records edit histories of real search routes (C08)."""

import gen
import log
from drv_segments import view
from gen import norm


def lview(s, cap):
    return dict(
        init=norm(s.initial()),
        delta=norm(s.delta()),
        inc=norm(s.increase()),
        load=norm(s.load()),
        excess=norm(s.excess_load(gen.U(cap))),
    )


def route_no(routes, r):
    if r is None:
        return 0
    for k, x in enumerate(routes):
        if x is r:
            return k + 1
    return -1


def listing(routes, r):
    return [
        dict(
            **gen.act_json(x.activity),
            pos=x.pos,
            trip=x.trip,
            route=route_no(routes, x.route),
        )
        for x in r
    ]


def queries(rng, d, v, r, n):
    veh = d["vehs"][v]
    D = range(d["ndim"])
    trips = [x.trip for x in r]
    dep = [x.is_depot() for x in r]
    out = []
    for _ in range(n):
        q = rng.choice(["before", "after", "between", "at"])
        i = rng.randrange(len(r))
        j = rng.randrange(i, len(r))
        prof = veh["prof"]
        if q == "before":
            res = (r.dist_before(j), r.duration_before(j), [r.load_before(j, k) for k in D])
        elif q == "after":
            res = (r.dist_after(i), r.duration_after(i), [r.load_after(i, k) for k in D])
        elif q == "at":
            prof = rng.randrange(len(d["dist"]))
            res = (r.dist_at(i, prof), r.duration_at(i, prof), [r.load_at(i, k) for k in D])
        else:
            while trips[j] - trips[i] > dep[j]:
                j -= 1
            prof = rng.randrange(len(d["dist"]))
            res = (
                r.dist_between(i, j, prof),
                r.duration_between(i, j, prof),
                [r.load_between(i, j, k) for k in D],
            )
        out.append(
            dict(
                q=q,
                i=i,
                j=j,
                prof=prof,
                dist=norm(res[0]),
                dur=view(res[1]),
                load=[lview(x, veh["cap"][k]) for k, x in enumerate(res[2])],
            )
        )
    return out


def stats(rng, d, v, r):
    return dict(
        distance=norm(r.distance()),
        excessDist=norm(r.excess_distance()),
        distCost=norm(r.distance_cost()),
        duration=norm(r.duration()),
        overtime=norm(r.overtime()),
        durCost=norm(r.duration_cost()),
        timeWarp=norm(r.time_warp()),
        load=[norm(x) for x in r.load()],
        excessLoad=[norm(x) for x in r.excess_load()],
        feas=r.is_feasible(),
        hasTw=r.has_time_warp(),
        hasEd=r.has_excess_distance(),
        hasEl=r.has_excess_load(),
        nCli=r.num_clients(),
        nPick=r.num_pickups(),
        nTrips=r.num_trips(),
        nDep=r.num_depots(),
        len=len(r),
        maxTrips=min(r.max_trips(), gen.INF),
        v=r.vehicle_type,
        fixed=norm(r.fixed_vehicle_cost()),
        prof=r.profile(),
        cap=[norm(x) for x in r.capacity()],
        s=r.start_depot(),
        e=r.end_depot(),
        qs=queries(rng, d, v, r, 5),
    )


def history(rng, d, n_ops):
    from pyvrp.search._search import Node, Route

    data = gen.build(d)
    vehs = [rng.randrange(len(d["vehs"])) for _ in range(rng.randint(1, 3))]
    routes = [Route(data, v) for v in vehs]
    names = [gen.A("C", i) for i in range(len(d["clients"]))]
    names += [gen.A(t, i) for i in range(len(d["ships"])) for t in "PL"]
    rng.shuffle(names)
    names = names[:9]
    nodes = [Node(gen.activity(a)) for a in names]
    ident = lambda k: dict(**names[k], id=k)  # noqa: E731
    none = dict(t="", i=0, id=-2)

    ops = []
    for _ in range(n_ops):
        free = [k for k in range(len(nodes)) if nodes[k].route is None]
        r = rng.randrange(len(routes))
        R = routes[r]
        op = rng.choices(
            ["insert", "append", "depot", "remove", "clear", "swap", "update"],
            [5, 3, 3, 3, 0.4, 3, 4],
        )[0]
        rec = dict(op=op, r=r + 1, k=0, x=none, y=none, ok=True)
        try:
            if op in ("insert", "append"):
                if not free:
                    continue
                k = rng.choice(free)
                rec.update(x=ident(k), k=rng.randint(1, len(R) - 1))
                if op == "append":
                    R.append(nodes[k])
                else:
                    R.insert(rec["k"], nodes[k])
            elif op == "depot":
                v = d["vehs"][vehs[r]]
                i = rng.choice(v["rld"] or [0])
                x = gen.A("D", i)
                rec.update(op="insert", k=rng.randint(1, len(R) - 1), x=dict(**x, id=-1))
                R.insert(rec["k"], Node(gen.activity(x)))
            elif op == "remove":
                if len(R) == 2:
                    continue
                rec["k"] = rng.randint(1, len(R) - 2)
                del R[rec["k"]]
            elif op == "clear":
                R.clear()
            elif op == "swap":
                if len(nodes) < 2:
                    continue
                a, b = rng.sample(range(len(nodes)), 2)
                rec.update(x=ident(a), y=ident(b))
                Route.swap(nodes[a], nodes[b])
            elif op == "update":
                R.update()
        except ValueError:
            rec["ok"] = False
        rec["lists"] = [listing(routes, x) for x in routes]
        rec["where"] = [
            dict(route=route_no(routes, x.route), pos=x.pos, trip=x.trip) for x in nodes
        ]
        if op == "update":
            rec["stats"] = stats(rng, d, vehs[r], R)
        ops.append(rec)
    for x in routes:
        x.clear()
    return dict(d=d, vehs=vehs, nodes=names, ops=ops)


def replay(rng, head, hist):
    """One history that TLC generated from MCEdits."""
    from pyvrp.search._search import Node, Route

    d, vehs = head["inst"], head["vehs"]
    data = gen.build(d)
    routes = [Route(data, v) for v in vehs]
    names = [gen.A(x["t"], x["i"]) for x in head["nodes"]]
    nodes = [Node(gen.activity(a)) for a in names]
    ops = []

    def record(o, ok=True):
        rec = dict(o, ok=ok, lists=[listing(routes, x) for x in routes])
        rec["where"] = [
            dict(route=route_no(routes, x.route), pos=x.pos, trip=x.trip) for x in nodes
        ]
        if o["op"] == "update":
            r = o["r"] - 1
            rec["stats"] = stats(rng, d, vehs[r], routes[r])
        ops.append(rec)

    def update(r):
        routes[r].update()
        none = dict(t="", i=0, id=-2)
        record(dict(op="update", r=r + 1, k=0, x=none, y=none))

    def node(x):
        return Node(gen.activity(x)) if x["id"] < 0 else nodes[x["id"]]

    for o in hist:
        R, ok = routes[o["r"] - 1], True
        try:
            if o["op"] == "insert":
                R.insert(o["k"], node(o["x"]))
            elif o["op"] == "append":
                R.append(node(o["x"]))
            elif o["op"] == "remove":
                del R[o["k"]]
            elif o["op"] == "clear":
                R.clear()
            elif o["op"] == "swap":
                Route.swap(node(o["x"]), node(o["y"]))
        except ValueError:
            ok = False
        record(o, ok)
        if rng.random() < 0.4:
            update(rng.randrange(len(routes)))
    for r in range(len(routes)):
        update(r)
    for x in routes:
        x.clear()
    return dict(d=d, vehs=vehs, nodes=names, ops=ops)


COUNT = {"quick": 3000, "thorough": 60000}


def run(lg, rng, tier, prop, shard, nshard):
    items = log.behaviours("edits", 0, 1)
    head = next(x for x in items if "inst" in x)
    for x in [x["hist"] for x in items if "hist" in x][shard::nshard]:
        lg.run(dict(hist=x), lambda: replay(rng, head, x))
    for k in range(COUNT[tier] // nshard):
        d = gen.instance(rng, max_clients=20 if k % 20 == 0 else 6, p_feature=rng.choice([0.3, 0.6, 0.8]))
        if rng.random() < 0.5:
            for v in d["vehs"]:
                if not v["rld"]:
                    v["rld"], v["maxrl"] = [0], rng.choice([gen.INF, 1, 2])
        n = rng.choice([12, 25, 40])
        with gen.some_units(rng):
            lg.run(dict(k=k, d=d, n=n), lambda: history(rng, d, n))
