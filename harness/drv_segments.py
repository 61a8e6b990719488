"""Records concatenations of real duration and load segments (C07)."""

import gen
from gen import INF, U, norm


def dseg(dur, tw, early, late, rel=0, cdur=0, ctw=0, pel=INF):
    from pyvrp._pyvrp import DurationSegment

    return DurationSegment(*map(U, (dur, tw, early, late, rel, cdur, ctw, pel)))


def view(s):
    return dict(
        duration=norm(s.duration()),
        timeWarp=norm(s.time_warp()),
        startEarly=norm(s.start_early()),
        startLate=norm(s.start_late()),
        endEarly=norm(s.end_early()),
        endLate=norm(s.end_late()),
        release=norm(s.release_time()),
        slack=norm(s.slack()),
        prevEndLate=norm(s.prev_end_late()),
    )


def tree(rng, items, edges, merge):
    """Merges the items in a random association order."""
    items, edges = list(items), list(edges)
    while len(items) > 1:
        i = rng.randrange(len(items) - 1)
        items[i : i + 2] = [merge(edges[i], items[i], items[i + 1])]
        edges.pop(i)
    return items[0]


def site(d, a):
    t, i = a["t"], a["i"]
    if t == "C":
        return d["clients"][i]
    if t == "P":
        return d["ships"][i]["p"]
    if t == "L":
        return d["ships"][i]["d"]
    return d["depots"][i]


def durations(rng, d, v, acts):
    from pyvrp._pyvrp import DurationSegment as DS

    veh = d["vehs"][v]
    full = [gen.A("D", veh["s"]), *acts, gen.A("D", veh["e"])]
    locs = [site(d, a)["loc"] for a in full]
    D = d["dur"][veh["prof"]]
    merge = lambda e, a, b: DS.merge(U(e), a, b)  # noqa: E731
    n = len(full)

    def at(k):
        a, s = full[k], site(d, full[k])
        if k == 0:
            return merge(
                0,
                dseg(0, 0, veh["early"], veh["slate"]),
                dseg(s["serv"], 0, s["early"], s["late"]),
            )
        if k == n - 1:
            return merge(
                0,
                dseg(0, 0, s["early"], s["late"]),
                dseg(0, 0, veh["early"], veh["late"]),
            )
        if a["t"] == "D":
            return dseg(0, 0, s["early"], s["late"])
        return dseg(s["serv"], 0, s["early"], s["late"], s.get("rel", 0))

    bounds = [0] + [k for k in range(1, n - 1) if full[k]["t"] == "D"] + [n - 1]
    T = len(bounds) - 1

    def inner(t):
        lo, hi = bounds[t], bounds[t + 1]
        nodes = [at(k) for k in range(lo + 1, hi)]
        legs = [D[locs[k]][locs[k + 1]] for k in range(lo, hi)]
        return nodes, legs

    def back(t):  # trips 0..t closed towards later ones, ready to depart
        nodes, legs = inner(t)
        head = [at(0)] if t == 0 else [back(t - 1)]
        seg = tree(rng, [*head, *nodes, at(bounds[t + 1])], legs, merge)
        serv = dseg(site(d, full[bounds[t + 1]])["serv"], 0, 0, INF)
        return merge(0, seg.finalise_back(), serv)

    def front(t):  # trips t.. closed towards earlier ones
        nodes, legs = inner(t)
        lo = bounds[t]
        serv = dseg(site(d, full[lo])["serv"], 0, 0, INF)
        tail = at(n - 1) if t == T - 1 else front(t + 1)
        items = [at(lo), serv, *nodes, tail]
        return tree(rng, items, [0, *legs], merge).finalise_front()

    cuts = []
    for t in range(T):
        nodes, legs = inner(t)
        head = at(0) if t == 0 else back(t - 1)
        tail = at(n - 1) if t == T - 1 else front(t + 1)
        s = tree(rng, [head, *nodes, tail], legs, merge)
        maxes = [INF, rng.randint(0, 40), rng.randint(0, 90)]
        cuts.append(
            dict(
                trip=t,
                view=view(s),
                tws=[
                    dict(max=m, tw=norm(s.time_warp(U(m))))
                    for m in maxes
                ],
            )
        )

    parts = []  # parts of single trips, in random association
    for _ in range(4):
        t = rng.randrange(T)
        lo, hi = bounds[t], bounds[t + 1]
        i = rng.randint(lo if t == 0 else lo + 1, hi)
        j = rng.randint(i, hi)
        s = tree(
            rng,
            [at(k) for k in range(i, j + 1)],
            [D[locs[k]][locs[k + 1]] for k in range(i, j)],
            merge,
        )
        parts.append(dict(i=i + 1, j=j + 1, view=view(s)))
    return cuts, parts


def loads(rng, d, v, acts):
    from pyvrp._pyvrp import LoadSegment

    LS = lambda *xs: LoadSegment(*map(U, xs))  # noqa: E731
    veh = d["vehs"][v]
    out = []
    for k in range(d["ndim"]):

        def seg(a):
            if a["t"] == "C":
                c = d["clients"][a["i"]]
                x, y = c["dlv"][k], c["pck"][k]
                return LS(x, y - x, max(y - x, 0))
            amt = d["ships"][a["i"]]["amt"][k]
            return LS(0, amt, amt) if a["t"] == "P" else LS(0, -amt, 0)

        cap = veh["cap"][k]
        merge = lambda e, a, b: LoadSegment.merge(a, b)  # noqa: E731
        trips = [[LS(veh["init"][k], 0, 0)]]
        for a in acts:
            if a["t"] == "D":
                trips.append([])
            else:
                trips[-1].append(seg(a))
        for m in range(len(trips)):
            pre, suf = None, None
            for t in range(m):
                items = ([pre] if pre else []) + trips[t] + [LS(0, 0, 0)]
                pre = tree(rng, items, [0] * len(items), merge).finalise(U(cap))
            for t in reversed(range(m + 1, len(trips))):
                items = [LS(0, 0, 0)] + trips[t] + ([suf] if suf else [])
                suf = tree(rng, items, [0] * len(items), merge).finalise(U(cap))
            items = (
                ([pre] if pre else [])
                + trips[m]
                + [LS(0, 0, 0)]
                + ([suf] if suf else [])
            )
            s = tree(rng, items, [0] * len(items), merge)
            out.append(
                dict(
                    dim=k + 1,
                    trip=m,
                    load=norm(s.load()),
                    excess=norm(s.excess_load(U(cap))),
                    caps=[
                        dict(cap=c, excess=norm(s.excess_load(U(c))))
                        for c in [0, rng.randint(0, 20)]
                    ],
                )
            )
    return out


def raw(rng):
    """Arbitrary segments, as the public constructors allow."""
    from pyvrp._pyvrp import DurationSegment as DS

    def one():
        early = rng.randint(0, 20)
        late = rng.choice([early + rng.randint(0, 20), INF])
        dur = rng.randint(0, 15)
        return dict(
            dur=dur,
            tw=rng.choice([0, 0, rng.randint(0, dur)]),
            early=early,
            late=late,
            rel=rng.choice([0, 0, rng.randint(0, 40)]),
            cdur=0,
            ctw=0,
            pel=INF,
        )

    def cum(s):
        if rng.random() < 0.5:
            s["cdur"] = rng.randint(0, 20)
            s["ctw"] = rng.randint(0, s["cdur"])
            s["pel"] = rng.choice([INF, rng.randint(0, 40)])
        return s

    def mk(s):
        return dseg(*(s[k] for k in "dur tw early late rel cdur ctw pel".split()))

    a, b = cum(one()), one()
    e = rng.randint(0, 10)
    s = mk(a)
    m = DS.merge(U(e), s, mk(b))
    mx = rng.randint(0, 30)
    return dict(
        a=a,
        b=b,
        e=e,
        max=mx,
        va=view(s),
        vm=view(m),
        vf=view(s.finalise_front()),
        vb=view(s.finalise_back()),
        twm=norm(m.time_warp(U(mx))),
    )


COUNT = {"quick": 8000, "thorough": 100000}


def one(rng, d):
    plan = gen.plan(rng, d)
    rec = dict(d=d, routes=[], raws=[raw(rng) for _ in range(4)])
    for r in plan[:2]:
        cuts, parts = durations(rng, d, r["v"], r["acts"])
        lds = loads(rng, d, r["v"], r["acts"])
        rec["routes"].append(
            dict(v=r["v"], acts=r["acts"], cuts=cuts, parts=parts, loads=lds)
        )
    return rec


def run(lg, rng, tier, prop, shard, nshard):
    for k in range(COUNT[tier] // nshard):
        d = gen.instance(rng, max_clients=7, p_feature=rng.choice([0.3, 0.6, 0.8]))
        with gen.some_units(rng):
            lg.run(dict(k=k, d=d), lambda: one(rng, d))
