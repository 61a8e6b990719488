"""Copies, serialises and compares real objects (C22)."""

import copy
import pickle

import drv_data as D
import dump
import gen
import obs
from drv_route import evaluator, penalties

HOW = {
    **{
        f"pickle{p}": (lambda x, p=p: pickle.loads(pickle.dumps(x, protocol=p)))
        for p in range(2, pickle.HIGHEST_PROTOCOL + 1)
    },
    "copy": copy.copy,
    "deepcopy": copy.deepcopy,
}


def hashed(x):
    try:
        return hash(x)
    except TypeError:
        return None


def record(rng, kind, objs, keys, show):
    hs = [hashed(x) for x in objs]
    classes = sorted({h for h in hs if h is not None})
    copies = []
    for x in objs:
        how = rng.choice(sorted(HOW))
        a = show(x)
        y = HOW[how](x)
        if rng.random() < 0.3:  # a copy of the copy
            y = HOW[rng.choice(sorted(HOW))](y)
        copies.append(
            dict(
                how=how,
                a=a,
                b=show(y),
                eq=bool(x == y),
                qe=bool(y == x),
                ne=bool(x != y),
                hash=hashed(x) == hashed(y),
            )
        )
    return dict(
        kind=kind,
        keys=keys,
        eq=[[bool(x == y) for y in objs] for x in objs],
        ne=[[bool(x != y) for y in objs] for x in objs],
        hash=[0 if h is None else 1 + classes.index(h) for h in hs],
        copies=copies,
    )


def valid(kind, a):
    try:
        return D.MAKE[kind](copy.deepcopy(a))
    except D.ERRORS:
        return None


def vary(rng, kind, a):
    """Changes single fields of a."""
    a = copy.deepcopy(a)
    b = D.GENS[kind](rng, 0)
    f = rng.choice(sorted(a))
    if isinstance(a[f], dict):
        g = rng.choice(sorted(a[f]))
        a[f][g] = b[f][g]
    elif isinstance(a[f], list) and a[f]:
        a[f][rng.randrange(len(a[f]))] += 1
    elif isinstance(a[f], bool):
        a[f] = not a[f]
    elif isinstance(a[f], int) and 0 <= a[f] < 1000 and rng.random() < 0.6:
        a[f] += 1
    else:
        a[f] = b[f]
    return a


def objects(rng, kind):
    base = D.GENS[kind](rng, 0)
    vals = [base] + [vary(rng, kind, base) for _ in range(7)] + [base]
    objs = [x for x in (valid(kind, a) for a in vals) if x is not None]
    show = D.DUMP[kind]
    keys = [show(x) for x in objs]
    return record(rng, kind, objs, keys, show)


def data_objects(rng):
    import pyvrp as pv

    x = D.g_data(rng)
    vals = [x, copy.deepcopy(x)] + [D.mutate(rng, x) for _ in range(8)]
    objs = []
    for v in vals:
        try:
            objs.append(pv.ProblemData(**D.parts(v)))
        except D.ERRORS:
            pass
    flat = [dump.data(o)["lists"] for o in objs]

    def show(o):
        r = dump.data(o)
        return {f"{a}-{b}": r[a][b] for a in r for b in r[a]}

    return record(rng, "data", objs, flat, show)


def show_route(r):
    o = obs.route(r)
    o["str"] = str(r)
    o["acts"] = [gen.act_json(a) for a in r]
    o["get"] = [gen.act_json(r[k]) for k in range(len(r))]
    return o


def routes_and_solutions(rng):
    import pyvrp as pv

    d = gen.instance(rng, max_clients=40 if rng.random() < 0.03 else 5, max_shipments=2)
    data = gen.build(d)
    ces = [evaluator(penalties(rng, d)) for _ in range(2)]
    base = gen.plan(rng, d, p_visit=rng.choice([0.5, 0.9, 1.0]))
    plans = [base, list(reversed(base))]
    for _ in range(4):
        plans.append(gen.plan(rng, d, p_visit=rng.choice([0.5, 0.9])))
    for _ in range(3):  # small changes
        q = copy.deepcopy(base)
        if not q:
            continue
        r = rng.choice(q)
        how = rng.random()
        if how < 0.3:
            r["v"] = rng.randrange(len(d["vehs"]))
        elif len(r["acts"]) > 1:
            i, j = rng.sample(range(len(r["acts"])), 2)
            if how < 0.7:
                r["acts"][i], r["acts"][j] = r["acts"][j], r["acts"][i]
            else:
                r["acts"].pop(i)
        plans.append(q)

    def route(r):
        return pv.Route(data, [gen.activity(a) for a in r["acts"]], r["v"])

    rs, rkeys, ss, skeys = [], [], [], []
    for p in plans:
        try:
            real = [route(r) for r in p]
            s = pv.Solution(data, real)
        except (ValueError, RuntimeError):
            continue
        ss.append(s)
        skeys.append(p)
        rs += real
        rkeys += p
    keep = rng.sample(range(len(rs)), min(9, len(rs)))
    rs, rkeys = [rs[k] for k in keep], [rkeys[k] for k in keep]

    def show_sol(s):
        o = obs.solution(s)
        o["cost"] = [str(ce.cost(s)) for ce in ces]
        o["pen"] = [str(ce.penalised_cost(s)) for ce in ces]
        o["str"] = str(s)
        o["full"] = [show_route(r) for r in s.routes()]
        return o

    def show_act(a):
        return dict(
            **gen.act_json(a), trip=a.trip, start=a.start_time, end=a.end_time,
            dur=a.duration, wait=a.wait_duration, tw=a.time_warp, str=str(a),
        )  # fmt: skip

    acts = [a for r in rs for a in r.schedule()]
    acts = rng.sample(acts, min(6, len(acts)))

    def show_act_norm(a):
        return {
            k: gen.norm(v) if isinstance(v, int) else v
            for k, v in show_act(a).items()
        }

    return [
        record(rng, "route", rs, rkeys, show_route),
        record(rng, "solution", ss, skeys, show_sol),
        record(rng, "scheduled", acts, [show_act_norm(a) for a in acts], show_act_norm),
    ]


def basics(rng):
    import pyvrp as pv
    from pyvrp._pyvrp import DynamicBitset, PiecewiseLinearFunction

    acts = [gen.A(rng.choice("DCPL"), rng.randint(0, 3)) for _ in range(8)]
    out = [
        record(
            rng,
            "activity",
            [gen.activity(a) for a in acts],
            acts,
            lambda x: dict(**gen.act_json(x), str=str(x)),
        )
    ]
    bits = []
    for _ in range(6):
        b = DynamicBitset(rng.choice([0, 1, 64, 65, 128]))
        for _ in range(rng.randint(0, 3)):
            if len(b):
                b[rng.choice([0, 1, 63, len(b) - 1])] = True
        bits.append(b)

    def show(b):
        return dict(
            len=len(b), members=[k for k in range(len(b)) if b[k]], count=b.count()
        )

    out.append(record(rng, "bitset", bits, [show(b) for b in bits], show))
    fs = [
        PiecewiseLinearFunction(
            [rng.choice([0, 1])] if n else [],
            [(rng.randint(0, 1), rng.randint(0, 1)) for _ in range(n + 1)],
        )
        for n in (0, 0, 1, 1, 1)
    ]

    def show_f(f):
        return dict(
            breaks=list(f.breakpoints),
            lines=[list(s) for s in f.segments],
            ys=[f(x) for x in range(-3, 4)],
        )

    out.append(record(rng, "function", fs, [show_f(f) for f in fs], show_f))
    del pv
    return out


def run(lg, rng, tier, prop, shard, nshard):
    for _ in range(60 if tier == "quick" else 1000):
        for kind in D.GENS:
            lg.run(dict(kind=kind), lambda: objects(rng, kind))
        lg.run(dict(kind="data"), lambda: data_objects(rng))
        for fn in (routes_and_solutions, basics):
            box = []
            lg.run(dict(kind=fn.__name__), lambda: box.extend(fn(rng)))
            for rec in box:
                lg.case(rec)
