"""Records evaluations of real Route and Solution objects (C01-C06)."""

import random

import gen
import log
import obs


def whole(q):
    """Whole penalties only, in large units: then nothing is truncated."""
    return q if gen.UNIT[0] == 1 else 4 * q


def penalties(rng, d):
    return dict(
        load=[whole(rng.choice([0, 1, 4, 6, 10, 35])) for _ in range(d["ndim"])],
        tw=whole(rng.choice([0, 1, 3, 4, 9, 40])),
        dist=whole(rng.choice([0, 2, 4, 5, 17])),
    )


def evaluator(p):
    from pyvrp import CostEvaluator

    return CostEvaluator(
        [x / 4 for x in p["load"]], p["tw"] / 4, p["dist"] / 4
    )


def mutate(rng, d, v, acts):
    """Perturbs a valid activity list; the result may or may not be valid."""
    A = gen.A
    acts = [dict(a) for a in acts]
    for _ in range(rng.randint(1, 3)):
        op = rng.randrange(7)
        if op == 0 and acts:  # drop one
            acts.pop(rng.randrange(len(acts)))
        elif op == 1 and len(acts) > 1:  # swap two
            i, j = rng.sample(range(len(acts)), 2)
            acts[i], acts[j] = acts[j], acts[i]
        elif op == 2:  # insert a depot
            i = rng.randrange(len(d["depots"]) + (rng.random() < 0.1))
            acts.insert(rng.randint(0, len(acts)), A("D", i))
        elif op == 3 and d["ships"]:
            t = rng.choice("PL")
            i = rng.randrange(len(d["ships"]) + (rng.random() < 0.1))
            acts.insert(rng.randint(0, len(acts)), A(t, i))
        elif op == 4:
            i = rng.randrange(len(d["clients"]) + 1)
            acts.insert(rng.randint(0, len(acts)), A("C", i))
        elif op == 5 and acts:  # duplicate
            acts.insert(rng.randint(0, len(acts)), dict(rng.choice(acts)))
        elif op == 6 and len(acts) > 1:  # move one
            a = acts.pop(rng.randrange(len(acts)))
            acts.insert(rng.randint(0, len(acts)), a)
    return acts


def try_route(data, v, acts):
    import pyvrp as pv

    try:
        return pv.Route(data, [gen.activity(a) for a in acts], v)
    except (ValueError, RuntimeError, IndexError):
        return None


def acceptance(rng, d):
    import pyvrp as pv

    data = gen.build(d)
    rtry, stry = [], []
    pool = []
    for _ in range(6):
        plan = gen.plan(rng, d, p_empty=0.3)
        for r in plan:
            acts = r["acts"] if rng.random() < 0.3 else mutate(rng, d, r["v"], r["acts"])
            v = r["v"] if rng.random() < 0.7 else rng.randrange(len(d["vehs"]))
            real = try_route(data, v, acts)
            rtry.append(dict(v=v, acts=acts, ok=real is not None))
            if real is not None:
                pool.append((dict(v=v, acts=acts), real))
    for _ in range(6):  # valid plans, and small deviations from them
        plan = gen.plan(rng, d, p_empty=0.05)
        routes = []
        for r in plan:
            if rng.random() < 0.2:
                cand = dict(v=rng.randrange(len(d["vehs"])), acts=r["acts"])
                real = try_route(data, **cand)
                if real is not None:
                    routes.append((cand, real))
                    continue
            real = try_route(data, **r)
            if real is not None:
                routes.append((r, real))
        if pool and rng.random() < 0.5:
            routes.insert(rng.randint(0, len(routes)), rng.choice(pool))
        if routes and rng.random() < 0.2:
            routes.append(rng.choice(routes))
        try:
            pv.Solution(data, [x[1] for x in routes])
            ok = True
        except (ValueError, RuntimeError, IndexError):
            ok = False
        stry.append(dict(plan=[x[0] for x in routes], ok=ok))
    return dict(d=d, rtry=rtry, stry=stry)


def evaluation(rng, d, prop, plan=None):
    import pyvrp as pv

    data = gen.build(d)
    if plan is not None:
        solved = True
    elif prop in ("C01", "C02", "C03") and rng.random() < 0.3:
        # also routes without any client or shipment, and single big routes
        v = rng.randrange(len(d["vehs"]))
        cs = list(range(len(d["clients"]))) if rng.random() < 0.6 else []
        ss = list(range(len(d["ships"]))) if rng.random() < 0.6 else []
        plan = [dict(v=v, acts=gen.route_acts(rng, d, v, cs, ss))]
        solved = False
    else:
        plan = gen.plan(rng, d, p_visit=rng.choice([0.5, 0.85, 1.0]))
        solved = True
    real = [
        pv.Route(data, [gen.activity(a) for a in r["acts"]], r["v"])
        for r in plan
    ]
    rec = dict(d=d, plan=plan, solved=solved)
    if prop in ("C01", "C02", "C03"):
        rec["routes"] = [obs.route(r) for r in real]
        return rec
    sol = pv.Solution(data, real)
    if prop == "C05":
        rec["sol"] = obs.solution(sol)
        return rec
    rec["pens"] = []
    for _ in range(3):
        p = penalties(rng, d)
        ce = evaluator(p)
        p["penCost"] = gen.norm(ce.penalised_cost(sol))
        p["cost"] = gen.norm(ce.cost(sol))
        p["load_q"] = [
            dict(load=ld, cap=cap, dim=k, out=gen.norm(ce.load_penalty(gen.U(ld), gen.U(cap), k)))
            for k in range(d["ndim"])
            for ld, cap in [(rng.randint(0, 30), rng.randint(0, 30))]
        ]
        p["tw_q"] = [dict(tw=x, out=gen.norm(ce.tw_penalty(gen.U(x)))) for x in [0, rng.randint(0, 99)]]
        p["dist_q"] = [
            dict(dist=x, max=y, out=gen.norm(ce.dist_penalty(gen.U(x), gen.U(y))))
            for x, y in [(rng.randint(0, 50), rng.randint(0, 50))]
        ]
        rec["pens"].append(p)
    return rec


def cheap(rng, d):
    """Loosens an instance such that feasible solutions are common."""
    for v in d["vehs"]:
        if rng.random() < 0.7:
            v["cap"] = [c + 40 for c in v["cap"]]
    return d


def replay_plans(lg, prop, shard, nshard):
    """Replays every plan that TLC generated from MCPlans."""
    import pyvrp as pv

    items = log.behaviours("plans", 0, 1)
    insts = {x["which"]: x["inst"] for x in items if "inst" in x}
    plans = [x for x in items if "plan" in x]
    if prop in ("C01", "C02", "C03"):
        plans = [x for x in plans if x["routesOk"]]
    elif prop in ("C05", "C06"):
        plans = [x for x in plans if x["ok"]]
    plans = plans[shard::nshard]

    def attempts(d, chunk):
        data = gen.build(d)
        rtry, stry = [], []
        for x in chunk:
            real = [try_route(data, **r) for r in x["plan"]]
            rtry += [dict(r, ok=y is not None) for r, y in zip(x["plan"], real)]
            if None not in real:
                try:
                    pv.Solution(data, real)
                    ok = True
                except (ValueError, RuntimeError, IndexError):
                    ok = False
                stry.append(dict(plan=x["plan"], ok=ok))
        return dict(d=d, rtry=rtry, stry=stry)

    def routes(d, chunk):
        data = gen.build(d)
        plan = [r for x in chunk for r in x["plan"]]
        real = [
            pv.Route(data, [gen.activity(a) for a in r["acts"]], r["v"])
            for r in plan
        ]
        return dict(d=d, plan=plan, solved=False, routes=[obs.route(r) for r in real])

    for which, d in insts.items():
        mine = [x for x in plans if x["which"] == which]
        size = 40 if prop in ("C01", "C02", "C03", "C04") else 1
        for k in range(0, len(mine), size):
            chunk = mine[k : k + size]
            desc = dict(d=d, chunk=chunk)
            if prop == "C04":
                lg.run(desc, lambda: attempts(d, chunk))
            elif size > 1:
                lg.run(desc, lambda: routes(d, chunk))
            else:
                rng = random.Random(k)
                plan = chunk[0]["plan"]
                lg.run(desc, lambda: evaluation(rng, d, prop, plan))


COUNT = {"quick": 6000, "thorough": 80000}


def run(lg, rng, tier, prop, shard, nshard):
    replay_plans(lg, prop, shard, nshard)
    for k in range(COUNT[tier] // nshard):
        big = k % 40 == 7
        d = gen.instance(
            rng,
            max_clients=90 if big and prop != "C01" else (12 if big else 6),
            min_clients=60 if big and prop != "C01" else 0,
            p_feature=rng.choice([0.15, 0.4, 0.6, 0.8]),
        )
        if prop in ("C05", "C06") and rng.random() < 0.6:
            d = cheap(rng, d)
        desc = dict(k=k, d=d)
        with gen.some_units(rng):
            if prop == "C04":
                lg.run(desc, lambda: acceptance(rng, d))
            else:
                lg.run(desc, lambda: evaluation(rng, d, prop))
