"""Records evaluations and applications of real local search operators (C09)."""

import json
from pathlib import Path

import gen
import log
from drv_route import evaluator, penalties
from gen import A, norm

BINARY = [
    "Relocate1",
    "Relocate2",
    "Relocate3",
    "Swap11",
    "Swap21",
    "Swap22",
    "Swap31",
    "Swap32",
    "Swap33",
    "SwapTails",
    "RelocateAlternative",
    "RelocateShipment",
    "RelocateWithDepot",
    "ReplaceOptionalClient",
    "ReplaceOptionalShipment",
    "InsertOptionalClient",
    "InsertOptionalShipment",
]
UNARY = [
    "RemoveAdjacentDepot",
    "RemoveOptionalClient",
    "RemoveOptionalShipment",
    "ReplaceGroup",
    "RelocateDelivery",
    "RelocatePickup",
]


SYMMETRIC = ("Swap11", "Swap22", "Swap33", "SwapTails")


def mirrored(op, o, U, V, ce):
    """Is the same move judged applicable with U and V in each other's role?"""
    if op not in SYMMETRIC or not U.route or V.is_depot() or U == V:
        return False
    return o.evaluate(V, U, ce)[1]


def reachable(rng, d):
    """
    Makes sure that no trip is released after its reload depot closes, in any
    route.
    """
    rel = max((c["rel"] for c in d["clients"]), default=0)
    for v in d["vehs"]:
        for i in v["rld"]:
            x = d["depots"][i]
            if x["late"] < rel:
                x["late"] = rel + rng.randint(0, 10)
    return d


def snapshot(sol):
    return [
        dict(
            v=r.vehicle_type,
            acts=[gen.act_json(x.activity) for x in list(r)[1:-1]],
        )
        for r in sol.routes
    ]


def usable(d, R):
    """Operators that have something to work on."""
    acts = [a for r in R for a in r["acts"]]
    seen = {(a["t"], a["i"]) for a in acts}
    ops = []
    if len(acts) > 0:
        ops += ["Relocate1", "Relocate2", "Relocate3", "SwapTails"]
        ops += ["Swap11", "Swap21", "Swap22", "Swap31", "Swap32", "Swap33"]
    if d["groups"]:
        ops += ["RelocateAlternative", "ReplaceGroup"] * 2
    if any(v["rld"] for v in d["vehs"]):
        ops += ["RelocateWithDepot"] * 2
        if any(a["t"] == "D" for a in acts):
            ops += ["RemoveAdjacentDepot"] * 2
    if d["ships"]:
        ops += ["RelocateShipment", "RelocateDelivery", "RelocatePickup"]
        ops += ["InsertOptionalShipment", "ReplaceOptionalShipment"]
        ops += ["RemoveOptionalShipment"]
    if any(("C", i) not in seen for i in range(len(d["clients"]))):
        ops += ["InsertOptionalClient", "ReplaceOptionalClient"] * 2
    ops += ["RemoveOptionalClient"]
    return ops


UNPLANNED_FIRST = {
    "InsertOptionalClient",
    "InsertOptionalShipment",
    "ReplaceOptionalClient",
    "ReplaceOptionalShipment",
    "ReplaceGroup",
}
PICKUPS = {
    "RelocateShipment",
    "RelocateDelivery",
    "RelocatePickup",
    "InsertOptionalShipment",
    "ReplaceOptionalShipment",
    "RemoveOptionalShipment",
}
CLIENTS = {
    "RelocateAlternative",
    "ReplaceGroup",
    "ReplaceOptionalClient",
    "InsertOptionalClient",
    "RemoveOptionalClient",
    "RelocateWithDepot",
}


def pick_u(rng, d, sol, op):
    pool = [A("C", i) for i in range(len(d["clients"]))]
    pool += [A("P", i) for i in range(len(d["ships"]))]
    if not pool:
        return None
    if rng.random() < 0.9:
        if op in PICKUPS:
            pool = [a for a in pool if a["t"] == "P"] or pool
        if op in CLIENTS:
            pool = [a for a in pool if a["t"] == "C"] or pool
    planned = {
        (a["t"], a["i"]): sol[gen.activity(a)].route is not None for a in pool
    }
    want = op not in UNPLANNED_FIRST
    good = [a for a in pool if planned[a["t"], a["i"]] == want]
    if good and rng.random() < 0.92:
        pool = good
    return rng.choice(pool)


def pick_v(rng, sol, op, u, node):
    places = []
    for r, route in enumerate(sol.routes):
        for k, x in enumerate(route):
            if x.is_end_depot() or x is node:
                continue
            if op == "SwapTails" and x.is_reload_depot():
                continue
            a = gen.act_json(x.activity)
            if a == u:
                continue
            places.append((dict(r=r + 1, k=k), x))
    if node.route is not None and rng.random() < 0.35:
        same = [p for p in places if sol.routes[p[0]["r"] - 1] is node.route]
        places = same or places
    return rng.choice(places) if places else None


def history(lg, rng, d, n_steps, focus=None):
    import pyvrp as pv
    from pyvrp.search import _search as S

    data = gen.build(d)
    plan = gen.plan(rng, d, p_visit=rng.choice([0.5, 0.85, 1.0]))
    sol = S.Solution(data)
    sol.load(
        pv.Solution(
            data,
            [pv.Route(data, [gen.activity(a) for a in r["acts"]], r["v"]) for r in plan],
        )
    )
    steps = []
    ops = {}
    pens = [penalties(rng, d) for _ in range(2)]
    for _ in range(n_steps):
        pre = snapshot(sol)
        op = rng.choice(focus or usable(d, pre))
        if op not in ops or rng.random() < 0.3:
            ops[op] = getattr(S, op)(data)
        o = ops[op]
        if hasattr(o, "init"):
            o.init(sol)
        else:
            o = ops[op] = getattr(S, op)(data)
        pen = rng.choice(pens)
        lg.begin(dict(d=d, op=op, pre=pre, pen=pen))
        ce = evaluator(pen)
        evals, applied = [], False

        def attempt(o, pick):
            u, place, U, V = pick
            res = o.evaluate(U, ce) if V is None else o.evaluate(U, V, ce)
            mirror = V is not None and mirrored(op, o, U, V, ce)
            return dict(
                u=u, v=place, delta=norm(res[0]), should=res[1], mirror=mirror
            )

        def draw(last=None):
            # Often the same U, which operators may cache things for.
            u = last if last and rng.random() < 0.5 else pick_u(rng, d, sol, op)
            if u is None:
                return None
            U = sol[gen.activity(u)]
            if op in UNARY:
                return u, dict(r=0, k=0), U, None
            v = pick_v(rng, sol, op, u, U)
            return v and (u, v[0], U, v[1])

        # Another instance looks for an improving move; then this one gets to
        # evaluate a few moves, that move last.
        probe = getattr(S, op)(data)
        if hasattr(probe, "init"):
            probe.init(sol)
        best = None
        for _ in range(rng.choice([0, 20, 60])):
            pick = draw(best and best[0])
            if pick and attempt(probe, pick)["should"]:
                best = pick
                break
        picks = []
        for _ in range(rng.randint(0 if best else 1, 3)):
            pick = draw(best and best[0])
            if pick:
                picks.append(pick)
        for pick in picks + ([best] if best else []):
            evals.append(attempt(o, pick))
        if evals and evals[-1]["should"] and rng.random() < 0.9:
            applied = True
            _, _, U, V = best or picks[-1]
        if not evals:
            continue
        same = snapshot(sol) == pre
        post = pre
        if applied:
            if op in UNARY:
                o.apply(U)
            else:
                o.apply(U, V)
            post = snapshot(sol)
            for r in sol.routes:
                r.update()
                if r.num_clients() == 0 and r.num_pickups() == 0:
                    r.clear()  # as the local search does
                    r.update()
        steps.append(
            dict(
                op=op,
                pen=pen,
                pre=pre,
                evals=evals,
                same=same,
                applied=applied,
                post=post,
                supports=getattr(S, op).supports(data),
            )
        )
    return dict(d=d, steps=steps)


def everywhere(d, plan, pen):
    """All operators on all (U, V) of a plan; improving moves are applied."""
    import pyvrp as pv
    from pyvrp.search import _search as S

    data = gen.build(d)
    start = pv.Solution(
        data,
        [pv.Route(data, [gen.activity(a) for a in r["acts"]], r["v"]) for r in plan],
    )
    ce = evaluator(pen)

    def fresh(op):
        sol = S.Solution(data)
        sol.load(start)
        o = getattr(S, op)(data)
        if hasattr(o, "init"):
            o.init(sol)
        return sol, o

    us = [A("C", i) for i in range(len(d["clients"]))]
    us += [A("P", i) for i in range(len(d["ships"]))]
    steps = []
    for op in UNARY + BINARY:
        sol, o = fresh(op)
        pre = snapshot(sol)
        pairs = []
        for u in us:
            if op in UNARY:
                pairs.append((u, dict(r=0, k=0)))
                continue
            for r, route in enumerate(sol.routes):
                for k, x in enumerate(route):
                    if x.is_end_depot() or gen.act_json(x.activity) == u:
                        continue
                    if op == "SwapTails" and x.is_reload_depot():
                        continue
                    pairs.append((u, dict(r=r + 1, k=k)))

        def evaluate(sol, o, u, v):
            args = [sol[gen.activity(u)]]
            if v["r"]:
                args.append(sol.routes[v["r"] - 1][v["k"]])
            delta, should = o.evaluate(*args, ce)
            mirror = len(args) == 2 and mirrored(op, o, *args, ce)
            return (
                dict(u=u, v=v, delta=norm(delta), should=should, mirror=mirror),
                args,
            )

        def step(evals, sol, applied):
            post = snapshot(sol)
            supports = getattr(S, op).supports(data)
            steps.append(
                dict(
                    op=op,
                    pen=pen,
                    pre=pre,
                    evals=evals,
                    same=applied or post == pre,
                    applied=applied,
                    post=post,
                    supports=supports,
                )
            )

        evals = [evaluate(sol, o, u, v)[0] for u, v in pairs]
        if evals:
            step(evals, sol, False)
        for e in [e for e in evals if e["should"]]:
            sol, o = fresh(op)
            again, args = evaluate(sol, o, e["u"], e["v"])
            if again["should"]:
                o.apply(*args)
            step([again], sol, again["should"])
    return dict(d=d, steps=steps)


def replay_plans(lg, rng, tier, shard, nshard):
    """All moves on the plans that TLC generated from MCMoves."""
    items = log.behaviours("moves", 0, 1)
    insts = {x["which"]: x["inst"] for x in items if "inst" in x}
    for x in items[shard::nshard]:
        d = insts[x["which"]]
        for _ in range(1 if tier == "quick" else 4):
            pen = penalties(rng, d)
            desc = dict(d=d, plan=x["plan"], pen=pen)
            lg.run(desc, lambda: everywhere(d, x["plan"], pen))


def known():
    """
    A recorded finding: a reload depot that closes before the release time of
    the trip that leaves it.
    """
    import pyvrp as pv
    from pyvrp.search import _search as S

    k = json.loads((Path(__file__).parent / "known_c09.json").read_text())
    d = k["d"]
    data = gen.build(d)
    sol = S.Solution(data)
    routes = [
        pv.Route(data, [gen.activity(a) for a in r["acts"]], r["v"]) for r in k["plan"]
    ]
    sol.load(pv.Solution(data, routes))
    op = getattr(S, k["op"])(data)
    op.init(sol)
    pre = snapshot(sol)
    U = sol[gen.activity(k["u"])]
    V = sol.routes[k["v"]["r"] - 1][k["v"]["k"]]
    delta, should = op.evaluate(U, V, evaluator(k["pen"]))
    same = snapshot(sol) == pre
    if should:
        op.apply(U, V)
    step = dict(
        op=k["op"],
        pen=k["pen"],
        pre=pre,
        evals=[
            dict(u=k["u"], v=k["v"], delta=norm(delta), should=should, mirror=False)
        ],
        same=same,
        applied=should,
        post=snapshot(sol),
        supports=True,
    )
    return dict(d=d, steps=[step], key="reload-closes-before-release")


SHIP_OPS = [
    "RelocateShipment",
    "RelocateDelivery",
    "RelocatePickup",
    "InsertOptionalShipment",
    "ReplaceOptionalShipment",
    "RemoveOptionalShipment",
    "Swap22",
    "Relocate2",
]
SWAP_OPS = ["Swap33", "Swap32", "Swap31", "Swap22", "Relocate3", "SwapTails"]

COUNT = {"quick": 8000, "thorough": 120000}


def run(lg, rng, tier, prop, shard, nshard):
    if shard == 0:
        lg.run(dict(key="reload-closes-before-release"), known)
    replay_plans(lg, rng, tier, shard, nshard)
    for k in range(COUNT[tier] // nshard):
        focus = None
        kw = dict(p_feature=rng.choice([0.25, 0.5, 0.8]))
        kind = rng.random()
        if kind < 0.15:  # many, often optional, shipments
            fs = {f for f in gen.FEATURES if rng.random() < 0.3}
            kw = dict(features=fs | {"shipments", "optional"}, max_shipments=5)
            focus = SHIP_OPS
        elif kind < 0.3:  # long routes
            kw = dict(p_feature=0.25, min_clients=7)
            focus = SWAP_OPS
        d = gen.instance(
            rng,
            max_clients=9 if kw.get("min_clients") else rng.choice([4, 7, 9]),
            max_vehicles=rng.choice([1, 2]),
            max_locs=rng.choice([4, 9]),
            **kw,
        )
        if rng.random() < 0.4:
            for v in d["vehs"]:
                if not v["rld"]:
                    v["rld"], v["maxrl"] = [0], rng.choice([gen.INF, 1, 2])
        d = reachable(rng, d)
        with gen.some_units(rng):
            lg.run(dict(k=k, d=d), lambda: history(lg, rng, d, 5, focus))
