"""Records uses of real local search objects (C10)."""

import gen
import log
import obs
from drv_moves import BINARY, UNARY, reachable, snapshot
from drv_route import evaluator, penalties
from gen import A, norm

# Whether these have an improving move depends on more than the routes of the
# two activities involved, so an unchanged pair of routes is not retested.
INDIRECT = {
    "InsertOptionalClient",
    "InsertOptionalShipment",
    "ReplaceOptionalClient",
    "ReplaceOptionalShipment",
}


def complete(rng, d, plan):
    """Adds what is missing from a plan, at the ends of random routes."""
    seen = {(a["t"], a["i"]) for r in plan for a in r["acts"]}
    want = []
    for i, c in enumerate(d["clients"]):
        if c["req"] and ("C", i) not in seen:
            want.append([A("C", i)])
    for g in d["groups"]:
        if g["req"] and not any(("C", i) in seen for i in g["cl"]):
            want.append([A("C", rng.choice(g["cl"]))])
    for i, s in enumerate(d["ships"]):
        if s["req"] and ("P", i) not in seen:
            want.append([A("P", i), A("L", i)])
    plan = [dict(v=r["v"], acts=list(r["acts"])) for r in plan]
    for acts in want:
        if not plan:
            plan.append(dict(v=rng.randrange(len(d["vehs"])), acts=[]))
        rng.choice(plan)["acts"].extend(acts)
    return plan


def real_plan(data, plan):
    import pyvrp as pv

    return pv.Solution(
        data,
        [pv.Route(data, [gen.activity(a) for a in r["acts"]], r["v"]) for r in plan],
    )


def loads(rng, d):
    from pyvrp.search._search import Solution

    data = gen.build(d)
    sol = Solution(data)
    nodes = [A("C", i) for i in range(len(d["clients"]))]
    nodes += [A(t, i) for i in range(len(d["ships"])) for t in "PL"]
    steps, plan = [], []
    for _ in range(5):
        if plan and rng.random() < 0.4:  # keep some routes as they are
            plan = [r for r in plan if rng.random() < 0.7]
            rng.shuffle(plan)
        else:
            plan = gen.plan(rng, d)
        real = real_plan(data, plan)
        sol.load(real)
        routes = list(sol.routes)
        where = []
        for a in nodes:
            n = sol[gen.activity(a)]
            r = 0
            for k, x in enumerate(routes):
                if n.route is x:
                    r = k + 1
            where.append(dict(**a, r=r, k=n.pos if n.route is not None else 0))
        steps.append(
            dict(
                plan=plan,
                routes=snapshot(sol),
                where=where,
                unload=obs.plan_of(sol.unload()),
            )
        )
    return dict(kind="load", d=d, steps=steps)


def perturbed(data, nbs, before, ce, pm):
    """Activities that a search from the given solution starts with."""
    from pyvrp.search import _search as S

    sol, space = S.Solution(data), S.SearchSpace(data, nbs)
    sol.load(before)
    pm.perturb(sol, space, ce)
    return [a for a in space.activity_order() if space.is_promising(a)]


def probes(rng, d, after, ops, nbs, n, among=None, empties=True):
    """
    Moves that the search must have tried on its result. Routes that perturbing
    empties keep their reload depots until they are used, so then moves into
    empty vehicles may not have been tried as such.
    """
    if among is not None:
        nbs = {u: vs for u, vs in nbs.items() if u in among}
    slots = []
    for v, veh in enumerate(d["vehs"]):
        mine = [r for r in after if r["v"] == v]
        slots += mine + [dict(v=v, acts=[])] * (veh["n"] - len(mine))
    place = {}
    for r, x in enumerate(slots):
        for k, a in enumerate(x["acts"]):
            if a["t"] != "D":
                place[a["t"], a["i"]] = dict(r=r + 1, k=k + 1)
    empty = {}
    for r, x in enumerate(slots):
        if not x["acts"] and empties:
            empty.setdefault(x["v"], dict(r=r + 1, k=0))
    out = []
    ops = [o for o in ops if o not in INDIRECT]
    us = [a for a in nbs if a in place] if rng.random() < 0.9 else list(nbs)
    if not us or not ops:
        return out

    def others(op, u):
        """Places of the activities to try u with; if these try u in turn."""
        if op in UNARY:
            return [(dict(r=0, k=0), False)]
        vs = []
        for w in nbs[u]:
            if w in place:
                vs.append((place[w], u in nbs.get(w, [])))
                if place[w]["k"] == 1:
                    vs.append((dict(r=place[w]["r"], k=0), False))
        return vs + [(v, False) for v in empty.values()]

    if n is None:  # all of them
        return [
            dict(op=op, u=A(*u), v=v, mutual=mutual)
            for op in ops
            for u in nbs
            for v, mutual in others(op, u)
        ]
    for _ in range(n):
        op = rng.choice(ops)
        pool = us
        if op in ("RelocateShipment", "RelocateDelivery", "RelocatePickup"):
            pool = [u for u in us if u[0] == "P"] or us
        u = rng.choice(pool)
        vs = others(op, u)
        if vs:
            v, mutual = rng.choice(vs)
            out.append(dict(op=op, u=A(*u), v=v, mutual=mutual))
    return out


def searches(lg, rng, d, big, plans=None):
    from pyvrp import RandomNumberGenerator
    from pyvrp.search import (
        LocalSearch,
        NeighbourhoodParams,
        PerturbationManager,
        PerturbationParams,
        compute_neighbours,
    )
    from pyvrp.search import _search as S

    data = gen.build(d)
    params = NeighbourhoodParams(
        weight_wait_time=0.2,
        num_neighbours=rng.choice([1, 3, 8, 50]),
        symmetric_proximity=rng.random() < 0.5,
    )
    nbs = compute_neighbours(data, params)
    lo = rng.choice([0, 1, 3, 3, 100])
    pm = PerturbationManager(PerturbationParams(lo, lo + rng.choice([0, 2, 20])))
    heads = len(d["clients"]) + len(d["ships"])
    # Without shuffling, what is perturbed is known beforehand.
    inner = not big and rng.random() < 0.3
    if inner:
        ls = S.LocalSearch(data, nbs, pm)
    else:
        ls = LocalSearch(data, RandomNumberGenerator(rng.randrange(1 << 30)), nbs, pm)
    near = nbs
    names = [o for o in BINARY + UNARY if getattr(S, o).supports(data)]
    if rng.random() < 0.4:
        names = rng.sample(names, rng.randint(0, len(names)))
    ops = [getattr(S, o)(data) for o in names]
    for o in ops:
        ls.add_operator(o)

    key = lambda a: (gen.act_json(a)["t"], a.idx)  # noqa: E731
    nbs = {key(a): [key(b) for b in bs] for a, bs in nbs.items()}
    steps = []
    last = None
    for k in range(len(plans) if plans else rng.randint(1, 4)):
        pen = penalties(rng, d)
        if plans:
            plan = plans[k]
        elif last is not None and rng.random() < 0.5:
            plan = last
        else:
            plan = gen.plan(rng, d, p_visit=rng.choice([0.4, 0.9, 1.0]))
            if rng.random() < 0.7:
                plan = complete(rng, d, plan)
        exhaustive = rng.random() < 0.6
        before = real_plan(data, plan)
        ce = evaluator(pen)
        among = None
        if not exhaustive and inner and lo:
            among = [key(a) for a in perturbed(data, near, before, ce, pm)]
        whole = exhaustive or heads <= lo  # all activities are searched
        lg.begin(dict(d=d, ops=names, plan=plan, pen=pen, exhaustive=exhaustive))
        res = ls(before, ce, exhaustive)
        st = ls.statistics
        last = obs.plan_of(res)
        steps.append(
            dict(
                input=plan,
                before=obs.plan_of(before),
                after=last,
                exhaustive=exhaustive,
                pen=pen,
                big=big,
                strict="RemoveAdjacentDepot" not in names,
                costBefore=norm(ce.penalised_cost(before)),
                costAfter=norm(ce.penalised_cost(res)),
                moves=st.num_moves,
                improving=st.num_improving,
                updates=st.num_updates,
                probes=probes(
                    rng, d, last, names, nbs, None if plans else 8, None if whole else among,
                    exhaustive or all(a["t"] != "D" for r in plan for a in r["acts"]),
                )
                if (whole or among) and not big
                else [],
            )
        )
    return dict(kind="search", d=d, steps=steps)


COUNT = {"quick": 10000, "thorough": 120000}


def replay_plans(lg, rng, tier, shard, nshard):
    """Improves the plans that TLC generated from MCMoves; probes all moves."""
    items = log.behaviours("moves", 0, 1)
    insts = {x["which"]: x["inst"] for x in items if "inst" in x}
    for which, d in insts.items():
        plans = [x["plan"] for x in items if x["which"] == which][shard::nshard]
        for _ in range(1 if tier == "quick" else 8):
            rng.shuffle(plans)
            for k in range(0, len(plans), 5):
                part = plans[k : k + 5]
                lg.run(dict(d=d, plans=part), lambda: searches(lg, rng, d, False, part))


def run(lg, rng, tier, prop, shard, nshard):
    replay_plans(lg, rng, tier, shard, nshard)
    for k in range(COUNT[tier] // nshard):
        big = k % 25 == 3
        d = gen.instance(
            rng,
            max_clients=rng.choice([40, 80]) if big else rng.choice([3, 6, 8]),
            min_clients=20 if big else 0,
            max_shipments=8 if big else 3,
            p_feature=rng.choice([0.2, 0.5, 0.8]),
            max_vehicles=4 if big else rng.choice([1, 2, 3]),
            max_locs=rng.choice([4, 9]),
        )
        if rng.random() < 0.3:
            for v in d["vehs"]:
                if not v["rld"]:
                    v["rld"], v["maxrl"] = [0], rng.choice([gen.INF, 1, 2])
        d = reachable(rng, d)
        if k % 5 == 0:
            lg.run(dict(k=k, d=d), lambda: loads(rng, d))
        else:
            with gen.some_units(rng):
                lg.run(dict(k=k, d=d), lambda: searches(lg, rng, d, big))
