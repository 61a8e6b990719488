"""Records perturbations, insertions and search space histories (C11)."""

import gen
import log
from drv_moves import reachable, snapshot
from drv_route import evaluator, penalties
from drv_search import complete, real_plan
from gen import A, act_json


def heads(d):
    return [A("C", i) for i in range(len(d["clients"]))] + [
        A("P", i) for i in range(len(d["ships"]))
    ]


def neighbourhood(rng, d, data):
    from pyvrp.search import NeighbourhoodParams, compute_neighbours

    if rng.random() < 0.5:
        return compute_neighbours(
            data, NeighbourhoodParams(num_neighbours=rng.choice([1, 2, 5]))
        )
    acts = heads(d)
    out = {}
    for a in acts:
        pool = [b for b in acts + [A("L", x["i"]) for x in acts if x["t"] == "P"] if b["i"] != a["i"] or b["t"] != a["t"]]
        pool = [b for b in pool if not (a["t"] == "P" and b["t"] == "L" and a["i"] == b["i"])]
        nb = rng.sample(pool, rng.randint(0, min(4, len(pool))))
        out[gen.activity(a)] = [gen.activity(b) for b in nb]
    return out


def promising(d, ss):
    return [a for a in heads(d) if ss.is_promising(gen.activity(a))]


def setup(rng, d, plan=None):
    from pyvrp.search import _search as S

    data = gen.build(d)
    sol = S.Solution(data)
    if plan is None:
        plan = gen.plan(rng, d, p_visit=rng.choice([0.3, 0.6, 1.0]))
        if rng.random() < 0.3:
            plan = complete(rng, d, plan)
    sol.load(real_plan(data, plan))
    ss = S.SearchSpace(data, neighbourhood(rng, d, data))
    return data, sol, ss


def perturbs(lg, rng, d, plan=None):
    from pyvrp import RandomNumberGenerator
    from pyvrp.search import PerturbationManager, PerturbationParams

    data, sol, ss = setup(rng, d, plan)
    lo = rng.choice([0, 1, 2, 5])
    hi = lo + rng.choice([0, 1, 4, 30])
    pm = PerturbationManager(PerturbationParams(lo, hi))
    real = RandomNumberGenerator(rng.randrange(1 << 30))
    steps = []
    for k in range(rng.randint(1, 4)):
        if k or rng.random() < 0.7:
            pm.shuffle(real)
        ss.shuffle(real)
        if rng.random() < 0.5:
            ss.mark_all_promising()
        pre = snapshot(sol)
        before = promising(d, ss)
        order = list(ss.activity_order())
        ce = evaluator(penalties(rng, d))
        lg.begin(dict(d=d, pre=pre, n=pm.num_perturbations()))
        pm.perturb(sol, ss, ce)
        steps.append(
            dict(
                pre=pre,
                post=snapshot(sol),
                n=pm.num_perturbations(),
                min=lo,
                max=hi,
                order=[act_json(a) for a in order],
                nbs=[[act_json(b) for b in ss.neighbours_of(a)] for a in order],
                promBefore=before,
                promising=promising(d, ss),
            )
        )
        for r in sol.routes:  # as the local search does
            if r.num_clients() == 0 and r.num_pickups() == 0 and rng.random() < 0.5:
                r.clear()
    return dict(kind="perturb", d=d, steps=steps)


def insert(lg, rng, d, sol, ss, a, required):
    pre = snapshot(sol)
    pen = penalties(rng, d)
    act = gen.activity(a)
    lg.begin(dict(d=d, pre=pre, a=a, pen=pen, required=required))
    if a["t"] == "C":
        res = sol.insert(sol[act], ss, evaluator(pen), required)
    else:
        y = gen.activity(A("L", a["i"]))
        res = sol.insert(sol[act], sol[y], ss, evaluator(pen), required)
    post = snapshot(sol)
    for r in sol.routes:
        r.update()
    return dict(
        pre=pre,
        post=post,
        a=a,
        nbs=[act_json(b) for b in ss.neighbours_of(act)],
        pen=pen,
        required=required,
        res=res,
    )


def insert_all(lg, rng, d, plan):
    """Every activity that the plan leaves out, into that same plan."""
    steps = []
    seen = {(a["t"], a["i"]) for r in plan for a in r["acts"]}
    for a in heads(d):
        if (a["t"], a["i"]) not in seen:
            for required in (False, True):
                data, sol, ss = setup(rng, d, plan)
                steps.append(insert(lg, rng, d, sol, ss, a, required))
    return dict(kind="insert", d=d, steps=steps)


def inserts(lg, rng, d):
    from pyvrp import RandomNumberGenerator

    data, sol, ss = setup(rng, d)
    real = RandomNumberGenerator(rng.randrange(1 << 30))
    steps = []
    for _ in range(6):
        free = [a for a in heads(d) if sol[gen.activity(a)].route is None]
        used = [a for a in heads(d) if sol[gen.activity(a)].route is not None]
        if not free or (used and rng.random() < 0.2):
            if not used:
                break
            a = rng.choice(used)  # make room, maybe leaving only depots behind
            n = sol[gen.activity(a)]
            r = n.route
            del r[n.pos]
            if a["t"] == "P":
                x = sol[gen.activity(A("L", a["i"]))]
                del r[x.pos]
            r.update()
            continue
        a = rng.choice(free)
        ss.shuffle(real)
        steps.append(insert(lg, rng, d, sol, ss, a, rng.random() < 0.5))
    return dict(kind="insert", d=d, steps=steps)


def space(rng, d):
    from pyvrp import RandomNumberGenerator

    data, sol, ss = setup(rng, d)
    real = RandomNumberGenerator(rng.randrange(1 << 30))
    acts = heads(d)
    acts += [A("L", a["i"]) for a in acts if a["t"] == "P"]
    ops = []
    for _ in range(12):
        op = rng.choice(["mark", "mark", "node", "node", "all", "none", "shuffle"])
        rec = dict(op=op, a=A("", 0), near=[])
        if op == "mark":
            if not acts:
                continue
            rec["a"] = rng.choice(acts)
            ss.mark_promising(gen.activity(rec["a"]))
        elif op == "node":
            nodes = [x for r in sol.routes for x in r]
            n = rng.choice(nodes)
            full = list(n.route)
            near = [x for x in full if abs(x.pos - n.pos) <= 1]
            rec["near"] = [act_json(x.activity) for x in near]
            ss.mark_promising(n)
        elif op == "all":
            ss.mark_all_promising()
        elif op == "none":
            ss.unmark_all_promising()
        else:
            ss.shuffle(real)
        rec["promising"] = promising(d, ss)
        rec["order"] = [act_json(a) for a in ss.activity_order()]
        rec["types"] = [dict(v=v, off=o) for v, o in ss.veh_type_order()]
        ops.append(rec)
    return dict(kind="space", d=d, ops=ops)


COUNT = {"quick": 8000, "thorough": 120000}


def replay_plans(lg, rng, tier, shard, nshard):
    """Perturbs and extends the plans that TLC generated from MCMoves."""
    items = log.behaviours("moves", 0, 1)
    insts = {x["which"]: x["inst"] for x in items if "inst" in x}
    for x in items[shard::nshard]:
        d, plan = insts[x["which"]], x["plan"]
        for _ in range(2 if tier == "quick" else 20):
            lg.run(dict(d=d, plan=plan), lambda: insert_all(lg, rng, d, plan))
            lg.run(dict(d=d, plan=plan), lambda: perturbs(lg, rng, d, plan))


def run(lg, rng, tier, prop, shard, nshard):
    replay_plans(lg, rng, tier, shard, nshard)
    for k in range(COUNT[tier] // nshard):
        big = k % 60 in (22, 40)
        d = gen.instance(
            rng,
            min_clients=60 if big else 0,
            max_clients=80 if big else rng.choice([3, 6, 8]),
            p_feature=rng.choice([0.2, 0.5, 0.8]),
            max_vehicles=rng.choice([1, 2, 3]),
            max_locs=rng.choice([4, 9]),
        )
        d = reachable(rng, d)
        if k % 8 == 0:
            lg.run(dict(k=k, d=d), lambda: space(rng, d))
        elif k % 2 == 0:
            lg.run(dict(k=k, d=d), lambda: perturbs(lg, rng, d))
        else:
            with gen.some_units(rng):
                lg.run(dict(k=k, d=d), lambda: inserts(lg, rng, d))
