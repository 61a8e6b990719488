"""
Records whole solver runs (C27): what the callbacks see, what is returned, and
the outcome of solving instances small enough to enumerate all solutions of.
"""

import gen
import obs
from drv_moves import reachable
from drv_penalty import UNIT, given
from drv_search import complete, real_plan
from gen import norm


def key(plan):
    return tuple(
        sorted((r["v"], tuple((a["t"], a["i"]) for a in r["acts"])) for r in plan)
    )


class Pool:
    def __init__(self):
        self.plans, self.at = [], {}

    def __call__(self, sol):
        plan = obs.plan_of(sol)
        k = key(plan)
        if k not in self.at:
            self.plans.append(plan)
            self.at[k] = len(self.plans)
        return self.at[k]


class Counter:
    """Passes on what a criterion says, and counts how often it says go on."""

    def __init__(self, inner):
        self.inner, self.allowed = inner, 0

    def __call__(self, cost):
        out = self.inner(cost)
        self.allowed += not out
        return out


def names(unary, binary):
    return sorted(type(op).__name__ for op in [*unary, *binary])


def parts(data, stop, seed, params, init):
    """The same run, put together from the parts by hand."""
    import pyvrp as pv
    from pyvrp.search import LocalSearch, PerturbationManager, compute_neighbours

    rng = pv.RandomNumberGenerator(seed=seed)
    ls = LocalSearch(
        data,
        rng,
        compute_neighbours(data, params.neighbourhood),
        PerturbationManager(params.perturbation),
    )
    for op in params.operators:
        if op.supports(data):
            ls.add_operator(op(data))
    pm = pv.PenaltyManager(params.penalty.midpoint_penalties(data), params.penalty)
    if init is None:
        init = ls(
            pv.Solution.make_random(data, rng), pm.max_cost_evaluator(), exhaustive=True
        )
    return pv.IteratedLocalSearch(data, pm, ls, init, params.ils).run(stop)


def criterion(rng):
    from pyvrp.stop import FirstFeasible, MaxIterations, MultipleCriteria, NoImprovement

    n = rng.choice([0, 1, 5, 12])
    return rng.choice(
        [
            lambda: MaxIterations(n),
            lambda: MultipleCriteria([NoImprovement(3), MaxIterations(n)]),
            lambda: MultipleCriteria([FirstFeasible(), MaxIterations(n)]),
        ]
    )


def run_case(rng, d):
    import pyvrp as pv
    from pyvrp.IteratedLocalSearch import (
        IteratedLocalSearchCallbacks,
        IteratedLocalSearchParams,
    )
    from pyvrp.search import (
        OPERATORS,
        NeighbourhoodParams,
        PerturbationParams,
        compute_neighbours,
    )
    from pyvrp.solve import SolveParams

    pool = Pool()
    rec = dict(kind="run", d=d, its=[], new=[])

    class Callbacks(IteratedLocalSearchCallbacks):
        def on_start(self, ils):
            rec["init"] = pool(ils.initial_solution)
            rec["ops"] = names(ils.search.unary_operators, ils.search.binary_operators)
            nbs = compute_neighbours(data, params.neighbourhood)
            rec["nbs"] = ils.search.neighbours == nbs
            rec["settings"] = ils.params == params.ils

        def on_iteration(self, current, candidate, best, cost_evaluator):
            rec["its"].append(
                dict(
                    cur=pool(current),
                    cand=pool(candidate),
                    best=pool(best),
                    pens=given(cost_evaluator, d["ndim"]),
                )
            )

    data = gen.build(d)
    lo, hi = rng.choice([(0, 4), (1, 1), (0.125, 40), (2, 1000)])
    w = rng.choice([1, 3, 500])
    lop = rng.choice([0, 1, 2])
    ops = list(OPERATORS)
    if rng.random() < 0.5:
        ops = rng.sample(ops, rng.randint(0, len(ops)))
    ils = IteratedLocalSearchParams(
        rng.choice([1, 2, 5, 50]), rng.choice([1, 2, 30]), rng.random() < 0.6, Callbacks()
    )
    params = SolveParams(
        ils,
        pv.PenaltyParams(w, min_penalty=lo, max_penalty=hi),
        NeighbourhoodParams(
            rng.choice([0.0, 0.2, 3.0]), rng.choice([1, 3, 50]), rng.random() < 0.5
        ),
        ops,
        1.0,
        PerturbationParams(lop, lop + rng.choice([0, 1, 20])),
    )
    rec["wantOps"] = sorted(op.__name__ for op in ops if op.supports(data))
    rec["p"] = dict(lo=int(lo * UNIT), hi=int(hi * UNIT), w=w)

    initial = None
    rec["given"] = 0
    if rng.random() < 0.4:
        plan = gen.plan(rng, d)
        if rng.random() < 0.8:
            plan = complete(rng, d, plan)
        initial = real_plan(data, plan)
        rec["given"] = pool(initial)

    make = criterion(rng)
    stop = Counter(make())
    seed = rng.choice([0, 1, 42, rng.randrange(1 << 31)])
    rec["collect"] = rng.random() < 0.6
    args = dict(
        stop=stop,
        seed=seed,
        collect_stats=rec["collect"],
        display=False,
        params=params,
        initial_solution=initial,
    )
    if rng.random() < 0.3:
        res = pv.Model.from_data(data).solve(**args)
    else:
        res = pv.solve(data, **args)

    rec.update(
        res=pool(res.best),
        cost=norm(res.cost()) if res.is_feasible() else gen.INF,
        feas=res.is_feasible(),
        iterations=res.num_iterations,
        allowed=stop.allowed,
        rows=len(res.stats.data),
    )
    own = SolveParams(
        IteratedLocalSearchParams(
            ils.num_iters_no_improvement, ils.history_length, ils.exhaustive_on_best
        ),
        params.penalty,
        params.neighbourhood,
        ops,
        1.0,
        params.perturbation,
    )
    again = parts(data, make(), seed, own, initial)
    rec["parts"] = (
        key(obs.plan_of(again.best)) == key(obs.plan_of(res.best))
        and again.num_iterations == res.num_iterations
    )
    rec["pool"] = pool.plans
    return rec


SMALL = [
    "tw", "release", "multidepot", "depot_service", "profiles", "shift",
    "overtime", "maxdist", "groups", "optional", "initial", "start_late",
    "pickup", "zero_unit",
]  # fmt: skip


def small_case(rng, ds):
    import pyvrp as pv
    from pyvrp.stop import MaxIterations

    out = []
    for d in ds:
        res = pv.solve(gen.build(d), MaxIterations(200), seed=rng.randrange(1000))
        feas = res.is_feasible()
        out.append(dict(d=d, feas=feas, cost=norm(res.cost()) if feas else gen.INF))
    return dict(kind="small", runs=out)


COUNT = {"quick": (2400, 64), "thorough": (16000, 800)}


def run(lg, rng, tier, prop, shard, nshard):
    nrun, nsmall = (n // nshard for n in COUNT[tier])
    for k in range(nrun):
        d = gen.instance(
            rng,
            max_clients=80 if k % 50 == 0 else rng.choice([3, 7]),
            p_feature=rng.choice([0.2, 0.5]),
            max_vehicles=rng.choice([1, 2, 3]),
        )
        d = reachable(rng, d)
        lg.run(dict(d=d), lambda: run_case(rng, d))

    for k in range(nsmall):
        ds = []
        for _ in range(20):
            d = gen.instance(
                rng,
                min_clients=1,
                max_clients=4,
                max_locs=6,
                features={f for f in SMALL if rng.random() < 0.35},
                horizon=rng.choice([15, 30]),
            )
            for v in d["vehs"]:
                v["cap"] = [max(c, rng.choice([3, 6, 10, 15])) for c in v["cap"]]
            ds.append(d)
        lg.run(dict(ds=ds), lambda: small_case(rng, ds))
