"""
Records runs of the real iterated local search (C12): replays of behaviours
that TLC generated from MCILS, random longer histories of candidates, and runs
with the real local search and penalty manager.

Candidates are real solutions, evaluated by real cost evaluators.
"""

import bisect
import json

import gen
import log
import obs
from drv_moves import reachable
from drv_route import evaluator, penalties
from drv_search import complete, real_plan

INF = 100_000_000


class Pool:
    """Numbers solutions by their routes."""

    def __init__(self):
        self.sols = []
        self.idx = {}

    def add(self, sol):
        key = json.dumps(sorted(json.dumps(r) for r in obs.plan_of(sol)))
        if key not in self.idx:
            self.sols.append(sol)
            self.idx[key] = len(self.sols)
        return self.idx[key]


def values(ce, ndim):
    loads = [ce.load_penalty(1000, 0, k) for k in range(ndim)]
    return loads, ce.tw_penalty(1000), ce.dist_penalty(1000, 0)


class Recorder:
    """
    Stands between the algorithm and its search method, penalty manager,
    stopping criterion and callbacks.
    """

    def __init__(self, pool, search, evaluators, register, limit):
        self.pool = pool
        self.method = search
        self.evaluators = evaluators  # number registered -> evaluator
        self.register_ = register
        self.limit = limit
        self.nreg = 0
        self.evs = {}  # registrations -> evaluators given out
        self.iters = []
        self.ends = []
        self.stops = []
        self.result = None

    # penalty manager
    def cost_evaluator(self):
        ce = self.evaluators(self.nreg)
        self.evs.setdefault(self.nreg + 1, []).append(ce)
        return ce

    def register(self, sol):
        self.iters[-1]["reg"].append(self.pool.add(sol))
        self.nreg += 1
        self.register_(sol)

    def ev(self, ce):
        """Iteration number, if this is the evaluator of this iteration."""
        n = len(self.iters)
        given = self.evs.get(n, [])
        ndim = len(self.pool.sols[0].excess_load())
        same = any(x is ce or values(x, ndim) == values(ce, ndim) for x in given)
        return n if same else 0

    # search method
    def search(self, solution, cost_evaluator, exhaustive=False):
        e = self.iters[-1]
        out = self.method(solution, cost_evaluator, exhaustive)
        rec = {"in": self.pool.add(solution), "out": self.pool.add(out)}
        e["search"].append(dict(rec, ex=bool(exhaustive), ev=self.ev(cost_evaluator)))
        return out

    # stopping criterion
    def stop(self, cost):
        self.stops.append(cost)
        if len(self.stops) > self.limit:
            return True
        self.iters.append(dict(search=[], reg=[], cb=[], restart=[], best=[], it=[]))
        return False

    # callbacks
    def on_start(self, ils):
        self.ends.append("start")

    def on_end(self, result):
        self.ends.append("end")
        self.result = result

    def on_restart(self, best):
        self.iters[-1]["cb"].append("restart")
        self.iters[-1]["restart"].append(self.pool.add(best))

    def on_best(self, best):
        self.iters[-1]["cb"].append("best")
        self.iters[-1]["best"].append(self.pool.add(best))

    def on_iteration(self, curr, cand, best, ce):
        e = self.iters[-1]
        e["cb"].append("iteration")
        e["it"].append(
            dict(
                curr=self.pool.add(curr),
                cand=self.pool.add(cand),
                best=self.pool.add(best),
                ev=self.ev(ce),
            )
        )


def record(conf, rec, ils, collect):
    """Runs the algorithm, and makes the case that TLC judges."""
    res = ils.run(rec.stop, collect_stats=collect, display=False)
    pool = rec.pool
    best = pool.add(res.best)
    init = pool.add(conf["init"])

    feas = [bool(s.is_feasible()) for s in pool.sols]
    ce0 = rec.evaluators(0)
    raw = [ce0.cost(s) for s in pool.sols]
    ranks = sorted({c for c, f in zip(raw, feas) if f})
    cost = [bisect.bisect_left(ranks, c) + 1 if f else INF for c, f in zip(raw, feas)]

    def stop_rank(x):
        if x in ranks:
            return bisect.bisect_left(ranks, x) + 1
        return INF if x == 2**63 - 1 else 0

    pc = []
    for n in range(len(rec.iters)):
        given = rec.evs.get(n + 1) or [rec.evaluators(n)]
        vals = [given[0].penalised_cost(s) for s in pool.sols]
        order = sorted(set(vals))
        pc.append([bisect.bisect_left(order, v) + 1 for v in vals])

    for e, s in zip(rec.iters, rec.stops):
        e["stop"] = stop_rank(s)
    run = dict(
        iters=rec.iters,
        laststop=stop_rank(rec.stops[-1]),
        ends=rec.ends,
        best=best,
        n=res.num_iterations,
        rows=len(res.stats.data),
        collect=collect,
        same=rec.result is not None and pool.add(rec.result.best) == best,
    )
    return dict(
        H=conf["H"],
        K=conf["K"],
        ex=conf["ex"],
        init=init,
        feas=feas,
        cost=cost,
        pc=pc,
        run=run,
    )


def algorithm(conf, data, rec):
    from pyvrp.IteratedLocalSearch import (
        IteratedLocalSearch,
        IteratedLocalSearchCallbacks,
        IteratedLocalSearchParams,
    )

    class Callbacks(IteratedLocalSearchCallbacks):
        def on_start(self, ils):
            rec.on_start(ils)

        def on_end(self, result):
            rec.on_end(result)

        def on_restart(self, best):
            rec.on_restart(best)

        def on_best(self, best):
            rec.on_best(best)

        def on_iteration(self, current, candidate, best, cost_evaluator):
            rec.on_iteration(current, candidate, best, cost_evaluator)

    params = IteratedLocalSearchParams(
        conf["K"], conf["H"], conf["ex"], callbacks=Callbacks()
    )
    return IteratedLocalSearch(data, rec, rec.search, conf["init"], params)


def quartet():
    """The four solutions of MCILS.tla."""
    import pyvrp as pv

    far, near, late, heavy = 1, 2, 3, 4
    dist = [[0] * 5 for _ in range(5)]
    dur = [[0] * 5 for _ in range(5)]
    dist[0][far] = dist[far][0] = 2
    dist[0][near] = dist[near][0] = 1
    dur[0][late] = 1
    import numpy as np

    data = pv.ProblemData(
        locations=[pv.Location(k, k) for k in range(5)],
        clients=[
            pv.Client(far, delivery=[1], required=False),
            pv.Client(near, delivery=[1], required=False),
            pv.Client(late, delivery=[1], tw_late=0, required=False),
            pv.Client(heavy, delivery=[3], required=False),
        ],
        depots=[pv.Depot(0)],
        vehicle_types=[pv.VehicleType(1, capacity=[2])],
        distance_matrices=[np.array(dist)],
        duration_matrices=[np.array(dur)],
    )
    C = pv.ActivityType.CLIENT
    sols = [
        pv.Solution(data, [pv.Route(data, [pv.Activity(C, k)], 0)]) for k in range(4)
    ]
    return data, sols


def replay(lg, b, data, sols):
    from pyvrp import CostEvaluator

    early = CostEvaluator([5], 1, 0)
    later = CostEvaluator([3], 6, 0)
    hist = [x["cand"] for x in b["hist"]]
    deep = [x["deep"] for x in b["hist"]]

    def search(sol, ce, exhaustive):
        n = len(rec.iters) - 1
        return sols[(deep if exhaustive else hist)[n] - 1]

    rec = Recorder(
        Pool(), search, lambda n: early if n < 2 else later, lambda s: None, len(hist)
    )
    for s in sols:
        rec.pool.add(s)
    conf = dict(H=b["H"], K=b["K"], ex=b["ex"], init=sols[b["init"] - 1])
    return record(conf, rec, algorithm(conf, data, rec), True)


def histories(lg, rng, d):
    """Random candidates; deep searches never increase the penalised cost."""
    data = gen.build(d)
    pool = []
    for _ in range(rng.randint(2, 12)):
        plan = gen.plan(rng, d, p_visit=rng.choice([0.3, 0.8, 1.0]))
        if rng.random() < 0.7:
            plan = complete(rng, d, plan)
        pool.append(real_plan(data, plan))
    long = rng.random() < 0.01  # as long as histories are by default
    n = rng.choice([110, 320, 650] if long else [0, 1, 5, 12, 25, 40])
    ces = []
    every = rng.choice([1, 3, 10])
    for k in range(n + 2):
        ces.append(evaluator(penalties(rng, d)) if k % every == 0 else ces[-1])

    def search(sol, ce, exhaustive):
        if exhaustive:
            here = ce.penalised_cost(sol)
            return rng.choice([s for s in pool if ce.penalised_cost(s) <= here])
        return rng.choice(pool)

    H = rng.choice([1, 1, 2, 3, 5, 10, 100])
    K = rng.choice([1, 2, 3, 4, 7, 20, 1000])
    if long:
        H, K = rng.choice([50, 100, 300]), rng.choice([20, 90, 1000])
    conf = dict(H=H, K=K, ex=rng.random() < 0.6, init=rng.choice(pool))
    # One algorithm object may be run several times.
    out = []
    for _ in range(rng.choice([1, 1, 2])):
        rec = Recorder(Pool(), search, lambda k: ces[k], lambda s: None, n)
        if not out:
            ils = algorithm(conf, data, rec)
        else:
            first.__dict__.update(rec.__dict__)
            rec = first
        first = rec
        out.append(record(conf, rec, ils, rng.random() < 0.8))
    return out


def real(lg, rng, d):
    """The real local search and penalty manager."""
    from pyvrp import PenaltyManager, PenaltyParams, RandomNumberGenerator
    from pyvrp.search import (
        OPERATORS,
        LocalSearch,
        NeighbourhoodParams,
        PerturbationManager,
        PerturbationParams,
        compute_neighbours,
    )

    data = gen.build(d)
    ls = LocalSearch(
        data,
        RandomNumberGenerator(rng.randrange(1 << 30)),
        compute_neighbours(data, NeighbourhoodParams(num_neighbours=10)),
        PerturbationManager(PerturbationParams(1, rng.choice([2, 10]))),
    )
    for op in OPERATORS:
        if op.supports(data):
            ls.add_operator(op(data))
    pm = PenaltyManager(
        ([2.0] * d["ndim"], 2.0, 2.0),
        PenaltyParams(solutions_between_updates=rng.choice([1, 3, 8])),
    )
    plan = complete(rng, d, gen.plan(rng, d, p_visit=0.9))
    H = rng.choice([1, 2, 4, 8])
    K = rng.choice([1, 2, 3, 5, 8])
    conf = dict(H=H, K=K, ex=rng.random() < 0.6, init=real_plan(data, plan))
    rec = Recorder(
        Pool(),
        lambda s, ce, ex: ls(s, ce, exhaustive=ex),
        lambda n: pm.cost_evaluator(),
        pm.register,
        rng.choice([3, 10, 30]),
    )
    lg.begin(dict(d=d, plan=plan))
    return record(conf, rec, algorithm(conf, data, rec), True)


COUNT = {"quick": (1 / 2, 4000, 1600), "thorough": (1, 60000, 24000)}


def run(lg, rng, tier, prop, shard, nshard):
    frac, nhist, nreal = COUNT[tier]
    bs = log.behaviours("ils", shard, nshard)
    if frac < 1:
        bs = rng.sample(bs, int(len(bs) * frac))
    data, sols = quartet()
    for b in bs:
        lg.run(dict(behaviour=b), lambda: replay(lg, b, data, sols))

    for k in range((nhist + nreal) // nshard):
        d = gen.instance(
            rng,
            max_clients=rng.choice([3, 6]),
            p_feature=rng.choice([0.2, 0.5]),
            max_vehicles=rng.choice([1, 2, 3]),
        )
        d = reachable(rng, d)
        if k % 7 < 5:
            many = []
            lg.run(dict(k=k, d=d), lambda: many.extend(histories(lg, rng, d)))
            for rec in many:
                lg.case(rec)
        else:
            lg.run(dict(k=k, d=d), lambda: real(lg, rng, d))
