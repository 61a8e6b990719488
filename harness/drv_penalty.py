"""
Records histories of real penalty managers (C13): behaviours generated by TLC
from MCPenalty, and random longer ones.

Registered solutions are real: each route of the gadget instance has a chosen
violation in one dimension.
"""

import warnings

import log

UNIT = 1024
MAXVIOL = 4


class Gadget:
    """Solutions with any violations in 0..MAXVIOL, per dimension."""

    def __init__(self, ndim):
        import numpy as np

        import pyvrp as pv

        self.ndim = ndim
        cap = 5
        n = 2 + 2 * MAXVIOL  # depot, plain client, time, distance
        dist = np.zeros((n, n), dtype=int)
        dur = np.zeros((n, n), dtype=int)
        clients, self.at = [], {}
        zero = [0] * ndim

        def add(key, **kw):
            self.at[key] = len(clients)
            clients.append(pv.Client(required=False, **kw))

        for v in range(1, MAXVIOL + 1):
            for k in range(ndim):
                load = list(zero)
                load[k] = cap + v
                add((k, v), location=1, delivery=load)
            dur[0, 1 + v] = v
            add((ndim, v), location=1 + v, tw_late=0, delivery=zero)
            far = 1 + MAXVIOL + v
            dist[0, far] = 20 + v
            add((ndim + 1, v), location=far, delivery=zero)

        self.data = pv.ProblemData(
            [pv.Location(0, 0) for _ in range(n)],
            clients,
            [pv.Depot(0)],
            [pv.VehicleType(ndim + 2, capacity=[cap] * ndim, max_distance=20)],
            [dist],
            [dur],
        )
        self.cache = {}

    def solution(self, viol):
        import pyvrp as pv

        key = tuple(viol)
        if key not in self.cache:
            routes = [
                pv.Route(
                    self.data,
                    [pv.Activity(pv.ActivityType.CLIENT, self.at[k, v])],
                    0,
                )
                for k, v in enumerate(viol)
                if v > 0
            ]
            sol = pv.Solution(self.data, routes)
            self.cache[key] = sol
        return self.cache[key]


def flat(p):
    return [round(float(x) * UNIT) for x in [*p[0], p[1], p[2]]]


def given(ce, ndim):
    out = [ce.load_penalty(UNIT, 0, k) for k in range(ndim)]
    return [int(x) for x in (*out, ce.tw_penalty(UNIT), ce.dist_penalty(UNIT, 0))]


def num(x, unit, ints):
    """The number x / unit, as an int if it is one and ints is set."""
    return x // unit if ints and x % unit == 0 else x / unit


def history(g, p, init, viols, ints, mid=()):
    from pyvrp import PenaltyManager, PenaltyParams

    params = PenaltyParams(
        p["w"],
        num(p["inc"], 16, ints),
        num(p["dec"], 16, ints),
        num(p["tgt"], 16, ints),
        num(p["tol"], 16, ints),
        num(p["lo"], UNIT, ints),
        num(p["hi"], UNIT, ints),
    )
    x = [num(v, UNIT, ints) for v in init]
    pm = PenaltyManager((x[:-2], x[-2], x[-1]), params)
    first = pm.cost_evaluator()
    rec = dict(kind="history", p=p, init=init, start=flat(pm.penalties()), steps=[])
    for viol in viols:
        sol = g.solution(viol)
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            pm.register(sol)
        pens = pm.penalties()
        rec["steps"].append(
            dict(
                viol=viol,
                pens=flat(pens),
                ev=given(pm.cost_evaluator(), g.ndim),
                max=given(pm.max_cost_evaluator(), g.ndim),
                warns=sum(w.category.__name__ == "PenaltyBoundWarning" for w in ws),
            )
        )
        for k in range(len(pens[0])):  # callers own what they are given
            pens[0][k] = -1.0
    rec["first"] = given(first, g.ndim)
    rec["mid"] = flat(params.midpoint_penalties(g.data))
    return rec


def params(rng):
    """Construction of arbitrary parameters."""
    from pyvrp import PenaltyParams

    p = dict(
        w=rng.choice([-1, 0, 1, 1, 2, 500]),
        inc=rng.choice([-16, 0, 15, 16, 16, 17, 32, 24]),
        dec=rng.choice([-1, 0, 0, 8, 16, 16, 17, 32]),
        tgt=rng.choice([-1, 0, 0, 8, 16, 16, 17]),
        tol=rng.choice([-1, 0, 0, 8, 16, 16, 17]),
        lo=rng.choice([-1024, -1, 0, 0, 1, 1024]),
        hi=rng.choice([-1, 0, 1, 1023, 1024, 1025, 4096]),
    )
    if rng.random() < 0.6:  # mostly right
        good = dict(w=1, inc=16, dec=8, tgt=8, tol=1, lo=1, hi=4096)
        for k in good:
            if rng.random() < 0.7:
                p[k] = good[k]
    try:
        PenaltyParams(
            p["w"],
            p["inc"] / 16,
            p["dec"] / 16,
            p["tgt"] / 16,
            p["tol"] / 16,
            p["lo"] / UNIT,
            p["hi"] / UNIT,
        )
        ok = True
    except ValueError:
        ok = False
    return dict(kind="params", p=p, ok=ok)


COUNT = {"quick": (6000, 5000, 2000), "thorough": (65610, 80000, 10000)}


def run(lg, rng, tier, prop, shard, nshard):
    nb, nh, npar = (x // nshard for x in COUNT[tier])
    gadgets = [Gadget(k) for k in range(4)]
    bs = log.behaviours("penalty", shard, nshard)
    if nb < len(bs):
        bs = rng.sample(bs, nb)
    for j, b in enumerate(bs):
        # The other dimensions see other histories.
        g = gadgets[j % 3]
        n = g.ndim + 2
        k = j % n
        viols = []
        for t, v in enumerate(b["hist"]):
            row = [rng.randint(0, MAXVIOL) for _ in range(n)]
            row[k] = v
            row[(k + 1) % n] = b["hist"][-1 - t]
            viols.append(row)
        init = [rng.choice([100, 1024, 3000]) for _ in range(n)]
        init[k] = b["init"]
        ints = rng.random() < 0.5
        lg.run(dict(b=b), lambda: history(g, b["p"], init, viols, ints))

    for j in range(nh):
        g = rng.choice(gadgets)
        n = g.ndim + 2
        ints = rng.random() < 0.4
        lo = rng.choice([0, 64, 102, 1024])
        p = dict(
            w=rng.choice([1, 2, 3, 4, 5, 8, 16]),
            inc=rng.choice([16, 20, 24, 32, 19]),
            dec=rng.choice([0, 8, 12, 14, 16]),
            tgt=rng.randint(0, 16),
            tol=rng.choice([0, 1, 2, 4, 8, 16]),
            lo=lo,
            hi=lo + rng.choice([0, 1024, 7168, 1 << 20]),
        )
        init = [rng.choice([0, 50, 1024, 2048, 5000, 1 << 21]) for _ in range(n)]
        bias = [rng.choice([0, 0.3, 0.7, 1]) for _ in range(n)]
        viols = [
            [0 if rng.random() < q else rng.randint(1, MAXVIOL) for q in bias]
            for _ in range(rng.choice([5, 20, 60]))
        ]
        lg.run(dict(p=p, init=init), lambda: history(g, p, init, viols, ints))

    # Windows as long as by default, with solutions that get better or worse.
    for j in range(nh // 150):
        g = gadgets[j % 3]
        n = g.ndim + 2
        p = dict(
            w=rng.choice([64, 100, 128, 250, 500]),
            inc=20,
            dec=12,
            tgt=rng.randint(4, 12),
            tol=rng.choice([0, 1, 2]),
            lo=64,
            hi=rng.choice([2048, 1 << 20]),
        )
        viols = []
        for _ in range(2 * p["w"] // 10 + 1):
            bias = [rng.choice([0.1, 0.5, 0.9]) for _ in range(n)]
            viols += [
                [0 if rng.random() < q else rng.randint(1, MAXVIOL) for q in bias]
                for _ in range(10)
            ]
        init = [rng.choice([1024, 2048]) for _ in range(n)]
        lg.run(dict(p=p, init=init), lambda: history(g, p, init, viols, False))

    for _ in range(npar):
        lg.run({}, lambda: params(rng))
