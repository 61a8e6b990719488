"""Records what is displayed while solving (C26). Time is virtual."""

import logging
import re

from drv_stop import CLOCK  # first: replaces the clocks

import gen
import log

ITER = re.compile(
    r"^(?P<mark>[H ]) +(?P<n>\d+) +(?P<secs>\d+)s \| +(?P<cc>\d+) +(?P<cf>[YN])"
    r" +(?P<dc>\d+) +(?P<df>[YN]) +(?P<bc>\d+) +(?P<bf>[YN])\s*$"
)


class Lines(logging.Handler):
    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines += record.getMessage().splitlines()

    def take(self):
        out, self.lines = self.lines, []
        return out


def capture():
    h = Lines()
    lg = logging.getLogger("pyvrp")
    lg.addHandler(h)
    lg.setLevel(logging.INFO)
    lg.propagate = False
    return h


def parse(lines):
    """Groups raw lines into the specification's lines."""
    out, k = [], 0
    while k < len(lines):
        line = lines[k]
        if m := ITER.match(line):
            g = m.groupdict()
            out.append(
                dict(
                    k="iter", mark=g["mark"] == "H", n=int(g["n"]), secs=int(g["secs"]),
                    cc=int(g["cc"]), cf=g["cf"], dc=int(g["dc"]), df=g["df"],
                    bc=int(g["bc"]), bf=g["bf"],
                )
            )  # fmt: skip
        elif line.startswith("R ") and "restart" in line:
            out.append(dict(k="restart"))
        elif line.startswith("PyVRP v"):
            text = []
            while k < len(lines) and "Iters" not in lines[k]:
                if m := re.match(r"^\s+(\d+ vehicles?) \((.*)\)$", lines[k]):
                    text += [m.group(1), m.group(2)]
                elif m := re.match(r"^\s+(\d+ \w+)$", lines[k]):
                    text.append(m.group(1))
                k += 1
            out.append(dict(k="start", text=text))
        elif m := re.match(r"^Search terminated in (\S+)s after (\d+) iterations", line):
            rest = "\n".join(lines[k:])
            cost = re.search(r"has cost (\S+)\.", rest)
            out.append(
                dict(
                    k="end",
                    iters=int(m.group(2)),
                    time=m.group(1),
                    cost=cost.group(1) if cost else "?",
                )
            )
            break
        elif line.strip():
            out.append(dict(k="other", line=line))
        k += 1
    return out


BITS = 6


class Costs:
    """Solutions of any cost below 2 ** BITS, feasible or not."""

    def __init__(self):
        import numpy as np
        from pyvrp import Client, CostEvaluator, Depot, Location, ProblemData, VehicleType

        clients = [
            Client(location=0, prize=2**k, required=False) for k in range(BITS)
        ]
        clients.append(Client(location=0, required=True))
        self.data = ProblemData(
            locations=[Location(0, 0)],
            clients=clients,
            depots=[Depot(location=0)],
            vehicle_types=[VehicleType()],
            distance_matrices=[np.zeros((1, 1), dtype=int)],
            duration_matrices=[np.zeros((1, 1), dtype=int)],
        )
        self.ce = CostEvaluator([], 0, 0)
        self.memo = {}

    def sol(self, cost, feas):
        from pyvrp import Solution

        if (cost, feas) not in self.memo:
            visits = [k for k in range(BITS) if not cost >> k & 1]
            visits += [BITS] * feas
            self.memo[cost, feas] = Solution(self.data, [visits] if visits else [])
        return self.memo[cost, feas]


def counts(data):
    return dict(
        depots=data.num_depots,
        clients=data.num_clients,
        ships=data.num_shipments,
        vehicles=data.num_vehicles,
        types=data.num_vehicle_types,
    )


def printer_case(rng, lines, costs, b, data):
    from pyvrp import Result, Statistics
    from pyvrp.ProgressPrinter import ProgressPrinter

    p = b["p"]
    t0 = rng.randint(0, 99)
    rec = dict(kind="printer", p=p, t0=t0, counts=counts(data))
    lines.take()
    CLOCK.now = 1000 + t0 / 8
    try:
        stats = Statistics(collect_stats=p["stats"])
        try:
            pp = ProgressPrinter(p["on"], p["every"] / 8)
        except ValueError:
            return dict(rec, ok=False)

        events = []
        if rng.random() < 0.5:
            pp.start(data)
            events.append(dict(op="start", out=parse(lines.take())))
        for x in b["h"]:
            if rng.random() < 0.1:
                pp.restart()
                events.append(dict(op="restart", out=parse(lines.take())))
            CLOCK.now = 1000 + (t0 + x["time"]) / 8
            stats.collect(
                costs.sol(x["cc"], x["cf"]),
                costs.sol(x["dc"], x["df"]),
                costs.sol(x["bc"], x["bf"]),
                costs.ce,
            )
            pp.iteration(stats)
            events.append(
                dict(op="iter", now=t0 + x["time"], x=x, out=parse(lines.take()))
            )
        if rng.random() < 0.5:
            x = (b["h"] or [dict(bc=3, bf=True)])[-1]
            n, rt = rng.randint(0, 999), rng.randint(0, 800)
            pp.end(Result(costs.sol(x["bc"], x["bf"]), stats, n, rt / 8))
            events.append(
                dict(
                    op="end", iters=n, time=f"{rt / 8:.2f}",
                    cost=str(x["bc"]) if x["bf"] else "inf", out=parse(lines.take()),
                )
            )  # fmt: skip
        return dict(rec, ok=True, events=events)
    finally:
        CLOCK.now = None


def history(rng):
    p = dict(
        on=rng.random() < 0.85,
        stats=rng.random() < 0.85,
        every=rng.choice([-8, -1, 0, 0, 1, 8, 20, 40]),
    )
    t, h = 0, []
    step = rng.choice([0, 3, 10, 40])
    for n in range(1, rng.randint(1, 25)):
        t += rng.randint(0, step)
        c = lambda: rng.randrange(2**BITS)
        y = lambda: rng.random() < 0.5
        h.append(dict(n=n, time=t, cc=c(), cf=y(), dc=c(), df=y(), bc=c(), bf=y()))
    return dict(p=p, h=h)


def solve_case(rng, lines, d):
    import drv_stats
    import pyvrp as pv
    from drv_moves import reachable
    from pyvrp import IteratedLocalSearchCallbacks as Callbacks
    from pyvrp import IteratedLocalSearchParams, SolveParams, solve
    from pyvrp.stop import MaxIterations

    class Count(Callbacks):
        restarts = 0

        def on_restart(self, best):
            self.restarts += 1

    d = reachable(rng, d)
    data = gen.build(d)
    p = dict(on=rng.random() < 0.8, stats=rng.random() < 0.8, every=0)
    cb = Count()
    ils = IteratedLocalSearchParams(
        num_iters_no_improvement=rng.choice([1, 2, 5, 100]),
        history_length=rng.choice([1, 3, 10]),
        callbacks=cb,
    )
    params = SolveParams(ils=ils, display_interval=0)
    n = rng.choice([0, 1, 5, 12])
    lines.take()
    res = solve(
        data, MaxIterations(n), seed=rng.randrange(99), collect_stats=p["stats"],
        display=p["on"], params=params,
    )  # fmt: skip
    rows = [dict(drv_stats.row(x), n=k) for k, x in enumerate(res.stats.data, 1)]
    return dict(
        kind="solve", p=p, lines=parse(lines.take()), rows=rows, restarts=cb.restarts,
        counts=counts(data), iters=n, cost=str(res.cost()), time=f"{res.runtime:.2f}",
    )  # fmt: skip


COUNT = {"quick": (4000, 2000, 120), "thorough": (30000, 30000, 2000)}


def run(lg, rng, tier, prop, shard, nshard):
    lines, costs = capture(), Costs()
    nb, nh, ns = (x // nshard for x in COUNT[tier])
    bs = log.behaviours("progress", shard, nshard)
    if nb < len(bs):
        bs = rng.sample(bs, nb)
    pool = [gen.build(gen.instance(rng, max_clients=4, max_shipments=2)) for _ in range(20)]
    for b in bs:
        lg.run(b, lambda: printer_case(rng, lines, costs, b, rng.choice(pool)))
    for _ in range(nh):
        b = history(rng)
        lg.run(b, lambda: printer_case(rng, lines, costs, b, rng.choice(pool)))
    for _ in range(ns):
        d = gen.instance(rng, max_clients=5, max_shipments=2, min_clients=1)
        lg.run(dict(d=d), lambda: solve_case(rng, lines, d))
