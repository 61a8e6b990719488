"""Records statistics collection, files and results (C21)."""

import csv
import os
import tempfile

from drv_stop import CLOCK  # first: replaces the clocks

import gen
from drv_route import evaluator, penalties
from gen import norm


def row(x):
    return dict(
        cc=norm(x.current_cost), cf=x.current_feas,
        dc=norm(x.candidate_cost), df=x.candidate_feas,
        bc=norm(x.best_cost), bf=x.best_feas,
    )  # fmt: skip


def units(x):
    return round(float(x) * 8) if abs(float(x) * 8 - round(float(x) * 8)) < 1e-9 else -1


def history(rng, n_plans, n_pens):
    t = rng.randint(0, 20)
    out = []
    for _ in range(rng.choice([0, 1, 2, 5, 9])):
        t += rng.randint(0, 30)
        out.append(
            dict(
                cur=rng.randint(1, n_plans),
                cand=rng.randint(1, n_plans),
                best=rng.randint(1, n_plans),
                pen=rng.randint(1, n_pens),
                t=t,
            )
        )
    return out


def collect(stats, calls, sols, ces):
    for x in calls:
        CLOCK.now = 1000 + x["t"] / 8
        stats.collect(
            sols[x["cur"] - 1], sols[x["cand"] - 1], sols[x["best"] - 1], ces[x["pen"] - 1]
        )


def stats_case(rng, d):
    import pyvrp as pv
    from pyvrp import Statistics

    data = gen.build(d)
    plans = [gen.plan(rng, d, p_visit=rng.choice([0.5, 1.0])) for _ in range(3)]
    sols = [
        pv.Solution(
            data, [pv.Route(data, [gen.activity(a) for a in r["acts"]], r["v"]) for r in p]
        )
        for p in plans
    ]
    pens = [penalties(rng, d) for _ in range(2)]
    ces = [evaluator(p) for p in pens]
    calls = history(rng, len(plans), len(pens))
    calls2 = [dict(x) for x in calls]
    how = rng.random()
    if how < 0.3 and calls2:
        calls2.pop()
    elif how < 0.6 and calls2:
        calls2[-1]["t"] += 1
    on = rng.random() < 0.8
    t0 = (calls[0]["t"] if calls else 0) - rng.randint(0, 5)
    try:
        CLOCK.now = 1000 + t0 / 8
        stats = Statistics(collect_stats=on)
        collect(stats, calls, sols, ces)
        CLOCK.now = 1000 + t0 / 8
        other = Statistics(collect_stats=on)
        collect(other, calls2, sols, ces)
    finally:
        CLOCK.now = None
    rec = dict(
        kind="stats", d=d, plans=plans, pens=pens, on=on, t0=t0, calls=calls,
        calls2=calls2, same=bool(stats == other) and bool(other == stats),
        obs=dict(
            on=stats.is_collecting(), n=stats.num_iterations,
            rows=[row(x) for x in stats.data], iter=[row(x) for x in stats],
            times=[units(x) for x in stats.runtimes],
        ),
    )  # fmt: skip
    if not on:
        return rec

    kw = {}
    if rng.random() < 0.5:
        kw["delimiter"] = rng.choice([";", "\t", ","])
    wkw = dict(kw)
    if rng.random() < 0.4:
        wkw["quoting"] = rng.choice([csv.QUOTE_ALL, csv.QUOTE_MINIMAL, csv.QUOTE_NONNUMERIC])
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "stats.csv")
        stats.to_csv(path, **wkw)
        with open(path, newline="") as fh:
            lines = list(csv.reader(fh, **kw))
        back = Statistics.from_csv(path, **kw)
    header, lines = lines[0], lines[1:]
    order = [
        "runtime", "current_cost", "current_feas", "candidate_cost",
        "candidate_feas", "best_cost", "best_feas",
    ]  # fmt: skip
    cols = [header.index(x) for x in order]  # the order of columns is free
    rec["file"] = dict(
        header=[header[k] for k in cols],
        lines=[["" if k == cols[0] else x[k] for k in cols] for x in lines],
        times=[units(x[cols[0]]) for x in lines],
    )
    rec["back"] = dict(
        eq=bool(stats == back), qe=bool(back == stats), n=back.num_iterations,
        rows=[row(x) for x in back.data], times=[units(x) for x in back.runtimes],
        on=back.is_collecting(),
    )  # fmt: skip
    return rec


KEYS = {
    "# routes": "routes", "# trips": "trips", "# clients": "clients",
    "# shipments": "ships", "objective": "obj", "distance": "dist",
    "duration": "dur", "# iterations": "iters", "run-time": "time",
}  # fmt: skip


def result_case(rng, d):
    import pyvrp as pv
    from pyvrp import Result, Statistics

    data = gen.build(d)
    plan = gen.plan(rng, d, p_visit=rng.choice([0.6, 1.0]))
    sol = pv.Solution(
        data, [pv.Route(data, [gen.activity(a) for a in r["acts"]], r["v"]) for r in plan]
    )
    n = rng.choice([-1, 0, 1, 7, 1000])
    rt = rng.choice([-1, 0, 1, 3, 100, 12345])
    rec = dict(kind="result", d=d, plan=plan, n=n, rt=rt)
    try:
        res = Result(sol, Statistics(), n, rt / 8)
    except ValueError:
        return dict(rec, ok=False)
    sum_ = {}
    for line in res.summary().splitlines():
        key, _, value = line.partition(":")
        if key.strip() in KEYS:
            sum_[KEYS[key.strip()]] = value.strip()
    text = str(res)
    lines = [
        x.partition(":")[2].split() for x in text.splitlines() if x.startswith("Route #")
    ]
    assert res.summary() in text
    assert str(res) == str(res)
    return dict(
        rec,
        ok=True,
        cost=str(res.cost()),
        feas=res.is_feasible(),
        sum=sum_,
        rtText=f"{rt / 8:.2f} seconds",
        lines=lines,
    )


def big_case(rng):
    """Statistics of solutions whose costs need all of 64 bits."""
    import numpy as np
    import pyvrp as pv
    from pyvrp import Statistics

    top = 1 << rng.choice([20, 31, 40, 52, 53, 54, 58])
    val = lambda: rng.randint(top // 2, top) + rng.randint(0, 3)
    dist = np.array([[0, val()], [val(), 0]])
    data = pv.ProblemData(
        [pv.Location(0, 0), pv.Location(1, 1)],
        [pv.Client(1, prize=val(), required=False) for _ in range(3)],
        [pv.Depot(0)],
        [pv.VehicleType(3, fixed_cost=val())],
        [dist],
        [np.zeros((2, 2), dtype=int)],
    )
    ce = pv.CostEvaluator([], 1, 1)
    stats, want = Statistics(), []
    for _ in range(rng.randint(1, 5)):
        line = []
        for _ in range(3):
            jobs = rng.sample(range(3), rng.randint(0, 3))
            sol = pv.Solution(data, [pv.Route(data, [pv.Activity(f"C{j}")], 0) for j in jobs])
            line.append(sol)
        stats.collect(*line, ce)
        want.append([str(ce.penalised_cost(x)) for x in line])
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "stats.csv")
        stats.to_csv(path)
        with open(path, newline="") as fh:
            lines = list(csv.DictReader(fh))
        back = Statistics.from_csv(path)
    keys = ["current_cost", "candidate_cost", "best_cost"]
    texts = lambda rows: [[str(getattr(x, k)) for k in keys] for x in rows]
    return dict(
        kind="big", want=want, rows=texts(stats.data), back=texts(back.data),
        file=[[x[k] for k in keys] for x in lines], eq=bool(back == stats),
    )  # fmt: skip


def run_case(rng, d):
    """A real run's statistics, with real clock values."""
    from drv_moves import reachable
    from pyvrp import Statistics, solve
    from pyvrp.stop import MaxIterations

    data = gen.build(reachable(rng, d))
    n = rng.choice([0, 1, 5, 20])
    res = solve(data, MaxIterations(n), seed=rng.randrange(99), display=False)
    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "stats.csv")
        res.stats.to_csv(path)
        back = Statistics.from_csv(path)
    return dict(kind="run", eq=bool(back == res.stats), n=n, m=back.num_iterations)


def run(lg, rng, tier, prop, shard, nshard):
    for k in range(60 if tier == "quick" else 700):
        d = gen.instance(rng, max_clients=4, max_shipments=2)
        lg.run(dict(d=d), lambda: stats_case(rng, d))
        d2 = gen.instance(rng, max_clients=5, max_shipments=2, p_feature=rng.choice([0.2, 0.5]))
        lg.run(dict(d=d2), lambda: result_case(rng, d2))
        if k % 4 == 0:
            lg.run({}, lambda: big_case(rng))
        if k % 6 == 0:
            d3 = gen.instance(rng, max_clients=5, max_shipments=2, min_clients=1)
            lg.run(dict(d=d3), lambda: run_case(rng, d3))
