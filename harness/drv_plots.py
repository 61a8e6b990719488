"""Draws plots of random instances, solutions and runs, and records what is on them (C29)."""

import warnings

import gen
import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt  # noqa: E402
import pyvrp as pv  # noqa: E402
from gen import norm  # noqa: E402
from matplotlib.collections import (  # noqa: E402
    LineCollection,
    PathCollection,
    PolyCollection,
)
from matplotlib.patches import Rectangle  # noqa: E402
from pyvrp import plotting  # noqa: E402

ODD = 77_777_777  # not a whole number


def num(x):
    x = float(x)
    if abs(x) > 5e7:
        return norm(int(x))
    return round(x) if abs(x - round(x)) < 1e-5 else ODD


def pt(xy, ys=1):
    return [num(xy[0]), num(xy[1] * ys)]


def label(artist):
    text = str(artist.get_label())
    return "" if text.startswith("_") else text


def picture(ax, ys=1):
    """What can be seen on the axes; vertical positions in units of 1 / ys."""
    out = dict(lines=[], dots=[], segs=[], fills=[], bars=[], arrows=[])
    for x in ax.lines:
        pts = [pt(p, ys) for p in x.get_xydata()]
        out["lines"].append(dict(label=label(x), pts=pts))
    for x in ax.collections:
        if isinstance(x, LineCollection):
            for seg in x.get_segments():
                out["segs"].append(dict(label=label(x), pts=[pt(p, ys) for p in seg]))
        elif isinstance(x, PolyCollection):
            for path in x.get_paths():
                out["fills"].append(
                    dict(label=label(x), pts=[pt(p, ys) for p in path.vertices])
                )
        elif isinstance(x, PathCollection):
            pts = [pt(p, ys) for p in x.get_offsets()]
            out["dots"].append(dict(label=label(x), pts=pts))
    bars = [x for x in ax.patches if isinstance(x, Rectangle)]
    for x in sorted(bars, key=lambda x: x.get_x()):
        out["bars"].append([num(x.get_y()), num(x.get_height())])
    for x in ax.texts:
        if getattr(x, "arrow_patch", None) is not None:
            out["arrows"].append([pt(x.xyann), pt(x.xy)])
    return out


def edges(pic, name, n):
    """The two edges, of n points each, of an area."""
    for x in pic["fills"]:
        if x["label"] == name:
            pts = x["pts"]
            return [pts[1 : n + 1], pts[n + 2 : 2 * n + 2][::-1]]
    return []


def drawn(rng, draw):
    """Calls draw, at times with axes of our own; returns these axes."""
    plt.close("all")
    if rng.random() < 0.5:
        _, ax = plt.subplots()
        draw(ax=ax)
    else:
        draw()
        ax = plt.gcf().axes[0]
    return ax


def by_title(fig, titles):
    out = []
    for t in titles:
        (ax,) = [x for x in fig.axes if x.get_title().startswith(t)]
        out.append(ax)
    return out


def figure(rng, draw):
    plt.close("all")
    if rng.random() < 0.5:
        fig = plt.figure()
        draw(fig=fig)
    else:
        draw()
        fig = plt.gcf()
    return fig


def instance_cases(lg, rng, d):
    data = gen.build(d)

    def coords():
        ax = drawn(rng, lambda **kw: plotting.plot_coordinates(data, **kw))
        return dict(kind="coords", d=d, pic=picture(ax))

    def demands():
        dim = rng.randrange(d["ndim"])
        ax = drawn(rng, lambda **kw: plotting.plot_demands(data, dim, **kw))
        return dict(kind="demands", d=d, dim=dim, pic=picture(ax))

    def windows():
        ax = drawn(rng, lambda **kw: plotting.plot_time_windows(data, **kw))
        return dict(kind="windows", d=d, pic=picture(ax))

    def everything():
        fig = figure(rng, lambda **kw: plotting.plot_instance(data, **kw))
        axs = by_title(fig, ["Time windows", "Demands", "Coordinates"])
        return dict(kind="instance", d=d, pics=[picture(ax) for ax in axs])

    lg.run(dict(d=d), coords)
    lg.run(dict(d=d), windows)
    if d["ndim"]:
        lg.run(dict(d=d), demands)
        lg.run(dict(d=d), everything)


def make(data, plan):
    return pv.Solution(
        data,
        [pv.Route(data, [gen.activity(a) for a in r["acts"]], r["v"]) for r in plan],
    )


def solution_case(rng, d, plan):
    data = gen.build(d)
    sol = make(data, plan)
    show = rng.random() < 0.5
    ax = drawn(rng, lambda **kw: plotting.plot_solution(sol, data, show, **kw))
    # The order of routes in a solution is the one that is labelled.
    plan = [
        dict(v=r.vehicle_type(), acts=[gen.act_json(a) for a in r][1:-1])
        for r in sol.routes()
    ]
    return dict(kind="solution", d=d, plan=plan, all=show, pic=picture(ax))


def schedule_case(rng, d, r):
    data = gen.build(d)
    acts = [gen.activity(a) for a in r["acts"]]
    route = pv.Route(data, acts, r["v"])
    dim = rng.randrange(d["ndim"] + 1)
    kw = dict(load_dimension=dim)
    if dim == 0 and rng.random() < 0.5:
        kw = {}
    if rng.random() < 0.3:
        kw["legend"] = False
    if rng.random() < 0.3:
        kw["title"] = "T"
    ax = drawn(rng, lambda **k: plotting.plot_route_schedule(data, route, **kw, **k))
    pic = picture(ax)
    sched = [
        dict(
            start=norm(a.start_time),
            end=norm(a.end_time),
            wait=norm(a.wait_duration),
            warp=norm(a.time_warp),
            dur=norm(a.duration),
        )
        for a in route.schedule()
    ]
    n = 3 * len(sched)
    load = []
    for other in ax.figure.axes:
        load = load or edges(picture(other), "Load in vehicle", n)
    return dict(
        kind="schedule", d=d, v=r["v"], acts=r["acts"], dim=dim, sched=sched, pic=pic,
        slack=norm(route.slack()), slackfill=edges(pic, "Time (slack)", n), load=load,
    )  # fmt: skip


def run_cases(lg, rng, d):
    data = gen.build(d)
    sols = [make(data, gen.plan(rng, d, p_visit=rng.choice([0.5, 1.0]))) for _ in range(4)]
    n = rng.choice([1, 2, 3, 7, 19, 20, 21, 45])
    stats = pv.Statistics()
    ce = pv.CostEvaluator([2] * d["ndim"], 3, 1)
    for _ in range(n):
        stats.collect(*(rng.choice(sols) for _ in range(3)), ce)
    linear = rng.random() < 0.3
    a, b = rng.randint(0, 9), rng.randint(0, 3)
    times = [a + b * k if linear else rng.randint(0, 30) for k in range(n)]
    stats.runtimes = [x / 8 for x in times]
    rows = dict(
        n=n,
        cur=[num(x.current_cost) for x in stats],
        cand=[num(x.candidate_cost) for x in stats],
        best=[num(x.best_cost) for x in stats],
        times=times,
        linear=linear,
    )
    best = rng.choice(sols)
    res = pv.Result(best, stats, n, 1.0)

    def objectives():
        skip = rng.choice([-1, 0, 1, n // 2, n])
        kw = {} if skip < 0 else dict(num_to_skip=skip)
        ax = drawn(rng, lambda **k: plotting.plot_objectives(res, **kw, **k))
        return dict(kind="objectives", d=d, skip=skip, pic=picture(ax), **rows)

    def runtimes():
        ax = drawn(rng, lambda **kw: plotting.plot_runtimes(res, **kw))
        return dict(kind="runtimes", d=d, pic=picture(ax, 8), **rows)

    def everything():
        fig = figure(rng, lambda **kw: plotting.plot_result(res, data, **kw))
        axs = by_title(fig, ["Objectives", "Iteration runtimes", "Solution"])
        pics = [picture(ax, 8 if k == 1 else 1) for k, ax in enumerate(axs)]
        plan = [
            dict(v=r.vehicle_type(), acts=[gen.act_json(a) for a in r][1:-1])
            for r in best.routes()
        ]
        return dict(kind="result", d=d, plan=plan, pics=pics, **rows)

    lg.run(dict(d=d, n=n), objectives)
    lg.run(dict(d=d, n=n), runtimes)
    lg.run(dict(d=d, n=n), everything)


def trend_case():
    """Where the trend is drawn (see known_findings.json)."""
    import random

    rng = random.Random(1)
    stats = pv.Statistics()
    stats.num_iterations = 3
    stats.runtimes = [1.0, 2.0, 3.0]
    d = gen.instance(rng, max_clients=1, features=set())
    data = gen.build(d)
    res = pv.Result(pv.Solution(data, []), stats, 3, 1.0)
    ax = drawn(rng, lambda **kw: plotting.plot_runtimes(res, **kw))
    return dict(
        kind="runtimes", n=3, times=[8, 16, 24], linear=True, strict=True,
        pic=picture(ax, 8), key="trend-from-zero",
    )  # fmt: skip


COUNT = {"quick": 45, "thorough": 450}


def run(lg, rng, tier, prop, shard, nshard):
    warnings.simplefilter("ignore")
    if shard == 0:
        lg.run(dict(key="trend-from-zero"), trend_case)
    for k in range(COUNT[tier]):
        d = gen.instance(
            rng,
            max_clients=rng.choice([3, 6, 12]),
            max_shipments=rng.choice([1, 3]),
            p_feature=rng.choice([0.3, 0.6]),
        )
        instance_cases(lg, rng, d)
        plan = gen.plan(rng, d, p_visit=rng.choice([0.5, 1.0]))
        for _ in range(2):
            lg.run(dict(d=d, plan=plan), lambda: solution_case(rng, d, plan))
        for r in plan[:4]:
            lg.run(dict(d=d, r=r), lambda: schedule_case(rng, d, r))
        run_cases(lg, rng, d)
    plt.close("all")
