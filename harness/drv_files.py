"""
Writes instance and solution files, reads them with the real code, and writes
solutions with the real code and reads those back (C23).
"""

import contextlib
import io
import pathlib
import re
import shutil
import sys
import tempfile

import dump
import numpy as np
import obs
from gen import norm

FUNCS = ["round", "trunc", "dimacs", "exact", "none", "quads"]


def quads(vals):
    return np.floor(4 * np.asarray(vals)).astype(np.int64)


def absent():
    return dict(how="absent", v=[])


def section(v):
    return dict(how="section", v=v)


def spec(v):
    return dict(how="spec", v=[v])


class File:
    """Draws the contents of one instance file."""

    def __init__(self, rng, small=False, bad=None, solvable=False):
        self.rng = rng
        self.rf = rng.choice(FUNCS)
        self.solvable = solvable
        pd = rng.random() < 0.25
        large = not small and not solvable and rng.random() < 0.12
        nd = rng.choice([1, 1, 2, 3]) if not large else rng.randint(1, 6)
        vrpb = not pd and not solvable and rng.random() < 0.15
        if vrpb:
            nd = 1
        nc = 2 * rng.randint(1, 3) if pd else rng.randint(1, 6)
        if large:
            nc = 2 * rng.randint(3, 8) if pd else rng.randint(6, 18)
        self.nd, self.nc = nd, nc
        self.dim = dim = nd + nc
        f = self.f = dict(rf=self.rf, dim=dim, type="VRPB" if vrpb else "CVRP")

        f["depots"] = list(range(1, nd + 1)) if nd > 1 or rng.random() < 0.7 else []
        f["vehicles"] = rng.randint(1, 5) if pd or rng.random() < 0.8 else 0
        if large and f["vehicles"]:
            f["vehicles"] = rng.randint(5, 40)
        nv = f["vehicles"] or nc

        half = lambda p: rng.random() < p
        rows = lambda fn: [fn() for _ in range(dim)]

        # edge weights
        ewts = ["FULL", "FULL", "LOWER", "FLOOR_2D", "CEIL_2D"]
        if self.rf != "none":
            ewts += ["EUC_2D"] * 3
        f["ewt"] = rng.choice(ewts)
        if vrpb and f["ewt"] == "LOWER":
            f["ewt"] = "FULL"
        f["coords"] = []
        if "2D" in f["ewt"] or half(0.6):
            f["coords"] = rows(lambda: [self.q(0, 14), self.q(0, 14)])
        f["w"] = []
        if f["ewt"] in ("FULL", "LOWER"):
            f["w"] = [
                [0 if i == j else self.q(0, 60) for j in range(dim)]
                for i in range(dim)
            ]

        # clients
        dims = rng.choice([1, 1, 2]) if not (pd or vrpb) else 1
        if large and dims > 1:
            dims = rng.randint(2, 5)
        # linehauls and backhauls are told apart by their loads: no ties
        whole = lambda: 4 * rng.randint(0, 9)
        load = whole if vrpb else (lambda: self.q(0, 9))
        loads = lambda: [load() for _ in range(dims)]
        for key in ("demand", "backhaul", "service", "tw", "release", "prize"):
            f[key] = absent()
        f["groups"], f["pd"] = [], []
        f["lineword"] = rng.choice(["DEMAND", "LINEHAUL"])
        if not pd:
            if vrpb or dims > 1 or half(0.8):
                f["demand"] = section(rows(loads))
            if vrpb or half(0.4):
                f["backhaul"] = section(rows(loads))
            if vrpb:
                for i in range(dim):
                    which = rng.choice(["demand", "backhaul"])
                    f[which]["v"][i] = [0]
                for key in ("demand", "backhaul"):
                    f[key]["v"][0] = [0]
            if half(0.6):
                f["service"] = (
                    section(rows(lambda: self.q(0, 20)))
                    if half(0.7)
                    else spec(self.q(0, 20))
                )
            if half(0.6):
                f["tw"] = section(rows(self.window))
            if half(0.3):
                rel = rows(lambda: self.q(0, 40))
                if f["tw"]["how"] != "absent":
                    rel = [min(r, w[1]) for r, w in zip(rel, f["tw"]["v"])]
                f["release"] = section(rel)
            if half(0.4):
                prize = lambda: 0 if half(0.4) else self.q(1, 50)
                f["prize"] = section(rows(prize))
            if half(0.35):
                ids = list(range(nd + 1, dim + 1))
                rng.shuffle(ids)
                while ids and half(0.8):
                    k = rng.randint(1, 9 if large else 3)
                    f["groups"].append(ids[:k])
                    ids = ids[k:]
        else:
            f["pd"] = [self.step(0, 0, 0) for _ in range(nd)]
            ids = list(range(nd + 1, dim + 1))
            if not half(0.3):
                rng.shuffle(ids)
            rws = {}
            for a, b in zip(ids[::2], ids[1::2]):
                amt = self.q(0, 9)
                rws[a] = self.step(amt, 0, b)
                rws[b] = self.step(-amt, a, 0)
                # the delivery must not close before the pickup opens
                rws[b]["late"] = max(rws[b]["late"], rws[a]["early"])
            f["pd"] += [rws[i] for i in sorted(rws)]

        # vehicles; values from small pools, so that some are alike
        def per_vehicle(pool, uniform=True, p=0.45):
            if not half(p):
                return absent()
            if uniform and half(0.4):
                return spec(rng.choice(pool))
            return section([rng.choice(pool) for _ in range(nv)])

        caps = [[self.q(5, 30) for _ in range(dims)] for _ in range(2)]
        f["cap"] = per_vehicle(caps, False, 1.0 if dims > 1 else 0.5)
        if f["cap"]["how"] == "absent" and dims == 1 and half(0.5):
            f["cap"] = spec(self.q(5, 30))
        pool = lambda lo, hi: [self.q(lo, hi) for _ in range(2)]
        f["maxdist"] = per_vehicle(pool(50, 200), p=0.3)
        f["maxdur"] = per_vehicle(pool(50, 200), p=0.3)
        f["fixed"] = per_vehicle(pool(0, 50), False)
        f["maxrl"] = per_vehicle([0, 1, 2, 3], p=0.4)
        f["ud"] = per_vehicle([0, 1, 2], False, 0.3)
        f["vdepot"] = per_vehicle(list(range(1, nd + 1)), False)
        f["rld"] = absent()
        subset = lambda xs, lo: rng.sample(xs, rng.randint(lo, len(xs)))
        if half(0.4):
            deps = list(range(1, nd + 1))
            sets = [subset(deps, 0 if half(0.3) else 1) for _ in range(2)]
            f["rld"] = section([rng.choice(sets) for _ in range(nv)])
        f["allowed"] = absent()
        # Forbidden edges times penalties may overflow while solving; that is
        # about the magnitude of the data, not about files.
        if half(0.35) and not solvable:
            ids = list(range(nd + 1, dim + 1))
            sets = [sorted(subset(ids, 1)) for _ in range(2)] + [ids]
            f["allowed"] = section([rng.choice(sets) for _ in range(nv)])

        if bad == "depots":
            f["depots"] = [i + 1 for i in f["depots"]] or [2]
        if bad == "length":
            keys = "cap maxdist maxdur fixed maxrl ud vdepot rld allowed".split()
            keys = [k for k in keys if f[k]["how"] == "section"]
            if not keys:
                f["fixed"] = section([self.q(0, 5) for _ in range(nv)])
                keys = ["fixed"]
            v = f[rng.choice(keys)]["v"]
            if len(v) > 2 and half(0.5):
                v.pop()
            else:
                v.append(v[-1])

    def q(self, lo, hi):
        """A value in quarters; whole numbers when nothing is rounded."""
        if self.rf == "none" or self.rng.random() < 0.3:
            return 4 * self.rng.randint(lo, hi)
        return self.rng.randint(4 * lo, 4 * hi)

    def window(self):
        a, b = sorted([self.q(0, 100), self.q(0, 100)])
        return [a, b]

    def step(self, amt, p, d):
        a, b = self.window()
        serv = self.q(0, 9)
        return dict(amt=amt, early=a, late=b, serv=serv, p=p, d=d)

    # --- text -------------------------------------------------------------

    def num(self, q):
        if q % 4 == 0:
            if self.rf != "none" and self.rng.random() < 0.1:
                return f"{q // 4}.0"
            return str(q // 4)
        return repr(q / 4)

    def text(self):
        f, rng, out = self.f, self.rng, []
        sep = rng.choice([" : ", ": ", ":", " :\t"])

        def say(key, val):
            out.append(f"{key}{sep}{val}")

        say("NAME", "x")
        if rng.random() < 0.3:
            out.append("# a comment : of sorts")
        say("TYPE", f["type"])
        say("DIMENSION", f["dim"])
        if f["vehicles"]:
            say("VEHICLES", f["vehicles"])
        if f["ewt"] in ("FULL", "LOWER"):
            say("EDGE_WEIGHT_TYPE", "EXPLICIT")
            fmt = {"FULL": "FULL_MATRIX", "LOWER": "LOWER_ROW"}
            say("EDGE_WEIGHT_FORMAT", fmt[f["ewt"]])
        else:
            say("EDGE_WEIGHT_TYPE", f["ewt"])

        sections = []

        def sect(name, rows, number=True):
            gap = rng.choice([" ", "\t", "  "])
            lines = [name + "_SECTION"]
            for i, row in enumerate(rows, 1):
                row = [str(x) for x in row]
                lines.append(gap.join(([str(i)] if number else []) + row))
            sections.append(lines)

        nums = lambda row: [self.num(x) for x in row]
        ints = lambda row: [str(x) for x in row]

        def part(name, p, show, wide=False):
            if p["how"] == "spec":
                say(name, show([p["v"][0]])[0])
            elif p["how"] == "section":
                sect(name, [show(x if wide else [x]) for x in p["v"]])

        part(f["lineword"], f["demand"], nums, True)
        part("BACKHAUL", f["backhaul"], nums, True)
        part("SERVICE_TIME", f["service"], nums)
        part("TIME_WINDOW", f["tw"], nums, True)
        part("RELEASE_TIME", f["release"], nums)
        part("PRIZE", f["prize"], nums)
        part("CAPACITY", f["cap"], nums, True and f["cap"]["how"] == "section")
        part("VEHICLES_MAX_DISTANCE", f["maxdist"], nums)
        part("VEHICLES_MAX_DURATION", f["maxdur"], nums)
        part("VEHICLES_FIXED_COST", f["fixed"], nums)
        part("VEHICLES_MAX_RELOADS", f["maxrl"], ints)
        part("VEHICLES_UNIT_DISTANCE_COST", f["ud"], ints)
        part("VEHICLES_DEPOT", f["vdepot"], ints)
        part("VEHICLES_RELOAD_DEPOT", f["rld"], ints, True)
        part("VEHICLES_ALLOWED_CLIENTS", f["allowed"], ints, True)
        if f["groups"]:
            sect("MUTUALLY_EXCLUSIVE_GROUP", f["groups"])
        if f["pd"]:
            sect(
                "PICKUP_AND_DELIVERY",
                [
                    nums([r["amt"], r["early"], r["late"], r["serv"]])
                    + ints([r["p"], r["d"]])
                    for r in f["pd"]
                ],
            )
        if f["depots"]:
            rows = [[d] for d in f["depots"]]
            if rng.random() < 0.6:
                rows.append([-1])
            sect("DEPOT", rows, False)
        if f["ewt"] == "FULL":
            sect("EDGE_WEIGHT", [nums(r) for r in f["w"]], False)
        elif f["ewt"] == "LOWER":
            rows = [nums(r[:i]) for i, r in enumerate(f["w"]) if i]
            sect("EDGE_WEIGHT", rows, False)

        rng.shuffle(sections)
        if f["coords"]:
            # Euclidean weights are computed once all sections are known
            pos = rng.randint(0, len(sections))
            sect("NODE_COORD", [nums(r) for r in f["coords"]])
            sections.insert(pos, sections.pop())
        for lines in sections:
            out += lines
        if rng.random() < 0.7:
            out.append("EOF")
        return "\n".join(out) + rng.choice(["", "\n"])


def show(data):
    lists = dump.data(data)["lists"]
    lists["locs"] = [
        [round(4 * loc.x), round(4 * loc.y)] for loc in data.locations()
    ]
    idcs = [
        [int(v) for v in vt.name.split(",")] for vt in data.vehicle_types()
    ]
    return lists, idcs


def func(rf):
    return quads if rf == "quads" else rf


def read_case(f, path):
    from pyvrp import read

    try:
        data = read(path, func(f["rf"]))
    except (ValueError, IndexError, TypeError, RuntimeError) as e:
        # judged by the specification: is the file readable?
        return dict(kind="read", f=f, ok=False, err=type(e).__name__, msg=str(e)), None
    x, idcs = show(data)
    return dict(kind="read", f=f, ok=True, err="", x=x, idcs=idcs), data


def draw_lines(rng, data, idcs):
    """Visits per vehicle; each vehicle's line is a sequence of locations."""
    nv = sum(map(len, idcs))
    lines = [[] for _ in range(nv)]
    skip = set()  # at most one client per group
    for g in data.groups():
        members = list(g.clients)
        skip |= set(members) - {rng.choice(members)}
    jobs = [[c.location] for i, c in enumerate(data.clients()) if i not in skip]
    jobs += [[s.pickup.location, s.delivery.location] for s in data.shipments()]
    rng.shuffle(jobs)
    if rng.random() < 0.3:
        jobs = jobs[: rng.randint(0, len(jobs))]
    use = rng.sample(range(nv), rng.randint(1, nv))
    for job in jobs:
        lines[rng.choice(use)] += job
    types = {v: t for t, vs in enumerate(idcs) for v in vs}
    for v, line in enumerate(lines):
        vt = data.vehicle_type(types[v])
        deps = vt.reload_depots
        trips = 1
        while line and deps and trips < vt.max_trips and rng.random() < 0.5:
            # between jobs only: loads do not survive a reload
            steps = {s.pickup.location: s.delivery.location for s in data.shipments()}
            pos = [
                k
                for k in range(1, len(line))
                if line[k - 1] not in steps or line[k] != steps[line[k - 1]]
            ]
            if not pos:
                break
            line.insert(rng.choice(pos), data.depot(rng.choice(deps)).location)
            trips += 1
    return lines


def sol_case(rng, data, path):
    from pyvrp import read_solution

    x, idcs = show(data)
    lines = draw_lines(rng, data, idcs)
    while lines and not lines[-1] and rng.random() < 0.5:
        lines.pop()
    out = [f"Route #{i}: {' '.join(map(str, r))}" for i, r in enumerate(lines, 1)]
    if rng.random() < 0.7:
        out.append("Cost: 12.5")
    path.write_text("\n".join(out) + "\n")
    sol = read_solution(path, data)
    return dict(kind="sol", x=x, idcs=idcs, lines=lines, plan=obs.plan_of(sol))


def cost_of(x):
    return "inf" if x == float("inf") else str(round(float(x), 2))


def parse(path):
    lines, numbers, cost = [], [], ""
    for line in path.read_text().splitlines():
        if m := re.match(r"\s*Route\s*#(\d+)\s*:(.*)$", line):
            numbers.append(int(m.group(1)))
            lines.append([int(w) for w in m.group(2).split()])
        elif m := re.match(r"\s*Cost\s*:?\s*(\S+)", line):
            cost = cost_of(float(m.group(1)))
    return lines, numbers, cost


def write_case(rng, data, path):
    from pyvrp import Activity, ActivityType, Result, Route, Solution, read_solution
    from pyvrp.Statistics import Statistics
    from pyvrp.cli import write_solution

    T = ActivityType
    at = {}
    for i, d in enumerate(data.depots()):
        at[d.location] = Activity(T.DEPOT, i)
    for i, c in enumerate(data.clients()):
        at[c.location] = Activity(T.CLIENT, i)
    for i, s in enumerate(data.shipments()):
        at[s.pickup.location] = Activity(T.PICKUP, i)
        at[s.delivery.location] = Activity(T.DELIVERY, i)

    x, idcs = show(data)
    types = {v: t for t, vs in enumerate(idcs) for v in vs}
    routes = [
        Route(data, [at[k] for k in line], types[v])
        for v, line in enumerate(draw_lines(rng, data, idcs))
        if line
    ]
    rng.shuffle(routes)
    sol = Solution(data, routes)
    result = Result(sol, Statistics(), 1, 0.5)
    write_solution(path, data, result)
    lines, numbers, cost = parse(path)
    return dict(
        kind="write",
        x=x,
        idcs=idcs,
        vehicles=data.num_vehicles,
        plan=obs.plan_of(sol),
        lines=lines,
        numbers=numbers,
        cost=cost,
        real=cost_of(result.cost()),
        again=bool(read_solution(path, data) == sol),
    )


def cli_case(rng, files, where):
    """Runs the command line program on the given files."""
    from pyvrp import read, read_solution, solve
    from pyvrp import CostEvaluator
    from pyvrp.cli import main
    from pyvrp.Statistics import Statistics
    from pyvrp.stop import MaxIterations

    seed, iters = rng.randint(1, 99), rng.randint(1, 6)
    per_client = rng.random() < 0.4
    rf = files[0][0].rf
    argv = [str(p) for _, p in files]
    rng.shuffle(argv)
    argv += ["--seed", str(seed), "--max_iterations", str(iters)]
    argv += ["--sol_dir", str(where / "sol"), "--stats_dir", str(where / "st")]
    argv += ["--round_func", rf]
    if per_client:
        argv.append("--per_client")
    old, buf = sys.argv, io.StringIO()
    sys.argv = ["pyvrp", *argv]
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
            main()
    finally:
        sys.argv = old

    rows = {}
    for line in buf.getvalue().splitlines():
        w = line.split()
        if len(w) == 5 and w[1] in ("Y", "N"):
            rows[w[0]] = w

    recs = []
    for _, p in files:
        data = read(p, rf)
        sol_path = where / "sol" / (p.stem + ".sol")
        sol = read_solution(sol_path, data)
        _, _, file_cost = parse(sol_path)
        want = iters * (data.num_clients if per_client else 1)
        ref = solve(data, MaxIterations(want), seed, display=False)
        feas = sol.is_feasible()
        dims = data.num_load_dimensions
        cost = CostEvaluator([0] * dims, 0, 0).cost(sol)
        w = rows.get(p.stem, ["missing", "?", "0", "-1", "0"])
        recs.append(
            dict(
                kind="cli",
                stem=p.stem,
                name=w[0],
                flag=w[1],
                shown=cost_of(float(w[2])),
                iters=int(w[3]),
                cost=cost_of(cost) if feas else "inf",
                file=file_cost,
                feas=feas,
                want=want,
                rows=Statistics.from_csv(where / "st" / (p.stem + ".csv")).num_iterations,
                same=bool(ref.best == sol),
            )
        )
    return recs


def run(lg, rng, tier, prop, shard, nshard):
    where = pathlib.Path(tempfile.mkdtemp(prefix="verif-files-"))
    try:
        n = {"quick": 200, "thorough": 2500}[tier]
        for k in range(n):
            bad = rng.choice(["depots", "length"]) if rng.random() < 0.1 else None
            file = File(rng, bad=bad)
            path = where / "x.vrp"
            text = file.text()
            path.write_text(text)
            lg.begin(text)
            rec, data = read_case(file.f, path)
            rec["text"] = text
            lg.case(rec)
            if data is None or data.num_vehicles == 0:
                continue
            lg.run(text, lambda: sol_case(rng, data, where / "a.sol"))
            lg.run(text, lambda: write_case(rng, data, where / "b.sol"))

        for k in range({"quick": 5, "thorough": 60}[tier]):
            sub = where / f"c{k}"
            sub.mkdir()
            files = []
            rf = None
            while len(files) < rng.choice([1, 1, 2]):
                file = File(rng, solvable=True)
                if file.f["pd"] or rf not in (None, file.rf) or file.rf == "quads":
                    continue
                rf = file.rf
                path = sub / f"inst{len(files)}.vrp"
                path.write_text(file.text())
                files.append((file, path))
            desc = [p.read_text() for _, p in files]
            lg.begin(desc)
            recs = []
            lg.run(desc, lambda: recs.extend(cli_case(rng, files, sub)))
            for rec in recs:
                rec["desc"] = str(desc)
                lg.case(rec)
    finally:
        shutil.rmtree(where)
