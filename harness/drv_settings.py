"""Makes, compares, and reads solver settings (C25)."""

import os
import tempfile

import gen

INT, SHARE, BOOL = "int", "share", "bool"
FIELDS = dict(
    ils=dict(
        num_iters_no_improvement=(INT, -2, 9),
        history_length=(INT, -1, 9),
        exhaustive_on_best=BOOL,
    ),
    penalty=dict(
        solutions_between_updates=(INT, -1, 9),
        penalty_increase=(SHARE, 900, 3000),
        penalty_decrease=(SHARE, -100, 1100),
        target_feasible=(SHARE, -100, 1100),
        feas_tolerance=(SHARE, -100, 1100),
        min_penalty=(SHARE, -1000, 200000),
        max_penalty=(SHARE, -1000, 900000),
    ),
    neighbourhood=dict(
        weight_wait_time=(SHARE, 0, 3000),
        num_neighbours=(INT, 0, 9),
        symmetric_proximity=BOOL,
    ),
    perturbation=dict(
        min_perturbations=(INT, 0, 30),
        max_perturbations=(INT, 0, 40),
    ),
)
EDGES = [-1, 0, 1, 999, 1000, 1001]


def draw(rng, g, p, mild):
    out = {}
    for name, kind in FIELDS[g].items():
        if rng.random() >= p:
            continue
        if kind == BOOL:
            out[name] = rng.random() < 0.5
            continue
        kind, lo, hi = kind
        if mild:  # values that are mostly acceptable
            lo = max(lo, 1 if kind == INT else 0)
            if name == "penalty_increase":
                lo = 1000
            if name in ("penalty_decrease", "target_feasible", "feas_tolerance"):
                hi = 1000
            if name.startswith("max_"):
                lo = hi // 2
            if name.startswith("min_"):
                hi = hi // 3
        out[name] = rng.randint(lo, hi)
        if kind == SHARE and not mild and rng.random() < 0.3:
            out[name] = rng.choice(EDGES)
    if not mild and rng.random() < 0.05:
        out["no_such_setting"] = 1
    return out


def real(g, given):
    """As passed to the real code."""
    out = {}
    for k, v in given.items():
        kind = FIELDS[g].get(k, BOOL)
        out[k] = v / 1000 if kind[0] == SHARE else v
    return out


def classes():
    from pyvrp import IteratedLocalSearchParams, PenaltyParams
    from pyvrp.search import NeighbourhoodParams, PerturbationParams

    return dict(
        ils=IteratedLocalSearchParams,
        penalty=PenaltyParams,
        neighbourhood=NeighbourhoodParams,
        perturbation=PerturbationParams,
    )


def shown(g, x):
    out = {}
    for k, kind in FIELDS[g].items():
        v = getattr(x, k)
        out[k] = round(v * 1000) if kind[0] == SHARE else v
    return out


def make(g, given):
    return classes()[g](**real(g, given))


ERRORS = (ValueError, TypeError, AttributeError, OverflowError)


def group_case(rng, g, given, data):
    rec = dict(kind="group", g=g, given=given)
    try:
        x = make(g, given)
    except ERRORS:
        return dict(rec, ok=False)
    rec.update(ok=True, s=shown(g, x))
    if g == "penalty":
        load, tw, dist = x.midpoint_penalties(data)
        # half thousandths are possible: rounded up or down
        rec["mid"] = [int(1000 * v + 0.01) for v in [*load, tw, dist]]
        rec["dims"] = data.num_load_dimensions
    return rec


def pair_case(g, a, b):
    x, y = make(g, a), make(g, b)
    return dict(kind="pair", g=g, a=a, b=b, eq=bool(x == y), ne=bool(x != y))


def draw_file(rng, mild):
    import pyvrp.search as S

    p = rng.choice([0.0, 0.3, 0.7])
    f = {g: draw(rng, g, p, mild) for g in FIELDS}
    names = [op.__name__ for op in S.OPERATORS]
    f["hasOps"] = rng.random() < 0.5
    f["ops"] = rng.sample(names, rng.randint(1, len(names))) if f["hasOps"] else []
    if f["hasOps"] and not mild and rng.random() < 0.1:
        f["ops"].append("NoSuchOperator")
    f["hasDisp"] = rng.random() < 0.4
    f["disp"] = rng.choice([0, 500, 10000]) if f["hasDisp"] else 0
    return f


def toml(rng, f):
    def val(x):
        if isinstance(x, bool):
            return "true" if x else "false"
        return repr(x)

    out = []
    if f["hasDisp"]:
        out.append(f"display_interval = {f['disp'] / 1000}")
    if f["hasOps"]:
        out.append("operators = [" + ", ".join(f'"{x}"' for x in f["ops"]) + "]")
    groups = [g for g in FIELDS if f[g] or rng.random() < 0.3]
    rng.shuffle(groups)
    for g in groups:
        out.append(f"[{g}]")
        items = list(real(g, f[g]).items())
        rng.shuffle(items)
        out += [f"{k} = {val(v)}" for k, v in items]
    return "\n".join(out) + "\n"


def from_file(rng, f):
    from pyvrp import SolveParams

    with tempfile.TemporaryDirectory() as tmp:
        path = os.path.join(tmp, "settings.toml")
        with open(path, "w") as fh:
            fh.write(toml(rng, f))
        return SolveParams.from_file(path)


def direct(f):
    import pyvrp.search as S
    from pyvrp import SolveParams

    kw = {g: make(g, f[g]) for g in FIELDS}
    if f["hasOps"]:
        kw["operators"] = [getattr(S, x) for x in f["ops"]]
    if f["hasDisp"]:
        kw["display_interval"] = f["disp"] / 1000
    return SolveParams(**kw)


def file_case(rng, f, data):
    from pyvrp import solve
    from pyvrp.stop import MaxIterations

    rec = dict(kind="file", f=f)
    try:
        x = from_file(rng, f)
    except ERRORS:
        return dict(rec, ok=False)
    y = direct(f)
    rec.update(
        ok=True,
        s={g: shown(g, getattr(x, g)) for g in FIELDS},
        ops=[op.__name__ for op in x.operators],
        same=bool(x == y) and bool(y == x),
        runs=True,
    )
    rec["s"]["disp"] = round(x.display_interval * 1000)
    if data is not None:
        a = solve(data, MaxIterations(3), seed=5, params=x)
        b = solve(data, MaxIterations(3), seed=5, params=y)
        rec["runs"] = bool(a.best == b.best) and a.stats.data == b.stats.data
    return rec


def vary(rng, f):
    """The same settings, or settings that differ in one place."""
    g = rng.choice(sorted(FIELDS))
    out = {k: dict(v) if isinstance(v, dict) else v for k, v in f.items()}
    how = rng.random()
    if how < 0.6:
        out[g] = draw(rng, g, 0.5, True)
    elif how < 0.75:
        out["hasDisp"], out["disp"] = True, rng.choice([5000, 500])
    return out


def files_case(rng, a, b):
    x, y = from_file(rng, a), from_file(rng, b)
    return dict(kind="files", a=a, b=b, eq=bool(x == y) and not bool(x != y))


COUNT = {"quick": (3000, 1600, 1600, 800), "thorough": (40000, 20000, 16000, 10000)}


def run(lg, rng, tier, prop, shard, nshard):
    import drv_moves

    ng, np_, nf, n2 = (x // nshard for x in COUNT[tier])
    pool = []
    for _ in range(12):
        d = gen.instance(rng, max_clients=5, max_shipments=2, min_clients=1)
        pool.append(gen.build(drv_moves.reachable(rng, d)))
    for _ in range(ng):
        g = rng.choice(sorted(FIELDS))
        given = draw(rng, g, rng.choice([0.2, 0.5, 1.0]), rng.random() < 0.5)
        lg.run(dict(g=g, given=given), lambda: group_case(rng, g, given, rng.choice(pool)))
    for _ in range(np_):
        g = rng.choice(sorted(FIELDS))
        ok = lambda x: group_case(rng, g, x, pool[0])["ok"]
        a, b = draw(rng, g, 0.3, True), draw(rng, g, 0.3, True)
        how = rng.random()
        if how < 0.4:
            b = dict(a)
        elif how < 0.7 and a:
            b = dict(a)
            b.pop(rng.choice(sorted(b)))
        if ok(a) and ok(b):
            lg.run(dict(g=g, a=a, b=b), lambda: pair_case(g, a, b))
    for k in range(nf):
        f = draw_file(rng, rng.random() < 0.6)
        data = rng.choice(pool) if k % 8 == 0 else None
        lg.run(f, lambda: file_case(rng, f, data))
    for _ in range(n2):
        a = draw_file(rng, True)
        b = vary(rng, a)
        ok = lambda f: file_case(rng, f, None)["ok"]
        if ok(a) and ok(b):
            lg.run(dict(a=a, b=b), lambda: files_case(rng, a, b))
