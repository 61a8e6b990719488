"""
Runs model-building programs, generated by TLC and random ones, and records
the outcome of every call and all problem data that results (C17).
"""

import warnings

import dump
from gen import INF, _i64

from log import behaviours


def _some(rng, p):
    return rng.random() < p


def _amount(rng, xs):
    """A single amount may also be given as a plain int."""
    if len(xs) == 1 and rng is not None and rng.random() < 0.5:
        return xs[0]
    return xs


class Runner:
    def __init__(self, rng=None):
        import pyvrp

        self.pv = pyvrp
        self.rng = rng
        self.m = pyvrp.Model()
        self.datas = []
        self.steps = []
        other = pyvrp.Model()  # source of objects that are not in this model
        self.other = dict(
            loc=other.add_location(1, 2, name="here"),
            grp=other.add_client_group(required=False, name="g"),
            prof=other.add_profile(name="p"),
        )
        self.other["dep"] = other.add_depot(self.other["loc"])

    def get(self, kind, h):
        if h == -2:
            return self.other[kind]
        if h == -1:
            return None
        m = self.m
        return dict(
            loc=m.locations, grp=m.groups, prof=m.profiles, dep=m.depots
        )[kind][h]

    def call(self, op, a):
        m, g = self.m, self.get
        if op == "loc":
            return m.add_location(float(a["x"]), float(a["y"]), name=a["name"])
        if op == "dep":
            return m.add_depot(
                g("loc", a["loc"]), a["early"], _i64(a["late"]), a["serv"], name=a["name"]
            )
        if op == "grp":
            return m.add_client_group(required=a["req"], name=a["name"])
        if op == "cli":
            return m.add_client(
                g("loc", a["loc"]),
                _amount(self.rng, a["dlv"]),
                _amount(self.rng, a["pck"]),
                a["serv"],
                a["early"],
                _i64(a["late"]),
                a["rel"],
                a["prize"],
                a["req"],
                g("grp", a["grp"]),
                name=a["name"],
            )
        if op == "ship":
            p, d = a["p"], a["d"]
            return m.add_shipment(
                g("loc", p["loc"]),
                g("loc", d["loc"]),
                p["early"],
                _i64(p["late"]),
                p["serv"],
                d["early"],
                _i64(d["late"]),
                d["serv"],
                _amount(self.rng, a["amt"]),
                a["prize"],
                a["req"],
                name=a["name"],
            )
        if op == "prof":
            return m.add_profile(name=a["name"])
        if op == "edge":
            big = {INF: 1 << 44}
            return m.add_edge(
                g("loc", a["f"]),
                g("loc", a["t"]),
                big.get(a["dist"], a["dist"]),
                big.get(a["dur"], a["dur"]),
                g("prof", a["prof"]),
            )
        if op == "veh":
            kw = dict(
                num_available=a["n"],
                capacity=_amount(self.rng, a["cap"]),
                start_depot=g("dep", a["s"]),
                end_depot=g("dep", a["e"]),
                fixed_cost=a["fixed"],
                tw_early=a["early"],
                tw_late=_i64(a["late"]),
                shift_duration=_i64(a["shift"]),
                max_distance=_i64(a["maxdist"]),
                unit_distance_cost=a["ud"],
                unit_duration_cost=a["ut"],
                profile=g("prof", a["prof"]),
                initial_load=_amount(self.rng, a["init"]),
                reload_depots=[g("dep", x) for x in a["rld"]],
                max_overtime=_i64(a["maxot"]),
                unit_overtime_cost=a["uo"],
                name=a["name"],
            )
            if a["sl"]:
                kw["start_late"] = _i64(a["slate"])
            if a["maxrl"] < INF:
                kw["max_reloads"] = a["maxrl"]
            return m.add_vehicle_type(**kw)
        raise AssertionError(op)

    def do(self, s):
        s = dict(s)
        if s["op"] == "data":
            big = {INF: 1 << 44, 2 * INF: (1 << 44) + 5}
            missing = big.get(s["missing"], s["missing"])
            try:
                if s["missing"] == INF and len(self.steps) % 2:
                    data = self.m.data()
                else:
                    data = self.m.data(missing)
                s.update(ok=True, obs=dump.data(data))
            except (ValueError, IndexError):
                data = None
                s.update(ok=False)
            self.datas.append((data, s))
        elif s["op"] == "solve":
            s.update(self.solve(s))
        elif s["op"] == "from":
            self.m = self.pv.Model.from_data(self.datas[s["k"] - 1][0])
        else:
            try:
                self.call(s["op"], s["a"])
                s["ok"] = True
            except (ValueError, IndexError):
                s["ok"] = False
        self.steps.append(s)
        return s

    def solve(self, s):
        """Solves this model, and the data it produces, in the same way."""
        pv, rng = self.pv, self.rng
        data = self.m.data(s["missing"])
        args = dict(seed=s["seed"], collect_stats=s["stats"], display=False)
        if s["warm"]:
            args["initial_solution"] = pv.Solution.make_random(data, pv.RandomNumberGenerator(s["seed"] + 3))
        if s["penalty"]:
            pen = pv.PenaltyParams(min_penalty=s["penalty"], max_penalty=s["penalty"] + 5)
            args["params"] = pv.SolveParams(penalty=pen)

        def solved(fn, **kw):
            try:
                res = fn(stop=pv.stop.MaxIterations(s["iters"]), **args, **kw)
            except ValueError as exc:
                return f"ValueError: {exc}"
            seen = [d.candidate_cost for d in res.stats] if s["stats"] else []
            return repr((res.num_iterations, res.cost(), res.is_feasible(), res.stats.is_collecting(), seen)) + str(res.best)

        return dict(mine=solved(self.m.solve, missing_value=s["missing"]), same=solved(lambda **a: pv.solve(data, **a)))

    def record(self):
        for data, s in self.datas:
            if data is not None:  # still what it was?
                s["again"] = dump.data(data)
        return dict(kind="program", steps=self.steps)


VEH = dict(
    n=1, cap=[5], s=-1, e=-1, fixed=0, early=0, late=INF, shift=INF,
    maxdist=INF, ud=1, ut=0, prof=-1, slate=0, sl=False, init=[], rld=[],
    maxrl=INF, maxot=0, uo=0, name="",
)  # fmt: skip


def solvable(data):
    """
    Debug builds assert on data that is subject to C09's known finding, and when
    penalties times the largest matrix values exceed 64 bits.
    """
    depots, vehs = data.depots(), data.vehicle_types()
    late = [depots[i].tw_late for v in vehs for i in v.reload_depots]
    if late and min(late) < max([c.release_time for c in data.clients()], default=0):
        return False
    mats = data.distance_matrices() + data.duration_matrices()
    return all(m.max(initial=0) <= 10**6 for m in mats)


def generated(prog):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = Runner()
        for s in prog["steps"]:
            r.do(s)
        r.do(dict(op="data", missing=7))
        r.do(dict(op="veh", a=VEH))
        s = r.do(dict(op="data", missing=INF))
        if s["ok"]:
            r.do(dict(op="from", k=2))
            r.do(dict(op="data", missing=9))
        return r.record()


NAMES = ["", "a", "b c", "same", "ünï"]


def random_call(rng, r, dim):
    m = r.m

    def h(kind, xs, none=0.0):
        if _some(rng, none):
            return -1
        if _some(rng, 0.05) or not xs:
            return -2
        return rng.randrange(len(xs))

    def win(bad=0.05):
        early = rng.choice([0, 0, rng.randint(0, 20)])
        late = rng.choice([INF, early + rng.randint(0, 30)])
        if _some(rng, bad):
            early, late = rng.choice([(-1, 5), (6, 5), (5, 5), (0, 0)])
        return dict(early=early, late=late)

    def amts(hi=9, short=0.1):
        xs = [rng.randint(0, hi) for _ in range(dim)]
        if _some(rng, short):
            xs = xs[: rng.randint(0, dim)]
        if xs and _some(rng, 0.03):
            xs[rng.randrange(len(xs))] = -1
        return xs

    def nn(hi, bad=0.03):
        return -1 if _some(rng, bad) else rng.randint(0, hi)

    name = rng.choice(NAMES)
    want = [("loc", 3), ("dep", 2), ("grp", 1), ("cli", 5), ("ship", 2), ("prof", 1.5), ("edge", 7), ("veh", 2)]
    if len(m.locations) < 2:
        want = [("loc", 3), ("dep", 1)]
    op = rng.choices([w[0] for w in want], [w[1] for w in want])[0]
    if op == "loc":
        x = rng.choice([0.0, 1.0, 2.5, -3.0])
        return dict(op=op, a=dict(x=repr(x), y=repr(x + rng.choice([0, 1])), name=name))
    if op == "dep":
        return dict(op=op, a=dict(loc=h("loc", m.locations), **win(), serv=nn(5), name=name))
    if op == "grp":
        return dict(op=op, a=dict(req=_some(rng, 0.5), name=name))
    if op == "cli":
        w = win()
        grp = h("grp", m.groups, 0.6) if m.groups or _some(rng, 0.1) else -1
        return dict(
            op=op,
            a=dict(
                loc=h("loc", m.locations), dlv=amts(), pck=amts(), serv=nn(5), **w,
                rel=rng.choice([0, nn(20), min(w["late"], 40)]), prize=nn(9),
                req=_some(rng, 0.1 if grp != -1 else 0.6), grp=grp, name=name,
            ),
        )  # fmt: skip
    if op == "ship":
        p, d = win(), win()
        return dict(
            op=op,
            a=dict(
                p=dict(loc=h("loc", m.locations), **p, serv=nn(5)),
                d=dict(loc=h("loc", m.locations), **d, serv=nn(5)),
                amt=amts(short=0.02), prize=nn(9), req=_some(rng, 0.6), name=name,
            ),
        )  # fmt: skip
    if op == "prof":
        return dict(op=op, a=dict(name=name))
    if op == "edge":
        f, t = rng.randrange(len(m.locations)), rng.randrange(len(m.locations))
        return dict(
            op=op,
            a=dict(
                f=f, t=t,
                dist=0 if f == t and _some(rng, 0.8) else rng.choice([nn(9), nn(9), INF]),
                dur=0 if f == t and _some(rng, 0.8) else nn(9),
                prof=rng.randrange(len(m.profiles)) if m.profiles and _some(rng, 0.5) else -1,
            ),
        )  # fmt: skip
    w = win(0.03)
    cap = amts(short=0.03)
    init = [rng.randint(0, max(c, 0) + _some(rng, 0.1)) for c in cap]
    if _some(rng, 0.5):
        init = init[: rng.randint(0, len(init))]
    late = min(w["late"], 50)
    return dict(
        op=op,
        a=dict(
            n=rng.choice([1, 1, 2, 3, 0]) if _some(rng, 0.2) else 1, cap=cap,
            s=h("dep", m.depots, 0.3), e=h("dep", m.depots, 0.3), fixed=rng.choice([0, 7]),
            **w, shift=rng.choice([INF, nn(40)]), maxdist=rng.choice([INF, nn(40)]),
            ud=rng.choice([1, nn(3)]), ut=rng.choice([0, nn(3)]),
            prof=h("prof", m.profiles, 0.4), sl=_some(rng, 0.3),
            slate=rng.randint(0, max(late, 0)) + (3 if _some(rng, 0.05) else 0),
            init=init, rld=[h("dep", m.depots) for _ in range(rng.choice([0, 0, 1, 2]))],
            maxrl=rng.choice([INF, rng.randint(0, 3)]), maxot=rng.choice([0, nn(9), INF]),
            uo=nn(3), name=name,
        ),
    )  # fmt: skip


def random_program(rng):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = Runner(rng)
        dim = rng.choice([0, 1, 1, 2])
        seen = 0
        for _ in range(rng.randint(4, 40)):
            r.do(random_call(rng, r, dim))
            if _some(rng, 0.08) and len(r.m.vehicle_types):
                s = r.do(dict(op="data", missing=rng.choice([0, 7, INF, 2 * INF])))
                seen += 1
                if s["ok"] and _some(rng, 0.4):
                    r.do(dict(op="from", k=seen))
        # make the model complete, more often than not
        if _some(rng, 0.8):
            if len(r.m.depots) == 0 and len(r.m.locations):
                r.do(dict(op="dep", a=dict(loc=0, early=0, late=INF, serv=0, name="")))
            if len(r.m.vehicle_types) == 0:
                r.do(dict(op="veh", a=dict(VEH, cap=[5] * dim)))
            for i, g in enumerate(list(r.m.groups)):
                if len(g) == 0:
                    r.do(
                        dict(
                            op="cli",
                            a=dict(
                                loc=0, dlv=[0] * dim, pck=[], serv=0, early=0, late=INF, rel=0,
                                prize=0, req=False, grp=i, name="",
                            ),
                        )  # fmt: skip
                    )
        s = r.do(dict(op="data", missing=INF))
        seen += 1
        if s["ok"] and _some(rng, 0.4) and solvable(r.m.data(50)):
            r.do(
                dict(
                    op="solve", missing=rng.choice([0, 7, 50, 10**6]), seed=rng.randrange(99),
                    iters=rng.choice([0, 1, 3]), stats=_some(rng, 0.7), warm=_some(rng, 0.4),
                    penalty=rng.choice([0, 0, 1, 40]),
                )  # fmt: skip
            )
        if s["ok"]:
            r.do(dict(op="from", k=seen))
            for _ in range(rng.randint(0, 5)):
                r.do(random_call(rng, r, dim))
            r.do(dict(op="data", missing=3))
        return r.record()


COUNT = {"quick": 4000, "thorough": 80000}


def run(lg, rng, tier, prop, shard, nshard):
    for prog in behaviours("model", shard, nshard):
        lg.run(prog, lambda: generated(prog))
    for k in range(COUNT[tier] // nshard):
        state = str(rng.getstate()[1][:3])
        lg.run(dict(random=k, shard=shard, state=state), lambda: random_program(rng))
