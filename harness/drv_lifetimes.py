"""
Obtains objects from each other, drops and changes some, and records what the
rest report (C28). Runs with freed memory overwritten (see the registry), so that
reading it does not go unnoticed.
"""

import gc
import hashlib
import json
import pickle

import dump
import gen
import log
import numpy as np
import obs
from gen import A
from pyvrp import CostEvaluator, ProblemData, Result, Route, Solution
from pyvrp.search import _search as S
from pyvrp.Statistics import Statistics

import drv_moves as M

ITERATORS = ("memberIter", "visitIter", "snodeIter")


class World:
    """One instance, and what is needed to look at objects made for it."""

    def __init__(self, rng, d, plan):
        self.rng = rng
        self.d = d
        self.plan = plan
        blob = pickle.dumps(gen.build(d))
        self.blob = blob
        # Equal to, but independent of, the data in the histories.
        self.twin = pickle.loads(blob)
        self.sol = self.solution(self.twin)
        self.ce = CostEvaluator([3] * d["ndim"], 2, 5)
        self.ssol = S.Solution(self.twin)
        self.ssol.load(self.sol)
        self.unary = [
            x for x in M.UNARY if getattr(S, x).supports(self.twin)
        ] or ["RemoveOptionalClient"]
        self.binary = [x for x in M.BINARY if getattr(S, x).supports(self.twin)]

    def data(self):
        return pickle.loads(self.blob)

    def route(self, data, r):
        return Route(data, [gen.activity(a) for a in r["acts"]], r["v"])

    def solution(self, data):
        return Solution(data, [self.route(data, r) for r in self.plan])

    def parts(self):
        data = self.data()
        return dict(
            locations=data.locations(),
            clients=data.clients(),
            depots=data.depots(),
            vehicle_types=data.vehicle_types(),
            distance_matrices=[np.array(m) for m in data.distance_matrices()],
            duration_matrices=[np.array(m) for m in data.duration_matrices()],
            groups=data.groups(),
            shipments=data.shipments(),
        )

    def fits(self, acts):
        for r in self.plan:
            if [gen.activity(a) for a in r["acts"]] == acts:
                return r["v"]

    def unit(self):
        for r in self.plan:
            for a in r["acts"]:
                if a["t"] in "CP":
                    return gen.activity(a)

    # What is obtained, given what it is obtained from.

    def make(self, k, x):
        rng, plan = self.rng, self.plan
        pick = rng.choice
        if k == "data":
            return self.data()
        if k == "parts":
            return self.parts()
        if k == "visits":
            return [gen.activity(a) for a in rng.choice(plan)["acts"]]
        if k == "node":
            return S.Node(self.unit())
        if k == "manager":
            n = rng.randint(0, 3)
            return S.PerturbationManager(S.PerturbationParams(n, n))
        data = x.get("data")
        one = next(iter(x.values())) if len(x) == 1 else None
        single = dict(
            location=lambda: data.location(rng.randrange(data.num_locations)),
            client=lambda: data.client(rng.randrange(data.num_clients)),
            depot=lambda: data.depot(rng.randrange(data.num_depots)),
            vehicle=lambda: data.vehicle_type(rng.randrange(data.num_vehicle_types)),
            shipment=lambda: data.shipment(rng.randrange(data.num_shipments)),
            group=lambda: data.group(rng.randrange(data.num_groups)),
            distance=lambda: data.distance_matrix(rng.randrange(data.num_profiles)),
            duration=lambda: data.duration_matrix(rng.randrange(data.num_profiles)),
            locations=lambda: data.locations(),
            clients=lambda: data.clients(),
            depots=lambda: data.depots(),
            vehicles=lambda: data.vehicle_types(),
            shipments=lambda: data.shipments(),
            groups=lambda: data.groups(),
            distances=lambda: data.distance_matrices(),
            durations=lambda: data.duration_matrices(),
            clientOf=lambda: pick(one),
            depotOf=lambda: pick(one),
            vehicleOf=lambda: pick(one),
            shipmentOf=lambda: pick(one),
            groupOf=lambda: pick(one),
            locationOf=lambda: pick(one),
            matrixOf=lambda: pick(one),
            pickup=lambda: one.pickup,
            delivery=lambda: one.delivery,
            members=lambda: one.clients,
            memberIter=lambda: iter(one),
            amounts=lambda: one.delivery if rng.random() < 0.5 else one.pickup,
            capacity=lambda: one.capacity,
            reloads=lambda: one.reload_depots,
            built=lambda: ProblemData(**one),
            driven=lambda: Route(data, x["visits"], self.fits(x["visits"])),
            changed=lambda: data.replace(depots=data.depots()),
            route=lambda: self.route(data, pick(plan)),
            solution=lambda: self.solution(data),
            routes=lambda: one.routes(),
            routeOf=lambda: pick(one),
            unplanned=lambda: one.unplanned(),
            excess=lambda: one.excess_load(),
            schedule=lambda: one.schedule(),
            visit=lambda: one[rng.randrange(len(one))],
            visitIter=lambda: iter(one),
            visitOf=lambda: pick(one),
            result=lambda: Result(one, Statistics(), 3, 1.5),
            best=lambda: one.best,
            sroute=lambda: self.sroute(data, x["node"]),
            snode=lambda: one[rng.randrange(len(one))],
            snodeIter=lambda: iter(one),
            srouteOf=lambda: one.route,
            sload=lambda: pick([one.load, one.excess_load, one.capacity])(),
            ssolution=lambda: self.ssolution(data),
            sroutes=lambda: one.routes,
            srouteIn=lambda: pick(one),
            sclients=lambda: one.clients,
            sclient=lambda: pick(one),
            splanned=lambda: one[self.unit()],
            srouteAt=lambda: one.route,
            neighbours=lambda: S.compute_neighbours(data, S.NeighbourhoodParams()),
            space=lambda: S.SearchSpace(data, x["neighbours"]),
            unary=lambda: getattr(S, pick(self.unary))(data),
            binary=lambda: getattr(S, pick(self.binary))(data),
            search=lambda: self.search(x),
            operators=lambda: one.unary_operators + one.binary_operators,
            operatorOf=lambda: pick(one) if one else None,
            around=lambda: one.neighbours,
        )
        return single[k]()

    def sroute(self, data, node):
        v = self.rng.randrange(data.num_vehicle_types)
        r = S.Route(data, v)
        r.append(node)
        if node.is_pickup():
            r.append(S.Node(gen.activity(A("L", node.idx))))
        for i, _ in enumerate(self.d["clients"]):
            if not (node.is_client() and node.idx == i):
                r.append(S.Node(gen.activity(A("C", i))))
        if r.max_trips() > 1 and self.d["vehs"][v]["rld"]:
            r.insert(len(r) - 1, S.Node(gen.activity(A("D", self.d["vehs"][v]["rld"][0]))))
        r.update()
        return r

    def ssolution(self, data):
        s = S.Solution(data)
        s.load(self.sol)
        return s

    def search(self, x):
        ls = S.LocalSearch(x["data"], x["neighbours"], x["manager"])
        which = self.rng.choice([(), ("unary",), ("binary",), ("unary", "binary")])
        for op in which:
            ls.add_operator(x[op])
        return ls

    # What it reports.

    def view(self, k, x):
        return short(json.dumps(self.look(k, x), default=str, sort_keys=True))

    def look(self, k, x):
        many = lambda f: [f(y) for y in x]  # noqa: E731
        if k == "parts":
            return [len(y) for y in x.values()]
        if k in ("data", "changed", "built"):
            return dump.data(x)
        if k in ("location", "locationOf"):
            return dump.location(x)
        if k == "locations":
            return many(dump.location)
        if k in ("client", "clientOf"):
            return dump.client(x)
        if k == "clients":
            return many(dump.client)
        if k in ("depot", "depotOf"):
            return dump.depot(x)
        if k == "depots":
            return many(dump.depot)
        if k in ("vehicle", "vehicleOf"):
            return dump.vehicle(x)
        if k == "vehicles":
            return many(dump.vehicle)
        if k in ("shipment", "shipmentOf"):
            return dump.shipment(x)
        if k == "shipments":
            return many(dump.shipment)
        if k in ("group", "groupOf"):
            return dump.group_all(x)
        if k == "groups":
            return many(dump.group_all)
        if k in ("distance", "duration", "matrixOf"):
            return x.tolist()
        if k in ("distances", "durations"):
            return [m.tolist() for m in x]
        if k in ("pickup", "delivery"):
            return dump.step(x)
        if k in ("members", "amounts", "capacity", "reloads", "excess", "sload"):
            return list(x)
        if k in ("route", "routeOf", "driven"):
            return obs.route(x)
        if k == "routes":
            return many(obs.route)
        if k in ("solution", "best"):
            return [obs.solution(x), str(x)]
        if k in ("unplanned", "visits"):
            return many(str)
        if k in ("visit", "visitOf"):
            return self.visit(x)
        if k == "schedule":
            return many(self.visit)
        if k == "result":
            return [x.num_iterations, x.cost(), x.is_feasible(), str(x)]
        if k in ("node", "snode", "sclient", "splanned"):
            at = [] if k == "node" else [x.pos, x.trip, bool(x.route)]
            return [str(x.activity), x.idx, x.is_client(), x.is_depot(), *at]
        if k == "sclients":
            return [[str(y), y.pos, y.trip, bool(y.route)] for y in x]
        if k in ("sroute", "srouteOf", "srouteIn", "srouteAt"):
            return self.look_sroute(x)
        if k == "sroutes":
            return many(self.look_sroute)
        if k == "ssolution":
            return [str(x), many_routes(x.unload()), [bool(y.route) for y in x.clients]]
        if k in ("neighbours", "around"):
            return sorted([str(a), *map(str, b)] for a, b in x.items())
        if k == "space":
            return [
                sorted([str(a), *map(str, b)] for a, b in x.neighbours.items()),
                list(map(str, x.activity_order())),
                x.veh_type_order(),
            ]
        if k == "manager":
            return x.num_perturbations()
        if x is None:
            return None
        if k in ("unary", "binary", "operatorOf"):
            return self.judge(x)
        if k == "operators":
            return many(self.judge)
        if k == "search":
            # Where there are ties, what a search does may depend on what
            # it did before, but not what it says about itself afterwards.
            out = []
            for exhaustive in (True, False):
                sol = x(self.sol, self.ce, exhaustive=exhaustive)
                out.append(many_routes(sol))
            return out
        raise AssertionError(k)

    def visit(self, a):
        return [
            *map(str, (a.type, a.idx)),
            a.trip,
            a.start_time,
            a.end_time,
            a.duration,
            a.wait_duration,
            a.time_warp,
        ]

    def look_sroute(self, r):
        if r is None:
            return None
        return [
            str(r),
            [[str(n), n.pos, n.trip] for n in r],
            r.distance(),
            r.duration(),
            r.time_warp(),
            r.load(),
            r.excess_load(),
            r.capacity(),
            r.vehicle_type,
            r.fixed_vehicle_cost(),
            r.start_depot(),
            r.end_depot(),
            r.max_trips(),
        ]

    def judge(self, o):
        """What an operator thinks of moves in a solution of the twin data."""
        nodes = [
            n for r in self.ssol.routes for n in r if n.is_client() or n.is_pickup()
        ]
        nodes += [n for n in self.ssol.clients if not n.route]
        name = type(o).__name__
        out = [name]
        ready = hasattr(o, "init")
        if ready:
            o.init(self.ssol)
        for u in nodes[:3]:
            if name in M.UNARY:
                out.append(o.evaluate(u, self.ce))
            else:
                out += [
                    o.evaluate(u, v, self.ce)[1]
                    for v in nodes[:4]
                    if v is not u and v.route
                ]
        # Operators that cannot be told which solution they work on may still
        # remember an earlier one.
        return out if ready else [name]


def short(text):
    if len(text) <= 100:
        return text
    return text[:60] + "... " + hashlib.sha256(text.encode()).hexdigest()[:24]


def many_routes(sol):
    return [str(r) for r in sol.routes()]


def change(k, x):
    """Tries to change x."""
    if k == "parts" and x:
        for group in x["groups"]:
            change("group", group)
        for m in x["distance_matrices"] + x["duration_matrices"]:
            m[...] = 77
        for y in x.values():
            change("parts-of", y)
    if isinstance(x, list):
        x.reverse()
        x.clear()
    elif isinstance(x, dict):
        x.clear()
    elif k in ("group", "groupOf"):
        x.add_client(max(x.clients, default=0) + 50)
    elif hasattr(x, "flags"):  # a matrix
        try:
            x[...] = 77
        except ValueError:
            pass
    elif k not in ("search", "space"):
        for name in dir(x):
            if name.startswith("_") or callable(getattr(x, name)):
                continue
            for value in (1, 5.5, "x", [7], None, True):
                try:
                    setattr(x, name, value)
                except (AttributeError, TypeError, ValueError):
                    pass


def churn(world):
    """Uses memory, so that what was freed is likely to be used again."""
    gc.collect()
    junk = [bytearray(n * 8) for n in range(1, 80)]
    junk.append(world.data())
    del junk


class Holder:
    def __init__(self, world):
        self.w = world
        self.objs = []
        self.kinds = []
        self.held = []
        self.first = []
        self.ops = []
        self.views = []

    def step(self, op, using=()):
        w = self.w
        if op["op"] == "make":
            src = {self.kinds[i - 1]: self.objs[i - 1] for i in op["from"]}
            x = w.make(op["k"], src)
            if op["k"] in ITERATORS:
                first = json.dumps([str(y) for y in next(iter(src.values()))])
            else:
                first = w.view(op["k"], x)
            self.objs.append(x)
            self.kinds.append(op["k"])
            self.held.append(True)
            self.first.append(first)
            del src, x
        elif op["op"] == "drop":
            i = op["i"] - 1
            self.objs[i] = None
            self.held[i] = False
        else:
            i = op["i"] - 1
            change(self.kinds[i], self.objs[i])
        self.ops.append(op)
        churn(w)
        self.views.append([self.see(i, i in using) for i in range(len(self.objs))])

    def see(self, i, use):
        if not self.held[i]:
            return "-"
        if self.kinds[i] in ITERATORS:
            if not use:
                return "-"
            return json.dumps([str(y) for y in self.objs[i]])
        try:
            return self.w.view(self.kinds[i], self.objs[i])
        except Exception as e:
            return repr(e)

    def record(self):
        return dict(ops=self.ops, first=self.first, views=self.views)


def replay(world, ops):
    """ops, with iterators used up just before they are dropped."""
    h = Holder(world)
    for n, op in enumerate(ops):
        using = set()
        if n + 1 < len(ops) and ops[n + 1]["op"] == "drop":
            using.add(ops[n + 1]["i"] - 1)
        h.step(op, using)
    return h.record()


SOURCES = {}  # of each kind, from the generated histories


def learn(hists):
    for h in hists:
        kinds = []
        for op in h["h"]:
            if op["op"] == "make":
                SOURCES[op["k"]] = {kinds[i - 1] for i in op["from"]}
                kinds.append(op["k"])


def available(world, kinds):
    d = world.d
    if not d["ships"] and kinds & {"shipment", "shipmentOf"}:
        return False
    return not (not d["groups"] and kinds & {"group", "groupOf"})


def wander(world, n):
    """A random history with many objects at once."""
    rng = world.rng
    h = Holder(world)
    for _ in range(n):
        held = [i for i, x in enumerate(h.held) if x]
        kinds = {h.kinds[i] for i in held}
        can = [
            k
            for k, s in SOURCES.items()
            if s <= kinds and (s or k not in kinds or rng.random() < 0.2) and available(world, {k})
        ]
        roll = rng.random()
        if held and roll < 0.4:
            i = rng.choice(held)
            h.step(dict(op="drop", i=i + 1))
        elif held and roll < 0.46:
            i = rng.choice(held)
            # What is used to go through an object does not work once it changed.
            if h.kinds[i] in ITERATORS or any(
                i + 1 in op["from"] and op["k"] in ITERATORS
                for op in h.ops
                if op["op"] == "make"
            ):
                continue
            h.step(dict(op="change", i=i + 1))
        elif can:
            k = rng.choice(sorted(can))
            frm = [
                rng.choice([i for i in held if h.kinds[i] == s]) + 1
                for s in sorted(SOURCES[k])
            ]
            if any(op["op"] == "change" and op["i"] in frm for op in h.ops):
                continue
            h.step(dict(op="make", k=k, **{"from": frm}))
    for i, x in enumerate(list(h.held)):
        if x:
            h.step(dict(op="drop", i=i + 1))
    return h.record()


def world(rng):
    while True:
        d = gen.instance(rng, min_clients=2, max_clients=4, max_shipments=2)
        M.reachable(rng, d)
        plan = [r for r in gen.plan(rng, d) if any(a["t"] in "CP" for a in r["acts"])]
        plan = [r for r in plan if r["acts"]]
        if plan:
            return World(rng, d, plan)


def run(lg, rng, tier, prop, shard, nshard):
    hists = log.behaviours("lifetimes", 0, 1)
    learn(hists)
    per = {}
    for h in hists:
        per.setdefault([o["k"] for o in h["h"] if o["op"] == "make"][-1], []).append(h["h"])
    gc.collect()
    gc.freeze()

    rounds, most, walks = (1, 12, 40) if tier == "quick" else (6, 60, 400)
    for _ in range(rounds):
        for k in sorted(per):
            some = per[k] if len(per[k]) <= most else rng.sample(per[k], most)
            w = world(rng)
            for n, ops in enumerate(some):
                kinds = {op["k"] for op in ops if op["op"] == "make"}
                while not available(w, kinds):
                    w = world(rng)
                lg.run(dict(ops=ops, d=w.d), lambda: replay(w, ops))
                if n % 6 == 5:
                    w = world(rng)
    for _ in range(walks):
        w = world(rng)
        lg.run(dict(wander=True, d=w.d), lambda: wander(w, 25))
