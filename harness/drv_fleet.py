"""Records fleet minimisations of real instances (C20)."""

import gen
from drv_moves import reachable


class Recorder:
    """A stopping criterion that notes whether it ever said stop."""

    def __init__(self, inner):
        self.inner = inner
        self.stopped = False

    def __call__(self, cost):
        out = self.inner(cost)
        self.stopped = self.stopped or bool(out)
        return out


def case(rng, d, stop, seed, judge):
    import pyvrp as pv
    from pyvrp.minimise_fleet import minimise_fleet

    data = gen.build(d)
    orig = gen.build(d)
    rec = Recorder(stop)
    try:
        vt = minimise_fleet(data, rec, seed=seed)
    except ValueError:
        return dict(d=d, ok=False)

    before = data.vehicle_type(0)
    same = vt.replace(num_available=before.num_available) == before
    assert isinstance(vt, pv.VehicleType)
    return dict(
        d=d,
        ok=True,
        n=vt.num_available,
        same=same,
        data=data == orig,
        stopped=rec.stopped,
        judge=judge,
    )


FEATS = [
    "tw", "release", "multidepot", "depot_service", "reload", "shift",
    "overtime", "maxdist", "shipments", "initial", "start_late", "pickup",
]  # fmt: skip


def run(lg, rng, tier, prop, shard, nshard):
    from pyvrp.stop import FirstFeasible, MaxIterations, MultipleCriteria, NoImprovement

    for k in range(60 if tier == "quick" else 500):
        big = k % 5 == 4
        feats = {f for f in FEATS if rng.random() < 0.3}
        if rng.random() < 0.12:
            feats |= {rng.choice(["hetero", "optional", "groups"])}
        n = rng.choice([10, 15]) if big else rng.choice([1, 2, 3, 4])
        d = gen.instance(
            rng,
            max_clients=n,
            min_clients=rng.choice([0, n]),
            max_shipments=1,
            max_locs=8,
            features=feats,
            horizon=rng.choice([15, 30]),
        )
        if not big and d["ships"] and len(d["clients"]) > 3:
            d["ships"] = []
        for v in d["vehs"]:
            v["n"] = rng.choice([1, 2, 3, 5, 12])
            v["maxrl"] = min(v["maxrl"], 1) if not big else v["maxrl"]
            v["cap"] = [max(c, rng.choice([6, 10, 15])) for c in v["cap"]]
        d = reachable(rng, d)
        stop = rng.choice(
            [
                lambda: MaxIterations(rng.choice([1, 3, 30, 100])),
                lambda: MultipleCriteria([MaxIterations(60)]),
                lambda: MultipleCriteria([NoImprovement(10), MaxIterations(50)]),
                lambda: MultipleCriteria([FirstFeasible(), MaxIterations(50)]),
            ]
        )()
        seed = rng.randrange(1000)
        lg.run(
            dict(d=d, seed=seed), lambda: case(rng, d, stop, seed, not big)
        )
