"""Records neighbourhoods of random instances (C16)."""

import gen
import log
from gen import act_json


def neighbours(d, q):
    from pyvrp.search import NeighbourhoodParams, compute_neighbours

    params = NeighbourhoodParams(q["w4"] / 4, q["num"], q["sym"])
    out = compute_neighbours(gen.build(d), params)
    nbs = [
        dict(a=act_json(a), nb=[act_json(b) for b in bs]) for a, bs in out.items()
    ]
    return dict(kind="neighbours", d=d, q=q, nbs=nbs)


def params(num):
    from pyvrp.search import NeighbourhoodParams

    try:
        NeighbourhoodParams(0.2, num, True)
        ok = True
    except (ValueError, TypeError, OverflowError):
        ok = False
    return dict(kind="params", num=num, ok=ok)


TRIES = {"quick": 2, "thorough": 6}
COUNT = {"quick": 12000, "thorough": 300000}


def run(lg, rng, tier, prop, shard, nshard):
    if shard == 0:
        for num in (0, 1, 2, 50, -1):
            lg.run(dict(num=num), lambda: params(num))
    for x in log.behaviours("nb", shard, nshard):
        for _ in range(TRIES[tier]):
            q = dict(
                w4=rng.choice([0, 2, 9]),
                num=rng.choice([1, 2, 4, 50]),
                sym=rng.random() < 0.5,
            )
            lg.run(dict(x, q=q), lambda: neighbours(x["d"], q))
    for k in range(COUNT[tier] // nshard):
        big = k % 250 == 249
        d = gen.instance(
            rng,
            min_clients=50 if big else 0,
            max_clients=70 if big else rng.choice([3, 6, 9]),
            max_shipments=rng.choice([1, 3, 5]),
            p_feature=rng.choice([0.3, 0.5, 0.8]),
            max_locs=40 if big else rng.choice([3, 8, 14]),
        )
        q = dict(
            w4=rng.choice([0, 1, 2, 4, 9, 40]),
            num=rng.choice([10, 50, 60, 100] if big else [1, 2, 3, 4, 6, 10, 50]),
            sym=rng.random() < 0.5,
        )
        lg.run(dict(d=d, q=q), lambda: neighbours(d, q))
