"""Records random solutions of real instances (C19)."""

import gen
import obs


def case(rng, d, n, many):
    import pyvrp as pv

    data = gen.build(d)
    states = [
        [rng.getrandbits(32) for _ in range(4)]
        if rng.random() < 0.8
        else rng.choice(
            [[0, 0, 0, 0], [2**32 - 1] * 4, [0, 0, 0, 1], [1, 0, 0, 0]]
        )
        for _ in range(n)
    ]
    if many:
        states = [[rng.getrandbits(32) for _ in range(4)] for _ in range(n)]

    def make(state):
        g = pv.RandomNumberGenerator(state=state)
        return obs.plan_of(pv.Solution.make_random(data, g))

    return dict(
        d=d,
        many=many,
        plans=[make(s) for s in states],
        again=[make(s) for s in states[:4]],
    )


def run(lg, rng, tier, prop, shard, nshard):
    for k in range(120 if tier == "quick" else 1200):
        d = gen.instance(
            rng,
            max_clients=rng.choice([0, 1, 3, 8, 20, 80]),
            max_shipments=rng.choice([1, 3, 6]),
            max_vehicles=rng.choice([1, 2, 4, 9]),
        )
        lg.run(dict(d=d), lambda: case(rng, d, 12, False))
        if k % 6 == 0:
            d = gen.instance(rng, max_clients=6, max_shipments=3)
            lg.run(dict(d=d), lambda: case(rng, d, 400, True))
