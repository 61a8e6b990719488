"""
Records call histories of real stopping criteria (C14): behaviours generated
by TLC from MCStop, and random longer ones. Time is virtual.
"""

import time

import log

INT_MAX = 2**63 - 1


class Clock:
    """Replaces the clocks of module time, once running."""

    def __init__(self):
        self.now = None
        for name in ("perf_counter", "monotonic", "time", "process_time"):
            self.patch(name, 1)
            self.patch(name + "_ns", 10**9)

    def patch(self, name, unit):
        real = getattr(time, name)

        def clock():
            if self.now is None:
                return real()
            return self.now if unit == 1 else int(self.now * unit)

        setattr(time, name, clock)


CLOCK = Clock()  # before pyvrp is imported


def make(c):
    from pyvrp import stop

    if c["k"] == "iters":
        return stop.MaxIterations(c["n"])
    if c["k"] == "noimp":
        return stop.NoImprovement(c["n"])
    if c["k"] == "feas":
        return stop.FirstFeasible()
    if c["k"] == "time":
        return stop.MaxRuntime(c["n"] / 8)
    return stop.MultipleCriteria([make(x) for x in c["cs"]])


def history(c, h, wait):
    """Times are in units of 1/8 s."""
    CLOCK.now = (h[0]["t"] - wait) / 8 + 1000 if h else 0.0
    try:
        crit = make(c)
        out = []
        for e in h:
            CLOCK.now = 1000 + e["t"] / 8
            out.append(bool(crit(e["cost"] if e["feas"] else INT_MAX)))
    finally:
        CLOCK.now = None
    return dict(kind="history", c=c, h=h, out=out)


def construct(c):
    try:
        make(c)
        ok = True
    except ValueError:
        ok = False
    return dict(kind="construct", c=c, ok=ok)


def criterion(rng, depth, low):
    k = rng.choice(["iters", "noimp", "feas", "time"] + ["any"] * depth)
    if k == "any":
        n = rng.randint(0 if low < 0 else 1, 3)
        return dict(k=k, cs=[criterion(rng, depth - 1, low) for _ in range(n)])
    if k == "feas":
        return dict(k=k)
    return dict(k=k, n=rng.randint(low, rng.choice([3, 10, 30, 30, 400])))


def calls(rng):
    t, cost = rng.randrange(100), rng.randint(1, 50)
    feas = rng.random() < 0.5
    out = []
    step = rng.choice([0, 1, 3])
    mono = rng.random() < 0.6
    for _ in range(rng.randint(1, 50 if rng.random() < 0.97 else 600)):
        out.append(dict(cost=cost if feas else 10**8, feas=feas, t=t))
        t += rng.randint(0, step)
        if rng.random() < 0.2:
            feas = True
            cost += rng.randint(-5, 0 if mono else 5)
        elif not mono and rng.random() < 0.1:
            feas = not feas
    return out


COUNT = {"quick": (8000, 6000, 2000), "thorough": (30000, 100000, 5000)}


def run(lg, rng, tier, prop, shard, nshard):
    nb, nh, nc = (x // nshard for x in COUNT[tier])
    bs = log.behaviours("stop", shard, nshard)
    if nb < len(bs):
        bs = rng.sample(bs, nb)
    for b in bs:
        lg.run(b, lambda: history(b["c"], b["h"], rng.randint(0, 9)))
    for _ in range(nh):
        c, h = criterion(rng, 2, 0), calls(rng)
        lg.run(dict(c=c, h=h), lambda: history(c, h, rng.randint(0, 40)))
    for _ in range(nc):
        c = criterion(rng, 2, -2)
        lg.run(dict(c=c), lambda: construct(c))
