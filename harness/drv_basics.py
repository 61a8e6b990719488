"""Records uses of PyVRP's building blocks (C24)."""

import copy
import pickle

import gen
from log import behaviours


def members(b):
    return [k for k in range(len(b)) if b[k]]


def bitset(rng):
    from pyvrp._pyvrp import DynamicBitset

    sizes = [rng.choice([0, 1, 63, 64, 65, 127, 128, 129, 200]) for _ in range(2)]
    sizes = [sizes[0]] * 3 + [sizes[1]]
    regs = [DynamicBitset(n) for n in sizes]
    ops, obs = [], []
    for _ in range(14):
        k = rng.choice("put put put drop or and xor not set reset copy".split())
        op = dict(k=k, r=rng.randint(1, 4), x=1, y=1, i=0)
        if k in ("put", "drop"):
            n = len(regs[op["r"] - 1])
            op["i"] = rng.choice([0, 62, 63, 64, n - 1, n, n + 1, rng.randrange(n + 1)])
            op["i"] = max(op["i"], 0)
        else:
            op["x"] = rng.randint(1, 4)
            same = [
                j + 1 for j in range(4) if len(regs[j]) == len(regs[op["x"] - 1])
            ]
            op["y"] = rng.choice(same)
        r, x, y = op["r"] - 1, op["x"] - 1, op["y"] - 1
        raised = False
        if k in ("put", "drop"):
            try:
                regs[r][op["i"]] = k == "put"
            except IndexError:
                raised = True
        elif k == "or":
            regs[r] = regs[x] | regs[y]
        elif k == "and":
            regs[r] = regs[x] & regs[y]
        elif k == "xor":
            regs[r] = regs[x] ^ regs[y]
        elif k == "not":
            regs[r] = ~regs[x]
        elif k == "set":
            regs[r].set()
        elif k == "reset":
            regs[r].reset()
        elif k == "copy":
            regs[r] = rng.choice(
                [
                    lambda b: pickle.loads(pickle.dumps(b)),
                    copy.copy,
                    copy.deepcopy,
                ]
            )(regs[x])
        ops.append(op)
        obs.append(
            dict(
                raised=raised,
                regs=[
                    dict(
                        members=members(b),
                        count=b.count(),
                        len=len(b),
                        all=b.all(),
                        any=b.any(),
                        none=b.none(),
                    )
                    for b in regs
                ],
                eq=[[a == b for b in regs] for a in regs],
            )
        )
    return dict(kind="set", regs=sizes, ops=ops, obs=obs)


def ring(b):
    from pyvrp.RingBuffer import RingBuffer

    q = RingBuffer(maxlen=b["n"])
    obs = []
    for op in b["h"]:
        if op["k"] == "append":
            q.append(op["v"])
        elif op["k"] == "skip":
            q.skip()
        else:
            q.clear()
        peek = q.peek()
        obs.append(
            dict(len=len(q), peek=0 if peek is None else peek, maxlen=q.maxlen)
        )
    return dict(kind="ring", n=b["n"], h=b["h"], obs=obs)


def plf(rng):
    from pyvrp._pyvrp import PiecewiseLinearFunction as PLF

    xs = list(range(-12, 13))
    if rng.random() < 0.6:
        pts, x, y = [], rng.randint(-6, 2), rng.randint(-9, 9)
        for _ in range(rng.randint(0, 5)):
            pts.append((x, y))
            dx = rng.choice([0, 1, 1, 2, 3])
            if rng.random() < 0.03:
                dx = -1
            lo = 0 if rng.random() < 0.5 else -3
            dy = rng.randint(lo, 4) * max(dx, 1)
            if rng.random() < 0.05:
                dy += 1
            x, y = x + dx, y + dy
        try:
            f = PLF(pts)
        except ValueError:
            return dict(kind="points", points=[list(p) for p in pts], ok=False)
        return dict(
            kind="points",
            points=[list(p) for p in pts],
            ok=True,
            xs=xs,
            ys=[f(x) for x in xs],
            rising=f.is_monotonically_increasing(),
            breaks=list(f.breakpoints),
            lines=[list(s) for s in f.segments],
        )

    n = rng.randint(0, 4)
    brk = [rng.randint(-8, 8) for _ in range(n)]
    if rng.random() < 0.8:
        brk = sorted(set(brk))
    m = len(brk) + (1 if rng.random() < 0.9 else rng.randint(0, 2))
    lo = 0 if rng.random() < 0.5 else -2
    lines = [(rng.randint(-9, 9), rng.randint(lo, 4)) for _ in range(m)]
    rec = dict(kind="lines", breaks=brk, lines=[list(x) for x in lines])
    try:
        f = PLF(brk, lines)
    except ValueError:
        return dict(rec, ok=False)
    return dict(
        rec,
        ok=True,
        xs=xs,
        ys=[f(x) for x in xs],
        rising=f.is_monotonically_increasing(),
        breaks2=list(f.breakpoints),
        lines2=[list(s) for s in f.segments],
    )


def words(x):
    return list(divmod(int(x), 65536))


def rng_case(rng):
    from pyvrp import RandomNumberGenerator as RNG

    seeded = rng.random() < 0.5
    word = lambda: rng.choice([0, 1, 2**32 - 1, 2**31, rng.getrandbits(32)])  # noqa: E731
    if seeded:
        seed = word()
        g = RNG(seed=seed)
        given = words(seed)
    else:
        seed = [word() for _ in range(4)]
        g = RNG(state=seed)
        given = [words(x) for x in seed]
    rec = dict(
        kind="rng", seeded=seeded, seed=given, start=[words(x) for x in g.state()]
    )
    draws = []
    for _ in range(25):
        k = rng.choice(["call", "rand", "int"])
        e = dict(k=k)
        if k == "call":
            e["out"] = words(g())
        elif k == "rand":
            u = g.rand()
            e["unit"] = 0 <= u <= 1
            e["out"] = words(round(u * (2**32 - 1)))
        else:
            e["high"] = rng.choice([1, 2, 3, 64, 1000, 30000])
            e["out"] = int(g.randint(e["high"]))
        e["state"] = [words(x) for x in g.state()]
        if rng.random() < 0.2:  # save and restore
            g = RNG(state=g.state())
        draws.append(e)
    return dict(rec, draws=draws)


def act(rng):
    import pyvrp as pv

    a = gen.A(rng.choice("DCPL"), rng.choice([0, 1, 9, 10, 123, 1048576]))
    real = gen.activity(a)
    back = pv.Activity(str(real))
    return dict(
        kind="act",
        t=a["t"],
        i=a["i"],
        str=str(real),
        back=gen.act_json(back),
        eq=back == real and hash(back) == hash(real),
        **{
            "is": dict(
                client=real.is_client(),
                depot=real.is_depot(),
                ship=real.is_shipment(),
                pickup=real.is_pickup(),
                delivery=real.is_delivery(),
            )
        },
    )


def run(lg, rng, tier, prop, shard, nshard):
    for b in behaviours("ring", shard, nshard):
        lg.run(b, lambda: ring(b))
    n = 1 if tier == "quick" else 10
    for fn, m in ((bitset, 60), (plf, 400), (rng_case, 100), (act, 25)):
        for _ in range(m * n):
            lg.run(dict(kind=fn.__name__), lambda: fn(rng))
