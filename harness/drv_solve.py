"""
Records sets of solver runs of the same configuration (C15), in processes with
different histories, hash seeds and memory contents.
"""

import json
import os
import subprocess
import sys
from pathlib import Path

import gen
from drv_moves import reachable
from drv_search import complete


class Worker:
    def __init__(self, hashseed, perturb):
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), MALLOC_PERTURB_=str(perturb))
        path = Path(__file__).parent / "solve_worker.py"
        self.proc = subprocess.Popen(
            [sys.executable, str(path)],
            stdin=subprocess.PIPE,
            stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL,
            env=env,
            text=True,
        )

    def ask(self, q):
        self.proc.stdin.write(json.dumps(q) + "\n")
        self.proc.stdin.flush()
        ans = self.proc.stdout.readline()
        if not ans:
            raise RuntimeError(f"solver process died: {self.proc.wait()}")
        ans = json.loads(ans)
        if "error" in ans:
            raise RuntimeError(ans["error"])
        return ans

    def close(self):
        self.proc.stdin.close()
        self.proc.wait()


def question(rng, d):
    x = None
    if rng.random() < 0.7:
        lo = rng.choice([1, 1, 3])
        x = dict(
            K=rng.choice([1, 3, 10]),
            H=rng.choice([1, 3, 300]),
            ex=rng.random() < 0.7,
            w=rng.choice([1, 4, 20]),
            nb=rng.choice([2, 10, 40]),
            ops=rng.sample(range(100), rng.choice([0, 0, 4])),
            lo=lo,
            hi=lo + rng.choice([0, 5, 25]),
        )
    plan = None
    if rng.random() < 0.2:
        plan = complete(rng, d, gen.plan(rng, d))
    return dict(
        d=d,
        seed=rng.choice([0, 1, 42, rng.randrange(1 << 31)]),
        params=x,
        plan=plan,
        limit=rng.choice([0, 1, 10, 40]),
    )


def variant(rng, q):
    return dict(
        q,
        pickled=rng.random() < 0.3,
        collect=rng.random() < 0.7,
        display=rng.random() < 0.3,
        model=rng.random() < 0.3,
    )


COUNT = {"quick": 2400, "thorough": 12000}


def run(lg, rng, tier, prop, shard, nshard):
    workers = [Worker(1 + shard, 17), Worker(1000 + shard, 201)]
    pending = []
    for k in range(COUNT[tier] // nshard):
        big = rng.random() < 0.3
        d = gen.instance(
            rng,
            max_clients=20 if big else 7,
            max_locs=25 if big else 8,
            p_feature=rng.choice([0.2, 0.5]),
            max_vehicles=rng.choice([1, 2, 3]),
        )
        d = reachable(rng, d)
        q = question(rng, d)
        pending.append(q)
        if len(pending) == 5:
            batch(lg, rng, workers, pending)
            pending = []
    for w in workers:
        w.close()


def batch(lg, rng, workers, qs):
    """Each worker solves the batch in its own order, some of it twice."""
    runs = {k: [] for k in range(len(qs))}

    def work():
        for w in workers:
            order = list(range(len(qs))) + [rng.randrange(len(qs))]
            rng.shuffle(order)
            for k in order:
                v = variant(rng, qs[k])
                lg.begin(v)
                runs[k].append(w.ask(v))

    lg.run(dict(qs=qs), work)
    for k, q in enumerate(qs):
        if len(runs[k]) > 1:
            lg.case(dict(limit=q["limit"], q=json.dumps(q), runs=runs[k]))
