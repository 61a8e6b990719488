"""
Solves what it is told to, in its own process: reads JSON requests from
standard input, one per line, and answers on standard output.
"""

import json
import os
import pickle
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).parent))
import gen  # noqa: E402
import obs  # noqa: E402

# Answers must not mix with displayed progress.
ANSWERS = os.fdopen(os.dup(1), "w")
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)


def solve(q):
    import pyvrp as pv
    from pyvrp.IteratedLocalSearch import (
        IteratedLocalSearchCallbacks,
        IteratedLocalSearchParams,
    )
    from pyvrp.search import OPERATORS, NeighbourhoodParams, PerturbationParams
    from pyvrp.solve import SolveParams
    from pyvrp.stop import MaxIterations

    traj, init = [], []

    class Callbacks(IteratedLocalSearchCallbacks):
        def on_start(self, ils):
            init.append(repr(obs.plan_of(ils.initial_solution)))

        def on_iteration(self, current, candidate, best, cost_evaluator):
            row = []
            for s in (current, candidate, best):
                row += [cost_evaluator.penalised_cost(s), s.is_feasible()]
            traj.append(repr(row))

    data = gen.build(q["d"])
    if q["pickled"]:
        data = pickle.loads(pickle.dumps(data))

    x = q["params"]
    if x is None:  # shared default parameters, apart from the callbacks
        ils = IteratedLocalSearchParams(callbacks=Callbacks())
        params = SolveParams(ils)
    else:
        ils = IteratedLocalSearchParams(x["K"], x["H"], x["ex"], Callbacks())
        params = SolveParams(
            ils,
            pv.PenaltyParams(solutions_between_updates=x["w"]),
            NeighbourhoodParams(num_neighbours=x["nb"]),
            [OPERATORS[k % len(OPERATORS)] for k in x["ops"]] or OPERATORS,
            perturbation=PerturbationParams(x["lo"], x["hi"]),
        )

    initial = None
    if q["plan"] is not None:
        initial = pv.Solution(
            data,
            [
                pv.Route(data, [gen.activity(a) for a in r["acts"]], r["v"])
                for r in q["plan"]
            ],
        )
    args = dict(
        stop=MaxIterations(q["limit"]),
        seed=q["seed"],
        collect_stats=q["collect"],
        display=q["display"],
        params=params,
        initial_solution=initial,
    )
    if q["model"]:
        res = pv.Model.from_data(data).solve(**args)
    else:
        res = pv.solve(data, **args)

    stats = []
    for z in res.stats.data:
        row = [z.current_cost, z.current_feas, z.candidate_cost, z.candidate_feas]
        stats.append(repr(row + [z.best_cost, z.best_feas]))
    return dict(
        best=repr(obs.plan_of(res.best)),
        init=init,
        traj=traj,
        n=res.num_iterations,
        rows=len(res.stats.data),
        stats=stats,
        collect=q["collect"],
    )


def main():
    for line in sys.stdin:
        q = json.loads(line)
        try:
            ans = solve(q)
        except Exception as e:
            ans = dict(error=repr(e))
        ANSWERS.write(json.dumps(ans) + "\n")
        ANSWERS.flush()


if __name__ == "__main__":
    main()
