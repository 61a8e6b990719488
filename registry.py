"""Which drivers, trace specifications and design models decide a property."""

PROPS = {}

for p in ("C01", "C02", "C03", "C04", "C05", "C06"):
    PROPS[p] = dict(
        drivers=[("route", "RouteTrace")],
        design=[dict(module="MCPlans", cfg="MCPlans.cfg", thorough_cfg="MCPlansDeep.cfg")],
        generate=[dict(module="MCPlans", cfg="GenPlans.cfg", name="plans", thorough_cfg="GenPlansDeep.cfg")],
    )

PROPS["C07"] = dict(
    drivers=[("segments", "SegTrace")],
    design=[
        dict(module="MCSegments", cfg="MCSegments1.cfg"),
        dict(module="MCSegments", cfg="MCSegments2.cfg"),
    ],
)

PROPS["C08"] = dict(
    drivers=[("edits", "EditTrace")],
    design=[dict(module="MCEdits", cfg="MCEdits.cfg", thorough_cfg="MCEditsDeep.cfg")],
    generate=[dict(module="MCEdits", cfg="GenEdits.cfg", name="edits", thorough_cfg="GenEditsDeep.cfg")],
)

PROPS["C09"] = dict(
    drivers=[("moves", "MovesTrace")],
    design=[dict(module="MCMoves", cfg="MCMoves.cfg")],
    generate=[dict(module="MCMoves", cfg="GenMoves.cfg", name="moves")],
)

PROPS["C10"] = dict(
    drivers=[("search", "LSTrace")],
    design=[
        dict(module="MCMoves", cfg="MCMoves.cfg"),
        dict(module="MCSearch", cfg="MCSearch.cfg", thorough_only=True),
    ],
    generate=[dict(module="MCMoves", cfg="GenMoves.cfg", name="moves")],
)

PROPS["C11"] = dict(
    drivers=[("perturb", "PerturbTrace")],
    design=[dict(module="MCPerturb", cfg="MCPerturb.cfg")],
    generate=[dict(module="MCMoves", cfg="GenMoves.cfg", name="moves")],
)

PROPS["C12"] = dict(
    drivers=[("ils", "ILSTrace")],
    design=[dict(module="MCILS", cfg="MCILS.cfg")],
    generate=[dict(module="MCILS", cfg="GenILS.cfg", name="ils")],
)

PROPS["C13"] = dict(
    drivers=[("penalty", "PenaltyTrace")],
    design=[dict(module="MCPenalty", cfg="MCPenalty.cfg", thorough_cfg="MCPenaltyDeep.cfg")],
    generate=[dict(module="MCPenalty", cfg="GenPenalty.cfg", name="penalty")],
)

PROPS["C14"] = dict(
    drivers=[("stop", "StopTrace")],
    design=[dict(module="MCStop", cfg="MCStop.cfg", thorough_cfg="MCStopDeep.cfg")],
    generate=[dict(module="MCStop", cfg="GenStop.cfg", name="stop")],
)

PROPS["C15"] = dict(drivers=[("solve", "DetTrace")], design=[])

PROPS["C16"] = dict(
    drivers=[("neighbours", "NbTrace")],
    design=[dict(module="MCNeighbours", cfg="MCNeighbours.cfg", thorough_cfg="MCNeighboursDeep.cfg")],
    generate=[dict(module="MCNeighbours", cfg="GenNeighbours.cfg", name="nb", thorough_cfg="GenNeighboursDeep.cfg")],
)

PROPS["C17"] = dict(
    drivers=[("model", "ModelTrace")],
    design=[dict(module="MCModel", cfg="MCModel.cfg", thorough_cfg="MCModelDeep.cfg")],
    generate=[dict(module="MCModel", cfg="GenModel.cfg", name="model", thorough_cfg="GenModelDeep.cfg")],
)

PROPS["C18"] = dict(
    drivers=[("data", "DataTrace")],
    design=[dict(module="MCData", cfg="MCData.cfg", thorough_cfg="MCDataDeep.cfg")],
    generate=[dict(module="MCData", cfg="GenData.cfg", name="data", thorough_cfg="GenDataDeep.cfg")],
)

PROPS["C19"] = dict(drivers=[("random", "RandTrace")], design=[])

PROPS["C20"] = dict(
    drivers=[("fleet", "FleetTrace")],
    design=[dict(module="MCFleet", cfg="MCFleet.cfg")],
)

PROPS["C24"] = dict(
    drivers=[("basics", "BasicsTrace")],
    design=[dict(module="MCRing", cfg="MCRing.cfg")],
    generate=[dict(module="MCRing", cfg="GenRing.cfg", name="ring")],
)

PROPS["C22"] = dict(drivers=[("copies", "CopiesTrace")], design=[])

PROPS["C21"] = dict(drivers=[("stats", "StatsTrace")], design=[])

PROPS["C23"] = dict(drivers=[("files", "FilesTrace")], design=[])

PROPS["C26"] = dict(
    drivers=[("progress", "ProgressTrace")],
    design=[dict(module="MCProgress", cfg="MCProgress.cfg", thorough_cfg="MCProgressDeep.cfg")],
    generate=[dict(module="MCProgress", cfg="GenProgress.cfg", name="progress")],
)

PROPS["C25"] = dict(drivers=[("settings", "SettingsTrace")], design=[])

PROPS["C27"] = dict(
    drivers=[("endtoend", "SolveTrace")],
    design=[dict(module="MCSolve", cfg="MCSolve.cfg", thorough_cfg="MCSolveDeep.cfg")],
)

PROPS["C28"] = dict(
    drivers=[("lifetimes", "LifeTrace")],
    design=[dict(module="MCLifetimes", cfg="MCLifetimes.cfg")],
    generate=[dict(module="MCLifetimes", cfg="GenLifetimes.cfg", name="lifetimes")],
    # Freed memory is overwritten at once, so that using it shows.
    env=dict(
        MALLOC_PERTURB_="165",
        GLIBC_TUNABLES="glibc.malloc.tcache_count=0:glibc.malloc.perturb=165",
        PYTHONMALLOC="malloc",
    ),
)

PROPS["C29"] = dict(drivers=[("plots", "PlotsTrace")], design=[])
