"""C06: storage is continuous across the windows of a rolling horizon."""

from __future__ import annotations

from dst import optgen, rolling
from dst.props.c08 import warmup  # noqa: F401

RUNS = {"quick": 300, "thorough": 12000}
BUDGET = {"quick": 50, "thorough": 1500}
SHRINK = ["steps"]
RULE = (
    "random networks with stores and storage units (standing losses, efficiencies, inflow, spillage, weightings, set levels, transmission losses) optimised over "
    "rolling horizons of any length and overlap on whole or partial snapshots; per window the simulated solver returns the optimum, an arbitrary feasible vertex, "
    "or fails; non-trivial: at least two windows and a storage component"
)
STATES = "distinct (windows and their outcome, overlap, storage features) tuples"
REAL = ["pypsa.optimization (rolling horizon, constraints, post-processing)", "linopy", "HiGHS"]
STUB = ["choice of the solution by the solver, its failures (linopy.Model.solve)"]
ASSUMPTIONS = ["cyclic storage is cyclic within a window and excluded; results of snapshots no successful window covers are not judged"]
EXPECT_PROBES = ["solver.arbitrary-vertex", "several-windows", "overlap", "failed-window", "driver-raised", "window-compared", "losses"]
SIM_TIME = "snapshots optimised"


def generate(rng, tier):
    g, steps, opts = optgen.problem(
        rng,
        forbid=["cyclic", "ext", "mod", "quad", "gc", "esum", "uc", "pset"],
        force=["su", "store"][rng.randrange(2) :],
        n_sns=(3, 10),
        prob={"weights": 0.8, "losses": 0.3, "lines": 0.4, "series": 0.7, "ramp": 0.15, "tight": 0.1},
    )
    if "losses" in g.f and "lines" in g.f:
        opts["losses"] = rng.choice([1, 2])
    return {"steps": steps, "opts": opts, "schedule": rolling.schedule(rng, g.T, 0.3), "deep": rng.random() < 0.25}


def execute(trace, ctx):
    n, watch = rolling.run(trace, ctx)
    if trace["opts"]["losses"]:
        ctx.probe("losses")
    has = [c for c in ("Store", "StorageUnit") if len(n.static(c))]
    ctx.state([(len(w), st) for w, st in watch.wins], trace["schedule"]["overlap"], has, sorted(e.get("act", "") for e in trace["schedule"]["plan"].values()))
    ctx.nontrivial = bool(has) and len(watch.wins) > 1


simplify = rolling.simplify
