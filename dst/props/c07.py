"""C07: unit commitment and ramp limits hold across the windows of a rolling horizon."""

from __future__ import annotations

from dst import optgen, rolling
from dst.props.c08 import warmup  # noqa: F401

RUNS = {"quick": 300, "thorough": 12000}
BUDGET = {"quick": 50, "thorough": 1500}
SHRINK = ["steps"]
RULE = (
    "random networks with committable and ramp-limited generators and links (static limits and series, minimum up and down times, initial times, start-up and "
    "shut-down ramps) optimised over rolling horizons of any length and overlap; per window the simulated solver returns the optimum, an arbitrary feasible vertex, "
    "integers with tolerance noise, or fails; non-trivial: at least two windows and a unit with commitment or ramp limits"
)
STATES = "distinct (windows and their outcome, overlap, number of status changes per unit) tuples"
REAL = ["pypsa.optimization (rolling horizon, unit commitment, ramps)", "linopy", "HiGHS"]
STUB = ["choice of the solution by the solver, its failures (linopy.Model.solve)"]
ASSUMPTIONS = ["initial up and down times refer to the first snapshot of the network; results of snapshots no successful window covers are not judged"]
EXPECT_PROBES = ["solver.arbitrary-vertex", "solver.integrality-noise", "several-windows", "overlap", "failed-window", "window-compared", "status-change"]
SIM_TIME = "snapshots optimised"


def generate(rng, tier):
    g, steps, opts = optgen.problem(
        rng,
        forbid=["ext", "mod", "quad", "gc", "esum", "pset", "cyclic", "socset", "losses", "types", "trafo"],
        force=["uc", "ramp"] if rng.random() < 0.7 else ["ramp"],
        n_sns=(3, 10),
        n_bus=(1, 2),
        prob={"lines": 0.15, "su": 0.15, "store": 0.15, "links": 0.5, "series": 0.7, "tight": 0.05, "inactive": 0.1},
    )
    return {"steps": steps, "opts": opts, "schedule": rolling.schedule(rng, g.T, 0.2), "deep": rng.random() < 0.3}


def execute(trace, ctx):
    n, watch = rolling.run(trace, ctx)
    changes = []
    units = 0
    for c in ("Generator", "Link"):
        st = n.static(c)
        units += int((st.committable | st.ramp_limit_up.notna() | st.ramp_limit_down.notna()).sum())
        df = n.dynamic(c).get("status")
        if df is not None and len(df.columns):
            changes += [int(df[u].round().diff().abs().sum()) for u in df.columns]
    ctx.probe("status-change", sum(changes))
    ctx.state([(len(w), st) for w, st in watch.wins], trace["schedule"]["overlap"], sorted(changes))
    ctx.nontrivial = units > 0 and len(watch.wins) > 1


simplify = rolling.simplify
