"""C09: global constraints, lifetimes and investment limits hold in every solution."""

from __future__ import annotations

from dst import gen, optgen
from dst.props import c08
from dst.props.c08 import warmup  # noqa: F401

RUNS = {"quick": 400, "thorough": 15000}
BUDGET = {"quick": 60, "thorough": 1500}
SHRINK = ["steps"]
RULE = (
    "random expansion problems with emission, operational, transmission volume and cost, technology and bus limits, growth limits, modularity, build years and lifetimes, "
    "with and without several investment periods; the simulated solver returns the optimum, an arbitrary feasible vertex, tolerance noise or no duals; non-trivial: a "
    "global constraint, growth or bus limit is part of the reference problem"
)
STATES = "distinct (solver behaviour, outcome, set of reference constraint families, number of periods) tuples"
REAL = ["pypsa.optimization", "pypsa.networks", "linopy", "HiGHS"]
STUB = ["choice of the solution by the solver (linopy.Model.solve)"]
ASSUMPTIONS = ["documented constraints as encoded in dst/refopt.py"]
EXPECT_PROBES = ["solver.arbitrary-vertex", "optimum-compared", "infeasible-agreed", "multi-period", "global-constraint", "growth", "bus-limit", "modularity"]
SIM_TIME = "snapshots optimised"


def generate(rng, tier):
    multi = rng.random() < 0.65
    g, steps, opts = optgen.problem(
        rng,
        multi=multi,
        force=["gc", "ext"],
        forbid=["uc", "pset", "socset"],
        n_sns=(1, 3),
        n_bus=(1, 3),
        prob={"mod": 0.3, "quad": 0.05, "ramp": 0.15, "types": 0.05, "tight": 0.1, "inactive": 0.25, "lines": 0.6, "links": 0.5, "su": 0.45, "store": 0.4},
    )
    opts["multi"] = multi
    mode = gen.weighted(rng, [("optimal", 4), ("vertex", 5), ("noise", 0.5), ("nodual", 0.5)])
    act = {} if mode == "optimal" else {"act": mode, "seed": rng.getrandbits(32)}
    return {"steps": steps, "opts": opts, "solver": act, "window": None, "how": rng.choice(["call", "create"])}


def execute(trace, ctx):
    n, ref = c08.solve_and_check(trace, ctx)
    fam = {t.split("|")[0] + ("|" + t.split("|")[1] if t.startswith("global") else "") for t, *_ in ref.rows}
    for k in ("growth", "bus-limit", "modularity"):
        if k in fam:
            ctx.probe(k)
    glob = [k for k in fam if k.startswith("global")]
    for k in glob:
        ctx.probe("global-constraint")
        ctx.probe(k.split("|")[1])
    if trace["opts"]["multi"]:
        ctx.probe("multi-period")
    ctx.nontrivial = bool(glob or fam & {"growth", "bus-limit"})


simplify = c08.simplify
