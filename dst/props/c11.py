"""C11: a security-constrained dispatch survives every listed outage."""

from __future__ import annotations

import numpy as np
import pandas as pd

from dst import flow, gen, optgen
from dst.core import Skip, fnum, short_tb
from dst.props.c05 import documented
from dst.props.c08 import SOLVER_OPTS, check_solution, simplify_problem, warmup  # noqa: F401
from dst.refopt import Ref
from dst.solversim import Solver

RUNS = {"quick": 400, "thorough": 16000}
BUDGET = {"quick": 50, "thorough": 1500}
SHRINK = ["steps", "outages"]
RULE = (
    "random meshed networks (fixed and extendable lines, transformers, parallel and inactive branches, DC, links, several islands) and outage lists; "
    "the solver returns the optimum or an arbitrary feasible vertex; every listed outage is injected at every snapshot into an own linear power flow of the "
    "remaining network, and one of them into PyPSA's own power flow of a network without the branch; non-trivial: an outage which shifts flow"
)
STATES = "distinct (number of islands, branches, outages, solver behaviour, binding outages) tuples"
REAL = ["pypsa.optimization", "pypsa.contingency", "pypsa.pf", "linopy", "HiGHS"]
STUB = ["choice of the solution by the solver (linopy.Model.solve)"]
ASSUMPTIONS = ["outages which split a sub-network are outside the statement, as documented (singular outage factors)"]
EXPECT_PROBES = ["outage-injected", "binding-outage", "solver.arbitrary-vertex", "optimum-compared", "trafo-outage", "extendable-affected", "removed-and-rerun", "contingency-analysis", "bridge-listed", "inactive-branch", "several-islands"]
SIM_TIME = "outages injected"


def generate(rng, tier):
    prob = {"lines": 1, "trafo": 0.5, "gc": 0.1, "tight": 0, "inactive": 0.3, "links": 0.35, "su": 0.25, "store": 0.15, "uc": 0.1, "ext": 0.5, "dc": 0.12, "mod": 0.1, "ramp": 0.15, "types": 0.15}
    g, steps, opts = optgen.problem(rng, forbid=["quad", "esum", "pset", "socset", "losses"], prob=prob, n_sns=(1, 3), n_bus=(3, 6), kinds=("int", "dt", "str"))
    thin(rng, steps)
    br = [[s[1], s[2]] for s in steps if s[0] == "add" and s[1] in ("Line", "Transformer")]
    kind = gen.weighted(rng, [("none", 2), ("lines", 2), ("multi", 3)])
    if kind == "lines":
        br = [b for b in br if b[0] == "Line"]
    outages = [b for b in br if rng.random() < 0.6] if kind != "none" else []
    rng.shuffle(outages)
    act = {} if rng.random() < 0.5 else {"act": "vertex", "seed": rng.getrandbits(32)}
    return {"steps": steps, "opts": opts, "kind": kind, "outages": outages, "solver": act, "pick": rng.getrandbits(16), "window": rng.random() < 0.1}


def thin(rng, steps):
    """No links between AC and DC by lines, some branches less."""
    car = {s[2]: s[3].get("carrier", "AC") for s in steps if s[:2] == ["add", "Bus"]}
    p = rng.choice([0.0, 0.0, 0.2, 0.4])
    out = []
    for s in steps:
        if s[0] == "add" and s[1] in ("Line", "Transformer"):
            if car[s[3]["bus0"]] != car[s[3]["bus1"]] or rng.random() < p:
                continue
        out.append(s)
    steps[:] = out


def branches_of(ref, t):
    return [((c, name), b0, b1, z, 0.0) for (t2, c, name, b0, b1, z, s) in ref.kvl if t2 == t]


def execute(trace, ctx):
    n = gen.build(trace["steps"])
    twin = gen.build(trace["steps"])
    car = n.buses.carrier
    for c in ("Line", "Transformer"):
        st = n.static(c)
        if len(st) and (st.bus0.map(car) != st.bus1.map(car)).any():
            raise Skip("mixed carriers")
    opts = trace["opts"]
    sns = n.snapshots
    if trace["window"] and len(sns) > 1:
        sns = sns[: len(sns) - 1]
    ref = Ref(twin, sns)
    t0 = list(sns)[0]
    br = branches_of(ref, t0)
    if any(not b[3] for b in br):
        raise Skip("branch without impedance")
    buses = list(twin.buses.index)
    listed = [tuple(o) for o in trace["outages"] if o[1] in n.static(o[0]).index]
    if trace["kind"] == "none":
        arg = None
        listed = [b[0] for b in br]
    elif trace["kind"] == "lines":
        arg = [o[1] for o in listed]
        if trace["pick"] % 2:
            arg = pd.Index(arg)
    else:
        if not listed:
            raise Skip("no outage")
        arg = pd.MultiIndex.from_tuples(listed)
    names = {b[0] for b in br}
    ctx.probe("inactive-branch", bool(len(n.passive_branches()) > len(br)))
    isl = [i for i in flow.islands(buses, br) if len(i) > 1]
    ctx.probe("several-islands", len(isl) > 1)
    factors = {}
    for o in listed:
        if o not in names:
            continue
        f = flow.outage_factors(buses, br, o)
        if f is None:
            ctx.probe("bridge-listed")
        else:
            factors[o] = f
    # the documented constraints of the listed outages
    for o, fac in factors.items():
        for t in ref.sns:
            for (c, name), b0, b1, z, _ in br:
                if (c, name) == o:
                    continue
                pu = ref.d.get(c, "s_max_pu", name, t)
                row = {(c, name, "s", t): 1.0}
                k = (*o, "s", t)
                row[k] = row.get(k, 0.0) + fac[c, name]
                ref.le_cap(f"security|{o}|{c}|{name}|{t}", row, pu, c, name, 1)
                ref.le_cap(f"security|{o}|{c}|{name}|{t}", row, -pu, c, name, -1)
    ref.n = n
    before = gen.fingerprint(n, inputs_only=True)
    with Solver(ctx, default=trace["solver"]) as sol:
        res, exc = ctx.attempt(n.optimize.optimize_security_constrained, sns if trace["window"] else None, branch_outages=arg, io_api=opts["io_api"], solver_options=dict(SOLVER_OPTS))
    del sol
    if exc is not None:
        ctx.check(documented(exc), f"unexpected-exception:{type(exc).__name__}", lambda: short_tb(exc))
        ctx.log("rejected")
        return
    diff = gen.inputs_diff(before, gen.fingerprint(n, inputs_only=True))
    ctx.check(not diff, "inputs-changed", lambda: diff[1][:500])
    status, cond = res
    if status == "ok":
        inject(ctx, n, ref, buses, br, factors)
    check_solution(ctx, n, ref, status, cond, trace["solver"].get("act"))
    if status != "ok":
        return
    if any(abs(v) > 1e-6 for f in factors.values() for v in f.values()):
        ctx.nontrivial = True
    rng = np.random.RandomState(trace["pick"])
    if br:
        t = ref.sns[rng.randint(len(ref.sns))]
        rerun(ctx, trace, n, ref, buses, br, t, rng)


def injections(n, t, buses):
    """Net injection of everything but passive branches, from the recorded results."""
    p = dict.fromkeys(buses, 0.0)
    for c in ("Generator", "StorageUnit", "Store", "Load"):
        st, df = n.static(c), n.dynamic(c)["p"]
        for k in st.index:
            if st.at[k, "active"] and k in df.columns:
                p[st.at[k, "bus"]] += float(df.at[t, k]) * (float(st.at[k, "sign"]))
    for k in n.links.index:
        if not n.links.at[k, "active"]:
            continue
        for col in n.links.columns:
            if col.startswith("bus") and col[3:].isdigit() and n.links.at[k, col] in p:
                df = n.links_t[f"p{col[3:]}"]
                if k in df.columns:
                    p[n.links.at[k, col]] -= float(df.at[t, k])
    return p


def inject(ctx, n, ref, buses, br, factors):
    """Lose every listed branch at every snapshot, and look at the others."""
    for t in ref.sns:
        p = injections(n, t, buses)
        for o in factors:
            rest = [b for b in br if b[0] != o]
            try:
                f, _, _ = flow.linear_flow(buses, rest, p)
            except np.linalg.LinAlgError:
                raise Skip("singular") from None
            ctx.probe("outage-injected")
            ctx.probe("trafo-outage", o[0] == "Transformer")
            ctx.sim_time += 1
            binding = False
            for (c, name), x in f.items():
                st = n.static(c)
                cap = float(st.at[name, "s_nom_opt"]) if st.at[name, "s_nom_extendable"] else float(st.at[name, "s_nom"])
                lim = ref.d.get(c, "s_max_pu", name, t) * cap
                tol = 1e-4 * (1 + lim + sum(abs(v) for v in p.values()))
                ctx.check(abs(x) <= lim + tol, "overloaded-after-outage", lambda: f"{t}: without {o} the flow on {c} {name} is {x:.6g}, limit {lim:.6g}")
                if abs(x) > lim - 1e-3:
                    binding = True
                ctx.probe("extendable-affected", bool(st.at[name, "s_nom_extendable"]))
            if binding:
                ctx.probe("binding-outage")
                ctx.fault("outage.binding")
            ctx.fault("outage.branch")
            ctx.state(len(br), len(factors), binding, o[0], len(ref.sns))


def freeze(n, src, t):
    """Set points as recorded in ``src``."""
    for c in ("Generator", "StorageUnit", "Store", "Load"):
        st, df = src.static(c), src.dynamic(c)["p"]
        for k in st.index:
            v = float(df.at[t, k]) if st.at[k, "active"] and k in df.columns else 0.0
            gen.put_series(n, c, "p_set", k, [v] * len(n.snapshots))
    for k in src.links.index:
        v = float(src.links_t.p0.at[t, k]) if src.links.at[k, "active"] and k in src.links_t.p0.columns else 0.0
        gen.put_series(n, "Link", "p_set", k, [v] * len(n.snapshots))


def rerun(ctx, trace, n, ref, buses, br, t, rng):
    """PyPSA's power flow of a network without the branch, and its contingency analysis."""
    p = injections(n, t, buses)
    scale = 1 + sum(abs(v) for v in p.values())
    ok = [b[0] for b in br if not flow.bridge(buses, br, b[0])]
    if ok:
        o = ok[rng.randint(len(ok))]
        n2 = gen.build(trace["steps"])
        freeze(n2, n, t)
        if rng.rand() < 0.5:
            n2.remove(*o)
        else:
            n2.static(o[0]).loc[o[1], "active"] = False
        ctx.call("lpf", n2.lpf, t)
        f, _, _ = flow.linear_flow(buses, [b for b in br if b[0] != o], p)
        for (c, name), x in f.items():
            y = float(n2.dynamic(c)["p0"].at[t, name])
            ctx.check(abs(x - y) <= 1e-5 * scale, "power-flow-after-outage-differs", lambda: f"without {o}: {c} {name} {y}, own power flow {x}")
        ctx.probe("removed-and-rerun")
    n3 = gen.build(trace["steps"])
    freeze(n3, n, t)
    outs = [b[0] for b in br if rng.rand() < 0.5] or None
    split = {b[0] for b in br} - set(ok)
    got = ctx.call("lpf_contingency", n3.lpf_contingency, t, branch_outages=outs)
    f0, _, _ = flow.linear_flow(buses, br, p)
    ctx.probe("contingency-analysis")
    for o in outs or [b[0] for b in br]:
        if o in split:
            continue
        f, _, _ = flow.linear_flow(buses, [b for b in br if b[0] != o], p)
        f[o] = 0.0
        for k, x in f.items():
            y = float(got.at[k, o])
            ctx.check(abs(x - y) <= 1e-5 * scale, "contingency-analysis-differs", lambda: f"without {o}: {k} {y}, own power flow {x}, base {f0[k]}")
    for k, x in f0.items():
        y = float(got.at[k, "base"])
        ctx.check(abs(x - y) <= 1e-5 * scale, "contingency-analysis-differs", lambda: f"base: {k} {y}, own power flow {x}")
    ctx.log(fnum(sum(abs(v) for v in f0.values())))


def simplify(trace):
    if trace["solver"]:
        yield {**trace, "solver": {}}
    if trace["window"]:
        yield {**trace, "window": False}
    yield from simplify_problem(trace)
