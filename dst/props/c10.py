"""C10: multi-step optimisation drivers restore inputs and report failures."""

from __future__ import annotations

import logging

from dst import gen, optgen
from dst.core import Skip, Violation, fnum, short_tb
from dst.interrupt import Interrupt, gen_interrupt
from dst.props.c05 import documented
from dst.props.c08 import SOLVER_OPTS, simplify_problem, warmup  # noqa: F401
from dst.refopt import Ref
from dst.rolling import windows
from dst.solversim import Solver, gen_failure

RUNS = {"quick": 300, "thorough": 12000}
BUDGET = {"quick": 60, "thorough": 1500}
SHRINK = ["steps", "calls"]
RULE = (
    "a random problem and one to three calls of a driver (iterative expansion, near-optimal alternatives, rolling horizon, security-constrained, optimise then power flow); "
    "in some of them the solver fails or raises at a chosen step or the user interrupts at a random line; after each call inputs are compared, successful "
    "calls are compared with the reference model, and a call after failed ones with the same call on a fresh network; non-trivial: a fault struck or the reference was compared"
)
STATES = "distinct (driver, options, step of the fault, fault, outcome) tuples"
REAL = ["pypsa.optimization", "pypsa.pf", "pypsa.networks", "linopy", "HiGHS"]
STUB = ["failures of the solver (linopy.Model.solve)", "arrival of interrupts (sys.settrace)"]
ASSUMPTIONS = [
    "impedances of expanded lines follow their capacity if the iterative expansion succeeds (documented), MGA stores its options in the metadata (documented)",
    "a rolling horizon reports failed windows as a logged warning with the status",
]
EXPECT_PROBES = ["ite", "mga", "rolling", "sclopf", "pf", "ite-compared", "mga-compared", "failed-step", "later-step-failed", "interrupted", "again-compared", "discretised"]
SIM_TIME = "optimisations"
RUN_TIMEOUT = 120

DRIVERS = {
    "ite": "optimize_transmission_expansion_iteratively",
    "mga": "optimize_mga",
    "rolling": "optimize_with_rolling_horizon",
    "sclopf": "optimize_security_constrained",
    "pf": "optimize_and_run_non_linear_powerflow",
}


def generate(rng, tier):
    d = gen.weighted(rng, [("ite", 4), ("mga", 3), ("rolling", 2), ("sclopf", 2), ("pf", 3)])
    kw = {"forbid": ["quad"], "n_sns": (2, 3), "n_bus": (2, 3)}
    prob = {"gc": 0.15, "tight": 0.02, "inactive": 0.15, "links": 0.4, "su": 0.3, "store": 0.3, "uc": 0.15, "ext": 0.5, "lines": 0.7, "mod": 0.1, "types": 0.1}
    if d == "ite":
        prob.update(lines=1, ext=1, uc=0.05, types=0.3, gc=0.2, links=0.7)
    elif d == "mga":
        prob.update(ext=1, uc=0.3)
        kw["n_bus"] = (1, 2)
    elif d == "rolling":
        prob.update(gc=0.05)
        kw["n_sns"] = (3, 5)
    elif d == "sclopf":
        prob.update(lines=1)
        kw["n_bus"] = (3, 4)
    elif d == "pf":
        prob.update(lines=1, dc=0)
    g, steps, opts = optgen.problem(rng, prob=prob, **kw)
    opts["multi"] = d == "mga" and False
    args = {}
    if d == "mga" and not any(s[:2] == ["add", "Generator"] and s[3].get("p_nom_extendable") for s in steps):
        bus = next(s[2] for s in steps if s[:2] == ["add", "Bus"])
        steps.append(["add", "Generator", "gx", {"bus": bus, "p_nom_extendable": True, "p_nom_max": 70.0, "marginal_cost": 12.0, "capital_cost": 25.0, "carrier": "gas"}, {}])
    if d == "ite":
        fix_lines(rng, steps)
        args = {"max_iterations": rng.randint(1, 4), "min_iterations": rng.randint(1, 2), "msq_threshold": rng.choice([0.05, 0.001, 0.2]), "track_iterations": rng.random() < 0.3}
        if rng.random() < 0.4:
            args["line_unit_size"] = rng.choice([5.0, 10.0, 30.0])
            if rng.random() < 0.5:
                args["line_threshold"] = rng.choice([0.1, 0.5])
            args["fractional_last_unit_size"] = rng.random() < 0.5
        if rng.random() < 0.4:
            args["link_unit_size"] = {rng.choice(["gas", "wind", "DC2"]): rng.choice([5.0, 20.0])}
            if rng.random() < 0.5:
                args["link_threshold"] = {k: 0.5 for k in args["link_unit_size"]}
    elif d == "mga":
        args = {"slack": rng.choice([0.02, 0.05, 0.3]), "sense": rng.choice(["min", "max", 1, -1]), "weights": rng.choice([None, "gen", "all"])}
    elif d == "rolling":
        h = rng.randint(1, 3)
        args = {"horizon": h, "overlap": rng.randint(0, h - 1)}
    elif d == "sclopf":
        args = {"outages": rng.choice(["all", "first", "none"])}
    elif d == "pf":
        args = {"distribute_slack": rng.random() < 0.3, "use_seed": rng.random() < 0.3}
    window = rng.random() < 0.15
    calls = []
    for i in range(rng.randint(1, 2)):
        r = rng.random()
        if i and r < 0.3:
            calls.append({})
        elif r < 0.25:
            calls.append({})
        elif r < 0.75:
            step = rng.choice([0, 0, 1, 1, 2, 3])
            calls.append({"solver": {str(step): gen_failure(rng)}})
        else:
            calls.append({"interrupt": {**gen_interrupt(rng, 8000), "modules": rng.choice([["pypsa/optimization"], ["pypsa/optimization/abstract.py"], ["pypsa"]])}})
            if calls[-1]["interrupt"]["modules"][0].endswith("abstract.py"):
                calls[-1]["interrupt"]["at"] = rng.randint(1, 120)
    if any(c for c in calls):
        calls.append({})
    return {"steps": steps, "opts": opts, "driver": d, "args": args, "window": window, "calls": calls, "presolved": rng.random() < 0.3}


def fix_lines(rng, steps):
    """Extendable lines which always keep some capacity: impedance is proportional to its inverse."""
    some = False
    for s in steps:
        if s[0] == "add" and s[1] == "Line":
            st = s[3]
            if not some and "inactive" not in st and rng.random() < 0.8:
                st["s_nom_extendable"] = True
                st.setdefault("s_nom_max", round(rng.uniform(60, 160), 2))
                st.setdefault("capital_cost", round(rng.uniform(1, 30), 2))
            if st.get("s_nom_extendable"):
                st.pop("s_nom_mod", None)
                st["s_nom_min"] = round(rng.uniform(5, 20), 2)
                st["s_nom"] = max(st.get("s_nom", 0), st["s_nom_min"])
                st.pop("active", None)
                some = True
            if rng.random() < 0.3:
                st["carrier"] = rng.choice(["AC", "gas"])
        elif s[0] == "add" and s[1] == "Link" and rng.random() < 0.7:
            # links of this carrier are fixed in the last step
            s[3]["carrier"] = "DC"


def inputs(n, d):
    fp = gen.fingerprint(n, inputs_only=True)
    fp.pop("meta", None)
    for k in list(fp):
        # columns added by track_iterations
        if "_opt_" in k or ".mu_" in k:
            fp.pop(k)
    return fp


IMPEDANCE = ("Line.x", "Line.r", "Line.num_parallel")


def execute(trace, ctx):
    n = gen.build(trace["steps"])
    d, opts = trace["driver"], trace["opts"]
    ctx.probe(d)
    if d == "mga" and not n.generators.query("active and p_nom_extendable").index.size:
        raise Skip("nothing to minimise")
    if d == "ite" and not any(n.lines.s_nom_extendable & (n.lines.s_nom <= 0)) and not (n.lines.s_nom_extendable & (n.lines.s_nom_min <= 0)).any():
        pass
    elif d == "ite":
        raise Skip("lines without capacity")
    if trace["presolved"] or d == "mga":
        if presolve(ctx, n, opts, sns_of(n, trace)) is None:
            return
    struck = 0
    hist = []
    clean = True
    for call in trace["calls"]:
        kept = {k: n.static(c)[k].copy() for c, k in (("Line", "x"), ("Line", "r"), ("Line", "num_parallel"))}
        before = inputs(n, d)
        objective = (getattr(n, "_objective", None), getattr(n, "_objective_constant", None))
        out, exc, sol, intr, warned = drive(ctx, n, trace, call)
        after = inputs(n, d)
        failed = exc is not None or status_of(n, d, out, sol) != "ok"
        if d == "ite" and not failed:
            for k in IMPEDANCE:
                before.pop(k, None), after.pop(k, None)
        diff = gen.inputs_diff(before, after)
        where = intr.fired if intr and intr.fired else f"solver call {sol.calls - 1} of {d}: {call}"
        ctx.check(not diff, f"inputs-changed-by-{d}", lambda: f"{'failed' if failed else 'successful'} call, {where}: {diff[1]}"[:800])
        rejected = exc is not None and documented(exc)
        if sol.failed:
            k = next(i for i in range(sol.calls) if str(i) in call["solver"])
            e = call["solver"][str(k)]
            ctx.probe("failed-step")
            ctx.probe("later-step-failed", k > 0)
            struck += 1
            if e["act"] == "raise":
                ctx.check(exc is not None and "simulated" in chain(exc), "failure-not-reported", lambda: f"{d}: {e} gave {out!r} {exc!r}")
            elif d == "rolling":
                ctx.check(exc is None and any(e["status"][0] in w and e["status"][1] in w for w in warned), "failure-not-reported", lambda: f"{d}: {e} gave {out!r} {exc!r} {warned}")
            elif d == "ite" and exc is not None:
                ctx.check(isinstance(exc, RuntimeError) and e["status"][0] in str(exc), "failure-not-reported", lambda: f"{d}: {e} gave {exc!r}")
            else:
                ctx.check(exc is None and status_of(n, d, out, sol) == e["status"][0], "failure-not-reported", lambda: f"{d}: {e} gave {out!r} {exc!r}")
                if d != "rolling" and k == 0:
                    now = (getattr(n, "_objective", None), getattr(n, "_objective_constant", None))
                    ctx.check(same_obj(objective, now, d), "objective-replaced", lambda: f"{d}: {objective} -> {now}")
        elif intr and intr.fired:
            struck += 1
            ctx.probe("interrupted")
            ctx.check(exc is not None, "interrupt-swallowed", lambda: f"{intr.exc} at {intr.fired}: {out!r}")
        elif exc is not None:
            ok = rejected or tolerated(exc, d)
            ctx.check(ok, f"unexpected-exception:{d}:{type(exc).__name__}", lambda: short_tb(exc))
        hist.append((d, bool(sol.failed), intr.fired.split(":")[0] if intr and intr.fired else "", failed))
        ctx.log(hist[-1], sol.calls)
        ctx.sim_time += sol.calls
        if not failed:
            if judge(ctx, trace, n, d, out, sol, kept):
                ctx.nontrivial = True
            if not clean and (d == "ite" or struck) and call is trace["calls"][-1]:
                again(ctx, trace, n, out)
            if d == "ite":
                break  # impedances have changed
        else:
            clean = False
    ctx.state(hist, sorted(trace["args"].items(), key=str))
    if struck:
        ctx.nontrivial = True


def chain(e):
    out = ""
    while e is not None:
        out += repr(e)
        e = e.__context__
    return out


def tolerated(exc, d):
    """Problems which the real solver found infeasible."""
    return d == "ite" and isinstance(exc, RuntimeError) and "Optimization failed with status" in str(exc)


def same_obj(a, b, d):
    return all(repr(x) == repr(y) for x, y in zip(a, b)) or d in ("sclopf", "mga", "pf", "ite") and repr(a[0]) == repr(b[0])


def status_of(n, d, out, sol):
    if out is None:
        return "raised"
    if d == "rolling":
        return "ok" if all(r[0] == "ok" for r in sol.log) else "failed"
    if d == "pf":
        return out["status"]
    return out[0]


def sns_of(n, trace):
    if trace["window"] and len(n.snapshots) > 1:
        return n.snapshots[: len(n.snapshots) - 1]
    return None


def presolve(ctx, n, opts, sns):
    with Solver(ctx):
        out, exc = ctx.attempt(n.optimize, sns, io_api=opts["io_api"], solver_options=dict(SOLVER_OPTS))
    ctx.sim_time += 1
    if exc is not None:
        ctx.check(documented(exc), f"unexpected-exception:optimize:{type(exc).__name__}", lambda: short_tb(exc))
        return None
    return out if out[0] == "ok" else None


class Warned(logging.Handler):
    def __init__(self):
        super().__init__()
        self.out = []

    def emit(self, record):
        self.out.append(record.getMessage())


def drive(ctx, n, trace, call):
    d, opts, args = trace["driver"], trace["opts"], dict(trace["args"])
    kw = {"io_api": opts["io_api"], "solver_options": dict(SOLVER_OPTS)}
    if d == "mga":
        args["weights"] = weights(n, args["weights"])
    elif d == "sclopf":
        args["branch_outages"] = {"all": None, "first": list(n.lines.index[n.lines.active][:1]), "none": []}[args.pop("outages")]
    sns = sns_of(n, trace)
    sol = Solver(ctx, plan=call.get("solver") or {})
    i = call.get("interrupt")
    intr = Interrupt(ctx, i["at"], i["exc"], i["modules"], skip=("consistency_check",)) if i else None
    h = Warned()
    log = logging.getLogger("pypsa.optimization.abstract")
    logging.disable(logging.NOTSET)
    old = log.propagate
    log.propagate = False
    log.addHandler(h)
    log.setLevel(logging.WARNING)
    others = logging.getLogger().level
    logging.getLogger().setLevel(logging.CRITICAL + 1)
    out = exc = None

    def go():
        return getattr(n.optimize, DRIVERS[d])(sns, **args, **kw)

    try:
        with sol:
            try:
                if intr:
                    with intr:
                        out = go()
                else:
                    out = go()
            except (Violation, Skip):
                raise
            except BaseException as e:
                exc = e
    finally:
        logging.disable(logging.CRITICAL)
        log.removeHandler(h)
        log.propagate = old
        logging.getLogger().setLevel(others)
    if exc is not None and not (sol.failed or (intr and intr.fired)) and isinstance(exc, MemoryError):
        raise exc
    return out, exc, sol, intr, h.out


def weights(n, kind):
    import pandas as pd

    if kind is None:
        return None
    ext = n.generators.index[n.generators.p_nom_extendable]
    w = {"Generator": {"p_nom": pd.Series(1.0 + 0.5 * (pd.RangeIndex(len(ext)) % 3).values, index=ext)}} if len(ext) else {}
    if kind == "all":
        for c, a in (("Link", "p_nom"), ("Store", "e_nom"), ("Line", "s_nom")):
            st = n.static(c)
            i = st.index[st[a + "_extendable"]]
            if len(i):
                w[c] = {a: {k: 2.0 for k in i}}
    return w or None


# ---------------------------------------------------------------- oracles


def judge(ctx, trace, n, d, out, sol, kept):
    opts = trace["opts"]
    sns = sns_of(n, trace)
    sns = list(n.snapshots if sns is None else sns)
    if d == "ite":
        return judge_ite(ctx, trace, n, sns, kept, opts)
    if d == "mga":
        return judge_mga(ctx, trace, n, sns)
    if d in ("sclopf", "pf"):
        twin = gen.build(trace["steps"])
        ref = Ref(twin, sns, losses=0)
        if d == "sclopf":
            ref.n = n
            res = ref.residuals(ref.recorded())
            ctx.check(not res, f"infeasible-result-{d}", lambda: "; ".join(f"{t}: {v:.6g}" for t, v in res[:4]))
            return True
        judge_pf(ctx, trace, n, sns, out)
        return True
    return False


def judge_ite(ctx, trace, n, sns, kept, opts):
    """The reported dispatch is optimal for the final capacities and the impedances which belong to them."""
    twin = gen.build(trace["steps"])
    L = twin.lines
    args = trace["args"]
    ext = [x for x in L.index if L.at[x, "s_nom_extendable"] and L.at[x, "active"]]
    last = n.lines.s_nom_opt
    unit = args.get("line_unit_size")
    for x in ext:
        car = twin.buses.at[L.at[x, "bus0"], "carrier"]
        if not unit and L.at[x, "type"] == "":
            for attr, c in (("x", "AC"), ("r", "DC")):
                want = kept[attr][x] * (L.at[x, "s_nom"] / last[x] if car == c else 1.0)
                got = n.lines.at[x, attr]
                ctx.check(abs(want - got) <= 1e-5 * abs(want), "impedance-not-updated", lambda: f"{x} {attr}: {kept[attr][x]} for {L.at[x, 's_nom']}, now {got} for {last[x]}")
        if unit:
            ctx.probe("discretised")
            ok = near_multiple(last[x], unit) or abs(last[x] - L.at[x, "s_nom_max"]) < 1e-6
            ctx.check(ok, "not-discretised", lambda: f"{x}: {last[x]} with units of {unit}, maximum {L.at[x, 's_nom_max']}")
    for x in L.index:
        if x not in ext and L.at[x, "active"]:
            ctx.check(abs(last[x] - L.at[x, "s_nom"]) < 1e-6, "fixed-line-changed", lambda: f"{x}: {L.at[x, 's_nom']} -> {last[x]}")
    for k in twin.links.index:
        row = twin.links.loc[k]
        if not row["active"]:
            continue
        got = n.links.at[k, "p_nom_opt"]
        u = (args.get("link_unit_size") or {}).get(row["carrier"])
        if not row["p_nom_extendable"]:
            ctx.check(abs(got - row["p_nom"]) < 1e-6, "fixed-link-changed", lambda: f"{k}: {row['p_nom']} -> {got}")
        elif u:
            ctx.check(near_multiple(got, u) or abs(got - row["p_nom_max"]) < 1e-6, "not-discretised", lambda: f"{k}: {got} with units of {u}")
    # the final step, as documented: everything else optimal for these lines and links
    for x in ext:
        twin.lines.loc[x, "s_nom_extendable"] = False
        twin.lines.loc[x, "s_nom"] = last[x]
    for a in ("x", "r", "num_parallel"):
        twin.lines[a] = n.lines[a]
    fixed = set((args.get("link_unit_size") or {}).keys()) | {"DC"}
    for k in twin.links.index:
        if twin.links.at[k, "p_nom_extendable"] and twin.links.at[k, "carrier"] in fixed:
            twin.links.loc[k, "p_nom_extendable"] = False
            twin.links.loc[k, "p_nom"] = n.links.at[k, "p_nom_opt"]
    ref = Ref(twin, sns)
    ref.n = n
    val = ref.recorded()
    res = ref.residuals(val)
    ctx.check(not res, "infeasible-result-ite", lambda: "; ".join(f"{t}: {v:.6g}" for t, v in res[:4]))
    st, best, _ = ref.optimum()
    cost = ref.cost(val)
    if st == "optimal":
        tol = 2e-5 * (1 + abs(cost)) + 1e-3
        ctx.check(cost <= best + tol, "result-not-optimal-ite", lambda: f"{cost} > {best}")
    ctx.probe("ite-compared")
    ctx.log("ite", fnum(cost))
    return True


def near_multiple(x, u):
    return abs(x / u - round(x / u)) < 1e-6


def judge_mga(ctx, trace, n, sns):
    twin = gen.build(trace["steps"])
    ref = Ref(twin, sns)
    st, best, _ = ref.optimum()
    if st != "optimal" or best <= 1e-6:
        return False
    ref.n = n
    val = ref.recorded()
    res = ref.residuals(val)
    ctx.check(not res, "infeasible-result-mga", lambda: "; ".join(f"{t}: {v:.6g}" for t, v in res[:4]))
    # all capital costs, also of what exists already
    fixed = installed(twin, ref)
    slack = trace["args"]["slack"]
    cost = ref.cost(ref.recorded(derive_starts=False)) + fixed
    # each call takes its budget from the results before it
    calls = 1 + trace["calls"].index({}) if {} in trace["calls"] else 1
    k = sum(1 for c in trace["calls"])
    budget = (best + fixed) * (1 + slack) ** (k if k > 1 else 1)
    ctx.check(cost <= budget * (1 + 1e-5) + 1e-2, "budget-exceeded", lambda: f"cost {cost}, allowed {budget}, optimum {best} + {fixed}")
    if k == 1:
        w = weights(twin, trace["args"]["weights"])
        if w is None:
            w = {"Generator": {"p_nom": {g: 1.0 for g in twin.generators.index if twin.generators.at[g, "p_nom_extendable"]}}}
        sense = -1 if trace["args"]["sense"] in ("max", -1) else 1
        obj = {}
        for c, attrs in w.items():
            for a, co in attrs.items():
                for x, v in dict(co).items():
                    if (c, x, a) in ref.vars:
                        obj[c, x, a] = sense * float(v)
        ref.row("budget", dict(ref.c), -1e30, (best + fixed) * (1 + slack) - fixed)
        st, alt, _ = ref.optimum(obj)
        if st == "optimal":
            got = sum(v * val[k2] for k2, v in obj.items())
            # budgets agree to solver tolerances only
            tol = 1e-3 * (1 + abs(alt))
            ctx.check(abs(got - alt) <= tol, "alternative-not-optimal", lambda: f"{got}, reference {alt}, slack {slack}")
            ctx.probe("mga-compared")
    del calls
    return True


def installed(twin, ref):
    """Capital costs of components which are not extendable."""
    tot = 0.0
    for c, a in (("Generator", "p_nom"), ("Link", "p_nom"), ("StorageUnit", "p_nom"), ("Store", "e_nom"), ("Line", "s_nom"), ("Transformer", "s_nom")):
        st = twin.static(c)
        for x in st.index:
            if st.at[x, "active"] and not st.at[x, a + "_extendable"]:
                tot += float(st.at[x, "capital_cost"]) * float(st.at[x, a])
    return tot


def judge_pf(ctx, trace, n, sns, out):
    for k in ("n_iter", "error", "converged"):
        ctx.check(k in out and list(out[k].index) == sns, "powerflow-report-incomplete", lambda: f"{k}: {out.get(k)!r}"[:300])
    ctx.probe("pf-converged", int(out["converged"].to_numpy().sum()))


def again(ctx, trace, n, out):
    """The same call on a network which never saw a failure."""
    fresh = gen.build(trace["steps"])
    d, opts = trace["driver"], trace["opts"]
    if trace["presolved"] or d == "mga":
        if presolve(ctx, fresh, opts, sns_of(fresh, trace)) is None:
            return
    out2, exc, sol, _, _ = drive(ctx, fresh, trace, {})
    if exc is not None:
        ctx.check(False, f"differs-from-fresh-{d}", lambda: f"fresh network raises {exc!r}, after failures {out!r}"[:500])
    if d == "mga":
        return  # starts from the results of earlier calls
    a, b = float(n.objective), float(fresh.objective)
    ctx.check(abs(a - b) <= 1e-5 * (1 + abs(b)), f"differs-from-fresh-{d}", lambda: f"objective {a!r}, fresh network {b!r}")
    diff = gen.inputs_diff(inputs(fresh, d), inputs(n, d))
    ctx.check(not diff, f"differs-from-fresh-{d}", lambda: str(diff[1])[:600])
    ctx.probe("again-compared")


def simplify(trace):
    for i, c in enumerate(trace["calls"]):
        for k in c.get("solver") or {}:
            if k != "0":
                yield {**trace, "calls": trace["calls"][:i] + [{"solver": {str(int(k) - 1): c["solver"][k]}}] + trace["calls"][i + 1 :]}
    if trace["window"]:
        yield {**trace, "window": False}
    if trace["presolved"]:
        yield {**trace, "presolved": False}
    for k in list(trace["args"]):
        if k in ("outages", "weights", "horizon", "overlap", "slack", "sense"):
            continue
        yield {**trace, "args": {a: b for a, b in trace["args"].items() if a != k}}
    if trace["opts"].get("io_api") != "direct":
        yield {**trace, "opts": {**trace["opts"], "io_api": "direct"}}
    yield from simplify_problem(trace)


_ = windows
