"""C05: failed or aborted optimisations are reported and leave no trace."""

from __future__ import annotations

from dst import gen, optgen
from dst.core import Skip, Violation, short_tb
from dst.interrupt import Interrupt, gen_interrupt
from dst.props.c08 import SOLVER_OPTS, check_solution, simplify_problem, warmup  # noqa: F401
from dst.refopt import Ref
from dst.solversim import Solver, gen_failure

RUNS = {"quick": 300, "thorough": 12000}
BUDGET = {"quick": 60, "thorough": 1500}
SHRINK = ["steps", "ops"]
RULE = (
    "a random problem and a history of optimisations, model builds, solves and edits on one network; solver failures of every kind, solver exceptions, raising callbacks "
    "and interrupts at random lines strike some of them; after each the inputs and, unless struck while storing results, the results are compared with those before; "
    "at the end an undisturbed optimisation is compared with the reference and with a fresh network; non-trivial: at least one failure which struck"
)
STATES = "distinct (kind of step, fault, outcome) histories"
REAL = ["pypsa.optimization", "pypsa.networks", "linopy", "HiGHS"]
STUB = ["failures of the solver (linopy.Model.solve)", "arrival of interrupts (sys.settrace)"]
ASSUMPTIONS = ["results may be partial after an interrupt, but not after a failure of the solver or of a callback"]
EXPECT_PROBES = ["failed-status", "solver-raised", "callback-raised", "interrupted", "edit", "final-compared", "results-kept"]
SIM_TIME = "snapshots optimised"


class CallbackError(Exception):
    pass


def generate(rng, tier):
    multi = rng.random() < 0.15
    g, steps, opts = optgen.problem(
        rng,
        multi=multi,
        forbid=["quad"],
        n_sns=(2, 4),
        n_bus=(1, 3),
        prob={"gc": 0.25, "tight": 0.02, "types": 0.2, "inactive": 0.15, "links": 0.35, "su": 0.35, "store": 0.35, "uc": 0.25, "ext": 0.4, "lines": 0.55},
    )
    opts["multi"] = multi
    if "losses" in g.f and "lines" in g.f:
        opts["losses"] = 1
    ops = []
    for _ in range(rng.randint(1, 3)):
        r = rng.random()
        if r < 0.2:
            ops.append({"op": "edit", **gen_edit(rng)})
        elif r < 0.3:
            ops.append({"op": "create"})
        else:
            ops.append({"op": rng.choice(["opt", "opt", "opt", "solve"]), "fault": gen_fault(rng), "window": rng.random() < 0.15})
    if not any(o.get("fault") for o in ops):
        ops.insert(rng.randint(0, len(ops)), {"op": "opt", "fault": gen_fault(rng, True), "window": False})
    if rng.random() < 0.5:
        ops.insert(0, {"op": "opt", "fault": None, "window": False})
    return {"steps": steps, "opts": opts, "ops": ops}


def gen_fault(rng, sure=False):
    k = gen.weighted(rng, [("none", 0 if sure else 2), ("solver", 4), ("callback", 1.5), ("interrupt", 4)])
    if k == "none":
        return None
    if k == "solver":
        return {"kind": "solver", "e": gen_failure(rng)}
    if k == "callback":
        return {"kind": "callback", "late": rng.random() < 0.5}
    mods = rng.choice([["pypsa/optimization"], ["pypsa/optimization"], ["pypsa"]])
    return {"kind": "interrupt", **gen_interrupt(rng, 2500 if "/" in mods[0] else 12000), "modules": mods}


def gen_edit(rng):
    return {"what": rng.choice(["load", "cost", "active", "remove", "nom", "add", "ext"]), "pick": rng.random(), "val": round(rng.uniform(0.3, 1.5), 2)}


def edit(n, e):
    """Apply one edit of the user to a network."""
    what, v = e["what"], e["val"]

    def pick(c):
        names = [x for x in n.static(c).index if not x.startswith(("shed", "dump"))]
        return names[int(e["pick"] * len(names))] if names else None

    if what == "load":
        x = pick("Load")
        if x:
            n.loads.loc[x, "p_set"] *= v
            if x in n.loads_t.p_set:
                n.loads_t.p_set[x] *= v
    elif what == "cost":
        x = pick("Generator")
        if x:
            n.generators.loc[x, "marginal_cost"] = 40 * v
            if x in n.generators_t.marginal_cost:
                del n.generators_t.marginal_cost[x]
    elif what in ("active", "remove"):
        cs = [c for c in ("Generator", "Line", "Link", "StorageUnit", "Store", "Load", "Transformer") if pick(c)]
        if cs:
            c = cs[int(v * 7) % len(cs)]
            if what == "active":
                n.static(c).loc[pick(c), "active"] ^= True
            else:
                n.remove(c, pick(c))
    elif what == "nom":
        x = pick("Link")
        if x:
            n.links.loc[x, "p_nom"] *= v
    elif what == "add":
        if "newgen" not in n.generators.index and len(n.buses):
            n.add("Generator", "newgen", bus=n.buses.index[0], p_nom=50 * v, marginal_cost=30 * v, carrier=n.carriers.index[0] if len(n.carriers) else "")
    elif what == "ext":
        x = pick("Generator")
        if x and not n.generators.at[x, "committable"]:
            n.generators.loc[x, "p_nom_extendable"] ^= True
            if n.generators.at[x, "p_nom_max"] == float("inf"):
                n.generators.loc[x, ["p_nom_max", "capital_cost"]] = [90.0, 20 * v]


def kwargs(opts):
    return dict(multi_investment_periods=bool(opts["multi"]), transmission_losses=opts["losses"])


def results(n):
    """Everything the optimisation records."""
    fp = gen.fingerprint(n)
    out = {"objective": repr(getattr(n, "_objective", None))}
    for k, v in fp.items():
        c, _, attr = k.partition(".")
        cls = c.removesuffix("_t")
        if cls not in n.all_components or cls in ("SubNetwork",):
            continue
        d = n.components[cls].defaults
        a = attr.split(".")[0]
        if a in ("x_pu", "r_pu", "g_pu", "b_pu", "x_pu_eff", "r_pu_eff", "sub_network", "control", "generator"):
            continue
        if a in d.index and str(d.at[a, "status"]).startswith("Output") or a.startswith("mu") or a == "loss":
            out[k] = v
    return out


def execute(trace, ctx):
    n = gen.build(trace["steps"])
    opts = trace["opts"]
    edits = []
    hist = []
    struck = 0
    for o in trace["ops"]:
        if o["op"] == "edit":
            edit(n, o)
            edits.append(o)
            ctx.probe("edit")
            hist.append("edit-" + o["what"])
            continue
        before, res0 = gen.fingerprint(n, inputs_only=True), results(n)
        model0 = getattr(n, "_model", None) if o["op"] == "solve" else None
        if o["op"] == "create":
            _, exc = ctx.attempt(n.optimize.create_model, **kwargs(opts))
            outcome = "raised" if exc else "ok"
            if exc is not None:
                ctx.check(documented(exc), f"unexpected-exception:{type(exc).__name__}", lambda: short_tb(exc))
            keep(ctx, n, before, res0, True, "create")
        else:
            if o["op"] == "solve" and model0 is None:
                hist.append("skip")
                continue
            outcome, hit = strike(ctx, n, opts, o, before, res0)
            struck += hit
        hist.append(f"{o['op']}-{(o.get('fault') or {}).get('kind')}-{outcome}")
        ctx.log(hist[-1])
    final(ctx, n, trace, edits)
    ctx.state(hist)
    ctx.nontrivial = struck > 0


def documented(exc):
    return isinstance(exc, ValueError) and any(s in str(exc) for s in ("Empty LHS", "Objective function could not be created"))


def keep(ctx, n, before, res0, whole, tag):
    diff = gen.inputs_diff(before, gen.fingerprint(n, inputs_only=True))
    ctx.check(not diff, "inputs-changed", lambda: f"after {tag}: {diff[1]}"[:600])
    if whole:
        diff = gen.fp_diff(res0, results(n))
        ctx.check(not diff, "results-replaced", lambda: f"after {tag}: {diff[1]}"[:600])
        if any(k.startswith("Generator_t.p.") for k in res0):
            ctx.probe("results-kept")


def strike(ctx, n, opts, o, before, res0):
    f = o.get("fault") or {}
    kind = f.get("kind")
    sns = n.snapshots
    if o.get("window") and not opts["multi"]:
        sns = sns[: max(1, len(sns) // 2)]
    plan = {"0": f["e"]} if kind == "solver" else {}
    sol = Solver(ctx, plan=plan)
    intr = Interrupt(ctx, f["at"], f["exc"], f["modules"], skip=("consistency_check",)) if kind == "interrupt" else None

    def callback(n, sns):
        if f.get("late"):
            m = n.model
            if "Generator-p" in m.variables:
                m.add_constraints(m["Generator-p"].sum() >= -1e6, name="extra")
        ctx.fault("callback.raise")
        raise CallbackError("simulated callback failure")

    def go():
        if o["op"] == "solve":
            if kind == "callback":
                return n.optimize.solve_model(extra_functionality=callback, io_api=opts["io_api"], solver_options=dict(SOLVER_OPTS))
            return n.optimize.solve_model(io_api=opts["io_api"], solver_options=dict(SOLVER_OPTS))
        return n.optimize(sns if o.get("window") else None, extra_functionality=callback if kind == "callback" else None, io_api=opts["io_api"], solver_options=dict(SOLVER_OPTS), **kwargs(opts))

    exc = res = None
    with sol:
        try:
            if intr:
                with intr:
                    res = go()
            else:
                res = go()
        except (Violation, Skip):
            raise
        except BaseException as e:
            exc = e
    reported = exc is not None or res[0] != "ok"
    tag = f"{o['op']} with {kind}"
    if exc is not None:
        ok = "simulated" in str(exc) or documented(exc) or ("simulated" in repr(exc.__context__))
        ctx.check(ok, f"unexpected-exception:{type(exc).__name__}", lambda: short_tb(exc))
    if kind == "solver" and sol.failed:
        ctx.check(reported, "failure-not-reported", lambda: f"{f['e']} -> {res}")
        if f["e"]["act"] == "raise":
            ctx.check(exc is not None and type(exc).__name__ == f["e"]["exc"], "exception-swallowed", lambda: f"{f['e']} -> {res} {exc!r}")
            ctx.probe("solver-raised")
        else:
            ctx.check(res is not None and list(res) == f["e"]["status"], "status-not-reported", lambda: f"{f['e']} -> {res}")
            ctx.probe("failed-status")
        keep(ctx, n, before, res0, True, tag)
        return "failed", 1
    if kind == "callback":
        if documented(exc):
            return "rejected", 0
        ctx.check(isinstance(exc, CallbackError), "exception-swallowed", lambda: f"callback raised, {res} {exc!r}")
        ctx.probe("callback-raised")
        keep(ctx, n, before, res0, True, tag)
        return "failed", 1
    if intr and intr.fired:
        ctx.check(exc is not None, "interrupt-swallowed", lambda: f"{f['exc']} at {intr.fired}: {res}")
        ctx.probe("interrupted")
        ctx.probe("interrupted." + intr.fired.split(":")[0].rsplit("/")[-1])
        ctx.log("interrupt at", intr.fired)
        # results may have been stored partly
        keep(ctx, n, before, res0, not any(s in intr.fired for s in STORING) and not stored(exc), tag + f" at {intr.fired}")
        return "interrupted", 1
    if exc is not None:
        keep(ctx, n, before, res0, True, "rejection")
        return "rejected", 0
    keep(ctx, n, before, res0, reported, tag)
    return res[0], 0


STORING = ("assign_solution", "assign_duals", "post_processing", "set_from_frame")


def stored(exc):
    tb = exc.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_name in STORING:
            return True
        if tb.tb_frame.f_code.co_name in ("optimize", "solve_model") and tb.tb_frame.f_locals.get("status") == "ok":
            return True
        tb = tb.tb_next
    return False


def final(ctx, n, trace, edits):
    opts = trace["opts"]
    fresh = gen.build(trace["steps"])
    for e in edits:
        edit(fresh, e)
    diff = gen.inputs_diff(gen.fingerprint(fresh, inputs_only=True), gen.fingerprint(n, inputs_only=True))
    ctx.check(not diff, "inputs-differ-from-fresh", lambda: str(diff[1])[:600])
    ref = Ref(fresh, multi=opts["multi"], losses=opts["losses"])
    outs = []
    for net in (fresh, n):
        with Solver(ctx):
            outs.append(ctx.attempt(net.optimize, io_api=opts["io_api"], solver_options=dict(SOLVER_OPTS), **kwargs(opts)))
        ctx.sim_time += len(net.snapshots)
    (r0, e0), (r1, e1) = outs
    ctx.check((e0 is None) == (e1 is None) and (e0 is not None or tuple(r0) == tuple(r1)), "differs-from-fresh:status", lambda: f"fresh {r0} {e0!r}, after the history {r1} {e1!r}")
    if e0 is not None:
        ctx.check(documented(e0), f"unexpected-exception:{type(e0).__name__}", lambda: short_tb(e0))
        return
    if r0[0] != "ok":
        return
    o0, o1 = fresh.objective + fresh.objective_constant, n.objective + n.objective_constant
    ctx.check(abs(o0 - o1) <= 1e-6 * (1 + abs(o0)), "differs-from-fresh:objective", lambda: f"fresh {o0}, after the history {o1}")
    check_solution(ctx, n, ref, r1[0], r1[1], None, tag="-after-failures")
    diff = gen.diff_networks(fresh, n, tol=1e-6)
    ctx.check(not diff, f"differs-from-fresh:{diff[0]}" if diff else "", lambda: f"fresh network {diff[1]}"[:600])
    ctx.probe("final-compared")


def simplify(trace):
    for i, o in enumerate(trace["ops"]):
        if o.get("window"):
            yield {**trace, "ops": trace["ops"][:i] + [{**o, "window": False}] + trace["ops"][i + 1 :]}
    for k, v in (("losses", 0), ("io_api", "direct")):
        if trace["opts"].get(k) != v:
            yield {**trace, "opts": {**trace["opts"], k: v}}
    yield from simplify_problem(trace)
