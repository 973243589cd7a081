"""C08: every reported dispatch is feasible, the objective is optimal."""

from __future__ import annotations

from dst import gen, optgen
from dst.core import fnum, short_tb
from dst.refopt import Ref
from dst.solversim import Solver

RUNS = {"quick": 500, "thorough": 20000}
BUDGET = {"quick": 60, "thorough": 1500}
SHRINK = ["steps"]
RULE = (
    "random small problems (unit commitment, ramps, storage, stores, multi-port links, meshed AC/DC lines, transformers, losses, "
    "expansion, modularity, global constraints, weightings) solved through the simulated solver, which returns the optimum, an arbitrary "
    "feasible vertex, integers with tolerance noise or no duals; non-trivial: at least two features and a solver perturbation or a window"
)
STATES = "distinct (solver behaviour, outcome, set of reference constraint families) tuples"
REAL = ["pypsa.optimization", "pypsa.networks", "linopy", "HiGHS"]
STUB = ["choice of the solution by the solver (linopy.Model.solve)"]
ASSUMPTIONS = ["documented constraints as written in docs/user-guide and component attributes, encoded in dst/refopt.py"]
EXPECT_PROBES = ["solver.arbitrary-vertex", "solver.integrality-noise", "optimum-compared", "infeasible-agreed", "uc", "losses", "kvl", "window", "quadratic", "linearised-uc"]
SIM_TIME = "snapshots optimised"


def warmup():
    import linopy  # noqa: F401
    import scipy.optimize  # noqa: F401

    import pypsa

    n = pypsa.Network()
    n.add("Bus", "b")
    n.add("Generator", "g", bus="b", p_nom=1, marginal_cost=1)
    # only build: HiGHS keeps worker threads which would not survive the fork
    n.optimize.create_model()
    import highspy  # noqa: F401
    import linopy.solvers  # noqa: F401


def generate(rng, tier):
    linuc = rng.random() < 0.15
    forbid = ["series_uc"]
    g, steps, opts = optgen.problem(rng, forbid=forbid)
    if linuc and "uc" in g.f:
        opts["linuc"] = True
    if "losses" in g.f and "lines" in g.f:
        opts["losses"] = rng.choice([1, 2, 3])
    if rng.random() < 0.06:
        cls = rng.choice(["Line", "Transformer", "Link", "StorageUnit"])
        for s in steps:
            if s[:2] == ["add", cls]:
                s[3]["active"] = False
    mode = gen.weighted(rng, [("optimal", 5), ("vertex", 4), ("noise", 1), ("nodual", 0.5)])
    act = {} if mode == "optimal" else {"act": mode, "seed": rng.getrandbits(32)}
    window = None
    if g.T > 1 and rng.random() < 0.25:
        a = rng.randrange(g.T)
        window = [a, rng.randint(a + 1, g.T)]
        if rng.random() < 0.5 or "uc" in g.f:
            # without earlier results the state of units before a later window is unknown
            window[0] = 0
    return {"steps": steps, "opts": opts, "solver": act, "window": window, "how": rng.choice(["call", "create"])}


def solve_kw(opts):
    kw = {"io_api": opts.get("io_api", "direct")}
    return kw


SOLVER_OPTS = {"mip_rel_gap": 0.0, "threads": 1, "parallel": "off", "qp_iteration_limit": 2000}


def run_optimize(n, opts, sns=None, how="call"):
    kw = dict(
        multi_investment_periods=bool(opts.get("multi")),
        transmission_losses=opts.get("losses", 0),
        linearized_unit_commitment=bool(opts.get("linuc")),
    )
    if how == "create":
        n.optimize.create_model(snapshots=sns, **kw)
        return n.optimize.solve_model(io_api=opts.get("io_api", "direct"), solver_options=dict(SOLVER_OPTS))
    return n.optimize(sns, io_api=opts.get("io_api", "direct"), solver_options=dict(SOLVER_OPTS), **kw)


def execute(trace, ctx):
    solve_and_check(trace, ctx)


def solve_and_check(trace, ctx):
    n = gen.build(trace["steps"])
    opts = trace["opts"]
    sns = n.snapshots
    if trace["window"]:
        a, b = trace["window"]
        if b > len(sns) or a >= b:
            from dst.core import Skip

            raise Skip("window")
        sns = sns[a:b]
        ctx.probe("window")
    # the network as the user gave it, before any computation
    ref = Ref(n, sns, multi=opts["multi"], losses=opts["losses"], linuc=opts["linuc"])
    with Solver(ctx, default=trace["solver"]) as sol:
        res, exc = ctx.attempt(run_optimize, n, opts, sns if trace["window"] else None, trace["how"])
    if exc is not None:
        # the one documented rejection: demand which nothing could ever meet
        if isinstance(exc, ValueError) and "Objective function could not be created" in str(exc) and not ref.c and not ref.q:
            ctx.log("no costs")
            return n, ref
        ctx.check(isinstance(exc, ValueError) and "Empty LHS" in str(exc), f"unexpected-exception:{type(exc).__name__}", lambda: short_tb(exc))
        ctx.check(ref.optimum()[0] == "infeasible", "feasible-problem-rejected", lambda: str(exc))
        ctx.log("rejected")
        return n, ref
    status, cond = res
    ctx.sim_time += len(sns)
    families = sorted({t.split("|")[0] for t, *_ in ref.rows})
    check_solution(ctx, n, ref, status, cond, trace["solver"].get("act"))
    ctx.state(trace["solver"].get("act"), status, families, len(n.investment_periods))
    if len(families) >= 4 and (trace["solver"] or trace["window"] or opts["losses"] or ref.q):
        ctx.nontrivial = True
    return n, ref


def relevant(ref):
    return any(v[2] for v in ref.vars.values())


def check_solution(ctx, n, ref, status, cond, act=None, tag=""):
    """Feasibility of the recorded results and optimality, against the reference."""
    if ref.kvl:
        ctx.probe("kvl")
    if any(k[2] == "status" for k in ref.vars if len(k) > 2):
        ctx.probe("linearised-uc" if ref.linuc else "uc")
    if ref.losses:
        ctx.probe("losses")
    if status != "ok":
        st, _, _ = ref.optimum()
        ctx.log(tag, status, cond, st)
        if cond in ("infeasible", "infeasible_or_unbounded") and st in ("infeasible", "optimal"):
            if ref.linuc and st == "infeasible":
                pass
            ctx.check(st == "infeasible", f"feasible-problem-reported-infeasible{tag}", f"{status} {cond}, reference {st}")
            ctx.probe("infeasible-agreed")
        return
    val = ref.recorded()
    res = ref.residuals(val, 3e-4 if act == "noise" else 2e-5)
    ctx.check(not res, lambda_kind(res, tag), lambda: "; ".join(f"{t}: {v:.6g}" for t, v in res[:4]))
    for (c, name, t), a in ref.act.items():
        if not a:
            attr = {"Generator": "p", "Store": "e", "StorageUnit": "state_of_charge"}.get(c, "p0")
            df = n.dynamic(c)[attr]
            if name in df.columns:
                v = float(df.at[t, name])
                ctx.check(abs(v) < 1e-9 or v != v, f"inactive-dispatched{tag}", f"{c} {name} {t}: {v}")
    cost = ref.cost(ref.recorded(derive_starts=False) if act == "vertex" else val)
    obj = float(n.objective) + float(n.objective_constant)
    if act != "noise":
        ctx.check(abs(cost - obj) <= 1e-5 * (1 + abs(cost)) + 1e-4, f"objective-is-not-the-cost{tag}", lambda: f"recorded cost {cost!r}, objective {obj!r} (constant {n.objective_constant!r})")
    ctx.log(tag, "ok", "feasible")
    if act == "vertex":
        cost = ref.cost(val)
        lower(ctx, ref, val, cost, tag, exact=False)
        return
    lower(ctx, ref, val, cost, tag, exact=act != "noise")


def lambda_kind(res, tag):
    return f"infeasible-result{tag}:{res[0][0].split('|')[0]}" if res else "x"


def lower(ctx, ref, val, cost, tag, exact):
    if ref.q:
        ctx.probe("quadratic")
        if relevant(ref):
            return
        g = ref.gradient(val)
        st, best, _ = ref.optimum(g)
        if st != "optimal":
            return
        here = sum(c * val[k] for k, c in g.items())
        gap = here - best
        if exact:
            ctx.check(gap <= 2e-3 * (1 + abs(cost)), f"objective-not-optimal{tag}", lambda: f"descent possible: {here!r} > {best!r}")
            ctx.probe("optimum-compared")
        return
    st, best, _ = ref.optimum()
    ctx.log(tag, "ref", st, fnum(best) if best is not None else "")
    if st == "infeasible":
        # borderline within tolerances only
        ctx.check(False, f"infeasible-problem-reported-ok{tag}", f"cost {cost}")
    if st != "optimal":
        return
    tol = 2e-5 * (1 + abs(cost)) + 1e-3
    if exact and ref.linuc:
        # the linear relaxation may be tightened, at most to the integer problem
        st, best2, _ = ref.integer().optimum()
        if st == "optimal":
            ctx.check(cost <= best2 + tol, f"objective-not-optimal{tag}", lambda: f"recorded {cost!r}, integer reference optimum {best2!r}")
        ctx.check(cost >= best - tol, f"cheaper-than-possible{tag}", lambda: f"recorded {cost!r}, relaxed reference optimum {best!r}")
        return
    if exact:
        ctx.check(cost <= best + tol, f"objective-not-optimal{tag}", lambda: f"recorded {cost!r}, reference optimum {best!r}")
        ctx.probe("optimum-compared")
    if not exact or not ref.linuc:
        ctx.check(cost >= best - tol, f"cheaper-than-possible{tag}", lambda: f"recorded {cost!r}, reference optimum {best!r}")


def simplify(trace):
    if trace["window"]:
        yield {**trace, "window": None}
    if trace["solver"]:
        yield {**trace, "solver": {}}
    if trace["how"] != "call":
        yield {**trace, "how": "call"}
    for k, v in (("losses", 0), ("linuc", False), ("io_api", "direct")):
        if trace["opts"].get(k) != v:
            yield {**trace, "opts": {**trace["opts"], k: v}}
    yield from simplify_problem(trace)


def simplify_problem(trace):
    for i, s in enumerate(trace["steps"]):
        if s[0] != "add":
            continue
        for pos in (3, 4):
            for k in list(s[pos]):
                if k in ("bus", "bus0", "bus1", "type", "x", "r", "carrier_attribute", "v_nom", "p_nom", "s_nom", "e_nom"):
                    continue
                new = list(s)
                new[pos] = {a: b for a, b in s[pos].items() if a != k}
                trace["steps"][i] = new
                yield trace
                trace["steps"][i] = s
