"""Rolling-horizon runs shared by C06 and C07."""

from __future__ import annotations

from dst import gen
from dst.core import Skip, Violation, short_tb
from dst.props.c08 import SOLVER_OPTS, check_solution, simplify_problem
from dst.refopt import Ref
from dst.solversim import Solver, gen_failure


def windows(T, horizon, overlap):
    return [(s, min(T, s + horizon)) for s in range(0, T, horizon - overlap)]


def plan(rng, nwin, fail_p, modes=("optimal", "vertex", "noise", "nodual"), weights=(4, 5, 2, 0.5)):
    out = {}
    for k in range(nwin):
        if rng.random() < fail_p:
            e = gen_failure(rng, exceptions=rng.random() < 0.3)
        else:
            m = gen.weighted(rng, list(zip(modes, weights)))
            e = {} if m == "optimal" else {"act": m, "seed": rng.getrandbits(32)}
        if e:
            out[str(k)] = e
    return out


def schedule(rng, T, fail_p):
    """Range of snapshots, horizon, overlap and what the solver does in each window."""
    a, b = 0, T
    if rng.random() < 0.25 and T > 3:
        a = rng.randrange(T // 2)
        b = rng.randint(a + 2, T)
    n = b - a
    for _ in range(20):
        horizon = rng.randint(1, max(1, min(n, 5)))
        overlap = rng.randint(0, horizon - 1) if rng.random() < 0.6 else 0
        wins = windows(n, horizon, overlap)
        # few windows: every one costs the building of a model
        if len(wins) <= 4 or rng.random() < 0.1:
            break
    return {
        "range": [a, b],
        "horizon": horizon,
        "overlap": overlap,
        "plan": plan(rng, len(wins), fail_p if rng.random() < 0.35 else 0.0),
        "passed_as": rng.choice(["index", "index", "none" if (a, b) == (0, T) else "index", "list"]),
    }


class Watch:
    """Observes the windows: which were solved, optionally compares each with the reference."""

    def __init__(self, ctx, n, opts, deep):
        self.ctx, self.n, self.opts, self.deep = ctx, n, opts, deep
        self.wins = []  # (snapshots, status)

    def __enter__(self):
        from pypsa.optimization.optimize import OptimizationAccessor

        self.cls, self.real = OptimizationAccessor, OptimizationAccessor.__call__
        watch = self

        def call(acc, *args, **kwargs):
            return watch.call(acc, *args, **kwargs)

        OptimizationAccessor.__call__ = call
        return self

    def __exit__(self, *exc):
        self.cls.__call__ = self.real
        return False

    def call(self, acc, sns=None, *args, **kwargs):
        n = self.n
        ref = None
        if self.deep:
            ref = Ref(n, list(sns), losses=self.opts["losses"])
        k = self.solver.calls
        try:
            res = self.real(acc, sns, *args, **kwargs)
        except BaseException:
            self.wins.append((list(sns), "raised"))
            raise
        self.wins.append((list(sns), res[0]))
        e = self.solver.plan.get(str(k), {})
        if ref is not None and e.get("act") not in ("status", "raise"):
            check_solution(self.ctx, n, ref, res[0], res[1], e.get("act"), tag="-in-window")
            self.ctx.probe("window-compared")
        return res


def run(trace, ctx, skip=(), only=None):
    n = gen.build(trace["steps"])
    twin = gen.build(trace["steps"])
    opts, sch = trace["opts"], trace["schedule"]
    a, b = sch["range"]
    T = len(n.snapshots)
    if not 0 <= a < b <= T or sch["horizon"] <= sch["overlap"]:
        raise Skip("schedule")
    sns = n.snapshots[a:b]
    arg = {"none": None, "index": sns, "list": list(sns)}[sch["passed_as"]]
    before = gen.fingerprint(n, inputs_only=True)
    watch = Watch(ctx, n, opts, trace.get("deep"))
    with Solver(ctx, plan=sch["plan"]) as sol, watch:
        watch.solver = sol
        try:
            n.optimize.optimize_with_rolling_horizon(
                arg, horizon=sch["horizon"], overlap=sch["overlap"], transmission_losses=opts["losses"], io_api=opts["io_api"], solver_options=dict(SOLVER_OPTS)
            )
            raised = None
        except (Violation, Skip, MemoryError):
            raise
        except BaseException as e:
            raised = e
    if isinstance(raised, ValueError) and "Empty LHS" in str(raised):
        # demand which nothing could ever meet is rejected
        ctx.log("rejected")
        return n, watch
    if raised is not None:
        planned = any(e.get("act") == "raise" for k, e in sch["plan"].items() if int(k) < sol.calls)
        ctx.check(planned and "simulated" in str(raised), f"unexpected-exception:{type(raised).__name__}", lambda: short_tb(raised))
        ctx.probe("driver-raised")
    after = gen.fingerprint(n, inputs_only=True)
    diff = gen.inputs_diff(before, after)
    ctx.check(not diff, "inputs-changed", lambda: str(diff[1])[:500])

    # which snapshots carry results of an optimised window
    solved = {}
    for i, (w, st) in enumerate(watch.wins):
        if st == "ok":
            for t in w:
                solved[t] = i
    ctx.log("windows", [(len(w), st) for w, st in watch.wins], "solved", len(solved))
    if len(watch.wins) > 1:
        ctx.probe("several-windows")
    if sch["overlap"]:
        ctx.probe("overlap")
    if any(st != "ok" for _, st in watch.wins):
        ctx.probe("failed-window")
    ctx.sim_time += sum(len(w) for w, _ in watch.wins)
    if not solved:
        return n, watch
    ref = Ref(twin, list(sns), losses=opts["losses"], history=True)
    ref.n = n
    missing = [t for t in sns if t not in solved]
    bad = set(missing) | {sns[i + 1] for i in range(len(sns) - 1) if sns[i] in set(missing)}
    if bad:
        rows = []
        for row in ref.rows:
            ts = {k[3] for k in row[1] if len(k) > 3}
            if not ts & bad:
                rows.append(row)
        ref.rows = rows
        ref.kvl = [k for k in ref.kvl if k[0] not in bad]
        ref.vars = {k: v for k, v in ref.vars.items() if len(k) < 4 or k[3] not in missing or k[2] in ("status",)}
    ref.rows = [r for r in ref.rows if r[0].split("|")[0] not in skip and (only is None or r[0].split("|")[0] in only)]
    val = recorded(ref, missing)
    noisy = any(e.get("act") == "noise" for e in sch["plan"].values())
    res = ref.residuals(val, 3e-4 if noisy else 2e-5)
    ctx.check(not res, f"infeasible-history:{res[0][0].split('|')[0]}" if res else "", lambda: "; ".join(f"{t}: {v:.6g}" for t, v in res[:4]))
    return n, watch


def recorded(ref, missing):
    import pandas as pd

    # statuses of failed windows may be missing altogether
    for key in list(ref.vars):
        if len(key) > 3 and key[3] in missing:
            df = ref.n.dynamic(key[0]).get(key[2] if key[0] != "Link" or key[2] != "p" else "p0", pd.DataFrame())
            if key[1] not in df.columns:
                ref.vars.pop(key)
    return ref.recorded()


def simplify(trace):
    s = trace["schedule"]
    for k in list(s["plan"]):
        yield {**trace, "schedule": {**s, "plan": {a: b for a, b in s["plan"].items() if a != k}}}
    for k, v in (("passed_as", "index"), ("overlap", 0), ("range", [0, 10**6])):
        if s[k] != v and k != "range":
            yield {**trace, "schedule": {**s, k: v}}
    if s["horizon"] > s["overlap"] + 1:
        yield {**trace, "schedule": {**s, "horizon": s["horizon"] - 1}}
    if s["range"][1] - s["range"][0] > 2:
        yield {**trace, "schedule": {**s, "range": [s["range"][0], s["range"][1] - 1]}}
    if trace.get("deep"):
        yield {**trace, "deep": False}
    if trace["opts"].get("losses"):
        yield {**trace, "opts": {**trace["opts"], "losses": 0}}
    if trace["opts"].get("io_api") != "direct":
        yield {**trace, "opts": {**trace["opts"], "io_api": "direct"}}
    yield from simplify_problem(trace)
