"""The simulated solver: decides what every call of the solver returns.

``linopy.Model.solve`` is the seam between PyPSA and the solver.  Per call a plan
entry may request

* ``vertex``  an arbitrary feasible vertex (seeded random objective) instead of
  the optimal one: constraints must hold for every solution the solver returns;
* ``noise``   integer variables off by the solver's integrality tolerance;
* ``nodual``  no dual values;
* ``status``  a failure status without any solution;
* ``raise``   an exception out of the solver, before or after the solve;
"""

from __future__ import annotations

import random

import numpy as np
import xarray as xr

from dst.core import Skip

FAILURES = [
    ("warning", "infeasible"),
    ("warning", "unbounded"),
    ("warning", "infeasible_or_unbounded"),
    ("warning", "other"),
    ("error", "internal_solver_error"),
    ("aborted", "user_interrupt"),
    ("aborted", "resource_interrupt"),
    ("aborted", "licensing_problems"),
    ("unknown", "unknown"),
]
EXCEPTIONS = {"RuntimeError": RuntimeError, "OSError": OSError, "KeyboardInterrupt": KeyboardInterrupt, "ValueError": ValueError, "SolverCrash": None}


class SolverCrash(Exception):
    pass


EXCEPTIONS["SolverCrash"] = SolverCrash


class Solver:
    def __init__(self, ctx, plan=None, default=None, opts=None):
        """plan: {call index (str): entry}; default: entry for all other calls."""
        self.ctx = ctx
        self.plan = plan or {}
        self.default = default or {}
        self.opts = opts or {}
        self.calls = 0
        self.log = []  # (status, condition) per call
        self.failed = 0

    def __enter__(self):
        import linopy

        self.cls = linopy.Model
        self.real = linopy.Model.solve
        sim = self

        def solve(model, *args, **kwargs):
            return sim.solve(model, *args, **kwargs)

        linopy.Model.solve = solve
        return self

    def __exit__(self, *exc):
        self.cls.solve = self.real
        return False

    def raw(self, model, args, kwargs):
        kwargs = {**kwargs, **self.opts}
        res = self.real(model, *args, **kwargs)
        if res[1] in ("iteration_limit", "time_limit"):
            # the real solver gave up (HiGHS cycles on some quadratic problems)
            raise Skip("solver gave up")
        return res

    def solve(self, model, *args, **kwargs):
        k = self.calls
        self.calls += 1
        e = self.plan.get(str(k), self.default)
        act = e.get("act")
        if act == "raise" and not e.get("after"):
            return self.fail(e)
        if act == "status":
            model.reset_solution()
            st, cond = e["status"]
            model.status, model.termination_condition = st, cond
            model.objective._value = np.nan
            self.failed += 1
            self.ctx.fault(f"solver.{cond}")
            self.log.append((st, cond))
            return st, cond
        if act == "vertex":
            res = self.vertex(model, e["seed"], args, kwargs)
        else:
            res = self.raw(model, args, kwargs)
        if act == "noise" and res[0] == "ok":
            self.noise(model, e["seed"])
        if act == "nodual" and res[0] == "ok":
            for _, con in model.constraints.items():
                if "dual" in con.data:
                    con._data = con.data.drop_vars("dual")
            self.ctx.fault("solver.no-duals")
        if act == "raise":
            return self.fail(e)
        self.log.append(tuple(res))
        return res

    def fail(self, e):
        self.failed += 1
        self.ctx.fault("solver.raise-" + e["exc"])
        self.log.append(("raise", e["exc"]))
        raise EXCEPTIONS[e["exc"]]("simulated solver failure")

    def vertex(self, model, seed, args, kwargs):
        """Solve for a random linear objective; the true objective value is reported."""
        rng = random.Random(seed)
        orig = model.objective
        expr = None
        for name in model.variables:
            v = model.variables[name]
            c = np.array([rng.choice([-1.0, 0.0, 1.0]) * rng.uniform(0.5, 1.5) for _ in range(v.size)]).reshape(v.shape)
            t = v.to_linexpr(xr.DataArray(c, coords=v.labels.coords, dims=v.dims)).sum()
            expr = t if expr is None else expr + t
        model.objective = expr
        try:
            res = self.raw(model, args, kwargs)
        finally:
            model._objective = orig
        if res[0] != "ok":
            # unbounded direction: take the optimal solution instead
            return self.raw(model, args, kwargs)
        self.ctx.fault("solver.arbitrary-vertex")
        M = model.matrices
        x = np.nan_to_num(M.sol)
        val = float(M.c @ x)
        if M.Q is not None:
            val += 0.5 * float(x @ (M.Q @ x))
        orig._value = val
        return res

    def noise(self, model, seed):
        rng = random.Random(seed)
        hit = 0
        for name, v in model.variables.items():
            if not (v.attrs.get("binary") or v.attrs.get("integer")):
                continue
            sol = v.solution.copy()
            a = sol.values
            for i in np.ndindex(a.shape):
                if not np.isnan(a[i]) and rng.random() < 0.5:
                    up = a[i] < 0.5 or (not v.attrs.get("binary") and rng.random() < 0.5)
                    a[i] += rng.uniform(0, 5e-7) * (1 if up else -1)
                    hit += 1
            v.solution = sol
        self.ctx.fault("solver.integrality-noise", 1 if hit else 0)


def gen_failure(rng, exceptions=True):
    if exceptions and rng.random() < 0.4:
        return {"act": "raise", "exc": rng.choice(["RuntimeError", "OSError", "KeyboardInterrupt", "SolverCrash"]), "after": rng.random() < 0.4}
    return {"act": "status", "status": list(rng.choice(FAILURES))}
