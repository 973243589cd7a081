"""C16: the non-linear power flow tells the truth."""

from __future__ import annotations

import cmath
import math

import numpy as np
import pandas as pd

from dst import gen, pfgen
from dst.core import Skip, short_tb
from dst.interrupt import Interrupt, gen_interrupt
from dst.pfgen import gen_net, link_ports, link_powers, read, series, slacks, val
from dst.props.c17 import carriers_ok, select, simplify  # noqa: F401

RUNS = {"quick": 1200, "thorough": 40000}
BUDGET = {"quick": 50, "thorough": 1500}
SHRINK = ["ops", "net"]
RULE = (
    "random AC networks (islands, typed and tap-changing and phase-shifting transformers in both models, shunts, links, PV/PQ/slack generators, islands without generators) with overloaded snapshots between easy ones; histories of power flows "
    "(all, some or one snapshot, any order, seeds from earlier results, slack distributed by p_set, p_nom or custom weights) and changed inputs, with an inexact, failing or interrupted linear solver; every converged snapshot is "
    "checked against own admittances, set points and slack shares, and solved again alone in a copy; non-trivial: a converged snapshot with losses"
)
STATES = "distinct (islands, branches, options, converged pattern, fault) tuples"
REAL = ["pypsa.pf", "pypsa.networks (topology)", "scipy"]
STUB = ["quality and failures of the sparse linear solver (pypsa.pf.spsolve)", "interrupt delivery (line events)"]
ASSUMPTIONS = ["series impedances are positive and sub-networks are AC (documented)", "the control of generators is data which a power flow may update"]
EXPECT_PROBES = ["converged", "diverged", "mixed-convergence", "alone", "subset", "use-seed", "distributed", "custom-weights", "single-bus", "no-generator", "t-model", "tap", "phase-shift", "shunt", "pv", "must-converge", "inexact-solver", "solver-error", "interrupted", "skip-pre", "order"]
SIM_TIME = "snapshots of non-linear power flow"


def warmup():
    import pypsa  # noqa: F401


def generate(rng, tier):
    steps, buses, ns = gen_net(rng, dc=False, scale=rng.choice([10.0, 30.0, 60.0]))
    names = {}
    for s in steps:
        if s[0] == "add":
            names.setdefault(s[1], []).append(s[2])
    hard = [rng.random() < 0.2 for _ in range(ns)]
    if any(hard) and names.get("Load"):
        l = rng.choice(names["Load"])
        f = rng.choice([20, 300, 3000])
        steps.append(["series", "Load", l, "p_set", [val(rng, 20, 30) * f if h else val(rng, 0, 20) for h in hard]])
    if rng.random() < 0.3:
        for s in steps:
            if s[0] == "add" and s[1] == "Load" and rng.random() < 0.5:
                s[4]["q_set"] = [val(rng, 0, 6) for _ in range(ns)]
    ops = []
    for _ in range(rng.randint(1, 3 if tier == "quick" else 6)):
        for _ in range(rng.choice([0, 0, 1, 2]) if ops else 0):
            cls = rng.choice(["Generator", "Load", "Link", "Line", "Bus", "Generator"])
            if not names.get(cls):
                continue
            c = rng.choice(names[cls])
            a, v = {
                "Line": ("active", rng.random() < 0.5),
                "Bus": ("v_mag_pu_set", val(rng, 0.95, 1.05)),
                "Generator": rng.choice([("control", rng.choice(["PQ", "PV", "Slack"])), ("p_set", val(rng, 1, 30)), ("active", rng.random() < 0.5), ("q_set", val(rng, -3, 3)), ("p_nom", val(rng, 0, 30))]),
            }.get(cls, ("p_set", val(rng, 0, 15)))
            ops.append(["set", cls, c, a, v])
        ops.append(gen_pf(rng))
    return {"net": steps, "ops": ops, "pick": rng.getrandbits(16)}


def gen_pf(rng):
    kind = gen.weighted(rng, [("all", 4), ("subset", 3), ("one", 1)])
    d = {"kind": kind, "idx": None if kind == "all" else [rng.randrange(8) for _ in range(rng.randint(1, 3))]}
    d["reverse"] = rng.random() < 0.2
    d["skip_pre"] = rng.random() < 0.2
    d["use_seed"] = rng.random() < 0.25
    d["x_tol"] = rng.choice([1e-6, 1e-6, 1e-4, 1e-8])
    d["slack"] = gen.weighted(rng, [("no", 5), ("p_set", 2), ("p_nom", 1), ("gens", 1), ("buses", 1), ("mixed", 1)])
    d["weights"] = rng.getrandbits(16)
    f = gen.weighted(rng, [(None, 6), ("inexact", 1.5), ("nan", 1), ("error", 1), ("interrupt", 1)])
    if f == "interrupt":
        d["fault"] = {"kind": f, **gen_interrupt(rng, 1200)}
    elif f:
        d["fault"] = {"kind": f, "at": rng.randrange(8), "seed": rng.getrandbits(16), "eps": rng.choice([1e-3, 1e-2, 0.1])}
    return ["pf", d]


# ------------------------------------------------------- own admittances


def two_port(b):
    z, y = b["z"], b["y"]
    if b["model"] == "t" and y != 0:
        za = z / 2
        A, B = 1 + za * y, za * (2 + za * y)
        z, y = B, 2 * (A - 1) / B
    ys, tau = 1 / z, b["tap"]
    th, tl = (tau, 1.0) if b["side"] == 0 else (1.0, tau)
    e = cmath.exp(1j * b["shift"])
    return (ys + y / 2) / th**2, -ys * e / (th * tl), -ys / e / (th * tl), (ys + y / 2) / tl**2


def branch_powers(b, v0, v1):
    y00, y01, y10, y11 = two_port(b)
    return v0 * (y00 * v0 + y01 * v1).conjugate(), v1 * (y10 * v0 + y11 * v1).conjugate()


class Data:
    """Inputs of the active components, read before the power flow."""

    def __init__(self, n, pos):
        self.d = read(n)
        self.slack, self.lists = slacks(n, self.d)
        self.bus_of = {}
        self.sign = {}
        self.set = {}
        self.links = {}
        for cls in ("Generator", "Load", "StorageUnit", "Store"):
            for name, r in n.static(cls).iterrows():
                if not r.active:
                    continue
                self.bus_of[cls, name] = r.bus
                self.sign[cls, name] = r.sign
                p, q = series(n, cls, name, "p_set"), series(n, cls, name, "q_set")
                for t in pos:
                    self.set[cls, name, t] = p[t], q[t]
        self.shunts = [(k, r.bus, complex(r.g, r.b) * n.buses.v_nom[r.bus] ** 2) for k, r in n.shunt_impedances.iterrows() if r.active]
        for t in pos:
            self.links[t] = [(k, *x) for k in n.links.index for x in link_powers(n, k, t)]
        self.vset = {(b, t): v for b in n.buses.index for t, v in enumerate(series(n, "Bus", b, "v_mag_pu_set"))}
        # voltage controlled buses and their generators
        self.ctrl = {}
        demoted = set()
        for isl in self.lists:
            s = [k for k in n.generators.index if ("Generator", k) in self.bus_of and n.generators.bus[k] in isl and n.generators.control[k] == "Slack"]
            demoted |= set(s[1:])
        for k in n.generators.index:
            if ("Generator", k) in self.bus_of and (n.generators.control[k] == "PV" or k in demoted):
                self.ctrl.setdefault(n.generators.bus[k], k)
        for b, g in self.slack.items():
            self.ctrl[b] = g
        self.p_nom = {k: n.generators.p_nom[k] for k in n.generators.index}

    def isl(self, b):
        return next(i for i in self.lists if b in i)


def own_newton(D, isl, t, x_tol):
    """Does the textbook iteration converge fast from a flat start (concentrated slack)?"""
    ref = next(b for b in isl if b in D.slack)
    pos = {b: i for i, b in enumerate(isl)}
    Y = np.zeros((len(isl), len(isl)), complex)
    for b in D.d["branches"]:
        if b["bus0"] in pos:
            i, j = pos[b["bus0"]], pos[b["bus1"]]
            y00, y01, y10, y11 = two_port(b)
            Y[i, i] += y00
            Y[i, j] += y01
            Y[j, i] += y10
            Y[j, j] += y11
    for _, b, y in D.shunts:
        if b in pos:
            Y[pos[b], pos[b]] += y
    S = np.zeros(len(isl), complex)
    for k, b in D.bus_of.items():
        if b in pos:
            S[pos[b]] += D.sign[k] * complex(*D.set[(*k, t)])
    for _, _, b, p in D.links[t]:
        if b in pos:
            S[pos[b]] -= p
    pvpq = [pos[b] for b in isl if b != ref]
    pq = [pos[b] for b in isl if b not in D.ctrl]
    vm = np.array([D.vset[b, t] if b in D.ctrl else 1.0 for b in isl])
    va = np.zeros(len(isl))
    for it in range(10):
        V = vm * np.exp(1j * va)
        F = V * np.conj(Y @ V) - S
        f = np.r_[F[pvpq].real, F[pq].imag]
        if not len(f) or np.abs(f).max() < min(x_tol, 1e-7) / 10:
            return it <= 8 and vm.min() > 0.5
        if not np.isfinite(f).all():
            return False
        I = Y @ V
        dVa = 1j * np.diag(V) @ np.conj(np.diag(I) - Y @ np.diag(V))
        E = np.diag(V / np.abs(V))
        dVm = E @ np.conj(np.diag(I)) + np.diag(V) @ np.conj(Y @ E)
        J = np.block([[dVa[np.ix_(pvpq, pvpq)].real, dVm[np.ix_(pvpq, pq)].real], [dVa[np.ix_(pq, pvpq)].imag, dVm[np.ix_(pq, pq)].imag]])
        try:
            dx = np.linalg.solve(J, f)
        except np.linalg.LinAlgError:
            return False
        if np.linalg.cond(J) > 1e8:
            return False
        va[pvpq] -= dx[: len(pvpq)]
        vm[pq] -= dx[len(pvpq) :]
    return False


# -------------------------------------------------------------- linear solver


class LinearSolver:
    """Seam at pypsa.pf.spsolve."""

    def __init__(self, ctx, fault):
        self.ctx, self.f, self.k = ctx, fault or {}, 0
        self.rng = np.random.RandomState(self.f.get("seed", 0))

    def __enter__(self):
        import pypsa.pf

        self.real = pypsa.pf.spsolve
        pypsa.pf.spsolve = self
        return self

    def __exit__(self, *exc):
        import pypsa.pf

        pypsa.pf.spsolve = self.real
        return False

    def __call__(self, A, b, *a, **k):
        x = self.real(A, b, *a, **k)
        kind, self.k = self.f.get("kind"), self.k + 1
        if kind == "inexact":
            self.ctx.fault("solver.inexact")
            self.ctx.probe("inexact-solver")
            return x * (1 + self.f["eps"] * self.rng.uniform(-1, 1, np.shape(x)))
        if self.k - 1 == self.f.get("at"):
            if kind == "nan":
                self.ctx.fault("solver.singular")
                return x * np.nan
            if kind == "error":
                self.ctx.fault("solver.memory-error")
                raise MemoryError("simulated: out of memory in the factorization")
        return x


# ------------------------------------------------------------------ execution


def execute(trace, ctx):
    n = gen.build(trace["net"])
    if not len(n.buses) or not carriers_ok(n):
        raise Skip("no network")
    if any(read(n)["carrier"][b["bus0"]] != "AC" for b in read(n)["branches"]):
        raise Skip("not AC")
    S = {"clean": False}
    for op in trace["ops"]:
        if op[0] == "set":
            if gen.apply_step(n, op) and op[3] not in ("p_set", "q_set"):
                S["clean"] = False
            continue
        pf(ctx, n, S, op[1], trace["pick"])


def weights(n, D, spec, seed):
    """(argument, {(gen): weight} per island or None for the default, kind)"""
    rng = np.random.RandomState(seed)
    n.determine_network_topology()
    arg, out = {}, {}
    for isl in D.lists:
        sub = n.buses.sub_network[isl[0]]
        gens = [k for (c, k), b in D.bus_of.items() if c == "Generator" and b in isl]
        how = spec if spec != "mixed" else ["gens", "buses", "p_set", "p_nom"][rng.randint(4)]
        if not gens or how in ("p_set", "p_nom"):
            arg[sub] = how if how in ("p_set", "p_nom") else "p_set"
            out[tuple(isl)] = arg[sub]
        elif how == "gens":
            use = [g for g in gens if rng.rand() < 0.7] or gens[:1]
            w = {g: round(rng.uniform(0.1, 2), 3) for g in use}
            arg[sub] = w if rng.rand() < 0.5 else pd.Series(w)
            out[tuple(isl)] = w
        else:
            bs = sorted({D.bus_of["Generator", g] for g in gens})
            use = [b for b in bs if rng.rand() < 0.7] or bs[:1]
            w = {b: round(rng.uniform(0.1, 2), 3) for b in use}
            arg[sub] = w if rng.rand() < 0.5 else pd.Series(w)
            out[tuple(isl)] = shares_of(D, gens, w)
    return arg, out


def shares_of(D, gens, busw, attr=None):
    """Weights of buses as weights of generators: within a bus by p_nom, otherwise evenly."""
    out = {}
    for b, w in busw.items():
        mine = [g for g in gens if D.bus_of["Generator", g] == b]
        tot = sum(D.p_nom[g] for g in mine)
        for g in mine:
            out[g] = w * (D.p_nom[g] / tot if tot else 1 / len(mine))
    return out


def gen_shares(D, isl, how, t):
    """{generator: share of the slack of its island}"""
    gens = [k for (c, k), b in D.bus_of.items() if c == "Generator" and b in isl]
    if isinstance(how, dict):
        w = how
    elif how == "p_nom":
        w = {g: D.p_nom[g] for g in gens}
    else:
        w = {g: D.set["Generator", g, t][0] for g in gens}
    tot = sum(w.values())
    if not tot:
        if len(isl) == 1:  # evenly
            return {g: 1 / len(gens) for g in gens}
        return None
    return {g: w.get(g, 0.0) / tot for g in gens}


def pf(ctx, n, S, o, pick):
    arg, pos = select(n, o["idx"], o["kind"])
    if o["reverse"] and isinstance(arg, pd.Index):
        arg, pos = arg[::-1], pos[::-1]
    elif o["reverse"] and arg is None:
        arg, pos = n.snapshots[::-1], pos[::-1]
    ctx.probe("order", pos != sorted(pos))
    ctx.probe("subset", arg is not None)
    D = Data(n, range(len(n.snapshots)))
    kw = {"use_seed": o["use_seed"], "x_tol": o["x_tol"]}
    how = None
    if o["slack"] != "no":
        kw["distribute_slack"] = True
        if o["slack"] in ("p_set", "p_nom"):
            kw["slack_weights"] = o["slack"]
            how = {tuple(i): o["slack"] for i in D.lists}
        else:
            kw["slack_weights"], how = weights(n, D, o["slack"], o["weights"])
            S["clean"] = False
            ctx.probe("custom-weights")
    skip = bool(o["skip_pre"] and S["clean"])
    kw["skip_pre"] = skip
    if o["use_seed"]:
        ctx.probe("use-seed")
    ctx.probe("skip-pre", skip)
    before = gen.fingerprint(n, inputs_only=True)
    old = {k: n.dynamic(c)[a].copy() for k in (("Bus", "v_mag_pu"), ("Bus", "v_ang"), ("Line", "p0"), ("Generator", "p")) for c, a in [k]}
    twin = n.copy()
    f = o.get("fault")
    res = exc = None
    with LinearSolver(ctx, f):
        if f and f["kind"] == "interrupt":
            it = Interrupt(ctx, f["at"], f["exc"], modules=("pypsa/pf.py",))
            try:
                with it:
                    res = n.pf(arg, **kw)
            except (KeyboardInterrupt, SystemExit, MemoryError) as e:
                if "simulated" not in str(e):
                    raise
                exc = e
            except Exception as e:  # noqa: BLE001
                exc = e
            ctx.probe("interrupted", bool(it.fired))
        else:
            try:
                res = n.pf(arg, **kw)
            except Exception as e:  # noqa: BLE001
                exc = e
    if exc is not None and "simulated" in str(exc):
        # inputs survive, and the next power flow is as good as ever
        ctx.probe("solver-error", "factorization" in str(exc))
        diff = gen.inputs_diff(before, gen.fingerprint(n, inputs_only=True))
        ctx.check(not diff, "inputs-changed", lambda: diff[1][:500])
        D = Data(n, range(len(n.snapshots)))
        kw["skip_pre"] = False
        f, exc = None, None
        if o["use_seed"]:
            kw["use_seed"] = False
        try:
            res = n.pf(arg, **kw)
        except Exception as e:  # noqa: BLE001
            exc = e
    if exc is not None:
        ok = isinstance(exc, ValueError) and "slack weights" in str(exc)
        ctx.check(ok, f"unexpected-exception:pf:{type(exc).__name__}", lambda: short_tb(exc))
        S["clean"] = False
        return
    S["clean"] = True
    ctx.sim_time += len(pos)
    diff = gen.inputs_diff(before, gen.fingerprint(n, inputs_only=True))
    ctx.check(not diff, "inputs-changed", lambda: diff[1][:500])
    sns = n.snapshots[pos]
    for key in ("converged", "n_iter", "error"):
        ctx.check(list(res[key].index) == list(sns) and set(res[key].columns) == set(n.sub_networks.index), "report", key)
    for (c, a), df in old.items():
        rest = [t for t in range(len(n.snapshots)) if t not in pos]
        now = n.dynamic(c)[a]
        for name in df.columns.intersection(now.columns):
            ctx.check(np.array_equal(df[name].values[rest], now[name].values[rest], equal_nan=True), "other-snapshots", f"{c} {name} {a}")
    pattern = []
    for j, t in enumerate(pos):
        for isl in D.lists:
            sub = n.buses.sub_network[isl[0]]
            conv = bool(res["converged"][sub].iat[j])
            pattern.append(conv)
            ctx.probe("converged" if conv else "diverged")
            if conv:
                err = float(res["error"][sub].iat[j])
                ctx.check(err <= o["x_tol"], "report:error", f"{err}")
                check_state(ctx, n, D, isl, t, o, how)
            elif not f and not o["use_seed"] and how is None:
                ctx.check(not own_newton(D, isl, t, o["x_tol"]), "must-converge", f"{isl} at {t}, error {res['error'][sub].iat[j]}, {res['n_iter'][sub].iat[j]} iterations")
    if not f and not o["use_seed"] and how is None and all(pattern):
        ctx.probe("must-converge")
    ctx.probe("mixed-convergence", len(set(pattern)) > 1)
    ctx.state(len(D.lists), len(D.d["branches"]), o["slack"], o["use_seed"], tuple(pattern), f and f["kind"])
    ctx.log("pf", pattern)
    # a snapshot alone
    if not f and not o["use_seed"] and len(n.snapshots) > 1:
        k = pick % len(pos)
        kw["skip_pre"] = False
        lone = [sns[k]]
        if isinstance(n.snapshots, pd.MultiIndex):
            lone = sns[[k]]
        alone = ctx.call("pf-alone", twin.pf, lone, **kw)
        ctx.probe("alone")
        for isl in D.lists:
            sub = n.buses.sub_network[isl[0]]
            a, b = bool(alone["converged"][sub].iat[0]), bool(res["converged"][sub].iat[k])
            ctx.check(a == b, "alone:convergence", lambda: f"{isl}: {b}, alone {a}")
            if a:
                for bus in isl:
                    for attr in ("v_mag_pu", "v_ang", "p", "q"):
                        x, y = n.dynamic("Bus")[attr][bus].iat[pos[k]], twin.dynamic("Bus")[attr][bus].iat[pos[k]]
                        ctx.check(abs(x - y) <= 1e-6 * max(1, abs(x)), "alone:results", lambda: f"{bus} {attr}: {x}, alone {y}")


def check_state(ctx, n, D, isl, t, o, how):
    """Recorded results of a converged snapshot satisfy the equations."""
    get = lambda c, a, k: float(n.dynamic(c)[a][k].iat[t])  # noqa: E731
    V = {b: get("Bus", "v_mag_pu", b) * cmath.exp(1j * get("Bus", "v_ang", b)) for b in isl}
    out = dict.fromkeys(isl, 0j)
    scale = 1.0
    loss = 0.0
    for b in D.d["branches"]:
        if b["bus0"] not in V:
            continue
        cls, name = b["key"]
        s0, s1 = branch_powers(b, V[b["bus0"]], V[b["bus1"]])
        scale = max(scale, abs(s0), abs(s1))
        for a, x in (("p0", s0.real), ("q0", s0.imag), ("p1", s1.real), ("q1", s1.imag)):
            got = get(cls, a, name)
            ctx.check(abs(got - x) <= 1e-6 * max(1, abs(s0), abs(s1)), f"branch:{cls}", lambda: f"{name} {a} at {t}: {got} instead of {x}")
        out[b["bus0"]] += s0
        out[b["bus1"]] += s1
        loss += (s0 + s1).real
        ctx.probe("t-model", b["model"] == "t" and b["y"] != 0)
        ctx.probe("tap", b["tap"] != 1)
        ctx.probe("phase-shift", b["shift"] != 0)
    if loss > 1e-6:
        ctx.nontrivial = True
    ctx.probe("single-bus", len(isl) == 1)
    shunt = dict.fromkeys(isl, 0j)
    for k, b, y in D.shunts:
        if b in V:
            s = abs(V[b]) ** 2 * y.conjugate()
            p, q = get("ShuntImpedance", "p", k), get("ShuntImpedance", "q", k)
            ctx.check(abs(p - s.real) < 1e-6 * max(1, abs(s)) and abs(q + s.imag) < 1e-6 * max(1, abs(s)), "shunt", lambda: f"{k} at {t}: {p} {q} instead of {s}")
            shunt[b] += s
            ctx.probe("shunt", y != 0)
    links = dict.fromkeys(isl, 0.0)
    for k, port, b, p in D.links[t]:
        got = get("Link", "p" + port, k)
        ctx.check(abs(got - p) <= 1e-9 * max(1, abs(p)), "link", lambda: f"{k} p{port} at {t}: {got} instead of {p}")
        if b in links:
            links[b] += p
    # one ports: set points, except for the slack and for reactive power of voltage controlled buses
    tol = max(3 * o["x_tol"], 1e-6 * scale)
    ref = next(b for b in isl if b in D.slack)
    gref = D.slack[ref]
    dispatch = dict.fromkeys(isl, 0j)
    free = {g for b, g in D.ctrl.items() if b in V and g is not None}
    gens = [k for (c, k), b in D.bus_of.items() if c == "Generator" and b in V]
    if gref is None:
        ctx.probe("no-generator")
    for (c, k), b in D.bus_of.items():
        if b not in V:
            continue
        p, q = get(c, "p", k), get(c, "q", k)
        ps, qs = D.set[c, k, t]
        dispatch[b] += D.sign[c, k] * complex(p, q)
        if c != "Generator" or (how is None and k != gref):
            ctx.check(abs(p - ps) <= 1e-9 * max(1, abs(ps)), "set-point:p", lambda: f"{c} {k} at {t}: {p} instead of {ps}")
        if c != "Generator" or k not in free:
            ctx.check(abs(q - qs) <= 1e-9 * max(1, abs(qs)), "set-point:q", lambda: f"{c} {k} at {t}: {q} instead of {qs}")
    for b in isl:
        if b in D.ctrl:
            v = get("Bus", "v_mag_pu", b)
            ctx.check(abs(v - D.vset[b, t]) < 1e-9, "set-point:v", lambda: f"{b} at {t}: {v} instead of {D.vset[b, t]}")
            ctx.probe("pv", b != ref)
    ctx.check(abs(cmath.phase(V[ref]) if abs(V[ref]) else 0) < 1e-9, "set-point:angle", ref)
    for b in isl:
        mis = dispatch[b] - links[b] - shunt[b] - out[b]
        if gref is None and b == ref:
            continue  # nothing can take the slack
        ctx.check(abs(mis) <= tol * 2, "balance", lambda: f"{b} at {t}: dispatch {dispatch[b]}, links {links[b]}, shunts {shunt[b]}, branches {out[b]}")
    # recorded nodal power: generation less load and links
    for b in isl:
        s = complex(get("Bus", "p", b), get("Bus", "q", b))
        if len(isl) == 1:
            ctx.check(abs(s) < 1e-9, "bus-power", f"{b}: {s}")
        else:
            ctx.check(abs(s - out[b] - shunt[b]) <= tol * 2, "bus-power", lambda: f"{b} at {t}: {s} instead of {out[b] + shunt[b]}")
    if how is not None and gens:
        sh = gen_shares(D, isl, how[tuple(isl)], t)
        delta = {g: D.sign["Generator", g] * (get("Generator", "p", g) - D.set["Generator", g, t][0]) for g in gens}
        tot = sum(delta.values())
        ctx.check(sh is not None or abs(tot) <= tol, "slack-shares", f"{delta} without weights")
        if sh is not None:
            ctx.probe("distributed")
            for g in gens:
                # mismatches up to the tolerance are assigned where they occur
                ctx.check(abs(delta[g] - sh[g] * tot) <= tol * (2 + len(isl)), "slack-shares", lambda: f"{delta} at {t} instead of shares {sh} of {tot}")
