"""C17: linear power flow after any history equals that of a fresh network and the documented equations."""

from __future__ import annotations

import math

import numpy as np
import pandas as pd

from dst import gen, pfgen
from dst.core import Skip, short_tb
from dst.flow import islands, linear_flow
from dst.interrupt import Interrupt, gen_interrupt
from dst.pfgen import gen_new_branch, gen_link, gen_net, gen_oneport, gen_shunt, link_ports, link_powers, read, series, slacks, val, z_linear

RUNS = {"quick": 1200, "thorough": 40000}
BUDGET = {"quick": 50, "thorough": 1500}
SHRINK = ["ops", "net"]
RULE = (
    "random AC/DC networks (several islands, typed lines and transformers, phase shifters, tap changers, shunts, multi-port links, inactive components, investment periods) and histories of "
    "outages, reactivations, additions, removals, renames, changed parameters, re-timing, copies, topology determinations (also of one investment period), contingency factors and (non-)linear power flows of all or some snapshots, "
    "with interrupts at random lines of a power flow; after every completed linear power flow all results are compared with own equations, and at the end with a network built anew; non-trivial: a branch carries power after at least one edit"
)
STATES = "distinct (last operation kinds, islands, branches, skip_pre) tuples"
REAL = ["pypsa.pf", "pypsa.networks (topology, add, remove, copy)", "pypsa.graph", "pypsa.contingency", "scipy"]
STUB = ["interrupt delivery (line events)"]
ASSUMPTIONS = ["series impedances are positive and no sub-network mixes carriers", "the control of generators is data which a power flow may update (documented: the slack chosen by PyPSA is recorded)"]
EXPECT_PROBES = ["lpf", "lpf-subset", "lpf-skip-pre", "interrupted", "slack-moved", "several-islands", "dc", "phase-shift", "typed", "shunt", "link-multiport", "inactive", "period-topology", "copy", "cycles", "ptdf", "fresh", "pf", "no-generator", "after-deactivation"]
SIM_TIME = "snapshots of linear power flow"


def warmup():
    import pypsa  # noqa: F401


def generate(rng, tier):
    steps, buses, ns = gen_net(rng)
    P = {"buses": dict(buses), "ns": ns, "k": 100}
    names = {}
    for s in steps:
        if s[0] == "add":
            names.setdefault(s[1], []).append(s[2])
    multi = steps[0][1]["kind"] == "multi"
    if multi:
        for s in steps:
            if s[0] == "add" and s[1] in ("Line", "Transformer") and rng.random() < 0.5:
                s[3]["build_year"] = rng.choice([0, 2020, 2030, 2040])
                s[3]["lifetime"] = rng.choice([5.0, 15.0, math.inf]) if False else rng.choice([5.0, 15.0, 1000.0])
    ops = []
    for _ in range(rng.randint(2, 10 if tier == "quick" else 22)):
        ops.append(gen_op(rng, P, names, multi))
        if rng.random() < 0.6:
            ops.append(gen_lpf(rng))
    ops.append(["lpf", None, False])
    return {"net": steps, "ops": ops}


def gen_lpf(rng):
    kind = gen.weighted(rng, [("all", 4), ("subset", 2), ("one", 1)])
    idx = None if kind == "all" else [rng.randrange(8) for _ in range(1 if kind == "one" else rng.randint(1, 3))]
    return ["lpf", idx, rng.random() < 0.3, kind]


def gen_op(rng, P, names, multi):
    order = list(P["buses"])
    ns = P["ns"]
    P["k"] += 1
    k = P["k"]

    def some(*classes):
        c = [(c, n) for c in classes for n in names.get(c, [])]
        return rng.choice(c) if c else None

    what = gen.weighted(
        rng,
        [("active", 4), ("param", 2), ("pset", 3), ("addbr", 2), ("add1", 2), ("remove", 2), ("topology", 1.5), ("copy", 0.7), ("pf", 1), ("ptdf", 1), ("cont", 0.8),
         ("interrupt", 1.5), ("rename", 0.7), ("control", 0.7), ("addbus", 0.7), ("snapshots", 0.4), ("relink", 0.6), ("sub", 0.6)],
    )  # fmt: skip
    if what == "active":
        c = some("Line", "Transformer", "Line", "Transformer", "Generator", "Load", "Link", "StorageUnit", "Store", "ShuntImpedance")
        if c:
            return ["set", *c, "active", rng.random() < 0.4]
    if what == "param":
        c = some("Line", "Transformer", "ShuntImpedance", "Bus")
        if c:
            cls, n = c
            a, v = {
                "Line": rng.choice([("x", val(rng, 0.5, 30)), ("r", val(rng, 0.1, 8)), ("type", ""), ("length", val(rng, 1, 50)), ("num_parallel", 3.0)]),
                "Transformer": rng.choice([("x", val(rng, 0.02, 0.3)), ("s_nom", 150.0), ("tap_ratio", val(rng, 0.9, 1.1)), ("phase_shift", val(rng, -30, 30)), ("type", ""), ("tap_position", 1)]),
                "ShuntImpedance": ("g", val(rng, 0, 3e-4)),
                "Bus": ("v_nom", rng.choice([110.0, 220.0])) if rng.random() < 0.3 else ("v_mag_pu_set", 1.02),
            }[cls]
            return ["set", cls, n, a, v]
    if what in ("pset", "param", "active"):
        c = some("Generator", "Load", "Link", "StorageUnit", "Store")
        if c:
            if rng.random() < 0.5:
                return ["set", *c, "p_set", val(rng, -30, 30)]
            return ["series", *c, "p_set", [val(rng, -30, 30) for _ in range(ns)]]
    if what == "control":
        c = some("Generator")
        if c:
            return ["set", *c, "control", rng.choice(["PQ", "PV", "Slack"])]
    if what == "addbr" and len(order) > 1:
        b0, b1 = rng.sample(order, 2)
        if P["buses"][b0][0] == P["buses"][b1][0]:
            s = gen_new_branch(rng, P["buses"], b0, b1, f"l{k}")
            if rng.random() < 0.3 and names.get(s[1]):
                s[2] = rng.choice(names[s[1]])  # maybe one which was removed before
            names.setdefault(s[1], []).append(s[2])
            return s
    if what == "addbus":
        c, v, g = P["buses"][rng.choice(order)]
        b = f"n{k}"
        P["buses"][b] = (c, v, g)
        names["Bus"].append(b)
        return ["add", "Bus", b, {"v_nom": v, "carrier": c}, {}]
    if what in ("add1", "addbr"):
        b = rng.choice(order)
        cls = rng.choice(["Generator", "Generator", "Load", "StorageUnit", "Store", "ShuntImpedance", "Link"])
        if cls == "Link":
            s = gen_link(rng, order, f"k{k}", ns)
        elif cls == "ShuntImpedance":
            s = gen_shunt(rng, b, f"h{k}")
        else:
            s = gen_oneport(rng, cls, b, f"{cls[0].lower()}{k}", ns, 30.0)
        names.setdefault(cls, []).append(s[2])
        return s
    if what == "remove":
        c = some("Line", "Transformer", "Generator", "Load", "Link", "StorageUnit", "Store", "ShuntImpedance") if rng.random() < 0.85 else some("Bus")
        if c:
            return ["remove", *c]
    if what == "rename":
        c = some("Bus", "Line", "Generator", "Link")
        if c:
            names[c[0]].append(f"r{k}")
            if c[0] == "Bus":
                P["buses"][f"r{k}"] = P["buses"][c[1]]
            return ["rename", *c, f"r{k}"]
    if what == "relink":
        c = some("Line", "Generator", "Load", "Link")
        if c:
            return ["relink", *c, rng.choice(order)]
    if what == "snapshots" and not multi:
        return ["snapshots", gen.gen_snapshots(rng, 4, ("int", "dt", "str"))]
    if what == "pf":
        return ["pf", rng.random() < 0.2]
    if what == "interrupt":
        it = gen_interrupt(rng, 700)
        return ["interrupt", it["at"], it["exc"], rng.choice(["lpf", "lpf", "topology", "pf"])]
    if what == "copy":
        return ["copy"]
    if what in ("ptdf", "cont", "sub"):
        return [what, rng.getrandbits(16)]
    return ["topology", rng.choice([2020, 2030, 2040]) if multi and rng.random() < 0.7 else None]


# ------------------------------------------------------------------ execution


class State:
    def __init__(self, n):
        self.n = n
        self.clean = False  # topology and dependent values are those of the data


def carriers_ok(n):
    car = n.buses.carrier
    for c in ("Line", "Transformer"):
        st = n.static(c)
        for b0, b1 in zip(st.bus0, st.bus1):
            if b0 not in car.index or b1 not in car.index or car[b0] != car[b1] or b0 == b1:
                return False
    for c in ("Generator", "Load", "StorageUnit", "Store", "ShuntImpedance"):
        if not n.static(c).bus.isin(n.buses.index).all():
            return False
    for p in ["0", "1", *link_ports(n)[1:]]:
        if not (n.links["bus" + p].isin(n.buses.index) | (n.links["bus" + p] == "")).all():
            return False
    return True


def users(n, bus):
    return any(
        (n.static(c)[col] == bus).any()
        for c in ("Line", "Transformer", "Link", "Generator", "Load", "StorageUnit", "Store", "ShuntImpedance")
        for col in n.static(c).columns
        if col.startswith("bus")
    )


def edit(ctx, S, op):
    n, what = S.n, op[0]
    if what in ("set", "series"):
        if op[1] == "Bus" and op[3] == "v_nom":
            # only together with what is attached to it
            ctx.attempt(lambda: None)
        if op[3] == "type" and op[2] in n.static(op[1]).index and not (n.static(op[1]).at[op[2], "x"] > 0):
            return
        if op[3] == "num_parallel" and not n.static(op[1]).get("type", pd.Series()).get(op[2]):
            return
        if gen.apply_step(n, op):
            if op[3] != "p_set":
                S.clean = False
            if op[3] == "active" and not op[4]:
                ctx.probe("after-deactivation")
    elif what == "add":
        if op[1] in ("Line", "Transformer") and op[3]["bus0"] in n.buses.index and op[3]["bus1"] in n.buses.index:
            if n.buses.carrier[op[3]["bus0"]] != n.buses.carrier[op[3]["bus1"]]:
                return
            if op[1] == "Transformer" and n.buses.carrier[op[3]["bus0"]] == "DC":
                return
        if gen.apply_step(n, op):
            S.clean = False
    elif what == "remove":
        if op[2] not in n.static(op[1]).index or (op[1] == "Bus" and (users(n, op[2]) or len(n.buses) == 1)):
            return
        ctx.call("remove", n.remove, op[1], op[2])
        S.clean = False
    elif what == "rename":
        if op[2] not in n.static(op[1]).index or op[3] in n.static(op[1]).index:
            return
        ctx.call("rename", n.rename_component_names, op[1], **{op[2]: op[3]})
        S.clean = False
    elif what == "relink":
        st = n.static(op[1])
        col = "bus" if op[1] in ("Generator", "Load") else "bus1"
        if op[2] not in st.index or op[3] not in n.buses.index:
            return
        if col == "bus1" and op[1] == "Line" and (op[3] == st.at[op[2], "bus0"] or n.buses.carrier[op[3]] != n.buses.carrier[st.at[op[2], "bus0"]]):
            return
        st.loc[op[2], col] = op[3]
        S.clean = False
    elif what == "snapshots":
        ctx.call("set_snapshots", n.set_snapshots, gen.make_snapshots(op[1]))
        S.clean = False
    elif what == "copy":
        S.n = ctx.call("copy", n.copy)
        S.clean = False
        ctx.probe("copy")


def select(n, idx, kind):
    if idx is None:
        return None, list(range(len(n.snapshots)))
    pos = sorted({i % len(n.snapshots) for i in idx})
    if kind == "one" and not isinstance(n.snapshots, pd.MultiIndex):
        return n.snapshots[pos[0]], pos[:1]
    return n.snapshots[pos], pos


def execute(trace, ctx):
    S = State(gen.build(trace["net"]))
    if not len(S.n.buses) or not carriers_ok(S.n):
        raise Skip("no network")
    hist = []
    edited = False
    for op in trace["ops"]:
        n = S.n
        hist.append(op[0])
        if op[0] == "lpf":
            lpf(ctx, S, op[1], op[2], op[3] if len(op) > 3 else "subset", hist[-4:], edited)
        elif op[0] == "topology":
            topology(ctx, S, op[1])
        elif op[0] in ("ptdf", "cont", "sub"):
            extra(ctx, S, op)
        elif op[0] == "pf":
            if runnable_pf(n):
                _, exc = ctx.attempt(n.pf, use_seed=op[1])
                if exc is not None:
                    ctx.check(isinstance(exc, (ValueError, np.linalg.LinAlgError)), f"unexpected-exception:pf:{type(exc).__name__}", lambda: short_tb(exc))
                ctx.probe("pf")
                S.clean = False
        elif op[0] == "interrupt":
            fn = {"lpf": n.lpf, "topology": n.determine_network_topology, "pf": n.pf if runnable_pf(n) else n.lpf}[op[3]]
            it = Interrupt(ctx, op[1], op[2], modules=("pypsa/pf.py", "pypsa/graph.py", "pypsa/networks.py"))
            try:
                with it:
                    fn()
            except (KeyboardInterrupt, SystemExit, MemoryError) as e:
                if "simulated" not in str(e):
                    raise
            if it.fired:
                ctx.probe("interrupted")
                ctx.log("interrupted", it.fired)
            S.clean = False
        else:
            edit(ctx, S, op)
            edited = True
    fresh(ctx, S.n)


def runnable_pf(n):
    """Documented: only AC networks."""
    d = read(n)
    return not any(d["carrier"][b["bus0"]] == "DC" for b in d["branches"])


def close(ctx, got, exp, what, where, scale):
    got = float(got)
    ctx.check(math.isfinite(got) and abs(got - exp) <= 1e-6 * scale, what, lambda: f"{where}: {got!r} instead of {exp!r}")


def output(n, cls, attr, name, t):
    return n.dynamic(cls)[attr][name].iat[t]


def lpf(ctx, S, idx, skip_pre, kind, hist, edited):
    n = S.n
    d = read(n)
    slack, lists = slacks(n, d)
    arg, pos = select(n, idx, kind)
    skip_pre = bool(skip_pre and S.clean)
    data = {t: inputs(n, t) for t in pos}
    ctx.call("lpf", n.lpf, arg, skip_pre=skip_pre)
    S.clean = True
    ctx.probe("lpf")
    ctx.probe("lpf-subset", arg is not None)
    ctx.probe("lpf-skip-pre", skip_pre)
    ctx.probe("several-islands", len([i for i in lists if len(i) > 1]) > 1)
    ctx.probe("dc", any(d["carrier"][b["bus0"]] == "DC" for b in d["branches"]))
    ctx.probe("phase-shift", any(b["shift"] for b in d["branches"]))
    ctx.probe("typed", bool((n.lines.type != "").any() or (n.transformers.type != "").any()))
    ctx.probe("no-generator", any(g is None for b, g in slack.items()))
    ctx.state(tuple(hist), len(lists), len(d["branches"]), skip_pre)
    ctx.sim_time += len(pos)
    br = [(b["key"], b["bus0"], b["bus1"], z_linear(d, b), b["shift"]) for b in d["branches"]]
    isl_of = {b: tuple(i) for i in lists for b in i}
    for t in pos:
        one, ports, inj = data[t]
        flows, ang, out = linear_flow(d["buses"], br, inj, set(slack))
        scale = max([1.0, *(abs(v) for v in inj.values()), *(abs(v) for v in flows.values())])
        ascale = max([1.0, *(abs(v) for v in ang.values())])
        for b, g in slack.items():
            if g is not None:
                one["Generator", g] += (out[b] - inj[b]) / n.generators.at[g, "sign"]
                ctx.probe("slack-moved", g != n.generators.index[0])
        for (cls, name), exp in one.items():
            close(ctx, output(n, cls, "p", name, t), exp, f"one-port:{cls}", f"{name} at {t}", scale)
            ctx.probe("shunt", cls == "ShuntImpedance" and exp != 0)
        for (name, port), exp in ports.items():
            close(ctx, output(n, "Link", "p" + port, name, t), exp, "link", f"{name} p{port} at {t}", scale)
            ctx.probe("link-multiport", port == "2" and exp != 0)
        for cls in ("Line", "Transformer"):
            for name in n.static(cls).index:
                exp = flows.get((cls, name), 0.0)
                ctx.probe("inactive", (cls, name) not in flows)
                close(ctx, output(n, cls, "p0", name, t), exp, f"flow:{cls}", f"{name} p0 at {t}", scale)
                close(ctx, output(n, cls, "p1", name, t), -exp, f"flow:{cls}", f"{name} p1 at {t}", scale)
                if edited and abs(exp) > 1e-3:
                    ctx.nontrivial = True
        for b in d["buses"]:
            close(ctx, output(n, "Bus", "p", b, t), out[b], "bus:p", f"{b} at {t}", scale)
            dc = d["carrier"][isl_of[b][0]] == "DC"
            close(ctx, output(n, "Bus", "v_ang", b, t), 0.0 if dc else ang[b], "bus:angle", f"{b} at {t}", ascale)
            close(ctx, output(n, "Bus", "v_mag_pu", b, t), 1 + ang[b] if dc else 1.0, "bus:magnitude", f"{b} at {t}", ascale)
    ctx.log("lpf", len(pos), sorted(len(i) for i in lists), round(sum(abs(f) for f in flows.values()), 4) if pos else "")
    topo_checks(ctx, n, d, lists, None)


def inputs(n, t):
    """Expected dispatch of one ports and links from their inputs, and the injections."""
    one, ports, inj = {}, {}, dict.fromkeys(n.buses.index, 0.0)
    for cls in ("Generator", "Load", "StorageUnit", "Store", "ShuntImpedance"):
        for name, r in n.static(cls).iterrows():
            p = 0.0
            if r.active:
                p = r.g * n.buses.v_nom[r.bus] ** 2 if cls == "ShuntImpedance" else series(n, cls, name, "p_set")[t]
                inj[r.bus] += r.sign * p
            one[cls, name] = p
    for name in n.links.index:
        for p in link_ports(n):
            ports[name, p or "1"] = 0.0
        for port, b, p in link_powers(n, name, t):
            ports[name, port] = p
            inj[b] -= p
    return one, ports, inj


def topo_checks(ctx, n, d, lists, period, subs=True):
    """Sub-networks, adjacency, incidence and cycles are those of the active branches."""
    got = {}
    for b, s in n.buses.sub_network.items():
        got.setdefault(s, set()).add(b)
    ctx.check(sorted(map(sorted, got.values())) == sorted(map(sorted, lists)), "islands", lambda: f"{got} instead of {lists}")
    ctx.check(set(got) == set(n.sub_networks.index), "islands", lambda: f"{set(got)} vs {list(n.sub_networks.index)}")
    for s, bs in got.items():
        c = d["carrier"][next(b for b in n.buses.index if b in bs)]
        ctx.check(n.sub_networks.at[s, "carrier"] == c, "islands:carrier", s)
        sub = n.sub_networks.at[s, "obj"]
        ctx.check(set(sub.buses_i()) == bs, "islands:buses", s)
    order = list(n.buses.index)
    A = np.zeros((len(order), len(order)))
    for b in d["branches"]:
        A[order.index(b["bus0"]), order.index(b["bus1"])] += 1
    M = n.adjacency_matrix(branch_components=["Line", "Transformer"], investment_period=period).toarray()
    ctx.check((M == A).all(), "adjacency", lambda: f"{M.tolist()} instead of {A.tolist()}")
    if not subs:
        return
    # cycles: every column is a circulation, and they span the cycle space
    for s in n.sub_networks.index:
        sub = n.sub_networks.at[s, "obj"]
        mine = [b for b in d["branches"] if b["bus0"] in got[s]]
        C = np.asarray(sub.C.toarray())
        rows = list(sub.branches().index)
        k = len(mine) - len(got[s]) + 1
        ctx.check(C.shape[1] == k, "cycles:count", lambda: f"{C.shape[1]} instead of {k} in {sorted(got[s])}")
        if not k:
            continue
        ctx.probe("cycles")
        K = np.zeros((len(order), len(rows)))
        for j, key in enumerate(rows):
            br = next((b for b in mine if b["key"] == tuple(key)), None)
            if br is None:
                ctx.check((C[j] == 0).all(), "cycles:inactive", str(key))
                continue
            K[order.index(br["bus0"]), j] += 1
            K[order.index(br["bus1"]), j] -= 1
        ctx.check(np.abs(K @ C).max() == 0, "cycles:closed", lambda: f"{rows} {C.tolist()}")
        ctx.check(np.linalg.matrix_rank(C) == k, "cycles:independent", lambda: f"{rows} {C.tolist()}")


def topology(ctx, S, period):
    n = S.n
    if period is not None and period not in n.investment_periods:
        return
    ctx.call("topology", n.determine_network_topology, investment_period=period)
    S.clean = False
    d = read(n)
    if period is not None:
        ctx.probe("period-topology")
        keep = []
        for b in d["branches"]:
            r = n.static(b["key"][0]).loc[b["key"][1]]
            if r.build_year <= period < r.build_year + r.lifetime:
                keep.append(b)
        ctx.probe("period-outage", len(keep) < len(d["branches"]))
        d["branches"] = keep
    lists = islands(d["buses"], [(b["key"], b["bus0"], b["bus1"]) for b in d["branches"]])
    topo_checks(ctx, n, d, lists, period, subs=period is None)


def extra(ctx, S, op):
    n = S.n
    if not S.clean:
        n.determine_network_topology()
    d = read(n)
    slack, lists = slacks(n, d)
    br = [(b["key"], b["bus0"], b["bus1"], z_linear(d, b), b["shift"]) for b in d["branches"]]
    subs = [s for s in n.sub_networks.obj if len(s.branches_i(active_only=True))]
    if not subs:
        return
    sub = subs[op[1] % len(subs)]
    if op[0] == "cont":
        S.clean = False
        ctx.attempt(sub.calculate_BODF)
        return
    if op[0] == "sub":
        if S.clean:
            ctx.call("sub-lpf", sub.lpf, None)
        return
    ctx.call("ptdf", sub.calculate_PTDF)
    S.clean = False
    ctx.probe("ptdf")
    buses = list(sub.buses_o)
    ref = n.sub_networks.at[sub.name, "slack_bus"]
    for j, b in enumerate(buses):
        inj = {b: 1.0}
        inj[ref] = inj.get(ref, 0.0) - 1.0
        if b == ref:
            inj = {}
        f, _, _ = linear_flow(d["buses"], [x[:4] + (0.0,) for x in br], inj)
        for i, key in enumerate(sub.branches_i(active_only=True)):
            got = sub.PTDF[i, j]
            ctx.check(abs(got - f[tuple(key)]) < 1e-6, "ptdf", lambda: f"{key} for {b}: {got} instead of {f[tuple(key)]}")


def fresh(ctx, n):
    """A network built anew from the inputs gives the same results."""
    import pypsa

    m = pypsa.Network()
    m.set_snapshots(n.snapshots)
    if n.has_investment_periods:
        m.set_investment_periods(n.investment_periods)
    for cls in ("Carrier", "Bus", "Generator", "Load", "StorageUnit", "Store", "ShuntImpedance", "Line", "Transformer", "Link"):
        st, attrs = n.static(cls), n.components[cls].defaults
        cols = [c for c in st.columns if c in attrs.index and str(attrs.at[c, "status"]).startswith("Input")]
        if len(st):
            m.add(cls, list(st.index), **{c: list(st[c]) for c in cols if not pd.isna(st[c]).any()})
        for attr, df in n.dynamic(cls).items():
            if attr in attrs.index and str(attrs.at[attr, "status"]).startswith("Input"):
                for name in df.columns:
                    m.dynamic(cls)[attr][name] = df[name].values
    ctx.call("lpf", m.lpf)
    ctx.call("lpf", n.lpf)
    ctx.probe("fresh")
    for cls, attrs in (("Bus", ("p", "v_ang", "v_mag_pu")), ("Generator", "p"), ("Load", "p"), ("StorageUnit", "p"), ("Store", "p"), ("ShuntImpedance", "p"), ("Line", ("p0", "p1")), ("Transformer", ("p0", "p1")), ("Link", ("p0", "p1"))):
        for a in attrs:
            for name in n.static(cls).index:
                x, y = n.dynamic(cls)[a][name].values, m.dynamic(cls)[a][name].values
                ctx.check(np.allclose(x, y, rtol=1e-6, atol=1e-6), f"fresh:{cls}:{a}", lambda: f"{name}: {x.tolist()} but {y.tolist()} in a fresh network")


def simplify(trace):
    net = trace["net"]
    for i, s in enumerate(net):
        if s[0] == "add":
            if s[4]:
                yield {**trace, "net": net[:i] + [s[:4] + [{}]] + net[i + 1 :]}
            for k in list(s[3]):
                if k not in ("bus", "bus0", "bus1", "v_nom", "carrier", "x", "r"):
                    yield {**trace, "net": net[:i] + [s[:3] + [{a: v for a, v in s[3].items() if a != k}] + s[4:]] + net[i + 1 :]}
