"""C13: networks do not influence each other."""

from __future__ import annotations

import copy
import os
import pickle
import shutil
import weakref

import numpy as np
import pandas as pd

from dst import gen
from dst.core import Violation, Skip
from dst.pfgen import gen_net, val
from dst.sched import Deadlock, Scheduler

RUNS = {"quick": 1200, "thorough": 40000}
BUDGET = {"quick": 60, "thorough": 1800}
SHRINK = ["prefix", "progA", "progB", "switches"]
RULE = (
    "up to four related networks (built, copied as a whole or for some snapshots, sliced, merged, clustered, exported and imported again) on which two programs work: edits of data in place, additional link ports, custom attributes, "
    "meta data, re-timing, topology, power flows (also of sub-network objects), statistics and optimisation; either one after another in a seeded order, or in two threads of which a seeded scheduler runs one at a time and switches between "
    "lines of pypsa; every network is compared with the same operations on its own in a process of its own, all others are compared before and after each operation, and package-wide defaults and options must stay; "
    "non-trivial: a derived network and its source are both changed, or threads switched"
)
STATES = "distinct (operation kinds, sequential or threaded, number of switches) tuples"
REAL = ["pypsa (all of networks, components, io, pf, statistics, optimization, clustering)", "linopy", "HiGHS"]
STUB = ["thread scheduling (one thread at a time, switches at line events of pypsa)"]
ASSUMPTIONS = ["lines of other libraries are not interrupted", "options and package-wide component types are shared by design and not changed by the programs"]
EXPECT_PROBES = ["threaded", "sequential", "switches", "copy", "copysome", "slice", "merge", "roundtrip", "subnet", "inplace", "ports", "defaults", "meta", "optimize", "lpf", "pf", "alone", "fresh-network", "cluster", "outcome-error"]
SIM_TIME = "lines of pypsa scheduled"


def warmup():
    import pypsa
    import pypsa.clustering.spatial  # noqa: F401

    n = gen.build([["add", "Bus", "a", {}, {}], ["add", "Bus", "b", {}, {}], ["add", "Line", "l", {"bus0": "a", "bus1": "b", "x": 1.0, "s_nom": 10.0}, {}], ["add", "Generator", "g", {"bus": "a", "p_nom": 3.0}, {}]])
    n.lpf()
    n.pf()
    n.statistics()
    n.copy(snapshots=n.snapshots)
    n[["a"]]
    n.generators["marginal_cost"] = 1.0
    n.optimize.create_model()
    del pypsa


# ------------------------------------------------------------------ programs


def generate(rng, tier):
    threaded = rng.random() < 0.55
    prefix = []
    net, _, ns = gen_net(rng, dc=False, max_buses=3)
    prefix.append([0, "build", net])
    if rng.random() < 0.4:
        wide = gen.gen_wide(rng, text_safe=True)
        prefix.append([1, "build", wide])
    P = {"ns": ns, "k": 0}
    for _ in range(rng.randint(0, 2)):
        prefix.append(gen_op(rng, P, [0], tier))
    slots = [[0, 1], [2, 3]]
    for s in (1, 2, 3) if len(prefix) < 2 or prefix[1][0] != 1 else (2, 3):
        if rng.random() < 0.75:
            prefix.append(gen_derive(rng, s, [x for x in range(s)]))
        elif s == 2:
            prefix.append([2, "build", gen_net(rng, dc=False, max_buses=3)[0]])
    progs = []
    m = (1, 4) if tier == "quick" else (2, 8)
    for i in (0, 1):
        progs.append([gen_op(rng, P, slots[i], tier) if rng.random() < 0.8 else gen_derive(rng, slots[i][1], slots[i][:1]) for _ in range(rng.randint(*m))])
    spec = {"mode": "threads", "seed": rng.getrandbits(32), "every": rng.choice([2, 10, 50, 300, 2000])} if threaded else {"mode": "order", "order": [rng.randrange(2) for _ in range(sum(map(len, progs)))]}
    return {"prefix": prefix, "progA": progs[0], "progB": progs[1], "judge": rng.sample(range(4), 4), "spec": spec}


def gen_derive(rng, dst, srcs):
    src = rng.choice(srcs)
    how = gen.weighted(rng, [("copy", 4), ("copysome", 3), ("slice", 2), ("merge", 1.5), ("roundtrip", 1.5), ("cluster", 0.6), ("copypre", 1)])
    if how == "merge":
        return [dst, "merge", src, rng.choice(srcs)]
    if how == "roundtrip":
        return [dst, "roundtrip", src, rng.choice(["csv", "nc", "nc"])]
    if how == "slice":
        return [dst, "slice", src, rng.getrandbits(8), rng.random() < 0.5]
    if how == "copysome":
        return [dst, "copysome", src, rng.getrandbits(4)]
    if how == "copypre":  # a copy of a network with sub-networks
        return [dst, "copytopo", src, rng.random() < 0.5]
    return [dst, how, src]


def gen_op(rng, P, slots, tier):
    s = rng.choice(slots)
    P["k"] += 1
    k = P["k"]
    what = gen.weighted(
        rng,
        [("inplace", 3), ("set", 2), ("ports", 2), ("attr", 1), ("defaults", 1), ("meta", 1.5), ("snapshots", 1), ("weightings", 1), ("topology", 1), ("lpf", 2), ("pf", 1.2), ("subnet", 2), ("subattr", 0.7), ("remove", 1), ("rename", 0.7),
         ("stats", 0.7), ("attrs", 0.7), ("optimize", 0.5), ("model", 0.4), ("mergein", 0.7), ("new", 0.5), ("dep", 0.5), ("carriers", 0.4), ("consistency", 0.3), ("crs", 0.3), ("typ", 0.4)],
    )  # fmt: skip
    if what == "mergein":
        return [s, "mergein", rng.choice(slots)]
    return [s, what, rng.getrandbits(16), k]


class World:
    def __init__(self, base):
        self.base = base
        self.slot = {}
        self.outcome = {}  # op index -> outcome
        self.foreign = []  # operations whose network came with foreign sub-network objects

    def has(self, s):
        return s in self.slot

    def run(self, i, op):
        try:
            r = self.do(op)
            if op[1] in DERIVE:
                self.rebind(op)
        except (Violation, Skip, Deadlock):
            raise
        except Exception as e:  # noqa: BLE001
            r = f"{type(e).__name__}: {str(e)[:80]}".replace(self.base, "")
        self.outcome[i] = r

    def rebind(self, op):
        """Give a derived network sub-network objects of its own, and note that it had none."""
        n = self.slot.get(op[0])
        if n is None or "obj" not in n.sub_networks or all(o.n is n for o in n.sub_networks.obj):
            return
        self.foreign.append(op[1])
        objs = [copy.deepcopy(o) for o in n.sub_networks.obj]
        for o in objs:
            o._n = weakref.ref(n)
        n.sub_networks["obj"] = objs

    def do(self, op):
        import pypsa

        d, what = op[0], op[1]
        if what == "build":
            self.slot[d] = pypsa.Network()
            for st in op[2]:
                gen.apply_step(self.slot[d], st)
            return "ok"
        if what == "new":
            self.slot[d] = pypsa.Network()
            return "ok"
        if what in DERIVE or what == "mergein":
            srcs = [op[2]] + ([op[3]] if what == "merge" else [])
            if not all(x in self.slot for x in srcs):
                return "no source"
            src = self.slot[op[2]]
            if what == "copy":
                self.slot[d] = src.copy()
            elif what == "copytopo":
                m = src.copy() if op[3] else src.copy(snapshots=src.snapshots)
                m.determine_network_topology()
                self.slot[d] = m.copy(snapshots=m.snapshots) if op[3] else m.copy()
                self.keep = m
            elif what == "copysome":
                sel = [j for j in range(len(src.snapshots)) if (op[3] >> (j % 4)) & 1] or [0]
                self.slot[d] = src.copy(snapshots=src.snapshots[sel])
            elif what == "slice":
                b = [x for j, x in enumerate(src.buses.index) if (op[3] >> (j % 8)) & 1] or list(src.buses.index[:1])
                self.slot[d] = src[src.snapshots[: max(1, len(src.snapshots) - 1)], b] if op[4] else src[b]
            elif what == "merge":
                other = self.slot[op[3]].copy()
                renamed(other)
                self.slot[d] = src.merge(other, with_time=len(other.snapshots) == len(src.snapshots))
            elif what == "mergein":
                if d not in self.slot:
                    return "no network"
                renamed_src = src.copy()
                renamed(renamed_src)
                self.slot[d].merge(renamed_src, inplace=True, with_time=False)
            elif what == "roundtrip":
                path = os.path.join(self.base, f"io{d}")
                if op[3] == "csv":
                    shutil.rmtree(path, ignore_errors=True)
                    src.export_to_csv_folder(path)
                    self.slot[d] = pypsa.Network(path)
                else:
                    src.export_to_netcdf(path + ".nc")
                    self.slot[d] = pypsa.Network(path + ".nc")
            elif what == "cluster":
                bm = pd.Series([f"c{j % 2}" for j in range(len(src.buses))], index=src.buses.index)
                self.slot[d] = src.cluster.cluster_by_busmap(bm)
            return "ok"
        if d not in self.slot:
            return "no network"
        return self.edit(self.slot[d], what, op[2], op[3])

    def edit(self, n, what, r, k):
        rng = np.random.RandomState(r)

        def some(cls):
            idx = list(n.static(cls).index)
            return idx[r % len(idx)] if idx else None

        cls = ["Generator", "Load", "Line", "Link", "Bus"][r % 5]
        name = some(cls)
        if what == "inplace":
            # writes into the very arrays
            for c in ("Generator", "Load", "Link", "Store"):
                for a, df in n.dynamic(c).items():
                    if len(df.columns) and rng.rand() < 0.7:
                        df.iloc[0, r % len(df.columns)] = float(k)
            for c in ("Generator", "Bus", "Line"):
                st = n.static(c)
                if len(st):
                    st.loc[st.index[r % len(st)], {"Generator": "p_nom", "Bus": "v_nom", "Line": "s_nom"}[c]] = 100.0 + k
            n.snapshot_weightings.iloc[0, 0] = float(k)
            return "ok"
        if what == "set":
            if name is None:
                return "nothing"
            n.static(cls).loc[name, {"Bus": "v_mag_pu_set"}.get(cls, "p_set" if cls in ("Generator", "Load", "Link") else "x")] = 1.0 + k / 10
            if cls in ("Generator", "Load", "Link"):
                n.dynamic(cls)["p_set"][name] = [float(k + j) for j in range(len(n.snapshots))]
            return "ok"
        if what == "ports":
            b = list(n.buses.index)
            if not b:
                return "nothing"
            port = 2 + r % 3
            n.add("Link", f"mp{k}", bus0=b[0], bus1=b[-1], p_set=3.0, **{f"bus{port}": b[r % len(b)], f"efficiency{port}": 0.5})
            return sorted(x for x in n.components["Link"].defaults.index if x.startswith("bus"))
        if what == "attr":
            if not len(n.buses):
                return "nothing"
            n.add("Generator", f"ga{k}", bus=n.buses.index[0], my_attr=float(k), other=f"s{k}")
            return "ok"
        if what == "defaults":
            c = ["Generator", "Load", "Bus"][r % 3]
            n.components[c].defaults.loc["extra%d" % (k % 3)] = n.components[c].defaults.loc["p" if c != "Bus" else "x"]
            n.components[c].defaults.loc["sign" if c != "Bus" else "x", "default"] = float(k)
            return "ok"
        if what == "attrs":
            return sorted(n.component_attrs["Generator"].index) == sorted(n.components["Generator"].defaults.index)
        if what == "meta":
            n.meta["k"] = k
            for v in n.meta.values():
                if isinstance(v, dict):
                    v["changed"] = k
                    v.setdefault("x", []).append(k)
            n.meta[f"d{k}"] = {"x": [k]}
            return "ok"
        if what == "snapshots":
            n.set_snapshots(n.snapshots[: 1 + r % len(n.snapshots)])
            return "ok"
        if what == "weightings":
            n.snapshot_weightings.loc[:, ["objective", "stores", "generators"][r % 3]] = float(k)
            if len(n.investment_period_weightings):
                n.investment_period_weightings.iloc[0, 0] = float(k)
            return "ok"
        if what == "topology":
            n.determine_network_topology()
            return len(n.sub_networks)
        if what == "lpf":
            n.lpf()
            return "ok"
        if what == "pf":
            c = n.pf()["converged"]
            return [[bool(x) for x in row] for row in c.values]
        if what == "subnet":
            if "obj" not in n.sub_networks or not len(n.sub_networks):
                n.determine_network_topology()
            sub = n.sub_networks.obj.iloc[r % len(n.sub_networks)]
            sub.lpf(n.snapshots)
            if r % 3 == 0:
                sub.pf(n.snapshots)
            return [sorted(sub.buses_i()), sub.slack_bus]
        if what == "subattr":
            if "obj" not in n.sub_networks or not len(n.sub_networks):
                return "nothing"
            sub = n.sub_networks.obj.iloc[r % len(n.sub_networks)]
            sub.calculate_B_H()
            return sub.B.shape[0]
        if what == "remove":
            if name is None or cls == "Bus":
                return "nothing"
            n.remove(cls, name)
            return "ok"
        if what == "rename":
            if name is None:
                return "nothing"
            n.rename_component_names(cls, **{name: f"rn{k}"})
            return "ok"
        if what == "stats":
            return repr(n.statistics(comps=["Generator", "Load"]).round(6).to_dict())[:2000]
        if what == "optimize":
            n.generators["p_nom"] = 200.0
            n.generators["marginal_cost"] = np.arange(1.0, 1 + len(n.generators))
            res = n.optimize(solver_name="highs", solver_options={"threads": 1, "log_to_console": False})
            return [str(x) for x in res]
        if what == "model":
            m = n.optimize.create_model()
            return [m.nvars, m.ncons]
        if what == "dep":
            n.calculate_dependent_values()
            return "ok"
        if what == "carriers":
            if len(n.generators):
                n.generators.loc[n.generators.index[0], "carrier"] = f"car{k}"
            n.add("Carrier", f"car{k}", co2_emissions=float(k))
            return "ok"
        if what == "consistency":
            n.consistency_check()
            return "ok"
        if what == "crs":
            n.crs = [3035, 4326, 25832][r % 3]
            return "ok"
        if what == "typ":
            n.line_types.loc[n.line_types.index[r % 5], "x_per_length"] = float(k)
            n.transformer_types.iloc[0, 1] = float(k)
            return "ok"
        raise ValueError(what)


FULL = ("copy", "copytopo", "merge")  # operations which call n.copy() without arguments
DERIVE = ("copy", "copysome", "copytopo", "slice", "merge", "roundtrip", "cluster")


def renamed(n):
    for c in ("Bus", "Line", "Transformer", "Link", "Generator", "Load", "StorageUnit", "Store", "ShuntImpedance", "Carrier", "GlobalConstraint", "Shape"):
        idx = n.static(c).index
        if len(idx):
            n.rename_component_names(c, **{x: f"o-{x}" for x in idx})


def look(n):
    """Everything a user sees of a network, including its sub-networks' owner."""
    fp = gen.fingerprint(n)
    fp = {k: v for k, v in fp.items() if k not in ("SubNetwork.obj",)}
    fp["objective"] = repr(getattr(n, "objective", None))
    for c in ("Link", "Generator", "Load", "Bus"):
        d = n.components[c].defaults
        fp[f"defaults.{c}"] = {str(i): repr(d.at[i, "default"]) for i in d.index}
    fp["all"] = sorted(n.all_components)
    if "obj" in n.sub_networks:
        subs = []
        for s in n.sub_networks.index:
            o = n.sub_networks.at[s, "obj"]
            subs.append([s, o.n is n, sorted(o.buses_i()) if o.n is n else None, repr(np.round(o.B.toarray(), 9).tolist()) if hasattr(o, "B") else None])
        fp["subs"] = subs
    return fp


def package_state():
    import pypsa
    from pypsa.components.types import all_components

    out = {}
    for ct in all_components.values():
        out[f"type.{ct.name}"] = {str(i): repr(v) for i, v in ct.defaults["default"].items()}
        out[f"cols.{ct.name}"] = list(ct.defaults.columns)
        if ct.standard_types is not None:
            out[f"std.{ct.name}"] = ct.standard_types.to_dict()
    for o in ("warnings.components_store_iter", "params.statistics.nice_names", "params.statistics.drop_zero", "params.statistics.round"):
        out["option." + o] = pypsa.options.get_option(o)
    return {k: repr(v) for k, v in out.items()}


def history_of(ops, slot):
    """Indices of the operations which made a slot what it is."""
    need, idx = {slot}, []
    for i in range(len(ops) - 1, -1, -1):
        op = ops[i][1]
        if op[0] not in need:
            continue
        idx.append(i)
        if op[1] in DERIVE:
            # a failed derivation leaves what was there
            need |= {op[2]} | ({op[3]} if op[1] == "merge" else set())
        elif op[1] == "mergein":
            need.add(op[2])
        elif op[1] in ("build", "new"):
            need.discard(op[0])
    return sorted(idx)


def alone(ctx, ops, slot, tag):
    """The operations of one network, in a process of its own."""
    path = os.path.join(ctx.scratch, f"alone{tag}.pkl")
    base = os.path.join(ctx.scratch, f"alone{tag}")
    os.makedirs(base)
    pid = os.fork()
    if pid == 0:
        try:
            W = World(base)
            idx = history_of(ops, slot)
            for i in idx:
                W.run(i, ops[i][1])
            own = [i for i in idx if ops[i][1][0] == slot]
            out = {"fp": look(W.slot[slot]) if W.has(slot) else None, "outcome": {i: W.outcome[i] for i in own}}
            with open(path, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.waitpid(pid, 0)
    if not os.path.exists(path):
        raise RuntimeError("isolated run failed")
    with open(path, "rb") as f:
        return pickle.load(f)


def execute(trace, ctx):
    prefix, progs, spec = trace["prefix"], [trace["progA"], trace["progB"]], trace["spec"]
    ops = [(None, op) for op in prefix]
    if spec["mode"] == "order":
        left = [list(progs[0]), list(progs[1])]
        for o in spec["order"] + [0] * 99 + [1] * 99:
            if left[o]:
                ops.append((o, left[o].pop(0)))
    else:
        ops += [(0, op) for op in progs[0]] + [(1, op) for op in progs[1]]
    slots = sorted({op[0] for _, op in ops})
    if not ops:
        raise Skip("empty")
    for _, op in ops:
        ctx.probe(op[1])
    judged = [s for s in trace["judge"] if s in slots and (len(slots) < 3 or any(o[0] == s for w, o in ops if w is not None))][:2]
    expected = {s: alone(ctx, ops, s, s) for s in judged}
    ctx.probe("alone")
    before = package_state()
    import pypsa

    empty = look(pypsa.Network())
    base = os.path.join(ctx.scratch, "together")
    os.makedirs(base)
    W = World(base)
    i0 = len(prefix)

    def step(i, check):
        op = ops[i][1]
        seen = {s: look(n) for s, n in W.slot.items() if s != op[0]} if check else {}
        W.run(i, op)
        for s, fp in seen.items():
            d = gen.fp_diff(fp, look(W.slot[s]))
            ctx.check(not d, f"changed-another:{op[1]}", lambda: f"{op[:2]} changed network {s}: {d[1][:400]}")

    for i in range(i0):
        step(i, True)
    if spec["mode"] == "order":
        ctx.probe("sequential")
        for i in range(i0, len(ops)):
            step(i, True)
    else:
        ctx.probe("threaded")
        sch = Scheduler(ctx, {**spec, "switches": trace["switches"]} if "switches" in trace else spec)

        def prog(which):
            def body():
                for i in range(i0, len(ops)):
                    if ops[i][0] == which:
                        W.run(i, ops[i][1])

            return body

        sch.run([prog(0), prog(1)])
        ctx.probe("switches", len(sch.switched))
        ctx.fault("thread-switch", len(sch.switched))
        ctx.sim_time += sch.lines
        ctx.log("switches", len(sch.switched), sch.lines)
        for x in sch.trace:
            ctx.log(*x)
        ctx.nontrivial = ctx.nontrivial or bool(sch.switched)
        if "switches" not in trace:
            trace["_switches"] = sch.switched if len(sch.switched) < 4000 else None
    for what in W.foreign:
        if what in FULL:
            ctx.known("foreign-sub-network:full-copy", f"sub-network objects of a full copy ({what}) refer to the original network")
        ctx.check(what in FULL, "foreign-sub-network", f"sub-network objects after {what} refer to another network")
    for s in judged:
        exp = expected[s]
        for i, out in exp["outcome"].items():
            ctx.probe("outcome-error", isinstance(out, str) and "Error" in out)
            ctx.check(repr(W.outcome[i]) == repr(out), f"result:{ops[i][1][1]}", lambda: f"{ops[i][1][:2]}: {W.outcome[i]!r}, alone {out!r}"[:800])
        if exp["fp"] is None:
            continue
        d = gen.fp_diff(exp["fp"], look(W.slot[s]))
        ctx.check(not d, f"state:{d[0].split('.')[0].split('_t')[0] if d else ''}", lambda: f"network {s} alone -> with others: {d[1][:600]}")
        for _, own, _, _ in exp["fp"].get("subs", []):
            ctx.check(own, "foreign-sub-network", f"sub-network objects of network {s} refer to another network")
    d = gen.fp_diff(before, package_state())
    ctx.check(not d, "package-state", lambda: d[1][:600])
    d = gen.fp_diff(empty, look(pypsa.Network()))
    ctx.check(not d, "new-network", lambda: d[1][:600])
    ctx.probe("fresh-network")
    if any(op[1] in DERIVE for _, op in ops) and len(slots) > 1:
        ctx.nontrivial = True
    ctx.state(spec["mode"], tuple(op[1] for _, op in ops)[:8], len(trace.get("_switches") or ()) // 10)
    ctx.log(sorted((i, str(o)[:60]) for i, o in W.outcome.items()))


def simplify(trace):
    spec = trace["spec"]
    if spec["mode"] == "threads":
        seq = {k: v for k, v in trace.items() if k not in ("switches", "_switches")}
        yield {**seq, "spec": {"mode": "order", "order": [0, 1] * 20}}
        if "switches" not in trace and trace.get("_switches"):
            yield {**seq, "switches": trace["_switches"]}
        for e in (2000, 300, 50):
            if "switches" not in trace and spec.get("every", 0) and e > spec["every"]:
                yield {**trace, "spec": {**spec, "every": e}}
