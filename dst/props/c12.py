"""C12: any history of edits matches a reference model, rejected edits change nothing."""

from __future__ import annotations

import numpy as np
import pandas as pd

from dst import gen
from dst.core import Skip, Violation, short_tb
from dst.netmodel import BRANCH, LISTS, ONE_PORT, STANDARD, Model, Reject, attrs

RUNS = {"quick": 1500, "thorough": 60000}
BUDGET = {"quick": 50, "thorough": 1500}
SHRINK = ["ops"]
RULE = (
    "random histories of adding (one or many, scalars, sequences, series, frames, suffixes, overwriting), removing, renaming, setting, re-timing, slicing, copying and merging on up to "
    "four networks, mixed with invalid edits (bad lengths, labels, values, classes, duplicates, values which fail while they are converted); after every edit every network is compared "
    "with its dictionary model; non-trivial: an edit was rejected or a network was derived from another"
)
STATES = "distinct (operation kinds, snapshot kind, outcome) tuples"
REAL = ["pypsa.networks", "pypsa.io", "pypsa.components", "pypsa.descriptors", "pandas"]
STUB = []
ASSUMPTIONS = [
    "the order of components after overwriting is not specified",
    "custom attributes of the other network may be taken over or ignored when networks are merged",
    "metadata of slices is not specified",
]
EXPECT_PROBES = ["add", "add-many", "overwrite", "existing", "series", "frame", "suffix", "remove", "rename", "set", "put", "snapshots", "levels", "invest", "weights", "copy", "copy-part", "slice", "slice-time", "merge", "rejected", "hostile", "ports", "custom", "custom-series"]
SIM_TIME = "edits executed"
CLASSES = ["Bus", "Carrier", "Generator", "Load", "Link", "Line", "Transformer", "StorageUnit", "Store", "ShuntImpedance", "GlobalConstraint", "LineType"]
NAMES = ["a", "b", "c", "d e", "f-1", "0", "1", "ü"]
SUFFIX = ["", "", "", " x", "1", "a"]


# -------------------------------------------------------------- generation


class Plan:
    """What the generator knows: which names are probably there."""

    def __init__(self, rng):
        self.rng = rng
        self.nets = {0: {}}
        self.ns = {0: 1}
        self.sns = {0: {"kind": "str", "values": ["now"]}}


def scalar(rng, cls, a):
    t, d, st, var = attrs(cls).get(a, ("float", 0, True, False))
    if rng.random() < 0.05 and a in attrs(cls):
        return None  # not given: the default
    if t == "boolean":
        return rng.random() < 0.5
    if t == "int":
        return rng.choice([0, 1, 2, 2030, -1, 7])
    if t == "string":
        if a in ("carrier",):
            return rng.choice(NAMES)
        return rng.choice(gen.STRINGS)
    return gen.rfloat(rng)


def bus(rng, P, k):
    have = [n for c, n in P.nets[k] if c == "Bus"]
    return rng.choice(have) if have and rng.random() < 0.95 else rng.choice(NAMES)


def gen_attrs(rng, P, k, cls, m):
    """attr -> spec of values for m components (m = 0: a single one)."""
    out = {}
    ns = P.ns[k]
    pool = [a for a in attrs(cls) if not (a.startswith(("bus", "efficiency", "p")) and a[-1:].isdigit())]
    pick = rng.sample(pool, min(len(pool), rng.randint(0, 5)))
    fields = ["bus"] if cls in ONE_PORT else ["bus0", "bus1"] if cls in BRANCH else []
    if cls == "Link" and rng.random() < 0.4:
        fields.append("bus2")
        if rng.random() < 0.5:
            pick.append("efficiency2")
        if rng.random() < 0.2:
            fields.append("bus3")
    for a in fields:
        vals = [bus(rng, P, k) for _ in range(max(m, 1))]
        out[a] = ["s", vals[0]] if not m or rng.random() < 0.4 else [rng.choice(["l", "S", "arr"]), vals]
    custom = [f"my_{x}" for x in ("float", "str", "bool", "int")]
    if rng.random() < 0.15:
        pick.append(rng.choice(custom))
    if rng.random() < 0.1:
        pick.append("my_series")
    for a in pick:
        if a in out:
            continue
        t, d, st, var = attrs(cls).get(a, (a[3:], 0, True, a == "my_series"))

        def val(a=a, t=t):
            if a.startswith("my_"):
                return {"float": gen.rfloat(rng, True), "str": rng.choice(gen.STRINGS), "bool": rng.random() < 0.5, "int": rng.randint(-4, 4), "series": gen.rfloat(rng)}[t]
            return scalar(rng, cls, a)

        if var and (not st or a == "my_series" or rng.random() < 0.45):
            rows = [[gen.rfloat(rng) for _ in range(max(m, 1))] for _ in range(ns)]
            if m:
                out[a] = [rng.choice(["D", "A"]), rows]
            else:
                out[a] = [rng.choice(["l", "S", "arr", "tup"]), [r[0] for r in rows]]
            continue
        if not m or rng.random() < 0.4:
            out[a] = ["s", val()]
        elif rng.random() < 0.1:
            out[a] = ["l1", val()]
        else:
            out[a] = [rng.choice(["l", "S", "arr", "tup", "idx"]), [val() for _ in range(m)]]
    return out


def gen_add(rng, P, k):
    cls = gen.weighted(rng, [(c, 3 if c in ("Bus", "Generator", "Link") else 1) for c in CLASSES])
    many = rng.random() < 0.5
    names = rng.sample(NAMES, rng.randint(1, 3)) if many else [rng.choice(NAMES)]
    if many and rng.random() < 0.1:
        names = [int(x) for x in ("0", "1")]
    suffix = rng.choice(SUFFIX) if rng.random() < 0.6 else ""
    over = rng.random() < 0.35
    sp = gen_attrs(rng, P, k, cls, len(names) if many else 0)
    for x in names:
        P.nets[k][(cls, str(x) + suffix)] = 1
    return ["add", k, cls, names if many else names[0], suffix, over, sp]


BAD = ["class", "duplicates", "length", "labels", "shape", "dict", "value", "hostile", "frame-labels", "frame-index", "port-value"]


def gen_bad(rng, P, k):
    """An edit which has to be refused."""
    kind = gen.weighted(rng, [("add", 8), ("remove", 2), ("rename", 2), ("snapshots", 2), ("invest", 2), ("weights", 1), ("pweights", 1), ("copy", 1), ("slice", 1), ("merge", 0.5)])
    if kind == "add":
        op = gen_add(rng, P, k)
        return ["bad-add", *op[1:], rng.choice(BAD), rng.randint(0, 10**6)]
    if kind == "remove":
        have = [n for n in P.nets[k]]
        c, n = rng.choice(have) if have else ("Bus", "a")
        return ["remove", k, c, [n, "nobody"] if rng.random() < 0.6 else "nobody", ""]
    if kind == "rename":
        have = [x for x in P.nets[k]]
        c, n = rng.choice(have) if have else ("Bus", "a")
        others = [m for d, m in have if d == c and m != n]
        return ["rename", k, c, {n: rng.choice(others) if others and rng.random() < 0.6 else 3}]
    if kind == "snapshots":
        return ["bad-snapshots", k, rng.choice(["empty", "tz", "three", "empty-multi"])]
    if kind == "invest":
        return ["invest", k, rng.choice([[2030, 2020], [2020, 2020], ["a", "b"], [1.5, 2.5], [1, 2, 3, 4, 5, 6]])]
    if kind in ("weights", "pweights"):
        return ["bad-" + kind, k]
    if kind == "copy":
        return ["bad-copy", k]
    if kind == "slice":
        return ["bad-slice", k]
    return ["merge", k, k, rng.random() < 0.5, True]


def generate(rng, tier):
    P = Plan(rng)
    ops = []
    p_bad = rng.choice([0.05, 0.2, 0.4])
    if rng.random() < 0.8:
        ops.append(gen_time(rng, P, 0))
    for _ in range(rng.randint(5, 25 if tier == "quick" else 45)):
        k = rng.choice(list(P.nets))
        if rng.random() < p_bad:
            ops.append(gen_bad(rng, P, k))
            continue
        have = list(P.nets[k])
        kind = gen.weighted(
            rng,
            [("add", 10), ("remove", 2), ("rename", 1.5), ("set", 2), ("put", 2), ("unput", 0.5), ("time", 1.5), ("invest", 0.7), ("weights", 0.7), ("pweights", 0.5), ("copy", 0.5), ("copypart", 0.7), ("slice", 1), ("new", 0.7), ("merge", 1.2), ("name", 0.2)],
        )
        if kind == "add" or not have:
            ops.append(gen_add(rng, P, k))
        elif kind == "remove":
            c, _ = rng.choice(have)
            mine = [n for d, n in have if d == c]
            names = rng.sample(mine, rng.randint(1, min(2, len(mine))))
            for n in names:
                P.nets[k].pop((c, n), None)
            ops.append(["remove", k, c, names if len(names) > 1 or rng.random() < 0.5 else names[0], ""])
        elif kind == "rename":
            c, n = rng.choice(have)
            mine = [m for d, m in have if d == c]
            if rng.random() < 0.4 and len(mine) > 1:  # swap or shift
                a, b = rng.sample(mine, 2)
                mp = {a: b, b: a} if rng.random() < 0.5 else {a: b, b: a + "'"}
            else:
                mp = {n: rng.choice([n + "'", "r" + n, n])}
            if rng.random() < 0.1:
                mp["nobody"] = "somebody"
            for a in mp:
                if P.nets[k].pop((c, a), None):
                    P.nets[k][(c, mp[a])] = 1
            ops.append(["rename", k, c, mp])
        elif kind == "set":
            c, n = rng.choice(have)
            pool = [a for a, d in attrs(c).items() if d[2] and not a[-1:].isdigit() and a != "bus"]
            a = rng.choice(pool)
            v = scalar(rng, c, a)
            ops.append(["set", k, c, n, a, v if v is not None else attrs(c)[a][1]])
        elif kind in ("put", "unput"):
            c, n = rng.choice(have)
            pool = [a for a, d in attrs(c).items() if d[3] and not a[-1:].isdigit()]
            if pool:
                ops.append([kind, k, c, n, rng.choice(pool), [gen.rfloat(rng) for _ in range(P.ns[k])]])
        elif kind == "time":
            ops.append(gen_time(rng, P, k))
        elif kind == "invest":
            ps = sorted(rng.sample([2020, 2025, 2030, 2040], rng.randint(1, 3)))
            s = P.sns[k]
            if s["kind"] != "multi":
                P.sns[k] = {"kind": "multi", "periods": ps, "inner": s}
                P.ns[k] *= len(ps)
            else:
                ps = s["periods"]
            ops.append(["invest", k, ps])
        elif kind == "weights":
            ops.append(["weights", k, rng.choice(["frame", "series", "column"]), [[gen.rfloat(rng, True) for _ in range(3)] for _ in range(P.ns[k])]])
        elif kind == "pweights":
            ops.append(["pweights", k, rng.choice(["frame", "series"]), [[gen.rfloat(rng, True) for _ in range(2)] for _ in P.sns[k].get("periods", [])]])
        elif kind == "new" and len(P.nets) < 4:
            j = len(P.nets)
            P.nets[j], P.sns[j], P.ns[j] = {}, P.sns[k], P.ns[k]
            ops.append(["new", j, P.sns[k]])
            op = gen_add(rng, P, j)
            op[4] = f"@{j}"
            P.nets[j] = {(op[2], str(x) + op[4]): 1 for x in (op[3] if isinstance(op[3], list) else [op[3]])}
            ops.append(op)
        elif kind in ("copy", "copypart", "slice") and len(P.nets) < 4:
            j = len(P.nets)
            ns = P.ns[k]
            pos = None
            if kind == "copypart" or kind == "slice" and rng.random() < 0.5:
                pos = sorted(rng.sample(range(ns), rng.randint(1, ns)))
                if P.sns[k]["kind"] == "multi" and rng.random() < 0.5:
                    m = ns // len(P.sns[k]["periods"])  # a whole period
                    i = rng.randrange(len(P.sns[k]["periods"]))
                    pos = list(range(i * m, (i + 1) * m))
                if kind == "copypart" and rng.random() < 0.1:
                    pos = []
            P.nets[j], P.ns[j], P.sns[j] = dict(P.nets[k]), len(pos) if pos else 1 if pos == [] else ns, P.sns[k] if pos is None else {"kind": "str", "values": ["now"]}
            if kind == "slice":
                buses = [n for c, n in P.nets[k] if c == "Bus"]
                if not buses:
                    P.nets.pop(j)
                    continue
                ops.append(["slice", k, j, rng.sample(buses, rng.randint(1, len(buses))), pos, rng.choice(["labels", "mask", "slice"])])
            else:
                ops.append(["copy", k, j, pos, rng.random() < 0.1])
        elif kind == "merge" and len(P.nets) > 1:
            other = rng.choice([j for j in P.nets if j != k])
            ops.append(["merge", k, other, rng.random() < 0.5, rng.random() < 0.8])
        elif kind == "name":
            ops.append(["name", k, rng.choice(["n", "net é"])])
    return {"ops": ops}


def gen_time(rng, P, k):
    s = P.sns[k]
    if s["kind"] in ("int", "dt") and rng.random() < 0.5:  # overlapping with the old ones
        vals = list(s["values"])
        if s["kind"] == "int":
            a = rng.choice([vals[0], vals[0] - 1, vals[0] + 1])
            new = {"kind": "int", "values": [a + i for i in range(rng.randint(1, 5))]}
        else:
            keep = [v for v in vals if rng.random() < 0.7] or vals[:1]
            new = {"kind": "dt", "values": keep + [str(pd.Timestamp(vals[-1]) + pd.Timedelta("1h"))]}
        if rng.random() < 0.25:
            new = {"kind": "multi", "periods": sorted(rng.sample([2020, 2030, 2040], 2)), "inner": new}
    else:
        new = gen.gen_snapshots(rng, 4)
    P.sns[k], P.ns[k] = new, gen.n_snapshots(new)
    return ["snapshots", k, new, rng.choice([1.0, 1.0, 3.0, 0.25]), rng.random() < 0.2]


# --------------------------------------------------------------- execution


class Hostile:
    """A value which fails only while it is converted."""

    def __init__(self, exc):
        self.exc = exc

    def __float__(self):
        raise self.exc("hostile value")

    __int__ = __bool__ = __str__ = __float__


class Run:
    def __init__(self, ctx):
        import pypsa

        self.pypsa = pypsa
        self.ctx = ctx
        self.nets = {0: pypsa.Network()}
        self.models = {0: Model()}

    def compare(self, op, adopt=(), which=None):
        for k in self.nets:
            d = self.models[k].diff(self.nets[k], adopt if k == which else ())
            if d:
                raise Violation(("wrong-" if k == which else "other-network-") + d[0], f"network {k} after {op}: {d[1]}")

    # ------------------------------------------------ what add() is called with

    def args(self, k, op):
        """(kwargs for the call, static lists, series dicts) of an add."""
        _, _, cls, name, suffix, over, sp = op
        n, m = self.nets[k], self.models[k]
        many = isinstance(name, list)
        names = [str(x) + suffix for x in (name if many else [name])]
        kw, static, series = {}, {}, {}
        for a, (how, v) in sp.items():
            if a == "efficiency2" and "bus2" not in sp:
                continue
            if how == "s":
                kw[a] = v
                static[a] = [v] * len(names)
            elif how == "l1":
                kw[a] = [v]
                static[a] = [v] * len(names)
            elif how in ("D", "A") and many:
                if len(v) != len(m.sns) or any(len(r) != len(names) for r in v):
                    raise Skip("shape")
                arr = np.array(v, dtype=float).reshape(len(m.sns), len(names))
                kw[a] = arr if how == "A" else pd.DataFrame(arr, index=n.snapshots, columns=name if suffix and many else names)
                series[a] = {x: [r[i] for r in v] for i, x in enumerate(names)}
            elif not many:
                if len(v) != len(m.sns):
                    raise Skip("length")
                kw[a] = {"S": lambda v: pd.Series(v, index=n.snapshots), "arr": np.array, "tup": tuple}.get(how, list)(v)
                series[a] = {names[0]: [float(x) for x in v]}
            else:
                if len(v) != len(names):
                    raise Skip("length")
                if how == "S":
                    kw[a] = pd.Series(v, index=[str(x) for x in name] if suffix else names)
                elif how == "arr":
                    kw[a] = np.array(v, dtype=object if any(x is None or isinstance(x, str) for x in v) else None)
                elif how == "tup":
                    kw[a] = tuple(v)
                elif how == "idx":
                    kw[a] = pd.Index(v, dtype=object) if any(x is None for x in v) else pd.Index(v)
                else:
                    kw[a] = list(v)
                static[a] = list(v)
        return names, kw, static, series

    def step(self, op):
        kind, k = op[0], op[1]
        if kind == "new":
            if k in self.nets:
                raise Skip("exists")
            self.nets[k], self.models[k] = self.pypsa.Network(), Model()
            self.retime(k, ["snapshots", k, op[2], 1.0, False])
            return ()
        if k not in self.nets:
            return None
        n, m = self.nets[k], self.models[k]
        C = self.ctx
        if kind == "add":
            _, _, cls, name, suffix, over, sp = op
            names, kw, static, series = self.args(k, op)
            if any(f in attrs(cls) and attrs(cls)[f][0] == "string" and isinstance(v, (bool, int)) for f, vs in static.items() for v in vs if v is not None):
                return None
            new = m.clone()
            C.probe("add")
            C.probe("add-many", isinstance(name, list))
            C.probe("existing", any(m.known(cls, x) for x in names))
            C.probe("overwrite", over and any(m.known(cls, x) for x in names))
            C.probe("suffix", bool(suffix))
            C.probe("series", bool(series))
            C.probe("frame", bool(series) and isinstance(name, list))
            C.probe("ports", "bus2" in sp)
            C.probe("custom", any(a.startswith("my_") for a in static))
            C.probe("custom-series", "my_series" in series)
            new.begin(cls, names, over)
            new.add(cls, names, static, series, over)
            got = C.call("add", n.add, cls, name, suffix=suffix, overwrite=over, **kw)
            C.check(list(got) == names, "wrong-names-returned", lambda: f"{list(got)} != {names}")
            self.models[k] = new
            return ("order",) if over else ()
        if kind == "bad-add":
            return self.bad_add(k, op)
        if kind == "remove":
            _, _, cls, name, suffix = op
            names = [str(x) + suffix for x in (name if isinstance(name, list) else [name])]
            C.probe("remove")
            return self.edit(k, lambda M: M.remove(cls, names), lambda: n.remove(cls, name))
        if kind == "rename":
            _, _, cls, mp = op
            C.probe("rename")
            if cls == "Carrier":
                C.probe("rename-carrier")
            return self.edit(k, lambda M: M.rename(cls, mp), lambda: n.rename_component_names(cls, **mp))
        if kind == "set":
            _, _, cls, name, a, v = op
            if name not in m.static[cls]:
                return None
            m.static[cls][name][a] = float(v) if attrs(cls)[a][0] in ("float", "static or series") else v
            C.probe("set")
            if a not in n.static(cls).columns:
                return None
            n.static(cls).loc[name, a] = m.static[cls][name][a]
            return ()
        if kind in ("put", "unput"):
            _, _, cls, name, a, vals = op
            if name not in m.static[cls] or len(vals) != len(m.sns) or a not in n.dynamic(cls):
                return None
            if kind == "put":
                C.probe("put")
                m.series[cls].setdefault(a, {})[name] = list(vals)
                n.dynamic(cls)[a][name] = pd.Series(vals, index=n.snapshots)
            elif name in n.dynamic(cls)[a]:
                m.series[cls].get(a, {}).pop(name, None)
                n.dynamic(cls)[a] = n.dynamic(cls)[a].drop(columns=name)
            return ()
        if kind == "snapshots":
            self.retime(k, op)
            return ()
        if kind == "bad-snapshots":
            t = pd.date_range("2020", periods=3, freq="h")
            bad = {
                "empty": [],
                "tz": t.tz_localize("UTC"),
                "three": pd.MultiIndex.from_product([[1], [2], [3]]),
                "empty-multi": pd.MultiIndex.from_arrays([[], []]),
            }[op[2]]
            return self.rejected(k, op, lambda: n.set_snapshots(bad))
        if kind == "invest":
            C.probe("invest")
            return self.edit(k, lambda M: M.invest(op[2]), lambda: n.set_investment_periods(op[2]))
        if kind == "weights":
            _, _, how, rows = op
            if len(rows) != len(m.sns):
                return None
            C.probe("weights")
            if how == "frame":
                m.w = [list(map(float, r)) for r in rows]
                n.snapshot_weightings = pd.DataFrame(rows, index=n.snapshots, columns=["objective", "stores", "generators"], dtype=float)
            elif how == "series":
                m.w = [[float(r[0])] * 3 for r in rows]
                n.snapshot_weightings = pd.Series([float(r[0]) for r in rows], index=n.snapshots)
            else:
                for r, w in zip(rows, m.w):
                    w[1] = float(r[1])
                n.snapshot_weightings["stores"] = [float(r[1]) for r in rows]
            return ()
        if kind == "pweights":
            _, _, how, rows = op
            if not rows or len(rows) != len(m.pw) or [p for p, _ in m.pw] != m.periods():
                return None
            C.probe("pweights")
            if how == "frame":
                m.pw = [(p, list(map(float, r))) for (p, _), r in zip(m.pw, rows)]
                n.investment_period_weightings = pd.DataFrame(rows, index=n.investment_periods, columns=["objective", "years"], dtype=float)
            else:
                m.pw = [(p, [float(r[0])] * 2) for (p, _), r in zip(m.pw, rows)]
                n.investment_period_weightings = pd.Series([float(r[0]) for r in rows], index=n.investment_periods)
            return ()
        if kind == "bad-weights":

            def act():
                n.snapshot_weightings = pd.DataFrame(1.0, index=list(range(len(m.sns) + 1)), columns=["objective", "stores", "generators"])

            return self.rejected(k, op, act)
        if kind == "bad-pweights":

            def act():
                n.investment_period_weightings = pd.DataFrame(1.0, index=list(range(len(m.pw) + 1)), columns=["objective", "years"])

            return self.rejected(k, op, act)
        if kind == "bad-copy":
            return self.rejected(k, op, lambda: n.copy(snapshots=["no snapshot"]))
        if kind == "bad-slice":
            return self.rejected(k, op, lambda: n[["nobody"]])
        if kind == "name":
            n.name = m.name = op[2]
            return ()
        if kind == "copy":
            return self.copy(k, op)
        if kind == "slice":
            return self.slice(k, op)
        if kind == "merge":
            return self.merge(k, op)
        raise Skip(kind)

    def retime(self, k, op):
        _, _, spec, w, delta = op
        n, m = self.nets[k], self.models[k]
        idx = gen.make_snapshots(spec)
        sns = [s if not isinstance(s, pd.Timestamp) else str(s) for s in idx] if spec["kind"] != "multi" else [tuple(str(x) if isinstance(x, pd.Timestamp) else x for x in s) for s in idx]
        self.ctx.probe("snapshots")
        self.ctx.probe("levels", (spec["kind"] == "multi") != (m.levels == 2))
        m.retime(sns, 2 if spec["kind"] == "multi" else 1, w)
        if delta and spec["kind"] == "dt" and len(idx) > 1:
            self.ctx.probe("timedelta")
            h = [(b - a).total_seconds() / 3600 for a, b in zip(idx, idx[1:])]
            m.w = [[x] * 3 for x in h + h[-1:]]
        else:
            delta = False
        arg = idx if spec["kind"] in ("dt", "multi") else list(idx)
        self.ctx.call("set_snapshots", n.set_snapshots, arg, default_snapshot_weightings=w, weightings_from_timedelta=delta)

    # ------------------------------------------------------------- rejections

    def edit(self, k, on_model, act):
        """An edit which the model either carries out or refuses."""
        new = self.models[k].clone()
        try:
            on_model(new)
        except Reject as e:
            return self.rejected(k, str(e), act)
        self.ctx.call("edit", act)
        self.models[k] = new
        return ()

    def rejected(self, k, what, act):
        before = full(self.nets[k])
        _, e = self.ctx.attempt(act)
        self.ctx.probe("rejected")
        self.ctx.nontrivial = True
        self.ctx.fault("invalid-edit")
        if e is None:
            raise Violation("invalid-edit-accepted", f"{what}")
        d = gen.fp_diff(before, full(self.nets[k]))
        if d:
            raise Violation("rejected-edit-left-traces:" + d[0], f"{what} ({e!r}): {d[1]}")
        self.ctx.log("rejected", type(e).__name__)
        return ()

    def bad_add(self, k, op):
        _, _, cls, name, suffix, over, sp, kind, r = op
        n, m = self.nets[k], self.models[k]
        names, kw, static, series = self.args(k, op[:7])
        many = isinstance(name, list)
        ns, nc = len(m.sns), len(names)
        floats = [a for a, d in attrs(cls).items() if d[2] and d[0] in ("float", "static or series") and not a[-1].isdigit()]
        ints = [a for a, d in attrs(cls).items() if d[0] == "int"]
        varying = [a for a, d in attrs(cls).items() if d[3] and d[2] and not a[-1].isdigit()]
        pick = lambda xs: xs[r % len(xs)]  # noqa: E731
        if not floats:
            return None
        if kind == "class":
            cls = pick(["Busses", "", "generator x", "Networks"])
        elif kind == "duplicates":
            name = [name[0], name[0]] if many else [name, name]
            kw = {a: v for a, v in kw.items() if np.isscalar(v)}
        elif kind == "length":
            want = nc if many else ns
            wrong = want + 1 if want < 3 or r % 2 else want - 1
            kw[pick(floats)] = [1.0] * wrong if wrong != 1 else [1.0] * (want + 1)
        elif kind == "labels":
            if many and nc > 1:
                idx = names[::-1] if r % 2 else [*names[:-1], "nobody"]
                kw[pick(floats)] = pd.Series(1.0, index=idx)
            elif not many and varying:
                kw[pick(varying)] = pd.Series(1.0, index=[f"t{i}" for i in range(ns)])
            else:
                return None
        elif kind in ("frame-labels", "frame-index"):
            if not many or not varying:
                return None
            if kind == "frame-labels":
                kw[pick(varying)] = pd.DataFrame(1.0, index=n.snapshots, columns=[*names[:-1], "nobody"])
            else:
                kw[pick(varying)] = pd.DataFrame(1.0, index=[f"t{i}" for i in range(ns)], columns=names)
        elif kind == "shape":
            kw[pick(floats)] = np.ones((ns + 1, nc + 1))
        elif kind == "dict":
            kw[pick(floats)] = {"x": 1.0}
        elif kind in ("value", "port-value"):
            a = pick(floats + ints)
            kw[a] = "not a number" if not many or r % 2 else [*["1"] * (nc - 1), "x"] if nc > 1 else "x"
            if not many and isinstance(kw[a], list):
                kw[a] = "x"
            if kind == "port-value" and cls == "Link":
                kw[f"bus{2 + r % 3}"] = "a"
        elif kind == "hostile":
            self.ctx.probe("hostile")
            self.ctx.fault("failing-conversion")
            a = pick(floats + ints)
            h = Hostile(pick([ValueError, RuntimeError, OverflowError, OSError]))
            kw[a] = h if not many or nc == 1 else [*[1.0] * (nc - 1), h]
        return self.rejected(k, f"{kind}: {op[:6]}", lambda: n.add(cls, name, suffix=suffix, overwrite=over, **kw))

    # ------------------------------------------------------ derived networks

    def copy(self, k, op):
        _, _, j, pos, nostd = op
        n, m = self.nets[k], self.models[k]
        if j in self.nets:
            raise Skip("exists")
        new = m.clone()
        if pos is None and not nostd:
            got = self.ctx.call("copy", n.copy)
            self.ctx.probe("copy")
        else:
            if pos is not None and (len(pos) and pos[-1] >= len(m.sns)):
                return None
            if nostd:
                return None
            if not pos:
                new.without_time()
                got = self.ctx.call("copy-part", n.copy, snapshots=[])
            else:
                if m.levels == 2 and [p for p, _ in m.pw] != m.periods():
                    return None
                new.select(pos)
                kw = {"investment_periods": new.periods()} if m.levels == 2 and pos[0] % 2 else {}
                got = self.ctx.call("copy-part", n.copy, snapshots=n.snapshots[pos], **kw)
            self.ctx.probe("copy-part")
        self.ctx.nontrivial = True
        self.nets[j], self.models[j] = got, new
        self.compare(op, which=j)
        return ()

    def slice(self, k, op):
        _, _, j, buses, pos, how = op
        n, m = self.nets[k], self.models[k]
        if j in self.nets:
            raise Skip("exists")
        buses = [b for b in buses if b in m.index["Bus"]]
        if not buses or pos is not None and pos[-1] >= len(m.sns):
            return None
        if m.levels == 2 and [p for p, _ in m.pw] != m.periods():
            return None
        new = m.clone()
        new.only(buses)
        new.pw = [x for x in new.pw if x[0] in new.periods()]
        if pos is None:
            key = buses if how != "mask" else n.buses.index.isin(buses)
            if how == "mask":
                new.index["Bus"] = [b for b in m.index["Bus"] if b in buses]
        else:
            self.ctx.probe("slice-time")
            if how == "slice":
                pos = list(range(pos[0], pos[-1] + 1))
                t = slice(n.snapshots[pos[0]], n.snapshots[pos[-1]])
                if not n.snapshots.is_monotonic_increasing:
                    return None
            elif how == "mask":
                t = [i in pos for i in range(len(m.sns))]
            else:
                t = n.snapshots[pos]
            new.select(pos)
            key = (t, buses)
        got = self.ctx.call("slice", lambda: n[key])
        self.ctx.probe("slice")
        self.ctx.nontrivial = True
        self.nets[j], self.models[j] = got, new
        self.compare(op, which=j)
        return ()

    def merge(self, k, op):
        _, _, o, inplace, with_time = op
        if o not in self.nets:
            return None
        n, m = self.nets[k], self.models[k]
        new = m.clone()
        other = self.nets[o]
        try:
            new.merge(self.models[o], with_time)
        except Reject as e:
            if k == o and not any(m.index[c] for c in LISTS if c not in STANDARD):
                return None
            self.rejected(k, f"merge: {e}", lambda: n.merge(other, inplace=inplace, with_time=with_time))
            return ()
        if k == o:
            return None
        self.ctx.probe("merge")
        self.ctx.nontrivial = True
        if inplace:
            self.ctx.call("merge", n.merge, other, inplace=True, with_time=with_time)
            self.models[k] = new
            self.compare(op, ("custom",), k)
        else:
            got = self.ctx.call("merge", n.merge, other, with_time=with_time)
            self.compare(op)
            self.nets[k], self.models[k] = got, new
            self.compare(op, ("custom",), k)
        return ()


def full(n):
    out = gen.fingerprint(n)
    out["link-attributes"] = list(n.components["Link"].defaults.index)
    out["types"] = {c: [str(t) for t in n.static(c).dtypes] for c in LISTS if len(n.static(c))}
    return out


def execute(trace, ctx):
    R = Run(ctx)
    shape = []
    for op in trace["ops"]:
        try:
            adopt = R.step(op)
        except Skip:
            continue
        if adopt is None:
            continue
        R.compare(op, adopt, op[1])
        ctx.sim_time += 1
        ctx.log(*op[:3])
        shape.append(op[0])
        ctx.state(op[0], R.models[op[1]].levels if op[1] in R.models else 0, len(R.nets), tuple(sorted(c for c in LISTS if R.models[op[1]].index[c])))


def simplify(trace):
    ops = trace["ops"]
    for i, op in enumerate(ops):
        if op[0] in ("add", "bad-add"):
            for a in op[6]:
                yield {**trace, "ops": ops[:i] + [[*op[:6], {b: v for b, v in op[6].items() if b != a}, *op[7:]]] + ops[i + 1 :]}
            if op[5]:
                yield {**trace, "ops": ops[:i] + [[*op[:5], False, *op[6:]]] + ops[i + 1 :]}
