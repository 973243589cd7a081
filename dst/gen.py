"""Generated networks as JSON step lists, and their (re-)construction.

A network is a list of steps; steps whose references are missing (after
shrinking) are skipped deterministically, so every sub-list is a network too.
"""

from __future__ import annotations

import math

import numpy as np
import pandas as pd

INF = float("inf")
NAN = float("nan")


def weighted(rng, pairs):
    tot = sum(w for _, w in pairs)
    x = rng.random() * tot
    for v, w in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][0]


# ---------------------------------------------------------------- snapshots


def make_snapshots(spec):
    kind = spec["kind"]
    if kind == "int":
        return pd.Index(list(spec["values"]), name="snapshot")
    if kind == "str":
        return pd.Index(list(spec["values"]), name="snapshot")
    if kind == "dt":
        return pd.DatetimeIndex([pd.Timestamp(v) for v in spec["values"]], name="snapshot")
    if kind == "multi":
        inner = make_snapshots(spec["inner"])
        return pd.MultiIndex.from_product([spec["periods"], inner], names=["period", "timestep"])
    raise ValueError(kind)


def gen_snapshots(rng, n_max=5, kinds=("int", "dt", "str", "multi"), n_min=1):
    kind = rng.choice(list(kinds))
    n = rng.randint(n_min, n_max)
    if kind == "int":
        start = rng.choice([0, 0, 1, 2030, -2])
        return {"kind": "int", "values": [start + i for i in range(n)]}
    if kind == "str":
        return {"kind": "str", "values": [rng.choice(["t", "hour ", "t,"]) + str(i) + "x" for i in range(n)]}
    if kind == "dt":
        t = pd.Timestamp(rng.choice(["2015-01-01", "1999-12-31 23:00", "2024-02-28 22:30", "2050-03-30"]))
        out = []
        step = rng.choice(["1h", "3h", "15min", "1D", "irregular"])
        for _ in range(n):
            out.append(str(t))
            t = t + pd.Timedelta(step if step != "irregular" else rng.choice(["1h", "7min", "2D"]))
        return {"kind": "dt", "values": out}
    inner = gen_snapshots(rng, max(2, n_max // 2), ("int", "dt"))
    periods = sorted(rng.sample([2020, 2025, 2030, 2040, 2050], rng.randint(1, 3)))
    return {"kind": "multi", "periods": periods, "inner": inner}


def n_snapshots(spec):
    if spec["kind"] == "multi":
        return len(spec["periods"]) * len(spec["inner"]["values"])
    return len(spec["values"])


# ------------------------------------------------------------------ building


def build(steps, ignore_standard_types=False):
    import pypsa

    n = pypsa.Network(ignore_standard_types=ignore_standard_types)
    for s in steps:
        apply_step(n, s)
    return n


def ok_len(n, vals):
    return len(vals) == len(n.snapshots)


def apply_step(n, s) -> bool:
    """Apply one construction step; False if it was skipped."""
    op = s[0]
    if op == "snapshots":
        n.set_snapshots(make_snapshots(s[1]))
        if s[1]["kind"] == "multi":
            n.set_investment_periods(s[1]["periods"])
    elif op == "weightings":
        if len(s[1]) != len(n.snapshots):
            return False
        for j, c in enumerate(n.snapshot_weightings.columns):
            n.snapshot_weightings[c] = [row[j] for row in s[1]]
    elif op == "pweightings":
        if len(s[1]) != len(n.investment_periods) or not len(s[1]):
            return False
        for j, c in enumerate(n.investment_period_weightings.columns):
            n.investment_period_weightings[c] = [float(row[j]) for row in s[1]]
    elif op == "meta":
        n.meta = s[1]
    elif op == "name":
        n.name = s[1]
    elif op == "crs":
        n.crs = s[1]
    elif op == "add":
        _, cls, name, static, series = s
        if not refs_ok(n, cls, static) or name in n.static(cls).index:
            return False
        kw = {k: v for k, v in static.items() if k != "geometry"}
        if "geometry" in static:
            import shapely

            kw["geometry"] = shapely.from_wkt(static["geometry"])
        n.add(cls, name, **kw)
        for attr, vals in series.items():
            if ok_len(n, vals):
                put_series(n, cls, attr, name, vals)
    elif op == "custom":
        _, cls, col, vals = s
        st = n.static(cls)
        if not len(st):
            return False
        names = [i for i in st.index]
        st[col] = [vals[i % len(vals)] for i in range(len(names))]
    elif op == "customseries":
        _, cls, attr, rows = s
        st = n.static(cls)
        if not len(st) or len(rows) != len(n.snapshots):
            return False
        cols = list(st.index[: len(rows[0])])
        df = pd.DataFrame([r[: len(cols)] for r in rows], index=n.snapshots, columns=cols)
        df.columns.name = cls
        df.index.name = "snapshot"
        n.dynamic(cls)[attr] = df
    elif op == "set":
        _, cls, name, attr, val = s
        if name not in n.static(cls).index:
            return False
        n.static(cls).loc[name, attr] = val
    elif op == "series":
        _, cls, name, attr, vals = s
        if name not in n.static(cls).index or not ok_len(n, vals):
            return False
        put_series(n, cls, attr, name, vals)
    else:
        raise ValueError(op)
    return True


def put_series(n, cls, attr, name, vals):
    n.dynamic(cls)[attr][name] = pd.Series(np.asarray(vals, dtype=float), index=n.snapshots)


def refs_ok(n, cls, static):
    for k, v in static.items():
        if k.startswith("bus") and (k == "bus" or k[3:].isdigit()):
            if v == "" and k not in ("bus", "bus0", "bus1"):
                continue
            if v not in n.buses.index:
                return False
    if cls in ("Line", "Transformer") and static.get("type"):
        types = n.line_types if cls == "Line" else n.transformer_types
        if static["type"] not in types.index:
            return False
    return True


# --------------------------------------------------- wide networks (for I/O)

CLASSES = [
    "Carrier",
    "Bus",
    "LineType",
    "TransformerType",
    "Line",
    "Transformer",
    "Link",
    "Load",
    "Generator",
    "StorageUnit",
    "Store",
    "ShuntImpedance",
    "GlobalConstraint",
    "Shape",
]
ONE_PORT = {"Load", "Generator", "StorageUnit", "Store", "ShuntImpedance"}
BRANCH = {"Line", "Transformer", "Link"}
DERIVED = {"sub_network", "r_pu", "x_pu", "g_pu", "b_pu"}

NAMES = ["a", "bus b", "C-1", "x_0", "Ünit é", "gas,CC", "q\"t", "gen/1", "t.2", "0x1f", "-m", "ab", "(s)", "Nord 5", "k;l", "%p"]
STRINGS = ["AC", "gas", "wind on", "é ü", "a,b", "he said \"x\"", "#ff00aa", "Slack", "PV", "x'y", "p|q", "1a"]
FLOATS = [0.0, 1.0, -1.0, 0.1, 0.30000000000000004, 1e-9, 123456.789, -2.5, 1e15, INF, -INF, 7.0, 1 / 3, 2.0**-40, 99.999999999]


def rfloat(rng, finite=False):
    if rng.random() < 0.4:
        return round(rng.uniform(-100, 100), rng.choice([0, 1, 3, 12]))
    while True:
        x = rng.choice(FLOATS)
        if not finite or math.isfinite(x):
            return x


def gen_wide(rng, size=1.0, allow_multi=True, text_safe=True):
    """Steps of a network which uses every kind of component and attribute."""
    from pypsa.components.types import all_components

    by_name = {ct.name: ct for ct in all_components.values()}
    steps = []
    sns = gen_snapshots(rng, 4, ("int", "dt", "str", "multi") if allow_multi else ("int", "dt", "str"))
    if rng.random() < 0.9:
        steps.append(["snapshots", sns])
    else:
        sns = {"kind": "str", "values": ["now"]}
    ns = n_snapshots(sns)
    if rng.random() < 0.5:
        steps.append(["weightings", [[rfloat(rng, True) for _ in range(3)] for _ in range(ns)]])
    if sns["kind"] == "multi" and rng.random() < 0.7:
        steps.append(["pweightings", [[rfloat(rng, True) for _ in range(2)] for _ in sns["periods"]]])
    if rng.random() < 0.7:
        steps.append(["name", rng.choice(["net", "my, net", "é", "n 1"])])
    if rng.random() < 0.6:
        steps.append(["meta", gen_meta(rng)])
    if rng.random() < 0.3:
        steps.append(["crs", rng.choice([3035, 4326, 25832, "ESRI:102013"])])
    buses: list[str] = []
    p_class = rng.choice([0.15, 0.3, 0.6])
    swarm = {c for c in CLASSES if rng.random() < p_class} | {"Bus"}
    p_attr = rng.choice([0.02, 0.1, 0.3])
    p_series = rng.choice([0.0, 0.05, 0.2])
    for cls in CLASSES:
        if cls not in swarm:
            continue
        ct = by_name[cls]
        used = set()
        for _ in range(rng.randint(1, 3) if cls != "Bus" else rng.randint(1, 4)):
            name = rng.choice(NAMES)
            if name in used:
                continue
            used.add(name)
            static, series = {}, {}
            for attr, d in ct.defaults.iterrows():
                if attr in ("name", "geometry") or attr in DERIVED or attr.startswith("bus"):
                    continue
                if d.static and rng.random() < p_attr:
                    t = d.type
                    if t == "boolean":
                        static[attr] = rng.random() < 0.5
                    elif t == "int":
                        static[attr] = rng.choice([0, 1, 2, 2030, -1, 17])
                    elif t == "string":
                        if attr == "type" and cls in BRANCH:
                            continue
                        static[attr] = rng.choice(STRINGS)
                    else:
                        static[attr] = rfloat(rng)
                if d.varying and rng.random() < p_series:
                    mode = rng.random()
                    if mode < 0.7:
                        series[attr] = [rfloat(rng) for _ in range(ns)]
                    elif mode < 0.85:
                        x = rfloat(rng)
                        series[attr] = [x] * ns
                    else:
                        series[attr] = [float(d.default)] * ns  # hides the static value
                        if d.static and rng.random() < 0.7:
                            static[attr] = rfloat(rng, True)
            if cls in ONE_PORT:
                static["bus"] = rng.choice(buses)
            if cls in BRANCH:
                static["bus0"], static["bus1"] = rng.choice(buses), rng.choice(buses)
            if cls == "Link" and rng.random() < 0.5:
                static["bus2"] = rng.choice(buses + [""])
                static["efficiency2"] = rfloat(rng, True)
                if rng.random() < 0.3:
                    static["bus3"] = rng.choice(buses)
            if cls in ("Line", "Transformer") and rng.random() < 0.3:
                static["type"] = "Al/St 240/40 4-bundle 380.0" if cls == "Line" else "160 MVA 380/110 kV"
            if cls == "Shape":
                static["geometry"] = rng.choice(
                    ["POINT (1 2.5)", "POLYGON ((0 0, 1 0, 1 1, 0 0))", "LINESTRING (0 0, 1.25 3)", "POINT (0.1 -7)"]
                )
            if cls == "Bus":
                buses.append(name)
            steps.append(["add", cls, name, static, series])
        if used and rng.random() < 0.15:
            kind = rng.choice(["float", "str", "bool", "int"])
            vals = {
                "float": [rfloat(rng, True) for _ in range(3)],
                "str": [rng.choice(STRINGS) for _ in range(3)],
                "bool": [rng.random() < 0.5 for _ in range(3)],
                "int": [rng.randint(-5, 5) for _ in range(3)],
            }[kind]
            if cls not in ("Shape", "LineType", "TransformerType"):
                steps.append(["custom", cls, "my_" + kind + rng.choice(["", "2"]), vals])
        if used and rng.random() < 0.15 and cls not in ("Shape", "LineType", "TransformerType"):
            m = rng.randint(1, len(used))
            steps.append(["customseries", cls, "my_series", [[rfloat(rng, True) for _ in range(m)] for _ in range(ns)]])
    return steps


def gen_meta(rng):
    out = {}
    for _ in range(rng.randint(1, 3)):
        k = rng.choice(["a", "key 2", "ü", "version"])
        out[k] = rng.choice(["text", 3, 2.5, True, {"x": [1, 2], "y": {"z": "w"}}])
    return out


# ---------------------------------------------------------------- comparison


def as_dense(n, cls, attr):
    """Own reading of 'series where given, else static value'."""
    st = n.static(cls)
    d = n.components[cls].defaults.loc[attr]
    dyn = n.dynamic(cls).get(attr)
    out = {}
    for name in st.index:
        if dyn is not None and name in dyn.columns:
            out[name] = [v for v in dyn[name].values]
        elif attr in st.columns:
            out[name] = [st[attr][name]] * len(n.snapshots)
        else:
            out[name] = [d.default] * len(n.snapshots)
    return out


def same_value(x, y, tol):
    if isinstance(x, (bool, np.bool_)) or isinstance(y, (bool, np.bool_)):
        return bool(x) == bool(y) and not isinstance(x, str) and not isinstance(y, str)
    xn, yn = isinstance(x, (int, float, np.number)), isinstance(y, (int, float, np.number))
    if xn and yn:
        x, y = float(x), float(y)
        if math.isnan(x) or math.isnan(y):
            return math.isnan(x) and math.isnan(y)
        if x == y:
            return True
        if math.isinf(x) or math.isinf(y):
            return False
        return abs(x - y) <= tol * max(abs(x), abs(y))
    if x is None or y is None:
        return x is y
    if hasattr(x, "equals_exact"):
        return hasattr(y, "equals_exact") and x.equals_exact(y, 1e-12)
    return type(x) is type(y) and x == y or (isinstance(x, str) and isinstance(y, str) and x == y)


def diff_networks(a, b, tol=0.0, skip_attrs=(), ignore_std=True, skip_time=False, results=True):
    """First difference between two networks as (kind, message), or None."""
    # b may lack trailing information which equals the defaults
    if a.name != b.name:
        return "name", f"{a.name!r} != {b.name!r}"
    if a.meta != b.meta:
        return "meta", f"{a.meta!r} != {b.meta!r}"
    if not skip_time:
        if not same_index(a.snapshots, b.snapshots):
            return "snapshots", f"{list(a.snapshots)} != {list(b.snapshots)}"
        if not frame_same(a.snapshot_weightings, b.snapshot_weightings, tol):
            return "snapshot_weightings", f"{a.snapshot_weightings.to_dict()} != {b.snapshot_weightings.to_dict()}"
        if list(a.investment_periods) != list(b.investment_periods):
            return "investment_periods", f"{list(a.investment_periods)} != {list(b.investment_periods)}"
        if not frame_same(a.investment_period_weightings, b.investment_period_weightings, tol):
            return "investment_period_weightings", f"{a.investment_period_weightings} != {b.investment_period_weightings}"
    if (a.crs is None) != (b.crs is None) or (a.crs is not None and a.crs != b.crs):
        return "crs", f"{a.crs} != {b.crs}"
    if a.shapes.crs != b.shapes.crs and len(a.shapes):
        return "crs", f"shapes: {a.shapes.crs} != {b.shapes.crs}"
    for cls in sorted(set(a.all_components) - {"SubNetwork", "Network"}):
        sa, sb = a.static(cls), b.static(cls)
        ia, ib = list(sa.index), list(sb.index)
        if ia != ib:
            if sorted(map(str, ia)) != sorted(map(str, ib)):
                return f"components:{cls}", f"{trunc(ia)} != {trunc(ib)}"
            return f"component-order:{cls}", f"{trunc(ia)} != {trunc(ib)}"
        if not ia:
            continue
        defaults = a.components[cls].defaults
        bdefaults = b.components[cls].defaults
        for col in sorted(set(map(str, sa.columns)) | set(map(str, sb.columns))):
            if col in DERIVED or col in skip_attrs or col == "name":
                continue
            if not results and col in defaults.index and str(defaults.at[col, "status"]).startswith("Output"):
                continue
            va = list(sa[col]) if col in sa else None
            vb = list(sb[col]) if col in sb else None
            if va is None:
                d = bdefaults if col in bdefaults.index else defaults
                if col not in d.index:
                    return f"static:{cls}.{col}", "extra custom attribute"
                va = [d.at[col, "default"]] * len(ia)
            if vb is None:
                if col not in defaults.index:
                    return f"static:{cls}.{col}", "custom attribute lost"
                vb = [defaults.at[col, "default"]] * len(ia)
            for i, x, y in zip(ia, va, vb):
                if not same_value(x, y, tol):
                    return f"static:{cls}.{col}", f"{i}: {x!r} != {y!r}"
        if skip_time:
            continue
        da, db = a.dynamic(cls), b.dynamic(cls)
        for attr in sorted(set(da) | set(db)):
            known = defaults if attr in defaults.index else bdefaults
            if attr in known.index and known.at[attr, "varying"]:
                if not results and str(known.at[attr, "status"]).startswith("Output"):
                    continue
                A, B = dense(a, cls, attr, known), dense(b, cls, attr, known)
                for name in ia:
                    for t, (x, y) in enumerate(zip(A[name], B[name])):
                        if not same_value(x, y, tol):
                            return f"series:{cls}.{attr}", f"{name}[{t}]: {x!r} != {y!r}"
            else:
                fa, fb = da.get(attr), db.get(attr)
                if fa is None or fb is None:
                    if (fa is None or fa.empty) and (fb is None or fb.empty):
                        continue
                    return f"series:{cls}.{attr}", "custom series " + ("extra" if fa is None or fa.empty else "lost")
                if not frame_same(fa, fb, tol):
                    return f"series:{cls}.{attr}", f"{fa.to_dict()} != {fb.to_dict()}"
    return None


def dense(n, cls, attr, known):
    st = n.static(cls)
    dyn = n.dynamic(cls).get(attr)
    default = known.at[attr, "default"]
    out = {}
    for name in st.index:
        if dyn is not None and name in dyn.columns:
            out[name] = list(dyn[name].values)
        elif attr in st.columns:
            out[name] = [st[attr][name]] * len(n.snapshots)
        else:
            out[name] = [default] * len(n.snapshots)
    return out


def trunc(x, k=12):
    return x if len(x) <= k else f"{x[:k]}... ({len(x)})"


def same_index(i, j):
    if len(i) != len(j) or isinstance(i, pd.MultiIndex) != isinstance(j, pd.MultiIndex):
        return False
    return all(norm_label(x) == norm_label(y) for x, y in zip(i, j))


def norm_label(x):
    if isinstance(x, tuple):
        return tuple(norm_label(v) for v in x)
    if isinstance(x, (np.integer, int)) and not isinstance(x, bool):
        return int(x)
    if isinstance(x, (pd.Timestamp, np.datetime64)):
        return pd.Timestamp(x)
    return x


def frame_same(a, b, tol):
    if sorted(map(str, a.columns)) != sorted(map(str, b.columns)):
        return False
    if not same_index(a.index, b.index):
        return False
    return all(same_value(x, y, tol) for c in a.columns for x, y in zip(a[c].values, b[c].values))


def fingerprint(n, inputs_only=False):
    """Deep snapshot of everything a user can see, for 'was not modified' checks."""
    out = {
        "name": n.name,
        "meta": repr(n.meta),
        "crs": str(n.crs),
        "snapshots": list(map(norm_label, n.snapshots)),
        "sw": n.snapshot_weightings.to_dict("list"),
        "ipw": n.investment_period_weightings.to_dict("list"),
        "periods": list(n.investment_periods),
    }
    for cls in sorted(set(n.all_components) - {"Network"}):
        d = n.components[cls].defaults
        st = n.static(cls)
        out[f"{cls}.index"] = list(st.index)
        for col in sorted(map(str, st.columns)):
            if inputs_only and col in d.index and str(d.at[col, "status"]).startswith("Output"):
                continue
            out[f"{cls}.{col}"] = [norm_cell(v) for v in st[col]]
            if inputs_only and cls in ("Line", "Transformer") and col in TYPED:
                # parameters of standard types are derived, not given
                out[f"{cls}.{col}"] = [norm_cell(v) if t == "" else "typed" for v, t in zip(st[col], st["type"])]
        for attr, df in sorted(n.dynamic(cls).items()):
            if inputs_only and attr in d.index and str(d.at[attr, "status"]).startswith("Output"):
                continue
            for c in sorted(df.columns, key=str):
                out[f"{cls}_t.{attr}.{c}"] = [norm_cell(v) for v in df[c].values]
            if len(df) != len(n.snapshots):
                out[f"{cls}_t.{attr}!len"] = len(df)
    return out


TYPED = ("r", "x", "g", "b", "phase_shift", "s_nom", "tap_side", "tap_ratio", "i_nom", "v_nom")
# filled in by PyPSA from the bus or chosen by the topology
DERIVED_ENTRIES = ("Line.carrier", "Link.carrier", "Store.carrier", "Generator.control", "Bus.control", "SubNetwork*", "Line.v_nom", "ShuntImpedance.v_nom", "Transformer_t.loss*", "Line_t.loss*")


def inputs_diff(a, b):
    return fp_diff(a, b, DERIVED_ENTRIES)


def norm_cell(v):
    if isinstance(v, (float, np.floating)):
        return "nan" if math.isnan(v) else float(v)
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (np.integer, int)):
        return int(v)
    return str(v)


def fp_diff(a, b, ignore=()):
    for k in sorted(set(a) | set(b)):
        if k in ignore or any(p.endswith("*") and k.startswith(p[:-1]) for p in ignore):
            continue
        if a.get(k) != b.get(k):
            return k, f"{k}: {a.get(k)} -> {b.get(k)}"
    return None
