"""Generated networks for power flow, and an own reading of their data.

The equations are those of the documentation (power flow chapter); nothing of
pypsa's preparation (per-unit values, topology, bus ordering) is used.
"""

from __future__ import annotations

import csv
import functools
import math
import os

from dst import gen
from dst.core import REPO
from dst.flow import islands

ONE_PORT = ("Generator", "Load", "StorageUnit", "Store")
LINE_TYPES = ["Al/St 240/40 4-bundle 380.0", "Al/St 240/40 2-bundle 220.0", "NAYY 4x50 SE"]
TRAFO_TYPES = ["160 MVA 380/110 kV", "100 MVA 220/110 kV"]


def val(rng, lo, hi):
    return round(rng.uniform(lo, hi), 4)


def gen_branch(rng, cls, b0, b1, ac=True):
    if cls == "Line":
        st = {"bus0": b0, "bus1": b1, "x": val(rng, 0.5, 30), "r": val(rng, 0.1, 8), "s_nom": 100.0}
        if ac and rng.random() < 0.4:
            st["b"] = val(rng, 0, 3e-4)
        if ac and rng.random() < 0.2:
            st["g"] = val(rng, 0, 2e-5)
        if ac and rng.random() < 0.15:
            st.update(type=rng.choice(LINE_TYPES), length=val(rng, 1, 60), num_parallel=rng.choice([1.0, 2.0, 1.5]))
    else:
        st = {"bus0": b0, "bus1": b1, "x": val(rng, 0.02, 0.3), "r": val(rng, 0.0, 0.05), "s_nom": rng.choice([100.0, 250.0])}
        if rng.random() < 0.3:
            st["tap_ratio"] = val(rng, 0.9, 1.1)
        if rng.random() < 0.3:
            st["phase_shift"] = rng.choice([5.0, -10.0, 30.0, 150.0])
        if rng.random() < 0.3:
            st["tap_side"] = 1
        if rng.random() < 0.3:
            st["model"] = "pi"
        if rng.random() < 0.3:
            st["b"], st["g"] = val(rng, -0.02, 0), val(rng, 0, 0.01)
        if rng.random() < 0.15:
            st.update(type=rng.choice(TRAFO_TYPES), tap_position=rng.choice([0, 2, -3]))
    if rng.random() < 0.08:
        st["active"] = False
    return st


def gen_net(rng, dc=True, scale=30.0, ns=None, max_buses=5):
    """Steps of a network, and {bus: (carrier, v_nom, group)}."""
    steps, buses = [], {}
    sns = gen.gen_snapshots(rng, 3 if ns is None else ns, ("int", "dt", "str"))
    if rng.random() < 0.12:
        sns = gen.gen_snapshots(rng, 4, ("multi",))
    ns = gen.n_snapshots(sns)
    steps.append(["snapshots", sns])
    for g in range(rng.choice([1, 1, 2, 2, 3])):
        carrier = "DC" if dc and rng.random() < 0.25 else "AC"
        nb = rng.randint(1, max_buses)
        mine = []
        base = rng.choice([110.0, 220.0, 380.0])
        for i in range(nb):
            name = f"{'xyz'[g]}{i}"
            v = base if not mine or carrier == "DC" or rng.random() < 0.8 else rng.choice([110.0, 220.0, 380.0])
            buses[name] = (carrier, v, g)
            mine.append(name)
    order = list(buses)
    rng.shuffle(order)
    for b in order:
        c, v, _ = buses[b]
        st = {"v_nom": v, "carrier": c}
        ser = {}
        if rng.random() < 0.3:
            st["v_mag_pu_set"] = val(rng, 0.95, 1.05)
        if rng.random() < 0.1:
            ser["v_mag_pu_set"] = [val(rng, 0.95, 1.05) for _ in range(ns)]
        steps.append(["add", "Bus", b, st, ser])
    k = 0
    for g in range(3):
        mine = [b for b in order if buses[b][2] == g]
        pairs = [(b, mine[rng.randrange(i)]) for i, b in enumerate(mine) if i and rng.random() < 0.95]
        pairs += [tuple(rng.sample(mine, 2)) for _ in range(rng.randint(0, 3)) if len(mine) > 1]
        for b0, b1 in pairs:
            if rng.random() < 0.5:
                b0, b1 = b1, b0
            steps.append(gen_new_branch(rng, buses, b0, b1, f"l{k}"))
            k += 1
    for i in range(rng.randint(0, 3)):
        steps.append(gen_link(rng, order, f"k{i}", ns))
    for i in range(rng.randint(1, 4) if rng.random() < 0.9 else 0):
        steps.append(gen_oneport(rng, "Generator", rng.choice(order), f"g{i}", ns, scale))
    for i in range(rng.randint(0, 4)):
        steps.append(gen_oneport(rng, "Load", rng.choice(order), f"d{i}", ns, scale))
    for cls in ("StorageUnit", "Store"):
        if rng.random() < 0.3:
            steps.append(gen_oneport(rng, cls, rng.choice(order), f"s{cls[:5]}", ns, scale))
    if rng.random() < 0.35:
        steps.append(gen_shunt(rng, rng.choice(order), "h0"))
    return steps, buses, ns


def gen_new_branch(rng, buses, b0, b1, name):
    same_v = buses[b0][1] == buses[b1][1]
    cls = "Line" if buses[b0][0] == "DC" or (same_v and rng.random() < 0.85) else "Transformer"
    return ["add", cls, name, gen_branch(rng, cls, b0, b1, buses[b0][0] == "AC"), {}]


def gen_link(rng, order, name, ns):
    st = {"bus0": rng.choice(order), "bus1": rng.choice(order), "p_set": val(rng, -20, 20), "efficiency": rng.choice([1.0, 0.9])}
    ser = {}
    if rng.random() < 0.3:
        ser["p_set"] = [val(rng, -20, 20) for _ in range(ns)]
    if rng.random() < 0.2:
        ser["efficiency"] = [val(rng, 0.5, 1) for _ in range(ns)]
    if rng.random() < 0.2:
        st["bus2"], st["efficiency2"] = rng.choice([*order, ""]), 0.3
    if rng.random() < 0.15:
        st["active"] = False
    return ["add", "Link", name, st, ser]


def gen_oneport(rng, cls, b, name, ns, scale):
    lo, hi = (0, scale) if cls in ("Generator", "Load") else (-scale / 3, scale / 3)
    st = {"bus": b, "p_set": val(rng, lo, hi)}
    ser = {}
    if rng.random() < 0.4:
        ser["p_set"] = [val(rng, lo, hi) for _ in range(ns)]
    if rng.random() < 0.3:
        st["q_set"] = val(rng, -scale / 6, scale / 6)
    if cls == "Generator":
        st["p_nom"] = rng.choice([0.0, 10.0, 50.0])
        st["control"] = gen.weighted(rng, [("PQ", 5), ("PV", 3), ("Slack", 1.5)])
    if rng.random() < 0.1:
        st["sign"] = -1.0 if cls != "Load" else 1.0
    if rng.random() < 0.1:
        st["active"] = False
    return ["add", cls, name, st, ser]


def gen_shunt(rng, b, name):
    st = {"bus": b, "g": val(rng, 0, 2e-4), "b": val(rng, -2e-4, 2e-4)}
    if rng.random() < 0.2:
        st["active"] = False
    return ["add", "ShuntImpedance", name, st, {}]


# --------------------------------------------------------------- own reading


@functools.lru_cache(None)
def types(kind):
    with open(os.path.join(REPO, "pypsa/data/standard_types", kind + ".csv")) as f:
        return {r["name"]: r for r in csv.DictReader(f)}


def series(n, cls, name, attr):
    """Values of an input for every snapshot."""
    df = n.dynamic(cls).get(attr)
    if df is not None and name in df.columns:
        return [float(v) for v in df[name].values]
    return [float(n.static(cls).at[name, attr])] * len(n.snapshots)


def read(n, ac_only=False):
    """Buses, branches and injections of the active components, from the inputs alone."""
    d = {"buses": list(n.buses.index), "carrier": dict(n.buses.carrier), "v_nom": dict(n.buses.v_nom), "branches": [], "ports": []}
    for name, r in n.lines.iterrows():
        if not r.active:
            continue
        v = d["v_nom"][r.bus0] ** 2
        x, rr, b, g = r.x, r.r, r.b, r.g
        if r.type:
            t = types("line_types")[r.type]
            x = float(t["x_per_length"]) * r.length / r.num_parallel
            rr = float(t["r_per_length"]) * r.length / r.num_parallel
            b = 2 * math.pi * float(t["f_nom"]) * float(t["c_per_length"]) * 1e-9 * r.length * r.num_parallel
        d["branches"].append({"key": ("Line", name), "bus0": r.bus0, "bus1": r.bus1, "z": complex(rr, x) / v, "y": complex(g, b) * v, "tap": 1.0, "side": 0, "shift": 0.0, "model": "pi"})
    for name, r in n.transformers.iterrows():
        if not r.active:
            continue
        s, x, rr, b, g, tap, side, shift = r.s_nom, r.x, r.r, r.b, r.g, r.tap_ratio, r.tap_side, r.phase_shift
        if r.type:
            t = {k: float(v) for k, v in types("transformer_types")[r.type].items() if k not in ("name", "references")}
            s = t["s_nom"]
            rr = t["vscr"] / 100
            x = math.sqrt((t["vsc"] / 100) ** 2 - rr**2)
            g = t["pfe"] / (1000 * s)
            b = -math.sqrt(max(0.0, (t["i0"] / 100) ** 2 - g**2))
            rr, x, b, g = rr / r.num_parallel, x / r.num_parallel, b * r.num_parallel, g * r.num_parallel
            tap = 1 + (r.tap_position - t["tap_neutral"]) * t["tap_step"] / 100
            side, shift = int(t["tap_side"]), t["phase_shift"]
        d["branches"].append({"key": ("Transformer", name), "bus0": r.bus0, "bus1": r.bus1, "z": complex(rr, x) / s, "y": complex(g, b) * s, "tap": tap, "side": side, "shift": math.radians(shift), "model": r.model})
    return d


def z_linear(d, br):
    """Series impedance seen by the linear power flow."""
    if d["carrier"][br["bus0"]] == "DC":
        return br["z"].real
    return br["z"].imag * br["tap"]


def link_ports(n):
    return [""] + sorted(c[3:] for c in n.links.columns if c.startswith("bus") and c[3:].isdigit() and c not in ("bus0", "bus1"))


def link_powers(n, name, t):
    """(port, bus, power taken from the bus) of a link."""
    r = n.links.loc[name]
    p0 = series(n, "Link", name, "p_set")[t] if r.active else 0.0
    out = [("0", r.bus0, p0)]
    for port in link_ports(n):
        b = r["bus" + (port or "1")]
        if b == "":
            continue
        out.append((port or "1", b, -p0 * series(n, "Link", name, "efficiency" + port)[t]))
    return out


def slacks(n, d, active_only=True):
    """{bus of the slack: generator or None} for every island."""
    out = {}
    lists = islands(d["buses"], [(b["key"], b["bus0"], b["bus1"]) for b in d["branches"]])
    gens = [(g, r) for g, r in n.generators.iterrows() if r.active]
    for isl in lists:
        mine = [(g, r) for g, r in gens if r.bus in isl]
        pick = [g for g, r in mine if r.control == "Slack"] or [g for g, r in mine]
        if pick:
            out[n.generators.at[pick[0], "bus"]] = pick[0]
        else:
            out[isl[0]] = None
    return out, lists
