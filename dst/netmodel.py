"""A small reference model of a network's data: dictionaries, nothing else.

Defaults are read from the documented attribute tables, not from the running
package.  ``Reject`` marks edits which the documentation rules out.
"""

from __future__ import annotations

import copy
import csv
import functools
import math
import os

import numpy as np
import pandas as pd

from dst.core import REPO

NAN = float("nan")
LISTS = {
    "Bus": "buses",
    "Carrier": "carriers",
    "Generator": "generators",
    "Load": "loads",
    "Link": "links",
    "Line": "lines",
    "Transformer": "transformers",
    "StorageUnit": "storage_units",
    "Store": "stores",
    "ShuntImpedance": "shunt_impedances",
    "GlobalConstraint": "global_constraints",
    "LineType": "line_types",
    "TransformerType": "transformer_types",
    "SubNetwork": "sub_networks",
    "Shape": "shapes",
}
STANDARD = ("LineType", "TransformerType")
ONE_PORT = ("Generator", "Load", "StorageUnit", "Store", "ShuntImpedance")
BRANCH = ("Line", "Transformer", "Link")
KEPT_BY_SLICES = ("Carrier", "GlobalConstraint")
WCOLS = ("objective", "stores", "generators")
PCOLS = ("objective", "years")


class Reject(Exception):
    """The edit must raise an error and change nothing."""


@functools.lru_cache(None)
def attrs(cls):
    """attribute -> (type, default, static?, varying?) from the documentation tables."""
    out = {}
    with open(os.path.join(REPO, "pypsa/data/component_attrs", LISTS[cls] + ".csv")) as f:
        for r in csv.DictReader(f):
            a, t, d = r["attribute"], r["type"], r["default"]
            if a == "name" or a == "obj":
                continue
            if t == "boolean":
                v = d == "True"
            elif t == "int":
                v = int(float(d))
            elif t == "string":
                v = "" if d in ("n/a", "", "nan", "None") else d
            elif t == "geometry":
                v = None
            else:
                v = NAN if d in ("n/a", "", "nan", "NaN") else float(d)
            out[a] = (t, v, t != "series", t in ("series", "static or series"))
    if cls == "Link":
        for i in range(2, 5):
            out[f"bus{i}"] = ("string", "", True, False)
            out[f"efficiency{i}"] = ("static or series", 1.0, True, True)
            out[f"p{i}"] = ("series", 0.0, False, True)
    return out


@functools.lru_cache(None)
def standard_types(cls):
    with open(os.path.join(REPO, "pypsa/data/standard_types", LISTS[cls] + ".csv")) as f:
        return [r["name"] for r in csv.DictReader(f)]


def isnan(x):
    return x is None or isinstance(x, (float, np.floating)) and math.isnan(x)


def cast(t, v):
    """A documented value of the attribute's type."""
    if t == "boolean":
        return bool(v)
    if t == "int":
        return int(v)
    if t == "string":
        return v if isinstance(v, str) else str(v)
    return float(v)


class Model:
    def __init__(self):
        self.name = ""
        self.index = {c: [] for c in LISTS}
        self.static = {c: {} for c in LISTS}  # name -> {attr: value}, defaults left out
        self.series = {c: {} for c in LISTS}  # attr -> {name: [values]}
        self.custom = {c: {} for c in LISTS}  # custom series, the same
        self.sns = ["now"]
        self.levels = 1
        self.w = [[1.0] * 3]
        self.pw = []  # [(period, [values])]
        self.std = {c: set(standard_types(c)) for c in STANDARD}

    def clone(self):
        return copy.deepcopy(self)

    # ---------------------------------------------------------------- reading

    def value(self, cls, name, attr):
        got = self.static[cls][name].get(attr)
        if got is not None:
            return got
        return attrs(cls)[attr][1] if attr in attrs(cls) else NAN

    def known(self, cls, name):
        return name in self.static[cls] or cls in STANDARD and name in self.std[cls]

    def custom_attrs(self, cls):
        return {a for s in self.static[cls].values() for a in s if a not in attrs(cls)}

    # ---------------------------------------------------------------- editing

    def add(self, cls, names, static, series, overwrite=False):
        """static: attr -> list of values, series: attr -> {name: list}."""
        for name in names:
            if self.known(cls, name):
                if not overwrite:
                    continue
                self.drop(cls, name)
            self.index[cls].append(name)
            self.static[cls][name] = {}
        for k, vals in static.items():
            for name, v in zip(names, vals):
                if not self.fresh(cls, name):
                    continue
                if isnan(v):
                    continue
                if k in attrs(cls):
                    t, d, st, _ = attrs(cls)[k]
                    if st:
                        self.static[cls][name][k] = cast(t, v)
                    else:
                        self.series[cls].setdefault(k, {})[name] = [float(v)] * len(self.sns)
                else:
                    self.static[cls][name][k] = v
        for k, cols in series.items():
            into = self.series if k in attrs(cls) and attrs(cls)[k][3] else self.custom
            for name, v in cols.items():
                if self.fresh(cls, name):
                    into[cls].setdefault(k, {})[name] = list(v)

    def fresh(self, cls, name):
        return name in self._new

    def begin(self, cls, names, overwrite):
        self._new = {n for n in names if overwrite or not self.known(cls, n)}

    def drop(self, cls, name):
        if name in self.index[cls]:
            self.index[cls].remove(name)
        self.static[cls].pop(name, None)
        if cls in STANDARD:
            self.std[cls].discard(name)
        for group in (self.series, self.custom):
            for cols in group[cls].values():
                cols.pop(name, None)

    def remove(self, cls, names):
        for n in names:
            if not self.known(cls, n):
                raise Reject(f"unknown {cls} {n}")
        for n in names:
            self.drop(cls, n)

    def rename(self, cls, mapping):
        names = self.index[cls] + [n for n in (self.std[cls] if cls in STANDARD else ())]
        new = [mapping.get(n, n) for n in names]
        if len(set(new)) < len(new):
            raise Reject("names are not unique")
        if any(not isinstance(v, str) for v in mapping.values()):
            raise Reject("names are not strings")
        f = lambda n: mapping.get(n, n)  # noqa: E731
        self.index[cls] = [f(n) for n in self.index[cls]]
        self.static[cls] = {f(n): v for n, v in self.static[cls].items()}
        for group in (self.series, self.custom):
            group[cls] = {a: {f(n): v for n, v in cols.items()} for a, cols in group[cls].items()}
        refs = {"Bus": "bus", "Carrier": "carrier"}.get(cls)
        if refs:
            for c in LISTS:
                for st in self.static[c].values():
                    for a in st:
                        if a == refs or a.startswith(refs) and a[len(refs) :].isdigit():
                            if st[a] in mapping:
                                st[a] = mapping[st[a]]
                for n in self.static[c]:
                    d = attrs(c).get(refs)
                    if d and refs not in self.static[c][n] and d[1] in mapping:
                        self.static[c][n][refs] = mapping[d[1]]
        if cls in STANDARD:
            self.std[cls] = {n for n in self.std[cls] if n not in mapping}

    def retime(self, sns, levels, weight=1.0):
        if not len(sns):
            raise Reject("no snapshots")
        if len(set(sns)) < len(sns):
            raise Reject("snapshots are not unique")
        old = {s: i for i, s in enumerate(self.sns)}
        by_step = levels == 2 and self.levels == 1
        pick = [old.get(s[1] if by_step else s) for s in sns]
        pick_w = [old.get(s) for s in sns]
        for group in (self.series, self.custom):
            for c in LISTS:
                for a, cols in group[c].items():
                    fill = attrs(c)[a][1] if group is self.series else NAN
                    for n in cols:
                        cols[n] = [fill if i is None else cols[n][i] for i in (pick if group is self.series else pick_w)]
        self.w = [[float(weight)] * 3 if i is None else list(self.w[i]) for i in pick_w]
        self.sns, self.levels = list(sns), levels

    def periods(self):
        return sorted({s[0] for s in self.sns}) if self.levels == 2 else []

    def invest(self, periods):
        if not len(periods):
            return
        if any(not isinstance(p, int) or isinstance(p, bool) for p in periods) or any(a >= b for a, b in zip(periods, periods[1:])):
            raise Reject("periods")
        if self.levels == 2:
            have = self.periods()
            if any(p not in have for p in periods) or len(periods) < len(have):
                raise Reject("periods and snapshots")
        else:
            k = len(periods)
            for group in (self.series, self.custom):
                for c in LISTS:
                    for cols in group[c].values():
                        for n in cols:
                            cols[n] = cols[n] * k
            self.w = [list(x) for _ in periods for x in self.w]
            self.sns = [(p, s) for p in periods for s in self.sns]
            self.levels = 2
        old = dict(self.pw)
        self.pw = [(p, old.get(p, [1.0, 1.0])) for p in self.periods()]

    def select(self, pos, sns_reset=False):
        """Keep the snapshots at these positions."""
        for group in (self.series, self.custom):
            for c in LISTS:
                for cols in group[c].values():
                    for n in cols:
                        cols[n] = [cols[n][i] for i in pos]
        self.w = [self.w[i] for i in pos]
        self.sns = [self.sns[i] for i in pos]
        keep = self.periods()
        self.pw = [(p, v) for p, v in self.pw if p in keep]

    def without_time(self):
        self.series = {c: {} for c in LISTS}
        self.custom = {c: {} for c in LISTS}
        self.sns, self.levels, self.w, self.pw = ["now"], 1, [[1.0] * 3], []

    def only(self, buses):
        """Keep these buses and what is connected to them."""
        for n in [n for n in self.index["Bus"] if n not in buses]:
            self.drop("Bus", n)
        self.index["Bus"] = list(buses)
        for n in buses:
            self.static["Bus"][n].pop("sub_network", None)  # its topology is not determined yet
        for c in ONE_PORT:
            for n in list(self.index[c]):
                if self.value(c, n, "bus") not in buses:
                    self.drop(c, n)
        for c in BRANCH:
            for n in list(self.index[c]):
                if self.value(c, n, "bus0") not in buses or self.value(c, n, "bus1") not in buses:
                    self.drop(c, n)

    def merge(self, other, with_time=True):
        for c in LISTS:
            if c not in STANDARD and c != "SubNetwork" and set(self.index[c]) & set(other.index[c]):
                raise Reject("overlap")
        if with_time and (self.sns != other.sns or self.levels != other.levels):
            raise Reject("snapshots")
        if with_time and self.w != other.w:
            raise Reject("weightings")
        for c in LISTS:
            if c in STANDARD or c == "SubNetwork":
                continue
            self.index[c] += other.index[c]
            self.static[c].update(copy.deepcopy(other.static[c]))
            if with_time:
                for mine, theirs in ((self.series[c], other.series[c]), (self.custom[c], other.custom[c])):
                    for a, cols in theirs.items():
                        mine.setdefault(a, {}).update(copy.deepcopy(cols))

    # -------------------------------------------------------------- comparing

    def diff(self, n, adopt=()):
        """First difference between the network and the model, or None.

        ``adopt``: parts of the network which the documentation leaves open here
        ("order", "custom"); the model takes them over.
        """
        got = [norm(s) for s in n.snapshots]
        if got != self.sns:
            return "snapshots", f"{got} != {self.sns}"
        if n.snapshots.nlevels != self.levels:
            return "snapshots", f"{n.snapshots.nlevels} levels"
        sw = n.snapshot_weightings
        if [norm(s) for s in sw.index] != self.sns or sorted(sw.columns) != sorted(WCOLS):
            return "snapshot_weightings", f"{sw}"
        for j, col in enumerate(WCOLS):
            if [float(v) for v in sw[col]] != [r[j] for r in self.w]:
                return "snapshot_weightings", f"{col}: {list(sw[col])} != {[r[j] for r in self.w]}"
        if list(n.investment_periods) != self.periods():
            return "investment_periods", f"{list(n.investment_periods)} != {self.periods()}"
        pw = n.investment_period_weightings
        if [int(p) for p in pw.index] != [p for p, _ in self.pw]:
            return "investment_period_weightings", f"{list(pw.index)} != {self.pw}"
        for j, col in enumerate(PCOLS):
            if len(pw) and [float(v) for v in pw[col]] != [r[j] for _, r in self.pw]:
                return "investment_period_weightings", f"{col}: {list(pw[col])} != {self.pw}"
        if n.name != self.name:
            return "name", f"{n.name!r} != {self.name!r}"
        for c in LISTS:
            if c in ("SubNetwork", "Shape"):
                continue
            d = self.diff_class(n, c, adopt)
            if d:
                return d
        return None

    def diff_class(self, n, c, adopt):
        st = n.static(c)
        names = list(st.index)
        if len(set(names)) < len(names):
            return f"duplicates:{c}", f"{names}"
        mine = self.index[c]
        if c in STANDARD:
            std = [x for x in names if x in self.std[c]]
            if set(std) != self.std[c]:
                return f"components:{c}", f"standard types {sorted(set(self.std[c]) ^ set(std))}"
            names = [x for x in names if x not in self.std[c]]
        if names != mine:
            if set(names) != set(mine):
                return f"components:{c}", f"{names} != {mine}"
            if "order" not in adopt:
                return f"component-order:{c}", f"{names} != {mine}"
            self.index[c] = mine = names
        A = attrs(c)
        custom = self.custom_attrs(c)
        for a in st.columns:
            if a not in A and a not in custom and a not in ("obj", "name"):
                if any(not isnan(v) for x, v in zip(st.index, st[a]) if x in self.static[c]):
                    return f"static:{c}.{a}", f"unexpected attribute {list(st[a])}"
        for a in list(A) + sorted(custom):
            if a in A and not A[a][2]:
                continue
            if a not in st.columns:
                if a in custom and "custom" in adopt:
                    for s in self.static[c].values():
                        s.pop(a, None)
                    continue
                vals = {x: A[a][1] if a in A else NAN for x in mine}
            else:
                vals = dict(zip(st.index, st[a].tolist()))
                if a in A and mine and c not in STANDARD:
                    k = st[a].dtype.kind
                    want = {"boolean": "b", "int": "i", "string": "O"}.get(A[a][0], "f")
                    if k != want:
                        return f"static-dtype:{c}.{a}", f"{st[a].dtype} for {A[a][0]}"
            for x in mine:
                if not same(vals[x], self.value(c, x, a)):
                    return f"static:{c}.{a}", f"{x}: {vals[x]!r} != {self.value(c, x, a)!r}"
        dyn = n.dynamic(c)
        for a in sorted(set(dyn) | set(self.series[c]) | set(self.custom[c]), key=str):
            known = a in A and A[a][3]
            want = (self.series if known else self.custom)[c].get(a, {})
            df = dyn.get(a)
            if df is None:
                df = pd.DataFrame(index=n.snapshots)
            if [norm(s) for s in df.index] != self.sns:
                return f"series-index:{c}.{a}", f"{list(df.index)}"
            cols = list(df.columns)
            if len(set(cols)) < len(cols):
                return f"series-duplicates:{c}.{a}", f"{cols}"
            if set(cols) - set(mine):
                return f"series-stale:{c}.{a}", f"{cols} but {c}s {mine}"
            if not known and not cols and "custom" in adopt:
                self.custom[c].pop(a, None)
                continue
            for x in mine:
                fill = A[a][1] if known else NAN
                w = want.get(x)
                if x not in cols:
                    if w is None or known and not A[a][2] and all(same(v, fill) for v in w) or not known and all(isnan(v) for v in w):
                        continue
                    return f"series-lost:{c}.{a}", f"{x}: {w}"
                g = df[x].tolist()
                if w is None:
                    if known and A[a][2]:
                        return f"series-unexpected:{c}.{a}", f"{x}: {g}"
                    w = [fill] * len(self.sns)
                if not all(same(p, q) for p, q in zip(g, w)):
                    return f"series:{c}.{a}", f"{x}: {g} != {w}"
        return None


def same(x, y):
    if isnan(x) or isnan(y):
        return isnan(x) and isnan(y)
    if isinstance(x, str) or isinstance(y, str):
        return x == y and isinstance(x, str) and isinstance(y, str)
    return float(x) == float(y)


def norm(s):
    if isinstance(s, tuple):
        return tuple(norm(v) for v in s)
    if isinstance(s, (pd.Timestamp, np.datetime64)):
        return str(pd.Timestamp(s))
    if isinstance(s, (int, np.integer)):
        return int(s)
    return s
