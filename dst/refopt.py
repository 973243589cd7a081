"""Executable reference model of the documented optimisation problem.

Built from the raw data frames of a network (own dense reading, own topology,
own per-unit conversion, bus angles instead of cycles).  It is used as

* a checker: ``residuals`` of a recorded solution,
* an oracle: ``optimum`` solves the same problem independently,
* a price list: ``cost`` of a recorded solution.
"""

from __future__ import annotations

import math
import re

import numpy as np
import pandas as pd

INF = float("inf")

NOM = {"Generator": "p_nom", "Link": "p_nom", "StorageUnit": "p_nom", "Store": "e_nom", "Line": "s_nom", "Transformer": "s_nom"}
PASSIVE = ["Line", "Transformer"]


class Data:
    """Plain reading of a network: static values and series, no pypsa helpers."""

    def __init__(self, n):
        self.n = n
        self.st = {c: n.static(c) for c in list(NOM) + ["Load", "Bus", "Carrier", "GlobalConstraint"]}
        self.dy = {c: n.dynamic(c) for c in list(NOM) + ["Load", "Bus"]}
        self.cols = {}

    def series(self, c, attr, name):
        df = self.dy[c].get(attr)
        if df is not None and name in df.columns:
            return df[name]
        return None

    def get(self, c, attr, name, t):
        key = (c, attr, name)
        s = self.cols.get(key)
        if s is None:
            ser = self.series(c, attr, name)
            s = dict(zip(ser.index, ser.values)) if ser is not None else None
            self.cols[key] = s if s is not None else False
        if s:
            return float(s[t])
        return float(self.st[c].at[name, attr])

    def names(self, c):
        return list(self.st[c].index)

    def ports(self):
        return sorted(int(m.group(1)) for col in self.st["Link"].columns if (m := re.fullmatch(r"bus([0-9]+)", col)) and int(m.group(1)) >= 1)


class Ref:
    def __init__(self, n, sns=None, multi=False, losses=0, linuc=False, history=False, skip=()):
        """history: check a recorded history over ``sns`` (no terminal conditions)."""
        self.n, self.multi, self.losses, self.linuc, self.history = n, multi, losses, linuc, history
        self.sns = list(n.snapshots if sns is None else sns)
        self.all_sns = list(n.snapshots)
        self.skip = set(skip)
        self.d = Data(n)
        self.vars: dict = {}
        self.rows: list = []  # (tag, {key: coef}, lo, hi)
        self.c: dict = {}
        self.q: dict = {}
        self.const = 0.0
        self.build()

    # ------------------------------------------------------------- helpers

    def var(self, *key, lo=-INF, hi=INF, integer=False):
        self.vars[key] = (lo, hi, integer)
        return key

    def row(self, tag, coefs, lo, hi):
        if tag.split("|")[0] not in self.skip:
            self.rows.append((tag, coefs, lo, hi))

    def addc(self, key, v):
        if v:
            self.c[key] = self.c.get(key, 0.0) + v

    def active(self, c, name, t=None, period=None):
        row = self.d.st[c].loc[name]
        if not bool(row["active"]):
            return False
        if self.multi:
            if period is None:
                period = t[0]
            return bool(row["build_year"] <= period < row["build_year"] + row["lifetime"])
        return True

    def periods(self):
        out = []
        for t in self.sns:
            if t[0] not in out:
                out.append(t[0])
        return out

    def w(self, kind, t):
        v = float(self.n.snapshot_weightings.at[t, kind])
        return v

    def wobj(self, t):
        v = self.w("objective", t)
        if self.multi:
            v *= float(self.n.investment_period_weightings.at[t[0], "objective"])
        return v

    def wgen(self, t):
        v = self.w("generators", t)
        if self.multi:
            v *= float(self.n.investment_period_weightings.at[t[0], "years"])
        return v

    def carrier(self, c, name):
        st = self.d.st[c].loc[name]
        if "carrier" not in st.index:
            return None
        if st["carrier"] == "" and c in ("Line", "Link", "Store"):
            return self.d.st["Bus"].at[st["bus" if c == "Store" else "bus0"], "carrier"]
        return st["carrier"]

    def ext(self, c, name):
        return bool(self.d.st[c].at[name, NOM[c] + "_extendable"])

    def com(self, c, name):
        return c in ("Generator", "Link") and bool(self.d.st[c].at[name, "committable"])

    # --------------------------------------------------------------- build

    def build(self):
        d, g = self.d, self.d.get
        self.balance = {(b, t): {} for b in d.names("Bus") for t in self.sns}
        self.act = {}
        for c in NOM:
            for name in d.names(c):
                for t in self.sns:
                    self.act[c, name, t] = self.active(c, name, t)
        self.nominal()
        for c in ("Generator", "Link"):
            for name in d.names(c):
                self.dispatch(c, name)
        for name in d.names("StorageUnit"):
            self.storage_unit(name)
        for name in d.names("Store"):
            self.store(name)
        self.branches()
        load = {k: 0.0 for k in self.balance}
        for name in d.names("Load"):
            if bool(d.st["Load"].at[name, "active"]):
                b = d.st["Load"].at[name, "bus"]
                for t in self.sns:
                    load[b, t] += -float(d.st["Load"].at[name, "sign"]) * g("Load", "p_set", name, t)
        for (b, t), coefs in self.balance.items():
            self.row(f"nodal-balance|{b}|{t}", coefs, load[b, t], load[b, t])
        self.global_constraints()

    def nominal(self):
        d = self.d
        for c, nom in NOM.items():
            st = d.st[c]
            for name in d.names(c):
                if not self.ext(c, name):
                    continue
                r = st.loc[name]
                key = self.var(c, name, nom)
                self.row(f"nominal-bounds|{c}|{name}", {key: 1.0}, float(r[nom + "_min"]), float(r[nom + "_max"]))
                if f"{nom}_set" in st.columns and not pd.isna(r[nom + "_set"]):
                    v = float(r[nom + "_set"])
                    self.row(f"nominal-set|{c}|{name}", {key: 1.0}, v, v)
                if r[nom + "_mod"] > 0:
                    k = self.var(c, name, "n_mod", lo=0, integer=True)
                    self.row(f"modularity|{c}|{name}", {key: 1.0, k: -float(r[nom + "_mod"])}, 0, 0)
                cost = float(r["capital_cost"])
                if self.multi:
                    cost *= sum(float(self.n.investment_period_weightings.at[p, "objective"]) for p in self.periods() if self.active(c, name, period=p))
                elif not bool(r["active"]):
                    cost = 0.0
                self.addc(key, cost)
                self.const += cost * float(r[nom])

    def cap(self, c, name):
        """Nominal capacity as (coefs, constant)."""
        if self.ext(c, name):
            return {(c, name, NOM[c]): 1.0}, 0.0
        return {}, float(self.d.st[c].at[name, NOM[c]])

    def le_cap(self, tag, coefs, pu, c, name, sense):
        """sum(coefs) <= pu*cap (sense 1) or >= pu*cap (sense -1)."""
        cv, cc = self.cap(c, name)
        row = dict(coefs)
        for k, v in cv.items():
            row[k] = row.get(k, 0.0) - pu * v
        if sense > 0:
            self.row(tag, row, -INF, pu * cc)
        else:
            self.row(tag, row, pu * cc, INF)

    def dispatch(self, c, name):
        d, g = self.d, self.d.get
        st = d.st[c].loc[name]
        com = self.com(c, name)
        for t in self.sns:
            a = self.act[c, name, t]
            p = self.var(c, name, "p", t) if a else None
            if not a:
                continue
            lo, hi = g(c, "p_min_pu", name, t), g(c, "p_max_pu", name, t)
            if com:
                u = self.var(c, name, "status", t, lo=0, hi=1, integer=not self.linuc)
                nom = float(st["p_nom"])
                self.row(f"com-lower|{c}|{name}|{t}", {p: 1.0, u: -lo * nom}, 0, INF)
                self.row(f"com-upper|{c}|{name}|{t}", {p: 1.0, u: -hi * nom}, -INF, 0)
                self.addc(u, g(c, "stand_by_cost", name, t) * self.wobj(t))
            else:
                self.le_cap(f"lower|{c}|{name}|{t}", {p: 1.0}, lo, c, name, -1)
                self.le_cap(f"upper|{c}|{name}|{t}", {p: 1.0}, hi, c, name, 1)
            ps = d.series(c, "p_set", name)
            if ps is not None and not pd.isna(ps[t]):
                self.row(f"p-set|{c}|{name}|{t}", {p: 1.0}, float(ps[t]), float(ps[t]))
            self.addc(p, g(c, "marginal_cost", name, t) * self.wobj(t))
            mq = g(c, "marginal_cost_quadratic", name, t) * self.wobj(t)
            if mq:
                self.q[p] = self.q.get(p, 0.0) + mq
            if c == "Generator":
                b = st["bus"]
                self.addto(b, t, p, float(st["sign"]))
            else:
                self.addto(st["bus0"], t, p, -1.0)
                for i in d.ports():
                    b = st[f"bus{i}"]
                    if b == "" or pd.isna(b):
                        continue
                    self.addto(b, t, p, g(c, "efficiency" + ("" if i == 1 else str(i)), name, t))
        if com:
            self.unit_commitment(c, name)
        self.ramps(c, name, com)
        if c == "Generator" and not self.history:
            e = {(c, name, "p", t): self.w("generators", t) for t in self.sns if self.act[c, name, t]}
            lo, hi = float(st["e_sum_min"]), float(st["e_sum_max"])
            if e and (lo > -INF or hi < INF):
                self.row(f"e-sum|{c}|{name}", e, lo, hi)

    def addto(self, b, t, key, coef):
        r = self.balance[b, t]
        r[key] = r.get(key, 0.0) + coef

    def prev_sns(self):
        """Snapshots before the window."""
        i = self.all_sns.index(self.sns[0])
        return self.all_sns[:i]

    def before(self, c, name):
        """(initially up?, snapshots in that state, None if unlimited) before the window."""
        st = self.d.st[c].loc[name]
        prev = self.prev_sns()
        status = self.n.dynamic(c)["status"]
        if prev and name not in status.columns:
            # nothing known: no requirement
            return False, INF
        if prev:
            rec = [round(float(status.at[t, name])) for t in prev]
            u0 = rec[-1]
            k = 0
            for u in reversed(rec):
                if u != u0:
                    break
                k += 1
            return bool(u0), k
        up, down = int(st["up_time_before"]), int(st["down_time_before"])
        if up:
            return True, up
        return False, down if down else INF

    def unit_commitment(self, c, name):
        st = self.d.st[c].loc[name]
        up0, k0 = self.before(c, name)
        mu, md = int(st["min_up_time"]), int(st["min_down_time"])
        T = self.sns
        if not all(self.act[c, name, t] for t in T):
            return
        U = [(c, name, "status", t) for t in T]
        SU = [self.var(c, name, "start_up", t, lo=0, hi=1, integer=not self.linuc) for t in T]
        SD = [self.var(c, name, "shut_down", t, lo=0, hi=1, integer=not self.linuc) for t in T]
        for i, t in enumerate(T):
            self.addc(SU[i], float(st["start_up_cost"]))
            self.addc(SD[i], float(st["shut_down_cost"]))
            if i:
                self.row(f"start-up|{c}|{name}|{t}", {SU[i]: 1, U[i]: -1, U[i - 1]: 1}, 0, INF)
                self.row(f"shut-down|{c}|{name}|{t}", {SD[i]: 1, U[i]: 1, U[i - 1]: -1}, 0, INF)
            else:
                self.row(f"start-up|{c}|{name}|{t}", {SU[i]: 1, U[i]: -1}, -float(up0), INF)
                self.row(f"shut-down|{c}|{name}|{t}", {SD[i]: 1, U[i]: 1}, float(up0), INF)
            if mu > 0 and i:
                r = {U[i]: -1.0}
                for j in range(max(0, i - mu + 1), i + 1):
                    r[SU[j]] = r.get(SU[j], 0) + 1.0
                self.row(f"min-up|{c}|{name}|{t}", r, -INF, 0)
            if md > 0 and i:
                r = {U[i]: 1.0}
                for j in range(max(0, i - md + 1), i + 1):
                    r[SD[j]] = r.get(SD[j], 0) + 1.0
                self.row(f"min-down|{c}|{name}|{t}", r, -INF, 1)
        stay = (mu if up0 else md) - k0
        for i, t in enumerate(T):
            if i < stay:
                self.row(f"must-stay|{c}|{name}|{t}", {U[i]: 1.0}, float(up0), float(up0))

    def ramps(self, c, name, com):
        d, g = self.d, self.d.get
        st = d.st[c].loc[name]
        prev = self.prev_sns()
        attr = "p" if c == "Generator" else "p0"
        for i, t in enumerate(self.sns):
            if i == 0 and (not prev or name not in self.n.dynamic(c)[attr].columns):
                continue
            if not self.act[c, name, t]:
                continue
            ru, rd = g(c, "ramp_limit_up", name, t), g(c, "ramp_limit_down", name, t)
            diff = {(c, name, "p", t): 1.0}
            u = {}
            const = uconst = 0.0
            if i:
                tp = self.sns[i - 1]
                if self.act[c, name, tp]:
                    diff[c, name, "p", tp] = -1.0
                    u = {(c, name, "status", tp): 1.0}
            else:
                const = -float(self.n.dynamic(c)[attr].at[prev[-1], name])
                if com:
                    if name not in self.n.dynamic(c)["status"].columns:
                        continue
                    uconst = float(round(self.n.dynamic(c)["status"].at[prev[-1], name]))
            ut = (c, name, "status", t)
            for lim, sgn, ss, tag in ((ru, 1.0, "ramp_limit_start_up", "ramp-up"), (rd, -1.0, "ramp_limit_shut_down", "ramp-down")):
                if math.isnan(lim):
                    continue
                row = {k: sgn * v for k, v in diff.items()}
                rhs = -sgn * const
                if com:
                    nom = float(st["p_nom"])
                    ext = float(st[ss]) * nom
                    lim = lim * nom
                    # up: lim*u_prev + ext*(u - u_prev); down: lim*u + ext*(u_prev - u)
                    cp, ct = (lim - ext, ext) if sgn > 0 else (ext, lim - ext)
                    for k, v in u.items():
                        row[k] = row.get(k, 0.0) - cp * v
                    row[ut] = row.get(ut, 0.0) - ct
                    rhs += cp * uconst
                    self.row(f"{tag}|{c}|{name}|{t}", row, -INF, rhs)
                else:
                    cv, cc = self.cap(c, name)
                    for k, v in cv.items():
                        row[k] = row.get(k, 0.0) - lim * v
                    self.row(f"{tag}|{c}|{name}|{t}", row, -INF, rhs + lim * cc)

    def storage_prev(self, c, name, level, cyc, cyc_pp, init, init_pp):
        """For each active snapshot: ('var', key) or ('const', value) of the previous level."""
        st = self.d.st[c].loc[name]
        act = [t for t in self.sns if self.act[c, name, t]]
        mi = isinstance(self.n.snapshots, pd.MultiIndex)
        cyclic = bool(st[cyc]) and not self.history
        per_period = mi and bool(st[cyc_pp] if cyclic else st[init_pp])
        out = {}
        for i, t in enumerate(act):
            group = [s for s in act if s[0] == t[0]] if per_period else act
            if t == group[0]:
                if cyclic:
                    out[t] = ("var", (c, name, level, group[-1]))
                else:
                    out[t] = ("const", float(st[init]))
            else:
                out[t] = ("var", (c, name, level, act[i - 1]))
        return out

    def storage_unit(self, name):
        d, g = self.d, self.d.get
        c = "StorageUnit"
        st = d.st[c].loc[name]
        prevs = self.storage_prev(c, name, "soc", "cyclic_state_of_charge", "cyclic_state_of_charge_per_period", "state_of_charge_initial", "state_of_charge_initial_per_period")
        for t, (kind, prev) in prevs.items():
            pd_, ps_ = self.var(c, name, "p_dispatch", t), self.var(c, name, "p_store", t)
            soc = self.var(c, name, "soc", t)
            for k in (pd_, ps_, soc):
                self.row(f"lower|{c}|{name}|{k[2]}|{t}", {k: 1.0}, 0, INF)
            self.le_cap(f"upper|{c}|{name}|p_dispatch|{t}", {pd_: 1.0}, g(c, "p_max_pu", name, t), c, name, 1)
            self.le_cap(f"upper|{c}|{name}|p_store|{t}", {ps_: 1.0}, -g(c, "p_min_pu", name, t), c, name, 1)
            self.le_cap(f"upper|{c}|{name}|soc|{t}", {soc: 1.0}, float(st["max_hours"]), c, name, 1)
            inflow = g(c, "inflow", name, t)
            spill = self.var(c, name, "spill", t)
            self.row(f"spill|{c}|{name}|{t}", {spill: 1.0}, 0, max(inflow, 0.0))
            ss = d.series(c, "state_of_charge_set", name)
            if ss is not None and not pd.isna(ss[t]):
                self.row(f"soc-set|{c}|{name}|{t}", {soc: 1.0}, float(ss[t]), float(ss[t]))
            eh = self.w("stores", t)
            eff = (1 - g(c, "standing_loss", name, t)) ** eh
            row = {soc: -1.0, pd_: -eh / g(c, "efficiency_dispatch", name, t), ps_: eh * g(c, "efficiency_store", name, t), spill: -eh}
            rhs = -eh * inflow
            if kind == "var":
                row[prev] = row.get(prev, 0.0) + eff
            else:
                    rhs -= eff * prev
            self.row(f"storage-balance|{c}|{name}|{t}", row, rhs, rhs)
            self.addto(st["bus"], t, pd_, float(st["sign"]))
            self.addto(st["bus"], t, ps_, -float(st["sign"]))
            w = self.wobj(t)
            self.addc(pd_, g(c, "marginal_cost", name, t) * w)
            mq = g(c, "marginal_cost_quadratic", name, t) * w
            if mq:
                self.q[pd_] = self.q.get(pd_, 0.0) + mq
            self.addc(soc, g(c, "marginal_cost_storage", name, t) * w)
            self.addc(spill, g(c, "spill_cost", name, t) * w)

    def store(self, name):
        d, g = self.d, self.d.get
        c = "Store"
        st = d.st[c].loc[name]
        prevs = self.storage_prev(c, name, "e", "e_cyclic", "e_cyclic_per_period", "e_initial", "e_initial_per_period")
        for t, (kind, prev) in prevs.items():
            p, e = self.var(c, name, "p", t), self.var(c, name, "e", t)
            self.le_cap(f"lower|{c}|{name}|{t}", {e: 1.0}, g(c, "e_min_pu", name, t), c, name, -1)
            self.le_cap(f"upper|{c}|{name}|{t}", {e: 1.0}, g(c, "e_max_pu", name, t), c, name, 1)
            eh = self.w("stores", t)
            eff = (1 - g(c, "standing_loss", name, t)) ** eh
            row = {e: -1.0, p: -eh}
            rhs = 0.0
            if kind == "var":
                row[prev] = row.get(prev, 0.0) + eff
            else:
                rhs -= eff * prev
            self.row(f"storage-balance|{c}|{name}|{t}", row, rhs, rhs)
            self.addto(st["bus"], t, p, float(st["sign"]))
            w = self.wobj(t)
            self.addc(p, g(c, "marginal_cost", name, t) * w)
            mq = g(c, "marginal_cost_quadratic", name, t) * w
            if mq:
                self.q[p] = self.q.get(p, 0.0) + mq
            self.addc(e, g(c, "marginal_cost_storage", name, t) * w)

    # ------------------------------------------------------- passive branches

    def impedance(self, c, name):
        """(x, r) per unit at base 1 MVA, effective for the linear power flow."""
        st = self.d.st[c].loc[name]
        if c == "Line":
            v = float(self.d.st["Bus"].at[st["bus0"], "v_nom"])
            x, r = float(st["x"]), float(st["r"])
            if st["type"] != "":
                ty = self.n.line_types.loc[st["type"]]
                x = float(ty["x_per_length"]) * float(st["length"]) / float(st["num_parallel"])
                r = float(ty["r_per_length"]) * float(st["length"]) / float(st["num_parallel"])
            return x / v**2, r / v**2
        tap = float(st["tap_ratio"])
        s = float(st["s_nom"])
        return float(st["x"]) / s * tap, float(st["r"]) / s * tap

    def branches(self):
        d, g = self.d, self.d.get
        self.kvl = []
        for c in PASSIVE:
            for name in d.names(c):
                st = d.st[c].loc[name]
                dc = d.st["Bus"].at[st["bus0"], "carrier"] == "DC"
                x, r = self.impedance(c, name)
                z = r if dc else x
                smax_nom = float(st["s_nom_max"] if self.ext(c, name) else st["s_nom"])
                for t in self.sns:
                    if not self.act[c, name, t]:
                        continue
                    s = self.var(c, name, "s", t)
                    pu = g(c, "s_max_pu", name, t)
                    up, lo = {s: 1.0}, {s: 1.0}
                    if self.losses:
                        ls = self.var(c, name, "loss", t)
                        up[ls], lo[ls] = 1.0, -1.0
                        smax = pu * smax_nom
                        self.row(f"loss-upper|{c}|{name}|{t}", {ls: 1.0}, -INF, r * smax**2)
                        self.row(f"loss-lower|{c}|{name}|{t}", {ls: 1.0}, 0, INF)
                        for k in range(1, self.losses + 1):
                            pk = k / self.losses * smax
                            for sgn in (1.0, -1.0):
                                # loss >= r pk^2 + 2 r pk (|s| - pk)
                                self.row(f"loss-tangent|{c}|{name}|{t}", {ls: 1.0, s: -sgn * 2 * r * pk}, -r * pk**2, INF)
                        self.addto(st["bus0"], t, ls, -0.5)
                        self.addto(st["bus1"], t, ls, -0.5)
                    self.le_cap(f"upper|{c}|{name}|{t}", up, pu, c, name, 1)
                    self.le_cap(f"lower|{c}|{name}|{t}", lo, -pu, c, name, -1)
                    self.addto(st["bus0"], t, s, -1.0)
                    self.addto(st["bus1"], t, s, 1.0)
                    self.kvl.append((t, c, name, st["bus0"], st["bus1"], z, s))
        if "kvl" in self.skip:
            self.kvl = []

    def kvl_residuals(self, val):
        """Mismatch of the voltage law, relative, by angles along a spanning tree."""
        out = []
        for t in self.sns:
            br = [k for k in self.kvl if k[0] == t]
            adj = {}
            for i, (_, c, name, b0, b1, z, s) in enumerate(br):
                adj.setdefault(b0, []).append((b1, i, 1.0))
                adj.setdefault(b1, []).append((b0, i, -1.0))
            theta, tree = {}, set()
            for root in adj:
                if root in theta:
                    continue
                theta[root] = 0.0
                stack = [root]
                while stack:
                    b = stack.pop()
                    for b2, i, sgn in adj[b]:
                        if b2 not in theta:
                            theta[b2] = theta[b] - sgn * br[i][5] * val[br[i][6]]
                            tree.add(i)
                            stack.append(b2)
            zs = [abs(k[5]) for k in br]
            scale = sum(abs(k[5] * val[k[6]]) for k in br) + (max(zs) if zs else 0)
            for i, (_, c, name, b0, b1, z, s) in enumerate(br):
                if i not in tree:
                    r = theta[b0] - theta[b1] - z * val[s]
                    out.append((f"kvl|{c}|{name}|{t}", abs(r) / scale if scale else 0.0))
        return out

    # ----------------------------------------------------- global constraints

    def global_constraints(self):
        if self.history:
            return
        d = self.d
        gc = d.st["GlobalConstraint"]
        for name in gc.index:
            r = gc.loc[name]
            per = r["investment_period"]
            per = None if pd.isna(per) else int(per)
            if per is not None and not (self.multi or isinstance(self.n.snapshots, pd.MultiIndex)):
                continue
            sns = self.sns if per is None else [t for t in self.sns if t[0] == per]
            if per is not None and not sns:
                continue
            fn = {
                "primary_energy": self.gc_primary,
                "operational_limit": self.gc_operational,
                "transmission_volume_expansion_limit": self.gc_trans,
                "transmission_expansion_cost_limit": self.gc_trans,
                "tech_capacity_expansion_limit": self.gc_tech,
            }[r["type"]]
            row, shift = fn(r, per, sns)
            if not row:
                continue
            k = float(r["constant"]) - shift
            lo, hi = {"<=": (-INF, k), ">=": (k, INF), "==": (k, k)}[r["sense"]]
            self.row(f"global-constraint|{r['type']}|{name}", row, lo, hi)
        self.bus_limits()
        self.growth()

    def last_active(self, c, name, sns):
        act = [t for t in sns if self.act[c, name, t]]
        return act[-1] if act else None

    def gc_primary(self, r, per, sns):
        d, g = self.d, self.d.get
        row, shift = {}, 0.0
        em = {k: float(v) for k, v in d.st["Carrier"][r["carrier_attribute"]].items() if v}
        for name in d.names("Generator"):
            e = em.get(d.st["Generator"].at[name, "carrier"])
            if e is None:
                continue
            for t in sns:
                if self.act["Generator", name, t]:
                    row["Generator", name, "p", t] = e / g("Generator", "efficiency", name, t) * self.wgen(t)
        for c, lev, cyc, init in (("StorageUnit", "soc", "cyclic_state_of_charge", "state_of_charge_initial"), ("Store", "e", "e_cyclic", "e_initial")):
            for name in d.names(c):
                st = d.st[c].loc[name]
                e = em.get(self.carrier(c, name))
                if e is None or bool(st[cyc]):
                    continue
                last = self.last_active(c, name, sns)
                if last is None:
                    continue
                row[c, name, lev, last] = -e
                shift += e * float(st[init])
        return row, shift

    def gc_operational(self, r, per, sns):
        d = self.d
        row, shift = {}, 0.0
        car = r["carrier_attribute"]
        for name in d.names("Generator"):
            if d.st["Generator"].at[name, "carrier"] == car:
                for t in sns:
                    if self.act["Generator", name, t]:
                        row["Generator", name, "p", t] = self.wgen(t)
        for c, lev, cyc, init in (("StorageUnit", "soc", "cyclic_state_of_charge", "state_of_charge_initial"), ("Store", "e", "e_cyclic", "e_initial")):
            for name in d.names(c):
                st = d.st[c].loc[name]
                if self.carrier(c, name) != car or bool(st[cyc]):
                    continue
                last = self.last_active(c, name, sns)
                if last is None:
                    continue
                row[c, name, lev, last] = -1.0
                shift += float(st[init])
        return row, shift

    def gc_trans(self, r, per, sns):
        d = self.d
        row = {}
        cars = [re.sub(r"[\[\]()]", "", x.strip()) for x in r["carrier_attribute"].split(",")]
        for c in ("Line", "Link"):
            for name in d.names(c):
                st = d.st[c].loc[name]
                if self.carrier(c, name) not in cars or not self.ext(c, name):
                    continue
                if self.multi:
                    pers = [per] if per is not None else self.periods()
                    pers = [p for p in pers if self.active(c, name, period=p)]
                    if not pers:
                        continue
                if r["type"].startswith("transmission_volume"):
                    v = float(st["length"])
                else:
                    v = float(st["capital_cost"])
                    if self.multi and per is None:
                        v *= sum(float(self.n.investment_period_weightings.at[p, "objective"]) for p in pers)
                row[c, name, NOM[c]] = v
        return row, 0.0

    def gc_tech(self, r, per, sns):
        d = self.d
        row = {}
        bus = r.get("bus")
        if bus is not None and (pd.isna(bus) or bus == ""):
            bus = None
        for c in NOM:
            for name in d.names(c):
                st = d.st[c].loc[name]
                if self.carrier(c, name) != r["carrier_attribute"] or not self.ext(c, name):
                    continue
                if per is not None and not self.active(c, name, period=per):
                    continue
                b = st["bus0"] if c in ("Line", "Link", "Transformer") else st["bus"]
                if bus is not None and b != bus:
                    continue
                row[c, name, NOM[c]] = 1.0
        return row, 0.0

    def bus_limits(self):
        d = self.d
        st = d.st["Bus"]
        for col in st.columns:
            m = re.fullmatch(r"nom_(min|max)_(.+)", col)
            if not m:
                continue
            car, per = m.group(2), None
            if car not in d.st["Carrier"].index:
                if not self.multi or "_" not in car:
                    continue
                car, per = car.rsplit("_", 1)
                per = int(per)
            for b in st.index:
                lim = st.at[b, col]
                if pd.isna(lim):
                    continue
                row = {}
                for c in ("Generator", "StorageUnit", "Store"):
                    for name in d.names(c):
                        r = d.st[c].loc[name]
                        if r["bus"] != b or self.carrier(c, name) != car or not self.ext(c, name):
                            continue
                        if per is not None and not self.active(c, name, period=per):
                            continue
                        row[c, name, NOM[c]] = 1.0
                if row:
                    self.row(f"bus-limit|{b}|{col}", row, *((float(lim), INF) if m.group(1) == "min" else (-INF, float(lim))))

    def growth(self):
        if not self.multi:
            return
        d = self.d
        pers = self.periods()
        for car in d.st["Carrier"].index:
            mg = float(d.st["Carrier"].at[car, "max_growth"])
            rel = max(float(d.st["Carrier"].at[car, "max_relative_growth"]), 0.0)
            if mg == INF:
                continue
            new = {p: {} for p in pers}
            any_ = False
            for c in NOM:
                for name in d.names(c):
                    st = d.st[c].loc[name]
                    if self.carrier(c, name) != car or not self.ext(c, name):
                        continue
                    first = next((p for p in pers if self.active(c, name, period=p)), None)
                    if first is not None:
                        new[first][c, name, NOM[c]] = 1.0
                        any_ = True
            if not any_:
                continue
            for i, p in enumerate(pers):
                row = dict(new[p])
                if rel and i:
                    for k in new[pers[i - 1]]:
                        row[k] = row.get(k, 0.0) - rel
                if row:
                    self.row(f"growth|{car}|{p}", row, -INF, mg)

    # ------------------------------------------------------------ evaluation

    def recorded(self, derive_starts=True):
        """Values of all variables as recorded in the network.

        Start-ups and shut-downs follow from the status; ``derive_starts=False``
        takes the recorded ones (the solver may pay for more than needed).
        """
        n = self.n
        val = {}
        dyn = {}

        def at(c, attr, name, t, default=None):
            key = (c, attr)
            df = dyn.get(key)
            if df is None:
                x = n.dynamic(c).get(attr)
                df = dyn[key] = (x, {s: i for i, s in enumerate(n.snapshots)}) if x is not None else (None, None)
            x, pos = df
            if x is None or name not in x.columns:
                if default is None:
                    raise KeyError(f"no result {c} {attr} {name}")
                return default
            return float(x[name].iat[pos[t]])

        prevu = {}
        for key in self.vars:
            c, name, what = key[:3]
            if what == NOM.get(c):
                val[key] = float(n.static(c).at[name, what + "_opt"])
            elif what == "n_mod":
                val[key] = float(n.static(c).at[name, NOM[c] + "_opt"]) / float(n.static(c).at[name, NOM[c] + "_mod"])
            elif c == "Link" and what == "p":
                val[key] = at(c, "p0", name, key[3])
            elif what == "s":
                val[key] = (at(c, "p0", name, key[3]) - at(c, "p1", name, key[3])) / 2
            elif what == "loss":
                val[key] = at(c, "p0", name, key[3]) + at(c, "p1", name, key[3])
            elif what == "soc":
                val[key] = at(c, "state_of_charge", name, key[3])
            elif what == "spill":
                val[key] = at(c, "spill", name, key[3], 0.0)
            elif what in ("start_up", "shut_down") and derive_starts:
                continue
            else:
                val[key] = at(c, what, name, key[3])
        for key in self.vars:
            c, name, what = key[:3]
            if what in ("start_up", "shut_down") and derive_starts:
                t = key[3]
                i = self.sns.index(t)
                u = val[c, name, "status", t]
                up = prevu.get((c, name))
                if up is None:
                    up = prevu[c, name] = float(self.before(c, name)[0])
                u0 = val[c, name, "status", self.sns[i - 1]] if i else up
                diff = max(0.0, (u - u0) if what == "start_up" else (u0 - u))
                val[key] = diff if self.linuc else float(round(diff))
        return val

    def residuals(self, val, tol=1e-5):
        """List of (tag, violation) of everything violated by more than tol."""
        out = []
        for tag, coefs, lo, hi in self.rows:
            s = sc = 0.0
            for k, v in coefs.items():
                x = v * val[k]
                s += x
                sc += abs(x)
            b = max(abs(lo) if lo > -INF else 0, abs(hi) if hi < INF else 0)
            eps = tol * (1 + max(sc, b))
            if s < lo - eps or s > hi + eps or s != s:
                out.append((tag, max(lo - s, s - hi)))
        for key, (lo, hi, integer) in self.vars.items():
            v = val[key]
            if v != v:
                out.append((f"nan|{key}", v))
            elif v < lo - tol or v > hi + tol:
                out.append((f"var-bounds|{'|'.join(map(str, key))}", v))
            elif integer and abs(v - round(v)) > 1e-4 * (1 + abs(v)):
                out.append((f"integrality|{'|'.join(map(str, key))}", v))
        out += [(tag, r) for tag, r in self.kvl_residuals(val) if r > 10 * tol]
        return out

    def cost(self, val):
        return sum(c * val[k] for k, c in self.c.items()) + sum(q * val[k] ** 2 for k, q in self.q.items())

    # -------------------------------------------------------------- optimum

    def matrices(self):
        import scipy.sparse as sp

        keys = list(self.vars)
        theta = sorted({(t, b) for k in self.kvl for (t, b) in ((k[0], k[3]), (k[0], k[4]))}, key=str)
        idx = {k: i for i, k in enumerate(keys)}
        tidx = {k: len(keys) + i for i, k in enumerate(theta)}
        N = len(keys) + len(theta)
        ri, ci, vv, lo, hi = [], [], [], [], []
        r = 0
        for tag, coefs, a, b in self.rows:
            for k, v in coefs.items():
                ri.append(r)
                ci.append(idx[k])
                vv.append(v)
            lo.append(a)
            hi.append(b)
            r += 1
        for t, c, name, b0, b1, z, s in self.kvl:
            sc = 1 / z if z else 1.0
            ri += [r, r, r]
            ci += [tidx[t, b0], tidx[t, b1], idx[s]]
            # scale the angles so that coefficients are of order one
            vv += [sc * ANG, -sc * ANG, -1.0 if z else 0.0]
            lo.append(0)
            hi.append(0)
            r += 1
        A = sp.csr_matrix((vv, (ri, ci)), shape=(r, N))
        lb = np.array([self.vars[k][0] for k in keys] + [-INF] * len(theta))
        ub = np.array([self.vars[k][1] for k in keys] + [INF] * len(theta))
        integ = np.array([1 if self.vars[k][2] else 0 for k in keys] + [0] * len(theta))
        return keys, idx, A, np.array(lo), np.array(hi), lb, ub, integ

    def optimum(self, c=None):
        """(status, cost, values): status 'optimal', 'infeasible', 'unbounded' or 'other'.

        ``c``: other linear objective (dict); the quadratic part is ignored.
        """
        from scipy.optimize import Bounds, LinearConstraint, milp

        c = self.c if c is None else c
        keys, idx, A, lo, hi, lb, ub, integ = self.matrices()
        cv = np.zeros(A.shape[1])
        for k, v in c.items():
            cv[idx[k]] = v
        if A.shape[1] == 0:
            if (lo > 1e-9).any() or (hi < -1e-9).any():
                return "infeasible", None, None
            return "optimal", 0.0, {}
        res = milp(cv, integrality=integ, bounds=Bounds(lb, ub), constraints=LinearConstraint(A, lo, hi), options={"mip_rel_gap": 0, "presolve": True, "time_limit": 20})
        st = {0: "optimal", 2: "infeasible", 3: "unbounded"}.get(res.status, "other")
        if st != "optimal":
            return st, None, None
        return st, float(res.fun), {k: float(res.x[i]) for k, i in idx.items()}

    def integer(self):
        """The same problem with integer unit commitment."""
        return Ref(self.n, self.sns, self.multi, self.losses, False, self.history, self.skip)

    def gradient(self, val):
        g = dict(self.c)
        for k, q in self.q.items():
            g[k] = g.get(k, 0.0) + 2 * q * val[k]
        return g


ANG = 1e-3
