"""Generator of small optimisation problems as JSON step lists."""

from __future__ import annotations

from dst import gen

INF = float("inf")

FEATURES = {
    "lines": 0.6,
    "trafo": 0.3,
    "dc": 0.15,
    "types": 0.15,
    "links": 0.5,
    "multiport": 0.5,
    "su": 0.5,
    "store": 0.45,
    "uc": 0.4,
    "ramp": 0.4,
    "ext": 0.5,
    "mod": 0.25,
    "quad": 0.2,
    "gc": 0.4,
    "esum": 0.25,
    "pset": 0.15,
    "socset": 0.15,
    "cyclic": 0.4,
    "inactive": 0.2,
    "weights": 0.6,
    "series": 0.6,
    "sign": 0.15,
    "mustrun": 0.2,
    "tight": 0.15,
    "losses": 0.3,
    "storecost": 0.2,
}


def r2(rng, a, b):
    return round(rng.uniform(a, b), 2)


class G:
    def __init__(self, rng, only=None, force=(), forbid=(), n_sns=(2, 6), n_bus=(1, 4), kinds=("int", "dt"), multi=False, prob=None):
        self.rng = rng
        prob = {**FEATURES, **(prob or {})}
        self.f = {k for k, p in prob.items() if rng.random() < p}
        self.f |= set(force)
        self.f -= set(forbid)
        if only is not None:
            self.f &= set(only)
        if "quad" in self.f and self.f & {"uc", "mod"}:
            # HiGHS solves no mixed-integer quadratic problems
            self.f -= {"quad"} if "quad" not in force and rng.random() < 0.5 else {"uc", "mod"}
        self.multi = multi
        self.steps = []
        self.names = 0
        self.n_sns, self.n_bus, self.kinds = n_sns, n_bus, kinds

    def has(self, k, p=1.0):
        return k in self.f and self.rng.random() < p

    def name(self, prefix):
        self.names += 1
        # names whose sorting differs from their order of creation
        return f"{prefix}{(self.names * 7) % 11}{self.names}"

    def add(self, cls, static, series=None, prefix=None):
        nm = self.name(prefix or cls[0].lower())
        self.steps.append(["add", cls, nm, static, series or {}])
        return nm

    def vals(self, a, b):
        return [r2(self.rng, a, b) for _ in range(self.T)]

    def either(self, static, series, attr, a, b, p=0.5):
        """Static value or, with the 'series' feature, a time series."""
        if self.has("series", p):
            series[attr] = self.vals(a, b)
            if self.rng.random() < 0.3:
                static[attr] = r2(self.rng, a, b)  # must be ignored
        else:
            static[attr] = r2(self.rng, a, b)

    def life(self, static):
        if self.has("inactive", 0.2):
            static["active"] = False
        if self.multi:
            per = self.periods
            if self.rng.random() < 0.6:
                static["build_year"] = self.rng.choice([0] + per + [per[0] - 5])
            if self.rng.random() < 0.5:
                static["lifetime"] = float(self.rng.choice([5, 10, 15, 25, 100]))

    def extend(self, static, nom, scale):
        rng = self.rng
        if not self.has("ext", 0.5):
            return False
        static[nom + "_extendable"] = True
        static[nom + "_max"] = r2(rng, scale, 3 * scale)
        if rng.random() < 0.4:
            static[nom + "_min"] = r2(rng, 0, 0.5 * scale)
        static["capital_cost"] = r2(rng, 1, 60)
        if self.has("mod", 0.5):
            static[nom + "_mod"] = float(rng.choice([5, 10, 7.5]))
            static.pop(nom + "_min", None)
        if rng.random() < 0.3:
            static[nom] = r2(rng, 0, scale)
        return True

    def commit(self, static, series):
        rng = self.rng
        static["committable"] = True
        if rng.random() < 0.7:
            static["min_up_time"] = rng.choice([1, 2, 3, 4])
        if rng.random() < 0.7:
            static["min_down_time"] = rng.choice([1, 2, 3, 4])
        k = rng.choice(["default", "up", "down", "none"])
        if k == "up":
            static["up_time_before"] = rng.choice([1, 2, 3])
        elif k == "down":
            static["up_time_before"] = 0
            static["down_time_before"] = rng.choice([1, 2, 3])
        elif k == "none":
            static["up_time_before"] = 0
        if rng.random() < 0.6:
            static["start_up_cost"] = r2(rng, 1, 500)
        if rng.random() < 0.4:
            static["shut_down_cost"] = r2(rng, 1, 300)
        if rng.random() < 0.4:
            self.either(static, series, "stand_by_cost", 0, 50, 0.3)

    def ramp(self, static, series):
        rng = self.rng
        for s in ("up", "down"):
            if rng.random() < 0.75:
                self.either(static, series, f"ramp_limit_{s}", 0.1, 0.9, 0.3)
                if static.get("committable"):
                    if rng.random() < 0.6:
                        static["ramp_limit_start_up" if s == "up" else "ramp_limit_shut_down"] = r2(rng, 0.3, 1.0)

    # ---------------------------------------------------------------- parts

    def run(self):
        rng = self.rng
        if self.multi:
            per = sorted(rng.sample([2020, 2025, 2030, 2040], rng.randint(1, 3)))
            k = rng.randint(1, 3)
            inner = gen.gen_snapshots(rng, k, ("int", "dt"), k)
            spec = {"kind": "multi", "periods": per, "inner": inner}
            self.periods = per
        else:
            k = rng.randint(*self.n_sns)
            spec = gen.gen_snapshots(rng, k, self.kinds, k)
        self.T = gen.n_snapshots(spec)
        self.steps.append(["snapshots", spec])
        if "weights" in self.f:
            same = rng.random() < 0.4
            rows = []
            for _ in range(self.T):
                a = rng.choice([0.5, 1.0, 2.0, 3.0])
                rows.append([a, a, a] if same else [a, rng.choice([0.5, 1.0, 2.0]), rng.choice([0.5, 1.0, 2.0, 4.0])])
            self.steps.append(["weightings", rows])
        if self.multi and rng.random() < 0.7:
            self.steps.append(["pweightings", [[rng.choice([1.0, 5.0, 0.8]), rng.choice([1.0, 5.0, 10.0])] for _ in self.periods]])
        self.carriers = ["gas", "wind", "coal"]
        self.steps.append(["add", "Carrier", "AC", {}, {}])
        for c in self.carriers:
            st = {"co2_emissions": 0.0 if c == "wind" else r2(rng, 0.2, 1.0)}
            if self.multi and self.has("gc", 0.4):
                st["max_growth"] = r2(rng, 20, 150)
                if rng.random() < 0.5:
                    st["max_relative_growth"] = r2(rng, 0.1, 1.5)
            self.steps.append(["add", "Carrier", c, st, {}])
        nb = rng.randint(*self.n_bus)
        v = rng.choice([10.0, 20.0, 110.0])
        self.buses, self.dcb = [], []
        for i in range(nb):
            st = {"v_nom": v if rng.random() < 0.8 or "trafo" not in self.f else rng.choice([10.0, 20.0, 110.0])}
            dc = self.has("dc", 0.4)
            if dc:
                st["carrier"] = "DC"
            b = self.add("Bus", st, prefix="b")
            self.buses.append((b, st["v_nom"], dc))
        if "dc" in self.f:
            self.steps.insert(1, ["add", "Carrier", "DC", {}, {}])
        self.branches()
        tight = "tight" in self.f
        for b, _, _ in self.buses:
            for _ in range(rng.choice([0, 1, 1, 2])):
                st, se = {"bus": b}, {}
                self.either(st, se, "p_set", 0, 80, 0.8)
                if self.has("sign", 0.3):
                    st["sign"] = rng.choice([-1.0, -0.5, 1.0])
                if self.has("inactive", 0.2):
                    st["active"] = False
                self.add("Load", st, se, "d")
            if not tight:
                self.add("Generator", {"bus": b, "p_nom": 1000.0, "marginal_cost": r2(rng, 500, 1000), "carrier": "coal" if rng.random() < 0.1 else "AC"}, {}, "shed")
                self.add("Generator", {"bus": b, "p_nom": 1000.0, "sign": -1.0, "marginal_cost": r2(rng, 1, 20), "carrier": "AC"}, {}, "dump")
        for _ in range(rng.randint(1, 4)):
            self.generator(rng.choice(self.buses)[0])
        if "links" in self.f:
            for _ in range(rng.randint(1, 3)):
                self.link()
        if "su" in self.f:
            for _ in range(rng.randint(1, 2)):
                self.storage_unit(rng.choice(self.buses)[0])
        if "store" in self.f:
            for _ in range(rng.randint(1, 2)):
                self.store(rng.choice(self.buses)[0])
        if "gc" in self.f:
            self.global_constraints()
        return self.steps

    def branches(self):
        rng = self.rng
        if "lines" not in self.f or len(self.buses) < 2:
            return
        pairs = [(i, j) for i in range(len(self.buses)) for j in range(i)]
        for i, j in pairs:
            (b0, v0, d0), (b1, v1, d1) = self.buses[i], self.buses[j]
            if d0 != d1 or rng.random() < 0.2:
                continue
            for _ in range(rng.choice([1, 1, 1, 2])):
                if rng.random() < 0.5:
                    b0, b1 = b1, b0
                trafo = not d0 and "trafo" in self.f and (v0 != v1 or rng.random() < 0.3)
                if v0 != v1 and not trafo:
                    continue
                st, se = {"bus0": b0, "bus1": b1}, {}
                if trafo:
                    st.update(x=r2(rng, 0.05, 0.3), r=r2(rng, 0.005, 0.05), s_nom=r2(rng, 20, 90))
                    if rng.random() < 0.4:
                        st["tap_ratio"] = r2(rng, 0.9, 1.1)
                else:
                    z = v0**2 / 1000
                    st.update(x=round(z * r2(rng, 0.1, 1), 4), r=round(z * r2(rng, 0.02, 0.3), 4), s_nom=r2(rng, 15, 80))
                    st["length"] = r2(rng, 10, 200)
                    if self.has("types", 0.4) and not d0:
                        st.update(type="Al/St 240/40 2-bundle 220.0", num_parallel=rng.choice([1.0, 2.0, 0.5]))
                if rng.random() < 0.3:
                    self.either(st, se, "s_max_pu", 0.4, 1.0)
                elif self.has("series", 0.2):
                    se["s_max_pu"] = self.vals(0.4, 1.0)
                s0 = st["s_nom"]
                if self.extend(st, "s_nom", 40):
                    if trafo:
                        st["s_nom"] = s0
                    if rng.random() < 0.5:
                        st["s_nom"] = s0
                self.life(st)
                self.add("Transformer" if trafo else "Line", st, se, "t" if trafo else "l")

    def generator(self, b):
        rng = self.rng
        st, se = {"bus": b, "carrier": rng.choice(self.carriers), "p_nom": r2(rng, 20, 100)}, {}
        if self.has("sign", 0.15):
            st["sign"] = rng.choice([-1.0, 0.5])
        self.either(st, se, "marginal_cost", 1, 80, 0.3)
        com = self.has("uc", 0.6)
        if rng.random() < 0.5:
            self.either(st, se, "p_max_pu", 0.5 if com else 0.2, 1.0, 0.7)
        if com:
            self.either(st, se, "p_min_pu", 0.1, 0.5, 0.15)
            self.commit(st, se)
        elif self.has("mustrun", 0.5):
            self.either(st, se, "p_min_pu", 0, 0.2, 0.3)
        if self.has("ramp", 0.6):
            self.ramp(st, se)
        if not com:
            self.extend(st, "p_nom", 50)
            if self.has("quad", 0.5):
                self.either(st, se, "marginal_cost_quadratic", 0.05, 0.5, 0.3)
        if self.has("esum", 0.4):
            st["e_sum_max"] = r2(rng, 20, 200)
            if rng.random() < 0.3:
                st["e_sum_min"] = r2(rng, 0, 20)
        if self.has("pset", 0.3) and not com:
            st.pop("p_nom_extendable", None)
            lo = 0.25
            se["p_set"] = [r2(rng, lo, 0.3) * st.get("p_nom", 50) if rng.random() < 0.6 else float("nan") for _ in range(self.T)]
            for k in ("p_max_pu",):
                se.pop(k, None)
                st.pop(k, None)
        if rng.random() < 0.5:
            self.either(st, se, "efficiency", 0.3, 0.9, 0.3)
        self.life(st)
        self.add("Generator", st, se, "g")

    def link(self):
        rng = self.rng
        b0, b1 = rng.choice(self.buses)[0], rng.choice(self.buses)[0]
        st, se = {"bus0": b0, "bus1": b1, "carrier": rng.choice(["gas", "DC2", "wind"]), "p_nom": r2(rng, 10, 80)}, {}
        st["length"] = r2(rng, 10, 100)
        if rng.random() < 0.6:
            self.either(st, se, "efficiency", 0.4, 1.0, 0.4)
        if rng.random() < 0.5:
            st["marginal_cost"] = r2(rng, 0.5, 20)
        elif self.has("series", 0.3):
            se["marginal_cost"] = self.vals(0.5, 20)
        com = self.has("uc", 0.35)
        if com:
            st["p_min_pu"] = r2(rng, 0.1, 0.4)
            self.commit(st, se)
        elif rng.random() < 0.3:
            st["p_min_pu"] = -1.0 if rng.random() < 0.5 else -r2(rng, 0.1, 1)
        if rng.random() < 0.3:
            self.either(st, se, "p_max_pu", 0.5, 1.0)
        if self.has("ramp", 0.4):
            self.ramp(st, se)
        if not com:
            self.extend(st, "p_nom", 40)
            if self.has("quad", 0.2):
                st["marginal_cost_quadratic"] = r2(rng, 0.05, 0.5)
        if self.has("multiport", 0.5):
            st["bus2"] = rng.choice(self.buses)[0] if rng.random() < 0.85 else ""
            self.either(st, se, "efficiency2", -0.5, 0.6, 0.4)
            if rng.random() < 0.3:
                st["bus3"] = rng.choice(self.buses)[0]
                st["efficiency3"] = r2(rng, -0.3, 0.4)
        self.life(st)
        self.add("Link", st, se, "k")

    def storage_unit(self, b):
        rng = self.rng
        st, se = {"bus": b, "carrier": rng.choice(self.carriers), "p_nom": r2(rng, 10, 60), "max_hours": r2(rng, 1, 8)}, {}
        if rng.random() < 0.7:
            self.either(st, se, "efficiency_store", 0.6, 1.0, 0.2)
            self.either(st, se, "efficiency_dispatch", 0.6, 1.0, 0.2)
        if rng.random() < 0.4:
            self.either(st, se, "standing_loss", 0.0, 0.2, 0.3)
        if rng.random() < 0.4:
            self.either(st, se, "inflow", 0, 30, 0.7)
            if rng.random() < 0.4:
                st["spill_cost"] = r2(rng, 0.5, 10)
        if rng.random() < 0.3:
            self.either(st, se, "p_max_pu", 0.4, 1.0, 0.5)
        if rng.random() < 0.3:
            self.either(st, se, "p_min_pu", -1.0, -0.2, 0.5)
        if self.has("cyclic", 0.6):
            st["cyclic_state_of_charge"] = True
            if rng.random() < 0.3:
                st["state_of_charge_initial"] = 3.0
            if self.multi and rng.random() < 0.5:
                st["cyclic_state_of_charge_per_period"] = rng.random() < 0.5
        else:
            st["state_of_charge_initial"] = r2(rng, 0, st["p_nom"] * st["max_hours"] * 0.5)
            if self.multi and rng.random() < 0.5:
                st["state_of_charge_initial_per_period"] = True
        if rng.random() < 0.5:
            st["marginal_cost"] = r2(rng, 0.1, 10)
        if self.has("storecost", 0.5):
            self.either(st, se, "marginal_cost_storage", 0.01, 0.5, 0.3)
        if self.extend(st, "p_nom", 40):
            st.pop("state_of_charge_initial", None)
        elif self.has("socset", 0.5):
            m = st["p_nom"] * st["max_hours"]
            se["state_of_charge_set"] = [round(r2(rng, 0.1, 0.6) * m, 3) if rng.random() < 0.3 else float("nan") for _ in range(self.T)]
        if self.has("sign", 0.15):
            st["sign"] = -1.0
        self.life(st)
        self.add("StorageUnit", st, se, "s")

    def store(self, b):
        rng = self.rng
        st, se = {"bus": b, "carrier": rng.choice(self.carriers), "e_nom": r2(rng, 20, 150)}, {}
        if rng.random() < 0.4:
            self.either(st, se, "standing_loss", 0.0, 0.2, 0.3)
        if rng.random() < 0.3:
            self.either(st, se, "e_max_pu", 0.6, 1.0, 0.5)
        if rng.random() < 0.2:
            self.either(st, se, "e_min_pu", 0.0, 0.2, 0.5)
        if self.has("cyclic", 0.6):
            st["e_cyclic"] = True
            if rng.random() < 0.3:
                st["e_initial"] = 3.0
            if self.multi and rng.random() < 0.5:
                st["e_cyclic_per_period"] = rng.random() < 0.5
        else:
            st["e_initial"] = r2(rng, 0, 0.6 * st["e_nom"])
            if self.multi and rng.random() < 0.5:
                st["e_initial_per_period"] = True
        if rng.random() < 0.4:
            self.either(st, se, "marginal_cost", 0.1, 10, 0.3)
        if self.has("storecost", 0.5):
            self.either(st, se, "marginal_cost_storage", 0.01, 0.5, 0.3)
        if self.extend(st, "e_nom", 60):
            st.pop("e_initial", None)
        if self.has("sign", 0.15):
            st["sign"] = -1.0
        self.life(st)
        self.add("Store", st, se, "h")

    def global_constraints(self):
        rng = self.rng
        kinds = rng.sample(["primary_energy", "operational_limit", "transmission_volume_expansion_limit", "transmission_expansion_cost_limit", "tech_capacity_expansion_limit", "bus"], rng.randint(1, 3))
        with_bus = "tech_capacity_expansion_limit" in kinds and rng.random() < 0.3
        for k in kinds:
            if k == "bus":
                car = rng.choice(self.carriers)
                per = f"_{rng.choice(self.periods)}" if self.multi and rng.random() < 0.5 else ""
                vals = [r2(rng, 10, 80) if rng.random() < 0.6 else float("nan") for _ in self.buses]
                self.steps.append(["custom", "Bus", f"nom_max_{car}{per}", vals])
                continue
            st = {"type": k, "sense": rng.choice(["<=", "<=", "<=", "==", ">="]) if rng.random() < 0.3 else "<="}
            if k == "primary_energy":
                st.update(carrier_attribute="co2_emissions", constant=r2(rng, 20, 400))
            elif k == "operational_limit":
                st.update(carrier_attribute=rng.choice(self.carriers), constant=r2(rng, 20, 300))
            elif k == "transmission_volume_expansion_limit":
                st.update(carrier_attribute=rng.choice(["AC", "AC,DC2", "[AC, DC2]", "gas,AC"]), constant=r2(rng, 1000, 8000))
            elif k == "transmission_expansion_cost_limit":
                st.update(carrier_attribute=rng.choice(["AC", "AC, DC2", "gas,AC"]), constant=r2(rng, 500, 4000))
            else:
                st.update(carrier_attribute=rng.choice(self.carriers), constant=r2(rng, 20, 150))
            if with_bus:
                st["bus"] = rng.choice(self.buses)[0]
            if self.multi and rng.random() < 0.5:
                st["investment_period"] = float(rng.choice(self.periods))
            self.add("GlobalConstraint", st, prefix="c")


def problem(rng, **kw):
    g = G(rng, **kw)
    steps = g.run()
    opts = {"multi": g.multi, "losses": 0, "linuc": False, "io_api": rng.choice(["lp", "direct"])}
    return g, steps, opts
