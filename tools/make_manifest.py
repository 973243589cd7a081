"""Writes properties.jsonl and MANIFEST.json from the tables below."""

import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, why, files, mechanism, note=None, na=None, level_note=None):
    d = {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mechanism]},
    }
    P.append((d, na, level_note))


SIM = "deterministic simulation with fault injection: "

prop(
    "C01",
    "Export followed by import reproduces the network",
    "A network exported to CSV, netCDF, HDF5 or Excel and imported again has the same components, static and time-series data, snapshots, weightings, investment periods, metadata and coordinate system as the original, for any chain of formats. "
    "Neither directory order nor short or interrupted transfers of the file system change the result. Exporting does not change the network.",
    ["inputs", "configurations", "schedules", "fault_sequences"],
    "every network within the documented attribute types, every chain of formats and export options, every order of directory entries and every pattern of partial reads and writes",
    "The tests round-trip a few example networks on a quiet disk; attribute values, default handling, snapshot kinds, custom columns and directory order are not varied.",
    ["pypsa/io.py", "pypsa/networks.py"],
    [("exporter and importer classes", "pypsa/io.py:ExporterCSV..ImporterNetCDF"), ("default elision and restoration", "pypsa/io.py:_export_to_exporter, _import_components_from_df")],
    level_note="Seeded search over networks, format chains and disk behaviour; text values in CSV/Excel which look like numbers, dates or missing values are outside the generator.",
)
prop(
    "C02",
    "A completed export alone determines what an import reads",
    "Whatever an earlier export of another network left behind at the same path - complete, killed half-way or failed - an export which completes makes a later import return exactly the network exported last.",
    ["histories", "crash_points", "fault_sequences"],
    "every sequence of earlier exports to the path, every system call at which one of them is killed or fails, every pair of networks",
    "No test exports over an existing folder or file which holds other components or a half-written state; crash points are not tested at all.",
    ["pypsa/io.py"],
    [("removal of stale data", "pypsa/io.py:remove_static, remove_series, save_static"), ("file replacement", "pypsa/io.py:ExporterExcel, ExporterHDF5, ExporterNetCDF")],
    level_note="Seeded search over histories and crash points; what was written before a kill survives (no page-cache loss), since PyPSA never asks for durability.",
)
prop(
    "C03",
    "A failing export is reported, harmless and repeatable",
    "An export which returns normally has stored the complete network even if writes, closes or uploads failed on the way; otherwise it raises. A failed export leaves the network in memory as it was, and repeating the export once the fault is gone stores it completely.",
    ["fault_sequences", "crash_points", "inputs"],
    "every placement of disk errors, full disks, torn writes and failing, torn or unacknowledged uploads in an export of every network",
    "The tests never make an I/O call fail, and never export twice to the same bucket path.",
    ["pypsa/io.py"],
    [("writers and their closing", "pypsa/io.py:ExporterCSV._to_csv, ExporterHDF5.__exit__, ExporterNetCDF.finish, ExporterExcel.finish")],
    level_note="Seeded search over fault placements; the retry after a failed binary export runs in a fresh process.",
)
prop(
    "C04",
    "An import is exact or it raises",
    "An import from disk, a bucket or a web address either returns exactly the exported network or raises, whatever reads, downloads or transfers fail, are truncated or return error codes. A later import without faults returns exactly the exported network.",
    ["fault_sequences", "inputs"],
    "every placement of read errors, open errors, failing downloads, connection resets, truncated bodies and error codes in an import of every network",
    "The tests import intact local files only (the one URL test needs the internet); a swallowed read error shows up as a missing component, which no test looks for.",
    ["pypsa/io.py", "pypsa/networks.py"],
    [("readers", "pypsa/io.py:ImporterCSV..ImporterNetCDF"), ("download", "pypsa/io.py:_retrieve_from_url")],
    level_note="Seeded search over fault placements; servers announce the length of what they send.",
)
prop(
    "C05",
    "Failed or aborted optimisation is reported and leaves the network unharmed",
    "If the solver fails, aborts, times out, finds the problem infeasible or unbounded, or a callback raises, optimising does not report success, leaves all inputs unchanged and does not replace earlier results by partial ones. Optimising again without the fault gives the same result as on a network which never saw a failure.",
    ["fault_sequences", "histories", "inputs"],
    "every position of a solver failure of every kind in a history of optimisations, model builds and solves on one network",
    "Tests solve once with a working solver; failing solvers and what they leave behind for the next call are not exercised.",
    ["pypsa/optimization/optimize.py", "pypsa/optimization/abstract.py"],
    [("status handling", "pypsa/optimization/optimize.py:optimize, OptimizationAccessor.solve_model"), ("result assignment", "pypsa/optimization/optimize.py:assign_solution, assign_duals, post_processing")],
    level_note="Seeded search; the fault is injected where the model is handed to the solver.",
)
prop(
    "C06",
    "Rolling-horizon storage is continuous across windows",
    "In a rolling-horizon optimisation the recorded energy levels of non-cyclic stores and storage units obey the documented storage balance across every window boundary, starting from the initial level given by the user, for every horizon and overlap, also after windows which failed. Outside the recorded results the network's inputs are unchanged afterwards.",
    ["inputs", "schedules", "fault_sequences", "histories"],
    "every horizon, overlap, snapshot subset, weighting and storage parameter set, every choice among the solver's optimal or feasible solutions, every window at which the solver fails",
    "Tests run one horizon on one network and compare totals; boundaries with standing losses, weightings, inflow, overlap and failing windows are not covered.",
    ["pypsa/optimization/abstract.py", "pypsa/optimization/constraints.py", "pypsa/optimization/optimize.py"],
    [("hand-over of levels", "pypsa/optimization/abstract.py:optimize_with_rolling_horizon"), ("storage balance", "pypsa/optimization/constraints.py:define_storage_unit_constraints, define_store_constraints")],
    level_note="Seeded search; balances are recomputed from the recorded series with an own reading of the documented equations.",
)
prop(
    "C07",
    "Unit commitment and ramp limits hold across rolling windows",
    "In a rolling-horizon optimisation minimum up and down times, start-up and shut-down ramps and ramp limits of generators and links hold between the last recorded snapshot of a window and the first ones of the next.",
    ["inputs", "schedules", "histories"],
    "every horizon and overlap, every combination of ramp limits, minimum up and down times and initial times, every choice among the solver's solutions",
    "Tests check the first window or one boundary for one generator; constraints which look back over a boundary need a schedule which pushes against it.",
    ["pypsa/optimization/constraints.py", "pypsa/optimization/abstract.py", "pypsa/descriptors.py"],
    [("ramp constraints", "pypsa/optimization/constraints.py:define_ramp_limit_constraints"), ("commitment constraints", "pypsa/optimization/constraints.py:define_operational_constraints_for_committables"), ("initial status", "pypsa/components/components.py:get_committable_i, initially up/down")],
    level_note="Seeded search with an adversarial objective so that solutions sit at the limits; residuals are recomputed from the recorded status and dispatch.",
)
prop(
    "C08",
    "Every reported dispatch is feasible and the objective optimal",
    "Whatever solution the solver returns, the recorded dispatch, flows, levels, status and capacities satisfy the documented constraints: nodal balance, capacity and energy limits, storage balances, ramps, unit commitment, Kirchhoff's voltage law and transmission losses. No dispatch feasible under the documented constraints is cheaper than the reported objective.",
    ["inputs", "configurations", "schedules"],
    "every network, every optimisation option and every feasible solution the solver may return",
    "Tests compare a few networks with stored objective values; a missing or loosened constraint stays invisible whenever the one optimal vertex happens to satisfy it.",
    ["pypsa/optimization/optimize.py", "pypsa/optimization/constraints.py", "pypsa/optimization/variables.py"],
    [("constraint definition", "pypsa/optimization/constraints.py"), ("objective", "pypsa/optimization/optimize.py:define_objective"), ("result assignment", "pypsa/optimization/optimize.py:assign_solution, post_processing")],
    level_note="Seeded search; the seam between model and solver returns arbitrary feasible vertices, an own reference model recomputes residuals and the optimum.",
)
prop(
    "C09",
    "Global constraints and investment limits hold in every reported solution",
    "Whatever solution the solver returns, the recorded results respect all global constraints (emissions, operational limits, transmission volume and cost, technology capacity), capacity bounds, modularity, lifetimes and build years in multi-period planning, and growth limits.",
    ["inputs", "configurations", "schedules"],
    "every set of global constraints, investment periods, build years and lifetimes, every feasible solution the solver may return",
    "Tests check single constraints on one network each and mostly through the optimal objective, not in all solutions the constraint is supposed to exclude.",
    ["pypsa/optimization/global_constraints.py", "pypsa/optimization/constraints.py", "pypsa/descriptors.py"],
    [("global constraints", "pypsa/optimization/global_constraints.py"), ("activity of assets", "pypsa/descriptors.py:get_activity_mask")],
    level_note="Seeded search; the left-hand sides are recomputed from the recorded results by an own reading of the documentation.",
)
prop(
    "C10",
    "Multi-step optimisation drivers restore inputs and report failures",
    "Iterative transmission expansion, near-optimal exploration, rolling horizon, security-constrained optimisation and optimise-then-power-flow leave the user's inputs as they found them (except line impedances, which follow the capacities of a successful iterative expansion), and a solver failure in any of their steps is reported (raised, returned as status, or logged per window) and leaves the inputs restored as well. "
    "What they report on success is the optimum of the problem they document, also after earlier failures.",
    ["fault_sequences", "histories", "inputs"],
    "every step of every driver at which the solver fails or raises, every network",
    "Tests run each driver to completion once; the clean-up after a failing step is not reached.",
    ["pypsa/optimization/abstract.py"],
    [("drivers", "pypsa/optimization/abstract.py")],
    level_note="Seeded search over the failing step and the kind of failure.",
)
prop(
    "C11",
    "Security-constrained dispatch survives every listed outage",
    "After a security-constrained optimisation the flows after the outage of any single listed branch which does not split its sub-network, computed by actually removing the branch and solving the linear power flow with the recorded injections, stay within the limits of the remaining passive branches, whatever solution the solver returns. The contingency analysis reports exactly these flows.",
    ["inputs", "schedules", "fault_sequences", "configurations"],
    "every network topology, outage list, capacity and every feasible solution the solver may return",
    "One test checks one network at its optimum, where few post-contingency limits bind.",
    ["pypsa/optimization/abstract.py", "pypsa/pf.py", "pypsa/contingency.py"],
    [("outage factors", "pypsa/pf.py:SubNetworkPowerFlowMixin.calculate_BODF"), ("security constraints", "pypsa/optimization/abstract.py:optimize_security_constrained"), ("contingency analysis", "pypsa/contingency.py:network_lpf_contingency")],
    level_note="Seeded search; every listed outage is injected into a rebuilt network and its flows recomputed by an own linear power flow.",
)
prop(
    "C12",
    "Any history of edits matches a reference model, rejected edits change nothing",
    "After any sequence of adding, removing, renaming, re-timing, slicing, copying and merging, components, static values, time series, snapshots and weightings equal those of a simple reference model. An edit which is rejected with an error leaves the network unchanged.",
    ["histories", "inputs"],
    "every sequence of editing operations including invalid ones",
    "Tests apply one or two edits to fixed networks; the interplay of operations (remove then re-add, re-time then add, merge then rename) and the state after a rejected edit are not compared.",
    ["pypsa/networks.py", "pypsa/io.py", "pypsa/components/abstract.py", "pypsa/components/components.py"],
    [("add and remove", "pypsa/networks.py:add, remove"), ("re-timing", "pypsa/networks.py:set_snapshots"), ("slicing, copying, merging", "pypsa/networks.py:__getitem__, copy, merge"), ("renaming", "pypsa/components/components.py:rename_component_names")],
    level_note="Seeded search over histories against a dictionary-based model.",
)
prop(
    "C13",
    "Networks do not influence each other",
    "Operations on one network - including copies, slices, merged or imported networks and networks used by concurrent threads - never change another network's data or results, and give the same results as if it were the only one.",
    ["schedules", "histories", "inputs"],
    "every interleaving, at line granularity, of operations on two networks in two threads, and every sequential history of operations on related networks",
    "Tests use one network per process state and one thread; shared class-level state shows only under particular interleavings or orders of creation.",
    ["pypsa/networks.py", "pypsa/components/abstract.py", "pypsa/components/types.py", "pypsa/descriptors.py", "pypsa/_options.py", "pypsa/common.py"],
    [("per-network component types", "pypsa/networks.py:_initialize_components"), ("additional ports", "pypsa/descriptors.py:update_linkports_component_attrs"), ("copying", "pypsa/networks.py:copy")],
    level_note="Seeded scheduler over line-level preemption points of two threads; native code inside a line is not interleaved.",
)
prop(
    "C14",
    "Option contexts always restore what they changed",
    "Leaving an option context, normally or by an exception or an interruption, restores every option it names to the value it had on entry and touches no other, for any nesting, overlap and order of set, get and reset. Invalid names are rejected and change nothing. Library calls use the current values and leave them as they are.",
    ["histories", "fault_sequences"],
    "every program of nested contexts, assignments, resets and exceptions",
    "Tests cover a few fixed programs without exceptions and without repeated names.",
    ["pypsa/_options.py"],
    [("option tree", "pypsa/_options.py:OptionsNode, option_context")],
    level_note="Seeded search over programs against a dictionary-based model.",
)
prop(
    "C15",
    "Results do not depend on hash seeds or the order of unordered inputs",
    "Topology, power flow, exported data and optimisation results of a network do not depend on the string hash seed of the process nor on the order in which its components were added.",
    ["schedules", "inputs", "configurations"],
    "every hash seed and every permutation of the components of every network",
    "The tests run with one insertion order and whatever hash seed the process got; nothing compares two runs.",
    ["pypsa/networks.py", "pypsa/pf.py", "pypsa/graph.py", "pypsa/io.py", "pypsa/optimization/constraints.py"],
    [("topology", "pypsa/networks.py:determine_network_topology"), ("cycles", "pypsa/pf.py:find_cycles, find_tree")],
    level_note="Seeded search over permutations and hash seeds in separate processes.",
)
prop(
    "C16",
    "Non-linear power flow tells the truth",
    "For every snapshot which the non-linear power flow reports as converged the recorded voltages and powers satisfy the AC power balance at every bus, the slack power shows up in the dispatch as distributed, and a snapshot which did not converge is reported as such. Results of a snapshot do not depend on which other snapshots were solved before, and inputs are unchanged.",
    ["inputs", "histories", "schedules", "fault_sequences"],
    "every network, every order and subset of snapshots, every start value and every snapshot at which the iteration diverges",
    "Tests compare a few well-behaved networks with stored results; diverging snapshots between converging ones are not covered.",
    ["pypsa/pf.py"],
    [("Newton iteration", "pypsa/pf.py:newton_raphson_sparse, sub_network_pf"), ("admittances", "pypsa/pf.py:calculate_Y"), ("slack distribution", "pypsa/pf.py:sub_network_pf, find_slack_bus")],
    level_note="Seeded search; mismatches are recomputed with an own admittance matrix from the component data.",
)
prop(
    "C17",
    "Linear power flow after any history equals that of a fresh network",
    "After any sequence of outages, edits, topology determinations and power flows, linear power flow results equal those of a freshly built network with the same data and satisfy the documented equations.",
    ["histories", "inputs", "schedules"],
    "every sequence of edits, (de)activations, topology calls and power flows on every network",
    "Tests run the power flow once on an untouched network; stale topology, admittances or results after edits are not compared with a fresh network.",
    ["pypsa/pf.py", "pypsa/networks.py", "pypsa/graph.py"],
    [("topology", "pypsa/networks.py:determine_network_topology"), ("linear flow", "pypsa/pf.py:network_lpf, sub_network_lpf"), ("PTDF", "pypsa/pf.py:calculate_PTDF, calculate_B_H")],
    level_note="Seeded search over histories; flows are recomputed with an own susceptance matrix.",
)

PURE = "A pure function of its arguments: no schedule, clock, I/O, failure or history for a simulator to control; input generation alone would be property-based testing, not this technique."
prop(
    "C18",
    "Statistics equal their documented formulas",
    "Every metric of the statistics module equals its documented formula over the network's data, for every grouping and aggregation.",
    ["inputs", "configurations"],
    "every network, grouper and aggregation",
    "Tests compare a few metrics on example networks.",
    ["pypsa/statistics/expressions.py", "pypsa/statistics/grouping.py"],
    [("metrics", "pypsa/statistics/expressions.py")],
    na=PURE,
)
prop(
    "C19",
    "Clustering conserves totals",
    "Spatial clustering preserves total load, generation capacity and inter-cluster transfer capacity, and maps every component to a valid bus.",
    ["inputs", "configurations"],
    "every network and busmap",
    "Tests check shapes and a few totals.",
    ["pypsa/clustering/spatial.py"],
    [("aggregation", "pypsa/clustering/spatial.py:get_clustering_from_busmap")],
    na=PURE,
)
prop(
    "C20",
    "Prices are the duals of the documented constraints",
    "Marginal prices and shadow prices recorded after an optimisation are optimal duals of the documented problem with the documented signs and weightings.",
    ["inputs"],
    "every network with a unique or non-unique dual solution",
    "Tests check prices of single-bus examples.",
    ["pypsa/optimization/optimize.py"],
    [("dual assignment", "pypsa/optimization/optimize.py:assign_duals")],
    na="Duals are a pure function of model and solver answer; the optimality of a dual cannot be refuted by a schedule or fault, and the adversarial solver seam replaces the very objective which defines them. That the duals reach the right place on a normal solve is input testing.",
)
prop(
    "C21",
    "Standard line and transformer types give the documented parameters",
    "Impedances and tap ratios derived from standard types equal the documented formulas.",
    ["inputs"],
    "every type, length, number of circuits and tap position",
    "Tests check a handful of types.",
    ["pypsa/pf.py"],
    [("types", "pypsa/pf.py:apply_line_types, apply_transformer_types")],
    na=PURE,
)
prop(
    "C22",
    "The consistency check reports every listed inconsistency",
    "The consistency check warns (or raises in strict mode) for exactly the inconsistencies it documents.",
    ["inputs", "configurations"],
    "every inconsistent network",
    "Tests plant each inconsistency once.",
    ["pypsa/consistency.py"],
    [("checks", "pypsa/consistency.py")],
    na=PURE,
)
prop(
    "C23",
    "Plots show the data of the network",
    "Plotted geometries, sizes and colours correspond to the data passed.",
    ["inputs"],
    "every network and plotting option",
    "Tests only check that plotting does not raise.",
    ["pypsa/plot/maps.py"],
    [("map plots", "pypsa/plot/maps.py")],
    na=PURE,
)


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for d, _, _ in P:
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    checks, na = [], []
    for d, reason, note in P:
        i = d["id"]
        if reason is None and os.path.exists(os.path.join(ROOT, "dst", "props", i.lower() + ".py")):
            checks.append(
                {
                    "property": i,
                    "quick_cmd": f"./run_check.sh {i}",
                    "thorough_cmd": f"VERIF_TIER=thorough ./run_check.sh {i}",
                    "technique": SIM + TECH.get(i, "seeded search"),
                    "level": "exploration",
                    "level_note": note,
                }
            )
        else:
            na.append({"property": i, "reason": reason or "No check yet: under construction."})
    man = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "hooks": {"guard": "PYPSA_DST", "enable": "no hooks were needed: all seams are outside /repo (libc, solver call, URL opener, bucket client, thread scheduler)", "source_commits": []},
        "checks": checks,
        "not_applicable": na,
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


TECH = {
    "C01": "simulated disk (directory order, short and interrupted transfers), comparison with the original",
    "C02": "crash injection at system calls over histories of exports, then import",
    "C03": "disk and upload faults in exports, then import and retry",
    "C04": "disk, download and HTTP faults in imports",
    "C05": "solver faults over histories of optimisations, comparison with a fault-free twin",
    "C06": "adversarial and failing solver over rolling horizons, residual check of the recorded history",
    "C07": "adversarial solver over rolling horizons, residual check of the recorded history",
    "C08": "adversarial solver choosing among feasible solutions, independent reference model",
    "C09": "adversarial solver choosing among feasible solutions, independent reference model",
    "C10": "solver faults at every step of the drivers",
    "C11": "adversarial solver and injected branch outages",
    "C12": "seeded histories with rejected operations against a reference model",
    "C13": "seeded thread scheduler and histories over several networks",
    "C14": "seeded programs with exceptions against a reference model",
    "C15": "hash seeds and insertion orders, comparison across processes",
    "C16": "seeded snapshot orders and diverging snapshots, independent residual check",
    "C17": "seeded outage and edit histories against a fresh network and an independent flow model",
}

if __name__ == "__main__":
    main()
