"""C01: export followed by import reproduces the network."""

from __future__ import annotations

import os
import pathlib

from dst import gen, iosim
from dst.core import derive  # noqa: F401

RUNS = {"quick": 700, "thorough": 20000}
BUDGET = {"quick": 45, "thorough": 1500}
SHRINK = ["hops", "steps"]
RULE = (
    "random networks over all 14 component classes (random static/series/custom attributes, single and "
    "multi-period snapshots, CRS, metadata) sent through a random chain of 1-3 export/import hops on the "
    "simulated disk with shuffled directory order, short transfers and interrupted calls; non-trivial: at "
    "least two component classes and at least one environment perturbation fired"
)
STATES = "distinct (format, populated classes, snapshot kind, perturbation kinds) tuples"
REAL = ["pypsa.io", "pypsa.networks", "pandas", "xarray", "netCDF4/HDF5 C libraries", "PyTables", "openpyxl", "calamine"]
STUB = ["libc open/read/write/close/readdir below the scratch directory (LD_PRELOAD fault injector over a real tmpfs)"]
ASSUMPTIONS = [
    "names and string values in CSV/Excel are not readable as numbers, dates or missing values",
    "attributes of components whose default is not NaN are never NaN",
    "CSV and Excel floats may differ in the last digits (relative 1e-14 / 1e-13)",
]
warmup = iosim.warmup
EXPECT_PROBES = ["fmt.csv", "fmt.netcdf", "fmt.hdf5", "fmt.excel", "disk.write:short", "disk.read:short", "disk.read:eintr", "disk.directory-order", "multi-period", "float32", "std-types"]


def generate(rng, tier):
    hops = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        fmt = gen.weighted(rng, [("csv", 4), ("netcdf", 4), ("hdf5", 3), ("excel", 2)])
        opts = {}
        if fmt == "netcdf":
            if rng.random() < 0.3:
                opts["compression"] = rng.choice([None, {"zlib": True, "complevel": 9}])
            if rng.random() < 0.15:
                opts["float32"] = True
        if fmt == "csv" and rng.random() < 0.3:
            opts["encoding"] = "utf-8"
        if fmt == "csv" and rng.random() < 0.15:
            opts["quotechar"] = "'"
        std = rng.random() < 0.12
        if std:
            opts["export_standard_types"] = True
        hops.append(
            {
                "fmt": fmt,
                "opts": opts,
                "style": rng.choice(["method", "constructor"]) if "encoding" not in opts and "quotechar" not in opts else "method",
                "path": rng.choice(["str", "Path", "abs"]),
                "mkdir": rng.random() < 0.5,
                "dirseed": rng.randint(1, 2**40) if rng.random() < 0.7 else 0,
                "wplan": iosim.legal_plan(rng, fmt, "export"),
                "rplan": iosim.legal_plan(rng, fmt, "import"),
            }
        )
    return {"steps": gen.gen_wide(rng), "hops": hops}


def execute(trace, ctx):
    n = ctx.call("build", gen.build, trace["steps"])
    classes = [c for c in gen.CLASSES if len(n.static(c))]
    orig = n
    tol = 0.0
    for i, h in enumerate(trace["hops"]):
        fmt = h["fmt"]
        ctx.probe("fmt." + fmt)
        if n.investment_periods.size:
            ctx.probe("multi-period")
        p = f"net{i}" + iosim.EXT[fmt]
        if fmt == "csv" and h["mkdir"]:
            os.mkdir(p)
        path = {"str": p, "Path": pathlib.Path(p), "abs": os.path.join(ctx.scratch, p)}[h["path"]]
        before = gen.fingerprint(n)
        with iosim.Disk(ctx, ctx.scratch, h["wplan"], h["dirseed"]) as d1:
            ctx.call("export." + fmt, iosim.do_export, n, fmt, path, h["opts"])
        dif = gen.fp_diff(before, gen.fingerprint(n))
        ctx.check(dif is None, f"export-mutates-network:{fmt}", lambda: dif[1])
        kw = {k: v for k, v in h["opts"].items() if k in ("encoding", "quotechar")}
        std = bool(h["opts"].get("export_standard_types"))
        if std:
            ctx.probe("std-types")
        style = "method" if kw else h["style"]
        with iosim.Disk(ctx, ctx.scratch, h["rplan"], h["dirseed"]) as d2:
            m = ctx.call("import." + fmt, iosim.do_import, fmt, path, style, ignore_standard_types=std, **kw)
        tol = max(tol, iosim.TOL[fmt], 1e-6 if h["opts"].get("float32") else 0)
        if h["opts"].get("float32"):
            ctx.probe("float32")
        dif = gen.diff_networks(orig, m, tol)
        ctx.check(dif is None, f"roundtrip:{fmt}:{dif and dif[0]}", lambda: dif[1])
        ctx.log(i, fmt, d1.fired, d2.fired, d1.bytes_written if fmt == "csv" else "")
        ctx.state(fmt, classes, len(n.investment_periods), sorted(d1.fired), sorted(d2.fired))
        if len(classes) >= 2 and (d1.fired or d2.fired):
            ctx.nontrivial = True
        ctx.sim_time += sum(d1.counts.values()) + sum(d2.counts.values())
        n = m


def simplify(trace):
    for i, h in enumerate(trace["hops"]):
        for key, val in (("wplan", []), ("rplan", []), ("dirseed", 0), ("opts", {}), ("style", "method"), ("path", "str"), ("mkdir", False)):
            if h[key] != val:
                trace["hops"][i] = {**h, key: val}
                yield trace
                trace["hops"][i] = h
    yield from simplify_steps(trace)


def simplify_steps(trace):
    for i, s in enumerate(trace["steps"]):
        if s[0] != "add":
            continue
        for pos in (3, 4):
            for k in list(s[pos]):
                if k.startswith("bus") and k in ("bus", "bus0", "bus1"):
                    continue
                new = list(s)
                new[pos] = {a: b for a, b in s[pos].items() if a != k}
                trace["steps"][i] = new
                yield trace
                trace["steps"][i] = s
