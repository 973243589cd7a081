"""C02: a completed export alone determines what an import reads."""

from __future__ import annotations

import os

from dst import gen, iosim
from dst.props.c01 import simplify_steps

RUNS = {"quick": 700, "thorough": 20000}
BUDGET = {"quick": 45, "thorough": 1500}
SHRINK = ["prior", "steps"]
RULE = (
    "a history of 1-3 earlier exports of other random networks to the same path - completed, killed at a random "
    "system call, or aborted by a disk error - followed by one fault-free export, then an import; non-trivial: "
    "an earlier export left something behind at the path"
)
STATES = "distinct (format, endings of the earlier exports, classes which disappear, classes which appear) tuples"
REAL = ["pypsa.io", "pypsa.networks", "pandas", "xarray", "netCDF4/HDF5 C libraries", "PyTables", "openpyxl", "calamine"]
STUB = ["libc I/O below the scratch directory (LD_PRELOAD fault injector over a real tmpfs)", "the killed exporter runs in a forked process; what it wrote before the kill survives"]
ASSUMPTIONS = ["everything written before a kill survives (no lost page cache)", "as for C01 on names and text values"]
warmup = iosim.warmup
EXPECT_PROBES = ["fmt.csv", "fmt.netcdf", "fmt.hdf5", "fmt.excel", "prior.completed", "prior.crashed", "prior.failed", "crash"]


def generate(rng, tier):
    fmt = gen.weighted(rng, [("csv", 5), ("netcdf", 2), ("hdf5", 2), ("excel", 2)])
    final = gen.gen_wide(rng)
    prior = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        mode = rng.choice(["completed", "completed", "crashed", "crashed", "failed"])
        r = rng.random()
        p = {"mode": mode, "fmt": fmt, "u": rng.random(), "op": rng.choice(["write", "write", "openw", "closew", "unlink"])}
        if r < 0.5:
            p["steps"] = gen.gen_wide(rng)
        else:
            # a variant of the final network: same components, some steps missing or extra
            p["steps"] = [s for s in final if rng.random() < 0.8] + [s for s in gen.gen_wide(rng) if rng.random() < 0.3 and s[0] == "add"]
        if mode == "failed":
            p["plan"] = iosim.frac_plan(rng, "export", fmt)
        if fmt == "csv" and rng.random() < 0.1:
            p["std"] = True
        prior.append(p)
    return {"fmt": fmt, "steps": final, "prior": prior, "dirseed": rng.randint(1, 2**40), "std": rng.random() < 0.08, "style": rng.choice(["method", "constructor"])}


def counts_of(ctx, n, fmt, opts, tag):
    """Dry run to a side path; returns operation counts."""
    side = os.path.join(ctx.scratch, f"dry{tag}" )
    os.makedirs(side)
    p = os.path.join(side, "net" + iosim.EXT[fmt])
    with iosim.Disk(ctx, side) as d:
        ctx.call("export." + fmt, iosim.do_export, n, fmt, p, opts)
    return d.counts, d.bytes_written


def execute(trace, ctx):
    fmt = trace["fmt"]
    ctx.probe("fmt." + fmt)
    work = os.path.join(ctx.scratch, "work")
    os.makedirs(work)
    path = os.path.join(work, "net" + iosim.EXT[fmt])
    ends, gone = [], set()
    for i, p in enumerate(trace["prior"]):
        m = ctx.call("build", gen.build, p["steps"])
        gone |= {c for c in gen.CLASSES if len(m.static(c))}
        opts = {"export_standard_types": True} if p.get("std") else {}
        if p["mode"] == "completed":
            with iosim.Disk(ctx, work):
                ctx.call("export." + fmt, iosim.do_export, m, fmt, path, opts)
        else:
            counts, nb = counts_of(ctx, m, fmt, opts, i)
            if p["mode"] == "crashed":
                op = p["op"] if counts.get(p["op"]) else "write"
                plan = iosim.place([{"op": op, "u": p["u"], "act": "crash"}], counts)
            else:
                plan = iosim.place(p["plan"], counts, nb)
            st, what, fired, _ = iosim.in_child(ctx, lambda: iosim.do_export(m, fmt, path, opts), work, plan)
            ctx.log("prior", i, st, what, fired)
        left = os.path.exists(path)
        ctx.nontrivial |= left
        ends.append(p["mode"] if left else "nothing")
        ctx.probe("prior." + p["mode"])
    n = ctx.call("build", gen.build, trace["steps"])
    now = {c for c in gen.CLASSES if len(n.static(c))}
    opts = {"export_standard_types": True} if trace["std"] else {}
    with iosim.Disk(ctx, work, (), trace["dirseed"]) as d1:
        ctx.call("export." + fmt, iosim.do_export, n, fmt, path, opts)
    with iosim.Disk(ctx, work, (), trace["dirseed"]) as d2:
        m = ctx.call("import." + fmt, iosim.do_import, fmt, path, trace["style"], ignore_standard_types=trace["std"])
    dif = gen.diff_networks(n, m, iosim.TOL[fmt])
    ctx.check(dif is None, f"leftovers:{fmt}:{dif and dif[0]}", lambda: dif[1])
    ctx.log(fmt, ends, d1.fired, d2.fired)
    ctx.state(fmt, ends, sorted(gone - now), sorted(now - gone))
    ctx.sim_time += sum(d1.counts.values()) + sum(d2.counts.values())


def simplify(trace):
    for key, val in (("dirseed", 0), ("std", False), ("style", "method")):
        if trace[key] != val:
            yield {**trace, key: val}
    for i, p in enumerate(trace["prior"]):
        for j in range(len(p["steps"])):
            trace["prior"][i] = {**p, "steps": p["steps"][:j] + p["steps"][j + 1 :]}
            yield trace
        trace["prior"][i] = p
        if p["mode"] != "completed":
            trace["prior"][i] = {**p, "mode": "completed"}
            yield trace
            trace["prior"][i] = p
    yield from simplify_steps(trace)
