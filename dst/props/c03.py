"""C03: an export hit by a failure is reported, harmless, and can be repeated."""

from __future__ import annotations

import os

from dst import gen, iosim
from dst.props.c02 import counts_of
from dst.props.c01 import simplify_steps

RUNS = {"quick": 800, "thorough": 20000}
BUDGET = {"quick": 45, "thorough": 1500}
SHRINK = ["plan", "steps"]
RULE = (
    "one export per run of a random network to a local path or a simulated bucket, with 1-3 disk or upload faults "
    "placed uniformly over the system calls (uploads) which the same export performs without faults; then a "
    "fault-free retry to the same path; non-trivial: at least one fault fired"
)
STATES = "distinct (format, target, fired fault kinds, outcome, exception type) tuples"
REAL = ["pypsa.io", "pypsa.networks", "pandas", "xarray", "netCDF4/HDF5 C libraries", "PyTables", "openpyxl", "calamine", "cloudpathlib"]
STUB = ["libc I/O below the scratch directory (LD_PRELOAD fault injector over a real tmpfs)", "bucket: cloudpathlib's local client with failing, torn and unacknowledged uploads"]
ASSUMPTIONS = [
    "after a failed binary export the retry happens in a fresh process (the C libraries keep files open whose closing failed)",
    "as for C01 on names and text values",
]
warmup = iosim.warmup
EXPECT_PROBES = [
    "fmt.csv", "fmt.netcdf", "fmt.hdf5", "fmt.excel", "target.cloud", "disk.write:err", "disk.write:torn", "disk.openw:err",
    "disk.closew:err", "disk.disk-full", "cloud.upload:err", "cloud.upload:torn", "cloud.upload:lost-ack", "reported", "absorbed", "rename.stale-target",
]


def generate(rng, tier):
    target = rng.choice(["local", "local", "cloud"])
    fmt = gen.weighted(rng, [("csv", 4), ("netcdf", 3), ("hdf5", 3), ("excel", 2 if target == "local" else 0)])
    t = {"fmt": fmt, "target": target, "steps": gen.gen_wide(rng), "opts": {}}
    if rng.random() < 0.3:
        t["before"] = gen.gen_wide(rng)  # an intact export is already there
    if target == "cloud":
        t["plan"] = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            t["plan"].append({"op": "upload", "u": rng.random(), "act": rng.choice(["err", "torn", "lost-ack"])})
    else:
        t["plan"] = iosim.frac_plan(rng, "export", fmt)
    if rng.random() < 0.1:
        t["opts"]["export_standard_types"] = True
    return t


def execute(trace, ctx):
    fmt, target = trace["fmt"], trace["target"]
    ctx.probe("fmt." + fmt)
    ctx.probe("target." + target)
    n = ctx.call("build", gen.build, trace["steps"])
    (local if target == "local" else cloud)(trace, ctx, fmt, n)


def compare(ctx, n, m, fmt, kind):
    dif = gen.diff_networks(n, m, iosim.TOL[fmt])
    ctx.check(dif is None, f"{kind}:{fmt}:{dif and dif[0]}", lambda: dif[1])


def local(trace, ctx, fmt, n):
    work = os.path.join(ctx.scratch, "work")
    os.makedirs(work)
    path = os.path.join(work, "net" + iosim.EXT[fmt])
    opts = trace["opts"]
    std = bool(opts.get("export_standard_types"))
    counts, nb = counts_of(ctx, n, fmt, opts, 0)
    if "before" in trace:
        ctx.probe("rename.stale-target")
        ctx.call("export." + fmt, iosim.do_export, gen.build(trace["before"]), fmt, path)
    plan = iosim.place(trace["plan"], counts, nb)

    def attempt():
        fp = gen.fingerprint(n)
        try:
            iosim.do_export(n, fmt, path, opts)
            err = None
        except Exception as e:  # noqa: BLE001
            err = type(e).__name__
        dif = gen.fp_diff(fp, gen.fingerprint(n))
        return [err, dif]

    st, out, fired, hard = iosim.in_child(ctx, attempt, work, plan)
    ctx.check(st != "raised", f"export-raised-baseexception:{fmt}", out)
    err = st if st != "ok" else out[0]
    ctx.log(fmt, st, out, fired)
    if fired:
        ctx.nontrivial = True
    if st == "ok":
        dif = out[1]
        ctx.check(dif is None, f"failed-export-mutates-network:{fmt}", lambda: dif[1])
        if out[0] is None:
            if hard:
                ctx.probe("absorbed")
            m, e = ctx.attempt(iosim.do_import, fmt, path, ignore_standard_types=std)
            ctx.check(e is None, f"lost-export:{fmt}", lambda: f"export returned normally after {fired}, but import fails: {e!r}")
            compare(ctx, n, m, fmt, "silent-loss")
        else:
            ctx.check(hard, f"export-fails-without-fault:{fmt}", out[0])
            ctx.probe("reported")
    ctx.state(fmt, "local", sorted(fired), err, "before" in trace)
    with iosim.Disk(ctx, work) as d:
        ctx.call("retry." + fmt, iosim.do_export, n, fmt, path, opts)
    m = ctx.call("import." + fmt, iosim.do_import, fmt, path, ignore_standard_types=std)
    compare(ctx, n, m, fmt, "retry")
    ctx.sim_time += sum(d.counts.values()) + sum(counts.values())


def cloud(trace, ctx, fmt, n):
    opts = trace["opts"]
    std = bool(opts.get("export_standard_types"))
    with iosim.Bucket(ctx, os.path.join(ctx.scratch, "dry")) as b:
        if fmt == "csv":
            b.path("net").mkdir()
        ctx.call("export." + fmt, iosim.do_export, n, fmt, b.path("net" + iosim.EXT[fmt]), opts)
        counts = dict(b.count)
    with iosim.Bucket(ctx, os.path.join(ctx.scratch, "real")) as b:
        if fmt == "csv":
            b.path("net").mkdir()
        if "before" in trace:
            ctx.call("export." + fmt, iosim.do_export, gen.build(trace["before"]), fmt, b.path("net" + iosim.EXT[fmt]))
            ctx.probe("rename.stale-target")
            b.fresh()
        b.count = {"upload": 0, "download": 0}
        b.plan = iosim.place(trace["plan"], counts)
        fp = gen.fingerprint(n)
        _, e = ctx.attempt(iosim.do_export, n, fmt, b.path("net" + iosim.EXT[fmt]), opts)
        b.plan = []
        dif = gen.fp_diff(fp, gen.fingerprint(n))
        ctx.check(dif is None, f"failed-export-mutates-network:{fmt}", lambda: dif[1])
        fired = dict(b.fired)
        ctx.log(fmt, "cloud", type(e).__name__, fired)
        ctx.state(fmt, "cloud", sorted(fired), type(e).__name__, "before" in trace)
        if fired:
            ctx.nontrivial = True
        if e is None:
            b.fresh()
            m, e2 = ctx.attempt(iosim.do_import, fmt, b.path("net" + iosim.EXT[fmt]), ignore_standard_types=std)
            ctx.check(e2 is None, f"lost-export:{fmt}", lambda: f"export to the bucket returned normally after {fired}, but import fails: {e2!r}")
            compare(ctx, n, m, fmt, "silent-loss")
        else:
            ctx.check(fired, f"export-fails-without-fault:{fmt}", lambda: repr(e))
            ctx.probe("reported")
        b.fresh()
        ctx.call("retry." + fmt, iosim.do_export, n, fmt, b.path("net" + iosim.EXT[fmt]), opts)
        b.fresh()
        m = ctx.call("import." + fmt, iosim.do_import, fmt, b.path("net" + iosim.EXT[fmt]), ignore_standard_types=std)
        compare(ctx, n, m, fmt, "retry")
        ctx.sim_time += sum(b.count.values()) + sum(counts.values())


def simplify(trace):
    if "before" in trace:
        yield {k: v for k, v in trace.items() if k != "before"}
    if trace["opts"]:
        yield {**trace, "opts": {}}
    yield from simplify_steps(trace)
