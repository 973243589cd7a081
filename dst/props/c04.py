"""C04: an import is exact or it raises, whatever the disk and the network do."""

from __future__ import annotations

import io
import os
import urllib.error
import urllib.request
import urllib.response

from dst import gen, iosim
from dst.props.c01 import simplify_steps

RUNS = {"quick": 900, "thorough": 20000}
BUDGET = {"quick": 60, "thorough": 1500}
SHRINK = ["plan", "steps"]
RULE = (
    "one import per run of an exported random network from a local path, a simulated bucket or a simulated web "
    "server, with 1-3 read, download or transfer faults placed uniformly over the operations the fault-free import "
    "performs; then a fault-free import; non-trivial: at least one fault fired"
)
STATES = "distinct (format, source, fired fault kinds, outcome) tuples"
REAL = ["pypsa.io", "pypsa.networks", "pandas", "xarray", "netCDF4/HDF5 C libraries", "PyTables", "calamine", "cloudpathlib", "urllib.request.urlretrieve"]
STUB = [
    "libc I/O below the scratch directory (LD_PRELOAD fault injector over a real tmpfs)",
    "bucket: cloudpathlib's local client with failing downloads",
    "web server: urllib opener with status codes, resets and truncated bodies",
]
ASSUMPTIONS = ["the simulated server announces the body's length", "as for C01 on names and text values"]
EXPECT_PROBES = [
    "fmt.csv", "fmt.netcdf", "fmt.hdf5", "fmt.excel", "source.cloud", "source.url", "disk.read:err", "disk.openr:err",
    "cloud.download:err", "http.reset", "http.truncated", "http.status", "reported", "absorbed",
]


def warmup():
    iosim.warmup()


def generate(rng, tier):
    source = rng.choice(["local", "local", "cloud", "url"])
    fmts = {"local": [("csv", 3), ("netcdf", 3), ("hdf5", 3), ("excel", 2)], "cloud": [("csv", 2), ("netcdf", 2), ("hdf5", 2)], "url": [("netcdf", 2), ("hdf5", 2)]}
    t = {"fmt": gen.weighted(rng, fmts[source]), "source": source, "steps": gen.gen_wide(rng), "style": rng.choice(["method", "constructor"])}
    if source == "cloud":
        t["plan"] = [{"op": "download", "u": rng.random(), "act": "err"} for _ in range(rng.choice([0, 1, 1, 2]))]
    elif source == "url":
        t["plan"] = [
            {"act": rng.choice(["reset", "truncated", "truncated", "status", "short-reads"]), "u": rng.random(), "code": rng.choice([404, 500, 503])}
            for _ in range(rng.choice([0, 1, 1, 1, 2]))
        ]
    else:
        t["plan"] = iosim.frac_plan(rng, "import", t["fmt"])
    return t


class Server(urllib.request.BaseHandler):
    """Serves one file; the k-th request suffers plan[k]."""

    handler_order = 100

    def __init__(self, ctx, data, plan):
        self.ctx, self.data, self.plan, self.k = ctx, data, plan, 0
        self.fired = {}

    def http_open(self, req):
        f = self.plan[self.k] if self.k < len(self.plan) else None
        self.k += 1
        if f:
            self.fired["http." + f["act"]] = self.fired.get("http." + f["act"], 0) + 1
            self.ctx.fault("http." + f["act"])
            if f["act"] == "status":
                raise urllib.error.HTTPError(req.full_url, f["code"], "simulated", {}, io.BytesIO(b"oops"))
        cut = int(len(self.data) * f["u"]) if f else 0
        body = Body(self.data, f["act"] if f else None, cut)
        import email.message

        h = email.message.Message()
        h["Content-Length"] = str(len(self.data))
        r = urllib.response.addinfourl(body, h, req.full_url, 200)
        r.msg = "OK"
        return r

    https_open = http_open


class Body(io.BytesIO):
    def __init__(self, data, act, cut):
        super().__init__(data[:cut] if act == "truncated" else data)
        self.act, self.cut = act, cut

    def read(self, n=-1):
        if self.act == "reset" and (n < 0 or self.tell() + n > self.cut):
            raise ConnectionResetError("simulated reset")
        if self.act == "short-reads" and n > 1:
            n = max(1, n // 3)
        return super().read(n)


def execute(trace, ctx):
    fmt, source = trace["fmt"], trace["source"]
    ctx.probe("fmt." + fmt)
    ctx.probe("source." + source)
    n = ctx.call("build", gen.build, trace["steps"])
    {"local": local, "cloud": cloud, "url": url}[source](trace, ctx, fmt, n)


def verdict(ctx, n, m, fmt):
    d = gen.diff_networks(n, m, iosim.TOL[fmt])
    return d and list(d)


def local(trace, ctx, fmt, n):
    work = os.path.join(ctx.scratch, "work")
    os.makedirs(work)
    path = os.path.join(work, "net" + iosim.EXT[fmt])
    ctx.call("export." + fmt, iosim.do_export, n, fmt, path)
    with iosim.Disk(ctx, work) as d:
        m = ctx.call("import." + fmt, iosim.do_import, fmt, path, trace["style"])
    dif = verdict(ctx, n, m, fmt)
    ctx.check(dif is None, f"import:{fmt}:{dif and dif[0]}", lambda: dif[1])
    plan = iosim.place(trace["plan"], d.counts)

    def attempt():
        try:
            m = iosim.do_import(fmt, path, trace["style"])
        except Exception as e:  # noqa: BLE001
            return [type(e).__name__, None]
        return [None, verdict(ctx, n, m, fmt)]

    st, out, fired, hard = iosim.in_child(ctx, attempt, work, plan)
    ctx.check(st != "raised", f"import-raised-baseexception:{fmt}", out)
    ctx.log(fmt, st, out, fired)
    ctx.nontrivial |= bool(fired)
    ctx.state(fmt, "local", sorted(fired), st, out and out[0])
    if st == "ok":
        err, dif = out
        if err is None:
            ctx.check(dif is None, f"silently-wrong-import:{fmt}:{dif and dif[0]}", lambda: f"after {fired}: {dif[1]}")
            if hard:
                ctx.probe("absorbed")
        else:
            ctx.check(hard, f"import-fails-without-fault:{fmt}", err)
            ctx.probe("reported")
    m = ctx.call("import." + fmt, iosim.do_import, fmt, path, trace["style"])
    dif = verdict(ctx, n, m, fmt)
    ctx.check(dif is None, f"import-after-failure:{fmt}:{dif and dif[0]}", lambda: dif[1])
    ctx.sim_time += sum(d.counts.values())


def settle(trace, ctx, fmt, n, do, fired):
    """One faulty import and one clean one in the same process."""
    m, e = ctx.attempt(do)
    f = dict(fired())
    ctx.log(fmt, trace["source"], type(e).__name__, f)
    ctx.nontrivial |= bool(f)
    ctx.state(fmt, trace["source"], sorted(f), type(e).__name__)
    if e is None:
        dif = verdict(ctx, n, m, fmt)
        ctx.check(dif is None, f"silently-wrong-import:{fmt}:{dif and dif[0]}", lambda: f"after {f}: {dif[1]}")
        if f:
            ctx.probe("absorbed")
    else:
        ctx.check(f, f"import-fails-without-fault:{fmt}", lambda: repr(e))
        ctx.probe("reported")


def cloud(trace, ctx, fmt, n):
    name = "net" + iosim.EXT[fmt]

    with iosim.Bucket(ctx, os.path.join(ctx.scratch, "b")) as b:
        p = b.path(name)
        if fmt == "csv":
            p.mkdir()
        ctx.call("export." + fmt, iosim.do_export, n, fmt, p)
        b.fresh()
        b.count["download"] = 0
        ctx.call("import." + fmt, iosim.do_import, fmt, b.path(name), trace["style"])
        counts = dict(b.count)
        b.fresh()
        b.count["download"] = 0
        b.plan = iosim.place(trace["plan"], counts)
        settle(trace, ctx, fmt, n, lambda: iosim.do_import(fmt, b.path(name), trace["style"]), lambda: b.fired)
        b.plan = []
        m = ctx.call("import." + fmt, iosim.do_import, fmt, b.path(name), trace["style"])
        dif = verdict(ctx, n, m, fmt)
        ctx.check(dif is None, f"import-after-failure:{fmt}:{dif and dif[0]}", lambda: dif[1])
        ctx.sim_time += sum(b.count.values())


def url(trace, ctx, fmt, n):
    import tempfile

    tempfile.tempdir = ctx.scratch
    path = os.path.join(ctx.scratch, "net" + iosim.EXT[fmt])
    ctx.call("export." + fmt, iosim.do_export, n, fmt, path)
    srv = Server(ctx, open(path, "rb").read(), trace["plan"])
    old = urllib.request._opener
    urllib.request.install_opener(urllib.request.build_opener(srv))
    try:
        address = "http://example.com/net" + iosim.EXT[fmt]
        do = lambda: iosim.do_import(fmt, address, trace["style"])  # noqa: E731
        for _ in range(max(1, len(trace["plan"]))):
            srv.fired = {}
            settle(trace, ctx, fmt, n, do, lambda: srv.fired)
        srv.plan = []
        m = ctx.call("import." + fmt, do)
        dif = verdict(ctx, n, m, fmt)
        ctx.check(dif is None, f"import-after-failure:{fmt}:{dif and dif[0]}", lambda: dif[1])
        ctx.sim_time += srv.k
    finally:
        urllib.request.install_opener(old)


def simplify(trace):
    if trace["style"] != "method":
        yield {**trace, "style": "method"}
    yield from simplify_steps(trace)
