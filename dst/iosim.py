"""The simulated disk: fault plans for the libc seam, and the I/O entry points."""

from __future__ import annotations

import ctypes
import errno
import os

OPS = ["openw", "openr", "write", "read", "closew", "trunc", "sync", "unlink", "mkdir", "rename"]
ACTS = ["err", "short", "torn", "crash", "eintr"]
ERRNOS = {"EIO": errno.EIO, "ENOSPC": errno.ENOSPC, "EDQUOT": errno.EDQUOT, "EACCES": errno.EACCES, "EMFILE": errno.EMFILE}

_lib = None


def lib():
    global _lib
    if _lib is None:
        L = ctypes.CDLL(os.environ["DST_SHIM"])
        # must be the preloaded copy
        assert os.environ["DST_SHIM"] in os.environ.get("LD_PRELOAD", ""), "I/O shim is not preloaded"
        L.iof_arm.argtypes = [ctypes.c_char_p]
        L.iof_add.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_int, ctypes.c_long, ctypes.c_int]
        L.iof_full.argtypes = [ctypes.c_longlong]
        L.iof_dirseed.argtypes = [ctypes.c_uint64]
        for f in ("iof_opcount", "iof_fired", "iof_fired_full", "iof_dir_permuted"):
            getattr(L, f).restype = ctypes.c_long
        L.iof_bytes_written.restype = ctypes.c_longlong
        L.iof_bytes_read.restype = ctypes.c_longlong
        _lib = L
    return _lib


class Disk:
    """Arms a fault plan for everything below ``prefix`` while in context.

    plan entries: {"op": "write", "k": 3, "act": "err", "errno": "EIO", "arg": 500}
    or {"full": bytes}.
    """

    def __init__(self, ctx, prefix, plan=(), dirseed=0):
        self.ctx, self.prefix, self.plan, self.dirseed = ctx, prefix, plan, dirseed
        self.hard = 0  # faults fired which an application must report
        self.fired: dict[str, int] = {}

    def __enter__(self):
        L = lib()
        L.iof_reset()
        for f in self.plan:
            if "full" in f:
                L.iof_full(f["full"])
            else:
                L.iof_add(OPS.index(f["op"]), f["k"], ACTS.index(f["act"]), f.get("arg", 500), ERRNOS.get(f.get("errno"), 0))
        L.iof_dirseed(self.dirseed)
        L.iof_arm(os.path.join(self.prefix, "").encode()[:-1])
        return self

    def __exit__(self, *exc):
        L = lib()
        L.iof_disarm()
        for i, op in enumerate(OPS):
            for j, act in enumerate(ACTS):
                c = L.iof_fired(i, j)
                if c:
                    self.fired[f"{op}:{act}"] = c
                    if act in ("err", "torn"):
                        self.hard += c
        if L.iof_fired_full():
            self.fired["disk-full"] = L.iof_fired_full()
            self.hard += L.iof_fired_full()
        if L.iof_dir_permuted():
            self.fired["directory-order"] = L.iof_dir_permuted()
        self.counts = {op: L.iof_opcount(i) for i, op in enumerate(OPS)}
        self.bytes_written, self.bytes_read = L.iof_bytes_written(), L.iof_bytes_read()
        for k, v in self.fired.items():
            self.ctx.fault("disk." + k, v)
        return False


# --------------------------------------------------------------- entry points

EXT = {"csv": "", "netcdf": ".nc", "hdf5": ".h5", "excel": ".xlsx"}


def do_export(n, fmt, path, opts=None):
    opts = opts or {}
    if fmt == "csv":
        n.export_to_csv_folder(path, **opts)
    elif fmt == "netcdf":
        n.export_to_netcdf(path, **opts)
    elif fmt == "hdf5":
        n.export_to_hdf5(path, **opts)
    elif fmt == "excel":
        n.export_to_excel(path, **opts)
    else:
        raise ValueError(fmt)


def do_import(fmt, path, style="method", ignore_standard_types=False, into=None, **kw):
    import pypsa

    if style == "constructor":
        return pypsa.Network(path, ignore_standard_types=ignore_standard_types)
    n = into if into is not None else pypsa.Network(ignore_standard_types=ignore_standard_types)
    f = {
        "csv": n.import_from_csv_folder,
        "netcdf": n.import_from_netcdf,
        "hdf5": n.import_from_hdf5,
        "excel": n.import_from_excel,
    }[fmt]
    f(path, **kw)
    return n


TOL = {"csv": 1e-14, "netcdf": 0.0, "hdf5": 0.0, "excel": 1e-13}


def legal_plan(rng, fmt, phase):
    """Faults a correct program never notices: short transfers, interrupts."""
    plan = []
    for _ in range(rng.randint(0, 6)):
        op = "write" if phase == "export" else "read"
        plan.append(
            {
                "op": op,
                "k": int(rng.expovariate(1 / 15)),
                "act": rng.choice(["short", "eintr"]),
                "arg": rng.choice([1, 100, 500, 900]),
            }
        )
    return plan


def hard_plan(rng, phase, n_ops=None, n_bytes=None):
    """One to three errors placed inside the operations of an export/import."""
    n_ops = n_ops or {}
    plan = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        r = rng.random()
        if phase == "export":
            if r < 0.25 and n_bytes:
                plan.append({"full": rng.randint(0, max(1, n_bytes))})
                continue
            ops = [(o, 3 if o == "write" else 1) for o in ("write", "openw", "closew", "trunc", "unlink", "mkdir") if n_ops.get(o)]
        else:
            ops = [(o, 3 if o == "read" else 1) for o in ("read", "openr") if n_ops.get(o)]
        if not ops:
            continue
        tot = sum(w for _, w in ops)
        x = rng.random() * tot
        for op, w in ops:
            x -= w
            if x < 0:
                break
        k = rng.randrange(n_ops[op])
        f = {"op": op, "k": k, "act": "err", "errno": rng.choice(["EIO", "ENOSPC", "EDQUOT"] if phase == "export" else ["EIO"])}
        if op == "write" and rng.random() < 0.4:
            f.update(act="torn", arg=rng.choice([1, 300, 500, 999]))
        if op in ("openw", "openr") and rng.random() < 0.5:
            f["errno"] = rng.choice(["EACCES", "EMFILE"])
        plan.append(f)
    return plan


def warmup():
    """Import the lazily loaded I/O libraries before forking."""
    import gc
    import shutil
    import tempfile

    import pypsa

    d = tempfile.mkdtemp(prefix="dstwarm-")
    try:
        n = pypsa.Network()
        n.add("Bus", "a")
        for fmt, ext in EXT.items():
            do_export(n, fmt, os.path.join(d, "w" + ext))
            do_import(fmt, os.path.join(d, "w" + ext))
    except Exception:
        pass  # the runs themselves will tell
    finally:
        shutil.rmtree(d, ignore_errors=True)
    gc.collect()
    gc.freeze()


# ----------------------------------------------------------- simulated cloud


class Bucket:
    """An S3 bucket simulated by cloudpathlib's local client, with faults.

    plan entries: {"op": "upload" | "download", "k": 2, "act": "err" | "torn" | "lost-ack"}
    """

    def __init__(self, ctx, root, plan=()):
        self.ctx, self.root, self.plan = ctx, root, list(plan)
        self.count = {"upload": 0, "download": 0}
        self.fired: dict[str, int] = {}
        self.hard = 0

    def __enter__(self):
        import cloudpathlib
        from cloudpathlib.local import LocalS3Client, local_s3_implementation

        bucket = self

        class Client(LocalS3Client):
            def _upload_file(self, local_path, cloud_path):
                return bucket.op("upload", lambda: super(Client, self)._upload_file(local_path, cloud_path), lambda: bucket.tear(local_path, cloud_path, self))

            def _download_file(self, cloud_path, local_path):
                return bucket.op("download", lambda: super(Client, self)._download_file(cloud_path, local_path), lambda: None)

        os.makedirs(os.path.join(self.root, "cloud", "bkt"), exist_ok=True)
        self.impl = local_s3_implementation
        self.reg = cloudpathlib.implementation_registry
        self.saved = dict(self.reg)
        self.reg[self.impl.name] = self.impl
        self.Client = Client
        self.cls = self.impl._path_class
        self.n_cache = 0
        self.old_env = os.environ.get("CLOUDPATHLIB_FORCE_OVERWRITE_FROM_CLOUD")
        self.fresh()
        return self

    def fresh(self):
        """A new client with an empty cache: another machine."""
        self.n_cache += 1
        self.client = self.Client(
            local_storage_dir=os.path.join(self.root, "cloud"),
            local_cache_dir=os.path.join(self.root, f"cache{self.n_cache}"),
        )
        self.client.set_as_default_client()

    def path(self, name):
        return self.cls("s3://bkt/" + name, client=self.client)

    def op(self, kind, do, tear):
        i = self.count[kind]
        self.count[kind] += 1
        for f in self.plan:
            if f["op"] == kind and f["k"] == i:
                self.fired[f"cloud.{kind}:{f['act']}"] = self.fired.get(f"cloud.{kind}:{f['act']}", 0) + 1
                self.hard += 1
                self.ctx.fault(f"cloud.{kind}:{f['act']}")
                if f["act"] == "lost-ack":
                    do()
                elif f["act"] == "torn":
                    tear()
                raise ConnectionError(f"simulated {kind} failure")
        return do()

    def tear(self, local_path, cloud_path, client):
        dst = client._cloud_path_to_local(cloud_path)
        dst.parent.mkdir(parents=True, exist_ok=True)
        data = open(local_path, "rb").read()
        dst.write_bytes(data[: len(data) // 2])

    def __exit__(self, *exc):
        self.reg.clear()
        self.reg.update(self.saved)
        return False


def place(plan, counts, n_bytes=0):
    """Turn fractional positions into operation numbers, given a dry run's counts."""
    out = []
    for f in plan:
        f = dict(f)
        if "full" in f:
            f["full"] = int(f.pop("u", 0) * max(1, n_bytes)) if f["full"] is None else f["full"]
            out.append(f)
            continue
        c = counts.get(f["op"], 0)
        if not c:
            continue
        if "u" in f:
            f["k"] = min(c - 1, int(f.pop("u") * c))
        out.append(f)
    return out


def frac_plan(rng, phase, fmt):
    """One to three hard faults at fractional positions."""
    plan = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        u = rng.random() if rng.random() < 0.8 else 0.999999
        if phase == "export":
            r = rng.random()
            if r < 0.2:
                plan.append({"full": None, "u": u})
                continue
            op = gen_weighted(rng, [("write", 4), ("openw", 3), ("closew", 2), ("trunc", 1), ("unlink", 1), ("mkdir", 1), ("read", 0.5)])
        else:
            op = gen_weighted(rng, [("read", 3), ("openr", 1)])
        f = {"op": op, "u": u, "act": "err", "errno": rng.choice(["EIO", "ENOSPC", "EDQUOT"]) if op not in ("read", "openr") else "EIO"}
        if op == "write" and rng.random() < 0.4:
            f.update(act="torn", arg=rng.choice([1, 300, 500, 999]))
        if op in ("openw", "openr") and rng.random() < 0.5:
            f["errno"] = rng.choice(["EACCES", "EMFILE"])
        plan.append(f)
    return plan


def gen_weighted(rng, pairs):
    from dst.gen import weighted

    return weighted(rng, pairs)


def in_child(ctx, fn, prefix, plan):
    """Run fn with faults in a forked process.

    Returns ("crash" | "died" | "raised" | "ok", what fn returned or the
    exception's type name).  C libraries which fail to close a file keep it
    open (or crash); what a failed export leaves in the *process* is their
    business, what it leaves on *disk* and in the network is PyPSA's.
    """
    import json

    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            d = Disk(ctx, prefix, plan)
            d.__enter__()
            try:
                out = ["ok", fn()]
            except BaseException as e:  # noqa: BLE001
                out = ["raised", type(e).__name__]
            d.__exit__()
            out += [d.fired, d.hard]
            os.write(w, json.dumps(out).encode())
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while chunk := os.read(r, 65536):
        buf += chunk
    os.close(r)
    _, st = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(st)
    if code == 77:
        ctx.fault("crash")
        return "crash", None, {}, 0
    if not buf:
        ctx.probe("library-crash")
        return "died", None, {}, 0
    status, val, fired, hard = json.loads(buf)
    for k, v in fired.items():
        ctx.fault("disk." + k, v)
    return status, val, fired, hard
