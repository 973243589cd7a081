"""Simulator core: seeds, forked runs, minimisation, replay and evidence.

One integer decides a run: ``run_seed`` is derived from VERIF_SEED, the property
and the run index; it feeds one PRNG which generates a *trace* (JSON: the
configuration, the operations and the faults).  Executing a trace is a pure
function of the trace and of the code under test, so the (minimised) trace is the
replay file.  Every run happens in a forked child inside its own scratch
directory, so no run sees state another one left behind.
"""

from __future__ import annotations

import argparse
import gc
import hashlib
import importlib
import json
import os
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
FINDINGS = os.path.join(VERIF, "known_findings.jsonl")

EXIT_OK, EXIT_VIOLATION, EXIT_HARNESS = 0, 1, 2


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, kind: str, msg: str = "") -> None:
        super().__init__(f"{kind}: {msg}")
        self.kind = kind
        self.msg = msg


class Skip(Exception):
    """This (shrunk) trace is not executable; only meaningful when minimising."""


class Ctx:
    """What an executing trace may use: scratch directory, log, counters."""

    def __init__(self, scratch: str) -> None:
        self.scratch = scratch
        self.events: list[str] = []
        self.faults: dict[str, int] = {}
        self.probes: dict[str, int] = {}
        self.states: set[str] = set()
        self.nontrivial = False
        self.sim_time = 0.0
        self.findings: list[dict] = []
        self.known_seen: dict[str, int] = {}

    def log(self, *parts) -> None:
        self.events.append(" ".join(str(p) for p in parts))

    def fault(self, kind: str, k: int = 1) -> None:
        if k:
            self.faults[kind] = self.faults.get(kind, 0) + int(k)

    def probe(self, kind: str, k: int = 1) -> None:
        if k:
            self.probes[kind] = self.probes.get(kind, 0) + int(k)

    def state(self, *parts) -> None:
        self.states.add(hashlib.sha1(repr(parts).encode()).hexdigest()[:12])

    def call(self, what: str, fn, *args, **kwargs):
        """A call which must succeed: an exception is a violation."""
        try:
            return fn(*args, **kwargs)
        except (Violation, Skip, MemoryError):
            raise
        except Exception as e:
            raise Violation(
                f"unexpected-exception:{what}:{type(e).__name__}", short_tb(e)
            ) from e

    def attempt(self, fn, *args, **kwargs):
        """A call which may fail: returns (result, exception)."""
        try:
            return fn(*args, **kwargs), None
        except (Violation, Skip, MemoryError):
            raise
        except Exception as e:
            return None, e

    def known(self, kind: str, msg: str) -> None:
        """A violation which does not end the run if it is a listed finding."""
        f = match_finding(self.findings, {"kind": kind, "msg": msg})
        if f is None:
            raise Violation(kind, msg)
        self.known_seen[f["id"]] = self.known_seen.get(f["id"], 0) + 1

    def check(self, cond, kind: str, msg="") -> None:
        if not cond:
            raise Violation(kind, msg() if callable(msg) else str(msg))


def short_tb(e: BaseException) -> str:
    tb = traceback.extract_tb(e.__traceback__)
    where = [f"{os.path.relpath(f.filename, REPO)}:{f.lineno}" for f in tb if f.filename.startswith(REPO)]
    return f"{type(e).__name__}: {str(e)[:300]} at {' < '.join(reversed(where[-3:]))}"


def from_repo(e: BaseException) -> bool:
    return any(f.filename.startswith(REPO + "/") for f in traceback.extract_tb(e.__traceback__))


def derive(*parts) -> int:
    h = hashlib.sha256("|".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], "big") >> 1


def fnum(x) -> str:
    """Float for logs: robust against the last bits."""
    return f"{float(x):.6g}"


# ------------------------------------------------------------------ one run


def quiet() -> None:
    import logging
    import warnings

    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)


def run_child(mod, trace: dict | None, seed: int | None, tier: str, wfd: int) -> None:
    """Body of a forked child; never returns."""
    scratch = tempfile.mkdtemp(prefix="dst-", dir=scratch_root())
    out: dict = {}
    try:
        os.chdir(scratch)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get("DST_DEBUG"):
            os.dup2(devnull, 2)
        quiet()
        gc.disable()  # collection points are part of the schedule: none
        random.seed(0)
        import numpy as np

        np.random.seed(0)
        if trace is None:
            rng = random.Random(seed)
            trace = mod.generate(rng, tier)
            trace["run_seed"] = seed
            trace = json.loads(json.dumps(trace))
        out["trace"] = trace
        ctx = Ctx(scratch)
        ctx.findings = load_findings(mod.__name__.rsplit(".", 1)[1].upper())
        set_clock(trace)
        try:
            mod.execute(trace, ctx)
            out["status"] = "ok"
        except Violation as v:
            out.update(status="violation", kind=v.kind, msg=v.msg[:2000])
        except Skip as s:
            out.update(status="skip", msg=str(s))
        except MemoryError:
            out.update(status="harness", msg="MemoryError")
        except Exception as e:
            if from_repo(e):
                out.update(
                    status="violation",
                    kind=f"unexpected-exception:{type(e).__name__}",
                    msg=short_tb(e),
                )
            else:
                out.update(status="harness", msg=traceback.format_exc()[-3000:])
        out["known"] = ctx.known_seen
        out["faults"] = ctx.faults
        out["probes"] = ctx.probes
        out["states"] = sorted(ctx.states)
        out["nontrivial"] = bool(ctx.nontrivial)
        out["sim_time"] = ctx.sim_time
        digest = hashlib.sha256(json.dumps(trace, sort_keys=True).encode())
        digest.update("\n".join(ctx.events).encode())
        digest.update(repr((out["status"], out.get("kind"))).encode())
        out["digest"] = digest.hexdigest()
        out["n_events"] = len(ctx.events)
        if os.environ.get("DST_KEEP_EVENTS"):
            out["events"] = ctx.events
    except BaseException:
        out = {"status": "harness", "msg": traceback.format_exc()[-3000:], "trace": trace}
    try:
        data = json.dumps(out).encode()
        view = memoryview(data)
        while view:
            view = view[os.write(wfd, view) :]
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
        os._exit(0)


def set_clock(trace: dict) -> None:
    """Simulated wall clock: a fixed start, one tick per reading, maybe a jump."""
    if not os.environ.get("DST_SHIM"):
        return
    import ctypes

    L = ctypes.CDLL(os.environ["DST_SHIM"])
    L.iof_clock.argtypes = [ctypes.c_longlong, ctypes.c_longlong, ctypes.c_long, ctypes.c_longlong]
    c = trace.get("clock") or {}
    L.iof_clock(
        int(c.get("start", 1_600_000_000)) * 10**9,
        1_000_000,
        c.get("jump_at", -1),
        int(c.get("jump_s", 0)) * 10**9,
    )


_root = None


def scratch_root() -> str:
    global _root
    if _root is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and not os.environ.get("DST_NOSHM") else None
        _root = tempfile.mkdtemp(prefix="dstroot-", dir=base)
    return _root


class Pool:
    """Forked children, at most ``workers`` at a time."""

    def __init__(self, mod, tier: str, workers: int, run_timeout: float) -> None:
        self.mod, self.tier, self.workers, self.run_timeout = mod, tier, workers, run_timeout
        self.live: dict[int, dict] = {}  # rfd -> info

    def start(self, tag, trace=None, seed=None) -> None:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for fd in list(self.live):
                os.close(fd)
            try:
                os.setsid()
                signal.signal(signal.SIGTERM, signal.SIG_DFL)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                run_child(self.mod, trace, seed, self.tier, w)
            finally:
                os._exit(3)
        os.close(w)
        self.live[r] = {"pid": pid, "tag": tag, "buf": bytearray(), "t0": time.monotonic(), "trace": trace, "seed": seed}

    def wait(self) -> list[tuple]:
        """Block until at least one child is done."""
        done = []
        while not done:
            ready, _, _ = select.select(list(self.live), [], [], 1.0)
            for fd in ready:
                info = self.live[fd]
                chunk = os.read(fd, 1 << 20)
                if chunk:
                    info["buf"] += chunk
                    continue
                done.append(self._finish(fd))
            now = time.monotonic()
            for fd, info in list(self.live.items()):
                if now - info["t0"] > self.run_timeout:
                    try:
                        os.killpg(info["pid"], signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    res = self._finish(fd)
                    res[1].update(status="harness", msg=f"run exceeded {self.run_timeout}s wall clock")
                    done.append(res)
        return done

    def _finish(self, fd) -> tuple:
        info = self.live.pop(fd)
        os.close(fd)
        _, st = os.waitpid(info["pid"], 0)
        try:
            os.killpg(info["pid"], signal.SIGKILL)  # stray grandchildren
        except (ProcessLookupError, PermissionError):
            pass
        try:
            res = json.loads(bytes(info["buf"]))
        except ValueError:
            res = {
                "status": "harness",
                "msg": f"child ended without a result, wait status {st}, seed {info['seed']}",
                "trace": info["trace"],
            }
        return info["tag"], res

    def run_one(self, trace) -> dict:
        self.start("x", trace=trace)
        while True:
            for tag, res in self.wait():
                if tag == "x":
                    return res

    def kill(self) -> None:
        for fd, info in list(self.live.items()):
            try:
                os.killpg(info["pid"], signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.close(fd)
            os.waitpid(info["pid"], 0)
        self.live.clear()


# ------------------------------------------------------------- minimisation


def same(res: dict, kind: str) -> bool:
    return res.get("status") == "violation" and res.get("kind") == kind


def minimise(pool: Pool, trace: dict, kind: str, budget_s: float, list_keys) -> dict:
    """ddmin over the trace's lists, then the module's own simplifications."""
    t_end = time.monotonic() + budget_s

    def test_many(cands: list[dict]):
        """First candidate (in order) which still fails, evaluated in parallel."""
        results: dict[int, dict] = {}
        it = iter(enumerate(cands))
        exhausted = False
        while True:
            while not exhausted and len(pool.live) < pool.workers and time.monotonic() < t_end:
                try:
                    i, c = next(it)
                except StopIteration:
                    exhausted = True
                    break
                pool.start(("min", i), trace=c)
            if not pool.live:
                return None
            for (_, i), res in pool.wait():
                results[i] = res
            for i in sorted(results):
                if all(j in results for j in range(i)) and same(results[i], kind):
                    while pool.live:
                        pool.wait()
                    return results[i].get("trace") or cands[i]
            if time.monotonic() >= t_end and not pool.live:
                return None

    simplify = getattr(pool.mod, "simplify", None)
    before = None
    while before != trace and time.monotonic() < t_end:
        before = trace
        trace = shrink_lists(trace, list_keys, test_many, t_end)
        while simplify is not None and time.monotonic() < t_end:
            cands = [json.loads(json.dumps(c)) for c in simplify(json.loads(json.dumps(trace)))]
            hit = test_many(cands) if cands else None
            if hit is None:
                break
            trace = hit
    return trace


def shrink_lists(trace, list_keys, test_many, t_end) -> dict:
    for key in list_keys:
        if not isinstance(trace.get(key), list):
            continue
        n = 2
        while len(trace[key]) >= 1 and time.monotonic() < t_end:
            items = trace[key]
            size = max(1, len(items) // n)
            cands = []
            for s in range(0, len(items), size):
                c = json.loads(json.dumps(trace))
                c[key] = items[:s] + items[s + size :]
                cands.append(c)
            hit = test_many(cands)
            if hit is not None:
                trace = hit
                n = max(2, n - 1)
            elif size == 1:
                break
            else:
                n = min(len(items), n * 2)
    return trace


# ----------------------------------------------------------------- findings


def load_findings(prop: str) -> list[dict]:
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line and not line.startswith("#") and line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "finding":
                    out.append(d)
    return out


# --------------------------------------------------------------------- main


def load(prop: str):
    return importlib.import_module(f"dst.props.{prop.lower()}")


def replay_file(path: str) -> dict:
    with open(path) as f:
        return json.load(f)


def main(argv=None) -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--budget", type=float, help="wall seconds for the exploration")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("DST_WORKERS", "8")))
    ap.add_argument("--replay")
    ap.add_argument("--index", type=int, help="run only this run index")
    ap.add_argument("--digests", help="write run digests to this file")
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--keep-going", action="store_true", help="report all kinds of violations")
    a = ap.parse_args(argv)

    if a.replay:
        rep = replay_file(a.replay)
        prop = rep["property"]
        mod = load(prop)
        prepare(mod)
        pool = Pool(mod, a.tier, 1, 600)
        os.environ["DST_KEEP_EVENTS"] = "1"
        res = pool.run_one(rep["trace"])
        cleanup()
        if os.environ.get("DST_DEBUG"):
            print("\n".join(res.get("events", [])))
        if res["status"] == "violation":
            print(f"{res['kind']}: {res['msg']}")
            print(f"VIOLATION property={prop} replay={a.replay}")
            return EXIT_VIOLATION if res["kind"] == rep["kind"] else EXIT_VIOLATION
        if res["status"] == "ok":
            print(f"replay: property={prop} holds for {a.replay}")
            return EXIT_OK
        print(f"replay: {res['status']}: {res.get('msg')}")
        return EXIT_HARNESS

    return explore(a)


def prepare(mod) -> None:
    quiet()
    import pypsa  # noqa: F401

    assert pypsa.__file__.startswith(REPO + "/"), pypsa.__file__
    warm = getattr(mod, "warmup", None)
    if warm:
        warm()


def cleanup() -> None:
    global _root
    if _root:
        shutil.rmtree(_root, ignore_errors=True)
        _root = None


def explore(a) -> int:
    t0 = time.monotonic()
    prop = a.property
    mod = load(prop)
    tier = a.tier
    n_runs = a.runs or mod.RUNS[tier]
    budget = a.budget or mod.BUDGET[tier]
    prepare(mod)
    print(f"property={prop} tier={tier} VERIF_SEED={a.seed} runs<={n_runs} workers={a.workers}", flush=True)
    findings = load_findings(prop)
    pool = Pool(mod, tier, a.workers, getattr(mod, "RUN_TIMEOUT", 60))
    agg = {"faults": {}, "probes": {}, "states": set(), "digests": {}, "nontrivial": set(), "sim_time": 0.0, "done": 0, "skipped": 0}
    samples: list = []
    known: dict[str, int] = {}
    violations: list[dict] = []
    harness: list[str] = []
    timeouts: list[int] = []
    nxt = 0
    first, last = (0, n_runs) if a.index is None else (a.index, a.index + 1)
    nxt = first
    stop = False
    t_explore = time.monotonic()
    while True:
        while not stop and nxt < last and len(pool.live) < a.workers:
            if time.monotonic() - t_explore > budget:
                stop = True
                break
            pool.start(nxt, seed=derive(a.seed, prop, nxt))
            nxt += 1
        if not pool.live:
            break
        for idx, res in pool.wait():
            st = res.get("status")
            if st == "harness" and "exceeded" in str(res.get("msg")):
                timeouts.append(idx)
                continue
            if st == "harness":
                harness.append(f"run {idx}: {res.get('msg')}")
                if len(harness) >= 3 and not a.keep_going:
                    stop = True
                continue
            agg["done"] += 1
            for k in ("faults", "probes"):
                for name, c in res.get(k, {}).items():
                    agg[k][name] = agg[k].get(name, 0) + c
            for i, c in res.get("known", {}).items():
                known[i] = known.get(i, 0) + c
            agg["states"].update(res.get("states", []))
            agg["sim_time"] += res.get("sim_time", 0.0)
            if st == "skip":
                agg["skipped"] += 1
                continue
            agg["digests"][idx] = res["digest"]
            if res.get("nontrivial"):
                agg["nontrivial"].add(res["digest"])
            if len(samples) < 3 and st == "ok" and res.get("nontrivial"):
                samples.append({"run": idx, "trace": shorten(res["trace"])})
            if st == "violation":
                f = match_finding(findings, res)
                if f is not None:
                    known[f["id"]] = known.get(f["id"], 0) + 1
                    continue
                violations.append({"idx": idx, **res})
                if not a.keep_going:
                    stop = True
    explore_s = time.monotonic() - t_explore

    rc = EXIT_OK
    lines = []
    for f in findings:
        if f["id"] in known or f.get("always"):
            lines.append(f"KNOWN-FINDING: property={prop} {f['what']}")
    if violations:
        rc = EXIT_VIOLATION
        violations.sort(key=lambda v: v["idx"])
        seen = set()
        for v in violations:
            if v["kind"] in seen:
                continue
            seen.add(v["kind"])
            print(f"run {v['idx']}: {v['kind']}: {v['msg']}", flush=True)
            trace = v["trace"]
            if not os.environ.get("DST_NOMIN"):
                pool.kill()
                trace = minimise(pool, trace, v["kind"], 60 if tier == "quick" else 300, getattr(mod, "SHRINK", ["faults", "steps"]))
            path = os.path.join(VERIF, "evidence", f"replay-{prop}-{a.seed}-{v['idx']}.json")
            with open(path, "w") as fh:
                json.dump({"property": prop, "kind": v["kind"], "msg": v["msg"], "verif_seed": a.seed, "run_index": v["idx"], "trace": trace}, fh, indent=1)
            again = subprocess.run([os.path.join(VERIF, "run_check.sh"), prop, "--replay", path], capture_output=True, text=True)
            print(f"replayed in a fresh process: exit {again.returncode}: {again.stdout.strip().splitlines()[:1]}")
            lines.append(f"VIOLATION property={prop} replay={path}")
    if len(timeouts) > max(3, agg["done"] // 20):
        harness.append(f"runs {timeouts[:20]} exceeded the wall clock limit")
    if harness and rc == EXIT_OK:
        rc = EXIT_HARNESS
    for h in harness[:3]:
        print("HARNESS-ERROR", h, file=sys.stderr)
    if agg["done"] == 0 and rc == EXIT_OK:
        rc = EXIT_HARNESS
        print("HARNESS-ERROR no run completed", file=sys.stderr)
    zero = [p for p in getattr(mod, "EXPECT_PROBES", []) if not agg["probes"].get(p) and not agg["faults"].get(p)]
    wall = time.monotonic() - t0
    if not a.no_evidence and a.index is None:
        ev = {
            "property": prop,
            "tier": tier,
            "seed": a.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": agg["done"],
                "distinct_nontrivial": len(agg["nontrivial"]),
                "rule": mod.RULE,
                "samples": samples or [{"note": "no non-trivial run"}],
                "seeds_per_hour": round(agg["done"] / max(explore_s, 1e-9) * 3600),
                "runs_planned": n_runs,
                "runs_without_answer": {"skipped": agg["skipped"], "timeouts": timeouts},
                "stopped_early_by_budget": bool(nxt < last and not violations),
                "faults_injected": dict(sorted(agg["faults"].items())),
                "probes": dict(sorted(agg["probes"].items())),
                "probes_never_hit": zero,
                "distinct_states": len(agg["states"]),
                "distinct_states_rule": mod.STATES,
                "distinct_executions": len(set(agg["digests"].values())),
                "simulated_time": agg["sim_time"],
                "simulated_time_unit": getattr(mod, "SIM_TIME", "operations executed"),
                "real_components": mod.REAL,
                "stubbed_components": mod.STUB,
                "known_findings_seen": known,
                "batch_digest": hashlib.sha256(json.dumps(sorted(agg["digests"].items())).encode()).hexdigest(),
            },
            "assumptions": getattr(mod, "ASSUMPTIONS", []),
            "wall_s": round(wall, 2),
            "violations": len(violations),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)
    if a.digests:
        with open(a.digests, "w") as fh:
            json.dump(agg["digests"], fh)
    pool.kill()
    cleanup()
    print(
        f"{agg['done']} runs, {len(agg['nontrivial'])} distinct non-trivial, {len(agg['states'])} states, "
        f"faults {agg['faults']}, probes {agg['probes']}, {wall:.1f}s"
    )
    if zero:
        print(f"note: probes never hit: {zero}")
    for line in lines:
        print(line)
    return rc


def match_finding(findings: list[dict], res: dict):
    for f in findings:
        if f["kind"] == res["kind"] and all(s in res["msg"] for s in f.get("msg_contains", [])):
            return f
    return None


def shorten(trace: dict, limit: int = 4000) -> object:
    s = json.dumps(trace)
    return trace if len(s) <= limit else s[:limit] + "..."


if __name__ == "__main__":
    from dst.core import main as run

    sys.exit(run())
