"""Two (or more) real threads, of which exactly one runs; a seeded scheduler decides at every executed line of pypsa.

The hand-over uses one semaphore per thread, so an execution is a function of
the decisions alone.  Lines outside pypsa run without a switch.
"""

from __future__ import annotations

import random
import sys
import threading

from dst.core import REPO


class Deadlock(Exception):
    pass


class Scheduler:
    """decisions: {"seed": s, "every": mean lines between switches} or {"switches": [line numbers]}."""

    def __init__(self, ctx, spec, roots=(REPO + "/pypsa",)):
        self.ctx, self.roots = ctx, roots
        self.rng = random.Random(spec.get("seed", 0))
        self.p = 1.0 / spec.get("every", 50)
        self.listed = set(spec["switches"]) if "switches" in spec else None
        self.known = {}
        self.lines = 0
        self.switched = []  # line numbers at which the other thread went on
        self.trace = []

    def run(self, fns):
        self.sems = [threading.Semaphore(0) for _ in fns]
        self.alive = set(range(len(fns)))
        self.errors = [None] * len(fns)
        self.finished = threading.Semaphore(0)
        threads = [threading.Thread(target=self.body, args=(i, fn), daemon=True) for i, fn in enumerate(fns)]
        for t in threads:
            t.start()
        self.current = 0
        self.sems[0].release()
        if not self.finished.acquire(timeout=240):
            raise Deadlock(f"threads {sorted(self.alive)} did not end")
        for t in threads:
            t.join()
        for e in self.errors:
            if e is not None:
                raise e

    def body(self, i, fn):
        self.sems[i].acquire()
        sys.settrace(self.tracer)
        try:
            fn()
        except BaseException as e:  # noqa: BLE001
            self.errors[i] = e
        finally:
            sys.settrace(None)
            self.alive.discard(i)
            if self.alive:
                self.current = min(self.alive)
                self.sems[self.current].release()
            else:
                self.finished.release()

    def wanted(self, code):
        f = code.co_filename
        w = self.known.get(f)
        if w is None:
            w = self.known[f] = f.startswith(self.roots)
        return w and code.co_name != "<module>"

    def tracer(self, frame, event, arg):
        return self.local if self.wanted(frame.f_code) else None

    def local(self, frame, event, arg):
        if event == "line":
            self.lines += 1
            if len(self.alive) > 1:
                if self.listed is not None:
                    go = self.lines in self.listed
                else:
                    go = self.rng.random() < self.p
                if go:
                    self.switch(frame)
        return self.local

    def switch(self, frame):
        me = self.current
        others = sorted(self.alive - {me})
        nxt = others[0] if len(others) == 1 else self.rng.choice(others)
        self.switched.append(self.lines)
        self.trace.append((me, frame.f_code.co_name, frame.f_lineno))
        self.current = nxt
        self.sems[nxt].release()
        self.sems[me].acquire()
