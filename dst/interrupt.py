"""Interrupts at a chosen executed line of the real code.

Line events of frames of ``pypsa`` are counted by a trace function; at the
chosen one an exception (Ctrl-C, failing allocation, a signal handler's
exception) is raised as if the line itself had raised it.
"""

from __future__ import annotations

import os
import sys

from dst.core import REPO

EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "SystemExit": SystemExit}


class Interrupt:
    def __init__(self, ctx, at, exc="KeyboardInterrupt", modules=("pypsa",), skip=()):
        self.ctx, self.at, self.exc = ctx, at, exc
        self.roots = tuple(os.path.join(REPO, m) for m in modules)
        self.skip = tuple(skip)
        self.count = 0
        self.fired = None
        self.known = {}

    def wanted(self, code):
        f = code.co_filename
        w = self.known.get(f)
        if w is None:
            w = self.known[f] = f.startswith(self.roots)
        # consistency checks and logging are not worth the events
        return w and code.co_name not in self.skip

    def tracer(self, frame, event, arg):
        if self.fired or not self.wanted(frame.f_code):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line" and not self.fired:
            self.count += 1
            if self.count >= self.at:
                self.fired = f"{os.path.relpath(frame.f_code.co_filename, REPO)}:{frame.f_code.co_name}"
                sys.settrace(None)
                self.ctx.fault("interrupt." + self.exc)
                raise EXC[self.exc]("simulated interrupt")
        return self.local

    def __enter__(self):
        sys.settrace(self.tracer)
        return self

    def __exit__(self, *exc):
        sys.settrace(None)
        return False


def gen_interrupt(rng, top=20000):
    import math

    return {"at": int(math.exp(rng.uniform(0, math.log(top)))), "exc": rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "SystemExit"])}
