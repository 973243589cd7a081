"""C14: option contexts always restore what they changed."""

from __future__ import annotations

import contextlib
import io
import sys

from dst import gen
from dst.core import Skip, Violation
from dst.interrupt import Interrupt

RUNS = {"quick": 4000, "thorough": 200000}
BUDGET = {"quick": 25, "thorough": 900}
SHRINK = ["prog"]
RULE = (
    "random programs of nested, overlapping and decorated option contexts, assignments, resets, invalid names and library calls, left normally, by an exception, "
    "by a generator being closed or by an interrupt at a random line of the option machinery before the context is left; all options are compared with a "
    "dictionary model after every operation; non-trivial: a context left by an exception or an interrupt"
)
STATES = "distinct (program shape, outcome) tuples"
REAL = ["pypsa._options", "pypsa.networks", "pypsa.statistics", "pypsa.definitions"]
STUB = ["arrival of interrupts (sys.settrace)"]
ASSUMPTIONS = ["an interrupt which strikes while the context is already being left may lose the restoration (so in any Python program); it is not injected"]
EXPECT_PROBES = ["exception", "interrupted", "invalid-name", "repeated-name", "closed-generator", "overlapping", "decorated", "reset-inside", "statistics", "nested"]
SIM_TIME = "operations executed"

NAMES = ["warnings.components_store_iter", "params.statistics.nice_names", "params.statistics.drop_zero", "params.statistics.round"]
DEFAULTS = {"warnings.components_store_iter": True, "params.statistics.nice_names": True, "params.statistics.drop_zero": True, "params.statistics.round": 5}
INVALID = ["params.statistics.rounds", "params", "params.statistics", "nothing", "", "warnings.components_store_iter.x", "params..round", "Params.statistics.round", "statistics.round", "_value"]
EXCEPTIONS = {"ValueError": ValueError, "KeyboardInterrupt": KeyboardInterrupt, "SystemExit": SystemExit, "StopIteration": StopIteration, "GeneratorExit": GeneratorExit, "RuntimeError": RuntimeError}


def value(rng, name):
    if name.endswith("round"):
        return rng.choice([0, 1, 2, 3, 7, 5])
    return rng.choice([True, False, False, None] if "warnings" in name else [True, False])


def any_name(rng, p=0.12):
    return rng.choice(INVALID) if rng.random() < p else rng.choice(NAMES)


def gen_ops(rng, depth, size):
    out = []
    for _ in range(rng.randint(1, size)):
        k = gen.weighted(rng, [("set", 5), ("get", 2), ("reset", 0.7), ("ctx", 4 if depth < 4 else 0), ("gen", 0.7 if depth < 3 else 0), ("overlap", 0.7 if depth < 3 else 0), ("stats", 0.5), ("attrs", 0.4), ("iter", 0.3), ("odd", 0.3), ("describe", 0.2)])
        if k == "set":
            nm = any_name(rng)
            out.append(["set", rng.choice(["attr", "path"]), nm, value(rng, nm)])
        elif k == "get":
            out.append(["get", rng.choice(["attr", "path"]), any_name(rng)])
        elif k in ("ctx", "gen"):
            end = gen.weighted(rng, [("normal", 3), ("raise", 3), ("return", 1)])
            if end == "raise":
                end = rng.choice(list(EXCEPTIONS))
            intr = None
            if k == "ctx" and rng.random() < 0.25:
                intr = [rng.randint(1, 60), rng.choice(["KeyboardInterrupt", "MemoryError", "SystemExit"])]
            out.append([k, pairs(rng), gen_ops(rng, depth + 1, 3), end, rng.choice(["with", "with", "decorator", "stack"]), intr])
        elif k == "overlap":
            m = rng.randint(2, 3)
            order = list(range(m))
            rng.shuffle(order)
            out.append(["overlap", [pairs(rng) for _ in range(m)], order, rng.random() < 0.5])
        else:
            out.append([k])
    return out


def pairs(rng):
    out = []
    p = 0.1 if rng.random() < 0.4 else 0.0
    for _ in range(rng.randint(0, 4) if rng.random() < 0.3 else rng.randint(1, 3)):
        nm = any_name(rng, p)
        out.append([nm, value(rng, nm)])
    return out


def generate(rng, tier):
    return {"prog": gen_ops(rng, 0, 6)}


class Leave(Exception):
    """Raised through contexts by a nested exception."""


def execute(trace, ctx):
    import pypsa

    n = pypsa.Network()
    n.add("Carrier", "gas", nice_name="Gas turbine")
    n.add("Bus", "b")
    n.add("Generator", "g", bus="b", carrier="gas", p_nom=1.23456789)
    n.add("Generator", "h", bus="b", carrier="gas", p_nom=0.0)
    pypsa.options.reset_all()
    M = Machine(pypsa, n, ctx)
    M.compare("start")
    try:
        M.run(trace["prog"])
    except tuple(EXCEPTIONS.values()):
        pass  # through all contexts
    M.compare("end")
    ctx.state(shape(trace["prog"]))


def shape(prog):
    out = []
    for op in prog:
        if op[0] in ("ctx", "gen"):
            out.append((op[0], len(op[1]), shape(op[2]), op[3], op[4], bool(op[5])))
        else:
            out.append(op[0])
    return out


class Machine:
    def __init__(self, pypsa, n, ctx):
        self.pypsa, self.n, self.ctx = pypsa, n, ctx
        self.model = dict(DEFAULTS)
        self.depth = 0

    def compare(self, where):
        got = {k: self.pypsa.get_option(k) for k in NAMES}
        for k in NAMES:
            self.ctx.check(got[k] is self.model[k] or got[k] == self.model[k] and type(got[k]) is type(self.model[k]), "wrong-option-value", lambda: f"after {where}: {k} is {got[k]!r}, expected {self.model[k]!r}")
        tree = {f"{a}.{b}" if not hasattr(y, "_children") else f"{a}.{b}.{c}" for a, x in self.pypsa.options._children.items() for b, y in x._children.items() for c in (y._children if hasattr(y, "_children") else [""])} if hasattr(self.pypsa.options, "_children") else None
        if tree is not None:
            self.ctx.check(tree == set(NAMES), "options-added", lambda: f"after {where}: {sorted(tree)}")

    def attr(self, name):
        node = self.pypsa.options
        parts = name.split(".")
        for p in parts[:-1]:
            node = getattr(node, p)
        return node, parts[-1]

    def rejected(self, what, fn):
        self.ctx.probe("invalid-name")
        try:
            out = fn()
        except AttributeError:
            return
        except Exception as e:
            raise Violation("invalid-name-error", f"{what}: {e!r} instead of InvalidOptionError") from e
        raise Violation("invalid-name-accepted", f"{what}: {out!r}")

    def run(self, ops):
        for op in ops:
            try:
                self.step(op)
            except BaseException as e:
                if isinstance(e, (Violation, Skip)):
                    raise
                self.compare(f"{op[0]} left by {type(e).__name__}")
                raise
            self.compare(op)
            self.ctx.sim_time += 1

    def step(self, op):
        k = op[0]
        P = self.pypsa
        if k == "set":
            _, how, name, v = op
            if how == "path":
                act = lambda: P.set_option(name, v)  # noqa: E731
            else:

                def act():
                    node, leaf = self.attr(name)
                    setattr(node, leaf, v)

            if name in DEFAULTS:
                act()
                self.model[name] = v
            elif how == "attr" and name.split(".")[-1].startswith("_"):
                return  # private attributes of the node itself
            else:
                self.rejected(op, act)
        elif k == "get":
            _, how, name = op
            if how == "path":
                act = lambda: P.get_option(name)  # noqa: E731
            else:

                def act():
                    node, leaf = self.attr(name)
                    return getattr(node, leaf)

            if name in DEFAULTS:
                got = act()
                self.ctx.check(got == self.model[name], "wrong-option-value", lambda: f"{op}: {got!r}, expected {self.model[name]!r}")
            elif how == "attr" and name in ("params", "params.statistics"):
                act()  # a category
            elif how == "attr" and name.split(".")[-1].startswith("_"):
                return
            else:
                self.rejected(op, act)
        elif k == "reset":
            P.options.reset_all()
            self.model = dict(DEFAULTS)
            self.ctx.probe("reset-inside", self.depth > 0)
        elif k == "ctx":
            self.context(op)
        elif k == "gen":
            self.generator(op)
        elif k == "overlap":
            self.overlap(op)
        elif k == "stats":
            if None in self.model.values():
                return
            a = self.n.statistics.installed_capacity()
            s = {x.split(".")[-1]: v for x, v in self.model.items() if "statistics" in x}
            b = self.n.statistics.installed_capacity(**s)
            self.ctx.check(a.equals(b), "option-not-used", lambda: f"{a.to_dict()} with {s}, explicit {b.to_dict()}")
            self.ctx.probe("statistics")
        elif k == "attrs":
            _ = self.n.component_attrs
        elif k == "iter":
            list(self.n.components)
        elif k == "describe":
            with contextlib.redirect_stdout(io.StringIO()):
                P.describe_options()
        elif k == "odd":
            try:
                with P.option_context("params.statistics.round"):
                    raise Violation("unpaired-arguments-accepted", "")
            except ValueError:
                pass
        else:
            raise Skip(k)

    def enter_model(self, prs):
        """What the context saves, None if it must be rejected."""
        if any(nm not in DEFAULTS for nm, _ in prs):
            return None
        saved = {nm: self.model[nm] for nm, _ in prs}
        self.ctx.probe("repeated-name", len(saved) < len(prs))
        return saved

    def context(self, op):
        _, prs, body, end, how, intr = op
        P = self.pypsa
        flat = [x for p in prs for x in p]
        saved = self.enter_model(prs)
        before = dict(self.model)
        self.ctx.probe("nested", self.depth > 0)
        I = Interrupt(self.ctx, intr[0], intr[1], ["pypsa/_options.py"]) if intr and sys.gettrace() is None else None

        def inside():
            if saved is None:
                raise Violation("invalid-name-accepted", f"context {prs}")
            self.model.update({nm: v for nm, v in prs})
            if I is None:
                self.compare(f"entering {prs}")
            self.depth += 1
            try:
                self.run(body) if I is None else self.quiet_run(body)
                if end == "return":
                    return
                if end != "normal":
                    self.ctx.probe("exception")
                    self.ctx.nontrivial = True
                    raise EXCEPTIONS[end]("leaving the context")
            finally:
                if I is not None:
                    sys.settrace(None)  # the context is being left
                self.depth -= 1

        try:
            if I:
                I.__enter__()
            try:
                if how == "with":
                    with P.option_context(*flat):
                        inside()
                elif how == "decorator":
                    self.ctx.probe("decorated")
                    P.option_context(*flat)(inside)()
                else:
                    with contextlib.ExitStack() as st:
                        st.enter_context(P.option_context(*flat))
                        inside()
            finally:
                if I:
                    I.__exit__()
        except (Violation, Skip):
            raise
        except BaseException as e:
            if I is not None and I.fired:
                self.ctx.probe("interrupted")
                self.ctx.nontrivial = True
                self.settle(saved, before, prs)
                return
            if saved is None and isinstance(e, AttributeError):
                self.ctx.probe("invalid-name")
                self.model = before
                return
            if isinstance(e, RuntimeError) and end == "StopIteration" and "StopIteration" in repr(e.__cause__):
                e = e.__cause__
            if end in EXCEPTIONS and type(e) is EXCEPTIONS[end]:
                self.model.update(saved)
                return
            if type(e) in EXCEPTIONS.values():
                # from a nested context: restored here as well
                if saved:
                    self.model.update(saved)
            raise
        self.ctx.check(saved is not None, "invalid-name-accepted", f"context {prs}")
        self.model.update(saved)

    def quiet_run(self, body):
        """The body while an interrupt is pending: only assignments, the model follows."""
        self.body_sets = {}
        for op in body:
            if op[0] == "set" and op[2] in DEFAULTS:
                self.pypsa.set_option(op[2], op[3])
                self.body_sets[op[2]] = op[3]
                self.model[op[2]] = op[3]

    def settle(self, saved, before, prs):
        """After an interrupt: everything named is as before; an interrupted assignment happened or not."""
        named = {nm for nm, _ in prs}
        for k in NAMES:
            got = self.pypsa.get_option(k)
            if k in named or saved is None:
                self.ctx.check(got == before[k], "not-restored-after-interrupt", lambda: f"{k} is {got!r}, was {before[k]!r} before {prs}")
                self.model[k] = before[k]
            else:
                # set in the body, which may have been interrupted just there
                self.model[k] = got

    def generator(self, op):
        """A generator which is closed (or fails) while a context is open in it."""
        _, prs, body, end, _, _ = op
        P = self.pypsa
        saved = self.enter_model(prs)
        flat = [x for p in prs for x in p]
        before = dict(self.model)

        def g():
            with P.option_context(*flat):
                yield 1
                yield 2

        it = g()
        try:
            next(it)
        except AttributeError:
            self.ctx.check(saved is None, "valid-context-rejected", f"{prs}")
            self.model = before
            return
        self.ctx.check(saved is not None, "invalid-name-accepted", f"context {prs}")
        self.model.update({nm: v for nm, v in prs})
        self.compare("next")
        for o in body:
            if o[0] in ("set", "get", "reset"):
                self.step(o)
                self.compare(o)
        if end == "normal":
            next(it)
            for _ in it:
                pass
        elif end == "return":
            it.close()
        else:
            try:
                it.throw(EXCEPTIONS[end]("thrown"))
            except (EXCEPTIONS[end], RuntimeError):
                pass
        self.ctx.probe("closed-generator")
        self.model.update(saved)

    def overlap(self, op):
        """Contexts which are not left in the reverse order of entering."""
        _, plist, order, fail = op
        P = self.pypsa
        open_ = []
        for prs in plist:
            saved = self.enter_model(prs)
            c = P.option_context(*[x for p in prs for x in p])
            if saved is None:
                self.rejected(prs, c.__enter__)
                open_.append(None)
                continue
            c.__enter__()
            self.model.update({nm: v for nm, v in prs})
            open_.append((c, saved))
            self.compare(f"entering {prs}")
        for i in order:
            if i >= len(open_) or open_[i] is None:
                continue
            c, saved = open_[i]
            if fail:
                e = ValueError("x")
                c.__exit__(ValueError, e, None) if False else self.leave(c, e)
            else:
                c.__exit__(None, None, None)
            self.model.update(saved)
            self.compare("leaving one of several")
        self.ctx.probe("overlapping")

    def leave(self, c, e):
        try:
            c.__exit__(type(e), e, e.__traceback__)
        except ValueError:
            pass


def simplify(trace):
    """Unfold contexts, drop pairs and nested operations."""

    def variants(ops):
        for i, op in enumerate(ops):
            if op[0] in ("ctx", "gen"):
                yield ops[:i] + op[2] + ops[i + 1 :]
                for b in variants(op[2]):
                    yield ops[:i] + [[op[0], op[1], b, *op[3:]]] + ops[i + 1 :]
                for j in range(len(op[1])):
                    yield ops[:i] + [[op[0], op[1][:j] + op[1][j + 1 :], *op[2:]]] + ops[i + 1 :]
                if op[5]:
                    yield ops[:i] + [op[:5] + [None]] + ops[i + 1 :]
                if op[4] != "with":
                    yield ops[:i] + [op[:4] + ["with", op[5]]] + ops[i + 1 :]
            yield ops[:i] + ops[i + 1 :]

    for v in variants(trace["prog"]):
        yield {**trace, "prog": v}
