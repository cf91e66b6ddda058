"""What contract files are written with."""
from __future__ import annotations

import traceback

import z3

from . import core as C
from .core import PyRaise, Session, Unsupported
from .interp import Interp


class Case:
    def __init__(self, name, fn, replays=None, thorough=False, timeout=None):
        self.name, self.fn, self.replays = name, fn, replays
        self.thorough, self.timeout = thorough, timeout


def case(name, **kw):
    def deco(f):
        f.case = Case(name, f, **kw)
        return f
    return deco


class Ctx:
    """Handed to a contract: the function under contract is run with `run`."""

    def __init__(self, sess, name):
        self.s, self.name = sess, name
        self.it = None
        self.contracts, self.invariants = {}, {}
        self.provider = None
        self.merge_calls = False
        self.executed = {}
        self.witness = {}
        self.sats = None

    def run(self, real, *args, **kwargs):
        it = Interp(self.contracts, self.invariants)
        it.executed = self.executed
        it.provider = self.provider
        it.merge_calls = self.merge_calls
        self.it = it
        return it.interpret(real, *args, **kwargs)

    def raises(self, real, *args, **kwargs):
        """The exception a call raises, or None."""
        try:
            self.result = self.run(real, *args, **kwargs)
            return None
        except PyRaise as e:
            return e.exc

    def prove(self, cond, what):
        return self.s.prove(cond, f"{self.name}: {what}")

    def fail(self, what, detail=""):
        return self.s.fail(f"{self.name}: {what}", detail)

    def equal(self, a, b, what, mod=None):
        from .arr import prove_equal
        prove_equal(a, b, f"{self.name}: {what}", mod)

    def arrays_equal(self, a, b, what, mod=None):
        from .arr import prove_arrays_equal
        prove_arrays_equal(a, b, f"{self.name}: {what}", mod)

    def scope(self, f):
        """Run f; what it assumes (about fresh indices, say) ends with it."""
        return self.s.each(f, f"{self.name}: no exception")

    def emissions(self, a, b, what, eqv=None):
        from .seq import prove_emissions_equal
        prove_emissions_equal(a, b, f"{self.name}: {what}", eqv or self.eqv)

    def eqv(self, a, b, name):
        """Two emitted items are equal."""
        from .arr import SArr, prove_arrays_equal
        from .seq import Each, IfE, SSeq, parts, prove_emissions_equal
        s = self.s
        if isinstance(a, (tuple, list, SSeq)) and isinstance(b, (tuple, list, SSeq)):
            return prove_emissions_equal(parts(a), parts(b), name, self.eqv)
        if isinstance(a, SArr) or isinstance(b, SArr):
            return prove_arrays_equal(a, b, name)
        num = (C.SSum, C.SInt, C.SReal, int, float)
        if isinstance(a, num) and isinstance(b, num) and \
                (isinstance(a, C.Sym) or isinstance(b, C.Sym)):
            return C.prove_numbers_equal(a, b, name, f"{a!r:.300} against {b!r:.300}")
        r = self.it.compare("==", a, b)
        if r is True:
            s.obligation(name).instances += 1
            s.obligation(name).backends.add("evaluation")
            return
        if r is False:
            return s.fail(name, f"{a!r:.300} against {b!r:.300}")
        s.prove(r, name, f"{a!r:.300} against {b!r:.300}")

    def consistent(self, *extra):
        """Show that what is assumed so far can hold (with some more facts)."""
        if self.sats is not None and self.sats["sat"] == 0 and satisfiable(
                list(self.s.facts()) + list(extra)) == "sat":
            self.sats["sat"] += 1

    def note(self, **kw):
        """Values shown (and usable for a replay) in a counterexample."""
        self.witness.update(kw)


def value_of(m, x, depth=0):
    """A concrete value of x in a model."""
    from .arr import SArr
    from .core import SBool, SInt, SReal
    if isinstance(x, SBool):
        return bool(z3.is_true(m.eval(x.t, model_completion=True)))
    if isinstance(x, SInt):
        if x.b is not None:
            return int(z3.is_true(m.eval(x.b, model_completion=True)))
        return m.eval(x.t, model_completion=True).as_long()
    if isinstance(x, SReal):
        v = m.eval(x.t, model_completion=True)
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        return float(v.as_fraction())
    if isinstance(x, SArr):
        import numpy as np
        sh = tuple(int(value_of(m, d)) for d in x.shape)
        if any(d > 12 for d in sh):
            raise ValueError("large")
        a = np.zeros(sh, dtype=x.dtype)
        s, C.CUR = C.CUR, Session("model", {})
        try:
            for pos in np.ndindex(*sh):
                a[pos] = value_of(m, x.at(*pos))
        finally:
            C.CUR = s
        return a
    if isinstance(x, (list, tuple)):
        return type(x)(value_of(m, e) for e in x)
    return x


def satisfiable(pc):
    """Can the facts of a path hold together?  Small values are tried if this is not
    decided at once."""
    v, _, _ = C.check(pc)
    if v == "unknown" and C.small_model(pc) is not None:
        return "sat"
    return v


def run_case(c):
    """Explore one contract; returns plain data."""
    obls = {}
    s = Session(c.name, obls)
    C.CUR = s
    done = []
    problems = []
    executed = {}
    sats = {"sat": 0, "unsat": 0, "unknown": 0}
    from . import interp
    interp.USED.clear()

    def body():
        ctx = Ctx(s, c.name)
        ctx.executed = executed
        ctx.sats = sats

        def refuted(m):
            if c.replays is None:
                return []
            try:
                vals = {k: value_of(m, v) for k, v in ctx.witness.items()}
                return list(c.replays(vals))
            except Exception:
                return []
        s.on_refuted = refuted
        try:
            c.fn(ctx)
        except PyRaise as e:
            tb = "".join(traceback.format_exception(type(e.exc), e.exc,
                                                    e.exc.__traceback__))[-300:]
            s.fail(f"{c.name}: no exception", f"{type(e.exc).__name__}: {e.exc} {tb}")
            return "raised"
        except Unsupported as e:
            problems.append(f"{e} at {where(e)}")
            return "unsupported"
        if sats["sat"] == 0:
            sats[satisfiable(list(s.facts()))] += 1
        return "done"
    try:
        for pc, kind, v in s.explore(body):
            done.append(v if kind == "value" else kind)
    except Unsupported as e:
        problems.append(f"{e} at {where(e)}")
    except RecursionError as e:
        problems.append(f"recursion: {e}")
    if problems:
        s.undecided(f"{c.name}: within reach of the engine", "; ".join(problems[:5]))
    elif sats["sat"] == 0:
        # nothing was ever shown: not a proof
        s.undecided(f"{c.name}: not vacuous", f"paths {done[:10]}, {sats}")
    out = []
    for o in obls.values():
        d = o.as_dict()
        d["replays"] = o.replays
        out.append(d)
    return {"case": c.name, "obligations": out, "paths": s.paths,
            "executed": executed, "used": sorted(interp.USED),
            "time": dict(C.STATS.time), "calls": dict(C.STATS.calls)}


def where(e):
    """The innermost frames of the engine at which it gave up."""
    tb = traceback.extract_tb(e.__traceback__)
    return " < ".join(f"{f.name}:{f.lineno}" for f in list(tb)[-1:-5:-1])
