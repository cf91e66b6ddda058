"""Sessions (path exploration, obligations), solver access and symbolic scalars."""
from __future__ import annotations

import time

import z3

from lib import boot  # noqa: F401


class Unsupported(Exception):
    """The engine cannot follow the code: undecided, never a verdict."""


class PathEnd(BaseException):
    """The current path stops here (infeasible, or its obligations are made)."""


CUR = None          # the session in use


def cur():
    return CUR


# --------------------------------------------------------------------- solver
class Stats:
    def __init__(self):
        self.time = {"z3": 0.0, "cvc5": 0.0}
        self.calls = {"z3": 0, "cvc5": 0}


STATS = Stats()
TIMEOUT_MS = 4000


def _z3_check(fs, timeout, mbqi=True):
    s = z3.Solver()
    s.set("timeout", timeout)
    if not mbqi:
        s.set("smt.mbqi", False)
        s.set("smt.auto_config", False)
    s.add(*fs)
    t = time.time()
    r = s.check()
    STATS.time["z3"] += time.time() - t
    STATS.calls["z3"] += 1
    if r == z3.sat:
        return "sat", s.model()
    return ("unsat", None) if r == z3.unsat else ("unknown", s.reason_unknown())


def _cvc5_check(fs, timeout):
    import cvc5

    s = z3.Solver()
    s.add(*fs)
    text = s.to_smt2()
    t = time.time()
    try:
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", str(timeout))
        slv.setLogic("ALL")
        par = cvc5.InputParser(slv)
        par.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
        sm = par.getSymbolManager()
        out = "unknown"
        while True:
            cmd = par.nextCommand()
            if cmd.isNull():
                break
            res = cmd.invoke(slv, sm)
            if str(res).strip() in ("sat", "unsat", "unknown"):
                out = str(res).strip()
        return out, None
    except Exception as e:       # an unparsable or unsupported query
        return "unknown", str(e)
    finally:
        STATS.time["cvc5"] += time.time() - t
        STATS.calls["cvc5"] += 1


def check(fs, timeout=None):
    """(verdict, model or reason, back end) for the conjunction of fs."""
    timeout = timeout or TIMEOUT_MS
    if any(quantified(f) for f in fs) and \
            _z3_check(fs, min(timeout, 1000), mbqi=False)[0] == "unsat":
        return "unsat", None, "z3"
    v, m = _z3_check(fs, timeout)
    if v != "unknown":
        return v, m, "z3"
    v2, m2 = _cvc5_check(fs, timeout)
    if v2 == "unsat":
        return v2, None, "cvc5"
    return "unknown", m, "z3+cvc5"


def small_model(fs, timeout=1500):
    """A model with small values, for facts (with quantifiers) that are not decided."""
    names = set()
    for t in fs:
        todo, seen = [t], set()
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_quantifier(e):
                todo.append(e.body())
                continue
            if z3.is_const(e) and z3.is_int(e) and \
                    e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                names.add(e.decl().name())
            todo.extend(e.children())
    for hi in (2, 1, 4):
        v, m = _z3_check(fs + [z3.Int(n) <= hi for n in sorted(names)], timeout)
        if v == "sat":
            return m
    return None


_QUANT = {}


def quantified(t):
    k = t.get_id()
    if k not in _QUANT:
        todo, seen, out = [t], set(), False
        while todo and not out:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            out = z3.is_quantifier(e)
            todo.extend(e.children())
        _QUANT[k] = (t, out)       # the term is kept: ids are reused otherwise
    return _QUANT[k][1]


# ----------------------------------------------------------------- obligations
EXACT, INVARIANT, APPROXIMATE = 2, 1, 0      # what a path stands for


class Obligation:
    def __init__(self, name):
        self.name = name
        self.status = "discharged"
        self.instances = 0
        self.backends = set()
        self.detail = ""
        self.model = None
        self.exact = EXACT
        self.replays = []
        self.time = 0.0
        self.session = None
        self.kind = "solver"

    def worse(self, status, detail, model=None, exact=2):
        rank = {"discharged": 0, "undecided": 1, "refuted": 2}
        if rank[status] > rank[self.status] or \
                status == self.status == "refuted" and exact > self.exact:
            self.status, self.detail = status, detail
            self.model, self.exact = model, exact

    def as_dict(self):
        return {"name": self.name, "status": self.status, "detail": self.detail[:4000],
                "instances": self.instances, "backends": sorted(self.backends),
                "exact": self.exact, "solver_s": round(self.time, 3)}


class Frame:
    def __init__(self, prefix):
        self.prefix = prefix      # list of bool
        self.pos = 0
        self.taken = []
        self.alts = []


class Session:
    """One exploration of one contract."""

    def __init__(self, name, obligations):
        self.name = name
        self.obls = obligations          # dict name -> Obligation
        self.pc = []
        self.frames = []
        self.counter = 0
        self.exact = EXACT               # no abstraction on this path so far
        self.inputs = {}                 # names for the counterexample
        self.paths = 0
        self.max_paths = 4000
        self.rec = []                    # recorders (loop summaries)
        self.on_refuted = None
        self.assumed, self.decided = {}, {}     # term id -> term
        self.axioms = {}
        self.finite = None          # finds models of facts in which the axioms hold
        self.births = 0
        self.copies = {}    # id -> list or dictionary: an item of a symbolic sequence
        self.templates = {}     # id -> (object made in any iteration, first name of it)
        self.values = []         # (sum, number) pairs of this path
        self.extremes = []
        self.ends = []           # first and last items of lists of this path

    def new_birth(self):
        self.births += 1
        return self.births

    # -- names ---------------------------------------------------------------
    def name_for(self, base):
        self.counter += 1
        return f"{base}!{self.counter}"

    # -- path condition --------------------------------------------------------
    def assume(self, cond, axiom=False):
        """An axiom is a fact whose useful instances are also assumed one by one: it is
        only looked at where these do not settle a question."""
        c = boolterm(cond)
        c = z3.simplify(c) if not isinstance(c, bool) else z3.BoolVal(c)
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.assumed[c.get_id()] = c
        if axiom:
            self.axioms[c.get_id()] = c
        if z3.is_false(c):
            raise PathEnd()

    def decide(self, t):
        """Fork on a z3 Boolean."""
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        if not self.frames:
            raise Unsupported("a decision outside an exploration")
        f = self.frames[-1]
        if f.pos < len(f.prefix):
            out = f.prefix[f.pos]
            f.pos += 1
            f.taken.append(out)
            self._took(t, out)
            return out
        yes = self.possible(t)
        no = self.possible(z3.Not(t)) if yes else True
        if yes and no:
            f.alts.append(f.taken + [False])
            if len(f.alts) > self.max_paths:
                raise Unsupported("too many paths")
        out = bool(yes)
        f.taken.append(out)
        f.pos += 1
        self._took(t, out)
        return out

    def _took(self, t, out):
        c = t if out else z3.Not(t)
        self.pc.append(c)
        self.decided[c.get_id()] = c

    def facts(self):
        return [c for c in self.pc if c.get_id() not in self.axioms] \
            if self.axioms else self.pc

    def possible(self, t):
        fs = self.facts() + [t]
        plain = [f for f in fs if not quantified(f)]
        if len(plain) == len(fs):
            return check(fs)[0] != "unsat"
        # an infeasible path that is explored all the same does no harm
        return _z3_check(plain, TIMEOUT_MS)[0] != "unsat" and \
            _z3_check(fs, 1000, mbqi=False)[0] != "unsat"

    def entails(self, t):
        t = boolterm(t)
        if isinstance(t, bool):
            return t
        t = z3.simplify(t)
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        fs = self.pc + [z3.Not(t)]
        if any(quantified(f) for f in fs):
            v, _ = _z3_check(fs, TIMEOUT_MS, mbqi=False)
            if v == "unknown":
                v, _ = _z3_check(fs, 100)
            return v == "unsat"
        v, _, _ = check(fs)
        return v == "unsat"

    def explore(self, f):
        """Run f on all paths; yields (list of added conditions, kind, value)."""
        out = []
        work = [[]]
        base_pc = list(self.pc)
        base_counter = self.counter
        base_exact = self.exact
        top = base_counter
        n = 0
        exact_all = base_exact
        nv, ne, ni = len(self.values), len(self.extremes), len(self.ends)
        while work:
            prefix = work.pop()
            self.pc = list(base_pc)
            self.counter = base_counter
            self.exact = base_exact
            del self.values[nv:]
            del self.extremes[ne:]
            del self.ends[ni:]
            fr = Frame(prefix)
            self.frames.append(fr)
            n += 1
            if n > self.max_paths:
                raise Unsupported("too many paths")
            try:
                try:
                    out.append((None, "value", f()))
                except PathEnd:
                    out.append((None, "end", None))
                except PyRaise as e:
                    out.append((None, "raise", e))
                except Signal as e:
                    out.append((None, "signal", e))
                out[-1] = (self.pc[len(base_pc):],) + out[-1][1:]
            finally:
                self.frames.pop()
                exact_all = min(exact_all, self.exact)
                top = max(top, self.counter)
                self.pc = list(base_pc)
                self.counter = top
                self.exact = exact_all
            work.extend(fr.alts)
        self.paths += n
        return out

    def each(self, f, name):
        """Run a proof on all its paths; an exception there is a failure."""
        def body():
            try:
                return f()
            except PyRaise as e:
                self.fail(name, f"{type(e.exc).__name__}: {e.exc}")
        return self.explore(body)

    # -- obligations -------------------------------------------------------------
    def obligation(self, name):
        o = self.obls.get(name)
        if o is None:
            o = self.obls[name] = Obligation(name)
            o.session = self.name
        return o

    def prove(self, cond, name, detail=""):
        o = self.obligation(name)
        o.instances += 1
        c = boolterm(cond)
        if isinstance(c, bool):
            c = z3.BoolVal(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            o.backends.add("simplifier")
            return True
        t = time.time()
        if self.axioms:
            v, m, who = check(self.facts() + [z3.Not(c)])
            if v == "unsat":
                o.time += time.time() - t
                o.backends.add(who)
                return True
        small = self.finite(self.facts() + [z3.Not(c)]) if self.axioms and self.finite \
            else None
        if small is not None:
            v, m, who = "sat", small, "z3"
        else:
            v, m, who = check(self.pc + [z3.Not(c)])
        if v == "unknown":
            small = small_model(self.pc + [z3.Not(c)])
            if small is not None:
                v, m, who = "sat", small, "z3"
        o.time += time.time() - t
        o.backends.add(who)
        if v == "unsat":
            return True
        if v == "sat":
            # is the path itself certainly reachable?
            text = detail + f" violated: {str(c)[:600]}\nmodel: {str(m)[:1500]}"
            o.worse("refuted", text, m, self.exact)
            if self.on_refuted:
                for r in self.on_refuted(m) or []:
                    if len(o.replays) < 6:
                        o.replays.append(r)
            return False
        o.worse("undecided", detail + f" solver: {m}")
        return False

    def fail(self, name, detail, exact=None):
        """An obligation which fails on this (feasible) path."""
        o = self.obligation(name)
        o.instances += 1
        if self.axioms and check(self.facts())[0] == "unsat":
            return
        small = self.finite(self.facts()) if self.axioms and self.finite else None
        v, m, who = check(self.pc) if small is None else ("sat", small, "z3")
        if v == "unknown":
            small = small_model(self.pc)
            if small is not None:
                v, m, who = "sat", small, "z3"
        o.backends.add(who)
        if v == "unsat":
            return
        if v == "sat":
            o.worse("refuted", detail + f"\nmodel: {str(m)[:1500]}", m,
                    self.exact if exact is None else exact)
            if self.on_refuted:
                for r in self.on_refuted(m) or []:
                    if len(o.replays) < 6:
                        o.replays.append(r)
        else:
            o.worse("undecided", detail)

    def undecided(self, name, detail):
        o = self.obligation(name)
        o.instances += 1
        o.worse("undecided", detail)

    def abstract(self, why, level=APPROXIMATE):
        """This path uses an over-approximation (or stands for any state in which an
        invariant holds): refutations are not certain."""
        self.exact = min(self.exact, level)


class PyRaise(Exception):
    """A Python exception raised by interpreted code."""

    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc


class Signal(Exception):
    """return / break / continue."""

    def __init__(self, kind, value=None):
        self.kind, self.value = kind, value


def raise_(cls, *args):
    raise PyRaise(cls(*args))


# --------------------------------------------------------------------- scalars
def boolterm(c):
    if isinstance(c, SBool):
        return c.t
    if isinstance(c, bool) or type(c).__name__ == "bool_":
        return z3.BoolVal(bool(c))
    if z3.is_expr(c):
        return c
    if isinstance(c, SInt):
        return c.t != 0 if c.b is None else c.b
    if isinstance(c, int):
        return z3.BoolVal(bool(c))
    raise Unsupported(f"not a truth value: {c!r}")


def land(*cs):
    return SBool(z3.And([boolterm(c) for c in cs]))


def lor(*cs):
    return SBool(z3.Or([boolterm(c) for c in cs]))


def lnot(c):
    return SBool(z3.Not(boolterm(c)))


def implies(a, b):
    return SBool(z3.Implies(boolterm(a), boolterm(b)))


class Sym:
    """Base of symbolic scalars."""

    __hash__ = None


class SBool(Sym):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return cur().decide(self.t)

    def __invert__(self):
        return SBool(z3.Not(self.t))

    def _bin(self, o, f):
        if isinstance(o, (SBool, bool)) or type(o).__name__ == "bool_":
            return SBool(f(self.t, boolterm(o)))
        return None

    def __and__(self, o):
        r = self._bin(o, z3.And)
        return r if r is not None else self.asint() & o

    def __or__(self, o):
        r = self._bin(o, z3.Or)
        return r if r is not None else self.asint() | o

    def __xor__(self, o):
        r = self._bin(o, z3.Xor)
        return r if r is not None else self.asint() ^ o

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def asint(self):
        return SInt(b=self.t)

    def __eq__(self, o):
        if isinstance(o, (SBool, bool)) or type(o).__name__ == "bool_":
            return SBool(self.t == boolterm(o))
        if o is None or isinstance(o, str):
            return False
        return self.asint() == o

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SBool) else not r

    __hash__ = None

    def __add__(self, o): return self.asint() + o
    def __radd__(self, o): return o + self.asint()
    def __sub__(self, o): return self.asint() - o
    def __rsub__(self, o): return o - self.asint()
    def __mul__(self, o): return self.asint() * o
    __rmul__ = __mul__
    def __mod__(self, o): return self.asint() % o
    def __lt__(self, o): return self.asint() < o
    def __gt__(self, o): return self.asint() > o
    def __le__(self, o): return self.asint() <= o
    def __ge__(self, o): return self.asint() >= o

    def __repr__(self):
        return f"SBool({z3.simplify(self.t)})"


def _isint(x):
    return isinstance(x, (int, SInt, SBool)) or type(x).__module__ == "numpy" and \
        hasattr(x, "dtype") and x.ndim == 0 and x.dtype.kind in "iub"


class SInt(Sym):
    """A symbolic integer; `b` is set for values known to be 0 or 1."""

    __slots__ = ("_t", "b", "dt")

    def __init__(self, t=None, b=None, dt=None):
        self._t, self.b, self.dt = t, b, dt

    @property
    def t(self):
        if self._t is None:
            self._t = z3.If(self.b, z3.IntVal(1), z3.IntVal(0))
        return self._t

    def __repr__(self):
        return f"SInt({z3.simplify(self.t)}{':' + self.dt if self.dt else ''})"

    def __bool__(self):
        return cur().decide(self.b if self.b is not None else self.t != 0)

    def __index__(self):
        s = z3.simplify(self.t)
        if z3.is_int_value(s):
            return s.as_long()
        raise Unsupported("a symbolic integer where a concrete one is needed")

    def __int__(self):
        return self.__index__()

    # comparisons
    def _cmp(self, o, f):
        if isinstance(o, (SReal, float)):
            return SBool(f(z3.ToReal(self.t), realterm(o)))
        if isinstance(o, SSum) or not _isint(o):
            return NotImplemented
        return SBool(f(self.t, intterm(o)))

    def __eq__(self, o):
        if isinstance(o, SSum):
            return o == self
        if self.b is not None:
            ob = bitterm(o)
            if ob is not None:
                return SBool(self.b == ob)
        if o is None or isinstance(o, (str, tuple, list)):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self == o
        if r is NotImplemented:
            return r
        return ~r if isinstance(r, SBool) else not r

    __hash__ = None

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)

    # arithmetic
    def __add__(self, o): return arith("+", self, o)
    def __radd__(self, o): return arith("+", o, self)
    def __sub__(self, o): return arith("-", self, o)
    def __rsub__(self, o): return arith("-", o, self)
    def __mul__(self, o): return arith("*", self, o)
    def __rmul__(self, o): return arith("*", o, self)
    def __floordiv__(self, o): return arith("//", self, o)
    def __rfloordiv__(self, o): return arith("//", o, self)
    def __mod__(self, o): return arith("%", self, o)
    def __rmod__(self, o): return arith("%", o, self)
    def __truediv__(self, o): return arith("/", self, o)
    def __rtruediv__(self, o): return arith("/", o, self)
    def __xor__(self, o): return arith("^", self, o)
    def __rxor__(self, o): return arith("^", o, self)
    def __and__(self, o): return arith("&", self, o)
    def __rand__(self, o): return arith("&", o, self)
    def __or__(self, o): return arith("|", self, o)
    def __ror__(self, o): return arith("|", o, self)
    def __lshift__(self, o): return arith("<<", self, o)
    def __rpow__(self, o): return arith("**", o, self)
    def __pow__(self, o): return arith("**", self, o)

    def __neg__(self):
        return arith("-", 0, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return SInt(z3.If(self.t < 0, -self.t, self.t), dt=self.dt)

    def __invert__(self):
        return arith("-", arith("-", 0, self), 1)

    def __divmod__(self, o):
        return (self // o, self % o)

    def __rdivmod__(self, o):
        return (o // self, o % self)

    # the numpy scalar interface
    @property
    def ndim(self):
        if self.dt is None:
            raise AttributeError("ndim")
        return 0

    def astype(self, d):
        return cast(self, dtname(d))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0


def dtname(d):
    import numpy as np

    try:
        k = np.dtype(d)
    except TypeError:
        raise Unsupported(f"dtype {d!r}")
    return {"u1": "u1", "b1": "b", "i8": "i8", "i4": "i8", "f8": "f", "O": "O",
            "u8": "i8"}.get(k.str.lstrip("<>|="), None) or _bad(f"dtype {k}")


def _bad(m):
    raise Unsupported(m)


def cast(v, dt):
    """numpy's astype on one element."""
    if isinstance(v, SSum):
        return v
    if dt == "b":
        return asbool(v)
    if dt in ("i8", "u1"):
        if isinstance(v, (SBool,)):
            return SInt(b=v.t, dt=dt)
        if isinstance(v, SInt):
            if v.b is not None:
                return SInt(b=v.b, dt=dt)
            if dt == "u1" and v.dt != "u1":
                return SInt(v.t % 256, dt=dt)
            return SInt(v.t, dt=dt)
        if isinstance(v, (int, bool)) or hasattr(v, "dtype"):
            n = int(v)
            return n % 256 if dt == "u1" else n
        if isinstance(v, SReal):
            if v.i is not None:
                return cast(v.i, dt)
            t = z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t))
            return cast(SInt(t), dt)
        if isinstance(v, float):
            return cast(int(v), dt)
    if dt == "f":
        if isinstance(v, (SInt, SBool)):
            s = v.asint() if isinstance(v, SBool) else v
            return SReal(z3.ToReal(s.t), i=s)
        if isinstance(v, SReal):
            return v
        return float(v)
    if dt == "O":
        return v
    raise Unsupported(f"cast of {v!r} to {dt}")


def asbool(v):
    if isinstance(v, SBool):
        return v
    if isinstance(v, SInt):
        return SBool(v.b if v.b is not None else v.t != 0)
    if isinstance(v, SReal):
        return SBool(v.t != 0)
    if isinstance(v, Sym):
        raise Unsupported(f"truth value of {v!r}")
    return bool(v)


def intterm(x):
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, SBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if _isint(x):
        return z3.IntVal(int(x))
    raise Unsupported(f"not an integer: {x!r}")


def bitterm(x):
    """z3 Bool if x is known to be 0 or 1."""
    if isinstance(x, SInt):
        return x.b
    if isinstance(x, SBool):
        return x.t
    if _isint(x) and int(x) in (0, 1):
        return z3.BoolVal(bool(x))
    return None


def realterm(x):
    if isinstance(x, SReal):
        return x.t
    if isinstance(x, (SInt, SBool)):
        return z3.ToReal(intterm(x))
    if hasattr(x, "dtype") and getattr(x, "ndim", 1) == 0:
        x = x.item()
    if isinstance(x, (int, float)):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported(f"the float {x}")
        from fractions import Fraction
        f = Fraction(x)
        # the decimal the programmer wrote, not its binary approximation
        g = Fraction(repr(x)) if isinstance(x, float) else f
        return z3.Q(g.numerator, g.denominator)
    raise Unsupported(f"not a real: {x!r}")


def _dt(x):
    if isinstance(x, SInt):
        return x.dt
    if isinstance(x, (SBool, bool)):
        return None
    if hasattr(x, "dtype"):
        return "u1" if x.dtype.str.endswith("u1") else "i8"
    return None


def arith(op, a, b, arr=False):
    """Binary operator on scalars of which one is symbolic.

    arr: elementwise on an array (then u1 with a Python int stays u1)."""
    if isinstance(a, SComplex) or isinstance(b, SComplex) or isinstance(a, complex) \
            or isinstance(b, complex):
        return carith(op, a, b)
    if isinstance(a, SSum) or isinstance(b, SSum):
        return sumarith(op, a, b)
    if isinstance(a, (SReal, float)) or isinstance(b, (SReal, float)) or op == "/":
        return rarith(op, a, b)
    if not (_isint(a) and _isint(b)):
        raise PyRaise(TypeError(f"unsupported operand types for {op}"))
    da, db = _dt(a), _dt(b)
    if da is None and db is None:
        dt = None
    elif da == db:
        dt = da
    elif da is None or db is None:
        dt = (da or db) if arr else "i8"
    else:
        dt = "i8"
    ba, bb = bitterm(a), bitterm(b)
    both_bool = all(isinstance(x, (SBool, bool)) or type(x).__name__ == "bool_"
                    for x in (a, b))
    if ba is not None and bb is not None and op in "^&|*":
        f = {"^": z3.Xor, "&": z3.And, "|": z3.Or, "*": z3.And}[op](ba, bb)
        f = z3.simplify(f)
        if op != "*" and both_bool:
            return SBool(f)
        return SInt(b=f, dt=dt)
    ta, tb = intterm(a), intterm(b)
    wrap = dt == "u1"
    if op == "+":
        r = ta + tb
        if wrap and ba is not None and bb is not None:
            wrap = False
    elif op == "-":
        r = ta - tb
    elif op == "*":
        r = ta * tb
    elif op in ("//", "%"):
        if isinstance(b, SInt) and not cur().entails(b.t > 0):
            if bool(b == 0):
                raise_(ZeroDivisionError, "integer division or modulo by zero")
            if bool(b < 0):
                raise Unsupported("division by a negative number")
        elif not isinstance(b, SInt) and int(b) <= 0:
            if int(b) == 0:
                raise_(ZeroDivisionError, "integer division or modulo by zero")
            raise Unsupported("division by a negative number")
        if not isinstance(b, SInt):
            r = divmod_split(ta, int(b), op)
        else:
            r = ta / tb if op == "//" else ta % tb
        wrap = False
        if op == "%" and not isinstance(b, SInt) and int(b) == 2:
            if ba is not None:
                return SInt(b=ba, dt=dt)
            return SInt(b=ta % 2 == 1, dt=dt)
    elif op in "^&|":
        if op == "&" and bb is not None and z3.is_true(z3.simplify(bb)):
            return SInt(b=ta % 2 == 1, dt=dt)
        if op == "|" and isinstance(a, SInt) and bb is not None:
            # x | bit for an even x (the packing idiom)
            if cur().entails(ta % 2 == 0):
                return SInt(z3.simplify(ta + tb), dt=dt)
        raise Unsupported(f"bitwise {op} on unbounded integers")
    elif op == "<<":
        r = ta * z3.IntVal(2 ** int(b))
    elif op == "**":
        if not isinstance(b, Sym) and int(b) >= 0:
            r = z3.IntVal(1)
            for _ in range(int(b)):
                r = r * ta
        elif not isinstance(a, Sym) and int(a) == -1:
            return SInt(z3.If(tb % 2 == 0, z3.IntVal(1), z3.IntVal(-1)))
        else:
            raise Unsupported("power")
    else:
        raise Unsupported(f"operator {op}")
    if wrap:
        r = r % 256
    return SInt(z3.simplify(r), dt=dt)


def divmod_split(t, d, op):
    """t // d or t % d, with the multiples of d taken out of a linear t."""
    t = z3.simplify(t, som=True)
    terms = t.children() if z3.is_add(t) else [t]
    whole, rest = [], []
    for x in terms:
        if z3.is_int_value(x):
            q, m = divmod(x.as_long(), d)
            if q:
                whole.append(z3.IntVal(q))
            if m:
                rest.append(z3.IntVal(m))
        elif z3.is_mul(x) and x.num_args() == 2 and z3.is_int_value(x.arg(0)) and \
                x.arg(0).as_long() % d == 0:
            whole.append(z3.IntVal(x.arg(0).as_long() // d) * x.arg(1))
        else:
            rest.append(x)
    r = z3.Sum(rest) if rest else z3.IntVal(0)
    if all(z3.is_int_value(x) for x in rest):
        n = sum(x.as_long() for x in rest)
        if op == "%":
            return z3.IntVal(n % d)
        return z3.Sum(whole + [z3.IntVal(n // d)])
    if op == "%":
        return r % d
    return z3.Sum(whole + [r / d]) if whole else r / d


# ------------------------------------------------------------------------ reals
class SReal(Sym):
    """A float, treated as a real number."""

    __slots__ = ("t", "i")

    def __init__(self, t, i=None):
        self.t, self.i = t, i

    def __repr__(self):
        return f"SReal({z3.simplify(self.t)})"

    def __bool__(self):
        return cur().decide(self.t != 0)

    def _cmp(self, o, f):
        if not (_isint(o) or isinstance(o, (float, SReal)) or hasattr(o, "dtype")):
            return NotImplemented
        if isinstance(o, float) and o in (float("inf"), float("-inf")):
            big = z3.BoolVal(f(0, 1) if o > 0 else f(0, -1))
            return SBool(big)
        return SBool(f(self.t, realterm(o)))

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list)):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SBool) else (r if r is NotImplemented else not r)

    __hash__ = None

    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __add__(self, o): return rarith("+", self, o)
    def __radd__(self, o): return rarith("+", o, self)
    def __sub__(self, o): return rarith("-", self, o)
    def __rsub__(self, o): return rarith("-", o, self)
    def __mul__(self, o): return rarith("*", self, o)
    def __rmul__(self, o): return rarith("*", o, self)
    def __truediv__(self, o): return rarith("/", self, o)
    def __rtruediv__(self, o): return rarith("/", o, self)
    def __neg__(self): return SReal(-self.t)

    def astype(self, d):
        return cast(self, dtname(d))

    @property
    def imag(self):
        return 0.0

    @property
    def real(self):
        return self


def rarith(op, a, b):
    if isinstance(a, SComplex) or isinstance(b, SComplex):
        return carith(op, a, b)
    ta, tb = realterm(a), realterm(b)
    if op == "+":
        r = ta + tb
    elif op == "-":
        r = ta - tb
    elif op == "*":
        r = ta * tb
    elif op == "/":
        r = ta / tb
    else:
        raise Unsupported(f"{op} on floats")
    return SReal(z3.simplify(r))


class SComplex(Sym):
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = re, im

    @property
    def real(self):
        return SReal(self.re)

    @property
    def imag(self):
        return SReal(self.im)

    def __mul__(self, o): return carith("*", self, o)
    def __rmul__(self, o): return carith("*", o, self)
    def __add__(self, o): return carith("+", self, o)
    def __radd__(self, o): return carith("+", o, self)

    def __eq__(self, o):
        c = _cplx(o)
        return SBool(z3.And(self.re == c.re, self.im == c.im))

    __hash__ = None


def _cplx(x):
    if isinstance(x, SComplex):
        return x
    if isinstance(x, complex):
        return SComplex(realterm(x.real), realterm(x.imag))
    return SComplex(realterm(x), z3.RealVal(0))


def carith(op, a, b):
    if op == "**":
        # a fourth root of unity to an integer power
        if isinstance(b, SSum):
            if b.mod is None and b.cong is not None:
                b = b % 4
            b = b.value()
        if not (isinstance(a, complex) and a == 1j) or not isinstance(b, (SInt, int)):
            raise Unsupported("complex power")
        t = (b.t if isinstance(b, SInt) else intterm(b)) % 4
        one, zero, neg = z3.RealVal(1), z3.RealVal(0), z3.RealVal(-1)
        return SComplex(z3.simplify(z3.If(t == 0, one, z3.If(t == 2, neg, zero))),
                        z3.simplify(z3.If(t == 1, one, z3.If(t == 3, neg, zero))))
    x, y = _cplx(a), _cplx(b)
    if op == "*":
        return SComplex(z3.simplify(x.re * y.re - x.im * y.im),
                        z3.simplify(x.re * y.im + x.im * y.re))
    if op == "+":
        return SComplex(x.re + y.re, x.im + y.im)
    if op == "-":
        return SComplex(x.re - y.re, x.im - y.im)
    raise Unsupported(f"{op} on complex numbers")


# ------------------------------------------------------------- symbolic sums
class SSum(Sym):
    """const + sum over pieces (n, f): f(0) + ... + f(n-1), possibly modulo `mod`.

    With `cong` set only the residue modulo cong is known (machine integers that
    wrap, or sums of residues).  As a number a sum is an opaque integer, one
    constant per piece; two sums are compared piece by piece (`sums_equal`)."""

    def __init__(self, const, pieces, mod=None, cong=None):
        self.const, self.pieces, self.mod, self.cong = const, pieces, mod, cong

    def value(self):
        if self.cong is not None and not self.mod:
            raise Unsupported("the value of a sum known only modulo a number")
        t = intterm(self.const)
        opaque = False
        for (n, f, c) in self.pieces:
            closed = closed_form(n, f)
            if closed is not None:
                t = t + closed
                continue
            t = t + c
            opaque = True
            if not self.mod:
                cur().assume(SBool(z3.Implies(intterm(n) <= 0, c == 0)))
        if opaque:
            cur().values.append((self, z3.simplify(t)))
            if not self.mod:
                # any number, as far as the paths that follow know
                cur().abstract("the value of a sum")
        if self.mod:
            t = t % self.mod
            if self.mod == 2:
                return SInt(b=z3.simplify(t == 1))
        return SInt(z3.simplify(t))

    def __bool__(self):
        return bool(self.value() != 0)

    def __add__(self, o): return sumarith("+", self, o)
    def __radd__(self, o): return sumarith("+", o, self)
    def __sub__(self, o): return sumarith("-", self, o)
    def __rsub__(self, o): return sumarith("-", o, self)
    def __mul__(self, o): return sumarith("*", self, o)
    __rmul__ = __mul__
    def __rpow__(self, o): return carith("**", o, self)
    def __and__(self, o): return sumarith("&", self, o)
    def __mod__(self, o): return sumarith("%", self, o)
    def __xor__(self, o): return sumarith("^", self, o)
    __rxor__ = __xor__
    def __eq__(self, o): return self.value() == (o.value() if isinstance(o, SSum) else o)
    def __ne__(self, o): return ~(self == o)
    def __lt__(self, o): return self.value() < o
    def __gt__(self, o): return self.value() > o
    def __le__(self, o): return self.value() <= o
    def __ge__(self, o): return self.value() >= o
    __hash__ = None

    def astype(self, d):
        return self

    def __repr__(self):
        return f"SSum({self.const}, {len(self.pieces)} pieces, mod {self.mod})"


def closed_form(n, f):
    """f(0) + ... + f(n-1) for a constant f and n >= 0, or None."""
    s = cur()
    frames, s.frames, known = s.frames, [], len(s.pc)
    try:
        v = f(SInt(z3.Int(s.name_for("k"))))
    except (Unsupported, PyRaise, PathEnd):
        return None
    finally:
        s.frames = frames
        del s.pc[known:]
    if isinstance(v, SInt):
        v = z3.simplify(intterm(v))
        v = v.as_long() if z3.is_int_value(v) else None
    if isinstance(v, bool):
        v = int(v)
    if not isinstance(v, int) or not s.entails(SBool(intterm(n) >= 0)):
        return None
    return intterm(n) * v


def mksum(n, f, cong=None):
    """Symbolic sum of f(0..n-1)."""
    c = z3.Int(cur().name_for("sum"))
    return SSum(0, [(n, f, c)], cong=cong)


def sumarith(op, a, b):
    if op == "^":
        # exclusive or of two values modulo 2 is their sum modulo 2
        ok = all((isinstance(x, SSum) and x.mod == 2) or
                 (not isinstance(x, SSum) and bitterm(x) is not None) for x in (a, b))
        if not ok:
            raise Unsupported("xor on sums")
        return sumarith("%", sumarith("+", a, b), 2)
    if op in ("%", "&"):
        if op == "&":
            if b != 1:
                raise Unsupported("bitwise and on sums")
            b = 2
        if not isinstance(b, int) or not isinstance(a, SSum):
            raise Unsupported("mod on sums")
        if a.mod is not None:
            if a.mod % b:
                raise Unsupported("mod of mod on sums")
        elif a.cong is not None and a.cong % b:
            raise Unsupported("mod of a machine integer")
        return SSum(a.const, a.pieces, mod=b)
    if op in "+-":
        A = a if isinstance(a, SSum) else SSum(a, [])
        B = b if isinstance(b, SSum) else SSum(b, [])
        if op == "-":
            B = SSum(0 - B.const, [(n, (lambda *k, f=f: 0 - f(*k)), z3.simplify(-c))
                                   for n, f, c in B.pieces], B.mod, B.cong)
        cong = None
        for x in (A, B):
            m = x.mod or x.cong
            if m:
                cong = m if cong is None else __import__("math").gcd(cong, m)
        return SSum(A.const + B.const, A.pieces + B.pieces, cong=cong)
    if op == "*":
        s, k = (a, b) if isinstance(a, SSum) else (b, a)
        if isinstance(k, int):
            return SSum(s.const * k, [(n, (lambda *i, f=f: f(*i) * k),
                                       z3.simplify(c * k)) for n, f, c in s.pieces],
                        cong=s.mod or s.cong)
    if op == "/":
        return rarith(op, *[x.value() if isinstance(x, SSum) else x for x in (a, b)])
    raise Unsupported(f"{op} on symbolic sums")


def prove_sums_equal(a, b, name, mod=None):
    """Sum congruence: equal summands over equal ranges give equal sums.

    Pieces over the same range are added first; without `mod` (or when the values
    are residues) the numbers have to be equal, else only congruent."""
    s = cur()
    A = a if isinstance(a, SSum) else SSum(a, [])
    B = b if isinstance(b, SSum) else SSum(b, [])
    if mod is None:
        if (A.mod or A.cong) != (B.mod or B.cong) and A.pieces and B.pieces:
            if not (A.mod and A.mod == B.mod):
                return s.undecided(name, f"moduli {A.mod, A.cong} and {B.mod, B.cong}")
        mod = A.mod or B.mod
        if mod is None and (A.cong or B.cong):
            return s.undecided(name, "a machine sum compared exactly")
    else:
        for x in (A, B):
            m = x.mod or x.cong
            if m and m % mod:
                return s.undecided(name, f"modulus {m} against {mod}")

    groups = []          # (n, [f of A], [f of B])
    for side, x in ((1, A), (2, B)):
        for (n, f, c) in x.pieces:
            for g in groups:
                if s.entails(eq(g[0], n)):
                    g[side].append(f)
                    break
            else:
                g = [n, [], []]
                g[side].append(f)
                groups.append(g)
    d = A.const - B.const
    s.prove(d % mod == 0 if mod else d == 0, name, "constant part")
    for g in groups:
        def body(g=g):
            k = fresh_int("k", 0, g[0])
            lhs, rhs = 0, 0
            for f in g[1]:
                lhs = lhs + f(k)
            for f in g[2]:
                rhs = rhs + f(k)
            if isinstance(lhs, SSum) or isinstance(rhs, SSum):
                return prove_sums_equal(lhs, rhs, name, mod)
            e = lhs - rhs if not (mod and isinstance(lhs, SInt) and lhs.dt) else \
                SInt(intterm(lhs) - intterm(rhs))
            s.prove(e % mod == 0 if mod else e == 0, name, "summand")
        s.each(body, name)


def sums_congruent(a, b, mod):
    """Silently: are two sums congruent, by congruence of the summands?"""
    s = cur()
    ok = [True]
    obls, s.obls = s.obls, {}
    try:
        prove_sums_equal(a, b, "sums", mod)
        ok = all(o.status == "discharged" for o in s.obls.values())
    except (Unsupported, PyRaise):
        ok = False
    finally:
        s.obls = obls
    return ok


def sum_value(S, mod):
    """The number a specification sum S stands for, modulo mod, linked to the sums
    with congruent summands which the code has used as numbers (sum congruence)."""
    s = cur()
    known = list(s.values)
    v = SSum(S.const, S.pieces).value()
    linked = False
    for R, t in known:
        m = R.mod or R.cong
        if m and m % mod:
            continue
        if sums_congruent(SSum(R.const, R.pieces, cong=R.cong), S, mod):
            s.assume(SBool((t - v.t) % mod == 0))
            linked = True
    if not linked:
        s.abstract("an unrelated sum")
    return v


def link_sums(*terms):
    """Assume equality of the sums used as numbers in these terms whose summands are
    equal over equal ranges (sum congruence)."""
    s = cur()
    names = set()
    from .loops import const_names
    for t in terms:
        if z3.is_expr(t):
            names |= const_names(t)
    seen = []
    for R, t in list(s.values):
        if R.mod or R.cong or not any(str(c) in names or not z3.is_const(c)
                                      for _, _, c in R.pieces):
            continue
        R = SSum(0, R.pieces)
        t = z3.Sum([c for _, _, c in R.pieces])
        for S, u in seen:
            if t.eq(u):
                break
            if len(S.pieces) == len(R.pieces) and sums_congruent(R, S, None):
                s.assume(SBool(t == u))
                break
        seen.append((R, t))


def prove_numbers_equal(a, b, name, detail=""):
    s = cur()
    if isinstance(a, SSum) and isinstance(b, SSum) and sums_congruent(a, b, None):
        return prove_sums_equal(a, b, name)
    a = a.value() if isinstance(a, SSum) else a
    b = b.value() if isinstance(b, SSum) else b
    e = a == b
    if isinstance(e, SBool) and s.values and not s.entails(e):
        link_sums(boolterm(e))
        from .loops import const_names
        sums = {str(c) for S, _ in s.values for _, _, c in S.pieces}
        if sums & const_names(boolterm(e)) and not s.entails(e):
            # a sum is only known by its congruences here
            s.abstract("the value of a sum")
    return s.prove(e, name, detail)


def eq(a, b):
    """a == b as a z3 term."""
    r = a == b
    return boolterm(r)


# -------------------------------------------------------------------- fresh
def fresh_int(name, lo=None, hi=None, dt=None):
    s = cur()
    v = SInt(z3.Int(s.name_for(name)), dt=dt)
    if lo is not None:
        s.assume(v >= lo)
    if hi is not None:
        s.assume(v < hi)
    return v


def fresh_bool(name):
    return SBool(z3.Bool(cur().name_for(name)))


def fresh_bit(name, dt="u1"):
    return SInt(b=z3.Bool(cur().name_for(name)), dt=dt)


def fresh_real(name):
    return SReal(z3.Real(cur().name_for(name)))


def _sorts(args):
    return [z3.IntSort()] * args


def fun_int(name, arity, lo=None, hi=None):
    """An uninterpreted function to integers; range facts are assumed on each use."""
    f = z3.Function(cur().name_for(name), *_sorts(arity), z3.IntSort())

    def at(*idx):
        v = SInt(f(*[intterm(i) for i in idx]))
        if lo is not None:
            cur().assume(v >= (lo(*idx) if callable(lo) else lo))
        if hi is not None:
            cur().assume(v < (hi(*idx) if callable(hi) else hi))
        return v
    at.z3 = f
    return at


def fun_bit(name, arity, dt="u1"):
    f = z3.Function(cur().name_for(name), *_sorts(arity), z3.BoolSort())
    at = lambda *idx: SInt(b=f(*[intterm(i) for i in idx]), dt=dt)  # noqa: E731
    at.z3 = f
    return at


def fun_bool(name, arity):
    f = z3.Function(cur().name_for(name), *_sorts(arity), z3.BoolSort())
    at = lambda *idx: SBool(f(*[intterm(i) for i in idx]))  # noqa: E731
    at.z3 = f
    return at


def fun_real(name, arity):
    f = z3.Function(cur().name_for(name), *_sorts(arity), z3.RealSort())
    at = lambda *idx: SReal(f(*[intterm(i) for i in idx]))  # noqa: E731
    at.z3 = f
    return at


def choice(v, options):
    """Concretise a symbolic integer by cases: returns options[v]."""
    for k in options[:-1] if isinstance(options, (list, tuple)) else options:
        pass
    n = len(options)
    for i in range(n - 1):
        if bool(v == i):
            return options[i]
    return options[n - 1]


# --------------------------------------------------------------------- ite
def ite(c, a, b):
    """If-then-else on values."""
    t = z3.simplify(boolterm(c))
    if z3.is_true(t):
        return a
    if z3.is_false(t):
        return b
    if a is b:
        return a
    if not isinstance(a, Sym) and not isinstance(b, Sym) and type(a) is type(b):
        try:
            if bool(a == b):
                return a
        except Exception:
            pass
    if isinstance(a, SSum) or isinstance(b, SSum):
        if isinstance(a, SSum) and isinstance(b, SSum) and not (a.mod or b.mod):
            raise Unsupported("choice between two symbolic sums")
        raise Unsupported("choice with a symbolic sum")
    if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
        return SBool(z3.simplify(z3.If(t, boolterm(a), boolterm(b))))
    if _isint(a) and _isint(b):
        ba, bb = bitterm(a), bitterm(b)
        da, db = _dt(a), _dt(b)
        dt = da if da == db else (da or db)
        if ba is not None and bb is not None:
            return SInt(b=z3.simplify(z3.If(t, ba, bb)), dt=dt)
        return SInt(z3.simplify(z3.If(t, intterm(a), intterm(b))), dt=dt)
    if isinstance(a, (SComplex, complex)) or isinstance(b, (SComplex, complex)):
        x, y = _cplx(a), _cplx(b)
        return SComplex(z3.If(t, x.re, y.re), z3.If(t, x.im, y.im))
    if isinstance(a, (SReal, float, SInt, int)) and isinstance(b, (SReal, float, SInt, int)):
        return SReal(z3.simplify(z3.If(t, realterm(a), realterm(b))))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if type(a).__name__ == "SArr" and type(b).__name__ == "SArr":
        from .arr import SArr, known_eq
        if a.ndim == b.ndim and a.dt == b.dt and \
                all(known_eq(x, y) for x, y in zip(a.shape, b.shape)):
            ra, rb, cc = a.reader(), b.reader(), SBool(t)
            return SArr.of(lambda *i: ite(cc, ra(*i), rb(*i)), a.shape, a.dt)
    if isinstance(a, str) and isinstance(b, str) and len(a) == len(b) == 1:
        from .text import SChar
        return SChar(ite(c, ord(a), ord(b)))
    if hasattr(a, "pyvc_ite"):
        return a.pyvc_ite(SBool(t), b)
    if hasattr(b, "pyvc_ite"):
        return b.pyvc_ite(SBool(z3.Not(t)), a)
    raise Unsupported(f"choice between {type(a).__name__} and {type(b).__name__}")


def boolterm_s(c):
    return c if isinstance(c, (SBool, bool)) else SBool(boolterm(c))
