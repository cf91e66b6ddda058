"""P18: error tables are converted without loss and checked against the code."""
import itertools

import numpy as np
import pandas as pd
import z3
from plaquette import errors as er
from plaquette.codes import latticebase as lb
from plaquette.codes.latticebase import CodeLattice

from contracts.common import C, SArr, SBool, SInt, Unsupported, cur, eq, fresh_array, \
    fresh_int
from pyvc import seq as Q
from pyvc.contract import case
from pyvc.core import SReal, intterm
from pyvc.interp import Interp
from pyvc.seq import Each, SSeq, parts, quant
from pyvc.text import SName, any_name

E = er.ErrorData
FUNCTIONS = ["errors.ErrorData." + f for f in (
    "check_against_code", "_check_single_phys_qubit_error",
    "_check_single_stab_qubit_error", "_check_onequbit_gate_error",
    "_check_twoqubit_gate_error", "qubit_errors_dict", "gate_errors_dict",
    "error_data_dict", "add_qubit_error", "update_qubit_error", "add_gate_error")] + [
    "codes.latticebase.CodeLattice.check_equbit_is_data",
    "codes.latticebase.CodeLattice.check_equbit_is_stabgen"]
ASSUMPTIONS = [
    "pandas: frame[column], frame[column][label], frame.at[label, column] = v, "
    "Series.fillna(inplace=True), itertuples, concat, Series(dict).to_frame().T mean "
    "what pandas documents (they are stand-ins here; executed in the bounded check)",
    "qubit ids in a table are distinct",
    "the channels listed for a gate are one of a few lists (any probabilities, any "
    "number of rows and of qubits)",
    "reading of CSV files, from_lattice and update are only executed (bounded check)"]
X, Y, Z = "XYZ"
TWO = [a + b for a in "ixyz" for b in "ixyz"][1:]


def true(x):
    return x if isinstance(x, bool) else SBool(C.boolterm(x))


def lnot(x):
    return (not x) if isinstance(x, bool) else ~SBool(C.boolterm(x))


# ------------------------------------------------------------------- checks
class Channels:
    """A dictionary from (any) channel names to probabilities."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, names):
        self.names = names

    def subst_(self, ps):
        return Channels(Q.subst(self.names, ps))

    def terms_(self):
        yield from Q.terms(self.names) if hasattr(Q, "terms") else ()

    def keys(self):
        return self.names

    def pyvc_iter(self, it):
        return parts(self.names)

    def pyvc_len(self):
        return self.names.n


class Entries:
    """A dictionary from qubits (or pairs) to channels."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, key):
        m, f = C.fun_int("channels", 1), C.fun_int("channel", 2)
        k = z3.Int("k!")
        cur().assume(SBool(z3.ForAll([k], m.z3(k) >= 0)))
        self.n = fresh_int("entries", 0)
        self.key = key
        self.names = lambda k: SSeq(m(k), lambda j: SName(f(k, j)))

    def items(self):
        return SSeq(self.n, lambda k: (self.key(k), Channels(self.names(k))))

    def keys(self):
        return SSeq(self.n, self.key)

    pyvc_iter = lambda self, it: parts(self.keys())      # noqa: E731

    def known(self, k, allowed):
        x = self.names(k)
        return quant("all", x.n, lambda j: C.lor(False, *[x.at(j) == a for a in allowed]))


class Lat:
    """A code whose checks of indices are these."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, c):
        self.lattice = self
        f, g = C.fun_bool("is_data", 1), C.fun_bool("is_stab", 1)
        self.data, self.stab = f, g

    def check_equbit_is_data(self, i, **info):
        if not bool(self.data(i)):
            raise ValueError("not a data qubit")

    def check_equbit_is_stabgen(self, i, **info):
        if not bool(self.stab(i)):
            raise ValueError("not a stabiliser generator")


def verdict(c, e, good, what):
    if e is None:
        c.prove(true(good), what + ": only right tables are accepted")
    else:
        c.prove(lnot(good), what + ": only wrong tables are rejected")
        c.prove(isinstance(e, (ValueError, KeyError, TypeError)), what + ": by an error")


REJ = lambda v: [("rejections", {})]      # noqa: E731


def one_check(fn, which, name, extra, allowed):
    @case(f"check of {name}")
    def go(c):
        lat = Lat(c)
        ids = C.fun_int("qubit", 1)
        d = Entries(lambda k: ids(k))
        e = c.raises(fn, object.__new__(E), d, lat, *extra)
        ok = lat.data if which == "data" else lat.stab
        verdict(c, e, quant("all", d.n, lambda k: C.land(
            ok(ids(k)), d.known(k, allowed))), name)
    return go


for _fn, _w, _n, _x, _a in (
        (E._check_single_phys_qubit_error, "data", "pauli errors",
         ("pauli", {"x", "y", "z"}), "xyz"),
        (E._check_single_phys_qubit_error, "data", "erasures", ("erasure", {"p"}), "p"),
        (E._check_single_stab_qubit_error, "stab", "measurement errors",
         ("measurement", {"p"}), "p"),
        (E._check_onequbit_gate_error, "stab", "one-qubit gates", ("H",), "xyz")):
    globals()["check_" + _n.replace(" ", "_").replace("-", "_")] = one_check(
        _fn, _w, _n, _x, list(_a))


@case("check of two-qubit gates")
def check_pairs(c):
    def pairs():
        lat = Lat(c)
        a, b = C.fun_int("control", 1), C.fun_int("target", 1)
        d = Entries(lambda k: (a(k), b(k)))
        e = c.raises(E._check_twoqubit_gate_error, object.__new__(E), d, lat, "CX")
        verdict(c, e, quant("all", d.n, lambda k: C.land(
            lat.stab(a(k)), lat.data(b(k)), d.known(k, TWO))), "two-qubit gates")

    def other(m):
        lat = Lat(c)
        a = C.fun_int("qubit", 2)
        d = Entries(lambda k: tuple(a(k, j) for j in range(m)))
        cur().assume(d.n > 0)
        e = c.raises(E._check_twoqubit_gate_error, object.__new__(E), d, lat, "CX")
        c.prove(isinstance(e, ValueError), "two-qubit gates: other tuples are rejected")
    c.scope(pairs)
    for m in (1, 3):
        c.scope(lambda: other(m))


CHECKS = {"pauli": ("_check_single_phys_qubit_error", {"x", "y", "z"}),
          "erasure": ("_check_single_phys_qubit_error", {"p"}),
          "measurement": ("_check_single_stab_qubit_error", {"p"}),
          "CX": ("_check_twoqubit_gate_error", None),
          "CZ": ("_check_twoqubit_gate_error", None),
          "H": ("_check_onequbit_gate_error", None),
          "M": ("_check_onequbit_gate_error", None),
          "R": ("_check_onequbit_gate_error", None)}


class Token:
    pyvc_ok = True

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return f"<{self.what}>"


@case("which checks are made")
def dispatch(c):
    names = list(CHECKS)
    choices = [(), tuple(names)] + [(n,) for n in names] + [
        tuple(m for m in names if m != n) for n in names] + [
        ("x",), ("fabrication",), ("pauli", "H", "cx"), ("X", *names)]
    for implicit in (False, True):
        for ns in choices:
            def at():
                made, code = [], Token("code")
                d = {n: Token(n) for n in ns}
                for f in {f for f, _ in CHECKS.values()}:
                    def spy(it, a, k, f=f):
                        made.append((f, a[1:], k))
                    c.contracts[getattr(E, f)] = spy
                ed = object.__new__(E)
                if implicit:
                    c.contracts[E.error_data_dict.fget] = lambda it, a, k: d
                    e = c.raises(E.check_against_code, ed, code)
                else:
                    e = c.raises(E.check_against_code, ed, code, d)
                bad = [n for n in ns if n not in CHECKS]
                if bad:
                    return c.prove(isinstance(e, ValueError), "unknown errors rejected")
                c.prove(e is None, "known errors accepted")
                left = {n: CHECKS[n] for n in ns}
                for f, a, k in made:
                    sig = {"_check_single_phys_qubit_error": "error_dict code name keys",
                           "_check_single_stab_qubit_error": "error_dict code name keys",
                           }.get(f, "error_dict code gate").split()
                    v = dict(zip(sig, a)) | {{"allowed_keys": "keys"}.get(x, x): y
                                             for x, y in k.items()}
                    n = v.get("name", v.get("gate"))
                    if n not in left or left[n][0] != f or v.get("error_dict") is not \
                            d[n] or v.get("code") is not code or \
                            left[n][1] is not None and set(v["keys"]) != left[n][1]:
                        return c.fail("every error gets its check", f"{f} {v}")
                    del left[n]
                c.prove(not left, "every error gets its check")
            c.scope(at)


class Vertices:
    """A lattice of vertices of these kinds."""


class Vertex:
    pyvc_ok = True
    __hash__ = None

    def __init__(self, kind):
        self.kind = kind

    def subst_(self, ps):
        return Vertex(Q.subst(self.kind, ps))

    def terms_(self):
        yield self.kind.t

    def pyvc_str(self):
        return "a vertex"

    def pyvc_isinstance(self, cls):
        cs = cls if isinstance(cls, tuple) else (cls,)
        ks = [i for i, k in enumerate((lb.DataVertex, lb.StabGenVertex, lb.LogicalVertex))
              if any(issubclass(k, x) for x in cs)]
        return bool(SBool(z3.Or([self.kind.t == k for k in ks])))


def index_check(fn, want):
    def go(c):
        def whole():
            f = C.fun_int("kind", 1)
            n = fresh_int("vertices", 0)
            k = z3.Int("k!")
            cur().assume(SBool(z3.ForAll([k], z3.And(f.z3(k) >= 0, f.z3(k) <= 2))))
            lat = object.__new__(CodeLattice)
            lat.equbits = SSeq(n, lambda j: Vertex(f(j)))
            i = fresh_int("index")
            e = c.raises(fn, lat, i, error="pauli")
            verdict(c, e, C.land(i >= 0, i < n, SBool(f(i).t == want)), "index")

        def other(v):
            lat = object.__new__(CodeLattice)
            lat.equbits = SSeq(fresh_int("vertices", 0), lambda j: Vertex(SInt(
                z3.IntVal(want))))
            e = c.raises(fn, lat, v, gate="H")
            c.prove(isinstance(e, ValueError), "index: not a number")
        c.scope(whole)
        for v in (1.0, "1", None, (1,), 0.5):
            c.scope(lambda: other(v))
    return go


is_data = case("index of a data qubit")(index_check(CodeLattice.check_equbit_is_data, 0))
is_stab = case("index of a stabiliser generator")(
    index_check(CodeLattice.check_equbit_is_stabgen, 1))


# --------------------------------------------------------------- dictionaries
def emit(c, log, ev):
    Interp.container_method(c.it, log, "append", log.append, [ev], {})


class Kind(SName):
    """The kind of a qubit."""


class Col:
    """A column: labelled by the qubits."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, rows, at):
        self.rows, self.at_ = rows, at

    def pyvc_iter(self, it):
        return parts(SSeq(self.rows.n, lambda r: self.at_(self.rows.id(r))))

    def __getitem__(self, q):
        # a column is read at the label of a row (anything else would be a KeyError)
        if not bool(self.rows.has(q)):
            raise KeyError(q)
        return self.at_(q)


class Cell(SReal):
    """A probability, or nothing."""


class Qubits:
    """A table of qubits: the kind of each and values by name of the error."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self):
        s = cur()
        self.n = fresh_int("rows", 0)
        self.id, self.row = C.fun_int("id", 1), C.fun_int("row", 1)
        self.kindf = C.fun_int("kind", 1)
        k = z3.Int("k!")
        i = self.id.z3(k)
        s.assume(SBool(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < self.n.t),
                                                 self.row.z3(i) == k), patterns=[i])))
        self.vals = {e: (C.fun_bool("empty_" + e, 1), C.fun_real("prob_" + e, 1))
                     for e in ("X", "Y", "Z", "erasure", "measurement", "fabrication")}

    def has(self, q):
        r = self.row(q)
        return C.land(r >= 0, r < self.n, SBool(eq(self.id(r), q)))

    def kind(self, q):
        return SName(self.kindf(q))

    def __getitem__(self, name):
        if not isinstance(name, str):
            raise Unsupported("another column of the table")
        if name == "qubit_id":
            return Col(self, lambda q: q)
        if name == "qubit_type":
            return Col(self, self.kind)
        if name not in self.vals:
            raise KeyError(name)
        return Col(self, lambda q: Value(self, name, q))

    @property
    def index(self):
        return SSeq(self.n, lambda r: self.id(r))


class Value:
    """The entry of a qubit in a column: empty or a number."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, rows, name, q):
        self.rows, self.name, self.q = rows, name, q

    def subst_(self, ps):
        return Value(self.rows, self.name, Q.subst(self.q, ps))

    def terms_(self):
        yield self.q.t

    @property
    def empty(self):
        return self.rows.vals[self.name][0](self.q)

    @property
    def number(self):
        return self.rows.vals[self.name][1](self.q)


class Rec:
    """The channels of a qubit, as they are filled in."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, group=None, q=None):
        self.group, self.q = group, q
        self.loops = len(cur().rec)     # how many loops around its creation

    def subst_(self, ps):
        return Rec(self.group, Q.subst(self.q, ps)) if self.q is not None else self

    def terms_(self):
        if self.q is not None:
            yield self.q.t

    def __setitem__(self, ch, v):
        if self.group is None or not isinstance(ch, str):
            raise Unsupported("channels filled in before they are in the dictionary")
        g = self.group
        emit(g.c, g.log, (self.q, ch, v))


class Group:
    """The qubits of a kind of error and what is filled in for them."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, c, name, d):
        self.c, self.name, self.d, self.log = c, name, d, []

    def items(self):
        self.d.order()
        return SSeq(self.d.n, lambda i: (self.d.key(i), Rec(self, self.d.key(i))))

    def keys(self):
        return self.d.seq_keys()

    pyvc_iter = lambda self, it: parts(self.keys())      # noqa: E731

    def __getitem__(self, q):
        if not bool(self.d.has(q)):
            raise KeyError(q)
        return Rec(self, q)


class Out:
    """The dictionary of qubit errors."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, c):
        self.c, self.groups = c, {}

    def get(self, name, default=None):
        return self.groups.get(name, default)

    def pyvc_contains(self, it, name):
        return name in self.groups

    def __getitem__(self, name):
        return self.groups[name]

    def __setitem__(self, name, d):
        if isinstance(d, dict):
            d = getattr(d, "sym", None)
        if not isinstance(d, Q.SDict) or not isinstance(name, str):
            raise Unsupported("something else among the errors of qubits")
        one = d.get(fresh_int("any", 0))
        if not isinstance(one, Rec) or one.loops <= len(cur().rec):
            raise Unsupported("an entry that several qubits may share")
        self.groups[name] = Group(self.c, name, d)

    def setdefault(self, name, d):
        if name not in self.groups:
            self[name] = d
        return self.groups[name]


def last_of(c, ps, q, ch, pos, state):
    """(is it there, what) after these assignments, for a qubit and a channel."""
    for p in ps:
        if isinstance(p, Each):
            # every qubit has its own iteration
            i = fresh_int("other", 0, p.n)
            if not cur().entails(C.boolterm(C.lor(eq_at(i, pos), lnot(
                    touches(p.fn(i), q, ch))))):
                raise Unsupported("a qubit filled in by several iterations")
            inside = C.land(pos >= 0, pos < p.n)
            new = last_of(c, p.fn(pos), q, ch, pos, state)
            state = choose(inside, new, state)
        elif isinstance(p, Q.IfE):
            state = choose(SBool(C.boolterm(p.cond)), last_of(
                c, p.a, q, ch, pos, state), last_of(c, p.b, q, ch, pos, state))
        else:
            q2, ch2, v = p
            if ch2 == ch:
                state = choose(SBool(eq(q2, q)), (True, v), state)
    return state


def eq_at(a, b):
    return SBool(eq(a, b))


def touches(ps, q, ch):
    r = False
    for p in ps:
        if isinstance(p, Each):
            raise Unsupported("several values for a qubit")
        if isinstance(p, Q.IfE):
            r = C.lor(r, C.ite(SBool(C.boolterm(p.cond)), touches(p.a, q, ch),
                               touches(p.b, q, ch)))
        else:
            r = C.lor(r, C.land(p[1] == ch, SBool(eq(p[0], q))))
    return r


def choose(cond, a, b):
    if isinstance(cond, bool):
        return a if cond else b
    t = SBool(C.boolterm(cond))

    def b2(x):
        return SBool(C.boolterm(x))
    num = [x.number if isinstance(x, Value) else x for x in (a[1], b[1])]
    if num[0] is None or num[1] is None:
        v = num[0] if num[1] is None else num[1]
    else:
        v = C.ite(t, SReal(C.realterm(num[0])), SReal(C.realterm(num[1])))
    return C.ite(t, b2(a[0]), b2(b[0])), v


def isna(it, a, k):
    if isinstance(a[0], Value):
        return a[0].empty
    raise Unsupported("isna of something else")


NAMES = ("X", "Y", "Z", "erasure", "measurement", "fabrication")


def enabled_sets(title, sets):
    @case(f"errors of qubits: {title}", timeout=75)
    def go(c):
        for en in sets:
            c.scope(lambda: qubit_set(c, en))
    return go


single = enabled_sets("one kind", [(), *((n,) for n in NAMES), ("other",)])
double = enabled_sets("two kinds", list(itertools.permutations(NAMES, 2)))
triple = enabled_sets("three kinds", list(itertools.combinations(NAMES, 3)))
every = enabled_sets("all kinds", [NAMES, NAMES[::-1], ("X", "other"), (
    "Y", "erasure", "X", "measurement"), ("measurement", "Z", "other", "Y", "X")])


def qubit_set(c, en):
    t = Qubits()
    out = Out(c)
    c.contracts[er.QubitErrorsDict] = lambda it, a, k: out
    c.contracts[er.SinglePauliChannelErrorValueDict] = lambda it, a, k: Rec()
    c.contracts[er.ErrorValueDict] = lambda it, a, k: Rec()
    c.contracts[pd.isna] = c.contracts[pd.isnull] = isna
    ed = object.__new__(E)
    ed.qubit_errors, ed.enabled_qubit_errors = t, list(en)
    res = c.run(E.qubit_errors_dict.fget, ed)
    if res is not out:
        raise Unsupported("another dictionary of qubit errors")
    want = {}
    for e in en:
        if e in ("X", "Y", "Z"):
            want.setdefault("pauli", []).append((e.lower(), e))
        elif e in ("erasure", "measurement"):
            want.setdefault(e, []).append(("p", e))
    c.prove(set(out.groups) <= set(want), "nothing which is not enabled")
    q = fresh_int("q")
    r = t.row(q)
    for g, chs in want.items():
        grp = out.groups.get(g)
        kinds = ("stab", "ancilla") if g == "measurement" else ("data",)
        mine = C.land(t.has(q), C.lor(False, *[t.kind(q) == k for k in kinds]))
        state = {}
        if grp is not None:
            grp.d.order()
            pos = SInt(grp.d.pos.z3(q.t))
            has = grp.d.has(q)
            # (an entry without any channel means the same as none)
            for ch in ("x", "y", "z", "p"):
                state[ch] = last_of(c, list(grp.log), q, ch, pos, (False, None))
                state[ch] = (C.land(has, state[ch][0]), state[ch][1])
        for ch, e in chs:
            there, v = state.get(ch, (False, None))
            empty, p = t.vals[e][0](q), t.vals[e][1](q)
            value = SBool(z3.BoolVal(False)) if v is None else SBool(
                C.realterm(v.number if isinstance(v, Value) else v) == p.t)
            must = C.land(mine, lnot(empty))
            c.prove(C.lor(lnot(must), C.land(there, value)),
                    "the tabulated probability of every enabled error")
            free = C.lor(lnot(there), SBool(z3.BoolVal(False)) if v is None else SBool(
                C.realterm(v.number if isinstance(v, Value) else v) == 0))
            c.prove(C.lor(must, free), "nothing else")
        for ch, (there, v) in state.items():
            if ch not in [x for x, _ in chs]:
                c.prove(lnot(there), "no other channel")


class Row:
    """A row of the table of gates."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, t, r):
        self.t, self.r = t, r

    def subst_(self, ps):
        return Row(self.t, Q.subst(self.r, ps))

    def terms_(self):
        yield self.r.t

    @property
    def gate(self):
        return SName(self.t.gatef(self.r))

    @property
    def on_qubits(self):
        t, r = self.t, self.r
        return SSeq(t.width(r), lambda j: t.on(r, j))

    @property
    def induced_errors(self):
        return self.t.channels if isinstance(self.t.channels, str) else list(
            self.t.channels)

    @property
    def probs(self):
        return [self.t.p(self.r, i) for i in range(self.t.m)]


class Gates:
    """A table of gates, each with these channels."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, channels):
        s = cur()
        self.channels = channels
        self.m = 1 if isinstance(channels, str) else len(channels)
        self.n = fresh_int("rows", 0)
        self.gatef, self.width = C.fun_int("gate", 1), C.fun_int("width", 1)
        self.on, self.p = C.fun_int("on", 2), C.fun_real("p", 2)
        k = z3.Int("k!")
        w = self.width.z3(k)
        two = z3.Or([self.gatef.z3(k) == SName.code(g) for g in ("CX", "CZ")])
        s.assume(SBool(z3.ForAll([k], w >= 0, patterns=[w])))
        # pairs of qubits come in pairs
        half = C.fun_int("pairs", 1)
        s.assume(SBool(z3.ForAll([k], z3.Implies(two, w == 2 * half.z3(k)),
                                 patterns=[w])))

    def itertuples(self, *a, **k):
        return SSeq(self.n, lambda r: Row(self, r))


class Enabled:
    """A set of names."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self):
        self.f = C.fun_bool("enabled", 1)

    def pyvc_contains(self, it, x):
        if isinstance(x, str):
            x = SName(SInt(z3.IntVal(SName.code(x))))
        return self.f(x.t)


class GateOut:
    """The dictionary of gate errors; what is written into it, in order.

    Whether a gate has a dictionary at some point is left open (a new one may only be
    put where there is none, and the dictionary of a gate is only used where there is
    one)."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, c):
        self.c, self.log = c, []
        self.there = []            # what is known in the current iteration

    def known(self, g):
        for x, v in reversed(self.there):
            if x is g or cur().entails(C.boolterm(C.asbool(self.c.it.compare(
                    "==", x, g)))):
                return v
        return None

    def look(self, g):
        v = self.known(g)
        if v is None:
            v = bool(C.fresh_bool("present"))
            self.there.append((g, v))
        return v

    def get(self, g, default=None):
        return Inner(self, g) if self.look(g) else default

    def pyvc_contains(self, it, g):
        return self.look(g)

    def __getitem__(self, g):
        if not self.look(g):
            raise KeyError(g)
        return Inner(self, g)

    def __setitem__(self, g, d):
        if not isinstance(d, dict) or d or getattr(d, "sym", None) is not None:
            raise Unsupported("a dictionary put among the gate errors")
        if self.look(g):
            self.c.fail("what was there is kept", "replaced by an empty dictionary")
        self.there.append((g, True))

    def setdefault(self, g, d):
        if not self.look(g):
            self[g] = d
        return Inner(self, g)


class Inner:
    pyvc_ok = True
    __hash__ = None

    def __init__(self, out, g):
        self.out, self.g = out, g

    def subst_(self, ps):
        return Inner(self.out, Q.subst(self.g, ps))

    def terms_(self):
        yield self.g.t.t if isinstance(self.g, SName) else z3.IntVal(0)

    def __setitem__(self, key, d):
        if not isinstance(d, dict) or getattr(d, "sym", None) is not None:
            raise Unsupported("the channels of a gate")
        key = key if isinstance(key, tuple) else (key,)
        emit(self.out.c, self.out.log, (
            self.g, key, tuple(sorted(d)), tuple(d[k] for k in sorted(d))))


def gate_case(title, channels):
    @case(f"errors of gates: {title}", timeout=75)
    def go(c):
        for chs in channels:
            c.scope(lambda: gate_set(c, chs))
    return go


def gate_set(c, chs):
    t, out, en = Gates(chs), GateOut(c), Enabled()
    c.contracts[er.GateErrorsDict] = lambda it, a, k: out
    for cls in (er.SinglePauliChannelErrorValueDict, er.TwoPauliChannelErrorValueDict):
        c.contracts[cls] = lambda it, a, k: it.created({**(a[0] if a else {}), **k})
    ed = object.__new__(E)
    ed.gate_errors, ed.enabled_gate_errors = t, en
    single = not isinstance(chs, str) and any(x in (X, Y, Z) for x in chs) or \
        isinstance(chs, str) and chs in (X, Y, Z)
    e = c.raises(E.gate_errors_dict.fget, ed)
    k = fresh_int("r", 0)

    def named(r, *gs):
        g = Row(t, r).gate
        return C.land(en.pyvc_contains(c.it, g), C.lor(False, *[g == x for x in gs]))
    wrong = quant("any", t.n, lambda r: named(r, "CX", "CZ")) if single else False
    if e is not None:
        c.prove(isinstance(e, KeyError) and true(wrong),
                "only one-qubit channels of two-qubit gates are rejected")
        return
    c.prove(lnot(wrong), "one-qubit channels of two-qubit gates are rejected")
    if c.result is not out:
        raise Unsupported("another dictionary of gate errors")
    names = [chs] if isinstance(chs, str) else chs
    low = sorted((x.lower(), i) for i, x in enumerate(names))
    keys = tuple(x for x, _ in low)

    def put(row, key):
        return (row.gate, key, keys, tuple(row.probs[i] for _, i in low))

    def per_row(r):
        row = Row(t, r)
        one = [Each(t.width(r), lambda j: [put(row, (t.on(r, j),))])]
        two = [Each(t.width(r) // 2, lambda j: [
            put(row, (t.on(r, 2 * j), t.on(r, 2 * j + 1)))])]
        return [Q.IfE(named(r, "H", "M", "R"), one, [
            Q.IfE(named(r, "CX", "CZ"), two if not single else [], [])])]
    c.emissions(list(out.log), [Each(t.n, per_row)], "the entries of every row, in order")


gates_one = gate_case("one-qubit channels", ["X", ["Y"], ["Z", "X"], ["X", "Y", "Z"]])
gates_two = gate_case("two-qubit channels", [
    "XZ", ["IY"], ["ZZ", "XI"], ["yx", "XX", "IZ"], [x.upper() for x in TWO]])


# ------------------------------------------------------------------ together
@case("all errors")
def together(c):
    for gs in ((), ("H",), ("CX", "M", "CZ"), ("foo",), ("H", "pauli")):
        for qs in ((), ("pauli",), ("measurement", "erasure"), ("bar",), ("pauli", "H")):
            for eg in (set(), {"H"}):
                for eq_ in (set(), {"X", "erasure"}):
                    def at():
                        gd = {g: Token(g) for g in gs}
                        qd = {q: Token(q) for q in qs}
                        c.contracts[E.gate_errors_dict.fget] = lambda it, a, k: gd
                        c.contracts[E.qubit_errors_dict.fget] = lambda it, a, k: qd
                        ed = object.__new__(E)
                        ed.enabled_gate_errors, ed.enabled_qubit_errors = set(eg), set(eq_)
                        e = c.raises(E.error_data_dict.fget, ed)
                        bad = eg and set(gs) - {"CX", "CZ", "H", "M", "R"} or \
                            eq_ and set(qs) - {"pauli", "erasure", "measurement"}
                        if bad:
                            return c.prove(isinstance(e, KeyError), "unknown names")
                        want = {**(gd if eg else {}), **(qd if eq_ else {})}
                        c.prove(e is None and set(c.result) == set(want) and all(
                            c.result[x] is want[x] for x in want),
                            "exactly the enabled errors")
                    c.scope(at)


# ------------------------------------------------------------------- updates
class At:
    pyvc_ok = True

    def __init__(self, t):
        self.t = t

    def __setitem__(self, key, v):
        i, name = key
        emit(self.t.c, self.t.log, ("put", self.t.code(name), i, v))


class Column:
    pyvc_ok = True

    def __init__(self, t, name):
        self.t, self.name = t, name

    def fillna(self, v, inplace=False):
        if inplace:
            self.t.log.append(("fill", self.t.code(self.name), v))
            return None
        return FilledUp(self, v)


class FilledUp:
    pyvc_ok = True

    def __init__(self, col, v):
        self.col, self.v = col, v


class Table:
    """A table whose columns are any; what is written into it, in order."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, c):
        self.c, self.log, self.f = c, [], C.fun_bool("column", 1)
        self.columns, self.at = self, At(self)
        self.loc = self.at

    def code(self, name):
        if isinstance(name, str):
            return SInt(z3.IntVal(SName.code(name)))
        if not isinstance(name, SName):
            raise Unsupported("a column which is no name")
        return name.t

    def pyvc_contains(self, it, x):
        return self.f(self.code(x))

    def __getitem__(self, name):
        return Column(self, name)

    def __setitem__(self, name, v):
        if isinstance(v, FilledUp) and v.col.t is self and v.col.name is name:
            self.log.append(("fill", self.code(name), v.v))
        elif v is None:
            self.log.append(("new", self.code(name)))
        else:
            raise Unsupported("a whole column")


class Growing:
    """A set which is added to."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self):
        self.new = []

    def add(self, x):
        self.new.append(x)


def numbers(kind, n, f):
    xs = SSeq(n, lambda k: f(k))
    return xs if kind == "list" else SArr.of(lambda k: f(k), (n,), "f")


@case("adding an error")
def add_qubit(c):
    for kind in ("list", "array"):
        def at():
            n, t, en = fresh_int("n", 0), Table(c), Growing()
            ids, ps = C.fun_int("id", 1), C.fun_real("p", 1)
            name = any_name("name")
            ed = object.__new__(E)
            ed.qubit_errors, ed.enabled_qubit_errors = t, en
            e = c.raises(E.add_qubit_error, ed, SSeq(n, lambda k: ids(k)), name,
                         numbers(kind, n, ps))
            bad = C.lor(name == "fabrication", t.f(name.t))
            if e is not None:
                c.prove(true(bad) if isinstance(e, ValueError) else False,
                        "only what is there already is rejected")
                return c.prove(not t.log and not en.new, "rejected: nothing is changed")
            c.prove(lnot(bad), "what is there already is rejected")
            c.prove(len(en.new) == 1 and en.new[0] is name, "it is enabled")
            c.emissions(list(t.log), [("new", name.t), Each(n, lambda k: [
                ("put", name.t, ids(k), ps(k))]), ("fill", name.t, 0.0)],
                "a column with exactly these entries")
        c.scope(at)


@case("changing an error")
def update_qubit(c):
    def table():
        t, name = Table(c), any_name("name")
        ed = object.__new__(E)
        ed.qubit_errors, ed.enabled_qubit_errors = t, Growing()
        return t, name, ed, C.lor(name == "fabrication", lnot(t.f(name.t)))

    def one():
        t, name, ed, bad = table()
        i, p = fresh_int("i"), C.fresh_real("p")
        done(c.raises(E.update_qubit_error, ed, i, name, p), t, name, ed, bad,
             [("put", name.t, i, p)])

    def done(e, t, name, ed, bad, want):
        if e is not None:
            c.prove(true(bad) if isinstance(e, (ValueError, TypeError)) else False,
                    "only wrong updates are rejected")
            return c.prove(not t.log, "rejected: nothing is changed")
        c.prove(lnot(bad), "wrong updates are rejected")
        c.emissions(list(t.log), want, "exactly these entries")

    def many(kind):
        t, name, ed, bad = table()
        n, m = fresh_int("n", 0), fresh_int("m", 0)
        ids, ps = C.fun_int("id", 1), C.fun_real("p", 1)
        done(c.raises(E.update_qubit_error, ed, SSeq(n, lambda k: ids(k)), name,
                      numbers(kind, m, ps)), t, name, ed,
             C.lor(bad, lnot(SBool(eq(n, m)))),
             [Each(n, lambda k: [("put", name.t, ids(k), ps(k))])])

    def mixed(first):
        t, name, ed, bad = table()
        n = fresh_int("n", 0)
        ids, ps = C.fun_int("id", 1), C.fun_real("p", 1)
        xs = (fresh_int("i"), SSeq(n, lambda k: ps(k))) if first else (
            SSeq(n, lambda k: ids(k)), C.fresh_real("p"))
        e = c.raises(E.update_qubit_error, ed, xs[0], name, xs[1])
        c.prove(isinstance(e, (TypeError, ValueError)), "a list and a number")
        c.prove(not t.log, "rejected: nothing is changed")
    c.scope(one)
    for kind in ("list", "array"):
        c.scope(lambda: many(kind))
    for first in (True, False):
        c.scope(lambda: mixed(first))


class Frame:
    pyvc_ok = True
    __hash__ = None

    def __init__(self, rows):
        self.rows = rows

    def to_frame(self):
        return self

    @property
    def T(self):
        return Frame([(n, "row" if k == "column" else "column") for n, k in self.rows])

    @property
    def columns(self):
        raise Unsupported("the columns of a table")


@case("adding a gate error")
def add_gate(c):
    from pandas import concat
    old = Token("the table")
    args = [any_name("gate"), Token("qubits"), Token("channels"), Token("probs")]

    def series(it, a, k):
        return Frame([(a[0] if a else k["data"], "column")])

    def frame(it, a, k):
        d = a[0] if a else k.get("data")
        if isinstance(d, list) and all(isinstance(x, dict) for x in d) and not (
                set(k) - {"data"}):
            return Frame([(x, "row") for x in d])
        raise Unsupported("a table made otherwise")

    def joined(it, a, k):
        xs = a[0] if a else k.pop("objs")
        if set(k) - {"ignore_index"}:
            raise Unsupported("a special way to join tables")
        rows = []
        for x in xs:
            rows += x.rows if isinstance(x, Frame) else [x]
        return Frame(rows)
    c.contracts[pd.Series], c.contracts[pd.DataFrame] = series, frame
    c.contracts[concat] = joined
    for kw in (False, True):
        def at():
            ed, en = object.__new__(E), Growing()
            ed.gate_errors, ed.enabled_gate_errors = old, en
            if kw:
                c.run(E.add_gate_error, ed, probs=args[3], on_qubits=args[1],
                      gate_name=args[0], error_names=args[2])
            else:
                c.run(E.add_gate_error, ed, *args)
            c.prove(len(en.new) == 1 and en.new[0] is args[0], "it is enabled")
            rows = ed.gate_errors.rows
            c.prove(len(rows) == 2 and rows[0] is old, "the rows before are kept")
            d, k = rows[-1]
            c.prove(k == "row" and set(d) == {"gate", "on_qubits", "induced_errors",
                                              "probs"} and all(
                d[n] is v for n, v in zip(("gate", "on_qubits", "induced_errors",
                                           "probs"), args)), "one more row, as given")
        c.scope(at)
