"""Building the decoding graph: the lists of vertices and edges are logs whose every
append proves that this is the item which belongs at that place."""
import numpy as np
import z3
from plaquette import syngraph as sg

from contracts.common import (C, SArr, SBool, SInt, Unsupported, cur, eq, fresh_array,
                              fresh_int)
from pyvc.arr import stack
from pyvc.interp import Inv


class Item:
    """A vertex or edge which was made: the arguments it was given."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, cls, kw):
        self.cls, self.kw = cls, kw

    def pyvc_isinstance(self, cls):
        return issubclass(self.cls, cls)


class Ref:
    """The vertex of that round and stabiliser."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, t, i):
        self.t, self.i = t, i


class Log:
    """A list that grows; `belongs(place, item)` proves the item right."""

    pyvc_ok = True
    __hash__ = None
    inside = 0                     # loops around whose invariant is known

    def __init__(self, n, belongs):
        self.n, self.belongs = n, belongs

    def append(self, v):
        self.belongs(self.n, v)
        self.n = self.n + 1

    def pyvc_len(self):
        return self.n

    def pyvc_carried(self, when, v):
        raise Unsupported("a list extended in an unforeseen loop")


class Row:
    pyvc_ok = True
    __hash__ = None

    def __init__(self, rows):
        self.rows = rows

    def append(self, v):
        r = self.rows
        r.belongs(r.n - 1, r.last, v)
        r.last = r.last + 1

    def pyvc_len(self):
        return self.rows.last


class Rows:
    """A list of lists: all but the last are complete."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, width, belongs):
        self.n, self.last, self.width, self.belongs = 0, width, width, belongs

    def append(self, v):
        if not isinstance(v, list) or v:
            raise Unsupported("a row with contents")
        cur().prove(SBool(C.eq(self.last, self.width)), f"{self.name}: rows are complete")
        self.n, self.last = self.n + 1, 0

    def __getitem__(self, i):
        if isinstance(i, int) and i == -1:
            return Row(self)
        raise Unsupported("this row")

    def pyvc_len(self):
        return self.n


class Vertices:
    """Rows of vertices that are complete."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, w):
        self.w = w

    def __getitem__(self, t):
        w, s = self.w, cur()
        s.prove(C.land(t >= 0, t < w.R), f"{w.name}: rounds which exist")
        return VertexRow(w, t)


class VertexRow:
    pyvc_ok = True
    __hash__ = None

    def __init__(self, w, t):
        self.w, self.t = w, t

    def __getitem__(self, i):
        cur().prove(C.land(i >= 0, i < self.w.m), f"{self.w.name}: stabilisers which exist")
        return Ref(self.t, i)


class Grow(Inv):
    """Every iteration adds so many."""
    vars = ()

    def __init__(self, what, vals, fact=None):
        self.name, self.vals, self.start = what, vals, None
        self.fact = fact or (lambda k: SBool(z3.BoolVal(True)))

    def check(self, it, env, k, name):
        cur().prove(self.fact(k), f"{name}: rejected otherwise")
        if self.start is None:
            self.start = [(o, a, getattr(o, a), per) for o, a, per in self.vals]
            return
        for o, a, v, per in self.start:
            cur().prove(SBool(C.eq(getattr(o, a), per(v, k))), f"{name}: {a}")

    def havoc(self, it, env, k):
        for o, a, v, per in self.start:
            setattr(o, a, per(v, k))
        cur().assume(self.fact(k))


class Build:
    """A code with n qubits and m stabilisers, R rounds."""

    def __init__(self, c):
        self.name = c.name
        self.R, self.n, self.m = fresh_int("rounds", 1), fresh_int("n", 1), fresh_int("m", 1)
        self.comm = C.fun_bool("anticommutes", 2)
        self.g = sg.SyndromeGraph.__new__(sg.SyndromeGraph)
        self.g.n_rounds, self.g.n_qubits, self.g.n_stabgens = self.R, self.n, self.m
        self.g.error_ops = C_ops(self.n)
        for cls in (sg.Vertex, sg.QubitErrorEdge, sg.StabilizerErrorEdge):
            c.contracts[cls] = lambda it, a, k, cls=cls: self.make(cls, a, k)
        c.contracts[np.where] = c.contracts[np.nonzero] = lambda it, a, k: (where(*a, **k),)
        c.contracts[np.flatnonzero] = lambda it, a, k: where(*a, **k)

    def make(self, cls, a, k):
        if a:
            raise Unsupported(f"positional arguments of {cls.__name__}")
        return Item(cls, k)

    def fields(self, v, cls, names):
        if not isinstance(v, Item) or v.cls is not cls:
            raise Unsupported("another item")
        if set(v.kw) != set(names):
            raise Unsupported(f"attributes {sorted(v.kw)}")
        return [v.kw[n] for n in names]


def C_ops(n):
    """The list of single-qubit errors: number j has its one bit at j."""
    from pyvc.seq import SSeq
    return SSeq(2 * n, lambda j: SArr.of(
        lambda i: C.cast(SBool(C.eq(i, j)), "u1"), (2 * n + 1,), "u1"))


def where(x):
    """The places of an array of bits which are set, in order: none, one, two or more."""
    s = cur()
    if not isinstance(x, SArr) or x.ndim != 1:
        raise Unsupported("where of this")
    n = x.shape[0]
    out = []

    def hit(i):
        return C.land(i >= 0, i < n, C.asbool(x.at(i)))
    for _ in range(3):
        last = out[-1] if out else -1
        f = fresh_int("hit", 0)
        k = fresh_int("q")
        some = C.land(hit(f), f > last)
        none = SBool(z3.ForAll([k.t], z3.Implies(C.boolterm(C.land(
            k > last, k >= 0, k < n)), z3.Not(C.boolterm(hit(k))))))
        first = SBool(z3.ForAll([k.t], z3.Implies(C.boolterm(C.land(
            k > last, k >= 0, k < f)), z3.Not(C.boolterm(hit(k))))))
        more = C.fresh_bool("more")
        if bool(more):
            s.assume(some)
            s.assume(first)
            out.append(f)
        else:
            s.assume(none)
            return stack(out, "i8")
    num = fresh_int("hits", 3)
    more = C.fun_int("hit", 1, 0)
    return SArr.of(lambda i: more(i), (num,), "i8")
