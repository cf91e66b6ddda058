"""A lattice as a map of links, for the methods which edit it through add_edge,
remove_edge and remove_vertex (their contracts are P08's): F(op, qubit) is the factor of
the link between them, 0 if there is none."""
import z3
from plaquette.codes import latticebase as lb

from contracts.common import C, SBool, SInt, Unsupported, cur, fresh_int
from pyvc import seq as Q
from pyvc.core import intterm
from pyvc.interp import Inv

I = z3.IntSort()
STAB, LOGICAL = 1, 2


def ref(tag):
    return z3.Int(cur().name_for(tag))


class Obj:
    pyvc_ok = True
    __hash__ = None

    def __init__(self, m, t):
        self.m, self.t = m, t

    def subst_(self, pairs):
        return type(self)(self.m, Q.zsubst(self.t, pairs))

    def terms_(self):
        yield self.t

    def pyvc_is(self, o):
        return SBool(self.t == o.t) if type(o) is type(self) else False

    def __eq__(self, o):
        return self.pyvc_is(o)

    def __ne__(self, o):
        r = self.pyvc_is(o)
        return (not r) if isinstance(r, bool) else ~r

    def __getattr__(self, name):
        if name.startswith("pyvc_") or name.endswith("_"):
            raise AttributeError(name)
        raise Unsupported(f"{name} of a {type(self).__name__}")


class Op(Obj):
    def pyvc_isinstance(self, cls):
        cs = cls if isinstance(cls, tuple) else (cls,)
        ks = [k for c, k in ((lb.StabGenVertex, STAB), (lb.LogicalVertex, LOGICAL))
              if any(issubclass(c, x) for x in cs)]
        return bool(SBool(z3.Or([self.m.kind(self.t) == k for k in ks])))

    @property
    def edges(self):
        return self.m.edges_of(self.t)

    @property
    def neighbours(self):
        return Near(self.m, Qb, lambda q: self.m.F(self.t, q))


class Qb(Obj):
    def pyvc_isinstance(self, cls):
        return issubclass(lb.DataVertex, cls)

    @property
    def neighbours(self):
        return Near(self.m, Op, lambda o: self.m.F(o, self.t))

    @property
    def edges(self):
        if self.m.qubit_edges is None:
            raise Unsupported("the links of a data qubit")
        return list(self.m.qubit_edges)


class Near:
    pyvc_ok = True
    __hash__ = None

    def __init__(self, m, cls, f):
        self.m, self.cls, self.f = m, cls, f

    def pyvc_contains(self, it, x):
        if not isinstance(x, self.cls):
            raise Unsupported("something else among the neighbours")
        return SBool(self.f(x.t) != 0)


class Link:
    """A link as it was when it was read from the lattice."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, m, o, q, f):
        self.m, self.o, self.q, self.f = m, o, q, f

    def subst_(self, pairs):
        return Link(self.m, *[Q.zsubst(x, pairs) for x in (self.o, self.q, self.f)])

    def terms_(self):
        yield from (self.o, self.q, self.f)

    def pyvc_isinstance(self, cls):
        return issubclass(lb.Edge, cls)

    @property
    def op(self):
        return Op(self.m, self.o)

    @property
    def data(self):
        return Qb(self.m, self.q)

    @property
    def factor(self):
        if z3.is_int_value(self.f):
            return lb.Pauli(self.f.as_long())
        return SInt(self.f)

    def __getattr__(self, name):
        if name.startswith("pyvc_") or name.endswith("_"):
            raise AttributeError(name)
        raise Unsupported(f"{name} of a link")


class Live:
    """Reads the list of links of an op, which must not change meanwhile."""

    def __init__(self, f, owner):
        self.f, self.owner = f, owner

    def __call__(self, k):
        return self.f(k)


class Map:
    qubit_edges = None

    def __init__(self, c):
        s = cur()
        self.c = c
        F = z3.Function(s.name_for("F"), I, I, I)
        K = z3.Function(s.name_for("kind"), I, I)
        A = z3.Function(s.name_for("alive"), I, z3.BoolSort())
        self.F0, self.kind = F, lambda o: K(o)
        self.F, self.alive = (lambda o, q: F(o, q)), (lambda o: A(o))
        self.live_q = lambda q: z3.BoolVal(True)
        o, q = z3.Ints("o! q!")
        s.assume(SBool(z3.ForAll([o, q], z3.And(F(o, q) >= 0, F(o, q) <= 3),
                                 patterns=[F(o, q)])))
        s.assume(SBool(z3.ForAll([o], z3.Or(K(o) == STAB, K(o) == LOGICAL),
                                 patterns=[K(o)])))
        self.iterating = []
        k = c.contracts
        k[lb.CodeLattice.add_edge] = self.add_edge
        k[lb.CodeLattice.remove_edge] = self.remove_edge
        k[lb.CodeLattice.remove_vertex] = self.remove_vertex
        self.first = {}

    # -- contracts of the edits
    def changed(self, o):
        if cur().rec:
            raise Unsupported("an edit of the graph in a loop")
        for w in self.iterating:
            if not cur().entails(SBool(w != o)):
                raise Unsupported("links of a vertex change while it is iterated")

    def put(self, o, q, f):
        old = self.F
        self.F = lambda a, b: z3.If(z3.And(a == o, b == q), f, old(a, b))

    def add_edge(self, it, a, k):
        from contracts import layout
        a, k = layout.bound(lb.CodeLattice.add_edge, a, k)
        d, o, f = a[1:]
        if not isinstance(d, Qb) or not isinstance(o, Op):
            raise Unsupported("a link between other things")
        self.changed(o.t)
        if bool(SBool(self.F(o.t, d.t) != 0)):
            C.raise_(AssertionError, "linked already")
        self.put(o.t, d.t, z3.IntVal(f.value) if isinstance(f, lb.Pauli)
                 else intterm(f))

    def remove_edge(self, it, a, k):
        from contracts import layout
        a, k = layout.bound(lb.CodeLattice.remove_edge, a, k)
        e = a[1]
        if not isinstance(e, Link):
            raise Unsupported("removal of something else")
        self.changed(e.o)
        if bool(SBool(self.F(e.o, e.q) == 0)):
            C.raise_(AssertionError, "not in the lattice")
        self.put(e.o, e.q, z3.IntVal(0))

    def remove_vertex(self, it, a, k):
        from contracts import layout
        a, k = layout.bound(lb.CodeLattice.remove_vertex, a, k)
        v = a[1]
        if cur().rec:
            raise Unsupported("an edit of the graph in a loop")
        if isinstance(v, Op):
            if bool(SBool(z3.Not(self.alive(v.t)))):
                C.raise_(AssertionError, "not in the lattice")
            if bool(self.linked(v.t)):
                C.raise_(ValueError, "Cannot remove vertex with neighbours")
            old = self.alive
            self.alive = lambda o: z3.And(o != v.t, old(o))
        elif isinstance(v, Qb):
            o = z3.Int("o!l")
            if bool(SBool(z3.Exists([o], z3.And(self.alive(o), self.F(o, v.t) != 0)))):
                C.raise_(ValueError, "Cannot remove vertex with neighbours")
            old = self.live_q
            self.live_q = lambda q: z3.And(q != v.t, old(q))
        else:
            raise Unsupported("removal of something else")

    def linked(self, o):
        q = z3.Int("q!l")
        return SBool(z3.Exists([q], self.F(o, q) != 0))

    # -- the links of an op, in some order
    def listing(self, o):
        """Number of links, the qubit of the j-th, and the place of a qubit."""
        for w, F, l in self.first.values():
            if F is self.F and w.eq(o):
                return l
        s = cur()
        d, i = z3.Int(s.name_for("deg")), z3.Function(s.name_for("qubit"), I, I)
        p = z3.Function(s.name_for("place"), I, I)
        F = self.F
        j, q = z3.Ints("j! q!")
        s.assume(SBool(d >= 0))
        s.assume(SBool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < d), z3.And(
            F(o, i(j)) != 0, p(i(j)) == j)), patterns=[i(j)])))
        s.assume(SBool(z3.ForAll([q], z3.Implies(F(o, q) != 0, z3.And(
            p(q) >= 0, p(q) < d, i(p(q)) == q)), patterns=[p(q)])))
        self.first[len(self.first)] = (o, F, (d, i, p))
        return d, i, p

    def edges_of(self, o):
        d, i, _ = self.listing(o)
        F = self.F

        def at(k):
            q = i(intterm(k))
            return Link(self, o, q, F(o, q))
        r = Q.SSeq(SInt(d), Live(at, o))
        r.copied = at
        r.owner = o
        return r


def prod(a, b):
    """Product of the same factor or nothing (up to phase)."""
    return z3.If(a == 0, b, z3.If(b == 0, a, z3.If(a == b, 0, 6 - a - b)))


class Edited(Inv):
    """After k links of an op have been processed: F is what it was, except where the
    links before the k-th went; there it is after(o, q)."""
    vars = ()

    def __init__(self, m, at, owner, place, after):
        self.name = "links"
        self.m, self.F, self.place, self.after = m, m.F, place, after
        self.alive = m.alive
        self.owner = owner if isinstance(at, Live) else None

    def value(self, k):
        F, p = self.F, self.place
        return lambda o, q: z3.If(z3.And(F(self.src, q) != 0, p(q) < intterm(k)),
                                  self.after(F, o, q), F(o, q))

    def check(self, it, env, k, name):
        o, q = ref("o"), ref("q")
        want = self.value(k) if not isinstance(k, int) else self.F
        s = cur()
        s.prove(SBool(self.m.F(o, q) == want(o, q)), name + ": links")
        s.prove(SBool(self.m.alive(o) == self.alive(o)), name + ": vertices")
        if self.owner is not None and self.phase == "body":
            self.m.iterating.pop()

    phase = "entry"

    def havoc(self, it, env, k):
        self.m.F = self.value(k)
        self.m.alive = self.alive
        if self.owner is not None and self.phase == "body":
            self.m.iterating.append(self.owner)
