"""Connected components: the search marks exactly what can be reached.

Vertices are numbers; the component of each is an array (-1: none).  What a vertex is
linked to by enabled edges is any symmetric relation, listed in any order.  Enabled edges
are numbers with their own components."""
import z3
from plaquette import syngraph as sg

from contracts.common import C, SBool, SInt, Unsupported, cur, eq, fresh_int
from pyvc.interp import Inv
from pyvc.seq import SSeq

I = z3.IntSort()
sel = z3.Select


class V:
    """A vertex."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, w, v):
        object.__setattr__(self, "w", w)
        object.__setattr__(self, "v", v if z3.is_expr(v) else C.intterm(v))

    def pyvc_isinstance(self, cls):
        return cls is sg.Vertex

    def pyvc_is(self, o):
        return SBool(self.v == o.v) if isinstance(o, V) else False

    def __getattr__(self, name):
        if name.startswith("pyvc_") or name.endswith("_"):
            raise AttributeError(name)
        w = self.w
        if name == "connected_component_idx":
            c = sel(w.comp, self.v)
            return None if bool(SBool(c == -1)) else SInt(c)
        if name == "neighbours":
            w.at = self.v
            return SSeq(SInt(w.deg(self.v)), lambda i: V(w, w.nb(self.v, C.intterm(i))))
        raise Unsupported(f"{name} of a vertex")

    def set_connected_component(self, comp_idx):
        self.w.mark(self.v, comp_idx)

    def __setattr__(self, name, val):
        raise Unsupported(f"setting {name} of a vertex")


class Todo:
    """A list of vertices to visit: how often each is in it."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, w, cnt, size):
        self.w, self.cnt, self.size = w, cnt, size

    def pyvc_len(self):
        return self.size

    def __bool__(self):
        return bool(SBool(C.intterm(self.size) > 0))

    def append(self, v):
        if not isinstance(v, V):
            raise Unsupported("not a vertex")
        self.cnt = z3.Store(self.cnt, v.v, sel(self.cnt, v.v) + 1)
        self.size = self.size + 1

    def pop(self, i=-1):
        if i not in (-1, 0):
            raise Unsupported("pop in the middle")
        s = cur()
        if not bool(self):
            C.raise_(IndexError, "pop from empty list")
        v = fresh_int("v").t
        s.assume(SBool(sel(self.cnt, v) > 0))
        self.cnt = z3.Store(self.cnt, v, sel(self.cnt, v) - 1)
        self.size = self.size - 1
        return V(self.w, v)


class World:
    def __init__(self, c):
        s = cur()
        self.c = c
        self.nv = fresh_int("vertices", 1)
        self.old = z3.Const("component before", z3.ArraySort(I, I))
        self.comp = self.old
        self.deg = z3.Function("degree", I, I)
        self.nb = z3.Function("neighbour", I, I, I)
        self.back = z3.Function("back", I, I, I)
        self.reach = z3.Function("reachable", I, z3.BoolSort())
        self.start, self.idx = fresh_int("start", 0, self.nv).t, fresh_int("comp_idx", 0).t
        v, i = z3.Ints("v! i!")
        n = self.nv.t
        inn = z3.And(v >= 0, v < n, i >= 0, i < self.deg(v))
        u = self.nb(v, i)
        s.assume(SBool(z3.ForAll([v], self.deg(v) >= 0, patterns=[self.deg(v)])))
        s.assume(SBool(z3.ForAll([v, i], z3.Implies(inn, z3.And(
            u >= 0, u < n, self.back(v, i) >= 0, self.back(v, i) < self.deg(u),
            self.nb(u, self.back(v, i)) == v)), patterns=[u])))
        # earlier components are closed and have other numbers
        old = self.old
        s.assume(SBool(z3.ForAll([v], z3.And(sel(old, v) >= -1, sel(old, v) != self.idx),
                                 patterns=[sel(old, v)])))
        s.assume(SBool(z3.ForAll([v, i], z3.Implies(z3.And(
            inn, sel(old, v) != -1), sel(old, u) == sel(old, v)), patterns=[u])))
        s.assume(SBool(sel(old, self.start) == -1))
        s.assume(SBool(self.reach(self.start)))
        s.assume(SBool(z3.ForAll([v, i], z3.Implies(z3.And(inn, self.reach(v)),
                                                    self.reach(u)), patterns=[u])))

    def mark(self, v, comp_idx):
        """Contract of Vertex.set_connected_component."""
        s = cur()
        s.prove(SBool(sel(self.comp, v) == -1),
                f"{self.c.name}: a vertex gets one component")
        self.comp = z3.Store(self.comp, v, C.intterm(comp_idx))

    def frame(self):
        """All but the vertices of the new component are as before; those are reachable."""
        v = z3.Int("v!")
        a, o = sel(self.comp, v), sel(self.old, v)
        n = self.nv.t
        return z3.ForAll([v], z3.Or(a == o, z3.And(
            o == -1, a == self.idx, v >= 0, v < n, self.reach(v))), patterns=[a])

    def waiting(self, cnt):
        v = z3.Int("v!")
        a = sel(cnt, v)
        return z3.ForAll([v], z3.And(a >= 0, z3.Implies(
            a > 0, z3.And(v >= 0, v < self.nv.t, sel(self.comp, v) == self.idx))),
            patterns=[a])

    def closed(self, cnt=None, but=None):
        """Neighbours of marked vertices that are not waiting are marked."""
        v, i = z3.Ints("v! i!")
        c = [v >= 0, v < self.nv.t, i >= 0, i < self.deg(v), sel(self.comp, v) == self.idx]
        if cnt is not None:
            c.append(sel(cnt, v) == 0)
        if but is not None:
            c.append(v != but)
        return z3.ForAll([v, i], z3.Implies(
            z3.And(*c), sel(self.comp, self.nb(v, i)) == self.idx),
            patterns=[self.nb(v, i)])

    def prove(self, cond, name):
        cur().prove(SBool(cond), name)


class Search(Inv):
    """While vertices wait."""
    name = "the search"
    vars = ("todo",)

    def __init__(self, w):
        self.w = w
        w.outer = self

    def todo(self, env):
        got = [(n, v) for n, v in env.vars.items() if isinstance(v, Todo)
               or isinstance(v, list) and all(isinstance(x, V) for x in v)]
        if len(got) != 1:
            raise Unsupported("which list is waiting")
        n, v = got[0]
        self.vars = (n,)
        if isinstance(v, list):
            t = Todo(self.w, z3.K(I, z3.IntVal(0)), 0)
            for x in v:
                t.append(x)
            v = env.vars[n] = t
        return v

    def check(self, it, env, name):
        w, t = self.w, self.todo(env)
        w.prove(sel(w.comp, w.start) == w.idx, name + ": starts there")
        w.prove(w.frame(), name + ": marks what can be reached, nothing else changes")
        w.prove(w.waiting(t.cnt), name + ": waiting vertices are marked")
        w.prove(w.closed(t.cnt), name + ": neighbours are marked")
        w.prove(C.intterm(t.size) >= 0, name + ": size")

    def havoc(self, it, env):
        s, w = cur(), self.w
        t = self.todo(env)
        w.comp = z3.Const(s.name_for("component"), z3.ArraySort(I, I))
        t.cnt = z3.Const(s.name_for("waiting"), z3.ArraySort(I, I))
        t.size = fresh_int("size", 0)
        v = z3.Int("v!")
        a = sel(t.cnt, v)
        s.assume(SBool(z3.Or(t.size.t > 0, z3.ForAll([v], a == 0, patterns=[a]))))
        for f in (sel(w.comp, w.start) == w.idx, w.frame(), w.waiting(t.cnt),
                  w.closed(t.cnt)):
            s.assume(SBool(f))
        self.now = t


class Around(Inv):
    """Over the neighbours of one vertex."""
    name = "its neighbours"
    vars = ()

    def __init__(self, w, v):
        self.w, self.v, self.t = w, v, w.outer.now

    def facts(self, k):
        w, t = self.w, self.t
        i = z3.Int("i!")
        u = w.nb(self.v, i)
        yield "it is marked", sel(w.comp, self.v) == w.idx
        yield "the start is marked", sel(w.comp, w.start) == w.idx
        yield "marks what can be reached", w.frame()
        yield "waiting vertices are marked", w.waiting(t.cnt)
        yield "neighbours of others are marked", w.closed(t.cnt, self.v)
        yield "neighbours so far are marked", z3.ForAll([i], z3.Implies(
            z3.And(i >= 0, i < C.intterm(k)), sel(w.comp, u) == w.idx), patterns=[u])

    def check(self, it, env, k, name):
        for what, f in self.facts(k):
            self.w.prove(f, f"{name}: {what}")

    def havoc(self, it, env, k):
        s, w, t = cur(), self.w, self.t
        w.comp = z3.Const(s.name_for("component"), z3.ArraySort(I, I))
        t.cnt = z3.Const(s.name_for("waiting"), z3.ArraySort(I, I))
        t.size = fresh_int("size", 0)
        for _, f in self.facts(k):
            s.assume(SBool(f))


def search(c):
    w = World(c)
    f = sg.SyndromeGraph._find_connected_component
    c.invariants[(f.__qualname__, 0)] = Search(w)

    def prov(it, s, env, sv):
        if getattr(w, "at", None) is not None and C.intterm(sv[0]).eq(w.deg(w.at)):
            return Around(w, w.at)
        return None
    c.provider = prov
    c.run(f, V(w, w.start), SInt(w.idx))
    w.prove(sel(w.comp, w.start) == w.idx, f"{c.name}: the vertex itself")
    w.prove(w.closed(), f"{c.name}: closed under links")
    w.prove(w.frame(), f"{c.name}: only what can be reached from it")


# ------------------------------------------------------------ all components
class Vertices:
    """The list of vertices."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, w):
        self.w = w

    def pyvc_len(self):
        return self.w.nv

    def __getitem__(self, i):
        cur().prove(C.land(i >= 0, i < self.w.nv), f"{self.w.c.name}: a vertex that exists")
        return V(self.w, i)


class Found(Inv):
    """Vertices before the next one have their components."""
    name = "components so far"
    vars = ("next_vertex_idx", "comp_idx")

    def __init__(self, w):
        self.w = w

    def facts(self, env):
        w = self.w
        nxt, num = (env.vars.get(n) for n in self.vars)
        if nxt is None or num is None:
            raise Unsupported("names of the loop")
        nxt, num = C.intterm(nxt), C.intterm(num)
        v, i = z3.Ints("v! i!")
        a = sel(w.comp, v)
        yield "the next vertex", z3.And(nxt >= 0, nxt <= w.nv.t, num >= 0)
        yield "earlier vertices have one", z3.ForAll([v], z3.Implies(z3.And(
            v >= 0, v < nxt), a != -1), patterns=[a])
        yield from w.partition(num)

    def check(self, it, env, name):
        for what, f in self.facts(env):
            self.w.prove(f, f"{name}: {what}")

    def havoc(self, it, env):
        s, w = cur(), self.w
        w.comp = z3.Const(s.name_for("component"), z3.ArraySort(I, I))
        w.root = z3.Const(s.name_for("root"), z3.ArraySort(I, I))
        for n in self.vars:
            if n not in env.vars:
                raise Unsupported("names of the loop")
            env.vars[n] = fresh_int(n)
        for _, f in self.facts(env):
            s.assume(SBool(f))


class All(World):
    """All vertices, none with a component yet."""

    def __init__(self, c):
        super().__init__(c)
        self.linked = z3.Function("linked", I, I, z3.BoolSort())
        s = cur()
        r, v, i = z3.Ints("r! v! i!")
        s.assume(SBool(z3.ForAll([r], self.linked(r, r), patterns=[self.linked(r, r)])))
        s.assume(SBool(z3.ForAll([r, v, i], z3.Implies(
            z3.And(v >= 0, v < self.nv.t, i >= 0, i < self.deg(v), self.linked(r, v)),
            self.linked(r, self.nb(v, i))),
            patterns=[z3.MultiPattern(self.linked(r, v), self.nb(v, i))])))
        self.comp = z3.K(I, z3.IntVal(-1))
        self.root = z3.K(I, z3.IntVal(-1))

    def partition(self, num):
        v, i = z3.Ints("v! i!")
        a, r = sel(self.comp, v), sel(self.root, v)
        u = self.nb(v, i)
        yield "numbers of components", z3.ForAll([v], z3.And(a >= -1, a < num),
                                                 patterns=[a])
        yield "closed under links", z3.ForAll([v, i], z3.Implies(z3.And(
            v >= 0, v < self.nv.t, i >= 0, i < self.deg(v), a != -1),
            sel(self.comp, u) == a), patterns=[u])
        yield "components have a vertex", z3.ForAll([v], z3.Implies(z3.And(
            v >= 0, v < num), z3.And(r >= 0, r < self.nv.t, sel(self.comp, r) == v)),
            patterns=[r])
        yield "components are linked", z3.ForAll([v], z3.Implies(
            a != -1, self.linked(sel(self.root, a), v)), patterns=[a])


def contract_search(w):
    """Contract of _find_connected_component."""
    def go(it, a, k):
        s = cur()
        from contracts.layout import bound
        (vertex, idx), _ = bound(sg.SyndromeGraph._find_connected_component, a, k)
        if not isinstance(vertex, V):
            raise Unsupported("not a vertex")
        st, c = vertex.v, C.intterm(idx)
        v, i = z3.Ints("v! i!")
        old, nb = w.comp, w.nb
        name = f"{w.c.name}: search"
        inn = z3.And(v >= 0, v < w.nv.t, i >= 0, i < w.deg(v))
        w.prove(z3.And(sel(old, st) == -1, st >= 0, st < w.nv.t),
                name + " from a vertex without component")
        w.prove(z3.ForAll([v], z3.And(sel(old, v) != c, sel(old, v) >= -1)),
                name + " with a new number")
        w.prove(z3.ForAll([v, i], z3.Implies(z3.And(inn, sel(old, v) != -1),
                                             sel(old, nb(v, i)) == sel(old, v)),
                          patterns=[nb(v, i)]), name + " beside closed components")
        w.prove(c >= 0, name + " with a number")
        new = z3.Const(s.name_for("component"), z3.ArraySort(I, I))
        w.comp = new
        w.root = z3.Store(w.root, c, st)
        x, o = sel(new, v), sel(old, v)
        s.assume(SBool(sel(new, st) == c))
        s.assume(SBool(z3.ForAll([v], z3.Or(x == o, z3.And(
            o == -1, x == c, v >= 0, v < w.nv.t, w.linked(st, v))), patterns=[x])))
        s.assume(SBool(z3.ForAll([v, i], z3.Implies(z3.And(inn, x == c),
                                                    sel(new, nb(v, i)) == c),
                                 patterns=[nb(v, i)])))
        return None
    return go


def everything(c):
    w = All(c)
    G = sg.SyndromeGraph
    g = G.__new__(G)
    g.vertices = Vertices(w)
    v = z3.Int("v!")
    c.consistent(w.nv.t == 1, z3.ForAll([v], w.deg(v) == 0, patterns=[w.deg(v)]))
    done = []
    c.contracts[G._find_connected_component] = contract_search(w)

    def objects(it, a, k):
        from contracts.layout import bound
        (_, num), _ = bound(G._init_components_objects, a, k)
        done.append(num)
    c.contracts[G._init_components_objects] = objects
    c.invariants[(G._init_conn_components.__qualname__, 0)] = Found(w)
    c.run(G._init_conn_components, g)
    if len(done) != 1:
        raise Unsupported("how the components are made")
    v = z3.Int("v!")
    a = sel(w.comp, v)
    w.prove(z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < w.nv.t), a != -1), patterns=[a]),
            f"{c.name}: every vertex has one")
    for what, f in w.partition(C.intterm(done[0])):
        w.prove(f, f"{c.name}: {what}")


# ------------------------------------------------------------ edges of a vertex
class E:
    """An edge."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, w, e):
        object.__setattr__(self, "w", w)
        object.__setattr__(self, "e", e)

    def set_connected_component(self, comp_idx):
        w = self.w
        w.prove(sel(w.ecomp, self.e) == -1, f"{w.c.name}: an edge gets one component")
        w.ecomp = z3.Store(w.ecomp, self.e, C.intterm(comp_idx))

    def __getattr__(self, name):
        if name.startswith("pyvc_") or name.endswith("_"):
            raise AttributeError(name)
        if name == "connected_component_idx":
            c = sel(self.w.ecomp, self.e)
            return None if bool(SBool(c == -1)) else SInt(c)
        raise Unsupported(f"{name} of an edge")

    def __setattr__(self, name, val):
        raise Unsupported(f"setting {name} of an edge")


class EdgesOf(Inv):
    name = "edges so far"
    vars = ()

    def __init__(self, w):
        self.w = w

    def facts(self, k):
        w, k = self.w, C.intterm(k)
        i, e = z3.Ints("i! e!")
        x, o, j = sel(w.ecomp, e), sel(w.eold, e), w.place(e)
        yield "they have the component", z3.ForAll([i], z3.Implies(
            z3.And(i >= 0, i < k), sel(w.ecomp, w.ed(i)) == w.idx.t), patterns=[w.ed(i)])
        yield "no others change", z3.ForAll([e], z3.Or(x == o, z3.And(
            o == -1, x == w.idx.t, j >= 0, j < w.num.t, w.ed(j) == e)), patterns=[x])

    def check(self, it, env, k, name):
        for what, f in self.facts(k):
            self.w.prove(f, f"{name}: {what}")

    def havoc(self, it, env, k):
        s, w = cur(), self.w
        w.ecomp = z3.Const(s.name_for("edge component"), z3.ArraySort(I, I))
        for _, f in self.facts(k):
            s.assume(SBool(f))


def edges_of_vertex(c):
    s = cur()
    w = World.__new__(World)
    w.c = c
    w.num, w.idx = fresh_int("edges", 0), fresh_int("comp_idx", 0)
    w.ed, w.place = z3.Function("edge", I, I), z3.Function("place", I, I)
    w.eold = w.ecomp = z3.Const("edge component before", z3.ArraySort(I, I))
    i = z3.Int("i!")
    s.assume(SBool(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < w.num.t), z3.And(
        w.place(w.ed(i)) >= 0, w.place(w.ed(i)) < w.num.t, w.ed(w.place(w.ed(i))) == w.ed(i),
        z3.Or(sel(w.eold, w.ed(i)) == -1, sel(w.eold, w.ed(i)) == w.idx.t))),
        patterns=[w.ed(i)])))
    v = sg.Vertex.__new__(sg.Vertex)
    v.connected_component_idx = None
    c.contracts[sg.Vertex.edges.fget] = lambda it, a, k: SSeq(
        w.num, lambda i: E(w, w.ed(C.intterm(i))))
    c.provider = lambda it, s, env, sv: \
        EdgesOf(w) if C.intterm(sv[0]).eq(w.num.t) else None
    c.run(sg.Vertex.set_connected_component, v, w.idx)
    c.prove(SBool(C.eq(v.connected_component_idx, w.idx)), "the vertex")
    k = fresh_int("k", 0, w.num)
    w.prove(sel(w.ecomp, w.ed(k.t)) == w.idx.t, f"{c.name}: all its enabled edges")
    e = z3.Int("e!")
    x = sel(w.ecomp, e)
    w.prove(z3.ForAll([e], z3.Or(x == sel(w.eold, e), x == w.idx.t)),
            f"{c.name}: nothing else")
