"""A lattice graph as a heap: vertices and links are references (numbers), every list is
the multiset of what it holds, every attribute a function of the reference.

The editing methods run as they are on this heap.  Lists of references compare by
identity: the generated __eq__ of vertices compares positions first, and vertices of a
lattice have different positions; that of links compares their ends (`identity` checks
that the classes still are such dataclasses)."""
import dataclasses
import inspect
import itertools

import z3
from plaquette.codes import latticebase as lb

from contracts.common import C, SBool, SInt, Unsupported, cur, eq, fresh_int
from pyvc.core import intterm

I = z3.IntSort()
KIND = {lb.DataVertex: 0, lb.StabGenVertex: 1, lb.LogicalVertex: 2}
LISTS = {"vertices": "V", "dataqubits": "D", "stabgens": "S", "logical_ops": "L",
         "equbits": "Q", "edges": "G"}
VERTEX_FIELDS = {"pos", "neighbours", "edges", "equbit_idx"}
EDGE_FIELDS = ["op", "data", "factor", "measurement_time_step"]


def b2i(c):
    return z3.If(c, z3.IntVal(1), z3.IntVal(0))


def identity():
    """== of vertices and links starts with what tells them apart."""
    for cls in KIND:
        fs = [f.name for f in dataclasses.fields(cls)]
        if not cls.__dataclass_params__.eq or "__eq__" not in vars(cls) or \
                hasattr(inspect.unwrap(cls.__eq__), "__code__") and \
                not cls.__eq__.__qualname__.endswith(f"{cls.__name__}.__eq__") or \
                fs[0] != "pos":
            raise Unsupported(f"equality of {cls.__name__}")
    if [f.name for f in dataclasses.fields(lb.Edge)][:2] != ["op", "data"]:
        raise Unsupported("equality of links")


class Pos:
    """A position in the lattice."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, t):
        self.t = t

    def pyvc_isinstance(self, cls):
        return cls is tuple

    def __eq__(self, o):
        if not isinstance(o, Pos):
            raise Unsupported("comparison of positions")
        return SBool(self.t == o.t)

    def __ne__(self, o):
        return ~(self == o)


class Ref:
    pyvc_ok = True
    __hash__ = None

    def __init__(self, heap, t):
        object.__setattr__(self, "heap", heap)
        object.__setattr__(self, "t", t)

    def subst_(self, pairs):
        return type(self)(self.heap, z3.substitute(self.t, pairs))

    def terms_(self):
        yield self.t

    def pyvc_is(self, o):
        return SBool(self.t == o.t) if type(o) is type(self) else False

    def __eq__(self, o):
        identity()
        return self.pyvc_is(o)

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, bool) else ~r

    def __getattr__(self, name):
        if name.startswith("pyvc_") or name.endswith("_"):
            raise AttributeError(name)
        return self.heap.read(self, name)

    def __setattr__(self, name, v):
        self.heap.write(self, name, v)


class Vx(Ref):
    def pyvc_isinstance(self, cls):
        cs = cls if isinstance(cls, tuple) else (cls,)
        ks = [k for c, k in KIND.items() if any(issubclass(c, x) for x in cs)]
        return bool(SBool(z3.Or([self.heap.kind(self.t) == k for k in ks])))


class Ed(Ref):
    def pyvc_isinstance(self, cls):
        return issubclass(lb.Edge, cls)


class MList:
    """A list of references: how often it holds each, and its length."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, heap, name, owner, elem):
        self.heap, self.name, self.owner, self.elem = heap, name, owner, elem

    def ref(self, x):
        if not isinstance(x, self.elem):
            raise Unsupported(f"{type(x).__name__} in a list of others")
        return x.t

    def count(self, t):
        return self.heap.count(self.name, self.owner, t)

    def pyvc_contains(self, it, x):
        identity()
        return SBool(self.count(self.ref(x)) >= 1)

    def pyvc_len(self):
        return SInt(self.heap.length(self.name, self.owner))

    def append(self, x):
        self.heap.change(self.name, self.owner, self.ref(x), 1)

    def remove(self, x):
        identity()
        t = self.ref(x)
        if not SBool(self.count(t) >= 1):
            C.raise_(ValueError, "list.remove(x): x not in list")
        self.heap.change(self.name, self.owner, t, -1)

    def pyvc_iter(self, it):
        if self.heap.iterate is None:
            raise Unsupported("iteration over a list of the graph")
        return self.heap.iterate(self, it)


class Grid:
    pyvc_ok = True
    __hash__ = None

    def __init__(self, heap):
        self.heap = heap

    @staticmethod
    def at(pos):
        if not isinstance(pos, Pos):
            raise Unsupported("a position of another kind")
        return pos.t

    def __getitem__(self, pos):
        t = self.heap.grid(self.at(pos))
        return None if SBool(t == -1) else Vx(self.heap, t)

    def __setitem__(self, pos, v):
        p = self.at(pos)
        if v is not None and not isinstance(v, Vx):
            raise Unsupported("something else in the lattice")
        t = z3.IntVal(-1) if v is None else v.t
        old = self.heap.grid
        self.heap.grid = lambda q: z3.If(q == p, t, old(q))


class Heap:
    """State of a lattice; functions of references which edits replace."""

    iterate = None
    of_interest = ()

    def __init__(self, c):
        self.c = c
        f = {n: z3.Function(cur().name_for(n), I, I) for n in
             ("V", "D", "S", "L", "Q", "G", "kind", "pos", "grid", "data", "op",
              "factor", "eqx", "lenE", "lenN")}
        g = {n: z3.Function(cur().name_for(n), I, I, I) for n in ("E", "N", "eo")}
        self.f, self.g = f, g
        self.counts = {n: (lambda o, t, n=n: f[n](t)) for n in "VDSLQG"}
        self.counts["E"] = lambda o, t: g["E"](o, t)
        self.counts["N"] = lambda o, t: g["N"](o, t)
        self.lens = {"E": lambda o: f["lenE"](o), "N": lambda o: f["lenN"](o)}
        for n in "VDSLQG":
            self.lens[n] = lambda o, k=z3.Int(cur().name_for("len" + n)): k
        for n in ("kind", "pos", "grid", "data", "op", "factor", "eqx"):
            setattr(self, n, lambda t, n=n: f[n](t))
        self.attrs = {}                   # other attributes, of new objects only
        self.made = []                    # references of objects made by the code
        self.eos = []                     # links which may join two vertices
        k = c.contracts
        for cls in KIND:
            k[cls] = self.maker(cls)
        k[lb.Edge] = self.maker(lb.Edge)

    # -- lists
    def count(self, n, o, t):
        return z3.simplify(self.counts[n](o, t))

    def length(self, n, o):
        return z3.simplify(self.lens[n](o))

    def change(self, n, o, t, d):
        if cur().rec:
            raise Unsupported("an edit of the graph in a loop")
        old, oldl = self.counts[n], self.lens[n]
        if o is None:
            self.counts[n] = lambda a, x: old(a, x) + b2i(x == t) * d
            self.lens[n] = lambda a: oldl(a) + d
        else:
            self.counts[n] = lambda a, x: old(a, x) + b2i(z3.And(a == o, x == t)) * d
            self.lens[n] = lambda a: oldl(a) + b2i(a == o) * d

    # -- attributes
    def read(self, r, name):
        if isinstance(r, Vx):
            if name == "pos":
                return Pos(self.pos(r.t))
            if name == "neighbours":
                return MList(self, "N", r.t, Vx)
            if name == "edges":
                return MList(self, "E", r.t, Ed)
            if name == "equbit_idx":
                return SInt(self.eqx(r.t))
        elif name in ("data", "op"):
            return Vx(self, getattr(self, name)(r.t))
        elif name == "factor":
            return SInt(self.factor(r.t))
        for t, vals in self.attrs.items():
            if r.t.eq(t) and name in vals:
                return vals[name]
        raise Unsupported(f"{name} of a {'vertex' if isinstance(r, Vx) else 'link'}")

    def write(self, r, name, v):
        if cur().rec:
            raise Unsupported("an edit of the graph in a loop")
        if isinstance(r, Vx) and name == "equbit_idx":
            self.set("eqx", r.t, intterm(v))
        elif isinstance(r, Ed) and name in ("data", "op") and isinstance(v, Vx):
            self.set(name, r.t, v.t)
        elif isinstance(r, Ed) and name == "factor":
            self.set(name, r.t, intterm(v))
        elif isinstance(r, Vx) and name in ("neighbours", "edges") and \
                isinstance(v, list) and not v:
            n = "N" if name == "neighbours" else "E"
            old, oldl = self.counts[n], self.lens[n]
            self.counts[n] = lambda a, x: z3.If(a == r.t, 0, old(a, x))
            self.lens[n] = lambda a: z3.If(a == r.t, 0, oldl(a))
        else:
            raise Unsupported(f"write of {name}")

    def set(self, fn, t, v):
        old = getattr(self, fn)
        setattr(self, fn, lambda x: z3.If(x == t, v, old(x)))

    # -- new objects
    def maker(self, cls):
        """The generated constructor: its arguments, and fresh empty lists."""
        def make(it, a, k):
            if cur().rec:
                raise Unsupported("an edit of the graph in a loop")
            try:
                b = inspect.signature(cls).bind(*a, **k)
            except TypeError as e:
                C.raise_(TypeError, str(e))
            given = dict(b.arguments)
            t = z3.Int(cur().name_for("new"))
            s = cur()
            for n in "VDSLQG":
                s.assume(SBool(self.count(n, None, t) == 0))
            x = z3.Int("x!n")
            for n in "EN":
                s.assume(SBool(z3.ForAll([x], self.g[n](x, t) == 0)))
            p = z3.Int("p!n")
            s.assume(SBool(z3.ForAll([p], self.f["grid"](p) != t)))
            s.assume(SBool(t >= 0))
            for o in self.made:
                s.assume(SBool(t != o.t))
            if cls is lb.Edge:
                r = Ed(self, t)
                if set(given) != set(EDGE_FIELDS[:3]):
                    raise Unsupported("a link made in another way")
                for n in EDGE_FIELDS[:3]:
                    self.write(r, n, given[n])
            else:
                defaults(cls, given)
                r = Vx(self, t)
                self.set("kind", t, z3.IntVal(KIND[cls]))
                self.set("pos", t, Grid.at(given["pos"]))
                self.set("eqx", t, z3.IntVal(lb.NO_INDEX))
                self.write(r, "neighbours", [])
                self.write(r, "edges", [])
                self.attrs[t] = {n: v for n, v in given.items() if n != "pos"}
            self.made.append(r)
            return r
        return make

    # -- the lattice
    def lattice(self, cls=lb.CodeLattice):
        """A lattice in this state, made by the constructor of the class."""
        lat = cls.__new__(cls)
        self.c.run(lb.CodeLattice.__init__, lat, (2, 2))
        known = set(LISTS) | {"lattice", "n_time_steps"}
        if set(vars(lat)) != known:
            raise Unsupported(f"attributes {sorted(set(vars(lat)) ^ known)} of a lattice")
        for n, f in LISTS.items():
            setattr(lat, n, MList(self, f, None, Ed if f == "G" else Vx))
        lat.lattice = Grid(self)
        return lat

    # -- the invariant
    def inv(self, v, w, e, e2, p, witnesses):
        """What holds of any vertices v, w, links e, e2 and position p:
        {name: condition}.  witnesses: links, one of which joins neighbours v and w."""
        n = self.count
        def V(x): return n("V", None, x) == 1
        def G(x): return n("G", None, x) == 1
        def E(o, x): return n("E", o, x) == 1
        def N(o, x): return n("N", o, x) == 1
        bitlike = [z3.And(n(k, None, v) >= 0, n(k, None, v) <= 1) for k in "VDSLQ"] + [
            z3.And(n("G", None, e) >= 0, n("G", None, e) <= 1),
            z3.And(n("E", v, e) >= 0, n("E", v, e) <= 1),
            z3.And(n("N", v, w) >= 0, n("N", v, w) <= 1)]
        kd = self.kind
        d, o = self.data(e), self.op(e)
        d2, o2 = self.data(e2), self.op(e2)
        out = {
            "nothing listed twice": z3.And(bitlike),
            "lists of vertices by kind": z3.And([
                (n(k, None, v) == 1) == z3.And(V(v), kd(v) == i)
                for i, k in enumerate("DSL")] + [
                z3.Implies(V(v), z3.And(kd(v) >= 0, kd(v) <= 2))]),
            "ends of a link": z3.Implies(G(e), z3.And(
                V(d), kd(d) == 0, V(o), z3.Or(kd(o) == 1, kd(o) == 2), E(d, e), E(o, e),
                N(d, o), N(o, d))),
            "links of a vertex": z3.Implies(E(v, e), z3.And(G(e), z3.Or(v == d, v == o))),
            "neighbours are linked": z3.Implies(N(v, w), z3.Or([z3.And(
                G(x), z3.Or(z3.And(self.data(x) == v, self.op(x) == w),
                            z3.And(self.data(x) == w, self.op(x) == v)))
                for x in witnesses])),
            "one link between two vertices": z3.Implies(
                z3.And(G(e), G(e2), d == d2, o == o2), e == e2),
            "as many neighbours as links": self.length("N", v) == self.length("E", v),
            "vertices are at their positions": z3.Implies(
                V(v), self.grid(self.pos(v)) == v),
            "positions hold vertices of the lattice": z3.Implies(
                self.grid(p) != -1, z3.And(V(self.grid(p)), self.pos(self.grid(p)) == p)),
            "indexed vertices": (n("Q", None, v) == 1) == z3.And(
                V(v), self.eqx(v) != lb.NO_INDEX),
            "references": z3.Implies(V(v), v >= 0),
        }
        return out

    def axioms(self, v, w, e, e2, p):
        """Single facts about the state the method starts in."""
        ew = self.first_link
        parts = list(self.inv(v, w, e, e2, p, [self.g["eo"](v, w)]).values())
        # a list which holds something is not empty, and the other way round
        parts += [z3.Implies(self.count("E", v, e) >= 1, self.length("E", v) >= 1),
                  self.length("E", v) >= 0,
                  z3.Implies(self.length("E", v) >= 1,
                             self.count("E", v, ew(v)) >= 1)]
        return [x for t in parts for x in (t.children() if z3.is_and(t) else [t])]

    def assume(self):
        """The invariant holds before."""
        self.first_link = z3.Function(cur().name_for("first_link"), I, I)
        self.start = self.snapshot()
        cur().finite = self.finite
        vs = z3.Ints("v! w! e! e2! p!")
        for t in self.start.axioms(*vs):
            bound = [x for x in vs if uses(t, x)]
            cur().assume(SBool(z3.ForAll(bound, t)), axiom=True)

    def finite(self, facts):
        """A model with few references: whatever is not among them is in no list."""
        st, dom = self.start, [z3.IntVal(i) for i in range(-1, 3)]
        names = z3.Ints("v! w! e! e2! p!")
        fs = list(facts)
        for t in st.axioms(*names):
            vs = [x for x in names if uses(t, x)]
            for vals in itertools.product(dom, repeat=len(vs)):
                fs.append(z3.substitute(t, list(zip(vs, vals))))
        small = [f(a) for a in dom for f in
                 (self.f["data"], self.f["op"], self.f["pos"], self.f["grid"],
                  self.first_link)]
        small += [self.g["eo"](a, b) for a in dom for b in dom]
        for t in facts:
            for n in consts(t):
                if not n.startswith(("len", "factor")):
                    small.append(z3.Int(n))
        for x in small:
            fs.append(z3.And(x >= -1, x < 3))
        v, m = C._z3_check(fs, 4000)
        return m if v == "sat" else None

    def know(self, vs=(), es=(), ps=()):
        """The invariant before, for these vertices, links and positions."""
        st = self.start
        for e in es:
            vs = [*vs, st.data(e), st.op(e)]
        es = [*es, *(self.first_link(v) for v in vs)] if len(vs) < 3 else list(es)
        v, w, e, e2, p = names = z3.Ints("v! w! e! e2! p!")
        seen = set()
        for t in st.axioms(*names):
            pools = [(x, pool) for x, pool in
                     zip(names, (vs, vs, es, es, ps)) if uses(t, x)]
            for vals in itertools.product(*(pool for _, pool in pools)):
                i = z3.simplify(z3.substitute(t, [(x, y) for (x, _), y
                                                  in zip(pools, vals)]))
                if i.get_id() not in seen:
                    seen.add(i.get_id())
                    cur().assume(SBool(i))

    def prove(self, c, when=""):
        v, w, e, e2, p = (z3.Int(cur().name_for(x)) for x in ("v", "w", "e", "e2", "p"))
        self.know([v, w, self.grid(p)], [e, e2, self.g["eo"](v, w), *self.of_interest],
                  [p, *(self.pos(x) for x in (v,))])
        wit = [self.g["eo"](v, w)] + [r.t for r in self.made if isinstance(r, Ed)]
        for name, t in self.inv(v, w, e, e2, p, wit).items():
            c.prove(SBool(t), f"{name}{when}")

    def snapshot(self):
        h = object.__new__(Heap)
        h.__dict__.update(self.__dict__)
        h.counts, h.lens = dict(self.counts), dict(self.lens)
        h.made = list(self.made)
        return h


def consts(t):
    out, todo, seen = set(), [t], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and z3.is_int(e) and \
                e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(e.decl().name())
        todo.extend(e.children())
    return out


def uses(t, v):
    from pyvc import loops
    return v.decl().name() in loops.const_names(t)


def defaults(cls, given):
    """What the constructor makes of omitted arguments: tried out."""
    need = {"group": lb.StabGroup.U, "name": "x"}
    kw = {k: need.get(k, (0,)) for k in given}
    try:
        x, y = cls(**kw), cls(**kw)
    except TypeError as e:
        C.raise_(TypeError, str(e))
    if not (x.edges == [] and x.neighbours == [] and x.edges is not y.edges
            and x.neighbours is not y.neighbours and x.edges is not x.neighbours
            and x.pos == (0,) and x.equbit_idx == lb.NO_INDEX
            and all(getattr(x, k) == v for k, v in kw.items())
            and isinstance(x.edges, list) and isinstance(x.neighbours, list)) or \
            set(given) & {"edges", "neighbours", "equbit_idx"}:
        raise Unsupported(f"vertices made by {cls.__name__}")


__all__ = ["Heap", "Vx", "Ed", "Pos", "MList", "fresh_int", "eq", "SInt", "KIND"]
