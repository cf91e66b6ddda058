"""Layouts: what the constructors of lattices add, as families of vertices and links.

The constructors run as they are, with a symbolic size; adding a vertex or a link is
recorded (their own contracts: see p08).  A repetition in the record is a family: index
variables with ranges and a condition, and the item as a function of them."""
import z3
from plaquette.codes import latticebase as lb
from plaquette.codes import latticeinstances as li

from contracts.common import C, SBool, SInt, Unsupported, cur, eq
from pyvc import loops
from pyvc import seq as Q
from pyvc.core import intterm, ite
from pyvc.seq import Each, IfE


def subst_pos(pos, pairs):
    return tuple(Q.subst(x, pairs) if isinstance(x, C.Sym) else x for x in pos)


class V:
    """A vertex: its position, and what is known of it."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, pos, cls=None, group=None, name=None):
        self.pos, self.cls, self.group, self.name = tuple(pos), cls, group, name

    def pyvc_isinstance(self, cls):
        if self.cls is None:
            raise Unsupported("the kind of a vertex found at a position")
        cs = cls if isinstance(cls, tuple) else (cls,)
        return any(issubclass(self.cls, c) for c in cs)

    def subst_(self, pairs):
        return V(subst_pos(self.pos, pairs), self.cls, Q.subst(self.group, pairs),
                 self.name)

    def terms_(self):
        yield from loops.terms_in(list(self.pos))
        yield from loops.terms_in(self.group)

    def __repr__(self):
        return f"{self.cls and self.cls.__name__}{self.pos}"


class E:
    """A link."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, data, op, factor):
        self.data, self.op, self.factor = data, op, factor

    def subst_(self, pairs):
        return E(self.data.subst_(pairs), self.op.subst_(pairs),
                 Q.subst(self.factor, pairs))

    def terms_(self):
        yield from self.data.terms_()
        yield from self.op.terms_()
        yield from loops.terms_in(self.factor)

    def __repr__(self):
        return f"{self.data}-{self.op}"


# what gives links their time slots
SCHEDULE = (lb.CodeLattice.assign_stab_edge_order,
            li.RotatedPlanarCodeLattice.inverted_order)


def pos_of(p):
    if not isinstance(p, tuple):
        raise Unsupported("a position which is not a tuple")
    return p


class Lattice:
    """Contracts of the methods the constructors use; `at` is the lattice made."""

    def __init__(self, c):
        self.c, self.calls = c, []
        k = c.contracts
        k[lb.CodeLattice.add_data] = self.add_data
        k[lb.CodeLattice.add_stabgen] = self.add_stabgen
        k[lb.CodeLattice.add_logical] = self.add_logical
        k[lb.CodeLattice.add_edge] = self.add_edge
        for m in (lb.CodeLattice.assign_indices, *SCHEDULE):
            k[m] = self.note(m)

    def grid(self, it, lat):
        g = it.getattr(lat, "lattice")
        if not isinstance(g, Q.ObjGrid):
            raise Unsupported("a lattice of another kind")
        g.lookup = lambda pos: V(pos_of(pos))
        return g

    def vertex(self, it, lat, v, *lists):
        self.grid(it, lat)
        for name in ("vertices", *lists):
            lst = it.getattr(lat, name)
            it.container_method(lst, "append", lst.append, [v], {})
        return v

    def add_data(self, it, a, k):
        a, k = bound(lb.CodeLattice.add_data, a, k)
        self.vertex(it, a[0], V(pos_of(a[1]), lb.DataVertex), "dataqubits")

    def add_stabgen(self, it, a, k):
        a, k = bound(lb.CodeLattice.add_stabgen, a, k)
        self.vertex(it, a[0], V(pos_of(a[1]), lb.StabGenVertex, a[2]), "stabgens")

    def add_logical(self, it, a, k):
        a, k = bound(lb.CodeLattice.add_logical, a, k)
        return self.vertex(it, a[0], V(pos_of(a[1]), lb.LogicalVertex, None, a[2]),
                           "logical_ops")

    def add_edge(self, it, a, k):
        a, k = bound(lb.CodeLattice.add_edge, a, k)
        lat, d, o, f = a
        if not (isinstance(d, V) and isinstance(o, V)):
            raise Unsupported("a link between other things")
        if not isinstance(f, (int, SInt)):
            raise Unsupported("a link with another factor")
        lst = it.getattr(lat, "edges")
        it.container_method(lst, "append", lst.append, [E(d, o, f)], {})

    def note(self, what):
        def f(it, a, k):
            if cur().rec:
                raise Unsupported(f"{what.__name__} in a loop")
            lat = a[0]
            sizes = {n: len(it.getattr(lat, n)) for n in
                     ("vertices", "dataqubits", "stabgens", "logical_ops", "edges")}
            self.calls.append((what, a[1:], k, sizes))
        return f


def bound(f, a, k):
    """All arguments by position."""
    import inspect
    try:
        b = inspect.signature(f).bind(*a, **k)
    except TypeError as e:
        C.raise_(TypeError, str(e))
    b.apply_defaults()
    return list(b.args), {}


# ------------------------------------------------------------------ families
class Family:
    """{item : vars with cond}"""

    def __init__(self, vs, cond, item):
        self.vs, self.cond, self.item = vs, z3.simplify(cond), item

    def fresh(self, tag="v"):
        """(condition, item, variables) with new variables."""
        new = [z3.Int(cur().name_for(tag)) for _ in self.vs]
        ps = list(zip(self.vs, new))
        return (z3.substitute(self.cond, ps) if ps else self.cond,
                Q.subst(self.item, ps) if ps else self.item, new)

    def at(self, vals):
        ps = list(zip(self.vs, vals))
        return (z3.substitute(self.cond, ps) if ps else self.cond,
                Q.subst(self.item, ps) if ps else self.item)

    def __repr__(self):
        return f"Family({self.vs}, {self.item})"


def families(ps, vs=(), cond=None):
    """The families a list of parts consists of."""
    cond = z3.BoolVal(True) if cond is None else cond
    out = []
    for p in ps:
        if isinstance(p, Each):
            v = z3.Int(cur().name_for("fam"))
            rng = z3.And(v >= 0, v < intterm(p.n))
            out += families(p.fn(SInt(v)), (*vs, v), z3.And(cond, rng))
        elif isinstance(p, IfE):
            c = C.boolterm(p.cond)
            a, b = flat(Q.parts(p.a)), flat(Q.parts(p.b))
            if a is not None and b is not None:
                for cc, item in aligned(c, a, b):
                    out.append(Family(list(vs), z3.And(cond, cc), item))
            else:
                out += families(Q.parts(p.a), vs, z3.And(cond, c))
                out += families(Q.parts(p.b), vs, z3.And(cond, z3.Not(c)))
        else:
            out.append(Family(list(vs), cond, p))
    return [f for f in out if not z3.is_false(f.cond)]


def flat(ps):
    """[(condition, item)] if there is no repetition inside."""
    out = []
    for p in ps:
        if isinstance(p, Each):
            return None
        if isinstance(p, IfE):
            a, b = flat(Q.parts(p.a)), flat(Q.parts(p.b))
            if a is None or b is None:
                return None
            out += aligned(C.boolterm(p.cond), a, b)
        else:
            out.append((z3.BoolVal(True), p))
    return out


def kind(x):
    if isinstance(x, E):
        return ("E", x.op.cls, kind(x.op))
    return ("V", x.cls, x.name)


def aligned(c, a, b):
    """Items of a choice, the n-th of either side merged where they are of a kind."""
    out = []
    for i in range(max(len(a), len(b))):
        if i >= len(a):
            out.append((z3.And(z3.Not(c), b[i][0]), b[i][1]))
        elif i >= len(b):
            out.append((z3.And(c, a[i][0]), a[i][1]))
        elif kind(a[i][1]) == kind(b[i][1]):
            out.append((z3.simplify(z3.If(c, a[i][0], b[i][0])),
                        either(SBool(c), a[i][1], b[i][1])))
        else:
            out.append((z3.And(c, a[i][0]), a[i][1]))
            out.append((z3.And(z3.Not(c), b[i][0]), b[i][1]))
    return out


def either(c, a, b):
    if isinstance(a, E):
        return E(either(c, a.data, b.data), either(c, a.op, b.op),
                 number(c, a.factor, b.factor))
    if len(a.pos) != len(b.pos):
        raise Unsupported("positions of different dimensions")
    return V([number(c, x, y) for x, y in zip(a.pos, b.pos)], a.cls,
             None if a.group is None else number(c, a.group, b.group), a.name)


def number(c, x, y):
    if x is y or isinstance(x, int) and isinstance(y, int) and x == y:
        return x
    if isinstance(x, SInt) and isinstance(y, SInt) and x.t.eq(y.t):
        return x
    return ite(c, as_int(x), as_int(y))


def as_int(x):
    return int(x) if isinstance(x, int) else x


def terms(pos):
    return [z3.simplify(x if z3.is_expr(x) else intterm(x)) for x in pos]


def same(p, q):
    """p and q are the same position."""
    if len(p) != len(q):
        return z3.BoolVal(False)
    return z3.And([a == b for a, b in zip(terms(p), terms(q))])


def solve(vs, eqs):
    """Values of the variables from equations (lhs == rhs), one after the other.

    Returns (values, condition): the equations hold for some values of vs only if they
    hold for these; `condition` says that they are whole numbers.  None if this does
    not determine all variables."""
    sol, conds = {}, []
    todo = [z3.simplify(a - b, som=True) for a, b in eqs]
    left = list(vs)
    while left:
        for n, t in enumerate(todo):
            names = loops.const_names(t)
            un = [v for v in left if v.decl().name() in names]
            if len(un) != 1:
                continue
            v = un[0]
            a = coefficient(t, v)
            if a is None:
                continue
            rest = z3.simplify(z3.substitute(t, (v, z3.IntVal(0))))
            # a v + rest == 0
            if abs(a) == 1:
                val = z3.simplify(-rest if a == 1 else rest)
            else:
                val = z3.simplify((-rest if a > 0 else rest) / abs(a))
                conds.append(rest % abs(a) == 0)
            sol[v.decl().name()] = val
            left.remove(v)
            todo = [z3.simplify(z3.substitute(x, (v, val)), som=True) for x in todo]
            break
        else:
            return None
    return [sol[v.decl().name()] for v in vs], z3.And(conds)


def coefficient(t, v):
    """a with t = a v + something free of v (a is a number, not 0), or None."""
    a = z3.simplify(z3.substitute(t, (v, z3.IntVal(1))) -
                    z3.substitute(t, (v, z3.IntVal(0))), som=True)
    if not z3.is_int_value(a) or a.as_long() == 0:
        return None
    rest = z3.simplify(t - a * v, som=True)
    if v.decl().name() in loops.const_names(rest):
        return None
    return a.as_long()


def member(fams, pos):
    """Is this the position of a member of one of the families?  (condition, item)s"""
    out = []
    for f in fams:
        r = solve(f.vs, list(zip(terms(f.item.pos), terms(pos))))
        if r is None:
            raise Unsupported("positions which cannot be solved for")
        cond, item = f.at(r[0])
        out.append((z3.simplify(z3.And(cond, r[1], same(item.pos, pos))), item))
    return out


def is_member(fams, pos):
    return z3.Or([c for c, _ in member(fams, pos)])


def links_at(edges, pos):
    """The links of the operator at a position: a finite list of (condition, item)."""
    out = []
    for f in edges:
        r = solve(f.vs, list(zip(terms(f.item.op.pos), terms(pos))))
        if r is None:
            raise Unsupported("links which cannot be solved for")
        cond, item = f.at(r[0])
        c = z3.simplify(z3.And(cond, r[1], same(item.op.pos, pos)))
        if not z3.is_false(c):
            out.append((c, item))
    return out


def line(edges, q):
    """The links (of one operator) to data position q: [(condition, item)]."""
    out = []
    for f in edges:
        r = solve(f.vs, list(zip(terms(f.item.data.pos), terms(q))))
        if r is None:
            raise Unsupported("links which cannot be solved for")
        cond, item = f.at(r[0])
        out.append((z3.simplify(z3.And(cond, r[1], same(item.data.pos, q))), item))
    return out


def parity(conds):
    out = z3.BoolVal(False)
    for c in conds:
        out = z3.Xor(out, c)
    return out


def anti(f, g):
    return z3.Not(eq(f, g)) if not (isinstance(f, int) and isinstance(g, int)) else \
        z3.BoolVal(int(f) != int(g))
