"""P07: the built-in code families are valid codes at every size."""
import copy

import z3
from plaquette import codes
from plaquette import pauli as P
from plaquette.codes import latticebase as lb
from plaquette.codes import latticeinstances as li

from contracts import layout as L
from contracts.common import C, SArr, SBool, SInt, Unsupported, cur, eq, fresh_int
from contracts.layout import (anti, families, is_member, line, links_at, parity, same,
                              terms)
from lib import pauliref as pr
from pyvc import seq as Q
from pyvc.contract import case
from pyvc.core import intterm
from pyvc.seq import SElem, SSeq, SStruct

FUNCTIONS = ["codes.latticeinstances.RepetitionCodeLattice.__init__",
             "codes.latticeinstances.PlanarCodeLattice.__init__",
             "codes.latticeinstances.ToricCodeLattice.__init__",
             "codes.latticeinstances.RotatedPlanarCodeLattice.__init__",
             "codes.latticeinstances.RotatedPlanarCodeLattice.inverted_order",
             "codes.latticebase.CodeLattice.__init__",
             "codes.latticebase.CodeLattice.assign_stab_edge_order",
             "codes.latticebase.CodeLattice._periodic_boundary_time_step",
             "codes.StabilizerCode.check", "codes.StabilizerCode.__init__",
             "codes.LatticeCode.make_planar", "codes.LatticeCode.make_toric",
             "codes.LatticeCode.make_repetition", "codes.LatticeCode.make_rotated_planar"]
ASSUMPTIONS = [
    "contracts of add_data, add_stabgen, add_logical, add_edge and assign_indices (P08): "
    "they append a vertex or link and set its position, ends and factor",
    "operators act on the linked data qubits with the links' Paulis (P08)",
    "linear algebra: n qubits, generators in bijection with all but s qubits, r of them "
    "products of the others, the rest independent by a triangular family of errors: "
    "n - rank = s + r",
    "positions of one family are solved for its indices by linear elimination; a "
    "solution is checked by the solver at every use",
    "the five-qubit and Shor codes have no input: they are checked by evaluation",
]

FACTORS = {"X": int(lb.Pauli.X), "Y": int(lb.Pauli.Y), "Z": int(lb.Pauli.Z)}


class Code:
    """A constructor run with a symbolic size, and the families it makes."""

    def __init__(self, c, cls, *args, lo=2):
        self.c = c
        self.size = fresh_int("size", lo)
        c.note(size=self.size)
        self.L = L.Lattice(c)
        lat = self.lat = cls.__new__(cls)
        if cls is li.RepetitionCodeLattice:
            # sizes the constructor accepts
            half = fresh_int("half", 1)
            cur().assume(SBool(eq(self.size, 2 * half + 1)))
        c.run(cls.__init__, lat, self.size, *args)
        self.d = intterm(self.size)
        self.vertices = families(lat.vertices)
        self.data = families(lat.dataqubits)
        self.stabs = families(lat.stabgens)
        self.logs = families(lat.logical_ops)
        self.edges = families(lat.edges)
        if any(f.vs or not z3.is_true(f.cond) for f in self.logs):
            raise Unsupported("logical operators in a repetition")
        self.sort_links()

    def claim(self, what, goal, *conds):
        """Under the conditions, the goal; for all values of the free variables."""
        s = cur()

        def go():
            for x in conds:
                s.assume(SBool(x))
            self.c.prove(SBool(goal() if callable(goal) else goal), what)
        self.c.scope(go)

    def sort_links(self):
        """The links of stabilisers and of each logical operator."""
        s = cur()
        self.slinks, self.llinks = [], [[] for _ in self.logs]
        for f in self.edges:
            op = f.item.op
            for n, g in enumerate(self.logs):
                if s.entails(z3.Implies(f.cond, same(op.pos, g.item.pos))):
                    self.llinks[n].append(f)
                    break
            else:
                self.slinks.append(f)

    def links_of(self, pos):
        s = cur()
        return [(cond, e) for cond, e in links_at(self.slinks, pos) if s.possible(cond)]

    def links(self, pos):
        """The links of the stabiliser there: [(condition, data position, factor)]."""
        return [(cond, e.data.pos, e.factor) for cond, e in self.links_of(pos)]

    def schedule(self):
        """The calls which give the links their slots."""
        calls = [x for x in self.L.calls if x[0] in L.SCHEDULE]
        if not calls:
            raise Unsupported("no schedule")
        if any(x[3]["edges"] != len(self.lat.edges) for x in calls):
            raise Unsupported("links added after the schedule was made")
        return [x[:3] for x in calls]

    def slot(self, e, cond):
        """The time slot of a link: the real functions run on this link alone (links
        do not influence each other, see the cases on links)."""
        s, todo = cur(), self.schedule()

        def one():
            s.assume(SBool(cond))
            lat = copy.copy(self.lat)
            t = one_link(self.c, lat, todo, e.op.pos, e.data.pos, True, None)
            n = lat.n_time_steps
            if not isinstance(n, int) or self.n_slots not in (None, n):
                raise Unsupported("the number of time slots")
            self.n_slots = n
            return -1 if t is None else t
        return intterm(Q.merge(one))

    n_slots = None


def one_link(c, lat, todo, s, q, stab, old):
    """The slot of the only link of a lattice after some calls."""
    op = L.V(s, lb.StabGenVertex if stab else lb.LogicalVertex)
    e = L.E(L.V(q, lb.DataVertex), op, 1)
    e.measurement_time_step = old
    lat.edges = [e]
    for method, a, k in todo:
        c.run(method, lat, *a, **k)
    return e.measurement_time_step


# ------------------------------------------------------------------ certificates
class Rep:
    cls, args, k, roots = li.RepetitionCodeLattice, (), 1, []

    @staticmethod
    def special(d):
        return [(2 * d - 2, z3.IntVal(0))]

    @staticmethod
    def phi(d, i, j):
        return i - 1, j

    @staticmethod
    def psi(d, a, b):
        return a + 1, b

    @staticmethod
    def error(d, i, j, group_a):
        return (i - 1, j), (i, z3.IntVal(0))


def If2(c, p, q):
    return tuple(z3.If(c, a, b) for a, b in zip(p, q))


class Planar:
    cls, args, k, roots = li.PlanarCodeLattice, (), 1, []

    @staticmethod
    def special(d):
        return [(2 * d - 2, z3.IntVal(0))]

    @staticmethod
    def phi(d, i, j):
        return If2(i >= 1, (i - 1, j), (2 * d - 2, j + 1))

    @staticmethod
    def psi(d, a, b):
        return If2(a == 2 * d - 2, (z3.IntVal(0), b - 1), (a + 1, b))

    @staticmethod
    def error(d, i, j, group_a):
        return (If2(group_a, (i - 1, j), (i, j - 1)),
                (z3.If(group_a, i, j), z3.IntVal(0)))


class Toric:
    cls, args, k = li.ToricCodeLattice, (), 2
    roots = [(2, 2), (1, 1)]       # one of each group is a product of the others

    @staticmethod
    def special(d):
        return []

    @staticmethod
    def phi(d, i, j):
        return i, z3.If(j % 2 == 0, j - 1, j + 1)

    psi = phi

    @staticmethod
    def error(d, i, j, group_a):
        return (If2(i > z3.If(group_a, z3.IntVal(2), z3.IntVal(1)),
                    (i - 1, j), (i, j - 1)), (i, j))

    @staticmethod
    def neighbours(d, a, b):
        up = z3.If(a == 1, 2 * d, a - 1)
        down = z3.If(a == 2 * d, z3.IntVal(1), a + 1)
        left = z3.If(b == 1, 2 * d, b - 1)
        right = z3.If(b == 2 * d, z3.IntVal(1), b + 1)
        return [(up, b), (down, b), (a, left), (a, right)]


class Rotated:
    cls, args, k, roots = li.RotatedPlanarCodeLattice, (False,), 1, []

    @staticmethod
    def special(d):
        return [(2 * d - 1, z3.If(d % 2 == 1, 2 * d - 1, 2 * d - 3))]

    @staticmethod
    def phi(d, i, j):
        odd, last = d % 2 == 1, 2 * d - 1
        top = (last, j - 1)
        bottom = (last, z3.If(odd, j - 1, j - 3))
        left = (i - 1, last)
        right = (z3.If(odd, i - 1, i + 1), last)
        bulk = (i - 1, j - 1)
        return If2(i == 0, top, If2(i == 2 * d, bottom, If2(
            j == 0, left, If2(j == 2 * d, right, bulk))))

    @staticmethod
    def psi(d, a, b):
        odd, last, n = d % 2 == 1, 2 * d - 1, 2 * d
        zero = z3.IntVal(0)
        side = z3.If(a % 4 == 1, zero, n)                  # column of (., last)
        row = z3.If(z3.And(z3.Not(odd), a % 4 == 3), a - 1, a + 1)
        edge = z3.If(b % 4 == 3, zero, n)
        col = z3.If(z3.And(z3.Not(odd), b % 4 == 1), b + 3, b + 1)
        return If2(b == last, (row, side), If2(a == last, (edge, col), (a + 1, b + 1)))

    @staticmethod
    def error(d, i, j, group_a):
        return (If2(group_a, (z3.If(i == 2 * d, i - 1, i + 1), j - 1),
                    (i - 1, z3.If(j == 2 * d, j - 1, j + 1))),
                (z3.If(group_a, j, i), z3.IntVal(0)))


class RotatedXZZX(Rotated):
    args = (True,)


SPECS = {"repetition": Rep, "planar": Planar, "toric": Toric, "rotated": Rotated,
         "rotated XZZX": RotatedXZZX}


# ------------------------------------------------------------------------ cases
def layout(spec):
    def f(c):
        w = Code(c, spec.cls, *spec.args)
        s = cur()
        lat = w.lat
        dims = len(lat.lattice.shape)
        shape = [intterm(x) for x in lat.lattice.shape]
        # vertices: inside the array, no two at a position
        fresh = [f.fresh() for f in w.vertices]
        for n, (cond, v, xs) in enumerate(fresh):
            w.claim("vertices are inside the lattice",
                    z3.And([z3.And(x >= 0, x < m) for x, m in
                            zip(terms(v.pos), shape)] + [z3.BoolVal(len(v.pos) == dims)]),
                    cond)
            for m, g in enumerate(w.vertices[:n + 1]):
                cg, u, ys = g.fresh("w")
                eqs = z3.And([a == b for a, b in zip(xs, ys)]) if m == n else \
                    z3.BoolVal(False)
                w.claim("no two vertices at one position", eqs, cond, cg,
                        same(v.pos, u.pos))
        # the lists together are the vertices
        for fam in (w.data, w.stabs, w.logs):
            for g in fam:
                cond, v, _ = g.fresh()
                alike = [h for h in w.vertices if h.item.cls is v.cls]
                w.claim("every listed vertex is a vertex",
                        lambda: is_member(alike, v.pos), cond)
        for cond, v, _ in fresh:
            fam = {lb.DataVertex: w.data, lb.StabGenVertex: w.stabs,
                   lb.LogicalVertex: w.logs}[v.cls]
            w.claim("every vertex is listed by its kind",
                    lambda: is_member(fam, v.pos), cond)
        # links
        for fam, what in ((w.slinks, "stabiliser"),
                          ([e for x in w.llinks for e in x], "logical operator")):
            for g in fam:
                cond, e, xs = g.fresh()
                w.claim(f"links of a {what} end at data qubits",
                        lambda: is_member(w.data, e.data.pos), cond)
                w.claim("links have a Pauli type", z3.And(
                    intterm(e.factor) >= 1, intterm(e.factor) <= 3), cond)
                if what == "stabiliser":
                    w.claim("links start at a stabiliser or logical operator",
                            lambda: is_member(w.stabs, e.op.pos), cond)
                for h in fam:
                    ch, e2, ys = h.fresh("w")
                    eqs = z3.And([a == b for a, b in zip(xs, ys)]) if h is g else \
                        z3.BoolVal(False)
                    w.claim("no qubit is linked twice to a vertex", eqs, cond, ch,
                            same(e.op.pos, e2.op.pos), same(e.data.pos, e2.data.pos))
        c.prove(sum(x[0] is lb.CodeLattice.assign_indices for x in w.L.calls) >= 1 and all(
            x[3]["vertices"] == len(lat.vertices) for x in w.L.calls
            if x[0] is lb.CodeLattice.assign_indices), "indices are assigned when all vertices are there")
    return f


def pairs(w):
    """Two stabilisers of any families."""
    for n, f in enumerate(w.stabs):
        for g in w.stabs[:n + 1]:
            yield f, g


def commuting(spec):
    def f(c):
        w = Code(c, spec.cls, *spec.args)
        s = cur()
        for f, g in pairs(w):
            def go():
                c1, a, _ = f.fresh()
                c2, b, _ = g.fresh("w")
                s.assume(SBool(c1))
                la = w.links(a.pos)
                s.assume(SBool(c2))
                lb_ = w.links(b.pos)
                # shared qubits with different Paulis
                bad = []
                for ca, qa, fa in la:
                    for cb, qb, fb in lb_:
                        x = z3.simplify(z3.And(ca, cb, same(qa, qb), anti(fa, fb)))
                        if s.possible(x):
                            bad.append(x)
                c.prove(SBool(z3.Not(parity(bad))), "stabilisers commute")
            c.scope(go)
        for f in w.stabs:
            for n, ll in enumerate(w.llinks):
                def go():
                    c1, a, _ = f.fresh()
                    s.assume(SBool(c1))
                    bad = []
                    for ca, qa, fa in w.links(a.pos):
                        for cb, e in line(ll, qa):
                            bad.append(z3.And(ca, cb, anti(fa, e.factor)))
                    c.prove(SBool(z3.Not(parity(bad))),
                            "stabilisers commute with logical operators")
                c.scope(go)
        for f in w.stabs:
            def go():
                c1, a, _ = f.fresh()
                s.assume(SBool(c1))
                c.prove(SBool(z3.Or([x[0] for x in w.links(a.pos)])),
                        "no stabiliser is the identity")
            c.scope(go)
    return f


def logical(spec):
    def f(c):
        w = Code(c, spec.cls, *spec.args)
        c.prove(len(w.logs) == 2 * spec.k, "two logical operators per logical qubit")
        for n in range(len(w.logs)):
            for m in range(n):
                crossings(c, w, m, n, n % 2 == 1 and m == n - 1)
    return f


def crossings(c, w, m, n, once):
    """Qubits on which two logical operators have different Paulis."""
    s = cur()
    what = "partners anticommute" if once else "other logical operators commute"

    found = []
    for f in w.llinks[m]:
        for g in w.llinks[n]:
            cf, a, xs = f.fresh()
            cg, b, ys = g.fresh("w")
            found.append((z3.And(cf, cg, same(a.data.pos, b.data.pos),
                                 anti(a.factor, b.factor)), a, b, xs + ys))
    if not once:
        for cond, a, b, _ in found:
            w.claim(what, z3.Not(cond))
        return
    # one crossing at most, and one there is
    for i, (cond, a, b, _) in enumerate(found):
        for cond2, a2, b2, vs in found[:i + 1]:
            new = [z3.Int(s.name_for("u")) for _ in vs]
            ps = list(zip(vs, new))
            p2 = L.subst_pos(a2.data.pos, ps) if ps else a2.data.pos
            c2 = z3.substitute(cond2, ps) if ps else cond2
            w.claim(what, same(a.data.pos, p2), cond, c2)
    exists = []
    for cond, a, b, vs in found:
        r = L.solve(vs, list(zip(terms(a.data.pos), terms(b.data.pos))))
        if r is None:
            raise Unsupported("logical operators which meet in a line")
        ps = list(zip(vs, r[0]))
        exists.append(z3.And(r[1], z3.substitute(cond, ps) if ps else cond))
    w.claim(what, z3.Or(exists))


def group_a(v):
    return eq(v.group, int(lb.StabGroup.A))


def counting(spec):
    def f(c):
        w = Code(c, spec.cls, *spec.args)
        s, d = cur(), w.d
        special = spec.special(d)
        c.prove(len(special) + len(spec.roots) == spec.k,
                "as many exceptions as logical qubits")
        for n, p in enumerate(special):
            w.claim("the exceptional qubits are qubits", lambda: is_member(w.data, p))
            for q in special[:n]:
                w.claim("the exceptional qubits differ", z3.Not(same(p, q)))
        what = "stabilisers match the other data qubits one to one"
        for g in w.stabs:
            cond, v, _ = g.fresh()
            p = terms(v.pos)
            q = spec.phi(d, *p)
            w.claim(what, lambda: z3.And(
                is_member(w.data, q), same(spec.psi(d, *q), p),
                *[z3.Not(same(q, x)) for x in special]), cond)
        for g in w.data:
            cond, v, _ = g.fresh()
            q = terms(v.pos)
            p = spec.psi(d, *q)
            w.claim(what, lambda: z3.And(
                is_member(w.stabs, p), same(spec.phi(d, *p), q)), cond,
                *[z3.Not(same(q, x)) for x in special])
    return f


def independent(spec):
    """For every stabiliser (but the roots) an error which flips it and otherwise only
    stabilisers of a lower order: no product of some of them is the identity."""
    def f(c):
        w = Code(c, spec.cls, *spec.args)
        s, d = cur(), w.d
        for g in w.stabs:
            def go():
                cond, v, _ = g.fresh()
                p = terms(v.pos)
                s.assume(SBool(cond))
                for r in spec.roots:
                    s.assume(SBool(z3.Not(same(p, [z3.IntVal(x) for x in r]))))
                q, order = spec.error(d, *p, group_a(v))
                here = [(cc, fa) for cc, qa, fa in
                        [(z3.And(x, same(qa, q)), qa, fa)
                         for x, qa, fa in w.links(v.pos)]]
                c.prove(SBool(z3.And(is_member(w.data, q), z3.Or([x for x, _ in here]))),
                        "the error is on a qubit of the stabiliser")
                f_here = z3.IntVal(0)
                for x, fa in here:
                    f_here = z3.If(x, intterm(fa), f_here)
                err = z3.If(f_here == FACTORS["X"], z3.IntVal(FACTORS["Z"]),
                            z3.IntVal(FACTORS["X"]))
                for h in w.stabs:
                    def other(h=h):
                        c2, u, _ = h.fresh("w")
                        s.assume(SBool(c2))
                        p2 = terms(u.pos)
                        for r in spec.roots:
                            s.assume(SBool(z3.Not(same(p2, [z3.IntVal(x) for x in r]))))
                        s.assume(SBool(z3.Not(same(p, p2))))
                        hit = z3.Or([z3.And(x, same(qa, q), intterm(fa) != err)
                                     for x, qa, fa in w.links(u.pos)])
                        o2 = spec.error(d, *p2, group_a(u))[1]
                        lower = z3.Or(o2[0] < order[0],
                                      z3.And(o2[0] == order[0], o2[1] < order[1]))
                        c.prove(SBool(z3.Implies(hit, lower)),
                                "independent: errors flip lower stabilisers only")
                    c.scope(other)
            c.scope(go)
        if spec.roots:
            relations(c, w, spec)
    return f


def relations(c, w, spec):
    """The product of all stabilisers of a group is the identity."""
    s, d = cur(), w.d
    for e in w.slinks:
        cond, x, _ = e.fresh()
        ns = spec.neighbours(d, *terms(x.data.pos))
        w.claim("links join neighbours", z3.Or([same(x.op.pos, n) for n in ns]), cond)
    for g in w.data:
        for a_group in (True, False):
            def go():
                cond, v, _ = g.fresh()
                s.assume(SBool(cond))
                q = terms(v.pos)
                ns = spec.neighbours(d, *q)
                xs, zs = [], []
                for i, n in enumerate(ns):
                    first = z3.And([z3.Not(same(n, m)) for m in ns[:i]])
                    mem = z3.Or([z3.And(mc, group_a(it) if a_group else
                                        z3.Not(group_a(it)))
                                 for mc, it in L.member(w.stabs, n)])
                    for cc, qa, fa in w.links(n):
                        t = z3.And(first, mem, cc, same(qa, q))
                        xs.append(z3.And(t, intterm(fa) != FACTORS["Z"]))
                        zs.append(z3.And(t, intterm(fa) != FACTORS["X"]))
                c.prove(SBool(z3.And(z3.Not(parity(xs)), z3.Not(parity(zs)))),
                        "the product of a group is the identity")
            c.scope(go)
    for a_group, r in zip((True, False), spec.roots):
        pos = [z3.IntVal(x) for x in r]
        c.prove(SBool(z3.Or([z3.And(mc, group_a(it) if a_group else
                                    z3.Not(group_a(it)))
                             for mc, it in L.member(w.stabs, pos)])),
                "the left out stabilisers are one of each group")


def schedule(spec):
    def f(c):
        w = Code(c, spec.cls, *spec.args)
        s = cur()
        for e in w.slinks:
            cond, x, xs = e.fresh()
            t = w.slot(x, cond)
            w.claim("every link has a slot", z3.And(t >= 0, t < w.n_slots), cond)
            for h in w.slinks:
                c2, y, ys = h.fresh("w")
                u = w.slot(y, c2)
                eqs = z3.And([a == b for a, b in zip(xs, ys)]) if h is e else \
                    z3.BoolVal(False)
                w.claim("no stabiliser is used twice in a slot", eqs, cond, c2,
                        same(x.op.pos, y.op.pos), t == u)
                w.claim("no data qubit is used twice in a slot", eqs, cond, c2,
                        same(x.data.pos, y.data.pos), t == u)
    return f


def interleaved(spec):
    """Stabilisers measured at the same time do not disturb each other: among the
    shared qubits with different Paulis, an even number is visited by one first."""
    def f(c):
        w = Code(c, spec.cls, *spec.args)
        s = cur()
        for f, g in pairs(w):
            def go():
                c1, a, _ = f.fresh()
                c2, b, _ = g.fresh("w")
                s.assume(SBool(c1))
                s.assume(SBool(c2))
                s.assume(SBool(z3.Not(same(a.pos, b.pos))))
                bad = []
                la = [(ca, e, w.slot(e, ca)) for ca, e in w.links_of(a.pos)]
                lb_ = [(cb, e, w.slot(e, cb)) for cb, e in w.links_of(b.pos)]
                for ca, ea, ta in la:
                    for cb, eb, tb in lb_:
                        x = z3.simplify(z3.And(ca, cb, same(ea.data.pos, eb.data.pos),
                                               anti(ea.factor, eb.factor)))
                        if s.possible(x):
                            bad.append(z3.And(x, ta < tb))
                c.prove(SBool(z3.Not(parity(bad))), "interleaved consistently")
            c.scope(go)
    return f


FAMILY = {"repetition": "repetition", "planar": "planar", "toric": "toric",
          "rotated": "rotated", "rotated XZZX": "rotated_xzzx"}


def replays(name):
    def f(vals):
        n = int(vals.get("size", 3))
        return [("family", {"family": FAMILY[name], "size": n})] if n <= 40 else []
    return f


for _n, _spec in SPECS.items():
    for _w, _f in (("layout", layout), ("stabilisers", commuting), ("logicals", logical),
                   ("number of qubits", counting), ("independence", independent),
                   ("schedule", schedule), ("interleaving", interleaved)):
        if _n == "repetition" and _w in ("schedule", "interleaving"):
            continue
        _g = _f(_spec)
        globals()[f"{_n}_{_w}".replace(" ", "_")] = case(
            f"{_n} code: {_w}", replays=replays(_n))(_g)


# ------------------------------------------------------- the schedule's functions
class Op:
    """The operator of link k of an arbitrary lattice: a stabiliser or not."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, w, k):
        self.w, self.k = w, k

    @property
    def pos(self):
        return (self.w.sx(self.k), self.w.sy(self.k))

    def pyvc_isinstance(self, cls):
        st = bool(self.w.stab(self.k))
        cs = cls if isinstance(cls, tuple) else (cls,)
        return any(issubclass(lb.StabGenVertex if st else lb.LogicalVertex, x)
                   for x in cs)

    def subst_(self, pairs):
        return Op(self.w, Q.subst(self.k, pairs))

    def terms_(self):
        yield intterm(self.k)


class Links:
    """A lattice with any number of links."""

    def __init__(self, c, cls):
        self.n = fresh_int("links", 0)
        self.sx, self.sy = C.fun_int("op_x", 1), C.fun_int("op_y", 1)
        self.qx, self.qy = C.fun_int("data_x", 1), C.fun_int("data_y", 1)
        self.stab = C.fun_bool("is_stabiliser", 1)
        self.old = C.fun_int("slot_before", 1)
        self.data = SStruct(lb.DataVertex, {
            "pos": lambda k: (self.qx(k), self.qy(k))}, "data")
        self.link = SStruct(lb.Edge, {
            "op": lambda k: Op(self, k), "data": lambda k: self.data(k),
            "measurement_time_step": lambda k: self.old(k)}, "link")
        lat = self.lat = cls.__new__(cls)
        c.run(lb.CodeLattice.__init__, lat, (3, 3))
        if set(vars(lat)) != {"lattice", "vertices", "dataqubits", "stabgens",
                              "logical_ops", "equbits", "edges", "n_time_steps"}:
            raise Unsupported("a lattice with other fields")
        lat.edges = SSeq(self.n, lambda k: self.link(k))
        lat.vertices = lat.dataqubits = lat.stabgens = lat.logical_ops = None
        lat.equbits = lat.lattice = None

    def pos(self, k):
        return (self.sx(k), self.sy(k)), (self.qx(k), self.qy(k))

    def slot(self, k):
        return self.link.fields["measurement_time_step"](k)


def pointwise(name, method, cls, args):
    """Every link gets the slot it would get alone."""
    @case(f"{name} on any number of links: {args}")
    def f(c):
        w = Links(c, cls)
        if c.raises(method, w.lat, *args) is not None:
            return            # which directions occur: see the cases on the codes
        n = w.lat.n_time_steps

        def go():
            k = fresh_int("k", 0, w.n)
            s, q = w.pos(k)
            lat = copy.copy(w.lat)
            try:
                t = one_link(c, lat, [(method, args, {})], s, q, bool(w.stab(k)),
                             w.old(k))
            except C.PyRaise as e:
                c.fail("no exception for one link", repr(e.exc))
                return
            c.prove(SBool(eq(w.slot(k), t)), "the slot of a link depends on it alone")
            c.prove(lat.n_time_steps == n if isinstance(n, int) else n is None,
                    "the number of slots")
        c.scope(go)
    return f


ORDERS = (((0, 1), (-1, 0), (1, 0), (0, -1)), ((1, 1), (-1, 1), (1, -1), (-1, -1)),
          ((-1, 1), (1, 0)))
for _i, _o in enumerate(ORDERS):
    globals()[f"order_{_i}"] = pointwise(
        "assign_stab_edge_order", lb.CodeLattice.assign_stab_edge_order, lb.CodeLattice,
        (_o,))
inverted = pointwise("inverted_order", li.RotatedPlanarCodeLattice.inverted_order,
                     li.RotatedPlanarCodeLattice, ())


@case("repetition code: even sizes")
def even(c):
    size = fresh_int("size", 0)
    cur().assume(SBool(intterm(size) % 2 == 0))
    L.Lattice(c)
    cls = li.RepetitionCodeLattice
    e = c.raises(cls.__init__, cls.__new__(cls), size)
    c.prove(isinstance(e, ValueError), "rejected")


# ------------------------------------------------------------------ LatticeCode
class Made:
    """A lattice of a class, with the arguments it was made with."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, cls, a, k, n, m, logs):
        self.cls, self.a, self.k = cls, a, k
        from contracts.common import fresh_array
        st = fresh_array("stabilisers", (m, 2 * n + 1), "u1")
        self.stabilisers = SSeq(m, lambda i: st[i])
        self.logical_operators = [fresh_array(f"logical{i}", (2 * n + 1,), "u1")
                                  for i in range(logs)]


def make(name, cls, logs, rest):
    @case(f"LatticeCode.make_{name}")
    def f(c):
        n, m = fresh_int("n", 1), fresh_int("m", 1)
        made = []

        def build(it, a, k):
            made.append(Made(cls, a, k, n, m, logs))
            return made[-1]
        c.contracts[cls] = build
        size, rounds = fresh_int("size", 2), fresh_int("rounds", 0)
        code = c.run(getattr(codes.LatticeCode, f"make_{name}").__func__,
                     codes.LatticeCode, rounds, size, *rest)
        c.prove(len(made) == 1, "one lattice is made")
        a, _ = L.bound(cls.__init__, [None, *made[0].a], made[0].k)
        b, _ = L.bound(cls.__init__, [None, size, *rest], {})
        c.prove(len(a) == len(b), "arguments")
        c.eqv(a[1], size, f"{c.name}: the size is handed on")
        c.prove(a[2:] == b[2:], "the variant is handed on")
        c.prove(code.lattice is made[0], "the code keeps the lattice")
        c.eqv(code.n_rounds, rounds, f"{c.name}: number of rounds")
        c.prove(code.stabilisers is made[0].stabilisers, "stabilisers")
        ops = made[0].logical_operators
        c.prove(code.logical_ops is ops, "logical operators")
        c.prove([id(x) for x in code.logical_x] == [id(x) for x in ops[::2]],
                "logical X operators")
        c.prove([id(x) for x in code.logical_z] == [id(x) for x in ops[1::2]],
                "logical Z operators")
        for what, want in (("n_data_qubits", n), ("n_stabgens", m),
                           ("n_logical_qubits", logs // 2), ("n_logical_ops", logs)):
            got = c.it.getattr(code, what)
            c.eqv(got, want, f"{c.name}: {what}")
    return f


make_planar = make("planar", li.PlanarCodeLattice, 2, ())
make_toric = make("toric", li.ToricCodeLattice, 4, ())
make_repetition = make("repetition", li.RepetitionCodeLattice, 2, ())
make_rotated = make("rotated_planar", li.RotatedPlanarCodeLattice, 2, ())
make_rotated_f = make("rotated_planar", li.RotatedPlanarCodeLattice, 2, (False,))
make_rotated_t = make("rotated_planar", li.RotatedPlanarCodeLattice, 2, (True,))
make_rotated_f.case.name += ", CSS"
make_rotated_t.case.name += ", XZZX"


# ------------------------------------------------------------------------ check
class Ops(SSeq):
    """A list of operators, known by its kind (stabilisers, logicals, X, Z)."""

    def __init__(self, n, kind):
        super().__init__(n, lambda k: ("operator", kind, k))
        self.kind_ = kind


def code_of(c):
    """Any code: (code, comm, number of logical qubits, stabilisers)"""
    k, m = fresh_int("k", 0), fresh_int("m", 0)
    comm = C.fun_bit("comm", 4)
    code = codes.StabilizerCode.__new__(codes.StabilizerCode)
    code.stabilisers = Ops(m, 0)
    code.logical_ops = Ops(2 * k, 1)
    code.logical_x = Ops(k, 2)
    code.logical_z = Ops(k, 3)

    def signs(it, a, kw):
        x, y = a[:2]
        if len(a) != 2 or kw or not (isinstance(x, Ops) and isinstance(y, Ops)):
            raise Unsupported("commutators of other things")
        return SArr.of(lambda i, j: comm(x.kind_, i, y.kind_, j), (x.n, y.n), "u1")
    c.contracts[P.commutator_sign] = signs
    c.contracts[codes.StabilizerCode.n_logical_qubits.fget] = lambda it, a, kw: k
    c.contracts[codes.StabilizerCode.n_stabgens.fget] = lambda it, a, kw: m
    return code, comm, k, m


def rules(comm, k, m):
    """(what, range, range, condition) of the relations of a valid code."""
    kk, mm = intterm(k), intterm(m)

    def t(a, i, b, j):
        return intterm(comm(a, SInt(i), b, SInt(j)))

    def eq1(i, j):
        return z3.If(i == j, z3.IntVal(1), z3.IntVal(0))
    return [
        ("logical X and Z", kk, kk, lambda i, j: t(2, i, 3, j) == eq1(i, j)),
        ("logical X", kk, kk, lambda i, j: t(2, i, 2, j) == 0),
        ("logical Z", kk, kk, lambda i, j: t(3, i, 3, j) == 0),
        ("stabilisers and logicals", mm, 2 * kk, lambda i, j: t(0, i, 1, j) == 0),
        ("stabilisers and logical X", mm, kk, lambda i, j: t(0, i, 2, j) == 0),
        ("stabilisers and logical Z", mm, kk, lambda i, j: t(0, i, 3, j) == 0),
        ("stabilisers", mm, mm, lambda i, j: t(0, i, 0, j) == 0)]


def alias(comm, k, i, j):
    """The logical operators are X and Z ones in turn (at i, j)."""
    t = lambda a, x, b, y: intterm(comm(a, SInt(x), b, SInt(y)))  # noqa: E731
    return SBool(z3.And(
        t(0, i, 1, j) == z3.If(j % 2 == 0, t(0, i, 2, j / 2), t(0, i, 3, j / 2)),
        t(0, i, 2, j) == t(0, i, 1, 2 * j), t(0, i, 3, j) == t(0, i, 1, 2 * j + 1)))


@case("check: a code which passes is valid")
def check_sound(c):
    code, comm, k, m = code_of(c)
    e = c.raises(codes.StabilizerCode.check, code)
    if e is not None:
        return
    for what, n1, n2, rule in rules(comm, k, m):
        def go():
            i, j = fresh_int("i", 0, SInt(n1)), fresh_int("j", 0, SInt(n2))
            cur().assume(alias(comm, k, i.t, j.t))
            c.prove(SBool(rule(i.t, j.t)), what)
        c.scope(go)


@case("check: a valid code passes")
def check_complete(c):
    code, comm, k, m = code_of(c)
    i, j = z3.Ints("i_ j_")
    for what, n1, n2, rule in rules(comm, k, m):
        cur().assume(SBool(z3.ForAll([i, j], z3.Implies(
            z3.And(i >= 0, i < n1, j >= 0, j < n2), rule(i, j)))))
    e = c.raises(codes.StabilizerCode.check, code)
    c.prove(e is None, "no complaint")


# ------------------------------------------------------- the codes without size
def single(name, cls, n, k):
    @case(f"{name} code: by evaluation",
          replays=lambda v: [("family", {"family": name, "size": 1})])
    def f(c):
        lat = cls()
        st = [pr.from_row(s) for s in lat.stabilisers]
        lo = [pr.from_row(s) for s in lat.logical_operators]
        c.prove(len(lat.dataqubits) == n and len(lo) == 2 * k, "numbers")
        c.prove(all(not pr.comm(a, b) for a in st for b in st + lo),
                "stabilisers commute")
        c.prove(all(bool(pr.comm(a, b)) == (i // 2 == j // 2 and i != j)
                    for i, a in enumerate(lo) for j, b in enumerate(lo)),
                "logical operators")
        c.prove(n - pr.rank(st, n) == k, "number of independent stabilisers")
    return f


five = single("five", li.FiveQubitCodeLattice, 5, 1)
shor = single("shor", li.ShorCodeLattice, 9, 1)
