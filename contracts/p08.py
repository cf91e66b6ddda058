"""P08: graph edits keep both ends consistent; operators and indices mirror the graph."""
import z3
from plaquette import pauli as P
from plaquette.codes import StabilizerCode
from plaquette.codes import latticebase as lb

from contracts import graph as G
from contracts import layout
from contracts.common import C, SArr, SBool, SInt, Unsupported, cur, fresh_int
from pyvc import seq as Q
from pyvc.contract import case
from pyvc.interp import Inv
from pyvc.text import SChar, SText, any_text

CL = lb.CodeLattice

FUNCTIONS = ["codes.latticebase.CodeLattice." + f for f in (
    "__init__", "add_data", "add_stabgen", "add_logical", "add_edge", "remove_edge",
    "remove_vertex", "assign_indices", "_vertices_to_operators")] + [
    "codes.latticebase.CodeLatticeFromStab.__init__",
    "codes.latticebase.CodeLatticeFromStab._add_edges_from_str",
    "codes.LatticeCode.__init__", "codes.LatticeCode.from_operators",
    "codes.StabilizerCode.__init__", "codes.StabilizerCode.logical_ops_to_indices"]
ASSUMPTIONS = [
    "the generated __init__ and __eq__ of the dataclasses Vertex and Edge: fresh empty "
    "lists; equality of vertices of a lattice is that of their positions, which differ",
    "positions are valid indices of the lattice array",
    "contracts of pauli_to_string and string_to_pauli as proved for P03"]


def ref(tag):
    return z3.Int(cur().name_for(tag))


def begin(c):
    h = G.Heap(c)
    lat = h.lattice()
    h.assume()
    return h, lat, h.snapshot()


def effect(c, h, old, **changed):
    """Exactly these list entries changed: list -> [(owner, reference, by)]."""
    for n in "VDSLQG":
        x = ref("x")
        d = sum(G.b2i(x == t) * k for _, t, k in changed.get(n, ()))
        c.prove(SBool(h.count(n, None, x) == old.count(n, None, x) + d),
                f"exactly the requested entries of {n} change")
    for n in "EN":
        o, x = ref("o"), ref("x")
        d = sum(G.b2i(z3.And(o == w, x == t)) * k for w, t, k in changed.get(n, ()))
        c.prove(SBool(h.count(n, o, x) == old.count(n, o, x) + d),
                f"exactly the requested entries of {n} change")
    p = ref("p")
    g = old.grid(p)
    for q, v in changed.get("grid", ()):
        g = z3.If(p == q, v, g)
    c.prove(SBool(h.grid(p) == g), "the rest of the lattice stays")


def kept(c, h, old, but=()):
    """Attributes of what was there stay."""
    for f in ("kind", "pos", "data", "op", "factor", "eqx"):
        x = ref("x")
        c.prove(SBool(z3.Implies(z3.And([x != b for b in but]),
                                 getattr(h, f)(x) == getattr(old, f)(x))),
                f"{f} of the others stays")


def adder(name, cls, args):
    @case(f"P08 {name}")
    def add(c):
        h, lat, old = begin(c)
        p = ref("at")
        r = c.raises(getattr(CL, name), lat, G.Pos(p), *args)
        if r is not None:
            c.prove(SBool(old.grid(p) != -1), "rejected only where there is a vertex")
            h.prove(c, " (rejected)")
            return
        c.prove(SBool(old.grid(p) == -1), "not on top of another vertex")
        c.prove(len(h.made) == 1, "one vertex is made")
        if len(h.made) != 1:
            return
        v = h.made[0].t
        lst = "DSL"[G.KIND[cls]]
        effect(c, h, old, V=[(None, v, 1)], **{lst: [(None, v, 1)]}, grid=[(p, v)])
        kept(c, h, old, but=[v])
        c.prove(SBool(z3.And(h.kind(v) == G.KIND[cls], h.pos(v) == p,
                             h.eqx(v) == lb.NO_INDEX)), "the vertex is what was asked for")
        at = h.attrs[v]
        for k, want in zip(("group",) if cls is lb.StabGenVertex else ("name",), args):
            c.prove(at.get(k) is want or at.get(k) == want, f"its {k}")
        h.prove(c)
    return add


add_data = adder("add_data", lb.DataVertex, ())
add_stabgen = adder("add_stabgen", lb.StabGenVertex, (lb.StabGroup.B,))
add_logical = adder("add_logical", lb.LogicalVertex, ("the name",))


@case("P08 add_edge")
def add_edge(c):
    h, lat, old = begin(c)
    d, o, f = ref("data"), ref("op"), ref("factor")
    s = cur()
    s.assume(SBool(z3.And(old.count("D", None, d) == 1, old.count("V", None, o) == 1,
                          old.kind(o) != 0, f >= 1, f <= 3)))
    h.know([d, o])
    r = c.raises(CL.add_edge, lat, G.Vx(h, d), G.Vx(h, o), SInt(f))
    linked = old.count("N", o, d) == 1
    if r is not None:
        c.prove(SBool(linked), "rejected only if there is a link already")
        h.prove(c, " (rejected)")
        return
    c.prove(SBool(z3.Not(linked)), "no second link")
    c.prove(len(h.made) == 1, "one link is made")
    if len(h.made) != 1:
        return
    e = h.made[0].t
    effect(c, h, old, G=[(None, e, 1)], E=[(d, e, 1), (o, e, 1)],
           N=[(d, o, 1), (o, d, 1)])
    kept(c, h, old, but=[e])
    c.prove(SBool(z3.And(h.data(e) == d, h.op(e) == o, h.factor(e) == f)),
            "the link is what was asked for")
    h.prove(c)


@case("P08 remove_edge")
def remove_edge(c):
    h, lat, old = begin(c)
    e = ref("link")
    h.know([], [e])
    h.of_interest = [e]
    r = c.raises(CL.remove_edge, lat, G.Ed(h, e))
    there = old.count("G", None, e) == 1
    if r is not None:
        c.prove(SBool(z3.Not(there)), "rejected only if it is not in the lattice")
        h.prove(c, " (rejected)")
        return
    c.prove(SBool(there), "only links of the lattice")
    d, o = old.data(e), old.op(e)
    effect(c, h, old, G=[(None, e, -1)], E=[(d, e, -1), (o, e, -1)],
           N=[(d, o, -1), (o, d, -1)])
    kept(c, h, old)
    h.prove(c)


def remover(cls, kind):
    @case(f"P08 remove_vertex ({cls.__name__})")
    def remove(c):
        h, lat, old = begin(c)
        v = ref("vertex")
        cur().assume(SBool(old.kind(v) == kind))
        h.know([v], [], [old.pos(v)])
        r = c.raises(CL.remove_vertex, lat, G.Vx(h, v))
        there = old.count("V", None, v) == 1
        e = ref("any")
        h.know([v], [e])
        free = old.length("E", v) == 0
        if r is not None:
            c.prove(SBool(z3.Or(z3.Not(there), z3.Not(free))),
                    "rejected only if it has links or is not in the lattice")
            h.prove(c, " (rejected)")
            return
        c.prove(SBool(there), "only vertices of the lattice")
        c.prove(SBool(old.count("E", v, e) == 0), "only vertices without links")
        lst = {"DSL"[kind]: [(None, v, -1)]}
        indexed = G.b2i(old.eqx(v) != lb.NO_INDEX)
        effect(c, h, old, V=[(None, v, -1)], Q=[(None, v, -indexed)],
               grid=[(old.pos(v), z3.IntVal(-1))], **lst)
        kept(c, h, old, but=[v])
        h.prove(c)
    return remove


remove_data = remover(lb.DataVertex, 0)
remove_stab = remover(lb.StabGenVertex, 1)
remove_logical = remover(lb.LogicalVertex, 2)


# ------------------------------------------------------------------------- indices
FIELDS = {"dataqubits": ("data", lb.DataVertex, "dataqubit_idx"),
          "stabgens": ("stab", lb.StabGenVertex, "stabgen_idx"),
          "logical_ops": ("logical", lb.LogicalVertex, "logical_idx")}


@case("P08 assign_indices")
def assign_indices(c):
    lat = CL.__new__(CL)
    c.run(CL.__init__, lat, (2, 2))
    sizes, recs = {}, {}
    for name, (tag, cls, field) in FIELDS.items():
        n = sizes[name] = fresh_int(f"n_{tag}", 0)
        st = recs[name] = Q.SStruct(cls, {
            f: C.fun_int(f"old_{tag}_{f}", 1) for f in (field, "equbit_idx")}, tag)
        setattr(lat, name, Q.SSeq(n, st))
    lat.equbits = [object()]
    c.run(CL.assign_indices, lat)
    base = 0
    want = []
    for name, (tag, cls, field) in FIELDS.items():
        n, st = sizes[name], recs[name]

        def one(n=n, st=st, field=field, name=name, base=base):
            i = fresh_int("i", 0, n)
            c.prove(c.it.compare("==", c.it.getattr(st(i), field), i),
                    f"{field} is the position in {name}")
            c.prove(c.it.compare("==", c.it.getattr(st(i), "equbit_idx"), base + i),
                    "equbit_idx is the position in equbits")
        c.scope(one)
        want.append(Q.Each(n, lambda k, st=st: [st(k)]))
        base = base + n
        c.prove(lat.__dict__[name].n is n or SBool(C.eq(lat.__dict__[name].n, n)),
                f"{name} is kept")
    c.emissions(Q.parts(lat.equbits), want, "equbits are data, stabilisers, logicals")


# --------------------------------------------------------------- requested operators
def code_with(c, n):
    """A code with n logical operators."""
    code = object.__new__(StabilizerCode)
    rows = C.fun_int("row", 1)
    code.logical_ops = Q.SSeq(n, lambda k: rows(k))
    return code


@case("P08 logical_ops_to_indices (letters)")
def letters(c):
    n = fresh_int("qubits", 0)
    m = fresh_int("length", 0)
    code = code_with(c, 2 * n)
    text = any_text("text", m, "XZYIxz 0")
    r = c.raises(StabilizerCode.logical_ops_to_indices, code, text)
    valid = C.land(SBool(C.eq(m, n)), Q.quant(
        "all", m, lambda k: C.lor(text.at(k) == "X", text.at(k) == "Z")))
    if r is not None:
        c.prove(isinstance(r, ValueError), "invalid requests raise ValueError")
        c.prove(C.lnot(valid), "only invalid requests are rejected")
        return
    c.prove(valid, "exactly one X or Z per logical qubit")
    c.emissions(Q.parts(c.result), [Q.Each(n, lambda k: [
        2 * k + C.ite(text.at(k) == "Z", 1, 0)])],
        "2q for the X operator of qubit q, 2q + 1 for Z")


@case("P08 logical_ops_to_indices (numbers)")
def numbers(c):
    n = fresh_int("qubits", 0)
    m = fresh_int("length", 0)
    code = code_with(c, 2 * n)
    f = C.fun_int("request", 1)
    r = c.raises(StabilizerCode.logical_ops_to_indices, code, Q.SSeq(m, lambda k: f(k)))
    valid = C.land(SBool(C.eq(m, n)), Q.quant(
        "all", m, lambda k: C.land(f(k) >= 0, f(k) < 2 * n)))
    if r is not None:
        c.prove(isinstance(r, ValueError), "invalid requests raise ValueError")
        c.prove(C.lnot(valid), "only invalid requests are rejected")
        return
    c.prove(valid, "one valid index per logical qubit")
    c.emissions(Q.parts(c.result), [Q.Each(n, lambda k: [f(k)])], "the same indices")


# ------------------------------------------------------------------- custom codes
LETTERS = {"X": lb.Pauli.X, "Y": lb.Pauli.Y, "Z": lb.Pauli.Z}


def operators(c, name, m, n, sign):
    """m strings of n letters each; sign: which of them start with + or -."""
    f = z3.Function(cur().name_for(name), z3.IntSort(), z3.IntSort(), z3.IntSort())
    sg = C.fun_bit(name + "_signed", 1)
    i, j = z3.Ints("i! j!")
    cur().assume(SBool(z3.ForAll([i, j], z3.Or([f(i, j) == ord(x) for x in "IXYZ"]))))
    minus = C.fun_bit(name + "_minus", 1)

    def letter(k, q):
        return SChar(SInt(f(C.intterm(k), C.intterm(q))))

    def text(k):
        body = SText(n, lambda q: letter(k, q))
        if not sign:
            return body
        s = SChar(C.ite(SBool(C.eq(minus(k), 1)), ord("-"), ord("+")))
        has = SBool(C.eq(sg(k), 1))
        return SText(n + C.ite(has, 1, 0), lambda q: SChar(C.ite(
            has, C.ite(SBool(C.eq(q, 0)), s.code, letter(k, q - 1).code),
            letter(k, q).code)))
    return Q.SSeq(m, text), letter


def same_link(c):
    def eqv(a, b, name):
        ok = isinstance(a, layout.E) and isinstance(b, layout.E)
        if not ok:
            return c.eqv(a, b, name)
        c.s.prove(SBool(z3.And(layout.same(a.data.pos, b.data.pos),
                               layout.same(a.op.pos, b.op.pos),
                               C.eq(a.factor, b.factor))), name)
    return eqv


@case("P08 CodeLatticeFromStab")
def from_strings(c):
    n, ms, ml = fresh_int("n", 1), fresh_int("stabs", 0), fresh_int("logs", 0)
    lay = layout.Lattice(c)
    stabs, sl = operators(c, "stab", ms, n, True)
    logs, ll = operators(c, "log", ml, n, True)
    lat = lb.CodeLatticeFromStab.__new__(lb.CodeLatticeFromStab)
    c.run(lb.CodeLatticeFromStab.__init__, lat, n, stabs, logs)
    c.prove(len(lay.calls) == 1 and lay.calls[0][0] is CL.assign_indices,
            "indices are assigned once, at the end")

    def links(letter, m, col, cls):
        def f(k, q):
            l = letter(k, q)
            fac = C.ite(l == "X", 1, C.ite(l == "Y", 2, 3))
            return [Q.IfE(l != "I", [layout.E(
                layout.V((q, 1), lb.DataVertex), layout.V((k, col), cls), fac)], [])]
        return Q.Each(m, lambda k: [Q.Each(n, lambda q: f(k, q))])
    c.emissions(Q.parts(lat.edges), [links(sl, ms, 0, lb.StabGenVertex),
                                     links(ll, ml, 2, lb.LogicalVertex)],
                "links are the letters other than I", same_link(c))


# --------------------------------------------------------- operators from the links
class Factor:
    """A Pauli factor; its name is a letter."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, v):
        self.v = v

    def subst_(self, pairs):
        return Factor(Q.subst(self.v, pairs))

    def terms_(self):
        yield C.intterm(self.v)

    @property
    def name(self):
        return SChar(C.ite(self.v == 1, ord("X"), C.ite(self.v == 2, ord("Y"), ord("Z"))))

    def pyvc_ite(self, c, o):
        return Factor(C.ite(c, self.v, o.v))


class Linked:
    """m operator vertices; op k has L(k) links, the j-th to data qubit idx(k, j) with
    factor fac(k, j); no two to the same data qubit (see add_edge)."""

    def __init__(self, c, m, n):
        s = cur()
        self.m, self.n = m, n
        self.L = C.fun_int("links", 1, 0)
        self.idx, self.fac = C.fun_int("idx", 2), C.fun_int("fac", 2)
        # which link of op k goes to data qubit q, if any
        self.on, self.which = C.fun_bool("on", 2), C.fun_int("which", 2)
        k, j, q = z3.Ints("k! j! q!")
        i = self.idx.z3
        s.assume(SBool(z3.ForAll([k, j], z3.Implies(
            z3.And(0 <= j, j < self.L.z3(k)),
            z3.And(i(k, j) >= 0, i(k, j) < n.t, self.on.z3(k, i(k, j)),
                   self.which.z3(k, i(k, j)) == j, self.fac.z3(k, j) >= 1,
                   self.fac.z3(k, j) <= 3)), patterns=[i(k, j)])))
        w = self.which.z3(k, q)
        s.assume(SBool(z3.ForAll([k, q], z3.Implies(self.on.z3(k, q), z3.And(
            w >= 0, w < self.L.z3(k), i(k, w) == q)), patterns=[self.on.z3(k, q)])))
        data = Q.SStruct(lb.DataVertex, {"dataqubit_idx": lambda a, b: self.idx(a, b)},
                         "data")
        edge = Q.SStruct(lb.Edge, {"data": data, "factor":
                                   lambda a, b: Factor(self.fac(a, b))}, "edge")
        self.ops = Q.SSeq(m, Q.SStruct(lb.StabGenVertex, {
            "edges": lambda a: Q.SSeq(self.L(a), lambda b: edge(a, b))}, "op"))

    def letter(self, k, q):
        """Code of the letter of op k at qubit q."""
        f = self.fac(k, self.which(k, q))
        return C.ite(self.on(k, q), Factor(f).name.code, ord("I"))


def as_text(v):
    """The characters of a string."""
    if isinstance(v, Q.FStr):
        r = ""
        for p in v.parts:
            r = SText.of(r) + as_text(p)
        return r
    if isinstance(v, Q.Joined) and not v.sep and not v.loose:
        from pyvc.text import joined
        t = joined(None, v.lines)
        if t is not None:
            return t
    if isinstance(v, (str, SText, SChar)):
        return SText.of(v)
    raise Unsupported("a string of another kind")


class Growing(Inv):
    """The text of an operator up to the last link seen so far (in order of qubits)."""

    def __init__(self, var, k, n, at, links):
        self.name = "operator text"
        self.vars, self.var, self.k_, self.n, self.at = (var,), var, k, n, at
        self.links = links

    def length(self, j):
        return C.ite(j > 0, self.at(j - 1) + 1, 0)

    def check(self, it, env, j, name):
        s, t = cur(), as_text(env.vars[self.var])
        want = self.length(j) if not isinstance(j, int) else 0
        s.prove(SBool(C.eq(t.n, want)), name + ": length")

        def go():
            p = fresh_int("p", 0, want)
            s.prove(SBool(C.eq(t.at(p).code, self.links.letter(self.k_, p))),
                    name + ": letters")
        s.each(go, name)

    def havoc(self, it, env, j):
        m = self.length(j)
        cur().assume(m >= 0)
        env.vars[self.var] = SText(m, lambda p: SChar(self.links.letter(self.k_, p)))


def growing(links, which):
    def provide(it, s, env, sv):
        from pyvc.interp import assigned
        vs = [v for v in assigned(s.body) if isinstance(env.vars.get(v), (str, SText))]
        if len(vs) != 1:
            return None
        k = which(env)
        return None if k is None else Growing(vs[0], k, sv[0], sv[1], links)
    return provide


@case("P08 operators are the links")
def from_links(c):
    m, n = fresh_int("ops", 0), fresh_int("n", 1)
    links = Linked(c, m, n)
    lat = CL.__new__(CL)

    def which(env):
        for v in env.vars.values():
            if isinstance(v, Q.SElem) and v.struct.name == "op":
                return v.idx[0]

    def string_to_pauli(it, a, k):
        a, k = layout.bound(P.string_to_pauli, a, k)
        t, nq = as_text(a[0]), a[1]
        c.prove(nq is n or SBool(C.eq(nq, n)), "on all data qubits")
        c.prove(t.n <= n, "no more letters than qubits")

        def bits(j):
            q = C.ite(j < n, j, j - n)
            l = t.at(q)
            on = C.ite(j < n, C.lor(l == "X", l == "Y"), C.lor(l == "Y", l == "Z"))
            return C.ite(C.land(j < 2 * n, q < t.n, on), 1, 0)
        return SArr.of(bits, (2 * n + 1,), "u1")
    c.contracts[P.string_to_pauli] = string_to_pauli
    c.provider = growing(links, which)
    r = c.run(CL._vertices_to_operators, lat, links.ops, n)

    def want(k):
        def bits(j):
            q = C.ite(j < n, j, j - n)
            l = SChar(links.letter(k, q))
            on = C.ite(j < n, C.lor(l == "X", l == "Y"), C.lor(l == "Y", l == "Z"))
            return C.ite(C.land(j < 2 * n, on), 1, 0)
        return SArr.of(bits, (2 * n + 1,), "u1")
    c.emissions(Q.parts(r), [Q.Each(m, lambda k: [want(k)])],
                "the Pauli of each link, identity elsewhere, no sign")


# ------------------------------------------------------------------- the round trip
class Token:
    """A marker for something which is only handed over."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, what):
        self.what = what


@case("P08 from_operators")
def from_operators(c):
    from plaquette import codes
    n, ms, ml = fresh_int("n", 1), fresh_int("stabs", 1), fresh_int("logs", 0)
    sb, lb_ = C.fun_bit("stab", 2), C.fun_bit("log", 2)

    def row(f, k):
        r = SArr.of(lambda j: f(k, j), (2 * n + 1,), "u1")
        r.row_of = (f, k)
        return r

    def rows(f, m):
        return Q.SSeq(m, lambda k: row(f, k))
    made, got = [], []
    lattice = Token("lattice")

    def text(it, a, k):
        a, k = layout.bound(P.pauli_to_string, a, k)
        c.prove(tuple(a[1:]) in ((), (True,)), "with all identities")
        return ("text of", a[0])

    def from_stab(it, a, k):
        a, k = layout.bound(lb.CodeLatticeFromStab.__init__, [None] + list(a), k)
        made.append(list(a[1:]))
        return lattice

    def code(it, a, k):
        got.append(list(a))
        return Token("code")
    c.contracts[P.pauli_to_string] = text
    c.contracts[lb.CodeLatticeFromStab] = from_stab
    c.contracts[codes.LatticeCode] = code
    rounds = fresh_int("rounds", 1)
    c.run(codes.LatticeCode.from_operators.__func__, codes.LatticeCode,
          rows(sb, ms), rows(lb_, ml), rounds)
    c.prove(len(made) == 1 and len(made[0]) == 3 and len(got) == 1 and
            len(got[0]) == 2 and got[0][0] is lattice,
            "one lattice from the texts, one code from the lattice")
    c.prove(SBool(C.eq(got[0][1], rounds)), "number of rounds")
    c.prove(SBool(C.eq(made[0][0], n)), "number of qubits")

    def same_text(a, b, name):
        c.s.prove(isinstance(a, tuple) and a[0] == "text of", name)
        c.arrays_equal(a[1], b, name)
    for v, f, m, what in ((made[0][1], sb, ms, "stabilisers"),
                          (made[0][2], lb_, ml, "logical operators")):
        c.emissions(Q.parts(v), [Q.Each(m, lambda k, f=f: [row(f, k)])],
                    f"texts of the {what}, in order", same_text)


@case("P08 LatticeCode keeps the operators of its lattice")
def keep(c):
    from plaquette import codes
    n, ms, ml = fresh_int("n", 1), fresh_int("stabs", 1), fresh_int("pairs", 1)
    sb, lb_ = C.fun_bit("stab", 2), C.fun_bit("log", 2)

    def rows(f, m):
        return Q.SSeq(m, lambda k: SArr.of(lambda j: f(k, j), (2 * n + 1,), "u1"))
    st, lo = rows(sb, ms), rows(lb_, 2 * ml)
    lat = lb.CodeLattice.__new__(lb.CodeLattice)
    c.contracts[lb.CodeLattice.stabilisers.fget] = lambda it, a, k: st
    c.contracts[lb.CodeLattice.logical_operators.fget] = lambda it, a, k: lo
    code = codes.LatticeCode.__new__(codes.LatticeCode)
    rounds = fresh_int("rounds", 1)
    c.run(codes.LatticeCode.__init__, code, lat, rounds)

    def same(a, b, name):
        c.arrays_equal(a, b, name)
    for v, w, what in (
            (code.stabilisers, [Q.Each(ms, lambda k: [st[k]])], "stabilisers"),
            (code.logical_ops, [Q.Each(2 * ml, lambda k: [lo[k]])], "logical operators"),
            (code.logical_x, [Q.Each(ml, lambda k: [lo[2 * k]])], "logical X: even ones"),
            (code.logical_z, [Q.Each(ml, lambda k: [lo[2 * k + 1]])],
             "logical Z: odd ones")):
        c.emissions(Q.parts(v), w, what, same)
    c.prove(code.lattice is lat, "its lattice")
    c.prove(SBool(C.eq(code.n_rounds, rounds)), "its rounds")
