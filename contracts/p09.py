"""P09: removing data qubits keeps the code valid."""
import z3
from plaquette.codes import latticebase as lb
from plaquette.codes.latticeinstances import PlanarCodeLattice

from contracts import links as L
from contracts.common import C, SBool, SInt, Unsupported, cur
from contracts.links import Edited, Map, Op, prod, ref
from pyvc.contract import case

CL = lb.CodeLattice

FUNCTIONS = ["codes.latticebase.CodeLattice." + f for f in (
    "create_superstab", "create_superstab_from_edges", "multiply_logical_with_stab",
    "remove_stabilizer", "remove_dataqubit", "_handle_dataqubit_edgegroups",
    "_boundary_qubit_remove_stabilizer", "_boundary_qubit_join_stabilizers",
    "apply_fabrication_errors")]
ASSUMPTIONS = [
    "contracts of add_edge, remove_edge, remove_vertex as proved for P08",
    "the parity over all qubits of a pointwise sum is the sum of the parities",
    "at most three X and three Z stabilisers act on the removed qubit, one logical qubit",
    "fabrication_err_keep_gauge is 'none' (superstabilisers)"]


class Opaque:
    pyvc_ok = True
    __hash__ = None

    def __getattr__(self, name):
        if name.startswith("pyvc_") or name.endswith("_"):
            raise AttributeError(name)
        raise Unsupported("direct use of a list of the lattice")


def lattice(m, keep="none", join=False):
    lat = PlanarCodeLattice.__new__(PlanarCodeLattice)
    for n in ("vertices", "dataqubits", "stabgens", "logical_ops", "equbits", "edges",
              "lattice"):
        setattr(lat, n, Opaque())
    lat.n_time_steps = None
    lat.fabrication_err_keep_gauge = keep
    lat.fabrication_err_boundary_join = join
    return lat


def editing(m, src, after):
    """Loops over the links of src have this effect on the others."""
    def provide(it, s, env, sv):
        d, i, p = m.listing(src)
        if not sv[0].t.eq(d):
            return None
        inv = Edited(m, sv[1], src, p, after)
        inv.src = src
        return inv
    return provide


def rows(c, m, want, alive):
    o, q = ref("o"), ref("q")
    c.prove(SBool(m.F(o, q) == want(o, q)), "exactly the requested links change")
    c.prove(SBool(m.alive(o) == alive(o)), "exactly the requested vertices stay")


def differ(F, a, b):
    q = z3.Int("q!d")
    return SBool(z3.Exists([q], z3.And(F(a, q) != 0, F(b, q) != 0, F(a, q) != F(b, q))))


def before(m):
    F, A = m.F, m.alive
    return F, A


def combining(name, fn, first, second, kinds, gone):
    """fn(first, second) multiplies first with second, which is removed if gone."""
    @case(name)
    def go(c):
        m = Map(c)
        lat = lattice(m)
        a, b = ref(first), ref(second)
        s = cur()
        s.assume(SBool(z3.And(a != b, m.alive(a), m.alive(b), m.kind(a) == kinds[0],
                              m.kind(b) == kinds[1])))
        F, A = before(m)

        def after(F, o, q):
            new = prod(F(a, q), F(b, q))
            return z3.If(o == a, new, z3.If(o == b, 0, F(o, q)) if gone else F(o, q))
        c.provider = editing(m, b, after)
        r = c.raises(getattr(CL, fn), lat, Op(m, a), Op(m, b))
        if r is not None:
            c.prove(isinstance(r, AssertionError), "rejected by an assertion")
            c.prove(differ(F, a, b), "rejected only if they differ on a qubit")
            return
        rows(c, m, lambda o, q: after(F, o, q),
             lambda o: z3.And(A(o), o != b) if gone else A(o))
    return go


superstab = combining("P09 create_superstab", "create_superstab", "keep", "remove",
                      (L.STAB, L.STAB), True)
multiply = combining("P09 multiply_logical_with_stab", "multiply_logical_with_stab",
                     "logical", "stab", (L.LOGICAL, L.STAB), False)


@case("P09 remove_stabilizer")
def remove_stabilizer(c):
    m = Map(c)
    lat = lattice(m)
    b = ref("stab")
    cur().assume(SBool(z3.And(m.alive(b), m.kind(b) == L.STAB)))
    F, A = before(m)
    c.provider = editing(m, b, lambda F, o, q: z3.If(o == b, 0, F(o, q)))
    c.run(CL.remove_stabilizer, lat, Op(m, b))
    rows(c, m, lambda o, q: z3.If(o == b, 0, F(o, q)),
         lambda o: z3.And(A(o), o != b))


# ------------------------------------------------------- removing a data qubit
def anti(f, g):
    return z3.And(f != 0, g != 0, f != g)


def xor(ts):
    r = z3.BoolVal(False)
    for t in ts:
        r = z3.Xor(r, t)
    return r


class Code:
    """A valid CSS code with one logical qubit: every op is of one type, all stabilisers
    commute with everything, the two logical operators anticommute.  C(a, b): whether two
    ops anticommute, i.e. the parity over all qubits p of anti(F(a, p), F(b, p))."""

    def __init__(self, m):
        s = cur()
        self.m, self.F, self.A = m, m.F, m.alive
        self.lx, self.lz = ref("logical_x"), ref("logical_z")
        self.T = z3.Function(s.name_for("type"), L.I, L.I)
        self.C = z3.Function(s.name_for("anticommute"), L.I, L.I, z3.BoolSort())
        a, b, q = z3.Ints("a! b! q!")
        F, A, T, K = m.F, m.alive, self.T, m.kind
        s.assume(SBool(z3.And(self.lx != self.lz, T(self.lx) == 1, T(self.lz) == 3,
                              A(self.lx), A(self.lz))))
        for t, vs, ps in (
                (z3.And(z3.Or(T(a) == 1, T(a) == 3)), [a], [T(a)]),
                (z3.Implies(A(a), (K(a) == L.LOGICAL) == z3.Or(
                    a == self.lx, a == self.lz)), [a], [A(a)]),
                (z3.Or(F(a, q) == 0, z3.And(A(a), F(a, q) == T(a))), [a, q], [F(a, q)]),
                (z3.Implies(z3.And(A(a), A(b)), self.C(a, b) == self.want(a, b)),
                 [a, b], [self.C(a, b)])):
            s.assume(SBool(z3.ForAll(vs, t, patterns=ps)))
        # every op as a product of the ops of the start: [(condition, op)]
        self.parts = lambda o: [(z3.BoolVal(True), o)]
        self.products = []

    def want(self, a, b):
        return z3.Or(z3.And(a == self.lx, b == self.lz), z3.And(a == self.lz, b == self.lx))

    def multiply(self, a, b):
        old = self.parts
        self.parts = lambda o: old(o) + [(z3.And(o == a, c), r) for c, r in old(b)]
        self.products.append((a, b))

    def still(self, c, q):
        """Valid again, and nothing acts on qubit q."""
        m, F = self.m, self.F
        a, b, p = ref("a"), ref("b"), ref("p")
        live = z3.And(m.alive(a), m.alive(b))

        def imp(cond, t, name):
            c.prove(SBool(z3.Implies(cond, t)), name)
        imp(live, z3.And(self.A(a), self.A(b)), "no op comes from nowhere")
        c.prove(SBool(z3.And(m.alive(self.lx), m.alive(self.lz))),
                "the logical operators stay")
        imp(m.alive(a), m.F(a, q) == 0, "no op acts on the removed qubit")
        c.prove(SBool(z3.Or(m.F(a, p) == 0, z3.And(m.alive(a), m.F(a, p) == self.T(a)))),
                "every op is of one type")
        pa, pb = self.parts(a), self.parts(b)
        pairs = [(z3.And(x, y), r, t) for x, r in pa for y, t in pb]
        imp(z3.And(live, p != q), anti(m.F(a, p), m.F(b, p)) == xor(
            z3.And(w, anti(F(r, p), F(t, p))) for w, r, t in pairs),
            "ops are products of the old ones, except at the removed qubit")
        # the parity over all qubits of a sum is the sum of the parities
        new = z3.Xor(xor(z3.And(w, self.C(r, t)) for w, r, t in pairs),
                     xor(z3.And(w, anti(F(r, q), F(t, q))) for w, r, t in pairs))
        imp(live, new == self.want(a, b),
            "stabilisers commute with everything, the logical pair anticommutes")


def edits(c, m, code):
    """Contracts of the methods above, on the links."""
    from contracts import layout

    def same(it, F, a, b):
        if bool(differ(F, a, b)):
            C.raise_(AssertionError, "different factors")

    def create_superstab(it, args, k):
        args, k = layout.bound(CL.create_superstab, args, k)
        a, b = args[1].t, args[2].t
        c.prove(SBool(z3.And(a != b, m.alive(a), m.alive(b), m.kind(a) == L.STAB,
                             m.kind(b) == L.STAB)), "superstabiliser of two stabilisers")
        F, A = before(m)
        same(it, F, a, b)
        m.F = lambda o, q: z3.If(o == a, prod(F(a, q), F(b, q)),
                                 z3.If(o == b, 0, F(o, q)))
        m.alive = lambda o: z3.And(A(o), o != b)
        code.multiply(a, b)

    def multiply(it, args, k):
        args, k = layout.bound(CL.multiply_logical_with_stab, args, k)
        a, b = args[1].t, args[2].t
        c.prove(SBool(z3.And(m.alive(a), m.alive(b), m.kind(a) == L.LOGICAL,
                             m.kind(b) == L.STAB)), "logical times stabiliser")
        F = m.F
        same(it, F, a, b)
        m.F = lambda o, q: z3.If(o == a, prod(F(a, q), F(b, q)), F(o, q))
        code.multiply(a, b)

    def remove_stab(it, args, k):
        args, k = layout.bound(CL.remove_stabilizer, args, k)
        b = args[1].t
        c.prove(SBool(z3.And(m.alive(b), m.kind(b) == L.STAB)), "removes a stabiliser")
        F, A = before(m)
        m.F = lambda o, q: z3.If(o == b, 0, F(o, q))
        m.alive = lambda o: z3.And(A(o), o != b)
    c.contracts[CL.create_superstab] = create_superstab
    c.contracts[CL.multiply_logical_with_stab] = multiply
    c.contracts[CL.remove_stabilizer] = remove_stab


def removal(nx, nz):
    """A qubit with nx X stabilisers and nz Z stabilisers."""
    @case(f"P09 remove_dataqubit ({nx} X and {nz} Z stabilisers)")
    def remove(c):
        s = cur()
        m = Map(c)
        code = Code(m)
        edits(c, m, code)
        q = ref("qubit")
        join = bool(C.fresh_bool("boundary_join"))
        lat = lattice(m, "none", join)
        on = {1: bool(C.fresh_bool("on_logical_x")), 3: bool(C.fresh_bool("on_logical_z"))}
        xs = [(ref("x_stab"), 1) for _ in range(nx)]
        zs = [(ref("z_stab"), 3) for _ in range(nz)]
        stabs = xs + zs if bool(C.fresh_bool("x_first")) else zs + xs
        logs = [(o, t) for o, t in ((code.lx, 1), (code.lz, 3)) if on[t]]
        ops = logs + stabs if bool(C.fresh_bool("logicals_first")) else stabs + logs
        for o, t in stabs:
            s.assume(SBool(z3.And(m.alive(o), m.kind(o) == L.STAB)))
        if len(ops) > 1:
            s.assume(SBool(z3.Distinct([o for o, _ in ops])))
        for o, t in ops:
            s.assume(SBool(z3.And(code.T(o) == t, m.F(o, q) == t)))
        o = z3.Int("o!")
        s.assume(SBool(z3.ForAll([o], z3.Or(
            [m.F(o, q) == 0] + [o == w for w, _ in ops]))))
        m.qubit_edges = [L.Link(m, w, q, z3.IntVal(t)) for w, t in ops]
        r = c.raises(CL.remove_dataqubit, lat, L.Qb(m, q))
        if r is not None:
            lost = on[1] and nx == 0 or on[3] and nz == 0
            if isinstance(r, lb.NoLogicalOperatorError):
                c.prove(lost, "given up only if a logical operator cannot be moved")
            else:
                c.prove(isinstance(r, ValueError) and max(nx, nz) > 2,
                        "other errors only for more than two stabilisers of a type")
            return
        code.still(c, q)
        x = ref("x")
        c.prove(SBool(m.live_q(x) == (x != q)), "exactly this qubit is removed")
    return remove


for _x in range(4):
    for _z in range(4):
        globals()[f"removal_{_x}_{_z}"] = removal(_x, _z)


def applying(k):
    @case(f"P09 apply_fabrication_errors ({k} qubits to remove)")
    def apply(c):
        from contracts import layout
        m = Map(c)
        old_keep = "all" if bool(C.fresh_bool("kept_all")) else "none"
        old_join = bool(C.fresh_bool("joined"))
        lat = lattice(m, old_keep, old_join)
        keep = "none" if bool(C.fresh_bool("keep_given")) else None
        join = bool(C.fresh_bool("join")) if bool(C.fresh_bool("join_given")) else None
        qs = [lb.DataVertex(pos=(3 * j % 4, j)) for j in range(k)]
        asked, done = [], []
        given = [object() for _ in range(3)]
        names = ("faulty_qubits", "faulty_gates", "faulty_stabilizers")

        def which(it, a, kw):
            a, kw = layout.bound(CL._fabrication_errors_get_remove_qubits, a, kw)
            asked.append(list(a[1:]))
            return {q.pos: q for q in qs}

        def remove(it, a, kw):
            done.append((lat.fabrication_err_keep_gauge,
                         lat.fabrication_err_boundary_join, a[1]))
        c.contracts[CL._fabrication_errors_get_remove_qubits] = which
        c.contracts[CL.remove_dataqubit] = remove
        c.contracts[CL.assign_indices] = lambda it, a, kw: done.append("indices")
        kw = dict(zip(names, given))
        if keep is not None:
            kw["keep_gauge"] = keep
        if join is not None:
            kw["boundary_join"] = join
        c.run(CL.apply_fabrication_errors, lat, **kw)
        c.prove(len(asked) == 1 and len(asked[0]) == 3 and
                all(x is y for x, y in zip(asked[0], given)), "of the given faults")
        c.prove(len(done) == k + 1 and done[-1] == "indices",
                "every qubit once, then the indices")
        c.prove(all(sum(d[2] is q for d in done[:-1]) == 1 for q in qs),
                "exactly the qubits to remove")
        c.prove(all(d[0] == (keep or old_keep) and d[1] == (
            old_join if join is None else join) for d in done[:-1]),
            "with the requested strategy")
    return apply


for _x in range(4):
    globals()[f"applying_{_x}"] = applying(_x)
