"""P06: reset, destructive measurement, inserting qubits."""
import itertools

import z3
from plaquette import pauli as P

from contracts import measurebase
from contracts.common import (C, GATES, SArr, SBool, SInt, Unsupported, cur, eq,
                              fresh_array, fresh_int, ite, np)
from contracts.common import Inv, loops
from contracts.measurebase import Calls
from contracts.p05 import valid
from contracts.pauliabs import (BITS, CORR, MUL, ROW, SGN, Abs, U, atoms, is_if,
                                mentions, mul, through)
from pyvc.contract import case
from pyvc.seq import Each, IfE, SSeq, parts

FUNCTIONS = ["pauli.reset_qubits_to_eigenstate", "pauli.insert_qubit_at",
             "pauli.append_qubit", "pauli._ptrace", "pauli._measure_base",
             "pauli.single_qubit_pauli_operator"]
ASSUMPTIONS = [
    "precondition: the state is valid (rows i and k anticommute exactly when they differ "
    "by the number of qubits); when a qubit is removed, the operator measured on it "
    "commutes with all stabilisers and is a product of some of them (what measure "
    "establishes, P05)",
    "contracts of measure (P05), multiply (P01), commutator_sign (P02) and the one-qubit "
    "gates (P04), restated for operators as elements of an abstract group",
    "a product of stabilisers and the destabilisers it anticommutes with: parities over "
    "the factors of the measured operator agree (induction step discharged, the "
    "induction itself is the assumed scheme)",
    "np.sort returns the same positions in order; np.insert and np.delete as in the "
    "numpy documentation (rank of the inserted entries)",
    "the rows which stay are independent: they commute and anticommute in pairs",
]


# -------------------------------------------------------------------- resets
class Resets(Calls):
    """measure and the one-qubit gates by contract."""

    def __init__(self, c, op):
        super().__init__(c, op)
        for f, g in ((P.x, "X"), (P.y, "Y"), (P.z, "Z"), (P.hadamard, "H"),
                     (P.phase_gate, "S")):
            c.contracts[f] = self.gate(g)

    def gate(self, name):
        def f(it, a, k):
            self.same(a[0])
            if not isinstance(a[1], (int, SInt)):
                raise Unsupported("a gate on several qubits")
            self.emit(it, (name, a[1]))
            return self.next(a[0].n)
        return f


def flips(gate, op):
    """Does the gate exchange the eigenstates of the operator?"""
    u, p = GATES[gate], GATES[op[-1]]
    return np.allclose(u @ p @ u.conj().T, -p)


def reset(op, form):
    @case(f"reset to {op}: {form}")
    def f(c):
        import numpy
        w = Resets(c, op)
        t = C.fun_int("target", 1, 0)
        if form == "one int":
            arg, n, at = t(0), 1, lambda k: t(0)
        else:
            n = fresh_int("m", 0)
            at = t
            arg = SSeq(n, t, "list") if form == "list" else \
                SArr.of(lambda i: t(i), (n,), "i8")
        st = c.run(P.reset_qubits_to_eigenstate, w.first, op, arg)
        c.prove(st is w.now, "the final state is returned")
        if form == "one int":
            return one(c, parts(w.log), at(0), op)
        log = parts(w.log)
        if not (len(log) == 1 and isinstance(log[0], Each)):
            raise Unsupported("resets in another form")
        c.prove(eq(log[0].n, n), "one reset per target")

        def go():
            k = fresh_int("k", 0, n)
            one(c, log[0].fn(k), at(k), op)
        c.scope(go)
    return f


def one(c, ev, q, op):
    """The steps for qubit q: measure, then flip if the outcome is 1."""
    steps = []

    def flat(ps):
        for p in ps:
            if isinstance(p, IfE):
                flat(p.a if bool(SBool(C.boolterm(p.cond))) else p.b)
            else:
                steps.append(p)
    flat(ev)
    ok = len(steps) > 0 and steps[0][0] == "M"
    c.prove(ok, "the operator is measured first")
    if not ok:
        return
    c.prove(C.land(*[eq(e[1], q) for e in steps]), "all on the target")
    c.prove(all(e[0] != "M" for e in steps[1:]), "measured once")
    c.prove(steps[0][2] is None, "the outcome is not forced")
    p = GATES[op[-1]]
    for e in steps[1:]:
        u = GATES[e[0]]
        p = u @ p @ u.conj().T
    if np.allclose(p, -GATES[op[-1]]):
        c.prove(steps[0][3] == 1, "flipped for outcome 1 only")
    elif np.allclose(p, GATES[op[-1]]):
        c.prove(steps[0][3] == 0, "kept for outcome 0 only")
    else:
        c.fail("the gates keep or flip the eigenstates")


for _op in ("X", "Y", "Z", "-X", "-Y", "-Z"):
    for _f in ("one int", "list", "array"):
        globals()[f"reset_{_op.replace('-', 'm')}_{_f.replace(' ', '')}"] = reset(_op, _f)


for _b in "XZ":
    globals().update(measurebase.build(_b, True))


# ------------------------------------------------------- removing one qubit
V = z3.Function("product_of_destabilisers", z3.IntSort(), U)


def bit(u, j):
    """The entry of an element at column j."""
    def one(x):
        out = z3.BoolVal(False)
        for y in atoms(x):
            out = z3.Xor(out, BITS(y, j) == 1)
        return out
    return through(one, u)


class Collect(Inv):
    """The first loop of the removal: for every other stabiliser with the base operator
    on the target, it is multiplied by the first one and its destabiliser goes into the
    product kept in the row of the first destabiliser."""

    def __init__(self, ab, buf, first, same, ones):
        self.name = "clearing the target from the stabilisers"
        self.ab, self.buf, self.first, self.vars = ab, buf, first, tuple(same)
        self.ones = ones

    def rows(self, k):
        n, f, ONES = self.ab.n.t, self.first, self.ones

        def at(r):
            i = r - n
            done = z3.And(r >= n, i < k, i != f, ONES(i))
            return z3.If(r == f, V(k), z3.If(done, mul(ROW(r), ROW(n + f)), ROW(r)))

        def sign(r):
            i = r - n
            done = z3.And(r >= n, i < k, i != f, ONES(i))
            return z3.If(done, z3.Xor(z3.Xor(SGN(r), SGN(n + f)),
                                      CORR(ROW(r), ROW(n + f))), SGN(r))
        return at, sign

    def check(self, it, env, k, name):
        s, ab, n, f = cur(), self.ab, self.ab.n, self.first
        a = SArr.of(self.buf.get, self.buf.shape, self.buf.dt)
        ONES = self.ones

        def go():
            kt = C.intterm(k)
            if isinstance(k, int):
                s.assume(SBool(V(kt) == ROW(f)))
            else:
                kk = self.k.t
                s.assume(SBool(V(kt) == z3.If(z3.And(ONES(kk), kk != f),
                                              mul(ROW(kk), V(kk)), V(kk))))
            i = fresh_int("i", 0, 2 * n)
            u, sg = ab.element(a[i])
            at, sign = self.rows(kt)
            commuting(s, ROW(i.t), ROW(n.t + f), ab)
            commuting(s, V(kt - 1), ROW(kt - 1), ab)
            s.prove(SBool(u == at(i.t)), name + ": operators")
            s.prove(SBool(z3.Implies(i.t != f, sg == sign(i.t))), name + ": signs")
            if not isinstance(k, int):
                kk = self.k.t
                new = z3.If(z3.And(ONES(kk), kk != f), mul(ROW(kk), V(kk)), V(kk))
                s.prove(SBool(ab.sp(new, ROW(i.t)) == with_v(n, f, kk + 1, i.t, ONES)),
                        name + ": the product anticommutes with the stabilisers so far")
            else:
                s.prove(SBool(ab.sp(ROW(f), ROW(i.t)) == with_v(n, f, kt, i.t, ONES)),
                        name + ": the product anticommutes with the stabilisers so far")
        s.each(go, name)

    def havoc(self, it, env, k):
        self.k = k if isinstance(k, SInt) else SInt(z3.IntVal(k))
        at, sign = self.rows(self.k.t)
        dead = C.fun_bool("sign_of_product", 1)
        f = self.first
        self.buf.get = self.ab.table(
            2 * self.ab.n, at, lambda r: z3.If(r == f, dead(self.k).t, sign(r))).reader()


def commuting(s, x, y, ab):
    """Facts about one pair: the product is commutative, its sign where they commute."""
    s.assume(MUL(x, y) == MUL(y, x))
    try:
        anti = ab.sp(x, y)
    except Unsupported:
        return
    s.assume(z3.Or(anti, CORR(x, y) == CORR(y, x)))


def with_v(n, f, k, r, ONES):
    """Does the product of the first k destabilisers anticommute with row r?"""
    i = r - n.t
    return z3.And(r >= n.t, r < 2 * n.t, z3.Or(i == f, z3.And(i < k, ONES(i))))


def removal(base):
    fn = P._ptrace

    @case(f"removing a qubit measured in the {base} base", timeout=75)
    def f(c):
        s = cur()
        n = fresh_int("n", 1)
        t = fresh_int("target", 0, n)
        ab = Abs(c, n)
        b, o = (t, t + n) if base == "X" else (t + n, t)
        state = ab.table(2 * n, ROW, SGN)

        def ones(i):
            return BITS(ROW(i + n.t), b.t) == 1

        e = fresh_int("some", 0, n)
        s.assume(SBool(BITS(ROW(e.t + n.t), b.t) == 1))
        first = [None]

        def rel(x, y):
            if x.decl().eq(V) and y.decl().eq(ROW):
                return with_v(n, first[0], x.arg(0), y.arg(0), ones)
        ab.relations = [valid(n), rel]

        def provide(it, st, env, sv):
            k = fresh_int("probe", 0, sv[0])
            made = len(ab.calls)

            def item():
                if len(sv) == 3:
                    s.assume(sv[2].pred(k))
                return sv[1](k)
            bufs, rebound, same = loops.carries(it, st, env, item)
            calls = ab.calls[made:]
            del ab.calls[made:]
            if len(bufs) != 1 or len(calls) < 2:
                return None
            for x, y in calls:
                for a, d in ((x, y), (y, x)):
                    p = a.arg(0) if a.decl().eq(ROW) else None
                    if p is not None and not mentions(p, k.t) and \
                            s.entails(z3.And(p >= n.t, p < 2 * n.t)):
                        first[0] = z3.simplify(p - n.t)
            if first[0] is None:
                return None
            return Collect(ab, bufs[0], first[0], same, ones)
        provide.index_sets = True
        c.provider = provide
        out = c.run(fn, state, t, base)
        m = n - 1
        c.prove(C.land(eq(out.ndim, 2), eq(out.shape[0], 2 * m),
                       eq(out.shape[1], 2 * m + 1)), "shape")

        def column(j):
            return ite(j < t, j, ite(j < t + n - 1, j + 1, j + 2))

        def go():
            x, y = fresh_int("x", 0, 2 * m), fresh_int("y", 0, 2 * m)
            (p, sp_), (q, _) = (ab.element(out[k], m, column) for k in (x, y))
            for w in leaves(p):
                # the stabilisers commute with the measured operator
                if w.decl().eq(ROW):
                    i = w.arg(0)
                    s.assume(SBool(z3.Implies(z3.And(i >= n.t, i < 2 * n.t),
                                              BITS(w, o.t) == 0)))
            for d in products(z3.If(x.t == y.t, p, q), p, q):
                conclude(c, ab, n, d, b, o, ones)
            if first[0] is None:
                conclude(c, ab, n, ROW(e.t), b, o, ones)
            stab = z3.And(x.t >= m.t)
            c.prove(SBool(z3.Implies(stab, z3.And(z3.Not(bit(p, b.t)),
                                                  z3.Not(bit(p, o.t))))),
                    "the stabilisers which stay do not act on the target")
            c.prove(SBool(z3.Not(bit(p, o.t))),
                    "all rows which stay commute with the measured operator")
            c.prove(SBool(ab.sp(p, q) == z3.Or(x.t - y.t == m.t, y.t - x.t == m.t)),
                    "commutation relations of the rows which stay")
            in_group(c, ab, n, x, m, p, sp_)
        c.scope(go)
    return f


def leaves(t):
    """The elements in a term."""
    if is_if(t):
        return leaves(t.arg(1)) + leaves(t.arg(2))
    return atoms(t)


def products(*ts):
    """The destabiliser products in these elements."""
    out = []

    def go(t):
        if z3.is_app(t) and t.decl().eq(V) and not any(t.eq(x) for x in out):
            out.append(t)
        for x in t.children():
            go(x)
    for t in ts:
        go(t)
    return out


def conclude(c, ab, n, d, b, o, ONES):
    """A product d of destabilisers which anticommutes with exactly the stabilisers that
    have the base operator on the target anticommutes with the measured operator:
    both are parities over the stabilisers whose product that operator is."""
    s = cur()

    def pre():
        k = fresh_int("k", 0, n)
        c.prove(SBool(ab.sp(d, ROW(n.t + k.t)) == ONES(k.t)),
                "the product anticommutes with the stabilisers on the target")
    c.scope(pre)

    def step():
        # Q(k): product of the first k of the factors a(i) of the measured operator
        a = z3.Function("a", z3.IntSort(), z3.BoolSort())
        bq = z3.Function("base_bit", z3.IntSort(), z3.BoolSort())
        sq = z3.Function("anti_with_d", z3.IntSort(), z3.BoolSort())
        k = fresh_int("k", 0, n).t
        s.assume(bq(k + 1) == z3.Xor(bq(k), z3.And(a(k), BITS(ROW(n.t + k), b.t) == 1)))
        s.assume(sq(k + 1) == z3.Xor(sq(k), z3.And(a(k), ab.sp(d, ROW(n.t + k)))))
        s.assume(bq(k) == sq(k))
        c.prove(SBool(bq(k + 1) == sq(k + 1)), "parities over the factors agree")
    c.scope(step)
    s.assume(SBool(BITS(d, o.t) == 1))


def in_group(c, ab, n, x, m, p, sign):
    """Stabiliser rows are stabilisers or products of two of them, with their sign."""
    s = cur()
    found = []

    def go(t, cond):
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            k, a, b = t.children()
            go(a, z3.And(cond, k))
            go(b, z3.And(cond, z3.Not(k)))
            return
        found.append((cond, t))
    go(p, x.t >= m.t)
    for cond, t in found:
        if not s.possible(cond):
            continue

        def leaf(cond=cond, t=t):
            s.assume(SBool(cond))
            at = atoms(t)
            ok = len(at) in (1, 2) and all(y.decl().eq(ROW) for y in at)
            c.prove(ok, "stabilisers which stay are products of stabilisers")
            if not ok:
                return
            want = SGN(at[0].arg(0))
            c.prove(SBool(z3.And([z3.And(y.arg(0) >= n.t, y.arg(0) < 2 * n.t)
                                  for y in at])),
                    "stabilisers which stay are products of stabilisers")
            if len(at) == 2:
                commuting(s, at[0], at[1], ab)
                want = z3.Xor(z3.Xor(want, SGN(at[1].arg(0))), CORR(*at))
            c.prove(SBool(sign == want), "their signs")
        c.scope(leaf)


remove_x, remove_z = removal("X"), removal("Z")


# ----------------------------------------------------------- inserting qubits
def inserting(form):
    """form: a number of positions (in any order), 'sorted' or 'any' for any number of
    positions (given in order, or in any order)."""
    @case(f"inserting qubits: {form}", replays=[("bounded.p06", "c_insert")])
    def f(c):
        import numpy
        s = cur()
        n = fresh_int("n", 1)
        state = fresh_array("state", (2 * n, 2 * n + 1), "u1")
        st = state.reader()
        p = C.fun_int("p", 1, 0)
        if form == "one int":
            m, pos = 1, p(0)
        elif isinstance(form, int):
            m = form
            pos = [C.fun_int("given", 1, 0)(i) for i in range(m)]
        else:
            m = fresh_int("m", 1)
            pos = SArr.of(lambda i: p(i), (m,), "i8")
        mt = C.intterm(m)
        i, j = z3.Ints("i j")
        if form == "any":
            given = C.fun_int("given", 1, 0)
            pos = SArr.of(lambda i: given(i), (m,), "i8")

            def npsort(it, a, k):
                if len(a) != 1 or k or not isinstance(a[0], SArr) or a[0].ndim != 1:
                    raise Unsupported("sorting something else")
                x = fresh_int("x", 0, m)
                if not s.entails(C.land(eq(a[0].shape[0], m), eq(a[0].at(x), given(x)))):
                    raise Unsupported("sorting something else")
                return SArr.of(lambda i: p(i), (m,), "i8")
            c.contracts[numpy.sort] = npsort
        if form in ("any", "sorted"):
            s.assume(z3.ForAll([i], z3.Implies(
                z3.And(i >= 0, i < mt), z3.And(p.z3(i) >= 0, p.z3(i) <= n.t)),
                patterns=[p.z3(i)]))
            if form == "any":
                g = given.z3
                s.assume(z3.ForAll([i], z3.Implies(
                    z3.And(i >= 0, i < mt), z3.And(g(i) >= 0, g(i) <= n.t)),
                    patterns=[g(i)]))
            s.assume(z3.ForAll([i, j], z3.Implies(
                z3.And(i >= 0, i <= j, j < mt), p.z3(i) <= p.z3(j)),
                patterns=[z3.MultiPattern(p.z3(i), p.z3(j))]))
        elif form == "one int":
            s.assume(p(0) <= n)
        else:
            for x in pos:
                s.assume(x <= n)
            # p: the same positions in order
            for q in range(m - 1):
                s.assume(p(q) <= p(q + 1))
            s.assume(SBool(z3.Or([z3.And([p(q).t == pos[w].t
                                          for q, w in enumerate(pm)])
                                  for pm in itertools.permutations(range(m))])))
        out = c.run(P.insert_qubit_at, state, pos)
        t = n + m
        c.prove(C.land(eq(out.ndim, 2), eq(out.shape[0], 2 * t),
                       eq(out.shape[1], 2 * t + 1)), "shape")
        get = out.reader()

        def old_column(q, r):
            """Qubit q comes after r new ones."""
            s.assume(C.land(q >= 0, q < n, r >= 0, r <= m))
            s.assume(SBool(z3.Implies(r.t > 0, p.z3(r.t - 1) <= q.t)))
            s.assume(SBool(z3.Implies(r.t < mt, p.z3(r.t) > q.t)))

        def old():
            q, r, y = fresh_int("q"), fresh_int("r"), fresh_int("y", 0, 2 * n)
            old_column(q, r)
            row = ite(y < n, y, y + m)
            c.prove(eq(get(row, q + r), st(y, q)), "X parts of the old operators")
            c.prove(eq(get(row, t + q + r), st(y, n + q)), "Z parts of the old operators")
            c.prove(eq(get(row, 2 * t), st(y, 2 * n)), "signs of the old operators")
            k = fresh_int("k", 0, m)
            c.prove(C.land(eq(get(row, p(k) + k), 0), eq(get(row, t + p(k) + k), 0)),
                    "the old operators do not act on the new qubits")
        c.scope(old)

        def new():
            k, w = fresh_int("k", 0, m), fresh_int("w", 0, m)
            q, r = fresh_int("q"), fresh_int("r")
            old_column(q, r)
            d, z = n + k, 2 * n + m + k
            for row, what in ((d, "destabilisers"), (z, "stabilisers")):
                x = ite(k == w, 1, 0) if row is d else 0
                y = ite(k == w, 1, 0) if row is z else 0
                c.prove(C.land(eq(get(row, p(w) + w), x), eq(get(row, t + p(w) + w), y)),
                        f"new {what} on the new qubits")
                c.prove(C.land(eq(get(row, q + r), 0), eq(get(row, t + q + r), 0)),
                        f"new {what} do not act on the old qubits")
                c.prove(eq(get(row, 2 * t), 0), f"new {what} have sign +")
        c.scope(new)
    return f


insert_int, insert_1, insert_2, insert_3 = map(inserting, ("one int", 1, 2, 3))
insert_sorted, insert_any = inserting("sorted"), inserting("any")


@case("inserting qubits: positions outside", replays=[("bounded.p06", "c_insert")])
def insert_outside(c):
    n = fresh_int("n", 1)
    state = fresh_array("state", (2 * n, 2 * n + 1), "u1")
    p = C.fun_int("p", 1, 0)
    bad = fresh_int("bad", 0, 2)
    cur().assume(p(bad) > n)
    cur().assume(p(0) <= p(1))
    e = c.raises(P.insert_qubit_at, state, [p(0), p(1)])
    c.prove(isinstance(e, IndexError), "IndexError")


@case("appending a qubit")
def append(c):
    n = fresh_int("n", 1)
    state = fresh_array("state", (2 * n, 2 * n + 1), "u1")
    new = fresh_array("new", (2 * n + 2, 2 * n + 3), "u1")
    calls = []

    def insert(it, a, k):
        calls.append((list(a), k))
        return new
    c.contracts[P.insert_qubit_at] = insert
    out = c.run(P.append_qubit, state)
    ok = len(calls) == 1 and not calls[0][1] and len(calls[0][0]) == 2 and \
        calls[0][0][0] is state and out is new
    if not ok:
        raise Unsupported("appending in another way")
    pos = calls[0][0][1]
    c.prove(eq(pos[0] if isinstance(pos, list) else pos, n), "at the end")
