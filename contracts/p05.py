"""P05: measuring one Pauli operator on any valid state."""
import z3
from plaquette import pauli as P

from contracts import measurebase
from contracts.common import C, SBool, SInt, Unsupported, cur, eq, fresh_int
from contracts.pauliabs import (ANTI, CORR, MUL, ONE, OP, ROW, SGN, SW, U, W, Abs,
                                scratch_provider)
from pyvc.contract import case

FUNCTIONS = ["pauli.measure", "pauli.append_scratch", "pauli.count_qubits",
             "pauli.measure_x_base", "pauli.measure_z_base", "pauli._measure_base"]
ASSUMPTIONS = [
    "precondition: the state is valid: row i and row k anticommute exactly when they "
    "differ by the number of qubits (destabilisers first), rows are independent",
    "contracts of multiply (P01) and commutator_sign (P02), restated for operators as "
    "elements of an abstract group: the product, with a sign which is symmetric for "
    "commuting factors; the symplectic form is bilinear",
    "a Pauli operator is determined up to sign by which of the 2n rows of a valid state "
    "it anticommutes with (the symplectic form is non-degenerate)",
    "argsort returns a permutation which sorts; measure_x_base and measure_z_base "
    "call measure by its contract, in some order of the targets",
    "choice([0, 1]) and integers(2) are fair and independent",
]


def valid(n):
    """The relations between the rows of a valid state."""
    def rel(a, b):
        if a.decl().eq(ROW) and b.decl().eq(ROW):
            x, y = a.arg(0), b.arg(0)
            return z3.Or(x - y == n.t, y - x == n.t)
    return rel


def with_op(a, b):
    if a.decl().eq(ROW) and b.eq(OP):
        return ANTI(a.arg(0))


def prefixes(n):
    def rel(a, b):
        if a.decl().eq(W) and b.decl().eq(ROW):
            r = b.arg(0)
            return z3.And(r < n.t, r < a.arg(0), ANTI(r))
    return rel


def setup(c, text=False):
    n = fresh_int("n", 1)
    ab = Abs(c, n)
    ab.relations = [valid(n), with_op, prefixes(n)]
    c.provider = scratch_provider(ab)
    state = ab.table(2 * n, ROW, SGN)
    so = C.fresh_bool("op_sign").t
    op = ab.array(OP, so)
    if text:
        def string_to_pauli(it, a, k):
            if a[0] != "some operator" or (list(a[1:]) + list(k.values())) == [] or \
                    not cur().entails(eq((list(a[1:]) + list(k.values()))[0], n)):
                raise Unsupported("another conversion")
            return ab.array(OP, so)
        c.contracts[P.string_to_pauli] = string_to_pauli
    return n, ab, state, op, so


def anti_exists(n):
    """Does some stabiliser anticommute with the operator?"""
    p = z3.Int("p!")
    return z3.Exists([p], z3.And(p >= n.t, p < 2 * n.t, ANTI(p)))


FORM = {}


def body(c, forced, text):
    n, ab, state, op, so = setup(c, text)
    f = None
    if forced:
        f = SInt(b=C.fresh_bool("forced").t)
    s = cur()
    before = op.reader()
    kw = {} if f is None else {"forced_outcome": f}
    new, out = c.run(P.measure, state, "some operator" if text else op, **kw)
    c.prove(C.land(eq(new.ndim, 2), eq(new.shape[0], 2 * n),
                   eq(new.shape[1], 2 * n + 1)), "shape of the state")
    j0 = fresh_int("j", 0, 2 * n + 1)
    c.prove(op.at(j0) == before(j0), "the operator is not modified")
    out = out if isinstance(out, SInt) else SInt(z3.IntVal(int(out)))
    ob = C.bitterm(out)
    if ob is None:
        c.prove(C.lor(out == 0, out == 1), "the outcome is a bit")
        ob = out.t == 1

    def at(i):
        return ab.element(new[SInt(i)])

    def random():
        # some stabiliser p is the operator now
        if f is not None:
            c.prove(SBool(ob == f.b), "the outcome is the forced one")
            c.prove(len(ab.draws) == 0, "nothing is drawn for a forced outcome")
        else:
            c.prove(len(ab.draws) == 1, "one fair bit is drawn")
            if len(ab.draws) == 1:
                d = ab.draws[0].b
                if "form" not in FORM:
                    FORM["form"] = not s.entails(ob == z3.Not(d))
                c.prove(SBool(ob == d if FORM["form"] else ob == z3.Not(d)),
                        "the outcome is the fair bit")
        i = fresh_int("i", 0, 2 * n)
        k = fresh_int("k", 0, 2 * n)
        (u, su), (v, _) = at(i.t), at(k.t)
        c.prove(SBool(ab.sp(u, v) == z3.Or(i.t - k.t == n.t, k.t - i.t == n.t)),
                "commutation relations of the new state")
        # the row which became the operator
        p = the_row(c, u, i, n)
        if p is None:
            return c.fail("one stabiliser becomes the measured operator")
        c.prove(SBool(z3.And(p >= n.t, p < 2 * n.t, ANTI(p))),
                "the replaced row is a stabiliser which anticommutes with the operator")
        up, sp_ = at(p)
        c.prove(SBool(up == OP), "one stabiliser becomes the measured operator")
        c.prove(SBool(sp_ == z3.Xor(so, ob)), "its sign is that of the outcome")
        g, sg = at(i.t)
        x, y = ROW(p), ROW(i.t)
        s.assume(z3.And(MUL(x, y) == MUL(y, x),
                        z3.Or(ab.sp(x, y), CORR(x, y) == CORR(y, x))))
        c.prove(SBool(z3.Implies(z3.And(i.t >= n.t, i.t != p), g == z3.If(
            ANTI(i.t), MUL(x, y), ROW(i.t)))),
            "the other stabilisers: unchanged, or multiplied by the replaced one")
        c.prove(SBool(z3.Implies(z3.And(i.t >= n.t, i.t != p), sg == z3.If(
            ANTI(i.t), z3.Xor(z3.Xor(SGN(p), SGN(i.t)), CORR(x, y)),
            SGN(i.t)))), "the signs of the other stabilisers")
        # measuring again: only the destabiliser of the new row anticommutes
        c.prove(SBool(ab.sp(u, OP) == (i.t == p - n.t)),
                "the new state anticommutes with the operator in one destabiliser only")

    def determined():
        i = fresh_int("i", 0, 2 * n)
        u, su = at(i.t)
        c.prove(SBool(u == ROW(i.t)), "a determined measurement keeps the operators")
        c.prove(SBool(su == SGN(i.t)), "a determined measurement keeps the signs")
        c.prove(len(ab.draws) == 0, "a determined outcome is not drawn")
        m = used_prefix(ob)
        # no loop ran: the empty product
        w, sw = (ONE, z3.BoolVal(False)) if m is None else (W(m), SW(m))
        r = fresh_int("r", 0, 2 * n)
        c.prove(SBool(ab.sp(w, ROW(r.t)) == ANTI(r.t)),
                "the product of stabilisers is the operator up to sign")
        c.prove(SBool(ob == z3.Xor(sw, so)), "the outcome is the relative sign")

    if s.entails(anti_exists(n)):
        random()
    elif s.entails(z3.Not(anti_exists(n))):
        determined()
    else:
        undet = SBool(anti_exists(n))
        if bool(undet):
            random()
        else:
            determined()


def the_row(c, u, i, n):
    """The index p for which row i is the operator, read off the choices."""
    found = []

    def go(t):
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            cond, a, b = t.children()
            if a.eq(OP):
                found.append(cond)
            if b.eq(OP):
                found.append(z3.simplify(z3.Not(cond)))
            go(a)
            go(b)
    go(u)
    for cond in found:
        if z3.is_eq(cond):
            for x, y in (cond.children(), cond.children()[::-1]):
                if x.eq(i.t):
                    return y
            d = z3.simplify(i.t - (cond.arg(0) - cond.arg(1)))
            e = z3.simplify(i.t + (cond.arg(0) - cond.arg(1)))
            for t in (d, e):
                if not mentions(t, i.t):
                    return t
    return None


def mentions(t, j):
    return t.eq(j) or any(mentions(x, j) for x in t.children())


def used_prefix(t):
    found = []

    def go(x):
        if z3.is_app(x) and x.decl().eq(SW):
            found.append(x.arg(0))
        for y in x.children():
            go(y)
    go(t)
    return found[0] if found and all(x.eq(found[0]) for x in found) else None


def replays(v):
    return []


def make(forced, text):
    @case("measure: " + ("an operator given as text" if text else "any operator") +
          (", forced outcome" if forced else ""), replays=replays)
    def f(c):
        body(c, forced, text)
    return f


array_free, array_forced = make(False, False), make(True, False)
text_free, text_forced = make(False, True), make(True, True)


@case("measure: operator on another number of qubits")
def size(c):
    from contracts.common import fresh_array
    n, m = fresh_int("n", 1), fresh_int("m", 1)
    cur().assume(n != m)
    state = fresh_array("state", (2 * n, 2 * n + 1), "u1")
    op = fresh_array("op", (2 * m + 1,), "u1")
    e = c.raises(P.measure, state, op)
    c.prove(isinstance(e, ValueError), "rejected")


@case("stabilisers which commute with the operator stay stabilised")
def group(c):
    """Induction over a product of stabilisers.  O and N are the products, over the
    factors i < m with a(i), of the old and of the new stabilisers (the row which became
    the operator left out); par says whether an odd number of these factors anticommutes
    with the operator.  Then O(m) = N(m) times the replaced row if par(m).  A product
    which commutes with the operator has par false, so it is a product of new rows."""
    def go():
        s = cur()
        G = z3.DeclareSort("Group")
        m_ = z3.Function("times", G, G, G)
        e = z3.Const("neutral", G)
        x, y, w = z3.Consts("x y w", G)
        s.assume(z3.ForAll([x], m_(x, e) == x))
        # commuting signed operators which square to one
        s.assume(z3.ForAll([x, y], m_(x, y) == m_(y, x), patterns=[m_(x, y)]))
        S = z3.Function("S", z3.IntSort(), G)
        O, N = z3.Function("O", z3.IntSort(), G), z3.Function("N", z3.IntSort(), G)
        a = z3.Function("a", z3.IntSort(), z3.BoolSort())
        par = z3.Function("par", z3.IntSort(), z3.BoolSort())
        p, m = fresh_int("p", 0).t, fresh_int("m", 0).t
        s.assume(ANTI(p))
        sp, sm = S(p), S(m)

        def assoc(u, v, t):
            return m_(m_(u, v), t) == m_(u, m_(v, t))
        new = z3.If(ANTI(m), m_(sp, sm), sm)          # proved in the cases above
        s.assume(O(m + 1) == z3.If(a(m), m_(O(m), sm), O(m)))
        s.assume(N(m + 1) == z3.If(z3.And(a(m), m != p), m_(N(m), new), N(m)))
        s.assume(par(m + 1) == z3.Xor(par(m), z3.And(a(m), ANTI(m))))
        s.assume(m_(sp, sp) == e)
        for u, v, t in ((N(m), sp, sm), (N(m), sp, sp), (N(m), sm, sp), (sp, sp, sm),
                        (m_(N(m), sp), sm, sp), (N(m), m_(sp, sm), sp),
                        (sp, sm, sp), (sm, sp, sp)):
            s.assume(assoc(u, v, t))
        claim = lambda k: O(k) == z3.If(par(k), m_(N(k), sp), N(k))  # noqa: E731
        s.assume(O(z3.IntVal(0)) == e)
        s.assume(z3.And(N(z3.IntVal(0)) == e, z3.Not(par(z3.IntVal(0)))))
        c.prove(SBool(claim(z3.IntVal(0))), "empty product")
        s.assume(claim(m))
        c.prove(SBool(claim(m + 1)), "one more factor")
    c.scope(go)


for _b in "XZ":
    globals().update(measurebase.build(_b, False))
