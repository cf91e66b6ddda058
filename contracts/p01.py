"""P01: products of Pauli operators, with exact signs and phases."""
import itertools

import numpy as np
from plaquette import pauli as P

from contracts.common import (C, GAMMA, Inv, SArr, SBool, SInt, Unsupported, as_arr, bit,
                              cur, eq, fresh_array, fresh_int, gamma, loops, operator,
                              zxor)
from pyvc.contract import case
from pyvc.core import PyRaise
from pyvc.seq import Each

FUNCTIONS = ["pauli.multiply", "pauli._g", "pauli.unpack_tableau",
             "pauli.apply_operator"]
ASSUMPTIONS = [
    "precondition: operators are one-dimensional uint8 arrays of bits of equal odd "
    "length, initial_phase is a power of i",
    "three and more factors: the sign bit of an intermediate product enters the next "
    "product as it does in the code (known finding P01-partial-signs); what is proved "
    "is the fold of exact two-factor products from the right",
    "equal summands over equal ranges give equal sums (sum congruence)"]
PH = [1, 1j, -1, -1j]


def text(a):
    return "".join(str(int(b)) for b in a)


def product_spec(a, b, n, e0):
    """(exponent, reader of the result row) of a*b, readers of rows of length 2n+1."""
    S = C.mksum(n, lambda k: gamma(a(k), a(k + n), b(k), b(k + n)))
    e = C.sum_value(S, 4) + 2 * a(2 * n) + 2 * b(2 * n) + e0
    sign = (e % 4) >= 2

    def row(j):
        x = zxor(a(j), b(j))
        return C.ite(SBool(eq(j, 2 * n)), sign.asint(), x)
    return e, row


def check_product(c, res, phase, spec, n):
    e, row = spec
    c.prove(phase == 1j ** e, "phase")
    c.prove(res.ndim == 1 and SBool(eq(res.shape[0], 2 * n + 1)), "length")
    j = fresh_int("j", 0, 2 * n)
    c.prove(res.at(j) == row(j), "product")
    c.prove(res.at(2 * n) == row(2 * n), "sign bit")
    c.prove(res.dt == "u1", "dtype")


@case("_g: phase of single-qubit products",
      replays=lambda v: [("product", dict(ops=[f"{v['x1']}{v['z1']}0",
                                               f"{v['x2']}{v['z2']}0"]))])
def g_table(c):
    for bits in itertools.product((0, 1), repeat=4):
        c.note(**dict(zip(("x1", "z1", "x2", "z2"), bits)))
        r = c.run(P._g, *(np.uint8(b) for b in bits))
        c.prove(r % 4 == GAMMA[bits], "table computed from matrices")


def two(e0):
    def rep(v):
        return [("product", dict(ops=[text(v["a"]), text(v["b"])], e0=e0))]

    @case(f"multiply: two factors, initial phase i**{e0}", replays=rep)
    def f(c):
        n = fresh_int("n", 0)
        a, b = operator(c, "a", n), operator(c, "b", n)
        c.note(a=a, b=b)
        ra, rb = a.copy().reader(), b.copy().reader()
        kw = {"initial_phase": PH[e0]} if e0 else {}
        res, phase = c.run(P.multiply, a, b, **kw)
        check_product(c, res, phase, product_spec(ra, rb, n, e0), n)
        c.arrays_equal(a, SArr.of(ra, a.shape, "u1"), "first factor unchanged")
        c.arrays_equal(b, SArr.of(rb, b.shape, "u1"), "second factor unchanged")
    return f


two_0, two_1, two_2, two_3 = (two(e) for e in range(4))


def one(e0):
    @case(f"multiply: one factor, initial phase i**{e0}",
          replays=lambda v: [("product", dict(ops=[text(v["a"])], e0=e0))])
    def f(c):
        n = fresh_int("n", 0)
        a = operator(c, "a", n)
        c.note(a=a)
        ra = a.copy().reader()
        res, phase = c.run(P.multiply, a, initial_phase=PH[e0])
        zero = C.mksum(n, lambda k: 0)
        # a sum of zeros is zero: by induction, stated for the sum the code made
        v = C.sum_value(zero, 4)
        cur().assume(v % 4 == 0)
        check_product(c, res, phase, product_spec(ra, lambda j: SInt(
            b=C.z3.BoolVal(False)), n, e0), n)
    return f


one_0, one_1 = one(0), one(1)


# ------------------------------------------------- the contract, for callers
def pick_exponent(ph):
    """e with ph == i**e, for a known or ghost phase."""
    if hasattr(ph, "ghost_exp"):
        return ph.ghost_exp
    for e in range(4):
        if not isinstance(ph, C.Sym) and ph == PH[e]:
            return e
    raise Unsupported("an initial phase of unknown form")


class GhostPhase(C.SComplex):
    __slots__ = ("ghost_exp",)


def ghost_phase(e):
    z = 1j ** e if not isinstance(e, int) else C._cplx(PH[e % 4])
    g = GhostPhase(z.re, z.im)
    g.ghost_exp = e
    return g


def multiply_contract(n, calls):
    """multiply of two factors by its contract: the result of a call is a ghost."""
    def stub(it, args, kwargs):
        ops = list(args)
        if len(ops) != 2 or loops.Q.has_marks(ops):
            return it.run(it.func_of(P.multiply), ops, kwargs)
        ph = kwargs.get("initial_phase", 1)
        a, b = ops
        cur().prove(C.land(a.ndim == 1, b.ndim == 1, eq(a.shape[0], 2 * n + 1),
                           eq(b.shape[0], 2 * n + 1)),
                    "multiply: precondition at the call")
        E = fresh_int("E", 0, 4)
        ra, rb = a.reader(), b.reader()
        sign = E >= 2
        res = SArr.of(lambda j: C.ite(SBool(eq(j, 2 * n)), sign.asint(),
                                      zxor(ra(j), rb(j))), (2 * n + 1,), "u1")
        out = ghost_phase(E)
        calls.append((ra, rb, pick_exponent(ph), res, out))
        return (res, out)
    return stub


class ProductInv(Inv):
    """At the start of iteration k: some operator and some power of i."""

    def __init__(self, name, var, ph, same, n, calls):
        self.name = f"{name}: loop over the factors"
        self.var, self.ph, self.n_, self.calls = var, ph, n, calls
        self.vars = tuple(same) + (var, ph)
        self.P, self.E = C.fun_bit("P", 2), C.fun_int("E", 1, 0, 4)

    def check(self, it, env, k, name):
        s = cur()
        v, p = env.vars[self.var], env.vars[self.ph]
        s.prove(SBool(eq(v.shape[0], 2 * self.n_ + 1)), name + ": length")
        s.prove(v.ndim == 1, name + ": one-dimensional")
        pick_exponent(p)
        if isinstance(k, int):
            STATE["entry"] = (v.reader(), pick_exponent(p), len(self.calls))
            return
        new = self.calls[self.before:]
        s.prove(len(new) == 1, name + ": one product per factor")
        if len(new) != 1:
            return
        ra, rb, e0, res, ph = new[0]
        s.prove(res is v and ph is p, name + ": the product is kept")
        kk, S = self.k, self.P
        item = self.at(kk)

        def go():
            j = fresh_int("j", 0, 2 * self.n_ + 1)
            s.prove(ra(j) == item.at(j), name + ": the next factor from the left")
            s.prove(rb(j) == S(kk, j), name + ": the product so far on the right")
            s.prove(SBool(eq(e0, self.E(kk))), name + ": the phase so far")
        s.each(go, name)

    def havoc(self, it, env, k):
        self.k = k
        self.before = len(self.calls)
        S = self.P
        env.vars[self.var] = SArr.of(lambda j: S(k, j), (2 * self.n_ + 1,), "u1")
        env.vars[self.ph] = ghost_phase(self.E(k))
        if self.phase == "after":
            STATE["fold"] = (S, self.E, k, self.at)


STATE = {}


def many(e0):
    @case(f"multiply: three or more factors, initial phase i**{e0}")
    def f(c):
        n, m = fresh_int("n", 0), fresh_int("m", 3)
        bit_ = C.fun_bit("op", 2)
        ops = lambda k: SArr.of(lambda j: bit_(k, j), (2 * n + 1,), "u1")  # noqa: E731
        calls = []
        STATE.clear()
        c.contracts[P.multiply] = multiply_contract(n, calls)

        def provide(it, s, env, sv):
            k, made = fresh_int("probe", 0), len(calls)
            bufs, rebound, same = loops.carries(it, s, env, lambda: sv[1](k))
            del calls[made:]
            ph = [v for v, x in env.vars.items() if isinstance(x, GhostPhase) and
                  v not in same and v in loops_assigned(s)]
            if bufs or len(rebound) != 1 or len(ph) != 1:
                return None
            inv = ProductInv(c.name, rebound[0], ph[0], same, n, calls)
            inv.at = sv[1]
            return inv
        c.provider = provide
        res, phase = c.run(P.multiply, Each(m, lambda k: [ops(k)]),
                           initial_phase=PH[e0])
        if "fold" not in STATE:
            raise Unsupported("no loop over the factors was recognised")
        S, E, count, at = STATE["fold"]
        ea, ee, nc = STATE["entry"]
        ra, rb, i0, r0, p0 = calls[0]
        c.prove(nc == 1, "one product before the loop")
        c.prove(SBool(eq(count, m - 2)), "all remaining factors")
        c.prove(pick_exponent(phase) is not None and
                SBool(eq(pick_exponent(phase), E(count))), "phase of the last product")
        j = fresh_int("j", 0, 2 * n + 1)
        c.prove(ra(j) == bit_(m - 2, j), "first product: last factor but one")
        c.prove(rb(j) == bit_(m - 1, j), "first product: last factor")
        c.prove(i0 == e0, "first product: the initial phase")
        c.prove(ea(j) == r0.at(j), "the loop starts from the first product")
        c.prove(SBool(eq(ee, pick_exponent(p0))), "the loop starts from its phase")
        c.prove(res.at(j) == S(count, j), "result")

        def order():
            k = fresh_int("k", 0, count)
            c.prove(at(k).at(j) == bit_(m - 3 - k, j), "factors from the right")
        c.scope(order)
    return f


def loops_assigned(s):
    from pyvc.interp import assigned
    return assigned(s.body)


many_0, many_1 = many(0), many(1)


# --------------------------------------------------------------- apply_operator
def row_of(x):
    """(array, row) of a view of one row."""
    f = [a for a in x.axes if a[0] == "f"]
    if len(x.axes) == 2 and x.axes[0][0] == "f" and len(f) == 1:
        return x.axes[0][1]
    raise Unsupported("a factor which is not a row of a table")


def apply(single):
    def rep(v):
        op = v["op"]
        op = [op] if op.ndim == 1 else op
        return [("apply", dict(op=[text(o) for o in op],
                               state=[text(o) for o in v["state"]], single=single))]

    @case("apply_operator: " + ("one operator" if single else "one operator per row"),
          replays=rep)
    def f(c):
        n, rows = fresh_int("n", 1), fresh_int("rows", 1)
        state = fresh_array("state", (rows, 2 * n + 1), "u1")
        op = operator(c, "op", n) if single else fresh_array("op", (rows, 2 * n + 1),
                                                             "u1")
        c.note(state=state, op=op)
        SG = C.fun_int("E", 1, 0, 4)
        po = (lambda i, j: op.at(j)) if single else (lambda i, j: op.at(i, j))

        def stub(it, args, kwargs):
            if len(args) != 2 or kwargs:
                raise Unsupported("multiply called in another way")
            a, b = args
            i = row_of(b)
            s = cur()

            def same():
                j = fresh_int("j", 0, 2 * n + 1)
                s.prove(a.at(j) == po(i, j), f"{c.name}: left factor of the row")
                s.prove(b.at(j) == state.at(i, j), f"{c.name}: right factor is the row")
            s.each(same, f"{c.name}: factors")
            ra, rb, E = a.reader(), b.reader(), SG(i)
            return (SArr.of(lambda j: C.ite(SBool(eq(j, 2 * n)), (E >= 2).asint(),
                                            zxor(ra(j), rb(j))), (2 * n + 1,), "u1"),
                    ghost_phase(E))
        c.contracts[P.multiply] = stub
        before = state.copy().reader()
        out = c.run(P.apply_operator, op, state)
        c.prove(out.ndim == 2 and C.land(eq(out.shape[0], rows),
                                         eq(out.shape[1], 2 * n + 1)), "shape")
        i, j = fresh_int("i", 0, rows), fresh_int("j", 0, 2 * n)
        c.prove(out.at(i, j) == zxor(po(i, j), before(i, j)), "product")
        c.prove(out.at(i, 2 * n) == (SG(i) >= 2).asint(), "sign of the product")
    return f


apply_one, apply_rows = apply(True), apply(False)
