"""Pauli operators seen as group elements.

The entries of a row are bits(u, column) for an element u of an abstract sort, plus a
sign.  The contracts of multiply and commutator_sign (proved for all bits in P01 and
P02) act on elements: the product, and the symplectic form, which is bilinear.  Which
element an array holds is read off the terms of its entries, whatever code built it.
"""
import plaquette
import z3
from plaquette import pauli as P

from contracts.common import (C, SArr, SBool, SInt, Unsupported, cur, eq, fresh_int, ite,
                              loops)
from pyvc.interp import Inv
from pyvc.seq import IdxSet

U = z3.DeclareSort("Pauli")
MUL = z3.Function("mul", U, U, U)
CORR = z3.Function("corr", U, U, z3.BoolSort())
BITS = z3.Function("bits", U, z3.IntSort(), z3.IntSort())
ONE = z3.Const("one", U)
ROW = z3.Function("row", z3.IntSort(), U)
SGN = z3.Function("sgn", z3.IntSort(), z3.BoolSort())
ANTI = z3.Function("anti", z3.IntSort(), z3.BoolSort())
OP = z3.Const("op", U)
W = z3.Function("prefix", z3.IntSort(), U)
SW = z3.Function("prefix_sign", z3.IntSort(), z3.BoolSort())


def is_if(t):
    return z3.is_app_of(t, z3.Z3_OP_ITE)


def through(f, *us):
    """Apply f below the choices in its arguments."""
    for i, u in enumerate(us):
        if is_if(u):
            c, a, b = u.children()
            x = through(f, *us[:i], a, *us[i + 1:])
            y = through(f, *us[:i], b, *us[i + 1:])
            return x if x.eq(y) else z3.If(c, x, y)
    return f(*us)


def atoms(u):
    if u.eq(ONE):
        return []
    if u.decl().eq(MUL):
        return atoms(u.arg(0)) + atoms(u.arg(1))
    return [u]


def mul(u, v):
    """The product; the unsigned operators are an elementary abelian group."""
    def flat(a, b):
        left = []
        for x in atoms(a) + atoms(b):
            same = [y for y in left if y.eq(x)]
            if same:
                left.remove(same[0])
            else:
                left.append(x)
        left.sort(key=str)
        r = None
        for x in left:
            r = x if r is None else MUL(r, x)
        return ONE if r is None else r
    return through(flat, u, v)


class Abs:
    """A valid state of n qubits and one operator, as elements."""

    def __init__(self, c, n):
        self.c, self.n = c, n
        self.draws = []
        self.calls = []
        c.contracts[P.multiply] = self.multiply
        c.contracts[P.commutator_sign] = self.commutator_sign
        g = type(plaquette.rng)
        c.contracts[g.choice] = self.choice
        c.contracts[g.integers] = self.integers
        c.contracts[g.random] = self.random
        i, j = z3.Ints("i j")
        u = z3.Const("u", U)
        cur().assume(z3.ForAll([u, j], z3.And(BITS(u, j) >= 0, BITS(u, j) <= 1)))
        self.relations = []

    # -- arrays
    def reader(self, u, s):
        n = self.n

        def get(j):
            return ite(SBool(eq(j, 2 * n)), SInt(b=s, dt="u1"),
                       SInt(BITS(u, C.intterm(j)), dt="u1"))
        return get

    def array(self, u, s):
        return SArr.of(self.reader(u, s), (2 * self.n + 1,), "u1")

    def table(self, rows, f, g):
        """Rows f(i) with signs g(i)."""
        return SArr.of(lambda i, j: self.reader(f(C.intterm(i)), g(C.intterm(i)))(j),
                       (rows, 2 * self.n + 1), "u1")

    def element(self, a, n=None, column=None):
        """(element, sign) of a one-dimensional array.  With columns removed: column(j)
        is the column of the whole operator which is at j."""
        s = cur()
        n = self.n if n is None else n
        if not isinstance(a, SArr) or a.ndim != 1:
            raise Unsupported("not one operator")
        if not s.entails(eq(a.shape[0], 2 * n + 1)):
            raise Unsupported("an operator on another number of qubits")
        j = fresh_int("col")
        s.assume(C.land(j >= 0, j < 2 * n))
        u = self.parse(a.at(j), j.t, None if column is None else column(j).t)
        v = a.at(2 * n)
        b = C.bitterm(v)
        if b is None:
            b = C.intterm(v) == 1
        return u, z3.simplify(b)

    def parse(self, v, j, col=None):
        s = cur()
        col = j if col is None else col
        if isinstance(v, int):
            t = z3.IntVal(v)
        elif isinstance(v, SInt):
            t = z3.simplify(v.t)
        else:
            raise Unsupported("an entry of unknown form")

        def under(c, t):
            pc = s.pc
            s.pc = pc + [c]
            try:
                return go(t)
            finally:
                s.pc = pc

        def go(t):
            if is_if(t):
                c, a, b = t.children()
                if s.entails(c):
                    return go(a)
                if s.entails(z3.Not(c)):
                    return go(b)
                if mentions(c, j):
                    x, y = under(c, a), under(z3.Not(c), b)
                    if not x.eq(y):
                        raise Unsupported("columns are treated differently")
                    return x
                x, y = go(a), go(b)
                return x if x.eq(y) else z3.If(c, x, y)
            if z3.is_int_value(t) and t.as_long() == 0:
                return ONE
            if z3.is_app(t) and t.decl().eq(BITS) and s.entails(t.arg(1) == col):
                return t.arg(0)
            raise Unsupported("an entry which is not that of a known operator")
        return go(t)

    # -- the symplectic form
    def sp(self, u, v):
        """Do u and v anticommute?"""
        def base(a, b):
            xs, ys = atoms(a), atoms(b)
            r = z3.BoolVal(False)
            for x in xs:
                for y in ys:
                    r = z3.Xor(r, self.sp1(x, y))
            return z3.simplify(r)
        return through(base, u, v)

    def sp1(self, x, y):
        if x.eq(y):
            return z3.BoolVal(False)
        for rel in self.relations:
            for a, b in ((x, y), (y, x)):
                r = rel(a, b)
                if r is not None:
                    return r
        raise Unsupported(f"commutation of {x} and {y}")

    # -- contracts
    def multiply(self, it, a, k):
        if len(a) != 2 or k:
            raise Unsupported("another product")
        (u, s), (v, t) = self.element(a[0]), self.element(a[1])
        self.calls.append((u, v))
        sign = through(lambda x, y: z3.Xor(z3.Xor(s, t), self.corr(x, y)), u, v)
        return self.array(mul(u, v), z3.simplify(sign)), C.fresh_real("phase")

    def corr(self, x, y):
        """Sign correction of the product; symmetric where the two commute."""
        if x.eq(ONE) or y.eq(ONE):
            return z3.BoolVal(False)
        if str(x) > str(y):
            try:
                if cur().entails(z3.Not(self.sp(x, y))):
                    x, y = y, x
            except Unsupported:
                pass
        return CORR(x, y)

    def side(self, x):
        """(number or None, element of row i)"""
        if not isinstance(x, SArr):
            raise Unsupported("commutator of something else")
        if x.ndim == 1:
            u, _ = self.element(x)
            return None, lambda i: u
        k = fresh_int("r")
        cur().assume(C.land(k >= 0, k < x.shape[0]))
        u, _ = self.element(x[k])
        return x.shape[0], lambda i: z3.substitute(u, (k.t, C.intterm(i)))

    def commutator_sign(self, it, a, k):
        if k or len(a) != 2:
            raise Unsupported("commutator_sign with options")
        (p, f), (q, g) = self.side(a[0]), self.side(a[1])
        if p is not None and q is not None:
            raise Unsupported("commutation flags of two tables")
        m = p if p is not None else q
        if m is None:
            return SInt(b=self.sp(f(0), g(0)), dt="u1")
        return SArr.of(lambda i: SInt(b=self.sp(f(i), g(i)), dt="u1"), (m,), "u1")

    # -- draws
    def fair(self):
        d = SInt(b=C.fresh_bool("draw").t)
        self.draws.append(d)
        return d

    def choice(self, it, a, k):
        opts = a[1] if len(a) > 1 else None
        if k or opts not in (2, [0, 1], (0, 1)):
            raise Unsupported("another choice")
        return self.fair()

    def integers(self, it, a, k):
        if k or list(a[1:]) not in ([2], [0, 2]):
            raise Unsupported("other integers")
        return self.fair()

    def random(self, it, a, k):
        raise Unsupported("another way to draw a bit")


def mentions(t, j):
    if t.eq(j):
        return True
    return any(mentions(x, j) for x in t.children())


class Scratch(Inv):
    """The accumulated product in a loop over the operators: after the first k
    destabilisers it is the product of the stabilisers conjugate to those of them which
    anticommute with the measured operator."""

    def __init__(self, ab, rows, buf, var, same):
        self.name = "product of stabilisers"
        self.ab, self.rows, self.buf, self.var = ab, rows, buf, var
        self.vars = tuple(same) + ((var,) if var else ())

    def now(self, env):
        if self.var:
            return None, env.vars[self.var]
        a = SArr.of(self.buf.get, self.buf.shape, self.buf.dt)
        return (a, a[-1]) if a.ndim == 2 else (None, a)

    def check(self, it, env, k, name):
        s, ab, n = cur(), self.ab, self.ab.n
        table, acc = self.now(env)
        u, sg = ab.element(acc)
        if isinstance(k, int):
            want_u, want_s = ONE, z3.BoolVal(False)
        else:
            kk = self.k.t
            nxt = ROW(n.t + kk)
            c = ANTI(kk)
            want_u = z3.If(c, mul(W(kk), nxt), W(kk))
            want_s = z3.If(c, z3.Xor(z3.Xor(SW(kk), SGN(n.t + kk)),
                                     ab.corr(W(kk), nxt)), SW(kk))

            def form():
                r = fresh_int("r", 0, 2 * n)
                s.prove(SBool(ab.sp(u, ROW(r.t)) ==
                              z3.And(r.t < n.t, r.t < kk + 1, ANTI(r.t))),
                        name + ": anticommutes with the destabilisers so far")
            if s.entails(kk < n.t):
                s.each(form, name)
        s.prove(SBool(u == want_u), name + ": operator")
        s.prove(SBool(sg == want_s), name + ": sign")
        if table is not None:
            def rest():
                i = fresh_int("i", 0, 2 * n)
                v, t = ab.element(table[i])
                s.prove(SBool(z3.And(v == ROW(i.t), t == SGN(i.t))),
                        name + ": the state itself is unchanged")
            s.each(rest, name)

    def havoc(self, it, env, k):
        self.k = k if isinstance(k, SInt) else SInt(z3.IntVal(k))
        ab, n, kt = self.ab, self.ab.n, C.intterm(k)
        if self.var:
            env.vars[self.var] = ab.array(W(kt), SW(kt))
        elif len(self.buf.shape) == 1:
            self.buf.get = ab.array(W(kt), SW(kt)).reader()
        else:
            m = self.buf.shape[0] - 1
            self.buf.get = SArr.of(
                lambda i, j: ite(SBool(eq(i, m)), ab.reader(W(kt), SW(kt))(j),
                                 ab.reader(ROW(C.intterm(i)), SGN(C.intterm(i)))(j)),
                self.buf.shape, "u1").reader()


def scratch_provider(ab):
    def provide(it, s, env, sv):
        k = fresh_int("probe", 0, sv[0])

        def item():
            if len(sv) == 3:
                cur().assume(sv[2].pred(k))
            return sv[1](k)
        made, drew = len(ab.calls), len(ab.draws)
        bufs, rebound, same = loops.carries(it, s, env, item)
        del ab.calls[made:], ab.draws[drew:]
        n = ab.n
        if len(bufs) == 1:
            b = bufs[0]
            two = len(b.shape) == 2
            if two and not cur().entails(eq(b.shape[0], 2 * n + 1)):
                return None
            return Scratch(ab, b.shape[0], b, None, same)
        if not bufs and len(rebound) == 1 and rebound[0] in env.vars and \
                env.vars[rebound[0]].ndim == 1:
            return Scratch(ab, None, None, rebound[0], same)
        return None
    provide.index_sets = True
    return provide
