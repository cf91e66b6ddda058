"""P04: every gate conjugates every row, for all targets in order."""
from plaquette import pauli as P

from contracts.common import (C, SBool, TABLES, boolfun, cur, eq, fold_provider,
                              fresh_int, gate_step, tableau, zxor)
from pyvc.contract import case
from pyvc.seq import SSeq

FUNCTIONS = ["pauli.x", "pauli.y", "pauli.z", "pauli.hadamard", "pauli.phase_gate",
             "pauli.control_not_gate", "pauli.control_phase_gate", "pauli.unpack_tableau"]
ASSUMPTIONS = [
    "precondition: tableau entries are bits, targets are valid indices "
    "0 <= t < n of Python type int (control != target), given as one int or a sequence",
    "lists of targets of arbitrary length: loop invariant with the ghost recursion "
    "S(k+1) = conjugation of S(k) by the gate on target k"]
FNS = {"X": ("x", 0), "Y": ("y", 0), "Z": ("z", 0), "H": ("hadamard", 0),
       "S": ("phase_gate", 0), "CX": ("control_not_gate", 0),
       "CZ": ("control_phase_gate", 0)}


def rows_of(v):
    return ["".join(str(int(b)) for b in r) for r in v]


def replay_one(gate):
    def f(v):
        st = v["state"]
        if st.shape[0] == 0:
            return []
        return [("one", dict(gate=gate, rows=rows_of(st), t=[v["t"]], form="int"))]
    return f


def replay_two(gate):
    def f(v):
        return [("two", dict(gate=gate, rows=rows_of(v["state"]), c=[v["a"]], t=[v["b"]],
                             form="int"))]
    return f


def single(gate):
    fn = getattr(P, FNS[gate][0])

    @case(f"{FNS[gate][0]}: one target", replays=replay_one(gate))
    def f(c):
        st, n = tableau(c)
        t = fresh_int("t", 0, n)
        c.note(state=st.copy(), t=t)
        rd = st.reader()
        rd0 = lambda i, j: rd(i, j)  # noqa: E731
        before = st.copy().reader()
        want = gate_step(gate)(before, t, n)
        out = c.run(fn, st, t)
        compare(c, out, st.shape, want)
    return f


def compare(c, out, shape, want):
    c.prove(out.ndim == 2, "two-dimensional")
    for a, b in zip(out.shape, shape):
        c.prove(SBool(eq(a, b)), "shape")
    i, j = fresh_int("i", 0, shape[0]), fresh_int("j", 0, shape[1])
    c.prove(out.at(i, j) == want(i, j), "conjugated row")


def pair(gate):
    fn = getattr(P, FNS[gate][0])

    @case(f"{FNS[gate][0]}: one pair", replays=replay_two(gate))
    def f(c):
        st, n = tableau(c)
        a, b = fresh_int("a", 0, n), fresh_int("b", 0, n)
        cur().assume(a != b)
        c.note(state=st.copy(), a=a, b=b)
        want = gate_step(gate)(st.copy().reader(), (a, b), n)
        compare(c, c.run(fn, st, a, b), st.shape, want)
    return f


def many(gate):
    fn = getattr(P, FNS[gate][0])

    @case(f"{FNS[gate][0]}: any number of targets")
    def f(c):
        st, n = tableau(c)
        m = fresh_int("m", 0)
        if gate in ("CX", "CZ"):
            tc, tt = C.fun_int("c", 1, 0, n), C.fun_int("t", 1, 0, n)

            def item(k):
                a, b = tc(k), tt(k)
                cur().assume(a != b)
                return (a, b)
            args = [SSeq(m, lambda k: item(k)[0]), SSeq(m, lambda k: item(k)[1])]
            cands = [gate]
        else:
            tt = C.fun_int("t", 1, 0, n)
            item = lambda k: tt(k)  # noqa: E731
            args = [SSeq(m, tt)]
            cands = [gate] + (["X", "Z"] if gate == "Y" else [])
        folds = []
        first = st.copy().reader()
        c.provider = fold_provider(folds, {g: gate_step(g) for g in cands}, n, c.name)
        out = c.run(fn, st, *args)
        if not folds or folds[-1].step is None:
            raise C.Unsupported("no loop over the targets was recognised")
        kinds = sorted(f.step for f in folds)
        if kinds != [gate] and not (gate == "Y" and kinds == ["X", "Z"]):
            raise C.Unsupported(f"loops with {kinds}")
        i, j = fresh_int("i", 0, st.shape[0]), fresh_int("j", 0, st.shape[1])
        c.prove(out.ndim == 2, "two-dimensional")
        c.prove(C.land(SBool(eq(out.shape[0], st.shape[0])),
                       SBool(eq(out.shape[1], st.shape[1]))), "shape")
        prev = first
        for f in folds:
            def order(f=f):
                k = fresh_int("k", 0, m)
                a, b = f.at(k), item(k)
                a, b = (a, b) if isinstance(a, tuple) else ((a,), (b,))
                for x, y in zip(a, b):
                    c.prove(SBool(eq(x, y)), "targets in order")
            c.prove(f.entry(i, j) == prev(i, j), "loop starts from the result so far")
            c.prove(SBool(eq(f.n, m)), "one iteration per target")
            c.scope(order)
            prev = lambda x, y, f=f: f.S(m, x, y)  # noqa: E731
        c.prove(out.at(i, j) == prev(i, j), "result after the last target")
        if len(folds) == 2:
            lemma_y(c, folds, first, m, n, item)
    return f


def lemma_y(c, folds, s0, m, n, item):
    """Folding X and then Z over the targets equals folding Y (up to a global
    phase, which no row sees): by induction over the targets."""
    A, B = folds
    Y = C.fun_bit("Y", 3)
    step = {"A": gate_step(A.step), "B": gate_step(B.step), "Y": gate_step("Y")}
    i, j = fresh_int("i", 0), fresh_int("j", 0, 2 * n)
    last = 2 * n
    k = fresh_int("k", 0)

    def unfold(F, st, kk, x, y):
        """S(k+1) = step(S(k)) at one place."""
        cur().assume(F(kk + 1, x, y) ==
                     step[st](lambda a, b: F(kk, a, b), item(kk), n)(x, y))
    # x and z never change
    for F, st, init in ((A.S, "A", s0), (B.S, "B", lambda x, y: A.S(m, x, y)),
                        (Y, "Y", s0)):
        def keep(F=F, st=st, init=init):
            cur().assume(k < m)
            cur().assume(F(k, i, j) == init(i, j))
            unfold(F, st, k, i, j)
            c.prove(F(k + 1, i, j) == init(i, j), "lemma: the columns do not change")
        c.scope(keep)

    def kept(F, init, kk, q):
        for col in (q, q + n):
            cur().assume(F(kk, i, col) == init(i, col))
    after_a = lambda x, y: A.S(m, x, y)  # noqa: E731

    def claim(kk):
        return zxor(Y(kk, i, last), s0(i, last)) == zxor(
            zxor(A.S(kk, i, last), s0(i, last)),
            zxor(B.S(kk, i, last), A.S(m, i, last)))

    def base():
        for F, init in ((A.S, s0), (B.S, after_a), (Y, s0)):
            cur().assume(F(0, i, last) == init(i, last))
        c.prove(claim(0), "lemma: signs, no target")
    c.scope(base)

    def ind():
        cur().assume(k < m)
        q = item(k)
        kept(A.S, s0, k, q)
        kept(A.S, s0, m, q)
        kept(B.S, after_a, k, q)
        kept(Y, s0, k, q)
        for F, st in ((A.S, "A"), (B.S, "B"), (Y, "Y")):
            unfold(F, st, k, i, last)
        cur().assume(claim(k))
        c.prove(claim(k + 1), "lemma: signs, one more target")
    c.scope(ind)

    def final():
        for F, init in ((A.S, s0), (B.S, after_a), (Y, s0)):
            cur().assume(F(m, i, j) == init(i, j))
        cur().assume(claim(m))
        c.prove(B.S(m, i, j) == Y(m, i, j), "X then Z is Y on the columns")
        c.prove(B.S(m, i, last) == Y(m, i, last), "X then Z is Y on the signs")
    c.scope(final)


one_x, one_y, one_z, one_h, one_s = (single(g) for g in "XYZHS")
pair_cx, pair_cz = pair("CX"), pair("CZ")
many_x, many_y, many_z, many_h, many_s, many_cx, many_cz = (
    many(g) for g in ("X", "Y", "Z", "H", "S", "CX", "CZ"))


@case("aliases")
def aliases(c):
    c.prove(P.h is P.hadamard, "h is hadamard")
    c.prove(P.cx is P.control_not_gate, "cx is control_not_gate")
    c.prove(P.cz is P.control_phase_gate, "cz is control_phase_gate")
