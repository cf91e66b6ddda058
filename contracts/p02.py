"""P02: commutation flags are the symplectic product modulo two."""
from plaquette import pauli as P

from contracts.common import (C, SArr, SBool, TABLES, cur, eq, fresh_array, fresh_int,
                              operator, tableau)
from pyvc.contract import case
from pyvc.seq import Each, SSeq

FUNCTIONS = ["pauli.commutator_sign", "pauli.unpack_tableau"]
ASSUMPTIONS = ["precondition: tableau entries are bits; arrays have dtype uint8",
               "the mathematical fact that two Pauli operators commute iff their "
               "symplectic product is even (checked here for one qubit against "
               "matrices; products over qubits multiply the signs)"]


def strs(v):
    return ["".join(str(int(b)) for b in r) for r in v]


def replays(fa, fb, ign):
    def f(v):
        a, b = v["a"], v["b"]
        a = [a] if a.ndim == 1 else a
        b = [b] if b.ndim == 1 else b
        return [("comm", dict(a=strs(a), b=strs(b), form_a=fa, form_b=fb, ign=ign))]
    return f


def flags(a, b, n):
    """Row i of a against row j of b."""
    def get(i, j):
        return C.mksum(n, lambda k: a(i, k) * b(j, k + n)) + \
            C.mksum(n, lambda k: a(i, k + n) * b(j, k))
    return get


def make(c, name, n, form):
    """(argument, reader of rows, number of rows)"""
    if form == "single":
        a = operator(c, name, n)
        rd = a.reader()
        return a, a, (lambda i, j: rd(j)), 1
    rows = fresh_int("rows_" + name, 1)
    a = fresh_array(name, (rows, 2 * n + 1), "u1")
    rd = a.copy().reader()
    if form == "list":
        return [Each(rows, lambda k: [a[k]])], a, rd, rows
    return a, a, rd, rows


def forms(fa, fb, ign=False):
    @case(f"commutator_sign: {fa} and {fb}" + (", stabilisers only" if ign else ""),
          replays=replays(fa, fb, ign))
    def f(c):
        n = fresh_int("n", 0)
        A, av, ra, la = make(c, "a", n, fa)
        B, bv, rb, lb = make(c, "b", n, fb)
        c.note(a=av, b=bv)
        get = flags(ra, rb, n)
        if ign:
            cur().assume(C.land(la % 2 == 0, lb % 2 == 0, la > 0, lb > 0))
            ha, hb = la // 2, lb // 2
            full, get = get, lambda i, j: full(i + ha, j + hb)
            la, lb = ha, hb
        want = SArr.of(lambda i, j: get(i, j) % 2, (la, lb), "u1").squeeze()
        kw = {"ignore_destabilisers": True} if ign else {}
        c.arrays_equal(c.run(P.commutator_sign, A, B, **kw), want, "flags")
    return f


array_array = forms("array", "array")
array_single = forms("array", "single")
single_array = forms("single", "array")
single_single = forms("single", "single")
list_list = forms("list", "list")
list_array = forms("list", "array")
ignore = forms("array", "array", True)


@case("one qubit: symplectic product against matrices")
def one_qubit(c):
    import itertools

    import numpy as np

    from contracts.common import op_of
    ok = all((x1 * z2 + z1 * x2) % 2 == int(not np.allclose(
        op_of((x1, z1)) @ op_of((x2, z2)), op_of((x2, z2)) @ op_of((x1, z1))))
        for x1, z1, x2, z2 in itertools.product((0, 1), repeat=4))
    c.prove(ok, "anticommute iff odd")
