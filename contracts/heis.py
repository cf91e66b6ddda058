"""What is measured: Pauli operators pulled back through emitted instructions.

An operator is a sign and, for every qubit, an x and a z bit (functions of the index of
the qubit).  A gate acts by the table computed from its matrix; a repetition of gates is
passed with an invariant (the operator before its j-th repetition), proved by induction."""
import itertools

import z3

from contracts.common import C, SBool, SInt, Unsupported, conj_table, cur, fresh_int
from pyvc.core import intterm
from pyvc.seq import Each, IfE

TABLES = {g: conj_table(g) for g in ("H", "CX", "CZ", "X", "Y", "Z", "S", "I")}
SELF = ("H", "CX", "CZ", "X", "Y", "Z", "I")
NO, YES = z3.BoolVal(False), z3.BoolVal(True)
NOISE = ("E_PAULI", "E_PAULI2", "E_ERASE", "ERROR", "ERROR_CONTINUE")


class Obs:
    def __init__(self, x, z, sign=NO):
        self.x, self.z, self.sign = x, z, sign

    def ite(self, cond, o):
        return Obs(lambda q: z3.If(cond, self.x(q), o.x(q)),
                   lambda q: z3.If(cond, self.z(q), o.z(q)),
                   z3.If(cond, self.sign, o.sign))


def xor(bits):
    r = NO
    for b in bits:
        r = z3.Xor(r, b)
    return r


def conjugate(o, name, qs):
    """U^dagger O U for a gate which is its own inverse."""
    if name not in SELF:
        raise Unsupported(f"the gate {name}")
    t, k = TABLES[name], len(qs)
    bits = [o.x(q) for q in qs] + [o.z(q) for q in qs]
    units = [tuple(int(i == j) for j in range(2 * k)) for i in range(2 * k)]
    new = [xor([bits[i] for i, u in enumerate(units) if t[u][0][j]])
           for j in range(2 * k)]
    neg = [z3.And([b if v else z3.Not(b) for b, v in zip(bits, bs)])
           for bs in itertools.product((0, 1), repeat=2 * k) if t[bs][1]]

    def put(old, vals):
        def f(q):
            r = old(q)
            for p, v in zip(qs, vals):
                r = z3.If(q == p, v, r)
            return r
        return f
    return Obs(put(o.x, new[:k]), put(o.z, new[k:]), z3.Xor(o.sign, z3.Or(neg))
               if neg else o.sign)


def pauli_at(a, z=True):
    """Z (X) on one qubit."""
    return Obs(lambda q: NO if z else q == a, lambda q: q == a if z else NO)


class Pull:
    """Pulls an operator back; `reads` may say that a measurement is part of what is
    read off (then its outcome is multiplied in)."""

    def __init__(self, c, what, loops=(), reads=None):
        self.c, self.what, self.reads = c, what, reads
        self.loops = list(loops)   # one per repetition, in the order they are met
        self.open = []             # indices of the repetitions around

    def prove(self, t, why):
        self.c.prove(SBool(t), f"{self.what}: {why}")

    def equal(self, a, b, why):
        q = fresh_int("q").t
        self.prove(a.x(q) == b.x(q), why)
        self.prove(a.z(q) == b.z(q), why)
        self.prove(a.sign == b.sign, why + " (sign)")

    def back(self, ps, o):
        for p in reversed(list(ps)):
            if isinstance(p, Each):
                if not self.loops:
                    raise Unsupported("a repetition which was not foreseen")
                o = self.loop(p, o)
            elif isinstance(p, IfE):
                cond = C.boolterm(p.cond)
                n = len(self.loops)
                a = self.under(cond, p.a, o)
                if len(self.loops) != n:
                    raise Unsupported("a repetition of one case")
                o = a.ite(cond, self.under(z3.Not(cond), p.b, o))
            else:
                o = self.one(p, o)
        return o

    def under(self, cond, ps, o):
        if not ps:
            return o
        old, self.prove = self.prove, lambda t, why: old(z3.Implies(cond, t), why)
        try:
            return self.back(ps, o)
        finally:
            self.prove = old

    def one(self, p, o):
        name, args = p[0], p[1]
        if name in NOISE:
            return o
        qs = [intterm(a) for a in args]
        if name == "M":
            for a in qs:
                self.prove(z3.Not(o.x(a)), "a measurement leaves it alone")
                if self.reads is not None and self.reads(a):
                    o = Obs(o.x, lambda q, o=o, a=a: z3.Xor(o.z(q), q == a), o.sign)
            return o
        if name == "R":
            for a in qs:
                self.prove(z3.Not(o.x(a)), "a reset leaves it alone")
                o = Obs(o.x, lambda q, o=o, a=a: z3.And(o.z(q), q != a), o.sign)
            return o
        k = 2 if name in ("CX", "CZ") else 1
        if len(qs) % k:
            raise Unsupported("operands of a gate")
        for i in range(len(qs) - k, -1, -k):
            if k == 2:
                self.prove(qs[i] != qs[i + 1], "gates on two different qubits")
            o = conjugate(o, name, qs[i:i + k])
        return o

    def loop(self, p, o):
        n = intterm(p.n)
        inner = self.loops.pop()
        inv, inside = inner(n, o, list(self.open))
        self.equal(o, inv(n), "after the last repetition")
        left = self.loops

        def step():
            j = fresh_int("j", 0)
            cur().assume(SBool(j.t < n))
            self.loops = list(inside)
            self.open.append(j.t)
            r = self.back(p.fn(j), inv(j.t + 1))
            self.open.pop()
            if self.loops:
                raise Unsupported("fewer repetitions than foreseen")
            self.equal(r, inv(j.t), "a repetition")
        self.c.scope(step)
        self.loops = left
        return inv(z3.IntVal(0))


def unchanged(*inside):
    """A repetition which leaves the operator as it is."""
    return lambda n, o, outer: (lambda j: o, inside)
