"""An arbitrary circuit: any number of instructions of given kinds."""
from plaquette.circuit import Circuit

from contracts.common import C, cur, fresh_int
from pyvc.core import fun_int, fun_real
from pyvc.seq import Each, IfE

ONE_QUBIT = ("X", "Y", "Z", "H", "R", "M", "DEPOLARIZE")
TWO_QUBIT = ("CX", "CZ")
PLAIN = ONE_QUBIT + TWO_QUBIT
NOISE = ("E_PAULI", "E_PAULI2", "E_ERASE")


def conditional(gates=PLAIN):
    return [("ERROR", g) for g in gates] + [("ERROR_ELSE", g) for g in gates] + \
        [("ERROR_CONTINUE", g) for g in gates]


class Choice(IfE):
    """An alternative whose branches are made on demand."""

    def __init__(self, cond, a, b):
        self.cond, self.fa, self.fb = cond, a, b

    a = property(lambda self: self.fa())
    b = property(lambda self: self.fb())


class AnyCircuit:
    """kinds: names, or (name, gate) for conditional errors."""

    def __init__(self, kinds=PLAIN + NOISE, name="c"):
        self.kinds = list(kinds)
        self.n = fresh_int(name + ".n", 0)
        self.kind_ = fun_int(name + ".kind", 1, 0, len(self.kinds))
        self.m = fun_int(name + ".m", 1, 0)
        self.q = fun_int(name + ".q", 2, 0)
        self.p_ = fun_real(name + ".p", 2)

    def kind(self, k):
        return self.kind_(k)

    def p(self, k, i):
        v = self.p_(k, i)
        cur().assume(C.land(v >= 0, v <= 1))
        return v

    def count(self, k, name):
        return 2 * self.m(k) if name in TWO_QUBIT else self.m(k)

    def qubits(self, k, name):
        return [Each(self.count(k, name), lambda j: [self.q(k, j)])]

    def args(self, k, kind):
        if isinstance(kind, tuple):
            name, g = kind
            head = (g,) if name == "ERROR_CONTINUE" else (self.p(k, 0), g)
            if g in PLAIN:
                return head + tuple(self.qubits(k, g))
            return head + self.args(k, g)
        if kind == "E_PAULI":
            return tuple(self.p(k, i) for i in range(3)) + (self.q(k, 0),)
        if kind == "E_PAULI2":
            return tuple(self.p(k, i) for i in range(15)) + (self.q(k, 0), self.q(k, 1))
        if kind == "E_ERASE":
            return (self.p(k, 0), self.q(k, 0))
        return tuple(self.qubits(k, kind))

    def instruction(self, k, kind):
        return (kind[0] if isinstance(kind, tuple) else kind, self.args(k, kind))

    def chain(self, k, f):
        """The parts f(k, kind) for the kind of instruction k."""
        def at(i):
            here = lambda: list(f(k, self.kinds[i]))  # noqa: E731
            if i == len(self.kinds) - 1:
                return here()
            return [Choice(self.kind(k) == i, here, lambda: at(i + 1))]
        return at(0)

    def parts(self, f=None):
        f = f or (lambda k, kind: [self.instruction(k, kind)])
        return [Each(self.n, lambda k: self.chain(k, f))]

    def circuit(self):
        c = Circuit()
        c.gates = self.parts()
        return c

    def number(self, k, kind):
        """Number of qubit arguments of instruction k."""
        g = kind[1] if isinstance(kind, tuple) else kind
        if g in PLAIN:
            return self.count(k, g)
        return 2 if g == "E_PAULI2" else 1


def above(c, g, bound, what):
    """Every qubit of the circuit is below the bound."""
    def run():
        k, j = fresh_int("k", 0, g.n), fresh_int("j", 0)
        for i, kind in enumerate(g.kinds):
            def at(i=i, kind=kind):
                cur().assume(g.kind(k) == i)
                cur().assume(j < g.number(k, kind))
                c.prove(g.q(k, j) < bound, what)
            c.scope(at)
    c.scope(run)
