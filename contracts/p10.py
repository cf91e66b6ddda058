"""P10: circuit text."""
import z3
from plaquette.circuit import Circuit, CircuitBuilder

from contracts.circuits import (NOISE, PLAIN, TWO_QUBIT, AnyCircuit, above,
                                conditional)
from contracts.common import C, cur, fresh_int
from pyvc.contract import case
from pyvc.core import SBool, SInt
from pyvc.seq import Each, FStr

FUNCTIONS = ["circuit.Circuit.append", "circuit._qubit_index", "circuit.Circuit.__str__",
             "circuit.Circuit.from_str", "circuit.Circuit.append_from_str",
             "circuit.Circuit.number_of_qubits", "circuit.Circuit.number_measured_qubits",
             "circuit.CircuitBuilder.*"]
ASSUMPTIONS = [
    "float(str(x)) == x and int(str(n)) == n for every number (CPython)",
    "exact probabilities are real numbers in the contracts (no arithmetic is done on them)",
    "qubit indices are not negative (Circuit.append accepts negative ones; outside "
    "the statement)"]
KINDS = list(PLAIN + NOISE) + conditional()
METHODS = {"DEPOLARIZE": "depolarize", "E_PAULI": "e_pauli", "E_PAULI2": "e_pauli2",
           "E_ERASE": "e_erase", "ERROR": "error", "ERROR_ELSE": "error_else",
           "ERROR_CONTINUE": "error_continue"}


def prob():
    p = C.fresh_real("p")
    cur().assume(C.land(p >= 0, p <= 1))
    return p


def printed(ps):
    out = []
    for p in ps:
        if isinstance(p, Each):
            out.append(Each(p.n, lambda k, p=p: printed(p.fn(k))))
        else:
            out.append(p if isinstance(p, str) else FStr([p]))
    return out


def one(form):
    @case(f"append: {form}")
    def f(c):
        from pyvc.arr import unnp  # noqa: F401
        g = AnyCircuit(KINDS)
        for i, kind in enumerate(KINDS):
            def at(kind=kind):
                k = fresh_int("k", 0, g.n)
                name, args = g.instruction(k, kind)
                circ = Circuit()
                if form == "printed":
                    c.run(Circuit.append, circ, name, *printed(args))
                elif form == "builder":
                    m = METHODS.get(name, name)
                    c.run(getattr(CircuitBuilder, m), CircuitBuilder(circ), *args)
                else:
                    c.run(Circuit.append, circ, name, *args)
                c.prove(type(circ.gates) is list and len(circ.gates) == 1,
                        "one instruction")
                for x in circ.gates[:1]:
                    c.prove(type(x) is tuple and len(x) == 2, "name and arguments")
                    c.emissions([x[0]], [name], "name")
                    c.emissions(list(x[1]), list(args), "arguments")
            c.scope(at)
    return f


api, text, builder = one("numbers"), one("printed"), one("builder")


@case("from_str(str(c))")
def roundtrip(c):
    g = AnyCircuit(KINDS)
    s = c.run(Circuit.__str__, g.circuit())
    r = c.run(Circuit.from_str.__func__, Circuit, s)
    c.prove(isinstance(r, Circuit), "a circuit")
    c.emissions(r.gates, g.parts(), "instructions")


@case("append_from_str: comments, blank lines, whitespace")
def decorated(c):
    q = [fresh_int("q", 0) for _ in range(4)]
    p = prob()
    txt = FStr(["\n\n # first comment\n  X ", q[0], "  ", q[1], " # X 1 2 # 3\n\n",
                "\t#\n\tCX   ", q[1], "\t", q[2], "\t\n   \nE_ERASE  ", p, " ", q[3],
                "#E_ERASE\nR ", q[0], "\n #\n\n"])
    circ = Circuit()
    circ.gates.append(("Y", (0,)))
    c.run(Circuit.append_from_str, circ, txt)
    c.emissions(circ.gates, [("Y", (0,)), ("X", (q[0], q[1])), ("CX", (q[1], q[2])),
                             ("E_ERASE", (p, q[3])), ("R", (q[0],))], "instructions")


@case("counts")
def counts(c):
    g = AnyCircuit(KINDS)
    circ = g.circuit()
    n = c.run(Circuit.number_of_qubits.fget, circ)
    above(c, g, n, "number of qubits: above every index")

    def least():
        """A bound of all indices bounds the reported number."""
        b = fresh_int("b", 1)
        k, j = z3.Ints("k! j!")
        cur().assume(SBool(z3.ForAll([k, j], z3.Implies(
            z3.And(k >= 0, k < g.n.t, j >= 0,
                   z3.Or([z3.And(g.kind_.z3(k) == i,
                                 j < C.intterm(g.number(SInt(k), x)))
                          for i, x in enumerate(KINDS)])),
            g.q.z3(k, j) < b.t))))
        c.prove(n <= b, "number of qubits: not larger than needed")
    c.scope(least)
    m = c.run(Circuit.number_measured_qubits.fget, circ)
    c.eqv(m, C.mksum(g.n, lambda k: C.ite(
        C.lor(False, *[g.kind(k) == i for i, x in enumerate(KINDS) if x == "M"]),
        g.m(k), 0)), "counts: number of measurements")


def rejected(c, what, *args):
    e = c.raises(Circuit.append, Circuit(), *args)
    c.prove(e is not None, what)


def number():
    return fresh_int("q", 0)


def fraction():
    """Not an integer."""
    r = C.fresh_real("r")
    cur().assume(C.land(r >= 0, SBool(z3.ToReal(z3.ToInt(r.t)) != r.t)))
    return r


@case("append: unknown instructions")
def unknown(c):
    for name in ("UNKNOWN", "x", "cx", "", "E_PAULI3", "ERR", "I", "S", "CNOT"):
        def at():
            q, p = number(), prob()
            rejected(c, "unknown instruction", name, q)
            for head in (("ERROR", p), ("ERROR_ELSE", p), ("ERROR_CONTINUE",)):
                rejected(c, "unknown gate of a conditional error", *head, name, q)
        c.scope(at)


@case("append: numbers of arguments")
def lengths(c):
    for name, n in (("E_PAULI", 4), ("E_PAULI2", 17), ("E_ERASE", 2)):
        for m in range(0, n + 4):
            if m != n:
                c.scope(lambda: rejected(c, "wrong number of arguments", name,
                                         *[prob() for _ in range(m - 1)],
                                         *[number()][:m]))

        def some():
            m = fresh_int("m", 0)
            cur().assume(m != n)
            f = C.fun_int("v", 1, 0, 2)
            rejected(c, "wrong number of arguments", name, Each(m, lambda i: [f(i)]))
        c.scope(some)
    for name in TWO_QUBIT:
        def odd():
            m, f = fresh_int("m", 0), C.fun_int("v", 1, 0)
            rejected(c, "half a pair", name, Each(2 * m + 1, lambda i: [f(i)]))
        c.scope(odd)


@case("append: probabilities")
def probabilities(c):
    for name in ("ERROR", "ERROR_ELSE"):
        for form in (lambda x: x, lambda x: FStr([x])):
            def at():
                r = C.fresh_real("r")
                cur().assume(C.lor(r < 0, r > 1))
                rejected(c, "probability of a conditional error outside [0, 1]", name,
                         form(r), "X", number())
            c.scope(at)
        for bad in (float("nan"), float("inf"), -float("inf"), "nan", "inf"):
            c.scope(lambda: rejected(c, "probability of a conditional error which is no "
                                     "number in [0, 1]", name, bad, "X", number()))


@case("append: qubits which are no integers")
def integers(c):
    what = "rejected"
    for name in PLAIN:
        for i in range(3):
            for form in (lambda x: x, lambda x: FStr([x])):
                def at():
                    a = [form(number()) for _ in range(4 if name in TWO_QUBIT else 3)]
                    a[i] = form(fraction())
                    rejected(c, what, name, *a)
                    rejected(c, what, "ERROR", prob(), name, *a)
                    rejected(c, what, "ERROR_CONTINUE", name, *a)
                c.scope(at)
    for name, n, m in (("E_PAULI", 3, 1), ("E_PAULI2", 15, 2), ("E_ERASE", 1, 1)):
        for i in range(m):
            def at():
                a = [number() for _ in range(m)]
                a[i] = fraction()
                rejected(c, what, name, *[prob() for _ in range(n)], *a)
            c.scope(at)


@case("append: qubits which are no integers, any number of them")
def integers_many(c):
    for name in PLAIN:
        def some():
            n, f = fresh_int("n", 1), C.fun_int("v", 1, 0)
            two = 2 if name in TWO_QUBIT else 1
            rejected(c, "rejected", name, Each(two * n, lambda i: [f(i)]),
                     *[number()] * (two - 1), fraction())
        c.scope(some)


@case("append_from_str: rejections")
def text_rejections(c):
    q = fresh_int("q", 0)
    for head in (["FOO ", q], ["E_ERASE 0.5 ", q, " ", q], ["X 0.5"], ["CX ", q],
                 ["ERROR 1.5 X ", q], ["ERROR 0.5 Q ", q]):
        def at():
            e = c.raises(Circuit.append_from_str, Circuit(),
                         FStr(["X ", q, "\n"] + head + ["\nY ", q]))
            c.prove(e is not None, "rejected")
        c.scope(at)
