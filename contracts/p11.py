"""P11: OpenQASM export."""
import re

from plaquette.circuit import openqasm

from contracts.circuits import AnyCircuit, conditional
from contracts.common import C, cur, fresh_int
from pyvc.contract import case
from pyvc.seq import Each, FStr, IfE, Joined

FUNCTIONS = ["circuit.openqasm.convert_to_openqasm",
             "circuit.Circuit.number_measured_qubits"]
ASSUMPTIONS = [
    "a circuit is any list of instructions which Circuit.append accepts (P10); "
    "number_of_qubits is one more than the largest qubit index (P10)",
    "resets are left out of the export (known finding P11-reset): the circuits of the "
    "other obligations may contain them, and their statements are not asked for"]
NAMES = {"X": "x", "Y": "y", "Z": "z", "H": "h", "CX": "cx", "CZ": "cz", "R": "reset"}
GATES = ["X", "Y", "Z", "H", "CX", "CZ", "M"]
OTHER = ["DEPOLARIZE", "E_PAULI", "E_PAULI2", "E_ERASE"] + conditional(["X", "CX"])


def statement(x):
    """One line as (name, numbers)."""
    ps = x.parts if isinstance(x, FStr) else [x]
    vals = [p for p in ps if not isinstance(p, str)]
    text = "".join(p if isinstance(p, str) else "#" for p in ps)
    text = re.sub(r"\s+", " ", text).strip()
    n = r"\[ ?# ?\]"
    for pat, name in ((rf"([qc])reg \1 ?{n} ?;", "{}reg"),
                      (rf"measure q ?{n} ?-> ?c ?{n} ?;", "measure"),
                      (rf"([a-z]+) q ?{n} ?;", "{}"),
                      (rf"([a-z]+) q ?{n} ?, ?q ?{n} ?;", "{}")):
        m = re.fullmatch(pat, text)
        if m:
            return (name.format(*m.groups()), *vals)
    return (text,)


def program(ps):
    out = []
    for p in ps:
        if isinstance(p, Each):
            out.append(Each(p.n, lambda k, p=p: program(p.fn(k))))
        elif isinstance(p, IfE):
            out.append(IfE(p.cond, program(p.a), program(p.b)))
        elif isinstance(p, str) and not p.strip():
            continue
        else:
            out.append(statement(p))
    return out


def resets(ps):
    """Does the export contain reset statements at all?"""
    for p in ps:
        if isinstance(p, Each):
            if resets(p.fn(fresh_int("k", 0))):
                return True
        elif isinstance(p, IfE):
            if resets(p.a) or resets(p.b):
                return True
        elif p[0] == "reset":
            return True
    return False


def expected(g, nq, with_resets):
    is_m = lambda k: C.lor(False, *[g.kind(k) == i for i, x in enumerate(g.kinds)  # noqa: E731
                                    if x == "M"])
    measured = lambda n: C.mksum(n, lambda k: C.ite(is_m(k), g.m(k), 0))  # noqa: E731

    def one(k, kind):
        if kind == "M":
            return [Each(g.m(k), lambda j: [("measure", g.q(k, j), measured(k) + j)])]
        if kind in ("CX", "CZ"):
            return [Each(g.m(k), lambda j: [(NAMES[kind], g.q(k, 2 * j),
                                             g.q(k, 2 * j + 1))])]
        if kind == "R" and not with_resets or kind not in NAMES:
            return []
        return [Each(g.m(k), lambda j: [(NAMES[kind], g.q(k, j))])]
    return [("OPENQASM 2.0;",), ('include "qelib1.inc";',), ("qreg", nq),
            ("creg", measured(g.n))] + g.parts(one)


def export(c, g, *a):
    from plaquette.circuit import Circuit
    nq = fresh_int("n_qubits", 1)
    c.contracts[Circuit.number_of_qubits.fget] = lambda it, x, k: nq
    return nq, c.raises(openqasm.convert_to_openqasm, g.circuit(), *a)


def whole(name, kinds, *a):
    @case("convert_to_openqasm: " + name)
    def f(c):
        g = AnyCircuit(kinds)
        nq, e = export(c, g, *a)
        c.prove(e is None, "no exception" if e is None else f"no exception: {e!r}")
        if e is not None:
            return
        r = c.result
        c.prove(isinstance(r, Joined) and r.sep == "\n", "lines")
        got = program(r.lines)
        c.emissions(got, expected(g, nq, resets(got)), "statements")
    return f


gates = whole("gates and measurements", GATES)
with_resets = whole("gates, measurements and resets", GATES + ["R"])
skipping = whole("unsupported instructions skipped", GATES + ["R"] + OTHER, True)


@case("convert_to_openqasm: unsupported instructions")
def rejected(c):
    g = AnyCircuit(GATES + ["R"] + OTHER)
    j = fresh_int("j", 0, g.n)
    cur().assume(g.kind(j) >= len(GATES) + 1)
    _, e = export(c, g)
    c.prove(isinstance(e, openqasm.GateNotSupportedError), "rejected")
