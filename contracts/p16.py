"""P16: translation to the fast simulator."""
import stim
from plaquette.circuit import Circuit
from plaquette.device import _stimsim as S

from contracts import stimsim
from contracts.circuits import AnyCircuit, above
from contracts.common import C, cur, fresh_int
from pyvc.contract import case
from pyvc.seq import Each, IfE, SSeq, parts, quant

FUNCTIONS = ["device._stimsim.circuit_to_stim", "device._stimsim._append_equiprobable",
             "circuit.Circuit.number_of_qubits",
             "device._stimsim.StimSimulator.process_results"]
ASSUMPTIONS = [
    "a circuit is any list of instructions which Circuit.append accepts (P10): pairs of "
    "qubits for CX and CZ, probabilities in [0, 1]",
    "stim performs its instructions as its documentation says (R, M, the gates, "
    "PAULI_CHANNEL_1/2, X/Y/Z_ERROR, CORRELATED_ERROR chains); it is external code"]
XYZ = ["X", "Y", "Z"]


class Trace:
    """Stands for stim.Circuit: the list of what was appended."""
    pyvc_ok = True

    def __init__(self):
        self.items = []

    def append(self, name, targets=(), arg=None):
        from pyvc.interp import Interp
        it = [(name, listing(targets), None if arg is None else listing(arg))]
        Interp.container_method(ctx_it(), self.items, "append", self.items.append, it, {})


def ctx_it():
    return Trace.it


def listing(x):
    if isinstance(x, (list, tuple)) and not is_target(x):
        return list(x)
    if isinstance(x, SSeq):
        return parts(x)
    return [x]


def is_target(x):
    return isinstance(x, tuple) and len(x) == 2 and x[0] in XYZ


def normal(ps):
    """The instructions as channels on qubits."""
    out = []
    for p in ps:
        if isinstance(p, Each):
            out.append(Each(p.n, lambda k, p=p: normal(p.fn(k))))
            continue
        if isinstance(p, IfE):
            out.append(IfE(p.cond, normal(p.a), normal(p.b)))
            continue
        name, targets, arg = p
        if name in ("X_ERROR", "Y_ERROR", "Z_ERROR"):
            pr = [0.0, 0.0, 0.0]
            pr[XYZ.index(name[0])] = arg[0]
            out.append(("PAULI_CHANNEL_1", targets, pr))
        elif name == "DEPOLARIZE1":
            out.append(("PAULI_CHANNEL_1", targets, [arg[0] / 3] * 3))
        elif name in ("CORRELATED_ERROR", "E"):
            out.append(("chain", [(targets, arg[0])]))
        elif name == "ELSE_CORRELATED_ERROR":
            if not out or out[-1][0] != "chain":
                cur().fail("an ELSE_CORRELATED_ERROR without a CORRELATED_ERROR")
            out[-1] = ("chain", out[-1][1] + [(targets, arg[0])])
        else:
            out.append((name, targets, arg))
    return out


def probabilities(chain):
    """Pauli product -> probability that it is the one applied."""
    out, none = [], 1.0
    for targets, p in chain:
        out.append((targets, p * none))
        none = none * (1 - p)
    return out


def setup(c):
    c.contracts[stim.Circuit] = lambda it, a, k: new(it)
    for x in "xyz":
        c.contracts[getattr(stim, "target_" + x)] = \
            lambda it, a, k, x=x: (x.upper(), a[0])

    def new(it):
        Trace.it = it
        t = Trace()
        it.created(t)
        it.created(t.items)
        return t

    def same(a, b, name):
        """Instructions with the same effect."""
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == "chain":
            left = probabilities(a[1])
            for ts, p in b[1]:
                found = [x for x in left if [t[0] for t in x[0]] == [t[0] for t in ts]]
                if len(found) != 1:
                    return cur().fail(name, f"branch {ts} of an erasure")
                left.remove(found[0])
                c.eqv(found[0][0], ts, name)
                cur().prove(found[0][1] == p, name)
            for _, p in left:
                cur().prove(p == 0, name)
            return
        return c.eqv(a, b, name)
    return same


def expected(g, anc):
    def one(k, kind):
        a = g.args(k, kind)
        if kind == "DEPOLARIZE":
            return [("PAULI_CHANNEL_1", list(a), [1 / 3] * 3)]
        if kind == "E_PAULI":
            return [("PAULI_CHANNEL_1", [a[3]], list(a[:3]))]
        if kind == "E_PAULI2":
            return [("PAULI_CHANNEL_2", list(a[15:]), list(a[:15]))]
        if kind == "E_ERASE":
            p, q = a
            br = [([("X", anc)] + [(x, q)] * (x != "I"), p / 4) for x in "XYZI"]
            return [("R", [anc], None), ("chain", br), ("M", [anc], None)]
        if isinstance(kind, tuple):
            pr = [0.0, 0.0, 0.0]
            pr[XYZ.index(kind[1])] = a[0]
            return [("PAULI_CHANNEL_1", list(a[2:]), pr)]
        return [(kind, list(a), None)]
    return g.parts(one)


def records(g):
    def one(k, kind):
        if kind == "M":
            return [Each(g.count(k, "M"), lambda j: [False])]
        return [True] if kind == "E_ERASE" else []
    return g.parts(one)


KINDS = ["X", "Y", "Z", "H", "R", "CX", "CZ", "M", "DEPOLARIZE", "E_PAULI", "E_PAULI2",
         "E_ERASE"]
ALL = KINDS + [("ERROR", x) for x in XYZ]


@case("circuit_to_stim: instructions")
def translate(c):
    g = AnyCircuit(ALL)
    same = setup(c)
    m = g.m

    def one(k):
        v = m(k)
        cur().assume(C.implies(g.kind(k) >= len(KINDS), v == 1))
        return v
    g.m = one
    anc = fresh_int("n_qubits", 1)
    c.contracts[Circuit.number_of_qubits.fget] = lambda it, a, k: anc
    e = c.raises(S.circuit_to_stim, g.circuit())
    c.prove(e is None, "no exception" if e is None else f"no exception: {e!r}")
    if e is not None:
        return
    res, flags = c.result
    c.emissions(normal(res.items), expected(g, anc), "instructions", same)
    c.emissions(list(flags), records(g), "which records are erasure flags")


@case("number_of_qubits: the erasure ancilla is no qubit of the circuit")
def ancilla(c):
    g = AnyCircuit(ALL)
    above(c, g, c.run(Circuit.number_of_qubits.fget, g.circuit()), "above all qubits")


@case("circuit_to_stim: what it cannot translate")
def rejected(c):
    bad = [("ERROR", x) for x in ("H", "M", "R", "CX", "CZ", "DEPOLARIZE")] + \
        [(n, g) for n in ("ERROR_ELSE", "ERROR_CONTINUE") for g in ("X", "Z", "CX", "M")]
    many = [("ERROR", x) for x in XYZ]
    g = AnyCircuit(KINDS + many + bad)
    setup(c)
    nq = fresh_int("n_qubits", 1)
    c.contracts[Circuit.number_of_qubits.fget] = lambda it, a, k: nq
    j = fresh_int("j", 0, g.n)
    cur().assume(C.lor(g.kind(j) >= len(KINDS + many),
                       C.land(g.kind(j) >= len(KINDS), g.m(j) != 1)))
    e = c.raises(S.circuit_to_stim, g.circuit())
    c.prove(isinstance(e, ValueError), "rejected")


@case("process_results: outcomes and flags in order")
def separate(c):
    w = stimsim.world(c)
    sim = stimsim.arbitrary(w, stimsim.simulator(c, w))
    t = w.translated[0]
    nm, er = t.nm, t.flag
    e = c.raises(S.StimSimulator.run, sim)
    c.prove(e is None, "run: no exception")
    row = sim.all_meas.reader()
    meas, flags = c.run(S.StimSimulator.process_results, sim)
    c.emissions(parts(meas), [Each(nm, lambda k: [IfE(er(k), [], [row(k)])])],
                "outcomes")
    some = quant("any", nm, er)
    if flags is None:
        c.prove(C.lnot(some), "no flags only if there are no erasures")
    else:
        c.prove(some, "flags only if there are erasures")
        c.emissions(parts(flags), [Each(nm, lambda k: [IfE(er(k), [row(k)], [])])],
                    "erasure flags")
