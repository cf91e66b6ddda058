"""P12: layout and noise of generated error-correction circuits."""
from plaquette import codes
from plaquette.circuit import generator as G
from plaquette.codes import latticebase as lb

from contracts.common import (C, SBool, SInt, cur, eq, fresh_array, fresh_int)
from pyvc.contract import case
from pyvc.core import fun_bool, fun_int, fun_real, lnot
from pyvc.seq import Each, IfE, SDict, SElem, SSeq, SStruct

FUNCTIONS = ["circuit.generator.QECCircuitGenerator.*", "circuit.CircuitBuilder.*",
             "circuit.Circuit.append"]
ASSUMPTIONS = [
    "the lattice is any graph of stabilisers, logicals, data qubits and links with X, "
    "Y or Z factors; probabilities lie in [0, 1]; error dictionaries passed the check "
    "of ErrorData.check_against_code (its contract: P18)",
    "the choice of logical operators is the result of logical_ops_to_indices "
    "(contract: P22) and their commutation flags are those of commutator_sign "
    "(contract: P02)",
    "in the scheduled form the links are taken from the list of links of the lattice; "
    "that this list holds exactly the links of the operators is P08"]
PAIRS = [a + b for a in "ixyz" for b in "ixyz"][1:]


class World:
    """An arbitrary code, with error dictionaries."""

    def __init__(self, scheduled, ancilla, y=False):
        hi = 4
        self.nd, self.ns, self.nl = (fresh_int(x, 0) for x in ("nd", "ns", "nl"))
        self.rounds = fresh_int("rounds", 1)
        self.steps = fresh_int("steps", 0) if scheduled else None
        fac = {k: fun_int("factor_" + k, n, 1, hi) for k, n in
               (("S", 2), ("L", 2), ("E", 1))}
        if not y:
            fac = {k: (lambda *i, f=f: self.no_y(f(*i))) for k, f in fac.items()}
        self.fac = fac
        dat = {k: fun_int("data_" + k, n) for k, n in (("S", 2), ("L", 2), ("E", 1))}
        self.dq, self.sq, self.lq = (fun_int(x + "_equbit", 1, 0) for x in "dsl")
        # indices of the external qubits are assigned one after the other
        D = self.D = SStruct(lb.DataVertex, {"equbit_idx": self.dq}, "data")
        step_has, step = fun_bool("has_step", 1), fun_int("step", 1, 0)
        op_of = fun_int("op", 1)
        deg = {k: fun_int("deg_" + k, 1, 0) for k in "SL"}
        self.deg = deg

        def edge(kind, arity, has_step):
            return SStruct(lb.Edge, {
                "factor": fac[kind], "data": lambda *i: D(dat[kind](*i)),
                "measurement_time_step": has_step,
                "op": lambda *i: S(op_of(*i)) if kind == "E" else ops[kind](i[0])},
                "edge")
        some = lambda *i: SInt(C.z3.IntVal(0))  # noqa: E731
        none = lambda *i: None  # noqa: E731
        self.step_of = (lambda e: step(e) if bool(step_has(e)) else None)
        ES = edge("S", 2, some if scheduled else none)
        EL = edge("L", 2, none)
        EE = edge("E", 1, self.step_of)
        S = SStruct(lb.StabGenVertex, {
            "equbit_idx": self.sq,
            "edges": lambda k: SSeq(deg["S"](k), lambda j: ES(k, j))}, "stab")
        L = SStruct(lb.LogicalVertex, {
            "equbit_idx": self.lq,
            "edges": lambda k: SSeq(deg["L"](k), lambda j: EL(k, j))}, "logical")
        ops = {"S": S, "L": L}
        self.op_of, self.dat = op_of, dat
        self.ne = fresh_int("ne", 0)
        self.edges = SSeq(self.ne, lambda e: EE(e))
        self.step = step
        self.step_has = step_has
        lat = SStruct(lb.CodeLattice, {
            "dataqubits": lambda: SSeq(self.nd, lambda k: D(k)),
            "stabgens": lambda: SSeq(self.ns, lambda k: S(k)),
            "logical_ops": lambda: SSeq(self.nl, lambda k: L(k)),
            "edges": lambda: self.edges,
            "equbits": lambda: SSeq(self.nd + self.ns + self.nl, lambda k: D(k)),
            "n_time_steps": lambda: self.steps}, "lattice")
        self.lattice = lat()
        self.nsel = fresh_int("nsel", 0)
        self.sel = fun_int("sel", 1, 0, self.nl)
        n = fresh_int("n", 1)
        self.rows = fresh_array("logical_ops", (self.nl, 2 * n + 1), "u1")
        self.code = SStruct(codes.LatticeCode, {
            "lattice": lambda: self.lattice, "n_rounds": lambda: self.rounds,
            "n_logical_qubits": lambda: self.nl, "logical_ops": lambda: self.rows},
            "code")()
        self.ancilla = ancilla
        # errors
        self.q, self.g = {}, {}
        for k, names in (("pauli", "xyz"), ("erasure", "p"), ("measurement", "p")):
            self.q[k] = self.table(k, names, 1)
        for k in ("H", "R", "M", "CX", "CZ"):
            self.g[k] = self.table(k, list("xyz") if k in "HRM" else PAIRS,
                                   1 if k in "HRM" else 2)

    def no_y(self, v):
        cur().assume(v != 2)
        return v

    def table(self, name, keys, arity):
        """An arbitrary table from qubits (or pairs) to probabilities."""
        has1, has2 = fun_bool("has_" + name, 1), fun_bool("has2_" + name, 2)
        has = lambda k: has2(*k) if isinstance(k, tuple) else has1(k)  # noqa: E731

        for ar in (1, 2):
            self.funs[name, ar] = {
                x: (fun_bool(f"{name}.has_{x}", ar), fun_real(f"{name}.{x}", ar))
                for x in keys}

        def val(k):
            ar = 2 if isinstance(k, tuple) else 1
            k = list(k) if isinstance(k, tuple) else [k]
            fs = self.funs[name, ar]

            def get(x):
                v = fs[x][1](*k)
                if name == "measurement":
                    cur().assume(C.land(v >= 0, v <= 1))
                return v
            hasx = (lambda x: x == "p") if keys == "p" else (
                lambda x: fs[x][0](*k) if x in fs else False)
            return SDict(hasx, get, keys=list(keys), name=name)
        return SDict(has, val, name=name)

    funs = None


def world(scheduled, ancilla):
    w = World.__new__(World)
    w.funs = {}
    w.__init__(scheduled, ancilla)
    return w


# ------------------------------------------------------------- expected circuit
def get(entry, key):
    return C.ite(entry.has(key), entry.get(key), 0.0)


def gate_noise(w, gate, a, d, noisy):
    if not noisy:
        return []
    t = w.g[gate]

    def one(key):
        e = t.get(key)
        if d is None:
            return [("E_PAULI", tuple(get(e, x) for x in "xyz") + (a,))]
        return [("E_PAULI2", tuple(get(e, x) for x in PAIRS) + (a, d))]
    out = [IfE(t.has(a), one(a), [])]
    if d is not None:
        out = [IfE(t.has((a, d)), one((a, d)), out)]
    return out


def gate(w, name, a, d, noisy):
    return [(name, (a,) if d is None else (a, d))] + gate_noise(w, name, a, d, noisy)


def link(w, factor, a, d, noisy):
    return [IfE(factor == 1, gate(w, "CX", a, d, noisy), gate(w, "CZ", a, d, noisy))]


def readout(w, a, noisy):
    t = w.q["measurement"]
    out = gate(w, "H", a, None, noisy)
    if noisy:
        out.append(IfE(t.has(a), [("ERROR", (t.get(a).get("p"), "X", a))], []))
    return out + gate(w, "M", a, None, noisy)


def start(w, a, noisy):
    return gate(w, "R", a, None, noisy) + gate(w, "H", a, None, noisy)


def one_op(w, kind, k, noisy):
    a = (w.sq if kind == "S" else w.lq)(k)
    return start(w, a, noisy) + [Each(w.deg[kind](k), lambda j: link(
        w, w.fac[kind](k, j), a, w.dq(w.dat[kind](k, j)), noisy))] + \
        readout(w, a, noisy)


def stabs(w, noisy):
    if w.steps is None:
        return [Each(w.ns, lambda k: one_op(w, "S", k, noisy))]
    def at(i, e):
        mine = C.land(w.step_has(e), w.step(e) == i)
        return [IfE(mine, link(w, w.fac["E"](e), w.sq(w.op_of(e)),
                               w.dq(w.dat["E"](e)), noisy), [])]
    return [Each(w.ns, lambda k: start(w, w.sq(k), noisy)),
            Each(w.steps, lambda i: [Each(w.ne, lambda e: at(i, e))]),
            Each(w.ns, lambda k: readout(w, w.sq(k), noisy))]


def data_noise(w):
    pauli, er = w.q["pauli"], w.q["erasure"]
    from pyvc.seq import quant
    some = quant("any", w.nd, lambda v: er.has(w.dq(v)))

    def one(v):
        q = w.dq(v)
        e = pauli.get(q)
        out = [IfE(C.land(pauli.has(q), e.nonempty()),
                   [("E_PAULI", tuple(get(e, x) for x in "xyz") + (q,))], [])]
        p = C.ite(er.has(q), er.get(q).get("p"), 0.0)
        return out + [IfE(some, [("E_ERASE", (p, q))], [])]
    return [Each(w.nd, one)]


def logicals(w):
    if w.ancilla:
        return [Each(w.nsel, lambda i: one_op(w, "L", w.sel(i), False))]

    def one(i):
        k = w.sel(i)
        n = w.deg["L"](k)
        fac = lambda j: w.fac["L"](k, j)  # noqa: E731
        q = lambda j: w.dq(w.dat["L"](k, j))  # noqa: E731
        return [Each(n, lambda j: [IfE(fac(j) == 1, [("H", (q(j),))], []),
                                   ("M", (q(j),))]),
                Each(n, lambda j: [IfE(fac(j) == 1, [("H", (q(j),))], [])])]
    return [Each(w.nsel, one)]


def expected(w):
    return (logicals(w) + stabs(w, False) +
            [Each(C_simp(w.rounds - 1), lambda t: data_noise(w) + stabs(w, True))] +
            data_noise(w) + stabs(w, False) + logicals(w))


def C_simp(x):
    from pyvc.arr import simp
    return simp(x)


# ------------------------------------------------------------------- contracts
def setup(c, w, commute=True):
    from plaquette.errors import ErrorData
    from plaquette.pauli import commutator_sign

    c.merge_calls = True
    c.contracts[ErrorData.__init__] = lambda it, a, k: None
    c.contracts[ErrorData.check_against_code] = lambda it, a, k: None

    def select(it, a, k):
        cur().prove(True, f"{c.name}: logical operators requested")
        return SSeq(w.nsel, lambda i: w.sel(i))
    c.contracts[codes.StabilizerCode.logical_ops_to_indices] = select

    def comm(it, a, k):
        flags = C.fun_bit("flag", 2)
        from pyvc.arr import SArr
        out = SArr.of(lambda i, j: flags(i, j), (w.nsel, w.nsel), "u1")

        def rows():
            from pyvc.interp import seqview
            for x in a[:2]:
                n, at = seqview(x)
                cur().prove(SBool(eq(n, w.nsel)), f"{c.name}: operators compared")
                i = fresh_int("i", 0, n)
                j = fresh_int("j", 0, w.rows.shape[1])
                cur().prove(at(i).at(j) == w.rows.at(w.sel(i), j),
                            f"{c.name}: operators compared")
        c.scope(rows)
        if commute is None:
            return out
        from pyvc.seq import quant
        anyflag = quant("any", w.nsel, lambda i: quant(
            "any", w.nsel, lambda j: SBool(C.boolterm(flags(i, j)))))
        cur().assume(lnot(anyflag) if commute else anyflag)
        return out
    c.contracts[commutator_sign] = comm


def generate(c, w, logical="requested"):
    return c.raises(G.generate_qec_circuit, w.code, w.q, w.g, logical,
                    logical_ancilla=w.ancilla)


def whole(scheduled, ancilla):
    @case("generate_qec_circuit: " + ("scheduled" if scheduled else "one after the other")
          + (", logicals by ancilla" if ancilla else ", logicals from the data qubits"))
    def f(c):
        w = world(scheduled, ancilla)
        setup(c, w)
        want = expected(w)
        e = generate(c, w)
        c.prove(e is None, "no exception" if e is None else f"no exception: {e!r:.200}")
        if e is None:
            c.emissions(list(c.result.gates), want, "instructions")
    return f


seq_data, seq_anc = whole(False, False), whole(False, True)
pl_data, pl_anc = whole(True, False), whole(True, True)


@case("generate_qec_circuit: operators which do not commute")
def reject(c):
    w = world(True, False)
    setup(c, w, commute=False)
    e = generate(c, w)
    c.prove(isinstance(e, ValueError), "rejected")
