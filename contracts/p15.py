"""P15: execution of instructions by the reference simulator."""
import itertools

from plaquette.circuit import Circuit, CircuitBuilder
from plaquette.device import _circuitsim as S

from contracts.circsim import World, distribution, flat, key, operations, outcomes
from contracts.circuits import NOISE, PLAIN, TWO_QUBIT, AnyCircuit
from contracts.common import C, SBool, cur, eq, fresh_int
from pyvc.contract import case
from pyvc.core import Unsupported
from pyvc.seq import Each, IfE, count_parts, parts

FUNCTIONS = ["device._circuitsim.CircuitSimulator.*", "device.QuantumState.*"]
ASSUMPTIONS = [
    "the operations on tableaus do what P04-P06 say (contracts on pauli.x, y, z, "
    "hadamard, cx, cz, reset_qubits_to_eigenstate, measure, zero_state)",
    "numpy's generator: random() is uniform on [0, 1), integers(a, b) uniform on a..b-1, "
    "choice(values, p) has the probabilities p; draws are independent",
    "probabilities are real numbers with sum at most 1 (sums above 1 by rounding: bounded)",
    "the simulator keeps the group of conditional errors in in_error, any_error_applied "
    "and apply_branch, with apply_branch only if any_error_applied (invariant, shown "
    "for every instruction); another representation is left to the bounded check"]
FIELDS = {"circ", "state", "meas_results", "erasure", "in_error", "any_error_applied",
          "apply_branch", "_instruction_pointer"}
PAULIS = ["I", "X", "Y", "Z"]
GATES = ["X", "Y", "Z", "H", "R", "CX", "CZ"]


def simulator(c, w, circ=None):
    """The simulator between two instructions: any state, any group."""
    sim = S.CircuitSimulator.__new__(S.CircuitSimulator)
    if circ is None:
        circ = Circuit()
        circ.append("X", 0)
    c.run(S.CircuitSimulator.__init__, sim, circ)
    if set(vars(sim)) != FIELDS:
        raise Unsupported("another representation of the simulator")
    w.log.clear()
    w.weights.clear()
    w.tableau.n = w.n = fresh_int("n_qubits", 1)
    w.group = g = [C.fresh_bool(x) for x in ("in_error", "any", "branch")]
    cur().assume(C.implies(g[0], C.implies(g[2], g[1])))
    sim.in_error, sim.any_error_applied, sim.apply_branch = g
    w.before = []
    for name in ("meas_results", "erasure"):
        n, f = fresh_int("n_" + name, 0), C.fun_bool(name, 1)
        w.before.append(Each(n, lambda k, f=f: [f(k)]))
        setattr(sim, name, c.it.created([w.before[-1]]))
    return sim


def expected(g, kind, k=0):
    """Operations of a gate or measurement."""
    if kind in TWO_QUBIT:
        return [Each(g.m(k), lambda j: [(kind, g.q(k, 2 * j), g.q(k, 2 * j + 1))])]
    return [Each(g.m(k), lambda j: [(kind, g.q(k, j))])]


def done(c, w, sim, want, flags=()):
    """The operations, and a record which grew by their outcomes and these flags."""
    ops = operations(w.log)
    c.emissions(without_size(c, w, ops), want, "operations on the state")
    c.prove(sim.state.tableau is w.tableau, "the state is the result of all operations")
    c.emissions(sim.meas_results, [w.before[0]] + outcomes(w.log), "outcomes in order")
    c.emissions(sim.erasure, [w.before[1]] + list(flags), "flags")


def without_size(c, w, ps):
    out = []
    for p in ps:
        if isinstance(p, Each):
            out.append(Each(p.n, lambda k, p=p: without_size(c, w, p.fn(k))))
        elif isinstance(p, IfE):
            out.append(IfE(p.cond, without_size(c, w, p.a), without_size(c, w, p.b)))
        elif p[0] == "M":
            c.prove(SBool(eq(p[2], w.n)), "measured operator on the qubits of the state")
            out.append(p[:2])
        else:
            out.append(p)
    return out


def outside(c, sim):
    c.prove(C.lnot(sim.in_error), "outside of a group")


@case("gates and measurements")
def gates(c):
    for kind in GATES + ["M"]:
        def at():
            w, g = World(c), AnyCircuit([kind])
            sim = simulator(c, w)
            c.run(S.CircuitSimulator._run_gate, sim, *g.instruction(0, kind))
            done(c, w, sim, expected(g, kind))
            outside(c, sim)
        c.scope(at)


# ------------------------------------------------------------------ random ones
def effects(g, kind, m=1):
    """(probability, operations, flags) of a random instruction."""
    q = [g.q(0, i) for i in range(3)]
    one = lambda a, i: [(a, q[i])] if a != "I" else []  # noqa: E731
    if kind == "DEPOLARIZE":
        return [(C.SReal(C.z3.Q(1, 3 ** m)), [(a, x) for a, x in zip(ab, q)], [])
                for ab in itertools.product("XYZ", repeat=m)]
    if kind == "E_ERASE":
        p = g.p(0, 0)
        return [(1 - p, [], [False])] + [(p / 4, one(a, 0), [True]) for a in PAULIS]
    if kind == "E_PAULI":
        ps = [g.p(0, i) for i in range(3)]
        return [(p, one(a, 0), []) for a, p in zip(PAULIS, [1 - sum3(ps)] + ps)]
    ps = [g.p(0, i) for i in range(15)]
    return [(p, one(a, 0) + one(b, 1), []) for (a, b), p in
            zip(itertools.product(PAULIS, repeat=2), [1 - sum3(ps)] + ps)]


def sum3(ps):
    r = ps[0]
    for p in ps[1:]:
        r = r + p
    return r


def arguments(g, kind, m):
    n = {"E_PAULI": 3, "E_PAULI2": 15, "E_ERASE": 1}.get(kind, 0)
    nq = {"E_PAULI": 1, "E_PAULI2": 2, "E_ERASE": 1}.get(kind, m)
    ps = [g.p(0, i) for i in range(n)]
    if n:
        cur().assume(sum3(ps) <= 1)
    return ps + [g.q(0, i) for i in range(nq)]


def kept(c, w, sim):
    c.emissions(list(sim.meas_results), w.before[:1], "earlier records kept")
    c.emissions(list(sim.erasure[:1]), w.before[1:], "earlier records kept")


def is_true(x):
    return bool(x)


def random_case(kind, ms=(1,)):
    @case(f"distribution of {kind}")
    def f(c):
        for m in ms:
            def at():
                w, g = World(c), AnyCircuit([kind])
                args = arguments(g, kind, m)
                p0, G = C.fresh_real("p"), kind

                def run(wrap=()):
                    w = World(c)
                    sim = simulator(c, w)
                    c.run(S.CircuitSimulator._run_gate, sim, kind, tuple(args))
                    c.prove(sim.state.tableau is w.tableau,
                            "the state is the result of all operations")
                    outside(c, sim)
                    kept(c, w, sim)
                    return w.weight(), key(flat(w.log),
                                           [is_true(x) for x in sim.erasure[1:]])
                distribution(c, run, [(p, key(ops, fl)) for p, ops, fl in
                                      effects(g, kind, m)], "probabilities")

                def conditional():
                    w = World(c)
                    sim = simulator(c, w)
                    c.run(S.CircuitSimulator._run_gate, sim, "ERROR",
                          (p0, kind) + tuple(args))
                    c.prove(sim.state.tableau is w.tableau,
                            "the state is the result of all operations")
                    return w.weight(), key(flat(w.log),
                                           [is_true(x) for x in sim.erasure[1:]])
                cur().assume(C.land(p0 >= 0, p0 <= 1))
                distribution(c, conditional,
                             [(1 - p0, key([], []))] +
                             [(p0 * p, key(ops, fl)) for p, ops, fl in
                              effects(g, kind, m)], "probabilities in an error")
            c.scope(at)
    return f


erase, pauli1 = random_case("E_ERASE"), random_case("E_PAULI")
pauli2, depol = random_case("E_PAULI2"), random_case("DEPOLARIZE", (0, 1, 2))


@case("DEPOLARIZE on any number of qubits")
def depolarize(c):
    w, g = World(c), AnyCircuit(["DEPOLARIZE"])
    sim = simulator(c, w)
    c.run(S.CircuitSimulator._run_gate, sim, *g.instruction(0, "DEPOLARIZE"))
    c.prove(SBool(eq(count_parts(w.log), g.m(0))), "one Pauli per qubit")

    def same(a, b, name):
        return cur().prove(C.land(a[0] in "XYZ", SBool(eq(a[1], b))), name)
    c.emissions(w.log, [Each(g.m(0), lambda j: [g.q(0, j)])],
                "X, Y or Z on each listed qubit", same)
    outside(c, sim)


# -------------------------------------------------------------- conditional ones
def group(c, sim, any_, branch):
    c.prove(C.implies(True, sim.in_error), "inside of the group")
    c.prove(same_bool(sim.any_error_applied, any_), "whether a branch fired")
    c.prove(same_bool(sim.apply_branch, branch), "whether this branch fired")


def same_bool(a, b):
    return SBool(C.boolterm(a) == C.boolterm(b)) if isinstance(a, C.Sym) or \
        isinstance(b, C.Sym) else bool(a) == bool(b)


def conditional(name):
    @case(f"{name}")
    def f(c):
        for kind in GATES + ["M"]:
            def at():
                w, g = World(c), AnyCircuit([(name, kind)])
                sim = simulator(c, w)
                inside, any_, branch = w.group
                _, args = g.instruction(0, (name, kind))
                e = c.raises(S.CircuitSimulator._run_gate, sim, name, args)
                if name != "ERROR" and not bool(inside):
                    c.prove(e is not None, "rejected outside of a group")
                    c.prove(not w.log, "nothing happens outside of a group")
                    return
                c.prove(e is None, "no exception")
                if e is not None:
                    return
                if name == "ERROR_CONTINUE":
                    fired = bool(branch)
                    c.prove(SBool(eq(w.weight(), 1)), "no chance involved")
                    done(c, w, sim, expected(g, kind) if fired else [])
                    return group(c, sim, any_, branch)
                if name == "ERROR_ELSE" and bool(any_):
                    c.prove(SBool(eq(w.weight(), 1)), "no chance involved")
                    done(c, w, sim, [])
                    return group(c, sim, True, False)
                fired = bool(sim.apply_branch)
                p = args[0]
                c.prove(w.weight() == (p if fired else 1 - p), "probability")
                done(c, w, sim, expected(g, kind) if fired else [])
                group(c, sim, fired, fired)
            c.scope(at)
    return f


error, error_else = conditional("ERROR"), conditional("ERROR_ELSE")
error_continue = conditional("ERROR_CONTINUE")


# ----------------------------------------------------------------------- a run
SOME = ["X", "CX", "M", ("ERROR", "Y")]


@case("the next instruction")
def following(c):
    w, g = World(c), AnyCircuit(SOME)
    circ = g.circuit()
    from plaquette.circuit import Circuit as K
    c.contracts[K.number_of_qubits.fget] = lambda it, a, k: fresh_int("nq", 1)
    sim = simulator(c, w, circ)
    i = fresh_int("done", -1)
    cur().assume(i < g.n)
    sim._instruction_pointer = i
    e = c.raises(S.CircuitSimulator.__next__, sim)
    if bool(i + 1 >= g.n):
        c.prove(isinstance(e, StopIteration), "stops after the last instruction")
        c.prove(not w.log, "nothing after the last instruction")
        return
    c.prove(e is None, "no exception")
    c.prove(SBool(eq(sim._instruction_pointer, i + 1)), "one instruction further")
    for k, kind in enumerate(SOME):
        if not bool(g.kind(i + 1) == k):
            continue
        if isinstance(kind, tuple):
            fired = bool(sim.apply_branch)
            p = g.p(i + 1, 0)
            c.prove(w.weight() == (p if fired else 1 - p), "probability")
            done(c, w, sim, expected(g, kind[1], i + 1) if fired else [])
        else:
            done(c, w, sim, expected(g, kind, i + 1))


@case("a fresh start")
def fresh(c):
    w = World(c)
    nq = fresh_int("nq", 1)
    from plaquette.circuit import Circuit as K
    c.contracts[K.number_of_qubits.fget] = lambda it, a, k: nq
    for how in ("new", "builder", "reset"):
        circ = Circuit()
        circ.append("X", 0)
        w.states.clear()
        if how == "reset":
            sim = simulator(c, w, circ)
            w.states.clear()
            c.run(S.CircuitSimulator.reset, sim)
        else:
            sim = S.CircuitSimulator.__new__(S.CircuitSimulator)
            c.run(S.CircuitSimulator.__init__, sim,
                  circ if how == "new" else CircuitBuilder(circ))
        c.prove(sim.circ is circ, "its circuit")
        c.prove(len(w.states) == 1 and sim.state.tableau is w.states[-1], "zero state")
        c.prove(SBool(eq(sim.state.tableau.n, nq)), "on the qubits of the circuit")
        c.prove(not sim.meas_results and not sim.erasure, "empty records")
        outside(c, sim)


@case("run")
def whole(c):
    """Iterates over the instructions; afresh unless told otherwise."""
    for n in range(4):
        for again in (None, True, False):
            def at():
                w = World(c)
                circ = Circuit()
                q = [fresh_int("q", 0) for _ in range(n)]
                for i in range(n):
                    circ.gates.append(("XYZH"[i], (q[i],)))
                from plaquette.circuit import Circuit as K
                c.contracts[K.number_of_qubits.fget] = lambda it, a, k: fresh_int("nq", 1)
                sim = simulator(c, w, circ)
                before = sim.state.tableau
                w.states.clear()
                c.run(S.CircuitSimulator.run, sim,
                      **({} if again is None else {"after_reset": again}))
                c.emissions(w.log, [("XYZH"[i], q[i]) for i in range(n)],
                            "all instructions in order")
                c.prove(sim.state.tableau is w.tableau,
                        "the state is the result of all operations")
                if again is not False:
                    c.prove(len(w.states) == 1, "from the zero state")
                    c.prove(not sim.meas_results and not sim.erasure, "empty records")
                else:
                    c.prove(not w.states and (n > 0 or sim.state.tableau is before),
                            "from the state left")
                    kept(c, w, sim)
            c.scope(at)


@case("the record")
def record(c):
    w = World(c)
    sim = simulator(c, w)
    n, m = fresh_int("n", 0), fresh_int("m", 0)
    f, e = C.fun_bit("outcome", 1, None), C.fun_bool("flag", 1)
    sim.meas_results = c.it.created([Each(n, lambda k: [f(k)])])
    sim.erasure = c.it.created([Each(m, lambda k: [e(k)])])
    meas, er = c.run(S.CircuitSimulator.process_results, sim)
    c.emissions(parts_of(meas), [Each(n, lambda k: [f(k)])], "outcomes in order")
    if er is None:
        c.prove(SBool(eq(m, 0)), "no flags only without erasures")
    else:
        c.prove(m > 0, "flags only with erasures")
        c.emissions(parts_of(er), [Each(m, lambda k: [e(k)])], "flags in order")


def parts_of(a):
    return [Each(a.shape[0], lambda k: [a.at(k)])]
