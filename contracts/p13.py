"""P13: what the measurements of a circuit without noise tell."""
import z3
from plaquette import circuit
from plaquette.circuit import generator as G

from contracts import p12
from contracts.common import C, SBool, SInt, Unsupported, cur, fresh_int
from contracts.heis import NO, Obs, Pull, pauli_at, unchanged, xor
from pyvc.contract import case
from pyvc.core import intterm
from pyvc.seq import Each, parts

Q = G.QECCircuitGenerator
FUNCTIONS = ["circuit.generator.QECCircuitGenerator." + f for f in (
    "measure_stabgens", "measure_stabgens_seq", "measure_stabgens_pl", "measure_op",
    "measure_logical_ops", "apply_gate_and_error")]
ASSUMPTIONS = [
    "the order of the parts of a circuit is that of P12; gates, measurements and resets "
    "do what P01, P03 and P15 state; differences of outcomes are formed as in P14",
    "stabilisers and logical operators commute with one another (P07); an operator "
    "touches a qubit once, with X or Z; ancillas and data qubits are different qubits",
    "measured together from the data qubits: operators which agree where they meet",
    "a schedule is valid: no measured operator is left with a part on another ancilla "
    "(two operators which meet in two orders do so an even number of times; concrete "
    "schedules: bounded check, P09)"]
I, B = z3.IntSort(), z3.BoolSort()


def fun(name, *sorts):
    return z3.Function(cur().name_for(name), *sorts)


def forall(n, body, pats=None):
    ks = [z3.Int(f"u{i}!") for i in range(n)]
    t = body(*ks)
    cur().assume(SBool(z3.ForAll(ks, t, patterns=pats(*ks) if pats else [])))


class World:
    """P12's codes, with ancillas and data qubits told apart."""

    def __init__(self, scheduled, ancilla=False):
        w = self.w = p12.world(scheduled, ancilla)
        self.data, self.owner = fun("is_data", I, B), fun("owner", I, I)
        s = cur()

        def t(f):
            return f.z3 if hasattr(f, "z3") else (lambda *a: intterm(f(*map(SInt, a))))
        dq, sq, lq = t(w.dq), t(w.sq), t(w.lq)
        self.dq, self.sq, self.lq = dq, sq, lq
        forall(1, lambda k: self.data(dq(k)), lambda k: [dq(k)])
        # an ancilla has one owner: 2k for stabiliser k, 2k + 1 for logical k
        for f, n, odd in ((sq, w.ns.t, 0), (lq, w.nl.t, 1)):
            forall(1, lambda k: z3.Implies(z3.And(k >= 0, k < n), z3.And(z3.Not(
                self.data(f(k))), self.owner(f(k)) == 2 * k + odd)), lambda k: [f(k)])
        # the factor (1: X, 3: Z) of an operator on a qubit and where it comes from
        self.at = {}
        for kind in "SL":
            f = fun("at_" + kind, I, I, I)
            self.at[kind] = f
            d = t(w.dat[kind])
            deg = t(w.deg[kind])
            forall(2, lambda k, j: z3.Implies(z3.And(j >= 0, j < deg(k)), f(
                k, dq(d(k, j))) == j), lambda k, j: [d(k, j)])
        e = self.edge_at = fun("edge_at", I, I, I)
        d, op = t(w.dat["E"]), w.op_of.z3
        forall(1, lambda j: z3.Implies(z3.And(j >= 0, j < w.ne.t), e(
            op(j), dq(d(j))) == j), lambda j: [d(j)])
        forall(1, lambda j: z3.Implies(z3.And(j >= 0, j < w.ne.t), z3.And(
            op(j) >= 0, op(j) < w.ns.t)), lambda j: [op(j)])
        self.t = t

    def factor(self, kind, k, j):
        return intterm(self.w.fac[kind](*(SInt(x) for x in ([k, j] if kind != "E" else [j]))))

    def first(self, kind, k, lo):
        """The part of an operator made of its links from lo on."""
        at, t = self.at[kind], self.t
        d, deg = t(self.w.dat[kind]), t(self.w.deg[kind])

        def bit(f):
            def g(q):
                j = at(k, q)
                return z3.And(j >= lo, j >= 0, j < deg(k), self.dq(d(k, j)) == q,
                              self.factor(kind, k, j) == f)
            return g
        return Obs(bit(1), bit(3))

    def op(self, kind, k):
        return self.first(kind, k, z3.IntVal(0))

    def scheduled(self, k, i, e):
        """The links of stabiliser k which are used in time step i, link e or later."""
        w = self.w
        d = self.t(w.dat["E"])

        def bit(f):
            def g(q):
                j = self.edge_at(k, q)
                st = intterm(w.step(SInt(j)))
                return z3.And(j >= 0, j < w.ne.t, w.op_of.z3(j) == k,
                              C.boolterm(w.step_has(SInt(j))), self.dq(d(j)) == q,
                              st >= 0, st < intterm(w.steps),
                              z3.Or(st > i, z3.And(st == i, j >= e)),
                              self.factor("E", None, j) == f)
            return g
        return Obs(bit(1), bit(3))

    def generator(self, c):
        g = object.__new__(Q)
        w = self.w
        g.code = g.stabcode = w.code
        g.qubit_errors = {k: {} for k in ("pauli", "erasure", "measurement")}
        g.gate_errors = {k: {} for k in ("CX", "CZ", "H", "M", "R")}
        g.lat = c_lattice(w)
        g.logical_ancilla = w.ancilla
        g.cb = circuit.CircuitBuilder(circuit.Circuit())
        return g


def c_lattice(w):
    from contracts.p12 import C_simp  # noqa: F401
    return w.lattice


def any_operator(W, name="T"):
    """Any operator on the data qubits."""
    x, z = fun(name + "_x", I, B), fun(name + "_z", I, B)
    return Obs(lambda q: z3.And(W.data(q), x(q)), lambda q: z3.And(W.data(q), z(q)))


def anti(o, q, f):
    """Does the operator anticommute with this factor on a qubit?"""
    return z3.Xor(z3.And(o.x(q), f == 3), z3.And(o.z(q), f == 1))


def add(o, x, z):
    return Obs(lambda q: z3.Xor(o.x(q), x(q)), lambda q: z3.Xor(o.z(q), z(q)), o.sign)


def log_of(g):
    return parts(g.cb.circ.gates)


def on_ancilla(a, W, kind, k):
    """The loop over the links of an operator, read off an ancilla."""
    def f(n, o, outer):
        def inv(j):
            p = W.first(kind, k, j)
            return Obs(lambda q: z3.Or(q == a, p.x(q)), p.z)
        return inv, ()
    return f


def past_ancilla(W, kind, T, kof):
    """The loop over the links of an operator which commutes with T."""
    par = fun("parity", I, I, B)
    t = W.t
    d, deg = t(W.w.dat[kind]), t(W.w.deg[kind])
    anc = W.sq if kind == "S" else W.lq

    # parity of the links from j on which anticommute with T
    def known(k, j):
        for x in (SBool(z3.Not(par(k, deg(k)))), SBool(z3.Not(par(k, 0))), SBool(
                z3.Implies(z3.And(j >= 0, j < deg(k)), par(k, j) == z3.Xor(par(
                    k, j + 1), anti(T, W.dq(d(k, j)), W.factor(kind, k, j)))))):
            cur().assume(x)

    def f(n, o, outer):
        k = kof(outer)

        def inv(j):
            known(k, j)
            return add(T, lambda q: NO, lambda q: z3.And(q == anc(k), par(k, j)))
        return inv, ()
    return f


def only_each(ps):
    if len(ps) != 1 or not isinstance(ps[0], Each):
        raise Unsupported("another form of the circuit")
    return ps[0]


# ------------------------------------------------------- one after the other
@case("stabilisers one after the other: what is read")
def seq_reads(c):
    for noisy in (False, True):
        def at():
            W = World(False)
            g = W.generator(c)
            c.run(Q.measure_stabgens, g, with_errors=noisy)
            p = only_each(log_of(g))
            c.prove(SBool(intterm(p.n) == W.w.ns.t), "every stabiliser is measured")
            k = fresh_int("k", 0)
            cur().assume(SBool(k.t < W.w.ns.t))
            read_off(c, W, "S", k, p.fn(k), W.sq(k.t))
        c.scope(at)


def read_off(c, W, kind, k, ps, a):
    """The one measurement in these instructions reads the operator."""
    last = ps[-1]
    if isinstance(last, (Each,)) or last[0] != "M" or len(last[1]) != 1:
        raise Unsupported("another form of the circuit")
    c.prove(SBool(intterm(last[1][0]) == a), "the ancilla of the operator is measured")
    pull = Pull(c, "the operator is what is read", [on_ancilla(a, W, kind, k.t)])
    o = pull.back(ps[:-1], pauli_at(a))
    pull.equal(o, W.op(kind, k.t), "exactly the operator")


@case("stabilisers one after the other: what commutes with them is kept")
def seq_keeps(c):
    for noisy in (False, True):
        def at():
            W = World(False)
            g = W.generator(c)
            T = any_operator(W)
            c.run(Q.measure_stabgens, g, with_errors=noisy)
            pull = Pull(c, "an operator which commutes", [unchanged(
                past_ancilla(W, "S", T, lambda outer: outer[-1]))])
            pull.equal(pull.back(log_of(g), T), T, "is the same before and after")
        c.scope(at)


# ------------------------------------------------------------------ logicals
def selection(W):
    w = W.w
    from pyvc.seq import SSeq
    return SSeq(w.nsel, lambda i: w.sel(i))


@case("logical operators by ancillas: what is read")
def log_reads(c):
    W = World(False, True)
    g = W.generator(c)
    c.run(Q.measure_logical_ops, g, selection(W), restore_basis=True)
    p = only_each(log_of(g))
    c.prove(SBool(intterm(p.n) == W.w.nsel.t), "every chosen operator is measured")
    i = fresh_int("i", 0)
    cur().assume(SBool(i.t < W.w.nsel.t))
    k = W.w.sel(i)
    read_off(c, W, "L", k, p.fn(i), W.lq(k.t))


@case("logical operators by ancillas: what commutes with them is kept")
def log_keeps(c):
    W = World(False, True)
    g = W.generator(c)
    T = any_operator(W)
    c.run(Q.measure_logical_ops, g, selection(W), restore_basis=True)
    pull = Pull(c, "an operator which commutes", [unchanged(past_ancilla(
        W, "L", T, lambda outer: intterm(W.w.sel(SInt(outer[-1])))))])
    pull.equal(pull.back(log_of(g), T), T, "is the same before and after")


def two_loops(ps):
    if len(ps) != 2 or not all(isinstance(p, Each) for p in ps):
        raise Unsupported("another form of the circuit")
    return ps


@case("logical operators from the data qubits: what is read")
def data_reads(c):
    W = World(False, False)
    g = W.generator(c)
    c.run(Q.measure_logical_ops, g, selection(W), restore_basis=True)
    p = only_each(log_of(g))
    c.prove(SBool(intterm(p.n) == W.w.nsel.t), "every chosen operator is measured")
    i = fresh_int("i", 0)
    cur().assume(SBool(i.t < W.w.nsel.t))
    k = W.w.sel(i)
    one = Obs(lambda q: NO, lambda q: NO)
    pull = Pull(c, "the product of the outcomes", [
        lambda n, o, outer: (lambda j: W.first("L", k.t, j), ()), unchanged()],
        reads=lambda a: True)
    pull.equal(pull.back(two_loops(p.fn(i)), one), W.op("L", k.t), "is the operator")


def swapped(T, where):
    """With a Hadamard gate on these qubits."""
    return Obs(lambda q: z3.If(where(q), T.z(q), T.x(q)),
               lambda q: z3.If(where(q), T.x(q), T.z(q)), T.sign)


@case("logical operators from the data qubits: what agrees with them is kept")
def data_keeps(c):
    W = World(False, False)
    g = W.generator(c)
    T = any_operator(W)
    t = W.t
    d, deg = t(W.w.dat["L"]), t(W.w.deg["L"])
    c.run(Q.measure_logical_ops, g, selection(W), restore_basis=True)

    def k_of(outer):
        return intterm(W.w.sel(SInt(outer[-1])))

    def agree(k, j):
        # T has the identity or the factor of the operator on its qubits
        for i in (j, j - 1):
            cur().assume(SBool(z3.Implies(z3.And(i >= 0, i < deg(k)), z3.Not(anti(
                T, W.dq(d(k, i)), W.factor("L", k, i))))))

    def measured(n, o, outer):
        k = k_of(outer)

        def inv(j):
            agree(k, j)
            return swapped(T, lambda q: z3.And(
                W.op("L", k).x(q), z3.Not(W.first("L", k, j).x(q))))
        return inv, ()

    def restored(n, o, outer):
        k = k_of(outer)

        def inv(j):
            agree(k, j)
            return swapped(T, lambda q: W.first("L", k, j).x(q))
        return inv, ()
    pull = Pull(c, "an operator which agrees", [unchanged(measured, restored)])
    pull.equal(pull.back(log_of(g), T), T, "is the same before and after")


# ------------------------------------------------------------------ scheduled
def three_loops(ps):
    if len(ps) != 3 or not all(isinstance(p, Each) for p in ps):
        raise Unsupported("another form of the circuit")
    return ps


class Crossing:
    """What is left on the ancillas: the parity of the gates of an ancilla, from link e
    of time step i on, which anticommute with the operator there (part(i, e))."""

    def __init__(self, W, part, skip=None):
        self.W, self.part = W, part
        self.f = fun("left", I, I, I, B)
        self.skip = skip           # the ancilla which is read itself
        self.d, self.op = W.t(W.w.dat["E"]), W.w.op_of.z3

    def at(self, i, e):
        """The ancillas' z bits; the recursion which defines them, where it is used."""
        W, w, f = self.W, self.W.w, self.f
        n, m = intterm(w.ne), intterm(w.steps)
        mine = z3.And(C.boolterm(w.step_has(SInt(e))), intterm(w.step(SInt(e))) == i)
        a = W.sq(self.op(e))

        def known(q):
            on = z3.And(mine, a == q)
            if self.skip is not None:
                on = z3.And(on, q != self.skip)
            return z3.And(
                z3.Not(f(q, m, 0)), z3.Not(f(q, 0, 0)), f(q, i, n) == f(q, i + 1, 0),
                z3.Implies(z3.And(e >= 0, e < n, i >= 0, i < m), f(q, i, e) == z3.Xor(
                    f(q, i, e + 1), z3.And(on, anti(self.part(i, e + 1), W.dq(
                        self.d(e)), W.factor("E", None, e))))))
        q = z3.Int("q!")
        cur().assume(SBool(z3.ForAll([q], known(q), patterns=[f(q, i, e)])))
        return lambda q: z3.And(z3.Not(W.data(q)), f(q, i, e))


def steps_loop(W, state):
    """The loops over time steps and links; state(i, e) is the operator before them."""
    def outer(n, o, around):
        def links(m, o, around):
            i = around[-1]
            return (lambda e: state(i, e)), ()
        return (lambda i: state(i, z3.IntVal(0))), (links,)
    return outer


@case("stabilisers by a schedule: what commutes with them is kept", timeout=75)
def pl_keeps(c):
    for noisy in (False, True):
        def at():
            W = World(True)
            g = W.generator(c)
            T = any_operator(W)
            c.run(Q.measure_stabgens_pl, g, with_errors=noisy)
            x = Crossing(W, lambda i, e: T)
            pull = Pull(c, "an operator which commutes", [
                unchanged(), steps_loop(W, lambda i, e: add(T, lambda q: NO, x.at(i, e))),
                unchanged()])
            pull.equal(pull.back(three_loops(log_of(g)), T), T,
                       "is the same before and after")
        c.scope(at)


@case("stabilisers by a schedule: what is read", timeout=75)
def pl_reads(c):
    for noisy in (False, True):
        def at():
            W = World(True)
            g = W.generator(c)
            c.run(Q.measure_stabgens_pl, g, with_errors=noisy)
            first, middle, last = three_loops(log_of(g))
            c.prove(SBool(intterm(last.n) == W.w.ns.t), "every stabiliser is measured")
            k = fresh_int("k", 0)
            cur().assume(SBool(k.t < W.w.ns.t))
            a = W.sq(k.t)
            ps = last.fn(k)
            if isinstance(ps[-1], Each) or ps[-1][0] != "M":
                raise Unsupported("another form of the circuit")
            c.prove(SBool(intterm(ps[-1][1][0]) == a), "its ancilla is measured")
            part = lambda i, e: W.scheduled(k.t, i, e)  # noqa: E731
            x = Crossing(W, part, skip=a)

            def state(i, e):
                p, z = part(i, e), x.at(i, e)
                return Obs(lambda q: z3.Or(q == a, p.x(q)),
                           lambda q: z3.Xor(z3.And(q != a, z(q)), p.z(q)))

            def prepared(n, o, outer):
                # the ancillas before j are still to be prepared
                p = part(z3.IntVal(0), z3.IntVal(0))
                return (lambda j: Obs(lambda q: z3.Or(z3.And(q == a, k.t < j), p.x(q)),
                                      p.z)), ()
            pull = Pull(c, "the operator is what is read", [
                prepared, steps_loop(W, state), unchanged()])
            o = pull.back(ps[:-1], pauli_at(a))
            o = pull.back([first, middle, Each(k, last.fn)], o)
            pull.equal(o, part(z3.IntVal(0), z3.IntVal(0)), "exactly the operator")
        c.scope(at)
