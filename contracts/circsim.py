"""Ghosts of the reference simulator: the state as the list of operations applied to
it, and random draws with exact weights."""
import plaquette
from plaquette import pauli
from plaquette.circuit import Circuit, CircuitBuilder
from plaquette.device import _circuitsim as S

from contracts.common import C, SBool, cur, fresh_int
from pyvc.core import PyRaise, Unsupported
from pyvc.interp import Interp
from pyvc.seq import Each, FStr, IfE, SSeq, parts


class Tableau:
    """A version of the state."""
    pyvc_ok = True
    __hash__ = object.__hash__

    def __init__(self, w, n):
        self.w, self.n = w, n

    def pyvc_carried(self, when, v=None):
        """Carried through a loop: each iteration hands on the current state."""
        w = self.w
        if when == "end":
            w.same(v, w.tableau)
            return v
        w.tableau = Tableau(w, self.n)
        return w.tableau


class Uniform:
    """A draw from [0, 1): compared once with a threshold within [0, 1]."""
    pyvc_ok = True

    def __init__(self, w):
        self.w, self.used = w, False

    def below(self, p):
        if self.used:
            raise Unsupported("a draw which is compared twice")
        self.used = True
        fired = C.fresh_bool("fired")
        for ok in (SBool(C.boolterm(p >= 0)), SBool(C.boolterm(p <= 1))):
            if not cur().entails(ok):
                raise Unsupported("a threshold outside of [0, 1]")
        return self.w.drawn(fired, p)

    def __lt__(self, p):
        return self.below(p)

    def __gt__(self, p):
        return C.lnot(self.below(p))       # up to an event of probability zero

    def __ge__(self, p):
        return C.lnot(self.below(p))


class World:
    def __init__(self, c):
        self.c = c
        self.log, self.weights = [], []
        self.it = None
        self.states = []
        for name in "xyz":
            c.contracts[getattr(pauli, name)] = self.op(name.upper())
        c.contracts[pauli.hadamard] = self.op("H")
        c.contracts[pauli.cx] = self.op2("CX")
        c.contracts[pauli.cz] = self.op2("CZ")
        c.contracts[pauli.reset_qubits_to_eigenstate] = self.reset
        c.contracts[pauli.measure] = self.measure
        c.contracts[pauli.zero_state] = self.zero
        c.contracts[pauli.count_qubits] = lambda it, a, k: (a[0].n, False)
        c.contracts[pauli.single_qubit_pauli_operator] = \
            lambda it, a, k: ("operator",) + tuple(a)
        g = type(plaquette.rng)
        c.contracts[g.random] = self.random
        c.contracts[g.integers] = self.integers
        c.contracts[g.choice] = self.choice
        self.tableau = Tableau(self, fresh_int("n_qubits", 1))

    # -- states
    def same(self, a, b):
        if a is b:
            return
        if not isinstance(a, Tableau):
            raise Unsupported("not a state")
        self.c.fail("state passed on from operation to operation")

    def emit(self, it, ev):
        Interp.container_method(it, self.log, "append", self.log.append, [ev], {})

    def emits(self, it, evs):
        Interp.container_method(it, self.log, "extend", self.log.extend, [evs], {})

    def op(self, name):
        def f(it, a, k):
            self.same(a[0], self.tableau)
            self.emits(it, each(qubits(arg(a, k, 1, "qubits")),
                                lambda q: [(name, q)]))
            return self.next(a[0])
        return f

    def next(self, tab):
        self.tableau = Tableau(self, tab.n)
        return self.tableau

    def op2(self, name):
        def f(it, a, k):
            self.same(a[0], self.tableau)
            p, q = qubits(a[1]), qubits(a[2])
            self.emits(it, it.created(list(pairs(it, p, q, name))))
            return self.next(a[0])
        return f

    def reset(self, it, a, k):
        self.same(a[0], self.tableau)
        basis, qs = a[1], a[2]
        if basis != "Z":
            raise Unsupported("reset in another basis")
        self.emits(it, each(qubits(qs), lambda q: [("R", q)]))
        return self.next(a[0])

    def measure(self, it, a, k):
        self.same(a[0], self.tableau)
        op = a[1]
        if not (isinstance(op, tuple) and op[0] == "operator" and op[1] == "Z"):
            raise Unsupported("measurement of another operator")
        r = C.SInt(b=C.fresh_bool("outcome").t)
        self.emit(it, ("M", op[2], op[3], r))
        return self.next(a[0]), r

    def zero(self, it, a, k):
        self.tableau = Tableau(self, a[0])
        self.states.append(self.tableau)
        return self.tableau

    # -- draws
    def drawn(self, fired, p):
        if bool(fired):
            self.weights.append(p)
            return True
        self.weights.append(1 - p)
        return False

    def weight(self):
        """The probability of what was drawn on this path."""
        w = 1
        for x in self.weights:
            w = w * x
        return w

    def random(self, it, a, k):
        if len(a) > 1 or k:
            raise Unsupported("several draws at once")
        return Uniform(self)

    def integers(self, it, a, k):
        a = a[1:]
        if k or len(a) not in (1, 2) or not all(isinstance(x, int) for x in a):
            raise Unsupported("other integers")
        lo, hi = (0, a[0]) if len(a) == 1 else a
        return self.pick([lo + i for i in range(hi - lo)], [1 / (hi - lo)] * (hi - lo)
                         if (hi - lo) & (hi - lo - 1) == 0 else
                         [C.SReal(C.z3.Q(1, hi - lo))] * (hi - lo))

    def choice(self, it, a, k):
        opts = a[1] if len(a) > 1 else k.get("a")
        if isinstance(opts, int):
            opts = range(opts)
        p = k.get("p")
        if p is None or set(k) - {"p", "a"} or len(a) > 2:
            raise Unsupported("another choice")
        p = list(it.iterate(p))
        opts = list(it.iterate(opts))
        if len(p) != len(opts):
            raise PyRaise(ValueError("a and p must have same size"))
        return self.pick(opts, p)

    def pick(self, opts, p):
        v = fresh_int("drawn", 0, len(opts))
        for i in range(len(opts) - 1):
            if bool(v == i):
                break
        else:
            i = len(opts) - 1
        self.weights.append(p[i])
        return opts[i]


def arg(a, k, i, name):
    return a[i] if len(a) > i else k[name]


def qubits(x):
    if isinstance(x, (list, tuple)):
        return list(x)
    if isinstance(x, SSeq):
        return parts(x)
    if hasattr(x, "shape") and x.shape:
        return parts(SSeq(x.shape[0], lambda i: x[i]))
    return [x]


def each(ps, f):
    out = []
    for p in ps:
        if isinstance(p, Each):
            out.append(Each(p.n, lambda k, p=p: each(p.fn(k), f)))
        elif isinstance(p, IfE):
            out.append(IfE(p.cond, each(p.a, f), each(p.b, f)))
        else:
            out += f(p)
    return out


def pairs(it, p, q, name):
    from pyvc.shims import zip_views
    if any(isinstance(x, (Each, IfE)) for x in p + q):
        from pyvc.interp import seqview
        a, b = seqview(p), seqview(q)
        if a is None or b is None:
            raise Unsupported("pairs of irregular lists")
        if not cur().entails(SBool(C.eq(a[0], b[0]))):
            raise Unsupported("pairs of lists of different length")
        return [Each(a[0], lambda k: [(name, a[1](k), b[1](k))])]
    if len(p) != len(q):
        raise Unsupported("pairs of lists of different length")
    return [(name, a, b) for a, b in zip(p, q)]


def flat(ps):
    """Decide the alternatives of a list (forks)."""
    out = []
    for p in ps:
        if isinstance(p, IfE):
            out += flat(p.a if bool(SBool(C.boolterm(p.cond))) else p.b)
        else:
            out.append(p)
    return out


def outcomes(log):
    """Measurement results in the log."""
    out = []
    for p in log:
        if isinstance(p, Each):
            out.append(Each(p.n, lambda k, p=p: outcomes(p.fn(k))))
        elif isinstance(p, IfE):
            out.append(IfE(p.cond, outcomes(p.a), outcomes(p.b)))
        elif p[0] == "M":
            out.append(p[3])
    return out


def operations(log):
    """The log without measurement results."""
    return each(log, lambda e: [e[:3]])


def drawn_names(t):
    from pyvc.loops import const_names
    names = [n.split("!")[0] for n in const_names(t)]
    hits = [n in ("fired", "drawn") for n in names]
    if any(hits) and not all(hits):
        raise Unsupported("a decision about a draw and something else")
    return any(hits)


def distribution(c, run, spec, what):
    """run() returns (weight, key): the probabilities of all keys are those of spec, a
    list of such pairs."""
    s = cur()
    got, facts = {}, []
    for pc, kind, v in s.explore(run):
        if kind == "end":
            continue
        if kind == "raise":
            c.fail(what + ": no exception", f"{v.exc!r}")
            return
        if kind != "value":
            raise Unsupported(f"{kind} in an instruction")
        # decisions which are no draws: the weight counts where they hold
        when = [t for t in pc if t.get_id() in s.decided and not drawn_names(t)]
        facts += [C.z3.Implies(C.z3.And(when), t) for t in pc
                  if t.get_id() not in s.decided and not drawn_names(t)]
        w = v[0]
        if when:
            w = C.ite(SBool(C.z3.And(when)), C.SReal(C.realterm(w)), 0.0)
        got.setdefault(v[1], []).append(w)
    for t in facts:
        s.assume(SBool(t))
    want = {}
    for w, key in spec:
        want.setdefault(key, []).append(w)

    def total(ws):
        r = 0
        for w in ws:
            r = r + w
        return r
    rest = total([w for ws in got.values() for w in ws]) == 1
    if not (rest is True or s.entails(SBool(C.boolterm(rest)))):
        raise Unsupported("draws whose probabilities do not add up to one")
    for key in sorted(set(got) | set(want)):
        a, b = total(got.get(key, [])), total(want.get(key, []))
        c.prove(SBool(C.boolterm(a == b)) if isinstance(a == b, C.Sym) else a == b, what)


def key(*lists):
    return repr(lists)
