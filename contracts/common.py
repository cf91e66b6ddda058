"""Vocabulary of the contracts: tables computed from matrices, tableaus, folds."""
import itertools

from lib import boot  # noqa: F401
import numpy as np
import z3

from pyvc import core as C
from pyvc import loops
from pyvc.arr import SArr, as_arr, fresh_array, simp
from pyvc.core import SBool, SInt, Session, Unsupported, cur, eq, fresh_int, ite
from pyvc.interp import Inv

# ------------------------------------------------------------------ matrices
I2 = np.eye(2)
PX = np.array([[0, 1], [1, 0]], complex)
PZ = np.diag([1, -1]).astype(complex)
PY = 1j * PX @ PZ
ONE = {(0, 0): I2, (1, 0): PX, (0, 1): PZ, (1, 1): PY}
GATES = {
    "X": PX, "Y": PY, "Z": PZ, "I": I2,
    "H": np.array([[1, 1], [1, -1]]) / np.sqrt(2),
    "S": np.diag([1, 1j]),
    "CX": np.array([[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]]),
    "CZ": np.diag([1, 1, 1, -1]),
}


def op_of(bits):
    """Matrix of (x0..xk, z0..zk)."""
    k = len(bits) // 2
    m = np.eye(1)
    for q in range(k):
        m = np.kron(m, ONE[bits[q], bits[q + k]])
    return m


def phase_between(a, b):
    """e with a = i**e b, or None."""
    for e in range(4):
        if np.allclose(a, 1j ** e * b):
            return e
    return None


def conj_table(gate):
    """(bits) -> (bits, sign) of U P U^dagger."""
    u = GATES[gate]
    k = 2 if gate in ("CX", "CZ") else 1
    out = {}
    for b in itertools.product((0, 1), repeat=2 * k):
        m = u @ op_of(b) @ u.conj().T
        for b2 in itertools.product((0, 1), repeat=2 * k):
            e = phase_between(m, op_of(b2))
            if e is not None:
                assert e in (0, 2)
                out[b] = (b2, e // 2)
    assert len(out) == 4 ** k
    return out


TABLES = {g: conj_table(g) for g in GATES}
# phase of the product of two one-qubit operators (x1, z1, x2, z2)
GAMMA = {b: phase_between(op_of(b[:2]) @ op_of(b[2:]),
                          op_of((b[0] ^ b[2], b[1] ^ b[3])))
         for b in itertools.product((0, 1), repeat=4)}


def bit(v):
    t = C.bitterm(v)
    if t is None:
        raise Unsupported("an entry which is not known to be a bit")
    return t


def boolfun(table, *bits):
    """The Boolean function with the given truth table, as a bit."""
    bs = [bit(b) for b in bits]
    rows = []
    for k, v in table.items():
        if v:
            rows.append(z3.And([b if x else z3.Not(b) for x, b in zip(k, bs)]))
    return SInt(b=z3.simplify(z3.Or(rows)))


def intfun(table, *bits):
    bs = [SInt(b=bit(b)) for b in bits]
    r = SInt(z3.IntVal(0))
    for k, v in table.items():
        if v:
            r = ite(C.land(*[b == x for b, x in zip(bs, k)]), v, r)
    return r


def gamma(x1, z1, x2, z2):
    return intfun(GAMMA, x1, z1, x2, z2)


# ----------------------------------------------------------------- tableaus
def tableau(c, name="state", rows=None, n=None, square=False):
    """(array, number of qubits): any array of bits of the shape of a state."""
    n = fresh_int("n", 1) if n is None else n
    if rows is None:
        rows = 2 * n if square else fresh_int("rows", 1)
    return fresh_array(name, (rows, 2 * n + 1), "u1"), n


def operator(c, name, n):
    return fresh_array(name, (2 * n + 1,), "u1")


def gate_step(gate):
    """Rows after the gate as a function of the rows before: step(read, item, n)."""
    tab = TABLES[gate]
    two = gate in ("CX", "CZ")

    def step(rd, item, n):
        qs = list(item) if two else [item]
        k = len(qs)

        def new(i, j):
            old = [rd(i, q) for q in qs] + [rd(i, q + n) for q in qs]
            sign = boolfun({b: v[1] for b, v in tab.items()}, *old)
            cases = [boolfun({b: v[0][d] for b, v in tab.items()}, *old)
                     for d in range(2 * k)]
            r = rd(i, j)
            last = r ^ sign
            for d in range(2 * k):
                col = qs[d % k] if d < k else qs[d - k] + n
                r = ite(SBool(eq(j, col)), cases[d], r)
            return ite(SBool(eq(j, 2 * n)), last, r)
        return new
    return step


def zxor(a, b):
    return SInt(b=z3.Xor(bit(a), bit(b)))


class Fold:
    """What a loop over the targets did: S(0) at entry, S(k+1) = step(S(k), item)."""


class FoldInv(Inv):
    """Invariant of a loop which updates one array row by row: the array at the
    start of iteration k is S(k), a ghost defined by the recursion."""

    def __init__(self, out, steps, n, buf=None, var=None, arr=None, same=()):
        self.name = "loop over the targets"
        self.steps, self.nq = steps, n
        self.buf, self.var = buf, var
        self.vars = tuple(same) + ((var,) if var else ())
        self.out = out
        self.shape = buf.shape if buf is not None else arr.shape
        self.dt = buf.dt if buf is not None else arr.dt
        self.S = C.fun_bit("S", 3)
        self.entry = None

    def reader(self, env):
        if self.buf is not None:
            return self.buf.get
        return env.vars[self.var].reader()

    def check(self, it, env, k, name):
        now = self.reader(env)
        if isinstance(k, int):
            self.entry = now
            return
        S, kk = self.S, self.k
        item = self.at(kk)

        def attempt(nm, step, label):
            def go():
                i = fresh_int("i", 0, self.shape[0])
                j = fresh_int("j", 0, self.shape[1])
                want = step(lambda a, b: S(kk, a, b), item, self.nq)(i, j)
                cur().prove(SBool(eq(now(i, j), want)), label)
            s = cur()
            s.each(go, label)
        chosen = None
        for nm, step in self.steps.items():
            s = cur()
            obls, s.obls = s.obls, {}
            try:
                attempt(nm, step, "try")
                good = all(o.status == "discharged" for o in s.obls.values())
            finally:
                s.obls = obls
            if good:
                chosen = nm
                break
        chosen = chosen or next(iter(self.steps))
        CHOSEN[self.key] = chosen
        attempt(chosen, self.steps[chosen], f"{name}: row after {chosen}")

    def havoc(self, it, env, k):
        S = self.S
        self.k = k
        new = SArr.of(lambda i, j: S(k, i, j), self.shape, self.dt)
        if self.buf is not None:
            self.buf.get = new.reader()
        else:
            env.vars[self.var] = new
        if self.phase == "after":
            self.step_name = CHOSEN.get(self.key)
            f = Fold()
            f.S, f.n, f.entry, f.at = S, k, self.entry, self.at
            f.step = self.step_name
            self.out.append(f)


CHOSEN = {}


def fold_provider(out, steps, nq, name=""):
    """Recognises loops which carry one tableau through the iterations."""
    def provide(it, s, env, sv):
        n, at = sv[0], sv[1]
        k = fresh_int("probe", 0, n)
        bufs, rebound, same = loops.carries(it, s, env, lambda: at(k))
        bufs = [b for b in bufs if len(b.shape) == 2]
        if len(bufs) == 1 and not rebound:
            inv = FoldInv(out, steps, nq, buf=bufs[0], same=same)
        elif not bufs and len(rebound) == 1 and rebound[0] in env.vars and \
                env.vars[rebound[0]].ndim == 2:
            inv = FoldInv(out, steps, nq, var=rebound[0], arr=env.vars[rebound[0]],
                          same=same)
        else:
            return None
        inv.at, inv.key = at, (id(s), len(out))
        inv.name = f"{name}: loop over the targets"
        return inv
    return provide
