"""Reference stabiliser simulator with symbolic (affine) signs.

Rows are ``[x, z, k, m]``: the Pauli operator (x, z, k) of pauliref and a bit mask m of
symbols; the operator is multiplied by (-1) to the sum of the symbols in m.  Random
measurement outcomes and Pauli errors introduce fresh symbols, so that one run covers all
outcomes and all subsets of the errors at once.
"""
from lib import pauliref as pr


class SymSim:
    def __init__(self, n):
        self.n = n
        rows = pr.zero_rows(n)
        self.d = [[*r, 0] for r in rows[:n]]
        self.s = [[*r, 0] for r in rows[n:]]
        self.nsym = 0
        self.kinds = []

    def fresh(self, kind):
        self.kinds.append(kind)
        self.nsym += 1
        return 1 << (self.nsym - 1)

    def gate(self, name, *q):
        f = pr.conj1 if len(q) == 1 else pr.conj2
        for rows in (self.d, self.s):
            for r in rows:
                if any((r[0] | r[1]) >> a & 1 for a in q):
                    r[:3] = f(name, tuple(r[:3]), *q)

    def error(self, op, kind):
        """Pauli error which happens or not."""
        m = self.fresh(kind)
        for rows in (self.d, self.s):
            for r in rows:
                if pr.comm(r, op):
                    r[3] ^= m

    def measure(self, q):
        """(constant, symbols) of the outcome of Z on q."""
        bit = 1 << q
        op = pr.single("Z", q)
        p = next((i for i, r in enumerate(self.s) if r[0] & bit), None)
        if p is None:
            acc, mask = (0, 0, 0), 0
            for d, s in zip(self.d, self.s):
                if d[0] & bit:
                    acc = pr.mul(acc, tuple(s[:3]))
                    mask ^= s[3]
            assert acc[:2] == op[:2] and acc[2] % 2 == 0
            return acc[2] // 2, mask
        piv = self.s[p]
        for rows in (self.d, self.s):
            for i, r in enumerate(rows):
                if r is not piv and r[0] & bit and not (rows is self.d and i == p):
                    x, z, k = pr.mul(tuple(r[:3]), tuple(piv[:3]))
                    if rows is self.d:
                        x, z, k = pr.herm(x, z)
                    r[:] = [x, z, k, r[3] ^ piv[3]]
        self.d[p] = piv
        m = self.fresh("outcome")
        self.s[p] = [*op, m]
        return 0, m

    def reset(self, q):
        c, m = self.measure(q)
        op = pr.single("X", q)
        for rows in (self.d, self.s):
            for r in rows:
                if pr.comm(r, op):
                    r[3] ^= m
                    r[2] = (r[2] + 2 * c) % 4


def run(gates, n, on_noise=None):
    """Outcomes of the circuit; E_PAULI/E_ERASE instructions become symbolic errors."""
    sim = SymSim(n)
    out = []
    for pos, (name, args) in enumerate(gates):
        if name in ("X", "Y", "Z", "H"):
            for q in args:
                sim.gate(name, q)
        elif name in ("CX", "CZ"):
            for i in range(0, len(args), 2):
                sim.gate(name, args[i], args[i + 1])
        elif name == "R":
            for q in args:
                sim.reset(q)
        elif name == "M":
            for q in args:
                out.append(sim.measure(q))
        elif name == "E_PAULI":
            for p in "XZ":
                sim.error(pr.single(p, args[3]), (p, args[3], pos))
        else:
            raise ValueError(name)
    return out, sim.kinds
