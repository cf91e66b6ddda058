"""Independent reference for Pauli operators and stabiliser states.

Operators are ``(x, z, k)``: bit masks ``x`` and ``z`` and ``k`` in Z4, standing for
``i**k * prod_q X_q**x_q Z_q**z_q`` (X left of Z on every qubit).  A Hermitian operator
with sign bit ``s`` and ``w`` Y factors has ``k = w + 2 s``.  Nothing of plaquette is
used here.
"""
from __future__ import annotations

import itertools


def mul(a, b):
    """Product of two operators; Z**z1 X**x2 = (-1)**(z1 x2) X**x2 Z**z1."""
    return (a[0] ^ b[0], a[1] ^ b[1],
            (a[2] + b[2] + 2 * bin(a[1] & b[0]).count("1")) % 4)


def comm(a, b):
    """1 if the operators anticommute."""
    return (bin(a[0] & b[1]).count("1") + bin(a[1] & b[0]).count("1")) % 2


def herm(x, z, s=0):
    return (x, z, (bin(x & z).count("1") + 2 * s) % 4)


def sign(a):
    """Sign bit of a Hermitian operator."""
    d = (a[2] - bin(a[0] & a[1]).count("1")) % 4
    assert d in (0, 2), "not Hermitian"
    return d // 2


def phase_exp(a):
    """e such that a = i**e * (positive Hermitian operator)."""
    return (a[2] - bin(a[0] & a[1]).count("1")) % 4


def from_row(row):
    """Reference operator of a binary row of plaquette (length 2n+1)."""
    row = [int(v) for v in row]
    n = len(row) // 2
    assert len(row) == 2 * n + 1 and all(v in (0, 1) for v in row), row
    x = sum(b << i for i, b in enumerate(row[:n]))
    z = sum(b << i for i, b in enumerate(row[n:2 * n]))
    return herm(x, z, row[-1])


def to_row(op, n):
    return ([op[0] >> i & 1 for i in range(n)] + [op[1] >> i & 1 for i in range(n)]
            + [sign(op)])


def from_str(s):
    sgn = 0
    if s[0] in "+-":
        sgn = int(s[0] == "-")
        s = s[1:]
    x = sum((c in "XY") << i for i, c in enumerate(s))
    z = sum((c in "ZY") << i for i, c in enumerate(s))
    return herm(x, z, sgn)


def single(p, q, s=0):
    return herm((p in "XY") << q, (p in "ZY") << q, s)


# conjugation of single-qubit generators, from matrices --------------------------------
def _mats():
    X = [[0, 1], [1, 0]]
    Z = [[1, 0], [0, -1]]
    I = [[1, 0], [0, 1]]
    Y = [[0, -1j], [1j, 0]]
    return {"I": I, "X": X, "Y": Y, "Z": Z}


def _mm(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))]
            for i in range(len(a))]


def _kron(a, b):
    return [[x * y for x in ra for y in rb] for ra in a for rb in b]


def _dag(a):
    return [[complex(a[j][i]).conjugate() for j in range(len(a))]
            for i in range(len(a[0]))]


def _close(a, b):
    return all(abs(x - y) < 1e-9 for r, s in zip(a, b) for x, y in zip(r, s))


def _gate_tables():
    m = _mats()
    h = 2 ** -0.5
    one = {"X": m["X"], "Y": m["Y"], "Z": m["Z"], "H": [[h, h], [h, -h]],
           "S": [[1, 0], [0, 1j]]}
    two = {"CX": [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1], [0, 0, 1, 0]],
           "CZ": [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, -1]]}
    t1, t2 = {}, {}
    for g, u in one.items():
        for p in "IXYZ":
            v = _mm(_mm(u, m[p]), _dag(u))
            t1[g, p] = next((q, s) for q in "IXYZ" for s in (0, 1)
                            if _close(v, [[(-1) ** s * e for e in r] for r in m[q]]))
    for g, u in two.items():
        for p in itertools.product("IXYZ", repeat=2):
            v = _mm(_mm(u, _kron(m[p[0]], m[p[1]])), _dag(u))
            t2[g, p[0] + p[1]] = next(
                (q + r, s) for q in "IXYZ" for r in "IXYZ" for s in (0, 1)
                if _close(v, [[(-1) ** s * e for e in w]
                              for w in _kron(m[q], m[r])]))
    return t1, t2


T1, T2 = _gate_tables()
_P = {(0, 0): "I", (1, 0): "X", (1, 1): "Y", (0, 1): "Z"}


def conj1(gate, op, q):
    s = sign(op)
    p = _P[op[0] >> q & 1, op[1] >> q & 1]
    r, f = T1[gate, p]
    x = op[0] & ~(1 << q) | (r in "XY") << q
    z = op[1] & ~(1 << q) | (r in "ZY") << q
    return herm(x, z, s ^ f)


def conj2(gate, op, a, b):
    assert a != b
    s = sign(op)
    p = _P[op[0] >> a & 1, op[1] >> a & 1] + _P[op[0] >> b & 1, op[1] >> b & 1]
    r, f = T2[gate, p]
    x = op[0] & ~(1 << a | 1 << b) | (r[0] in "XY") << a | (r[1] in "XY") << b
    z = op[1] & ~(1 << a | 1 << b) | (r[0] in "ZY") << a | (r[1] in "ZY") << b
    return herm(x, z, s ^ f)


# groups ------------------------------------------------------------------------------
def rref(gens, n):
    """Canonical generators of the group generated by commuting Hermitian operators."""
    rows = [g for g in gens]
    out = []
    for bit in range(2 * n):
        def has(o):
            return (o[0] >> bit if bit < n else o[1] >> (bit - n)) & 1
        piv = next((r for r in rows if has(r)), None)
        if piv is None:
            continue
        rows.remove(piv)
        rows = [mul(r, piv) if has(r) else r for r in rows]
        out = [mul(r, piv) if has(r) else r for r in out]
        out.append(piv)
    for r in rows:
        if (r[0] | r[1]) == 0 and sign(r):
            raise ValueError("-1 is in the group")
    return tuple(out)


def rank(gens, n):
    return len(rref([herm(g[0], g[1]) for g in gens], n))


def express(canon, op, n):
    """Sign bit of op in the group with canonical generators, None if outside."""
    r = op
    for g in canon:
        bit = next(b for b in range(2 * n)
                   if (g[0] >> b if b < n else g[1] >> (b - n)) & 1)
        if (r[0] >> bit if bit < n else r[1] >> (bit - n)) & 1:
            r = mul(g, r)
    if r[0] | r[1]:
        return None
    assert r[2] % 2 == 0
    return r[2] // 2


def measure_group(canon, op, n):
    """(determined outcome, group) or (None, {0: group, 1: group})."""
    e = express(canon, op, n)
    if e is not None:
        return e, canon
    anti = [g for g in canon if comm(g, op)]
    keep = [g for g in canon if not comm(g, op)]
    assert anti
    keep += [mul(anti[0], g) for g in anti[1:]]
    x, z, k = op
    return None, {m: rref(keep + [(x, z, (k + 2 * m) % 4)], n) for m in (0, 1)}


def valid_tableau(rows, n):
    """None or why the 2n rows (reference operators) are no valid state."""
    if len(rows) != 2 * n:
        return f"{len(rows)} rows for {n} qubits"
    for i in range(2 * n):
        for j in range(i):
            want = int(i - j == n)
            if comm(rows[i], rows[j]) != want:
                return f"rows {j} and {i}: commutation flag {1 - want}"
    return None


def zero_rows(n):
    return ([single("X", i) for i in range(n)] + [single("Z", i) for i in range(n)])


def random_state(rng, n, depth=None):
    """Rows of a random valid state (reference operators)."""
    rows = zero_rows(n)
    for _ in range(depth if depth is not None else 4 * n + 4):
        g = rng.choice(["H", "S", "X", "Z", "CX", "CZ", "row", "sgn"])
        if g in ("CX", "CZ"):
            if n < 2:
                continue
            a, b = rng.sample(range(n), 2)
            rows = [conj2(g, r, a, b) for r in rows]
        elif g == "row":
            if n < 2:
                continue
            # other generators of the same group
            a, b = rng.sample(range(n), 2)
            rows[n + a] = mul(rows[n + a], rows[n + b])
            d = mul(rows[b], rows[a])
            rows[b] = herm(d[0], d[1], rng.randrange(2))
        elif g == "sgn":
            a = rng.randrange(n)
            x, z, k = rows[a]
            rows[a] = (x, z, (k + 2) % 4)
        else:
            q = rng.randrange(n)
            rows = [conj1(g, r, q) for r in rows]
    return rows


def random_op(rng, n, allow_identity=True):
    while True:
        x, z = rng.getrandbits(n), rng.getrandbits(n)
        if allow_identity or x | z:
            return herm(x, z, rng.randrange(2))


def drop_qubits(ops, n, qubits):
    """Forget the columns of the given qubits."""
    keep = [q for q in range(n) if q not in qubits]
    out = []
    for o in ops:
        x = sum((o[0] >> q & 1) << i for i, q in enumerate(keep))
        z = sum((o[1] >> q & 1) << i for i, q in enumerate(keep))
        out.append(herm(x, z, sign(o)))
    return out


def trivial_on(canon, n, qubits):
    """Generators of the subgroup that acts as identity on the given qubits."""
    rows = list(canon)
    for q in qubits:
        for kind in (0, 1):
            piv = next((r for r in rows if r[kind] >> q & 1), None)
            if piv is None:
                continue
            rows.remove(piv)
            rows = [mul(r, piv) if r[kind] >> q & 1 else r for r in rows]
    return rows
