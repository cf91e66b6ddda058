"""P02: commutation flags."""
import numpy as np
from plaquette import pauli

from bounded.util import arr, bits
from lib import pauliref as pr
from lib.bounded import require


def c_comm(a, b, form_a="array", form_b="array", ign=False):
    """a, b: lists of rows."""
    def make(rows, form):
        if form == "single":
            return arr(rows[0])
        if form == "list":
            return [arr(r) for r in rows]
        return arr(rows)

    x, y = make(a, form_a), make(b, form_b)
    res = (pauli.commutator_sign(x, y, ignore_destabilisers=True) if ign
           else pauli.commutator_sign(x, y))
    ra, rb = [pr.from_row(o) for o in a], [pr.from_row(o) for o in b]
    if ign:
        ra, rb = ra[len(ra) // 2:], rb[len(rb) // 2:]
    want = np.array([[pr.comm(o, p) for p in rb] for o in ra])
    res = np.asarray(res)
    require(res.size == want.size, f"shape {res.shape}, expected {want.shape}")
    dims = [d for d in want.shape if d != 1]
    require([d for d in res.shape if d != 1] == dims,
            f"shape {res.shape}, expected {want.shape}")
    require((res.reshape(want.shape) == want).all(),
            lambda: f"flags {res.tolist()}, expected {want.tolist()}")


def c_overlap(n):
    """Operators which anticommute on n of n + 3 qubits."""
    def op(p, m):
        return bits(pr.from_str(p * m + "I" * (n + 3 - m)), n + 3)
    for p, q in ("XZ", "ZX", "XY", "YZ"):
        a, b = arr([op(p, n), op(p, n + 1)]), arr([op(q, n + 2), op(q, n)])
        want = [[n % 2, n % 2], [(n + 1) % 2, n % 2]]
        got = np.asarray(pauli.commutator_sign(a, b)).tolist()
        require(got == want, f"{p} against {q}: flags {got}, expected {want}")


CASES = {"comm": c_comm, "overlap": c_overlap}


def run(ctx):
    r = ctx.rng
    one = [pr.herm(x, z, s) for x in (0, 1) for z in (0, 1) for s in (0, 1)]
    o = [bits(v, 1) for v in one]
    ctx.run("comm", a=o, b=o)
    two = [bits(pr.herm(x, z, s), 2) for x in range(4) for z in range(4) for s in (0, 1)]
    ctx.run("comm", a=two, b=two)
    ctx.run("comm", a=two, b=two, ign=True)
    # overlaps around the limits of small machine integers
    for n in (1, 2, 3, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1025):
        ops = [bits(pr.from_str(p * n), n) for p in "XYZ"]
        ctx.run("comm", a=ops, b=ops)
    for n in (1023, 2045, 2046, 2047, 2048, 2049, 4097, 8193, 16385, 32766, 32769, 65533,
              65537):
        ctx.run("overlap", n=n)
    for _ in range(ctx.n(1200, 12000)):
        n = r.choice([1, 2, 3, 4, 6, 10, 33, 140, 300])
        ign = r.random() < 0.3
        k = r.randint(1, 6) * (2 if ign else 1)
        m = r.randint(1, 6) * (2 if ign else 1)
        a = [bits(pr.random_op(r, n), n) for _ in range(k)]
        b = [bits(pr.random_op(r, n), n) for _ in range(m)]
        fa = r.choice(["array", "list"] + (["single"] if k == 1 else []))
        fb = r.choice(["array", "list"] + (["single"] if m == 1 else []))
        ctx.run("comm", a=a, b=b, form_a=fa, form_b=fb, ign=ign)
