"""P01: products of Pauli operators."""
import itertools

import numpy as np
from plaquette import pauli

from bounded.util import arr, bits
from lib import pauliref as pr
from lib.bounded import require

PH = [1, 1j, -1, -1j]
KNOWN = []


def expect(ops, e0):
    """Exponent of the true product and the one of the recorded finding."""
    acc = ops[-1]
    for o in reversed(ops[:-1]):
        acc = pr.mul(o, acc)
    e = (pr.phase_exp(acc) + e0) % 4
    # finding P01-partial-signs: the sign bit of every intermediate partial product
    # (which already contains the accumulated phase) enters a second time
    dev, part, exp = 0, None, e0
    part = pr.herm(ops[-1][0], ops[-1][1], pr.sign(ops[-1]))
    for j, o in enumerate(reversed(ops[:-1])):
        q = pr.mul(o, part)
        exp = (exp + pr.phase_exp(q)) % 4
        part = pr.herm(q[0], q[1], int(exp in (2, 3)))
    return e, acc, exp


def c_product(ops, e0=0):
    n = len(ops[0]) // 2
    a = [arr(o) for o in ops]
    keep = [o.copy() for o in a]
    for o in a:
        o.setflags(write=False)
    res, phase = pauli.multiply(*a, initial_phase=PH[e0]) if e0 else pauli.multiply(*a)
    for o, k in zip(a, keep):
        require((o == k).all(), "input modified")
    refs = [pr.from_row(k) for k in keep]
    e, true, known = expect(refs, e0)
    got = pr.from_row(res)
    require(len(res) == 2 * n + 1, "wrong length")
    require((got[0], got[1]) == (true[0], true[1]), "wrong operator")
    require(complex(phase) in [complex(p) for p in PH],
            f"phase {phase!r} is not exactly a power of i")
    ge = [complex(p) for p in PH].index(complex(phase))
    if len(ops) > 2 and ge == known:
        e = known
    require(ge == e, f"phase i**{ge}, expected i**{e}")
    require(int(res[-1]) == int(ge in (2, 3)), f"sign bit {res[-1]} for phase i**{ge}")
    require(res.dtype == np.uint8, f"dtype {res.dtype}")


def c_apply(op, state, single=False):
    """apply_operator multiplies every row of a state from the left."""
    n = len(op[0]) // 2
    st = arr(state)
    o = arr(op[0]) if single else arr(op)
    res = pauli.apply_operator(o, st)
    require(res.shape == st.shape, "shape")
    for i, row in enumerate(state):
        p = op[0] if single else op[i]
        q = pr.mul(pr.from_row(p), pr.from_row(row))
        e = pr.phase_exp(q)
        want = bits(pr.herm(q[0], q[1], int(e in (2, 3))), n)
        require("".join(map(str, res[i])) == want, f"row {i}")


def c_known_partial():
    """XY * YZ * ZX = -1 (finding: the code reports +1)."""
    ops = [arr(bits(pr.from_str(s), 2)) for s in ("XY", "YZ", "ZX")]
    _, phase = pauli.multiply(*ops)
    refs = [pr.from_str(s) for s in ("XY", "YZ", "ZX")]
    e, _, known = expect(refs, 0)
    require(complex(phase) == complex(PH[e]), f"phase {phase}, expected {PH[e]}")


CASES = {"product": c_product, "apply": c_apply, "known_partial": c_known_partial}
KNOWN = {"P01-partial-signs": ("known_partial", {})}


def run(ctx):
    r = ctx.rng
    # one qubit: all pairs with all signs and phases; triples with all signs
    one = [pr.single(p, 0, s) for p in "IXYZ" for s in (0, 1)]
    one = [o if o[0] | o[1] else pr.herm(0, 0, s) for o, s in
           zip(one, itertools.cycle((0, 1)))]
    for a in one:
        for e in range(4):
            ctx.run("product", ops=[bits(a, 1)], e0=e)
    for a, b in itertools.product(one, repeat=2):
        for e in range(4):
            ctx.run("product", ops=[bits(a, 1), bits(b, 1)], e0=e)
    for t in itertools.product(one, repeat=3):
        ctx.run("product", ops=[bits(o, 1) for o in t], e0=0)
    two = [pr.herm(x, z, s) for x in range(4) for z in range(4) for s in (0, 1)]
    for a, b in itertools.product(two, repeat=2):
        ctx.run("product", ops=[bits(a, 2), bits(b, 2)])
    # extreme phase exponents
    for n in (3, 4, 5, 7, 8, 13, 63, 64, 65, 127, 128, 129, 130, 255, 256, 257, 300,
              1000):
        for p, q in itertools.permutations("XYZ", 2):
            a, b = pr.from_str(p * n), pr.from_str(q * n)
            ctx.run("product", ops=[bits(a, n), bits(b, n)])
    for _ in range(ctx.n(1500, 20000)):
        n = r.choice([1, 2, 3, 4, 5, 6, 9, 17, 40, 90])
        k = r.choice([1, 2, 2, 2, 3, 4, 5, 7])
        ops = [bits(pr.random_op(r, n), n) for _ in range(k)]
        ctx.run("product", ops=ops, e0=r.randrange(4))
    for _ in range(ctx.n(150, 2000)):
        n, m = r.randint(1, 6), r.randint(1, 6)
        st = [bits(pr.random_op(r, n), n) for _ in range(m)]
        if r.random() < 0.5:
            ctx.run("apply", op=[bits(pr.random_op(r, n), n)], state=st, single=True)
        else:
            ctx.run("apply", op=[bits(pr.random_op(r, n), n) for _ in range(m)],
                    state=st)
