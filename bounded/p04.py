"""P04: gates conjugate every row."""
import numpy as np
from plaquette import pauli
from plaquette.device import QuantumState

from bounded.util import arr, bits
from lib import pauliref as pr
from lib.bounded import require

F1 = {"X": ["x"], "Y": ["y"], "Z": ["z"], "H": ["hadamard", "h"], "S": ["phase_gate"]}
F2 = {"CX": ["control_not_gate", "cx"], "CZ": ["control_phase_gate", "cz"]}


def targets(t, form):
    if form == "int":
        return int(t[0])
    if form == "tuple":
        return tuple(t)
    if form == "array":
        return np.array(t)
    return list(t)


def compare(res, ops, n):
    require(isinstance(res, np.ndarray) and res.shape == (len(ops), 2 * n + 1), "shape")
    for i, (row, o) in enumerate(zip(res, ops)):
        require("".join(str(int(v)) for v in row) == bits(o, n),
                lambda: f"row {i}: {row.tolist()}, expected {bits(o, n)}")


def c_one(gate, rows, t, form="list", fn=0):
    n = len(rows[0]) // 2
    ops = [pr.from_row(r) for r in rows]
    for q in t:
        ops = [pr.conj1(gate, o, q) for o in ops]
    res = getattr(pauli, F1[gate][fn])(arr(rows), targets(t, form))
    compare(res, ops, n)


def c_two(gate, rows, c, t, form="list", fn=0):
    n = len(rows[0]) // 2
    ops = [pr.from_row(r) for r in rows]
    for a, b in zip(c, t):
        ops = [pr.conj2(gate, o, a, b) for o in ops]
    res = getattr(pauli, F2[gate][fn])(arr(rows), targets(c, form), targets(t, form))
    compare(res, ops, n)


def c_quantum_state(n, steps):
    """The same through the state object, starting from the zero state."""
    st = QuantumState(n)
    ops = pr.zero_rows(n)
    compare(np.asarray(st), ops, n)
    require(st.number_of_qubits == n and st.n_q == n, "number of qubits")
    for g, a, b in steps:
        if g in ("CX", "CZ"):
            for p, q in zip(a, b):
                ops = [pr.conj2(g, o, p, q) for o in ops]
            getattr(st, g.lower())(a, b)
        else:
            for q in a:
                ops = [pr.conj1(g, o, q) for o in ops]
            getattr(st, {"H": "hadamard"}.get(g, g.lower()))(a)
    compare(np.asarray(st), ops, n)
    require(pr.valid_tableau(ops, n) is None, "reference")


CASES = {"one": c_one, "two": c_two, "quantum_state": c_quantum_state}


def run(ctx):
    r = ctx.rng
    for g in F1:
        for fn in range(len(F1[g])):
            rows = [bits(pr.herm(x, z, s), 1) for x in (0, 1) for z in (0, 1)
                    for s in (0, 1)]
            ctx.run("one", gate=g, rows=rows, t=[0], fn=fn)
            ctx.run("one", gate=g, rows=rows, t=[0, 0], fn=fn)
            rows = [bits(pr.herm(x, z, s), 2) for x in range(4) for z in range(4)
                    for s in (0, 1)]
            for t in ([0], [1], [0, 1], [1, 0], [0, 1, 0]):
                ctx.run("one", gate=g, rows=rows, t=t, fn=fn)
            ctx.run("one", gate=g, rows=rows, t=[], fn=fn)
    for g in F2:
        for fn in range(2):
            rows = [bits(pr.herm(x, z, s), 2) for x in range(4) for z in range(4)
                    for s in (0, 1)]
            for c, t in (([0], [1]), ([1], [0]), ([0, 1], [1, 0]), ([0, 0], [1, 1])):
                ctx.run("two", gate=g, rows=rows, c=c, t=t, fn=fn)
            rows = [bits(pr.herm(x, z, 0), 3) for x in range(8) for z in range(8)]
            for c, t in (([0, 1], [1, 2]), ([0, 1, 2], [2, 0, 1]), ([2], [0])):
                ctx.run("two", gate=g, rows=rows, c=c, t=t, fn=fn)
    for _ in range(ctx.n(1000, 12000)):
        n = r.choice([1, 2, 3, 4, 7, 20, 70])
        rows = [bits(pr.random_op(r, n), n) for _ in range(r.randint(1, 8))]
        k = r.choice([1, 1, 2, 3, 6])
        form = r.choice(["list", "tuple", "array"] + (["int"] if k == 1 else []))
        if r.random() < 0.5 or n < 2:
            g = r.choice(list(F1))
            ctx.run("one", gate=g, rows=rows, t=[r.randrange(n) for _ in range(k)],
                    form=form, fn=r.randrange(len(F1[g])))
        else:
            pairs = [r.sample(range(n), 2) for _ in range(k)]
            ctx.run("two", gate=r.choice(list(F2)), rows=rows, c=[p[0] for p in pairs],
                    t=[p[1] for p in pairs], form=form, fn=r.randrange(2))
    for _ in range(ctx.n(150, 2000)):
        n = r.randint(2, 6)
        steps = []
        for _ in range(r.randint(1, 10)):
            g = r.choice(["X", "Y", "Z", "H", "CX", "CZ", "H", "CX"])
            k = r.randint(1, 3)
            if g in F2:
                pairs = [r.sample(range(n), 2) for _ in range(k)]
                steps.append([g, [p[0] for p in pairs], [p[1] for p in pairs]])
            else:
                steps.append([g, [r.randrange(n) for _ in range(k)], None])
        ctx.run("quantum_state", n=n, steps=steps)
