"""P06: reset, destructive measurement, adding qubits."""
import numpy as np
from plaquette import pauli
from plaquette.device import QuantumState

from bounded.util import arr, bits, np_rng, rows_of, use_rng
from lib import pauliref as pr
from lib.bounded import rejects, require


def insert_cols(op, n, pos):
    """Columns after inserting identity columns at pos (relative to the original)."""
    order = []
    pos = sorted(pos)
    j = 0
    for q in range(n + 1):
        while j < len(pos) and pos[j] == q:
            order.append(None)
            j += 1
        if q < n:
            order.append(q)
    x = sum((op[0] >> q & 1) << i for i, q in enumerate(order) if q is not None)
    z = sum((op[1] >> q & 1) << i for i, q in enumerate(order) if q is not None)
    return pr.herm(x, z, pr.sign(op)), [i for i, q in enumerate(order) if q is None]


def valid(st, n):
    require(isinstance(st, np.ndarray) and st.shape == (2 * n, 2 * n + 1),
            f"shape {getattr(st, 'shape', None)}, expected {(2 * n, 2 * n + 1)}")
    rows = rows_of(st)
    why = pr.valid_tableau(rows, n)
    require(why is None, f"invalid state: {why}")
    return pr.rref(rows[n:], n)


def reset_group(group, n, p, s, q):
    """Possible groups after resetting qubit q to the eigenstate of (-1)**s P."""
    det, gs = pr.measure_group(group, pr.single(p, q, s), n)
    res = []
    for m, g in ({det: gs} if det is not None else gs).items():
        rest = pr.trivial_on(g, n, [q])
        res.append(pr.rref(list(rest) + [pr.single(p, q, s)], n))
    return res


def c_reset(rows, p, targets, form="list", seed=0):
    n = len(rows) // 2
    cand = {pr.rref([pr.from_row(r) for r in rows[n:]], n)}
    t = {"list": list, "tuple": tuple, "array": np.array,
         "int": lambda v: int(v[0])}[form](targets)
    for q in targets:
        cand = {g for c in cand for g in reset_group(c, n, p[-1], int(p[0] == "-"), q)}
    with use_rng(np_rng(seed)):
        st = pauli.reset_qubits_to_eigenstate(arr(rows), p, t)
    g = valid(st, n)
    require(g in cand, "state after the reset is not possible")


def c_reset_state(n, steps, targets, seed=0):
    """Through the state object."""
    q = QuantumState(n)
    ops = pr.zero_rows(n)
    for a, b in steps:
        q.hadamard([a])
        q.cx([a], [b])
        ops = [pr.conj2("CX", pr.conj1("H", o, a), a, b) for o in ops]
    cand = {pr.rref(ops[n:], n)}
    for t in targets:
        cand = {g for c in cand for g in reset_group(c, n, "Z", 0, t)}
    with use_rng(np_rng(seed)):
        q.reset_qubits_to_eigenstate("Z", targets)
    require(valid(np.asarray(q), n) in cand, "state after the reset is not possible")


def c_destructive(rows, base, targets, forced=None, form="list", seed=0):
    n = len(rows) // 2
    group = pr.rref([pr.from_row(r) for r in rows[n:]], n)
    t = targets[0] if form == "int" else list(targets)
    fn = {"X": pauli.measure_x_base, "Z": pauli.measure_z_base}[base]
    with use_rng(np_rng(seed)):
        st, out = fn(arr(rows), t, destructive=True, forced_outcomes=forced)
    outs = [int(out)] if len(targets) == 1 else [int(v) for v in out]
    require(len(outs) == len(targets), "number of outcomes")
    start = group
    for q, m in zip(targets, outs):
        det, gs = pr.measure_group(group, pr.single(base, q), n)
        if det is not None:
            require(det == m, f"impossible outcome {m} of qubit {q}")
        else:
            group = gs[m]
    fo = forced if isinstance(forced, list) else [forced] * len(targets)
    if all(f is not None for f in fo) and outs != fo:
        g, ok = start, True
        for q, m in zip(targets, fo):
            det, gs = pr.measure_group(g, pr.single(base, q), n)
            if det is not None and det != m:
                ok = False
                break
            g = gs if det is not None else gs[m]
        require(not ok, f"forced outcomes {fo} ignored: {outs}")
    k = n - len(targets)
    rest = pr.drop_qubits(pr.trivial_on(group, n, targets), n, targets)
    if k == 0:
        require(np.asarray(st).shape == (0, 1), "shape")
        return
    require(valid(st, k) == pr.rref(rest, k), "remaining state is wrong")


def c_insert(rows, pos, form="list"):
    n = len(rows) // 2
    m = n + len(pos)
    if form == "append":
        st = pauli.append_qubit(arr(rows))
    else:
        p = {"list": list, "tuple": tuple, "array": np.array,
             "int": lambda v: int(v[0])}[form](pos)
        a = arr(rows)
        st = pauli.insert_qubit_at(a, p)
        require((a == arr(rows)).all(), "input modified")
    want = []
    for r in rows[n:]:
        o, new = insert_cols(pr.from_row(r), n, pos)
        want.append(o)
    want += [pr.single("Z", q) for q in new]
    require(valid(st, m) == pr.rref(want, m), "state after the insertion is wrong")


def c_insert_reject(rows, pos):
    rejects(lambda: pauli.insert_qubit_at(arr(rows), pos), "invalid position")


def c_scratch(rows):
    a = arr(rows)
    st = pauli.append_scratch(a)
    require(st.shape == (a.shape[0] + 1, a.shape[1]) and (st[:-1] == a).all()
            and not st[-1].any(), "scratch row")


CASES = {k[2:]: v for k, v in list(globals().items()) if k.startswith("c_")}


def run(ctx):
    r = ctx.rng
    for _ in range(ctx.n(700, 8000)):
        n = r.choice([1, 2, 3, 4, 5, 7])
        rows = [bits(o, n) for o in pr.random_state(r, n)]
        k = r.randint(1, min(n, 4))
        t = r.sample(range(n), k)
        if r.random() < 0.1:
            t = t + [t[0]]
        form = r.choice(["list", "tuple", "array"] + (["int"] if len(t) == 1 else []))
        ctx.run("reset", rows=rows, p=r.choice(["", "-"]) + r.choice("XYZ"), targets=t,
                form=form, seed=r.randrange(1000))
    for _ in range(ctx.n(100, 1000)):
        n = r.randint(2, 5)
        ctx.run("reset_state", n=n, steps=[r.sample(range(n), 2) for _ in range(4)],
                targets=r.sample(range(n), r.randint(1, n)), seed=r.randrange(1000))
    for _ in range(ctx.n(900, 9000)):
        n = r.choice([1, 2, 3, 4, 5, 6])
        rows = [bits(o, n) for o in pr.random_state(r, n)]
        k = r.randint(1, n)
        t = r.sample(range(n), k)
        f = r.choice([None, None, 0, 1, [r.randrange(2) for _ in t]])
        ctx.run("destructive", rows=rows, base=r.choice("XZ"), targets=t, forced=f,
                form="int" if k == 1 and r.random() < 0.5 else "list",
                seed=r.randrange(1000))
    for _ in range(ctx.n(400, 4000)):
        n = r.choice([1, 2, 3, 4, 5, 8])
        rows = [bits(o, n) for o in pr.random_state(r, n)]
        k = r.choice([1, 1, 2, 3, 4])
        pos = [r.randint(0, n) for _ in range(k)]
        form = r.choice(["list", "tuple", "array"] + (["int"] if k == 1 else []))
        ctx.run("insert", rows=rows, pos=pos, form=form)
        ctx.run("insert", rows=rows, pos=[n], form="append")
        ctx.run("insert_reject", rows=rows, pos=n + r.randint(1, 3))
        ctx.run("scratch", rows=rows)
