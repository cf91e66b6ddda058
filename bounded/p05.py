"""P05: measurement."""
import numpy as np
from plaquette import pauli

from bounded.util import (Tree, Unscripted, arr, bits, np_rng, rows_of, sub_rng, use_rng)
from lib import pauliref as pr
from lib.bounded import require


def check_after(st, n, before, op, out, forced):
    """State after measuring, checked against the group before."""
    require(isinstance(st, np.ndarray) and st.shape == (2 * n, 2 * n + 1),
            f"shape {getattr(st, 'shape', None)}")
    rows = rows_of(st)
    why = pr.valid_tableau(rows, n)
    require(why is None, f"invalid state: {why}")
    after = pr.rref(rows[n:], n)
    det, groups = pr.measure_group(before, op, n)
    require(out in (0, 1), f"outcome {out!r}")
    if det is not None:
        require(out == det, f"outcome {out}, but the operator is stabilised with {det}")
        require(after == before, "state changed by a determined measurement")
    else:
        if forced is not None:
            require(out == forced, f"outcome {out}, forced {forced}")
        require(after == groups[out], "wrong state after the measurement")
    return after


def c_measure(rows, op, forced=None, as_text=False, seed=0):
    n = len(rows) // 2
    ref = [pr.from_row(r) for r in rows]
    o = pr.from_row(op)
    before = pr.rref(ref[n:], n)
    x = pauli.pauli_to_string(arr(op)) if as_text else arr(op)
    with use_rng(np_rng(seed)):
        st, out = pauli.measure(arr(rows), x, forced_outcome=forced)
        if not as_text:
            require((x == arr(op)).all(), "operator modified")
        after = check_after(st, n, before, o, int(out), forced)
        st2, out2 = pauli.measure(st.copy(), arr(op))
        require(int(out2) == int(out), "repeated measurement differs")
        check_after(st2, n, after, o, int(out2), None)


def c_fair(rows, op):
    """Undetermined outcomes are fair bits."""
    n = len(rows) // 2
    before = pr.rref([pr.from_row(r) for r in rows[n:]], n)
    det, _ = pr.measure_group(before, pr.from_row(op), n)
    assert det is None
    prob = {0: 0.0, 1: 0.0}

    def once(rng):
        with use_rng(rng):
            return int(pauli.measure(arr(rows), arr(op))[1])

    try:
        for w, out in Tree().paths(once):
            prob[out] += w
        tol = 1e-9
    except Unscripted:
        rng = np_rng(5)
        for _ in range(2000):
            prob[once(rng)] += 1 / 2000
        tol = 0.09
    require(abs(prob[0] - 0.5) <= tol, f"probabilities {prob}")


def c_base(rows, base, targets, forced=None, scalar=False, seed=0):
    """measure_x_base / measure_z_base on several targets, in order of the targets."""
    n = len(rows) // 2
    before = pr.rref([pr.from_row(r) for r in rows[n:]], n)
    fn = {"X": pauli.measure_x_base, "Z": pauli.measure_z_base}[base]
    t = targets[0] if scalar else list(targets)
    with use_rng(np_rng(seed)):
        st, out = fn(arr(rows), t, forced_outcomes=forced)
    outs = [int(out)] if len(targets) == 1 else [int(v) for v in out]
    require(len(outs) == len(targets), "number of outcomes")
    fo = forced if isinstance(forced, list) else [forced] * len(targets)
    # distinct commuting operators: the result does not depend on the order, but which
    # outcomes are determined does; accept any order
    group = before
    for q, m in zip(targets, outs):
        det, gs = pr.measure_group(group, pr.single(base, q), n)
        if det is not None:
            require(det == m, f"impossible outcome {m} of qubit {q}")
        else:
            group = gs[m]
    for k, (q, m) in enumerate(zip(targets, outs)):
        det, _ = pr.measure_group(before, pr.single(base, q), n)
        if det is None and fo[k] is not None and len(targets) == 1:
            require(m == fo[k], "forced outcome ignored")
    if all(f is not None for f in fo) and outs != fo:
        # outcomes may deviate only if the forced ones are impossible together
        g, ok = before, True
        for q, m in zip(targets, fo):
            det, gs = pr.measure_group(g, pr.single(base, q), n)
            if det is not None and det != m:
                ok = False
                break
            g = gs if det is not None else gs[m]
        require(not ok, f"forced outcomes {fo} ignored: {outs}")
    rr = rows_of(st)
    why = pr.valid_tableau(rr, n)
    require(why is None, f"invalid state: {why}")
    require(pr.rref(rr[n:], n) == group, "wrong state")


CASES = {"measure": c_measure, "fair": c_fair, "base": c_base}


def gen_op(r, rows, n):
    """Operators which are random, in the group, or nearly so."""
    k = r.random()
    if k < 0.35:
        return pr.random_op(r, n)
    op = pr.herm(0, 0, 0)
    for g in rows[n:]:
        if r.random() < 0.4:
            op = pr.mul(op, g)
    if k < 0.7:
        if r.random() < 0.5:
            op = (op[0], op[1], (op[2] + 2) % 4)
        return op
    q = pr.mul(op, r.choice(rows[:n]))
    return pr.herm(q[0], q[1], r.randrange(2))


def run(ctx):
    r = ctx.rng
    for n in (1, 2):
        for _ in range(12):
            rows = pr.random_state(r, n)
            b = [bits(o, n) for o in rows]
            for x in range(1 << n):
                for z in range(1 << n):
                    for s in (0, 1):
                        for f in (None, 0, 1):
                            ctx.run("measure", rows=b, op=bits(pr.herm(x, z, s), n),
                                    forced=f, seed=s)
    for _ in range(ctx.n(700, 8000)):
        n = r.choice([1, 2, 3, 4, 5, 6, 8, 12])
        rows = pr.random_state(r, n)
        op = gen_op(r, rows, n)
        ctx.run("measure", rows=[bits(o, n) for o in rows], op=bits(op, n),
                forced=r.choice([None, None, 0, 1]), as_text=r.random() < 0.15,
                seed=r.randrange(1000))
    for n in (33, 66, 131) if ctx.thorough() else (66,):
        rows = pr.random_state(r, n, depth=3 * n)
        for _ in range(3):
            ctx.run("measure", rows=[bits(o, n) for o in rows],
                    op=bits(gen_op(r, rows, n), n), seed=1)
    for _ in range(ctx.n(60, 400)):
        n = r.randint(1, 4)
        rows = pr.random_state(r, n)
        op = gen_op(r, rows, n)
        if pr.express(pr.rref(rows[n:], n), op, n) is None:
            ctx.run("fair", rows=[bits(o, n) for o in rows], op=bits(op, n))
    for _ in range(ctx.n(300, 3000)):
        n = r.choice([1, 2, 3, 4, 6])
        rows = pr.random_state(r, n)
        k = r.randint(1, n)
        t = r.sample(range(n), k)
        f = r.choice([None, 0, 1, [r.randrange(2) for _ in t]])
        ctx.run("base", rows=[bits(o, n) for o in rows], base=r.choice("XZ"), targets=t,
                forced=f, scalar=k == 1 and r.random() < 0.5, seed=r.randrange(1000))
