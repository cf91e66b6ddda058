"""P15: the reference simulator executes each instruction as documented."""
import numpy as np
from plaquette.circuit import Circuit, CircuitBuilder
from plaquette.device._circuitsim import CircuitSimulator

from bounded.util import Tree, np_rng, stabs_of, use_rng
from lib import pauliref as pr
from lib import refexec
from lib.bounded import require


def make(gates):
    c = Circuit()
    for g in gates:
        c.append(*g)
    return c


def reference(gates, n):
    d = refexec.Dist(n)
    for name, *args in gates:
        d.step(name, args)
    return d.result()


def snapshot(sim, n):
    meas, er = sim.process_results()
    st = np.asarray(sim.state.tableau)
    require(st.shape == (2 * n, 2 * n + 1), f"state of shape {st.shape}")
    return (pr.rref(stabs_of(st), n), tuple(int(m) for m in meas),
            () if er is None else tuple(bool(e) for e in er))


def c_exact(gates, runs=1, builder=False, reset=True, step=False):
    """The distribution of outcomes, flags and final states is exact."""
    circ = make(gates)
    n = circ.number_of_qubits
    try:
        want = reference(gates if reset else gates * runs, n)
        bad = False
    except refexec.Invalid:
        bad = True
    got = {}

    def once(rng):
        with use_rng(rng):
            sim = CircuitSimulator(CircuitBuilder(circ) if builder else circ)
            if step:
                sim.reset()
                for _ in sim:
                    pass
            else:
                for i in range(runs):
                    sim.run(**({} if reset else {"after_reset": i == 0}))
            return snapshot(sim, n)

    if bad:
        try:
            for _ in Tree().paths(once):
                pass
        except (ValueError, AssertionError):
            return
        require(False, "invalid instruction was accepted")
    for w, res in Tree().paths(once):
        got[res] = got.get(res, 0.0) + w
    why = refexec.close(got, want)
    require(why is None, why)


def c_sampled(gates, seed):
    """Only possible results appear (any use of the random number generator)."""
    circ = make(gates)
    n = circ.number_of_qubits
    want = reference(gates, n)
    with use_rng(np_rng(seed)):
        sim = CircuitSimulator(circ)
        for _ in range(5):
            sim.run()
            require(want.get(snapshot(sim, n), 0.0) > 0, "impossible result")


def c_frequency(gates, seed, shots=2000):
    """Fallback: observed frequencies within seven standard deviations."""
    circ = make(gates)
    n = circ.number_of_qubits
    try:
        want = reference(gates, n)
    except refexec.Invalid:
        return
    got = {}
    with use_rng(np_rng(seed)):
        sim = CircuitSimulator(circ)
        for _ in range(shots):
            sim.run()
            s = snapshot(sim, n)
            got[s] = got.get(s, 0) + 1
    for k in set(got) | set(want):
        p = want.get(k, 0.0)
        dev = abs(got.get(k, 0) - shots * p)
        require(dev <= 7 * (shots * p * (1 - p)) ** 0.5 + 1e-6,
                f"{k}: {got.get(k, 0)} of {shots} shots, probability {p}")


CASES = {"exact": c_exact, "sampled": c_sampled, "frequency": c_frequency}
P = [0.0, 1.0, 0.25, 0.5, 0.1, 0.3]


def channel(r, k):
    if r.random() < 0.3:
        v = [0.0] * k
        v[r.randrange(k)] = r.choice([1.0, 0.5])
        return v
    v = [r.choice([0, 0, 1, 2, 3]) for _ in range(k)]
    s = sum(v) + r.choice([0, 0, 1, 3])
    return [x / s if s else 0.0 for x in v]


def random_gates(r, n, length, cond=True):
    out, group = [], False
    for _ in range(length):
        kind = r.choice(["g", "g", "g2", "M", "R", "noise"] + ["cond", "cond"] * cond)
        q = [r.randrange(n) for _ in range(r.choice([1, 1, 2]))]
        if kind == "g":
            out.append([r.choice("XYZHH"), *q])
        elif kind == "g2" and n > 1:
            a = r.sample(range(n), 2)
            if r.random() < 0.3:
                a += r.sample(range(n), 2)
            out.append([r.choice(["CX", "CZ"]), *a])
        elif kind == "M":
            out.append(["M", *q])
        elif kind == "R":
            out.append(["R", q[0]])
        elif kind == "noise":
            k = r.choice(["E_ERASE", "E_PAULI", "E_PAULI2", "DEPOLARIZE"])
            if k == "E_ERASE":
                out.append([k, r.choice(P), q[0]])
            elif k == "E_PAULI":
                out.append([k, *channel(r, 3), q[0]])
            elif k == "DEPOLARIZE":
                out.append([k, *q[:1]])
            elif n > 1:
                out.append([k, *channel(r, 15), *r.sample(range(n), 2)])
        elif kind == "cond":
            names = ["ERROR"] if not group else ["ERROR", "ERROR_ELSE", "ERROR_ELSE",
                                                 "ERROR_CONTINUE", "ERROR_CONTINUE"]
            nm = r.choice(names)
            inner = r.choice([[r.choice("XYZH"), *q], ["X", q[0]],
                              ["CX", *r.sample(range(n), 2)] if n > 1 else ["X", 0]])
            out.append([nm, *inner] if nm == "ERROR_CONTINUE"
                       else [nm, r.choice(P), *inner])
            group = True
            continue
        group = False
    return out


def run(ctx):
    r = ctx.rng
    # every instruction on superpositions
    pre = [["H", 0], ["CX", 0, 1]]
    post = [["M", 0, 1]]
    for g in (["X", 0], ["Y", 0, 1], ["Z", 1], ["H", 1], ["CX", 1, 0], ["CZ", 0, 1],
              ["CX", 0, 1, 1, 0], ["R", 0], ["R", 0, 1], ["M", 1, 0, 1],
              ["DEPOLARIZE", 0], ["DEPOLARIZE", 0, 1], ["E_ERASE", .3, 1],
              ["E_ERASE", 1.0, 0], ["E_ERASE", 0.0, 0], ["E_PAULI", .1, .2, .3, 1],
              ["E_PAULI", 1 / 3, 1 / 3, 1 / 3, 0], ["E_PAULI", .7, .2, .1, 0],
              ["E_PAULI2", *[(i + 1) / 150 for i in range(15)], 1, 0],
              ["E_PAULI2", *[1 / 15] * 15, 0, 1], ["ERROR", .3, "X", 0, 1],
              ["ERROR", 1.0, "CX", 0, 1], ["ERROR", 0.0, "X", 0], ["ERROR", .4, "H", 1]):
        ctx.run("exact", gates=[*pre, g, *post])
        ctx.run("exact", gates=[g, *post], runs=2, builder=True)
        ctx.run("exact", gates=[*pre, g, *post, ["H", 0], ["M", 0]], step=True)
        ctx.run("exact", gates=[g, ["M", 0]], runs=2, reset=False)
    # conditional errors
    E, C, L = "ERROR", "ERROR_CONTINUE", "ERROR_ELSE"
    for p in (0.0, 0.3, 1.0):
        for q in (0.0, 0.4, 1.0):
            for chain in ([[E, p, "X", 0], [C, "X", 1], [L, q, "X", 2], [C, "X", 3]],
                          [[E, p, "X", 0], [L, q, "X", 1], [L, .5, "X", 2],
                           [C, "X", 3]],
                          [[E, p, "X", 0], [L, q, "X", 1], [C, "X", 2], [C, "X", 3]],
                          [[E, p, "X", 0], [E, q, "X", 1], [L, .5, "X", 2],
                           [C, "X", 3]],
                          [[E, p, "X", 0], [C, "H", 1], [E, q, "X", 2], [C, "X", 3],
                           [L, .5, "X", 1]]):
                ctx.run("exact", gates=[*chain, ["M", 0, 1, 2, 3]])
                ctx.run("exact", gates=[*chain, ["M", 0, 1, 2, 3]], runs=2)
    for bad in ([[C, "X", 0]], [[L, .5, "X", 0]], [["X", 0], [C, "X", 0]],
                [[E, 1.0, "X", 0], ["Z", 0], [C, "X", 0]],
                [[E, .5, "X", 0], ["M", 0], [L, .5, "X", 0]],
                [[E, .5, "X", 0], [L, .5, "X", 0], ["E_ERASE", .1, 0], [L, .5, "X", 0]]):
        ctx.run("exact", gates=bad)
        ctx.run("exact", gates=bad, runs=2)
    # a group at the end of the circuit is not continued by the next run
    ctx.run("exact", gates=[[C, "X", 0], [E, 1.0, "X", 0]], runs=2)
    for _ in range(ctx.n(500, 6000)):
        n = r.choice([1, 2, 2, 3])
        g = random_gates(r, n, r.randint(1, 7))
        if not g:
            continue
        if not ctx.run("exact", gates=g, runs=r.choice([1, 1, 2]), step=False,
                       builder=r.random() < .2):
            ctx.run("frequency", gates=g, seed=r.randrange(1 << 30))
        if r.random() < 0.2:
            try:
                reference(g, n)
            except refexec.Invalid:
                continue
            ctx.run("sampled", gates=g, seed=r.randrange(1 << 30))
        if ctx.time_left() < 5:
            break
