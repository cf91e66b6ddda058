"""P16: the fast backend simulates exactly the same process."""
import numpy as np
from plaquette.circuit import CircuitBuilder
from plaquette.device import _stimsim

from bounded.p15 import make, random_gates
from bounded.util import np_rng, use_rng
from lib import refexec
from lib.bounded import rejects, require


def stim_distribution(gates):
    """Joint distribution of (outcomes, flags) of the translated circuit."""
    circ = make(gates)
    sc, er = _stimsim.circuit_to_stim(circ)
    n = max(sc.num_qubits, circ.number_of_qubits)
    d = refexec.Dist(n)
    for inst in sc:
        d.stim_step(inst)
    er = [bool(e) for e in er]
    require(len(er) == sc.num_measurements,
            f"{sc.num_measurements} results, {len(er)} record types")
    out = {}
    for (_, m, _), w in d.result().items():
        k = (tuple(b for b, e in zip(m, er) if not e),
             tuple(bool(b) for b, e in zip(m, er) if e))
        out[k] = out.get(k, 0.0) + w
    return out


def reference(gates, n):
    d = refexec.Dist(n)
    for name, *args in gates:
        d.step(name, args)
    out = {}
    for (_, m, f), w in d.result().items():
        out[m, f] = out.get((m, f), 0.0) + w
    return out


def c_exact(gates):
    n = make(gates).number_of_qubits
    got, want = stim_distribution(gates), reference(gates, n)
    why = refexec.close(got, want, 1e-7)
    require(why is None, why)


def c_reject(gates):
    rejects(lambda: _stimsim.circuit_to_stim(make(gates)), f"{gates}")


def c_flag(p, target):
    """Probability of the flag and of every Pauli, to high precision."""
    gates = [["E_ERASE", p, target]]
    sc, er = _stimsim.circuit_to_stim(make(gates))
    d = refexec.Dist(target + 2)
    for inst in sc:
        d.stim_step(inst)
    out = {}
    for (_, m, _), w in d.result().items():
        out[m] = out.get(m, 0.0) + w
    require(abs(out.get((1,), 0.0) - p) < 1e-9 * max(p, 1e-3), f"flag {out}, p={p}")


def c_records(gates, batch_size, shots, seed, builder=False, explicit=True):
    """Every run returns one possible record with the right numbers of entries."""
    circ = make(gates)
    want = reference(gates, circ.number_of_qubits)
    with use_rng(np_rng(seed)):
        kw = {"stim_seed": seed} if explicit else {}
        sim = _stimsim.StimSimulator(CircuitBuilder(circ) if builder else circ,
                                     batch_size=batch_size, **kw)
        seen = set()
        for _ in range(shots):
            sim.run()
            m, f = sim.process_results()
            k = (tuple(int(v) for v in m),
                 () if f is None else tuple(bool(v) for v in f))
            require(want.get(k, 0.0) > 0, f"impossible record {k}")
            require((f is None) == (not k[1]), "flags")
            seen.add(k)
        rejects(lambda: sim.run(after_reset=False), "run without a reset")
    # deterministic circuits show their only record, others vary
    big = [k for k, w in want.items() if w * shots > 60]
    for k in big:
        require(k in seen, f"record {k} never seen in {shots} shots")


CASES = {"exact": c_exact, "reject": c_reject, "flag": c_flag, "records": c_records}


def run(ctx):
    r = ctx.rng
    pre, post = [["H", 0], ["CX", 0, 1]], [["M", 0, 1]]
    for g in (["X", 0], ["Y", 0, 1], ["Z", 1], ["H", 1], ["CX", 1, 0], ["CZ", 0, 1],
              ["CX", 0, 1, 1, 0], ["R", 0], ["R", 0, 1], ["M", 1, 0, 1],
              ["DEPOLARIZE", 0], ["DEPOLARIZE", 0, 1], ["E_ERASE", .3, 1],
              ["E_ERASE", 1.0, 0], ["E_ERASE", 0.0, 0], ["E_PAULI", .1, .2, .3, 1],
              ["E_PAULI", .7, .2, .1, 0], ["E_PAULI2", *[1 / 16] * 15, 0, 1],
              ["E_PAULI2", *[(i + 1) / 150 for i in range(15)], 1, 0],
              ["ERROR", .3, "X", 0], ["ERROR", .2, "Y", 1], ["ERROR", 1.0, "Z", 0]):
        ctx.run("exact", gates=[g, *post])
        ctx.run("exact", gates=[*pre, g, *post])
        ctx.run("exact", gates=[*pre, g, ["CX", 0, 1], ["H", 0], *post])
        ctx.run("exact", gates=[["H", 0], g, ["H", 0], g, *post, ["M", 0]])
    for k in range(15):
        v = [0.0] * 15
        v[k] = 0.25
        for tail in ([["M", 0, 1]], [["H", 0, 1], ["M", 0, 1]], [["H", 0], ["M", 0, 1]]):
            head = [["H", t] for g in tail if g[0] == "H" for t in g[1:]]
            ctx.run("exact", gates=[*head, ["E_PAULI2", *v, 0, 1], *tail])
    for p in (0.0, 1.0, 0.5, 1e-6, 1e-3, 0.999, 1 / 3, 0.75):
        for t in (0, 1, 3):
            ctx.run("flag", p=p, target=t)
            for tail in ([["M", t]], [["H", t], ["M", t]]):
                ctx.run("exact", gates=[tail[0]] * (len(tail) - 1)
                        + [["E_ERASE", p, t], *tail, ["E_ERASE", p / 2, 0]])
    for g in ([["ERROR", .1, "X", 0, 1]], [["ERROR", .1, "H", 0]],
              [["ERROR", .1, "CX", 0, 1]], [["ERROR", .1, "X", 0], ["ERROR_ELSE", .1,
                                                                   "X", 1]],
              [["ERROR", .1, "X", 0], ["ERROR_CONTINUE", "X", 1]],
              [["ERROR_ELSE", .1, "X", 0]], [["ERROR_CONTINUE", "X", 0]],
              [["ERROR", .1, "M", 0]], [["ERROR", .1, "R", 0]]):
        # translated correctly or rejected
        try:
            _stimsim.circuit_to_stim(make(g))
        except Exception:
            ctx.run("reject", gates=g)
        else:
            ctx.run("exact", gates=[*g, ["M", 0, 1]])
    for _ in range(ctx.n(350, 5000)):
        n = r.choice([1, 2, 2, 3])
        g = random_gates(r, n, r.randint(1, 7), cond=False)
        g = [x for x in g]
        for _ in range(r.choice([0, 0, 1])):
            g.insert(r.randint(0, len(g)), ["ERROR", r.choice([0.0, 1.0, .3]),
                                            r.choice("XYZ"), r.randrange(n)])
        if not g:
            continue
        ctx.run("exact", gates=g)
        if r.random() < 0.4:
            ctx.run("records", gates=g, batch_size=r.choice([1, 2, 3, 7, 64]),
                    shots=r.choice([1, 5, 20, 130]), seed=r.randrange(1 << 30),
                    builder=r.random() < .3, explicit=r.random() < .6)
        if ctx.time_left() < 5:
            break
