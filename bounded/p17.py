"""P17: a device runs the circuit it was given, with independent shots."""
import numpy as np
from plaquette import Device
from plaquette.circuit import Circuit, CircuitBuilder

from bounded.p15 import make, random_gates
from bounded.p16 import reference
from bounded.util import np_rng, use_rng
from lib import pauliref as pr
from lib import refexec
from lib.bounded import rejects, require


def record(dev):
    m, f = dev.get_sample()
    return (tuple(int(v) for v in m), () if f is None else tuple(bool(v) for v in f)), f


def c_history(backend, circuits, steps, seed, kw=None):
    """A history of run/sample calls on one device."""
    circs = [make(g) for g in circuits]
    objs = [CircuitBuilder(c) if i % 2 else c for i, c in enumerate(circs)]
    want = [reference(g, c.number_of_qubits) for g, c in zip(circuits, circs)]
    with use_rng(np_rng(seed)):
        dev = Device(backend, **(kw or {}))
        for i in steps:
            dev.run(objs[i])
            (m, f), raw = record(dev)
            require(want[i].get((m, f), 0.0) > 0, f"circuit {i}: record {(m, f)}")
            nq = sum(len(g) - 1 for g in circuits[i] if g[0] == "M")
            ne = sum(g[0] == "E_ERASE" for g in circuits[i])
            require(len(m) == nq and len(f) == ne, "length of the record")
            require((raw is None) == (ne == 0), "flags without erasures")
            # the record does not change when it is read again
            require(record(dev)[0] == (m, f), "record changed")


def c_fresh(backend, runs, builder, kw, seed, switch=False):
    """Repeated runs do not repeat the random stream."""
    n = 48
    c = make([["H", *range(n)], ["M", *range(n)]])
    other = make([["H", 0], ["M", 0]])
    obj = CircuitBuilder(c) if builder else c
    seen = set()
    with use_rng(np_rng(seed)):
        dev = Device(backend, **kw)
        for k in range(runs):
            dev.run(obj)
            m = record(dev)[0][0]
            require(len(m) == n, "length of the record")
            require(m not in seen, f"run {k} repeats an earlier record")
            seen.add(m)
            if switch and not kw:
                dev.run(other)
                require(len(record(dev)[0][0]) == 1, "record of another circuit")
    ones = sum(map(sum, seen))
    tot = n * runs
    require(abs(ones - tot / 2) < 8 * (tot / 4) ** 0.5, f"{ones} of {tot} bits are one")


def c_mutated(backend, kw, seed):
    """A circuit extended between runs; the latest content counts."""
    with use_rng(np_rng(seed)):
        c = Circuit()
        cb = CircuitBuilder(c)
        dev = Device(backend, **kw)
        cb.X(0)
        cb.M(0)
        for _ in range(2):
            dev.run(cb)
            require(record(dev)[0] == ((1,), ()), "first circuit")
        cb.X(2)
        cb.M(2, 1)
        cb.e_erase(1.0, 1)
        for _ in range(2):
            dev.run(c)
            require(record(dev)[0] == ((1, 1, 0), (True,)), "extended circuit")
        d = make([["M", 0]])
        dev.run(d)
        require(record(dev)[0] == ((0,), ()), "another circuit")
        dev.run(cb)
        require(record(dev)[0] == ((1, 1, 0), (True,)), "first circuit again")
        e = make([["M", 0]])
        e2 = make([["X", 0], ["M", 0]])
        for _ in range(3):
            dev.run(e)
            require(record(dev)[0] == ((0,), ()), "equal circuits")
            dev.run(e2)
            require(record(dev)[0] == ((1,), ()), "alternating circuits")


def c_continue(gates, runs, seed):
    """Without a reset the state is kept and the record grows (clifford)."""
    c = make(gates)
    n = c.number_of_qubits
    with use_rng(np_rng(seed)):
        dev = Device("clifford")
        dev.run(c)
        old = record(dev)[0]
        for k in range(2, runs + 1):
            dev.run(c, after_reset=False)
            m, f = record(dev)[0]
            want = reference(gates * k, n)
            require(m[:len(old[0])] == old[0] and f[:len(old[1])] == old[1],
                    "earlier part of the record changed")
            require(want.get((m, f), 0.0) > 0, f"record {(m, f)} after {k} runs")
            old = (m, f)
        require(dev.n_qubits == n, "number of qubits")
        dev.run(c)
        m, f = record(dev)[0]
        require(reference(gates, n).get((m, f), 0.0) > 0, "after a reset")


def c_facade(gates, seed):
    """Stepping through a circuit, state, reset and circuit of the device."""
    c = make(gates)
    n = c.number_of_qubits
    with use_rng(np_rng(seed)):
        dev = Device("clifford")
        dev.run(c)
        require(dev.circuit is c, "circuit")
        dev.reset_backend()
        require(record(dev)[0] == ((), ()), "record after a reset")
        st = np.asarray(dev.state)
        zero = [pr.to_row(o, n) for o in pr.zero_rows(n)]
        require(st.astype(int).tolist() == zero, "state after a reset")
        k = 0
        for _ in dev:
            k += 1
        require(k == len(c.gates), "number of steps")
        require(reference(gates, n).get(record(dev)[0], 0.0) > 0, "stepwise record")
        require(dev.is_completed is None, "is_completed")


def c_unknown(name):
    rejects(lambda: Device(name), f"backend {name!r}")


def c_bad_circuit(backend):
    dev = Device(backend)
    rejects(lambda: dev.run("X 0"), "text as circuit")


CASES = {"history": c_history, "fresh": c_fresh, "mutated": c_mutated,
         "continue": c_continue, "facade": c_facade, "unknown": c_unknown,
         "bad_circuit": c_bad_circuit}


def run(ctx):
    r = ctx.rng
    for nm in ("", "foo", "Clifford", "stimm", "qiskit "):
        ctx.run("unknown", name=nm)
    for b in ("clifford", "stim"):
        ctx.run("bad_circuit", backend=b)
    for b, kws in (("clifford", [{}]), ("stim", [{}, {"stim_seed": 7},
                                                {"batch_size": 2},
                                                {"batch_size": 3, "stim_seed": 11}])):
        for kw in kws:
            ctx.run("mutated", backend=b, kw=kw, seed=3)
            for bl in (False, True):
                for k in (2, 9) if b == "clifford" else (2, 9, 40):
                    ctx.run("fresh", backend=b, runs=k, builder=bl, kw=kw, seed=5)
                    ctx.run("fresh", backend=b, runs=k, builder=bl, kw=kw, seed=6,
                            switch=True)
    ctx.run("fresh", backend="stim", runs=2100, builder=True, kw={}, seed=1)
    for _ in range(ctx.n(150, 2000)):
        b = r.choice(["clifford", "stim"])
        cs = []
        while len(cs) < 3:
            n = r.choice([1, 2, 3])
            g = random_gates(r, n, r.randint(1, 6), cond=b == "clifford")
            try:
                reference(g, n)
            except refexec.Invalid:
                continue
            if g and (b != "stim" or not any(x[0].startswith("ERROR") for x in g)):
                cs.append(g)
        kw = r.choice([{}, {"stim_seed": 3}, {"batch_size": 2}]) if b == "stim" else {}
        ctx.run("history", backend=b, circuits=cs, steps=[r.randrange(3) for _ in
                                                         range(r.randint(1, 9))],
                seed=r.randrange(1 << 30), kw=kw)
        if b == "clifford":
            g = [x for x in cs[0] if not x[0].startswith("ERROR")]
            if g:
                ctx.run("continue", gates=g[:4], runs=r.choice([2, 3]),
                        seed=r.randrange(1 << 30))
                ctx.run("facade", gates=cs[1], seed=r.randrange(1 << 30))
        if ctx.time_left() < 5:
            break
