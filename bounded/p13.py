"""P13: no syndrome and no logical flip without noise; effect of single errors."""
import random

import numpy as np
from plaquette import Device
from plaquette.circuit.generator import generate_qec_circuit
from plaquette.device import MeasurementSample

from bounded.p12 import SPECS, build_code, random_logical, random_spec
from bounded.util import np_rng, use_rng
from lib import pauliref as pr
from lib import symsim
from lib.bounded import require


def value(out, assign):
    c, m = out
    return c ^ (bin(m & assign).count("1") & 1)


def c_effect(code, logical, ancilla, seed=0, samples=4):
    """All measurement outcomes, all single errors before every round (symbolically)."""
    code = build_code(code)
    lat = code.lattice
    q = {"pauli": {v.equbit_idx: {"x": .1, "y": .1, "z": .1} for v in lat.dataqubits}}
    circ = generate_qec_circuit(code, q, {}, logical, logical_ancilla=ancilla)
    out, kinds = symsim.run(circ.gates, code.n_ext_qubits)
    # rounds are told apart by the order of the channels on each qubit
    count, where = {}, []
    for k in kinds:
        if k == "outcome":
            where.append(None)
        else:
            t = count.get(k[:2], 0)
            count[k[:2]] = t + 1
            where.append((k[0], k[1], t))
    require(all(c == code.n_rounds for c in count.values()), "rounds")
    ind = code.logical_ops_to_indices(logical)
    stabs = [pr.from_row(s) for s in code.stabilisers]
    logs = [pr.from_row(code.logical_ops[i]) for i in ind]
    rnd = random.Random(seed)

    def sample(assign):
        raw = np.array([value(o, assign) for o in out], dtype="u1")
        return MeasurementSample.from_code_and_raw_results(
            code, raw, logical_ancilla=ancilla)

    rand = sum(1 << i for i, w in enumerate(where) if w is None)
    errs = [i for i, w in enumerate(where) if w is not None]
    cases = [0, rand] + [rnd.getrandbits(len(where)) & rand for _ in range(samples)]
    cases += [(rnd.getrandbits(len(where)) & rand) | 1 << i for i in errs]
    # Y errors and arbitrary subsets
    for _ in range(samples):
        a = rnd.getrandbits(len(where))
        cases.append(a)
    dq = {v.equbit_idx: i for i, v in enumerate(lat.dataqubits)}
    for a in cases:
        s = sample(a)
        syn = [[0] * len(stabs) for _ in range(code.n_rounds)]
        flip = [0] * len(logs)
        for i in errs:
            if a >> i & 1:
                p, qb, t = where[i]
                op = pr.single(p, dq[qb])
                for j, st in enumerate(stabs):
                    syn[t][j] ^= pr.comm(op, st)
                for j, lo in enumerate(logs):
                    flip[j] ^= pr.comm(op, lo)
        what = [where[i] for i in errs if a >> i & 1] if bin(
            a & ~rand).count("1") < 4 else "several errors"
        require(np.asarray(s.syndrome).tolist() == syn,
                f"errors {what}: syndrome {s.syndrome.tolist()}, expected {syn}")
        require(np.asarray(s.logical_op_toggle).astype(int).tolist() == flip,
                f"errors {what}: flips {s.logical_op_toggle}, expected {flip}")


def c_device(code, logical, ancilla, backend, seed=0, error=None):
    """The same through a device."""
    code = build_code(code)
    circ = generate_qec_circuit(code, {}, {}, logical, logical_ancilla=ancilla)
    with use_rng(np_rng(seed)):
        dev = Device(backend)
        dev.run(circ)
        raw, er = dev.get_sample()
    s = MeasurementSample.from_code_and_raw_results(
        code, np.asarray(raw), logical_ancilla=ancilla)
    require(not np.any(s.syndrome), f"syndrome {s.syndrome}")
    require(not np.any(s.logical_op_toggle), f"flip {s.logical_op_toggle}")


CASES = {"effect": c_effect, "device": c_device}


def equal_weights(code, logical):
    ind = code.logical_ops_to_indices(logical)
    return len({len(code.lattice.logical_ops[i].edges) for i in ind}) <= 1


def run(ctx):
    r = ctx.rng
    for spec in SPECS:
        if isinstance(spec, list):
            spec = [*spec[:2], 2]
        code = build_code(spec)
        k = code.n_logical_qubits
        for s in (("X", "Z") if k == 1 else ("XX", "XZ", "ZX", "ZZ")):
            for anc in (False, True):
                ctx.run("effect", code=spec, logical=s, ancilla=anc,
                        seed=r.randrange(1 << 30))
                if code.n_ext_qubits < 20:
                    ctx.run("device", code=spec, logical=s, ancilla=anc,
                            backend="clifford", seed=r.randrange(1 << 30))
    for _ in range(ctx.n(150, 2000)):
        spec = random_spec(r)
        code = build_code(spec)
        lo = random_logical(r, code)
        # finding of P14: unequal weights of several logical operators
        anc = r.random() < 0.5 or not equal_weights(code, lo)
        ctx.run("effect", code=spec, logical=lo, ancilla=anc, seed=r.randrange(1 << 30))
        if code.n_ext_qubits < 12:
            ctx.run("device", code=spec, logical=lo, ancilla=anc, backend="clifford",
                    seed=r.randrange(1 << 30))
        if ctx.time_left() < 5:
            break
