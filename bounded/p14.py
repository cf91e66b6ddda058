"""P14: raw measurement records are unpacked into the right syndrome."""
import numpy as np
from plaquette.circuit.generator import generate_qec_circuit
from plaquette.device import MeasurementSample

from bounded.p12 import build_code, random_logical, random_spec
from bounded.util import sub_rng
from lib.bounded import rejects, require


def c_unpack(code, logical, ancilla, erasure, seed=0, dtype="u1", known=False):
    code = build_code(code)
    r = sub_rng("p14", seed)
    lat = code.lattice
    ind = code.logical_ops_to_indices(logical)
    er = {"erasure": {v.equbit_idx: {"p": 0.1} for v in lat.dataqubits}}
    circ = generate_qec_circuit(code, er if erasure else {}, {}, logical,
                                logical_ancilla=ancilla)
    raw, where = [], []
    ops = [lat.logical_ops[i] for i in ind]
    want_stab = np.zeros((code.n_rounds + 1, code.n_stabgens), dtype=int)
    want_log = np.zeros((2, len(ops)), dtype=int)
    # walk through the circuit: which outcome belongs to what
    stab = {v.equbit_idx: i for i, v in enumerate(lat.stabgens)}
    plan = []

    def logicals(when):
        for k, op in enumerate(ops):
            left = [op.equbit_idx] if ancilla else [e.data.equbit_idx for e in op.edges]
            plan.append((("log", when, k), set(left)))

    logicals(0)
    for t in range(code.n_rounds + 1):
        for q, i in stab.items():
            plan.append((("stab", t, i), {q}))
    logicals(1)
    plan = iter(plan)
    cur, left = None, set()
    for name, args in circ.gates:
        if name != "M":
            continue
        for q in args:
            if not left:
                cur, left = next(plan)
            left.remove(q)
            b = r.randrange(2)
            raw.append(b)
            where.append(cur)
            if cur[0] == "stab":
                want_stab[cur[1], cur[2]] ^= b
            else:
                want_log[cur[1], cur[2]] ^= b
    require(not left and next(plan, None) is None, "structure of the circuit")
    flags = [r.randrange(2) for n, _ in circ.gates if n == "E_ERASE"]
    e = np.array(flags, dtype=bool) if erasure else None
    s = MeasurementSample.from_code_and_raw_results(
        code, np.array(raw, dtype=dtype), erasure=e, logical_ancilla=ancilla)
    same = lambda a, b: np.array_equal(np.asarray(a).astype(int), b)
    require(same(s.stabilizer_gen, want_stab), "stabiliser values")
    require(same(s.syndrome, want_stab[1:] ^ want_stab[:-1]), "syndrome")
    require(same(s.logical_op_initial, want_log[0]),
            f"initial values {s.logical_op_initial}, expected {want_log[0]}")
    require(same(s.logical_op_final, want_log[1]),
            f"final values {s.logical_op_final}, expected {want_log[1]}")
    require(same(s.logical_op_toggle, want_log[0] ^ want_log[1]), "flips")
    if not erasure:
        require(s.erased_qubits is None, "erasures without erasure information")
        return
    n = code.n_data_qubits
    got = np.asarray(s.erased_qubits)
    want = [[bool(flags[t * n + j]) for j in range(n)] for t in range(code.n_rounds)]
    require(got.astype(bool).tolist() == want, "erasure flags")


def c_bad_erasure(code, logical, delta):
    code = build_code(code)
    circ = generate_qec_circuit(code, {}, {}, logical)
    raw = np.zeros(circ.number_measured_qubits, dtype="u1")
    n = code.n_rounds * code.n_data_qubits + delta
    rejects(lambda: MeasurementSample.from_code_and_raw_results(
        code, raw, erasure=np.zeros(n, dtype=bool)), "wrong number of flags")


KNOWN_CODE = {"stabs": ["0000" "1100" "0"], "logs": ["1100" "0000" "0", "0000" "1000" "0",
                                                     "0010" "0000" "0", "0000" "0010" "0"],
              "rounds": 1}


def c_known_weights():
    for s in range(20):
        c_unpack(KNOWN_CODE, "XX", False, False, seed=s)


CASES = {"unpack": c_unpack, "bad_erasure": c_bad_erasure,
         "known_weights": c_known_weights}
KNOWN = {"P14-unequal-weights": ("known_weights", {})}


def run(ctx):
    from bounded.p13 import equal_weights

    r = ctx.rng
    for d in (-1, 1, 3):
        ctx.run("bad_erasure", code=["planar", 2, 2], logical="X", delta=d)
    for _ in range(ctx.n(500, 6000)):
        spec = random_spec(r)
        code = build_code(spec)
        lo = random_logical(r, code)
        anc = r.random() < 0.5 or not equal_weights(code, lo)
        ctx.run("unpack", code=spec, logical=lo, ancilla=anc, erasure=r.random() < 0.5,
                seed=r.randrange(1 << 30), dtype=r.choice(["u1", "int64", "u1"]))
        if ctx.time_left() < 5:
            break
