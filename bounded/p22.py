"""P22: the verdict on a decoded sample is right."""
import warnings

import numpy as np
from plaquette.decoders.decoderbase import check_success

from bounded.p12 import build_code
from bounded.util import arr, sub_rng
from lib import pauliref as pr
from lib.bounded import rejects, require


def indices(spec, k):
    """Reference for the selection of logical operators (None if invalid)."""
    if spec is None:
        return list(range(2 * k))
    if isinstance(spec, str):
        if any(c not in "XZ" for c in spec):
            return None
        spec = [2 * i + (c == "Z") for i, c in enumerate(spec)]
    if len(spec) != k or any(not 0 <= i < 2 * k for i in spec):
        return None
    return list(spec)


def c_verdict(code, correction, toggle, logical, dtype="u1"):
    code = build_code(code)
    k = len(code.logical_ops) // 2
    ind = indices(logical, k)
    corr, tog = arr(correction), np.array(toggle, dtype=dtype)

    def verdict():
        return check_success(code, corr, tog, logical)
    if ind is None:
        rejects(verdict, f"logical operators {logical!r}")
        return
    if len(toggle) != len(ind):
        rejects(verdict, "wrong number of flips")
        return
    c = pr.from_row(corr)
    want = all(pr.comm(c, pr.from_row(code.logical_ops[i])) == t
               for i, t in zip(ind, toggle))
    got = verdict()
    require(bool(got) == want, f"verdict {got}, expected {want}")


def c_indices(code, logical):
    code = build_code(code)
    want = indices(logical, len(code.logical_ops) // 2)
    if want is None:
        rejects(lambda: code.logical_ops_to_indices(logical), f"{logical!r}")
    else:
        got = [int(i) for i in code.logical_ops_to_indices(logical)]
        require(got == want, f"{logical!r}: {got}, expected {want}")


class Stub:
    """Device and decoder handing out prepared samples."""
    _backend_name = "clifford"

    def __init__(self, samples):
        self.samples, self.pos, self.at = samples, -1, None

    def run(self, *a, **k):
        self.pos += 1
        self.at = self.samples[self.pos % len(self.samples)]

    def get_sample(self, *a, **k):
        return np.array(self.at[0], dtype="u1"), None

    def decode(self, erased, syndrome):
        require(np.array_equal(np.asarray(syndrome).astype(int), self.at[2]), "syndrome")
        return np.array(self.at[1], dtype="u1")


def c_rate(family, size, rounds, logical, shots, seed):
    from plaquette.circuit.generator import generate_qec_circuit
    from plaquette.frontend import ExperimentConfig

    r = sub_rng("p22", seed)
    names = {"planar": "PlanarCode", "rotated": "RotatedPlanarCode", "toric": "ToricCode",
             "repetition": "RepetitionCode"}
    conf = ExperimentConfig.from_dict({
        "code": {"name": names[family], "size": size, "rounds": rounds},
        "errors": {}, "device": {"name": "clifford", "shots": shots},
        "general": {"logical_op": logical, "qec_property": ["logical_error_rate"],
                    "seed": 1}})
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        conf.build()
    code = conf.code
    ind = indices(logical, len(code.logical_ops) // 2)
    n, m = code.n_data_qubits, code.n_stabgens
    samples, fails = [], 0
    for _ in range(shots):
        ini = [r.randrange(2) for _ in ind]
        fin = [r.randrange(2) for _ in ind]
        st = np.array([[r.randrange(2) for _ in range(m)] for _ in range(rounds + 1)])
        corr = [r.randrange(2) for _ in range(2 * n)] + [0]
        raw = [*ini, *st.ravel(), *fin]
        c = pr.from_row(corr)
        ok = all(pr.comm(c, pr.from_row(code.logical_ops[i])) == a ^ b
                 for i, a, b in zip(ind, ini, fin))
        if not ok and r.random() < .5:     # make successes common
            fin = [a ^ pr.comm(c, pr.from_row(code.logical_ops[i]))
                   for i, a in zip(ind, ini)]
            raw, ok = [*ini, *st.ravel(), *fin], True
        fails += not ok
        samples.append((raw, corr, st[1:] ^ st[:-1]))
    from plaquette.device import MeasurementSample
    circ = generate_qec_circuit(code, {}, {}, logical)
    with_anc = circ.number_measured_qubits == len(samples[0][0])
    if not with_anc:
        # the logical operators are measured on all of their qubits
        out = []
        for raw, corr, syn in samples:
            k = len(ind)
            new = []
            for part in (raw[:k], None, raw[-k:]):
                if part is None:
                    new += raw[k:-k]
                    continue
                for i, v in zip(ind, part):
                    w = len(code.lattice.logical_ops[i].edges)
                    b = [r.randrange(2) for _ in range(w - 1)]
                    new += b + [(v + sum(b)) % 2]
            out.append((new, corr, syn))
        samples = out
    conf._device = conf._decoder = Stub(samples)
    with open("/dev/null", "w") as null:
        import contextlib
        with contextlib.redirect_stderr(null):
            rate = conf.run()
    require(conf._device.pos + 1 == shots, f"{conf._device.pos + 1} runs for {shots} shots")
    require(abs(rate - fails / shots) < 1e-12, f"rate {rate}, {fails} of {shots} failed")


CASES = {"verdict": c_verdict, "indices": c_indices, "rate": c_rate}


def run(ctx):
    r = ctx.rng
    codes_ = [["planar", 2, 1], ["planar", 3, 1], ["toric", 2, 1], ["toric", 3, 2],
              ["rotated", 3, 1], ["rotated_xzzx", 3, 1], ["five", 0, 1], ["shor", 0, 1],
              ["repetition", 3, 1]]
    # codes with more logical qubits
    codes_.append({"stabs": ["1111" + "0000" + "0",
                                                        "0000" + "1111" + "0"],
                   "logs": ["110000000", "000010100", "101000000", "000011000"],
                   "rounds": 1})
    codes_.append({"stabs": ["0000001100" + "0"], "rounds": 1,
                   "logs": ["00100000000", "00000001000", "00010000000", "00000000100",
                            "00001000000", "00000000010", "11000000000", "00000100000"]})
    for i in range(ctx.n(300)):
        spec = r.choice(codes_)
        code = build_code(spec)
        n, k = code.n_data_qubits, len(code.logical_ops) // 2
        mode = r.randrange(6)
        if mode == 0:
            logical = None
        elif mode < 3:
            logical = "".join(r.choice("XZ") for _ in range(k))
        elif mode < 5:
            logical = [r.randrange(2 * k) for _ in range(k)]
        else:
            logical = r.choice(["", "Y" * k, "X" * (k + 1), "I" * k, "x" * k,
                                " " + "X" * k, "Z" * k + r.choice([" ", "\n"]),
                                "X" * (k - 1) + r.choice(" z0\t"), "X" * k + ",",
                                [2 * k] * k, [-1] * k, [0] * (k + 1), [],
                                [0] * (k - 1) + [2 * k], [0] * (k - 1) + [-1]])
        corr = [r.randrange(2) for _ in range(2 * n + 1)]
        ind = indices(logical, k)
        tog = [r.randrange(2) for _ in (ind if ind is not None else range(k))]
        if ind is not None and r.random() < .75:
            c = pr.from_row(corr)
            tog = [pr.comm(c, pr.from_row(code.logical_ops[j])) for j in ind]
            if tog and r.random() < .5:
                tog[r.randrange(len(tog))] ^= 1
        if r.random() < .05:
            tog = tog + [0]
        ctx.run("verdict", code=spec, correction="".join(map(str, corr)), toggle=tog,
                logical=logical, dtype=r.choice(["u1", "bool", "int64"]))
        if logical is not None:
            ctx.run("indices", code=spec, logical=logical)
    for i in range(ctx.n(12)):
        fam, d = r.choice([("planar", 2), ("rotated", 3), ("toric", 2), ("repetition", 3)])
        k = 2 if fam == "toric" else 1
        ctx.run("rate", family=fam, size=d, rounds=r.randrange(1, 3),
                logical="".join(r.choice("XZ") for _ in range(k)),
                shots=r.choice([1, 3, 7, 16]), seed=i)
