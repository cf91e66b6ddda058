"""P19: edge weights are the log-odds of the error probabilities."""
import math
import warnings

import numpy as np
from plaquette.syngraph import weights as W

from bounded.p07 import make
from lib.bounded import rejects, require


def odd(*ps):
    """Probability that an odd number of independent events happens."""
    r = 0.0
    for p in ps:
        r = r * (1 - p) + p * (1 - r)
    return r


def close(a, b):
    a, b = float(a), float(b)
    return a == b or abs(a - b) <= 1e-7 * max(1e-300, abs(a), abs(b)) or \
        abs(a - b) < 1e-18


def c_weights(family, size, pauli, meas, erasure=None, use_erasure=False):
    """pauli: [[k, {..}]] with k a data index; meas: [[stab index, p]]; ..."""
    code = make(family, size)
    lat = code.lattice
    n, m = code.n_data_qubits, code.n_stabgens
    ed = {}
    px, pz, pm = [[] for _ in range(n)], [[] for _ in range(n)], [0.0] * m
    if pauli is not None:
        ed["pauli"] = {}
        for k, ch in pauli:
            ed["pauli"][lat.dataqubits[k].equbit_idx] = dict(ch)
            x, y, z = (ch.get(c, 0.0) for c in "xyz")
            px[k].append(x + y)
            pz[k].append(y + z)
    if meas is not None:
        ed["measurement"] = {}
        for k, p in meas:
            ed["measurement"][lat.stabgens[k].equbit_idx] = {} if p is None else {"p": p}
            pm[k] = p or 0.0
    if erasure is not None:
        ed["erasure"] = {}
        for k, p in erasure:
            ed["erasure"][lat.dataqubits[k].equbit_idx] = {"p": p}
            if use_erasure:
                px[k].append(p / 2)
                pz[k].append(p / 2)
    cls = W.WeightComputation
    if use_erasure:
        cls = type("WithErasures", (cls,), {"erasure_weights": True})
    comp = cls(code, ed)
    prob = comp.get_edge_probab()
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        wts = comp.get_edge_weights()
    require(set(prob) == set(wts) == {"pauli_x", "pauli_z", "measurement"}, "keys")
    for name, want in (("pauli_x", [odd(*p) for p in px]),
                       ("pauli_z", [odd(*p) for p in pz]), ("measurement", pm)):
        require(len(prob[name]) == len(wts[name]) == len(want), f"{name}: length")
        for i, p in enumerate(want):
            require(close(prob[name][i], p), f"{name}[{i}]: probability "
                    f"{prob[name][i]}, expected {p}")
            w = (math.inf if p == 0 else -math.inf if p == 1
                 else -math.log(p / (1 - p)))
            require(close(wts[name][i], w), f"{name}[{i}]: weight {wts[name][i]}, "
                    f"expected {w}")


def c_unknown(family, size, kind):
    code = make(family, size)
    rejects(lambda: W.WeightComputation(code, {kind: {0: {"p": 0.1}}}), kind)


CASES = {"weights": c_weights, "unknown": c_unknown}


def prob(r):
    return r.choice([0.0, 1e-12, 1e-15, 0.5, r.random(), r.random() / 10, r.random() / 3])


def channel(r):
    ch = {}
    left = 1.0
    for c in r.sample("xyz", r.randrange(4)):
        p = min(prob(r), left * 0.9)
        left -= p
        ch[c] = p
    return ch


def run(ctx):
    r = ctx.rng
    fams = [("repetition", 5), ("planar", 2), ("planar", 3), ("rotated", 3), ("toric", 2),
            ("shor", 0), ("five", 0), ("rotated_xzzx", 3)]
    for _ in range(ctx.n(150)):
        fam, d = r.choice(fams)
        code = make(fam, d)
        n, m = code.n_data_qubits, code.n_stabgens

        def subset(k):
            return r.sample(range(k), r.choice([k, k, r.randrange(k + 1)]))
        pauli = [[k, channel(r)] for k in subset(n)] if r.random() < .85 else None
        meas = [[k, prob(r) if r.random() < .9 else None] for k in subset(m)] if r.random() < .8 else None
        er = [[k, prob(r)] for k in subset(n)] if r.random() < .6 else None
        ctx.run("weights", family=fam, size=d, pauli=pauli, meas=meas, erasure=er,
                use_erasure=r.random() < 0.5)
    for kind in ("fabrication", "X", "bogus"):
        ctx.run("unknown", family="planar", size=2, kind=kind)
