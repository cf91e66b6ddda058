"""P21: every decoder returns a correction that explains the syndrome."""
import math
import warnings

import numpy as np
from plaquette import decoders as pd
from plaquette import syngraph as sg

from bounded.p12 import build_code
from bounded.util import sub_rng
from lib import pauliref as pr
from lib.bounded import rejects, require

NAMES = ["PyMatchingDecoder", "UnionFindDecoder", "UnionFindNoWeights",
         "FusionBlossomDecoder"]


def quiet(fn):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        return fn()


def error_data(code, errors):
    if errors is None:
        return None
    lat, ed = code.lattice, {}
    for kind, entries in errors.items():
        vs = lat.stabgens if kind == "measurement" else lat.dataqubits
        ed[kind] = {vs[k].equbit_idx: dict(v) for k, v in entries}
    return ed


class Model:
    """The error patterns of the code, from its operators (nothing of syngraph)."""

    def __init__(self, code, weights):
        self.code, self.n, self.m = code, code.n_data_qubits, code.n_stabgens
        self.rounds = code.n_rounds
        self.stabs = [pr.from_row(s) for s in code.stabilisers]
        self.edges = []
        for t in range(self.rounds):
            for p in "XZ":
                for q in range(self.n):
                    w = 1.0 if weights is None else weights["pauli_" + p.lower()][q]
                    e = pr.single(p, q)
                    self.edges.append((("q", t, p, q), frozenset(
                        (t, s) for s in range(self.m) if pr.comm(e, self.stabs[s])), w))
            if t:
                for s in range(self.m):
                    w = 1.0 if weights is None else weights["measurement"][s]
                    self.edges.append((("m", t, s), frozenset([(t - 1, s), (t, s)]), w))

    def syndrome(self, chosen):
        s = np.zeros((self.rounds, self.m), dtype=bool)
        for k, ends, _ in self.edges:
            if k in chosen:
                for e in ends:
                    s[e] ^= True
        return s

    def possible(self, syn):
        parent = {(t, s): (t, s) for t in range(self.rounds) for s in range(self.m)}

        def find(a):
            while parent[a] != a:
                a = parent[a]
            return a
        open_ = set()
        for _, ends, w in self.edges:
            ends = list(ends)
            if math.isinf(w) or not ends:
                continue
            if len(ends) == 1:
                open_.add(ends[0])
            else:
                parent[find(ends[0])] = find(ends[1])
        roots = {find(v) for v in open_}
        par = {}
        for v in parent:
            par[find(v)] = par.get(find(v), 0) ^ int(syn[v])
        return all(not b or v in roots for v, b in par.items())

    def least(self, syn):
        """Least total weight of an explanation (None if too large)."""
        k = self.rounds * self.m
        if k > 10:
            return None
        cost = np.full(2 ** k, np.inf)
        cost[0] = 0
        idx = np.arange(2 ** k)
        for _, ends, w in self.edges:
            if not math.isinf(w) and ends:
                mask = sum(1 << (t * self.m + s) for t, s in ends)
                cost = np.minimum(cost, cost[idx ^ mask] + w)
        return cost[sum(1 << (t * self.m + s) for t in range(self.rounds)
                        for s in range(self.m) if syn[t, s])]


def chosen_edges(dec):
    out = []
    for e in dec.synmgr.sgraph.edges:
        if e.decoder_result:
            if isinstance(e, sg.QubitErrorEdge):
                out.append(("q", e.time_step, e.pauli_str,
                            int(np.asarray(e.qubit_idx).item())))
            else:
                out.append(("m", e.time_step, int(e.stabgen_idx)))
    return out


def check_correction(mod, dec, corr, syn, finite=True):
    sel = chosen_edges(dec)
    got = mod.syndrome(set(sel))
    require(np.array_equal(got, syn),
            lambda: f"syndrome of the correction {got.astype(int).tolist()}, "
                    f"expected {syn.astype(int).tolist()}")
    c = pr.from_row(corr)
    for s in range(mod.m):
        require(pr.comm(c, mod.stabs[s]) == int(syn[:, s].sum() % 2),
                f"the Pauli correction does not undo stabiliser {s}")
    if finite:
        w = {k: w for k, _, w in mod.edges}
        require(not any(math.isinf(w[k]) for k in sel), "impossible error selected")
    return sel


def log_odds(p):
    return math.inf if p <= 0 else -math.log(p / (1 - p))


def weights_of(code, errors, weights):
    """What from_code documents: default 1e-15 for Pauli errors without a value."""
    if weights is not None:
        return weights
    errors = errors or {}
    pauli = dict((k, v) for k, v in errors.get("pauli", []))
    px, pz = [], []
    for q in range(code.n_data_qubits):
        ch = {c: (pauli.get(q, {}).get(c, 0) or 1e-15) for c in "xyz"}
        px.append(log_odds(ch["x"] + ch["y"]))
        pz.append(log_odds(ch["z"] + ch["y"]))
    pm = [0.0] * code.n_stabgens
    for k, v in errors.get("measurement", []):
        pm[k] = v.get("p", 0.0)
    return {"pauli_x": px, "pauli_z": pz, "measurement": [log_odds(p) for p in pm]}


def get(name, code, errors, weights):
    w = weights and {k: np.array(v, dtype=float) for k, v in weights.items()}
    kw = {"weights": w} if w is not None else {}
    if name == "UnionFindNoWeights":
        kw = {"weighted": False}
        return quiet(lambda: getattr(pd, name).from_code(code, None, **kw))
    return quiet(lambda: getattr(pd, name).from_code(code, error_data(code, errors), **kw))


def c_decode(code, decoder, errors, weights, seed, shots=6):
    """A history of samples; each result is checked and equal to a fresh decoder's."""
    code = build_code(code)
    r = sub_rng("p21", seed)
    mod = Model(code, None if decoder == "UnionFindNoWeights"
                else weights_of(code, errors, weights))
    dec = get(decoder, code, errors, weights)
    for shot in range(shots):
        pool = [k for k, _, w in mod.edges if not math.isinf(w)]
        if shot and r.random() < .25:
            syn = np.array([[r.random() < .4 for _ in range(mod.m)]
                            for _ in range(mod.rounds)], dtype=bool)
        else:
            syn = mod.syndrome({k for k in pool if r.random() < r.choice([.05, .2])})
        arg = syn.astype(r.choice(["u1", "bool"]))
        keep = arg.copy()
        er = r.choice([None, np.zeros((mod.rounds, mod.n), dtype=bool)])
        if not mod.possible(syn):
            rejects(lambda: quiet(lambda: dec.decode(er, arg)), "impossible syndrome")
            continue
        corr = quiet(lambda: dec.decode(er, arg))
        require(np.array_equal(arg, keep), "the syndrome was modified")
        sel = check_correction(mod, dec, corr, syn)
        fresh = get(decoder, code, errors, weights)
        corr2 = quiet(lambda: fresh.decode(er, arg))
        require(np.array_equal(corr, corr2) and sorted(chosen_edges(fresh)) == sorted(sel),
                "the result depends on earlier samples")
        if decoder in ("PyMatchingDecoder", "FusionBlossomDecoder"):
            least = mod.least(syn)
            if least is not None:
                ws = {k: w for k, _, w in mod.edges}
                top = max([w for w in ws.values() if not math.isinf(w)] + [0])
                got = sum(ws[k] for k in sel)
                tol = 1e-2 * top if decoder[0] == "P" else 0.03 * top * (len(ws) + 1)
                require(got <= least + tol, f"total weight {got}, least possible {least}")


def c_erasure(code, decoder, errors, seed, shots=4):
    """Erasures which explain the syndrome: the correction stays on erased qubits."""
    code = build_code(code)
    r = sub_rng("p21e", seed)
    mod = Model(code, None if decoder == "UnionFindNoWeights"
                else weights_of(code, errors, None))
    dec = get(decoder, code, errors, None)
    g = dec.synmgr.sgraph
    for _ in range(shots):
        er = np.array([[r.random() < r.choice([.1, .3]) for _ in range(mod.n)]
                       for _ in range(mod.rounds)], dtype=bool)
        usable = set()
        for e in g.edges:
            if isinstance(e, sg.QubitErrorEdge) and e.enabled:
                q = int(np.asarray(e.qubit_idx).item())
                if er[e.time_step, q]:
                    usable.add(("q", e.time_step, e.pauli_str, q))
        ends = {k: x for k, x, _ in mod.edges}
        usable_ends = {ends[k] for k in usable}
        syn = mod.syndrome({k for k in usable if r.random() < .5})
        corr = quiet(lambda: dec.decode(er.astype(r.choice(["u1", "bool"])), syn))
        for k in check_correction(mod, dec, corr, syn):
            require(k[0] == "q" and (er[k[1], k[3]] or ends[k] in usable_ends),
                    f"error {k} is not on an erased qubit")
        # an erasure does not have to explain the syndrome
        pool = [k for k, _, w in mod.edges if not math.isinf(w)]
        syn = mod.syndrome({k for k in pool if r.random() < .1})
        corr = quiet(lambda: dec.decode(er, syn))
        check_correction(mod, dec, corr, syn)


def c_impossible(code, decoder, seed):
    """Odd numbers of defects on a code without a boundary."""
    code = build_code(code)
    r = sub_rng("p21i", seed)
    mod = Model(code, None)
    dec = get(decoder, code, None, None) if decoder == "UnionFindNoWeights" else \
        get(decoder, code, None, {"pauli_x": [1.0] * mod.n, "pauli_z": [1.0] * mod.n,
                                  "measurement": [1.0] * mod.m})
    for _ in range(4):
        syn = np.zeros((mod.rounds, mod.m), dtype=bool)
        cells = [(t, s) for t in range(mod.rounds) for s in range(mod.m)]
        for t, s in r.sample(cells, r.randrange(0, len(cells) + 1)):
            syn[t, s] = True
        if mod.possible(syn):
            check_correction(mod, dec, quiet(lambda: dec.decode(None, syn)), syn)
        else:
            rejects(lambda: quiet(lambda: dec.decode(None, syn)), "impossible syndrome")


def c_lightest(size, side, decoder, via_errors):
    """One light dangling edge next to the only defect of a repetition code."""
    code = build_code(["repetition", size, 1])
    n, m = code.n_data_qubits, code.n_stabgens
    mod = Model(code, None)
    # the stabilisers' neighbours, from the operators
    dang = [(k, next(iter(x))) for k, x, _ in mod.edges if len(x) == 1]
    (key, v) = sorted(dang)[side]
    heavy, light = 0.01, 0.2
    p = [heavy] * n
    p[key[3]] = light
    x = {"pauli_x": [log_odds(a) for a in p], "pauli_z": [log_odds(a) for a in p],
         "measurement": [1.0] * m}
    errors = {"pauli": [[q, {"x" if key[2] == "X" else "z": p[q], "y": 0.0}]
                        for q in range(n)]}
    dec = get(decoder, code, errors if via_errors else None, None if via_errors else x)
    syn = np.zeros((1, m), dtype=bool)
    syn[v] = True
    quiet(lambda: dec.decode(None, syn))
    require(chosen_edges(dec) == [key], f"selected {chosen_edges(dec)}, weight "
            f"of {key} is by far the least")


def c_no_errordata(code, weights):
    for name in ("PyMatchingDecoder", "UnionFindDecoder", "FusionBlossomDecoder"):
        c = build_code(code)
        dec = get(name, c, None, weights)
        for e in dec.synmgr.sgraph.edges:
            if isinstance(e, sg.QubitErrorEdge):
                w = weights["pauli_" + e.pauli_str.lower()][
                    int(np.asarray(e.qubit_idx).item())]
            else:
                w = weights["measurement"][e.stabgen_idx]
            require(float(np.asarray(e.weight).item()) == w, f"{name}: weight")


def c_known_duplicate():
    """Erased qubits whose edge is a disabled duplicate (rotated planar code)."""
    code = build_code(["rotated", 3, 1])
    for q in range(code.n_data_qubits):
        for p in "XZ":
            mod = Model(code, None)
            dec = get("UnionFindNoWeights", code, None, None)
            er = np.zeros((1, mod.n), dtype=bool)
            er[0, q] = True
            syn = mod.syndrome({("q", 0, p, q)})
            corr = quiet(lambda: dec.decode(er, syn))
            for k in check_correction(mod, dec, corr, syn):
                require(er[k[1], k[3]], f"{p} on erased qubit {q}: corrected by {k}")


def c_isolated(code, decoder, cut, seed):
    """Impossible errors around some stabilisers: defects on those are rejected."""
    code = build_code(code)
    r = sub_rng("p21c", seed)
    mod = Model(code, None)
    inf = {(k[2], k[3]) for k, x, _ in mod.edges
           if k[0] == "q" and any(s in cut for _, s in x)}
    w = {"pauli_" + p.lower(): [math.inf if (p, q) in inf else 1.0 for q in range(mod.n)]
         for p in "XZ"}
    w["measurement"] = [math.inf if s in cut else 1.0 for s in range(mod.m)]
    dec = get(decoder, code, None, w)
    mod = Model(code, w)
    for shot in range(4):
        syn = mod.syndrome({k for k, _, v in mod.edges
                            if not math.isinf(v) and r.random() < .2})
        if shot % 2:
            syn[r.randrange(mod.rounds), r.choice(cut)] ^= True
        if not mod.possible(syn):
            rejects(lambda: quiet(lambda: dec.decode(None, syn)), "impossible syndrome")
        else:
            corr = quiet(lambda: dec.decode(None, syn))
            check_correction(mod, dec, corr, syn)


CASES = {"isolated": c_isolated, "decode": c_decode, "erasure": c_erasure, "lightest": c_lightest,
         "impossible": c_impossible,
         "weights": c_no_errordata, "known_duplicate": c_known_duplicate}
KNOWN = {"P21-erased-duplicate": ("known_duplicate", {})}

CODES = [("repetition", 3), ("repetition", 5), ("planar", 2), ("planar", 3),
         ("rotated", 3), ("rotated_xzzx", 3), ("toric", 2), ("toric", 3), ("shor", 0),
         ("planar", 4), ("rotated", 5)]


def random_errors(r, code, spread=True):
    e = {}
    n, m = code.n_data_qubits, code.n_stabgens

    def p():
        return r.choice([0.1, 0.05, 0.02, r.random() / 4 + 1e-3]) if spread else \
            r.choice([0.1, 0.05, 0.15])
    if r.random() < .85:
        full = r.random() < .7
        e["pauli"] = [[q, {c: p() for c in "xyz" if full or r.random() < .6}]
                      for q in range(n) if full or r.random() < .8]
    if r.random() < .7:
        full = r.random() < .7
        e["measurement"] = [[s, {"p": p()}] for s in range(m)
                            if full or r.random() < .6]
    return e


def run(ctx):
    r = ctx.rng
    for i in range(ctx.n(110)):
        spec = list(r.choice(CODES[:8] if r.random() < .7 else CODES))
        spec.append(r.randrange(1, 4) if spec[1] < 4 else r.randrange(1, 3))
        code = build_code(spec)
        name = NAMES[i % 4]
        errors, weights = random_errors(r, code), None
        if name == "UnionFindNoWeights":
            errors = None
        elif r.random() < .3:
            errors = None
            weights = {k: [r.choice([1.0, 2.0, r.random() * 4 + .2])
                           for _ in range(code.n_stabgens if k == "measurement"
                                          else code.n_data_qubits)]
                       for k in ("pauli_x", "pauli_z", "measurement")}
        ctx.run("decode", code=spec, decoder=name, errors=errors, weights=weights, seed=i)
    for i in range(ctx.n(60)):
        spec = list(r.choice(CODES[:10])) + [r.randrange(1, 3)]
        name = NAMES[1:][i % 3]
        code = build_code(spec)
        errors = None if name == "UnionFindNoWeights" else {
            "pauli": [[q, {c: r.choice([.1, .05, .15]) for c in "xyz"}]
                      for q in range(code.n_data_qubits)],
            "measurement": [[s, {"p": r.choice([.1, .05])}]
                            for s in range(code.n_stabgens)]}
        ctx.run("erasure", code=spec, decoder=name, errors=errors, seed=i)
    for i in range(ctx.n(40)):
        ctx.run("impossible", code=["toric", r.choice([2, 3]), r.randrange(1, 3)],
                decoder=NAMES[i % 4], seed=i)
    for i in range(ctx.n(18)):
        spec = [*r.choice(CODES[:6]), r.randrange(1, 3)]
        ctx.run("isolated", code=spec, decoder=[
            "PyMatchingDecoder", "UnionFindDecoder", "FusionBlossomDecoder"][i % 3],
                cut=r.sample(range(build_code(spec).n_stabgens), 1), seed=i)
    for size in (3, 5, 7):
        for side in (0, 1):
            for name in ("PyMatchingDecoder", "UnionFindDecoder", "FusionBlossomDecoder"):
                for via in (False, True):
                    ctx.run("lightest", size=size, side=side, decoder=name,
                            via_errors=via)
    for fam, d in CODES[:8]:
        code = build_code([fam, d, 2])
        ctx.run("weights", code=[fam, d, 2], weights={
            k: [r.choice([1.0, 2.0, r.random() * 4 + .2])
                for _ in range(code.n_stabgens if k == "measurement"
                               else code.n_data_qubits)]
            for k in ("pauli_x", "pauli_z", "measurement")})
