"""P20: the decoding graph matches the code and is partitioned consistently."""
import math
import warnings

import numpy as np
from plaquette import syngraph as sg

from bounded.p07 import make
from bounded.util import arr, sub_rng
from lib import pauliref as pr
from lib.bounded import rejects, require


def edge_key(e):
    return tuple(sorted(v.vertex_idx for v in e.vertices))


def check_graph(g, stabs, n, rounds, weights):
    """g against reference operators; weights: {name: list} or None."""
    m = len(stabs)
    require(len(g.vertices) == rounds * m, f"{len(g.vertices)} vertices")
    require(sorted((v.time_step, v.stabgen_idx) for v in g.vertices)
            == [(t, s) for t in range(rounds) for s in range(m)], "vertices")
    for i, v in enumerate(g.vertices):
        require(v.vertex_idx == i, "vertex index")
    at = {(v.time_step, v.stabgen_idx): v.vertex_idx for v in g.vertices}
    want = {}
    for t in range(rounds):
        for p in "XZ":
            for q in range(n):
                e = pr.single(p, q)
                want["q", t, p, q] = tuple(at[t, s] for s in range(m)
                                           if pr.comm(e, stabs[s]))
        if t:
            for s in range(m):
                want["m", t, s] = (at[t - 1, s], at[t, s])
    got = {}
    for i, e in enumerate(g.edges):
        require(e.edge_idx == i, "edge index")
        if isinstance(e, sg.QubitErrorEdge):
            k = ("q", e.time_step, e.pauli_str, int(np.asarray(e.qubit_idx).item()))
            err = pr.from_row(g.error_ops[e.error_op_idx])
            require(err == pr.single(k[2], k[3]), f"error operator of {k}")
        else:
            k = ("m", e.time_step, int(e.stabgen_idx))
        require(k not in got, f"edge {k} twice")
        got[k] = e
    require(set(got) == set(want),
            lambda: f"edges missing {set(want) - set(got)}, extra {set(got) - set(want)}")
    for k, e in got.items():
        require(edge_key(e) == tuple(sorted(want[k])),
                f"ends of {k}: {edge_key(e)}, expected {want[k]}")
        for v in e.vertices:
            require(any(x is e for x in v.all_edges), "edge missing at its vertex")
        w = math.nan if weights is None else \
            (weights["measurement"][k[2]] if k[0] == "m"
             else weights["pauli_" + k[2].lower()][k[3]])
        ew = float(np.asarray(e.weight).item())
        require(ew == w or (math.isnan(w) and math.isnan(ew)),
                f"weight of {k}: {ew}, expected {w}")
    for v in g.vertices:
        for e in v.all_edges:
            require(any(x is v for x in e.vertices), "vertex missing at its edge")
    # enabled edges
    groups = {}
    for e in g.edges:
        if e.vertices:
            groups.setdefault(edge_key(e), []).append(e)
            require(weights is None or not (e.enabled and np.isinf(e.weight)),
                    "infinite weight enabled")
    for k, es in groups.items():
        on = [e for e in es if e.enabled]
        finite = [e for e in es if not np.isinf(e.weight)]
        require(len(on) == (1 if finite else 0), f"{len(on)} enabled edges at {k}")
        if on and weights is not None:
            require(on[0].weight == min(e.weight for e in finite),
                    f"edge of weight {on[0].weight} kept at {k}")
    return got, groups


def check_components(g):
    parent = list(range(len(g.vertices)))

    def find(a):
        while parent[a] != a:
            a = parent[a]
        return a
    on = [e for e in g.edges if e.enabled and e.vertices]
    for e in on:
        for v in e.vertices[1:]:
            parent[find(v.vertex_idx)] = find(e.vertices[0].vertex_idx)
    seen_v, seen_e = [], []
    for c in g.components:
        vs, es = [int(i) for i in c.parent_vertex_idx], [int(i) for i in c.parent_edge_idx]
        seen_v += vs
        seen_e += es
        require(len(vs) == c.n_vertices and len(es) == len(c.edges), "sizes")
        require(len({find(v) for v in vs}) == 1, "vertices which are not connected")
        for i, e in zip(es, c.edges):
            require([vs[a] for a in e] == [v.vertex_idx for v in g.edges[i].vertices],
                    "ends of an edge inside of its component")
        require(bool(c.has_dangling_edges)
                == any(len(g.edges[i].vertices) == 1 for i in es), "dangling edges")
        require(any(c is d for d in g.components_with_edges) == bool(es),
                "components with edges")
    require(len(g.components) == len({find(v) for v in range(len(g.vertices))}),
            "number of components")
    require(len(g.components_with_edges) == sum(len(c.edges) > 0 for c in g.components),
            "components with edges")
    require(sorted(seen_v) == list(range(len(g.vertices))), "vertices of components")
    require(sorted(seen_e) == sorted(e.edge_idx for e in on), "edges of components")


def check_data(g, stabs, n, rounds, groups, r):
    m = len(stabs)
    for kind in ("bool", "u1", None, "bool"):
        syn = np.array([[r.random() < .4 for _ in range(m)] for _ in range(rounds)])
        er = np.array([[r.random() < .3 for _ in range(n)] for _ in range(rounds)])
        g.set_syndrome(None if kind is None else syn.astype(kind))
        g.set_erasure(None if kind is None else er.astype(kind))
        if kind is None:
            syn[:], er[:] = False, False
        for c in g.components:
            for i, v in enumerate(c.parent_vertex_idx):
                v = g.vertices[v]
                require(bool(c.syndrome[i]) == bool(syn[v.time_step, v.stabgen_idx]),
                        "syndrome bit of a component")
        for c in g.components_with_edges:
            for i, k in enumerate(c.parent_edge_idx):
                e = g.edges[k]
                par = [bool(er[f.time_step, f.qubit_idx]) for f in groups[edge_key(e)]
                       if isinstance(f, sg.QubitErrorEdge)]
                own = isinstance(e, sg.QubitErrorEdge) and bool(
                    er[e.time_step, e.qubit_idx])
                flag = bool(c.edge_erased[i])
                require(flag or not own, "erasure not handed on")
                require(any(par) or not flag, "edge erased without erasure")
                w, ew = float(c.edge_weights[i]), float(np.asarray(e.weight).item())
                require(w == ew or math.isnan(w) and math.isnan(ew), "component weight")
        # results
        total = (0, 0, 0)
        chosen = np.zeros(len(g.edges), dtype=bool)
        res = []
        for c in g.components_with_edges:
            x = np.array([r.random() < .3 for _ in c.edges], dtype=bool)
            res.append(x)
            c.set_edge_decoder_results(x)
            for i, k in enumerate(c.parent_edge_idx):
                chosen[k] = x[i]
        for e in g.edges:
            if chosen[e.edge_idx] and isinstance(e, sg.QubitErrorEdge):
                total = pr.mul(total, pr.from_row(g.error_ops[e.error_op_idx]))
        require(np.array_equal(g.combine_decoding_results(res), chosen), "combined result")
        g.update_decoder_results()
        frame = pr.from_row(g.result_as_pauli_frame())
        require(frame[:2] == total[:2],
                lambda: f"Pauli frame {frame[:2]}, expected {total[:2]}")


def c_graph(stabs, rounds, weights, seed):
    n = len(stabs[0]) // 2
    ref = [pr.from_row([int(c) for c in s]) for s in stabs]
    flips = [sum(pr.comm(pr.single(p, q), s) for s in ref) for p in "XZ"
             for q in range(n)]
    w = weights and {k: np.array(v, dtype=float) for k, v in weights.items()}

    def build():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return sg.SyndromeGraph(rounds, arr(stabs), w)
    if max(flips) > 2:
        rejects(build, "an error flipping more than two stabilisers")
        return
    g = build()
    _, groups = check_graph(g, ref, n, rounds, weights)
    check_components(g)
    check_data(g, ref, n, rounds, groups, sub_rng("p20", seed))


def c_manager(family, size, rounds, errors, weighted, seed):
    """errors: None or [[dict for data k], [p for stabiliser k]]."""
    code = make(family, size, rounds)
    lat = code.lattice
    ed = wts = None
    if errors is not None:
        ed = {"pauli": {v.equbit_idx: dict(c) for v, c in zip(lat.dataqubits, errors[0])},
              "measurement": {v.equbit_idx: {"p": p}
                              for v, p in zip(lat.stabgens, errors[1])}}
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        m = sg.SyndromeGraphManager(code, ed, weighted=weighted)
    g = m.sgraph
    ref = [pr.from_row(s) for s in code.stabilisers]
    if errors is not None and weighted is not False:
        def lo(p):
            return math.inf if p == 0 else -math.log(p / (1 - p))
        wts = {"pauli_x": [lo(c.get("x", 0) + c.get("y", 0)) for c in errors[0]],
               "pauli_z": [lo(c.get("z", 0) + c.get("y", 0)) for c in errors[0]],
               "measurement": [lo(p) for p in errors[1]]}
        for e in g.edges:   # equal up to rounding
            k = wts["measurement"][e.stabgen_idx] \
                if isinstance(e, sg.StabilizerErrorEdge) else \
                wts["pauli_" + e.pauli_str.lower()][int(np.asarray(e.qubit_idx).item())]
            ew = float(np.asarray(e.weight).item())
            require(ew == k or abs(ew - k) < 1e-7, f"weight {ew}, expected {k}")
        wts = {"pauli_x": [0] * code.n_data_qubits, "pauli_z": [0] * code.n_data_qubits,
               "measurement": [0] * code.n_stabgens}
        for e in g.edges:
            ew = float(np.asarray(e.weight).item())
            if isinstance(e, sg.StabilizerErrorEdge):
                wts["measurement"][e.stabgen_idx] = ew
            else:
                wts["pauli_" + e.pauli_str.lower()][
                    int(np.asarray(e.qubit_idx).item())] = ew
    _, groups = check_graph(g, ref, code.n_data_qubits, rounds, wts)
    check_components(g)
    check_data(g, ref, code.n_data_qubits, rounds, groups, sub_rng("p20m", seed))


CASES = {"graph": c_graph, "manager": c_manager}


def random_stabs(r, bad=False):
    """Columns with at most two flips (more if bad)."""
    n, m = r.randrange(1, 6), r.randrange(1, 6)
    rows = [[0] * (2 * n + 1) for _ in range(m)]
    for c in range(2 * n):
        k = r.choice([0, 1, 1, 2, 2, 2])
        for s in r.sample(range(m), min(k, m)):
            rows[s][c] = 1
        if c and r.random() < .25:        # parallel edges
            for row in rows:
                row[c] = row[c - 1]
    if bad and m > 2:
        c = r.randrange(2 * n)
        for s in r.sample(range(m), 3):
            rows[s][c] = 1
    for row in rows:
        row[-1] = r.randrange(2)
        if not any(row[:-1]):
            c = r.randrange(2 * n)
            if sum(q[c] for q in rows) < 2:
                row[c] = 1
    return ["".join(map(str, q)) for q in rows]


def weight(r):
    return r.choice([1.0, 2.0, 0.5, math.inf, r.random() * 5, 1.0, r.random() * 20, 3.25,
                     -1.0, -2.0, -5 * r.random()])


def run(ctx):
    r = ctx.rng
    for i in range(ctx.n(250)):
        st = random_stabs(r, r.random() < .1)
        n, m = len(st[0]) // 2, len(st)
        w = None if r.random() < .3 else {
            "pauli_x": [weight(r) for _ in range(n)],
            "pauli_z": [weight(r) for _ in range(n)],
            "measurement": [weight(r) for _ in range(m)]}
        ctx.run("graph", stabs=st, rounds=r.randrange(1, 4), weights=w, seed=i)
    for i in range(ctx.n(40)):
        fam, d = r.choice([("repetition", 5), ("planar", 3), ("rotated", 3), ("toric", 2),
                           ("toric", 3), ("shor", 0), ("rotated_xzzx", 3)])
        code = make(fam, d)
        err = None
        if r.random() < .8:
            err = [[{c: r.choice([0.0, 0.01, r.random() / 7]) for c in "xyz"}
                    for _ in range(code.n_data_qubits)],
                   [r.choice([0.0, 0.01, r.random() / 2]) for _ in range(code.n_stabgens)]]
        ctx.run("manager", family=fam, size=d, rounds=r.randrange(1, 4), errors=err,
                weighted=r.choice([None, None, False]) if err else None, seed=i)
