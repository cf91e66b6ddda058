"""P08: code operators mirror the lattice graph, custom codes survive."""
import numpy as np
from plaquette.codes import LatticeCode, StabilizerCode
from plaquette.codes import latticebase as lb

from bounded.p07 import make
from bounded.util import arr, bits
from lib import pauliref as pr
from lib.bounded import rejects, require


def check_graph(lat):
    """Both ends of every link are consistent, no dangling vertex."""
    for lst in (lat.vertices, lat.edges, lat.dataqubits, lat.stabgens, lat.logical_ops):
        require(len({id(v) for v in lst}) == len(lst), "entry listed twice")
    vs = {id(v) for v in lat.vertices}
    parts = [id(v) for v in (*lat.dataqubits, *lat.stabgens, *lat.logical_ops)]
    require(sorted(parts) == sorted(vs), "vertex lists disagree")
    es = {id(e) for e in lat.edges}
    for e in lat.edges:
        require(id(e.data) in vs and id(e.op) in vs, "link to a removed vertex")
        require(sum(f is e for f in e.data.edges) == 1, "link missing at the data end")
        require(sum(f is e for f in e.op.edges) == 1, "link missing at the other end")
    for v in lat.vertices:
        require(lat.lattice[v.pos] is v, "vertex is not at its position")
        require(all(id(e) in es for e in v.edges), "removed link still listed")
        data = isinstance(v, lb.DataVertex)
        other = [(e.op if data else e.data) for e in v.edges]
        require(all((e.data if data else e.op) is v for e in v.edges), "foreign link")
        require(sorted(map(id, other)) == sorted(map(id, v.neighbours)), "neighbours")
    require(all(id(v) in vs for v in lat.equbits), "removed vertex among the equbits")
    n = sum(x is not None for x in lat.lattice.flat)
    require(n == len(lat.vertices), "positions of removed vertices still occupied")


def graph_ops(lat, verts):
    out = []
    for v in verts:
        x = z = 0
        for e in v.edges:
            i = next(k for k, d in enumerate(lat.dataqubits) if d is e.data)
            x |= (e.factor.name in "XY") << i
            z |= (e.factor.name in "YZ") << i
        out.append(pr.herm(x, z))
    return out


def check_ops(lat):
    n = len(lat.dataqubits)
    for verts, ops in ((lat.stabgens, lat.stabilisers),
                       (lat.logical_ops, lat.logical_operators)):
        require(len(ops) == len(verts), "number of operators")
        for got, want in zip(ops, graph_ops(lat, verts)):
            require(len(got) == 2 * n + 1, "length of an operator")
            require(pr.from_row(got) == want, f"operator {got}, expected {want}")


def check_indices(lat):
    vs = [*lat.dataqubits, *lat.stabgens, *lat.logical_ops]
    require([id(v) for v in lat.equbits] == [id(v) for v in vs], "equbits")
    for lst, name in ((lat.dataqubits, "dataqubit_idx"), (lat.stabgens, "stabgen_idx"),
                      (lat.logical_ops, "logical_idx"), (vs, "equbit_idx")):
        require([getattr(v, name) for v in lst] == list(range(len(lst))), name)


def c_builtin(family, size):
    lat = make(family, size).lattice
    check_graph(lat)
    check_ops(lat)
    check_indices(lat)
    for pos, v in np.ndenumerate(lat.lattice):
        require(lat.get_vertex_at_pos(pos) is v, "get_vertex_at_pos")


def c_custom(stabs, logs, rounds=1):
    s, lo = arr(stabs), arr(logs)
    n = len(stabs[0]) // 2
    code = LatticeCode.from_operators(s, lo, rounds)
    for got, want, name in ((code.stabilisers, s, "stabiliser"),
                            (code.logical_ops, lo, "logical operator")):
        require(len(got) == len(want), f"number of {name}s")
        for g, w in zip(got, want):
            require(list(g) == list(w), f"{name} {w} became {g}")
    require([list(r) for r in code.logical_x] == [list(r) for r in lo[::2]], "X")
    require([list(r) for r in code.logical_z] == [list(r) for r in lo[1::2]], "Z")
    require((code.n_data_qubits, code.n_stabgens, code.n_logical_ops,
             code.n_logical_qubits, code.n_ext_qubits, code.n_rounds)
            == (n, len(s), len(lo), len(lo) // 2, n + len(s) + len(lo), rounds), "sizes")
    check_graph(code.lattice)
    check_ops(code.lattice)
    check_indices(code.lattice)
    require(code == StabilizerCode(list(s), list(lo)), "equality")
    other = [r.copy() for r in s]
    other[-1][0] ^= 1
    require(not code == StabilizerCode(other, list(lo)), "equality of different codes")


def c_edits(family, size, steps):
    """A sequence of edits against a model of the graph."""
    lat = lb.CodeLattice((size, size)) if family == "empty" else make(family, size).lattice
    links = {(e.data.pos, e.op.pos): e.factor.name for e in lat.edges}
    alive = {v.pos for v in lat.vertices}
    for kind, a, b in steps:
        if kind == "unlink" and lat.edges:
            e = lat.edges[a % len(lat.edges)]
            del links[e.data.pos, e.op.pos]
            lat.remove_edge(e)
        elif kind == "link":
            ops = [*lat.stabgens, *lat.logical_ops]
            if not ops or not lat.dataqubits:
                continue
            d, o = lat.dataqubits[a % len(lat.dataqubits)], ops[b % len(ops)]
            if (d.pos, o.pos) in links:
                rejects(lambda: lat.add_edge(d, o, lb.Pauli.X), "a second link")
            else:
                f = list(lb.Pauli)[(a + b) % 3]
                lat.add_edge(d, o, f)
                links[d.pos, o.pos] = f.name
        elif kind == "remove":
            if not lat.vertices:
                continue
            v = lat.vertices[a % len(lat.vertices)]
            if v.edges:
                rejects(lambda: lat.remove_vertex(v), "removing a linked vertex")
            else:
                lat.remove_vertex(v)
                alive.remove(v.pos)
        elif kind == "drop":
            v = lat.stabgens[a % len(lat.stabgens)] if lat.stabgens else None
            if v is not None:
                lat.remove_stabilizer(v)
                alive.remove(v.pos)
                links = {k: f for k, f in links.items() if k[1] != v.pos}
        elif kind == "add":
            free = [p for p, v in np.ndenumerate(lat.lattice) if v is None]
            if not free:
                continue
            pos = free[a % len(free)]
            [lambda: lat.add_data(pos),
             lambda: lat.add_stabgen(pos, lb.StabGroup.A),
             lambda: lat.add_logical(pos, "L")][b % 3]()
            alive.add(pos)
        elif kind == "assign":
            lat.assign_indices()
            check_indices(lat)
        require({(e.data.pos, e.op.pos): e.factor.name for e in lat.edges} == links,
                f"links after {kind}")
        require({v.pos for v in lat.vertices} == alive, f"vertices after {kind}")
        check_graph(lat)
    lat.assign_indices()
    check_indices(lat)
    if lat.dataqubits:
        check_ops(lat)


def c_logical_indices(family, size, names, want):
    code = make(family, size)
    if want is None:
        rejects(lambda: code.logical_ops_to_indices(names), f"selection {names!r}")
    else:
        require(list(code.logical_ops_to_indices(names)) == want, f"{names!r}")


def c_known_negative():
    code = LatticeCode.from_operators(arr(["00111"]), arr(["11000", "00100"]), 1)
    require(list(code.stabilisers[0]) == [0, 0, 1, 1, 1], "sign of -ZZ is lost")


CASES = {"builtin": c_builtin, "custom": c_custom, "edits": c_edits,
         "logical_indices": c_logical_indices, "known_negative": c_known_negative}
KNOWN = {"P08-negative-operators": ("known_negative", {})}


def random_code(r, n, k):
    """Positive stabilisers and logical operators of a random [[n, k]] code."""
    while True:
        rows = [pr.herm(o[0], o[1]) for o in pr.random_state(r, n)]
        d, s = rows[:n], rows[n:]
        stabs, logs = s[k:], [o for i in range(k) for o in (d[i], s[i])]
        # logical X_i, Z_i commute with the stabilisers by construction
        if all(o[0] | o[1] for o in stabs + logs):
            return stabs, logs


def run(ctx):
    r = ctx.rng
    for f, d in (("five", 1), ("shor", 1), ("repetition", 3), ("repetition", 7),
                 ("planar", 2), ("planar", 3), ("planar", 4), ("rotated", 3),
                 ("rotated_xzzx", 3), ("rotated", 4), ("toric", 2), ("toric", 3)):
        ctx.run("builtin", family=f, size=d)
    for q in ("X", "Z"):
        ctx.run("logical_indices", family="planar", size=3, names=q,
                want=[0 if q == "X" else 1])
    for a in ("XX", "XZ", "ZX", "ZZ"):
        ctx.run("logical_indices", family="toric", size=2, names=a,
                want=[2 * i + (c == "Z") for i, c in enumerate(a)])
    for a in ("", "X", "XXX", "Y", "XY", "YX", "xz", "ZI", [0], [0, 1, 2], [0, 4],
              [-1, 2], []):
        ctx.run("logical_indices", family="toric", size=2, names=a, want=None)
    for a in ([0, 2], [1, 3], [0, 3], [3, 0]):
        ctx.run("logical_indices", family="toric", size=2, names=a, want=a)
    for _ in range(ctx.n(250, 3000)):
        n = r.randint(2, 7)
        k = r.randint(1, n - 1)
        stabs, logs = random_code(r, n, k)
        ctx.run("custom", stabs=[bits(s, n) for s in stabs],
                logs=[bits(s, n) for s in logs], rounds=r.randint(1, 3))
    for _ in range(ctx.n(120, 1500)):
        f = r.choice(["planar", "toric", "rotated", "five", "repetition"])
        steps = [[r.choice(["unlink", "unlink", "link", "remove", "drop", "add",
                            "assign", "link"]), r.randrange(60), r.randrange(60)]
                 for _ in range(r.randint(1, 25))]
        ctx.run("edits", family=f, size=3 if f == "repetition" else 2, steps=steps)
    for _ in range(ctx.n(60, 800)):
        # a lattice built from scratch: no indices assigned in the beginning
        kinds = ["add", "add", "link", "link", "unlink", "remove"] + \
            (["drop"] if r.random() < .5 else []) + (["assign"] if r.random() < .3 else [])
        steps = [["add", r.randrange(60), k % 2 if k < 4 else r.randrange(60)]
                 for k in range(r.randint(3, 6))]
        steps += [[r.choice(kinds), r.randrange(60), r.randrange(60)]
                  for _ in range(r.randint(4, 25))]
        ctx.run("edits", family="empty", size=r.randint(2, 4), steps=steps)
