"""P09: working around fabrication defects."""
import itertools
import warnings

from plaquette.codes import LatticeCode
from plaquette.codes import latticebase as lb

from bounded.p08 import check_graph, check_indices, check_ops, graph_ops
from lib import pauliref as pr
from lib.bounded import rejects, require


def pos_ops(lat, verts):
    """Operators as frozenset of (position, Pauli)."""
    return [frozenset((e.data.pos, e.factor.name) for e in v.edges) for v in verts]


def reduce_in(base, w, add=True):
    """Reduce a bit vector by a basis (with distinct leading bits)."""
    for b in sorted(base, reverse=True):
        w = min(w, w ^ b)
    if w and add:
        base.append(w)
    return w


def c_remove(size, qubits=(), gates=(), stabs=(), boundary_join=False, as_index=False,
             direct=False, batches=1):
    code = LatticeCode.make_planar(2, size)
    lat = code.lattice
    qubits = [tuple(q) for q in qubits]
    stabs = [tuple(q) for q in stabs]
    gates = [(tuple(a), tuple(b)) for a, b in gates]
    gone = set(qubits) | {d for _, d in gates}
    for s in stabs:
        gone |= {e.data.pos for e in lat.lattice[s].edges}
    orig = {v.pos: frozenset((e.data.pos, e.factor.name) for e in v.edges)
            for v in lat.stabgens}

    def ix(p):
        return lat.lattice[p].equbit_idx if as_index else p

    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if direct:
                lat.fabrication_err_keep_gauge = "none"
                lat.fabrication_err_boundary_join = boundary_join
                for q in qubits:
                    lat.remove_dataqubit(lat.lattice[q])
                lat.assign_indices()
                code = LatticeCode(lat, 2) if lat.stabgens else None
            else:
                for b in range(batches):
                    code.apply_fabrication_errors(
                        faulty_qubits=[ix(q) for q in qubits[b::batches]],
                        faulty_gates=[(ix(s), ix(d)) for s, d in gates[b::batches]],
                        faulty_stabilizers=[ix(s) for s in stabs[b::batches]],
                        keep_gauge="none", boundary_join=boundary_join)
    except lb.NoLogicalOperatorError:
        return
    except IndexError:
        # code objects need at least one stabiliser
        if lat.stabgens:
            raise
    check_graph(lat)
    check_indices(lat)
    left = {v.pos for v in lat.dataqubits}
    full = {v.pos for v in LatticeCode.make_planar(1, size).lattice.dataqubits}
    require(left == full - gone, "wrong qubits were removed")
    if not lat.dataqubits:
        return
    check_ops(lat)
    n = len(lat.dataqubits)
    st, lo = graph_ops(lat, lat.stabgens), graph_ops(lat, lat.logical_ops)
    require(len(lo) == 2, "number of logical operators")
    for i, a in enumerate(st):
        for b in st[:i]:
            require(not pr.comm(a, b), "stabilisers anticommute")
        for b in lo:
            require(not pr.comm(a, b), "a stabiliser and a logical anticommute")
    require(pr.comm(*lo) == 1, "the logical pair commutes")
    # on the remaining qubits, every stabiliser is a product of original ones
    num = {v.pos: i for i, v in enumerate(lat.dataqubits)}

    def vec(links):
        return sum(1 << num[p] + n * (f == "Z") for p, f in links if p in num)

    base = []
    for v in orig.values():
        reduce_in(base, vec(v))
    for v in lat.stabgens:
        w = reduce_in(base, vec((e.data.pos, e.factor.name) for e in v.edges), False)
        require(w == 0, "a stabiliser is no product of the original ones")
    if st:
        require([pr.from_row(r) for r in code.stabilisers] == st, "operators of code")
        require([pr.from_row(r) for r in code.logical_ops] == lo, "logicals of code")


def c_merge(size, a, b):
    """A merged stabiliser is the product of the ones it replaces."""
    lat = LatticeCode.make_planar(1, size).lattice
    va, vb = lat.lattice[tuple(a)], lat.lattice[tuple(b)]
    want = (frozenset((e.data.pos, e.factor.name) for e in va.edges)
            ^ frozenset((e.data.pos, e.factor.name) for e in vb.edges))
    others = {v.pos: frozenset((e.data.pos, e.factor.name) for e in v.edges)
              for v in lat.stabgens + lat.logical_ops if v not in (va, vb)}
    lat.create_superstab(va, vb)
    lat.assign_indices()
    check_graph(lat)
    check_ops(lat)
    require(vb not in lat.stabgens, "merged stabiliser still there")
    got = {v.pos: frozenset((e.data.pos, e.factor.name) for e in v.edges)
           for v in lat.stabgens + lat.logical_ops}
    require(got.pop(va.pos) == want, "not the product")
    require(got == others, "another operator changed")


def c_logical(size, which, stab):
    lat = LatticeCode.make_planar(1, size).lattice
    lo, s = lat.logical_ops[which], lat.lattice[tuple(stab)]
    want = (frozenset((e.data.pos, e.factor.name) for e in lo.edges)
            ^ frozenset((e.data.pos, e.factor.name) for e in s.edges))
    before = frozenset((e.data.pos, e.factor.name) for e in s.edges)
    lat.multiply_logical_with_stab(lo, s)
    check_graph(lat)
    require(frozenset((e.data.pos, e.factor.name) for e in lo.edges) == want, "product")
    require(frozenset((e.data.pos, e.factor.name) for e in s.edges) == before, "stab")


def c_reject(size, kw):
    code = LatticeCode.make_planar(1, size)
    kw = {k: [tuple(map(tuple, v)) if k == "faulty_gates" else tuple(v) for v in vs]
          for k, vs in kw.items()}
    rejects(lambda: code.apply_fabrication_errors(**kw), f"{kw}")


CASES = {"remove": c_remove, "merge": c_merge, "logical": c_logical, "reject": c_reject}


def run(ctx):
    r = ctx.rng
    for d in (2, 3):
        lat = LatticeCode.make_planar(1, d).lattice
        qs = [v.pos for v in lat.dataqubits]
        ss = [v.pos for v in lat.stabgens]
        for k in ((1, 2, 3) if d == 2 else (1, 2)):
            for c in itertools.permutations(qs, k) if d == 2 else \
                    itertools.combinations(qs, k):
                for bj in (False, True):
                    ctx.run("remove", size=d, qubits=c, boundary_join=bj,
                            direct=d == 2)
        for s in ss:
            for bj in (False, True):
                ctx.run("remove", size=d, stabs=[s], boundary_join=bj)
                ctx.run("remove", size=d, stabs=[s], boundary_join=bj, as_index=True)
            for e in lat.lattice[s].edges:
                ctx.run("remove", size=d, gates=[(s, e.data.pos)])
        for a, b in itertools.permutations(ss, 2):
            va, vb = lat.lattice[a], lat.lattice[b]
            if va.group == vb.group:
                ctx.run("merge", size=d, a=a, b=b)
        for s in ss:
            which = 0 if lat.lattice[s].edges[0].factor.name == "X" else 1
            ctx.run("logical", size=d, which=which, stab=s)
        ctx.run("reject", size=d, kw={"faulty_qubits": [ss[0]]})
        ctx.run("reject", size=d, kw={"faulty_stabilizers": [qs[0]]})
        ctx.run("reject", size=d, kw={"faulty_gates": [(qs[0], ss[0])]})
        far = next(q for q in qs if lat.lattice[q] not in lat.lattice[ss[0]].neighbours)
        ctx.run("reject", size=d, kw={"faulty_gates": [(ss[0], far)]})
    for _ in range(ctx.n(250, 3000)):
        d = r.choice([3, 4, 4, 5, 6])
        lat = LatticeCode.make_planar(1, d).lattice
        qs = [v.pos for v in lat.dataqubits]
        k = r.choice([1, 2, 3, 4, 6])
        g = []
        for _ in range(r.choice([0, 0, 1, 2])):
            e = r.choice([e for v in lat.stabgens for e in v.edges])
            g.append((e.op.pos, e.data.pos))
        st = r.sample([v.pos for v in lat.stabgens], r.choice([0, 0, 1]))
        direct = r.random() < 0.4
        q = r.sample(qs, k)
        ctx.run("remove", size=d, qubits=q, gates=[] if direct else g,
                stabs=[] if direct else st, boundary_join=r.random() < 0.5,
                as_index=not direct and r.random() < 0.3, direct=direct)
