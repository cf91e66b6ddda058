"""P20: the decoding graph matches the code; data handed to and from its components."""
import numpy as np
import z3
from plaquette import syngraph as sg

from contracts import comps, syn
from contracts.common import (C, SArr, SBool, SInt, Unsupported, cur, eq, fresh_array,
                              fresh_int)
from contracts.layout import bound
from pyvc import seq as Q
from pyvc.contract import case
from pyvc.interp import Inv
from pyvc.seq import SSeq, SStruct

FUNCTIONS = ["syngraph.SyndromeGraph." + f for f in (
    "_init_error_ops", "_init_vertices", "_init_qubit_error_edges",
    "_init_measurement_error_edges", "_check_edges_infweight", "_select_lightest_edge",
    "_init_conn_components", "_find_connected_component", "set_edge_weights",
    "_set_edge_weights_on_components", "set_erasure", "set_syndrome",
    "combine_decoding_results", "update_decoder_results", "result_as_error_op_selection")
] + ["syngraph.Vertex.set_connected_component", "syngraph.Vertex.edges",
     "syngraph.Vertex.neighbours", "syngraph.SyndromeGraphComponent.__init__",
     "syngraph.SyndromeGraphManager.__init__"]
ASSUMPTIONS = [
    "commutator_sign and single_qubit_pauli_operator as specified for P03 and P01",
    "numpy.where lists the places of nonzero entries in increasing order",
    "links of a graph are symmetric (Edge and Vertex.add_edge; bounded only)",
    "the list of components is any partition: how it is filled, which edges count as "
    "duplicates, and the product of the selected errors are bounded only"]
LEVEL = "exploration"
G = sg.SyndromeGraph


class World:
    """A decoding graph: vertices, edges (some of qubits, some of measurements) and
    components, whose members are at any positions of the lists."""

    def __init__(self, weights=False):
        s = cur()
        self.R, self.n, self.m = fresh_int("rounds", 1), fresh_int("n", 1), fresh_int("m", 1)
        self.ne, self.nv = fresh_int("edges", 0), fresh_int("vertices", 1)
        self.isq = C.fun_bool("qubit_edge", 1)
        self.step, self.q = C.fun_int("edge_round", 1), C.fun_int("edge_qubit", 1)
        self.stab, self.op = C.fun_int("edge_stab", 1), C.fun_int("error_op", 1)
        self.isx = C.fun_bool("x_edge", 1)
        k = z3.Int("k!")
        for f, hi in ((self.step, self.R), (self.q, self.n), (self.stab, self.m),
                      (self.op, 2 * self.n)):
            s.assume(SBool(z3.ForAll([k], z3.And(f.z3(k) >= 0, f.z3(k) < C.intterm(hi)),
                                     patterns=[f.z3(k)])))
        self.edge = SStruct(sg.Edge, {
            "edge_idx": lambda k: k, "time_step": self.step, "qubit_idx": self.q,
            "stabgen_idx": self.stab, "error_op_idx": self.op,
            "pauli_str": lambda k: "X" if bool(self.isx(k)) else "Z",
            "erased": C.fun_bool("was_erased", 1), "weight": C.fun_real("weight", 1),
            "decoder_result": C.fun_bool("result", 1),
            "enabled": C.fun_bool("enabled", 1)}, "edge")
        self.edge.kinds = [(sg.QubitErrorEdge, self.isq),
                           (sg.StabilizerErrorEdge, lambda k: C.lnot(self.isq(k)))]
        self.edges = SSeq(self.ne, self.edge)
        # vertices: every round and stabiliser once, in any order
        self.vt, self.vs = C.fun_int("vertex_round", 1), C.fun_int("vertex_stab", 1)
        self.vat = C.fun_int("vertex_at", 2)
        t, r, a = self.vt.z3, self.vs.z3, self.vat.z3
        x, y = z3.Ints("x! y!")
        nv = C.intterm(self.nv)
        R, m = self.R.t, self.m.t
        s.assume(SBool(z3.ForAll([x], z3.Implies(z3.And(x >= 0, x < nv), z3.And(
            t(x) >= 0, t(x) < R, r(x) >= 0, r(x) < m, a(t(x), r(x)) == x)),
            patterns=[t(x)])))
        s.assume(SBool(z3.ForAll([x, y], z3.Implies(
            z3.And(x >= 0, x < R, y >= 0, y < m),
            z3.And(a(x, y) >= 0, a(x, y) < nv, t(a(x, y)) == x, r(a(x, y)) == y)),
            patterns=[a(x, y)])))
        self.vertex = SStruct(sg.Vertex, {
            "vertex_idx": lambda k: k, "time_step": self.vt, "stabgen_idx": self.vs,
            "syndrome": C.fun_bool("old_syndrome", 1)}, "vertex")
        self.vertices = SSeq(self.nv, self.vertex)
        # components
        self.nc = fresh_int("components", 0)
        self.cv, self.ce = C.fun_int("comp_vertices", 1, 0), C.fun_int("comp_edges", 1, 0)
        self.pv, self.pe = C.fun_int("parent_vertex", 2), C.fun_int("parent_edge", 2)
        c, j = z3.Ints("c! j!")
        for f, num, hi in ((self.pv, self.cv, self.nv), (self.pe, self.ce, self.ne)):
            s.assume(SBool(z3.ForAll([c, j], z3.And(
                f.z3(c, j) >= 0, z3.Implies(z3.And(j >= 0, j < num.z3(c)),
                                            f.z3(c, j) < C.intterm(hi))),
                patterns=[f.z3(c, j)])))
        self.comp = SStruct(sg.SyndromeGraphComponent, {
            "n_vertices": self.cv, "edges": lambda c: SSeq(self.ce(c), lambda j: 0),
            "parent_vertex_idx": lambda c: SArr.of(
                lambda j: self.pv(c, j), (self.cv(c),), "i8"),
            "parent_edge_idx": lambda c: SArr.of(
                lambda j: self.pe(c, j), (self.ce(c),), "i8")}, "component")
        self.comps = SSeq(self.nc, self.comp)

    def graph(self, **more):
        g = G.__new__(G)
        g.n_rounds, g.n_qubits, g.n_stabgens = self.R, self.n, self.m
        g.vertices, g.edges = self.vertices, self.edges
        g.components = g.components_with_edges = self.comps
        for k, v in more.items():
            setattr(g, k, v)
        return g


class Done(Inv):
    """The loop over the vertices of set_syndrome, after k of them: their bits are
    written, in the records and in the array of all; marks where they come from."""
    vars = ()

    def __init__(self, w, bit):
        self.name = "vertices so far"
        self.w, self.bit, self.old = w, bit, None

    def start(self, env):
        w = self.w
        self.old = {}
        given = env.vars.get("syndrome")
        arrs = {id(v.buf): v for v in env.vars.values() if isinstance(v, SArr)
                and not (isinstance(given, SArr) and v.buf is given.buf)}
        for i, v in arrs.items():
            get = v.buf.get
            if v.buf.dt == "b" and len(v.buf.shape) == 2:
                def now(k, t, r, get=get):
                    return C.lor(get(t, r), w.vat(t, r) < k)
            elif v.buf.dt == "b" and len(v.buf.shape) == 1:
                def now(k, i, get=get):
                    return C.ite(i < k, self.of(i), get(i))
            else:
                def now(k, *i, get=get):
                    return get(*i)
            self.old[i] = v.buf, now
        self.field = self.w.vertex.fields["syndrome"]
        self.fields = dict(self.w.vertex.fields)

    def of(self, i):
        return self.bit(self.w.vt(i), self.w.vs(i))

    def check(self, it, env, k, name):
        if self.old is None:
            self.start(env)
            return
        s = cur()
        for buf, now in self.old.values():
            if buf.get is not None:
                def go(buf=buf, now=now):
                    idx = [fresh_int("i", 0, d) for d in buf.shape]
                    s.prove(SBool(C.eq(C.asbool(buf.get(*idx)), C.asbool(now(k, *idx)))),
                            name + ": arrays")
                if buf.dt == "b":
                    s.each(go, name)
        i = fresh_int("i", 0, self.w.nv)
        s.prove(SBool(C.eq(C.asbool(self.w.vertex.fields["syndrome"](i)),
                           C.ite(i < k, self.of(i), C.asbool(self.field(i))))),
                name + ": records")
        for f, g in self.fields.items():
            if f != "syndrome" and self.w.vertex.fields[f] is not g:
                raise Unsupported(f"{f} of vertices changes")

    def havoc(self, it, env, k):
        for buf, now in self.old.values():
            buf.get = lambda *i, now=now: now(k, *i)
        f = self.field
        self.w.vertex.fields["syndrome"] = lambda i: C.ite(
            i < k, self.of(i), C.asbool(f(i)))


def data(kind, name, shape):
    """None, or an array of one of the accepted types; and its bits."""
    if kind == "none":
        return None, lambda *i: SBool(z3.BoolVal(False))
    a = fresh_array(name, shape, "u1" if kind == "u1" else "b")
    get = a.buf.get
    return a, (lambda *i: SBool(C.eq(get(*i), 1))) if kind == "u1" else (
        lambda *i: C.asbool(get(*i)))


for _kind in ("none", "bool", "u1"):
    def _syndrome(kind):
        @case(f"P20 set_syndrome ({kind})")
        def go(c):
            w = World()
            g = w.graph()
            syn, bit = data(kind, "syndrome", (w.R, w.m))
            c.provider = lambda it, s, env, sv: Done(w, bit) if sv[0] is w.nv else None
            c.run(G.set_syndrome, g, syn)
            k = fresh_int("k", 0, w.nv)
            c.eqv(w.vertex.fields["syndrome"](k), bit(w.vt(k), w.vs(k)),
                  "every vertex gets its bit")
            i = fresh_int("c", 0, w.nc)
            j = fresh_int("j", 0, w.cv(i))
            got = w.comp.fields["syndrome"](i)
            p = w.pv(i, j)
            c.prove(SBool(C.eq(got.shape[0], w.cv(i))), "one bit per vertex")
            c.eqv(got[j], bit(w.vt(p), w.vs(p)), "every component gets those of its own")

        @case(f"P20 set_erasure ({kind})")
        def go2(c):
            w = World()
            g = w.graph()
            er, bit = data(kind, "erasure", (w.R, w.n))
            c.run(G.set_erasure, g, er)

            def want(k):
                return C.land(w.isq(k), bit(w.step(k), w.q(k)))
            k = fresh_int("k", 0, w.ne)
            c.prove(C.lor(C.lnot(w.isq(k)), SBool(C.eq(
                w.edge.fields["erased"](k), want(k)))), "edges of erased qubits")
            i = fresh_int("c", 0, w.nc)
            j = fresh_int("j", 0, w.ce(i))
            got = w.comp.fields["edge_erased"](i)
            c.prove(SBool(C.eq(got.shape[0], w.ce(i))), "one flag per edge")
            c.eqv(got[j], want(w.pe(i, j)), "every component gets those of its own")
        return go, go2
    globals()[f"syndrome_{_kind}"], globals()[f"erasure_{_kind}"] = _syndrome(_kind)


@case("P20 impossible edges are disabled")
def infinite(c):
    w = World()
    inf = z3.Function("infinite", z3.RealSort(), z3.BoolSort())
    c.contracts[np.isinf] = lambda it, a, k: SBool(inf(C.realterm(a[0])))
    old = w.edge.fields["enabled"]
    c.run(G._check_edges_infweight, w.graph())
    k = fresh_int("k", 0, w.ne)
    c.eqv(w.edge.fields["enabled"](k), C.land(C.asbool(old(k)), C.lnot(SBool(
        inf(C.realterm(w.edge.fields["weight"](k)))))), "exactly those")


@case("P20 of several edges one of least weight stays")
def lightest(c):
    w = World()
    s = cur()
    num = fresh_int("several", 2)
    edges = SSeq(num, w.edge)
    c.contracts[np.isnan] = lambda it, a, k: np.array([False])
    old, weight = w.edge.fields["enabled"], w.edge.fields["weight"]
    c.run(G._select_lightest_edge, edges)
    new = w.edge.fields["enabled"]
    k = fresh_int("k", 0, num)
    c.prove(C.lor(C.lnot(C.asbool(new(k))), C.asbool(old(k))), "none is enabled")
    j = fresh_int("j", 0, num)
    c.prove(C.lor(C.lnot(C.land(C.asbool(new(k)), C.asbool(old(j)))),
                  weight(k) <= weight(j)), "the one which stays is among the lightest")
    c.prove(C.lor(C.lnot(C.land(C.asbool(new(k)), C.asbool(new(j)))),
                  SBool(C.eq(k, j))), "at most one stays")
    c.prove(C.lor(Q.quant("any", num, lambda i: C.asbool(new(i))), Q.quant(
        "any", num, lambda i: C.lnot(C.asbool(old(i))))), "one stays")


@case("P20 of several edges without weights one stays")
def unweighted(c):
    w = World()
    num = fresh_int("several", 2)
    c.contracts[np.isnan] = lambda it, a, k: np.array([True])
    old = w.edge.fields["enabled"]
    c.run(G._select_lightest_edge, SSeq(num, w.edge))
    new = w.edge.fields["enabled"]
    k, j = fresh_int("k", 0, num), fresh_int("j", 0, num)
    c.prove(C.lor(C.lnot(C.asbool(new(k))), C.asbool(old(k))), "none is enabled")
    c.prove(C.lor(C.lnot(C.land(C.asbool(new(k)), C.asbool(new(j)))),
                  SBool(C.eq(k, j))), "at most one stays")
    c.prove(C.lor(Q.quant("any", num, lambda i: C.asbool(new(i))), Q.quant(
        "any", num, lambda i: C.lnot(C.asbool(old(i))))), "one stays")


for _kind in ("number", "array"):
    def _weights(kind):
        @case(f"P20 set_edge_weights ({kind})")
        def go(c):
            w = World()
            g = w.graph(_init_complete=False, _edge_weights=fresh_array(
                "old weights", (w.ne,), "f"))
            if kind == "number":
                of = {}
                for name in ("pauli_x", "pauli_z", "measurement"):
                    x = C.fresh_real(name)
                    of[name] = x, lambda i, x=x: x
            else:
                of = {}
                for name in ("pauli_x", "pauli_z", "measurement"):
                    x = fresh_array(name, (w.m if name[0] == "m" else w.n,), "f")
                    of[name] = x, x.buf.get
            c.run(G.set_edge_weights, g, **{n: x for n, (x, _) in of.items()})
            k = fresh_int("k", 0, w.ne)
            want = C.ite(w.isq(k), C.ite(
                w.isx(k), of["pauli_x"][1](w.q(k)), of["pauli_z"][1](w.q(k))),
                of["measurement"][1](w.stab(k)))
            c.eqv(w.edge.fields["weight"](k), want, "every edge gets its own")
            c.eqv(g._edge_weights[k], want, "and the list of all")
        return go
    globals()[f"weights_{_kind}"] = _weights(_kind)


@case("P20 weights of the components")
def component_weights(c):
    w = World()
    all_ = fresh_array("weights", (w.ne,), "f")
    c.run(G._set_edge_weights_on_components, w.graph(_edge_weights=all_))
    i = fresh_int("c", 0, w.nc)
    j = fresh_int("j", 0, w.ce(i))
    got = w.comp.fields["edge_weights"](i)
    c.prove(SBool(C.eq(got.shape[0], w.ce(i))), "one per edge")
    c.eqv(got[j], all_.buf.get(w.pe(i, j)), "every component gets those of its own")


class Token:
    """Something passed on."""
    pyvc_ok = True

    def __init__(self, name):
        self.name = name


class Computation:
    pyvc_ok = True
    __hash__ = None

    def __init__(self, w):
        self.w = w

    def get_edge_weights(self):
        return self.w


# ------------------------------------------------------------ building the graph
def provider(loops):
    """loops: (length, what one iteration adds) of the outer and of the inner loop;
    the inner one counts only within the outer one."""
    outer = []

    def prov(it, s, env, sv):
        for i, (n, *what) in enumerate(loops):
            if z3.simplify(C.intterm(sv[0])).eq(z3.simplify(C.intterm(n))) and \
                    (i == 0 or outer and outer[-1].phase == "body"):
                inv = syn.Grow(*what)
                inv.phase = "entry"
                if i == 0:
                    outer.append(inv)
                return inv
        return None
    return prov


@case("P20 one vertex per round and stabiliser")
def vertices(c):
    b = syn.Build(c)
    s = cur()
    log = syn.Log(0, None)

    def belongs(place, v):
        i, t, st = b.fields(v, sg.Vertex, ["vertex_idx", "time_step", "stabgen_idx"])
        s.prove(SBool(C.eq(i, place)), f"{c.name}: numbered by place")
        s.prove(C.land(st >= 0, st < b.m, t >= 0, t < b.R), f"{c.name}: exists")
        s.prove(SBool(C.eq(t * b.m + st, place)), f"{c.name}: each once")

    def row(t, i, v):
        vi, vt, st = b.fields(v, sg.Vertex, ["vertex_idx", "time_step", "stabgen_idx"])
        s.prove(C.land(SBool(C.eq(vt, t)), SBool(C.eq(st, i))), f"{c.name}: by round")
    log.belongs = belongs
    rows = syn.Rows(b.m, row)
    rows.name = c.name
    g = b.g
    g.vertices, g.vertices_at_time = log, rows
    c.provider = provider([
        (b.R, "rounds so far", [(log, "n", lambda v, k: v + k * b.m),
                                (rows, "n", lambda v, k: v + k),
                                (rows, "last", lambda v, k: v)]),
        (b.m, "stabilisers so far", [(log, "n", lambda v, k: v + k),
                                     (rows, "n", lambda v, k: v),
                                     (rows, "last", lambda v, k: v + k)])])
    c.run(sg.SyndromeGraph._init_vertices, g)
    c.prove(SBool(C.eq(log.n, b.R * b.m)), "all of them")
    c.prove(C.land(SBool(C.eq(rows.n, b.R)), SBool(C.eq(rows.last, b.m))),
            "all rounds")


def qubit_edges(c, bad):
    b = syn.Build(c)
    s = cur()
    g, n, m = b.g, b.n, b.m
    comm = b.comm
    # fits(j): error j flips at most two stabilisers
    fits = C.fun_bool("fits", 1)
    j, x, y, z = z3.Ints("j! x! y! z!")
    w = [C.fun_int(f"flip{i}", 1, 0) for i in range(3)]
    M = m.t
    s.assume(SBool(z3.ForAll([j, x, y, z], z3.Implies(z3.And(
        fits.z3(j), 0 <= x, x < y, y < z, z < M, comm.z3(j, x), comm.z3(j, y)),
        z3.Not(comm.z3(j, z))), patterns=[z3.MultiPattern(
            comm.z3(j, x), comm.z3(j, y), comm.z3(j, z))])), axiom=True)
    a0, a1, a2 = (f.z3(j) for f in w)
    s.assume(SBool(z3.ForAll([j], z3.Or(fits.z3(j), z3.And(
        0 <= a0, a0 < a1, a1 < a2, a2 < M, comm.z3(j, a0), comm.z3(j, a1),
        comm.z3(j, a2))), patterns=[fits.z3(j)])), axiom=True)
    stabs = SSeq(m, lambda i: ("stabiliser", i))

    def signs(it, a, k):
        if len(a) != 2 or k or a[0] is not g.error_ops or a[1] is not stabs:
            raise Unsupported("commutators of others")
        return SArr.of(lambda j, i: C.cast(comm(j, i), "u1"), (2 * n, m), "u1")
    c.contracts[sg.commutator_sign] = signs
    g.vertices_at_time = syn.Vertices(b)

    def belongs(place, v):
        i, ends, t, j, q, p = b.fields(v, sg.QubitErrorEdge, [
            "edge_idx", "vertices", "time_step", "error_op_idx", "qubit_idx",
            "pauli_str"])
        if isinstance(q, SArr):
            s.prove(SBool(C.eq(q.size, 1)), f"{c.name}: of one qubit")
            q = q.at(*[0] * q.ndim)
        s.prove(SBool(C.eq(i, place)), f"{c.name}: numbered by place")
        s.prove(C.land(j >= 0, j < 2 * n, t >= 0, t < b.R), f"{c.name}: exists")
        s.prove(SBool(C.eq(t * (2 * n) + j, place)), f"{c.name}: each once")
        x = bool(j < n)
        s.prove(SBool(C.eq(q, j if x else j - n)), f"{c.name}: the qubit")
        if p != ("X" if x else "Z"):
            s.fail(f"{c.name}: the letter", p)
        if not isinstance(ends, tuple):
            raise Unsupported("ends of an edge")
        for k, e in enumerate(ends):
            s.prove(C.land(SBool(C.eq(e.t, t)), e.i >= 0, e.i < m, comm(j, e.i)),
                    f"{c.name}: ends are flipped stabilisers of that round")
            for f in ends[:k]:
                s.prove(C.lnot(SBool(C.eq(e.i, f.i))), f"{c.name}: different ends")

        def others():
            r = fresh_int("r", 0, m)
            s.prove(C.lor(C.lnot(comm(j, r)), *[SBool(C.eq(r, e.i)) for e in ends]),
                    f"{c.name}: all flipped stabilisers are ends")
        s.each(others, f"{c.name}: all flipped stabilisers are ends")
    log = syn.Log(0, belongs)
    g.edges = log

    def upto(k):
        q = z3.Int("j!")
        return SBool(z3.ForAll([q], z3.Implies(z3.And(
            q >= 0, q < C.intterm(k)), fits.z3(q)), patterns=[fits.z3(q)]))
    c.provider = provider([
        (b.R, "rounds so far", [(log, "n", lambda v, k: v + k * (2 * n))],
         lambda k: C.lor(SBool(C.eq(k, 0)), upto(2 * n))),
        (2 * n, "errors so far", [(log, "n", lambda v, k: v + k)], upto)])
    if bad:
        j0 = fresh_int("j0", 0, 2 * n)
        s.assume(C.lnot(fits(j0)))
        e = c.raises(sg.SyndromeGraph._init_qubit_error_edges, g, stabs)
        if e is None:
            c.prove(SBool(z3.BoolVal(False)), "rejected")
        elif not isinstance(e, ValueError):
            c.fail("rejected with the documented error", repr(e))
    else:
        q = z3.Int("j!")
        s.assume(SBool(z3.ForAll([q], fits.z3(q), patterns=[fits.z3(q)])), axiom=True)
        c.run(sg.SyndromeGraph._init_qubit_error_edges, g, stabs)
        c.prove(SBool(C.eq(log.n, b.R * (2 * n))), "all of them")


@case("P20 one edge per round and single-qubit error")
def qubit_edges_good(c):
    qubit_edges(c, False)


@case("P20 errors that flip more than two stabilisers are rejected")
def qubit_edges_bad(c):
    qubit_edges(c, True)


@case("P20 one edge per stabiliser and pair of rounds")
def measurement_edges(c):
    b = syn.Build(c)
    s = cur()
    g, m = b.g, b.m
    g.vertices_at_time = syn.Vertices(b)
    start = fresh_int("edges before", 0)

    def belongs(place, v):
        i, ends, t, st = b.fields(v, sg.StabilizerErrorEdge, [
            "edge_idx", "vertices", "time_step", "stabgen_idx"])
        s.prove(SBool(C.eq(i, place)), f"{c.name}: numbered by place")
        s.prove(C.land(st >= 0, st < m, t >= 1, t < b.R), f"{c.name}: exists")
        s.prove(SBool(C.eq((t - 1) * m + st, place - start)), f"{c.name}: each once")
        if not isinstance(ends, tuple) or len(ends) != 2:
            return s.fail(f"{c.name}: two ends", repr(ends))
        e, f = ends
        s.prove(C.land(SBool(C.eq(e.i, st)), SBool(C.eq(f.i, st))),
                f"{c.name}: of that stabiliser")
        s.prove(C.lor(C.land(SBool(C.eq(e.t, t - 1)), SBool(C.eq(f.t, t))),
                      C.land(SBool(C.eq(f.t, t - 1)), SBool(C.eq(e.t, t)))),
                f"{c.name}: of consecutive rounds")
    log = syn.Log(start, belongs)
    g.edges = log
    c.provider = provider([
        (b.R - 1, "rounds so far", [(log, "n", lambda v, k: v + k * m)]),
        (m, "stabilisers so far", [(log, "n", lambda v, k: v + k)])])
    c.run(sg.SyndromeGraph._init_measurement_error_edges, g)
    c.prove(SBool(C.eq(log.n - start, (b.R - 1) * m)), "all of them")


@case("P20 the list of single-qubit errors")
def error_ops(c):
    b = syn.Build(c)
    c.contracts[sg.single_qubit_pauli_operator] = lambda it, a, k: tuple(
        bound(sg.single_qubit_pauli_operator, a, k)[0])
    c.run(sg.SyndromeGraph._init_error_ops, b.g)

    n = b.n
    c.emissions(Q.parts(b.g.error_ops), [
        Q.Each(n, lambda k: [("X", k, n)]), Q.Each(n, lambda k: [("Z", k, n)])],
        "X then Z on every qubit")


@case("P20 a component is all that is linked to a vertex")
def component(c):
    comps.search(c)


@case("P20 every vertex belongs to one component")
def all_components(c):
    comps.everything(c)


@case("P20 enabled edges follow their vertex")
def edges_of_vertex(c):
    comps.edges_of_vertex(c)


@case("P20 enabled edges and neighbours")
def enabled(c):
    num = fresh_int("edges", 0)
    on, other = C.fun_bool("enabled", 1), C.fun_int("other", 1, 0)
    edge = SStruct(sg.Edge, {"enabled": on}, "edge")
    vertex = SStruct(sg.Vertex, {}, "vertex")
    edges = SSeq(num, edge)
    vertices = SSeq(fresh_int("vertices", 0), vertex)
    v = sg.Vertex.__new__(sg.Vertex)
    v.all_edges = edges
    v.all_neighbours = SSeq(num, lambda k: (edges.at(k), vertices.at(other(k))))
    got = c.run(sg.Vertex.edges.fget, v)
    c.emissions(Q.parts(got), [Q.Each(num, lambda k: [Q.IfE(on(k), [edges.at(k)], [])])],
                "the enabled edges, in order")
    got = c.run(sg.Vertex.neighbours.fget, v)
    c.emissions(Q.parts(got), [Q.Each(num, lambda k: [Q.IfE(
        on(k), [vertices.at(other(k))], [])])], "their other ends, in order")


# ------------------------------------------------------------ results
class Results:
    """Results of the components: where every edge has its own."""

    def __init__(self, w):
        s = cur()
        self.w = w
        self.res = C.fun_bool("component_result", 2)
        self.cof, self.pof = C.fun_int("component_of", 1), C.fun_int("position_of", 1)
        c, j = z3.Ints("c! j!")
        e = w.pe.z3(c, j)
        s.assume(SBool(z3.ForAll([c, j], z3.Implies(z3.And(
            c >= 0, c < C.intterm(w.nc), j >= 0, j < w.ce.z3(c)), z3.And(
                self.cof.z3(e) == c, self.pof.z3(e) == j)), patterns=[e])))
        w.comp.fields["edge_decoder_result"] = lambda c: SArr.of(
            lambda j: self.res(c, j), (w.ce(c),), "b")
        w.comp.fields["decoder_results_new"] = C.fun_bool("new_results", 1)

    def has(self, e):
        """Edge e is in a component."""
        w, c, j = self.w, self.cof(e), self.pof(e)
        return C.land(c >= 0, c < w.nc, j >= 0, j < w.ce(c), SBool(C.eq(w.pe(c, j), e)))

    def upto(self, e, k, old, part=None):
        """The value for edge e when those before k are done (and part of number k)."""
        c = self.cof(e)
        done = c < k
        if part is not None:
            done = C.lor(done, C.land(SBool(C.eq(c, k)), self.pof(e) < part))
        return C.ite(C.land(self.has(e), done), self.res(c, self.pof(e)), old(e))


class Updated(Inv):
    vars = ()

    def __init__(self, r, outer=None):
        self.name = "components so far" if outer is None else "its edges so far"
        self.r, self.outer, self.old, self.k = r, outer, None, None

    def value(self, e, k):
        if self.outer is None:
            return self.r.upto(e, k, self.old)
        return self.r.upto(e, self.outer.k, self.outer.old, k)

    def check(self, it, env, k, name):
        s, w = cur(), self.r.w
        if self.old is None:
            self.old = w.edge.fields["decoder_result"]
            self.new = w.comp.fields["decoder_results_new"]
            if self.outer is None:
                return
        e, c = fresh_int("e", 0, w.ne), fresh_int("c", 0, w.nc)
        s.prove(SBool(C.eq(C.asbool(w.edge.fields["decoder_result"](e)),
                           C.asbool(self.value(e, k)))), name + ": results")
        got = C.asbool(w.comp.fields["decoder_results_new"](c))
        want = C.asbool(self.new(c))
        if self.outer is None:
            want = C.land(c >= k, want)
        s.prove(SBool(C.eq(got, want)), name + ": what is new")

    def havoc(self, it, env, k):
        w = self.r.w
        self.k = k
        w.edge.fields["decoder_result"] = lambda e: self.value(e, k)
        if self.outer is None:
            new = self.new
            w.comp.fields["decoder_results_new"] = lambda c: C.land(c >= k, C.asbool(new(c)))


@case("P20 results of the components reach their edges")
def update_results(c):
    w = World()
    r = Results(w)
    outer = []

    def prov(it, s, env, sv):
        if sv[0] is w.nc:
            outer.append(Updated(r))
            return outer[-1]
        if outer and outer[-1].k is not None and C.intterm(sv[0]).eq(
                C.intterm(w.ce(outer[-1].k))):
            return Updated(r, outer[-1])
        return None
    c.provider = prov
    old = w.edge.fields["decoder_result"]
    c.run(G.update_decoder_results, w.graph())
    new = w.edge.fields["decoder_result"]

    def theirs():
        i = fresh_int("c", 0, w.nc)
        j = fresh_int("j", 0, w.ce(i))
        c.eqv(C.asbool(new(w.pe(i, j))), r.res(i, j), f"{c.name}: theirs")
        c.prove(C.lnot(C.asbool(w.comp.fields["decoder_results_new"](i))), "seen")
    c.scope(theirs)
    e = fresh_int("e", 0, w.ne)
    c.prove(C.lor(r.has(e), SBool(C.eq(C.asbool(new(e)), C.asbool(old(e))))),
            "others keep theirs")


@case("P20 results of the components combined")
def combine_results(c):
    w = World()
    r = Results(w)
    results = SSeq(w.nc, lambda i: SArr.of(lambda j: r.res(i, j), (w.ce(i),), "b"))

    class Combined(Inv):
        name = "components so far"
        vars = ()

        def check(self, it, env, k, name):
            self.arr = None
            for v in env.vars.values():
                if isinstance(v, SArr) and v.dt == "b" and v.ndim == 1 and \
                        C.intterm(v.shape[0]).eq(C.intterm(w.ne)):
                    self.arr = v
            if self.arr is None:
                raise Unsupported("where the results are collected")
            e = fresh_int("e", 0, w.ne)
            cur().prove(SBool(C.eq(C.asbool(self.arr.at(e)), self.want(e, k))), name)

        def want(self, e, k):
            return C.asbool(r.upto(e, k, lambda e: SBool(z3.BoolVal(False))))

        def havoc(self, it, env, k):
            self.arr.buf.get = lambda e: self.want(e, k)
    c.provider = lambda it, s, env, sv: Combined() if C.intterm(sv[0]).eq(
        C.intterm(w.nc)) else None
    got = c.run(G.combine_decoding_results, w.graph(), results)
    c.prove(SBool(C.eq(got.shape[0], w.ne)), "one per edge")
    i = fresh_int("c", 0, w.nc)
    j = fresh_int("j", 0, w.ce(i))
    c.eqv(C.asbool(got.at(w.pe(i, j))), r.res(i, j), f"{c.name}: theirs")
    e = fresh_int("e", 0, w.ne)
    c.prove(C.lor(r.has(e), C.lnot(C.asbool(got.at(e)))), "no others")


@case("P20 an error is selected by the parity of its edges")
def selection(c):
    w = World()
    s = cur()
    g = w.graph(error_ops=SSeq(2 * w.n, lambda k: ("error", k)))
    w.comp.fields["decoder_results_new"] = lambda i: SBool(z3.BoolVal(False))
    par = C.fun_bool("parity", 2)      # of the edges before k with error o
    k, o = z3.Ints("k! o!")
    P, res = par.z3, w.edge.fields["decoder_result"]
    s.assume(SBool(z3.ForAll([o], z3.Not(P(0, o)), patterns=[P(0, o)])))

    class Parity(Inv):
        name = "edges so far"
        vars = ()
        arr = None

        def check(self, it, env, k, name):
            for v in env.vars.values():
                if isinstance(v, SArr) and v.dt == "b" and v.ndim == 1:
                    self.arr = v
            if self.arr is None:
                raise Unsupported("where the selection is collected")
            x = fresh_int("o", 0, 2 * w.n)
            if not isinstance(k, int):
                j = k - 1
                s.assume(SBool(P(C.intterm(k), x.t) == z3.Xor(
                    P(C.intterm(j), x.t), C.boolterm(C.land(
                        w.isq(j), SBool(C.eq(w.op(j), x)), C.asbool(res(j)))))))
            cur().prove(SBool(C.eq(C.asbool(self.arr.at(x)), par(k, x))), name)

        def havoc(self, it, env, k):
            self.arr.buf.get = lambda x: par(k, x)
    c.provider = lambda it, s, env, sv: Parity() if sv[0] is w.ne else None
    got = c.run(G.result_as_error_op_selection, g)
    c.prove(SBool(C.eq(got.shape[0], 2 * w.n)), "one per error")
    x = fresh_int("o", 0, 2 * w.n)
    c.eqv(C.asbool(got.at(x)), par(w.ne, x), f"{c.name}: of all edges")


@case("P20 results are asked for only after they are handed over")
def selection_old(c):
    w = World()
    new = C.fun_bool("new_results", 1)
    w.comp.fields["decoder_results_new"] = new
    i = fresh_int("c", 0, w.nc)
    cur().assume(new(i))
    e = c.raises(G.result_as_error_op_selection, w.graph(
        error_ops=SSeq(2 * w.n, lambda k: ("error", k))))
    c.prove(SBool(z3.BoolVal(isinstance(e, ValueError))), "rejected")


@case("P20 a component's own numbering")
def component_init(c):
    s = cur()
    nv, ne = fresh_int("vertices", 1), fresh_int("edges", 0)
    vi, at = C.fun_int("vertex_number", 1, 0), C.fun_int("place", 1)
    ends, end = C.fun_int("ends", 1, 0), C.fun_int("end", 2)
    j, e = z3.Ints("j! e!")
    v = vi.z3(j)
    s.assume(SBool(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < nv.t), z3.And(
        v >= 0, at.z3(v) == j)), patterns=[v])))
    x = end.z3(e, j)                   # ends are vertices of the component
    s.assume(SBool(z3.ForAll([e, j], z3.Implies(z3.And(
        e >= 0, e < ne.t, j >= 0, j < ends.z3(e)), z3.And(x >= 0, x < nv.t)),
        patterns=[x])))
    s.assume(SBool(z3.ForAll([e], ends.z3(e) >= 0, patterns=[ends.z3(e)])))
    vertex = SStruct(sg.Vertex, {"vertex_idx": vi}, "vertex")
    vertices = SSeq(nv, vertex)
    edge = SStruct(sg.Edge, {
        "edge_idx": C.fun_int("edge_number", 1, 0),
        "vertices": lambda e: SSeq(ends(e), lambda j: vertices.at(end(e, j)))}, "edge")
    comp = sg.SyndromeGraphComponent.__new__(sg.SyndromeGraphComponent)
    w = fresh_array("weights", (ne,), "f")
    c.run(sg.SyndromeGraphComponent.__init__, comp, vertices, SSeq(ne, edge), w)
    c.prove(SBool(C.eq(comp.n_vertices, nv)), "its size")
    i = fresh_int("i", 0, nv)
    c.eqv(comp.parent_vertex_idx[i], vi(i), f"{c.name}: numbers of its vertices")
    k = fresh_int("k", 0, ne)
    c.eqv(comp.parent_edge_idx[k], edge.fields["edge_idx"](k), f"{c.name}: and edges")
    got = Q.parts(comp.edges)
    c.emissions(got, [Q.Each(ne, lambda k: [SSeq(ends(k), lambda j: end(k, j))])],
                "ends by its own numbering")
    c.eqv(comp.has_dangling_edges, Q.quant("any", ne, lambda k: SBool(C.eq(ends(k), 1))),
          f"{c.name}: whether some edge has one end")


for _kind in ("errors", "weights", "neither", "unweighted", "both", "missing"):
    def _manager(kind):
        @case(f"P20 weights of the graph of a code ({kind})")
        def go(c):
            code, data, given, derived, graph = (Token(x) for x in (
                "code", "error data", "weights", "derived weights", "graph"))
            made = []

            def comp(it, a, k):
                a, k = bound(sg.weights_.WeightComputation, a, k)
                if a[0] is not code or a[1] is not data:
                    raise Unsupported("weights of something else")
                return Computation(derived)

            def from_code(it, a, k):
                a = list(a) if a and a[0] is G else [G, *a]
                a, k = bound(G.from_code.__func__, a, k)
                made.append(a[1:])
                return graph
            c.contracts[sg.weights_.WeightComputation] = comp
            c.contracts[G.from_code] = c.contracts[G.from_code.__func__] = from_code
            m = sg.SyndromeGraphManager.__new__(sg.SyndromeGraphManager)
            args = {"errors": (data, {}), "weights": (None, {"weights": given}),
                    "neither": (None, {}), "unweighted": (data, {"weighted": False}),
                    "both": (data, {"weights": given}),
                    "missing": (None, {"weighted": True})}[kind]
            e = c.raises(sg.SyndromeGraphManager.__init__, m, code, args[0], **args[1])
            if kind in ("both", "missing"):
                c.prove(SBool(z3.BoolVal(isinstance(e, ValueError))), "rejected")
                return
            want = {"errors": derived, "weights": given}.get(kind)
            c.prove(SBool(z3.BoolVal(e is None)), "accepted")
            if e is not None:
                return
            c.prove(SBool(z3.BoolVal(len(made) == 1 and made[0][0] is code
                                     and made[0][1] is want)), "those weights")
            c.prove(SBool(z3.BoolVal(m.sgraph is graph and m.code is code)), "kept")
        return go
    globals()[f"manager_{_kind}"] = _manager(_kind)
