"""P21: every decoder returns a correction that explains the syndrome."""
import numpy as np
import z3
from plaquette import syngraph as sg
from plaquette.decoders import decoderbase as db
from plaquette.decoders import fusionblossom as fbd
from plaquette.decoders import matching as pmd
from plaquette.decoders import unionfind_decoder as uf
from plaquette.decoders import unionfind_erasure as ue
from plaquette.decoders import unionfind_interfaces as ui

from contracts import syn
from contracts.common import (C, SArr, SBool, SInt, Unsupported, cur, eq, fresh_array,
                              fresh_int)
from contracts.layout import bound
from pyvc import seq as Q
from pyvc.contract import case
from pyvc.interp import Inv
from pyvc.seq import SSeq, SStruct

FUNCTIONS = ["decoders.decoderbase." + f for f in (
    "DecoderInterface.decode", "DecoderInterface._update_syngraph",
    "ComponentDecoder.set_syngraph", "ComponentDecoder.decode",
    "ComponentDecoder._check_decodable", "check_weights_sane")] + [
    "syngraph.SyndromeGraphComponent.is_weighted"] + [
    f"decoders.{m}.{f}" for m in ("matching.PyMatchingDecoder",
                                  "fusionblossom.FusionBlossomDecoder")
    for f in ("set_syngraph", "update_weights", "decode")] + [
    "decoders.unionfind_interfaces.UnionFindBase." + f for f in ("set_syngraph", "decode")
] + ["decoders.unionfind_decoder." + f for f in (
    "UnionFindDecoder.decode", "UnionFindNoWeights.union_find",
    "UnionFindNoWeights.set_weights", "UnionFindNoWeights.handle_new_edges",
    "UnionFind._set_weights", "Cluster.merge_with", "Cluster.add_vertex",
    "Cluster.add_dangling_edge", "Cluster.update_after_growth", "Graph.reset",
    "Graph.set_syndrome", "Graph.get_complete_edges", "Graph.refresh_open_clusters",
    "Graph.init_syndrome_clusters", "Vertex.reset", "Edge.grow", "Edge.is_complete")] + [
    "decoders.unionfind_erasure." + f for f in (
        "ErasureDecoder.decode", "ErasureDecoder.peel_forest", "Graph.enable_edges",
        "Graph.pop_leaf")]
ASSUMPTIONS = [
    "pymatching and fusion_blossom return a correction for the graph given to them",
    "leaves of a forest: their edge does not end twice in the leaf",
    "heaviest weight positive (fusion_blossom), smallest nonzero weight positive",
    "growing edges lie at the boundary of a cluster and none at an interior vertex",
    "bounded only: forest construction, erasure clusters, the step of growth, and that "
    "the parts combine to a correction of every syndrome"]
LEVEL = "exploration"


def true(b):
    return SBool(z3.BoolVal(bool(b)))


class Spy:
    """Records what is called on it, in order with all others of the same trace."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, trace, name, results=None, **attrs):
        vars(self).update(attrs)
        self.trace_, self.name_, self.results_ = trace, name, results or {}

    def __getattr__(self, m):
        if m.startswith("pyvc_") or m.endswith("_"):
            raise AttributeError(m)
        if m not in self.results_:
            raise Unsupported(f"{m} of {self.name_}")
        return Call(self, m)


class Call:
    pyvc_ok = True
    __hash__ = None

    def __init__(self, spy, m):
        self.spy, self.m = spy, m

    def __call__(self, *a, **k):
        s = self.spy
        s.trace_.append((s.name_, self.m, a, k))
        r = s.results_[self.m]
        return r(*a, **k) if callable(r) else r


class Token:
    pyvc_ok = True

    def __init__(self, name):
        self.name = name


def same_calls(c, trace, want, what):
    """The calls made are exactly these (arguments by identity)."""
    ok = len(trace) == len(want)
    for (n, m, a, k), (n2, m2, a2) in zip(trace, want):
        ok = ok and n == n2 and m == m2 and not k and len(a) == len(a2) and all(
            x is y for x, y in zip(a, a2))
    if not ok:
        c.fail(what, str([t[:2] for t in trace]))
    else:
        c.prove(true(True), what)


# ------------------------------------------------------------ one sample
for _upd in sg.SyndromeGraphUpdate:
    def _decode(upd):
        @case(f"P21 decode a sample ({upd.name})")
        def go(c):
            trace, er, syndrome, frame = [], Token("erasure"), Token("syndrome"), Token("r")
            graph = Spy(trace, "graph", {"update_decoder_results": None,
                                         "result_as_pauli_frame": lambda: frame})
            mgr = Spy(trace, "manager", {"update_for_decoding": lambda *a: upd},
                      sgraph=graph)
            dec = Spy(trace, "decoder", {"update_weights": None, "set_syngraph": None,
                                         "decode": None})
            d = db.DecoderInterface.__new__(db.DecoderInterface)
            d.synmgr, d.decoder = mgr, dec
            r = c.run(db.DecoderInterface.decode, d, er, syndrome)
            want = [("manager", "update_for_decoding", (er, syndrome))]
            if upd is sg.SyndromeGraphUpdate.Weights:
                want.append(("decoder", "update_weights", ()))
            elif upd is sg.SyndromeGraphUpdate.GraphAndWeights:
                want.append(("decoder", "set_syngraph", (graph,)))
            want += [("decoder", "decode", (er, syndrome)),
                     ("graph", "update_decoder_results", ()),
                     ("graph", "result_as_pauli_frame", ())]
            same_calls(c, trace, want, "this sample, then its result")
            c.prove(true(r is frame), "the result")
        return go
    globals()[f"decode_{_upd.name}"] = _decode(_upd)


# ------------------------------------------------------------ components
class Dec:
    """The decoder of one component."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, log, comp=None):
        self.log, self.comp = log, comp

    def set_syngraph(self, comp):
        self.comp = comp

    def decode(self):
        log = self.log
        cur().prove(SBool(C.eq(self.comp, log.n)), f"{log.name}: each once")
        log.n = log.n + 1


class Decs:
    pyvc_ok = True
    __hash__ = None

    def __init__(self):
        self.n, self.last = 0, None

    def append(self, d):
        if not isinstance(d, Dec) or d.comp is not None:
            raise Unsupported("another decoder")
        self.n, self.last = self.n + 1, d

    def __getitem__(self, i):
        if i == -1 and self.last is not None:
            return self.last
        raise Unsupported("this decoder")


@case("P21 one decoder per component")
def set_syngraph(c):
    nc = fresh_int("components", 0)
    comps = SSeq(nc, SStruct(sg.SyndromeGraphComponent, {}, "component"))
    g = sg.SyndromeGraph.__new__(sg.SyndromeGraph)
    g.components_with_edges = comps

    class Kind:
        pyvc_ok = True
    c.contracts[Kind] = lambda it, a, k: Dec(None)
    d = db.ComponentDecoder.__new__(db.ComponentDecoder)
    d.decoder_cls, d.decoders = Kind, ["old"]

    class So(Inv):
        name = "components so far"
        started = False

        def check(self, it, env, k, name):
            if not self.started:
                self.started = True
                c.prove(true(isinstance(d.decoders, list) and not d.decoders),
                        "decoders of an earlier graph are dropped")
                d.decoders = Decs()
                return
            x = d.decoders
            cur().prove(SBool(C.eq(x.n, k)), name + ": one each")
            if x.last is None or x.last.comp is None:
                return cur().fail(name + ": its component", "none")
            c.prove(true(x.last.comp.struct is comps.at(0).struct), "a component")
            cur().prove(SBool(C.eq(x.last.comp.idx[0], k - 1)), name + ": its component")

        def havoc(self, it, env, k):
            d.decoders.n, d.decoders.last = k, None
    c.provider = lambda it, s, env, sv: So() if sv[0] is nc else None
    c.run(db.ComponentDecoder.set_syngraph, d, g)
    c.prove(true(d.sgraph is g), "the graph")
    c.prove(SBool(C.eq(d.decoders.n, nc)), "all components")


@case("P21 all components are decoded")
def decode_all(c):
    trace, er, syndrome = [], Token("erasure"), Token("syndrome")
    n = fresh_int("components", 0)
    log = Token("done")
    log.n, log.name = 0, c.name
    d = db.ComponentDecoder.__new__(db.ComponentDecoder)
    d.sgraph = Spy(trace, "graph", {"set_erasure": None, "set_syndrome": None})
    d.decoders = SSeq(n, lambda k: Dec(log, k))
    c.contracts[db.ComponentDecoder._check_decodable] = lambda it, a, k: trace.append(
        ("self", "check", (), {}))
    c.provider = lambda it, s, env, sv: syn.Grow(
        "decoders so far", [(log, "n", lambda v, k: v + k)]) if sv[0] is n else None
    c.run(db.ComponentDecoder.decode, d, er, syndrome)
    calls = trace
    if trace and trace[0][1] == "set_syndrome":            # either first
        calls = trace[1::-1] + trace[2:]
    same_calls(c, calls, [("graph", "set_erasure", (er,)),
                          ("graph", "set_syndrome", (syndrome,)),
                          ("self", "check", ())], "given to the graph, then checked")
    c.prove(SBool(C.eq(log.n, n)), "all of them")


class Bits:
    """The syndrome of a component: its first bit and how many are set."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, n, first, total):
        self.shape, self.first, self.total = (n,), first, total

    def __getitem__(self, i):
        if i == 0:
            return self.first
        raise Unsupported("this bit")

    def sum(self):
        return self.total


@case("P21 exactly impossible syndromes are rejected")
def decodable(c):
    s = cur()
    nc = fresh_int("components", 0)
    ne = C.fun_int("edges", 1, 0)
    first, total = C.fun_bool("first", 1), C.fun_int("total", 1, 0)
    dangling = C.fun_bool("dangling", 1)
    comps = SSeq(nc, SStruct(sg.SyndromeGraphComponent, {
        "edges": lambda i: SSeq(ne(i), lambda j: 0),
        "n_vertices": lambda i: C.ite(SBool(C.eq(ne(i), 0)), 1, ne(i)),
        "has_dangling_edges": dangling,
        "syndrome": lambda i: Bits(1 if bool(SBool(C.eq(ne(i), 0))) else ne(i),
                                   first(i), total(i))}, "component"))

    def bad(i):
        return z3.If(ne.z3(i) == 0, first.z3(i), z3.And(
            z3.Not(dangling.z3(i)), total.z3(i) % 2 == 1))
    B = C.fun_bool("impossible", 1)
    i = z3.Int("i!")
    s.assume(SBool(z3.ForAll([i], z3.And(
        B.z3(i) == bad(i), ne.z3(i) >= 0, total.z3(i) >= 0), patterns=[B.z3(i)])),
        axiom=True)
    d = db.ComponentDecoder.__new__(db.ComponentDecoder)
    d.sgraph = sg.SyndromeGraph.__new__(sg.SyndromeGraph)
    d.sgraph.components = comps

    def upto(k):
        return SBool(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < C.intterm(k)),
                                               z3.Not(B.z3(i))), patterns=[B.z3(i)]))
    which = [None]

    class G(syn.Grow):
        def havoc(self, it, env, k):
            which[0] = k
            s.assume(SBool(B(k).t == B(k).t))
            super().havoc(it, env, k)
            s.assume(SBool(z3.And(B.z3(C.intterm(k)) == bad(C.intterm(k)))))
    c.provider = lambda it, s, env, sv: G("components so far", [], upto) \
        if sv[0] is nc else None
    e = c.raises(db.ComponentDecoder._check_decodable, d)
    if e is None:
        c.prove(upto(nc), "none is impossible")
    else:
        c.prove(true(isinstance(e, ValueError)), "the documented error")
        k = which[0]
        c.prove(C.land(k >= 0, k < nc, B(k)), "rejected when impossible")


# ------------------------------------------------------------ weights
def nans(c, n):
    f = C.fun_bool("nan", 1)
    c.contracts[np.isnan] = lambda it, a, k: SArr.of(f, (n,), "b")
    return f


@case("P21 a graph is weighted when all its edges are")
def weighted(c):
    n = fresh_int("edges", 0)
    f = nans(c, n)
    comp = sg.SyndromeGraphComponent.__new__(sg.SyndromeGraphComponent)
    comp.edge_weights = fresh_array("weights", (n,), "f")
    mixed = bool(C.fresh_bool("mixed"))
    e = c.raises(sg.SyndromeGraphComponent.is_weighted, comp, support_mixed=mixed)
    every, some = (Q.quant(q, n, lambda i: f(i)) for q in ("all", "any"))
    if e is not None:
        c.prove(true(isinstance(e, ValueError) and not mixed), "the documented error")
        c.prove(C.land(some, C.lnot(every)), "some have weights and some have none")
        return
    c.prove(SBool(C.eq(C.asbool(c.result), C.lnot(every))), "whether there are weights")
    c.prove(C.lor(true(mixed), every, C.lnot(some)), "mixtures are rejected")


@case("P21 weights that cannot be used are rejected")
def sane(c):
    n = fresh_int("edges", 0)
    w = fresh_array("weights", (n,), "f")
    f = nans(c, n)
    inf = C.fun_bool("infinite", 1)
    c.contracts[np.isinf] = lambda it, a, k: SArr.of(inf, (n,), "b")
    import warnings
    warned = []
    c.contracts[warnings.warn] = lambda it, a, k: warned.append(a)
    e = c.raises(db.check_weights_sane, w)
    bad = Q.quant("any", n, lambda i: C.lor(f(i), w.at(i) < 0))
    odd = Q.quant("any", n, lambda i: C.lor(SBool(C.eq(w.at(i), 0)), inf(i)))
    if e is not None:
        c.prove(true(isinstance(e, ValueError)), "the documented error")
        c.prove(bad, "only those")
    else:
        c.prove(C.lnot(bad), "all of them")
        c.prove(SBool(C.eq(C.asbool(c.result), C.lnot(odd))), "zero or infinite ones are told")
        c.prove(SBool(C.eq(true(bool(warned)), odd)), "with a warning")


@case("P21 no weights are fine")
def sane_none(c):
    c.prove(true(c.run(db.check_weights_sane, None) is True), "accepted")


# ------------------------------------------------------------ union find
def union_find_component(trace, weighted):
    comp = Spy(trace, "component", {
        "is_weighted": lambda *a, **k: weighted, "set_edge_decoder_results": None},
        n_vertices=Token("size"), edges=Token("edges"), edge_weights=Token("weights"))
    return comp


for _w in (True, False):
    def _uf(weighted):
        @case(f"P21 union find gets the graph of its component ({weighted})")
        def go(c):
            trace, checked = [], []
            comp = union_find_component(trace, weighted)
            dec = Spy(trace, "decoder", {"set_weights": None})
            made = []

            def graph(it, a, k):
                a, _ = bound(ue.Graph, a, k)
                made.append(a)
                return "the graph"
            c.contracts[ue.Graph] = graph
            c.contracts[db.check_weights_sane] = lambda it, a, k: checked.append(a[0])

            class Kind(ui.UnionFindBase):
                pyvc_ok = True

                @staticmethod
                def _get_union_find(g):
                    made.append(g)
                    return dec
            c.contracts[Kind._get_union_find] = lambda it, a, k: Kind._get_union_find(*a)
            d = object.__new__(Kind)
            c.run(ui.UnionFindBase.set_syngraph, d, comp)
            c.prove(true(d.sgraph is comp and d.decoder is dec), "its graph, a decoder")
            c.prove(true(len(made) == 2 and made[0][0] is comp.n_vertices
                         and made[0][1] is comp.edges and made[1] == "the graph"),
                    "of these vertices and edges")
            w = [t[2] for t in trace if t[1] == "set_weights"]
            c.prove(true(len(w) == 1 and len(w[0]) == 1 and (
                w[0][0] is comp.edge_weights if weighted else w[0][0] is None)),
                "its weights")
            c.prove(true(not weighted or len(checked) == 1
                         and checked[0] is comp.edge_weights), "weights are checked")
        return go
    globals()[f"uf_{_w}"] = _uf(_w)


@case("P21 union find decodes its own sample")
def uf_decode(c):
    n, m = fresh_int("vertices", 1), fresh_int("edges", 0)
    erased, syndrome = fresh_array("erased", (m,), "b"), fresh_array("syndrome", (n,), "b")
    trace, results = [], []
    chosen = C.fun_bool("chosen", 1)
    comp = Spy(trace, "component", {
        "set_edge_decoder_results": lambda r: results.append(r)},
        edge_erased=erased, syndrome=syndrome)
    dec = Spy(trace, "decoder", {"decode": lambda *a: SSeq(m, lambda k: chosen(k))})
    d = object.__new__(ui.UnionFindNoWeights)
    d.sgraph, d.decoder = comp, dec
    c.run(ui.UnionFindBase.decode, d)
    calls = [t for t in trace if t[1] == "decode"]
    c.prove(true(len(calls) == 1 and len(calls[0][2]) == 2
                 and calls[0][2][1] is syndrome), "its syndrome")
    given = calls[0][2][0]
    if not isinstance(given, Q.IdxSet):
        raise Unsupported("how erased edges are given")
    k = fresh_int("k", 0, m)
    c.prove(SBool(C.eq(given.pred(k), C.asbool(erased.at(k)))), "its erased edges")
    c.prove(true(len(results) == 1), "one result")
    r = results[0]
    c.prove(SBool(C.eq(r.shape[0], m)), "one bit per edge")
    c.eqv(C.asbool(r.at(k)), chosen(k), f"{c.name}: the result")


@case("P21 union find, then the forest of what it grew")
def uf_pipeline(c):
    trace, res = [], Token("result")
    grown, erasure, syndrome = Token("grown"), Token("erasure"), Token("syndrome")
    d = object.__new__(uf.UnionFindDecoder)
    d.uf = Spy(trace, "growth", {"union_find": lambda *a: grown})
    d.elib = Spy(trace, "erasure decoder", {"decode": lambda *a: res})
    r = c.run(uf.UnionFindDecoder.decode, d, erasure, syndrome)
    same_calls(c, trace, [("growth", "union_find", (erasure, syndrome)),
                          ("erasure decoder", "decode", (grown, syndrome))],
               "the same syndrome for both")
    c.prove(true(r is res), "the result")


# ------------------------------------------------------------ peeling
class Bools:
    """A list of truth values of any length."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, arr):
        self.arr = arr

    def pyvc_len(self):
        return self.arr.shape[0]

    def pyvc_iter(self, it):
        return Q.parts(self.arr)

    def __getitem__(self, i):
        return self.arr[i]

    def __setitem__(self, i, v):
        self.arr[i] = v


def all_false(x, n):
    """Is this [False] * n ?"""
    if not isinstance(x, list) or len(x) != 1 or not isinstance(x[0], Q.Each):
        return False
    return C.intterm(x[0].n).eq(C.intterm(n)) and list(x[0].fn(0)) == [False]


class Forest:
    """What pop_leaves gives: a vertex, and the one edge which is left at it with its
    other end (-1: none); every edge once.  Edges have one or two ends."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, nv, ne):
        s = cur()
        self.nl = fresh_int("leaves", 0)
        self.leaf, self.edge = C.fun_int("leaf", 1, 0, nv), C.fun_int("its_edge", 1, -1, ne)
        self.other = C.fun_int("other_end", 1, -1, nv)
        k = z3.Int("k!")
        l, e, o = (f.z3(k) for f in (self.leaf, self.edge, self.other))
        s.assume(SBool(z3.ForAll([k], z3.And(
            l >= 0, l < nv.t, e >= -1, e < ne.t, o >= -1, o < nv.t, o != l),
            patterns=[e])))
        self.left = C.fun_int("left", 1, 0)

    def update_neighbours(self):
        pass

    def update_leaves(self):
        pass

    def pop_leaves(self):
        return SSeq(self.nl, lambda k: (self.leaf(k), self.edge(k), self.other(k)))

    def get_neighbours(self, v):
        return SSeq(self.left(v), lambda j: 0)

    def inc(self, k, v):
        """Is v an end of the edge of leaf k?"""
        return C.lor(SBool(C.eq(v, self.leaf(k))), SBool(C.eq(v, self.other(k))))


class Peel(Inv):
    """The boundary of what is selected and what is left make the syndrome."""
    name = "leaves so far"

    def __init__(self, f, nv, ne, left, given):
        self.f, self.nv, self.ne, self.left, self.given = f, nv, ne, left, given
        self.corr, self.par = None, lambda v: SBool(z3.BoolVal(False))
        self.vars = ()

    def check(self, it, env, k, name):
        s = cur()
        v = fresh_int("v", 0, self.nv)
        if self.corr is None:
            for x, val in list(env.vars.items()):
                for n in (self.ne, self.nv):
                    if all_false(val, n):
                        env.vars[x] = Bools(SArr.of(
                            lambda i: SBool(z3.BoolVal(False)), (n,), "b"))
                        self.vars += (x,)
                        if n is self.ne:
                            self.corr = env.vars[x]
            if self.corr is None:
                raise Unsupported("where the correction is kept")
            left = C.asbool(self.left.at(v))
            s.prove(SBool(left.t == self.given(v).t), name)
            return
        e = fresh_int("e", 0, self.ne)
        old, new = self.before, self.corr.arr
        it_ = self.f.edge(self.k)
        changed = SBool(C.boolterm(C.asbool(old(e))) != C.boolterm(C.asbool(new.at(e))))
        s.prove(C.lor(C.lnot(changed), SBool(C.eq(e, it_))),
                name + ": only the edge of this leaf")

        def boundary():
            flip = C.land(it_ >= 0, SBool(C.boolterm(C.asbool(old(it_))) != C.boolterm(
                C.asbool(new.at(it_)))), self.f.inc(self.k, v)) if bool(it_ >= 0) else \
                SBool(z3.BoolVal(False))
            par = z3.Xor(self.par(v).t, C.boolterm(flip))
            s.prove(SBool(z3.Xor(par, C.boolterm(C.asbool(self.left.at(v))))
                          == self.given(v).t), name + ": boundary")
        s.each(boundary, name + ": boundary")

    def havoc(self, it, env, k):
        s = cur()
        for n in self.vars:
            b = env.vars[n]
            f = C.fun_bool("list", 1)
            b.arr.buf.get = f
            if b is self.corr:
                self.before = f
        par = C.fun_bool("boundary", 1)
        given = self.given
        self.par, self.k = par, k
        self.left.buf.get = lambda v: SBool(z3.Xor(par(v).t, given(v).t))


@case("P21 what peeling selects makes up what it removes of the syndrome")
def peel(c):
    nv, ne = fresh_int("vertices", 1), fresh_int("edges", 0)
    f = Forest(nv, ne)
    d = object.__new__(ue.ErasureDecoder)
    d.forest = f
    d.graph = Token("graph")
    d.graph.n_vertices, d.graph.n_edges = nv, ne
    syndrome = fresh_array("syndrome", (nv,), "b")
    g = syndrome.buf.get
    inv = []

    def prov(it, s, env, sv):
        if sv[0] is f.nl:
            inv.append(Peel(f, nv, ne, syndrome, lambda v: C.asbool(g(v))))
            return inv[-1]
        return None
    c.provider = prov
    e = c.raises(ue.ErasureDecoder.peel_forest, d, syndrome)
    if e is not None:
        c.prove(true(isinstance(e, AssertionError)), "nothing else is raised")
        return
    p = inv[-1]
    c.prove(true(c.result is p.corr), "the selection")
    v = fresh_int("v", 0, nv)
    c.prove(SBool(z3.Xor(p.par(v).t, C.boolterm(C.asbool(syndrome.at(v)))) ==
                  C.boolterm(C.asbool(g(v)))), "boundary and rest make the syndrome")


# ------------------------------------------------------------ matching
class Edges:
    """The edges of a component: one or two ends each."""

    def __init__(self, nv, ne):
        s = cur()
        self.nv, self.ne = nv, ne
        self.a, self.b = C.fun_int("a", 1, 0, nv), C.fun_int("b", 1, 0, nv)
        self.two = C.fun_bool("two_ends", 1)
        k = z3.Int("k!")
        s.assume(SBool(z3.ForAll([k], z3.And(
            self.a.z3(k) >= 0, self.a.z3(k) < nv.t, self.b.z3(k) >= 0,
            self.b.z3(k) < nv.t, z3.Implies(self.two.z3(k), self.a.z3(k) != self.b.z3(k))),
            patterns=[self.two.z3(k)])), axiom=True)
        self.seq = SSeq(ne, self.item)

    def item(self, k):
        two, a, b = self.two(k), self.a(k), self.b(k)
        cur().assume(C.land(a >= 0, a < self.nv, b >= 0, b < self.nv,
                            C.lor(C.lnot(two), C.lnot(SBool(C.eq(a, b))))))
        return (a, b) if bool(two) else (a,)

    def check_ends(self, k, x, y, outside, name):
        """(x, y) are the ends of edge k, `outside(node)` is one beyond the vertices."""
        a, b = self.a(k), self.b(k)

        def pair(p, q):
            return C.lor(C.land(SBool(C.eq(x, p)), SBool(C.eq(y, q))),
                         C.land(SBool(C.eq(x, q)), SBool(C.eq(y, p))))
        if bool(self.two(k)):
            cur().prove(pair(a, b), name + ": its two ends")
            return None
        node = C.ite(SBool(C.eq(x, a)), y, x)
        cur().prove(C.land(pair(a, node), node >= self.nv), name + ": its end and beyond")
        outside(node)
        return node


class Matching:
    """pymatching.Matching, as it is used: edges with the faults they stand for."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, c, edges, weights):
        self.c, self.e, self.w, self.n, self.boundary = c, edges, weights, 0, None
        self.node, self.free = C.fun_int("node", 1), None

    def add_edge(self, x, y, fault_ids=None, weight=None, error_probability=None,
                 merge_strategy="disallow", **other):
        c, e, s, k = self.c, self.e, cur(), self.n
        if other or error_probability is not None:
            raise Unsupported("other arguments of add_edge")
        name = c.name + ": an edge of the matching"
        s.prove(SBool(C.eq(fault_ids, k)), name + ": the edge it stands for")
        if self.w is None:
            ok = weight is None or C.eq(weight, weight)
            s.prove(true(ok is True or ok is not None), name + ": no weight")
        elif weight is None:
            s.fail(name + ": its weight", "none")
        else:
            c.eqv(weight, self.w.at(k), name + ": its weight")

        def outside(node):
            if merge_strategy == "disallow":
                j = fresh_int("j")
                s.prove(C.lor(j < 0, j >= k, e.two(j), C.lnot(SBool(C.eq(e.a(j), e.a(k)))),
                              C.lnot(SBool(C.eq(self.node(j), node)))),
                        name + ": not there yet")
            s.assume(SBool(C.eq(self.node(k), node)))
        e.check_ends(k, x, y, outside, name)
        self.n = k + 1

    def set_boundary_nodes(self, nodes):
        self.boundary = nodes


class Dangling(Inv):
    """All edges so far, dangling ones to nodes of which each vertex has used the first."""

    def __init__(self, m, name="edges so far"):
        self.m, self.name, self.cnt = m, name, None
        self.vars = ()

    def at(self, v):
        return self.cnt.at(v)

    def check(self, it, env, k, name):
        m, s = self.m, cur()
        if self.cnt is None:
            for x, val in env.vars.items():
                if isinstance(val, SArr) and val.dt.startswith("i") and len(val.shape) == 1 \
                        and C.intterm(val.shape[0]).eq(m.e.nv.t):
                    self.cnt = val
            if self.cnt is None:
                raise Unsupported("where dangling edges are counted")
        s.prove(SBool(C.eq(m.n, k)), name + ": one each")
        v, j = fresh_int("v", 0, m.e.nv), fresh_int("j")
        s.prove(self.at(v) >= 0, name + ": counted")
        s.prove(C.lor(j < 0, j >= k, self.fact(j)), name + ": nodes used")

    def fact(self, j):
        m = self.m
        return C.lor(m.e.two(j), C.land(
            m.node(j) >= m.e.nv, m.node(j) < m.e.nv + self.at(m.e.a(j)),
            m.e.a(j) >= 0, m.e.a(j) < m.e.nv))

    def havoc(self, it, env, k):
        s, m = cur(), self.m
        m.n = k
        f = C.fun_int("used", 1, 0)
        self.cnt.buf.get = f
        v, j = z3.Int("v!"), z3.Int("j!")
        s.assume(SBool(z3.ForAll([v], f.z3(v) >= 0, patterns=[f.z3(v)])))
        s.assume(SBool(z3.ForAll([j], z3.Implies(
            z3.And(j >= 0, j < C.intterm(k)), self.fact(SInt(j)).t),
            patterns=[m.node.z3(j)])))


for _w in (True, False):
    def _pm(weighted):
        @case(f"P21 matching gets every edge ({weighted})")
        def go(c):
            import pymatching
            nv, ne = fresh_int("vertices", 1), fresh_int("edges", 0)
            e = Edges(nv, ne)
            w = fresh_array("weights", (ne,), "f")
            comp = Spy([], "component", {"is_weighted": lambda *a, **k: weighted},
                       n_vertices=nv, edges=e.seq, edge_weights=w)
            checked = []
            c.contracts[db.check_weights_sane] = lambda it, a, k: checked.append(a[0])
            made = []

            def matching(it, a, k):
                made.append(Matching(c, e, w if weighted else None))
                return made[-1]
            c.contracts[pymatching.Matching] = matching
            d = object.__new__(pmd.PyMatchingDecoder)
            c.provider = lambda it, s, env, sv: Dangling(made[-1]) \
                if C.intterm(sv[0]).eq(ne.t) else None
            c.run(pmd.PyMatchingDecoder.set_syngraph, d, comp)
            c.prove(true(len(made) >= 1 and d.mgraph is made[-1] and d.sgraph is comp),
                    "its graph")
            c.prove(true(not weighted or len(checked) == 1 and checked[0] is w),
                    "weights are checked")
            m = made[-1]
            c.prove(SBool(C.eq(m.n, ne)), "every edge")
            j = fresh_int("j")
            if m.boundary is None:
                c.prove(C.lor(j < 0, j >= ne, e.two(j)), "no dangling edges, no boundary")
                return
            used = c.it.contains(m.boundary, m.node(j))
            c.prove(C.lor(j < 0, j >= ne, e.two(j), C.asbool(used)),
                    "the other ends of dangling edges are boundary")
            v = fresh_int("v", 0, nv)
            c.prove(C.lnot(C.asbool(c.it.contains(m.boundary, v))),
                    "vertices are not boundary")
        return go
    globals()[f"pm_{_w}"] = _pm(_w)


@case("P21 matching decodes its own sample")
def pm_decode(c):
    n, m = fresh_int("vertices", 1), fresh_int("edges", 0)
    erased, syndrome = fresh_array("erased", (m,), "b"), fresh_array("syndrome", (n,), "b")
    trace, results = [], []
    out = fresh_array("faults", (m,), "u1")
    comp = Spy(trace, "component", {
        "set_edge_decoder_results": lambda r: results.append(r)},
        edge_erased=erased, syndrome=syndrome)
    d = object.__new__(pmd.PyMatchingDecoder)
    d.sgraph, d.mgraph = comp, Spy(trace, "matching", {"decode": lambda *a: out})
    e = c.raises(pmd.PyMatchingDecoder.decode, d)
    some = Q.quant("any", m, lambda i: C.asbool(erased.at(i)))
    if e is not None:
        c.prove(true(isinstance(e, ValueError) and not results), "the documented error")
        c.prove(some, "only for erasures")
        return
    c.prove(C.lnot(some), "erasures are rejected")
    calls = [t for t in trace if t[1] == "decode"]
    c.prove(true(len(calls) == 1 and len(calls[0][2]) == 1
                 and calls[0][2][0] is syndrome), "its syndrome")
    c.prove(true(len(results) == 1), "one result")
    r, k = results[0], fresh_int("k", 0, m)
    c.prove(SBool(C.eq(r.shape[0], m)), "one bit per edge")
    c.eqv(C.asbool(r.at(k)), C.lnot(SBool(C.eq(out.at(k), 0))), f"{c.name}: the result")


for _cls in (pmd.PyMatchingDecoder, fbd.FusionBlossomDecoder):
    def _upd_w(cls):
        @case(f"P21 new weights reach the matcher ({cls.__name__})")
        def go(c):
            comp, seen = Token("component"), []
            d = object.__new__(cls)
            d.sgraph = comp
            c.contracts[cls.set_syngraph] = lambda it, a, k: seen.append(a)
            c.run(cls.update_weights, d)
            c.prove(true(len(seen) == 1 and seen[0][0] is d and seen[0][1] is comp),
                    "the graph is built again")
        return go
    globals()[f"new_weights_{_cls.__name__}"] = _upd_w(_cls)


# ------------------------------------------------------------ fusion blossom
class FbEdges:
    """The list of edges handed to fusion blossom."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, c, e, w):
        self.c, self.e, self.w, self.n = c, e, w, 0
        self.node = C.fun_int("node", 1)

    def append(self, t):
        c, e, s, k = self.c, self.e, cur(), self.n
        name = c.name + ": an edge"
        if not isinstance(t, tuple) or len(t) != 3:
            raise Unsupported("edges of this form")

        def outside(node):
            s.assume(SBool(C.eq(self.node(k), node)))
        e.check_ends(k, t[0], t[1], outside, name)
        if self.w is None:
            s.prove(t[2] > 0, name + ": some weight")
            w, k2 = C.intterm(t[2]), fresh_int("k")
            s.prove(SBool(w == z3.substitute(w, (C.intterm(k), k2.t))),
                    name + ": the same for all")
        else:
            self.w(t[2], k, name + ": its weight")
        self.n = k + 1

    def pyvc_len(self):
        return self.n


class Open:
    """The list of virtual vertices: consecutive numbers."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, first):
        self.first, self.n = first, 0

    def append(self, v):
        cur().prove(SBool(C.eq(v, self.first + self.n)), "virtual vertices: consecutive")
        self.n = self.n + 1

    def pyvc_len(self):
        return self.n

    def __getitem__(self, i):
        if isinstance(i, int) and i == -1:
            if not bool(SBool(C.intterm(self.n) > 0)):
                C.raise_(IndexError, "list index out of range")
            return self.first + self.n - 1
        raise Unsupported("this virtual vertex")


class FbSo(Inv):
    name = "edges so far"

    def __init__(self, c, e, w):
        self.c, self.e, self.w = c, e, w
        self.edges = self.open = None
        self.vars = ()

    def check(self, it, env, k, name):
        s, e = cur(), self.e
        if self.edges is None:
            for x, v in list(env.vars.items()):
                if isinstance(v, list) and not v:
                    self.vars += (x,)
            if set(self.vars) != {"edges", "open_vertices"}:
                raise Unsupported("which lists are built")
            self.edges = env.vars["edges"] = FbEdges(self.c, e, self.w)
            self.open = env.vars["open_vertices"] = Open(e.nv)
        s.prove(SBool(C.eq(self.edges.n, k)), name + ": one each")
        j = fresh_int("j")
        s.prove(C.lor(j < 0, j >= k, self.fact(j)), name + ": virtual ends")
        s.prove(SBool(C.intterm(self.open.n) >= 0), name + ": virtual vertices")

    def fact(self, j):
        e = self.e
        return C.lor(e.two(j), C.land(self.edges.node(j) >= e.nv,
                                      self.edges.node(j) < e.nv + self.open.n))

    def havoc(self, it, env, k):
        s = cur()
        self.edges.n = k
        self.open.n = fresh_int("open", 0)
        j = z3.Int("j!")
        s.assume(SBool(z3.ForAll([j], z3.Implies(
            z3.And(j >= 0, j < C.intterm(k)), self.fact(SInt(j)).t),
            patterns=[self.edges.node.z3(j)])))


for _w in (True, False):
    def _fb(weighted):
        @case(f"P21 fusion blossom gets every edge ({weighted})")
        def go(c):
            import fusion_blossom as fb
            s = cur()
            nv, ne = fresh_int("vertices", 1), fresh_int("edges", 1)
            e = Edges(nv, ne)
            w = fresh_array("weights", (ne,), "f")
            top = C.fresh_real("heaviest")
            s.assume(top > 0)
            checked = []
            c.contracts[db.check_weights_sane] = lambda it, a, k: checked.append(a[0])

            def right(x, k, name):
                s.prove(SBool(C.eq(x % 2, 0)), name + " is even")
                s.assume(C.land(w.at(k) >= 0, w.at(k) <= top))
                s.prove(C.land(x * top <= 200 * w.at(k), x * top >= 200 * w.at(k)
                               - 2 * top), name + " is in proportion")
            vars(w)["max"] = lambda: top
            comp = Spy([], "component", {"is_weighted": lambda *a, **k: weighted},
                       n_vertices=nv, edges=e.seq, edge_weights=w)
            made = []

            def init(it, a, k):
                made.append(a)
                return "initializer"
            c.contracts[fb.SolverInitializer] = init
            c.contracts[fb.SolverSerial] = lambda it, a, k: ("solver", a)
            inv = FbSo(c, e, right if weighted else None)
            c.provider = lambda it, s, env, sv: inv \
                if C.intterm(sv[0]).eq(ne.t) else None
            d = object.__new__(fbd.FusionBlossomDecoder)
            c.run(fbd.FusionBlossomDecoder.set_syngraph, d, comp)
            c.prove(true(d.sgraph is comp and d.solver == ("solver", ["initializer"])
                         or d.solver == ("solver", ("initializer",))), "its graph")
            c.prove(true(not weighted or len(checked) == 1 and checked[0] is w),
                    "weights are checked")
            c.prove(true(len(made) == 1 and len(made[0]) == 3), "one graph")
            n, edges, virt = made[0]
            c.prove(true(edges is inv.edges and virt is inv.open), "edges, virtual ones")
            c.prove(SBool(C.eq(n, nv + virt.n)), "vertices and virtual vertices")
            c.prove(SBool(C.eq(edges.n, ne)), "every edge")
        return go
    globals()[f"fb_{_w}"] = _fb(_w)


class Chosen:
    pyvc_ok = True
    __hash__ = None

    def __init__(self, f):
        self.f = f

    def pyvc_contains(self, it, x):
        return self.f(x)


@case("P21 fusion blossom decodes its own sample, twice")
def fb_decode(c):
    import fusion_blossom as fb
    n, m = fresh_int("vertices", 1), fresh_int("edges", 0)
    state = Token("solver state")
    state.dirty = False
    pattern = object()
    given = []

    def pat(it, a, k):
        given.append((a, k))
        return pattern
    c.contracts[fb.SyndromePattern] = pat
    for turn in ("first", "second"):
        erased, syndrome = fresh_array("erased", (m,), "b"), \
            fresh_array("syndrome", (n,), "b")
        results, chosen = [], C.fun_bool("chosen", 1)

        def solve(p):
            c.prove(true(p is pattern and not state.dirty), "a fresh start with this pattern")
            state.dirty = True

        def clear():
            state.dirty = False

        def sub(x=None):
            c.prove(true(state.dirty and x is None), "the result of this sample")
            return Chosen(chosen)
        comp = Spy([], "component", {
            "set_edge_decoder_results": lambda r: results.append(r)},
            edge_erased=erased, syndrome=syndrome, edges=SSeq(m, lambda k: 0))
        if turn == "first":
            d = object.__new__(fbd.FusionBlossomDecoder)
        d.sgraph = comp
        d.solver = Spy([], "solver", {"solve": solve, "clear": clear, "subgraph": sub})
        given.clear()
        c.run(fbd.FusionBlossomDecoder.decode, d)
        c.prove(true(len(given) == 1 and not given[0][0]), "one pattern")
        kw = given[0][1]
        c.prove(true(set(kw) == {"syndrome_vertices", "erasures"}), "defects and erasures")
        for key, arr, size in (("syndrome_vertices", syndrome, n), ("erasures", erased, m)):
            k = fresh_int("k", 0, size)
            if not isinstance(kw[key], Q.IdxSet):
                raise Unsupported("how these are given")
            c.prove(SBool(C.eq(kw[key].pred(k), C.asbool(arr.at(k)))), key)
        c.prove(true(len(results) == 1), "one result")
        r, k = results[0], fresh_int("k", 0, m)
        c.prove(SBool(C.eq(r.shape[0], m)), "one bit per edge")
        c.eqv(C.asbool(r.at(k)), chosen(k), f"{c.name}: the result")


# ------------------------------------------------------------ erasure decoder
class Peeled:
    """The graph of the erasure decoder: what is enabled, what its lists of neighbours
    were made for."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, c):
        self.c, self.on, self.near = c, "old", "old"

    def clear_neighbours(self):
        self.near = None

    def reset_subgraph(self, default_vertex=True, default_edge=True):
        if default_vertex or default_edge:
            self.c.fail("starts with nothing selected", "all")
        self.on = None

    def enable_edges(self, edges, enable, select_vertices=False):
        c = self.c
        c.prove(true(enable is True and select_vertices is True and self.on is None),
                "the given edges with their vertices and nothing else")
        if self.near is not None:
            raise Unsupported("neighbours kept in step")
        self.on = edges

    def update_neighbours(self):
        self.near = self.on


class Copied:
    pyvc_ok = True

    def __init__(self):
        self.copies = []

    def copy(self):
        self.copies.append(Token("copy"))
        return self.copies[-1]


@case("P21 the erasure decoder looks at the given edges only")
def erasure_decode(c):
    g, sel, syndrome, out = Peeled(c), Token("edges"), Copied(), Token("result")
    d = object.__new__(ue.ErasureDecoder)
    d.graph, order = g, []

    def forest(it, a, k):
        c.prove(true(g.on is sel and g.near is sel), "the forest of the given edges")
        order.append("forest")

    def peel(it, a, k):
        c.prove(true(order == ["forest"] and len(a) == 2 and a[0] is d
                     and any(a[1] is x for x in syndrome.copies)),
                "its own copy of the syndrome")
        return out
    c.contracts[ue.ErasureDecoder.construct_forest] = forest
    c.contracts[ue.ErasureDecoder.peel_forest] = peel
    c.prove(true(c.run(ue.ErasureDecoder.decode, d, sel, syndrome) is out), "the result")


@case("P21 selecting edges selects their ends first")
def enable_edges(c):
    n, ne, nv = fresh_int("given", 0), fresh_int("edges", 1), fresh_int("vertices", 1)
    e, idx = Edges(nv, ne), C.fun_int("which", 1, 0, ne)
    g = object.__new__(ue.Graph)
    g.edges = e.seq
    log = Token("enabled")
    log.v, log.e, log.k = [], [], None

    def vertex(it, a, k):
        a, _ = bound(ue.Graph.enable_vertex, a, k)
        log.v.append(a[1:])

    def edge(it, a, k):
        a, _ = bound(ue.Graph.enable_edge, a, k)
        x = idx(log.k)
        c.prove(SBool(C.eq(a[1], x)), "this edge")
        c.prove(true(a[2] is True), "selected")
        ends = e.item(x)
        c.prove(true(len(log.v) == len(ends)), "as many ends")
        for v, w in zip(log.v, ends):
            c.prove(SBool(C.eq(v[0], w)), "its ends")
            c.prove(true(v[1] is True), "selected with it")
        log.e.append(x)
    c.contracts[ue.Graph.enable_vertex] = vertex
    c.contracts[ue.Graph.enable_edge] = edge

    class So(Inv):
        name = "edges so far"

        def check(self, it, env, k, name):
            if log.k is not None:
                cur().prove(true(len(log.e) == 1), name + ": each once")

        def havoc(self, it, env, k):
            log.k, log.v, log.e = k, [], []
    c.provider = lambda it, s, env, sv: So() if C.intterm(sv[0]).eq(n.t) else None
    c.run(ue.Graph.enable_edges, g, SSeq(n, lambda k: idx(k)), True, select_vertices=True)


class Neighbours:
    pyvc_ok = True
    __hash__ = None

    def __init__(self, n, edge, other):
        self.n, self.edge, self.other = n, edge, other

    def pyvc_len(self):
        return self.n

    def __getitem__(self, i):
        if i == 0 or i == -1:
            return self.edge, self.other
        raise Unsupported("this neighbour")


@case("P21 a leaf leaves with its only edge")
def pop_leaf(c):
    nv, ne = fresh_int("vertices", 1), fresh_int("edges", 1)
    leaf = fresh_int("leaf", 0, nv)
    near = fresh_int("neighbours", 0, 2)
    edge, other = fresh_int("edge", 0, ne), fresh_int("other", -1, nv)
    state = []
    g = object.__new__(ue.Graph)
    g.leaf_vertices = Spy([], "leaves", {"pop": lambda *a: leaf})
    g.vertex_enabled = SArr.of(lambda v: C.lor(SBool(C.eq(v, leaf)), C.fun_bool("on", 1)(v)),
                               (nv,), "b")
    g.neighbours = SSeq(nv, lambda v: Neighbours(near, edge, other))
    for m in ("enable_edge", "enable_vertex"):
        def on(it, a, k, m=m):
            a, _ = bound(getattr(ue.Graph, m), a, k)
            state.append((m, a[1], a[2]))
        c.contracts[getattr(ue.Graph, m)] = on
    v, x, o = c.run(ue.Graph.pop_leaf, g)
    alone = bool(SBool(C.eq(near, 0)))
    c.prove(SBool(C.eq(v, leaf)), "the leaf")
    c.prove(SBool(C.eq(x, -1 if alone else edge)), "its edge, or none")
    c.prove(SBool(C.eq(o, -1 if alone else other)), "the other end, or none")
    want = ([] if alone else [("enable_edge", edge)]) + [("enable_vertex", leaf)]
    c.prove(true([s[0] for s in state] == [w[0] for w in want]), "removed: edge, then leaf")
    for s, w in zip(state, want):
        c.prove(SBool(C.eq(s[1], w[1])), "removed: these")
        c.prove(true(s[2] is False), "removed")


# ------------------------------------------------------------ growth
class Boundary:
    """The boundary list of a cluster."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, n, tag):
        self.n, self.tag, self.parts = n, tag, [tag]
        self.one = Token(tag)

    def pyvc_len(self):
        return self.n

    def append(self, v):
        self.parts.append(v)
        self.n = self.n + 1

    def pyvc_iter(self, it):
        return Q.parts(SSeq(self.n, lambda k: (self.tag, k)))

    def pyvc_carried(self, when, v=None):
        raise Unsupported("a boundary extended in an unforeseen loop")


def cluster(name, graph):
    x = object.__new__(uf.Cluster)
    x.graph, x.idx = graph, 0
    x.boundary = Boundary(fresh_int(name + "_boundary", 0), name)
    x.n_vertices = fresh_int(name + "_size", 1)
    x.parity = fresh_int(name + "_parity", -1, 2)
    x.open = bool(C.fresh_bool(name + "_open"))
    x.root_vertex = Spy(graph.trace_, name, {"set_parent": None, "to_boundary": None})
    return x


class Joined(Inv):
    name = "boundary so far"

    def __init__(self, c, x, tag):
        self.c, self.x, self.tag, self.started = c, x, tag, False

    def check(self, it, env, k, name):
        if not self.started:
            self.started = True
            return
        new = self.x.parts[1:]
        ok = len(new) == 1 and isinstance(new[0], tuple) and new[0][0] == self.tag
        cur().prove(true(ok), name + ": one each")
        if ok:
            cur().prove(SBool(C.eq(new[0][1], k - 1)), name + ": this one")

    def havoc(self, it, env, k):
        self.x.parts = [self.x.tag]
        self.x.n = self.n0 + k


def parity_of(p, q):
    return C.ite(C.lor(SBool(C.eq(p, -1)), SBool(C.eq(q, -1))), -1, (p + q) % 2)


@case("P21 merged clusters: parity and boundary")
def merge(c):
    graph = Spy([], "graph", {"reopen_cluster": None})
    a, b = cluster("a", graph), cluster("b", graph)
    lists = {"a": a.boundary, "b": b.boundary}
    roots = {"a": a.root_vertex, "b": b.root_vertex}
    n = {k: v.n for k, v in lists.items()}
    total, par = a.n_vertices + b.n_vertices, parity_of(a.parity, b.parity)

    def prov(it, s, env, sv):
        for tag, o in (("a", "b"), ("b", "a")):
            if C.intterm(sv[0]).eq(C.intterm(n[tag])):
                inv = Joined(c, lists[o], tag)
                inv.n0 = n[o]
                return inv
        return None
    c.provider = prov
    was = {"a": a.open, "b": b.open}
    c.run(uf.Cluster.merge_with, a, b, Token("edge"))
    left = [x for x in (a, b) if x.boundary is not None]
    c.prove(true(len(left) == 1), "one cluster is left")
    x = left[0]
    me, o = ("a", "b") if x is a else ("b", "a")
    c.prove(true(x.boundary is lists[me] and x.root_vertex is roots[me]), "as it was")
    c.prove(SBool(C.eq(x.boundary.n, n["a"] + n["b"])), "with the boundary of both")
    c.prove(SBool(C.eq(x.n_vertices, total)), "the vertices of both")
    c.prove(SBool(C.eq(x.parity, par)), "the parity of both")
    t = graph.trace_
    links = [q for q in t if q[1] == "set_parent"]
    c.prove(true(len(links) == 1 and links[0][0] == o and links[0][2][0] is roots[me]),
            "its root is below the root that is left")
    again = [q for q in t if q[1] == "reopen_cluster"]
    c.prove(SBool(C.eq(true(len(again) == 1 and again[0][2][0] is x),
                       C.land(true(not was[me]), SBool(C.eq(par, 1))))),
            "reopened when closed and odd")


@case("P21 a vertex joins a cluster")
def join(c):
    trace = []
    graph = Spy(trace, "graph", {})
    a = cluster("a", graph)
    root, par, n = a.root_vertex, a.parity, a.boundary.n
    bit = C.fresh_bool("syndrome")
    v = Spy(trace, "v", {"to_boundary": None}, syndrome=bit)
    first = bool(SBool(C.eq(n, 0)))
    size = a.n_vertices
    c.run(uf.Cluster.add_vertex, a, v, None)
    c.prove(SBool(C.eq(a.parity, parity_of(par, C.ite(bit, 1, 0)))), "parity")
    c.prove(SBool(C.eq(a.n_vertices, size + 1)), "one more vertex")
    c.prove(true(a.boundary.parts == ["a", v]), "it is on the boundary")
    calls = [t for t in trace if t[1] == "to_boundary"]
    c.prove(true(len(calls) == 1 and calls[0][0] == "v" and
                 calls[0][2][0] is (a if first else root)), "it knows its cluster")
    c.prove(true(a.root_vertex is (v if first else root)), "the root")


@case("P21 a dangling edge makes a cluster neutral")
def dangling(c):
    a = cluster("a", Spy([], "graph", {}))
    c.run(uf.Cluster.add_dangling_edge, a, Token("edge"))
    c.prove(SBool(C.eq(a.parity, -1)), "neutral")


class Grown:
    """An edge with how far it has grown."""

    pyvc_ok = True

    def __init__(self, k, done):
        self.k, self.done = k, done

    def is_complete(self):
        return self.done(self.k)


@case("P21 growth hands over the edges that are complete")
def complete(c):
    n, done = fresh_int("edges", 0), C.fun_bool("complete", 1)
    g = object.__new__(uf.Graph)
    g.edges = SSeq(n, lambda k: Grown(k, done))
    r = c.run(uf.Graph.get_complete_edges, g)
    k = fresh_int("k")
    c.prove(SBool(C.eq(C.asbool(c.it.contains(r, k)),
                       C.land(k >= 0, k < n, done(k)))), "exactly those")


class Vertices(Inv):
    """Each one in turn is left as it should be."""

    def __init__(self, what, item, ok):
        self.name, self.item, self.ok, self.k = what + " so far", item, ok, None
        self.obj = None

    def at(self, k):
        self.obj = self.item(k)
        return self.obj

    def check(self, it, env, k, name):
        if self.k is not None:
            cur().prove(C.asbool(self.ok(self.obj, self.k)), name + ": this one")

    def havoc(self, it, env, k):
        self.k = k


def vertex_of(k):
    v = object.__new__(uf.Vertex)
    v.state, v.parent, v.cluster, v.syndrome, v.idx = 2, Token("p"), None, Token("s"), k
    return v


def edge_of(k):
    e = object.__new__(uf.Edge)
    e.cur_growth, e.max_growth = C.fresh_real("grown"), C.fresh_real("most")
    e.growth_increment, e.idx = C.fresh_real("step"), k
    return e


@case("P21 every sample starts afresh")
def restart(c):
    nv, ne = fresh_int("vertices", 1), fresh_int("edges", 1)
    vs = Vertices("vertices", vertex_of, lambda v, k: true(
        v.state == uf._V_UNUSED and v.parent is None and v.cluster is None))
    es = Vertices("edges", edge_of, lambda e, k: SBool(C.eq(e.cur_growth, 0)))
    g = object.__new__(uf.Graph)
    g.vertices, g.edges = SSeq(nv, vs.at), SSeq(ne, es.at)
    g.clusters, g.open_clusters = ["old"], ["old"]
    c.provider = lambda it, s, env, sv: vs if sv[0] is nv else es if sv[0] is ne else None
    c.run(uf.Graph.reset, g)
    c.prove(true(g.clusters == [] and g.open_clusters == []), "no clusters")
    c.prove(true(g.clusters is not g.open_clusters), "two lists")


@case("P21 vertices get the syndrome")
def uf_syndrome(c):
    nv = fresh_int("vertices", 1)
    bit = C.fun_bool("syndrome", 1)
    vs = Vertices("vertices", vertex_of, lambda v, k: SBool(
        C.eq(C.asbool(v.syndrome), bit(k))))
    g = object.__new__(uf.Graph)
    g.vertices = SSeq(nv, vs.at)
    c.provider = lambda it, s, env, sv: vs if C.intterm(sv[0]).eq(nv.t) else None
    c.run(uf.Graph.set_syndrome, g, SArr.of(bit, (nv,), "b"))


@case("P21 growing an edge")
def grow(c):
    e = edge_of(0)
    given = C.fresh_real("given") if bool(C.fresh_bool("a_step_is_given")) else None
    before, step = e.cur_growth, e.growth_increment
    cur().assume(before < e.max_growth)
    c.run(uf.Edge.grow, e, given)
    c.prove(SBool(C.eq(e.cur_growth, before + (step if given is None else given))),
            "by its own step, or the given one")
    r = c.run(uf.Edge.is_complete, e)
    c.prove(SBool(C.eq(C.asbool(r), e.cur_growth >= e.max_growth)), "complete at its weight")


@case("P21 the weight of an edge is how long it takes to grow")
def uf_weights(c):
    n = fresh_int("edges", 1)
    w = fresh_array("weights", (n,), "f")
    least = C.fresh_real("least")
    cur().assume(least > 0)
    coeff = C.fresh_real("coefficient")
    cur().assume(coeff > 0)
    c.contracts[np.min] = lambda it, a, k: least
    set_ = []

    def item(k):
        e = edge_of(k)
        return e

    def right(e, k):
        # steps to completion, times a constant, is the weight
        s = cur()
        if not bool(w.at(k) > 0):
            return true(True)
        return C.land(e.growth_increment * w.at(k) * 2 * coeff * 1.0
                      == least * e.max_growth)
    es = Vertices("edges", item, right)
    d = object.__new__(uf.UnionFind)
    d._c = coeff
    d.weighted = False
    d.graph = Token("graph")
    d.graph.edges = SSeq(n, es.at)
    c.provider = lambda it, s, env, sv: es if C.intterm(sv[0]).eq(n.t) else None
    c.run(uf.UnionFind.set_weights, d, w)
    c.prove(true(d.weighted is True), "weighted")


class NewEdge:
    pyvc_ok = True


@case("P21 complete edges join what they connect")
def new_edges(c):
    n = fresh_int("edges", 1)
    trace = []
    two = C.fun_bool("two_ends", 1)
    st = C.fun_int("state", 2, 0, 3)

    def vertex(k, j):
        v = object.__new__(uf.Vertex)
        v.state, v.cluster, v.idx = st(k, j), None, j
        v.tag = j
        return v

    class So(Inv):
        name = "edges so far"
        k = None

        def at(self, k):
            e = object.__new__(uf.Edge)
            e.idx = k
            m = 2 if bool(two(k)) else 1
            self.ends = e.vertices = tuple(vertex(k, j) for j in range(m))
            s = cur()
            # edges grow from the boundary of a cluster
            s.assume(C.lor(*[SBool(C.eq(v.state, 1)) for v in self.ends]))
            # interior vertices have no growing edges
            for v in self.ends:
                s.assume(C.lnot(SBool(C.eq(v.state, 2))))
            self.edge = e
            return e

        def check(self, it, env, k, name):
            if self.k is None:
                return
            s = cur()
            calls = [t for t in trace if t[1] != "root"]
            s.prove(true(len(calls) == 1), name + ": one thing happens")
            if len(calls) != 1:
                return
            who, m, a, _ = calls[0]
            if len(self.ends) == 1:
                s.prove(true((who, m) == (0, "add_dangling_edge")), name + ": dangling")
                return
            b = [bool(SBool(C.eq(v.state, 1))) for v in self.ends]
            if all(b):
                s.prove(true(m == "merge_with" and {who, a[0].name_} == {0, 1}),
                        name + ": two clusters")
            else:
                me = b.index(True)
                s.prove(true(m == "add_vertex" and who == me
                             and a[0] is self.ends[1 - me]), name + ": a new vertex")

        def havoc(self, it, env, k):
            self.k = k
            trace.clear()
    so = So()
    c.contracts[uf.Vertex.r_cluster.fget] = lambda it, a, k: Spy(trace, a[0].tag, {
        "add_dangling_edge": None, "merge_with": None, "add_vertex": None})
    d = object.__new__(uf.UnionFindNoWeights)
    d.graph = Token("graph")
    c.provider = lambda it, s, env, sv: so if C.intterm(sv[0]).eq(n.t) else None
    c.run(uf.UnionFindNoWeights.handle_new_edges, d, SSeq(n, so.at))


class Kept:
    """A list being filled with some of the things seen."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self):
        self.new = []

    def append(self, x):
        self.new.append(x)


class Sift(Inv):
    """Each thing is kept when it should be, and treated as it should be."""

    def __init__(self, what, item, ok):
        self.name, self.item, self.ok, self.k = what + " so far", item, ok, None
        self.list, self.vars, self.obj = None, (), None

    def at(self, k):
        self.obj = self.item(k)
        return self.obj

    def check(self, it, env, k, name):
        if self.list is None:
            for x, v in list(env.vars.items()):
                if isinstance(v, list) and not v:
                    self.list = env.vars[x] = Kept()
                    self.vars = (x,)
            if self.list is None:
                raise Unsupported("where they are kept")
            return
        new = self.list.new
        kept = len(new) == 1 and new[0] is self.obj
        cur().prove(true(kept or not new), name + ": nothing else")
        cur().prove(C.asbool(self.ok(self.obj, self.k, kept)), name + ": this one")

    def havoc(self, it, env, k):
        self.k = k
        self.list.new = []


@case("P21 exactly the odd clusters stay open")
def refresh(c):
    n, par = fresh_int("clusters", 1), C.fun_int("parity", 1, -1, 2)

    def item(k):
        x = object.__new__(uf.Cluster)
        x.parity, x.open, x.idx = par(k), True, k
        return x
    inv = Sift("clusters", item, lambda x, k, kept: SBool(C.eq(
        true(kept), SBool(C.eq(par(k), 1)))) if kept == x.open else true(False))
    g = object.__new__(uf.Graph)
    g.open_clusters = SSeq(n, inv.at)
    c.provider = lambda it, s, env, sv: inv if sv[0] is n else None
    c.run(uf.Graph.refresh_open_clusters, g)
    c.prove(true(g.open_clusters is inv.list), "those kept")


@case("P21 the boundary of a cluster is where it can grow")
def after_growth(c):
    n, full = fresh_int("boundary", 1), C.fun_bool("all_complete", 1)
    trace = []

    def item(k):
        trace.clear()
        return Spy(trace, "vertex", {"to_interior": None,
                                     "all_edges_complete": lambda: full(k),
                                     "any_edge_incomplete": lambda: C.lnot(full(k))})

    def ok(x, k, kept):
        inside = any(t[1] == "to_interior" for t in trace)
        return SBool(C.eq(true(kept), C.lnot(full(k)))) if kept != inside else true(False)
    inv = Sift("boundary", item, ok)
    x = object.__new__(uf.Cluster)
    x.boundary = SSeq(n, inv.at)
    c.provider = lambda it, s, env, sv: inv if sv[0] is n else None
    c.run(uf.Cluster.update_after_growth, x)
    c.prove(true(x.boundary is inv.list), "those kept")


@case("P21 growth starts from the syndrome")
def syndrome_clusters(c):
    n = fresh_int("vertices", 1)
    bit, used = C.fun_bool("syndrome", 1), C.fun_bool("used", 1)
    made = []

    def item(k):
        made.clear()
        return Spy([], "vertex", {"is_unused": lambda: C.lnot(used(k)),
                                  "is_boundary": lambda: used(k)}, syndrome=bit(k))

    def new(it, a, k):
        trace = []
        made.append((trace, Spy(trace, "cluster", {"add_vertex": None,
                                                   "update_after_growth": None})))
        return made[-1][1]
    c.contracts[uf.Graph.add_cluster] = new

    class So(Inv):
        name = "vertices so far"
        k = None

        def at(self, k):
            self.obj = item(k)
            return self.obj

        def check(self, it, env, k, name):
            if self.k is None:
                return
            want = C.land(bit(self.k), C.lnot(used(self.k)))
            cur().prove(SBool(C.eq(true(len(made) == 1), want)), name + ": a cluster of its own")
            cur().prove(true(len(made) < 2), name + ": just one")
            for trace, _ in made:
                cur().prove(true([t[1] for t in trace] == ["add_vertex",
                                                           "update_after_growth"]
                                 and trace[0][2][0] is self.obj), name + ": with this vertex")

        def havoc(self, it, env, k):
            self.k = k
    so = So()
    g = object.__new__(uf.Graph)
    g.vertices = SSeq(n, so.at)
    c.provider = lambda it, s, env, sv: so if sv[0] is n else None
    c.run(uf.Graph.init_syndrome_clusters, g)


@case("P21 growth goes on until no cluster is odd")
def until(c):
    trace, out = [], Token("edges")
    left = C.fun_int("open_clusters", 1, 0)
    d = object.__new__(uf.UnionFindNoWeights)
    erasure, syndrome = Token("erasure"), Token("syndrome")
    at = Token("time")
    at.t = 0

    class Open_:
        pyvc_ok = True
        __hash__ = None

        def pyvc_len(self):
            return left(at.t)
    g = Spy(trace, "graph", {"init": None, "get_complete_edges": lambda: out},
            open_clusters=Open_())
    d.graph = g

    def step(it, a, k):
        at.t = at.t + 1
    c.contracts[uf.UnionFindNoWeights.step] = step

    class Steps:
        name = "steps so far"
        vars = ()

        def check(self, it, env, name):
            cur().prove(SBool(C.intterm(at.t) >= 0), name)

        def havoc(self, it, env):
            at.t = fresh_int("steps", 0)
    c.invariants[("UnionFindNoWeights.union_find", 0)] = Steps()
    r = c.run(uf.UnionFindNoWeights.union_find, d, erasure, syndrome)
    c.prove(true(r is out), "the complete edges")
    c.prove(SBool(C.eq(left(at.t), 0)), "no cluster is open")
    same_calls(c, trace, [("graph", "init", (erasure, syndrome)),
                          ("graph", "get_complete_edges", ())], "from this sample")
