"""P19: edge weights are the log-odds of the error probabilities."""
import z3
from plaquette import codes
from plaquette.codes import latticebase as lb
from plaquette.errors import ErrorData
from plaquette.syngraph import weights as W

from contracts.common import C, SBool, Unsupported, cur, eq, fresh_int
from pyvc.arr import SArr
from pyvc.contract import case
from pyvc.core import SInt, SReal
from pyvc.seq import SDict, SSeq, SStruct, sym_dict
from pyvc.shims import LOG

FUNCTIONS = ["syngraph.weights.WeightComputation." + f for f in (
    "__init__", "_compute_probabs", "_p_meas", "_p_eff_pauli_1", "_p_eff_erasure",
    "_update_p_eff", "get_edge_probab", "get_edge_weights")]
ASSUMPTIONS = [
    "ErrorData.check_against_code accepts only tables of data qubits (pauli, erasure) "
    "and stabiliser ancillas (measurement) (P18)",
    "distinct qubits of a lattice have distinct indices, those of the data qubits are "
    "0..n-1 and those of the stabilisers 0..m-1 (P08)",
    "floating-point numbers are real numbers; the logarithm is any function with "
    "log(a/b) = log a - log b"]
KEYS = {"pauli": "xyz", "erasure": "p", "measurement": "p"}


class World:
    def __init__(self, with_):
        self.n, self.m = fresh_int("n", 0), fresh_int("m", 0)
        self.total = fresh_int("equbits", 0)
        dq, sq = C.fun_int("dataqubit_idx", 1), C.fun_int("stabgen_idx", 1)
        D = SStruct(lb.DataVertex, {"dataqubit_idx": dq}, "data")
        S = SStruct(lb.StabGenVertex, {"stabgen_idx": sq}, "stab")
        L = SStruct(lb.LogicalVertex, {}, "logical")
        self.kind = C.fun_int("kind", 1, 0, 3)
        # the k-th qubit of each kind, in any order
        self.dpos, self.spos = C.fun_int("data_equbit", 1), C.fun_int("stab_equbit", 1)
        for kind, idx, pos, num in ((0, dq, self.dpos, self.n),
                                    (1, sq, self.spos, self.m)):
            e, d = z3.Ints("e! d!")
            cur().assume(SBool(z3.ForAll([e], z3.Implies(
                z3.And(self.kind.z3(e) == kind, e >= 0, e < self.total.t),
                z3.And(idx.z3(e) >= 0, idx.z3(e) < num.t, pos.z3(idx.z3(e)) == e)))))
            cur().assume(SBool(z3.ForAll([d], z3.Implies(
                z3.And(d >= 0, d < num.t),
                z3.And(pos.z3(d) >= 0, pos.z3(d) < self.total.t,
                       self.kind.z3(pos.z3(d)) == kind, idx.z3(pos.z3(d)) == d)))))

        def vertex(e):
            k = self.kind(e)
            if bool(k == 0):
                return D(e)
            return S(e) if bool(k == 1) else L(e)
        lat = SStruct(lb.CodeLattice, {
            "equbits": lambda: SSeq(self.total, vertex),
            "dataqubits": lambda: SSeq(self.n, lambda k: D(self.dpos(k))),
            "stabgens": lambda: SSeq(self.m, lambda k: S(self.spos(k)))}, "lattice")
        self.rounds = fresh_int("rounds", 1)
        self.code = SStruct(codes.LatticeCode, {
            "lattice": lambda: lat(), "n_data_qubits": lambda: self.n,
            "n_stabgens": lambda: self.m, "n_rounds": lambda: self.rounds}, "code")()
        self.f = {}
        self.errors = {k: self.table(k) for k in with_}

    def table(self, name):
        """An arbitrary table accepted by check_against_code."""
        keys = KEYS[name]
        fs = {x: (C.fun_bool(f"{name}.has_{x}", 1), C.fun_real(f"{name}.{x}", 1))
              for x in keys}

        def get(k, x):
            v = fs[x][1](k)
            cur().assume(C.land(v >= 0, v <= 1))
            return v

        def val(k):
            return SDict(lambda x: fs[x][0](k) if x in fs else False,
                         lambda x: get(k, x), keys=list(keys), name=name)
        d = sym_dict(name, val, lo=0, hi=self.total)
        raw, want = d.rawkey, 1 if name == "measurement" else 0
        i = z3.Int("i!")
        cur().assume(SBool(z3.ForAll([i], z3.Implies(
            z3.And(i >= 0, i < C.intterm(d.n)), self.kind.z3(raw.z3(i)) == want))))

        def prob(k, x):
            """Entry x of qubit k, zero where the table has none."""
            return C.ite(C.land(d.has(k), fs[x][0](k)), get(k, x), SReal(z3.RealVal(0)))
        self.f[name] = prob
        return d


def odd(p, q):
    return p * (1 - q) + q * (1 - p)


def weights(with_, erasures=False):
    @case("weights: " + (", ".join(with_) or "no errors") +
          (" (erasures used)" if erasures else ""))
    def f(c):
        w = World(with_)
        c.contracts[ErrorData.check_against_code] = lambda it, a, k: None
        cls = W.WeightComputation
        comp = cls.__new__(type("T", (cls,), {"erasure_weights": True})
                           if erasures else cls)
        c.run(cls.__init__, comp, w.code, dict(w.errors))
        p = c.run(cls.get_edge_probab, comp)
        c.prove(set(p) == {"pauli_x", "pauli_z", "measurement"}, "the three kinds")

        def term(name, keys, k):
            r = 0
            for x in keys:
                r = r + w.f[name](k, x)
            return r

        def data(ch):
            def at(d):
                e = w.dpos(d)
                r = SReal(z3.RealVal(0))
                if "pauli" in with_:
                    r = term("pauli", ch, e)
                if "erasure" in with_ and erasures:
                    r = odd(r, term("erasure", "p", e) / 2)
                return r
            return at

        def stab(s):
            return term("measurement", "p", w.spos(s)) if "measurement" in with_ \
                else SReal(z3.RealVal(0))
        wt = c.run(cls.get_edge_weights, comp)
        c.prove(set(wt) == set(p), "weights of the three kinds")
        for name, num, at in (("pauli_x", w.n, data("xy")), ("pauli_z", w.n, data("yz")),
                              ("measurement", w.m, stab)):
            def entry():
                i = fresh_int("i", 0, num)
                v = at(i)
                c.prove(SBool(eq(p[name].at(i), v)), name + ": probability")
                cur().assume(v < 1)
                odds = C.realterm(v / (1 - v))
                inv = C.realterm((1 - v) / v)
                lv, l1 = LOG(C.realterm(v)), LOG(C.realterm(1 - v))
                # laws of the logarithm
                cur().assume(SBool(LOG(odds) == lv - l1))
                cur().assume(SBool(z3.Implies(C.realterm(v) > 0, LOG(inv) == l1 - lv)))
                got = wt[name].at(i)
                want = SBool(eq(got, SReal(-LOG(odds))))
                if not cur().entails(want):
                    cur().abstract("a logarithm")
                c.prove(want, name + ": weight")
            for x in (p, wt):
                c.prove(isinstance(x[name], SArr) and len(x[name].shape) == 1 and
                        SBool(eq(x[name].shape[0], num)), name + ": length")
            c.scope(entry)
    return f


none = weights([])
all_ = weights(["pauli", "measurement"])
three = weights(["pauli", "erasure", "measurement"])
erased = weights(["pauli", "erasure", "measurement"], True)
only_e = weights(["erasure"], True)
only_p = weights(["pauli"])
only_m = weights(["measurement"])


@case("unknown errors are rejected")
def unknown(c):
    w = World(["pauli"])
    c.contracts[ErrorData.check_against_code] = lambda it, a, k: None
    for name in ("CX", "fabrication", "Pauli"):
        comp = W.WeightComputation.__new__(W.WeightComputation)
        e = c.raises(W.WeightComputation.__init__, comp, w.code,
                     {**w.errors, name: w.errors["pauli"]})
        c.prove(isinstance(e, ValueError), "unknown errors")
