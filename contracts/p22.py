"""P22: the verdict on a decoded sample."""
import numpy as np
import z3
from plaquette import frontend, pauli
from plaquette.codes import StabilizerCode
from plaquette.decoders.decoderbase import check_success
from plaquette.device import MeasurementSample
from plaquette.frontend import ExperimentConfig

from contracts.common import (C, SArr, SBool, Unsupported, cur, eq, fresh_array,
                              fresh_int, operator)
from pyvc.arr import known_eq
from pyvc.contract import case
from pyvc.core import SInt
from pyvc.seq import Each, SSeq, parts, quant, subst
from pyvc.text import any_text

FUNCTIONS = ["decoders.decoderbase.check_success",
             "codes.StabilizerCode.logical_ops_to_indices",
             "codes.StabilizerCode.__init__", "codes.StabilizerCode.n_logical_qubits",
             "codes.StabilizerCode.n_logical_ops", "codes.StabilizerCode.n_data_qubits",
             "frontend.ExperimentConfig.run"]
ASSUMPTIONS = [
    "at least one logical qubit and one stabiliser (StabilizerCode needs both)",
    "the contract of commutator_sign is the one proved for P02"]


def code_of(c, form="list", logs=None):
    """(code, logical operators, number of logical qubits, qubits)."""
    n, m = fresh_int("n", 1), fresh_int("stabs", 1)
    k = fresh_int("k", 1)
    st = fresh_array("stabiliser", (m, 2 * n + 1), "u1")
    lo = fresh_array("logical", (2 * k, 2 * n + 1), "u1")
    if form == "list":
        sts, los = SSeq(m, lambda i: st[i]), SSeq(2 * k, lambda i: lo[i])
    else:
        sts, los = st, lo
    code = StabilizerCode.__new__(StabilizerCode)
    c.run(StabilizerCode.__init__, code, sts, los)
    return code, lo, k, n


def commutator(corr, logical, anti):
    """P02: entry (i, j) is 1 iff row i of a anticommutes with row j of b."""
    def contract(it, a, kw):
        ops = []
        for v in a:
            if not isinstance(v, SArr):
                v = it.call(np.array, [v], {})
            ops.append(v if v.ndim == 2 else v[None, :])
        x, y = ops
        if kw or x.ndim != 2 or y.ndim != 2:
            raise Unsupported("commutator_sign called otherwise")
        if which(y, corr) is None:
            x, y = y, x
        if y.shape[0] != 1 or which(y, corr) is None:
            raise Unsupported("commutator_sign without the correction")
        rows = which(x, logical)
        if rows is None:
            raise Unsupported("commutator_sign of something else")
        return SArr.of(lambda i, j: anti(rows(i) if x is ops[0] else rows(j)),
                       (ops[0].shape[0], ops[1].shape[0]), "u1").squeeze()
    return contract


def which(x, source):
    """Which row of the source is row i of x?"""
    f, width = source.fun.z3, source.shape[-1]
    if not known_eq(x.shape[1], width):
        return None
    rx = x.reader()

    def row(i):
        j = fresh_int("column", 0, width)
        t = z3.simplify(C.bitterm(rx(i, j)))
        if not (z3.is_app(t) and t.decl().eq(f)):
            return None
        if not t.arg(t.num_args() - 1).eq(j.t):
            return None
        return SInt(t.arg(0)) if t.num_args() == 2 else 0
    return None if row(fresh_int("row", 0, x.shape[0])) is None else row


def verdict(form, sel):
    @case(f"check_success: {form}, {sel}")
    def f(c):
        code, lo, k, n = code_of(c, form)
        corr = operator(c, "correction", n)
        ind = C.fun_int("index", 1)
        args = []
        if sel == "all":
            m, at = 2 * k, lambda i: i
        else:
            m, at = k, lambda i: ind(i)
            def indices(it, a, kw):
                cur().assume(SBool(z3.ForAll([q := z3.Int("q!")], z3.And(
                    ind.z3(q) >= 0, ind.z3(q) < 2 * k.t))))
                return SSeq(k, lambda i: ind(i))
            c.contracts[StabilizerCode.logical_ops_to_indices] = indices
            args = ["X?" if sel == "name" else [fresh_int("i")]]
        anti = C.fun_bit("anticommutes", 1)
        c.contracts[pauli.commutator_sign] = commutator(corr, lo, anti)
        tog = fresh_array("toggle", (m,), "u1")
        rt = tog.copy().reader()
        r = c.run(check_success, code, corr, tog, *args)
        want = quant("all", m, lambda i: SBool(eq(rt(i), anti(at(i)))))
        r = C.SBool(C.boolterm(r))
        c.prove(C.implies(r, want), "success only if every flip is explained")
        c.prove(C.implies(want, r), "success if every flip is explained")
    return f


v1 = verdict("list", "all")
v2 = verdict("array", "all")
v3 = verdict("list", "name")
v4 = verdict("array", "name")


@case("logical_ops_to_indices: indices")
def by_index(c):
    code, lo, k, n = code_of(c)
    m = fresh_int("length", 0)
    f = C.fun_int("given", 1)
    e = c.raises(StabilizerCode.logical_ops_to_indices, code,
                 SSeq(m, lambda i: f(i)))
    good = C.land(SBool(eq(m, k)), quant("all", m, lambda i: C.land(
        f(i) >= 0, f(i) < 2 * k)))
    verdict_on(c, e, good)
    if e is None:
        c.emissions(parts(c.result), [Each(k, lambda i: [f(i)])], "indices kept")


def verdict_on(c, e, good):
    if e is None:
        c.prove(good, "only valid selections are accepted")
    else:
        c.prove(~good, "only invalid selections are rejected")
        c.prove(isinstance(e, (ValueError, IndexError, KeyError, TypeError)), "by an error")


@case("logical_ops_to_indices: names")
def by_name(c):
    code, lo, k, n = code_of(c)
    m = fresh_int("length", 0)
    s = any_text("name", m, "XYZIxz0 ")
    e = c.raises(StabilizerCode.logical_ops_to_indices, code, s)
    good = C.land(SBool(eq(m, k)), quant("all", m, lambda i: s.at(i).pyvc_in("XZ")))
    verdict_on(c, e, good)
    if e is None:
        c.emissions(parts(c.result), [Each(k, lambda i: [
            2 * i + C.ite(s.at(i) == "Z", 1, 0)])], "operator of each name")


class Of:
    """Something belonging to the k-th run."""
    pyvc_ok = True

    def __init__(self, what, k):
        self.what, self.k = what, k

    def subst_(self, pairs):
        return Of(self.what, subst(self.k, pairs))


class Dev:
    pyvc_ok = True
    _backend_name = "clifford"

    def __init__(self):
        self.runs = 0

    def run(self, circuit):
        pass

    def get_sample(self):
        pass


class Dec:
    pyvc_ok = True

    def decode(self, erased, syndrome):
        pass


@case("logical error rate")
def rate(c):
    shots = fresh_int("shots", 1)
    ok = C.fun_bool("success", 1)
    exp = ExperimentConfig.__new__(ExperimentConfig)
    conf = type("Conf", (), {"pyvc_ok": True})()
    conf.shots = shots
    exp.general_conf = {"qec_property": ["logical_error_rate"], "logical_op": "XZ?"}
    exp.device_conf = conf
    dev, dec = Dev(), Dec()
    exp._device, exp._decoder = dev, dec
    exp._code, exp._circuit = object(), object()

    def expect(cond, what):
        cur().prove(cond if isinstance(cond, bool) else SBool(C.boolterm(cond)),
                    f"{c.name}: {what}")

    def run(it, a, k):
        expect(len(a) == 2 and a[1] is exp._circuit and not k, "runs the circuit")
        it.setattr(dev, "runs", it.binop("+", it.getattr(dev, "runs"), 1))

    def sample(it, a, k):
        r = it.getattr(dev, "runs")
        return Of("raw", r), Of("erasure", r)

    def unpack(it, a, k):
        a = a[1:] if a and a[0] is MeasurementSample else a
        expect(len(a) == 3 and a[0] is exp._code and is_of(a[1], "raw") and
               is_of(a[2], "erasure"), "unpacks the sample")
        expect(eq(a[1].k, a[2].k), "of one run")
        r = type("R", (), {"pyvc_ok": True})()
        r.erased_qubits, r.syndrome = Of("erased", a[1].k), Of("syndrome", a[1].k)
        r.logical_op_toggle = Of("toggle", a[1].k)
        return r

    def decode(it, a, k):
        expect(is_of(a[1], "erased") and is_of(a[2], "syndrome") and not k and
               len(a) == 3, "decodes the sample")
        expect(eq(a[1].k, a[2].k), "of one run")
        return Of("correction", a[1].k)

    def check(it, a, k):
        expect(len(a) == 4 and a[0] is exp._code and is_of(a[1], "correction") and
               is_of(a[2], "toggle") and a[3] == "XZ?", "verdict on the sample")
        expect(eq(a[1].k, a[2].k), "of one run")
        return ok(a[1].k)
    c.contracts.update({
        Dev.run: run, Dev.get_sample: sample, Dec.decode: decode,
        frontend.check_success: check, frontend.tqdm: lambda it, a, k: a[0],
        MeasurementSample.from_code_and_raw_results.__func__: unpack})
    r = c.run(ExperimentConfig.run, exp)
    c.eqv(dev.runs, shots, c.name + ": one run per sample")
    good = C.mksum(shots, lambda i: C.ite(ok(i + 1), 1, 0)).value()
    bad = C.mksum(shots, lambda i: C.ite(ok(i + 1), 0, 1)).value()
    # every sample succeeds or fails
    cur().assume(SBool(eq(good + bad, shots)))
    want = c.it.binop("/", bad, shots)
    C.link_sums(C.realterm(r), good.t, bad.t)
    c.eqv(r, want, c.name + ": fraction of failed samples")


def is_of(x, what):
    return isinstance(x, Of) and x.what == what
