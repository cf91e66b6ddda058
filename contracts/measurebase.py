"""measure_x_base, measure_z_base: several qubits in one call."""
import plaquette  # noqa: F401
import numpy as np
import z3
from plaquette import pauli as P

from contracts.common import C, SArr, SBool, SInt, Unsupported, cur, eq, fresh_int
from pyvc.contract import case
from pyvc.interp import Interp
from pyvc.seq import Each, SSeq, parts


class Tab:
    """A handle on the current state."""
    pyvc_ok = True
    ndim = 2

    def __init__(self, w, n):
        self.w, self.n = w, n

    def pyvc_isinstance(self, cls):
        return cls is np.ndarray

    @property
    def shape(self):
        return (2 * self.n, 2 * self.n + 1)

    def pyvc_carried(self, when, v=None):
        if when != "end":
            return self.w.next(fresh_int("count", 1) if self.w.shrinks else self.n)
        if v is not self.w.now:
            raise Unsupported("another state is carried along")
        if not self.w.shrinks:
            self.w.c.prove(eq(v.n, self.n), "the number of qubits stays the same")
        return v


class Calls:
    """measure, single_qubit_pauli_operator and _ptrace by contract; what they are
    called with is recorded in order."""

    def __init__(self, c, base, shrinks=False):
        self.c, self.log, self.shrinks = c, [], shrinks
        self.base = base
        c.contracts[P.measure] = self.measure
        c.contracts[P._ptrace] = self.ptrace
        c.contracts[P.count_qubits] = self.count
        c.contracts[P.single_qubit_pauli_operator] = self.operator
        self.now = Tab(self, fresh_int("n_qubits", 1))
        self.first = self.now

    def next(self, n):
        self.now = Tab(self, n)
        return self.now

    def emit(self, it, ev):
        Interp.container_method(it, self.log, "append", self.log.append, [ev], {})

    def same(self, a):
        if a is not self.now:
            if not isinstance(a, Tab):
                raise Unsupported("not a state")
            self.c.fail("the state is passed on from step to step")

    def count(self, it, a, k):
        if not isinstance(a[0], Tab):
            raise Unsupported("count_qubits of something else")
        self.same(a[0])
        return (a[0].n, False)

    def operator(self, it, a, k):
        names = ("op", "qubit", "qubits")
        v = dict(zip(names, a)) | k
        return ("operator", v["op"], v["qubit"], v["qubits"])

    def measure(self, it, a, k):
        self.same(a[0])
        op = a[1]
        if not (isinstance(op, tuple) and op[0] == "operator"):
            raise Unsupported("measurement of another operator")
        self.c.prove(op[1] == self.base, "the base that is measured")
        self.c.prove(eq(op[3], a[0].n) if isinstance(op[3], C.Sym) or
                     isinstance(a[0].n, C.Sym) else op[3] == a[0].n,
                     "the operator acts on as many qubits as the state has")
        r = C.SInt(b=C.fresh_bool("outcome").t)
        self.emit(it, ("M", op[2], k.get("forced_outcome"), r))
        return self.next(a[0].n), r

    def ptrace(self, it, a, k):
        self.same(a[0])
        self.c.prove(a[2] == self.base, "the base of the removed qubit")
        self.emit(it, ("T", a[1]))
        return self.next(a[0].n - 1)


def build(base, destructive):
    fn = {"X": P.measure_x_base, "Z": P.measure_z_base}[base]
    kind = "destructive" if destructive else "measure"

    def start(c):
        w = Calls(c, base, destructive)
        return w, {"destructive": True} if destructive else {}

    def forced(how, m):
        if how == "none":
            return {}, lambda j: None
        if how == "one":
            f = SInt(b=C.fresh_bool("forced").t)
            return {"forced_outcomes": f}, lambda j: f
        f = C.fun_bit("forced", 1)
        return {"forced_outcomes": SSeq(m, f, "list")}, f

    def many(how):
        @case(f"{kind}_{base}: any number of targets, forced outcomes: {how}")
        def f(c):
            w, kw = start(c)
            m = fresh_int("m", 2)
            t = C.fun_int("target", 1, 0)
            s = cur()
            i, j = z3.Ints("i! j!")
            if destructive:
                s.assume(z3.ForAll([i, j], z3.Implies(
                    z3.And(0 <= i, i < m.t, 0 <= j, j < m.t, i != j),
                    t.z3(i) != t.z3(j)), patterns=[z3.MultiPattern(t.z3(i), t.z3(j))]))
            fk, fo = forced(how, m)
            st, out = c.run(fn, w.first, SSeq(m, t, "list"), **kw, **fk)
            c.prove(st is w.now, "the final state is returned")
            log = parts(w.log)
            if not (len(log) == 1 and isinstance(log[0], Each)):
                raise Unsupported("measurements in another form")
            c.prove(eq(log[0].n, m), "one measurement per target")
            c.prove(eq(out.shape[0], m), "one result per target")

            def at(k):
                ev = log[0].fn(k)
                want = ["M", "T"] if destructive else ["M"]
                c.prove([e[0] for e in ev] == want, "what is done for one target")
                if [e[0] for e in ev] != want:
                    raise C.PathEnd()
                q = z3.simplify(C.intterm(ev[0][1]))
                if not (z3.is_app(q) and q.decl().eq(t.z3)):
                    raise Unsupported("the measured qubit is not one of the targets")
                return ev, SInt(q.arg(0))

            def go():
                k = fresh_int("k", 0, m)
                l = fresh_int("l", 0, m)
                ev, a = at(k)
                _, b = at(l)
                c.prove(C.land(a >= 0, a < m), "a target that was asked for")
                c.prove(C.implies(k != l, a != b), "no target twice")
                c.eqv(out.at(a), ev[0][3], f"{c.name}: results in the order of the targets")
                got, exp = ev[0][2], fo(a)
                if exp is None or got is None:
                    c.prove(exp is None and got is None, "forced outcome of the target")
                else:
                    c.eqv(got, exp, f"{c.name}: forced outcome of the target")
                if destructive:
                    c.prove(eq(ev[1][1], t(a)), "the measured qubit is removed")
                    c.prove(C.implies(k < l, t(a) > t(b)), "larger indices are removed first")
            c.scope(go)
        return f

    def one(how, form):
        @case(f"{kind}_{base}: one target ({form}), forced outcome: {how}")
        def f(c):
            w, kw = start(c)
            q = fresh_int("q", 0)
            fk, fo = forced(how, 1)
            st, out = c.run(fn, w.first, q if form == "int" else [q], **kw, **fk)
            c.prove(st is w.now, "the final state is returned")
            log = parts(w.log)
            want = ["M", "T"] if destructive else ["M"]
            c.prove([e[0] for e in log] == want, "what is done")
            if [e[0] for e in log] != want:
                return
            c.prove(all(eq(e[1], q) is True or cur().entails(eq(e[1], q))
                        for e in log), "on the target")
            if isinstance(out, SArr):
                c.prove(out.ndim == 0 or (out.ndim == 1 and out.shape[0] == 1),
                        "one result")
                out = out.item()
            c.eqv(out, log[0][3], f"{c.name}: the result")
            got, exp = log[0][2], fo(0)
            if exp is None or got is None:
                c.prove(exp is None and got is None, "forced outcome")
            else:
                c.eqv(got, exp, f"{c.name}: forced outcome")
        return f

    @case(f"{kind}_{base}: as many forced outcomes as targets")
    def count(c):
        w, kw = start(c)
        m, k = fresh_int("m", 1), fresh_int("k", 2)
        cur().assume(m != k)
        t, f = C.fun_int("target", 1, 0), C.fun_bit("forced", 1)
        e = c.raises(fn, w.first, SSeq(m, t, "list"), **kw,
                     forced_outcomes=SSeq(k, f, "list"))
        c.prove(isinstance(e, ValueError), "another number is rejected")

    out = {f"{kind}_{base}_many_{h}": many(h) for h in ("none", "one", "each")}
    out |= {f"{kind}_{base}_one_{h}_{f}": one(h, f)
            for h, f in (("none", "int"), ("one", "int"), ("none", "list"),
                         ("one", "list"))}
    out[f"{kind}_{base}_count"] = count
    return out
