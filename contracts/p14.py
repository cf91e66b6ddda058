"""P14: unpacking of measurement records."""
from plaquette.device import MeasurementSample

from contracts.common import C, SBool, cur, eq, fresh_array, fresh_int, ite
from pyvc.arr import SArr
from pyvc.contract import case

FUNCTIONS = ["device.MeasurementSample.from_code_and_raw_results"]
ASSUMPTIONS = [
    "the record has the layout of generated circuits (P12, P13): measured qubits of the "
    "logical operators, n_rounds + 1 rows of stabiliser values, measured qubits of the "
    "logical operators again, in the same order",
    "without logical ancillas all measured logical operators have the same weight (known "
    "finding P14-unequal-weights: the record does not tell them apart)",
    "positive numbers of rounds, stabilisers, logical and data qubits (StabilizerCode)"]


class Code:
    pyvc_ok = True


def code():
    x = Code()
    x.n_rounds, x.n_stabgens = fresh_int("n_rounds", 1), fresh_int("n_stabgens", 1)
    x.n_logical_qubits = fresh_int("n_logical_qubits", 1)
    x.n_data_qubits = fresh_int("n_data_qubits", 1)
    return x


def parity(n, f):
    return f(0) if isinstance(n, int) else C.mksum(n, f) % 2


def one(anc, dt):
    @case(f"unpacking: {'ancilla' if anc else 'direct'}: {dt}")
    def f(c):
        x = code()
        k, S, R = x.n_logical_qubits, x.n_stabgens, x.n_rounds
        d = 1 if anc else fresh_int("weight", 1)
        n = k * d + (R + 1) * S + k * d
        bits = C.fun_bit("raw", 1, dt)
        raw = SArr.of(lambda i: bits(i), (n,), dt) if dt == "i8" else \
            fresh_array("raw", (n,), dt)
        e = fresh_array("erasure", (R * x.n_data_qubits,), "b")
        for with_erasure in (False, True):
            def at():
                r = c.run(MeasurementSample.from_code_and_raw_results.__func__,
                          MeasurementSample, x, raw, erasure=e if with_erasure else None,
                          logical_ancilla=anc)
                check(c, r, x, d, raw, e if with_erasure else None, anc)
            c.scope(at)
    return f


def shape(c, a, sh, what):
    c.prove(len(a.shape) == len(sh), what + ": dimensions")
    c.prove(C.land(*[SBool(eq(p, q)) for p, q in zip(a.shape, sh)]), what + ": shape")


def check(c, r, x, d, raw, e, anc):
    k, S, R = x.n_logical_qubits, x.n_stabgens, x.n_rounds
    shape(c, r.logical_op_initial, (k,), "initial values")
    shape(c, r.logical_op_final, (k,), "final values")
    shape(c, r.logical_op_toggle, (k,), "flips")
    shape(c, r.stabilizer_gen, (R + 1, S), "stabiliser values")
    shape(c, r.syndrome, (R, S), "syndrome")
    first = lambda i: parity(d, lambda j: raw.at(i * d + j))  # noqa: E731
    last = lambda i: parity(d, lambda j: raw.at(k * d + (R + 1) * S + i * d + j))  # noqa: E731

    def logical():
        i = fresh_int("i", 0, k)
        c.eqv(r.logical_op_initial.at(i), first(i), c.name + ": initial values")
        c.eqv(r.logical_op_final.at(i), last(i), c.name + ": final values")
        c.prove(SBool(eq(r.logical_op_toggle.at(i),
                         r.logical_op_initial.at(i) ^ r.logical_op_final.at(i))),
                "flips: initial xor final")
    c.scope(logical)

    def stab():
        t, s = fresh_int("t", 0, R + 1), fresh_int("s", 0, S)
        c.prove(SBool(eq(r.stabilizer_gen.at(t, s), raw.at(k * d + t * S + s))),
                "stabiliser values")
    c.scope(stab)

    def syn():
        t, s = fresh_int("t", 0, R), fresh_int("s", 0, S)
        a = lambda u: raw.at(k * d + u * S + s)  # noqa: E731
        c.prove(SBool(eq(r.syndrome.at(t, s), C.ite(a(t) != a(t + 1), 1, 0))), "syndrome")
    c.scope(syn)
    if e is None:
        c.prove(r.erased_qubits is None, "no erasures without erasure information")
    else:
        shape(c, r.erased_qubits, (R, x.n_data_qubits), "erasure flags")

        def flags():
            t, q = fresh_int("t", 0, R), fresh_int("q", 0, x.n_data_qubits)
            c.prove(SBool(eq(r.erased_qubits.at(t, q), e.at(t * x.n_data_qubits + q))),
                    "erasure flags")
        c.scope(flags)


direct_u1, direct_b, direct_i8 = one(False, "u1"), one(False, "b"), one(False, "i8")
anc_u1, anc_b, anc_i8 = one(True, "u1"), one(True, "b"), one(True, "i8")


@case("unpacking: wrong number of erasure flags")
def wrong(c):
    x = code()
    k = x.n_logical_qubits
    raw = fresh_array("raw", (2 * k + (x.n_rounds + 1) * x.n_stabgens,), "u1")
    m = fresh_int("m", 0)
    cur().assume(m != x.n_rounds * x.n_data_qubits)
    for anc in (False, True):
        e = c.raises(MeasurementSample.from_code_and_raw_results.__func__,
                     MeasurementSample, x, raw, erasure=fresh_array("e", (m,), "b"),
                     logical_ancilla=anc)
        c.prove(e is not None, "rejected")
