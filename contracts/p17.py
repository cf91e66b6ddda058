"""P17: devices and independent shots."""
import z3
from plaquette import device
from plaquette.circuit import Circuit, CircuitBuilder
from plaquette.device import _circuitsim, _stimsim
from plaquette.device._stimsim import StimSimulator

from contracts import p15, stimsim
from contracts.common import C, SBool, SInt, cur, eq, fresh_int
from pyvc.contract import case
from pyvc.core import Unsupported

FUNCTIONS = ["device.Device.*", "device._stimsim.StimSimulator.*",
             "device._circuitsim.CircuitSimulator.run, reset, __init__, __iter__, __next__"]
ASSUMPTIONS = [
    "a compiled stim sampler continues its random stream from call to call, and rows of "
    "a batch are independent samples of the circuit it was compiled from; samplers with "
    "different seeds are independent (stim)",
    "circuit_to_stim is correct (P16); instructions of the reference simulator (P15)",
    "the fast simulator keeps its batch in batch and batch_remaining; another "
    "representation is left to the bounded check"]
FIELDS = {"circ", "batch_size", "_converted_gates", "stim_circ", "meas_is_erasure",
          "stim_seed", "stim_sampler", "batch", "batch_remaining"}
run_reference, step_reference = p15.whole, p15.following
start_reference = p15.fresh


def check_fields(sim):
    if set(vars(sim)) - {"all_meas"} != FIELDS:
        raise Unsupported("another representation of the simulator")


def row_of(c, sim, batch, what):
    """The index of the row of the batch which a run took."""
    a = sim.all_meas
    c.prove(SBool(eq(a.shape[0], batch.shape[1])), what + ": length")
    j = fresh_int("column", 0, batch.shape[1])
    t, b = z3.simplify(C.bitterm(a.at(j))), C.bitterm(batch.at(0, j))
    if not (z3.is_app(t) and t.decl().eq(b.decl()) and t.num_args() == 2):
        c.fail(what + ": is a row of the batch", str(t)[:300])
        return SInt(z3.IntVal(0))
    c.prove(SBool(t.arg(1) == j.t), what + ": in the order of the columns")
    i = SInt(t.arg(0))
    c.prove(C.land(i >= 0, i < batch.shape[0]), what + ": is a row of the batch")
    return i


def flags_of(c, sim, t, what):
    f = sim.meas_is_erasure
    c.prove(SBool(eq(f.shape[0], t.nm)), what)

    def at():
        j = fresh_int("j", 0, t.nm)
        c.prove(SBool(eq(f.at(j), t.flag(j))), what)
    c.scope(at)


@case("fast simulator: start and first run")
def first(c):
    for seed in (True, False):
        for builder in (True, False):
            def at():
                w = stimsim.world(c)
                sim = stimsim.simulator(c, w, seed, builder)
                check_fields(sim)
                c.prove(sim.circ is w.circ, "its circuit")
                t = w.translated[-1]
                c.prove(t.gates == w.circ.gates, "translated")
                flags_of(c, sim, t, "flags of the translation")
                s = sim.stim_sampler
                c.prove(s in t.samplers, "sampler of its circuit")
                if seed:
                    c.prove(SBool(eq(s.seed, w.seed)), "with the given seed")
                else:
                    if len(w.seeds) != 1:
                        raise Unsupported("seeds drawn otherwise")
                    c.prove(SBool(eq(s.seed, w.seeds[0][2])), "with a fresh seed")
                    a = w.seeds[0][0][1:]
                    c.prove(len(a) == 2 and a[1] >= 2 ** 31, "from a large range")
                c.run(StimSimulator.run, sim)
                c.prove(len(s.calls) == 1 and sim.stim_sampler is s, "one batch")
                n, b = s.calls[0]
                c.prove(SBool(eq(n, w.size)), "of the size of a batch")
                row_of(c, sim, b, "first record")
                c.prove(SBool(eq(sim.batch_remaining, w.size - 1)), "rows left")
                c.prove(sim.batch is b, "batch kept")
            c.scope(at)


@case("fast simulator: any later run")
def later(c):
    w = stimsim.world(c)
    sim = stimsim.arbitrary(w, stimsim.simulator(c, w))
    check_fields(sim)
    t, s = w.translated[-1], sim.stim_sampler
    c.run(StimSimulator.run, sim)
    c.prove(sim.stim_sampler is s and len(t.samplers) == 1 and len(w.translated) == 1,
            "the same stream goes on")
    flags_of(c, sim, t, "flags of the translation")
    if bool(w.r > 0):
        c.prove(not s.calls and sim.batch is w.old, "no new batch while rows are left")
        row_of(c, sim, w.old, "record")
        c.prove(SBool(eq(sim.batch_remaining, w.r - 1)), "one row less is left")
    else:
        c.prove(len(s.calls) == 1, "a new batch")
        row_of(c, sim, s.calls[-1][1], "record")
        c.prove(SBool(eq(s.calls[-1][0], w.size)), "of the size of a batch")
        c.prove(SBool(eq(sim.batch_remaining, w.size - 1)), "the other rows are left")
        c.prove(sim.batch is s.calls[-1][1], "batch kept")


@case("fast simulator: no row is used twice")
def rows(c):
    """Two runs which take their rows from one batch take different rows."""
    w = stimsim.world(c)
    sim = stimsim.arbitrary(w, stimsim.simulator(c, w))
    check_fields(sim)
    s = sim.stim_sampler
    a = w.r
    cur().assume(a > 0)
    c.run(StimSimulator.run, sim)
    i = row_of(c, sim, w.old, "one run")
    b = fresh_int("left_later", 1)
    cur().assume(b < a)
    sim.batch_remaining = b
    c.run(StimSimulator.run, sim)
    j = row_of(c, sim, w.old, "a later run")
    c.prove(i != j, "different rows")
    sim.batch_remaining = 0
    c.run(StimSimulator.run, sim)
    new = s.calls[-1][1]
    i = row_of(c, sim, new, "a run with a new batch")
    cur().assume(w.size > b)
    sim.batch_remaining = b
    c.run(StimSimulator.run, sim)
    j = row_of(c, sim, new, "a later run")
    c.prove(i != j, "different rows of a new batch")


@case("fast simulator: circuit changed since")
def changed(c):
    for how in ("appended", "replaced", "removed"):
        def at():
            w = stimsim.world(c)
            sim = stimsim.arbitrary(w, stimsim.simulator(c, w))
            check_fields(sim)
            if how == "appended":
                w.circ.gates.append(("M", (0,)))
            elif how == "replaced":
                w.circ.gates[0] = ("M", (0,))
            else:
                w.circ.gates.clear()
            c.run(StimSimulator.run, sim)
            t, s = w.translated[-1], sim.stim_sampler
            c.prove(t.gates == w.circ.gates, "translated again")
            c.prove(s in t.samplers and len(s.calls) == 1, "sampled from the new circuit")
            flags_of(c, sim, t, "flags of the new circuit")
            row_of(c, sim, s.calls[-1][1], "record")
            c.run(StimSimulator.run, sim)
            c.prove(sim.stim_sampler is s and w.translated[-1] is t,
                    "and goes on with it")
        c.scope(at)


@case("fast simulator: reset")
def reset(c):
    for seed in (False, True):
        def at():
            w = stimsim.world(c)
            sim = stimsim.arbitrary(w, stimsim.simulator(c, w))
            new = fresh_int("new_seed", 1)
            c.run(StimSimulator.reset, sim, **({"new_seed": new} if seed else {}))
            c.run(StimSimulator.run, sim)
            s = sim.stim_sampler
            c.prove(s is w.translated[-1].samplers[-1] and
                    len(w.translated[-1].samplers) == 2 and len(s.calls) == 1,
                    "a new sampler")
            if seed:
                c.prove(SBool(eq(s.seed, new)), "with the new seed")
            row_of(c, sim, s.calls[-1][1], "record")
        c.scope(at)
    w = stimsim.world(c)
    sim = stimsim.arbitrary(w, stimsim.simulator(c, w))
    e = c.raises(StimSimulator.run, sim, after_reset=False)
    c.prove(e is not None, "continuing without a reset is rejected")


# --------------------------------------------------------------------- devices
class Backend:
    """A simulator: runs its circuit, has the record of its last run."""
    pyvc_ok = True

    def __init__(self, w, circ, args, kwargs):
        self.w, self.circ, self.args, self.kwargs = w, circ, args, kwargs
        self.record = None
        self.state, self.n_qubits = object(), object()

    def run(self, *, after_reset=True):
        self.w.runs.append((self, self.circ, after_reset))
        self.record = (len(self.w.runs), self.circ)

    def process_results(self):
        return self.record

    def reset(self, *a, **k):
        self.w.resets.append((self, a, k))


class Remote(Backend):
    def run(self, circ, *, shots=1):
        self.w.runs.append((self, circ, shots))
        self.record = (len(self.w.runs), circ)

    def get_sample(self):
        return self.record


def world(c):
    w = type("W", (), {})()
    w.made, w.runs, w.resets = [], [], []

    def make(it, a, k):
        circ = a[0] if a else k["circ"]
        if isinstance(circ, CircuitBuilder):
            circ = circ.circ
        if not isinstance(circ, Circuit):
            raise Unsupported("not a circuit")
        b = Backend(w, circ, tuple(a[1:]), dict(k))
        w.made.append(b)
        return b
    c.contracts[_circuitsim.CircuitSimulator] = make
    c.contracts[StimSimulator] = make
    return w


def circuits():
    a, b = Circuit(), Circuit()
    return a, CircuitBuilder(a), b, CircuitBuilder(b)


def latest(c, w, dev, circ, after_reset):
    b, ran, how = w.runs[-1]
    c.prove(ran is circ, "runs the circuit passed to the latest run")
    c.prove(how is after_reset, "as asked")
    r = c.run(device.Device.get_sample, dev)
    c.prove(r == (len(w.runs), circ) and r[1] is circ, "the record of that very run")
    c.prove(c.run(device.Device.circuit.fget, dev) is circ, "circuit of the device")
    c.prove(c.run(device.Device.state.fget, dev) is b.state, "state of the device")


@case("Device: runs")
def runs(c):
    """Any two runs in a row, from a new device or one which was used before; the
    state of a device is its backend, so this covers any history."""
    for name in ("clifford", "stim"):
        for i in range(4):
            for j in range(4):
                for after in (None, True, False):
                    w, cs = world(c), circuits()
                    dev = device.Device.__new__(device.Device)
                    c.run(device.Device.__init__, dev, name, "arg", key="word")
                    for x, k in ((i, {}), (j, {} if after is None else
                                           {"after_reset": after})):
                        n = len(w.made)
                        c.run(device.Device.run, dev, cs[x], **k)
                        c.prove(w.runs[-1][0].args == ("arg",) and
                                w.runs[-1][0].kwargs == {"key": "word"},
                                "backend with the given settings")
                        latest(c, w, dev, cs[x - x % 2], k.get("after_reset", True))
                    c.prove(len(w.runs) == 2, "one run each")
                    if i // 2 == j // 2:
                        c.prove(len(w.made) == n and w.runs[0][0] is w.runs[1][0],
                                "the same circuit continues its stream")
                    c.run(device.Device.reset_backend, dev, 7, new=8)
                    c.prove(w.resets == [(w.runs[-1][0], (7,), {"new": 8})], "reset")


@case("Device: other backends")
def remote(c):
    """A backend which is not local gets the circuit and the number of shots."""
    w, cs = world(c), circuits()
    dev = device.Device.__new__(device.Device)
    c.run(device.Device.__init__, dev, "clifford")
    if set(vars(dev)) != {"_args", "_kwargs", "_backend_name", "_backend_class",
                          "_backend", "_circuit"}:
        raise Unsupported("another representation of a device")
    dev._backend_name, dev._backend = "remote", Remote(w, None, (), {})
    shots = fresh_int("shots", 1)
    for x in cs:
        c.run(device.Device.run, dev, x, shots=shots)
        c.prove(w.runs[-1][1] is x and SBool(eq(w.runs[-1][2], shots)),
                "circuit and shots passed on")
        r = c.run(device.Device.get_sample, dev)
        c.prove(r == (len(w.runs), x), "the record of that very run")


@case("Device: unknown backends")
def unknown(c):
    for name in ("", "Clifford", "clifford ", "stim2", "cirq", "s", "cliffordstim"):
        dev = device.Device.__new__(device.Device)
        e = c.raises(device.Device.__init__, dev, name)
        c.prove(e is not None, "rejected")
