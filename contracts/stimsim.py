"""The state of the fast simulator between two runs."""
import plaquette
from plaquette.circuit import Circuit, CircuitBuilder
from plaquette.device import _stimsim as S

from contracts.common import C, cur, fresh_array, fresh_int
from pyvc.seq import SSeq


class Sampler:
    """A stream of samples: every call continues it."""
    pyvc_ok = True

    def __init__(self, of, seed):
        self.of, self.seed, self.calls = of, seed, []

    def sample(self, shots):
        b = fresh_array("batch", (shots, self.of.nm), "b")
        self.calls.append((shots, b))
        return b


class Translated:
    """What circuit_to_stim returns for one version of the circuit."""
    pyvc_ok = True

    def __init__(self, gates):
        self.gates = list(gates)
        self.nm = fresh_int("records", 0)
        self.flag = C.fun_bool("is_erasure", 1)
        self.samplers = []

    def compile_sampler(self, seed=None, **kw):
        s = Sampler(self, seed)
        self.samplers.append(s)
        return s


def world(c):
    """Contracts of the translation and of the random source."""
    w = type("W", (), {})()
    w.translated, w.seeds = [], []

    def translate(it, a, k):
        t = Translated(a[0].gates)
        w.translated.append(t)
        return t, SSeq(t.nm, lambda i: t.flag(i))
    c.contracts[S.circuit_to_stim] = translate

    def integers(it, a, k):
        v = fresh_int("seed", 0)
        w.seeds.append((a, k, v))
        return v
    c.contracts[type(plaquette.rng).integers] = integers
    return w


def simulator(c, w, seed=True, builder=False):
    circ = Circuit()
    circ.gates.append(("X", (0,)))
    w.seed = fresh_int("stim_seed", 0) if seed else None
    w.size = fresh_int("batch_size", 1)
    sim = S.StimSimulator.__new__(S.StimSimulator)
    c.run(S.StimSimulator.__init__, sim, CircuitBuilder(circ) if builder else circ,
          stim_seed=w.seed, batch_size=w.size)
    w.circ = circ
    return sim


def arbitrary(w, sim):
    """After any number of runs: r rows of the batch are left."""
    w.r = fresh_int("left", 0, w.size + 1)
    t = w.translated[-1]
    w.old = fresh_array("batch", (w.size, t.nm), "b")
    sim.batch, sim.batch_remaining = w.old, w.r
    return sim
