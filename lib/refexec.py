"""Exact distributions of small circuits (reference semantics)."""
from lib import pauliref as pr

PAULI = "IXYZ"
GATES1 = ("X", "Y", "Z", "H")
GATES2 = ("CX", "CZ")


class Invalid(Exception):
    pass


class Dist:
    """Weighted states: (group, outcomes, flags, ERROR group) -> probability."""

    def __init__(self, n):
        self.n = n
        g = pr.rref([pr.single("Z", q) for q in range(n)], n)
        self.w = {(g, (), (), (False, False, False)): 1.0}

    def map(self, fn):
        """fn(state) -> list of (probability, state)."""
        out = {}
        for s, w in self.w.items():
            for p, t in fn(s):
                if p > 0:
                    out[t] = out.get(t, 0.0) + w * p
        self.w = out

    def gate(self, s, name, qs):
        g = s[0]
        if name in GATES1:
            for q in qs:
                g = [pr.conj1(name, o, q) for o in g]
        else:
            for a, b in zip(qs[::2], qs[1::2]):
                g = [pr.conj2(name, o, a, b) for o in g]
        return (pr.rref(g, self.n), *s[1:])

    def flip(self, s, op):
        """Apply a Pauli operator."""
        g = [(x, z, (k + 2 * pr.comm((x, z, k), op)) % 4) for x, z, k in s[0]]
        return (pr.rref(g, self.n), *s[1:])

    def measure(self, s, q):
        e, gs = pr.measure_group(s[0], pr.single("Z", q), self.n)
        if e is not None:
            return [(1.0, e, s)]
        return [(0.5, m, (gs[m], *s[1:])) for m in (0, 1)]

    def instr(self, s, name, args):
        """Unconditional instruction: list of (probability, state)."""
        if name in GATES1 or name in GATES2:
            return [(1.0, self.gate(s, name, args))]
        if name in ("M", "R"):
            cur = [(1.0, s)]
            for q in args:
                nxt = []
                for p, st in cur:
                    for pm, m, t in self.measure(st, q):
                        if name == "M":
                            t = (t[0], t[1] + (m,), *t[2:])
                        elif m:
                            t = self.flip(t, pr.single("X", q))
                        nxt.append((p * pm, t))
                cur = nxt
            return cur
        if name == "DEPOLARIZE":
            cur = [(1.0, s)]
            for q in args:
                cur = [(p / 3, self.flip(t, pr.single(c, q)))
                       for p, t in cur for c in "XYZ"]
            return cur
        if name == "E_ERASE":
            p, q = args
            out = [(1 - p, (*s[:2], s[2] + (False,), s[3]))]
            fired = (*s[:2], s[2] + (True,), s[3])
            out.append((p / 4, fired))
            for c in "XYZ":
                out.append((p / 4, self.flip(fired, pr.single(c, q))))
            return out
        if name == "E_PAULI":
            out = [(1 - sum(args[:3]), s)]
            for c, p in zip("XYZ", args):
                out.append((p, self.flip(s, pr.single(c, args[3]))))
            return out
        if name == "E_PAULI2":
            out = [(1 - sum(args[:15]), s)]
            a, b = args[15:]
            for k in range(1, 16):
                t = s
                for i, q in ((k // 4, a), (k % 4, b)):
                    if i:
                        t = self.flip(t, pr.single(PAULI[i], q))
                out.append((args[k - 1], t))
            return out
        raise Invalid(name)

    def step(self, name, args):
        """One instruction of a plaquette circuit."""
        def ctl(s, group, fired, branch):
            return (*s[:3], (group, fired, branch))

        def run(s):
            _, fired, branch = s[3]
            if name == "ERROR":
                p = args[0]
                out = [(1 - p, ctl(s, True, False, False))]
                return out + [(p * w, ctl(t, True, True, True))
                              for w, t in self.instr(s, args[1], args[2:])]
            if name == "ERROR_CONTINUE":
                if not s[3][0]:
                    raise Invalid(name)
                return self.instr(s, args[0], args[1:]) if branch else [(1.0, s)]
            if name == "ERROR_ELSE":
                if not s[3][0]:
                    raise Invalid(name)
                if fired:
                    return [(1.0, ctl(s, True, True, False))]
                p = args[0]
                out = [(1 - p, ctl(s, True, False, False))]
                return out + [(p * w, ctl(t, True, True, True))
                              for w, t in self.instr(s, args[1], args[2:])]
            return [(w, ctl(t, False, False, False))
                    for w, t in self.instr(s, name, args)]

        self.map(run)

    def stim_step(self, inst):
        """One instruction of a Stim circuit."""
        name, pa = inst.name, inst.gate_args_copy()
        tg = inst.targets_copy()

        def qs():
            if any(t.is_x_target or t.is_y_target or t.is_z_target or
                   not t.is_qubit_target or t.is_inverted_result_target for t in tg):
                raise Invalid(str(inst))
            return [t.value for t in tg]

        if name in ("X", "Y", "Z", "H", "M", "R"):
            if name == "M" and pa:
                raise Invalid("noisy measurement")
            a = qs()
            self.map(lambda s: self.instr(s, name, a))
        elif name in ("CX", "CZ"):
            a = qs()
            self.map(lambda s: self.instr(s, name, a))
        elif name in ("I", "TICK", "QUBIT_COORDS"):
            pass
        elif name == "PAULI_CHANNEL_1":
            for q in qs():
                self.map(lambda s: self.instr(s, "E_PAULI", (*pa, q)))
        elif name == "PAULI_CHANNEL_2":
            a = qs()
            for i in range(0, len(a), 2):
                self.map(lambda s: self.instr(s, "E_PAULI2", (*pa, a[i], a[i + 1])))
        elif name == "DEPOLARIZE1":
            for q in qs():
                self.map(lambda s: self.instr(s, "E_PAULI", (*[pa[0] / 3] * 3, q)))
        elif name in ("X_ERROR", "Y_ERROR", "Z_ERROR"):
            for q in qs():
                p = [pa[0] if c == name[0] else 0.0 for c in "XYZ"]
                self.map(lambda s: self.instr(s, "E_PAULI", (*p, q)))
        elif name in ("E", "CORRELATED_ERROR", "ELSE_CORRELATED_ERROR"):
            ops = []
            for t in tg:
                c = "X" if t.is_x_target else "Y" if t.is_y_target else "Z"
                if not (t.is_x_target or t.is_y_target or t.is_z_target):
                    raise Invalid(str(inst))
                ops.append(pr.single(c, t.value))
            els = name.startswith("ELSE")

            def run(s):
                if els and s[3][1]:
                    return [(1.0, s)]
                t = s
                for o in ops:
                    t = self.flip(t, o)
                return [(1 - pa[0], (*s[:3], (True, False, False))),
                        (pa[0], (*t[:3], (True, True, True)))]

            self.map(run)
        else:
            raise Invalid(name)

    def result(self):
        out = {}
        for (g, m, f, _), w in self.w.items():
            out[g, m, f] = out.get((g, m, f), 0.0) + w
        return out


def close(a, b, eps=1e-9):
    """Difference of two distributions, or None."""
    for k in set(a) | set(b):
        if abs(a.get(k, 0.0) - b.get(k, 0.0)) > eps:
            return f"{k}: probability {a.get(k, 0.0)}, expected {b.get(k, 0.0)}"
    return None
