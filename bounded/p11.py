"""P11: OpenQASM export."""
import re

from plaquette.circuit import Circuit
from plaquette.circuit import openqasm

from lib.bounded import rejects, require

NAMES = {"X": "x", "Y": "y", "Z": "z", "H": "h", "CX": "cx", "CZ": "cz"}


def parse(text):
    """Statements of the program: (name, qubits[, classical bit])."""
    text = re.sub(r"//[^\n]*", "", text)
    parts = [s.strip() for s in text.split(";")]
    require(parts[-1] == "", "missing semicolon")
    parts = parts[:-1]
    require(re.fullmatch(r"OPENQASM\s+2\.0", parts[0]), f"header {parts[0]!r}")
    require(re.fullmatch(r'include\s+"qelib1\.inc"', parts[1]), f"include {parts[1]!r}")
    regs, out = {}, []
    for s in parts[2:]:
        m = re.fullmatch(r"([qc])reg\s+(\w+)\s*\[(\d+)\]", s)
        if m:
            require(m[1] not in regs and not out, "register declarations")
            regs[m[1]] = (m[2], int(m[3]))
            continue
        m = re.fullmatch(r"measure\s+(\w+)\[(\d+)\]\s*->\s*(\w+)\[(\d+)\]", s)
        if m:
            require(m[1] == regs["q"][0] and m[3] == regs["c"][0], s)
            require(int(m[4]) < regs["c"][1], f"{s}: no such bit")
            out.append(("measure", (int(m[2]),), int(m[4])))
            continue
        m = re.fullmatch(r"(\w+)\s+(.*)", s)
        require(m, f"statement {s!r}")
        qs = []
        for a in m[2].split(","):
            k = re.fullmatch(r"\s*(\w+)\[(\d+)\]\s*", a)
            require(k and k[1] == regs["q"][0], f"argument {a!r}")
            qs.append(int(k[2]))
        require(all(q < regs["q"][1] for q in qs), f"{s}: no such qubit")
        out.append((m[1], tuple(qs)))
    require(set(regs) == {"q", "c"}, "registers")
    return regs["q"][1], regs["c"][1], out


def wanted(gates, resets):
    out, k = [], 0
    for name, *qs in gates:
        if name == "M":
            for q in qs:
                out.append(("measure", (q,), k))
                k += 1
        elif name in ("CX", "CZ"):
            out += [(NAMES[name], (a, b)) for a, b in zip(qs[::2], qs[1::2])]
        elif name == "R":
            if resets:
                out += [("reset", (q,)) for q in qs]
        elif name in NAMES:
            out += [(NAMES[name], (q,)) for q in qs]
    return out


def make(gates):
    c = Circuit()
    for g in gates:
        c.append(*g)
    return c


def c_export(gates, ignore=False, text=False, resets=False):
    """Reset instructions give one statement each, or are all missing (finding)."""
    c = make(gates)
    arg = str(c) if text else c
    qasm = openqasm.convert_to_openqasm(arg, ignore) if ignore else \
        openqasm.convert_to_openqasm(arg)
    nq, nc, got = parse(qasm)
    want = wanted(gates, True)
    if not resets and got != want:
        want = wanted(gates, False)
    require(got == want, f"statements {got}, expected {want}")
    qs = [a for g in c.gates for a in g[1] if isinstance(a, int)]
    require(nq == max(qs, default=0) + 1, f"{nq} qubits declared")
    require(nc == sum(len(g) - 1 for g in gates if g[0] == "M"), f"{nc} bits declared")


def c_unsupported(gates, bad):
    c = make(gates)
    if bad:
        rejects(lambda: openqasm.convert_to_openqasm(c), "unsupported instruction")
        rejects(lambda: openqasm.convert_to_openqasm(c, False), "unsupported")
    else:
        c_export(gates)


def c_type(obj):
    rejects(lambda: openqasm.convert_to_openqasm(obj), f"{obj!r}")


def c_known_reset():
    c_export([["R", 0, 1], ["M", 0]], resets=True)


CASES = {"export": c_export, "unsupported": c_unsupported, "type": c_type,
         "known_reset": c_known_reset}
KNOWN = {"P11-reset": ("known_reset", {})}


def run(ctx):
    from bounded.p10 import ONE, random_gate

    r = ctx.rng
    for name in ("X", "Y", "Z", "H", "M", "R"):
        for k in (1, 2, 3):
            for t in (False, True):
                ctx.run("export", gates=[[name, *range(k)]], text=t)
    for name in ("CX", "CZ"):
        for qs in ([0, 1], [1, 0], [0, 1, 1, 2], [5, 2, 3, 0, 2, 4]):
            ctx.run("export", gates=[[name, *qs], ["M", 3, 0]])
    bad = [["E_ERASE", 0.1, 0], ["E_PAULI", .1, .1, .1, 1], ["DEPOLARIZE", 2],
           ["E_PAULI2", *[0.01] * 15, 0, 9], ["ERROR", 0.1, "X", 0],
           ["ERROR_ELSE", 0.1, "X", 0], ["ERROR_CONTINUE", "X", 0],
           ["ERROR", 0.1, "M", 0]]
    for b in bad:
        for gates in ([b], [["M", 1], b, ["M", 0]], [["H", 0], b]):
            ctx.run("unsupported", gates=gates, bad=True)
            ctx.run("export", gates=gates, ignore=True)
            ctx.run("export", gates=gates, ignore=True, text=True)
    for o in (None, 3, ["X 0"], b"X 0"):
        ctx.run("type", obj=o) if not isinstance(o, bytes) else None
    for _ in range(ctx.n(600, 8000)):
        g = [random_gate(r, r.choice([3, 12])) for _ in range(r.randint(1, 15))]
        isbad = any(a[0] not in ("X", "Y", "Z", "H", "CX", "CZ", "M", "R") for a in g)
        ctx.run("export", gates=g, ignore=True, text=r.random() < .5)
        ctx.run("unsupported", gates=g, bad=isbad)
        g = [a for a in g if a[0] in ("X", "Y", "Z", "H", "CX", "CZ", "M", "R")]
        ctx.run("export", gates=g, ignore=r.random() < .5, text=r.random() < .5)
