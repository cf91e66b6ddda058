"""P10: circuit text is validated and survives a round trip."""
import numpy as np
from plaquette.circuit import Circuit, CircuitBuilder

from lib.bounded import rejects, require

ONE = ["X", "Y", "Z", "H", "M", "R", "DEPOLARIZE"]
TWO = ["CX", "CZ"]


def qubits_of(name, args):
    if name in ("ERROR", "ERROR_ELSE"):
        return qubits_of(args[1], args[2:])
    if name == "ERROR_CONTINUE":
        return qubits_of(args[0], args[1:])
    if name == "E_ERASE":
        return args[1:]
    if name == "E_PAULI":
        return args[3:]
    if name == "E_PAULI2":
        return args[15:]
    return args


def norm(gates):
    return [(n, tuple((type(a).__name__, repr(a)) for a in args)) for n, args in gates]


def expected(name, args):
    nq = len(qubits_of(name, args))
    return (name, tuple(
        int(a) if i >= len(args) - nq else (a if isinstance(a, str) else float(a))
        for i, a in enumerate(args)))


def cast(a, kind):
    if kind == "numpy" and not isinstance(a, str):
        return np.float64(a) if isinstance(a, float) else np.int64(a)
    if kind == "str":
        return repr(a) if not isinstance(a, str) else a
    return a


def c_api(gates, kind="plain", builder=False):
    """Instructions built through the API, printed and parsed."""
    c = Circuit()
    cb = CircuitBuilder(c)
    for name, *args in gates:
        args = [cast(a, kind) for a in args]
        if builder:
            getattr(cb, name if len(name) < 3 else name.lower())(*args)
        else:
            c.append(name, *args)
    want = [expected(n, a) for n, *a in gates]
    require(norm(c.gates) == norm(want), f"gates {c.gates}, expected {want}")
    c2 = Circuit.from_str(str(c))
    require(norm(c2.gates) == norm(want), f"after the round trip {c2.gates}")
    require(str(c2) == str(c), "text of the parsed circuit")
    qs = [q for n, *a in gates for q in qubits_of(n, a)]
    if qs:
        require(c.number_of_qubits == c.n_q == 1 + max(qs), "number of qubits")
    meas = sum(len(a) for n, *a in gates if n == "M")
    require(c.number_measured_qubits == meas, "number of measurements")
    # appended in parts
    c3 = Circuit()
    lines = str(c).split("\n")
    k = len(lines) // 2
    c3.append_from_str("\n".join(lines[:k]))
    c3.append_from_str("\n".join(lines[k:]))
    require(norm(c3.gates) == norm(want), "appended in parts")


def c_decorated(gates, deco):
    """Comments, blank lines and whitespace have no effect."""
    lines = []
    for i, (name, *args) in enumerate(gates):
        text = f"{name} " + " ".join(repr(a) if not isinstance(a, str) else a
                                     for a in args)
        d = deco[i % len(deco)] if deco else 0
        if d & 1:
            text = "\t  " + text.replace(" ", "  \t") + "   "
        if d & 2:
            text += " # comment X 1 # H 2"
        if d & 4:
            lines.append("")
        if d & 8:
            lines.append("  # H 0")
        if d & 16:
            lines.append("   \t ")
        if d & 32:
            text += "#H 99"
        lines.append(text)
        if d & 64:
            lines.append("#")
    sep = "\r\n" if deco and deco[0] & 128 else "\n"
    c = Circuit.from_str(sep.join(lines))
    want = [expected(n, a) for n, *a in gates]
    require(norm(c.gates) == norm(want), f"gates {c.gates}, expected {want}")


def c_reject(line, tokens=None):
    """Rejected, and nothing is appended."""
    c = Circuit()
    if tokens is None:
        rejects(lambda: c.append_from_str(line), line)
    else:
        rejects(lambda: c.append(*tokens), f"{tokens}")
    require(c.gates == [], "the rejected instruction was appended")


CASES = {"api": c_api, "decorated": c_decorated, "reject": c_reject}


def random_p(r):
    return r.choice([0.0, 1.0, 0.1, 1 / 3, 1e-17, 5e-324, 0.1 + 0.2, r.random(),
                     r.random() * 1e-5, 1 - 2**-53, 0.25])


def random_gate(r, nmax=12, nested=True):
    q = lambda: r.choice([r.randrange(nmax), r.randrange(3), r.randrange(2000)]) \
        if nmax > 3 else r.randrange(nmax)
    kinds = ["one", "two", "E_ERASE", "E_PAULI", "E_PAULI2"]
    if nested:
        kinds += ["ERROR", "ERROR_ELSE", "ERROR_CONTINUE"]
    k = r.choice(kinds)
    if k == "one":
        return [r.choice(ONE), *(q() for _ in range(r.choice([1, 1, 2, 3, 7])))]
    if k == "two":
        return [r.choice(TWO), *(q() for _ in range(r.choice([2, 2, 4, 6])))]
    if k == "E_ERASE":
        return [k, random_p(r), q()]
    if k == "E_PAULI":
        return [k, *(random_p(r) for _ in range(3)), q()]
    if k == "E_PAULI2":
        return [k, *(random_p(r) for _ in range(15)), q(), q()]
    while True:
        inner = random_gate(r, nmax, False)
        if not inner[0].startswith("E_"):
            break
    return [k, *inner] if k == "ERROR_CONTINUE" else [k, random_p(r), *inner]


REJECT = [
    "FOO 1", "x 0", "h 1", "S 0", "CNOT 0 1", "E_ERASE", "E_ERASE 0.1",
    "E_ERASE 0.1 1 2", "E_PAULI 0.1 0.1 0.1", "E_PAULI 0.1 0.1 1",
    "E_PAULI 0.1 0.1 0.1 0 1", "E_PAULI 0.1 0.1 0.1 0.5", "E_ERASE 0.1 0.5",
    "E_PAULI2 " + "0.01 " * 14 + "0 1", "E_PAULI2 " + "0.01 " * 15 + "0",
    "E_PAULI2 " + "0.01 " * 15 + "0 1 2", "E_PAULI2 " + "0.01 " * 15 + "0 1.5",
    "E_PAULI2 " + "0.01 " * 16 + "0 1", "X a", "X 0.5", "X 1.0", "M 0 1 b", "H 1e3",
    "CX 0 1 2", "CX 0", "CZ 0 0.5", "CZ 3", "R x", "DEPOLARIZE 0.1", "Y 1,2",
    "ERROR 1.1 X 0", "ERROR -0.1 X 0", "ERROR nan X 0", "ERROR inf X 0", "ERROR X 0",
    "ERROR 0.1", "ERROR", "ERROR_ELSE 1.0000001 X 0", "ERROR_ELSE -1e-9 X 0",
    "ERROR_ELSE X 0", "ERROR 0.1 FOO 0", "ERROR_ELSE 0.1 FOO 0", "ERROR_CONTINUE",
    "ERROR_CONTINUE FOO 0", "ERROR 0.1 X 0.5", "ERROR_CONTINUE X 0.5",
    "ERROR_ELSE 0.1 X y", "ERROR 0.1 CX 0 1 2", "ERROR_CONTINUE CX 0",
    "ERROR_CONTINUE 0.1 X 0", "X0", "ERROR 0.1 x 0", "E_PAULI a b c 0",
    "E_ERASE p 1", "MX 0",
]
REJECT_TOKENS = [["X", 0.5], ["CX", 0, 1.5], ["E_ERASE", 0.1, 1.5], ["M", 0, 1, 2.25],
                 ["E_PAULI", 0.1, 0.1, 0.1, 0.5], ["ERROR", 0.1, "X", 0.5],
                 ["ERROR", 2, "X", 0], ["ERROR", -1, "X", 0], ["ERROR_CONTINUE", "X", .5],
                 ["E_ERASE", 0.1], ["E_PAULI", 0.1, 0.1, 0.1], ["CZ", 1, 2, 3],
                 ["NOPE", 1], ["H", "a"], ["H", None]]


def run(ctx):
    r = ctx.rng
    for line in REJECT:
        ctx.run("reject", line=line)
    for t in REJECT_TOKENS:
        ctx.run("reject", line="", tokens=t)
    for name in ONE:
        for k in (1, 2, 5):
            ctx.run("api", gates=[[name, *range(k)]], builder=True)
            ctx.run("api", gates=[[name, *range(k)]])
    for p in (0.0, 1.0, 0.5, 1e-300, 0.1, 1 / 3):
        for n in ("ERROR", "ERROR_ELSE"):
            for g in (["X", 3], ["CX", 1, 2], ["H", 0, 4], ["Z", 7]):
                ctx.run("api", gates=[[n, p, *g]], builder=True)
    for _ in range(ctx.n(400, 5000)):
        g = [random_gate(r) for _ in range(r.randint(1, 12))]
        ctx.run("api", gates=g, kind=r.choice(["plain", "numpy", "str"]),
                builder=r.random() < 0.5)
    for _ in range(ctx.n(300, 4000)):
        g = [random_gate(r) for _ in range(r.randint(1, 8))]
        ctx.run("decorated", gates=g, deco=[r.randrange(256) for _ in g])
