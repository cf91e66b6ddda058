"""P12: generated circuits have the documented layout and noise."""
import warnings

from plaquette.circuit.generator import generate_qec_circuit
from plaquette.codes import LatticeCode
from plaquette.codes import latticebase as lb

from bounded.p07 import make
from bounded.util import arr, bits
from lib import pauliref as pr
from lib.bounded import rejects, require

PAIRS = [a + b for a in "ixyz" for b in "ixyz"][1:]


def build_code(spec):
    """spec: [family, size, rounds] or {stabs, logs, rounds} or with 'faulty'."""
    if isinstance(spec, dict) and "stabs" in spec:
        return LatticeCode.from_operators(arr(spec["stabs"]), arr(spec["logs"]),
                                          spec["rounds"])
    if isinstance(spec, dict):
        code = LatticeCode.make_planar(spec["rounds"], spec["size"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            code.apply_fabrication_errors(
                faulty_qubits=[tuple(q) for q in spec["faulty"]],
                boundary_join=spec.get("join", False))
        return code
    return make(*spec)


def dicts(errors):
    """Error dictionaries from their JSON form (list of [name, key, params])."""
    q, g = {}, {}
    for name, key, params in errors:
        d = q if name in ("pauli", "erasure", "measurement") else g
        d.setdefault(name, {})[tuple(key) if isinstance(key, list) else key] = \
            dict(params)
    return q, g


class Reader:
    def __init__(self, gates):
        self.gates, self.i = gates, 0

    def peek(self):
        return self.gates[self.i] if self.i < len(self.gates) else ("END", ())

    def next(self):
        g = self.peek()
        self.i += 1
        return g


def spread(gates):
    """One instruction per elementary operation."""
    out = []
    for name, args in gates:
        if name in ("H", "R", "M", "X", "Y", "Z"):
            out += [(name, (q,)) for q in args]
        elif name in ("CX", "CZ"):
            out += [(name, tuple(args[i:i + 2])) for i in range(0, len(args), 2)]
        elif name == "E_PAULI" and not any(args[:3]):
            continue
        elif name == "E_PAULI2" and not any(args[:15]):
            continue
        elif name == "ERROR" and args[0] == 0:
            continue
        else:
            out.append((name, tuple(args)))
    return out


def qubits(g):
    name, a = g
    return {"E_PAULI": a[3:], "E_PAULI2": a[15:], "E_ERASE": a[1:],
            "ERROR": a[2:]}.get(name, a)


def gate_noise(gerr, gate, a, d=None):
    e = gerr.get(gate, {})
    p = None
    if d is not None:
        p = e.get((a, d))
    if p is None:
        p = e.get(a)
    if p is None:
        return []
    if d is None:
        v = tuple(float(p.get(k, 0.0)) for k in "xyz")
        return [("E_PAULI", v + (a,))] if any(v) else []
    v = tuple(float(p.get(k, 0.0)) for k in PAIRS)
    return [("E_PAULI2", v + (a, d))] if any(v) else []


def check_op_block(block, ops, qerr, gerr, noisy, meas_noise):
    """A block of instructions measures each of the operators once with its ancilla.

    Order on every qubit and order of the measurements count, not how instructions on
    different qubits are interleaved.
    """
    noise = (lambda *a: gate_noise(gerr, *a)) if noisy else (lambda *a: [])
    anc = {v.equbit_idx: v for v in ops}
    per = {a: [] for a in anc}
    for k, g in enumerate(block):
        mine = [q for q in qubits(g) if q in anc]
        require(len(mine) == 1, f"unexpected instruction {g}")
        per[mine[0]].append(g)
    meas = [g[1][0] for g in block if g[0] == "M"]
    require(meas == [v.equbit_idx for v in ops], f"measured {meas}")
    for a, v in anc.items():
        seq = per[a]
        head = [("R", (a,)), *noise("R", a), ("H", (a,)), *noise("H", a)]
        tail = [("H", (a,)), *noise("H", a)]
        if meas_noise:
            p = qerr.get("measurement", {}).get(a)
            if p and p.get("p"):
                tail.append(("ERROR", (float(p["p"]), "X", a)))
        tail += [("M", (a,)), *noise("M", a)]
        require(seq[:len(head)] == head, f"qubit {a} starts with {seq[:len(head)]}, "
                f"expected {head}")
        require(len(seq) >= len(head) + len(tail) and seq[len(seq) - len(tail):] == tail,
                f"qubit {a} ends with {seq[-len(tail):]}, expected {tail}")
        mid = seq[len(head):len(seq) - len(tail)]
        links = {e.data.equbit_idx: e.factor.name for e in v.edges}
        while mid:
            name, args = mid[0]
            require(name in ("CX", "CZ") and args[0] == a, f"unexpected {mid[0]}")
            d = args[1]
            require(links.pop(d, None) == name[1], f"{mid[0]} is no link of {a}")
            want = [mid[0], *noise(name, a, d)]
            require(mid[:len(want)] == want, f"{mid[:len(want)]}, expected {want}")
            mid = mid[len(want):]
        require(not links, f"links of {a} without gate: {links}")
    # on the data qubits, noise directly follows its gate
    data = {}
    for g in block:
        for q in qubits(g):
            if q not in anc:
                data.setdefault(q, []).append(g)
    for q, seq in data.items():
        last = None
        for g in seq:
            if g[0] == "E_PAULI2":
                require(last is not None and last[1] == g[1][15:], f"{g} after {last}")
            last = g


def take_ops(rd, ops):
    """Instructions up to the measurement (with its noise) of the last operator."""
    anc = {v.equbit_idx for v in ops}
    out, left = [], len(ops)
    while left or (rd.peek()[0] == "E_PAULI" and rd.peek()[1][3] in anc):
        g = rd.next()
        require(g[0] != "END", "circuit ends early")
        out.append(g)
        if g[0] == "M":
            left -= 1
    return out


def check_logicals(rd, code, ind, ancilla, final):
    lat = code.lattice
    for i in ind:
        op = lat.logical_ops[i]
        if ancilla:
            check_op_block(take_ops(rd, [op]), [op], {}, {}, False, False)
            continue
        links = {e.data.equbit_idx: e.factor.name for e in op.edges}
        seq = {q: "" for q in links}
        while True:
            g = rd.peek()
            if g[0] not in ("H", "M") or g[1][0] not in links:
                break
            q = g[1][0]
            done = seq[q].count("M")
            full = all(s in {"X": ("HM", "HMH"), "Z": ("M",)}[links[p]]
                       for p, s in seq.items())
            if full and not (g[0] == "H" and seq[q] == "HM"):
                break
            require(not (g[0] == "M" and done), f"qubit {q} measured twice")
            seq[q] += g[0]
            rd.next()
        for q, f in links.items():
            ok = {"X": ("HMH", "HM") if final else ("HMH",), "Z": ("M",)}[f]
            require(seq[q] in ok, f"logical {i}, qubit {q}: {seq[q]}, expected {ok[0]}")


def check_data_noise(rd, code, qerr):
    lat = code.lattice
    data = {v.equbit_idx: v for v in lat.dataqubits}
    pauli, erase = {}, []
    while rd.peek()[0] in ("E_PAULI", "E_ERASE") and qubits(rd.peek())[0] in data:
        name, a = rd.next()
        if name == "E_PAULI":
            require(a[3] not in pauli, f"two channels on qubit {a[3]}")
            pauli[a[3]] = a[:3]
        else:
            erase.append(a[::-1])
    want = {}
    for q, p in qerr.get("pauli", {}).items():
        v = tuple(float(p.get(k, 0.0)) for k in "xyz")
        if any(v):
            want[q] = v
    require(pauli == want, f"Pauli channels {pauli}, expected {want}")
    er = {q: float(p.get("p", 0.0)) for q, p in qerr.get("erasure", {}).items() if p}
    wante = [(q, er.get(q, 0.0)) for q in data] if er else []
    require(erase == wante, f"erasures {erase}, expected {wante}")


def c_circuit(code, errors, logical, ancilla):
    code = build_code(code)
    q, g = dicts(errors)
    circ = generate_qec_circuit(code, *dicts(errors), logical, logical_ancilla=ancilla)
    if isinstance(logical, str):
        ind = [2 * i + "XZ".index(c) for i, c in enumerate(logical)]
    else:
        ind = list(logical)
    rd = Reader(spread(circ.gates))
    stabs = code.lattice.stabgens
    check_logicals(rd, code, ind, ancilla, False)
    check_op_block(take_ops(rd, stabs), stabs, q, g, False, False)
    for t in range(code.n_rounds):
        last = t == code.n_rounds - 1
        check_data_noise(rd, code, q)
        check_op_block(take_ops(rd, stabs), stabs, q, g, not last, not last)
    check_logicals(rd, code, ind, ancilla, True)
    require(rd.peek()[0] == "END", f"additional instruction {rd.peek()}")
    n = 1 + max((a for n, args in circ.gates for a in args if isinstance(a, int)),
                default=0)
    require(n <= code.n_ext_qubits, "qubit outside of the code")


def c_reject(code, errors, logical, ancilla=False):
    code = build_code(code)
    rejects(lambda: generate_qec_circuit(code, *dicts(errors), logical, ancilla),
            f"{errors} {logical}")


CASES = {"circuit": c_circuit, "reject": c_reject}

SPECS = [["repetition", 3, 1], ["repetition", 5, 2], ["planar", 2, 1],
         ["planar", 3, 3], ["rotated", 3, 2], ["rotated_xzzx", 3, 2], ["toric", 2, 2],
         ["five", 1, 1], ["five", 1, 3], ["shor", 1, 2], ["rotated", 2, 1],
         ["planar", 4, 1], {"size": 3, "rounds": 2, "faulty": [[2, 2]]},
         {"size": 3, "rounds": 1, "faulty": [[0, 2]]},
         {"size": 4, "rounds": 2, "faulty": [[2, 0], [3, 3]], "join": True}]


def random_spec(r):
    if r.random() < 0.75:
        s = r.choice(SPECS)
        if isinstance(s, list):
            s = [*s[:2], r.choice([1, 2, 3, 4])]
        return s
    # custom code without Y factors: CSS-like random stabiliser subsets
    from bounded.p08 import random_code

    while True:
        n = r.randint(2, 6)
        k = r.randint(1, min(2, n - 1))
        st, lo = random_code(r, n, k)
        if 2 * k <= n and not any(o[0] & o[1] for o in st + lo):
            return {"stabs": [bits(o, n) for o in st], "logs": [bits(o, n) for o in lo],
                    "rounds": r.randint(1, 3)}


def random_errors(r, code):
    lat = code.lattice
    data = [v.equbit_idx for v in lat.dataqubits]
    stab = [v.equbit_idx for v in lat.stabgens]
    p = lambda: r.choice([0.0, 0.1, r.random(), 1 / 3, 1e-9, 1.0])
    out = []
    frac = r.choice([0, 0.3, 1])
    for q in data:
        if r.random() < frac:
            out.append(["pauli", q, {k: p() for k in r.sample("xyz", r.randint(0, 3))}])
    frac = r.choice([0, 0, 0.3, 1])
    for q in data:
        if r.random() < frac:
            out.append(["erasure", q, {"p": p()}])
    frac = r.choice([0, 0.5, 1])
    for q in stab:
        if r.random() < frac:
            out.append(["measurement", q, {"p": p()}])
    for g in ("H", "R", "M"):
        frac = r.choice([0, 0.5, 1])
        for q in stab:
            if r.random() < frac:
                out.append([g, q, {k: p() for k in r.sample("xyz", r.randint(1, 3))}])
    for g in ("CX", "CZ"):
        frac = r.choice([0, 0.5, 1])
        for v in lat.stabgens:
            for e in v.edges:
                if r.random() < frac:
                    out.append([g, [v.equbit_idx, e.data.equbit_idx],
                                {k: p() for k in r.sample(PAIRS, r.randint(1, 15))}])
    r.shuffle(out)
    return out


def random_logical(r, code):
    k = code.n_logical_qubits
    s = "".join(r.choice("XZ") for _ in range(k))
    if r.random() < 0.3:
        return [2 * i + "XZ".index(c) for i, c in enumerate(s)]
    return s


def run(ctx):
    r = ctx.rng
    for spec in SPECS:
        code = build_code(spec)
        for s in ("X" * code.n_logical_qubits, "Z" * code.n_logical_qubits):
            for anc in (False, True):
                ctx.run("circuit", code=spec, errors=[], logical=s, ancilla=anc)
    for _ in range(ctx.n(250, 3000)):
        spec = random_spec(r)
        code = build_code(spec)
        ctx.run("circuit", code=spec, errors=random_errors(r, code),
                logical=random_logical(r, code), ancilla=r.random() < 0.5)
        if ctx.time_left() < 5:
            break
    ctx.run("reject", code=["planar", 2, 1], errors=[["foo", 0, {"p": .1}]], logical="X")
    ctx.run("reject", code=["planar", 2, 1], errors=[], logical="Y")
    ctx.run("reject", code=["planar", 2, 1], errors=[], logical="XZ")
    ctx.run("reject", code=["planar", 2, 1], errors=[], logical=[2])
    ctx.run("reject", code=["toric", 2, 1], errors=[], logical=[0, 1])
    ctx.run("reject", code=["planar", 2, 1], errors=[["pauli", 5, {"x": .1}]],
            logical="X")
    ctx.run("reject", code=["planar", 2, 1], errors=[["measurement", 0, {"p": .1}]],
            logical="X")
    ctx.run("reject", code=["planar", 2, 1], errors=[["CX", [0, 5], {"ix": .1}]],
            logical="X")
    # operators with Y factors are not supported
    y = {"stabs": [bits(pr.from_str("YY"), 2)],
         "logs": [bits(pr.from_str(s), 2) for s in ("XX", "IY")], "rounds": 1}
    ctx.run("reject", code=y, errors=[], logical="X")
