"""P07: the built-in code families are valid codes."""
from plaquette.codes import LatticeCode, latticeinstances

from lib import pauliref as pr
from lib.bounded import rejects, require

K = {"repetition": 1, "planar": 1, "rotated": 1, "rotated_xzzx": 1, "toric": 2,
     "five": 1, "shor": 1}
N = {"repetition": lambda d: d, "planar": lambda d: d * d + (d - 1) ** 2,
     "rotated": lambda d: d * d, "rotated_xzzx": lambda d: d * d,
     "toric": lambda d: 2 * d * d, "five": lambda d: 5, "shor": lambda d: 9}


def make(family, size, rounds=1):
    return {
        "repetition": lambda: LatticeCode.make_repetition(rounds, size),
        "planar": lambda: LatticeCode.make_planar(rounds, size),
        "rotated": lambda: LatticeCode.make_rotated_planar(rounds, size),
        "rotated_xzzx": lambda: LatticeCode.make_rotated_planar(rounds, size, True),
        "toric": lambda: LatticeCode.make_toric(rounds, size),
        "five": lambda: LatticeCode.make_five_qubit(rounds),
        "shor": lambda: LatticeCode.make_shor(rounds),
    }[family]()


def check_ops(stabs, logs, n, k):
    """The statement, on reference operators."""
    require(len(logs) == 2 * k, f"{len(logs)} logical operators for {k} qubits")
    for i, a in enumerate(stabs):
        require(a[0] | a[1], f"stabiliser {i} is the identity")
        for j in range(i):
            require(not pr.comm(a, stabs[j]), f"stabilisers {j} and {i} anticommute")
        for j, lo in enumerate(logs):
            require(not pr.comm(a, lo), f"stabiliser {i} and logical {j} anticommute")
    for i, a in enumerate(logs):
        for j in range(i):
            want = int(i % 2 == 1 and j == i - 1)
            require(pr.comm(a, logs[j]) == want,
                    f"logicals {j} and {i}: flag {1 - want}")
    r = pr.rank(stabs, n)
    require(n - r == k, f"{n} qubits, {r} independent generators, {k} logical qubits")


def check_schedule(lat):
    links = [(op, e) for op in lat.stabgens for e in op.edges]
    steps = lat.n_time_steps
    require(steps is not None and len(links) > 0, "no schedule")
    used = {}
    for op, e in links:
        t = e.measurement_time_step
        require(isinstance(t, int) and 0 <= t < steps, f"link without slot: {t}")
        for q in (("s", op.equbit_idx), ("d", e.data.equbit_idx)):
            require((t, q) not in used, f"slot {t}: {q} used twice")
            used[t, q] = e
    ids = [id(e) for _, e in links]
    require(len(set(ids)) == len(ids), "link listed twice")
    require({id(e) for e in lat.edges if e.op in lat.stabgens} == set(ids),
            "edge lists disagree")


def check_interleaving(lat):
    """Parallel syndrome extraction measures commuting stabilisers simultaneously.

    For every two stabilisers with different Paulis on shared qubits, the number of
    shared anticommuting qubits visited first by one of them is even; otherwise the
    parallel circuit measures a product with the other ancilla.
    """
    for i, a in enumerate(lat.stabgens):
        ea = {e.data.dataqubit_idx: e for e in a.edges}
        for b in lat.stabgens[:i]:
            cnt = 0
            for e in b.edges:
                f = ea.get(e.data.dataqubit_idx)
                if f is not None and f.factor != e.factor:
                    cnt += f.measurement_time_step < e.measurement_time_step
            require(cnt % 2 == 0, f"stabilisers {b.stabgen_idx}, {a.stabgen_idx} "
                    "are interleaved inconsistently")


def c_family(family, size):
    code = make(family, size)
    lat = code.lattice
    n = code.n_data_qubits
    require(n == N[family](size) == len(lat.dataqubits), f"{n} data qubits")
    require(code.n_logical_qubits == K[family], "number of logical qubits")
    require(len(code.stabilisers) == len(lat.stabgens) == code.n_stabgens, "stabs")
    stabs = [pr.from_row(s) for s in code.stabilisers]
    logs = [pr.from_row(s) for s in code.logical_ops]
    check_ops(stabs, logs, n, K[family])
    require(all(not pr.sign(o) for o in stabs + logs), "negative sign")
    vs = [*lat.dataqubits, *lat.stabgens, *lat.logical_ops]
    require([id(v) for v in lat.equbits] == [id(v) for v in vs], "equbits")
    for lst, name in ((lat.dataqubits, "dataqubit_idx"), (lat.stabgens, "stabgen_idx"),
                      (lat.logical_ops, "logical_idx"), (vs, "equbit_idx")):
        require([getattr(v, name) for v in lst] == list(range(len(lst))), name)
    try:
        code.check()
    except AssertionError as e:
        require(False, f"check() fails: {e}")
    if family in ("planar", "toric", "rotated", "rotated_xzzx"):
        check_schedule(lat)
        check_interleaving(lat)


def c_check_rejects(family, size, stab, qubit, pauli):
    """check() notices a code which is made invalid."""
    code = make(family, size)
    n = code.n_data_qubits
    s = code.stabilisers[stab % code.n_stabgens]
    for c in ((qubit % n,) if pauli == "X" else (qubit % n + n,)):
        s[c] ^= 1
    stabs = [pr.from_row(r) for r in code.stabilisers]
    logs = [pr.from_row(r) for r in code.logical_ops]
    a = stabs[stab % code.n_stabgens]
    if any(pr.comm(a, b) for b in stabs + logs):
        rejects(code.check, "an invalid code")


def c_odd(size):
    rejects(lambda: latticeinstances.RepetitionCodeLattice(size), "even repetition")


CASES = {"family": c_family, "check_rejects": c_check_rejects, "odd": c_odd}


def run(ctx):
    ctx.run("family", family="five", size=1)
    ctx.run("family", family="shor", size=1)
    for d in range(3, ctx.n(26, 60), 2):
        ctx.run("family", family="repetition", size=d)
    for d in range(2, ctx.n(10, 24), 2):
        ctx.run("odd", size=d)
    for d in range(2, ctx.n(8, 13)):
        ctx.run("family", family="planar", size=d)
        ctx.run("family", family="rotated", size=d)
        ctx.run("family", family="rotated_xzzx", size=d)
    for d in range(2, ctx.n(7, 11)):
        ctx.run("family", family="toric", size=d)
    for _ in range(ctx.n(150, 2000)):
        f = ctx.rng.choice(["planar", "rotated", "rotated_xzzx", "toric", "five",
                            "shor"])
        ctx.run("check_rejects", family=f, size=ctx.rng.randint(2, 4),
                stab=ctx.rng.randrange(40), qubit=ctx.rng.randrange(40),
                pauli=ctx.rng.choice("XZ"))
