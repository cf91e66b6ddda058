"""P03: conversions between Pauli notations."""
import io

import numpy as np
from plaquette import pauli

from bounded.util import arr, bits, state
from lib import pauliref as pr
from lib.bounded import rejects, require


def same(row, op, n):
    require(row.ndim == 1 and len(row) == 2 * n + 1, f"length {row.shape}")
    require("".join(str(int(v)) for v in row) == bits(op, n),
            lambda: f"operator {row.tolist()}, expected {bits(op, n)}")


def text(s):
    return "".join(c for c in s)


def c_text(op, sep="", plus=False, qubits=None):
    """Long text form, optionally with separators."""
    n = len(op)
    s = sep.join(op)
    ref = pr.from_str(op if op[0] not in "+-" else op)
    m = len(op.lstrip("+-"))
    row = pauli.string_to_pauli(s, qubits) if qubits is not None \
        else pauli.string_to_pauli(s)
    same(row, ref, max(m, qubits or 0))


def c_sparse(items, sgn, n, sep=" ", give=True):
    """Short text form such as -X0 Z3."""
    s = {0: "", 1: "-", 2: "+"}[sgn] + sep.join(f"{p}{q}" for q, p in items)
    ref = pr.from_str("".join(dict(items).get(q, "I") for q in range(n)))
    if sgn == 1:
        ref = (ref[0], ref[1], (ref[2] + 2) % 4)
    row = pauli.string_to_pauli(s, n) if give else pauli.string_to_pauli(s)
    same(row, ref, n)


def c_dict(items, n, give=True):
    d = {int(q): p for q, p in items}
    keep = dict(d)
    row = pauli.dict_to_pauli(d, n) if give else pauli.dict_to_pauli(d)
    require(d == keep, "input modified")
    ref = pr.from_str("".join(d.get(q, "I") for q in range(n)) or "")\
        if n else (0, 0, 0)
    same(row, ref, n)
    back = pauli.pauli_to_dict(row)
    want = {q: p for q, p in d.items() if p != "I"}
    require({int(k): v for k, v in back.items()} == want, f"back: {back}")


def c_forms(row):
    """binary -> text/sparse/dict -> binary."""
    n = len(row) // 2
    op = pr.from_row(row)
    a = arr(row)
    d = pauli.pauli_to_dict(a)
    want = {q: c for q, c in enumerate(
        "IXZY"[(op[0] >> q & 1) + 2 * (op[1] >> q & 1)] for q in range(n)) if c != "I"}
    require({int(k): v for k, v in d.items()} == want, f"dict {d}")
    same(pauli.dict_to_pauli(d, n), pr.herm(op[0], op[1]), n)
    s = pauli.pauli_to_string(a)
    full = "-+"[1 - pr.sign(op)] + "".join(want.get(q, "I") for q in range(n))
    require(s.replace(" ", "") == full, f"text {s!r}, expected {full!r}")
    same(pauli.string_to_pauli(s), op, n)
    same(pauli.string_to_pauli(s, n + 2), op, n + 2)
    t = pauli.pauli_to_string(a, show_identities=False)
    same(pauli.string_to_pauli(t, n), op, n)
    parts = t.replace("+", "+ ").replace("-", "- ").split()
    require(parts[0] == full[0] and parts[1:] == [f"{p}{q}" for q, p in
                                                  sorted(want.items())],
            f"sparse text {t!r}")
    require((a == arr(row)).all(), "input modified")


def c_pad(row, total):
    n = len(row) // 2
    op = pr.from_row(row)
    a = arr(row)
    same(pauli.pad_operator(a, total), op, max(n, total))


def c_tensor(rows):
    """Operators side by side."""
    x = z = s = 0
    off = 0
    for r in rows:
        o = pr.from_row(r)
        x |= o[0] << off
        z |= o[1] << off
        s ^= pr.sign(o)
        off += len(r) // 2
    res = pauli.tensor_product(*[arr(r) for r in rows])
    same(res, pr.herm(x, z, s), off)


def c_tensor_state(states):
    """States side by side: destabilisers first, then stabilisers, in order."""
    ns = [len(s) // 2 for s in states]
    res = pauli.tensor_product(*[arr(s) for s in states])
    tot = sum(ns)
    require(res.shape == (2 * tot, 2 * tot + 1), f"shape {res.shape}")
    k = 0
    for half in (0, 1):
        off = 0
        for s, n in zip(states, ns):
            for r in s[half * n:(half + 1) * n]:
                o = pr.from_row(r)
                same(res[k], pr.herm(o[0] << off, o[1] << off, pr.sign(o)), tot)
                k += 1
            off += n


def c_count(rows, form):
    """Counting qubits, with and without identities."""
    n = len(rows[0]) // 2
    tab = arr(rows[0]) if form == "single" else (
        [arr(r) for r in rows] if form == "list" else arr(rows))
    c = pauli.count_qubits(tab)
    require(all(int(v) == n for v in c) and len(c) >= 1, f"count {c}")
    w = [bin(o[0] | o[1]).count("1") for o in map(pr.from_row, rows)]
    if form == "single":
        w = w[:1]
    c = pauli.count_qubits(tab, include_identities=False)
    require([int(v) for v in c] == w, f"active {list(c)}, expected {w}")


def c_state(rows):
    """State to lists of texts and back."""
    n = len(rows) // 2
    st = arr(rows)
    for show in (True, False):
        d, s = pauli.state_to_stabiliser_string(st, show)
        require(len(d) == n and len(s) == n, "length")
        for t, r in zip(list(d) + list(s), rows):
            same(pauli.string_to_pauli(t, n), pr.from_row(r), n)
        if show:
            back = pauli.string_to_state(s, d)
            require(back.shape == st.shape and (back == st).all(), "round trip")
    buf = io.StringIO()
    pauli.pprint_state(st, True, True, file=buf)
    lines = buf.getvalue().split()
    require([x for x in lines if x[0] in "+-"] ==
            [t.replace(" ", "") for t in sum(map(list, pauli.state_to_stabiliser_string(
                st, True)), [])], "pprint")


def c_too_small(items, n):
    rejects(lambda: pauli.dict_to_pauli({int(q): p for q, p in items}, n),
            "too small number of qubits")


def c_single(p, s, q, n):
    row = pauli.single_qubit_pauli_operator(("-" if s else "") + p, q, n)
    same(row, pr.single(p, q, s), n)


CASES = {k[2:]: v for k, v in list(globals().items()) if k.startswith("c_")}


def run(ctx):
    r = ctx.rng
    for n in (1, 2):
        for x in range(1 << n):
            for z in range(1 << n):
                for s in (0, 1):
                    ctx.run("forms", row=bits(pr.herm(x, z, s), n))
    for n in range(1, 4):
        for q in range(n):
            for p in "XYZ":
                for s in (0, 1):
                    ctx.run("single", p=p, s=s, q=q, n=n)
    for n in (1, 3, 12):
        ctx.run("dict", items=[], n=n)
        ctx.run("text", op="I" * n)
        ctx.run("text", op="-" + "I" * n)
    for _ in range(ctx.n(400, 4000)):
        n = r.choice([1, 2, 3, 5, 11, 12, 25, 101, 130])
        op = pr.random_op(r, n)
        if r.random() < 0.5:   # sparse
            m = r.getrandbits(n) & r.getrandbits(n) & r.getrandbits(n)
            op = pr.herm(op[0] & m, op[1] & m, r.randrange(2))
        ctx.run("forms", row=bits(op, n))
        ctx.run("pad", row=bits(op, n), total=r.choice([0, n - 1, n, n + 1, n + 7]))
        chars = "".join(r.choice("IXYZ") for _ in range(n))
        ctx.run("text", op=r.choice(["", "+", "-"]) + chars,
                sep=r.choice(["", " ", "_"]),
                qubits=r.choice([None, None, n, n + 3, max(1, n - 1)]))
        k = r.randint(1, min(n, 9))
        qs = r.sample(range(n), k)
        items = [[q, r.choice("XYZI" if r.random() < .2 else "XYZ")] for q in qs]
        give = r.random() < 0.7
        m = n if give else max(qs) + 1
        ctx.run("sparse", items=items, sgn=r.randrange(3), n=m, sep=r.choice([" ", ""]),
                give=give)
        ctx.run("dict", items=items, n=m, give=give)
        ctx.run("too_small", items=[[n, "X"]] + items, n=r.randint(1, n))
    for _ in range(ctx.n(120, 1500)):
        k = r.randint(1, 5)
        ctx.run("tensor", rows=[bits(pr.random_op(r, m), m) for m in
                                [r.choice([1, 1, 2, 3, 7]) for _ in range(k)]])
        k = r.randint(1, 4)
        sts = []
        for _ in range(k):
            n = r.choice([1, 1, 2, 3])
            sts.append([bits(o, n) for o in pr.random_state(r, n)])
        ctx.run("tensor_state", states=sts)
        n = r.choice([1, 2, 4, 9])
        rows = [bits(o, n) for o in pr.random_state(r, n)]
        ctx.run("state", rows=rows)
        n = r.choice([1, 2, 5, 130, 300])
        rows = [bits(pr.random_op(r, n), n) for _ in range(r.randint(1, 4))]
        ctx.run("count", rows=rows, form=r.choice(["single", "list", "array"]))
