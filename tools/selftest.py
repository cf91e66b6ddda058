"""Does the interpreter agree with CPython and numpy?

Part 1 executes functions of plaquette on concrete inputs, once by CPython and once by
the interpreter of pyvc (same random numbers), and compares what they return and what
they leave behind.  Part 2 runs small programs on symbolic inputs which are assumed to
have concrete values: the verification conditions of "the result is what CPython
returns" must not be refuted.  Exit 1 on any difference.

  python tools/selftest.py [rounds]"""
import collections
import dataclasses
import enum
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import boot  # noqa: E402,F401
import numpy as np  # noqa: E402
import z3  # noqa: E402
from plaquette import pauli  # noqa: E402
from plaquette.circuit import Circuit, generator  # noqa: E402
from plaquette.codes import LatticeCode  # noqa: E402

from pyvc import core as C  # noqa: E402
from pyvc import contract  # noqa: E402
from pyvc.arr import SArr  # noqa: E402
from pyvc.core import PyRaise, SBool, Unsupported, cur, fresh_int  # noqa: E402
from pyvc.interp import Interp  # noqa: E402
from pyvc.seq import SSeq  # noqa: E402

sys.setrecursionlimit(20000)
tally = collections.Counter()
bad = []


# ---------------------------------------------------------------- part 1
def plain(x, seen=None, depth=0):
    """A value as comparable data (objects by their fields, cycles cut)."""
    seen = {} if seen is None else seen
    if isinstance(x, (str, bytes, type(None), enum.Enum)):
        return x
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        return round(float(x), 12)
    if isinstance(x, np.ndarray):
        return ("array", x.shape, [plain(v, seen) for v in x.ravel().tolist()])
    if id(x) in seen:
        return ("again", seen[id(x)])
    seen[id(x)] = len(seen)
    if isinstance(x, (list, tuple)):
        return [plain(v, seen) for v in x]
    if isinstance(x, dict):
        return [(plain(k, seen), plain(v, seen)) for k, v in x.items()]
    if isinstance(x, (set, frozenset)):
        return sorted(map(repr, (plain(v, {}) for v in x)))
    if dataclasses.is_dataclass(x):
        return (type(x).__name__, [(f.name, plain(getattr(x, f.name, "unset"), seen))
                                   for f in dataclasses.fields(x)])
    if hasattr(x, "__dict__"):
        return (type(x).__name__, [(k, plain(v, seen)) for k, v in vars(x).items()])
    return type(x).__name__


def both(what, make):
    """make() -> (function, args, kwargs, state); run by both."""
    out = []
    for how in ("CPython", "interpreter"):
        random.seed(5)
        np.random.seed(5)
        f, a, k, state = make()
        try:
            if how == "CPython":
                r = f(*a, **k)
            else:
                s = C.Session("selftest", {})
                C.CUR = s
                r = Interp().interpret(getattr(f, "__func__", f), *(
                    ([f.__self__] if hasattr(f, "__self__") else []) + list(a)), **k)
            r = ("value", plain(r), plain(state(r)))
        except PyRaise as e:
            r = ("raise", type(e.exc).__name__)
        except Unsupported as e:
            tally["beyond the interpreter"] += 1
            return print(f"  beyond the interpreter: {what}: {e}")
        except Exception as e:        # noqa: BLE001
            if how == "interpreter":
                raise
            r = ("raise", type(e).__name__)
        out.append(r)
    tally["concrete runs"] += 1
    if out[0] != out[1]:
        bad.append(what)
        print(f"DIFFERENT: {what}\n  {out[0]!r:.300}\n  {out[1]!r:.300}")


def concrete(r):
    codes = [("make_planar", 2), ("make_rotated_planar", 3), ("make_repetition", 4),
             ("make_toric", 2), ("make_five_qubit", None), ("make_shor", None)]
    for name, size in codes:
        kw = {"n_rounds": r.randint(1, 3)}
        if size:
            kw["size"] = size
        both(f"{name} {kw}", lambda: (getattr(LatticeCode, name), (), kw,
                                      lambda c: vars(c.lattice)))
    for _ in range(6):
        name, size = r.choice(codes)
        kw = {"n_rounds": r.randint(1, 3), **({"size": size} if size else {})}
        anc = r.random() < .5
        log = r.choice(["X", "Z"])

        def gen():
            code = getattr(LatticeCode, name)(**kw)
            q = {"pauli": {v.equbit_idx: {"x": .1, "z": .2} for v in
                           code.lattice.dataqubits[::2]},
                 "measurement": {v.equbit_idx: {"p": .05} for v in
                                 code.lattice.stabgens}}
            return generator.generate_qec_circuit, (code, q, {"H": {
                code.lattice.stabgens[0].equbit_idx: {"x": .01}}}, log), {
                    "logical_ancilla": anc}, lambda c: c.gates
        both(f"generate_qec_circuit {name} {kw} {log} {anc}", gen)
    for _ in range(40):
        n, m = r.randint(1, 4), r.randint(1, 3)
        rng = np.random.default_rng(r.randrange(10 ** 9))
        a = rng.integers(0, 2, (m, 2 * n + 1), dtype="u1")
        b = rng.integers(0, 2, 2 * n + 1, dtype="u1")
        both("commutator_sign", lambda: (pauli.commutator_sign, (a, b), {}, lambda r: 0))
        both("multiply", lambda: (pauli.multiply, (a[0], b), {}, lambda r: 0))
        q = rng.permutation(n)
        for f in ("x", "y", "z", "hadamard", "cx", "cz"):
            fn = getattr(pauli, f, None)
            if fn is None or f in ("cx", "cz") and n < 2:
                continue
            t = np.vstack([np.eye(2 * n, 2 * n + 1, dtype="u1")])
            both(f"pauli.{f}", lambda: (fn, (t.copy(), *(
                [[int(q[0]), int(q[1])]] if f in ("cx", "cz") else [[int(q[0])]])), {},
                lambda r: 0))
    texts = ["H 0\nM 0 1", "E_PAULI 0.1 0.2 0.3 1 2\nR 0\n", "CX 0 1 2 3\n# c\n\nM 3",
             "ERROR 0.5 X 1\nELSE_ERROR 0.5 X 2", "foo 1", "CX 0", "H", "M -1"]
    for t in texts:
        both(f"Circuit.from_str {t!r}", lambda: (
            Circuit.from_str, (t,), {}, lambda c: getattr(c, "gates", None)))


# ---------------------------------------------------------------- part 2
# programs over a list xs, an array a (the same numbers), integers i, n = len(xs)
def s_sum(xs, a, i, n): return sum(xs) + int(np.sum(a))             # noqa: E704
def s_len(xs, a, i, n): return len(xs) * 2 + a.shape[0]             # noqa: E704
def s_any(xs, a, i, n): return any(x > i for x in xs)               # noqa: E704
def s_all(xs, a, i, n): return all(x > i for x in xs)               # noqa: E704
def s_in(xs, a, i, n): return i in xs                               # noqa: E704
def s_notin(xs, a, i, n): return i not in [x + 1 for x in xs]       # noqa: E704
def s_floor(xs, a, i, n): return (i // 3, i % 3, -i // 2, -i % 5)   # noqa: E704
def s_cmp(xs, a, i, n): return 0 <= i < n                           # noqa: E704
def s_abs(xs, a, i, n): return abs(i) + max(i, n) - min(i, 2)       # noqa: E704
def s_comp(xs, a, i, n): return [x * 2 for x in xs if x > 1]        # noqa: E704
def s_count(xs, a, i, n): return len([x for x in xs if x != i])     # noqa: E704
def s_zip(xs, a, i, n): return [x + y for x, y in zip(xs, range(n))]   # noqa: E704
def s_enum(xs, a, i, n): return [k * x for k, x in enumerate(xs)]   # noqa: E704
def s_rev(xs, a, i, n): return list(reversed(xs))                   # noqa: E704
def s_range(xs, a, i, n): return [k for k in range(1, n, 2)]        # noqa: E704
def s_where(xs, a, i, n): return np.where(a > i)[0].size            # noqa: E704
def s_anyn(xs, a, i, n): return bool(np.any(a == i))                # noqa: E704
def s_alln(xs, a, i, n): return bool((a >= i).all())                # noqa: E704
def s_add(xs, a, i, n): return a + i                                # noqa: E704
def s_mul(xs, a, i, n): return a * a - 1                            # noqa: E704
def s_mod(xs, a, i, n): return (a + 1) % 2                          # noqa: E704
def s_xor(xs, a, i, n): return a ^ 1                                # noqa: E704
def s_and(xs, a, i, n): return a & 1                                # noqa: E704
def s_flip(xs, a, i, n): return a[::-1]                             # noqa: E704
def s_zeros(xs, a, i, n): return np.zeros(n, dtype=int) + a         # noqa: E704
def s_cat(xs, a, i, n): return np.concatenate([a, a + 1])           # noqa: E704
def s_arange(xs, a, i, n): return np.arange(n) + a                  # noqa: E704
def s_logic(xs, a, i, n): return np.logical_and(a > 0, a < 3)       # noqa: E704
def s_cnz(xs, a, i, n): return np.count_nonzero(a)                  # noqa: E704


def s_loop(xs, a, i, n):
    t = i
    for x in xs:
        t += 2 * x
    return t


def s_loopif(xs, a, i, n):
    t = 0
    for x in xs:
        if x > i:
            t += 1
        else:
            t -= x
    return t


def s_append(xs, a, i, n):
    out = [i]
    for k, x in enumerate(xs):
        if x == i:
            continue
        out.append((k, x))
    return out


def s_write(xs, a, i, n):
    b = a.copy()
    for k in range(n):
        b[k] = b[k] * 3 + k
    return b


def s_slice(xs, a, i, n):
    b = a.copy()
    b[1:] = 7
    return b


def s_dict(xs, a, i, n):
    d = {k: x for k, x in enumerate(xs)}
    return d.get(1, -5) if n > 1 else len(d)


def s_index(xs, a, i, n):
    return xs[-1] + a[n - 1] if n else 0


def s_bounds(xs, a, i, n):
    return xs[i]


def s_raise(xs, a, i, n):
    for x in xs:
        if x == 3:
            raise ValueError("three")
    return n


def s_match(xs, a, i, n):
    match i:
        case 0 | 1:
            return "small"
        case 2:
            return "two"
        case _:
            return "large" if i > 2 else "negative"


def s_first(xs, a, i, n):
    return next((x for x in xs if x > i), -1)


def s_nested(xs, a, i, n):
    return [[x + y for y in range(2)] for x in xs]


def s_tern(xs, a, i, n):
    return [x if x > i else -x for x in xs]


def s_while(xs, a, i, n):
    k = 0
    while k < 3 and k < i:
        k += 1
    return k


def s_set(xs, a, i, n):
    return set(xs).issubset({0, 1, 2}) and not set(xs).isdisjoint({2, 5})


def s_alias1(xs, a, i, n):
    rows = [[]] * n
    if rows:
        rows[0].append(5)
    return sum(len(r) for r in rows)


def s_alias2(xs, a, i, n):
    r = []
    rows = [r for x in xs]
    for q in rows:
        q.append(1)
    return len(r)


def s_alias3(xs, a, i, n):
    r = [0]
    rows = {k: r for k in range(n)}
    if n > 1:
        rows[1].append(4)
    return sum(len(v) for v in rows.values())


def s_alias4(xs, a, i, n):
    r, rows = [], []
    for x in xs:
        r.append(x)
        rows.append(r)
    return [len(q) for q in rows]


def s_alias5(xs, a, i, n):
    r = {}
    rows = [r for x in xs]
    for x, q in zip(xs, rows):
        q[x] = 1
    return [1 in q for q in rows]


def s_alias6(xs, a, i, n):
    b = a.copy()
    views = [b for x in xs]
    for k in range(n):
        views[k][k] = 9
    return b


def s_view(xs, a, i, n):
    b = a.copy()
    v = b[1:]
    for k in range(len(v)):
        v[k] = k
    return b


def s_defaults(xs, a, i, n):
    rows = {k: {"p": 0} for k in range(n)}
    for k, v in rows.items():
        v["p"] = xs[k]
    return [v["p"] for v in rows.values()]


def s_shared(xs, a, i, n):
    e = {"p": 0}
    rows = {k: e for k in range(n)}
    for k, v in rows.items():
        v["p"] = xs[k]
    return [v["p"] for v in rows.values()]


class Box:
    def __init__(self, v):
        self.v = v


def s_boxes1(xs, a, i, n):
    rows = [Box(0) for x in xs]
    if n > 1:
        rows[0].v = 5
        return rows[1].v
    return n


def s_boxes2(xs, a, i, n):
    rows = [Box(x) for x in xs]
    for r in rows:
        r.v += 1
    return [r.v for r in rows]


def s_boxes3(xs, a, i, n):
    b = Box(i)
    rows = [b for x in xs]
    for r in rows:
        r.v += 1
    return b.v


def s_boxes4(xs, a, i, n):
    rows = {k: Box([]) for k in range(n)}
    for k in range(n):
        rows[k].v.append(k)
    return [len(r.v) for r in rows.values()]


def s_boxes5(xs, a, i, n):
    rows = []
    for x in xs:
        rows.append(Box(x))
    last = rows[-1] if n else Box(3)
    last.v = 9
    return [r.v for r in rows]


def s_objarr(xs, a, i, n):
    b = np.zeros((n, 2), dtype=int)
    for k in range(n):
        row = b[k]
        row[0] = xs[k]
    return [int(b[k, 0]) + int(b[k, 1]) for k in range(n)]


def s_swap(xs, a, i, n):
    b = a.copy()
    if n > 1:
        b[0], b[1] = b[1], b[0]
    return b


def s_swaprows(xs, a, i, n):
    b = np.zeros((2, n), dtype=int)
    b[0] = a
    b[0], b[1] = b[1], b[0]
    return list(b[0])


def s_addto(xs, a, i, n):
    b = a.copy()
    c = b
    c += 1
    return b


def s_newadd(xs, a, i, n):
    b = a
    b = b + 1
    return a


def s_tuplekey(xs, a, i, n):
    d = {}
    for k in range(3):
        d[k, i] = k
    return d.get((1, i), 7)


def s_closure(xs, a, i, n):
    fs = [lambda: k for k in range(3)]
    return [f() for f in fs]


def s_tryfin(xs, a, i, n):
    out = []
    try:
        out.append(xs[i])
    except IndexError:
        out.append(-1)
    finally:
        out.append(n)
    return out


def s_else(xs, a, i, n):
    for k in range(3):
        if k == i:
            break
    else:
        return "none"
    return k


def s_late(xs, a, i, n):
    g = (x + i for x in [1, 2])
    i = 100
    return list(g)


def s_star(xs, a, i, n):
    def f(*p, **q):
        return (p, q.get("z", 4))
    return f(*[1, i], **{"z": n})


def s_chain(xs, a, i, n):
    return (i < n < 5, i or 9, i and 8, not i)


def s_u1wrap(xs, a, i, n):
    b = a.astype("u1")
    return b - np.uint8(3)


def s_u1mul(xs, a, i, n):
    b = a.astype("u1")
    return (b * 100).astype(int)


def s_u1sum(xs, a, i, n):
    b = (a * 80).astype("u1")
    return int(b.sum())


def s_bool(xs, a, i, n):
    b = a > 1
    return (b + b).astype(int)


def s_boolnot(xs, a, i, n):
    b = a > 1
    return np.where(~b)[0].size


def s_boolxor(xs, a, i, n):
    return ((a > 1) ^ (a < 3)).astype(int)


def s_mask(xs, a, i, n):
    b = a.copy()
    b[b > 1] = 0
    return b


def s_maskget(xs, a, i, n):
    return a[a > 1].size


def s_fancy(xs, a, i, n):
    b = a.copy()
    if n > 1:
        b[[0, 1]] = b[[1, 0]]
    return b


def s_fancydup(xs, a, i, n):
    b = a.copy()
    if n > 1:
        b[[0, 0]] += 1
    return b


def s_neg(xs, a, i, n):
    return [xs[-1], int(a[-n])] if n else []


def s_step(xs, a, i, n):
    return a[::2]


def s_slices(xs, a, i, n):
    return [len(xs[1:]), len(xs[:-1]), len(xs[i:]), len(xs[:i]), len(xs[-2:])]


def s_insert(xs, a, i, n):
    return np.insert(a, 0, i)


def s_delete(xs, a, i, n):
    return np.delete(a, 0) if n else a


def s_sorted(xs, a, i, n):
    return sorted([i, 2, n], reverse=True)


def s_argsort(xs, a, i, n):
    return [int(k) for k in np.argsort([i, 1, n])] if len({i, 1, n}) == 3 else []


def s_2d(xs, a, i, n):
    b = np.vstack([a, a + 1])
    return [int(x) for x in b.sum(axis=0)]


def s_2drow(xs, a, i, n):
    b = np.vstack([a, a + 1])
    b[1] ^= b[0]
    return b[1]


def s_T(xs, a, i, n):
    b = np.vstack([a, a * 2]).T
    return [int(b[k, 1]) for k in range(n)]


def s_matmul(xs, a, i, n):
    b = np.array([[1, 1], [0, 1]])
    return b @ np.array([i, n]) % 2


def s_bcast(xs, a, i, n):
    b = np.zeros((2, n), dtype=int)
    b[:] = a
    b[:, 0:1] += 1
    return b[1]


def s_floor2(xs, a, i, n):
    return (a - 3) // 2


def s_mod2(xs, a, i, n):
    return (a - 3) % 2


def s_divmod(xs, a, i, n):
    return divmod(i, 2)


def s_round(xs, a, i, n):
    return int(i / 2) + i // 2


def s_boolint(xs, a, i, n):
    return (i > 0) + (n > 1) * 2


def s_strs(xs, a, i, n):
    return f"{i}:{n}" == str(i) + ":" + str(n)


def s_islice(xs, a, i, n):
    import itertools
    return list(itertools.chain(xs[:1], [i]))


def s_zipshort(xs, a, i, n):
    return [x * y for x, y in zip(xs, [1, 2])]


def s_zipstrict(xs, a, i, n):
    return [x * y for x, y in zip(xs, [1, 2], strict=True)]


def s_unpack(xs, a, i, n):
    p, *q = [i, *xs]
    return len(q) + p


def s_setlen(xs, a, i, n):
    return len(set(xs))


def s_setdiff(xs, a, i, n):
    return len(set(xs) - {1, 2})


def s_dictover(xs, a, i, n):
    d = {x: k for k, x in enumerate(xs)}
    return d.get(2, -1)


def s_dictmerge(xs, a, i, n):
    d = {"a": i} | {"a": n, "b": 1}
    return [d["a"], len(d)]


def s_try(xs, a, i, n):
    try:
        return xs.index(2)
    except ValueError:
        return -1


def s_minmax(xs, a, i, n):
    return [min(xs), max(xs)] if xs else []


def s_npmax(xs, a, i, n):
    return int(a.max()) if n else -1


def s_empty_max(xs, a, i, n):
    return max(xs)


def s_reduce(xs, a, i, n):
    import functools
    return functools.reduce(lambda p, q: p ^ q, xs, 0)


def s_xorred(xs, a, i, n):
    return int(np.bitwise_xor.reduce(a))


def s_nested_loop(xs, a, i, n):
    t = 0
    for x in xs:
        for y in range(2):
            t += x * y
    return t


def s_tri(xs, a, i, n):
    return [(p, q) for p in range(n) for q in range(p)]


def s_while_pop(xs, a, i, n):
    st = [i, n]
    t = 0
    while st:
        t = t * 10 + st.pop()
    return t


def s_contcount(xs, a, i, n):
    t = 0
    for x in xs:
        if x == 0:
            continue
        if x == 1:
            t += 5
            continue
        t += 1
    return t


def s_prev(xs, a, i, n):
    p = i
    out = []
    for x in xs:
        out.append(x + p)
        p = x
    return out


def s_prefix(xs, a, i, n):
    t = 0
    out = []
    for x in xs:
        t += x
        out.append(t)
    return out


def s_scatter(xs, a, i, n):
    b = np.zeros(5, dtype=int)
    for x in xs:
        b[x] += 1
    return b


def s_scatterset(xs, a, i, n):
    b = np.zeros(5, dtype=int)
    for k, x in enumerate(xs):
        b[x] = k
    return b


def s_shift(xs, a, i, n):
    b = a.copy()
    for k in range(n - 1):
        b[k + 1] = b[k]
    return b


def s_shiftback(xs, a, i, n):
    b = a.copy()
    for k in range(n - 1):
        b[k] = b[k + 1]
    return b


def s_overlap(xs, a, i, n):
    b = a.copy()
    b[1:] = b[:-1]
    return b


def s_full(xs, a, i, n):
    return np.full(n, i) + np.eye(n, dtype=int)[0] if n else a


def s_repeat(xs, a, i, n):
    return np.repeat(a, 2)


def s_appendnp(xs, a, i, n):
    return np.append(a, [i])


def s_reshape(xs, a, i, n):
    b = np.concatenate([a, a]).reshape(2, n)
    return b[1]


def s_squeeze(xs, a, i, n):
    return np.atleast_1d(np.array(i))


def s_anyaxis(xs, a, i, n):
    b = np.vstack([a > 1, a > 2])
    return b.any(axis=0).astype(int)


def s_nonzero(xs, a, i, n):
    return [int(k) for k in np.nonzero(a)[0]]


def s_where3(xs, a, i, n):
    return np.where(a > 1, a, -a)


def s_cumulative(xs, a, i, n):
    return [sum(xs[:k]) for k in range(n)]


def s_intdiv0(xs, a, i, n):
    return 5 // i


def s_unhash(xs, a, i, n):
    return {i: 1}[i] + 1


def s_isin(xs, a, i, n):
    return (i in (1, 2)) + (i not in {3: 0})


def s_bits(xs, a, i, n):
    return [i & 1, n << 1, n >> 1, i | 1, i ^ 1] if i >= 0 else []


def s_pow(xs, a, i, n):
    return [n ** 2, 2 ** n, (-1) ** n]


def s_multi(xs, a, i, n):
    p = q = [i]
    q.append(n)
    return p


def s_default(xs, a, i, n):
    def f(v, acc=[]):
        acc.append(v)
        return len(acc)
    return [f(i), f(n)]


def s_walrus(xs, a, i, n):
    return [(y := n + 1), y * 2]


def s_cond(xs, a, i, n):
    if i < 0:
        r = "neg"
    elif i == 0:
        r = "zero"
    else:
        r = "pos"
    return r


def s_seen(xs, a, i, n):
    out = []
    for x in xs:
        if x not in out:
            out.append(x)
    return out


def s_seen2(xs, a, i, n):
    out, more = [], []
    for x in xs:
        if True not in out:
            more.append(x)
        out.append(x > 1)
    return more


def s_seen3(xs, a, i, n):
    out, more = [], []
    for x in xs:
        if not any(out):
            more.append(x)
        out.append(x > 1)
    return more


def s_seen4(xs, a, i, n):
    out, more = [], []
    for x in xs:
        if out:
            more.append(x)
        if x > 1:
            out.extend([x])
    return more


def s_seen5(xs, a, i, n):
    b = np.zeros(6, dtype=int)
    t = 0
    for x in xs:
        if b.any():
            t += 1
        b[x] = 1
    return t


def s_seen6(xs, a, i, n):
    b = np.zeros(6, dtype=int)
    t = 0
    for x in xs:
        if not b[x]:
            t += 1
        b[x] = 1
    return t


def s_seen7(xs, a, i, n):
    d = {}
    t = 0
    for x in xs:
        if x in d:
            t += 1
        d[x] = 1
    return t


def s_seen8(xs, a, i, n):
    d = set()
    t = 0
    for x in xs:
        if 2 in d:
            t += 1
        d.add(x)
    return t


def s_seen9(xs, a, i, n):
    box = Box(0)
    t = []
    for x in xs:
        if box.v:
            t.append(x)
        box.v = x > 1
    return t


def s_seen10(xs, a, i, n):
    out, more = [], []
    for x in xs:
        more.append(list(out))
        out.append(x)
    return [len(m) for m in more]


def s_seen11(xs, a, i, n):
    out, more = [], []
    for x in xs:
        more.append(out + [1])
        out.append(x)
    return [len(m) for m in more]


def s_seen12(xs, a, i, n):
    out, more = [], []
    for x in xs:
        more.append(sum(out))
        out.append(x)
    return more


def s_seen13(xs, a, i, n):
    out, more = [0], []
    for x in xs:
        more.append(out == [0])
        out.append(x)
    return more


def s_seen14(xs, a, i, n):
    out, more = [0], []
    for x in xs:
        more.append([y for y in out])
        out.append(x)
    return [len(m) for m in more]


def s_seen15(xs, a, i, n):
    out, more = [0], []
    for x in xs:
        p, *q = out
        more.append(len(q))
        out.append(x)
    return more


def s_seen16(xs, a, i, n):
    out, more = [0], []
    for x in xs:
        more.append(np.array(out).size)
        out.append(x)
    return more


def s_seen17(xs, a, i, n):
    out, more = [0], []
    for x in xs:
        more.append((lambda *p: len(p))(*out))
        out.append(x)
    return more


def s_nest1(xs, a, i, n):
    out = []
    for x in xs:
        out.append(x)
        for y in range(n):
            out.append(x + y)
    return out


def s_nest2(xs, a, i, n):
    out, more = [], []
    for x in xs:
        for y in range(n):
            out.append(x + y)
            more.append(y)
        more.append(-1)
    return out + more


def s_nest3(xs, a, i, n):
    b = np.zeros((9, 9), dtype=int)
    for x in range(n):
        for y in range(n):
            b[x, y] = x + 2 * y
    return [int(v) for v in b.sum(axis=0)]


def s_nest4(xs, a, i, n):
    b = np.zeros(9, dtype=int)
    out = []
    for x in range(n):
        for y in range(n):
            b[y] = x + y
            out.append(y)
        out.append(x)
    return out, [int(v) for v in b]


def s_nest5(xs, a, i, n):
    box = Box(0)
    for x in xs:
        for y in range(n):
            box.v += x * y
        box.v += 1
    return box.v


def s_nest6(xs, a, i, n):
    box, out = Box(0), []
    for x in xs:
        for y in range(n):
            out.append(box.v)
            box.v += 1
    return out


def s_nest7(xs, a, i, n):
    out = []
    for x in xs:
        row = []
        for y in range(n):
            row.append(x + y)
            if y > x:
                out.append(row[0] if y == 0 else y)
        out.append(len(row))
    return out


def s_nest8(xs, a, i, n):
    out = []
    for x in xs:
        for y in range(n):
            for z in range(n):
                out.append(x + y * z)
            out.append(y)
    return out


def s_nest9(xs, a, i, n):
    out, t = [], 0
    for x in xs:
        for y in range(x):
            t += y
            out.append(t)
    return out, t


def s_nest10(xs, a, i, n):
    out = []
    for x in xs:
        for y in range(n):
            if len(out) > 1:
                continue
            out.append(y)
    return out


def s_nest11(xs, a, i, n):
    out = []
    for x in range(n):
        row = [0]
        for y in range(x):
            row.append(len(row))
        out.append(row)
    return [len(r) for r in out]


def s_nest12(xs, a, i, n):
    b = np.zeros(9, dtype=int)
    for x in range(n):
        for y in range(x):
            b[y] += 1
    return [int(v) for v in b]


def s_nest13(xs, a, i, n):
    d, out = {}, []
    for x in range(n):
        d[x] = x + 1
        for y in range(n):
            out.append(x * y)
    return out, [d[x] for x in range(n)]


def s_nest14(xs, a, i, n):
    out = [[x + y for y in range(n) if y != x] for x in range(n)]
    return [len(r) for r in out], out


def s_view1(xs, a, i, n):
    b = np.asarray(a)
    b[:] = 1
    return a


def s_view2(xs, a, i, n):
    b = np.array(a)
    b[:] = 1
    return a


def s_view3(xs, a, i, n):
    b = a.flatten()
    b[:] = 1
    return a


def s_view4(xs, a, i, n):
    b = a.ravel()
    b[:] = 1
    return a


def s_view5(xs, a, i, n):
    b = a.reshape(1, -1)
    b[0, :] = 1
    return a


def s_view6(xs, a, i, n):
    b = a.reshape(1, -1)
    a[:] = 1
    return b[0]


def s_view7(xs, a, i, n):
    b = a.astype(int, copy=False)
    b[:] = 1
    return a


def s_view8(xs, a, i, n):
    b = np.vstack([a, a + 1])
    c = b.T
    c[:, 0] = 7
    return b[0]


def s_view9(xs, a, i, n):
    b = a
    b += 1
    return a


def s_view10(xs, a, i, n):
    b = a
    b = b + 1
    return a


def s_view11(xs, a, i, n):
    b = a[a > 1]
    b[:] = 0
    return a


def s_view12(xs, a, i, n):
    b = a[1:]
    b[:] = 0
    return a


def s_view13(xs, a, i, n):
    b = np.atleast_1d(a)
    b[:] = 0
    return a


def s_view14(xs, a, i, n):
    b = a[[0]] if n else a
    b[:] = 9
    return a


def s_view15(xs, a, i, n):
    for v in [a, a]:
        v += 1
    return a


def s_view16(xs, a, i, n):
    b = np.vstack([a, a]).reshape(-1)
    b[:] = 2
    return a


def s_view17(xs, a, i, n):
    b = np.squeeze(np.vstack([a]))
    return int(b.sum()), b.shape[0] if b.ndim else 1


def s_view18(xs, a, i, n):
    b = np.vstack([a, a + 1])
    for r in b:
        r[:] = 3
    return b[1]


def s_view19(xs, a, i, n):
    b = np.vstack([a, a + 1])
    p, q = b
    q[:] = p
    return b[1]


def s_view20(xs, a, i, n):
    b = np.array(a, copy=False)
    b[:] = 1
    return a


def s_view21(xs, a, i, n):
    b = np.where(a > 1, a, a)
    b[:] = 1
    c = np.concatenate([a])
    c[:] = 1
    d = np.sort(a)
    d[:] = 1
    return a


def s_view22(xs, a, i, n):
    def f(z):
        z ^= 1
        return z
    b = f(a)
    return [int(x) for x in a], [int(x) for x in b]


def s_view23(xs, a, i, n):
    b = a.copy()
    a[:] = 5
    return b


def s_view24(xs, a, i, n):
    b = a[:]
    a[:] = 5
    return b


def other(v):
    """A value that the program does not return."""
    if isinstance(v, bool):
        return not v
    if isinstance(v, (int, np.integer)):
        return int(v) + 1
    if isinstance(v, str):
        return v + "?"
    if isinstance(v, np.ndarray):
        return v + 1 if v.size else np.array([0])
    if isinstance(v, tuple):
        return (*v[:-1], other(v[-1]))
    return [*v, 0]


def symbolic(name, f, xs, i, wrong=False):
    try:
        want = ("value", f(list(xs), np.array(xs, dtype=int), i, len(xs)))
    except Exception as e:        # noqa: BLE001
        want = ("raise", type(e))
    if wrong:
        want = ("value", other(want[1]) if want[0] == "value" else 0)

    @contract.case(name)
    def go(c):
        n = fresh_int("n", 0)
        at = C.fun_int("x", 1)
        j = fresh_int("i")
        s = cur()
        s.assume(SBool(n.t == len(xs)))
        s.assume(SBool(j.t == i))
        for k, x in enumerate(xs):
            s.assume(SBool(at.z3(z3.IntVal(k)) == x))
        e = c.raises(f, SSeq(n, lambda k: at(k)), SArr.of(lambda k: at(k), (n,), "i8"),
                     j, n)
        if want[0] == "raise" or e is not None:
            c.prove(want[0] == "raise" and isinstance(e, want[1]), "raises")
            return
        compare(c, c.result, want[1])
    r = contract.run_case(go.case)
    st = collections.Counter(o["status"] for o in r["obligations"])
    if wrong:
        if all(o["status"] == "discharged" for o in r["obligations"]):
            bad.append(name)
            print(f"PROVED A WRONG RESULT: {name} xs={xs} i={i}: {want!r:.200}")
        tally["wrong results"] += 1
        return
    sure = [o for o in r["obligations"] if o["status"] == "refuted" and o["exact"]]
    if sure:
        bad.append(name)
        print(f"DIFFERENT: {name} xs={xs} i={i}: {want!r:.200}")
        for o in sure:
            print("   ", o["name"], o["detail"][:300])
    elif st["refuted"] or st["undecided"]:
        tally["undecided programs"] += 1
        undecided[f.__name__] += 1
    else:
        tally["symbolic programs"] += 1


undecided = collections.Counter()


def compare(c, got, want):
    if isinstance(want, np.ndarray):
        w = want.astype(int).tolist()
        got_n = got.shape[0]
        c.prove(SBool(C.boolterm(c.it.compare("==", got_n, len(w)))), "length")
        for k, x in enumerate(w):
            c.prove(SBool(C.eq(got.at(k) if isinstance(got, SArr) else got[k], x)),
                    "elements")
    elif isinstance(want, (list, tuple)):
        c.eqv(got, type(want)(want), f"{c.name}: items")
    else:
        r = c.it.compare("==", got, want)
        c.prove(r if isinstance(r, bool) else SBool(C.boolterm(r)), "value")


def main(rounds):
    r = random.Random(1)
    concrete(r)
    progs = [f for n, f in sorted(globals().items()) if n.startswith("s_")]
    for _ in range(rounds):
        for f in progs:
            xs = [r.randint(0, 4) for _ in range(r.randint(0, 4))]
            i = r.randint(-2, 4)
            symbolic(f.__name__, f, xs, i)
            symbolic(f.__name__, f, xs, i, wrong=True)
    print(dict(tally), "undecided:", dict(undecided))
    print("no differences" if not bad else f"{len(bad)} differences: {sorted(set(bad))}")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main(int(sys.argv[1]) if len(sys.argv) > 1 else 4))
