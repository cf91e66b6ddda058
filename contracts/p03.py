"""P03: conversions between Pauli notations preserve the operator."""
import numpy as np
from plaquette import pauli as P
import z3

from contracts.common import (C, SArr, SBool, SInt, Unsupported, cur, eq, fresh_array,
                              fresh_int, ite, operator, tableau)
from pyvc.contract import case
from pyvc.core import SSum
from pyvc.seq import Each, FStr, IfE, Joined, SDict, sym_dict
from pyvc.text import SChar, SText, any_text

FUNCTIONS = ["pauli." + f for f in (
    "string_to_pauli", "pauli_to_string", "dict_to_pauli", "pauli_to_dict",
    "pad_operator", "tensor_product", "count_qubits", "single_qubit_pauli_operator",
    "state_to_stabiliser_string", "unpack_tableau", "zero_state")]
ASSUMPTIONS = [
    "operators are uint8 arrays of bits with a sign bit; qubit numbers are not negative",
    "texts are ASCII"]


def letter(x, z):
    """The letter of a one-qubit operator."""
    return SChar(ite(x == 1, ite(z == 1, ord("Y"), ord("X")),
                     ite(z == 1, ord("Z"), ord("I"))))


def xbit(ch):
    return (ch == "X") | (ch == "Y")


def zbit(ch):
    return (ch == "Z") | (ch == "Y")


def same_operator(c, got, n, xs, zs, sign, what):
    """got is the operator on n qubits with these bits."""
    c.prove(got.ndim == 1 and SBool(eq(got.shape[0], 2 * n + 1)), f"{what}: length")
    c.prove(got.dt == "u1", f"{what}: dtype")
    q = fresh_int("q", 0, n)
    c.prove(SBool(eq(got.at(q), b01(xs(q)))), f"{what}: X part")
    c.prove(SBool(eq(got.at(q + n), b01(zs(q)))), f"{what}: Z part")
    c.prove(SBool(eq(got.at(2 * n), b01(sign))), f"{what}: sign")


def b01(v):
    if isinstance(v, bool):
        return int(v)
    return v.asint() if isinstance(v, SBool) else v


# ------------------------------------------------------------------ full texts
@case("string_to_pauli: one letter per qubit")
def long_text(c):
    for sign in ("", "+", "-"):
        for given in (False, True):
            def at():
                n = fresh_int("n", 1)
                body = any_text("letters", n, "IXYZ")
                k = {"qubits": fresh_int("qubits", 0)} if given else {}
                r = c.run(P.string_to_pauli, sign + body if sign else body, **k)
                m = ite(n >= k["qubits"], n, k["qubits"]) if given else n

                def on(f):
                    return lambda q: C.land(q < n, f(body.at(q)))
                same_operator(c, r, m, on(xbit), on(zbit), sign == "-",
                              f"'{sign}'" + (", padded" if given else ""))
            c.scope(at)


@case("pauli_to_string: one letter per qubit, and back")
def back_text(c):
    n = fresh_int("n", 1)
    op = operator(c, "op", n)
    rd = op.copy().reader()
    t = c.run(P.pauli_to_string, op)
    c.prove(SBool(eq(t.n, n + 1)), "length")
    q = fresh_int("q", 0, n)
    c.prove(t.at(q + 1) == letter(rd(q), rd(q + n)), "letters")
    c.prove(t.at(0) == SChar(ite(rd(2 * n) == 1, ord("-"), ord("+"))), "sign")
    c.arrays_equal(op, SArr.of(rd, op.shape, "u1"), "operator unchanged")
    r = c.run(P.string_to_pauli, t)
    same_operator(c, r, n, rd, lambda q: rd(q + n), rd(2 * n), "back")


# --------------------------------------------------------------- dictionaries
@case("dict_to_pauli")
def from_dict(c):
    for given in (False, True):
        def at():
            letters = C.fun_int("letter", 1)
            k = z3.Int("k!")
            cur().assume(SBool(z3.ForAll([k], z3.Or(
                [letters.z3(k) == ord(x) for x in "IXYZ"]))))
            d = sym_dict("ops", lambda q: SChar(letters(q)), lo=0)
            kw = {"qubits": fresh_int("qubits", 0)} if given else {}
            e = c.raises(P.dict_to_pauli, d, **kw)
            if e is not None:
                c.prove(given and isinstance(e, ValueError), "only too few qubits fail")
                q = kw["qubits"]
                i = d.n
                from pyvc.seq import quant
                c.prove(quant("any", i, lambda i: d.rawkey(i) >= q),
                        "only too few qubits fail")
                return
            r = c.result
            c.prove(r.dt == "u1", "dtype")
            n = kw["qubits"] if given else None
            if n is None:
                n = SInt(z3.simplify((C.intterm(r.shape[0]) - 1) / 2))
                c.prove(SBool(eq(r.shape[0], 2 * n + 1)), "length")
                q = fresh_int("q", 0, n)
                c.prove(C.lor(SBool(eq(n, 0)), d.has(n - 1)), "no more than needed")
            i = fresh_int("i", 0, d.n)
            c.prove(d.key(i) < n, "every qubit of the operator is there")

            def on(f):
                return lambda q: C.land(d.has(q), f(SChar(letters(q))))
            same_operator(c, r, n, on(xbit), on(zbit), False,
                          "given size" if given else "least size")
        c.scope(at)


@case("pauli_to_dict, and back")
def to_dict(c):
    n = fresh_int("n", 0)
    op = operator(c, "op", n)
    rd = op.copy().reader()
    d = c.run(P.pauli_to_dict, op)
    if not isinstance(d, SDict):
        raise Unsupported("a dictionary made in another way")
    q = fresh_int("q")
    inside = C.land(q >= 0, q < n, C.lor(rd(q) == 1, rd(q + n) == 1))
    c.prove(SBool(C.boolterm(d.has(q)) == C.boolterm(inside)), "support")
    cur().assume(inside)
    v = d.get(q)
    c.prove(SChar(ord(v)) == letter(rd(q), rd(q + n)) if isinstance(v, str)
            else v == letter(rd(q), rd(q + n)), "letters")
    c.arrays_equal(op, SArr.of(rd, op.shape, "u1"), "operator unchanged")


@case("operator to dictionary and back")
def dict_round(c):
    n = fresh_int("n", 1)
    op = operator(c, "op", n)
    rd = op.copy().reader()
    d = c.run(P.pauli_to_dict, op)
    r = c.run(P.dict_to_pauli, d, n)
    same_operator(c, r, n, rd, lambda q: rd(q + n), 0, "back")


# ---------------------------------------------------------------- sparse texts
class Number:
    """The digits of a number (any number of them)."""
    pyvc_ok = True
    __hash__ = None

    def __init__(self, v):
        self.v = v

    def pyvc_isinstance(self, cls):
        return cls in (str, object)

    def pyvc_int(self):
        return self.v

    def subst_(self, ps):
        from pyvc.seq import subst
        return Number(subst(self.v, ps))


class Sparse:
    """A text sign? (letter number)*, the characters '_' and ' ' left out."""
    pyvc_ok = True
    __hash__ = None

    def __init__(self, sign, n, letter, number):
        self.sign, self.n, self.letter, self.number = sign, n, letter, number

    def pyvc_isinstance(self, cls):
        return cls in (str, object)

    def replace(self, old, new):
        if old in (" ", "_") and new == "":
            return self                    # meaning of the text: without them
        raise Unsupported("replacement in a sparse text")

    def tokens(self, i):
        return [self.letter(i), Number(self.number(i))]

    def pyvc_iter(self, it):
        """Characters, a number being at least one digit."""
        out = [SChar(ord(self.sign))] if self.sign else []
        d = C.fun_int("digit", 1)
        k = z3.Int("k!")
        cur().assume(SBool(z3.ForAll([k], z3.And(d.z3(k) >= 48, d.z3(k) <= 57))))
        cur().assume(d(0) >= 48)
        return out + [Each(self.n, lambda i: [self.letter(i), SChar(d(i))])]

    def pyvc_findall(self, rx):
        """re.findall: every token matched from its start, in order."""
        first = [self.sign] if self.sign else []

        def one(i, lead):
            toks = lead + self.tokens(i)
            r = match(rx, toks)
            if r is None:
                raise Unsupported("a pattern which does not match every token")
            return r

        def item(i):
            a, b = one(i, first), one(i, [])
            if not first:
                return b
            return tuple(pick(i, x, y) for x, y in zip(a, b))

        def pick(i, x, y):
            if isinstance(x, str) and isinstance(y, str) and x != y:
                if isinstance(i, int):
                    return x if i == 0 else y
                return x if bool(SBool(eq(i, 0))) else y
            return x
        from pyvc.seq import SSeq
        return SSeq(self.n, item)


def match(rx, toks):
    """Groups of a match of the whole token list at its start (tokens: characters
    and numbers; a number is matched only by one or more digits), or None."""
    import re
    sre = re._parser
    c = re._constants
    groups = {}

    def in_set(items, ch):
        lits = []
        for op, v in items:
            if op is c.LITERAL:
                lits.append(chr(v))
            elif op is c.RANGE:
                lits += [chr(x) for x in range(v[0], v[1] + 1)]
            elif op is c.CATEGORY and v is c.CATEGORY_DIGIT:
                lits += list("0123456789")
            else:
                raise Unsupported("this pattern")
        if isinstance(ch, str):
            return ch in lits
        # any of the four letters
        if set("IXYZ") <= set(lits):
            return True
        if not set("IXYZ") & set(lits):
            return False
        raise Unsupported("a pattern which distinguishes letters")

    def digits(op, v):
        return op is c.IN and list(v) == [(c.CATEGORY, c.CATEGORY_DIGIT)] or \
            op is c.IN and list(v) == [(c.RANGE, (48, 57))]

    def go(items, pos):
        for op, v in items:
            if op is c.SUBPATTERN:
                g, _, _, sub = v
                start = pos
                pos = go(sub, pos)
                if pos is None:
                    return None
                if g:
                    groups[g] = (start, pos)
            elif op is c.MAX_REPEAT:
                lo, hi, sub = v
                sub = list(sub)
                if len(sub) == 1 and digits(*sub[0]) and lo == 1 and hi is c.MAXREPEAT:
                    if pos >= len(toks) or not isinstance(toks[pos], Number):
                        return None
                    pos += 1
                elif (lo, hi) == (0, 1):
                    r = go(sub, pos)
                    pos = pos if r is None else r
                else:
                    raise Unsupported("this pattern")
            elif op in (c.IN, c.LITERAL):
                if pos >= len(toks):
                    return None
                if isinstance(toks[pos], Number):
                    raise Unsupported("a pattern which looks into a number")
                if not in_set([(op, v)] if op is c.LITERAL else v, toks[pos]):
                    return None
                pos += 1
            else:
                raise Unsupported("this pattern")
        return pos
    tree = sre.parse(rx.pattern, rx.flags)
    end = go(tree, 0)
    if end != len(toks):
        return None

    def text(i):
        if i not in groups:
            return ""
        a, b = groups[i]
        got = toks[a:b]
        return got[0] if len(got) == 1 else FStr(got) if got else ""
    return tuple(text(i + 1) for i in range(rx.groups)) if rx.groups > 1 else None


@case("string_to_pauli: listed qubits")
def sparse(c):
    for sign in ("", "+", "-"):
        for given in (False, True):
            def at():
                n = fresh_int("tokens", 1)
                f, num = C.fun_int("letter", 1), C.fun_int("number", 1)
                k = z3.Int("k!")
                cur().assume(SBool(z3.ForAll([k], z3.Or(
                    [f.z3(k) == ord(x) for x in "IXYZ"]))))
                cur().assume(SBool(z3.ForAll([k], num.z3(k) >= 0)))
                # a qubit is listed once
                pos = C.fun_int("position", 1)
                cur().assume(SBool(z3.ForAll([k], z3.Implies(
                    z3.And(k >= 0, k < C.intterm(n)), pos.z3(num.z3(k)) == k))))
                t = Sparse(sign, n, lambda i: SChar(f(i)), num)
                kw = {"qubits": fresh_int("qubits", 0)} if given else {}
                e = c.raises(P.string_to_pauli, t, **kw)
                from pyvc.seq import quant
                if e is not None:
                    c.prove(given and isinstance(e, ValueError) and
                            quant("any", n, lambda i: num(i) >= kw["qubits"]),
                            "only too few qubits fail")
                    return
                r = c.result
                m = kw["qubits"] if given else SInt(z3.simplify(
                    (C.intterm(r.shape[0]) - 1) / 2))
                i = fresh_int("i", 0, n)
                c.prove(num(i) < m, "every listed qubit is there")
                if not given:
                    c.prove(quant("any", n, lambda i: SBool(eq(num(i), m - 1))),
                            "no more than needed")
                what = f"'{sign}'" + (", padded" if given else "")
                c.prove(SBool(eq(r.shape[0], 2 * m + 1)), f"{what}: length")
                ch = SChar(f(i))
                c.prove(SBool(eq(r.at(num(i)), b01(xbit(ch)))), f"{what}: listed: X part")
                c.prove(SBool(eq(r.at(num(i) + m), b01(zbit(ch)))),
                        f"{what}: listed: Z part")
                q = fresh_int("q", 0, m)
                cur().assume(~quant("any", n, lambda i: SBool(eq(num(i), q))))
                c.prove(C.land(r.at(q) == 0, r.at(q + m) == 0), f"{what}: others")
                c.prove(r.at(2 * m) == (1 if sign == "-" else 0), f"{what}: sign")
            c.scope(at)


@case("pauli_to_string: only non-identities")
def back_sparse(c):
    n = fresh_int("n", 0)
    op = operator(c, "op", n)
    rd = op.copy().reader()
    t = c.run(P.pauli_to_string, op, show_identities=False)
    got = []
    for p in t.parts if isinstance(t, FStr) else [t]:
        got += p.lines if isinstance(p, Joined) and p.sep == "" else [p]
    sign = got.pop(0) if got else None
    if isinstance(sign, SText):
        c.prove(SBool(eq(sign.n, 1)), "one sign")
        sign = sign.at(0)
    if isinstance(sign, str):
        sign = SChar(ord(sign)) if len(sign) == 1 else None
    if sign is None:
        raise Unsupported("a text made in another way")
    c.prove(sign == SChar(ite(rd(2 * n) == 1, ord("-"), ord("+"))), "sign")

    def want(q):
        some = C.lor(rd(q) == 1, rd(q + n) == 1)
        return [IfE(some, [" ", letter(rd(q), rd(q + n)), q], [])]
    c.emissions(flat(got), [Each(n, want)], "letter and number of every non-identity")


def flat(ps):
    """Printed pieces as a list."""
    out = []
    for p in ps:
        if isinstance(p, Each):
            out.append(Each(p.n, lambda i, p=p: flat(p.fn(i))))
        elif isinstance(p, IfE):
            out.append(IfE(p.cond, flat(p.a), flat(p.b)))
        elif isinstance(p, FStr):
            out += flat(p.parts)
        elif p != "" if isinstance(p, str) else True:
            out.append(p)
    return out


# ------------------------------------------------------------- sizes and joins
@case("pad_operator")
def pad(c):
    n, m = fresh_int("n", 0), fresh_int("total", 0)
    op = operator(c, "op", n)
    rd = op.copy().reader()
    r = c.run(P.pad_operator, op, m)
    size = ite(m >= n, m, n)
    same_operator(c, r, size, lambda q: ite(q < n, rd(ite(q < n, q, 0)), 0),
                  lambda q: ite(q < n, rd(ite(q < n, q, 0) + n), 0), rd(2 * n), "padded")


@case("tensor_product: operators")
def tensor(c):
    for k in (1, 2, 3, 4):
        def at():
            ns = [fresh_int(f"n{i}", 0) for i in range(k)]
            ops = [operator(c, f"op{i}", n) for i, n in enumerate(ns)]
            rds = [o.copy().reader() for o in ops]
            r = c.run(P.tensor_product, *ops)
            tot = 0
            offs = []
            for n in ns:
                offs.append(tot)
                tot = tot + n
            c.prove(SBool(eq(r.shape[0], 2 * tot + 1)), f"{k}: length")
            sg = rds[0](2 * ns[0])
            for i in range(1, k):
                sg = sg ^ rds[i](2 * ns[i])
            c.prove(SBool(eq(r.at(2 * tot), sg)), f"{k}: sign")
            for i in range(k):
                def of(i=i):
                    q = fresh_int("q", 0, ns[i])
                    c.prove(SBool(eq(r.at(offs[i] + q), rds[i](q))),
                            f"{k}: X part of operator {i}")
                    c.prove(SBool(eq(r.at(tot + offs[i] + q), rds[i](q + ns[i]))),
                            f"{k}: Z part of operator {i}")
                    c.arrays_equal(ops[i], SArr.of(rds[i], ops[i].shape, "u1"),
                                   f"{k}: operator {i} unchanged")
                c.scope(of)
        c.scope(at)
    e = c.raises(P.tensor_product)
    c.prove(isinstance(e, ValueError), "no operators")


@case("tensor_product: states")
def tensor_states(c):
    n, m = fresh_int("n", 1), fresh_int("m", 1)
    a, _ = tableau(c, "a", n=n, square=True)
    b, _ = tableau(c, "b", n=m, square=True)
    ra, rb = a.copy().reader(), b.copy().reader()
    r = c.run(P.tensor_product, a, b)
    t = n + m
    c.prove(C.land(SBool(eq(r.shape[0], 2 * t)), SBool(eq(r.shape[1], 2 * t + 1))), "shape")
    for nm, rd, k, off, other in (("first", ra, n, 0, (n, m)), ("second", rb, m, n, (0, n))):
        for half in (0, 1):
            def at():
                i = fresh_int("i", 0, k)
                row, src = half * t + off + i, half * k + i
                q = fresh_int("q", 0, k)
                o = fresh_int("o", 0, other[1])
                w = f"{nm} state, {'stabilisers' if half else 'destabilisers'}"
                for part in (0, 1):
                    c.prove(SBool(eq(r.at(row, part * t + off + q), rd(src, part * k + q))),
                            f"{w}: own qubits")
                    c.prove(r.at(row, part * t + other[0] + o) == 0, f"{w}: other qubits")
                c.prove(SBool(eq(r.at(row, 2 * t), rd(src, 2 * k))), f"{w}: sign")
            c.scope(at)


def weight(rd, n):
    return C.mksum(n, lambda q: C.lor(rd(q) == 1, rd(q + n) == 1).asint())


@case("count_qubits")
def count(c):
    def one():
        n = fresh_int("n", 0)
        op = operator(c, "op", n)
        rd = op.reader()
        r = c.run(P.count_qubits, op)
        c.prove(len(r) == 1 and SBool(eq(r[0], n)), "of an operator")
        r = c.run(P.count_qubits, op, include_identities=False)
        c.equal(r.at(0), weight(rd, n), "weight of an operator")
    c.scope(one)

    def state():
        s, n = tableau(c, "state")
        rd = s.reader()
        r = c.run(P.count_qubits, s)
        c.prove(SBool(eq(item(r, 0), n)), "of a state")
        r = c.run(P.count_qubits, s, include_identities=False)
        i = fresh_int("i", 0, s.shape[0])
        c.equal(r.at(i), weight(lambda q: rd(i, q), n), "weight of every row")
    c.scope(state)

    def many():
        k, size = fresh_int("k", 1), C.fun_int("size", 1, 0)
        bits = C.fun_bit("bits", 2)
        ops = [Each(k, lambda i: [SArr.of(lambda j: bits(i, j), (2 * size(i) + 1,), "u1")])]
        for ident in (True, False):
            r = c.run(P.count_qubits, list(ops), include_identities=ident)
            want = [Each(k, lambda i: [size(i) if ident else weight(
                lambda q: bits(i, q), size(i)).value()])]
            c.emissions(list(r), want, "of every operator" if ident else
                        "weight of every operator")
    c.scope(many)


def item(r, i):
    v = r.at(i) if isinstance(r, SArr) else r[i]
    return v.value() if isinstance(v, SSum) else v


@case("single_qubit_pauli_operator")
def single(c):
    for op in ("X", "Y", "Z", "-X", "-Y", "-Z", "+X", "+Z", "W"):
        def at():
            q, n = fresh_int("qubit"), fresh_int("qubits")
            e = c.raises(P.single_qubit_pauli_operator, op, q, n)
            bad = C.lor(q < 0, n < 1, n <= q, op == "W")
            c.prove(SBool(C.boolterm(bad)) if e is not None else ~SBool(C.boolterm(bad)),
                    f"{op}: rejected exactly when out of range")
            if e is not None:
                c.prove(isinstance(e, ValueError), f"{op}: kind of error")
                return
            same_operator(c, c.result, n,
                          lambda k: C.land(SBool(eq(k, q)), op[-1] in "XY"),
                          lambda k: C.land(SBool(eq(k, q)), op[-1] in "ZY"),
                          op[0] == "-", op)
        c.scope(at)


@case("zero_state")
def zero(c):
    n = fresh_int("n", 0)
    s = c.run(P.zero_state, n)
    c.arrays_equal(s, SArr.of(lambda i, j: SBool(eq(i, j)).asint(), (2 * n, 2 * n + 1),
                              "u1"), "destabilisers X, stabilisers Z, in order")


@case("state_to_stabiliser_string")
def state_text(c):
    s, n = tableau(c, "state", square=True)
    for ident in (True, False):
        def text(it, a, k):
            op, show = a[0], a[1] if len(a) > 1 else k.get("show_identities", True)
            return Printed(op, show)
        c.contracts[P.pauli_to_string] = text
        d, st = c.run(P.state_to_stabiliser_string, s, ident)
        i = fresh_int("i", 0, n)
        for nm, got, off in (("destabilisers", d, 0), ("stabilisers", st, n)):
            from pyvc.interp import seqview
            sv = seqview(got)
            if sv is None:
                raise Unsupported("a list made in another way")
            c.prove(SBool(eq(sv[0], n)), f"{nm}: number")
            p = sv[1](i)
            if not isinstance(p, Printed):
                raise Unsupported("a text made in another way")
            c.prove(p.show is ident, f"{nm}: identities")
            c.arrays_equal(p.op, s[off + i], f"{nm}: rows")


class Printed:
    """Text of an operator (contract of pauli_to_string)."""
    pyvc_ok = True
    __hash__ = None

    def __init__(self, op, show):
        self.op, self.show = op, show

    def subst_(self, ps):
        from pyvc.seq import subst
        return Printed(subst(self.op, ps), self.show)

    def pyvc_isinstance(self, cls):
        return cls in (str, object)
