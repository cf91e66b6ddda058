"""Strings of symbolic length (one symbolic character per position)."""
from __future__ import annotations

import z3

from . import core as C
from . import seq as Q
from .core import SBool, SInt, Unsupported
from .seq import SSeq


class SChar:
    """One character, by its code (ASCII)."""

    __hash__ = None
    pyvc_ok = True

    def __init__(self, code):
        self.code = code

    def subst_(self, pairs):
        return SChar(Q.subst(self.code, pairs))

    def __eq__(self, o):
        if isinstance(o, SChar):
            return SBool(C.eq(self.code, o.code))
        if isinstance(o, str):
            return len(o) == 1 and SBool(C.eq(self.code, ord(o)))
        if isinstance(o, SText):
            return o == self
        return False

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SBool) else not r

    def pyvc_isinstance(self, cls):
        return cls in (str, object)

    def pyvc_in(self, s):
        return C.lor(False, *[SBool(C.eq(self.code, ord(x))) for x in dict.fromkeys(s)])

    def pyvc_contains(self, it, x):
        if isinstance(x, str) and len(x) == 1 or isinstance(x, SChar):
            return self == x
        raise Unsupported("a substring of a character")

    def pyvc_ite(self, c, o):
        if isinstance(o, str) and len(o) == 1:
            o = SChar(ord(o))
        if not isinstance(o, SChar):
            raise Unsupported("choice between a character and something else")
        return SChar(C.ite(c, self.code, o.code))

    def isdigit(self):
        return C.land(self.code >= 48, self.code <= 57)
    isdecimal = isnumeric = isdigit

    def isalpha(self):
        return C.lor(C.land(self.code >= 65, self.code <= 90),
                     C.land(self.code >= 97, self.code <= 122))

    def isspace(self):
        return self.pyvc_in(" \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f")

    def upper(self):
        low = C.land(self.code >= 97, self.code <= 122)
        return SChar(C.ite(low, self.code - 32, self.code))

    def lower(self):
        up = C.land(self.code >= 65, self.code <= 90)
        return SChar(C.ite(up, self.code + 32, self.code))

    def strip(self, *a):
        raise Unsupported("strip of a character")

    def __add__(self, o):
        if isinstance(o, (Q.FStr, Q.Joined)):
            return Q.FStr([self, o])
        return SText.of(self) + o

    def __radd__(self, o):
        if isinstance(o, (Q.FStr, Q.Joined)):
            return Q.FStr([o, self])
        return SText.of(o) + self

    def __getitem__(self, i):
        return SText.of(self)[i]

    def __repr__(self):
        return f"SChar({self.code})"


NAMES = {}


class SName:
    """Any string, known only by comparisons with known strings."""

    __hash__ = None
    pyvc_ok = True

    def __init__(self, t):
        self.t = t

    @staticmethod
    def code(s):
        return NAMES.setdefault(s, len(NAMES))

    def subst_(self, pairs):
        return SName(Q.subst(self.t, pairs))

    def __eq__(self, o):
        if isinstance(o, SName):
            return SBool(C.eq(self.t, o.t))
        if isinstance(o, str):
            return SBool(C.eq(self.t, SName.code(o)))
        return False

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SBool) else not r

    def pyvc_isinstance(self, cls):
        return cls in (str, object)

    def pyvc_contains(self, it, x):
        raise Unsupported("a substring of any string")

    def pyvc_str(self):
        return self

    def pyvc_ite(self, c, o):
        if isinstance(o, str):
            o = SName(SInt(z3.IntVal(SName.code(o))))
        if not isinstance(o, SName):
            raise Unsupported("choice between a string and something else")
        return SName(C.ite(c, self.t, o.t))

    def concrete(self, options):
        """One of these strings, by cases, or None."""
        for s in options:
            if bool(self == s):
                return s
        return None

    def terms_(self):
        yield C.intterm(self.t)

    def __repr__(self):
        return f"SName({self.t})"


def any_name(name):
    return SName(C.fresh_int(name))


class SText(SSeq):
    """A string: n characters, the k-th being at(k)."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, n, at):
        super().__init__(n, at, "str")

    @staticmethod
    def of(x):
        if isinstance(x, SText):
            return x
        if isinstance(x, SChar):
            return SText(1, lambda k: x)
        if isinstance(x, str):
            if len(x) == 0:
                return SText(0, lambda k: SChar(0))
            return SText(len(x), lambda k: pick(x, k))
        raise C.PyRaise(TypeError("can only concatenate str"))

    def slice(self, s):
        r = SSeq.slice(self, s)
        return SText(r.n, r.at)

    def pyvc_isinstance(self, cls):
        return cls in (str, object)

    def __len__(self):
        raise Unsupported("len outside the interpreter")

    def __add__(self, o):
        if isinstance(o, (Q.FStr, Q.Joined)):
            return Q.FStr([self, o])
        a, b = self, SText.of(o)
        n = a.n

        def at(k):
            c = k < n
            if c is True or isinstance(c, SBool) and z3.is_true(z3.simplify(c.t)):
                return a.at(k)
            if c is False or isinstance(c, SBool) and z3.is_false(z3.simplify(c.t)):
                return b.at(Q.simp(k - n))
            return SChar(C.ite(c, a.at(k).code, b.at(Q.simp(k - n)).code))
        return SText(Q.simp(n + b.n), at)

    def __radd__(self, o):
        if isinstance(o, (Q.FStr, Q.Joined)):
            return Q.FStr([o, self])
        return SText.of(o) + self

    def __eq__(self, o):
        if not isinstance(o, (str, SText, SChar)):
            return False
        o = SText.of(o)
        same = SBool(C.eq(self.n, o.n))
        if isinstance(o.n, int):
            return C.land(same, *[SBool(C.eq(self.at(k).code, o.at(k).code))
                                  for k in range(o.n)]) if o.n else same
        return C.land(same, Q.quant("all", o.n, lambda k: self.at(k) == o.at(k)))

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SBool) else not r

    def free_of(self, chars):
        """None of these characters occurs?"""
        r = Q.quant("all", self.n, lambda k: ~self.at(k).pyvc_in(chars))
        return bool(r)

    def replace(self, old, new, count=-1):
        if not isinstance(old, str) or not old or count != -1:
            raise Unsupported("str.replace")
        if len(old) == 1 and isinstance(new, str) and len(new) == 1:
            at = self.at
            return SText(self.n, lambda k: SChar(C.ite(at(k) == old, ord(new),
                                                       at(k).code)))
        if self.free_of(old[0]):
            return self
        raise Unsupported("str.replace of characters which may occur")

    def strip(self, chars=None):
        if self.free_of(chars if chars is not None else " \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f"):
            return self
        raise Unsupported("str.strip of characters which may occur")
    lstrip = rstrip = strip

    def startswith(self, pre):
        if isinstance(pre, tuple):
            return C.lor(False, *[self.startswith(p) for p in pre])
        if not isinstance(pre, str):
            raise Unsupported("str.startswith")
        return C.land(self.n >= len(pre), *[self.at(k) == pre[k]
                                            for k in range(len(pre))])

    def upper(self):
        at = self.at
        return SText(self.n, lambda k: at(k).upper())

    def isdigit(self):
        return C.land(self.n > 0, Q.quant("all", self.n, lambda k: self.at(k).isdigit()))

    def translate(self, table):
        at = self.at
        for k, v in table.items():
            if not isinstance(k, int) or (v is not None and
                                          not (isinstance(v, int) or len(v) == 1)):
                raise Unsupported("str.translate")
        gone = "".join(chr(k) for k, v in table.items() if v is None)
        if gone and not self.free_of(gone):
            raise Unsupported("str.translate deletes characters which may occur")

        def new(k):
            c = at(k).code
            r = c
            for x, v in table.items():
                if v is not None:
                    r = C.ite(SBool(C.eq(c, x)), v if isinstance(v, int) else ord(v), r)
            return SChar(r)
        return SText(self.n, new)

    def pyvc_contains(self, it, x):
        if isinstance(x, SChar) or isinstance(x, str) and len(x) == 1:
            return Q.quant("any", self.n, lambda k: self.at(k) == x)
        raise Unsupported("a substring of a symbolic string")

    def __repr__(self):
        return f"SText(n={self.n})"


def pick(s, k):
    if isinstance(k, int):
        return SChar(ord(s[k]))
    r = ord(s[-1])
    for i in range(len(s) - 2, -1, -1):
        r = C.ite(SBool(C.eq(k, i)), ord(s[i]), r)
    return SChar(r)


def any_text(name, n, alphabet):
    """Any string of n characters of the alphabet."""
    f = C.fun_int(name, 1)
    k = z3.Int("k!")
    C.cur().assume(SBool(z3.ForAll([k], z3.Or([f.z3(k) == ord(x) for x in alphabet]))))
    return SText(n, lambda k: SChar(f(k)))


class DigitsText:
    """str() of a list of one-digit numbers: '[a, b, c]'."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, n, at):
        self.n, self.at = n, at

    def pyvc_isinstance(self, cls):
        return cls in (str, object)

    def subst_(self, pairs):
        at = self.at
        return DigitsText(Q.subst(self.n, pairs), lambda k: Q.subst(at(k), pairs))

    def digits(self):
        at = self.at
        return SText(self.n, lambda k: SChar(at(k) + 48))

    def translate(self, table):
        for x in "[], ":
            if table.get(ord(x), x) is not None:
                raise Unsupported("str.translate keeps the punctuation of a list")
        return self.digits().translate({k: v for k, v in table.items()
                                        if chr(k) not in "[], "})


def digits_text(it, x):
    """str(x) for a list of numbers below ten, or None."""
    from .interp import seqview
    sv = seqview(x)
    if sv is None:
        return None
    n, at = sv[0], sv[1]

    def ok(k):
        v = at(k)
        if not isinstance(v, (int, SInt)):
            raise Unsupported("text of a list")
        return C.land(SBool(C.boolterm(v >= 0)), SBool(C.boolterm(v <= 9)))
    if not bool(Q.quant("all", n, ok)):
        raise Unsupported("text of a list of larger numbers")
    return DigitsText(n, at)


def joined(it, ps):
    """"".join of a repetition of single characters, or None."""
    if len(ps) != 1 or not isinstance(ps[0], Q.Each):
        return None
    from .interp import seqview
    sv = seqview(ps)
    if sv is None:
        return None
    n, at = sv[0], sv[1]
    k = C.fresh_int("ch", 0, n)
    kinds = set()

    def probe():
        c = at(k)
        kinds.add(isinstance(c, SChar) or isinstance(c, str) and len(c) == 1)
    C.cur().explore(probe)
    if kinds != {True}:
        return None

    def char(i):
        c = at(i)
        return SChar(ord(c)) if isinstance(c, str) else c
    return SText(n, char)
