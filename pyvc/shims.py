"""Meaning of the built-in and numpy functions the code calls, on symbolic values."""
from __future__ import annotations

import builtins
import collections.abc
import copy
import functools
import itertools
import math
import operator
import types
import typing

import numpy as np
import z3

from . import core as C
from . import seq as Q
from . import text as T
from .arr import (SArr, as_arr, asum, aquant, concat, ew, known_eq, reshape, scalar_dt,
                  simp, stack, unnp)
from .core import (PyRaise, SBool, SInt, SReal, SSum, Sym, Unsupported, cur, eq, intterm,
                   ite, raise_)
from .seq import Each, FStr, IdxSet, IfE, SDict, SElem, SSeq

NI = NotImplemented
_T = {}


def shim(*fns):
    def deco(f):
        for fn in fns:
            _T[fn] = f
        return f
    return deco


def table():
    return _T


def sym(x):
    from .interp import symbolic
    return symbolic(x)


# ------------------------------------------------------------------ isinstance
def isinstance_(it, v, cls):
    if isinstance(cls, types.UnionType):
        cls = cls.__args__
    if isinstance(cls, tuple):
        return any(isinstance_(it, v, c) for c in cls)
    if cls is type(None):
        return v is None
    if isinstance(v, SArr):
        return cls in (np.ndarray, object, collections.abc.Iterable,
                       collections.abc.Sized)
    if isinstance(v, SBool):
        return cls in (bool, int, np.bool_)
    if isinstance(v, SInt):
        if v.dt is None:
            return cls is int or cls in (object,)
        return cls in (np.integer, np.generic, np.number,
                       {"u1": np.uint8, "i8": np.int64}.get(v.dt))
    if isinstance(v, SReal):
        return cls in (float, np.floating) and cls is float
    if isinstance(v, C.SComplex):
        return cls is complex
    if isinstance(v, SSum):
        return cls in (int, np.integer)
    if isinstance(v, SSeq):
        want = {"list": list, "tuple": tuple, "range": range, "str": str}.get(v.kind)
        return cls is want or (want is not None and cls in (
            collections.abc.Sequence, collections.abc.Iterable, collections.abc.Sized))
    if isinstance(v, SDict):
        return cls in (dict, collections.abc.Mapping, collections.abc.Iterable,
                       collections.abc.MutableMapping)
    if isinstance(v, (FStr, Q.Joined)):
        return cls is str
    if isinstance(v, SElem):
        for k, cond in v.struct.kinds:
            if isinstance(cls, type) and issubclass(k, cls) and \
                    not issubclass(v.struct.cls, cls) and bool(cond(*v.idx)):
                return True
        return isinstance(v.struct.cls, type) and isinstance(cls, type) and \
            issubclass(v.struct.cls, cls)
    if isinstance(v, IdxSet):
        return cls is np.ndarray
    if hasattr(v, "pyvc_isinstance"):
        return v.pyvc_isinstance(cls)
    from .interp import GenList
    if isinstance(v, GenList):
        return cls in (types.GeneratorType, collections.abc.Iterator,
                       collections.abc.Iterable)
    if type(v).__name__ == "Poison":
        raise Unsupported(v.why)
    try:
        return isinstance(v, cls)
    except TypeError as e:
        raise PyRaise(e)


@shim(builtins.isinstance)
def _isinstance(it, a, kw):
    return isinstance_(it, a[0], a[1])


@shim(builtins.issubclass)
def _issub(it, a, kw):
    return issubclass(*a)


@shim(builtins.getattr)
def _getattr(it, a, kw):
    if isinstance(a[1], T.SName):
        name = a[1].concrete([s for s in list(T.NAMES) if s.isidentifier()])
        if name is None:
            raise Unsupported("getattr of any name")
        a = [a[0], name, *a[2:]]
    if isinstance(a[1], T.SChar):
        name = next((x for x in dir(a[0]) if len(x) == 1 and bool(a[1] == x)), "?")
        a = [a[0], name, *a[2:]]
    try:
        return it.getattr(a[0], a[1])
    except PyRaise as e:
        if len(a) > 2 and isinstance(e.exc, AttributeError):
            return a[2]
        raise


@shim(builtins.setattr)
def _setattr(it, a, kw):
    it.setattr(*a)


@shim(builtins.hasattr)
def _hasattr(it, a, kw):
    try:
        it.getattr(a[0], a[1])
        return True
    except PyRaise as e:
        if isinstance(e.exc, AttributeError):
            return False
        raise


@shim(builtins.len)
def _len(it, a, kw):
    x = a[0]
    for r in cur().rec:
        if isinstance(x, list):
            n = r.length_of(x)
            if n is not None:
                if r is not cur().rec[-1]:
                    raise Unsupported("the length of a list which grows")
                return n
        elif isinstance(x, (dict, set)):
            r.read_container(x, "__len__")
    if isinstance(x, (Sym, type(None))):
        raise_(TypeError, "object has no len()")
    if isinstance(x, (Q.FStr,)):
        raise Unsupported("length of a printed string")
    if type(x).__module__ == "builtins" or isinstance(x, (SSeq, SArr, SDict, IdxSet,
                                                          list, tuple, np.ndarray)):
        try:
            return Q.length(x)
        except TypeError as e:
            raise PyRaise(e)
    m = getattr(type(x), "__len__", None)
    from .interp import is_src
    if m is not None and is_src(m):
        return it.call(m, [x], {})
    if hasattr(x, "pyvc_len"):
        return x.pyvc_len()
    try:
        return len(x)
    except TypeError as e:
        if hasattr(x, "pyvc_ok"):
            raise Unsupported(f"the length of {type(x).__name__}")
        raise PyRaise(e)


@shim(builtins.int)
def _int(it, a, kw):
    if not a:
        return 0
    x = a[0]
    if isinstance(x, SBool):
        return SInt(b=x.t)
    if isinstance(x, SInt):
        return SInt(x._t, b=x.b)
    if isinstance(x, SSum):
        return x
    if isinstance(x, SReal):
        return unnp(C.cast(x, "i8"))
    if isinstance(x, SArr):
        return _int(it, [x.item()], {})
    if isinstance(x, (FStr,)):
        # int(str(n)) == n
        if len(x.parts) == 1 and isinstance(x.parts[0], SInt):
            return x.parts[0]
        if len(x.parts) == 1 and isinstance(x.parts[0], SReal):
            raise_(ValueError, "invalid literal for int()")
        raise Unsupported("int of a printed string")
    if hasattr(x, "pyvc_int"):
        return x.pyvc_int()
    if sym(x):
        raise Unsupported(f"int of {type(x).__name__}")
    return NI


@shim(builtins.bool)
def _bool(it, a, kw):
    if not a:
        return False
    x = a[0]
    if isinstance(x, SBool):
        return x
    if isinstance(x, SInt):
        return C.asbool(x)
    return it.truth(x)


@shim(builtins.float)
def _float(it, a, kw):
    x = a[0] if a else 0.0
    if isinstance(x, SReal):
        return x
    if isinstance(x, (SInt, SBool)):
        return C.cast(x, "f")
    if isinstance(x, FStr) and len(x.parts) == 1 and isinstance(x.parts[0], SReal):
        return x.parts[0]              # float(str(x)) == x
    if isinstance(x, FStr) and len(x.parts) == 1 and isinstance(x.parts[0], SInt):
        return C.cast(x.parts[0], "f")
    if hasattr(x, "pyvc_float"):
        return x.pyvc_float()
    if sym(x):
        raise Unsupported(f"float of {type(x).__name__}")
    return NI


@shim(builtins.abs)
def _abs(it, a, kw):
    x = a[0]
    if isinstance(x, SReal):
        return SReal(z3.If(x.t < 0, -x.t, x.t))
    if isinstance(x, SInt):
        return ite(x >= 0, x, -x)
    return NI


@shim(builtins.str)
def _str(it, a, kw):
    if a and sym(a[0]):
        x = a[0]
        if isinstance(x, (FStr, Q.Joined)):
            return x
        if hasattr(x, "pyvc_str"):
            return x.pyvc_str()
        if isinstance(x, (T.SText, T.SChar, T.DigitsText)):
            return x
        if isinstance(x, list) or isinstance(x, SSeq) and x.kind == "list":
            r = T.digits_text(it, x)
            if r is not None:
                return r
        return FStr([x])
    if a:
        from .interp import is_src
        m = getattr(type(a[0]), "__str__", None)
        if m is not None and is_src(m):
            return it.call(m, [a[0]], {})
    return NI


@shim(builtins.repr)
def _repr(it, a, kw):
    if sym(a[0]):
        return FStr([a[0]])
    return NI


# ------------------------------------------------------------------ sequences
def uniform(x):
    from .interp import seqview
    return seqview(x)


@shim(builtins.range)
def _range(it, a, kw):
    a = [simp(x) for x in a]
    if any(isinstance(x, SReal) for x in a):
        raise_(TypeError, "'float' object cannot be interpreted as an integer")
    if all(isinstance(x, int) for x in a):
        return range(*a)
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (tuple(a) + (1,))[:3]
    return Q.SRange(start, stop, step)


def items_of(it, x):
    """A list of concrete length, or None."""
    ps = it.iterate(x)
    ps = list(ps)
    return None if any(isinstance(p, (Each, IfE)) for p in ps) else ps


def view_or_list(it, x):
    """('s', n, at) or ('l', items)."""
    if isinstance(x, (list, tuple)) and not Q.has_marks(x):
        return ("l", list(x))
    sv = None
    if isinstance(x, (SSeq, SArr, SDict)) or Q.has_marks(x):
        sv = uniform(x)
        if sv is not None and isinstance(simp(sv[0]), int):
            return ("l", [sv[1](i) for i in range(simp(sv[0]))])
        if sv is None:
            raise Unsupported("a sequence of mixed parts")
        return ("s", sv[0], sv[1])
    its = items_of(it, x)
    if its is None:
        raise Unsupported("a sequence of mixed parts")
    return ("l", its)


@shim(builtins.enumerate)
def _enumerate(it, a, kw):
    start = a[1] if len(a) > 1 else kw.get("start", 0)
    x = a[0]
    if Q.has_marks(x):
        sv = uniform(x)
        if sv is None:
            return indexed_parts(list(x), start)
        return SSeq(sv[0], lambda i: (simp(i + start), sv[1](i)), "enum")
    v = view_or_list(it, x)
    if v[0] == "l":
        return [(simp(start + i), e) for i, e in enumerate(v[1])]
    return SSeq(v[1], lambda i: (simp(i + start), v[2](i)), "enum")


def indexed_parts(ps, start):
    """enumerate over parts each of which has a fixed number of items per round."""
    out, pos = [], start
    for p in ps:
        if isinstance(p, Each):
            k = C.fresh_int("k", 0)
            m = len(p.fn(k))
            if any(isinstance(q, (Each, IfE)) for q in p.fn(k)):
                raise Unsupported("enumeration of nested repetitions")
            out.append(Each(p.n, lambda i, p=p, m=m, pos=pos: [
                (simp(pos + i * m + j), e) for j, e in enumerate(p.fn(i))]))
            pos = simp(pos + p.n * m)
        elif isinstance(p, IfE):
            raise Unsupported("enumeration of conditional items")
        else:
            out.append((pos, p))
            pos = simp(pos + 1)
    return out


def zip_views(it, seqs, strict=False):
    vs = [view_or_list(it, x) for x in seqs]
    if all(v[0] == "l" for v in vs):
        if strict and len({len(v[1]) for v in vs}) > 1:
            raise_(ValueError, "zip() arguments have different lengths")
        return [tuple(t) for t in zip(*[v[1] for v in vs])]
    lens = [v[1] if v[0] == "s" else len(v[1]) for v in vs]
    conc = [n for n in lens if isinstance(n, int)]
    ref = lens[0]
    same = all(known_eq(ref, n) for n in lens[1:])
    if not same:
        if strict:
            raise Unsupported("strict zip of unknown lengths")
        # the shortest
        ref = lens[0]
        for n in lens[1:]:
            if cur().entails(SBool(intterm(ref) <= intterm(n))):
                continue
            if cur().entails(SBool(intterm(n) <= intterm(ref))):
                ref = n
                continue
            ref = ref if bool(SBool(intterm(ref) <= intterm(n))) else n
    ref = simp(ref)
    ats = [(lambda k, l=v[1]: pick_elem(it, l, k)) if v[0] == "l" else v[2] for v in vs]
    if isinstance(ref, int):
        return [tuple(f(i) for f in ats) for i in range(ref)]
    return SSeq(ref, lambda k: tuple(f(k) for f in ats), "zip")


def pick_elem(it, lst, k):
    k = simp(k)
    return lst[k] if isinstance(k, int) else it.pick_item(lst, k)


@shim(builtins.zip)
def _zip(it, a, kw):
    if not a:
        return []
    return zip_views(it, a, kw.get("strict", False))


@shim(itertools.zip_longest)
def _zipl(it, a, kw):
    vs = [view_or_list(it, x) for x in a]
    if all(v[0] == "l" for v in vs):
        return [tuple(t) for t in itertools.zip_longest(*[v[1] for v in vs], **kw)]
    lens = [v[1] if v[0] == "s" else len(v[1]) for v in vs]
    fill = kw.get("fillvalue")
    top = lens[0]
    for n in lens[1:]:
        if not known_eq(top, n):
            top = top if bool(SBool(intterm(top) >= intterm(n))) else n
    ats = []
    for v, n in zip(vs, lens):
        f = (lambda k, l=v[1]: pick_elem(it, l, k)) if v[0] == "l" else v[2]
        if known_eq(n, top):
            ats.append(f)
        else:
            def g(k, f=f, n=n):
                if cur().entails(SBool(intterm(k) < intterm(n))):
                    return f(k)
                if cur().entails(SBool(intterm(k) >= intterm(n))):
                    return fill
                return f(k) if bool(SBool(intterm(k) < intterm(n))) else fill
            ats.append(g)
    return SSeq(top, lambda k: tuple(f(k) for f in ats), "zip")


@shim(builtins.map)
def _map(it, a, kw):
    f = a[0]
    if len(a) == 2:
        src = a[1]
        from . import loops
        from .interp import Env, GenList
        if hasattr(src, "pyvc_iter"):
            src = list(it.iterate(src))
        if isinstance(src, (SSeq, SArr, SDict)) or Q.has_marks(src):
            out = []
            it.created(out)
            env = Env({})
            for p in it.iterate(src):
                def step(item):
                    v = it.call(f, [item], {})
                    it.container_method(out, "append", out.append, [v], {})
                if isinstance(p, Each):
                    loops.generic(it, p, step, env, set())
                else:
                    loops.run_parts(it, [p], step, env, set())
            return GenList(out)
        return GenList([it.call(f, [x], {}) for x in it.iterate(src)])
    z = zip_views(it, a[1:])
    if isinstance(z, list):
        return [it.call(f, list(t), {}) for t in z]
    return _map(it, [lambda t: it.call(f, list(t), {}), z], {})


@shim(builtins.filter)
def _filter(it, a, kw):
    its = items_of(it, a[1])
    if its is None:
        raise Unsupported("filter over a symbolic length")
    return [x for x in its if it.truth(x if a[0] is None else it.call(a[0], [x], {}))]


@shim(builtins.reversed)
def _reversed(it, a, kw):
    v = view_or_list(it, a[0])
    if v[0] == "l":
        return v[1][::-1]
    n, at = v[1], v[2]
    return SSeq(n, lambda i: at(simp(n - 1 - i)), "reversed")


@shim(builtins.list, builtins.tuple)
def _list(it, a, kw):
    if not a:
        return NI
    raise AssertionError


def _tolist(it, a, kw):
    if not a:
        return it.created([])
    x = a[0]
    if isinstance(x, SSeq):
        return SSeq(x.n, getattr(x, "copied", x.at), "list")
    if isinstance(x, SDict):
        return x.seq_keys()
    if isinstance(x, SArr):
        if isinstance(x.shape[0], int):
            return it.created([x[i] for i in range(x.shape[0])])
        return SSeq(x.shape[0], lambda i: x[i], "list")
    if isinstance(x, IdxSet):
        return x
    return it.created(list(it.iterate(x)))


def _totuple(it, a, kw):
    if not a:
        return ()
    x = a[0]
    if isinstance(x, SSeq):
        return SSeq(x.n, getattr(x, "copied", x.at), "tuple")
    if isinstance(x, SArr) and not isinstance(x.shape[0], int):
        return SSeq(x.shape[0], lambda i: x[i], "tuple")
    return tuple(it.iterate(x))


_T[builtins.list] = _tolist
_T[builtins.tuple] = _totuple


@shim(builtins.set, builtins.frozenset)
def _set(it, a, kw):
    if not a:
        return it.created(set())
    x = a[0]
    if isinstance(x, dict):
        x = list(it.iterate(x))
    if isinstance(x, SetOf):
        return x
    if hasattr(x, "pyvc_iter"):
        x = x.pyvc_iter(it)
    if isinstance(x, SSeq) or sym(x):
        return SetOf(x, it)
    return it.created(set(it.iterate(x)))


class Without:
    """The elements of a symbolic set which are not in a known one: are there any?"""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, of, known):
        self.of, self.known = of, known

    def __bool__(self):
        return bool(self.of.outside(self.known))

    def pyvc_contains(self, it, v):
        return C.land(it.contains(self.of, v), ~SBool(C.boolterm(
            it.contains(list(self.known), v))))


class SetOf:
    """set(x) of a symbolic sequence: membership and size against the list only."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, x, it):
        self.x, self.it = x, it

    def subst_(self, ps):
        return SetOf(Q.subst(self.x, ps), self.it)

    def pyvc_contains(self, it, v):
        return it.contains(self.x, v)

    def outside(self, known):
        """Is there an element which is not one of these?"""
        known = list(known)
        return any_part(Q.parts(self.x), lambda v: ~SBool(C.boolterm(
            self.it.contains(known, v))))

    def __sub__(self, known):
        if not isinstance(known, (set, frozenset)):
            raise Unsupported("the difference of symbolic sets")
        return Without(self, known)

    def difference(self, known):
        return self - set(known)

    def issubset(self, known):
        return ~SBool(C.boolterm(self.outside(known)))

    def __le__(self, known):
        if not isinstance(known, (set, frozenset)):
            raise Unsupported("the order of symbolic sets")
        return self.issubset(known)

    def isdisjoint(self, known):
        it = self.it
        return ~SBool(C.boolterm(any_part(Q.parts(self.x), lambda v: SBool(
            C.boolterm(it.contains(list(known), v))))))

    def pyvc_len(self):
        """The number of distinct elements (only known to be between 0 and len)."""
        s = cur()
        n = Q.length(self.x)
        m = C.fresh_int("distinct", 0)
        s.assume(SBool(z3.And(m.t <= intterm(n), (m.t > 0) == (intterm(n) > 0))))
        s.abstract("the number of distinct elements")
        sv = uniform(self.x)
        if sv is None and isinstance(self.x, (list, tuple)):
            its = list(self.x)
            ds = [C.boolterm(self.it.compare("!=", a, b))
                  for i, a in enumerate(its) for b in its[:i]]
            s.assume(SBool((m.t == intterm(n)) == z3.And(ds or [z3.BoolVal(True)])))
            return m
        if sv is None:
            raise Unsupported("size of a set")
        i, j = z3.Int(s.name_for("q")), z3.Int(s.name_for("q"))
        d = Q.merge(lambda: self.it.compare("==", sv[1](SInt(i)), sv[1](SInt(j))))
        s.assume(SBool((m.t == intterm(n)) == z3.ForAll([i, j], z3.Implies(
            z3.And(i >= 0, i < j, j < intterm(n)), z3.Not(C.boolterm(d))))))
        return m


@shim(builtins.dict)
def _dict(it, a, kw):
    if a and isinstance(a[0], (SSeq, SDict)) or a and Q.has_marks(a[0]):
        if isinstance(a[0], SDict):
            x = a[0]
            d = SDict(x.has, x.get, x.n_, x.key, x.keys_, x.name)
            vars(d).update(vars(x))
            return d
        from .loops import dict_from_parts
        return dict_from_parts(Q.parts(a[0]))
    from .interp import PDict
    d = PDict()
    if a:
        if isinstance(a[0], dict):
            d.update(a[0])
        else:
            for k, v in it.iterate(a[0]):
                if sym(k):
                    raise Unsupported("a symbolic key in a dictionary")
                d[k] = v
    d.update(kw)
    return it.created(d)


def sorted_keys(x):
    """The keys of a dictionary in increasing order."""
    d, n, s = x.keys_of, x.n, cur()
    f, pos = C.fun_int("sorted", 1), C.fun_int("place", 1)
    i, j, k = (SInt(z3.Int(s.name_for("q"))) for _ in range(3))
    h = C.boolterm(Q.merge(lambda: d.has(k)))
    fi, fj, nn = f.z3(i.t), f.z3(j.t), C.intterm(n)
    s.assume(SBool(z3.ForAll([i.t, j.t], z3.Implies(
        z3.And(0 <= i.t, i.t < j.t, j.t < nn), fi < fj),
        patterns=[z3.MultiPattern(fi, fj)])))
    hi = z3.substitute(h, (k.t, fi))
    p = pos.z3(k.t)
    s.assume(SBool(z3.ForAll([i.t], z3.Implies(z3.And(0 <= i.t, i.t < nn), z3.And(
        hi, pos.z3(fi) == i.t)), patterns=[fi])))
    s.assume(SBool(z3.ForAll([k.t], z3.Implies(h, z3.And(
        p >= 0, p < nn, f.z3(p) == k.t)),
        patterns=[h if z3.is_app(h) and h.num_args() == 1 and
                  h.decl().kind() == z3.Z3_OP_UNINTERPRETED else p])))
    return SSeq(n, lambda i: f(i), "sorted keys")


@shim(builtins.sorted)
def _sorted(it, a, kw):
    x = a[0]
    its = None
    if isinstance(x, SDict):
        x = x.seq_keys()
    if getattr(x, "keys_of", None) is not None and not kw:
        return sorted_keys(x)
    if isinstance(x, (SSeq, SArr)) or Q.has_marks(x):
        raise Unsupported("sorting a symbolic sequence")
    its = list(it.iterate(x))
    if not sym(its):
        key = kw.get("key")
        if key is not None:
            keys = [it.call(key, [e], {}) for e in its]
            if sym(keys):
                raise Unsupported("sorting by a symbolic key")
            order = sorted(range(len(its)), key=lambda i: keys[i],
                           reverse=bool(kw.get("reverse")))
            return it.created([its[i] for i in order])
        return it.created(sorted(its, reverse=bool(kw.get("reverse"))))
    if kw:
        raise Unsupported("sorting symbolic values")
    # insertion with case distinction
    out = []
    for e in its:
        p = 0
        while p < len(out) and it.truth(it.compare("<=", out[p], e)):
            p += 1
        out.insert(p, e)
    return it.created(out)


def _anyall(kind):
    def f(it, a, kw):
        x = a[0]
        sv = None
        if isinstance(x, (SSeq, SArr, SDict)):
            sv = uniform(x)
        elif Q.has_marks(x):
            return any_parts(it, list(x), kind)
        if sv is not None:
            return Q.quant(kind, sv[0], lambda k: truthy(it, sv[1](k)))
        r = SBool(z3.BoolVal(kind == "all"))
        concrete = True
        for e in it.iterate(x):
            if isinstance(e, Sym):
                concrete = False
                t = C.asbool(e)
                r = C.land(r, t) if kind == "all" else C.lor(r, t)
            else:
                t = it.truth(e)
                if t == (kind == "any"):
                    return t if concrete else t
        return (kind == "all") if concrete else SBool(z3.simplify(r.t))
    return f


def truthy(it, v):
    if isinstance(v, Sym):
        return C.asbool(v)
    return it.truth(v)


def any_parts(it, ps, kind):
    r = SBool(z3.BoolVal(kind == "all"))
    for p in ps:
        if isinstance(p, Each):
            t = Q.quant(kind, p.n, lambda k, p=p: any_parts(it, p.fn(k), kind))
        elif isinstance(p, IfE):
            t = ite(p.cond, any_parts(it, p.a, kind), any_parts(it, p.b, kind))
        else:
            t = truthy(it, p)
        r = C.land(r, t) if kind == "all" else C.lor(r, t)
    return SBool(z3.simplify(r.t))


_T[builtins.any] = _anyall("any")
_T[builtins.all] = _anyall("all")


def sum_parts(it, ps):
    tot = 0
    for p in ps:
        if isinstance(p, Each):
            tot = tot + C.mksum(p.n, lambda k, p=p: sum_parts(it, p.fn(k)))
        elif isinstance(p, IfE):
            tot = tot + ite(p.cond, sum_parts(it, p.a), sum_parts(it, p.b))
        else:
            tot = it.binop("+", tot, p.asint() if isinstance(p, SBool) else p)
    return tot


@shim(builtins.sum)
def _sum(it, a, kw):
    start = a[1] if len(a) > 1 else kw.get("start", 0)
    x = a[0]
    if isinstance(x, (SSeq, SArr)) or Q.has_marks(x):
        if isinstance(x, SArr) and x.ndim > 1:
            raise Unsupported("sum of a matrix")
        if isinstance(start, (list, tuple)):
            raise Unsupported("sum of lists")
        return it.binop("+", start, sum_parts(it, Q.parts(x)))
    tot = start
    items = it.iterate(x)
    if Q.has_marks(items):
        return it.binop("+", start, sum_parts(it, items))
    for e in items:
        tot = it.binop("+", tot, e)
    return tot


def _minmax(kind):
    def f(it, a, kw):
        x = a[0] if len(a) == 1 else list(a)
        if kw.get("key") is not None and sym(x):
            raise Unsupported("min/max by key")
        if isinstance(x, (SSeq, SArr, SDict)) or Q.has_marks(x):
            sv = uniform(x)
            if sv is None:
                return minmax_parts(it, list(x), kind, kw)
            n, at = sv
            if not isinstance(simp(n), int):
                return extreme(it, n, at, kind, kw)
            x = [at(i) for i in range(simp(n))]
        if not sym(x) and not sym(list(kw.values())):
            return NI
        its = list(it.iterate(x))
        if not its:
            if "default" in kw:
                return kw["default"]
            raise_(ValueError, f"{kind}() arg is an empty sequence")
        r = its[0]
        for e in its[1:]:
            c = it.compare("<" if kind == "min" else ">", e, r)
            r = ite(c, e, r) if isinstance(c, SBool) else (e if c else r)
        return r
    return f


def extreme(it, n, at, kind, kw):
    """The least or greatest element of a symbolic sequence."""
    s = cur()
    if not bool(SBool(intterm(n) > 0)):
        if "default" in kw:
            return kw["default"]
        raise_(ValueError, f"{kind}() arg is an empty sequence")
    w = C.fresh_int("argext", 0, n)
    v = at(w)
    q = SInt(z3.Int(s.name_for("q")))
    u = Q.merge(lambda: at(q))
    op = "<=" if kind == "max" else ">="
    s.assume(SBool(z3.ForAll([q.t], z3.Implies(
        z3.And(q.t >= 0, q.t < intterm(n)), C.boolterm(it.compare(op, u, v))))))
    # the same sequence has the same extreme: usable at any position
    facts = getattr(s, "extremes", None)
    if facts is None:
        facts = s.extremes = []
    facts.append((n, at, v, kind))
    return v


def minmax_parts(it, ps, kind, kw):
    s = cur()
    best = None
    for p in ps:
        if isinstance(p, Each):
            k = C.fresh_int("k", 0)
            one = p.fn(k)
            if len(one) != 1 or isinstance(one[0], (Each, IfE)):
                raise Unsupported("min/max of nested repetitions")
            if not bool(SBool(intterm(p.n) > 0)):
                continue
            v = extreme(it, p.n, lambda i, p=p: p.fn(i)[0], kind, {})
        elif isinstance(p, IfE):
            if bool(SBool(C.boolterm(p.cond))):
                sub = p.a
            else:
                sub = p.b
            if not sub:
                continue
            v = minmax_parts(it, sub, kind, {})
        else:
            v = p
        best = v if best is None else ite(
            it.compare("<" if kind == "min" else ">", v, best), v, best)
    if best is None:
        if "default" in kw:
            return kw["default"]
        raise_(ValueError, f"{kind}() arg is an empty sequence")
    return best


_T[builtins.min] = _minmax("min")
_T[builtins.max] = _minmax("max")


@shim(builtins.iter)
def _iter(it, a, kw):
    if sym(a[0]) and not isinstance(a[0], (list, tuple)):
        return a[0]
    from .interp import GenList
    return GenList(it.iterate(a[0]))


def some_parts(ps):
    """Are there items?"""
    r = SBool(C.z3.BoolVal(False))
    for p in ps:
        if isinstance(p, IfE):
            r = C.lor(r, C.ite(SBool(C.boolterm(p.cond)), some_parts(p.a),
                               some_parts(p.b)))
        elif isinstance(p, Each):
            r = C.lor(r, Q.quant("any", p.n, lambda k, p=p: some_parts(p.fn(k))))
        else:
            return SBool(C.z3.BoolVal(True))
    return r


def any_part(ps, pred):
    """Is there an item with this property?"""
    r = SBool(C.z3.BoolVal(False))
    for p in ps:
        if isinstance(p, IfE):
            r = C.lor(r, C.ite(SBool(C.boolterm(p.cond)), any_part(p.a, pred),
                               any_part(p.b, pred)))
        elif isinstance(p, Each):
            r = C.lor(r, Q.quant("any", p.n, lambda k, p=p: any_part(p.fn(k), pred)))
        else:
            r = C.lor(r, pred(p))
    return r


def end_part(ps, last=False):
    """The first (last) item of a list of parts; StopIteration if there is none."""
    for p in (reversed(ps) if last else ps):
        if not isinstance(p, (Each, IfE)):
            return p
        if not bool(some_parts([p])):
            continue
        if isinstance(p, IfE):
            return end_part(p.a if bool(SBool(C.boolterm(p.cond))) else p.b, last)
        j = C.fresh_int("first", 0, p.n)
        cur().assume(some_parts(p.fn(j)))
        if last:
            cur().assume(Q.quant("all", p.n - 1 - j, lambda k: C.lnot(some_parts(
                p.fn(j + 1 + k)))))
        else:
            cur().assume(Q.quant("all", j, lambda k: C.lnot(some_parts(p.fn(k)))))
        return end_part(p.fn(j), last)
    raise StopIteration


def first_of(x, *default):
    """The first item of an iterator which may have none."""
    def rest():
        x[:] = [Each(C.fresh_int("left", 1), gone)]

    def gone(k):
        raise Unsupported("a symbolic iterator used again")
    try:
        v = end_part(list(x))
    except StopIteration as e:
        if default:
            return default[0]
        raise PyRaise(e)
    rest()
    return v


@shim(builtins.next)
def _next(it, a, kw):
    from .interp import GenList
    x = a[0]
    if hasattr(x, "pyvc_next"):
        return x.pyvc_next(it)
    if isinstance(x, GenList) and x and isinstance(x[0], (Each, IfE)):
        return first_of(x, *a[1:])
    try:
        return next(*a)
    except StopIteration as e:
        raise PyRaise(e)


@shim(typing.cast)
def _cast(it, a, kw):
    return a[1]


@shim(functools.reduce)
def _reduce(it, a, kw):
    f, x = a[0], a[1]
    v = view_or_list(it, x)
    if v[0] == "l":
        its = v[1]
        acc = a[2] if len(a) > 2 else None
        if len(a) < 3:
            if not its:
                raise_(TypeError, "reduce() of empty iterable with no initial value")
            acc, its = its[0], its[1:]
        for e in its:
            acc = it.call(f, [acc, e], {})
        return acc
    if len(a) < 3:
        raise Unsupported("reduce over a symbolic length without an initial value")
    n, at = v[1], v[2]
    # acc + c(k): the accumulator is only added to
    s = cur()
    acc = SInt(z3.Int(s.name_for("acc")))
    probe = SInt(z3.Int(s.name_for("rk")))
    since = s.counter

    def contribution(k):
        def body():
            s.assume(SBool(z3.And(intterm(k) >= 0, intterm(k) < intterm(n))))
            r = it.call(f, [acc, at(k)], {})
            t = z3.simplify(intterm(r) - acc.t, som=True)
            return SInt(t)
        c = Q.merge(body)
        t = z3.simplify(c.t)
        from .loops import const_names
        if acc.t.decl().name() in const_names(t):
            raise Unsupported("a fold that is not a sum")
        return SInt(t)
    contribution(probe)
    return a[2] + C.mksum(n, contribution)


@shim(itertools.chain)
def _chain(it, a, kw):
    out = []
    for x in a:
        out.extend(Q.parts(x) if sym(x) else list(it.iterate(x)))
    return out


@shim(itertools.chain.from_iterable)
def _chainfi(it, a, kw):
    out = []
    for x in it.iterate(a[0]):
        if isinstance(x, Each):
            out.append(Each(x.n, lambda k, x=x: [q for y in x.fn(k)
                                                 for q in Q.parts(y)]))
        elif isinstance(x, IfE):
            raise Unsupported("chain over conditional parts")
        else:
            out.extend(Q.parts(x) if sym(x) else list(it.iterate(x)))
    return out


@shim(itertools.product)
def _product(it, a, kw):
    if not sym(list(a)):
        return NI
    its = [items_of(it, x) for x in a]
    if any(x is None for x in its):
        raise Unsupported("product over a symbolic length")
    return [tuple(t) for t in itertools.product(*its, **kw)]


@shim(itertools.islice)
def _islice(it, a, kw):
    x = a[0]
    if hasattr(x, "pyvc_islice"):
        return x.pyvc_islice(it, *a[1:])
    if sym(x) or sym(list(a[1:])):
        raise Unsupported("islice")
    return NI


@shim(builtins.divmod)
def _divmod(it, a, kw):
    if sym(list(a)):
        return (it.binop("//", a[0], a[1]), it.binop("%", a[0], a[1]))
    return NI


@shim(builtins.round)
def _round(it, a, kw):
    if sym(list(a)):
        raise Unsupported("round")
    return NI


@shim(builtins.print)
def _print(it, a, kw):
    return None


@shim(copy.copy, copy.deepcopy)
def _copy(it, a, kw):
    x = a[0]
    if isinstance(x, SArr):
        return x.copy()
    if isinstance(x, list):
        return it.created([_copy(it, [e], {}) for e in x] if sym(x) else list(x))
    if sym(x):
        return x
    return NI


@shim(math.log, np.log)
def _log(it, a, kw):
    x = a[0]
    if isinstance(x, SReal):
        return SReal(LOG(x.t))
    if isinstance(x, SArr):
        rd = x.reader()
        return SArr.of(lambda *i: SReal(LOG(C.realterm(rd(*i)))), x.shape, "f")
    return NI


LOG = z3.Function("log", z3.RealSort(), z3.RealSort())


# ------------------------------------------------------------------ strings
# str.join / str methods on symbolic arguments reach the interpreter as bound natives


def str_join(sep, x, it):
    ps = Q.parts(x) if sym(x) else list(it.iterate(x))
    if sep == "" and any(isinstance(p, (Each, IfE)) for p in ps):
        r = T.joined(it, ps)
        if r is not None:
            return r
    if any(isinstance(p, (Each, IfE)) for p in ps):
        return Q.Joined(sep, ps)
    out = []
    for i, p in enumerate(ps):
        if i:
            out.append(sep)
        out.append(p)
    if all(isinstance(p, str) for p in out):
        return "".join(out)
    return FStr(out)


# ------------------------------------------------------------------ numpy
def shape_of(x):
    if isinstance(x, (tuple, list)):
        return tuple(simp(d) for d in x)
    return (simp(x),)


def dt_arg(a, kw, pos, default):
    d = a[pos] if len(a) > pos else kw.get("dtype", None)
    return default if d is None else C.dtname(d)


def _filled(value):
    def f(it, a, kw):
        sh = shape_of(a[0] if a else kw["shape"])
        dt = dt_arg(a, kw, 1, "f")
        if dt == "O" and value == 0:
            check_shape(sh)
            return Q.ObjGrid(sh)
        v = C.cast(value, dt)
        check_shape(sh)
        return SArr.of(lambda *i: v, sh, dt)
    return f


def check_shape(sh):
    for d in sh:
        if isinstance(d, int):
            if d < 0:
                raise_(ValueError, "negative dimensions are not allowed")
        elif not cur().entails(SBool(intterm(d) >= 0)):
            if bool(SBool(intterm(d) < 0)):
                raise_(ValueError, "negative dimensions are not allowed")


_T[np.zeros] = _filled(0)
_T[np.ones] = _filled(1)


@shim(np.full)
def _full(it, a, kw):
    sh = shape_of(a[0])
    v = a[1]
    dt = dt_arg(a, kw, 2, scalar_dt(v))
    v = C.cast(v, dt)
    return SArr.of(lambda *i: v, sh, dt)


@shim(np.empty)
def _empty(it, a, kw):
    sh = shape_of(a[0] if a else kw["shape"])
    dt = dt_arg(a, kw, 1, "f")
    if dt == "O":
        return SArr.of(lambda *i: C._bad("uninitialised element"), sh, "O")
    return SArr.of(lambda *i: C._bad("uninitialised element"), sh, dt)


def _like(value):
    def f(it, a, kw):
        x = as_arr(a[0])
        dt = dt_arg(a, kw, 1, x.dt)
        v = C.cast(value, dt)
        return SArr.of(lambda *i: v, x.shape, dt)
    return f


_T[np.zeros_like] = _like(0)
_T[np.ones_like] = _like(1)


@shim(np.full_like)
def _full_like(it, a, kw):
    x = as_arr(a[0])
    dt = dt_arg(a, kw, 2, x.dt)
    v = C.cast(a[1], dt)
    return SArr.of(lambda *i: v, x.shape, dt)


@shim(np.eye, np.identity)
def _eye(it, a, kw):
    n = simp(a[0])
    m = simp(a[1]) if len(a) > 1 and a[1] is not None else n
    dt = C.dtname(kw["dtype"]) if kw.get("dtype") is not None else "f"
    k = kw.get("k", 0)

    def get(i, j):
        c = SBool(eq(simp(i + k), j))
        return C.cast(SInt(b=c.t), dt)
    return SArr.of(get, (n, m), dt)


@shim(np.asarray)
def _asarray(it, a, kw):
    return _array(it, a, kw, view=True)


@shim(np.array)
def _array(it, a, kw, view=False):
    x = a[0]
    dt = dt_arg(a, kw, 1, None)
    if not sym(x) and not isinstance(x, SArr):
        return NI
    if set(kw) - {"dtype"} or len(a) > 2:
        raise Unsupported("an array made with options")
    if isinstance(x, SArr):
        r = x if view and (dt is None or dt == x.dt) else x.copy()
    elif isinstance(x, IdxSet):
        return x
    elif isinstance(x, SSeq) or Q.has_marks(x):
        r = seq_array(it, x, dt)
    elif isinstance(x, Sym):
        r = as_arr(x)
    else:
        r = stack([e for e in x], dt)
    return r if dt is None or r.dt == dt else r.astype(r_np(dt))


def r_np(dt):
    from .arr import NPDT
    return NPDT[dt]


def seq_array(it, x, dt):
    sv = uniform(x)
    if sv is None:
        return parts_array(it, Q.parts(x), dt)
    n, at = sv
    k = C.fresh_int("k", 0, n) if cur().entails(SBool(intterm(n) > 0)) else \
        C.fresh_int("k", 0)
    e = at(k)
    if isinstance(e, (SArr, np.ndarray, list, tuple, SSeq)):
        e = as_arr(e)

        def get(i, *idx):
            v = as_arr(at(i)).at(*idx)
            return C.cast(v, dt) if dt else v
        return SArr.of(get, (n,) + e.shape, dt or e.dt)
    d = dt or scalar_dt(e)
    return SArr.of(lambda i: C.cast(at(i), d), (n,), d)


def parts_array(it, ps, dt):
    """An array from single items and uniform repetitions in a row."""
    blocks = []
    for p in ps:
        if isinstance(p, Each):
            if uniform([p]) is None:
                raise Unsupported("array of a ragged repetition")
            blocks.append(seq_array(it, [p], dt))
        elif isinstance(p, IfE):
            raise Unsupported("array of conditional items")
        else:
            blocks.append(stack([p], dt))
    return concat(blocks, 0)


@shim(np.copy)
def _npcopy(it, a, kw):
    if isinstance(a[0], SArr):
        return a[0].copy()
    return NI


@shim(np.arange)
def _arange(it, a, kw):
    a = [simp(x) for x in a]
    if not sym(a):
        return NI
    start, stop = (0, a[0]) if len(a) == 1 else a[:2]
    r = Q.SRange(start, stop)
    return SArr.of(lambda i: SInt(intterm(r.at(i)), dt="i8"), (r.n,), "i8")


@shim(np.atleast_1d)
def _atl1(it, a, kw):
    x = a[0]
    if isinstance(x, SArr):
        return x if x.ndim else reshape(x, (1,))
    if isinstance(x, (Sym, SElem)):
        return stack([x])
    if sym(x):
        return _array(it, [x], {})
    return NI


def arrays_of(it, x):
    if isinstance(x, SArr):
        return [x[i] for i in range(len(x))]
    its = list(it.iterate(x))
    if any(isinstance(p, (Each, IfE)) for p in its):
        raise Unsupported("concatenation of a symbolic number of arrays")
    return [to_arr(it, p) for p in its]


def to_arr(it, p):
    if isinstance(p, (SSeq,)) or Q.has_marks(p):
        return seq_array(it, p, None)
    return as_arr(p)


@shim(np.concatenate)
def _concat(it, a, kw):
    if not sym(a[0]):
        return NI
    axis = a[1] if len(a) > 1 else kw.get("axis", 0)
    dt = C.dtname(kw["dtype"]) if kw.get("dtype") is not None else None
    return concat(arrays_of(it, a[0]), axis, dt)


@shim(np.hstack)
def _hstack(it, a, kw):
    if not sym(a[0]):
        return NI
    xs = arrays_of(it, a[0])
    xs = [reshape(x, (1,)) if x.ndim == 0 else x for x in xs]
    dt = C.dtname(kw["dtype"]) if kw.get("dtype") is not None else None
    return concat(xs, 0 if xs[0].ndim == 1 else 1, dt)


@shim(np.vstack)
def _vstack(it, a, kw):
    if not sym(a[0]):
        return NI
    xs = [x if x.ndim > 1 else x[None, :] for x in arrays_of(it, a[0])]
    dt = C.dtname(kw["dtype"]) if kw.get("dtype") is not None else None
    return concat(xs, 0, dt)


@shim(np.stack)
def _npstack(it, a, kw):
    if not sym(a[0]):
        return NI
    if kw.get("axis", 0) != 0:
        raise Unsupported("np.stack along another axis")
    return stack(arrays_of(it, a[0]))


@shim(np.block)
def _block(it, a, kw):
    if not sym(a[0]):
        return NI
    rows = []
    for r in it.iterate(a[0]):
        rows.append(concat(arrays_of(it, r), 1) if isinstance(r, list) else r)
    return concat(rows, 0)


@shim(np.insert)
def _insert(it, a, kw):
    arr, obj, val = as_arr(a[0]), a[1], a[2]
    axis = a[3] if len(a) > 3 else kw.get("axis")
    if axis is None:
        if arr.ndim != 1:
            raise Unsupported("np.insert without an axis")
        axis = 0
    if isinstance(val, (SArr, np.ndarray, list)):
        raise Unsupported("np.insert of an array")
    v = C.cast(val, arr.dt)
    for group in reversed(insertion_groups(it, obj)):
        if isinstance(group, list):
            arr = insert_runs(arr, group, axis, v)
        else:
            arr = insert_sorted(arr, group, axis, v)
    return arr


def insert_runs(arr, runs, axis, v):
    n = arr.shape[axis]
    blocks, pos = [], 0
    for p, cnt in runs:
        if not cur().entails(SBool(intterm(p) >= 0)):
            raise Unsupported("np.insert at positions not known to be nonnegative")
        if not bool(SBool(intterm(p) <= intterm(n))):
            raise_(IndexError, "index out of bounds for np.insert")
        if not cur().entails(SBool(intterm(pos) <= intterm(p))):
            raise Unsupported("np.insert at positions not known to be sorted")
        blocks.append(cut(arr, axis, pos, p))
        sh = list(arr.shape)
        sh[axis] = cnt
        blocks.append(SArr.of(lambda *i: v, sh, arr.dt))
        pos = p
    blocks.append(cut(arr, axis, pos, n))
    return concat([b for b in blocks if not zero_len(b, axis)], axis, arr.dt)


def insert_sorted(arr, obj, axis, v):
    """np.insert at any number of sorted positions: rank(j) of the inserted entries come
    before entry j of the result."""
    s = cur()
    n, m, at = arr.shape[axis], intterm(obj.shape[0]), obj.reader()
    k = C.fresh_int("k", 0, obj.shape[0])
    here = lambda e: z3.And(intterm(e) >= 0, intterm(e) <= intterm(n))  # noqa: E731
    if not s.entails(here(at(k))):
        raise Unsupported("np.insert at positions not known to be in range")
    if not s.entails(z3.Implies(k.t + 1 < m,
                                intterm(at(k)) <= intterm(at(simp(k + 1))))):
        raise Unsupported("np.insert at positions not known to be sorted")
    P = lambda e: intterm(at(SInt(e))) + e  # noqa: E731  (place in the result)
    rank = z3.Function(s.name_for("rank"), z3.IntSort(), z3.IntSort())
    i, j = z3.Ints("i! j!")
    r = rank(j)
    s.assume(z3.ForAll([j], z3.And(
        r >= 0, r <= m, z3.Implies(r < m, P(r) >= j),
        z3.Implies(r > 0, P(r - 1) < j)), patterns=[r]))
    pat = reads_at(P(i), i)
    if pat is not None:
        s.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < m), z3.And(
            (P(i) < j) == (i < r))), patterns=[z3.MultiPattern(r, pat)]))
    old = arr.reader()
    shape = list(arr.shape)
    shape[axis] = simp(n + obj.shape[0])

    def get(*idx):
        jt = intterm(idx[axis])
        q = rank(jt)
        new = list(idx)
        new[axis] = simp(SInt(jt - q))
        return C.ite(SBool(z3.And(q < m, P(q) == jt)), v, old(*new))
    return SArr.of(get, tuple(shape), arr.dt)


def reads_at(t, i):
    """An uninterpreted function applied to i in this term."""
    if z3.is_app(t):
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() == 1 and \
                t.arg(0).eq(i):
            return t
        for x in t.children():
            r = reads_at(x, i)
            if r is not None:
                return r
    return None


def zero_len(b, axis):
    return isinstance(b.shape[axis], int) and b.shape[axis] == 0


def cut(arr, axis, lo, hi):
    key = [slice(None)] * arr.ndim
    key[axis] = slice(lo, hi)
    return arr[tuple(key)]


def insertion_groups(it, obj):
    """In order: lists of (position, count), or arrays of symbolic length."""
    if isinstance(obj, (int, SInt)):
        return [[(simp(obj), 1)]]
    if isinstance(obj, SArr):
        blocks = getattr(obj, "blocks", None)
        if blocks is not None:
            out = []
            for b in blocks:
                for g in insertion_groups(it, b):
                    if out and isinstance(g, list) and isinstance(out[-1], list):
                        out[-1] += g
                    else:
                        out.append(g)
            for x, y in zip(out, out[1:]):
                ordered(x, y)
            return out
        n = obj.shape[0]
        if isinstance(n, int):
            return [[(obj.at(i), 1) for i in range(n)]]
        c = constant_value(obj)
        if c is not None:
            return [[(c, n)]]
        return [obj]
    if isinstance(obj, (list, tuple, np.ndarray)) and not Q.has_marks(obj):
        return [[(simp(p), 1) for p in obj]]
    if Q.has_marks(obj) or isinstance(obj, SSeq):
        return insertion_groups(it, seq_array(it, obj, None))
    raise Unsupported("np.insert positions")


def ordered(x, y):
    """The positions in y come after those in x."""
    def some(g, last):
        if isinstance(g, list):
            return g[-1 if last else 0][0]
        return g.at(C.fresh_int("g", 0, g.shape[0]))
    if not cur().entails(intterm(some(x, True)) <= intterm(some(y, False))):
        raise Unsupported("np.insert at positions not known to be sorted")


def constant_value(a):
    k = C.fresh_int("cv", 0)
    v = a.at(k)
    from .loops import const_names
    if isinstance(v, SInt) and k.t.decl().name() in const_names(v.t):
        return None
    return v


def _concat_keep(f):
    """Remember the blocks of a one-dimensional concatenation (for np.insert)."""
    def g(it, a, kw):
        r = f(it, a, kw)
        if isinstance(r, SArr) and r.ndim == 1:
            r.blocks = arrays_of(it, a[0])
        return r
    return g


_T[np.concatenate] = _concat_keep(_concat)


@shim(np.delete)
def _delete(it, a, kw):
    x, obj = a[0], a[1]
    axis = a[2] if len(a) > 2 else kw.get("axis")
    if isinstance(x, IdxSet):
        if isinstance(obj, Q.IdxPos):
            return x.without(obj.elem)
        raise Unsupported("np.delete on an index array")
    if not sym(x) and not sym(obj):
        return NI
    x = as_arr(x)
    if axis is None:
        if x.ndim != 1:
            raise Unsupported("np.delete without an axis")
        axis = 0
    pos = list(obj) if isinstance(obj, (list, tuple, np.ndarray)) else [obj]
    n = x.shape[axis]
    norm = [x._norm(p, n) for p in pos]
    # sorted by cases, duplicates removed
    order = []
    for p in norm:
        i = 0
        dup = False
        while i < len(order):
            if it.truth(it.compare("==", order[i], p)):
                dup = True
                break
            if it.truth(it.compare("<", order[i], p)):
                i += 1
            else:
                break
        if not dup:
            order.insert(i, p)
    blocks, lo = [], 0
    for p in order:
        blocks.append(cut(x, axis, lo, p))
        lo = simp(p + 1)
    blocks.append(cut(x, axis, lo, n))
    keep = [b for b in blocks if not zero_len(b, axis)]
    return concat(keep or blocks[:1], axis, x.dt)


@shim(np.nonzero)
def _nonzero(it, a, kw):
    x = a[0]
    if not isinstance(x, SArr):
        return NI
    if x.ndim != 1:
        raise Unsupported("nonzero of a matrix")
    rd = x.reader()
    return (IdxSet(x.shape[0], lambda i: C.asbool(as_num(rd(i)))),)


def as_num(v):
    return v.value() if isinstance(v, SSum) else v


@shim(np.where)
def _where(it, a, kw):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, Q.IdxMask):
            if x.eq_elem is not None:
                # the position of an element that is there
                if not bool(x.s.pred(x.eq_elem)):
                    raise Unsupported("where: the element is not there")
                return (WhereOne(Q.IdxPos(x.s, x.eq_elem)),)
            raise Unsupported("where on an index array")
        if isinstance(x, SArr):
            return _nonzero(it, a, kw)
        return NI
    if not sym(list(a)):
        return NI
    c, x, y = (as_arr(v) for v in a)
    from .arr import broadcast, reader_for, promote
    sh = broadcast([c.shape, x.shape, y.shape])
    rc, rx, ry = (reader_for(v.reader(), v.shape, sh) for v in (c, x, y))
    dt = promote([x.dt, y.dt])
    return SArr.of(lambda *i: C.cast(ite(C.asbool(rc(*i)), rx(*i), ry(*i)), dt), sh, dt)


class WhereOne:
    """An index array with exactly one element."""

    def __init__(self, p):
        self.p = p

    def __getitem__(self, i):
        if i in (0, -1):
            return self.p
        raise_(IndexError, "index out of bounds")

    @property
    def size(self):
        return 1


@shim(np.sum)
def _npsum(it, a, kw):
    if not sym(a[0]):
        return NI
    return asum(to_arr(it, a[0]), kw.get("axis", a[1] if len(a) > 1 else None))


@shim(np.any)
def _npany(it, a, kw):
    if not sym(a[0]):
        return NI
    return aquant(to_arr(it, a[0]), "any", kw.get("axis"))


@shim(np.all)
def _npall(it, a, kw):
    if not sym(a[0]):
        return NI
    return aquant(to_arr(it, a[0]), "all", kw.get("axis"))


@shim(np.array_equal)
def _aeq(it, a, kw):
    if not sym(list(a)):
        return NI
    x, y = to_arr(it, a[0]), to_arr(it, a[1])
    if x.ndim != y.ndim:
        return False
    for m, n in zip(x.shape, y.shape):
        if not known_eq(m, n) and not bool(SBool(eq(m, n))):
            return False
    return aquant(ew("==", x, y), "all")


@shim(np.count_nonzero)
def _count_nonzero(it, a, kw):
    if not sym(a[0]):
        return NI
    x = to_arr(it, a[0])
    axis = a[1] if len(a) > 1 else kw.get("axis")
    rd = x.reader()
    b = SArr.of(lambda *i: C.asbool(rd(*i)).asint() if isinstance(C.asbool(rd(*i)), SBool)
                else int(C.asbool(rd(*i))), x.shape, "i8")
    return asum(b, axis)


@shim(np.isnan)
def _isnan(it, a, kw):
    x = a[0]
    if isinstance(x, (SReal, SInt)):
        return False                # reals are numbers (assumption: see DESIGN)
    if isinstance(x, SArr):
        return SArr.of(lambda *i: SBool(z3.BoolVal(False)), x.shape, "b")
    return NI


@shim(np.isinf)
def _isinf(it, a, kw):
    x = a[0]
    if isinstance(x, (SReal, SInt)):
        return False
    if isinstance(x, SArr):
        return SArr.of(lambda *i: SBool(z3.BoolVal(False)), x.shape, "b")
    return NI


@shim(np.sort)
def _npsort(it, a, kw):
    x = a[0]
    if not sym(x):
        return NI
    x = to_arr(it, x)
    n = x.shape[0]
    if isinstance(n, int):
        return stack(_sorted(it, [[x.at(i) for i in range(n)]], {}))
    # nondecreasing already?
    s = cur()
    i = C.fresh_int("i", 0, n)
    if s.entails(C.implies(i + 1 < n, x.at(i) <= x.at(simp(i + 1)))):
        return x.copy()
    perm, rd = argsorted(x).reader(), x.reader()
    return SArr.of(lambda i: rd(perm(i)), x.shape, x.dt)


def argsorted(x):
    """Some permutation which sorts: perm with its inverse."""
    s, rd, n = cur(), x.reader(), intterm(x.shape[0])
    perm = z3.Function(s.name_for("argsort"), z3.IntSort(), z3.IntSort())
    inv = z3.Function(s.name_for("place"), z3.IntSort(), z3.IntSort())
    i, j = z3.Ints("i! j!")
    inr = lambda k: z3.And(k >= 0, k < n)  # noqa: E731
    s.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(
        inr(perm(i)), inv(perm(i)) == i)), patterns=[perm(i)]))
    s.assume(z3.ForAll([i], z3.Implies(inr(i), z3.And(
        inr(inv(i)), perm(inv(i)) == i)), patterns=[inv(i)]))
    le = C.boolterm(rd(SInt(perm(i))) <= rd(SInt(perm(j))))
    s.assume(z3.ForAll([i, j], z3.Implies(z3.And(inr(i), inr(j), i <= j), le),
                       patterns=[z3.MultiPattern(perm(i), perm(j))]))
    return SArr.of(lambda k: SInt(perm(intterm(k))), (x.shape[0],), "i8")


@shim(np.argsort)
def _argsort(it, a, kw):
    x = a[0]
    if not sym(x):
        return NI
    x = to_arr(it, x)
    n = x.shape[0]
    if not isinstance(n, int):
        return argsorted(x)
    out = []
    for j in range(n):
        p = 0
        while p < len(out) and it.truth(it.compare("<=", x.at(out[p]), x.at(j))):
            p += 1
        out.insert(p, j)
    return out


@shim(np.repeat)
def _repeat(it, a, kw):
    if not sym(list(a)):
        return NI
    x = as_arr(a[0])
    if x.ndim == 0:
        v = x.item()
        return SArr.of(lambda i: v, (simp(a[1]),), x.dt)
    raise Unsupported("np.repeat")


@shim(np.append)
def _append(it, a, kw):
    if not sym(list(a)):
        return NI
    xs = [as_arr(v) for v in a[:2]]
    xs = [reshape(x, (1,)) if x.ndim == 0 else x for x in xs]
    return concat(xs, 0)


@shim(np.max, np.min)
def _npmax(it, a, kw):
    if sym(a[0]):
        raise Unsupported("max of a symbolic array")
    return NI


@shim(np.reshape)
def _npreshape(it, a, kw):
    if sym(list(a)):
        return reshape(to_arr(it, a[0]), a[1])
    return NI


@shim(np.squeeze)
def _npsq(it, a, kw):
    if isinstance(a[0], SArr):
        return a[0].squeeze()
    return NI


@shim(np.isclose)
def _isclose(it, a, kw):
    if sym(list(a)):
        raise Unsupported("isclose")
    return NI


@shim(np.shape)
def _npshape(it, a, kw):
    if isinstance(a[0], SArr):
        return a[0].shape
    return NI


@shim(np.uint8, np.int64, np.intp)
def _npint(it, a, kw):
    if a and sym(a[0]):
        return C.cast(a[0], "i8")
    return NI


@shim(operator.xor)
def _xor(it, a, kw):
    return it.binop("^", a[0], a[1])


@shim(operator.add)
def _add(it, a, kw):
    return it.binop("+", a[0], a[1])


@shim(np.logical_xor, np.bitwise_xor)
def _npxor(it, a, kw):
    if sym(list(a)):
        return it.binop("^", a[0], a[1])
    return NI
