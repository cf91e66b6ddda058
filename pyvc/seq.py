"""Sequences, mappings and records of symbolic size."""
from __future__ import annotations

import re

import numpy as np
import z3

from . import core as C
from .arr import SArr, simp, slice_bounds
from .core import (SBool, SComplex, SInt, SReal, SSum, Sym, Unsupported, cur, eq,
                   intterm, ite, raise_)


# ------------------------------------------------------------------ merging
def merge(f, what="value", facts=None):
    """Run a side-effect free f on all its local paths and join the results.

    `facts` collects what was assumed (not decided) on the way."""
    s = cur()
    if s.rec:
        mark = [r.mark() for r in s.rec]
    res = s.explore(f)
    if s.rec and mark != [r.mark() for r in s.rec]:
        raise Unsupported("a side effect in a merged computation")
    vals = []
    for pc, kind, v in res:
        if facts is not None:
            dec = [t for t in pc if t.get_id() not in s.assumed
                   or t.get_id() in s.decided]
            ass = [t for t in pc if t.get_id() in s.assumed
                   and t.get_id() not in s.decided]
            if ass:
                facts.append(z3.Implies(z3.And(dec) if dec else z3.BoolVal(True),
                                        z3.And(ass)))
            pc = dec
        cond = z3.And(pc) if pc else z3.BoolVal(True)
        if kind == "value":
            vals.append((cond, v))
        elif kind == "raise":
            if s.decide(cond):
                raise v
        elif kind == "signal":
            raise Unsupported("control flow out of a merged computation")
    if not vals:
        raise C.PathEnd()
    out = vals[-1][1]
    for cond, v in reversed(vals[:-1]):
        out = join(SBool(cond), v, out)
    return out


def one_item(ps):
    """Certainly a single item?"""
    if len(ps) != 1 or isinstance(ps[0], Each):
        return False
    p = ps[0]
    return not isinstance(p, IfE) or one_item(parts(p.a)) and one_item(parts(p.b))


def the_item(ps):
    p = ps[0]
    if not isinstance(p, IfE):
        return p
    c = SBool(C.boolterm(p.cond))
    s = cur()
    if s.entails(c):
        return the_item(parts(p.a))
    if s.entails(C.lnot(c)):
        return the_item(parts(p.b))
    a, b = the_item(parts(p.a)), the_item(parts(p.b))
    try:
        return ite(c, a, b)
    except Unsupported:
        return a if bool(c) else b


def join(c, a, b):
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    if isinstance(a, (list, Each, IfE)) or isinstance(b, (list, Each, IfE)):
        return [IfE(c, parts(a), parts(b))]
    return ite(c, a, b)


def fresh_consts(t, since):
    """Names of constants made after the counter value `since`."""
    out, seen, todo = set(), set(), [t]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            todo.append(e.body())
            continue
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            m = re.search(r"!(\d+)$", e.decl().name())
            if m and int(m.group(1)) > since:
                out.add(e.decl().name())
        todo.extend(e.children())
    return out


def quant(kind, n, f):
    """any/all of f(0..n-1)."""
    n = simp(n)
    if isinstance(n, int):
        r = SBool(z3.BoolVal(kind == "all"))
        for k in range(n):
            v = C.asbool(f(k))
            r = C.land(r, v) if kind == "all" else C.lor(r, v)
        return SBool(z3.simplify(r.t))
    s = cur()
    k = C.fresh_int("q")
    since = s.counter

    def body():
        s.assume(k >= 0)
        s.assume(k < n)
        return C.asbool(f(k))
    facts = []
    v = merge(body, facts=facts)
    t = C.boolterm(v)
    bad = fresh_consts(t, since)
    if bad:
        raise Unsupported(f"a quantified body with its own unknowns {sorted(bad)[:3]}")
    rng = z3.And(k.t >= 0, k.t < intterm(n))
    facts = [z3.simplify(f) for f in facts if not fresh_consts(f, since)]
    if facts:
        s.assume(SBool(z3.ForAll([k.t], z3.Implies(rng, z3.And(*facts)))))
    t = z3.simplify(t)
    if kind == "any":
        return SBool(z3.Exists([k.t], z3.And(rng, t)))
    return SBool(z3.ForAll([k.t], z3.Implies(rng, t)))


# ---------------------------------------------------------------- emissions
class Each:
    """fn(0), ..., fn(n-1): each a list of parts."""

    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def __repr__(self):
        return f"Each({self.n})"


class IfE:
    def __init__(self, cond, a, b):
        self.cond, self.a, self.b = cond, a, b

    def __repr__(self):
        return f"IfE({self.a}, {self.b})"


class SSeq:
    """A sequence with n elements, the k-th being at(k)."""

    __hash__ = None

    def __init__(self, n, at, kind="list"):
        self.n, self.at, self.kind = n, at, kind

    def elem_dt(self):
        k = C.fresh_int("e", 0)
        from .arr import scalar_dt
        return scalar_dt(self.at(k))

    def slice(self, s):
        st, ln, sp = slice_bounds(s, self.n)
        at = self.at
        return SSeq(ln, lambda k: at(simp(st + k * sp)), self.kind)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.slice(i)
        i = norm_index(i, self.n)
        return self.at(i)

    def __repr__(self):
        return f"SSeq(n={self.n})"


def norm_index(i, n):
    return SArr._norm(None, i, n)


def has_marks(x):
    return isinstance(x, (list, tuple)) and any(isinstance(e, (Each, IfE)) for e in x)


def parts(x):
    """A sequence as a list of parts."""
    if isinstance(x, (list, tuple)):
        return list(x)
    if isinstance(x, SSeq):
        at = x.at
        return [Each(x.n, lambda k: [at(k)])]
    if isinstance(x, SArr) and x.ndim == 1:
        rd = x.reader()
        return [Each(x.shape[0], lambda k: [rd(k)])]
    if isinstance(x, (Each, IfE)):
        return [x]
    if isinstance(x, Filtered):
        return x.parts()
    if isinstance(x, (range, np.ndarray)):
        return list(x)
    if isinstance(x, SRange):
        return [Each(x.n, lambda k: [x.at(k)])]
    raise Unsupported(f"a sequence from {type(x).__name__}")


class SRange(SSeq):
    def __init__(self, start, stop, step=1):
        if not isinstance(step, int) or step <= 0:
            raise Unsupported("range with this step")
        n = simp(stop - start)
        if isinstance(n, int):
            n = max(0, n)
        elif not cur().entails(n >= 0):
            n = simp(ite(n >= 0, n, 0))
        if step > 1:
            n = simp((n + (step - 1)) // step)
        super().__init__(n, lambda k: simp(start + k * step), "range")


def length(x):
    """len of any sequence."""
    if isinstance(x, SSeq):
        return x.n
    if isinstance(x, SArr):
        return x.shape[0]
    if isinstance(x, SDict):
        return x.n
    if isinstance(x, (IdxSet,)):
        return x.size
    if has_marks(x):
        return count_parts(list(x))
    return len(x)


def count_parts(ps):
    tot = 0
    for p in ps:
        if isinstance(p, Each):
            k = C.fresh_int("c", 0)
            c = count_parts(p.fn(k))
            if isinstance(c, int):
                tot = simp(tot + p.n * c)
            else:
                tot = tot + C.mksum(p.n, lambda j, p=p: count_parts(p.fn(j)))
        elif isinstance(p, IfE):
            tot = tot + ite(p.cond, count_parts(p.a), count_parts(p.b))
        else:
            tot = tot + 1
    return simp(tot) if not isinstance(tot, SSum) else tot


# -------------------------------------------------------------- substitution
class Lift:
    """Names made in a loop body stand for functions of the iteration: c -> c'(i) and
    f(args) -> f'(i, args), for names numbered since < number <= until."""

    def __init__(self, since, until, keep, table, i):
        self.since, self.until, self.keep = since, until, keep
        self.table, self.i = table, i

    def new(self, d):
        key = d.name(), d.arity()
        if key not in self.table:
            dom = [z3.IntSort()] + [d.domain(j) for j in range(d.arity())]
            self.table[key] = z3.Function(C.cur().name_for("of_it"), *dom, d.range())
        return self.table[key]

    def decls(self, t):
        return [d for n, d in numbered(t).items()
                if self.since < n[0] <= self.until and n[1] not in self.keep]

    def __call__(self, t, after):
        ds = self.decls(t)
        cs = [(z3.Const(d.name(), d.range()), self.new(d)(self.i))
              for d in ds if d.arity() == 0]
        t = z3.substitute(t, *(after + cs)) if after or cs else t
        fs = [(d, self.new(d)(self.i, *[z3.Var(j, d.domain(j))
                                        for j in range(d.arity())]))
              for d in ds if d.arity()]
        return z3.substitute_funs(t, *fs) if fs else t


_NUMBERED = {}


def numbered(t):
    """{(number, name, arity): declaration} of the uninterpreted symbols of a term."""
    k = t.get_id()
    if k not in _NUMBERED:
        out, seen, todo = {}, set(), [t]
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if z3.is_quantifier(e):
                todo.append(e.body())
                continue
            if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = e.decl().name()
                x = nm.rsplit("!", 1)
                if len(x) == 2 and x[1].isdigit():
                    out[int(x[1]), nm, e.decl().arity()] = e.decl()
            todo.extend(e.children())
        _NUMBERED[k] = (t, out)
    return _NUMBERED[k][1]


def zsubst(t, pairs):
    if pairs and isinstance(pairs[-1], Lift):
        return pairs[-1](t, list(pairs[:-1]))
    return z3.substitute(t, pairs)


def subst(v, pairs):
    """Replace constants in a value."""
    if isinstance(v, SBool):
        return SBool(zsubst(v.t, pairs))
    if isinstance(v, SInt):
        if v.b is not None:
            return SInt(b=zsubst(v.b, pairs), dt=v.dt)
        return simp_keep(SInt(zsubst(v.t, pairs), dt=v.dt))
    if isinstance(v, SReal):
        return SReal(zsubst(v.t, pairs))
    if isinstance(v, SComplex):
        return SComplex(zsubst(v.re, pairs), zsubst(v.im, pairs))
    if isinstance(v, SSum):
        return SSum(subst(v.const, pairs),
                    [(subst(n, pairs), (lambda *k, f=f: subst(f(*k), pairs)),
                      zsubst(c, pairs)) for n, f, c in v.pieces], v.mod, v.cong)
    if isinstance(v, SArr):
        rd = v.reader()
        r = SArr.of(lambda *i: subst(rd(*i), pairs),
                    [subst(d, pairs) for d in v.shape], v.dt)
        r.buf.copy_of_item = True
        return r
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, list):
        return item_copy([subst(x, pairs) for x in v])
    if isinstance(v, dict):
        return item_copy({k: subst(x, pairs) for k, x in v.items()})
    if isinstance(v, Each):
        fn = v.fn
        return Each(subst(v.n, pairs), lambda k: subst_parts(fn(k), pairs))
    if isinstance(v, IfE):
        return IfE(subst(v.cond, pairs), subst_parts(v.a, pairs),
                   subst_parts(v.b, pairs))
    if isinstance(v, SSeq):
        at = v.at
        if v.kind == "str":
            return type(v)(subst(v.n, pairs), lambda k: subst(at(k), pairs))
        return SSeq(subst(v.n, pairs), lambda k: subst(at(k), pairs), v.kind)
    if isinstance(v, FStr):
        r = FStr([subst(p, pairs) for p in v.parts])
        r.loose = v.loose
        return r
    if isinstance(v, SElem):
        return SElem(v.struct, [subst(i, pairs) for i in v.idx])
    if isinstance(v, SDict):
        return v.subst(pairs)
    if hasattr(v, "subst_"):
        return v.subst_(pairs)
    return v


def subst_parts(ps, pairs):
    return [subst(x, pairs) for x in ps]


def item_copy(v):
    """Writing to this one would not change the item of the sequence it stands for."""
    if cur() is not None:
        cur().copies[id(v)] = v
    return v


def simp_keep(v):
    return v


# ------------------------------------------------------------------- strings
class FStr:
    """A string made of known pieces and printed values."""

    __hash__ = None

    def __init__(self, ps):
        out = []
        for p in ps:
            if isinstance(p, FStr):
                sub = p.parts
            else:
                sub = [p]
            for q in sub:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                elif isinstance(q, str) and q == "":
                    pass
                else:
                    out.append(q)
        self.parts = out

    # whitespace at the ends may be missing (lines of a stripped text)
    loose = False

    def __add__(self, o):
        self.tight()
        return FStr(self.parts + [o])

    def __radd__(self, o):
        self.tight()
        return FStr([o] + self.parts)

    def tight(self):
        if self.loose:
            raise Unsupported("a string whose ends are not known")

    def blank(self):
        """True, False or None (not known): only whitespace?"""
        out = True
        for p in self.parts:
            if isinstance(p, str):
                if p.strip():
                    return False
            elif isinstance(p, Joined):
                out = None
            else:
                return False           # a printed number
        return out

    def strip(self, chars=None):
        if chars is not None:
            raise Unsupported("strip of certain characters")
        ps = list(self.parts)
        if ps and isinstance(ps[0], str):
            ps[0] = ps[0].lstrip()
        if ps and isinstance(ps[-1], str):
            ps[-1] = ps[-1].rstrip()
        # a repetition at an end may be empty: then the text before it is an end
        if any(isinstance(p, Joined) for p in (ps[:1] + ps[-1:])):
            r = FStr(ps)
            r.loose = True
            return r
        return plain(FStr(ps))

    def split(self, sep=None, maxsplit=-1):
        if sep is not None:
            if any(isinstance(p, Joined) and sep in p.sep for p in self.parts):
                raise Unsupported("split of a repetition")
            if sep in "+-.e0123456789 naif":
                raise Unsupported("split at a character of a printed number")
            out, line = [], []
            for p in self.parts:
                if isinstance(p, str) and sep in p and maxsplit != 0:
                    bits = p.split(sep, maxsplit)
                    for b in bits[:-1]:
                        out.append(self.like(line + [b]))
                        line = []
                        maxsplit -= 1 if maxsplit > 0 else 0
                    line = [bits[-1]]
                else:
                    line.append(p)
            return out + [self.like(line)]
        if maxsplit != -1:
            raise Unsupported("a limited split at whitespace")
        out, word, glued = [], [], False
        for i, p in enumerate(self.parts):
            if isinstance(p, str):
                bits = p.split()
                if not bits:
                    if word and p:
                        out.append(word)
                        word = []
                    continue
                if p[0].isspace() and word:
                    out.append(word)
                    word = []
                for j, b in enumerate(bits):
                    word.append(b)
                    if j < len(bits) - 1 or p[-1].isspace():
                        out.append(word)
                        word = []
            elif isinstance(p, Joined):
                nxt = self.parts[i + 1] if i + 1 < len(self.parts) else " "
                if word or p.sep.strip() or not p.sep or not isinstance(nxt, str) \
                        or not nxt[0].isspace():
                    raise Unsupported("a repetition inside a word")
                out.append(p)
            else:
                word.append(p)
        if word:
            out.append(word)
        res = []
        for w in out:
            if isinstance(w, Joined):
                res += words(w.lines)
            else:
                res.append(plain(FStr(w)))
        return res

    def like(self, ps):
        r = FStr(ps)
        r.loose = self.loose
        return r if r.loose else plain(r)

    def startswith(self, pre):
        p = self.parts[0] if self.parts else ""
        if self.loose or not isinstance(p, str) or not isinstance(pre, str):
            raise Unsupported("start of a printed string")
        if len(p) >= len(pre) or not pre.startswith(p):
            return p.startswith(pre)
        raise Unsupported("start of a printed string")

    def __eq__(self, o):
        if isinstance(o, str):
            o = FStr([o])
        if not isinstance(o, FStr):
            return False
        if len(o.parts) != len(self.parts):
            raise Unsupported("comparison of printed strings")
        r = SBool(z3.BoolVal(True))
        for a, b in zip(self.parts, o.parts):
            if isinstance(a, str) != isinstance(b, str):
                raise Unsupported("comparison of printed strings")
            if isinstance(a, str):
                if a != b:
                    return False
            else:
                r = C.land(r, a == b)
        return r

    def __repr__(self):
        return f"FStr({self.parts})"


def plain(f):
    """A str when nothing is symbolic."""
    if not f.parts:
        return ""
    if len(f.parts) == 1 and isinstance(f.parts[0], str):
        return f.parts[0]
    return f


def words(ps):
    """Items of a repetition which are single words."""
    out = []
    for p in ps:
        if isinstance(p, Each):
            out.append(Each(p.n, lambda k, p=p: words(p.fn(k))))
        elif isinstance(p, IfE):
            out.append(IfE(p.cond, words(p.a), words(p.b)))
        else:
            w = p.split()
            if len(w) != 1 or isinstance(w[0], (Each, IfE)):
                raise Unsupported("an item which is not a word")
            out.append(w[0])
    return out


def lines_of(ps, loose, sep):
    out = []
    for p in ps:
        if isinstance(p, Each):
            out.append(Each(p.n, lambda k, p=p: lines_of(p.fn(k), loose, sep)))
        elif isinstance(p, IfE):
            out.append(IfE(p.cond, lines_of(p.a, loose, sep), lines_of(p.b, loose, sep)))
        else:
            f = p if isinstance(p, FStr) else FStr([p])
            for q in f.parts:
                if isinstance(q, str) and sep in q or \
                        isinstance(q, Joined) and sep in q.sep:
                    raise Unsupported("a separator inside an item")
            if loose:
                if f.blank() is not False:
                    raise Unsupported("a line which may be blank")
                f = FStr(f.parts)
                f.loose = True
            out.append(f if loose else plain(f))
    return out


class Joined:
    """sep.join(lines)"""

    __hash__ = None

    def __init__(self, sep, ps, loose=False):
        self.sep, self.lines, self.loose = sep, ps, loose

    def strip(self, chars=None):
        if chars is not None or not self.sep.isspace():
            raise Unsupported("strip of a repetition")
        return Joined(self.sep, self.lines, True)

    def split(self, sep=None, maxsplit=-1):
        if sep != self.sep or maxsplit != -1:
            if sep is None and self.sep.isspace():
                return words(self.lines)
            raise Unsupported("split of a repetition")
        n = count_parts(self.lines)
        ls = lines_of(self.lines, self.loose, sep)
        if isinstance(n, int) and n > 0 or cur().entails(SBool(intterm(n) > 0)):
            return ls
        return [IfE(SBool(eq(n, 0)), [""], ls)]

    splitlines = None

    def __add__(self, o):
        if self.loose:
            raise Unsupported("a string whose ends are not known")
        return FStr([self, o])

    def __radd__(self, o):
        if self.loose:
            raise Unsupported("a string whose ends are not known")
        return FStr([o, self])

    def blank(self):
        return None

    def subst_(self, pairs):
        return Joined(self.sep, [subst(p, pairs) for p in self.lines], self.loose)

    def terms_(self):
        from .loops import terms_in
        yield from terms_in(self.lines)


# ------------------------------------------------------------------- records
class SStruct:
    """A family of records: attribute name -> function of the index.
    kinds: [(subclass, which records are of it)]."""
    kinds = ()

    def __init__(self, cls, fields, name="rec"):
        self.cls, self.fields, self.name = cls, dict(fields), name

    def __call__(self, *idx):
        return SElem(self, list(idx))


class SElem:
    __hash__ = None

    def __init__(self, struct, idx):
        object.__setattr__(self, "struct", struct)
        object.__setattr__(self, "idx", idx)

    def __eq__(self, o):
        if not isinstance(o, SElem):
            return False
        if o.struct is not self.struct:
            return False
        return C.land(*[SBool(eq(a, b)) for a, b in zip(self.idx, o.idx)])

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SBool) else not r

    def __repr__(self):
        return f"{self.struct.name}{self.idx}"


class ObjGrid:
    """An array of objects: all None at first; what it holds later is up to contracts."""

    pyvc_ok = True
    __hash__ = None
    lookup = None

    def __init__(self, shape):
        self.shape = tuple(shape)
        self.ndim = len(self.shape)

    def __getitem__(self, pos):
        if self.lookup is None:
            raise Unsupported("an item of an array of objects")
        return self.lookup(pos)

    def __setitem__(self, pos, v):
        if v is None and (pos is Ellipsis or isinstance(pos, slice)
                          and pos == slice(None)) and self.lookup is None:
            return
        raise Unsupported("a write to an array of objects")


# ------------------------------------------------------------------ mappings
class SDict:
    """A dictionary: has(key), get(key); items in a fixed order n, key(k), val(k)."""

    __hash__ = None

    def __init__(self, has, get, n=None, key=None, keys=None, name="d"):
        self.has, self.get, self.n_, self.key = has, get, n, key
        self.keys_ = keys          # concrete candidate keys, for small dictionaries
        self.name = name

    @property
    def n(self):
        if self.n_ is not None:
            return self.n_
        if self.keys_ is not None:
            t = 0
            for k in self.keys_:
                t = t + self.has(k).asint()
            return t
        raise Unsupported("length of a symbolic dictionary")

    def subst(self, pairs):
        has, get, key = self.has, self.get, self.key
        return SDict(lambda k: subst(has(k), pairs), lambda k: subst(get(k), pairs),
                     None if self.n_ is None else subst(self.n_, pairs),
                     None if key is None else (lambda i: subst(key(i), pairs)),
                     self.keys_, self.name)

    def nonempty(self):
        if self.keys_ is not None:
            return C.lor(False, *[self.has(k) for k in self.keys_])
        if self.n_ is not None:
            return self.n_ > 0
        raise Unsupported("truth value of a symbolic dictionary")

    def order(self):
        """Some order of the keys, given a bound of the keys (lo <= key < hi)."""
        if self.key is not None:
            return
        if self.bounds is None:
            raise Unsupported("iteration over a symbolic dictionary")
        s = cur()
        n = C.fresh_int(self.name + ".n", 0)
        keyf = C.fun_int(self.name + ".key", 1)
        posf = C.fun_int(self.name + ".pos", 1)
        k = SInt(z3.Int(s.name_for("q")))
        h = C.boolterm(merge(lambda: self.has(k)))
        s.assume(SBool(z3.ForAll([k.t], z3.Implies(h, z3.And(
            posf.z3(k.t) >= 0, posf.z3(k.t) < intterm(n),
            keyf.z3(posf.z3(k.t)) == k.t)), patterns=[posf.z3(k.t)])))
        i = SInt(z3.Int(s.name_for("q")))
        hk = z3.substitute(h, (k.t, keyf.z3(i.t)))
        s.assume(SBool(z3.ForAll([i.t], z3.Implies(
            z3.And(i.t >= 0, i.t < intterm(n)),
            z3.And(hk, posf.z3(keyf.z3(i.t)) == i.t)), patterns=[keyf.z3(i.t)])))
        self.n_, self.key, self.pos = n, lambda i: keyf(i), posf

    bounds = None

    def seq_items(self):
        self.order()
        if self.key is None:
            raise Unsupported("iteration over a symbolic dictionary")
        return SSeq(self.n_, lambda i: (self.key(i), self.get(self.key(i))), "items")

    def seq_keys(self):
        self.order()
        if self.key is None:
            raise Unsupported("iteration over a symbolic dictionary")
        r = SSeq(self.n_, lambda i: self.key(i), "keys")
        r.keys_of = self
        return r

    def lookup(self, k):
        if not bool(self.has(k)):
            raise_(KeyError, k)
        return self.get(k)


def sym_dict(name, val, nkeys=None, lo=0, hi=None):
    """An arbitrary finite dictionary from integers, in arbitrary order."""
    n = C.fresh_int(name + ".n", 0) if nkeys is None else nkeys
    keyf = C.fun_int(name + ".key", 1, lo, hi)
    hasf = C.fun_bool(name + ".has", 1)
    posf = C.fun_int(name + ".pos", 1)

    def key(i):
        v = keyf(i)
        # the i-th key is present, and pos is the inverse of key
        cur().assume(C.implies(C.land(i >= 0, i < n), C.land(hasf(v), posf(v) == i)))
        return v

    def has(k):
        p = posf(k)
        cur().assume(C.implies(hasf(k), C.land(p >= 0, p < n, keyf(p) == k)))
        return hasf(k)
    d = SDict(has, lambda k: val(k), n, key, name=name)
    d.pos = posf
    d.rawkey = keyf
    return d


# ----------------------------------------------------------------- index sets
class IdxSet:
    """The increasing sequence of all i in 0..n-1 with pred(i)  (numpy.nonzero)."""

    __hash__ = None

    def __init__(self, n, pred, dt="i8"):
        self.n, self.p = n, pred

    def pred(self, i):
        return C.land(i >= 0, i < self.n, self.p(i))

    def nonempty(self):
        if not hasattr(self, "_ne"):
            self._ne = quant("any", self.n, self.p)
        return self._ne

    @property
    def size(self):
        return IdxSize(self)

    @property
    def shape(self):
        return (self.size,)

    def extreme(self, last):
        key = "_max" if last else "_min"
        if not bool(self.nonempty()):
            raise_(IndexError, "index 0 is out of bounds")
        if not hasattr(self, key):
            m = C.fresh_int("last" if last else "first", 0, self.n)
            s = cur()
            s.assume(self.p(m))
            k = C.fresh_int("q")
            t = C.boolterm(merge(lambda: self.p(k)))
            out = k.t > m.t if last else k.t < m.t
            s.assume(z3.ForAll([k.t], z3.Implies(
                z3.And(k.t >= 0, k.t < intterm(self.n), t), z3.Not(out))))
            setattr(self, key, m)
        return getattr(self, key)

    def __getitem__(self, i):
        if isinstance(i, IdxMask):
            f, p = i.f, self.p
            return IdxSet(self.n, lambda j: C.land(p(j), f(j)))
        if isinstance(i, int) and i == 0:
            return self.extreme(False)
        if isinstance(i, int) and i == -1:
            return self.extreme(True)
        if isinstance(i, slice) and i.stop is None and i.step is None:
            if i.start is None or (isinstance(i.start, int) and i.start == 0):
                return self
            if isinstance(i.start, int) and i.start == 1:
                if not bool(self.nonempty()):
                    return self
                m, p = self.extreme(False), self.p
                return IdxSet(self.n, lambda j: C.land(p(j), j > m))
            if isinstance(i.start, IdxPos) and i.start.off in (0, 1):
                e, p, off = i.start.elem, self.p, i.start.off
                return IdxSet(self.n, lambda j: C.land(p(j), j > e if off else j >= e))
        raise Unsupported("this index into a nonzero array")

    def _cmp(self, o, op):
        if isinstance(o, IdxSet):
            raise Unsupported("comparison of index arrays")
        from .arr import CMP
        return IdxMask(self, lambda i: C.boolterm_s(CMP[op](i, o)),
                       o if op == "==" else None, o if op == "!=" else None)

    def __eq__(self, o): return self._cmp(o, "==")
    def __ne__(self, o): return self._cmp(o, "!=")
    def __lt__(self, o): return self._cmp(o, "<")
    def __le__(self, o): return self._cmp(o, "<=")
    def __gt__(self, o): return self._cmp(o, ">")
    def __ge__(self, o): return self._cmp(o, ">=")

    def __add__(self, o):
        raise Unsupported("arithmetic on an index array")

    def without(self, e):
        p = self.p
        return IdxSet(self.n, lambda j: C.land(p(j), j != e))

    def subst_(self, pairs):
        p = self.p
        return IdxSet(subst(self.n, pairs), lambda j: subst(p(j), pairs))


class IdxSize:
    """The number of elements of an index set (only compared with small numbers)."""

    __hash__ = None

    def __init__(self, s):
        self.s = s

    def __bool__(self):
        return bool(self.s.nonempty())

    def __gt__(self, o):
        if isinstance(o, int) and o == 0:
            return self.s.nonempty()
        raise Unsupported("size of an index array")

    def __ge__(self, o):
        if isinstance(o, int) and o == 1:
            return self.s.nonempty()
        raise Unsupported("size of an index array")

    def __ne__(self, o):
        return self > o

    def __eq__(self, o):
        return C.lnot(self > o)

    def __lt__(self, o):
        return C.lnot(self >= o)


class IdxMask:
    """An elementwise condition on an index array."""

    def __init__(self, s, f, eq_elem=None, ne_elem=None):
        self.s, self.f, self.eq_elem, self.ne_elem = s, f, eq_elem, ne_elem

    def __invert__(self):
        f = self.f
        return IdxMask(self.s, lambda i: C.lnot(f(i)), self.ne_elem, self.eq_elem)

    def __and__(self, o):
        f, g = self.f, o.f
        return IdxMask(self.s, lambda i: C.land(f(i), g(i)))

    def any(self):
        return self.s[self].nonempty()


class IdxPos:
    """The position of a known element in an index array (plus an offset)."""

    def __init__(self, s, elem, off=0):
        self.s, self.elem, self.off = s, elem, off

    def __add__(self, o):
        return IdxPos(self.s, self.elem, self.off + o)


class Filtered:
    """at(i) for all i in 0..n-1 with p(i), in order."""

    __hash__ = None
    ndim = 1

    def __init__(self, n, p, at, dt=None):
        self.n, self.p, self.at, self.dt = n, p, at, dt

    def set_(self):
        return IdxSet(self.n, self.p)

    @property
    def size(self):
        return IdxSize(self.set_())

    @property
    def shape(self):
        return (self.size,)

    def pyvc_len(self):
        return self.size

    def parts(self):
        return [Each(self.n, lambda k: [IfE(C.boolterm_s(self.p(k)), [self.at(k)], [])])]

    def pyvc_iter(self, it):
        return self.parts()

    def astype(self, *a, **k):
        raise Unsupported("conversion of a selection")

    def subst_(self, pairs):
        p, at = self.p, self.at
        return Filtered(subst(self.n, pairs), lambda i: subst(p(i), pairs),
                        lambda i: subst(at(i), pairs), self.dt)


def mask_select(view, pos, mask):
    if view.ndim != 1 or mask.ndim != 1:
        raise Unsupported("selection with a symbolic mask")
    if not bool(SBool(eq(view.shape[0], mask.shape[0]))):
        raise_(IndexError, "boolean index did not match indexed array")
    rm, rv = mask.reader(), view.reader()
    return Filtered(view.shape[0], lambda i: C.asbool(rm(i)), rv, view.dt)


# --------------------------------------------------------- equality of emissions
def prove_emissions_equal(A, B, name, eqv, depth=0):
    """The two lists of parts denote the same sequence; eqv(a, b, name) on items."""
    s = cur()
    A, B = list(A), list(B)
    while A or B:
        # a conditional at the head: split the cases
        for L, M, flip in ((A, B, False), (B, A, True)):
            if L and isinstance(L[0], IfE):
                c = L[0]

                def case(L=L, M=M, c=c, flip=flip):
                    truth = bool(SBool(C.boolterm(c.cond)))
                    L2 = list(c.a if truth else c.b) + L[1:]
                    prove_emissions_equal(M if flip else L2, L2 if flip else M, name,
                                          eqv, depth)
                s.each(case, name)
                return
        # empty repetitions
        drop = False
        for L in (A, B):
            if L and isinstance(L[0], Each) and s.entails(SBool(eq(L[0].n, 0))):
                L.pop(0)
                drop = True
        if drop:
            continue
        if A and B and isinstance(A[0], Each) and isinstance(B[0], Each):
            a, b = A[0], B[0]
            if not s.entails(SBool(eq(a.n, b.n))):
                lined = line_up(s, A, B)
                if lined is None:
                    # different structure: of different length, or not known
                    try:
                        la, lb = count_parts(A), count_parts(B)
                    except Unsupported:
                        return s.undecided(name, "repetitions do not line up")
                    s.prove(SBool(eq(la, lb)), name, "number of items")
                    return s.undecided(name, "repetitions do not line up")
                if lined is not True:
                    if depth > 6:
                        return s.undecided(name, "emissions do not line up")

                    def case(lined=lined):
                        truth = bool(lined[0])
                        prove_emissions_equal(*lined[1 if truth else 2], name, eqv,
                                              depth + 2)
                    s.each(case, name)
                    return
                continue
            A.pop(0), B.pop(0)

            def body(a=a, b=b):
                k = C.fresh_int("k", 0, a.n)
                prove_emissions_equal(a.fn(k), b.fn(k), name, eqv, depth + 1)
            s.each(body, name)
            s.assume(SBool(eq(a.n, b.n)))
            continue
        # unroll a repetition of concrete length
        done = False
        for L in (A, B):
            if L and isinstance(L[0], Each):
                n = simp(L[0].n)
                if isinstance(n, int):
                    e = L.pop(0)
                    L[0:0] = [p for k in range(n) for p in e.fn(k)]
                    done = True
                    break
        if done:
            continue
        if not A or not B:
            L = A or B
            if isinstance(L[0], Each):
                # has to be empty
                e = L.pop(0)

                def body(e=e):
                    k = C.fresh_int("k", 0, e.n)
                    if e.fn(k):
                        prove_emissions_equal(e.fn(k), [], name, eqv, depth + 1)
                s.each(body, name)
                continue
            s.fail(name, f"one side has more: {show(L[0])}")
            return
        if isinstance(A[0], Each) or isinstance(B[0], Each):
            # one side repeats, the other has a single item: peel one round
            L = A if isinstance(A[0], Each) else B
            e = L[0]
            pos = SBool(z3.simplify(intterm(e.n) > 0))

            def case(A=A, B=B, L=L, e=e, pos=pos):
                truth = bool(pos)
                rest = L[1:]
                new = (e.fn(0) + [Each(simp(e.n - 1), lambda k: e.fn(simp(k + 1)))]
                       + rest) if truth else rest
                if depth > 6:
                    return s.undecided(name, "emissions do not line up")
                if L is A:
                    prove_emissions_equal(new, B, name, eqv, depth + 2)
                else:
                    prove_emissions_equal(A, new, name, eqv, depth + 2)
            s.each(case, name)
            return
        a, b = A.pop(0), B.pop(0)
        eqv(a, b, name)


def line_up(s, A, B):
    """Cut the longer of two repetitions at the heads into pieces that fit: True, or
    (condition, lists if it holds, lists if not) for a first round taken out."""
    a, b = A[0], B[0]
    try:
        d = simp(a.n - b.n)
    except Exception:
        return None
    if isinstance(d, int) and 0 < abs(d) <= 4:
        L, short = (A, b) if d > 0 else (B, a)
        if s.entails(SBool(intterm(short.n) >= 0)):
            e = L.pop(0)
            L[0:0] = [Each(short.n, e.fn)] + [p for j in range(abs(d))
                                              for p in e.fn(simp(short.n + j))]
            return True
    for L, M in ((A, B), (B, A)):
        e = L[0]
        if not s.possible(intterm(e.n) > 0):
            continue
        try:
            first = e.fn(0)
        except Exception:
            continue
        if first and isinstance(first[0], Each) and s.entails(
                SBool(z3.Implies(intterm(e.n) > 0,
                                 C.boolterm(SBool(eq(first[0].n, M[0].n)))))):
            rest = [Each(simp(e.n - 1), lambda k, e=e: e.fn(simp(k + 1)))] + L[1:]
            yes, no = list(first) + rest, L[1:]
            if L is A:
                return SBool(intterm(e.n) > 0), (yes, list(B)), (no, list(B))
            return SBool(intterm(e.n) > 0), (list(A), yes), (list(A), no)
    return None


def show(x):
    return repr(x)[:300]
