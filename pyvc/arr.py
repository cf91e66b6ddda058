"""Arrays of symbolic shape: views on buffers given by index functions."""
from __future__ import annotations

import numpy as np
import z3

from . import core as C
from .core import (SBool, SInt, SReal, SSum, Sym, Unsupported, cur, eq, intterm, ite,
                   raise_)

NPDT = {"u1": np.dtype("u1"), "b": np.dtype(bool), "i8": np.dtype("i8"),
        "f": np.dtype(float), "O": np.dtype(object)}


class Buf:
    """Backing store: get maps a full index to an element."""

    copy_of_item = False
    reshaped = False          # shares its elements with another buffer

    def __init__(self, get, shape, dt):
        self.get, self.shape, self.dt = get, shape, dt
        s = cur()
        self.born = s.births if s is not None else 0


def known_eq(a, b):
    """Are two dimensions certainly equal?"""
    if isinstance(a, (int, np.integer)) and isinstance(b, (int, np.integer)):
        return int(a) == int(b)
    return cur().entails(eq(a, b))


def simp(x):
    """A concrete int if the term is a number."""
    if isinstance(x, SInt):
        t = z3.simplify(x.t)
        if z3.is_int_value(t):
            return t.as_long()
        return SInt(t)
    if isinstance(x, SBool):
        return simp(x.asint())
    if isinstance(x, SSum):
        return simp(x.value())
    if isinstance(x, (np.integer, bool)):
        return int(x)
    return x


def dim(x):
    return simp(x)


def _is_fancy(k):
    return isinstance(k, (list, np.ndarray, SArr)) or \
        (isinstance(k, tuple)) or type(k).__name__ in ("SSeq", "IdxSet")


class SArr:
    __array_ufunc__ = None        # numpy scalars defer to the reflected operators
    __hash__ = None

    def __init__(self, buf, axes, shape):
        self.buf, self.axes, self.shape = buf, axes, tuple(shape)

    # ----------------------------------------------------------- construction
    @staticmethod
    def of(get, shape, dt):
        shape = tuple(dim(s) for s in shape)
        return SArr(Buf(get, shape, dt), [("m", i, 0, 1) for i in range(len(shape))],
                    shape)

    @staticmethod
    def from_np(a):
        a = np.asarray(a)
        if a.dtype.kind == "O":
            raise Unsupported("object array")
        dt = C.dtname(a.dtype)

        def get(*idx):
            if not all(isinstance(i, (int, np.integer)) for i in idx):
                res = None
                for pos in np.ndindex(*a.shape):
                    v = elem(a[pos])
                    if res is None:
                        res = v
                    else:
                        c = C.land(*[SBool(eq(i, p)) for i, p in zip(idx, pos)])
                        res = ite(c, v, res)
                return res
            return elem(a[tuple(int(i) for i in idx)])
        return SArr.of(get, a.shape, dt)

    # -------------------------------------------------------------- attributes
    @property
    def dtype(self):
        return NPDT[self.buf.dt]

    @property
    def dt(self):
        return self.buf.dt

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = dim(r * s)
        return r

    @property
    def T(self):
        n = self.ndim
        axes = [a if a[0] == "f" else ("m", n - 1 - a[1], a[2], a[3])
                for a in self.axes]
        return SArr(self.buf, axes, self.shape[::-1])

    # ------------------------------------------------------------------ access
    def base(self, idx):
        return [a[1] if a[0] == "f" else simp(a[2] + idx[a[1]] * a[3])
                for a in self.axes]

    def reader(self):
        """A snapshot: function of the view index."""
        get, base = self.buf.get, self.base
        return lambda *idx: get(*base(idx))

    def at(self, *idx):
        return self.buf.get(*self.base(idx))

    def _norm(self, i, n):
        i = simp(i)
        if isinstance(i, int):
            if i < 0:
                j = simp(n + i)
                if isinstance(j, int):
                    if j < 0:
                        raise_(IndexError, "index out of bounds")
                elif not cur().entails(j.t >= 0) and bool(j < 0):
                    raise_(IndexError, "index out of bounds")
                return j
        elif not isinstance(i, SInt):
            raise_(IndexError, f"bad index {i!r}")
        elif not cur().entails(i.t >= 0):
            if bool(i < 0):
                i = simp(i + n)
                if bool(i < 0):
                    raise_(IndexError, "index out of bounds")
        if isinstance(i, int) and isinstance(n, int):
            if i >= n:
                raise_(IndexError, "index out of bounds")
        elif not bool(i < n):
            raise_(IndexError, "index out of bounds")
        return i

    def _slice(self, s, n):
        start, length, step = slice_bounds(s, n)
        return start, length, step

    def _key(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        if any(k is Ellipsis for k in key):
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            used = len([k for k in key if k is not None and k is not Ellipsis])
            key[p:p + 1] = [slice(None)] * (self.ndim - used)
        used = len([k for k in key if k is not None])
        if used > self.ndim:
            raise_(IndexError, "too many indices for array")
        key += [slice(None)] * (self.ndim - used)
        return key

    def _view(self, key):
        """Basic indexing: (new axes, new shape)."""
        maps, shape, ax = {}, [], 0       # old view axis -> ('f', i) | ('m', new, st, sp)
        for k in key:
            if k is None:
                shape.append(1)
                continue
            n = self.shape[ax]
            if isinstance(k, slice):
                st, ln, sp = self._slice(k, n)
                maps[ax] = ("m", len(shape), st, sp)
                shape.append(ln)
            else:
                maps[ax] = ("f", self._norm(k, n))
            ax += 1
        axes = []
        for a in self.axes:
            if a[0] == "f":
                axes.append(a)
                continue
            m = maps[a[1]]
            if m[0] == "f":
                axes.append(("f", simp(a[2] + m[1] * a[3])))
            else:
                axes.append(("m", m[1], simp(a[2] + m[2] * a[3]), a[3] * m[3]))
        return axes, shape

    def __getitem__(self, key):
        key = self._key(key)
        fancy = [i for i, k in enumerate(key) if _is_fancy(k)]
        if not fancy:
            axes, shape = self._view(key)
            if not shape:
                return self.buf.get(*[a[1] for a in axes])
            return SArr(self.buf, axes, shape)
        if len(fancy) == 1:
            return self._fancy(key, fancy[0])
        if len(fancy) == len([k for k in key if k is not None]):
            ks = [as_arr(k) for k in key]
            if all(k.ndim == 1 for k in ks):
                rd, rs = self.reader(), [k.reader() for k in ks]
                shape = self.shape

                def get(i):
                    return rd(*[self._norm(r(i), n) for r, n in zip(rs, shape)])
                return SArr.of(get, (ks[0].shape[0],), self.dt)
        raise Unsupported("indexing with several index arrays")

    def _fancy(self, key, p):
        ix = as_arr(key[p])
        ax = len([k for k in key[:p] if k is not None])
        rest = list(key)
        rest[p] = slice(None)
        view = self[tuple(rest)] if any(not (isinstance(k, slice) and k == slice(None))
                                        for k in rest) else self
        # axis position of the fancy axis in the view
        pos = len([k for k in key[:p] if k is None or isinstance(k, slice)])
        if ix.dt == "b":
            from . import seq
            return seq.mask_select(view, pos, ix)
        if ix.ndim != 1:
            raise Unsupported("multi-dimensional index array")
        rd, ri, n = view.reader(), ix.reader(), self.shape[ax]
        norm = self._norm
        shape = list(view.shape)
        shape[pos] = ix.shape[0]
        safe = False
        if not isinstance(shape[pos], int) and ix.dt == "i8":
            # indices in bounds need no check when an element is read
            x = intterm(ri(C.fresh_int("j", 0, shape[pos])))
            safe = cur().entails(z3.And(x >= 0, x < intterm(n)))

        def get(*idx):
            idx = list(idx)
            i = ri(idx[pos])
            idx[pos] = i if safe else norm(i, n)
            return rd(*idx)
        return SArr.of(get, shape, self.dt)

    def _scatter(self, ix, value):
        """self[ix] = value for an index array of any length: the last write counts."""
        s = cur()
        n, size, at = ix.shape[0], self.shape[0], ix.reader()
        j = C.fresh_int("j", 0, n)
        x = intterm(at(j))
        if not s.entails(z3.And(x >= 0, x < intterm(size))):
            raise Unsupported("assignment through a symbolic index array")
        val, rd = broadcast_reader(value, (n,), self.dt), self.reader()
        last = C.fun_int("last_write", 1)
        i, e = C.fresh_int("q"), C.fresh_int("q")
        y = intterm(at(i))
        p, q = last.z3(y), last.z3(e.t)
        N = intterm(n)
        s.assume(SBool(z3.ForAll([i.t], z3.Implies(z3.And(i.t >= 0, i.t < N), z3.And(
            p >= i.t, p < N)))))
        s.assume(SBool(z3.ForAll([e.t], z3.Or(q == -1, z3.And(
            q >= 0, q < N, z3.substitute(y, (i.t, q)) == e.t)), patterns=[q])))
        self[:] = SArr.of(lambda e: ite(last(e) >= 0, val(last(e)), rd(e)),
                          self.shape, self.dt)

    def __setitem__(self, key, value):
        if isinstance(key, SArr) and key.dt == "b" and key.ndim == self.ndim:
            mask, rd = key.reader(), self.reader()
            val = broadcast_reader(value, self.shape, self.dt)
            new = SArr.of(lambda *i: ite(C.asbool(mask(*i)), val(*i), rd(*i)),
                          self.shape, self.dt)
            self[tuple(slice(None) for _ in self.shape)] = new
            return
        key = self._key(key)
        fancy = [i for i, k in enumerate(key) if _is_fancy(k)]
        if fancy:
            if len(fancy) > 1:
                return self._set_points(key, value)
            p = fancy[0]
            ix = key[p]
            if type(ix).__name__ == "IdxSet":
                return self._set_at_set(key, p, ix, value)
            ix = as_arr(ix)
            n = ix.shape[0] if ix.ndim == 1 else None
            if n is not None and ix.dt != "b" and not isinstance(n, int):
                start = consecutive(ix)
                if start is not None and cur().entails(start >= 0):
                    key[p] = slice(start, simp(start + n))
                    self[tuple(key)] = value
                    return
            if ix.dt == "i8" and n is not None and self.ndim == 1 and \
                    not isinstance(n, int):
                return self._scatter(ix, value)
            if ix.dt == "b" or not isinstance(n, int):
                raise Unsupported("assignment through a symbolic index array")
            pos = len([k for k in key[:p] if k is None or isinstance(k, slice)])
            ids = [ix.at(i) for i in range(n)]
            axes, shape = self._view([slice(None) if i == p else k
                                      for i, k in enumerate(key)])
            shape[pos] = n
            val = broadcast_reader(value, shape, self.dt)
            for i in range(n):
                k2 = list(key)
                k2[p] = ids[i]
                sub_shape = shape[:pos] + shape[pos + 1:]

                def sub(*idx, i=i):
                    idx = list(idx)
                    return val(*idx[:pos], i, *idx[pos:])
                if sub_shape:
                    self[tuple(k2)] = SArr.of(sub, sub_shape, self.dt)
                else:
                    self[tuple(k2)] = sub()
            return
        axes, shape = self._view(key)
        write(self.buf, axes, shape, broadcast_reader(value, shape, self.dt))

    def _set_points(self, key, value):
        """a[rows, columns] = value for one-dimensional index arrays."""
        if len(key) != self.ndim or any(isinstance(k, slice) or k is None for k in key):
            raise Unsupported("assignment with several index arrays")
        ks = [as_arr(k) if _is_fancy(k) else k for k in key]
        arrs = [k for k in ks if isinstance(k, SArr)]
        if any(a.ndim != 1 or a.dt == "b" for a in arrs):
            raise Unsupported("assignment with several index arrays")
        n = next((a.shape[0] for a in arrs if a.shape[0] != 1), 1)
        for a in arrs:
            if not cur().entails(z3.Or(intterm(a.shape[0]) == 1,
                                       intterm(a.shape[0]) == intterm(n))):
                raise Unsupported("index arrays of different lengths")

        def index(a, k):
            return a if not isinstance(a, SArr) else a.at(0 if a.shape[0] == 1 else k)
        val = broadcast_reader(value, [n], self.dt)
        if isinstance(n, int):
            for k in range(n):
                self[tuple(index(a, k) for a in ks)] = val(k)
            return
        # some index must tell which position it is
        starts = [(i, consecutive(a)) for i, a in enumerate(ks) if isinstance(a, SArr)]
        starts = [(i, x) for i, x in starts if x is not None]
        if not starts:
            raise Unsupported("assignment with symbolic index arrays")
        which, start = starts[0]
        k = C.fresh_int("k", 0, n)
        for a, d in zip(ks, self.shape):
            x = intterm(index(a, k))
            if not cur().entails(z3.And(x >= 0, x < intterm(d))):
                raise Unsupported("assignment with symbolic index arrays")
        old = self.reader()

        def get(*idx):
            at = simp(idx[which] - start)
            hit = C.land(at >= 0, at < n, *[C.eq(idx[i], index(a, at))
                                            for i, a in enumerate(ks) if i != which])
            return ite(hit, val(at), old(*idx))
        self[tuple(slice(None) for _ in self.shape)] = SArr.of(get, self.shape, self.dt)

    def _set_at_set(self, key, p, ix, value):
        rest = [slice(None) if i == p else k for i, k in enumerate(key)]
        view = self[tuple(rest)]
        pos = len([k for k in key[:p] if k is None or isinstance(k, slice)])
        if isinstance(value, (SArr, np.ndarray)):
            raise Unsupported("array assigned at an index set")
        rd = view.reader()
        v = C.cast(value, self.dt)
        new = SArr.of(lambda *i: ite(ix.pred(i[pos]), v, rd(*i)), view.shape, self.dt)
        view[tuple(slice(None) for _ in view.shape)] = new

    # ---------------------------------------------------------------- methods
    def copy(self):
        return SArr.of(self.reader(), self.shape, self.dt)

    def astype(self, d, **kw):
        if kw:
            raise Unsupported("astype with options")
        dt, rd = C.dtname(d), self.reader()
        return SArr.of(lambda *i: C.cast(rd(*i), dt), self.shape, dt)

    def squeeze(self):
        keep = []
        for i, s in enumerate(self.shape):
            if isinstance(s, int):
                if s != 1:
                    keep.append(i)
            elif bool(s == 1):
                pass
            else:
                keep.append(i)
        key = tuple(slice(None) if i in keep else 0 for i in range(self.ndim))
        if not keep:
            rd = self.reader()
            return SArr.of(lambda: rd(*[0] * self.ndim), (), self.dt)
        return self[key]

    def item(self):
        return self.at(*[0] * self.ndim)

    def ravel(self):
        if self.ndim == 1:
            return self
        return reshape(self, (self.size,))

    def flatten(self):
        return self.copy() if self.ndim == 1 else reshape(self.copy(), (self.size,))

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def tolist(self):
        from . import seq
        if self.ndim != 1:
            raise Unsupported("tolist")
        rd = self.reader()
        return seq.SSeq(self.shape[0], lambda i: unnp(rd(i)), "list")

    def sum(self, axis=None):
        return asum(self, axis)

    def any(self, axis=None):
        return aquant(self, "any", axis)

    def all(self, axis=None):
        return aquant(self, "all", axis)

    def max(self, axis=None):
        """An element, and none is larger."""
        n = self.shape[0] if self.ndim == 1 else None
        if n is None or axis not in (None, 0) or self.dt not in ("i8", "u1"):
            raise Unsupported("max of a symbolic array")
        s = cur()
        if not (n > 0 if isinstance(n, int) else bool(n > 0)):
            raise_(ValueError, "zero-size array to reduction operation maximum")
        rd = self.reader()
        i, q = C.fresh_int("argmax", 0, n), C.fresh_int("q")
        m = rd(i)
        s.assume(SBool(z3.ForAll([q.t], z3.Implies(z3.And(
            q.t >= 0, q.t < intterm(n)), intterm(rd(q)) <= intterm(m)))))
        return m

    def __bool__(self):
        if all(isinstance(s, int) and s == 1 for s in self.shape):
            return bool(C.asbool(self.item()))
        raise Unsupported("truth value of an array")

    def __iter__(self):
        n = self.shape[0]
        if not isinstance(n, int):
            raise Unsupported("iteration over an array of symbolic length")
        return (self[i] for i in range(n))

    def __len__(self):
        n = self.shape[0]
        if not isinstance(n, int):
            raise Unsupported("native len of a symbolic array")
        return n

    # ------------------------------------------------------------- arithmetic
    def __add__(self, o): return ew("+", self, o)
    def __radd__(self, o): return ew("+", o, self)
    def __sub__(self, o): return ew("-", self, o)
    def __rsub__(self, o): return ew("-", o, self)
    def __mul__(self, o): return ew("*", self, o)
    def __rmul__(self, o): return ew("*", o, self)
    def __truediv__(self, o): return ew("/", self, o)
    def __rtruediv__(self, o): return ew("/", o, self)
    def __floordiv__(self, o): return ew("//", self, o)
    def __mod__(self, o): return ew("%", self, o)
    def __xor__(self, o): return ew("^", self, o)
    def __rxor__(self, o): return ew("^", o, self)
    def __and__(self, o): return ew("&", self, o)
    def __rand__(self, o): return ew("&", o, self)
    def __or__(self, o): return ew("|", self, o)
    def __ror__(self, o): return ew("|", o, self)
    def __lshift__(self, o): return ew("<<", self, o)
    def __eq__(self, o): return ew("==", self, o)
    def __ne__(self, o): return ew("!=", self, o)
    def __lt__(self, o): return ew("<", self, o)
    def __le__(self, o): return ew("<=", self, o)
    def __gt__(self, o): return ew(">", self, o)
    def __ge__(self, o): return ew(">=", self, o)
    def __neg__(self): return ew("-", 0, self)

    def __invert__(self):
        if self.dt != "b":
            raise Unsupported("bitwise not of integers")
        rd = self.reader()
        return SArr.of(lambda *i: C.lnot(rd(*i)), self.shape, "b")

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def __repr__(self):
        return f"SArr(shape={self.shape}, {self.dt})"


def consecutive(a):
    """The first element of an array which counts up by one, or None."""
    if a.shape[0] == 1:
        return None
    k = C.fresh_int("pos", 0, a.shape[0])
    d = simp(a.at(k) - k)
    if isinstance(d, int):
        return d
    from .loops import const_names
    return d if isinstance(d, SInt) and k.t.decl().name() not in const_names(d.t) else None


def elem(x):
    """An element of a concrete array as an engine scalar."""
    if isinstance(x, np.ndarray):
        x = x[()]
    return x


def unnp(x):
    """tolist: Python scalars."""
    if isinstance(x, SInt):
        return SInt(x._t, b=x.b)
    if hasattr(x, "item"):
        return x.item()
    return x


def slice_bounds(s, n):
    """(start, length, step) of a slice of a sequence of length n."""
    step = 1 if s.step is None else int(s.step)

    def clamp(v):
        v = simp(v)
        if isinstance(v, int) and isinstance(n, int):
            return max(0, min(n, v + n if v < 0 else v))
        if isinstance(v, int) and v < 0:
            w = simp(n + v)
            return w if cur().entails(w >= 0) else simp(ite(w >= 0, w, 0))
        if not isinstance(v, int) and not cur().entails(v >= 0):
            w = ite(v < 0, v + n, v)
            v = simp(ite(w < 0, 0, w))
        if cur().entails(SBool(intterm(v) <= intterm(n))):
            return v
        return simp(ite(SBool(intterm(v) <= intterm(n)), v, n))

    if step > 0:
        a = 0 if s.start is None else clamp(s.start)
        b = n if s.stop is None else clamp(s.stop)
        ln = simp(b - a)
        if isinstance(ln, int):
            ln = max(0, ln)
        elif not cur().entails(ln >= 0):
            ln = simp(ite(ln >= 0, ln, 0))
        if step > 1:
            ln = simp((ln + (step - 1)) // step)
        return a, ln, step
    if step == -1 and s.start is None and s.stop is None:
        return simp(n - 1), n, -1
    raise Unsupported("slice with a negative step")


def as_arr(x):
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ndarray):
        return SArr.from_np(x)
    if type(x).__name__ == "SSeq":
        at = x.at
        return SArr.of(lambda i: at(i), (x.n,), x.elem_dt())
    if type(x).__name__ == "IdxSet":
        return x.as_array()
    if isinstance(x, (list, tuple)):
        return stack(list(x))
    if isinstance(x, (Sym, int, float, bool, np.generic)):
        return SArr.of(lambda: x, (), scalar_dt(x))
    raise Unsupported(f"array from {type(x).__name__}")


def scalar_dt(x):
    if isinstance(x, (SBool, bool, np.bool_)):
        return "b"
    if isinstance(x, SInt):
        return x.dt or "i8"
    if isinstance(x, (SReal, float)):
        return "f"
    if isinstance(x, SSum):
        return "i8"
    if isinstance(x, np.generic):
        return C.dtname(x.dtype)
    if isinstance(x, int):
        return "i8"
    raise Unsupported(f"element {x!r}")


def stack(items, dt=None):
    """np.array of a list of scalars or of equally shaped arrays."""
    n = len(items)
    if n == 0:
        return SArr.of(lambda i: _empty(), (0,), dt or "f")
    subs = [as_arr(x) if isinstance(x, (SArr, np.ndarray, list, tuple)) or
            type(x).__name__ == "SSeq" else x for x in items]
    if any(isinstance(x, SArr) for x in subs):
        if not all(isinstance(x, SArr) for x in subs):
            raise Unsupported("ragged array")
        sh = subs[0].shape
        for x in subs:
            if len(x.shape) != len(sh) or not all(known_eq(a, b)
                                                  for a, b in zip(x.shape, sh)):
                raise Unsupported("ragged array")
        dt = dt or promote([x.dt for x in subs])
        rs = [x.reader() for x in subs]

        def get(i, *idx):
            return C.cast(pick(i, [(lambda r=r: r(*idx)) for r in rs]), dt)
        return SArr.of(get, (n,) + sh, dt)
    dt = dt or promote([scalar_dt(x) for x in subs])
    return SArr.of(lambda i: C.cast(pick(i, [(lambda x=x: x) for x in subs]), dt),
                   (n,), dt)


def _empty():
    raise Unsupported("element of an empty array")


def pick(i, thunks):
    i = simp(i)
    if isinstance(i, int):
        return thunks[i]()
    r = thunks[-1]()
    for k in range(len(thunks) - 2, -1, -1):
        r = ite(i == k, thunks[k](), r)
    return r


def promote(dts):
    order = ["b", "u1", "i8", "f", "O"]
    return max(dts, key=order.index)


def broadcast(shapes):
    nd = max(len(s) for s in shapes)
    full = [(1,) * (nd - len(s)) + tuple(s) for s in shapes]
    out = []
    for ds in zip(*full):
        big = [d for d in ds if not (isinstance(d, int) and d == 1)]
        if not big:
            out.append(1)
            continue
        for d in big[1:]:
            if known_eq(big[0], d):
                continue
            # a dimension which may be one would be stretched
            if isinstance(big[0], int) and isinstance(d, int):
                raise_(ValueError, "operands could not be broadcast together")
            if bool(SBool(eq(big[0], d))):
                continue
            if bool(SBool(eq(big[0], 1))) or bool(SBool(eq(d, 1))):
                raise Unsupported("broadcasting along a symbolic dimension of size one")
            raise_(ValueError, "operands could not be broadcast together")
        out.append(big[0])
    return tuple(out)


def reader_for(rd, shape, full):
    """Read an operand of `shape` at an index of the broadcast shape."""
    off = len(full) - len(shape)
    one = [isinstance(d, int) and d == 1 for d in shape]

    def get(*idx):
        idx = idx[off:] if off else idx
        return rd(*[0 if o else i for o, i in zip(one, idx)])
    return get


def broadcast_reader(value, shape, dt):
    if isinstance(value, (SArr, np.ndarray, list, tuple)) or \
            type(value).__name__ == "SSeq":
        v = as_arr(value)
        vs = v.shape
        while len(vs) > len(shape) and isinstance(vs[0], int) and vs[0] == 1:
            v = v[0]
            vs = v.shape
        if len(vs) > len(shape):
            raise_(ValueError, "could not broadcast input array")
        for a, b in zip(vs[::-1], tuple(shape)[::-1]):
            if isinstance(a, int) and a == 1:
                continue
            if not known_eq(a, b):
                if isinstance(a, int) and isinstance(b, int):
                    raise_(ValueError, "could not broadcast input array")
                if not bool(SBool(eq(a, b))):
                    if bool(SBool(eq(a, 1))):
                        raise Unsupported("broadcast of a symbolic dimension")
                    raise_(ValueError, "could not broadcast input array")
        rd = reader_for(v.reader(), v.shape, shape)
        return lambda *i: C.cast(rd(*i), dt)
    v = C.cast(value, dt)
    return lambda *i: v


def write(buf, axes, shape, val):
    """Assign val (function of the view index) to the region of buf given by axes."""
    if buf.reshaped:
        raise Unsupported("writing to an array with a reshaped view")
    if buf.copy_of_item:
        raise Unsupported("writing to an item of a symbolic sequence")
    for r in cur().rec:
        r.buf_write(buf, axes, shape, val)
    old = buf.get

    def get(*idx):
        conds, vidx = [], [0] * len(shape)
        for a, i in zip(axes, idx):
            if a[0] == "f":
                c = eq(i, a[1])
                conds.append(c)
            else:
                _, v, st, sp = a
                if sp == 1:
                    off = simp(i - st)
                    if not (isinstance(st, int) and st == 0 and
                            same_dim(shape[v], buf.shape, a, axes)):
                        conds.append(C.boolterm(SBool(intterm(off) >= 0)))
                        conds.append(C.boolterm(SBool(intterm(off) < intterm(shape[v]))))
                    vidx[v] = off
                elif sp == -1:
                    off = simp(st - i)
                    conds.append(intterm(off) >= 0)
                    conds.append(intterm(off) < intterm(shape[v]))
                    vidx[v] = off
                else:
                    off = simp(i - st)
                    conds.append(intterm(off) >= 0)
                    conds.append(intterm(off) % sp == 0)
                    q = simp(SInt(intterm(off) / sp))
                    conds.append(intterm(q) < intterm(shape[v]))
                    vidx[v] = q
        c = z3.simplify(z3.And(conds)) if conds else z3.BoolVal(True)
        if z3.is_true(c):
            return val(*vidx)
        if z3.is_false(c):
            return old(*idx)
        return ite(SBool(c), val(*vidx), old(*idx))
    buf.get = get


def same_dim(d, bshape, a, axes):
    k = axes.index(a)
    b = bshape[k]
    if isinstance(d, int) and isinstance(b, int):
        return d == b
    return intterm(d).eq(intterm(b)) or z3.is_true(z3.simplify(intterm(d) == intterm(b)))


CMP = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b,
       "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


def scalar_op(op, a, b, arr=True):
    if op in CMP:
        return CMP[op](a, b)
    if not isinstance(a, Sym) and not isinstance(b, Sym):
        import operator
        f = {"+": operator.add, "-": operator.sub, "*": operator.mul,
             "/": operator.truediv, "//": operator.floordiv, "%": operator.mod,
             "^": operator.xor, "&": operator.and_, "|": operator.or_,
             "<<": operator.lshift, "**": operator.pow}[op]
        return f(a, b)
    if op == "&" and isinstance(a, SBool) and isinstance(b, SBool):
        return a & b
    return C.arith(op, a, b, arr=arr)


def ew(op, a, b):
    """Elementwise operation with broadcasting."""
    A, B = as_arr(a), as_arr(b)
    shape = broadcast([A.shape, B.shape])
    ra, rb = (reader_for(A.reader(), A.shape, shape),
              reader_for(B.reader(), B.shape, shape))
    if op in CMP:
        dt = "b"
    else:
        da, db = A.dt, B.dt
        wa = isinstance(a, (int, float, bool, SInt, SReal)) and (
            not isinstance(a, SInt) or a.dt is None)
        wb = isinstance(b, (int, float, bool, SInt, SReal)) and (
            not isinstance(b, SInt) or b.dt is None)
        order = ["b", "u1", "i8", "f"]
        kinds = {"b": 0, "u1": 1, "i8": 1, "f": 2}
        if wa and not wb and A.ndim == 0 and kinds[da] <= kinds[db]:
            dt = db
        elif wb and not wa and B.ndim == 0 and kinds[db] <= kinds[da]:
            dt = da
        else:
            dt = max([da, db], key=order.index)
        if op == "/":
            dt = "f"
        if dt == "b" and op in "+-*":
            if op != "*":
                raise Unsupported("arithmetic on boolean arrays")
    if dt == "u1" and op == "**":
        raise Unsupported("power on bytes")

    def get(*idx):
        x, y = ra(*idx), rb(*idx)
        r = scalar_op(op, x, y)
        if op not in CMP and dt in ("u1", "b", "i8") and not isinstance(r, SSum):
            r = C.cast(r, dt) if not isinstance(r, SInt) or r.dt != dt else r
        return r
    return SArr.of(get, shape, dt)


def matmul(a, b):
    A, B = as_arr(a), as_arr(b)
    if A.dt == "f" or B.dt == "f":
        raise Unsupported("matrix product of floats")
    n = A.shape[-1]
    m = B.shape[0] if B.ndim == 1 else B.shape[-2]
    if not known_eq(n, m):
        if not bool(SBool(eq(n, m))):
            raise_(ValueError, "matmul: mismatch in its core dimension")
    ra, rb = A.reader(), B.reader()
    dt = promote([A.dt, B.dt])
    if dt == "b":
        raise Unsupported("matrix product of booleans")
    cong = 256 if dt == "u1" else None

    def total(f):
        if isinstance(n, int):
            r = 0
            for k in range(n):
                r = r + f(k)
            return r
        return C.mksum(n, f, cong)

    def mul(x, y):
        return scalar_op("*", x, y)
    if A.ndim == 2 and B.ndim == 2:
        return SArr.of(lambda i, j: total(lambda k: mul(ra(i, k), rb(k, j))),
                       (A.shape[0], B.shape[1]), dt)
    if A.ndim == 1 and B.ndim == 2:
        return SArr.of(lambda j: total(lambda k: mul(ra(k), rb(k, j))),
                       (B.shape[1],), dt)
    if A.ndim == 2 and B.ndim == 1:
        return SArr.of(lambda i: total(lambda k: mul(ra(i, k), rb(k))),
                       (A.shape[0],), dt)
    if A.ndim == 1 and B.ndim == 1:
        return total(lambda k: mul(ra(k), rb(k)))
    raise Unsupported("matrix product")


def asum(a, axis=None):
    a = as_arr(a)
    if a.ndim == 1 and axis in (None, 0, -1):
        n, rd = a.shape[0], a.reader()
        num = (lambda i: rd(i).asint() if isinstance(rd(i), SBool) else rd(i))
        if isinstance(n, int):
            r = 0
            for k in range(n):
                v = num(k)
                r = r + (SInt(v._t, b=v.b) if isinstance(v, SInt) else v)
            return r
        return C.mksum(n, num)
    if a.ndim == 2 and axis in (0, 1):
        rd, n = a.reader(), a.shape[axis]
        f = (lambda i: asum(SArr.of(lambda k: rd(*((k, i) if axis == 0 else (i, k))),
                                    (n,), a.dt)))
        return SArr.of(f, (a.shape[1 - axis],), "i8" if a.dt != "f" else "f")
    raise Unsupported("sum over several axes")


def aquant(a, kind, axis=None):
    from . import seq
    a = as_arr(a)
    if axis is not None:
        raise Unsupported("any/all along an axis")
    rd = a.reader()

    def go(idx, dims):
        if not dims:
            return C.asbool(rd(*idx))
        return seq.quant(kind, dims[0], lambda i: go(idx + [i], dims[1:]))
    return go([], list(a.shape))


def reshape(a, shape):
    shape = [dim(s) for s in shape]
    size = a.size
    if any(isinstance(s, int) and s == -1 for s in shape):
        rest = 1
        for s in shape:
            if not (isinstance(s, int) and s == -1):
                rest = dim(rest * s)
        shape = [dim(size // rest) if isinstance(s, int) and s == -1 else s
                 for s in shape]
    total = 1
    for s in shape:
        total = dim(total * s)
    if not known_eq(total, size):
        if not bool(SBool(eq(total, size))):
            raise_(ValueError, "cannot reshape array")
    rd, old = a.reader(), a.shape

    def unit(d):
        return known_eq(d, 1)
    po = [i for i, d in enumerate(old) if not unit(d)]
    pn = [i for i, d in enumerate(shape) if not unit(d)]

    def get(*idx):
        if len(po) == len(pn) and all(known_eq(old[x], shape[y])
                                      for x, y in zip(po, pn)):
            at = [0] * len(old)
            for x, y in zip(po, pn):
                at[x] = idx[y]
            return rd(*at)
        if len(old) == 1:
            flat = idx[0]
            for d, i in zip(shape[1:], idx[1:]):
                flat = flat * d + i
            return rd(simp(flat))
        if len(shape) == 1 and len(old) == 2:
            flat = idx[0]
            return rd(simp(flat // old[1]), simp(flat % old[1]))
        raise Unsupported("reshape")
    out = SArr.of(get, shape, a.dt)
    out.buf.reshaped = a.buf.reshaped = True
    return out


def concat(arrs, axis=0, dt=None):
    arrs = [as_arr(x) for x in arrs]
    nd = arrs[0].ndim
    if any(x.ndim != nd for x in arrs):
        raise_(ValueError, "all the input array dimensions must match")
    if axis < 0:
        axis += nd
    dt = dt or promote([x.dt for x in arrs if not _is_empty(x)] or ["f"])
    for x in arrs[1:]:
        for d in range(nd):
            if d != axis and not known_eq(x.shape[d], arrs[0].shape[d]):
                if not bool(SBool(eq(x.shape[d], arrs[0].shape[d]))):
                    raise_(ValueError, "all the input array dimensions must match")
    rs = [x.reader() for x in arrs]
    offs, pos = [], 0
    for x in arrs:
        offs.append(pos)
        pos = dim(pos + x.shape[axis])
    shape = list(arrs[0].shape)
    shape[axis] = pos

    def get(*idx):
        i = simp(idx[axis])

        def at(k):
            j = list(idx)
            j[axis] = simp(i - offs[k])
            return C.cast(rs[k](*j), dt)
        cands = [k for k in range(len(arrs)) if not _is_empty(arrs[k])]
        # find the block
        res = None
        for k in reversed(cands):
            if res is None:
                res = ("t", k)
                continue
            c = z3.simplify(intterm(i) < intterm(dim(offs[k] + arrs[k].shape[axis])))
            if z3.is_true(c):
                res = ("t", k)
            elif z3.is_false(c):
                pass
            else:
                res = ("i", c, k, res)

        def ev(r):
            if r[0] == "t":
                return at(r[1])
            s = cur()
            if s.entails(r[1]):
                return at(r[2])
            if s.entails(z3.Not(r[1])):
                return ev(r[3])
            return ite(SBool(r[1]), at(r[2]), ev(r[3]))
        return ev(res)
    return SArr.of(get, shape, dt)


def _is_empty(x):
    return any(isinstance(s, int) and s == 0 for s in x.shape)


def fresh_array(name, shape, dt):
    """An arbitrary array (bits for u1: entries of tableaus are 0 or 1)."""
    mk = {"u1": C.fun_bit, "b": C.fun_bool, "i8": C.fun_int, "f": C.fun_real}[dt]
    f = mk(name, len(shape)) if len(shape) else None
    if f is None:
        v = {"u1": C.fresh_bit, "b": C.fresh_bool, "f": C.fresh_real}[dt](name)
        return SArr.of(lambda: v, (), dt)
    a = SArr.of(lambda *i: f(*i), shape, dt)
    a.fun = f
    return a


def prove_arrays_equal(a, b, name, mod=None):
    """Same shape and the same element at an arbitrary index."""
    s = cur()
    if not isinstance(a, SArr) and not isinstance(a, np.ndarray):
        return s.fail(name, f"not an array: {a!r}")
    A, B = as_arr(a), as_arr(b)
    if A.ndim != B.ndim:
        return s.fail(name, f"dimensions {A.ndim} and {B.ndim}")
    for x, y in zip(A.shape, B.shape):
        s.prove(SBool(eq(x, y)), name, f"shapes {A.shape} and {B.shape}")

    def body():
        idx = [C.fresh_int(f"i{d}", 0, n) for d, n in enumerate(A.shape)]
        prove_equal(A.at(*idx), B.at(*idx), name, mod)
    s.each(body, name)


def prove_equal(x, y, name, mod=None):
    s = cur()
    if isinstance(x, SSum) or isinstance(y, SSum):
        return C.prove_sums_equal(x, y, name, mod)
    e = x == y
    if e is NotImplemented:
        return s.fail(name, f"{x!r} and {y!r} are not comparable")
    s.prove(e, name, f"{str(x)[:300]} against {str(y)[:300]}")
