"""Interpreter of the current source of /repo/src on symbolic values."""
from __future__ import annotations

import ast
import builtins
import dataclasses
import enum
import functools
import inspect
import operator
import os
import re
import types

import numpy as np
import z3

from lib import boot
from . import core as C
from . import seq as Q
from . import text as T
from .arr import SArr, simp
from .core import (PyRaise, SBool, SInt, SReal, SSum, Signal, Sym, Unsupported, cur,
                   eq, intterm, ite)
from .seq import Each, FStr, IfE, IdxSet, SDict, SElem, SSeq

SRC = os.path.realpath(boot.SRC) + os.sep
_FILES = {}


def file_ast(path):
    """Parsed source, with function nodes by (first line, name)."""
    path = os.path.realpath(path)
    if path not in _FILES:
        with open(path) as f:
            tree = ast.parse(f.read(), path)
        nodes = {}

        def visit(node, qual):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.Lambda)):
                    name = getattr(ch, "name", "<lambda>")
                    line = ch.lineno
                    if getattr(ch, "decorator_list", None):
                        line = ch.decorator_list[0].lineno
                    nodes[(line, name)] = ch
                    visit(ch, qual + [name])
                else:
                    visit(ch, qual)
        visit(tree, [])
        _FILES[path] = (tree, nodes)
    return _FILES[path]


def is_src(fn):
    code = getattr(fn, "__code__", None)
    return code is not None and os.path.realpath(code.co_filename).startswith(SRC)


def symbolic(x, depth=0):
    if isinstance(x, (Sym, SArr, SSeq, SElem, SDict, FStr, IdxSet, Each, IfE, Q.IdxMask,
                      Q.IdxPos, Q.Joined, Q.IdxSize, Q.Filtered, T.SChar, T.SName, Poison)):
        return True
    if hasattr(x, "subst_"):
        return True
    if depth < 3 and isinstance(x, (list, tuple)):
        return any(symbolic(e, depth + 1) for e in x)
    if depth < 3 and isinstance(x, dict):
        return any(symbolic(e, depth + 1) for e in x.values())
    return False


class Poison:
    """A variable whose value the engine does not know."""

    def __init__(self, why):
        object.__setattr__(self, "why", why)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported(self.why)

    def refuse(self, *a):
        raise Unsupported(self.why)
    __bool__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = refuse
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __neg__ = refuse
    __and__ = __rand__ = __or__ = __ror__ = __xor__ = __rxor__ = __invert__ = refuse
    __mod__ = __floordiv__ = __truediv__ = __len__ = __iter__ = __contains__ = refuse
    __getitem__ = __int__ = __float__ = __index__ = refuse
    __hash__ = None


class Env:
    def __init__(self, glob, parent=None, fn=None):
        self.vars, self.glob, self.parent, self.fn = {}, glob, parent, fn
        self.nonlocal_ = set()
        self.used = set()           # names that a generator expression will read

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
            e = e.parent
        if name in self.glob:
            return self.glob[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError(f"name {name!r} is not defined"))

    def bind(self, name, v):
        if name in self.nonlocal_:
            for r in cur().rec:
                r.attr_write(self.parent, name)
            e = self.parent
            while e is not None:
                if name in e.vars:
                    e.vars[name] = v
                    return
                e = e.parent
            self.glob_set(name, v)
            return
        if name in self.used:
            raise Unsupported("a name that a generator expression reads later")
        self.vars[name] = v

    def glob_set(self, name, v):
        raise Unsupported("assignment to a global variable")


class Func:
    """A function of the interpreted program."""

    def __init__(self, it, node, env, glob, defaults, kwdefaults, qualname, real=None):
        self.it, self.node, self.env, self.glob = it, node, env, glob
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.qualname, self.real = qualname, real

    def __call__(self, *args, **kwargs):
        return self.it.run(self, list(args), kwargs)


class Inv:
    """A loop invariant: override havoc and check.

    havoc(it, env, k): put the state at the start of iteration k;
    check(it, env, k, name): prove that the state is one at the start of iteration k."""
    vars = ()


BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//",
          ast.Mod: "%", ast.BitXor: "^", ast.BitAnd: "&", ast.BitOr: "|",
          ast.LShift: "<<", ast.RShift: ">>", ast.Pow: "**", ast.MatMult: "@"}
OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv,
       "//": operator.floordiv, "%": operator.mod, "^": operator.xor,
       "&": operator.and_, "|": operator.or_, "<<": operator.lshift,
       ">>": operator.rshift, "**": operator.pow, "@": operator.matmul}
IOPS = {"+": operator.iadd, "-": operator.isub, "*": operator.imul,
        "/": operator.itruediv, "//": operator.ifloordiv, "%": operator.imod,
        "^": operator.ixor, "&": operator.iand, "|": operator.ior,
        "<<": operator.ilshift, ">>": operator.irshift, "**": operator.ipow,
        "@": operator.imatmul}


class Interp:
    def __init__(self, contracts=None, invariants=None, max_depth=60):
        self.contracts = dict(contracts or {})
        self.invariants = dict(invariants or {})
        self.depth, self.max_depth = 0, max_depth
        self.executed = {}             # qualname -> times interpreted
        self.provider = None
        self.merge_calls = False
        self.ret_lists = []
        from . import shims
        self.shims = shims.table()

    # ------------------------------------------------------------ functions
    def func_of(self, real):
        real = inspect.unwrap(real) if hasattr(real, "__wrapped__") else real
        tree, nodes = file_ast(real.__code__.co_filename)
        node = nodes.get((real.__code__.co_firstlineno, real.__name__))
        if node is None:
            raise Unsupported(f"source of {real.__qualname__}")
        env = None
        if real.__closure__:
            env = Env(real.__globals__)
            for n, c in zip(real.__code__.co_freevars, real.__closure__):
                try:
                    env.vars[n] = c.cell_contents
                except ValueError:
                    pass
        return Func(self, node, env, real.__globals__, real.__defaults__ or (),
                    real.__kwdefaults__ or {}, real.__qualname__, real)

    def interpret(self, real, *args, **kwargs):
        """Interpret the body of a real function (its own contract is not used)."""
        return self.run(self.func_of(real), list(args), kwargs)

    def run(self, f, args, kwargs):
        self.depth += 1
        if self.depth > self.max_depth:
            self.depth -= 1
            raise Unsupported("call depth")
        if f.real is not None:
            self.executed[f.qualname] = self.executed.get(f.qualname, 0) + 1
        env = Env(f.glob, f.env, f)
        try:
            self.bind_args(f, env, args, kwargs)
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, env)
            if is_generator(f.node):
                out = []
                env.vars["%yield"] = out
                try:
                    self.block(f.node.body, env)
                except Signal as s:
                    if s.kind != "return":
                        raise
                return out
            try:
                self.block(f.node.body, env)
            except Signal as s:
                if s.kind == "return":
                    return s.value
                raise
            return None
        finally:
            self.depth -= 1

    def bind_args(self, f, env, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kwargs = dict(kwargs)
        vals = {}
        take = args[:len(pos)]
        if any(isinstance(x, (Each, IfE)) for x in take):
            raise Unsupported("repetition bound to a parameter")
        for n, v in zip(pos, take):
            vals[n] = v
        extra = args[len(pos):]
        if extra and not a.vararg:
            raise PyRaise(TypeError(f"{f.qualname}() takes {len(pos)} positional "
                                    f"arguments but {len(args)} were given"))
        if a.vararg:
            vals[a.vararg.arg] = tuple(extra)
        for n in list(kwargs):
            if n in pos or n in [x.arg for x in a.kwonlyargs]:
                if n in vals:
                    raise PyRaise(TypeError(f"multiple values for {n!r}"))
                vals[n] = kwargs.pop(n)
        if a.kwarg:
            vals[a.kwarg.arg] = kwargs
        elif kwargs:
            raise PyRaise(TypeError(
                f"{f.qualname}() got an unexpected keyword argument {list(kwargs)[0]!r}"))
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in vals:
                j = i - (len(pos) - nd)
                if j < 0:
                    raise PyRaise(TypeError(f"{f.qualname}() missing argument {n!r}"))
                vals[n] = f.defaults[j]
        for x in a.kwonlyargs:
            if x.arg not in vals:
                if x.arg not in f.kwdefaults:
                    raise PyRaise(TypeError(f"missing keyword argument {x.arg!r}"))
                vals[x.arg] = f.kwdefaults[x.arg]
        env.vars.update(vals)

    # ---------------------------------------------------------------- calls
    def contract_for(self, fn):
        key = getattr(fn, "__func__", fn)
        try:
            c = self.contracts.get(key)
        except TypeError:
            return None
        return c

    def bound_contract(self, fn):
        """The contract of a method of a compiled class."""
        o, name = getattr(fn, "__self__", None), getattr(fn, "__name__", None)
        if o is None or name is None or isinstance(o, (type, types.ModuleType)) or \
                isinstance(fn, types.MethodType):
            return None
        try:
            m = getattr(type(o), name, None)
            return self.contracts.get(m)
        except TypeError:
            return None

    def call(self, fn, args, kwargs):
        if isinstance(fn, Func):
            return self.run(fn, list(args), kwargs)
        if isinstance(fn, BoundElem):
            c = self.contract_for(fn.func)
            if c is not None:
                return c(self, [fn.obj] + list(args), kwargs)
            return self.run(self.func_of(fn.func), [fn.obj] + list(args), kwargs)
        c = self.contract_for(fn)
        if c is not None:
            if isinstance(fn, types.MethodType):
                args = [fn.__self__] + list(args)
            return c(self, list(args), kwargs)
        c = self.bound_contract(fn)
        if c is not None:
            return c(self, [fn.__self__] + list(args), kwargs)
        if isinstance(fn, types.MethodType) and is_src(fn.__func__):
            f = self.func_of(fn.__func__)
            return self.run(f, [fn.__self__] + list(args), kwargs)
        if isinstance(fn, types.FunctionType) and is_src(fn):
            return self.run(self.func_of(fn), list(args), kwargs)
        if isinstance(fn, functools.partial):
            return self.call(fn.func, list(fn.args) + list(args),
                             {**fn.keywords, **kwargs})
        try:
            shim = self.shims.get(fn)
        except TypeError:
            shim = None
        if shim is not None:
            r = shim(self, args, kwargs)
            if r is not NotImplemented:
                USED.add(fname(fn))
                return r
        if isinstance(fn, type):
            return self.construct(fn, args, kwargs)
        return self.native(fn, args, kwargs)

    def construct(self, cls, args, kwargs):
        init = cls.__dict__.get("__init__") or getattr(cls, "__init__", None)
        if is_src(init) and not issubclass(cls, (BaseException, enum.Enum)):
            obj = cls.__new__(cls)
            self.created(obj)
            c = self.contract_for(init)
            if c is not None:
                c(self, [obj] + list(args), kwargs)
            else:
                self.run(self.func_of(init), [obj] + list(args), kwargs)
            return obj
        if issubclass(cls, BaseException):
            try:
                return cls(*args, **kwargs)
            except Exception:
                return cls("message")
        if dataclass_type(cls) and is_src(getattr(cls, "__post_init__", None)):
            return self.construct_dataclass(cls, args, kwargs)
        obj = self.native(cls, args, kwargs)
        self.created(obj)
        return obj

    def construct_dataclass(self, cls, args, kwargs):
        """What the generated __init__ does."""
        obj = self.created(cls.__new__(cls))
        args, kwargs = list(args), dict(kwargs)
        for n, f in cls.__dataclass_fields__.items():
            kind = getattr(f._field_type, "name", "")
            if kind == "_FIELD_CLASSVAR":
                continue
            if kind != "_FIELD" or not f.init:
                raise Unsupported("a special field of a dataclass")
            if args and not f.kw_only:
                v = args.pop(0)
                if n in kwargs:
                    raise PyRaise(TypeError(f"multiple values for {n!r}"))
            elif n in kwargs:
                v = kwargs.pop(n)
            elif f.default is not dataclasses.MISSING:
                v = f.default
            elif f.default_factory is not dataclasses.MISSING:
                v = self.call(f.default_factory, [], {})
            else:
                raise PyRaise(TypeError(f"missing argument {n!r}"))
            object.__setattr__(obj, n, v)
        if args or kwargs:
            raise PyRaise(TypeError("unexpected argument"))
        self.call(cls.__post_init__, [obj], {})
        return obj

    def native(self, fn, args, kwargs):
        self_ = getattr(fn, "__self__", None)
        name = getattr(fn, "__name__", "")
        if isinstance(self_, str) and name == "join":
            from .shims import str_join
            return str_join(self_, args[0], self)
        if isinstance(self_, re.Pattern) and args and standin(args[0]):
            m = getattr(args[0], "pyvc_" + name, None)
            if m is None or len(args) > 1 or kwargs:
                raise Unsupported(f"a pattern's {name}")
            return m(self_)
        if isinstance(self_, (list, tuple)) and name == "index" and len(args) == 1 and \
                not kwargs and not Q.has_marks(self_) and (symbolic(list(args))
                                                           or symbolic(self_)):
            for i, x in enumerate(list(self_)):
                if self.truth(self.compare("==", x, args[0])):
                    return i
            raise PyRaise(ValueError("not in the sequence"))
        if isinstance(self_, (set, frozenset)) and len(args) == 1 and not kwargs and \
                name in ("isdisjoint", "issuperset") and hasattr(args[0], "issubset") and \
                standin(args[0]):
            return getattr(args[0], {"issuperset": "issubset"}.get(name, name))(self_)
        if isinstance(self_, (list, dict, set)) and not isinstance(fn, type):
            return self.container_method(self_, name, fn, args, kwargs)
        syms = symbolic(list(args)) or symbolic(list(kwargs.values())) or \
            (self_ is not None and symbolic(self_))
        if syms and not isinstance(self_, (Sym, SArr, SSeq, IdxSet, Q.IdxMask, FStr, Q.Joined)) \
                and not getattr(fn, "pyvc_ok", False) \
                and not getattr(type(self_), "pyvc_ok", False) \
                and fn not in NATIVE_OK and not dataclass_type(fn):
            raise Unsupported(f"call of {getattr(fn, '__qualname__', fn)!r:.80} "
                              "with symbolic arguments")
        try:
            return fn(*args, **kwargs)
        except (PyRaise, Signal, Unsupported):
            raise
        except Exception as e:
            if (syms or standin(self_, *args, *kwargs.values())) and \
                    isinstance(e, TYPEERR):
                raise Unsupported(f"{type(e).__name__} in {name}: {e}")
            raise PyRaise(e)

    def container_method(self, obj, name, fn, args, kwargs):
        if isinstance(obj, dict) and name in ("get", "__getitem__", "pop", "setdefault") \
                and args and symbolic(args[0]):
            if name != "get":
                raise Unsupported(f"dict.{name} with a symbolic key")
            return self.dict_get(obj, args[0],
                                 args[1] if len(args) > 1 else kwargs.get("default"))
        mut = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse",
               "add", "discard", "update", "setdefault", "popitem", "__setitem__",
               "__delitem__", "difference_update", "intersection_update"}
        if name in mut:
            self.writable(obj)
            for r in reversed(cur().rec):
                if r.external(obj):
                    return r.container(self, obj, name, args, kwargs)
        elif cur().rec:
            for r in cur().rec:
                r.read_container(obj, name)
        if Q.has_marks(obj) and name not in ("append", "extend", "clear"):
            raise Unsupported(f"list.{name} on a list of symbolic length")
        if name == "extend":
            obj.extend(Q.parts(args[0]) if not hasattr(args[0], "__next__")
                       else list(args[0]))
            return None
        if isinstance(obj, list) and name in ("remove", "index", "count") and \
                (symbolic(args) or symbolic(obj)):
            raise Unsupported(f"list.{name} of symbolic values")
        if isinstance(obj, set) and symbolic(args):
            raise Unsupported("a set of symbolic values")
        try:
            return fn(*args, **kwargs)
        except (PyRaise, Signal, Unsupported):
            raise
        except Exception as e:
            raise PyRaise(e)

    def dict_get(self, d, key, default):
        for k in d:
            r = self.compare("==", key, k)
            if self.truth(r):
                return d[k]
        return default

    def created(self, obj):
        for r in cur().rec:
            r.created(obj)
        return obj

    # ------------------------------------------------------------ attributes
    def getattr(self, obj, name):
        if isinstance(obj, Poison):
            raise Unsupported(obj.why)
        if isinstance(obj, SElem):
            st = obj.struct
            if name in st.fields:
                return st.fields[name](*obj.idx)
            if name == "__class__":
                return st.cls
            a = inspect.getattr_static(st.cls, name, None)
            if isinstance(a, property):
                c = self.contract_for(a.fget)
                if c is not None:
                    return c(self, [obj], {})
                return self.run(self.func_of(a.fget), [obj], {})
            if isinstance(a, types.FunctionType):
                return BoundElem(obj, a)
            if a is None or isinstance(a, types.MemberDescriptorType):
                raise Unsupported(f"field {name} of {st.name}")
            return a
        if isinstance(obj, SDict):
            if name in ("get", "items", "keys", "values", "setdefault"):
                return DictMethod(obj, name)
            raise Unsupported(f"dict.{name}")
        if cur().rec:
            for r in cur().rec:
                r.read_attr(obj, name)
        if id(obj) in cur().templates and name in getattr(obj, "__dict__", ()):
            from . import loops
            v, (_, since, k) = obj.__dict__[name], cur().templates[id(obj)]
            if loops.free_names(v, since) or k in loops.term_names(v):
                raise Unsupported("an object made in an iteration")
        if not isinstance(obj, (type, types.ModuleType)):
            a = inspect.getattr_static(type(obj), name, None)
            if isinstance(a, property) and is_src(a.fget):
                c = self.contract_for(a.fget)
                if c is not None:
                    return c(self, [obj], {})
                return self.run(self.func_of(a.fget), [obj], {})
        try:
            return getattr(obj, name)
        except (PyRaise, Unsupported):
            raise
        except AttributeError as e:
            if standin(obj):
                raise Unsupported(f"attribute {name} of {type(obj).__name__}")
            raise PyRaise(e)

    def setattr(self, obj, name, v):
        if isinstance(obj, SElem):
            for r in cur().rec:
                r.elem_write(obj, name, v)
            old = obj.struct.fields.get(name)
            idx = list(obj.idx)

            def field(*i):
                c = C.land(*[SBool(eq(a, b)) for a, b in zip(i, idx)])
                if z3.is_true(z3.simplify(c.t)):
                    return v
                return ite(c, v, old(*i))
            obj.struct.fields[name] = field
            return
        a = inspect.getattr_static(type(obj), name, None)
        if isinstance(a, property) and a.fset is not None and is_src(a.fset):
            self.run(self.func_of(a.fset), [obj, v], {})
            return
        if id(obj) in cur().templates:
            raise Unsupported("writing to an object made in an iteration")
        for r in cur().rec:
            r.attr_write(obj, name)
        setattr(obj, name, v)

    # ------------------------------------------------------------- subscripts
    def getitem(self, obj, key):
        if isinstance(obj, SDict):
            return obj.lookup(key)
        if cur().rec and isinstance(obj, (list, dict)):
            for r in cur().rec:
                r.read_container(obj, "__getitem__")
        if isinstance(obj, (list, tuple)):
            if Q.has_marks(obj):
                sv = seqview(obj)
                if sv is not None:
                    return SSeq(*sv)[key]
                return self.marked_item(obj, key)
            if isinstance(key, SInt):
                k = simp(key)
                if isinstance(k, int):
                    key = k
                else:
                    return self.pick_item(obj, key)
            elif isinstance(key, slice) and (symbolic([key.start, key.stop, key.step])):
                raise Unsupported("symbolic slice of a concrete list")
        elif isinstance(obj, str) and isinstance(key, (SInt, SBool)):
            return self.pick_item(obj, key)
        elif isinstance(obj, dict) and symbolic(key):
            miss = object()
            r = self.dict_get(obj, key, miss)
            if r is miss:
                raise PyRaise(KeyError(key))
            return r
        elif isinstance(obj, np.ndarray) and symbolic(key):
            return SArr.from_np(obj)[key]
        try:
            return obj[key]
        except (PyRaise, Unsupported, Signal):
            raise
        except Exception as e:
            if (symbolic(obj) or standin(obj, key)) and isinstance(e, TYPEERR):
                raise Unsupported(f"subscript of {type(obj).__name__}: {e}")
            raise PyRaise(e)

    def marked_item(self, obj, key):
        if isinstance(key, int) and key >= 0 and key < len(obj) and \
                not any(isinstance(e, (Each, IfE)) for e in obj[:key + 1]):
            return obj[key]
        if isinstance(key, int) and key < 0 and -key <= len(obj) and \
                not any(isinstance(e, (Each, IfE)) for e in obj[key:]):
            return obj[key]
        if isinstance(key, slice) and key.step is None and isinstance(key.start, int) \
                and key.stop is None and key.start >= 0 and \
                not any(isinstance(e, (Each, IfE)) for e in obj[:key.start]):
            return obj[key]
        if isinstance(key, slice) and key.step in (None, 1):
            n = next(i for i, e in enumerate(obj) if isinstance(e, (Each, IfE)))
            lo, hi = key.start or 0, key.stop
            if isinstance(lo, int) and isinstance(hi, int) and 0 <= lo and 0 <= hi <= n:
                return obj[lo:hi]
            if isinstance(lo, int) and isinstance(hi, int) and 0 <= lo <= n < hi:
                out, at = list(obj[lo:n]), n
                for p in obj[n:]:
                    if isinstance(p, Each) and seqview([p]) is not None:
                        left = simp(C.ite(at < hi, hi - at, 0)) \
                            if not isinstance(at, int) else max(hi - at, 0)
                        out.append(Each(simp(ite(p.n < left, p.n, left)), p.fn))
                        at = simp(at + p.n)
                    elif isinstance(p, (Each, IfE)):
                        break
                    else:
                        if isinstance(at, int):
                            out += [p] if at < hi else []
                        else:
                            out.append(IfE(at < hi, [p], []))
                        at = simp(at + 1)
                else:
                    return type(obj)(out)
        if isinstance(key, int) and key in (0, -1):
            from . import shims
            s = cur()
            for o, items, k, v in s.ends:
                if o is obj and k == key and len(items) == len(obj) and \
                        all(x is y for x, y in zip(items, obj)):
                    return v
            try:
                v = shims.end_part(list(obj), key == -1)
            except StopIteration:
                raise PyRaise(IndexError("list index out of range"))
            s.ends.append((obj, list(obj), key, v))
            return v
        raise Unsupported("subscript of a list of symbolic length")

    def pick_item(self, obj, key):
        """Concrete sequence, symbolic index: by cases."""
        n = len(obj)
        i = Q.norm_index(key, n)
        if isinstance(i, int):
            return obj[i]
        try:
            r = obj[n - 1]
            if isinstance(r, str):
                raise Unsupported("")
            for k in range(n - 2, -1, -1):
                r = ite(i == k, obj[k], r)
            return r
        except Unsupported:
            for k in range(n - 1):
                if bool(i == k):
                    return obj[k]
            return obj[n - 1]

    @staticmethod
    def writable(obj):
        if id(obj) in cur().copies:
            raise Unsupported("writing to an item of a symbolic sequence")

    def setitem(self, obj, key, v):
        from .loops import GrowingDict
        if isinstance(obj, GrowingDict):
            obj = obj.real
        self.writable(obj)
        if isinstance(obj, (list, dict)):
            for r in reversed(cur().rec):
                if r.external(obj):
                    return r.container(self, obj, "__setitem__", [key, v], {})
        if isinstance(obj, dict) and symbolic(key):
            raise Unsupported("a symbolic key stored in a dictionary")
        if isinstance(obj, list) and (Q.has_marks(obj) or isinstance(key, SInt)):
            k = simp(key) if isinstance(key, SInt) else key
            if not isinstance(k, int) or Q.has_marks(obj):
                if isinstance(k, SInt) and not Q.has_marks(obj):
                    i = Q.norm_index(k, len(obj))
                    for j in range(len(obj)):
                        obj[j] = ite(i == j, v, obj[j])
                    return
                raise Unsupported("assignment into a list of symbolic length")
            key = k
        if isinstance(obj, SDict):
            raise Unsupported("assignment into a symbolic dictionary")
        if isinstance(obj, np.ndarray) and (symbolic(v) or symbolic(key)):
            raise Unsupported("symbolic value stored in a concrete array")
        if type(obj).__module__.startswith("pyvc.") and \
                not hasattr(type(obj), "__setitem__"):
            raise Unsupported("assignment into " + type(obj).__name__)
        try:
            obj[key] = v
        except (PyRaise, Unsupported, Signal):
            raise
        except Exception as e:
            raise PyRaise(e)

    # ---------------------------------------------------------------- truth
    def truth(self, v):
        if isinstance(v, (list, tuple)) and Q.has_marks(v):
            n = Q.length(v)
            if isinstance(simp(n), int) or all(
                    not isinstance(p, Each) or seqview([p]) is not None for p in v):
                return self.truth(self.compare(">", n, 0))
            from . import shims
            r = bool(shims.some_parts(list(v)))
            cur().assume(self.compare(">", n, 0) if r else self.compare("==", n, 0))
            return r
        if isinstance(v, SSeq):
            return self.truth(self.compare(">", v.n, 0))
        if isinstance(v, SDict):
            return bool(v.nonempty())
        if isinstance(v, FStr):
            b = v.blank()
            if b is None or v.loose and b is not False:
                raise Unsupported("truth value of a printed string")
            return bool(v.parts)
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        try:
            return bool(v)
        except (PyRaise, Unsupported, Signal):
            raise
        except Exception as e:
            raise PyRaise(e)

    def compare(self, op, a, b):
        if op == "is":
            if a is b:
                return True
            if isinstance(a, SElem) and isinstance(b, SElem):
                return a == b
            if hasattr(a, "pyvc_is"):
                return a.pyvc_is(b)
            if hasattr(b, "pyvc_is"):
                return b.pyvc_is(a)
            if isinstance(a, (Sym, SArr)) or isinstance(b, (Sym, SArr)):
                if a is None or b is None or a in (True, False) if not symbolic(a) \
                        else (b is None):
                    return False
                if isinstance(a, SBool) or isinstance(b, SBool):
                    return a == b
                return False
            return False
        if op == "is not":
            r = self.compare("is", a, b)
            return ~r if isinstance(r, SBool) else not r
        if op in ("in", "not in"):
            r = self.contains(b, a)
            if op == "in":
                return r
            return ~r if isinstance(r, SBool) else not r
        f = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le,
             ">": operator.gt, ">=": operator.ge}[op]
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and \
                (symbolic(a) or symbolic(b)):
            if op not in ("==", "!="):
                raise Unsupported("ordering of symbolic sequences")
            if isinstance(a, list) != isinstance(b, list):
                return op == "!="
            if Q.has_marks(a) or Q.has_marks(b):
                raise Unsupported("comparison of sequences of symbolic length")
            if len(a) != len(b):
                return op == "!="
            r = SBool(z3.BoolVal(True))
            for x, y in zip(a, b):
                r = C.land(r, C.boolterm(self.compare("==", x, y)))
            return r if op == "==" else ~r
        if isinstance(a, SSeq) and not isinstance(a, T.SText) or \
                isinstance(b, SSeq) and not isinstance(b, T.SText):
            return self.compare_seqs(op, a, b)
        try:
            return f(a, b)
        except (PyRaise, Unsupported, Signal):
            raise
        except Exception as e:
            if symbolic(a) or symbolic(b) or standin(a, b):
                raise Unsupported(f"comparison {op}: {e}")
            raise PyRaise(e)

    def compare_seqs(self, op, a, b):
        if op not in ("==", "!="):
            raise Unsupported("ordering of symbolic sequences")
        kinds = [x.kind if isinstance(x, SSeq) else type(x).__name__ for x in (a, b)]
        if not all(k in ("list", "tuple", "range") for k in kinds):
            if any(isinstance(x, (SArr, Sym)) for x in (a, b)):
                raise Unsupported("comparison of a sequence")
            return op == "!="
        if kinds[0] != kinds[1]:
            return op == "!="
        va, vb = seqview(a), seqview(b)
        if va is None and isinstance(a, (list, tuple)) and not Q.has_marks(a):
            va = (len(a), lambda k: self.pick_item(a, k))
        if vb is None and isinstance(b, (list, tuple)) and not Q.has_marks(b):
            vb = (len(b), lambda k: self.pick_item(b, k))
        if va is None or vb is None:
            raise Unsupported("comparison of sequences of symbolic length")
        n = next((x for x in (va[0], vb[0]) if isinstance(x, int)), va[0])
        r = C.land(SBool(eq(va[0], vb[0])), Q.quant("all", n, lambda k: C.boolterm_s(
            self.compare("==", va[1](k), vb[1](k)))) if n != 0 else True)
        return r if op == "==" else ~r

    def contains(self, c, x):
        if isinstance(c, SDict):
            return c.has(x)
        if isinstance(c, IdxSet):
            return c.pred(x)
        if isinstance(c, str) and isinstance(x, str):
            return x in c
        if isinstance(c, str) and isinstance(x, T.SChar):
            return x.pyvc_in(c)
        if hasattr(c, "pyvc_contains"):
            return c.pyvc_contains(self, x)
        sv = seqview(c)
        if sv is not None and (symbolic(c)):
            n, at = sv[0], sv[1]
            return Q.quant("any", n, lambda k: C.boolterm_s(
                self.compare("==", at(k), x)))
        if isinstance(c, (list, tuple, set, frozenset, dict, range)) or \
                type(c).__name__ in ("dict_keys", "dict_values"):
            if not symbolic(x) and not symbolic(list(c)):
                return x in c
            r = SBool(z3.BoolVal(False))
            for e in c:
                if e is x:
                    return True
                if isinstance(e, (Each, IfE)):
                    r = C.lor(r, self.among(e, x))
                    continue
                v = self.compare("==", x, e)
                if v is True:
                    return True
                if v is False:
                    continue
                r = C.lor(r, C.boolterm(v))
            return r
        if symbolic(c) or symbolic(x) or standin(c):
            raise Unsupported(f"membership in {type(c).__name__}")
        try:
            return x in c
        except Exception as e:
            raise PyRaise(e)

    def among(self, p, x):
        """Is x one of the items of this part?"""
        if isinstance(p, IfE):
            both = [C.lor(False, *[self.among(e, x) for e in q]) for q in (p.a, p.b)]
            return ite(SBool(C.boolterm(p.cond)), *both)
        if isinstance(p, Each):
            return Q.quant("any", p.n, lambda k: C.lor(
                False, *[self.among(e, x) for e in p.fn(k)]))
        v = self.compare("==", p, x)
        return v if isinstance(v, bool) else SBool(C.boolterm(v))

    def binop(self, op, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("unknown value")
        if op == "+" and isinstance(a, (list, SSeq)) and isinstance(b, (list, SSeq)):
            return self.created(Q.parts(a) + Q.parts(b))
        if op == "+" and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if op == "*" and isinstance(a, (list, tuple)) and isinstance(b, (SInt,)) or \
                op == "*" and isinstance(b, (list, tuple)) and isinstance(a, SInt):
            lst, n = (a, b) if isinstance(a, (list, tuple)) else (b, a)
            n = simp(n)
            if len(lst) == 1:
                v = lst[0]
                n = n if cur().entails(n >= 0) else simp(ite(n >= 0, n, 0))
                return self.created([Each(n, lambda k: [v])])
        if op == "+" and isinstance(a, (str, T.SChar, T.SText)) and \
                isinstance(b, (str, T.SChar, T.SText)) and \
                not (isinstance(a, str) and isinstance(b, str)):
            return T.SText.of(a) + b
        if op == "+" and (isinstance(a, (FStr, Q.Joined)) or
                          isinstance(b, (FStr, Q.Joined))):
            for x in (a, b):
                if type(x).__name__ == "StrAcc":
                    return a + b
                if not isinstance(x, (str, FStr, Q.Joined, T.SText, T.SChar)):
                    if standin(x):
                        raise Unsupported("a string and something else")
                    raise PyRaise(TypeError("can only concatenate str"))
                if getattr(x, "loose", False):
                    raise Unsupported("a string whose ends are not known")
            return FStr([a, b])
        if op == "%" and isinstance(a, str):
            return FStr([a]) if symbolic(b) else a % b
        if isinstance(a, np.ndarray) and isinstance(b, (Sym, SArr)):
            a = SArr.from_np(a)
        if isinstance(b, np.ndarray) and isinstance(a, (Sym, SArr)):
            b = SArr.from_np(b)
        if isinstance(a, Sym) and isinstance(b, SArr) or \
                isinstance(b, Sym) and isinstance(a, SArr):
            from .arr import ew, matmul
            return matmul(a, b) if op == "@" else ew(op, a, b)
        if isinstance(a, np.generic) and isinstance(b, Sym) and not isinstance(b, SSum):
            return C.arith(op, a, b)
        try:
            return OPS[op](a, b)
        except (PyRaise, Unsupported, Signal):
            raise
        except Exception as e:
            if symbolic(a) or symbolic(b) or standin(a, b):
                raise Unsupported(f"{type(a).__name__} {op} {type(b).__name__}: {e}")
            raise PyRaise(e)

    # ------------------------------------------------------------ statements
    def block(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        m(s, env)

    def s_Pass(self, s, env): pass

    def s_Expr(self, s, env):
        if self.merge_calls and isinstance(s.value, ast.Call) and no_walrus(s):
            from . import loops
            return loops.merged(self, lambda: self.eval(s.value, env))
        self.eval(s.value, env)

    def s_Assign(self, s, env):
        v = self.eval(s.value, env)
        if isinstance(s.value, ast.GeneratorExp):
            # what is evaluated here is evaluated later by Python
            names = [x for x in ast.walk(s.value) if isinstance(x, ast.Name)]
            env.used = env.used | {x.id for x in names if isinstance(
                x.ctx, ast.Load)} - {x.id for x in names if isinstance(x.ctx, ast.Store)}
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def s_AugAssign(self, s, env):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            old = env.lookup(t.id)
            env.bind(t.id, self.inplace(op, old, self.eval(s.value, env)))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(op, old, self.eval(s.value, env)))
        else:
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            old = self.getitem(o, k)
            self.setitem(o, k, self.inplace(op, old, self.eval(s.value, env)))

    def inplace(self, op, old, v):
        if isinstance(old, SArr):
            r = self.binop(op, old, v)
            from .arr import as_arr
            r = as_arr(r)
            if r.ndim != old.ndim:
                raise PyRaise(ValueError("non-broadcastable output operand"))
            if old.dt == "u1" and r.dt == "f" or old.dt in ("u1", "i8") and r.dt == "f":
                raise PyRaise(TypeError("Cannot cast ufunc output"))
            old[tuple(slice(None) for _ in old.shape)] = r
            return old
        if isinstance(old, list):
            if op == "+":
                self.container_method(old, "extend", old.extend, [v], {})
                return old
            raise Unsupported("in-place list operator")
        if isinstance(old, (set, dict)):
            raise Unsupported("in-place set operator")
        if isinstance(old, np.ndarray) and not symbolic(v):
            try:
                return IOPS[op](old, v)
            except Exception as e:
                raise PyRaise(e)
        return self.binop(op, old, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.bind(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if Q.has_marks(vals):
                    if any(isinstance(e, (Each, IfE)) for e in vals[:i]) or after:
                        raise Unsupported("unpacking of a symbolic length")
                elif len(vals) < len(t.elts) - 1:
                    raise PyRaise(ValueError("not enough values to unpack"))
                mid = vals[i:len(vals) - after]
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, self.created(list(mid)), env)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(e, x, env)
            else:
                if len(vals) != len(t.elts):
                    raise PyRaise(ValueError("wrong number of values to unpack"))
                for e, x in zip(t.elts, vals):
                    self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval(t.slice, env), v)
        else:
            raise Unsupported(f"assignment to {type(t).__name__}")

    def unpack(self, v, elts):
        n = len(elts)
        if isinstance(v, (list, tuple)):
            if Q.has_marks(v) and not any(isinstance(e, ast.Starred) for e in elts):
                sv = seqview(v)
                if sv is not None:
                    if not bool(SBool(eq(sv[0], n))):
                        raise PyRaise(ValueError("wrong number of values to unpack"))
                    return [sv[1](i) for i in range(n)]
                raise Unsupported("unpacking of a symbolic length")
            return list(v)
        if isinstance(v, (SSeq, SArr)):
            m = Q.length(v)
            if not bool(SBool(eq(m, n))):
                raise PyRaise(ValueError("wrong number of values to unpack"))
            return [v[i] for i in range(n)]
        try:
            return list(v)
        except Exception as e:
            if symbolic(v) or standin(v):
                raise Unsupported(f"unpacking {type(v).__name__}")
            raise PyRaise(e)

    def s_If(self, s, env):
        if self.truth(self.eval(s.test, env)):
            self.block(s.body, env)
        else:
            self.block(s.orelse, env)

    def s_Return(self, s, env):
        raise Signal("return", self.eval(s.value, env) if s.value else None)

    def s_Break(self, s, env):
        raise Signal("break")

    def s_Continue(self, s, env):
        raise Signal("continue")

    def s_Raise(self, s, env):
        if s.exc is None:
            raise env.lookup("%exc")
        e = self.eval(s.exc, env)
        if isinstance(e, type):
            e = e()
        raise PyRaise(e)

    def s_Assert(self, s, env):
        if not self.truth(self.eval(s.test, env)):
            raise PyRaise(AssertionError())

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ok = isinstance(e.exc, self.eval(h.type, env))
                    if ok:
                        if h.name:
                            env.bind(h.name, e.exc)
                        env.vars["%exc"] = e
                        self.block(h.body, env)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            self.block(s.finalbody, env)

    def s_With(self, s, env):
        for item in s.items:
            cm = self.eval(item.context_expr, env)
            if not isinstance(cm, np.errstate) and type(cm).__name__ not in (
                    "catch_warnings", "nullcontext"):
                raise Unsupported(f"with {type(cm).__name__}")
            if item.optional_vars is not None:
                self.assign(item.optional_vars, cm, env)
        self.block(s.body, env)

    def s_FunctionDef(self, s, env):
        a = s.args
        f = Func(self, s, env, env.glob, tuple(self.eval(d, env) for d in a.defaults),
                 {k.arg: self.eval(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults)
                  if d is not None}, s.name)
        if s.decorator_list:
            raise Unsupported("decorated inner function")
        env.bind(s.name, f)

    def s_Import(self, s, env):
        for al in s.names:
            mod = __import__(al.name)
            if al.asname:
                for p in al.name.split(".")[1:]:
                    mod = getattr(mod, p)
                env.bind(al.asname, mod)
            else:
                env.bind(al.name.split(".")[0], mod)

    def s_ImportFrom(self, s, env):
        import importlib
        pkg = env.glob.get("__package__")
        mod = importlib.import_module("." * s.level + (s.module or ""), pkg)
        for al in s.names:
            try:
                v = getattr(mod, al.name)
            except AttributeError:
                v = importlib.import_module(mod.__name__ + "." + al.name)
            env.bind(al.asname or al.name, v)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, env)
                k = self.eval(t.slice, env)
                if symbolic(k) or symbolic(o) or cur().rec:
                    raise Unsupported("del of a symbolic item")
                self.writable(o)
                try:
                    del o[k]
                except Exception as e:
                    raise PyRaise(e)
            else:
                raise Unsupported("del")

    def s_Global(self, s, env):
        raise Unsupported("global statement")

    def s_Nonlocal(self, s, env):
        env.nonlocal_.update(s.names)

    def s_Match(self, s, env):
        v = self.eval(s.subject, env)
        for c in s.cases:
            if self.matches(c.pattern, v, env):
                if c.guard is None or self.truth(self.eval(c.guard, env)):
                    self.block(c.body, env)
                    return

    def matches(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("==", v, self.eval(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare("is", v, p.value))
        if isinstance(p, ast.MatchOr):
            return any(self.matches(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.matches(p.pattern, v, env):
                return False
            if p.name:
                env.bind(p.name, v)
            return True
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (list, tuple)) or Q.has_marks(v):
                if symbolic(v):
                    raise Unsupported("sequence pattern")
                return False
            if any(isinstance(q, ast.MatchStar) for q in p.patterns):
                raise Unsupported("star pattern")
            return len(v) == len(p.patterns) and all(
                self.matches(q, x, env) for q, x in zip(p.patterns, v))
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            from .shims import isinstance_
            return isinstance_(self, v, self.eval(p.cls, env))
        raise Unsupported(f"pattern {type(p).__name__}")

    def s_While(self, s, env):
        inv = self.invariant(s, env)
        if inv is not None:
            return self.while_inv(s, env, inv)
        if self.counting(s, env):
            return
        n = 0
        while self.truth(self.eval(s.test, env)):
            n += 1
            if n > 2000:
                raise Unsupported("while loop without an invariant")
            try:
                self.block(s.body, env)
            except Signal as g:
                if g.kind == "break":
                    return
                if g.kind != "continue":
                    raise
        self.block(s.orelse, env)

    def counting(self, s, env):
        """while v < bound: ...; v += 1 with a bound that stays: a loop over a range."""
        t, last = s.test, s.body[-1]
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1
                and isinstance(t.ops[0], ast.Lt) and isinstance(t.left, ast.Name)
                and isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add)
                and isinstance(last.target, ast.Name) and last.target.id == t.left.id
                and isinstance(last.value, ast.Constant) and last.value.value == 1
                and not s.orelse and len(s.body) > 1):
            return False
        v, bound = t.left.id, t.comparators[0]
        rest = assigned(s.body[:-1])
        if v in rest or any(isinstance(x, (ast.Break, ast.Continue, ast.Return))
                            for st in s.body for x in ast.walk(st)):
            return False
        for x in ast.walk(bound):
            if not isinstance(x, (ast.Name, ast.Constant, ast.BinOp, ast.operator,
                                  ast.Load)) or \
                    isinstance(x, ast.Name) and x.id in rest | {v}:
                return False
        v0, b = env.lookup(v), self.eval(bound, env)
        if not (isinstance(v0, (int, SInt)) and isinstance(b, (int, SInt))
                and (isinstance(v0, SInt) or isinstance(b, SInt))) or v not in env.vars:
            return False
        from . import loops
        d = simp_idx(b - v0)
        n = max(d, 0) if isinstance(d, int) else \
            d if cur().entails(d >= 0) else C.ite(d >= 0, d, 0)

        def step(item):
            env.vars[v] = item
            self.block(s.body[:-1], env)
        loops.generic(self, Each(n, lambda k: [v0 + k]), step, env, rest)
        env.vars[v] = v0 + n
        return True

    def invariant(self, s, env):
        e = env
        while e is not None and e.fn is None:
            e = e.parent
        if e is None or not self.invariants:
            return None
        ordinal = loops_of(e.fn.node).get(id(s))
        return self.invariants.get((e.fn.qualname, ordinal))

    def while_inv(self, s, env, inv):
        sess = cur()
        name = inv.name
        inv.check(self, env, name + ": holds on entry")
        sess.abstract(name, C.INVARIANT)
        names = assigned(s.body)
        self.forget(env, names, inv)
        inv.havoc(self, env)
        if self.truth(self.eval(s.test, env)):
            m0 = inv.measure(self, env) if hasattr(inv, "measure") else None
            brk = False
            try:
                self.block(s.body, env)
            except Signal as g:
                if g.kind == "break":
                    brk = True
                elif g.kind != "continue":
                    raise
            if not brk:
                inv.check(self, env, name + ": preserved")
                if m0 is not None:
                    m1 = inv.measure(self, env)
                    sess.prove(C.land(m1 < m0, m0 >= 0), name + ": measure decreases")
                raise C.PathEnd()
        else:
            self.block(s.orelse, env)

    def forget(self, env, names, inv):
        for n in names:
            if n in env.vars and n not in inv.vars:
                env.vars[n] = Poison(f"variable {n} after a loop")

    def s_For(self, s, env):
        it = self.eval(s.iter, env)
        if isinstance(it, IdxSet) and cur().entails(
                z3.Not(C.boolterm(it.nonempty()))):
            return self.block(s.orelse, env)
        if hasattr(type(it), "pyvc_iter"):
            it = it.pyvc_iter(self)
        inv = self.invariant(s, env)
        if inv is None and self.provider is not None:
            sv = seqview(it) if symbolic(it) else None
            if sv is not None and not isinstance(simp_idx(sv[0]), int):
                inv = self.provider(self, s, env, sv)
            elif isinstance(it, IdxSet) and getattr(self.provider, "index_sets", False):
                inv = self.provider(self, s, env, (it.n, lambda k: k, it))
        if inv is not None:
            sv = (it.n, lambda k: k, it) if isinstance(it, IdxSet) else seqview(it)
            if sv is None and not symbolic(it):
                raise Unsupported("invariant on a concrete loop")
            return self.for_inv(s, env, inv, sv)
        try:
            for p in self.iterate(it):
                if isinstance(p, (Each, IfE)):
                    self.loop_part(p, s, env)
                    continue
                self.assign(s.target, p, env)
                try:
                    self.block(s.body, env)
                except Signal as g:
                    if g.kind != "continue":
                        raise
        except Signal as g:
            if g.kind == "break":
                return
            raise
        self.block(s.orelse, env)

    def iterate(self, it):
        """Items, with Each/IfE for repetitions."""
        if isinstance(it, (SSeq, Q.SRange)):
            n = simp(it.n)
            if isinstance(n, int):
                return [it.at(k) for k in range(n)]
            return Q.parts(it)
        if isinstance(it, SArr):
            n = it.shape[0]
            if isinstance(n, int):
                return [it[i] for i in range(n)]
            if it.ndim == 1:
                return Q.parts(it)
            return [Each(n, lambda k: [it[k]])]
        if isinstance(it, SDict):
            return Q.parts(it.seq_keys())
        if isinstance(it, IdxSet):
            return [EachIdx(it)]
        if hasattr(it, "pyvc_iter"):
            return it.pyvc_iter(self)
        if isinstance(it, Poison):
            raise Unsupported(it.why)
        if isinstance(it, Sym):
            raise PyRaise(TypeError("object is not iterable"))
        if cur().rec and isinstance(it, (list, dict)):
            for r in cur().rec:
                r.read_container(it, "__iter__")
        m = getattr(type(it), "__iter__", None)
        if is_src(m):
            r = self.call(m, [it], {})
            nx = getattr(type(r), "__next__", None)
            return self.source_iter(r, nx) if is_src(nx) else self.iterate(r)
        try:
            return self.native_iter(iter(it))
        except (PyRaise, Unsupported, Signal):
            raise
        except Exception as e:
            if symbolic(it) or standin(it):
                raise Unsupported(f"iteration over {type(it).__name__}")
            raise PyRaise(e)

    def source_iter(self, it, nx):
        for _ in range(100):
            try:
                x = self.call(nx, [it], {})
            except PyRaise as e:
                if isinstance(e.exc, StopIteration):
                    return
                raise
            yield x
        raise Unsupported("a long iteration")

    def native_iter(self, it):
        while True:
            try:
                x = next(it)
            except StopIteration:
                return
            except (PyRaise, Unsupported, Signal):
                raise
            except Exception as e:
                raise PyRaise(e)
            yield x

    def for_inv(self, s, env, inv, sv):
        sess = cur()
        n, at = sv[0], sv[1]
        name = inv.name
        inv.n = n
        inv.check(self, env, 0, name + ": holds on entry")
        sess.abstract(name, C.INVARIANT)
        names = assigned(s.body) | assigned_target(s.target)
        self.forget(env, names, inv)
        k = C.fresh_int("k")
        if bool(C.fresh_bool("iter")):
            sess.assume(C.land(k >= 0, k < n))
            inv.phase = "body"
            inv.havoc(self, env, k)
            if len(sv) == 3 and isinstance(sv[2], IdxSet) and \
                    not bool(SBool(C.boolterm(sv[2].pred(k)))):
                # not in the index set: no iteration for this k
                inv.check(self, env, k + 1, name + ": preserved")
                raise C.PathEnd()
            self.assign(s.target, at(k), env)
            brk = False
            try:
                self.block(s.body, env)
            except Signal as g:
                if g.kind == "break":
                    brk = True
                elif g.kind != "continue":
                    raise
            if not brk:
                inv.check(self, env, k + 1, name + ": preserved")
                raise C.PathEnd()
            return
        inv.phase = "after"
        inv.havoc(self, env, simp(n))
        self.block(s.orelse, env)

    def loop_part(self, p, s, env):
        from . import loops
        if isinstance(p, IfE):
            for q in (p.a if bool(SBool(C.boolterm(p.cond))) else p.b):
                if isinstance(q, (Each, IfE)):
                    self.loop_part(q, s, env)
                else:
                    self.assign(s.target, q, env)
                    try:
                        self.block(s.body, env)
                    except Signal as g:
                        if g.kind != "continue":
                            raise
            return
        if isinstance(p, EachIdx):
            return loops.index_set_loop(self, p.set, s, env)
        try:
            loops.summarise(self, p, s, env)
        except loops.ReadAndWritten:
            # row i updated in iteration i
            k = C.fresh_int("k")
            item = p.fn(k)
            if not (isinstance(item, list) and len(item) == 1 and
                    isinstance(item[0], SInt) and cur().entails(eq(item[0], k))):
                raise
            loops.index_set_loop(self, IdxSet(p.n, lambda i: SBool(z3.BoolVal(True))),
                                 s, env)

    # ----------------------------------------------------------- expressions
    def eval(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, env)

    def e_Constant(self, e, env): return e.value
    def e_Name(self, e, env): return filled(env.lookup(e.id))

    def e_Attribute(self, e, env):
        return filled(self.getattr(self.eval(e.value, env), e.attr))

    def e_Subscript(self, e, env):
        return filled(self.getitem(self.eval(e.value, env), self.eval(e.slice, env)))

    def e_Slice(self, e, env):
        g = lambda x: None if x is None else simp_idx(self.eval(x, env))  # noqa: E731
        return slice(g(e.lower), g(e.upper), g(e.step))

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return self.created(self.elts(e.elts, env))

    def e_Set(self, e, env):
        vals = self.elts(e.elts, env)
        if symbolic(vals):
            raise Unsupported("a set of symbolic values")
        return self.created(set(vals))

    def elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, env)
                out.extend(self.spread(v))
            else:
                out.append(self.eval(x, env))
        return out

    def spread(self, v):
        return list(self.iterate(v))

    def e_Dict(self, e, env):
        d = PDict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                sub = self.eval(v, env)
                if symbolic(sub) and not isinstance(sub, dict):
                    raise Unsupported("unpacking a symbolic dictionary")
                d.update(sub)
            else:
                kk = self.eval(k, env)
                vv = self.eval(v, env)
                if symbolic(kk):
                    raise Unsupported("a symbolic key in a dictionary")
                d[kk] = vv
        return self.created(d)

    def e_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.eval(x, env)
            if x is e.values[-1]:
                return v
            t = self.truth(v)
            if t != is_and:
                # the value itself decides; a symbolic Boolean is now known
                return (t if isinstance(v, SBool) else v)
        return v

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SBool):
                return ~v
            return not self.truth(v)
        try:
            if isinstance(e.op, ast.USub):
                return -v
            if isinstance(e.op, ast.Invert):
                return ~v
            return +v
        except (PyRaise, Unsupported):
            raise
        except Exception as x:
            if symbolic(v):
                raise Unsupported(str(x))
            raise PyRaise(x)

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.binop(BINOPS[type(e.op)], a, b)

    CMPS = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">",
            ast.GtE: ">=", ast.Is: "is", ast.IsNot: "is not", ast.In: "in",
            ast.NotIn: "not in"}

    def e_Compare(self, e, env):
        left = self.eval(e.left, env)
        n = len(e.ops)
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(c, env)
            r = self.compare(self.CMPS[type(op)], left, right)
            if i == n - 1:
                return r
            if not self.truth(r):
                return r if not isinstance(r, SBool) else False
            left = right

    def e_IfExp(self, e, env):
        return self.eval(e.body if self.truth(self.eval(e.test, env)) else e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        t = env
        while t.fn is None and t.parent is not None:
            t = t.parent
        t.bind(e.target.id, v)
        return v

    def e_Lambda(self, e, env):
        return Func(self, e, env, env.glob,
                    tuple(self.eval(d, env) for d in e.args.defaults), {}, "<lambda>")

    def e_JoinedStr(self, e, env):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                out.append(p.value)
            else:
                v = self.eval(p.value, env)
                spec = self.eval(p.format_spec, env) if p.format_spec else ""
                if symbolic(v) or isinstance(v, (SArr,)):
                    out.append(v if not spec else FStr([v]))
                    if spec:
                        out.append(FStr([("spec", str(spec))]))
                else:
                    try:
                        w = {115: str, 114: repr, 97: ascii, -1: lambda x: x}[
                            p.conversion](v)
                        out.append(format(w, spec))
                    except Exception:
                        out.append("?")
        if all(isinstance(p, str) for p in out):
            return "".join(out)
        return FStr(out)

    def e_FormattedValue(self, e, env):
        return self.e_JoinedStr(ast.JoinedStr(values=[e]), env)

    def e_Call(self, e, env):
        fn = self.eval(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.spread(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        kwargs = {}
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                if isinstance(v, SDict):
                    raise Unsupported("** of a symbolic dictionary")
                kwargs.update(v)
            else:
                kwargs[k.arg] = v
        if isinstance(fn, type) and fn is super and not args:
            return self.super_(env)
        return self.call(fn, args, kwargs)

    def super_(self, env):
        e = env
        while e.fn is None or e.fn.real is None:
            e = e.parent
        first = e.fn.node.args.args[0].arg
        obj = e.lookup(first)
        cls = e.lookup("__class__") if "__class__" in (e.fn.env.vars if e.fn.env else {}) \
            else None
        if cls is None:
            raise Unsupported("super()")
        return super(cls, obj)

    def e_Starred(self, e, env):
        raise Unsupported("starred expression")

    def e_Yield(self, e, env):
        t = env
        while "%yield" not in t.vars:
            t = t.parent
        self.emit(t.vars["%yield"], self.eval(e.value, env) if e.value else None)
        return None

    def e_YieldFrom(self, e, env):
        raise Unsupported("yield from")

    def emit(self, lst, v):
        self.container_method(lst, "append", lst.append, [v], {})

    def comp(self, gens, env, emit):
        """Run the generators of a comprehension, calling emit(env)."""
        from . import loops
        if not gens:
            emit(env)
            return
        g = gens[0]
        src = self.eval(g.iter, env)
        for p in self.iterate(src):
            loops.comp_item(self, p, g, gens[1:], env, emit)

    def e_ListComp(self, e, env):
        return self.created(self.comp_parts(e, env))

    def comp_parts(self, e, env):
        from . import loops
        inner = Env(env.glob, env)
        return loops.comprehension(self, e.generators, inner, lambda en: self.eval(
            e.elt, en))

    def e_GeneratorExp(self, e, env):
        return GenList(self.comp_parts(e, env))

    def e_SetComp(self, e, env):
        ps = self.comp_parts(e, env)
        if symbolic(ps):
            return SetOf(ps)
        return self.created(set(ps))

    def e_DictComp(self, e, env):
        from . import loops
        inner = Env(env.glob, env)
        ps = loops.comprehension(self, e.generators, inner, lambda en: (
            self.eval(e.key, en), self.eval(e.value, en)))
        if any(isinstance(p, (Each, IfE)) for p in ps):
            return loops.dict_from_parts(ps)
        d = {}
        for k, v in ps:
            if symbolic(k):
                raise Unsupported("a symbolic key in a dictionary")
            d[k] = v
        return self.created(d)


class SetOf:
    """A set given by its items; all that can be asked is what is in it."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, items):
        self.items = items

    def pyvc_contains(self, it, x):
        return it.contains(self.items, x)


USED = set()        # built-in and library functions given a meaning in this run


def fname(fn):
    return f"{getattr(fn, '__module__', '') or ''}.{getattr(fn, '__qualname__', fn)}"


def standin(*xs):
    """Is one of these an object of the machinery (not of the program)?"""
    for x in xs:
        t = x if isinstance(x, type) else type(x)
        if getattr(t, "pyvc_ok", False) or (t.__module__ or "").startswith(
                ("pyvc.", "contracts.")) and not issubclass(t, (list, dict, tuple)):
            return True
        if isinstance(x, (list, tuple)) and len(x) < 50 and standin(*x):
            return True
    return False


TYPEERR = (TypeError, AttributeError, RecursionError)


class PDict(dict):
    """A dictionary of the program; once filled by a loop of symbolic length, sym."""

    sym = None


def filled(v):
    return v.sym if type(v) is PDict and v.sym is not None else v


class GenList(list):
    """The items of a generator expression (evaluated eagerly)."""

    def __next__(self):
        if not self:
            raise StopIteration
        if isinstance(self[0], (Each, IfE)):
            raise Unsupported("next() on a symbolic generator")
        return self.pop(0)


class EachIdx(Each):
    def __init__(self, s):
        self.set = s
        self.n = None
        self.fn = None


class BoundElem:
    """A method bound to a symbolic record."""

    def __init__(self, obj, func):
        self.obj, self.func = obj, func
        self.__name__ = func.__name__


class DictMethod:
    def __init__(self, d, name):
        self.d, self.name = d, name
        self.__name__ = name

    pyvc_ok = True

    def __call__(self, *args):
        d = self.d
        if self.name == "get":
            default = args[1] if len(args) > 1 else None
            h = d.has(args[0])
            if isinstance(h, bool):
                return d.get(args[0]) if h else default
            if default is not None and not isinstance(default, (dict, list, SDict)):
                try:
                    v = d.get(args[0])
                    if isinstance(v, (Sym, int, float)):
                        return ite(h, v, default)
                except Unsupported:
                    pass
            return d.get(args[0]) if bool(h) else default
        if self.name == "items":
            return d.seq_items()
        if self.name == "keys":
            return d.seq_keys()
        if self.name == "values":
            ks = d.seq_keys()
            return SSeq(ks.n, lambda i: d.get(ks.at(i)), "values")
        raise Unsupported(f"dict.{self.name}")


def dataclass_type(fn):
    return isinstance(fn, type) and hasattr(fn, "__dataclass_fields__")


NATIVE_OK = {id, type, repr, print, operator.itemgetter}


def simp_idx(v):
    return simp(v) if isinstance(v, (SInt, SBool)) else v


def seqview(x):
    """(n, at) of a uniform sequence of symbolic length, or None."""
    if isinstance(x, SSeq):
        return (x.n, x.at)
    if isinstance(x, SArr):
        return (x.shape[0], lambda k: x[k])
    if isinstance(x, SDict):
        s = x.seq_keys()
        return (s.n, s.at)
    if isinstance(x, (list, tuple)) and len(x) == 1 and isinstance(x[0], Each) and \
            not isinstance(x[0], EachIdx):
        e = x[0]
        uniform = [True]

        def probe():
            if not Q.one_item(e.fn(C.fresh_int("v", 0, e.n))):
                uniform[0] = False
        cur().explore(probe)
        if uniform[0]:
            return (e.n, lambda k: Q.the_item(e.fn(k)))
    return None


@functools.lru_cache(None)
def _loops_of(node):
    out = {}
    n = 0

    def visit(x):
        nonlocal n
        for ch in ast.iter_child_nodes(x):
            if isinstance(ch, (ast.For, ast.While)):
                out[id(ch)] = n
                n += 1
            if not isinstance(ch, (ast.FunctionDef, ast.Lambda)):
                visit(ch)
    visit(node)
    return out


def loops_of(node):
    return _loops_of(node)


@functools.lru_cache(None)
def no_walrus(node):
    return not any(isinstance(x, ast.NamedExpr) for x in ast.walk(node))


@functools.lru_cache(None)
def is_generator(node):
    for x in ast.walk(node):
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def assigned(stmts):
    out = set()
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                out.add(x.id)
    return out


def assigned_target(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
