"""Summaries of loops over ranges of symbolic length, without invariants.

The body is executed once for an arbitrary iteration k.  What it appends to outside
lists becomes a repetition `Each(n, ...)`; numbers that grow by a fixed or an
iteration-dependent amount become products or sums; writes to arrays become a
scatter.  Anything else that outlives an iteration is unknown (Poison), and reading
what another iteration may have written is refused."""
from __future__ import annotations

import ast

import numpy as np
import z3

from . import core as C
from . import seq as Q
from .arr import SArr, simp
from .core import (PyRaise, SBool, SInt, SReal, SSum, Signal, Sym, Unsupported, cur,
                   eq, intterm, ite)
from . import text as T
from .seq import Each, IfE


class Slot:
    """Something that holds a value: a local variable or an attribute."""

    def __init__(self, get, set_, what):
        self.get, self.set, self.what = get, set_, what


class StrAcc:
    """A string that grows from one iteration to the next."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, token, more):
        self.token, self.more = token, more

    def __add__(self, o):
        if not isinstance(o, (str, Q.FStr, Q.Joined, T.SText, T.SChar)):
            raise Unsupported("what is added to a string")
        ps = o.parts if isinstance(o, Q.FStr) else [o]
        return StrAcc(self.token, self.more + [p for p in ps if not (
            isinstance(p, str) and p == "")])

    def __radd__(self, o):
        raise Unsupported("a string which grows at its start")

    def __eq__(self, o):
        raise Unsupported("a string read while it grows")
    __ne__ = __lt__ = __gt__ = __bool__ = __eq__

    def pyvc_isinstance(self, cls):
        return cls in (str, object)

    def longer(self, v0, n, per, full):
        out = None
        for c, v in reversed(per):
            if not isinstance(v, StrAcc) or v.token is not self.token:
                raise Unsupported("a string which grows or is replaced")
            e = v.more
            out = list(e) if out is None else (
                out if not e and not out else [IfE(SBool(c), list(e), out)])
        return Q.FStr([v0, Q.Joined("", [Each(n, lambda i: full(out, i))])])


class Growing(Each):
    """What a list holds at the start of an arbitrary iteration which extends it."""

    def __init__(self):
        pass

    @property
    def n(self):
        raise Unsupported("a list both read and extended in a loop")
    fn = n

    def __repr__(self):
        return "Growing()"


class GrowingDict:
    """What a dictionary holds at the start of an arbitrary iteration filling it."""

    pyvc_ok = True
    __hash__ = None

    def __init__(self, real):
        object.__setattr__(self, "real", real)

    def __getattr__(self, name):
        if name.startswith("__") or name.startswith("pyvc"):
            raise AttributeError(name)
        raise Unsupported("a dictionary both read and filled in a loop")

    def refuse(self, *a):
        raise Unsupported("a dictionary both read and filled in a loop")
    __eq__ = __ne__ = __len__ = __bool__ = __iter__ = __contains__ = refuse
    __getitem__ = refuse


class Restart(BaseException):
    """The loop which this recorder watches has to be run again."""

    def __init__(self, rec):
        self.rec = rec


class Recorder:
    """Watches one loop body."""

    def __init__(self):
        self.own = {}              # id -> object created in this iteration
        self.lists = {}            # id -> object: outside lists appended to
        self.bufs = {}             # id -> buffer written
        self.attrs = {}            # (id, name) -> (object, name)
        self.reads = {}            # id -> object: outside containers read
        self.emits = {}            # id(list) -> parts of this path
        self.writes = {}           # id(buf) -> [(axes, shape, val)] of this path
        self.fields = {}           # (id(struct), name) -> (struct, name) written
        self.offs = {}             # which record an iteration writes: k + offset
        self.fwrites = {}          # (id(struct), name) -> value of this path
        self.grown = {}            # id -> outside lists and dictionaries which grow
        self.lenreads = {}         # id -> outside lists whose length is read
        self.lens = {}             # id -> lists which grow and whose length is read
        self.lenbox = {}           # id -> [length at the start of the iteration]
        self.k = None
        self.n = 0
        self.made = {}             # id -> object created in some iteration

    def mark(self):
        return self.n

    def fresh_path(self):
        self.own, self.emits, self.writes, self.fwrites = {}, {}, {}, {}

    def created(self, obj):
        self.own[id(obj)] = self.made[id(obj)] = obj

    def external(self, obj):
        return id(obj) not in self.own

    def grows(self, obj):
        """From now on, start iterations without knowing what this holds."""
        if id(obj) not in self.grown:
            self.grown[id(obj)] = obj
            recs = cur().rec
            if not any(id(obj) in r.grown for r in recs if r is not self):
                raise Restart(self)

    def container(self, it, obj, name, args, kwargs):
        self.n += 1
        if isinstance(obj, dict) and name == "__setitem__" and hasattr(obj, "sym"):
            if id(obj) in self.reads:
                raise Unsupported("a dictionary both read and filled in a loop")
            self.grows(obj)
            self.lists[id(obj)] = obj
            self.emits.setdefault(id(obj), []).append((args[0], args[1]))
            return
        if isinstance(obj, dict) and name in ("update", "setdefault"):
            raise Unsupported("a dictionary filled in a loop of symbolic length")
        if not isinstance(obj, list) or name not in ("append", "extend"):
            raise Unsupported(f"{type(obj).__name__}.{name} in a loop of symbolic length")
        if id(obj) in self.reads:
            raise Unsupported("a list both read and extended in a loop")
        if id(obj) in self.lenreads and id(obj) not in self.lens:
            self.lens[id(obj)] = obj
            raise Restart(self)
        self.grows(obj)
        self.lists[id(obj)] = obj
        new = [args[0]] if name == "append" else Q.parts(
            list(args[0]) if hasattr(args[0], "__next__") else args[0])
        self.emits.setdefault(id(obj), []).extend(new)

    def length_of(self, obj):
        """The length, at this point of the iteration, of a list which grows."""
        if id(obj) in self.own or not isinstance(obj, list):
            return None
        if id(obj) in self.lens:
            new = self.emits.get(id(obj), [])
            if any(isinstance(p, (Each, IfE)) for p in new):
                raise Unsupported("the length of a list which grows")
            return self.lenbox[id(obj)][0] + len(new)
        if id(obj) in self.lists or id(obj) in self.grown:
            self.lens[id(obj)] = obj
            raise Restart(self)
        self.lenreads[id(obj)] = obj
        return None

    def read_container(self, obj, name):
        if id(obj) in self.own:
            return
        if name == "__len__" and isinstance(obj, list):
            return
        if id(obj) in self.lists or id(obj) in self.grown:
            raise Unsupported("a list both read and extended in a loop")
        self.reads[id(obj)] = obj

    def read_attr(self, obj, name):
        pass

    def attr_write(self, obj, name):
        self.n += 1
        if id(obj) in self.own:
            return
        if (id(obj), name) not in self.attrs:
            self.attrs[(id(obj), name)] = (obj, name)
            raise Restart(self)

    def elem_write(self, elem, name, v):
        self.n += 1
        key = (id(elem.struct), name)
        off = affine_in(intterm(elem.idx[0]), self.k.t) \
            if len(elem.idx) == 1 and self.k is not None else None
        if off is None:
            raise Unsupported("a record written in a loop of symbolic length")
        if key not in self.offs:
            self.offs[key] = off
            self.fields[key] = (elem.struct, name)
            raise Restart(self)
        if not self.offs[key].eq(off):
            raise Unsupported("records written by several iterations")
        self.fwrites[key] = v

    def buf_write(self, buf, axes, shape, val):
        if id(buf) in self.own:
            return
        if getattr(buf, "born", -1) >= self.birth:
            return
        self.n += 1
        if id(buf) not in self.bufs:
            self.bufs[id(buf)] = buf
            raise Restart(self)
        self.writes.setdefault(id(buf), []).append((list(axes), tuple(shape), val))


def poisoned(what):
    from .interp import Poison
    return Poison(what)


MISSING = object()


def summarise(it, each, s, env):
    """A for statement over a repetition."""
    def step(item):
        it.assign(s.target, item, env)
        try:
            it.block(s.body, env)
        except Signal as g:
            if g.kind != "continue":
                raise
    names = set()
    from .interp import assigned, assigned_target
    names = assigned(s.body) | assigned_target(s.target)
    generic(it, each, step, env, names)


def comprehension(it, gens, env, f):
    out = []
    it.created(out)

    def emit(en):
        v = f(en)
        it.container_method(out, "append", out.append, [v], {})
    it.comp(gens, env, emit)
    return out


def comp_item(it, p, g, rest, env, emit):
    if isinstance(p, IfE):
        for q in (p.a if bool(SBool(C.boolterm(p.cond))) else p.b):
            comp_item(it, q, g, rest, env, emit)
        return
    from .interp import EachIdx, assigned_target
    if isinstance(p, EachIdx):
        raise Unsupported("comprehension over an index set")

    def step(item):
        it.assign(g.target, item, env)
        for c in g.ifs:
            if not it.truth(it.eval(c, env)):
                return
        it.comp(rest, env, emit)
    if isinstance(p, Each):
        generic(it, p, step, env, assigned_target(g.target))
    else:
        step(p)


def envs(env):
    out = []
    while env is not None:
        out.append(env)
        env = env.parent
    return out


def generic(it, each, step, env, names):
    """Run `step` for every item of a repetition."""
    s = cur()
    n = simp(each.n)
    if isinstance(n, int):
        for k in range(n):
            run_parts(it, each.fn(k), step, env, names)
        return
    rec = Recorder()
    chain = envs(env)
    k = rec.k = SInt(z3.Int(s.name_for("it")))
    while True:
        try:
            return attempt(it, each, n, k, step, env, names, rec, chain)
        except Restart as r:
            if r.rec is not rec:
                raise


def run_parts(it, ps, step, env, names):
    for p in ps:
        if isinstance(p, IfE):
            run_parts(it, p.a if bool(SBool(C.boolterm(p.cond))) else p.b, step, env,
                      names)
        elif isinstance(p, Each):
            generic(it, p, step, env, names)
        else:
            step(p)


def attempt(it, each, n, k, step, env, names, rec, chain):
    s = cur()
    rec.n = 0
    saved = [dict(e.vars) for e in chain]
    rec.lists, rec.reads, rec.lenreads = {}, {}, {}
    lists = rec.lists
    bufs = dict(rec.bufs)
    attrs = dict(rec.attrs)
    old_get = {i: b.get for i, b in bufs.items()}
    fields = dict(rec.fields)
    old_fields = {key: st.fields.get(nm) for key, (st, nm) in fields.items()}
    held = {i: lst.sym if isinstance(lst, dict) else list(lst)
            for i, lst in rec.grown.items()}
    since = s.counter
    rec.birth = s.new_birth()

    def own_record(key):
        """The field of the record of this iteration; others are not to be read."""
        old, off = old_fields[key], rec.offs[key]

        def field(*i):
            if old is None or not s.entails(
                    z3.And(intterm(i[0]) == k.t + off)):
                raise Unsupported("a record field both read and written in a loop")
            return old(*i)
        return field

    # slots that carry a value from one iteration to the next
    slots = []
    for name in sorted(names):
        owner = next((e for e in chain if name in e.vars), None)
        if owner is not None:
            slots.append(Slot(lambda o=owner, m=name: o.vars.get(m, MISSING),
                              lambda v, o=owner, m=name: o.vars.__setitem__(m, v),
                              f"variable {name}"))
    for (_, a), (o, name) in attrs.items():
        slots.append(Slot(lambda o=o, m=name: getattr(o, m, MISSING),
                          lambda v, o=o, m=name: object.__setattr__(o, m, v),
                          f"attribute {name}"))
    for i, lst in rec.lens.items():
        box = rec.lenbox[i] = [Q.length(lst)]
        slots.append(Slot(lambda b=box: b[0], lambda v, b=box: b.__setitem__(0, v),
                          "the length of a list"))
    init = [sl.get() for sl in slots]
    acc = []
    for sl, v in zip(slots, init):
        if isinstance(v, (SInt, SSum)) or (isinstance(v, int) and
                                           not isinstance(v, bool)):
            acc.append(SInt(z3.Int(s.name_for("acc"))))
        elif isinstance(v, (SReal, float)):
            acc.append(SReal(z3.Real(s.name_for("acc"))))
        elif isinstance(v, (str, Q.FStr, Q.Joined, T.SText)):
            acc.append(StrAcc(object(), []))
        else:
            acc.append(None)

    # values with an invariant of their own (a handle of the current state, say)
    ghosts = [(sl, v) for sl, v in zip(slots, init) if hasattr(v, "pyvc_carried")]

    def blocked(*idx):
        raise ReadAndWritten("an array both read and written in a loop")

    def restore():
        for e, v in zip(chain, saved):
            e.vars.clear()
            e.vars.update(v)
        for sl, v in zip(slots, init):
            if v is not MISSING:
                sl.set(v)
        for i, b in bufs.items():
            b.get = old_get[i]
        for i, v in held.items():
            if isinstance(rec.grown[i], dict):
                rec.grown[i].sym = v
            else:
                rec.grown[i][:] = v
        for key, (st, nm) in fields.items():
            st.fields.pop(nm, None)
            if old_fields[key] is not None:
                st.fields[nm] = old_fields[key]

    def body():
        restore()
        rec.fresh_path()
        for i in held:
            if isinstance(rec.grown[i], dict):
                rec.grown[i].sym = GrowingDict(rec.grown[i])
            else:
                rec.grown[i][:] = [Growing()]
        for key, (st, nm) in fields.items():
            st.fields[nm] = own_record(key)
        for sl, a in zip(slots, acc):
            sl.set(a if a is not None else poisoned(f"{sl.what} from another iteration"))
        for sl, v in ghosts:
            sl.set(v.pyvc_carried("start"))
        for b in bufs.values():
            b.get = blocked
        s.assume(k >= 0)
        s.assume(k < n)
        run_parts(it, each.fn(k), step, env, names)
        for sl, v in ghosts:
            v.pyvc_carried("end", sl.get())
        for i, lst in rec.lens.items():
            rec.lenbox[i][0] = rec.length_of(lst)
        return ([sl.get() for sl in slots], dict(rec.emits), dict(rec.writes),
                dict(rec.fwrites))

    s.rec.append(rec)
    try:
        res = s.explore(body)
    finally:
        s.rec.pop()
        restore()

    paths = []
    facts = []
    raising, real, ended, covered = [], [], False, 0.0
    for pc, kind, v in res:
        dec = [t for t in pc if t.get_id() not in s.assumed or t.get_id() in s.decided]
        ass = [t for t in pc if t.get_id() in s.assumed and t.get_id() not in s.decided]
        cond = z3.And(dec) if dec else z3.BoolVal(True)
        if ass:
            facts.append(z3.Implies(cond, z3.And(ass)))
        if kind == "end":
            ended = True
            continue
        real.append(cond)
        covered += 0.5 ** len(dec)
        if kind == "signal":
            raise Unsupported(f"{v.kind} in a loop of symbolic length")
        if kind == "raise":
            raising.append((cond, v))
            continue
        paths.append((cond, v))
    if real and (ended or covered < 1):
        # paths which only prove something are taken by no iteration, and those left
        # out as impossible neither
        facts.append(z3.Or(real))

    unknown = {}          # name made in the body -> function of the iteration
    until = s.counter

    def lifted(i):
        return [(k.t, i), Q.Lift(since, until, acc_names, unknown, i)]

    def inst(v, i):
        """v at iteration i: unknowns made in the body become functions of i."""
        it_ = intterm(i)
        ps = lifted(it_)
        rng = z3.And(it_ >= 0, it_ < intterm(n))
        for t in facts:
            g = z3.simplify(z3.Implies(rng, Q.zsubst(t, ps)))
            if not z3.is_true(g) and not (const_names(g) & acc_names):
                cur().assume(SBool(g))
        return Q.subst(v, ps)

    acc_names = {a.t.decl().name() for a in acc if isinstance(a, Sym)}
    for cond, e in raising:
        # some iteration raises, or none does
        if bool(any_iteration(n, cond, facts, lifted)):
            if const_names(cond) & acc_names:
                s.abstract("raises depending on a running value")
            raise e
    if not paths:
        # no iteration can complete: there are none
        s.assume(SBool(eq(n, 0)))
        return

    def joined(get):
        """Join a per-path value."""
        vals = [(c, get(v)) for c, v in paths]
        out = vals[-1][1]
        for c, v in reversed(vals[:-1]):
            out = Q.join(SBool(c), v, out)
        return out

    nz = SBool(z3.simplify(intterm(n) > 0))

    # numbers
    updates = {}          # accumulator constant -> its value at iteration i
    finals = []
    for j, (sl, a, v0) in enumerate(zip(slots, acc, init)):
        if hasattr(v0, "pyvc_carried"):
            finals.append((sl, v0.pyvc_carried("after")))
            continue
        if isinstance(a, StrAcc) and any(isinstance(p[0][j], StrAcc) for _, p in paths):
            vs = [p[0][j] for _, p in paths]
            if all(v is a for v in vs):
                finals.append((sl, v0))
            elif all(isinstance(v, StrAcc) for v in vs):
                finals.append((sl, a.longer(v0, n, [(c, p[0][j]) for c, p in paths],
                                            lambda v, i: full(v, i))))
            else:
                finals.append((sl, poisoned(f"{sl.what} after a loop")))
            continue
        try:
            v = joined(lambda p, j=j: p[0][j])
        except Unsupported:
            finals.append((sl, poisoned(f"{sl.what} after a loop")))
            continue
        if v is a or v is v0:
            finals.append((sl, v0))
            if isinstance(a, Sym):
                updates[a.t] = lambda i, v0=v0: v0
            continue
        used = term_names(v) & acc_names
        if isinstance(a, Sym) and isinstance(v, (SInt, SReal, int, float)) and \
                used <= {a.t.decl().name()} and used:
            d = z3.simplify((intterm(v) if isinstance(a, SInt) else C.realterm(v)) - a.t,
                            som=True)
            if a.t.decl().name() in term_names(SInt(d) if isinstance(a, SInt)
                                               else SReal(d)):
                # perhaps an if-then-else of sums
                d = ite_diff(v, a)
            if d is None and isinstance(a, SInt):
                top = running_max(n, v, a, v0, inst)
                if top is not None:
                    finals.append((sl, top))
                    continue
            if d is None:
                finals.append((sl, poisoned(f"{sl.what} after a loop")))
                continue
            D = SInt(d) if isinstance(a, SInt) else SReal(d)
            if isinstance(D, SReal):
                finals.append((sl, poisoned(f"{sl.what}: a sum of floats")))
                continue
            if not (const_names(d) & ({k.t.decl().name()} |
                                      {c.decl().name() for c in const_list(d, since)})):
                updates[a.t] = lambda i, v0=v0, D=D: v0 + i * D
                finals.append((sl, v0 + n * D))
            else:
                f = prefix_sum(D, inst)
                updates[a.t] = lambda i, v0=v0, f=f: v0 + f(i)
                finals.append((sl, v0 + f(n)))
            continue
        if used or (a is None and False):
            finals.append((sl, poisoned(f"{sl.what} after a loop")))
            continue
        # the value of the last iteration
        try:
            last = inst(v, simp(n - 1))
            if v0 is MISSING:
                finals.append((sl, last if s.entails(nz)
                               else poisoned(f"{sl.what} after a loop")))
            else:
                finals.append((sl, last if s.entails(nz) else ite(nz, last, v0)))
        except Unsupported:
            finals.append((sl, poisoned(f"{sl.what} after a loop")))

    acc_of = {a.t.decl().name(): a.t for a in acc if isinstance(a, Sym)}

    # one object stands for those of all iterations from here on
    for i, o in rec.made.items():
        if isinstance(o, (list, dict, set)):
            s.copies[i] = o
        elif hasattr(o, "__dict__") and not hasattr(o, "pyvc_ok"):
            s.templates[i] = (o, since, k.t.decl().name())

    def full(v, i):
        """The value v of an iteration, at iteration i."""
        need = term_names(v) & set(acc_of)
        v = inst(v, i)
        if need:
            ps = []
            for nm in need:
                if acc_of[nm] not in updates:
                    raise Unsupported("an unknown running total")
                u = updates[acc_of[nm]](i)
                if isinstance(u, SSum):
                    u = u.value()
                ps.append((acc_of[nm], intterm(u)))
            v = Q.subst(v, ps)
        return v

    for sl, v in finals:
        sl.set(v)

    # lists
    for i, lst in lists.items():
        def get(p, i=i):
            return list(p[1].get(i, []))
        per = [(c, get(v)) for c, v in paths]
        if not any(e for _, e in per):
            continue
        out = per[-1][1]
        for c, e in reversed(per[:-1]):
            if not e and not out:
                continue
            out = [IfE(SBool(c), e, out)]
        for e in out:
            if any(e is l for l in lists.values()):
                raise Unsupported("a list put into another while extended")
        part = Each(n, lambda i, out=out: full(out, i))
        if isinstance(lst, dict):
            becomes(lst, part)
            continue
        it.container_method(lst, "append", lst.append, [part], {})

    # records
    for key, (st, nm) in fields.items():
        st.fields[nm] = written_field(n, rec.offs[key], old_fields[key], full,
                                      [(c, v[3].get(key, MISSING)) for c, v in paths])

    # arrays
    for i, b in bufs.items():
        per = [(c, v[2].get(i, [])) for c, v in paths]
        scatter(b, n, k, per, full, old_get[i])


def written_field(n, off, old, full, per):
    """A field of records after a loop whose iteration k may write record k + off."""
    def field(i):
        kk = simp(SInt(z3.simplify(intterm(i) - off)))
        inside = SBool(z3.simplify(z3.And(intterm(kk) >= 0, intterm(kk) < intterm(n))))
        sess = cur()
        if z3.is_false(inside.t) or sess.entails(C.lnot(inside)):
            return before(i)
        out, started = None, False
        for c, v in reversed(per):
            new = before(i) if v is MISSING else full(v, kk)
            out = Q.join(full(SBool(c), kk), new, out) if started else new
            started = True
        return out if sess.entails(inside) else Q.join(inside, out, before(i))

    def before(i):
        if old is None:
            raise Unsupported("a record field which is not set")
        return old(i)
    return field


def becomes(d, part):
    """This empty dictionary is the filled one from now on."""
    from .interp import PDict
    if d or not isinstance(d, PDict) or d.sym is not None:
        raise Unsupported("a dictionary with entries filled in a loop")
    if cur().rec:
        raise Unsupported("a dictionary filled in nested loops")
    d.sym = dict_from_parts([part])


def any_iteration(n, cond, facts, lifted):
    s = cur()
    q = z3.Int(s.name_for("q"))
    ps = lifted(q)
    rng = z3.And(q >= 0, q < intterm(n))
    known = [Q.zsubst(t, ps) for t in facts]
    if ps[-1].decls(cond):
        for t in known:
            s.assume(SBool(z3.ForAll([q], z3.Implies(rng, t))))
    return SBool(z3.Exists([q], z3.And(rng, Q.zsubst(cond, ps))))


def prefix_sum(D, inst):
    return lambda i: C.mksum(i, lambda j: inst(D, j))


def ite_diff(v, a):
    """v - a when v is nested choices between sums with a."""
    t = v.t if isinstance(v, (SInt, SReal)) else intterm(v)

    def go(t):
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c, x, y = t.children()
            if a.t.decl().name() in const_names(c):
                return None
            dx, dy = go(x), go(y)
            return None if dx is None or dy is None else z3.If(c, dx, dy)
        d = z3.simplify(t - a.t, som=True)
        return None if a.t.decl().name() in const_names(d) else d
    d = go(t)
    return None if d is None else z3.simplify(d)


def running_max(n, v, a, v0, inst):
    """The largest of the values offered, when v(a) = max(a, the offers of this
    iteration); None if v has another form (decided by the solver)."""
    s = cur()
    t = intterm(v)
    leaves, todo, seen = [], [t], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            todo += e.children()[1:]
        elif not e.eq(a.t):
            if a.t.decl().name() in const_names(e):
                return None
            leaves.append(e)
    if not leaves or len(leaves) > 6:
        return None
    offers = []
    want = a.t
    for e in leaves:
        c = z3.simplify(z3.substitute(t, (a.t, e - 1)) == e)
        offers.append((c, e))
        want = z3.If(z3.And(c, e > want), e, want)
    if not s.entails(z3.substitute(t, (a.t, z3.Int("any"))) ==
                     z3.substitute(want, (a.t, z3.Int("any")))):
        return None
    hit, top = C.fresh_bool("hit"), C.fresh_int("top")

    def offer(i, what):
        out = [what(inst(SBool(c), i), inst(SInt(e), i)) for c, e in offers]
        return C.lor(*out) if what is some else C.land(*out)
    some = lambda c, e: C.land(c, e == top)  # noqa: E731
    bound = lambda c, e: C.implies(c, C.land(hit, e <= top))  # noqa: E731
    s.assume(C.implies(hit, Q.quant("any", n, lambda i: offer(i, some))))
    i, facts = C.fresh_int("q"), []
    all_ = C.boolterm(Q.merge(lambda: offer(i, bound), facts=facts))
    s.assume(SBool(z3.ForAll([i.t], z3.Implies(
        z3.And(i.t >= 0, i.t < intterm(n)), z3.And(all_, *facts)))))
    return ite(C.land(hit, top > v0), top, v0)


# -------------------------------------------------------------- names in values
def const_list(t, since):
    import re
    out, seen, todo = {}, set(), [t]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            todo.append(e.body())
            continue
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            m = re.search(r"!(\d+)$", e.decl().name())
            if m and int(m.group(1)) > since:
                out[e.decl().name()] = e
        todo.extend(e.children())
    return list(out.values())


_NAMES = {}


def const_names(t):
    k = t.get_id()
    if k not in _NAMES:
        _NAMES[k] = (t, frozenset(all_consts(t)))
    return _NAMES[k][1]


def all_consts(t):
    out, seen, todo = set(), set(), [t]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            todo.append(e.body())
            continue
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(e.decl().name())
        todo.extend(e.children())
    return out


def terms_in(v, depth=0):
    """The z3 terms a value is made of (function-valued parts are probed)."""
    if depth > 200:
        raise Unsupported("a deeply nested value")
    if isinstance(v, SBool):
        yield v.t
    elif isinstance(v, SInt):
        yield v.b if v.b is not None else v.t
    elif isinstance(v, SReal):
        yield v.t
    elif isinstance(v, C.SComplex):
        yield v.re
        yield v.im
    elif isinstance(v, SSum):
        yield from terms_in(v.const, depth + 1)
        for n, f, c in v.pieces:
            yield c
            yield from terms_in(n, depth + 1)
            yield from terms_in(f(PROBE), depth + 1)
    elif isinstance(v, SArr):
        for d in v.shape:
            yield from terms_in(d, depth + 1)
        yield from terms_in(v.at(*[PROBE] * v.ndim), depth + 1)
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from terms_in(x, depth + 1)
    elif isinstance(v, dict):
        for x in v.values():
            yield from terms_in(x, depth + 1)
    elif isinstance(v, Each):
        yield from terms_in(v.n, depth + 1)
        yield from terms_in(v.fn(PROBE), depth + 1)
    elif isinstance(v, IfE):
        yield C.boolterm(v.cond)
        yield from terms_in(v.a, depth + 1)
        yield from terms_in(v.b, depth + 1)
    elif isinstance(v, Q.SSeq):
        yield from terms_in(v.n, depth + 1)
        yield from terms_in(v.at(PROBE), depth + 1)
    elif isinstance(v, Q.FStr):
        yield from terms_in(v.parts, depth + 1)
    elif isinstance(v, Q.SElem):
        yield from terms_in(v.idx, depth + 1)
    elif hasattr(v, "terms_"):
        yield from v.terms_()


PROBE = SInt(z3.Int("probe"))


def free_names(v, since):
    out = {}
    for t in terms_in(v):
        for c in const_list(t, since):
            out[c.decl().name()] = c
    return set(out.values())


def term_names(v):
    out = set()
    for t in terms_in(v):
        if z3.is_expr(t):
            out |= const_names(t)
    return out


# ------------------------------------------------------------------- scatters
def affine_in(t, k):
    """t = k + c with c free of k: return c, else None."""
    c = z3.simplify(t - k, som=True)
    return None if k.decl().name() in const_names(c) else c


def scatter(buf, n, k, per, full, old):
    """The effect of all iterations on an array."""
    s = cur()
    if all(not w for _, w in per):
        return
    nd = len(buf.shape)

    # each iteration: condition under which index idx is written, and the value
    def written(i, idx):
        hit, val = z3.BoolVal(False), None
        for c, ws in per:
            ci = C.boolterm(full(SBool(c), i))
            for axes, shape, v in ws:
                conds, vidx = [ci], [0] * len(shape)
                for a, x in zip(axes, idx):
                    if a[0] == "f":
                        conds.append(eq(full(a[1], i) if isinstance(a[1], Sym) else a[1],
                                        x))
                        continue
                    _, ax, st, sp = a
                    st = full(st, i) if isinstance(st, Sym) else st
                    ln = full(shape[ax], i) if isinstance(shape[ax], Sym) else shape[ax]
                    if sp != 1:
                        raise Unsupported("strided write in a loop")
                    off = simp(x - st)
                    conds.append(intterm(off) >= 0)
                    conds.append(intterm(off) < intterm(ln))
                    vidx[ax] = off
                h = z3.simplify(z3.And(conds))
                w = (h, v, vidx)
                val = [w] + (val or [])
                hit = z3.Or(hit, h)
        return z3.simplify(hit), val or []

    def value(i, idx, ws, dflt):
        r = dflt
        for h, v, vidx in reversed(ws):
            x = full(v(*vidx), i)
            r = x if r is None else ite(SBool(h), x, r)
        return r

    # an axis whose written index moves with k
    off = None
    ax = None
    for d in range(nd):
        offs = []
        for c, ws in per:
            for axes, shape, v in ws:
                a = axes[d]
                offs.append(affine_in(intterm(a[1]), k.t) if a[0] == "f" else None)
        if offs and all(o is not None and o.eq(offs[0]) for o in offs):
            off, ax = offs[0], d
            break
    if off is not None:
        def get(*idx):
            i = simp(SInt(z3.simplify(intterm(idx[ax]) - off)))
            hit, ws = written(i, idx)
            hit = z3.simplify(z3.And(hit, intterm(i) >= 0, intterm(i) < intterm(n)))
            if z3.is_false(hit):
                return old(*idx)
            if cur().entails(z3.Not(hit)):
                return old(*idx)
            v = value(i, idx, ws, None)
            if cur().entails(hit):
                return v
            return ite(SBool(hit), v, old(*idx))
        from .arr import Buf
        for r in s.rec:
            raise Unsupported("a scatter inside a loop")
        buf.get = get
        return

    # general: at most one iteration writes each place
    def disjoint():
        i, j = C.fresh_int("i", 0, n), C.fresh_int("j", 0, n)
        s.assume(i != j)
        idx = [C.fresh_int("x", 0, d) for d in buf.shape]
        a, _ = written(i, idx)
        b, _ = written(j, idx)
        if not s.entails(z3.Not(z3.And(a, b))):
            raise Unsupported("two iterations may write the same place")
    for _, kind, v in s.explore(disjoint):
        if kind not in ("value", "end"):
            raise Unsupported("an exception in a comparison of two iterations")
    who = z3.Function(s.name_for("writer"), *[z3.IntSort()] * nd, z3.IntSort())
    has = z3.Function(s.name_for("written"), *[z3.IntSort()] * nd, z3.BoolSort())

    def get(*idx):
        sess = cur()
        ts = [intterm(x) for x in idx]
        w, h = SInt(who(*ts)), has(*ts)
        hit, ws = written(w, idx)
        sess.assume(SBool(z3.Implies(h, z3.And(hit, w.t >= 0, w.t < intterm(n)))))
        q = z3.Int(sess.name_for("q"))
        hq, _ = written(SInt(q), idx)
        sess.assume(SBool(z3.ForAll([q], z3.Implies(
            z3.And(q >= 0, q < intterm(n), hq), z3.And(h, w.t == q)))))
        v = value(w, idx, ws, None)
        return ite(SBool(h), v, old(*idx))
    for r in s.rec:
        raise Unsupported("a scatter inside a loop")
    buf.get = get


def index_set_loop(it, iset, st, env):
    """for i in nonzero(...): independent updates of row i.

    Iterations which write nothing do not count: a first run, in which any row may be
    read, finds under which condition an iteration writes; the second one checks that
    the rows read are written by no other iteration."""
    try:
        return _index_set_loop(it, iset, st, env)
    except ForbiddenRead:
        where = _index_set_loop(it, iset, st, env, probe=True)
        if where is None:
            raise
    return _index_set_loop(it, iset, st, env, writing=where)


class ReadAndWritten(Unsupported):
    pass


class ForbiddenRead(Unsupported):
    pass


def _index_set_loop(it, iset, st, env, writing=None, probe=False):
    s = cur()
    from .interp import assigned, assigned_target
    names = assigned(st.body) | assigned_target(st.target)
    rec = Recorder()
    chain = envs(env)
    since = s.counter
    k = C.fresh_int("row")
    while True:
        saved = [dict(e.vars) for e in chain]
        bufs = dict(rec.bufs)
        old_get = {i: b.get for i, b in bufs.items()}
        rec.birth = s.new_birth()
        regions = getattr(rec, "regions", None)

        def restore():
            for e, v in zip(chain, saved):
                e.vars.clear()
                e.vars.update(v)
            for i, b in bufs.items():
                b.get = old_get[i]

        def body():
            restore()
            rec.fresh_path()
            for e in chain:
                for nm in names:
                    if nm in e.vars:
                        e.vars[nm] = poisoned(f"variable {nm} from another iteration")
            for i, b in bufs.items():
                def guarded(*idx, g=old_get[i]):
                    # not a row another iteration writes
                    row = idx[0]
                    w = C.boolterm(iset.pred(row))
                    if writing is not None:
                        w = z3.And(w, z3.substitute(writing[1], (
                            writing[0], intterm(row))))
                    c = z3.Or(eq(row, k), z3.Not(w))
                    if not probe and not cur().entails(c):
                        raise ForbiddenRead("a row another iteration may write is read")
                    return g(*idx)
                b.get = guarded
            s.assume(iset.pred(k))
            it.assign(st.target, k, env)
            try:
                it.block(st.body, env)
            except Signal as g:
                if g.kind != "continue":
                    raise
            # evaluate what was written while the guards are in place
            out = {}
            for i, ws in rec.writes.items():
                b = bufs[i]
                ok = []
                for axes, shape, v in ws:
                    if axes[0][0] != "f" or not s.entails(eq(axes[0][1], k)):
                        raise Unsupported("a write outside the row of the iteration")
                    idx = [C.fresh_int("x", 0, d) for d in shape]
                    got = v(*idx)     # any forbidden read shows here
                    if {str(t) for t in free_names(got, since)} - \
                            {str(x.t) for x in idx} - {str(k.t)}:
                        raise Unsupported("a value made in a loop over an index set")
                    ok.append((axes, shape, v))
                out[i] = ok
            return out
        s.rec.append(rec)
        try:
            res = s.explore(body)
        except Restart as r:
            if r.rec is not rec:
                raise
            continue
        finally:
            s.rec.pop()
            restore()
        break
    if rec.lists or rec.attrs:
        raise Unsupported("a loop over an index set with other effects")
    paths = []
    for pc, kind, v in res:
        if kind == "end":
            continue
        if kind != "value":
            raise Unsupported(f"{kind} in a loop over an index set")
        dec = [t for t in pc if t.get_id() in s.decided]
        if {str(t) for t in free_names([SBool(t) for t in dec], since)} - {str(k.t)}:
            raise Unsupported("a decision on a value made in a loop over an index set")
        paths.append((z3.And(dec) if dec else z3.BoolVal(True), v))
    if probe:
        if all(any(w.values()) for c, w in paths):
            return None
        return k.t, z3.Or([c for c, w in paths if any(w.values())])
    for e in chain:
        for nm in names:
            if nm in e.vars:
                e.vars[nm] = poisoned(f"variable {nm} after a loop")
    for i, b in bufs.items():
        old = old_get[i]

        def get(*idx, i=i, old=old):
            row = idx[0]
            pred = C.boolterm(iset.pred(row))
            if cur().entails(z3.Not(pred)):
                return old(*idx)
            ps = [(k.t, intterm(row))]
            r = old(*idx)
            for c, w in reversed(paths):
                v = old(*idx)
                for axes, shape, val in w.get(i, []):
                    conds, vidx = [], [0] * len(shape)
                    for a, x in zip(axes[1:], idx[1:]):
                        if a[0] == "f":
                            conds.append(eq(a[1], x))
                        else:
                            off = simp(x - a[2])
                            if a[3] != 1:
                                raise Unsupported("strided write")
                            conds.append(intterm(off) >= 0)
                            conds.append(intterm(off) < intterm(shape[a[1]]))
                            vidx[a[1]] = off
                    h = z3.simplify(z3.And(conds)) if conds else z3.BoolVal(True)
                    hs = cur().entails(h)
                    nv = Q.subst(val(*vidx), ps)
                    v = nv if hs else ite(SBool(h), nv, v)
                cc = z3.simplify(z3.substitute(c, ps))
                r = v if len(paths) == 1 else ite(SBool(cc), v, r)
            if cur().entails(pred):
                return r
            return ite(SBool(pred), r, old(*idx))
        b.get = get


def dict_from_parts(ps):
    """The dictionary filled with these (key, value) pairs in this order."""
    if len(ps) == 1 and isinstance(ps[0], Each):
        e = ps[0]
        k = C.fresh_int("dk", 0, e.n)
        cond, item = pair_of(e.fn(k))
        if item is not None:
            key = item[0]
            if isinstance(key, SInt) and key.t.eq(k.t):
                if cond is True:
                    return Q.SDict(lambda i: C.land(i >= 0, i < e.n),
                                   lambda i: e.fn(i)[0][1], e.n, lambda i: i)
                d = Q.SDict(lambda i: C.land(i >= 0, i < e.n, pair_of(e.fn(i))[0]),
                            lambda i: pair_of(e.fn(i))[1][1])
                d.bounds = (0, e.n)
                return d
            return last_wins(e)
    raise Unsupported("a dictionary of symbolic size")


def pair_of(one):
    """(condition, pair) of an iteration which adds at most one pair."""
    if len(one) == 1 and isinstance(one[0], tuple) and len(one[0]) == 2:
        return True, one[0]
    if len(one) == 1 and isinstance(one[0], IfE):
        p = one[0]
        if not p.b:
            c, x = pair_of(p.a)
            return C.land(SBool(C.boolterm(p.cond)), c), x
        if not p.a:
            c, x = pair_of(p.b)
            return C.land(SBool(z3.Not(C.boolterm(p.cond))), c), x
        (c, x), (d, y) = pair_of(p.a), pair_of(p.b)
        if x is None or y is None:
            return None, None
        t = SBool(C.boolterm(p.cond))
        return SBool(z3.If(t.t, C.boolterm(c), C.boolterm(d))), \
            (ite(t, x[0], y[0]), Q.join(t, x[1], y[1]))
    return None, None


def last_wins(e):
    """Pairs with any integer keys: the last one with a key counts."""
    s = cur()
    n = e.n

    def at(i):
        c, x = pair_of(e.fn(i))
        if not isinstance(x[0], (int, SInt)):
            raise Unsupported("keys which are not numbers")
        return c, x[0], x[1]
    who = C.fun_int("lastpair", 1)
    has = C.fun_bool("haspair", 1)
    key, q = SInt(z3.Int(s.name_for("q"))), SInt(z3.Int(s.name_for("q")))

    def hit(i, k):
        return C.boolterm(Q.merge(lambda: C.land(
            at(i)[0], SBool(eq(at(i)[1], k)))))
    w, h = who.z3(key.t), has.z3(key.t)
    hw, hq = hit(SInt(w), key), hit(q, key)
    rng = z3.And(q.t >= 0, q.t < intterm(n), hq)
    s.assume(SBool(z3.ForAll([key.t], z3.Implies(h, z3.And(
        w >= 0, w < intterm(n), hw)), patterns=[h])))
    s.assume(SBool(z3.ForAll([key.t, q.t], z3.Implies(rng, z3.And(h, q.t <= w)))))
    # the key of every pair is there, and no later pair has it
    kq = C.intterm(Q.merge(lambda: at(q)[1]))
    cq = C.boolterm(Q.merge(lambda: C.asbool(at(q)[0])))
    s.assume(SBool(z3.ForAll([q.t], z3.Implies(
        z3.And(q.t >= 0, q.t < intterm(n), cq),
        z3.And(has.z3(kq), who.z3(kq) >= q.t)))))
    d = Q.SDict(lambda k: has(k), lambda k: at(who(k))[2])
    d.bounds = (None, None)
    d.last = who
    return d


# ------------------------------------------------------------ what a loop carries
class Spy(Recorder):
    """Watches one execution of a loop body without summarising it."""

    def __init__(self):
        super().__init__()
        self.old = {}

    def container(self, it, obj, name, args, kwargs):
        raise Unsupported(f"{type(obj).__name__}.{name} in a loop with an invariant")

    def attr_write(self, obj, name):
        if id(obj) not in self.own:
            raise Unsupported("an attribute written in a loop with an invariant")

    def elem_write(self, elem, name, v):
        raise Unsupported("a record written in a loop with an invariant")

    def buf_write(self, buf, axes, shape, val):
        if id(buf) in self.own or getattr(buf, "born", -1) >= self.birth:
            return
        if id(buf) not in self.old:
            self.old[id(buf)] = buf.get
        self.bufs[id(buf)] = buf


def carries(it, s, env, item):
    """(buffers written, variables rebound to arrays, variables left as they are)."""
    from .interp import assigned, assigned_target
    sess = cur()
    names = assigned(s.body) | assigned_target(s.target)
    chain = envs(env)
    saved = [dict(e.vars) for e in chain]
    spy = Spy()
    rebound, same = set(), set(names)

    def restore():
        for e, v in zip(chain, saved):
            e.vars.clear()
            e.vars.update(v)
        for i, b in spy.bufs.items():
            b.get = spy.old[i]

    def body():
        restore()
        spy.birth = sess.new_birth()
        it.assign(s.target, item(), env)
        try:
            it.block(s.body, env)
        except Signal as g:
            if g.kind not in ("continue", "break"):
                raise
        for nm in names:
            before = next((v[nm] for v in saved if nm in v), MISSING)
            after = next((e.vars[nm] for e in chain if nm in e.vars), MISSING)
            if before is not after:
                same.discard(nm)
                if isinstance(before, SArr):
                    rebound.add(nm)
    sess.rec.append(spy)
    try:
        sess.explore(body)
    finally:
        sess.rec.pop()
        restore()
    return list(spy.bufs.values()), sorted(rebound), same


# --------------------------------------------------------------- merged calls
class Merger(Recorder):
    """Watches a call whose only effects are additions to lists."""

    def container(self, it, obj, name, args, kwargs):
        self.n += 1
        if not isinstance(obj, list) or name not in ("append", "extend"):
            raise Unsupported(f"{type(obj).__name__}.{name} in a merged call")
        self.lists[id(obj)] = obj
        new = [args[0]] if name == "append" else Q.parts(
            list(args[0]) if hasattr(args[0], "__next__") else args[0])
        self.emits.setdefault(id(obj), []).extend(new)

    def read_container(self, obj, name):
        if id(obj) in self.emits:
            raise Unsupported("a list read and extended in a merged call")

    def attr_write(self, obj, name):
        self.n += 1
        if id(obj) not in self.own:
            raise Unsupported("an attribute written in a merged call")

    def elem_write(self, elem, name, v):
        raise Unsupported("a record written in a merged call")

    def buf_write(self, buf, axes, shape, val):
        if id(buf) in self.own or getattr(buf, "born", -1) >= self.birth:
            return
        raise Unsupported("an array written in a merged call")


def merged(it, thunk):
    """Run a call on all its paths and join what it adds to lists."""
    s = cur()
    m = Merger()
    m.birth = s.new_birth()

    def body():
        m.fresh_path()
        thunk()
        return dict(m.emits)
    s.rec.append(m)
    depth = len(s.rec)
    try:
        res = s.explore(body)
    except Unsupported:
        if any(isinstance(r, Merger) for r in s.rec[:depth - 1]):
            raise
        res = None
    finally:
        del s.rec[depth - 1:]
    if res is None:
        thunk()
        return
    paths, facts = [], []
    for pc, kind, v in res:
        dec = [t for t in pc if t.get_id() not in s.assumed or t.get_id() in s.decided]
        ass = [t for t in pc if t.get_id() in s.assumed and t.get_id() not in s.decided]
        cond = z3.And(dec) if dec else z3.BoolVal(True)
        if kind == "end":
            facts.append(z3.Not(z3.And(cond, *ass)))
            continue
        if ass:
            facts.append(z3.Implies(cond, z3.And(ass)))
        paths.append((cond, kind, v))
    for f in facts:
        s.assume(SBool(f))
    vals = []
    for cond, kind, v in paths:
        if kind == "value":
            vals.append((cond, v))
        elif s.decide(cond):
            raise v
    if not vals:
        raise C.PathEnd()
    for i, lst in m.lists.items():
        per = [(c, e.get(i, [])) for c, e in vals]
        if not any(e for _, e in per):
            continue
        out = per[-1][1]
        for c, e in reversed(per[:-1]):
            if not e and not out:
                continue
            out = [IfE(SBool(z3.simplify(c)), e, out)]
        it.container_method(lst, "extend", lst.extend, [out], {})
