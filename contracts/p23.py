"""P23: an experiment configuration means what it says."""
import itertools

import z3

import plaquette
from plaquette import decoders, frontend as fe
from plaquette.circuit import Circuit, generator
from plaquette.codes import LatticeCode
from plaquette.errors import ErrorData

from contracts.common import C, SBool, Unsupported, cur, eq, fresh_int
from pyvc.contract import case
from pyvc.core import SReal
from pyvc.seq import Each, SSeq, parts, quant
from pyvc.text import any_name

FUNCTIONS = ["frontend." + f for f in (
    "CodeConfig.from_dict", "CodeConfig.__post_init__", "CodeConfig.instantiate",
    "_QubitErrorMetadata.*", "QubitErrorsConfig.from_dict",
    "QubitErrorsConfig.simulated_errors", "_GateErrorMetadata.*",
    "GateErrorsConfig.from_dict", "GateErrorsConfig.simulated_errors",
    "ErrorsConfig.from_dict", "ErrorsConfig.instantiate", "CircuitConfig.from_dict",
    "CircuitConfig.instantiate", "DeviceConfig.*", "DecoderConfig.*",
    "ExperimentConfig.from_dict", "ExperimentConfig.build*")]
ASSUMPTIONS = [
    "settings have the types the schema allows (and, for whole numbers, also others)",
    "_validate_filepath is opaque (files: bounded check)",
    "the makers of codes, ErrorData.from_lattice, generate_qec_circuit, Device and the "
    "decoders are opaque here (P07, P18, P12, P17, P21)"]
ABSENT = object()
SIZED = ("RotatedPlanarCode", "PlanarCode", "ToricCode", "RepetitionCode")
CODES = SIZED + ("FiveQubitCode", "ShorCode")


class Opaque:
    """Something only handed on."""
    pyvc_ok = True

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return f"<{self.what}>"


def conf(**kw):
    return {k: v for k, v in kw.items() if v is not ABSENT}


def whole(x, least=1):
    """A whole number which is large enough."""
    if isinstance(x, bool) or not isinstance(x, (int, C.SInt)):
        return isinstance(x, bool) and x >= least
    return SBool(C.boolterm(x >= least))


def one_of(x, options):
    return C.lor(False, *[x == o for o in options])


def same(c, a, b, what):
    """The same value (of the same kind)."""
    if a is b:
        return c.prove(True, what)
    if isinstance(a, (list, tuple, SSeq)) or isinstance(b, (list, tuple, SSeq)):
        if isinstance(a, (list, tuple, SSeq)) != isinstance(b, (list, tuple, SSeq)):
            return c.fail(what, f"{a!r:.200} against {b!r:.200}")
        return c.emissions(parts(a), parts(b), what)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, (bool, SBool)) and not isinstance(y, (bool, SBool)):
            return c.fail(what, f"{a!r:.200} against {b!r:.200}")
    r = c.it.compare("==", a, b)
    c.prove(r if isinstance(r, bool) else SBool(C.boolterm(r)), what)


def fields(c, obj, want, what):
    for k, v in want.items():
        same(c, c.it.getattr(obj, k), v, f"{what}: {k}")


def decide(c, e, good, what):
    """Rejected exactly when it is not good."""
    good = good if isinstance(good, bool) else SBool(C.boolterm(good))
    if e is None:
        c.prove(good, what + ": only valid settings are accepted")
    else:
        c.prove(not good if isinstance(good, bool) else ~good,
                what + ": only invalid settings are rejected")
        c.prove(isinstance(e, (ValueError, TypeError, KeyError, AttributeError)),
                what + ": by an error")
    return e is None


def each_of(c, **options):
    names = list(options)
    for vals in itertools.product(*options.values()):
        yield dict(zip(names, vals))


# -------------------------------------------------------------------- code
@case("code")
def code(c):
    def number():
        return fresh_int("number")
    for o in each_of(c, rounds=(ABSENT, number, lambda: 2.0, lambda: "3"),
                     size=(ABSENT, number, lambda: 2.5, lambda: "4", lambda: None)):
        def at():
            v = {k: f if f is ABSENT else f() for k, f in o.items()}
            name = any_name("name")
            e = c.raises(fe.CodeConfig.from_dict.__func__, fe.CodeConfig,
                         conf(name=name, **v))
            r = 1 if v["rounds"] is ABSENT else v["rounds"]
            s = -1 if v["size"] is ABSENT else v["size"]
            good = C.land(one_of(name, CODES), whole(r), C.lor(
                one_of(name, CODES[4:]), whole(s)))
            if decide(c, e, good, "code"):
                if bool(one_of(name, SIZED)):
                    fields(c, c.result, {"name": name, "rounds": r, "size": s}, "code")
                else:
                    fields(c, c.result, {"name": name, "rounds": r}, "code")
        c.scope(at)


MAKERS = {"RotatedPlanarCode": "make_rotated_planar", "PlanarCode": "make_planar",
          "ToricCode": "make_toric", "RepetitionCode": "make_repetition",
          "FiveQubitCode": "make_five_qubit", "ShorCode": "make_shor"}


@case("code object")
def code_object(c):
    made = []

    def maker(name):
        import inspect
        sig = inspect.signature(getattr(LatticeCode, name).__func__)

        def make(it, a, k):
            made.append((name, sig.bind(*a, **k).arguments))
            return Opaque(name)
        return make
    for m in MAKERS.values():
        c.contracts[getattr(LatticeCode, m).__func__] = maker(m)
    for name in CODES:
        r, s = fresh_int("rounds", 1), fresh_int("size", 1)
        made.clear()
        cfg = fe.CodeConfig(name="ShorCode")
        cfg.name, cfg.rounds, cfg.size = name, r, s
        x = c.run(fe.CodeConfig.instantiate, cfg)
        c.prove(len(made) == 1 and isinstance(x, Opaque) and
                x.what == MAKERS[name] == made[0][0], "the named code")
        a = made[0][1]
        same(c, a.get("n_rounds"), r, "its rounds")
        if name in SIZED:
            same(c, a.get("size"), s, "its size")


# ------------------------------------------------------------ qubit errors
def reals(name):
    n = fresh_int(name + ".len", 0)
    f = C.fun_real(name, 1)
    return SSeq(n, lambda k: f(k))


@case("one qubit error")
def qubit_meta(c):
    M = fe._QubitErrorMetadata
    for o in each_of(c, enabled=(ABSENT, C.fresh_bool), params=(ABSENT, reals)):
        def at():
            v = {k: f if f is ABSENT else f(k) for k, f in o.items()}
            d = any_name("distribution")
            e = c.raises(M.from_dict.__func__, M, conf(distribution=d, **v))
            p = [] if v["params"] is ABSENT else v["params"]
            n = len(p) if isinstance(p, list) else p.n
            en = True if v["enabled"] is ABSENT else v["enabled"]
            good = C.lor(C.land(d == "user", SBool(eq(n, 0))),
                         C.land(d == "constant", SBool(eq(n, 1))),
                         C.land(d == "gaussian", SBool(eq(n, 2))), d == "")
            if decide(c, e, good, "qubit error"):
                fields(c, c.result, {"distribution": d, "params": p}, "qubit error")
                empty = C.land(d == "", SBool(eq(n, 0)))
                same(c, c.result.enabled, C.land(en, ~empty), "qubit error: enabled")
        c.scope(at)
    m = c.run(M.make_empty.__func__, M)
    c.prove(m.enabled is False and m.distribution == "" and m.params == [], "no error")


def config(kind, keys, meta):
    cls = getattr(fe, kind)

    @case(f"{kind}: settings")
    def f(c):
        checked = []
        c.contracts[fe._validate_filepath] = lambda it, a, k: checked.append(a) or True
        c.contracts[meta.from_dict.__func__] = lambda it, a, k: ("made", a[-1])
        c.contracts[meta.make_empty.__func__] = lambda it, a, k: "none"
        for present in itertools.product((True, False), repeat=len(keys)):
            d = {k: {"distribution": k} for k, p in zip(keys, present) if p}
            settings(dict(d), {"sample": ABSENT, "data_path": ABSENT,
                               "load_file": ABSENT}, c, cls, d, checked)
        d = {k: {"distribution": k} for k in keys}
        for o in each_of(c, sample=(ABSENT, 1), data_path=(ABSENT, 1),
                         load_file=(ABSENT, 1)):
            settings(dict(d), o, c, cls, d, checked)

    def settings(d, o, c, cls, metas, checked):
        def at():
            checked.clear()
            v = {"sample": C.fresh_bool("sample"), "load_file": C.fresh_bool("load"),
                 "data_path": any_name("path")}
            v = {k: ABSENT if o[k] is ABSENT else v[k] for k in v}
            r = c.run(cls.from_dict.__func__, cls, {**d, **conf(**v)})
            for k in keys:
                want = ("made", metas[k]) if k in metas else "none"
                got = getattr(r, k)
                c.prove(got == want or got is want, f"entry {k}")
            path = v["data_path"]
            default = "qubit_errors.csv" if kind.startswith("Q") else "gate_errors.csv"
            same(c, r.data_path, default if path is ABSENT else path, "path")
            load = v["load_file"]
            if load is ABSENT:
                load = path is not ABSENT
            same(c, r.load_file, load, "load_file")
            sample = v["sample"]
            if sample is ABSENT:
                sample = kind.startswith("Q")
            same(c, r.sample, sample, "sample")
            c.prove(any(x[0] is r.data_path for x in checked), "the path is checked")
        c.scope(at)
    return f


QKEYS = ["X", "Y", "Z", "erasure", "measurement", "fabrication"]
GKEYS = ["CZ", "CX", "H", "R", "M", "fabrication"]
qconf = config("QubitErrorsConfig", QKEYS, fe._QubitErrorMetadata)
gconf = config("GateErrorsConfig", GKEYS, fe._GateErrorMetadata)


def no_file(c):
    c.contracts[fe._validate_filepath] = lambda it, a, k: True


def empties(cls, keys):
    r = cls.__new__(cls)
    r.data_path, r.sample, r.load_file = Opaque("path"), True, False
    for k in keys:
        m = fe._QubitErrorMetadata if keys is QKEYS else fe._GateErrorMetadata
        setattr(r, k, m.make_empty())
    return r


def rest(others, keys, key, meta, gate):
    """The other entries: all off, or all on."""
    want = {}
    for k in keys:
        if k == key:
            continue
        if others == "on":
            m = meta(distribution=["constant"], induced_errors=["X"], params=[[0.5]]) \
                if gate else meta(distribution="constant", params=[0.25])
            yield k, m, [("constant", "X", 0.5)] if gate else ("constant", 0.25)
        elif others == "disabled":
            m = meta(distribution=["constant"], induced_errors=["X"], params=[[0.5]],
                     enabled=False) \
                if gate else meta(distribution="constant", params=[0.25], enabled=False)
            yield k, m, None
    return want


def distribution(c, cfg, path):
    r = c.run(type(cfg).simulated_errors.fget, cfg)
    c.prove(type(r) is tuple and len(r) == 2 and r[1] is path, "errors and path")
    return r[0]


@case("qubit errors passed on")
def qubit_errors(c):
    M = fe._QubitErrorMetadata
    for key, others in itertools.product(QKEYS, ("off", "on", "disabled")):
        def at():
            cfg = empties(fe.QubitErrorsConfig, QKEYS)
            want = {}
            for k, m, w in rest(others, QKEYS, key, M, False):
                setattr(cfg, k, m)
                if w is not None:
                    want[k] = w
            m = M.make_empty()
            m.enabled, m.distribution = C.fresh_bool("enabled"), any_name("distribution")
            m.params = reals("params")
            cur().assume(one_of(m.distribution, ("user", "constant", "gaussian", "")))
            cur().assume(C.implies(one_of(m.distribution, ("", "user")),
                                   SBool(eq(m.params.n, 0))))
            setattr(cfg, key, m)
            got = distribution(c, cfg, cfg.data_path)
            on = C.land(m.enabled, m.distribution != "")
            if bool(on):
                want[key] = (m.distribution, Each(m.params.n,
                                                  lambda k: [m.params.at(k)]))
            c.prove(set(got) == set(want), "exactly the enabled errors")
            for k in want:
                if k in got:
                    c.emissions(list(got[k]), list(want[k]), "with their parameters")
        c.scope(at)
    off = empties(fe.QubitErrorsConfig, QKEYS)
    off.X = M(distribution="constant", params=[0.5])
    off.sample = False
    c.prove(c.run(fe.QubitErrorsConfig.simulated_errors.fget, off) is None,
            "no errors without sampling")


# ------------------------------------------------------------- gate errors
INDUCED = ["X", "Y", "Z"] + ["".join(p) for p in itertools.product("IXYZ", repeat=2)
                             if p != ("I", "I")]


class Names(SSeq):
    def __init__(self, name):
        f = C.fun_int(name, 1)
        from pyvc.text import SName
        super().__init__(fresh_int(name + ".len", 0), lambda k: SName(f(k)))


def lists(name):
    n = fresh_int(name + ".len", 0)
    m, f = C.fun_int(name + ".inner", 1), C.fun_real(name, 2)
    k = z3.Int("k!")
    cur().assume(SBool(z3.ForAll([k], m.z3(k) >= 0)))
    return SSeq(n, lambda i: SSeq(m(i), lambda j: f(i, j)))


@case("one gate error")
def gate_meta(c):
    M = fe._GateErrorMetadata
    for enabled in (ABSENT, C.fresh_bool):
        def at():
            en = enabled if enabled is ABSENT else enabled("enabled")
            d, i, p = Names("distribution"), Names("induced"), lists("params")
            # a distribution for every induced error
            cur().assume(SBool(eq(d.n, i.n)))
            e = c.raises(M.from_dict.__func__, M, conf(
                distribution=d, induced_errors=i, params=p, enabled=en))
            good = C.land(SBool(eq(i.n, p.n)), quant("all", d.n, lambda k: C.land(
                one_of(i.at(k), INDUCED), C.lor(
                    C.land(d.at(k) == "constant", SBool(eq(p.at(k).n, 1))),
                    C.land(d.at(k) == "gaussian", SBool(eq(p.at(k).n, 2)))))))
            if decide(c, e, good, "gate error"):
                fields(c, c.result, {"enabled": True if en is ABSENT else en},
                       "gate error")
                for n, x in (("distribution", d), ("induced_errors", i), ("params", p)):
                    c.prove(getattr(c.result, n) is x, f"gate error: {n}")
        c.scope(at)

    def text():
        d, i, p = any_name("distribution"), Names("induced"), lists("params")
        e = c.raises(M.from_dict.__func__, M, conf(
            distribution=d, induced_errors=i, params=p))
        if decide(c, e, C.lor(SBool(eq(i.n, 0)), SBool(eq(p.n, 0))), "from a file"):
            fields(c, c.result, {"enabled": True, "distribution": d}, "from a file")
    c.scope(text)
    m = c.run(M.make_empty.__func__, M)
    c.prove(m.enabled is False and m.distribution == "" and m.params == [] and
            m.induced_errors == [], "no error")


@case("gate errors passed on")
def gate_errors(c):
    M = fe._GateErrorMetadata
    for key, others, form in itertools.product(GKEYS, ("off", "on", "disabled"),
                                               ("list", "text")):
        def at():
            cfg = empties(fe.GateErrorsConfig, GKEYS)
            want = {}
            for k, m, w in rest(others, GKEYS, key, M, True):
                setattr(cfg, k, m)
                if w is not None:
                    want[k] = w
            m = M.make_empty()
            m.enabled = C.fresh_bool("enabled")
            if form == "list":
                m.distribution, m.induced_errors = Names("distribution"), Names("induced")
                m.params = lists("params")
                n = m.params.n
                cur().assume(C.land(SBool(eq(m.distribution.n, n)),
                                    SBool(eq(m.induced_errors.n, n))))
                on = C.land(m.enabled, n > 0)
            else:
                m.distribution = any_name("distribution")
                on = C.land(m.enabled, m.distribution != "")
            setattr(cfg, key, m)
            got = distribution(c, cfg, cfg.data_path)
            if bool(on):
                want[key] = [Each(n, lambda k: [(
                    m.distribution.at(k), m.induced_errors.at(k), *parts(
                        m.params.at(k)))])] if form == "list" else (m.distribution,)
            c.prove(set(got) == set(want), "exactly the enabled errors")
            for k in want:
                if k in got:
                    c.emissions(parts(got[k]), list(want[k]), "with their parameters")
        c.scope(at)
    off = empties(fe.GateErrorsConfig, GKEYS)
    off.H = M(distribution=["constant"], induced_errors=["X"], params=[[0.5]])
    off.sample = False
    c.prove(c.run(fe.GateErrorsConfig.simulated_errors.fget, off) is None,
            "no errors without sampling")


@case("errors")
def errors(c):
    Q, G, E = fe.QubitErrorsConfig, fe.GateErrorsConfig, fe.ErrorsConfig
    for cls in (Q, G):
        c.contracts[cls.from_dict.__func__] = lambda it, a, k: ("made", a[0], a[1])
        c.contracts[cls.make_empty.__func__] = lambda it, a, k: ("none", a[0])
    for q, g in itertools.product((True, False), repeat=2):
        dq, dg = {"X": 1}, {"H": 2}
        r = c.run(E.from_dict.__func__, E, conf(qubit_errors=dq if q else ABSENT,
                                                gate_errors=dg if g else ABSENT))
        for on, got, d, cls in ((q, r.qubit_errors, dq, Q), (g, r.gate_errors, dg, G)):
            c.prove(got[:2] == (("made", cls) if on else ("none", cls)) and
                    (not on or got[2] is d), "settings of both kinds")
    # the objects
    made = []

    def from_lattice(it, a, k):
        import inspect
        sig = inspect.signature(ErrorData.from_lattice.__func__)
        made.append(sig.bind(*a, **k).arguments)
        return Opaque("errors")
    c.contracts[ErrorData.from_lattice.__func__] = from_lattice
    params = list(__import__("inspect").signature(ErrorData.from_lattice).parameters)
    for q, g in itertools.product((True, False), repeat=2):
        made.clear()
        sq, sg = (({"X": 1}, "p") if q else None), (({"H": 1}, "p") if g else None)
        cfg = E.__new__(E)
        cfg.qubit_errors, cfg.gate_errors = (empties(Q, QKEYS), empties(G, GKEYS))
        c.contracts[Q.simulated_errors.fget] = lambda it, a, k: sq
        c.contracts[G.simulated_errors.fget] = lambda it, a, k: sg
        lat = Opaque("lattice")
        r = c.run(E.instantiate, cfg, lat)
        c.prove(isinstance(r, Opaque) and len(made) == 1, "one error table")
        a = [made[0].get(p) for p in params]
        c.prove(a[0] is lat and a[2] is sg and (a[1] is sq or (
            not q and not g and a[1][0] == {})), "of the simulated errors")


# ------------------------------------------------------------------ others
@case("circuit")
def circuit(c):
    K = fe.CircuitConfig
    no_file(c)
    for o in each_of(c, circuit_provided=(0, 1), has_errors=(0, 1), circuit_path=(0, 1)):
        def at():
            v = {"circuit_provided": C.fresh_bool("provided"),
                 "has_errors": C.fresh_bool("errors"), "circuit_path": any_name("path")}
            v = {k: v[k] if o[k] else ABSENT for k in v}
            r = c.run(K.from_dict.__func__, K, conf(**v))
            d = {"circuit_provided": False, "has_errors": False,
                 "circuit_path": "circuit.txt"}
            fields(c, r, {k: d[k] if v[k] is ABSENT else v[k] for k in v}, "circuit")
        c.scope(at)
    made = []

    def generate(it, a, k):
        import inspect
        made.append(inspect.signature(generator.generate_qec_circuit)
                    .bind(*a, **k).arguments)
        return Opaque("circuit")
    c.contracts[generator.generate_qec_circuit] = generate
    params = list(__import__("inspect").signature(
        generator.generate_qec_circuit).parameters)
    cfg = K.__new__(K)
    cfg.circuit_provided, cfg.has_errors, cfg.circuit_path = False, False, "x"
    code_, sel = Opaque("code"), any_name("logical")
    ed = Opaque("errors")
    ed.qubit_errors_dict, ed.gate_errors_dict = Opaque("q"), Opaque("g")
    r = c.run(K.instantiate, cfg, code_, ed, sel)
    c.prove(isinstance(r, Opaque) and len(made) == 1, "a generated circuit")
    a = [made[0].get(p) for p in params]
    c.prove(a[0] is code_ and a[1] is ed.qubit_errors_dict and
            a[2] is ed.gate_errors_dict and a[3] is sel, "of code, errors and logicals")
    e = c.raises(K.instantiate, cfg, code_, None, sel)
    c.prove(isinstance(e, ValueError), "needs the errors")
    cfg.circuit_provided = True
    e = c.raises(K.instantiate, cfg, code_, ed, sel)
    c.prove(isinstance(e, NotImplementedError), "no errors into given circuits")


@case("device")
def device(c):
    K = fe.DeviceConfig
    known = tuple(plaquette.device.recognized_devices)
    for o in each_of(c, name=(0, 1), shots=(
            ABSENT, lambda: fresh_int("shots"), lambda: 2.0, lambda: "7")):
        def at():
            name = any_name("name") if o["name"] else ABSENT
            shots = o["shots"] if o["shots"] is ABSENT else o["shots"]()
            e = c.raises(K.from_dict.__func__, K, conf(name=name, shots=shots))
            n = "clifford" if name is ABSENT else name
            s = 1024 if shots is ABSENT else shots
            if decide(c, e, C.land(one_of(n, known), whole(s)), "device"):
                fields(c, c.result, {"name": n, "shots": s}, "device")
        c.scope(at)
    made = []

    def device_(it, a, k):
        made.append((a[1:], k))
    c.contracts[plaquette.Device.__init__] = device_
    for n in known:
        made.clear()
        cfg = K(name=n)
        r = c.run(K.instantiate, cfg, batch_size=7)
        c.prove(isinstance(r, plaquette.Device) and len(made) == 1 and
                list(made[0][0]) + list(made[0][1].values()) == [n, 7] and
                made[0][1].get("batch_size") == 7, "the named device")


DECODERS = ("PyMatchingDecoder", "UnionFindDecoder", "UnionFindNoWeights",
            "FusionBlossomDecoder")


@case("decoder")
def decoder(c):
    K = fe.DecoderConfig
    for o in each_of(c, name=(0, 1), weighted=(0, 1)):
        def at():
            name = any_name("name") if o["name"] else ABSENT
            wt = C.fresh_bool("weighted") if o["weighted"] else ABSENT
            e = c.raises(K.from_dict.__func__, K, conf(name=name, weighted=wt))
            n = "PyMatchingDecoder" if name is ABSENT else name
            if wt is ABSENT:
                wt = n != "UnionFindNoWeights"
            if decide(c, e, one_of(n, DECODERS), "decoder"):
                fields(c, c.result, {"name": n, "weighted": wt}, "decoder")
        c.scope(at)
    made = []

    def maker(n):
        def make(it, a, k):
            made.append((n, a, k))
            return Opaque("decoder")
        return make
    seen = {}
    for n in DECODERS:
        f = getattr(decoders, n).from_code
        seen.setdefault(f.__func__, []).append(n)
        c.contracts[f.__func__] = lambda it, a, k: (
            made.append((a[0], a[1:], k)) or Opaque("decoder"))
    for n in DECODERS:
        def at():
            made.clear()
            cfg = K(name=n, weighted=False)
            cfg.weighted = C.fresh_bool("weighted")
            code_, ed = Opaque("code"), Opaque("errors")
            ed.error_data_dict = Opaque("table")
            e = c.raises(K.instantiate, cfg, code_, ed)
            bad = cfg.weighted if n == "UnionFindNoWeights" else False
            if not decide(c, e, C.lnot(SBool(C.boolterm(bad))), "decoder object"):
                return
            c.prove(len(made) == 1 and made[0][0] is getattr(decoders, n),
                    "the named decoder")
            a, k = list(made[0][1]), made[0][2]
            c.prove(a[0] is code_ and a[1] is ed.error_data_dict, "of code and errors")
            same(c, k.get("weighted", a[2] if len(a) > 2 else None), cfg.weighted,
                 "with weights as asked")
        c.scope(at)


@case("experiment")
def experiment(c):
    K = fe.ExperimentConfig
    subs = {"device": fe.DeviceConfig, "circuit": fe.CircuitConfig,
            "code": fe.CodeConfig, "errors": fe.ErrorsConfig,
            "decoder": fe.DecoderConfig}
    for cls in subs.values():
        c.contracts[cls.from_dict.__func__] = lambda it, a, k: ("made", a[0], a[1])
    for present in itertools.product((True, False), repeat=6):
        names = list(subs) + ["general"]
        d = {n: {"name": n, "logical_op": "Z", "seed": 5, "qec_property": []}
             for n, p in zip(names, present) if p}
        r = c.run(K.from_dict.__func__, K, dict(d))
        for n, cls in subs.items():
            got = getattr(r, n + "_conf")
            c.prove(got[:2] == ("made", cls) and (got[2] is d[n] if n in d
                                                  else got[2] == {}), n)
        want = d.get("general", {"logical_op": "X", "seed": 12345,
                                 "qec_property": ["logical_error_rate"]})
        c.prove(dict(r.general_conf) == want, "general")


@case("building the experiment")
def build(c):
    K = fe.ExperimentConfig
    exp = K.__new__(K)
    steps = []
    conf_ = {}
    for n, cls in (("device", fe.DeviceConfig), ("circuit", fe.CircuitConfig),
                   ("code", fe.CodeConfig), ("errors", fe.ErrorsConfig),
                   ("decoder", fe.DecoderConfig)):
        o = cls.__new__(cls)
        o.weighted, o.name = False, "UnionFindNoWeights"
        setattr(exp, n + "_conf", o)
        conf_[n] = o
        made = Opaque(n)
        made.lattice = Opaque("lattice")

        def make(it, a, k, n=n, made=made):
            steps.append((n, a[0], a[1:], k, made))
            return made
        c.contracts[cls.instantiate] = make
    seed = fresh_int("seed", 0)
    exp.general_conf = {"logical_op": Opaque("logical"), "seed": seed,
                        "qec_property": []}
    for n in ("code", "errors", "circuit", "device", "decoder"):
        setattr(exp, "_" + n, None)
    rng = []
    c.contracts[K.update_rng] = lambda it, a, k: rng.append(len(steps))
    c.run(K.build, exp)
    by = {s[0]: s for s in steps}
    c.prove(len(steps) == 5 and set(by) == set(conf_), "each part once")
    c.prove(all(by[n][1] is conf_[n] for n in conf_), "by its configuration")
    c.prove(all(getattr(exp, "_" + n) is by[n][4] for n in by), "and kept")
    c.prove(rng == [0], "after seeding")
    made = {n: by[n][4] for n in by}

    def args(n):
        return list(by[n][2]) + list(by[n][3].values())
    c.prove(args("errors") == [made["code"].lattice], "errors of the code")
    c.prove(args("circuit") == [made["code"], made["errors"],
                                exp.general_conf["logical_op"]], "circuit of the code")
    c.prove(args("decoder") == [made["code"], made["errors"]], "decoder of the code")
