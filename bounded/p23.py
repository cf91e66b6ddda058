"""P23: an experiment configuration means what it says."""
import copy
import json
import os
import tempfile
import warnings

import numpy as np
from plaquette import decoders as pdec
from plaquette import frontend as fe
from plaquette.circuit.generator import generate_qec_circuit

from bounded.p07 import make
from bounded.p18 import compare
from lib import pauliref as pr
from lib.bounded import rejects, require

FAM = {"RotatedPlanarCode": "rotated", "PlanarCode": "planar", "ToricCode": "toric",
       "RepetitionCode": "repetition", "FiveQubitCode": "five", "ShorCode": "shor"}
QK = ["X", "Y", "Z", "erasure", "measurement", "fabrication"]
GK = ["CZ", "CX", "H", "R", "M", "fabrication"]


def same_code(code, name, size, rounds):
    ref = make(FAM[name], size, rounds)
    require(code.n_rounds == rounds, f"{code.n_rounds} rounds")
    for attr in ("stabilisers", "logical_ops"):
        a = [pr.from_row(r) for r in getattr(code, attr)]
        b = [pr.from_row(r) for r in getattr(ref, attr)]
        require(a == b, f"{attr} of {name} with size {size}")
    require(code.n_data_qubits == ref.n_data_qubits, "number of qubits")


def fields(obj, want, what):
    for k, v in want.items():
        got = getattr(obj, k)
        require(got == v and type(got) is type(v), f"{what}.{k}: {got!r}, expected {v!r}")


def expect_code(c):
    size = -1 if c["name"] in ("FiveQubitCode", "ShorCode") else c.get("size", -1)
    return {"name": c["name"], "rounds": c.get("rounds", 1), "size": size}


def c_code(conf):
    cfg = fe.CodeConfig.from_dict(dict(conf))
    want = expect_code(conf)
    fields(cfg, want, "code")
    same_code(cfg.instantiate(), want["name"], want["size"], want["rounds"])


def expect_qmeta(m):
    if m is None:
        return {"distribution": "", "params": [], "enabled": False}
    return {"distribution": m["distribution"], "params": m.get("params", []),
            "enabled": m.get("enabled", True)}


def expect_gmeta(m):
    if m is None:
        return {"distribution": "", "params": [], "induced_errors": [], "enabled": False}
    return {"distribution": m["distribution"], "params": m.get("params", []),
            "induced_errors": m.get("induced_errors", []),
            "enabled": m.get("enabled", True)}


def expect_sim(conf, gates):
    """What is passed on to build the tables."""
    if not conf.get("sample", not gates):
        return None
    out = {}
    for k in GK if gates else QK:
        m = conf.get(k)
        if m is None or not m.get("enabled", True):
            continue
        if isinstance(m["distribution"], str):
            out[k] = (m["distribution"], *m.get("params", []))
        else:
            out[k] = [(d, e, *p) for d, e, p in
                      zip(m["distribution"], m["induced_errors"], m["params"])]
    return out


def check_errors(cfg, q, g, root):
    fields(cfg.qubit_errors, {"data_path": q.get("data_path", "qubit_errors.csv"),
                              "sample": q.get("sample", True),
                              "load_file": q.get("load_file", "data_path" in q)},
           "qubit_errors")
    fields(cfg.gate_errors, {"data_path": g.get("data_path", "gate_errors.csv"),
                             "sample": g.get("sample", False),
                             "load_file": g.get("load_file", "data_path" in g)},
           "gate_errors")
    for k in QK:
        fields(getattr(cfg.qubit_errors, k), expect_qmeta(q.get(k)), f"qubit_errors.{k}")
    for k in GK:
        fields(getattr(cfg.gate_errors, k), expect_gmeta(g.get(k)), f"gate_errors.{k}")
    for gates, c, part in ((False, q, cfg.qubit_errors), (True, g, cfg.gate_errors)):
        want, got = expect_sim(c, gates), part.simulated_errors
        if want is None:
            require(got is None, "errors which are not to be sampled")
        else:
            require(got is not None and got[0] == want,
                    f"errors to simulate {got}, expected {want}")
            require(got[1] == part.data_path, "path of the table")


def put_paths(conf, tmp):
    """Replace '$' in paths by the scratch directory."""
    if isinstance(conf, dict):
        return {k: put_paths(v, tmp) for k, v in conf.items()}
    if isinstance(conf, str) and conf.startswith("$"):
        return os.path.join(tmp, conf[1:])
    return conf


def c_experiment(conf, how, build=True):
    with tempfile.TemporaryDirectory() as tmp, warnings.catch_warnings(), \
            np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        for name, text in (("t", ""), ("q", "qubit_id,qubit_type\n"),
                           ("g", "gate,on_qubits,induced_errors,probs\n")):
            with open(os.path.join(tmp, name + ".csv"), "w") as f:
                f.write(text)
        conf = put_paths(conf, tmp)
        want = copy.deepcopy(conf)
        if how == "dict":
            exp = fe.ExperimentConfig.from_dict(copy.deepcopy(conf))
        else:
            path = os.path.join(tmp, "c." + how)
            with open(path, "w") as f:
                if how == "json":
                    json.dump(conf, f)
                else:
                    import toml
                    toml.dump(conf, f)
            exp = getattr(fe.ExperimentConfig, "load_" + how)(path)
        check_experiment(exp, want, tmp, build)


def check_experiment(exp, want, tmp, build):
    import plaquette

    code = expect_code(want["code"])
    fields(exp.code_conf, code, "code")
    dev = want.get("device", {})
    dev = {"name": dev.get("name", "clifford"), "shots": dev.get("shots", 1024)}
    fields(exp.device_conf, dev, "device")
    dec = want.get("decoder", {})
    name = dec.get("name", "PyMatchingDecoder")
    dec = {"name": name, "weighted": dec.get("weighted", name != "UnionFindNoWeights")}
    fields(exp.decoder_conf, dec, "decoder")
    cir = want.get("circuit", {})
    fields(exp.circuit_conf, {"circuit_provided": cir.get("circuit_provided", False),
                              "has_errors": cir.get("has_errors", False),
                              "circuit_path": cir.get("circuit_path", "circuit.txt")},
           "circuit")
    gen = want.get("general", {"logical_op": "X", "seed": 12345,
                               "qec_property": ["logical_error_rate"]})
    require(dict(exp.general_conf) == gen, f"general: {exp.general_conf}")
    q = want.get("errors", {}).get("qubit_errors", {})
    g = want.get("errors", {}).get("gate_errors", {})
    check_errors(exp.errors_conf, q, g, tmp)
    if not build:
        return
    old = plaquette.rng
    try:
        exp.update_rng()
        same = plaquette.rng.random(4).tolist()
        require(same == np.random.default_rng(gen["seed"]).random(4).tolist(),
                "random numbers of the given seed")
    finally:
        plaquette.rng = old
    bad = dec["weighted"] and name == "UnionFindNoWeights"
    exp.build_code()
    same_code(exp.code, code["name"], code["size"], code["rounds"])
    exp.build_errors()
    lat = exp.code.lattice
    table = {v.equbit_idx: (v.type.value, {}) for v in (*lat.dataqubits, *lat.stabgens)}
    sq, sg = expect_sim(q, False) or {}, expect_sim(g, True) or {}
    for k, (_, p) in sq.items():
        for _, (kind, vals) in table.items():
            vals[k] = p
    rows = []
    stabs = [v.equbit_idx for v in lat.stabgens]
    pairs = [x for v in lat.stabgens for e in v.edges
             for x in (v.equbit_idx, e.data.equbit_idx)]
    for k, lst in sg.items():
        for _, ch, p in lst:
            rows.append([k, stabs if k in "HMR" else pairs, [ch], [p]])
    compare(exp.errors, table, rows, set(sq), set(sg))
    exp.build_circuit()
    ref = generate_qec_circuit(exp.code, exp.errors.qubit_errors_dict,
                               exp.errors.gate_errors_dict, gen["logical_op"])
    require(list(exp.circuit.gates) == list(ref.gates), "circuit")
    exp.build_device()
    require(exp.device._backend_name == dev["name"], "device")
    if bad:
        rejects(exp.build_decoder, "weighted UnionFindNoWeights")
    elif sg and dec["weighted"]:
        pass       # weights are not defined for gate errors: such a request is refused
    else:
        exp.build_decoder()
        require(type(exp.decoder) is getattr(pdec, name), "decoder")
        w = [float(np.asarray(e.weight).item()) for e in exp.decoder.synmgr.sgraph.edges]
        require(all(np.isnan(w)) if not dec["weighted"] else not any(np.isnan(w)),
                "weights of the decoder")


def c_invalid(part, conf):
    cls = {"code": fe.CodeConfig, "device": fe.DeviceConfig, "decoder": fe.DecoderConfig,
           "qmeta": fe._QubitErrorMetadata, "gmeta": fe._GateErrorMetadata,
           "circuit": fe.CircuitConfig, "qubit": fe.QubitErrorsConfig,
           "gate": fe.GateErrorsConfig, "experiment": fe.ExperimentConfig}[part]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        rejects(lambda: cls.from_dict(copy.deepcopy(conf)), f"{part} {conf}")


def c_update(part, conf, change):
    """update() sets exactly the given values; None: rejected."""
    cls = {"code": fe.CodeConfig, "device": fe.DeviceConfig, "decoder": fe.DecoderConfig,
           "qmeta": fe._QubitErrorMetadata, "circuit": fe.CircuitConfig}[part]
    cfg = cls.from_dict(dict(conf))
    names = list(cfg.as_dict())
    want = {**{k: getattr(cfg, k) for k in names}, **change}
    cfg.update(**change)
    fields(cfg, want, part)


CASES = {"code": c_code, "experiment": c_experiment, "invalid": c_invalid,
         "update": c_update}

INVALID = {
    "code": [{"name": "SurfaceCode", "size": 3}, {"size": 3}, {"name": "planarcode"},
             *({"name": n, "size": s} for n in list(FAM)[:4] for s in
               (0, -1, 2.5, "3", None)),
             *({"name": n, "size": 3, "rounds": s} for n in FAM for s in
               (0, -2, 1.5, "1", None)), {"name": None, "size": 3}, {"name": "PlanarCode"}],
    "device": [{"name": "clifforda"}, {"name": "Stim"}, {"name": ""}, {"name": None},
               *({"shots": s} for s in (0, -1, 1.5, "10", None))],
    "decoder": [{"name": "UnionFind"}, {"name": ""}, {"name": None},
                {"name": "DecoderInterface"}],
    "qmeta": [{"distribution": "user", "params": [0.1]}, {"distribution": "constant"},
              {"distribution": "constant", "params": [.1, .2]},
              {"distribution": "gaussian", "params": [.1]}, {"distribution": "gaussian"},
              {"distribution": "gaussian", "params": [.1, .2, .3]},
              {"distribution": "uniform", "params": [.1]}, {"distribution": "User"},
              {"distribution": None}],
    "gmeta": [{"distribution": ["constant"], "induced_errors": ["X"], "params": []},
              {"distribution": ["constant"], "induced_errors": ["A"], "params": [[.1]]},
              {"distribution": ["constant"], "induced_errors": ["II"], "params": [[.1]]},
              {"distribution": ["constant"], "induced_errors": ["X"],
               "params": [[.1, .2]]},
              {"distribution": ["gaussian"], "induced_errors": ["X"], "params": [[.1]]},
              {"distribution": ["bogus"], "induced_errors": ["X"], "params": [[.1]]},
              {"distribution": ["constant", "user"], "induced_errors": ["X", "Y"],
               "params": [[.1], [.1]]},
              {"distribution": ["constant", "constant"], "induced_errors": ["X", "XYZ"],
               "params": [[.1], [.1]]}],
    "circuit": [{"circuit_provided": True, "circuit_path": "/nonexistent.circ"},
                {"circuit_path": "/nonexistent/c"}],
    "qubit": [{"data_path": "/nonexistent.csv", "load_file": True},
              {"data_path": "/nonexistent/x.csv"}, {"data_path": "/nonexistent.csv"},
              {"X": {"distribution": "bogus"}}, {"measurement": {"distribution": "gaussian"}},
              {"erasure": {"distribution": "constant", "params": []}}],
    "gate": [{"data_path": "/nonexistent.csv", "load_file": True},
             {"data_path": "/nonexistent/x.csv"},
             {"CX": {"distribution": ["bogus"], "induced_errors": ["XX"],
                     "params": [[.1]]}}],
    "experiment": [{"code": {"name": "PlanarCode", "size": 3}, "device": {"shots": 0}},
                   {"code": {"name": "PlanarCode", "size": 3}, "decoder": {"name": "x"}},
                   {"code": {"name": "PlanarCode", "size": 0}}, {},
                   {"code": {"name": "PlanarCode", "size": 3}, "errors": {
                       "qubit_errors": {"Z": {"distribution": "bogus"}}}}],
}


def prob(r):
    return r.choice([0.0, 0.1, 0.2, 0.01, 0.125, round(r.random() / 5, 6)])


def random_q(r, small=False):
    c = {}
    if r.random() < .4:
        c["sample"] = r.random() < .7
    if r.random() < .3:
        c["data_path"] = "$q.csv"
        if r.random() < .5:
            c["load_file"] = r.random() < .5
    for k in r.sample(QK[:5], r.randrange(6)):
        m = {"distribution": "constant", "params": [prob(r)]}
        if not small:
            m = r.choice([m, {"distribution": "user"}, {"distribution": "gaussian",
                                                        "params": [prob(r), prob(r)]}])
        if r.random() < .5:
            m["enabled"] = r.random() < .6
        c[k] = m
    if not small and r.random() < .4:
        c["fabrication"] = {"distribution": "user", "enabled": r.random() < .5}
    return c


def random_g(r, small=False):
    c = {}
    if r.random() < .7:
        c["sample"] = r.random() < .8
    if r.random() < .3:
        c["data_path"] = "$g.csv"
        if r.random() < .5:
            c["load_file"] = r.random() < .5
    for k in r.sample(GK[:5], r.randrange(5)):
        n = 1 if small else r.randrange(1, 4)
        errs = r.sample(["X", "Y", "Z"] if k in "HMR" else
                        ["XX", "IX", "ZY", "YI", "ZZ"], n)
        ds = ["constant" if small else r.choice(["constant", "gaussian"]) for _ in errs]
        m = {"distribution": ds, "induced_errors": errs,
             "params": [[prob(r)] if d == "constant" else [prob(r), prob(r)] for d in ds]}
        if not small and r.random() < .2:
            m = {"distribution": "user"}
        if r.random() < .5:
            m["enabled"] = r.random() < .6
        c[k] = m
    return c


def run(ctx):
    r = ctx.rng
    for name in FAM:
        for size in (1, 2, 3, 4, 5):
            if name == "RepetitionCode" and size % 2 == 0 or name == "ToricCode" and \
                    size < 2 or name == "RotatedPlanarCode" and size < 2 or size == 1:
                continue
            conf = {"name": name, "rounds": r.randrange(1, 5), "size": size}
            if name in ("FiveQubitCode", "ShorCode") and r.random() < .5:
                del conf["size"]
            if r.random() < .2:
                del conf["rounds"]
            ctx.run("code", conf=conf)
    for part, lst in INVALID.items():
        for conf in lst:
            ctx.run("invalid", part=part, conf=conf)
    for part, conf, change in (
            ("code", {"name": "PlanarCode", "size": 3}, {"rounds": 4}),
            ("code", {"name": "PlanarCode", "size": 3}, {"size": 5, "name": "ToricCode"}),
            ("device", {"name": "stim"}, {"shots": 7}),
            ("device", {"shots": 8}, {"name": "stim"}),
            ("decoder", {"name": "UnionFindDecoder"}, {"weighted": False}),
            ("decoder", {}, {"name": "UnionFindDecoder"}),
            ("qmeta", {"distribution": "constant", "params": [.1]}, {"params": [.3]}),
            ("qmeta", {"distribution": "constant", "params": [.1]}, {"enabled": False}),
            ("circuit", {}, {"has_errors": True})):
        ctx.run("update", part=part, conf=conf, change=change)
    for i in range(ctx.n(90)):
        small = i % 3 > 0
        name = r.choice(list(FAM))
        conf = {"code": {"name": name, "rounds": r.randrange(1, 4),
                         "size": r.choice([3, 5] if name == "RepetitionCode" else [2, 3])}}
        nolog = 2 if name == "ToricCode" else 1
        if r.random() < .8 or name == "ToricCode":
            conf["general"] = {"logical_op": "".join(r.choice("XZ") for _ in range(nolog)),
                               "qec_property": ["logical_error_rate"],
                               "seed": r.randrange(10 ** 6)}
        conf["errors"] = {}
        if r.random() < .9:
            conf["errors"]["qubit_errors"] = random_q(r, small)
        if r.random() < .8:
            conf["errors"]["gate_errors"] = random_g(r, small)
        if r.random() < .7:
            d = conf["device"] = {}
            if r.random() < .8:
                d["name"] = r.choice(["stim", "clifford"])
            if r.random() < .8:
                d["shots"] = r.choice([1, 10, 1000, 77777])
        if r.random() < .8:
            d = conf["decoder"] = {}
            if r.random() < .9:
                d["name"] = r.choice(fe.DecoderConfig.VALID_DECODERS)
            if r.random() < .6:
                d["weighted"] = r.random() < .5
        if r.random() < .5:
            d = conf["circuit"] = {}
            if r.random() < .5:
                d["circuit_provided"] = False
            if r.random() < .5:
                d["circuit_path"] = "$t.csv"
            if r.random() < .5:
                d["has_errors"] = r.random() < .5
        if name == "FiveQubitCode":
            small = False            # no matching graph
        ctx.run("experiment", conf=conf, build=small,
                how="dict" if name == "ToricCode" or not conf.get("general")
                else r.choice(["dict", "json", "toml"]))
