"""P18: error tables are converted without loss and checked against the code."""
import math
import os
import tempfile
import warnings

import numpy as np
import pandas as pd
from plaquette.errors import ErrorData

from bounded.p07 import make
from lib.bounded import rejects, require

PAIRS = [a + b for a in "IXYZ" for b in "IXYZ"][1:]


def frame(rows, cols):
    """rows: [[id, type, v, ...], ...]; None means an empty entry."""
    return pd.DataFrame([[math.nan if v is None else v for v in r] for r in rows],
                        columns=["qubit_id", "qubit_type", *cols])


def gate_frame(rows):
    return pd.DataFrame([dict(zip(("gate", "on_qubits", "induced_errors", "probs"), r))
                         for r in rows])


def expected_qubits(table, enabled):
    """table: {id: (type, {column: value})}."""
    out = {}
    for q, (kind, vals) in table.items():
        for e in enabled:
            v = vals.get(e)
            if e in ("X", "Y", "Z") and kind == "data":
                if v is not None:
                    out.setdefault("pauli", {}).setdefault(q, {})[e.lower()] = v
            elif e == "erasure" and kind == "data":
                out.setdefault("erasure", {})[q] = {"p": v or 0.0}
            elif e == "measurement" and kind in ("stab", "ancilla"):
                if v is not None:
                    out.setdefault("measurement", {})[q] = {"p": v}
    return out


def expected_gates(rows, enabled):
    out = {}
    for gate, on, chans, probs in rows:
        if gate not in enabled or gate not in ("H", "M", "R", "CX", "CZ"):
            continue
        chans = [chans] if isinstance(chans, str) else chans
        ch = {c.lower(): p for c, p in zip(chans, probs)}
        keys = on if gate in "HMR" else list(zip(on[::2], on[1::2]))
        for k in keys:
            out.setdefault(gate, {})[k] = dict(ch)
    return out


def clean(d):
    """Drop entries without any probability."""
    res = {}
    for name, entries in d.items():
        e = {}
        for k, ch in entries.items():
            ch = {c: float(p) for c, p in ch.items() if p != 0.0 or name == "erasure"}
            if ch:
                e[k] = ch
        if e:
            res[name] = e
    return res


def same(got, want, what):
    g, w = clean(got), clean(want)
    if g != w:
        for n in set(g) | set(w):
            for k in set(g.get(n, {})) | set(w.get(n, {})):
                a, b = g.get(n, {}).get(k), w.get(n, {}).get(k)
                require(a == b, f"{what}: {n} on {k}: {a}, expected {b}")


def compare(ed, table, gates, eq, eg):
    same(ed.qubit_errors_dict, expected_qubits(table, eq), "qubit errors")
    if gates or len(ed.gate_errors):
        same(ed.gate_errors_dict, expected_gates(gates, eg), "gate errors")
    allv = dict(expected_qubits(table, eq)) if eq else {}
    if eg:
        allv.update(expected_gates(gates, eg))
    same(ed.error_data_dict, allv, "all errors")


def c_history(family, size, cols, rows, gates, enabled_q, enabled_g, steps, csv=False,
              as_list=False):
    """A table, then a sequence of updates, against a model."""
    code = make(family, size)
    table = {r[0]: (r[1], {c: v for c, v in zip(cols, r[2:]) if v is not None})
             for r in rows}
    gates = [list(g) for g in gates]
    with warnings.catch_warnings(), tempfile.TemporaryDirectory() as tmp:
        warnings.simplefilter("ignore")
        qf, gf = os.path.join(tmp, "q.csv"), os.path.join(tmp, "g.csv")

        def write(df, path):
            df.to_csv(path, index=False)
            return path

        def write_gates(gs, path):
            write(pd.DataFrame([[g[0], "|".join(map(str, g[1])), "|".join(g[2]),
                                 "|".join(map(repr, g[3]))] for g in gs],
                               columns=["gate", "on_qubits", "induced_errors", "probs"]),
                  path)
            return path

        if csv:
            ed = ErrorData.from_csv(write(frame(rows, cols), qf),
                                    write_gates(gates, gf) if gates else None)
        else:
            kw = {}
            if gates:
                kw["gate_errors"] = gate_frame(gates)
            ed = ErrorData(qubit_errors=frame(rows, cols),
                           enabled_qubit_errors=set(enabled_q),
                           enabled_gate_errors=set(enabled_g), **kw)
        eq = set(enabled_q) if enabled_q and not csv else set(cols)
        eg = set(enabled_g) if enabled_g and not csv and gates else \
            {g[0] for g in gates}
        compare(ed, table, gates, eq, eg)
        ed.check_against_code(code)
        order = list(cols)
        for kind, *a in steps:
            if kind == "add":
                name, ids, probs = a
                if name in order:
                    rejects(lambda: ed.add_qubit_error(ids, name, probs), "second add")
                    continue
                ed.add_qubit_error(ids, name, probs)
                order.append(name)
                eq.add(name)
                for q in table:
                    table[q][1][name] = 0.0
                for q, p in zip(ids, probs):
                    table[q][1][name] = p
            elif kind == "set":
                name, ids, probs = a
                if name not in order:
                    rejects(lambda: ed.update_qubit_error(ids, name, probs), "no column")
                    continue
                if len(ids) == 1 and len(probs) == 1 and not as_list:
                    ed.update_qubit_error(ids[0], name, float(probs[0]))
                elif len(ids) != len(probs):
                    rejects(lambda: ed.update_qubit_error(ids, name, probs), "lengths")
                    continue
                else:
                    ed.update_qubit_error(ids, name,
                                          list(probs) if as_list else np.array(probs))
                for q, p in zip(ids, probs):
                    table[q][1][name] = p
            elif kind == "gate":
                ed.add_gate_error(*a)
                gates.append(a)
                eg.add(a[0])
            elif kind in ("update", "update_csv"):
                ucols, urows, ugates, over = a
                kw = {}
                if urows:
                    kw["qubit_error_csv" if kind == "update_csv" else "qubit_errors"] = \
                        write(frame(urows, ucols), qf) if kind == "update_csv" else \
                        frame(urows, ucols)
                if ugates:
                    kw["gate_error_csv" if kind == "update_csv" else "gate_errors"] = \
                        write_gates(ugates, gf) if kind == "update_csv" else \
                        gate_frame(ugates)
                getattr(ed, "update" if kind == "update" else "update_from_csv")(
                    overwrite=over, **kw)
                if urows:
                    if over:
                        table, order = {}, []
                    for c in ucols:
                        if c not in order:
                            order.append(c)
                    for q, k, *vals in urows:
                        if over:
                            table[q] = (k, {})
                        if q in table:
                            for c, v in zip(ucols, vals):
                                if v is not None:
                                    table[q][1][c] = v
                    eq = set(order)
                if ugates:
                    gates = ([] if over else gates) + [list(g) for g in ugates]
                    eg = {g[0] for g in gates}
            compare(ed, table, gates, eq, eg)


def c_check(family, size, errors, ok):
    """Dictionaries are checked against the code."""
    code = make(family, size)
    d = {}
    for name, key, params in errors:
        d.setdefault(name, {})[tuple(key) if isinstance(key, list) else key] = params
    if ok:
        ErrorData().check_against_code(code, d)
    else:
        rejects(lambda: ErrorData().check_against_code(code, d), f"{errors}")


def c_config(family, size, qconf, gconf, csvrows, csvcols, gcsv):
    """Configurations to tables (constant values and user tables)."""
    code = make(family, size)
    lat = code.lattice
    with warnings.catch_warnings(), tempfile.TemporaryDirectory() as tmp:
        warnings.simplefilter("ignore")
        qf, gf = os.path.join(tmp, "q.csv"), os.path.join(tmp, "g.csv")
        if csvrows:
            frame(csvrows, csvcols).to_csv(qf, index=False)
        if gcsv:
            pd.DataFrame([[g[0], "|".join(map(str, g[1])), "|".join(g[2]),
                           "|".join(map(repr, g[3]))] for g in gcsv],
                         columns=["gate", "on_qubits", "induced_errors", "probs"]
                         ).to_csv(gf, index=False)
        qc = {k: tuple(v) for k, v in qconf.items()}
        gc = {k: (tuple(v) if v[0] == "user" else [tuple(x) for x in v])
              for k, v in gconf.items()}
        ed = ErrorData.from_lattice(lat, (qc, qf), (gc, gf) if gconf else None)
    table = {v.equbit_idx: (v.type.value, {}) for v in
             (*lat.dataqubits, *lat.stabgens)}
    user = {r[0]: dict(zip(csvcols, r[2:])) for r in csvrows}
    for q, (_, vals) in table.items():
        for name, conf in qconf.items():
            if conf[0] == "constant":
                vals[name] = conf[1]
            else:
                v = user.get(q, {}).get(name)
                vals[name] = 0.0 if v is None else v
    rows = []
    stabs = [v.equbit_idx for v in lat.stabgens]
    pairs = [x for v in lat.stabgens for e in v.edges
             for x in (v.equbit_idx, e.data.equbit_idx)]
    for name, conf in gconf.items():
        if conf[0] == "user":
            rows += [g for g in gcsv if g[0] == name]
        else:
            for _, ch, p in conf:
                rows.append([name, stabs if name in "HMR" else pairs, [ch], [p]])
    compare(ed, table, rows, set(qconf), set(gconf))
    ed.check_against_code(code)


def c_known_channels():
    code = make("planar", 2)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ed = ErrorData.from_lattice(
            code.lattice, None, ({"H": [("constant", "X", 0.1), ("constant", "Z", 0.2)]},
                                 "/nonexistent.csv"))
    d = ed.gate_errors_dict["H"][code.lattice.stabgens[0].equbit_idx]
    require(d == {"x": 0.1, "z": 0.2}, f"channels kept: {d}")


CASES = {"history": c_history, "check": c_check, "config": c_config,
         "known_channels": c_known_channels}
KNOWN = {"P18-several-channels": ("known_channels", {})}
COLS = ["X", "Y", "Z", "erasure", "measurement", "fabrication"]


def prob(r):
    return r.choice([0.0, 1.0, 0.1, 0.25, round(r.random(), 6), 1e-9, 0.333333])


def random_rows(r, lat, cols, subset=False):
    vs = [*lat.dataqubits, *lat.stabgens]
    if subset:
        vs = r.sample(vs, r.randint(1, len(vs)))
    out = []
    stab = r.choice(["stab", "ancilla"])
    for v in vs:
        t = "data" if v.type.value == "data" else stab
        out.append([v.equbit_idx, t, *(
            r.choice(["missing", "available"]) if c == "fabrication" else
            (None if r.random() < 0.2 else prob(r)) for c in cols)])
    if r.random() < .5:
        r.shuffle(out)      # the rows of a table may come in any order
    return out


def random_gate_rows(r, lat, k):
    rows, used = [], set()
    links = [(v.equbit_idx, e.data.equbit_idx) for v in lat.stabgens for e in v.edges]
    for _ in range(k):
        g = r.choice(["H", "M", "R", "CX", "CZ"])
        m = r.choice([1, 2, 3, 3, 8, 50])
        if g in "HMR":
            on = r.sample([v.equbit_idx for v in lat.stabgens],
                          min(m, len(lat.stabgens)))
            ch = r.sample("XYZ", r.randint(1, 3))
        else:
            on = [x for p in r.sample(links, min(m, len(links))) for x in p]
            ch = r.sample(PAIRS, r.randint(1, 5))
        rows.append([g, on, ch, [prob(r) for _ in ch]])
    return rows


BAD = [[["pauli", 1000, {"x": .1}]], [["pauli", -1, {"x": .1}]],
       [["pauli", "STAB", {"x": .1}]], [["erasure", "STAB", {"p": .1}]],
       [["measurement", "DATA", {"p": .1}]], [["measurement", "LOG", {"p": .1}]],
       [["pauli", "LOG", {"x": .1}]], [["pauli", "DATA", {"p": .1}]],
       [["erasure", "DATA", {"x": .1}]], [["measurement", "STAB", {"x": .1}]],
       [["measurement", 1000, {"p": .1}]], [["erasure", 1000, {"p": .1}]],
       [["foo", "DATA", {"p": .1}]], [["H", "DATA", {"x": .1}]],
       [["H", "STAB", {"xx": .1}]], [["M", 1000, {"x": .1}]], [["R", "LOG", {"x": .1}]],
       [["CX", ["DATA", "STAB"], {"xx": .1}]], [["CZ", ["STAB", "STAB"], {"xx": .1}]],
       [["CX", ["STAB", "DATA"], {"x": .1}]], [["CX", ["STAB"], {"xx": .1}]],
       [["CX", ["STAB", "DATA", "DATA"], {"xx": .1}]],
       [["CZ", ["STAB", 1000], {"xx": .1}]], [["CZ", ["LOG", "DATA"], {"xx": .1}]],
       [["CZ", ["STAB", "LOG"], {"xx": .1}]], [["pauli", 0.5, {"x": .1}]],
       [["pauli", "DATA", {"x": .1}], ["measurement", "DATA", {"p": .1}]],
       [["CX", ["STAB", "DATA"], {"xx": .1}], ["M", "DATA", {"x": .1}]],
       [["H", "STAB", {"x": .1, "q": .1}]], [["pauli", "DATA", {"x": .1, "w": .1}]]]
GOOD = [[["pauli", "DATA", {"x": .1, "y": .2}]], [["erasure", "DATA", {"p": .1}]],
        [["measurement", "STAB", {"p": .1}]], [["H", "STAB", {"x": .1}]],
        [["CX", ["STAB", "DATA"], {"ix": .1, "zz": .2}]], [["pauli", "DATA", {}]],
        [["M", "STAB", {"z": .1}], ["R", "STAB", {"y": .1}],
         ["CZ", ["STAB", "DATA"], {"xi": 1.0}]], []]


def random_entry(r, lat):
    """A valid entry of an error dictionary."""
    name = r.choice(["pauli", "erasure", "measurement", "H", "M", "R", "CX", "CZ"])
    stab, data = r.choice(lat.stabgens).equbit_idx, r.choice(lat.dataqubits).equbit_idx
    if name in ("CX", "CZ"):
        return [name, [stab, data], {c.lower(): .1 for c in r.sample(PAIRS, r.randint(1, 3))}]
    if name in ("erasure", "measurement"):
        return [name, data if name == "erasure" else stab, {"p": .1}]
    return [name, data if name == "pauli" else stab,
            {c: .1 for c in r.sample("xyz", r.randint(1, 3))}]


def random_check(r, lat):
    """Several valid entries, mostly one of them spoilt anywhere among them."""
    ents = {}
    kinds = r.random() < .5 and random_entry(r, lat)[0]
    for _ in range(60):
        e = random_entry(r, lat)
        if not kinds or e[0] == kinds:
            ents[e[0], str(e[1])] = e
        if len(ents) >= 4:
            break
    ents = list(ents.values())
    if r.random() < .15:
        return ents, True
    i = r.randrange(len(ents))
    name, key, params = ents[i]
    data, stab = r.choice(lat.dataqubits).equbit_idx, r.choice(lat.stabgens).equbit_idx
    other = r.choice([r.choice(lat.logical_ops).equbit_idx, len(lat.equbits), 10 ** 6, -1])
    what = r.randrange(2)
    if what == 0:
        params = {**params, r.choice(["q", "xyz", "", "ii"] + (
            ["p", "xx"] if name not in ("erasure", "measurement", "CX", "CZ") else
            ["x", "xx"] if name in ("erasure", "measurement") else ["x", "p"])): .1}
        if r.random() < .5:
            params = dict(reversed(params.items()))
    elif name in ("CX", "CZ"):
        key = r.choice([[data, stab], [stab, stab], [other, key[1]], [key[0], other],
                        key[:1], key + key[:1]])
    else:
        key = r.choice([stab if name in ("pauli", "erasure") else data, other])
    ents[i] = [name, key, params]
    return ents, False


def run(ctx):
    r = ctx.rng
    fams = [("repetition", 3), ("planar", 2), ("rotated", 3), ("five", 1), ("toric", 2)]
    for f, d in fams:
        lat = make(f, d).lattice
        for ok, lst in ((False, BAD), (True, GOOD)):
            for errs in lst:
                def sub(x):
                    if isinstance(x, list):
                        return [sub(y) for y in x]
                    return {"DATA": r.choice(lat.dataqubits).equbit_idx,
                            "STAB": r.choice(lat.stabgens).equbit_idx,
                            "LOG": r.choice(lat.logical_ops).equbit_idx}.get(x, x)
                ctx.run("check", family=f, size=d, ok=ok,
                        errors=[[n, sub(k), p] for n, k, p in errs])
        for _ in range(ctx.n(40, 600)):
            errs, ok = random_check(r, lat)
            ctx.run("check", family=f, size=d, ok=ok, errors=errs)
    for _ in range(ctx.n(250, 3000)):
        f, d = r.choice(fams)
        lat = make(f, d).lattice
        nv = len(lat.dataqubits) + len(lat.stabgens)
        cols = r.sample(COLS, r.randint(1, 5))
        gates = random_gate_rows(r, lat, r.choice([0, 1, 3]))
        csv = r.random() < 0.3
        steps = []
        rows = random_rows(r, lat, cols)
        if csv:
            # an all-empty column would not be read as numbers
            for row in rows[:1]:
                row[2:] = ["available" if c == "fabrication" else 0.125 for c in cols]
        for _ in range(r.choice([0, 1, 2, 4])):
            k = r.choice(["add", "set", "gate", "update", "update_csv"])
            ids = r.sample(range(nv), r.randint(1, 4))
            nm = r.choice(COLS[:5])
            if k == "add":
                steps.append([k, nm, ids, [prob(r) for _ in ids]])
            elif k == "set":
                steps.append([k, nm, ids, [prob(r) for _ in
                                           range(len(ids) + (r.random() < .1))]])
            elif k == "gate":
                steps.append([k, *random_gate_rows(r, lat, 1)[0]])
            else:
                uc = r.sample(COLS[:5], r.randint(1, 3))
                over = r.random() < 0.4
                ur = random_rows(r, lat, uc, subset=not over) if r.random() < .8 else []
                if ur:
                    ur[0][2:] = [0.125] * len(uc)
                steps.append([k, uc, ur, random_gate_rows(r, lat, r.choice([0, 1, 2]))
                              if gates else [], over])
        en = r.sample(cols, r.randint(0, len(cols)))
        eg = sorted({g[0] for g in gates if r.random() < .7})
        ctx.run("history", family=f, size=d, cols=cols, rows=rows, gates=gates,
                enabled_q=en, enabled_g=eg, steps=steps, csv=csv,
                as_list=r.random() < .5)
        if ctx.time_left() < 12:
            break
    for _ in range(ctx.n(60, 800)):
        f, d = r.choice(fams)
        lat = make(f, d).lattice
        qc = {}
        for c in r.sample(COLS[:5], r.randint(1, 5)):
            qc[c] = r.choice([["user"], ["constant", prob(r)]])
        uc = [c for c in COLS[:5] if c in qc]
        rows = random_rows(r, lat, uc) if r.random() < 0.8 else []
        if rows:
            rows[0][2:] = [0.125] * len(uc)
        gcsv = random_gate_rows(r, lat, r.choice([0, 3]))
        gc = {}
        for g in r.sample(["H", "M", "R", "CX", "CZ"], r.randint(0, 4)):
            one = ["constant", r.choice("XYZ") if g in "HMR" else r.choice(PAIRS),
                   prob(r)]
            gc[g] = r.choice([["user"], [one]])
        ctx.run("config", family=f, size=d, qconf=qc, gconf=gc, csvrows=rows,
                csvcols=uc, gcsv=gcsv)
        if ctx.time_left() < 5:
            break
