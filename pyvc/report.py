"""Run all contracts of a property and judge the outcome."""
from __future__ import annotations

import importlib
import multiprocessing as mp
import os
import time
import traceback

TRUSTED = [
    "pyvc: this verifier (AST interpreter, loop summaries, path exploration); it is "
    "compared with CPython on concrete inputs by tools/selftest.py",
    "z3 and cvc5 (a query is discharged when one of them answers unsat)",
    "Python integers are mathematical; numpy uint8 wraps modulo 256, numpy int64 is "
    "treated as mathematical; floats are real numbers without rounding, NaN or "
    "infinity unless a contract says otherwise",
    "termination is not proved",
]


class Ob:
    def __init__(self, d):
        self.d = d
        self.name, self.detail = d["name"], d["detail"]
        self.status, self.exact = d["status"], d["exact"]
        self.replays = d.get("replays") or []

    def as_dict(self):
        return {k: v for k, v in self.d.items() if k != "replays"}


class Report:
    def __init__(self, prop, mod, results, wall):
        self.prop, self.mod, self.results, self.wall = prop, mod, results, wall
        self.obs = [Ob(d) for r in results for d in r["obligations"]]
        self.level = "proof" if self.all_discharged() else "exploration"
        if getattr(mod, "LEVEL", None):
            self.level = mod.LEVEL if self.all_discharged() else "exploration"

    def all_discharged(self):
        return bool(self.obs) and all(o.status == "discharged" for o in self.obs)

    def refuted(self):
        return [o for o in self.obs if o.status == "refuted"]

    def certain(self):
        """Refutations whose path uses no approximation (invariants may be used)."""
        return [o for o in self.refuted() if o.exact]

    def undecided(self):
        return [o for o in self.obs if o.status == "undecided"]

    def summary(self):
        n = len(self.obs)
        d = sum(o.status == "discharged" for o in self.obs)
        s = f"{d} of {n} obligations discharged in {self.wall:.1f} s"
        for o in self.undecided():
            s += f"\n  undecided: {o.name}: {o.detail[:400]}"
        for o in self.refuted():
            s += f"\n  refuted: {o.name}: {o.detail[:600]}"
        return s

    def coverage(self, cmd):
        ex, used = {}, set()
        solver = {"z3": 0.0, "cvc5": 0.0}
        calls = {"z3": 0, "cvc5": 0}
        for r in self.results:
            for k, v in r.get("executed", {}).items():
                ex[k] = ex.get(k, 0) + v
            used |= set(r.get("used", []))
            for b in solver:
                solver[b] += r.get("time", {}).get(b, 0.0)
                calls[b] += r.get("calls", {}).get(b, 0)
        by = {}
        for o in self.obs:
            if o.status == "discharged":
                for b in o.d["backends"] or ["simplifier"]:
                    by[b] = by.get(b, 0) + 1
        return {
            "obligations": len(self.obs),
            "discharged": sum(o.status == "discharged" for o in self.obs),
            "obligation_instances": sum(o.d["instances"] for o in self.obs),
            "undecided": [o.as_dict() for o in self.undecided()],
            "refuted": [o.as_dict() for o in self.refuted()],
            "names": [o.name for o in self.obs],
            "discharged_by": by,
            "checker_cmd": cmd,
            "functions_under_contract": getattr(self.mod, "FUNCTIONS", []),
            "functions_interpreted": ex,
            "paths": sum(r.get("paths", 0) for r in self.results),
            "solver_seconds": {k: round(v, 3) for k, v in solver.items()},
            "solver_calls": calls,
            "trusted_base": TRUSTED + list(getattr(self.mod, "TRUSTED", [])) +
            ["meaning given to: " + ", ".join(sorted(used))],
        }

    def assumptions(self):
        return TRUSTED[2:] + list(getattr(self.mod, "ASSUMPTIONS", []))


def cases_of(mod, tier):
    out = []
    for v in vars(mod).values():
        c = getattr(v, "case", None)
        if c is not None and c.__class__.__name__ == "Case":
            out.append(c)
    out += list(getattr(mod, "EXTRA", []))
    return [c for c in out if tier == "thorough" or not c.thorough]


def _child(conn, c):
    from .contract import run_case
    import sys
    sys.setrecursionlimit(20000)
    try:
        conn.send(run_case(c))
    except BaseException:
        conn.send({"case": c.name, "error": traceback.format_exc()[-700:]})
    conn.close()


def lost(name, why):
    return {"case": name, "executed": {}, "obligations": [{
        "name": f"{name}: within reach of the engine", "status": "undecided",
        "detail": why, "instances": 1, "backends": [], "exact": 0, "solver_s": 0,
        "replays": []}]}


def run(prop, tier="quick", only=None, jobs=7):
    mod = importlib.import_module(f"contracts.{prop.lower()}")
    start = time.time()
    limit = 75 if tier == "quick" else 300
    todo = [c for c in cases_of(mod, tier) if only is None or only in c.name]
    ctx = mp.get_context("fork")
    running, results = [], []
    pending = list(todo)
    while pending or running:
        while pending and len(running) < jobs:
            c = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, c))
            p.start()
            b.close()
            running.append((c, p, a, time.time()))
        for item in list(running):
            c, p, a, t0 = item
            if a.poll(0.01):
                try:
                    r = a.recv()
                except EOFError:
                    r = {"case": c.name, "error": "the process ended"}
                if "error" in r:
                    r = lost(c.name, r["error"])
                results.append(r)
                p.join()
                running.remove(item)
            elif time.time() - t0 > (c.timeout or limit):
                p.kill()
                p.join()
                results.append(lost(c.name, "time limit"))
                running.remove(item)
            elif not p.is_alive() and not a.poll(0.01):
                results.append(lost(c.name, "the process ended"))
                running.remove(item)
    order = {c.name: i for i, c in enumerate(todo)}
    results.sort(key=lambda r: order.get(r["case"], 0))
    return Report(prop, mod, results, time.time() - start)


if __name__ == "__main__":
    import sys
    r = run(sys.argv[1], only=sys.argv[2] if len(sys.argv) > 2 else None)
    for o in r.obs:
        print(o.status, o.d["instances"], o.d["backends"], f"{o.d['solver_s']:.2f}",
              o.name, ["(abstract)", "(invariant)", ""][o.exact])
    print(r.summary())
