"""Decide one property: python bin/check.py P01 [--tier quick|thorough] [--replay FILE].

Exit 0: held on everything explored.  Exit 1: a line VIOLATION property=.. replay=..
"""
import importlib
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from lib import boot  # noqa: E402
from lib import bounded as B  # noqa: E402

CHECK = "python bin/check.py {}"


def findings(prop):
    with open(os.path.join(boot.VERIF, "known_findings.json")) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def load(kind, prop):
    name = f"{kind}.{prop.lower()}"
    path = os.path.join(boot.VERIF, kind, prop.lower() + ".py")
    if not os.path.exists(path):
        return None
    return importlib.import_module(name)


def prove(prop, tier, notes):
    """The deductive layer: a report, or None if there is none."""
    if not os.path.exists(os.path.join(boot.VERIF, "contracts", prop.lower() + ".py")):
        return None
    from pyvc import report

    try:
        return report.run(prop, tier)
    except Exception:
        notes.append("the deductive layer stopped: " + traceback.format_exc()[-1500:])
        return None


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    start = time.time()
    boot.check_source()
    if len(args) > 1:
        return replay(prop, args[1])
    notes, found = [], None
    mod = load("bounded", prop)
    rep = prove(prop, tier, notes)
    ctx = B.Ctx(prop, mod.CASES, seed=seed, tier=tier,
                budget=60.0 if tier == "quick" else 600.0)
    # counterexamples of the verifier, replayed on the real code
    if rep is not None:
        for ob in rep.refuted():
            for case, a in ob.replays:
                try:
                    B.apart(ctx, lambda x: x.run(case, **a))
                except B.Found as f:
                    found = f
                    found.obligation = ob.name
                    break
                except Exception:
                    notes.append("replay stopped: " + traceback.format_exc()[-800:])
            if found:
                break
    if found is None:
        try:
            B.apart(ctx, mod.run)
        except B.Found as f:
            found = f
        except Exception:
            notes.append("bounded layer stopped: " + traceback.format_exc()[-1500:])
    if found is None and rep is not None and rep.certain():
        # an obligation fails: look harder for an input
        deep = B.Ctx(prop, mod.CASES, seed=seed + 1000, tier="thorough", budget=150.0)
        try:
            B.apart(deep, mod.run)
        except B.Found as f:
            found = f
        except Exception:
            notes.append("bounded layer stopped: " + traceback.format_exc()[-1500:])
    lines = []
    for k in findings(prop):
        case, a = mod.KNOWN[k["id"]]
        one = B.Ctx(prop, mod.CASES, seed=seed, tier=tier)
        try:
            B.apart(one, lambda x: x.run(case, **a))
            notes.append(f"known finding {k['id']} " + (
                f"not evaluated: {one.skip_reason}" if one.skipped else "no longer fails"))
        except B.Found:
            lines.append(f"KNOWN-FINDING: property={prop} {k['id']}: {k['what']}")
        except Exception as e:
            notes.append(f"known finding {k['id']} not evaluated: {e}")
    status, tail = 0, ""
    failed = [o.as_dict() for o in rep.refuted()] if rep else []
    if found is not None:
        path = B.write_replay(prop, "input", {
            "property": prop, "case": found.case, "args": found.args_,
            "message": found.message, "failed_obligations": failed,
            "how": f"python bin/check.py {prop} <this file>"})
        status, tail = 1, f"replay={path}"
        print(f"{prop}: {found.case}: {found.message[:2000]}")
    elif rep is not None and rep.certain():
        obs = rep.certain()
        path = B.write_replay(prop, "obligation", {
            "property": prop, "failed_obligations": [o.as_dict() for o in obs]})
        status, tail = 1, f"replay={path} no-failing-input-found"
        for o in obs:
            print(f"{prop}: obligation {o.name} fails: {o.detail[:1500]}")
    write_evidence(prop, tier, seed, ctx, rep, mod, notes, status, time.time() - start)
    for ln in lines:
        print(ln)
    for n in notes:
        print("note:", n)
    if rep is not None:
        print(f"{prop}: {rep.summary()}")
    print(f"{prop}: {ctx.evaluations} concrete cases, {len(ctx.keys)} distinct, "
          f"{ctx.skipped} skipped, {time.time() - start:.1f} s")
    if status:
        print(f"VIOLATION property={prop} {tail}")
    return status


def replay(prop, path):
    with open(path) as f:
        d = json.load(f)
    if "case" not in d:
        print(json.dumps(d, indent=1))
        return 0
    mod = load("bounded", prop)
    try:
        B.apart(B.Ctx(prop, mod.CASES), lambda x: x.run(d["case"], **d["args"]))
    except B.Found as f:
        print(f.message)
        return 1
    print("the input does not fail")
    return 0


def write_evidence(prop, tier, seed, ctx, rep, mod, notes, status, wall):
    bounded = {
        "evaluations": ctx.evaluations, "distinct_nontrivial": len(ctx.keys),
        "rule": getattr(mod, "RULE", None) or
        "random and enumerated valid inputs of the real code compared with an "
        "independent reference; distinct by case and arguments",
        "per_case": ctx.per_case, "samples": ctx.samples, "skipped": ctx.skipped,
        "skip_reason": ctx.skip_reason}
    if rep is not None:
        level, cov = rep.level, rep.coverage(CHECK.format(prop))
        cov["bounded"] = bounded
        cov.update({k: bounded[k] for k in
                    ("evaluations", "distinct_nontrivial", "rule", "samples")})
    else:
        level, cov = "exploration", bounded
    data = {"property": prop, "tier": tier, "seed": seed, "level": level,
            "coverage": cov, "assumptions": rep.assumptions() if rep else
            ["bounded: only the listed kinds of inputs were evaluated"],
            "wall_s": round(wall, 3), "violations": status, "notes": notes}
    d = os.path.join(boot.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump(data, f, indent=1, default=str)


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)
