"""DESIGN.md from tools/design.in.md, tools/design.json, contracts/ and seeded/."""
import ast
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(root)
notes = json.load(open("tools/design.json"))


def constants(path):
    out = {}
    if not os.path.exists(path):
        return out
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and \
                n.targets[0].id in ("FUNCTIONS", "ASSUMPTIONS"):
            out[n.targets[0].id] = eval(ast.unparse(n.value), {})
    return out


def props():
    for line in open("properties.jsonl"):
        d = json.loads(line)
        p = d["id"]
        k = constants(f"contracts/{p.lower()}.py")
        meta = {}
        if os.path.exists(f"contracts/{p.lower()}.json"):
            meta = json.load(open(f"contracts/{p.lower()}.json"))
        n = notes["properties"].get(p, {})
        yield f"### {p} {d['title']}\n"
        yield f"Level: **{meta.get('level', 'exploration')}**.  {n.get('how', '')}\n"
        if k.get("FUNCTIONS"):
            yield "Functions under contract: " + ", ".join(
                f"`{f}`" for f in k["FUNCTIONS"]) + ".\n"
        if meta.get("level_note"):
            yield meta["level_note"] + "\n"
        if k.get("ASSUMPTIONS"):
            yield "Assumed:\n\n" + "".join(f"* {a}\n" for a in k["ASSUMPTIONS"])
        if n.get("bounded"):
            yield "Bounded check: " + n["bounded"] + "\n"


def seeds():
    yield "| id | property | needs | caught by |\n|---|---|---|---|"
    for s in sorted(os.listdir("seeded")):
        m = json.load(open(f"seeded/{s}/meta.json"))
        yield (f"| {s} | {m['property']} | {m['needs']} | "
               f"{notes['caught'].get(s, m['property'] + ' (see vcheck)')} |")


t = open("tools/design.in.md").read()
t = t.replace("%%PROPS%%", "\n".join(props())).replace("%%SEEDS%%", "\n".join(seeds()))
open("DESIGN.md", "w").write(t)
