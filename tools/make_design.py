"""writes /verif/DESIGN.md from tools/design_head.md, the properties, the bounds of the checks,
tools/design_notes.json and the planted bugs (tools/seeds_results.json)"""
import importlib, json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, "/repo")
from checks import REGISTRY

props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl")]
notes = json.load(open(f"{ROOT}/tools/design_notes.json"))
out = [open(f"{ROOT}/tools/design_head.md").read().rstrip("\n"), "", "## The properties and how each is decided", ""]
for p in props:
    i = p["id"]
    mod, fn = REGISTRY[i]
    f = getattr(importlib.import_module("checks." + mod), fn)
    n = notes[i]
    out += [f"### {i} {p['title']}", "", f"*Check*: `checks/{mod}.py:{fn}`. *Explored*: {f.bounds}.", ""]
    for k in ("oracle", "why", "notes"):
        if n.get(k):
            out += [f"*{dict(oracle='Oracle', why='Beyond the tests', notes='Notes')[k]}*: {n[k]}", ""]
    a = getattr(f, "assumptions", None)
    if a:
        out += ["*Assumptions*: " + "; ".join(a) + ".", ""]
    if n.get("cost"):
        out += [f"*Cost*: {n['cost']}.", ""]
out += ["## Planted bugs, and the checks that catch them", "", open(f"{ROOT}/tools/seeds_intro.md").read().rstrip("\n"), ""]
res = json.load(open(f"{ROOT}/tools/seeds_results.json"))
out += ["| change | property | caught by the quick check of | what it breaks | needs |", "|---|---|---|---|---|"]
where = {s: d for d in ("seeded_more", "seeded") if os.path.isdir(f"{ROOT}/{d}") for s in os.listdir(f"{ROOT}/{d}")}
for s in sorted(where or res):
    m = json.load(open(f"{ROOT}/{where[s]}/{s}/meta.json"))
    out.append(f"| {s} | {m['property']} | {', '.join(res.get(s, [])) or 'none'} | {m['what_it_breaks']} | {m['needs']} |".replace("\n", " "))
open(f"{ROOT}/DESIGN.md", "w").write("\n".join(out) + "\n")
