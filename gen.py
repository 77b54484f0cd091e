#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
from props import NOT_APPLICABLE, PROPS
V = os.path.dirname(os.path.abspath(__file__))
na = {x["property"] for x in NOT_APPLICABLE}
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, _ in PROPS:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
checks = []
for d, kw in PROPS:
    if d["id"] in na or not kw.get("parts"):
        continue
    checks.append({
        "property": d["id"],
        "quick_cmd": f"python3 check.py {d['id']} quick",
        "thorough_cmd": f"python3 check.py {d['id']} thorough",
        "evidence_file": f"evidence/{d['id']}.json",
        "technique": kw["technique"],
        "level": "other",
        "level_note": "Solver verdict over all values within the bounds: " + kw["bounds"] + (". Outside: " + kw["outside"] if kw["outside"] else "") + ". Trusts: " + "; ".join(kw.get("assumptions", ["the stand-ins for blst/blstrs/sha2", "the engine's exact normaliser", "z3"]))[:600],
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "not_applicable": NOT_APPLICABLE,
    "notes": "Every check builds from /repo's working tree into /verif/.build (ignored by git).",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

# DESIGN.md
doc = open(os.path.join(V, "design.in.md")).read()
rows = []
for d, kw in PROPS:
    if not kw.get("parts"):
        continue
    rows.append(f"### {d['id']} {d['title']}\n\n{d['statement']}\n\n* How: {kw['explanation']}\n* Encoded: {', '.join(kw['functions'])}\n"
                f"* Bounds: {kw['bounds']}\n" + (f"* Outside: {kw['outside']}\n" if kw["outside"] else "") + f"* Engine: {kw['technique']}\n")
na_rows = [f"* {x['property']}: {x['reason']}" for x in NOT_APPLICABLE] or ["(none)"]
res = {}
rp = os.path.join(V, "seed_results.json")
if os.path.exists(rp):
    res = json.load(open(rp))
seeds = ["| bug | property | needs | result |", "|---|---|---|---|"]
for s in sorted(res):
    r = res[s]
    seeds.append(f"| {s} | {r['property']} | {r['needs']} | {r['result']} |")
doc = doc.replace("@@PROPS@@", "\n".join(rows)).replace("@@NA@@", "\n".join(na_rows)).replace("@@SEEDS@@", "\n".join(seeds))
with open(os.path.join(V, "DESIGN.md"), "w") as f:
    f.write(doc)
