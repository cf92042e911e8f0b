#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from registry.py."""
import json, os
from registry import PROPS, NOT_APPLICABLE, TECH

V = os.path.dirname(os.path.abspath(__file__))
with open(f"{V}/properties.jsonl", "w") as f:
    for i, p in list(PROPS.items()) + list(NOT_APPLICABLE.items()):
        assert len(p["title"]) <= 80, (i, len(p["title"]))
        f.write(json.dumps({"id": i, **{k: p[k] for k in ("title", "statement", "quantifier", "why_tests_cant", "anchors")}}) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": i,
        "quick_cmd": f"python3 check.py {i}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i} --tier thorough",
        "technique": TECH,
        "level": "model_checking",
        "level_note": p["note"] or "every input within the stated bounds, per harness: " + "; ".join(f"{h}: {d['bound']}" for q in p["parts"] for h, d in q["harnesses"].items() if not d.get("thorough_only")),
    } for i, p in PROPS.items()],
    "not_applicable": [{"property": i, "reason": p["reason"]} for i, p in NOT_APPLICABLE.items()],
}
with open(f"{V}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

# DESIGN.md = design_head.md + one section per property + planted bugs + design_tail.md
from design_parts import D
seeded = {}
for b in sorted(os.listdir(f"{V}/seeded")) if os.path.isdir(f"{V}/seeded") else []:
    meta = json.load(open(f"{V}/seeded/{b}/meta.json"))
    seeded.setdefault(meta["property"], []).append((b, meta["what_it_breaks"]))
kf = json.load(open(f"{V}/known_findings.json"))
out = [open(f"{V}/design_head.md").read().rstrip(), "", "## Properties", ""]
for i, p in PROPS.items():
    spec, reach = D[i]
    out += [f"### {i} {p['title']}", "", p["statement"], "", f"*Decided by:* {spec}", "",
            f"*Beyond tests:* {p['why_tests_cant']} {reach}", "", f"*Anchors:* {', '.join(p['anchors']['files'])}.", ""]
    if p["assumptions"]:
        out += ["*Assumptions:* " + "; ".join(p["assumptions"]) + ".", ""]
    out += ["| harness | bound |", "|---|---|"]
    for q in p["parts"]:
        for h, d in q["harnesses"].items():
            t = d["bound"] + (f" (thorough: {d['bound_thorough']})" if "bound_thorough" in d else "") + (" (thorough only)" if d.get("thorough_only") else "")
            out.append(f"| {q['module']}::{h} | {t.replace('|', '/')} |")
    out.append("")
    if i in seeded:
        out += ["*Planted bugs caught:*", ""] + [f"* `{b}`: {w}" for b, w in seeded[i]] + [""]
    fx = [f for f in kf["fixed"] if f.startswith(f"fixed: property={i} ")]
    if fx:
        out += ["*Defects repaired:*", ""] + ["* " + f.split(" ", 2)[2] for f in fx] + [""]
if NOT_APPLICABLE:
    out += ["## Not applicable", ""] + [f"* **{i} {p['title']}**: {p['reason']}" for i, p in NOT_APPLICABLE.items()] + [""]
out.append(open(f"{V}/design_tail.md").read().rstrip())
open(f"{V}/DESIGN.md", "w").write("\n".join(out) + "\n")
