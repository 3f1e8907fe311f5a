#!/usr/bin/env python3
"""properties.jsonl and MANIFEST.json from the property table (tools/props.py): keeps the two in step"""
import json, os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/dg_commons/"
have = {f[:3].upper() for f in os.listdir(os.path.join(ROOT, "specs")) if f.startswith("p") and f[1:3].isdigit()}
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        if p["id"] not in have:
            continue
        d = dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p.get("over", ["inputs"]), text=p["quant"]),
            why_tests_cant=p["why"],
            anchors=dict(files=[S + x for x in p["files"]],
                         mechanism=[dict(name=a, where=S + b) for a, b in p["mech"]],
                         state=p.get("state", []), observe_at=p.get("observe", []), hook_needed=None),
        )
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
checks = []
for p in PROPS:
    if p["id"] not in have:
        continue
    checks.append(dict(
        property=p["id"], quick_cmd=f"./check {p['id']} --tier quick", thorough_cmd=f"./check {p['id']} --tier thorough",
        evidence_file=f"evidence/{p['id']}.json",
        technique=p.get("technique", "contract-based deductive verification: the real functions are executed symbolically "
                        "against contracts, obligations discharged by z3/nlsat/cvc5"),
        level=p.get("level", "proof"), level_note=p["note"]))
man = dict(
    version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="none", enable="no hooks: /repo carries no instrumentation, contracts are bound to the code from outside",
               source_commits=[]),
    checks=checks, not_applicable=NOT_APPLICABLE,
    notes="PyVC: contracts in specs/, engine in pyvc/; see DESIGN.md")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "properties")
