#!/usr/bin/env python3
"""generated sections of DESIGN.md: per-property table, repaired defects, planted bugs (between <!-- x --> markers)"""
import json, os, re, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import PROPS

kinds = {}
pid = None
for line in open(os.path.join(ROOT, "CONTRACTS.md")):
    m = re.match(r"## (P\d\d)", line)
    if m:
        pid = m.group(1)
    c = [x.strip() for x in line.split("|")]
    if pid and len(c) == 6 and c[2] in ("full", "loop", "bounded", "runtime"):
        kinds.setdefault(pid, []).append((c[1], c[2]))
props = ["| id | property | full | loop | bounded | runtime | how |", "|---|---|---|---|---|---|---|"]
for p in PROPS:
    ks = [k for _, k in kinds.get(p["id"], [])]
    n = lambda k: str(ks.count(k) or "")
    props.append(f"| {p['id']} | {p['title']} | {n('full')} | {n('loop')} | {n('bounded')} | {n('runtime')} | {p['note']} |")
fixes = []
for line in open(os.path.join(ROOT, "KNOWN_FINDINGS.txt")):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", line)
    if m:
        fixes.append(f"* {m.group(1)} `{m.group(2)}` {m.group(3)}")
seeds = ["| planted bug | check | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
res = {}
f = os.path.join(ROOT, "tools", "caught.json")
if os.path.exists(f):
    res = json.load(open(f))
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    m = json.load(open(os.path.join(ROOT, "seeded", d, "meta.json")))
    seeds.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {res.get(d, '?')} |")
s = open(os.path.join(ROOT, "DESIGN.md")).read()
for nm, lines in (("props", props), ("fixes", fixes), ("seeds", seeds)):
    s = re.sub(rf"<!-- {nm} -->.*?<!-- /{nm} -->", lambda _: f"<!-- {nm} -->\n" + "\n".join(lines) + f"\n<!-- /{nm} -->", s, flags=re.S)
open(os.path.join(ROOT, "DESIGN.md"), "w").write(s)
