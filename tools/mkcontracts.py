#!/opt/venv/bin/python
"""CONTRACTS.md from the registered targets: which functions are under contract where, and how"""
import os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "pyvc"))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, "tools"))
sys.argv[0] = os.path.abspath(__file__)
os.environ["PYVC_REEXEC"] = "1"
from pyvc import run
import props

ts = run.load(None)
with open(os.path.join(ROOT, "CONTRACTS.md"), "w") as f:
    f.write("# Contract targets\n\nGenerated by tools/mkcontracts.py. Kinds: `full` = all paths, all values, counted as proved; `loop` = unbounded, loops cut at invariants, counted as proved; "
            "`bounded` = all values for sequences up to the bound, never counted as proved; `runtime` = contract evaluated on seeded inputs of the real code only.\n")
    for p in props.PROPS:
        f.write(f"\n## {p['id']} {p['title']}\n\n| target | kind | functions | bound |\n|---|---|---|---|\n")
        for t in ts:
            if t.pid == p["id"]:
                fs = ", ".join((x if isinstance(x,str) else str(x)).replace("dg_commons.", "") for x in t.funcs)
                f.write(f"| {t.name} | {t.kind} | {fs} | {t.bound or '-'} |\n")
