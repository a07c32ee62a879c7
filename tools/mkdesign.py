"""Regenerates the generated parts of DESIGN.md (between the BEGIN/END marks)."""
import ast
import glob
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


costs = {}
cf = os.path.join(ROOT, "tools", "costs.json")
if os.path.exists(cf):
    costs = json.load(open(cf))
t = ["## Bounds and measured costs (generated by tools/mkdesign.py)", ""]
for f in sorted(glob.glob(os.path.join(ROOT, "mc", "checks", "c*.py"))):
    i = os.path.basename(f)[:-3].upper()
    k = consts(f)
    t.append(f"### {i}")
    t.append("")
    t.append(f"* Enumerated: {k['RULE']}.")
    t.append(f"* Quick bound: {k['BOUND']['quick']}. Thorough bound: {k['BOUND']['thorough']}.")
    if k.get("ASSUMPTIONS"):
        t.append("* Assumes: " + "; ".join(k["ASSUMPTIONS"]) + ".")
    for tier in ("quick", "thorough"):
        m = costs.get(i, {}).get(tier)
        if m:
            t.append(f"* Measured, {tier}: {m}.")
    t.append("")
s = [
    "## Planted bugs (generated by tools/mkdesign.py)",
    "",
    "Each is in `seeded/<id>` with a demonstration; `caught` is the result of the quick check of its property.",
    "",
    "| id | property | what it needs | caught |",
    "|----|----------|---------------|--------|",
]
res = {}
rf = os.path.join(ROOT, "tools", "seedresults.json")
if os.path.exists(rf):
    res = json.load(open(rf))
for d in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    s.append(f"| {i} | {m['property']} | {m['needs']} | {res.get(i, '?')} |")
p = os.path.join(ROOT, "DESIGN.md")
x = open(p).read()
for mark, text in (("TABLE", t), ("SEEDS", s)):
    body = f"<!-- BEGIN {mark} -->\n" + "\n".join(text).rstrip() + f"\n<!-- END {mark} -->"
    if f"@@{mark}@@" in x:
        x = x.replace(f"@@{mark}@@", body)
    else:
        x = re.sub(f"<!-- BEGIN {mark} -->.*?<!-- END {mark} -->", lambda _: body, x, flags=re.S)
open(p, "w").write(x)
