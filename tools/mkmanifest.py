"""Regenerates MANIFEST.json from properties.jsonl and the check modules present."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            try:
                out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return out


checks, na = [], []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    f = os.path.join(ROOT, "mc", "checks", i.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": i, "reason": "no check built yet"})
        continue
    k = consts(f)
    b = k.get("BOUND", {})
    note = f"Every execution of the real code within the bound ({b.get('quick', '')}) is run and compared with the reference model; nothing is sampled. Trusts: " + "; ".join(
        k.get("ASSUMPTIONS", []) or ["the reference model in the check module"]
    )
    checks.append(
        {
            "property": i,
            "quick_cmd": f"./check {i} quick",
            "thorough_cmd": f"./check {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": k.get("TECHNIQUE", "stateless model checking of the implementation: exhaustive bounded enumeration of executions against a reference model"),
            "level": k.get("LEVEL", "model_checking"),
            "level_note": note,
        }
    )
m = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": na}
m["notes"] = "No hooks in /repo: the checks drive the public API and interpose libc (C14, C15, C25). See DESIGN.md."
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks;", len(na), "not claimed")
