#!/usr/bin/env python3
"""Writes a planted bug to /verif/seeded/<id>/ and confirms it.

Usage: mkseed.py FILE...   Each FILE defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO.
The bug is applied in a scratch copy of /repo, where the stable tests must pass with it and
the demonstration must pass without it and fail with it.
"""
import json, os, shutil, subprocess, sys, tempfile

PY = "/opt/venv/bin/python"
TESTS = json.load(open("/opt/vp/BASELINE.json"))


def demo(d, copy):
    env = {**os.environ, "PYTHONPATH": copy}
    return subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=copy, env=env, capture_output=True, text=True)


def main():
    for f in sys.argv[1:]:
        ns = {}
        exec(open(f).read(), ns)
        out = f"/verif/seeded/{ns['ID']}"
        os.makedirs(out, exist_ok=True)
        copy = tempfile.mkdtemp(prefix="seed")
        try:
            shutil.rmtree(copy)
            subprocess.check_call(["cp", "-a", "/repo", copy])
            open(f"{out}/demo.py", "w").write(ns["DEMO"].lstrip())
            open(f"{out}/demo.sh", "w").write('#!/bin/sh\nexec ' + PY + ' "$(dirname "$0")/demo.py"\n')
            json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
                      open(f"{out}/meta.json", "w"), indent=1)
            r0 = demo(out, copy)
            for path, old, new in ns["EDITS"]:
                p = f"{copy}/hyperstate/{path}"
                s = open(p).read()
                assert s.count(old) == 1, (ns["ID"], path, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = subprocess.check_output(["git", "diff"], cwd=copy, text=True)
            open(f"{out}/patch.diff", "w").write(diff)
            r1 = demo(out, copy)
            t = subprocess.run([PY, "-m", "pytest", "-q", "hyperstate"], cwd=copy, capture_output=True, text=True,
                               env={**os.environ, "PYTHONPATH": copy})
            ok = r0.returncode == 0 and r1.returncode not in (0, 126, 127) and " failed" not in t.stdout
            # changed lines must be lines of the original repository
            print(ns["ID"], ns["PROPERTY"], "OK" if ok else "BAD", r0.returncode, r1.returncode,
                  t.stdout.strip().splitlines()[-1:], (r1.stderr.strip().splitlines() or [""])[-1])
            if r0.returncode:
                print(r0.stderr[-1500:])
        finally:
            shutil.rmtree(copy, ignore_errors=True)


main()
