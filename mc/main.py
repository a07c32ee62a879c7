import argparse
import importlib
import json
import os
import shutil
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def load_known():
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        return json.load(f)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--keep", type=int, default=0, help="collect this many violations per worker and list them")
    ap.add_argument("--only", help="run only the harnesses whose name contains this")
    a = ap.parse_args()
    t0 = time.time()
    with open(os.path.join(ROOT, "mc", "checks", a.property.lower() + ".py")) as f:
        if "NEEDS_FSINT" in f.read():
            from mc import fs

            fs.ensure_loaded()
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    import hyperstate

    src = os.path.dirname(os.path.abspath(hyperstate.__file__))
    if not src.startswith(os.path.realpath(REPO) + os.sep) and not src.startswith(REPO + os.sep):
        print(f"error: hyperstate imported from {src}, not from {REPO}")
        return 2
    from mc import engine

    # parse errors are printed by the RON parser on fd 2; keep a copy for ourselves
    err = os.fdopen(os.dup(2), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("VERIF_STDERR"):
        os.dup2(devnull, 2)
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix="hsmc-", dir=base)
    os.environ["HSMC_SCRATCH"] = scratch
    tmp = os.path.join(scratch, "tmp")
    os.mkdir(tmp)
    os.environ["TMPDIR"] = tmp
    tempfile.tempdir = tmp
    owner = os.getpid()
    try:
        return _main(a, t0, engine, err, scratch)
    finally:
        if os.getpid() == owner:
            shutil.rmtree(scratch, ignore_errors=True)


def _main(a, t0, engine, err, scratch):
    mod = importlib.import_module(f"mc.checks.{a.property.lower()}")
    kf = load_known()
    known = {k["id"]: k for k in kf["findings"] if k["property"] == a.property}
    harnesses = mod.HARNESSES if not callable(mod.HARNESSES) else mod.HARNESSES(a.tier)
    if hasattr(mod, "setup"):
        mod.setup(scratch)
    if a.replay:
        with open(a.replay) as f:
            rep = json.load(f)
        h = dict(harnesses)[rep["harness"]]
        res = []
        for _ in range(2):
            ctx = engine.Ctx(rep["choice_sequence"], rep.get("tier", a.tier), known)
            status, msg = engine.run_one(h, ctx)
            res.append((status, msg if isinstance(msg, str) else msg))
        d, t = engine._describe(ctx)
        print("\n".join(d + ["--"] + t))
        print("replay:", res[0][0], res[0][1])
        if res[0][0] != res[1][0]:
            print("warning: the two replays differ:", res[1])
        if res[0][0] == "violation":
            print(f"VIOLATION property={a.property} replay={a.replay}")
            return 1
        return 0
    engine.KEEP_GOING = a.keep
    if a.only:
        harnesses = [(n, h) for n, h in harnesses if a.only in n]
    deadline = float(os.environ.get("VERIF_DEADLINE", "0")) or None
    total, per, incomplete, errors = engine.explore(harnesses, a.tier, known, a.jobs, deadline)
    wall = time.time() - t0
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    samples = total.samples
    if len(samples) > 6:
        k = seed % len(samples)
        samples = (samples[k:] + samples[:k])[:6]
    cov = dict(
        states=len(total.states),
        transitions=total.transitions,
        traces_validated_against_impl=total.validated,
        executions=total.executions,
        outside_bound=total.skipped,
        max_choice_depth=total.max_depth,
        distinct_outcomes=dict(sorted(total.outcomes.items())[:40]),
        per_harness={
            n: dict(executions=s.executions, states=len(s.states), transitions=s.transitions, validated=s.validated)
            for n, s in sorted(per.items())
        },
        exhaustive=not incomplete and not errors and not total.violations,
        bound=getattr(mod, "BOUND", {}).get(a.tier, ""),
        rule=getattr(mod, "RULE", ""),
        known_findings_seen=sorted(total.known),
        samples=samples or [{"note": "no sample"}],
    )
    if incomplete:
        cov["incomplete_harnesses"] = sorted(incomplete)
    level = getattr(mod, "LEVEL", "model_checking")
    if level == "fault_enumeration":
        cov["evaluations"] = total.executions
        cov["distinct_nontrivial"] = len(total.states)
    ev = dict(
        property=a.property,
        tier=a.tier if a.tier in ("quick", "thorough") else "quick",
        seed=seed,
        level=level,
        coverage=cov,
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(wall, 2),
        violations=len(total.violations),
    )
    if not a.only:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        s = json.dumps(ev, indent=1, default=repr)
        if len(s) > 60000:
            cov["samples"] = cov["samples"][:1]
            s = json.dumps(ev, indent=1, default=repr)[:60000]
        with open(os.path.join(ROOT, "evidence", f"{a.property}.json"), "w") as f:
            f.write(s)
    print(
        f"{a.property} [{a.tier}] executions={total.executions} states={len(total.states)}"
        f" transitions={total.transitions} validated={total.validated} skipped={total.skipped} wall={wall:.1f}s"
    )
    for n, s in sorted(per.items()):
        print(f"  {n}: executions={s.executions} states={len(s.states)} outcomes={len(s.outcomes)}")
    if a.keep:
        seen = {}
        for v in total.violations:
            k = (v["harness"], v["message"][:45])
            seen[k] = seen.get(k, 0) + 1
            if seen[k] > 1 or len(seen) > 20:
                continue
            print("-", v["harness"], "; ".join(v["choices"])[-160:], "\n      ", v["message"].split("\nTraceback")[0][:300])
    if total.violations:
        v = total.violations[0]
        v["property"] = a.property
        v["tier"] = a.tier
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{a.property}-{engine.h64(json.dumps(v['choice_sequence'])+v['harness']):016x}.json")
        with open(path, "w") as f:
            json.dump(v, f, indent=1, default=repr)
        print("violating execution (harness %s):" % v["harness"])
        for l in v["choices"]:
            print("   choice", l)
        for l in v["trace"]:
            print("   trace ", l)
        print("   ", v["message"])
        print(f"VIOLATION property={a.property} replay={path}")
        return 1
    if errors:
        print("engine error:\n" + errors[0])
        return 2
    for kid in sorted(total.known):
        print(f"KNOWN-FINDING: property={a.property} {kid}: {known[kid]['what']}")
    if total.validated == 0:
        print("engine error: no execution was validated (vacuous exploration)")
        return 2
    if incomplete:
        print("note: time cap reached, not exhausted:", sorted(incomplete))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except BaseException:
        import traceback

        print("engine error:\n" + traceback.format_exc())
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
