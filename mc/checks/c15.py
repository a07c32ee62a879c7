"""C15: a failed checkpoint attempt loses nothing and can be retried."""
import errno
import os

from hyperstate import StateManager

from mc import fs
from mc.checks.c14 import listing
from mc.engine import Skip
from mc.run import CFG, Blob, World

NEEDS_FSINT = True
LEVEL = "fault_enumeration"
TECHNIQUE = "explicit enumeration of fault points: every file-system operation of the real step() (reads, directory listings, closes, writes, renames, removals) is made to fail once, or from then on, with each error; then the directory is resumed from and the step is retried"
RULE = (
    "after p completed steps, operation k of the next step fails (for every k) with EIO, ENOSPC or EACCES, or a write "
    "is cut short, once or permanently until cleared, or the j-th serialize call raises; the directory is opened by a new manager, "
    "then the same manager retries (failing again at every operation of the retry, up to the bound) and finally succeeds; explicit checkpoints to paths where there is something already or that can not be created"
)
BOUND = {
    "quick": "all single faults for every variant; all pairs of single EIO faults for the small state on one file system",
    "thorough": "all single faults; all pairs of faults for the small and lazy state on one file system and EIO pairs for the small state across file systems",
}
ASSUMPTIONS = [
    "operations fail through their return value; stat calls do not fail",
    "the checkpoint key increases",
]

_counts = {}


def attempt(w, mode, k, err, half):
    """One step() under a fault; returns the exception or None."""
    fs.arm(w.dir, mode, k, err, half, reads=True)
    try:
        w.sm.step()
        e = None
    except Exception as x:
        e = x
    finally:
        kinds = fs.disarm()
    return e, kinds


def saved_ok(c, w, prev, when, err):
    i, problem = w.found()
    if err is None:
        c.check(problem is None and i == w.round, lambda: f"{when}: step() returned, but a new manager finds {problem or f'round {i}'}, expected round {w.round}; {listing(w.ck)}")
        c.check(len(w.autos()) == 1, lambda: f"{when}: step() returned with automatic checkpoints {w.autos()}")
    else:
        c.check(problem is None, lambda: f"{when}: {problem}; step() raised {err!r}; {listing(w.ck)}")
        c.check(i in (prev, w.round), lambda: f"{when}: a new manager finds round {i}, expected {prev} or {w.round}; step() raised {err!r}; {listing(w.ck)}")
    return i


def prepare(c, kind, crossfs, p, faults):
    w = World(c, kind, crossfs)
    for _ in range(p):
        w.train()
        w.sm.step()
    w.train()
    prev = w.round - 1
    for mode, k, err, half in faults:
        e, kinds = attempt(w, mode, k, err, half)
        c.op(f"step fails at operation {k} ({kinds[k:k + 1]}) with {errno.errorcode[err]}{' half-way' if half else ''}{'' if mode == fs.FAIL else ' (until cleared)'}: {type(e).__name__ if e else 'returns'}")
        c.check(e is None or isinstance(e, OSError), lambda: f"step() raised {e!r} instead of the file-system error")
        i = saved_ok(c, w, prev, "after the failure", e)
        if i == w.round:
            prev = i
        c.state((kind, crossfs, p, k, i, len(w.autos())))
    return w, prev


def operations(c, kind, crossfs, p, faults):
    key = (kind, crossfs, p, tuple(faults))
    if key not in _counts:
        w, _ = prepare(c, kind, crossfs, p, faults)
        try:
            e, kinds = attempt(w, fs.COUNT, -1, 0, False)
            if e is not None:
                raise e
        finally:
            w.close()
        if len(_counts) > 200:
            _counts.clear()
        _counts[key] = kinds
    return _counts[key]


def fault_point(c, ops, errs, modes, label):
    mode, err = c.choose(label + " kind", [(m, e) for m in modes for e in errs if not (m == fs.STICKY_SPACE and e != errno.ENOSPC)])
    pts = []
    for k, x in enumerate(ops):
        if mode == fs.STICKY_SPACE and x not in "owsk":
            continue
        pts.append((k, False))
        if x in "ws":
            pts.append((k, True))
    k, half = c.choose(label, pts)
    return (mode, k, err, half)


def run(c, kind, crossfs, p, n, errs, modes):
    faults = []
    for i in range(n):
        ops = operations(c, kind, crossfs, p, faults)
        if not ops:
            raise Skip()
        faults.append(fault_point(c, ops, errs, modes, f"fault{i}"))
    w, prev = prepare(c, kind, crossfs, p, faults)
    try:
        w.sm.step()
        c.op("step again")
        saved_ok(c, w, prev, "after the retry", None)
        # the run goes on
        w.train()
        w.sm.step()
        saved_ok(c, w, prev, "after the next step", None)
        c.agreed()
    finally:
        w.close()


def h_one(c):
    kind = c.choose("state", ("small", "lazy", "plain"))
    crossfs = c.choose("other file system", (False, True))
    p = c.choose("completed", (0, 1, 2) if c.thorough else (0, 1))
    errs = (errno.EIO, errno.ENOSPC, errno.EACCES) if (c.thorough or not crossfs) else (errno.EIO,)
    modes = (fs.FAIL, fs.STICKY, fs.STICKY_SPACE)
    run(c, kind, crossfs, p, 1, errs, modes)


def h_two(c):
    if c.thorough:
        kind, crossfs, errs = c.choose("variant", [("small", False, (errno.EIO, errno.ENOSPC, errno.EACCES)), ("lazy", False, (errno.EIO,)), ("small", True, (errno.EIO,))])
    else:
        kind, crossfs, errs = "small", False, (errno.EIO,)
    run(c, kind, crossfs, 1, 2, errs, (fs.FAIL, fs.STICKY) if c.thorough else (fs.FAIL,))


def h_resumed(c):
    """The failing step is the first one of a resumed run (its data has not been read yet)."""
    kind = c.choose("state", ("lazy", "plain"))
    w = World(c, kind, c.choose("other file system", (False, True)))
    try:
        w.train()
        w.sm.step()
        w.open()
        # only the key changes: the other data is still on disk when the step starts
        w.sm.state.step += 1
        k = c.choose("fault", range(120))
        e, kinds = attempt(w, fs.FAIL, k, errno.EIO, False)
        if len(kinds) <= k:
            raise Skip()
        c.op(f"step of the resumed run fails at operation {k} ({kinds[k]}): {type(e).__name__ if e else 'returns'}")
        c.check(e is None or isinstance(e, OSError), lambda: f"step() raised {e!r}")

        def same_data(sm, when):
            from mc.run import snap

            s = snap(sm.state)
            c.check(s[1:] == w.want(1)[0][1:] and s[0] in (3, 4), lambda: f"{when}: state {str(s)[:200]}")
            return s[0]

        got = same_data(w.manager(), "new manager after the failure")
        if e is None:
            c.check(got == 4, "step() returned but the new state is not saved")
        w.sm.step()
        c.check(same_data(w.manager(), "new manager after the retry") == 4, "retry did not save the state")
        same_data(w.sm, "same manager after the retry")
        c.check(len(w.autos()) == 1, lambda: f"automatic checkpoints {w.autos()}")
        c.state((kind, k))
        c.agreed()
    finally:
        w.close()


def h_serialize(c):
    """Serializing the state raises."""
    kind = c.choose("state", ("lazy", "plain"))
    crossfs = c.choose("other file system", (False, True))
    p = c.choose("completed", (0, 1, 2))
    what = c.choose("fails", ("serialize call 1", "serialize call 2", "unsupported value", "unpackable data", "key is not an integer"))
    times = c.choose("attempts", (1, 2))
    w = World(c, kind, crossfs)
    try:
        for _ in range(p):
            w.train()
            w.sm.step()
        w.train()
        if w.round % 3 == 2 and what == "serialize call 2":
            raise Skip()  # there is only one custom-serialized object in this round
        good = (w.sm.state.note, w.sm.state.a, w.sm.state.step)
        for _ in range(times):
            if what.startswith("serialize"):
                Blob.fail = int(what[-1])
            elif what == "unsupported value":
                w.sm.state.note = object()
            elif what == "unpackable data":
                w.sm.state.a = Blob(1j)
            else:
                w.sm.state.step = "x"
            try:
                w.sm.step()
                raised = False
            except Exception:
                raised = True
            finally:
                Blob.fail = 0
            c.op(f"step with {what}")
            c.check(raised, f"step() returned although {what}")
            i, problem = w.found()
            c.check(problem is None and i == p, lambda: f"after {what}: {problem or f'round {i}'}, expected round {p}; {listing(w.ck)}")
            c.check(len(w.autos()) == min(p, 1), lambda: f"after {what}: automatic checkpoints {w.autos()}")
        w.sm.state.note, w.sm.state.a, w.sm.state.step = good
        w.sm.step()
        saved_ok(c, w, p, "after the retry", None)
        c.state((kind, p, what, times))
        c.agreed()
    finally:
        Blob.fail = 0
        w.close()


TARGETS = ("absent", "empty folder", "checkpoint", "newest automatic checkpoint", "other folder", "file", "link to a folder", "dangling link", "missing parent", "below a file")


def tree(d):
    out = {}
    for base, ds, fs_ in os.walk(d):
        for x in ds + fs_:
            p = os.path.join(base, x)
            if os.path.islink(p):
                out[p] = ("link", os.readlink(p))
            elif os.path.isdir(p):
                out[p] = ("dir",)
            else:
                with open(p, "rb") as f:
                    out[p] = ("file", f.read())
    return out


def h_target(c):
    """An explicit checkpoint to a path where there is something already, or that can not be created."""
    kind = c.choose("state", ("small", "lazy", "plain"))
    crossfs = c.choose("other file system", (False, True))
    p = c.choose("completed", (1, 2))
    what = c.choose("target", TARGETS)
    times = c.choose("attempts", (1, 2))
    w = World(c, kind, crossfs)
    try:
        run_dir = os.path.dirname(w.ck)
        for _ in range(p):
            w.train()
            w.sm.step()
        t = os.path.join(run_dir, "manual")
        if what == "empty folder":
            os.mkdir(t)
        elif what == "checkpoint":
            w.sm.checkpoint(t)
        elif what == "newest automatic checkpoint":
            t = os.path.join(w.ck, w.autos()[0])
        elif what in ("other folder", "link to a folder"):
            os.mkdir(t)
            with open(os.path.join(t, "precious"), "w") as f:
                f.write("x")
            if what == "link to a folder":
                os.symlink(t, t + "2")
                t += "2"
        elif what in ("file", "below a file"):
            with open(t, "w") as f:
                f.write("precious")
            if what == "below a file":
                t = os.path.join(t, "x")
        elif what == "dangling link":
            os.symlink(os.path.join(run_dir, "nowhere"), t)
        elif what == "missing parent":
            t = os.path.join(run_dir, "a", "b", "manual")
        w.train()
        for _ in range(times):
            before = tree(run_dir)
            try:
                w.sm.checkpoint(t)
                e = None
            except OSError as x:
                e = x
            after = tree(run_dir)
            c.op(f"checkpoint to {what}: {type(e).__name__ if e else 'returns'}")
            if e is not None:
                c.check(what != "absent" or _ > 0, lambda: f"checkpoint to {what} raised {e!r}")
                lost = {x for x in before if after.get(x) != before[x]}
                c.check(not lost, lambda: f"checkpoint to {what} raised {e!r}, but changed {sorted(lost)}")
                new = {x for x in after if x not in before and ".tmp" not in x[len(run_dir):]}
                c.check(not new, lambda: f"checkpoint to {what} raised {e!r}, but created {sorted(new)}")
            else:
                lost = {x for x in before if after.get(x) != before[x] and not (x + os.sep).startswith(t + os.sep)}
                c.check(not lost, lambda: f"checkpoint to {what} changed {sorted(lost)}")
                i, problem = w.found(StateManager(CFG, w.cls, None, t, None))
                c.check(problem is None and i == w.round, lambda: f"checkpoint to {what} returned, but there is {problem or f'round {i}'}, expected round {w.round}; {listing(run_dir)}")
                fresh = os.path.join(w.dir, "run", f"fresh{_}")
                w.sm.checkpoint(fresh)
                c.check({x[len(fresh):]: v for x, v in tree(fresh).items()} == {x[len(t):]: v for x, v in tree(t + os.sep).items()} or os.path.islink(t),
                        lambda: f"checkpoint to {what} returned, but the folder has {listing(t)}, expected {listing(fresh)}")
            i, problem = w.found()
            c.check(problem is None and i in (w.round - 1, w.round if what.startswith("newest") else -1), lambda: f"after a checkpoint to {what}: a new manager finds {problem or f'round {i}'}, expected round {w.round - 1}")
        w.sm.step()
        saved_ok(c, w, w.round - 1, f"step after a checkpoint to {what}", None)
        c.state((kind, crossfs, p, what, times, e is None))
        c.agreed()
    finally:
        w.close()


HARNESSES = [("target", h_target), ("one", h_one), ("two", h_two), ("resumed", h_resumed), ("serialize", h_serialize)]
