"""C14: a crash at any moment leaves a complete checkpoint to resume from."""
import os

from mc import fs
from mc.engine import Skip
from mc.run import World, key_of

NEEDS_FSINT = True
LEVEL = "fault_enumeration"
TECHNIQUE = "explicit enumeration of crash points: the process running the real step() is ended at every file-system operation (and inside every write), then the directory is resumed from; sequences of crashes are enumerated too"
RULE = (
    "a run of p completed steps, then the process dies at file-system operation k of the next step (for every k, before the "
    "operation and, for writes, after half of it); a new manager is opened, checked, trained on and crashed again, for every "
    "sequence of crash points up to the bound; temporary directory on the same or another file system; lazy, ordinary and "
    "small states; p = 0..2"
)
BOUND = {
    "quick": "all single crashes for every variant; all pairs of crashes for the small state on one file system",
    "thorough": "all single crashes and all pairs for every variant; all triples for the small and the lazy state on one file system",
}
ASSUMPTIONS = [
    "process crash: what was handed to the operating system stays (loss of power is not claimed)",
    "the checkpoint key increases; file-system operations are those made through libc below the scratch directory",
]

_counts = {}


def setup_world(c, kind, crossfs, hist):
    """Replay completed steps and crashes; returns the world, opened by a new manager."""
    w = World(c, kind, crossfs)
    for h in hist:
        play(c, w, h)
    return w


def play(c, w, h):
    w.train()
    if h == "step":
        w.sm.step()
        c.op(f"step round {w.round}")
        w.saved = [w.round]
    else:
        k, half = h
        crashed, kinds = fs.in_child(w.sm.step, w.dir, fs.CRASH, k, half)
        c.op(f"step of round {w.round}, process dies at operation {k}" + (" half-way" if half else ""))
        if not crashed:
            raise Skip()
        allowed = ([w.saved[-1]] if w.saved else [0]) + [w.round]
        i, problem = w.found()
        c.check(problem is None, lambda: f"{problem}; directory: {listing(w.ck)}")
        c.check(i in allowed, lambda: f"resumed from round {i}, expected one of {allowed}; directory: {listing(w.ck)}")
        w.open()
        if i:
            w.saved = [i]
        # training goes on from what was resumed; a later round gets a later key
        c.state((w.kind, i, w.autos(), w.round))


def listing(d):
    r = []
    for b, ds, fs_ in sorted(os.walk(d)):
        r += [os.path.relpath(os.path.join(b, f), d) for f in sorted(fs_)] or [os.path.relpath(b, d) + "/"]
    return r[:30]


def operations(c, kind, crossfs, hist):
    """Kinds of the file-system operations of the step that follows this history."""
    k = (kind, crossfs, tuple(hist))
    if k not in _counts:
        w = setup_world(c, kind, crossfs, hist)
        try:
            w.train()
            _, kinds = fs.in_child(w.sm.step, w.dir, fs.COUNT)
        finally:
            w.close()
        if len(_counts) > 200:
            _counts.clear()
        _counts[k] = kinds
    return _counts[k]


def crash_point(c, kind, crossfs, hist, label):
    kinds = operations(c, kind, crossfs, hist)
    points = []
    for k, x in enumerate(kinds):
        points.append((k, False))
        if x in "ws":
            points.append((k, True))
    if not points:
        c.fail("step() made no file-system operation")
    return c.choose(label, points)


def run(c, kind, crossfs, crashes, p):
    hist = ["step"] * p
    for n in range(crashes):
        hist.append(crash_point(c, kind, crossfs, hist, f"crash{n}"))
    w = setup_world(c, kind, crossfs, hist)
    try:
        # the run goes on normally after the last crash
        for _ in range(2):
            play(c, w, "step")
            i, problem = w.found()
            c.check(problem is None and i == w.round, lambda: f"after the run went on: {problem or i}, expected round {w.round}")
            w.open()
        c.agreed()
    finally:
        w.close()


def h_one(c):
    kind = c.choose("state", ("small", "lazy", "plain"))
    crossfs = c.choose("other file system", (False, True))
    p = c.choose("completed", (0, 1, 2))
    run(c, kind, crossfs, 1, p)


def h_two(c):
    opts = [(k, x) for k in ("small", "lazy", "plain") for x in (False, True)] if c.thorough else [("small", False)]
    kind, crossfs = c.choose("variant", opts)
    run(c, kind, crossfs, 2, c.choose("completed", (0, 1)))


def h_three(c):
    if not c.thorough:
        raise Skip()
    run(c, c.choose("state", ("small", "lazy")), False, 3, c.choose("completed", (0, 1)))


HARNESSES = [("one", h_one), ("two", h_two), ("three", h_three)]
