"""C25: checkpoints become visible to other processes all at once."""
import os

from hyperstate import StateManager

from mc import fs
from mc.engine import Skip
from mc.run import CFG, STATES, World, key_of, snap, values

NEEDS_FSINT = True
TECHNIQUE = "explicit enumeration of interleavings: the real readers and writers run as processes that stop before every file-system operation, and a scheduler drives them through every order of the operations within the bound"
RULE = (
    "every order of the file-system operations, in the checkpoint directory, of processes that run the real code: a run that steps while "
    "another process opens the directory and uses the config and state; one that saves to a new place while another loads from it; two "
    "that save to the same new place; two runs with different keys in one directory; for lazy, ordinary and small states and for "
    "temporary directories on the same or another file system"
)
BOUND = {
    "quick": "all orders for small states on one file system; otherwise up to 2 preemptions (1 for two writers)",
    "thorough": "all orders for small states on one file system; otherwise 4 preemptions for small states and 3 for others (one less for two writers to the same place; 2 or 3 for different keys)",
}
ASSUMPTIONS = [
    "operations on the temporary directory, which no other process knows, commute with everything the other process does",
    "a reader may fail if the checkpoint that it reads is removed meanwhile",
]


def variant(c, kinds=("small", "lazy", "plain"), less=0):
    kind = c.choose("state", kinds)
    crossfs = c.choose("other file system", (False, True))
    bounded = kind != "small" or crossfs
    if bounded:
        c.set_budget(((4 if kind == "small" else 3) if c.thorough else 2) - less)
    return kind, crossfs, bounded


def read(kind, make, first="state"):
    """What a process that opens a checkpoint gets."""
    sm = make()
    if first == "config":
        sm.config
    st = snap(sm.state)
    return st, (sm.config.u, sm.config.sec.n, sm.config.sch)


def judge(c, w, res, allowed, may_fail, what):
    """A complete checkpoint of one of the rounds, or an error."""
    if res[0] == "error":
        c.check(may_fail, lambda: f"{what}: {res[1]}")
        c.outcome = "error"
        return
    st, cf = res[1]
    i = st[0] // 3
    ws, wc = w.want(i)
    c.check(st[0] % 3 == 0 and st == ws, lambda: f"{what}: the state is not that of round {i}: {str(st)[:200]}")
    c.check(cf == wc, lambda: f"{what}: the state is of round {i}, but the config is {cf}")
    c.check(i in allowed, lambda: f"{what}: got round {i}, expected one of {allowed}")
    c.outcome = f"round {i - min(allowed):+}"


def listing(d):
    return sorted(os.listdir(d)) if os.path.isdir(d) else []


def h_step(c):
    """A run steps while another process opens the same directory."""
    kind, crossfs, bounded = variant(c)
    p = c.choose("completed", (0, 1))
    steps = c.choose("steps", (1, 2)) if bounded and c.thorough else 1
    w = World(c, kind, crossfs)
    try:
        for _ in range(p):
            w.train()
            w.sm.step()

        def write():
            for _ in range(steps):
                w.train()
                w.sm.step()

        before = w.round
        w.sm.state.step, w.sm.config  # everything the writer needs is loaded
        first = c.choose("first", ("state", "config"))
        procs = [fs.Proc("run", write, w.ck, reads=False), fs.Proc("reader", lambda: read(kind, w.manager, first), w.ck)]
        log = fs.interleave(c, procs, bounded)
        run, reader = procs
        c.check(run.result[0] == "ok", lambda: f"the run fails: {run.result[1]} ({' '.join(log)})")
        # nothing is removed before the second checkpoint
        judge(c, w, reader.result, range(before, before + steps + 1), before + steps > 1, f"reader ({' '.join(log)})")
        w.round = before + steps
        i, problem = w.found()
        c.check(problem is None and i == w.round, lambda: f"afterwards: {problem or i} ({' '.join(log)})")
        c.agreed()
        c.state((kind, crossfs, p, " ".join(log)))
    finally:
        w.close()


def h_save(c):
    """A process saves to a new place while another loads from there."""
    kind, crossfs, bounded = variant(c)
    w = World(c, kind, crossfs)
    try:
        w.train()
        target = os.path.join(w.dir, "run", "saved")
        make = lambda: StateManager(CFG, w.cls, lambda cfg, ctx: 1 / 0, target)  # noqa: E731
        procs = [fs.Proc("run", lambda: w.sm.checkpoint(target), target, reads=False), fs.Proc("reader", lambda: read(kind, make), target)]
        log = fs.interleave(c, procs, bounded)
        c.check(procs[0].result[0] == "ok", lambda: f"saving fails: {procs[0].result[1]}")
        judge(c, w, procs[1].result, [1], not done_first(log), f"reader ({' '.join(log)})")
        i, problem = w.found(make())
        c.check(problem is None and i == 1, lambda: f"afterwards: {problem or i}")
        c.agreed()
        c.state((kind, crossfs, " ".join(log)))
    finally:
        w.close()


def done_first(log):
    """Whether the run had finished before the reader started."""
    names = [x.split(":")[0] for x in log]
    return "reader" not in names or "run" not in names[names.index("reader") :]


def h_same(c):
    """Two processes save to the same new place."""
    kind, crossfs, bounded = variant(c, less=1)
    w = World(c, kind, crossfs)
    try:
        target = os.path.join(w.dir, "run", "saved")

        def save(i):
            def f():
                w.round = i - 1
                w.train()
                w.sm.checkpoint(target)

            return f

        w.sm.state, w.sm.config
        procs = [fs.Proc(f"run{i}", save(i), target) for i in (1, 2)]
        log = fs.interleave(c, procs, bounded)
        won = [i for i in (1, 2) if procs[i - 1].result[0] == "ok"]
        make = lambda: StateManager(CFG, w.cls, lambda cfg, ctx: 1 / 0, target)  # noqa: E731
        i, problem = w.found(make())
        c.check(problem is None, lambda: f"{problem}, saved by {won} ({' '.join(log)})")
        c.check(i in won, lambda: f"what is found is of {i}, but {won} succeeded: {[p.result for p in procs]} ({' '.join(log)})")
        c.agreed()
        c.outcome = repr(won)
        c.state((kind, crossfs, " ".join(log)))
    finally:
        w.close()


def h_keys(c):
    """Two runs with different checkpoint keys share a directory."""
    kind, crossfs, _ = variant(c, ("small",))
    c.set_budget((2 if crossfs else 3) if c.thorough else 1)
    p = c.choose("completed", ((0, 0), (0, 1), (1, 1)))
    w = World(c, kind, crossfs)
    try:
        sms = [w.sm, StateManager(CFG, w.cls, lambda cfg, ctx: w.cls(step=0, **values(kind, 0)), w.init, w.ck, checkpoint_key="a")]
        rounds = [0, 0]

        def step(j):
            w.sm = sms[j]
            w.round = rounds[j]
            w.train()
            w.sm.step()
            rounds[j] = w.round

        for j in (0, 1):
            for _ in range(p[j]):
                step(j)
        for sm in sms:
            sm.state, sm.config
        procs = [fs.Proc(f"run{j}", lambda j=j: step(j), w.ck) for j in (0, 1)]
        log = fs.interleave(c, procs, True)
        for j in (0, 1):
            c.check(procs[j].result[0] == "ok", lambda: f"run {j} fails: {procs[j].result[1]} ({' '.join(log)})")
            sm = StateManager(CFG, w.cls, lambda cfg, ctx: 1 / 0, w.init, w.ck, checkpoint_key=("step", "a")[j])
            i, problem = w.found(sm)
            c.check(problem is None and i == p[j] + 1, lambda: f"run {j} resumes from {problem or i} ({' '.join(log)})")
        want = sorted([f"latest-step{key_of(p[0] + 1):012}", f"latest-a{3 * (p[1] + 1):012}"])
        c.check(listing(w.ck) == want, lambda: f"the directory holds {listing(w.ck)}, expected {want} ({' '.join(log)})")
        c.agreed()
        c.state((crossfs, p, " ".join(log)))
    finally:
        w.close()


HARNESSES = [("step", h_step), ("save", h_save), ("same", h_same), ("keys", h_keys)]
