"""C16: the checkpoint directory keeps exactly the newest automatic checkpoint."""
import os
import shutil
import tempfile
from pathlib import Path

from hyperstate import StateManager

from mc import gen
from mc.engine import Skip

RULE = (
    "every set of up to 2 foreign entries (files and folders, most of them complete checkpoints with misleading names) next to "
    "every set of automatic checkpoints, opened with every kind of initial path; then every history of steps, manual "
    "checkpoints, foreign files, resumes and simulated interrupted steps up to the depth bound; the directory listing, the bytes "
    "of every foreign entry and what a new manager resumes from are compared with the model after every operation"
)
BOUND = {
    "quick": "1 foreign entry x all sets of automatic checkpoints x all initial paths; 2 foreign entries on a reduced set; histories of depth 3 and 4",
    "thorough": "2 foreign entries x all sets of automatic checkpoints x all initial paths; histories of depth 5 and 6",
}
ASSUMPTIONS = [
    "a foreign file does not occupy the exact name of a future automatic checkpoint",
    "automatic checkpoints are named latest-<key field><value, 12 digits>, as created by the manager itself",
]

CFG = gen.mk("CFG", [("u", float, 1.0), ("s", str, "default")], key="c16")
ST = gen.mk("ST", [("step", int, 0), ("tag", str, "init")], key="c16")


def write_ckpt(d, step, tag, u):
    os.makedirs(d)
    with open(os.path.join(d, "config.ron"), "w") as f:
        f.write(f'CFG(u: {u!r}, s: "{tag}")')
    with open(os.path.join(d, "state.ron"), "w") as f:
        f.write(f'ST(step: {step}, tag: "{tag}")')


FOREIGN_DIRS = [
    "model-000000000900",
    "best-step000000000900",
    "000000000900",
    "900000000000000",
    "latest-000000000900",
    "latest-epoch000000000900",
    "latest-step900",
    "latest-step00000000900",
    "latest-step0000000000900",
    "latest-step000000000900.bak",
    "latest-step000000000900.5f0c7a54-8a7e-4f0e-9d53-123456789012.tmp",
    "latest-step_00000000900",
    "latest-step+00000000900",
    "latest-step 00000000900",
    "latest-step000_00000900",
    "latest-step٠٠٠٠٠٠٠٠٠٩٠٠",
    "xlatest-step000000000900",
    "Latest-step000000000900",
    "latest-steps000000000900",
    "latest-step-000000000900",
    "latest",
    "latest-step",
    "checkpoint",
    "z" * 40,
]
FOREIGN_FILES = ["latest-step000000000900", "config.ron", "state.ron", "notes-000000000900", ".hidden", "latest"]
PARTIAL = ["latest-step000000000900.tmp", "tmp000000000900"]
ENTRIES = [("dir", n) for n in FOREIGN_DIRS] + [("file", n) for n in FOREIGN_FILES] + [("empty", n) for n in PARTIAL]
AUTOS = [(), (0,), (7,), (3, 12), (9, 10, 11), (99, 100), (5, 999999999999), (2, 50, 1000), (-3, 2), (-12, -7), (10**12 - 1, 10**12), (7, 8 * 10**12 + 1, 10**13)]


def name(k):
    return f"latest-step{k:012}"


def snapshot(d):
    """Every entry of the directory with its bytes."""
    out = {}
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        if os.path.isdir(p):
            out[n] = tuple((f, open_read(os.path.join(p, f))) for f in sorted(os.listdir(p)))
        else:
            out[n] = open_read(p)
    return out


def open_read(p):
    with open(p, "rb") as f:
        return f.read()


def create(d, kind, n, i):
    p = os.path.join(d, n)
    if kind == "dir":
        write_ckpt(p, 900 + i, f"foreign {i}", 900.0 + i)
    elif kind == "empty":
        os.makedirs(p)
    else:
        with open(p, "w") as f:
            f.write(f"foreign {i}")


INITS = ["none", "config", "checkpoint", "missing"]


class Run:
    def __init__(self, c, autos, entries, init, exists=True):
        self.c = c
        self.dir = tempfile.mkdtemp()
        c.scratch_dirs.append(self.dir)
        self.ck = os.path.join(self.dir, "runs", "a", "ck")
        self.init = None
        self.foreign = {}
        self.n = 0
        if init == "config":
            self.init = os.path.join(self.dir, "my.ron")
            with open(self.init, "w") as f:
                f.write('CFG(u: 7.5, s: "from init")')
        elif init == "checkpoint":
            self.init = os.path.join(self.dir, "start")
            write_ckpt(self.init, 40, "from init", 7.5)
        elif init == "missing":
            self.init = os.path.join(self.dir, "does-not-exist.ron")
        self.initkind = init
        if exists:
            os.makedirs(self.ck)
            for i, (kind, n) in enumerate(entries):
                create(self.ck, kind, n, i)
            self.foreign = snapshot(self.ck)
            for k in autos:
                write_ckpt(os.path.join(self.ck, name(k)), k, f"auto {k}", float(k) + 0.5)
        self.autos = set(autos)
        self.expect_open()

    def model_open(self):
        """(step, tag, u, s) a new manager has, or None if it must fail."""
        if self.autos:
            k = max(self.autos)
            return self.content.get(k) if hasattr(self, "content") and k in self.content else (k, f"auto {k}", k + 0.5, f"auto {k}")
        if self.initkind == "config":
            return (0, "fn:from init", 7.5, "from init")
        if self.initkind == "checkpoint":
            return (40, "from init", 7.5, "from init")
        if self.initkind == "missing":
            return None
        return (0, "fn:default", 1.0, "default")

    def manager(self):
        return StateManager(CFG, ST, lambda cfg, ctx: ST(0, "fn:" + cfg.s), self.init, self.ck)

    def expect_open(self):
        if not hasattr(self, "content"):
            self.content = {}
        want = self.model_open()
        sm = self.manager()
        self.c.check(os.path.isdir(self.ck), "the checkpoint directory was not created")
        if want is None:
            try:
                got = (sm.state.step, sm.state.tag, sm.config.u, sm.config.s)
            except FileNotFoundError:
                raise Done()
            self.c.fail(f"initial path does not exist, but the manager has {got}")
        got = (sm.state.step, sm.state.tag, sm.config.u, sm.config.s)
        self.c.check(got == want, lambda: f"opened {sorted(os.listdir(self.ck))} with initial path {self.initkind}: got {got}, expected {want}")
        self.sm = sm
        self.cur = list(want)
        self.listing("opening")

    def listing(self, when):
        got = snapshot(self.ck)
        names = {name(k) for k in self.autos}
        have = {n for n in got if n in names}
        rest = {n: v for n, v in got.items() if n not in names}
        self.c.check(have == names and rest.keys() == self.foreign.keys(), lambda: f"after {when} the directory contains {sorted(got)}, expected automatic {sorted(names)} and {sorted(self.foreign)}")
        bad = [n for n in rest if rest[n] != self.foreign[n]]
        self.c.check(not bad, lambda: f"after {when} the contents of {bad} changed")

    def do(self, op):
        c = self.c
        self.n += 1
        c.op(op)
        if op in ("train", "train big", "train back"):
            k = self.cur[0] + {"train": 1, "train big": 990, "train back": -1}[op]
            self.cur[0] = self.sm.state.step = k
            self.cur[1] = self.sm.state.tag = f"t{self.n}"
            self.cur[2] = self.sm.config.u = 20.0 + self.n
            self.dirty = True
        elif op == "step()":
            k = self.cur[0]
            if k not in self.autos or not getattr(self, "dirty", False):
                fresh = k not in self.autos
            else:
                raise Skip()  # the key would not identify the state
            self.sm.step()
            if fresh:
                self.content[k] = tuple(self.cur)
            self.dirty = False
            self.autos = {k}
            self.listing(op)
        elif op.startswith("manual"):
            n = {"manual": f"best{self.n}", "manual digits": f"model-{900 + self.n:012}", "manual latest": f"latest-best{900 + self.n:012}"}[op]
            self.sm.checkpoint(os.path.join(self.ck, n))
            self.c.check(n in os.listdir(self.ck), f"no checkpoint at {n}")
            self.foreign[n] = snapshot(self.ck)[n]
            self.listing(op)
        elif op == "foreign file":
            create(self.ck, "file", f"log-{self.n:012}", self.n)
            self.foreign = {**self.foreign, f"log-{self.n:012}": snapshot(self.ck)[f"log-{self.n:012}"]}
        elif op == "resume":
            self.expect_open()
            self.dirty = False
        elif op == "interrupted step":
            # as left behind by a process that died after saving, before removing the old checkpoint
            if not self.autos or getattr(self, "dirty", False):
                raise Skip()
            old = max(self.autos)
            write_ckpt(os.path.join(self.ck, name(old + 5)), old + 5, "interrupted", 77.0)
            self.content[old + 5] = (old + 5, "interrupted", 77.0, "interrupted")
            self.autos.add(old + 5)
            self.expect_open()
        c.state((sorted(self.foreign), sorted(self.autos), tuple(self.cur), self.initkind))


class Done(Exception):
    pass


def final(r):
    r.do("train")
    r.do("step()")
    r.do("resume")
    r.c.agreed()


def h_open(c):
    autos = c.choose("autos", AUTOS)
    init = c.choose("init", INITS)
    n = c.choose("foreign", (0, 1, 2) if c.thorough else (0, 1))
    e1 = c.choose("entry", range(len(ENTRIES))) if n else None
    es = [] if n == 0 else [e1] if n == 1 else [e1, c.choose("entry2", range(len(ENTRIES)))]
    if n == 2 and es[1] <= es[0] or len({ENTRIES[e][1] for e in es}) < n:
        raise Skip()
    try:
        r = Run(c, autos, [ENTRIES[e] for e in es], init)
        final(r)
    except Done:
        c.agreed()


def h_pairs(c):
    es = [ENTRIES[c.choose("entry", range(len(ENTRIES)))], ENTRIES[c.choose("entry2", range(len(ENTRIES)))]]
    if es[0][1] >= es[1][1]:
        raise Skip()
    r = Run(c, c.choose("autos", [(), (3, 12)]), es, c.choose("init", ("none", "checkpoint")))
    final(r)


OPS = ["train", "train big", "train back", "step()", "manual", "manual digits", "manual latest", "foreign file", "resume", "interrupted step"]


def h_ops(c):
    autos, init = c.choose("start", [((), "none"), ((3, 12), "config"), ((), "checkpoint")])
    r = Run(c, autos, [ENTRIES[0], ENTRIES[9]], init, exists=True)
    for i in range((5 if c.thorough else 3) + (init == "config")):
        r.do(c.choose(f"op{i}", OPS))
    r.do("resume")
    final(r)


def h_dirs(c):
    """Where the directory comes from: missing parents, none at all, set later, string or Path."""
    how = c.choose("how", ("missing", "none", "set later", "Path", "set later with checkpoint"))
    init = c.choose("init", ("none", "config", "checkpoint"))
    steps = c.choose("steps", (0, 1, 3))
    r = Run.__new__(Run)
    if how in ("missing", "Path"):
        r.__init__(c, (), [], init, exists=False)
        if how == "Path":
            r.sm = StateManager(CFG, ST, lambda cfg, ctx: ST(0, "fn:" + cfg.s), Path(r.init) if r.init else None, Path(r.ck))
            c.check((r.sm.state.step, r.sm.state.tag) == tuple(r.cur[:2]), "opening with Path objects differs")
        for _ in range(steps):
            r.do("train")
            r.do("step()")
        r.do("resume")
        c.agreed()
        return
    r.__init__(c, (4, 5) if how == "set later with checkpoint" else (), [], init)
    sm = StateManager(CFG, ST, lambda cfg, ctx: ST(0, "fn:" + cfg.s), r.init)
    if how == "none":
        before = sorted(os.walk(r.dir))
        for i in range(steps):
            sm.state.step += 1
            sm.step()
        c.check(sorted(os.walk(r.dir)) == before, "a manager without checkpoint directory wrote files")
        want = {"none": (0, "fn:default"), "config": (0, "fn:from init"), "checkpoint": (40, "from init")}[init]
        c.check((sm.state.step, sm.state.tag) == (want[0] + steps, want[1]), lambda: f"state {sm.state}, expected {want}")
        c.check(sm.checkpoint_dir is None, "checkpoint_dir is not None")
    else:
        sm.checkpoint_dir = Path(r.ck)
        c.check((sm.state.step, sm.state.tag) == tuple(r.cur[:2]), lambda: f"after setting the directory: state {sm.state}, expected {r.cur}")
        r.sm = sm
        for _ in range(steps):
            r.do("train")
            r.do("step()")
        r.do("resume")
    c.state((how, init, steps))
    c.agreed()


HARNESSES = [("open", h_open), ("pairs", h_pairs), ("ops", h_ops), ("dirs", h_dirs)]
