"""C29: threads that work on objects of their own do not disturb each other."""
import os
import sys
import tempfile
import threading
from dataclasses import dataclass, field
from typing import Dict, List, Optional, Union

import hyperstate
from hyperstate import Lazy, Serializable, StateManager, Versioned
from hyperstate.schema.rewrite_rule import AddDefault, ChangeDefault, MapFieldValue, RenameField
from hyperstate.schema.schema_checker import SchemaChecker
from hyperstate.schema.types import materialize_type

from mc.ref import canon

RULE = (
    "two threads, each doing one operation (loads of several kinds, dumps, failing loads, a scheduled run with checkpoints, a "
    "resumed run with lazy data, schemas and their comparison) on objects of its own, of the same or of different classes; a "
    "controlled scheduler stops the first thread at every line of the library in turn and lets the second run; both have to "
    "give what they give alone"
)
BOUND = {
    "quick": "one preemption, at the first and last execution of every line of the library, 9 operations against themselves and a resumed run; two preemptions, at every pair of function calls, for 2 operations",
    "thorough": "one preemption, at every execution of every line for 9 operations against themselves, and at the first and last execution for every ordered pair; two preemptions, at every pair of function calls, for 6 operations",
}
ASSUMPTIONS = [
    "the threads share classes (and with them defaults and rules), but no config, state, manager or directory",
    "threads switch between lines of Python code of the library",
]

PKG = os.path.dirname(os.path.abspath(hyperstate.__file__)) + os.sep


class World:
    def __init__(self, tag):
        @dataclass
        class Sec:
            x: int = 1
            l: List[int] = field(default_factory=lambda: [1])

        @dataclass
        class Alt:
            x: int = 2
            y: float = 0.5

        rules = {
            0: [RenameField(("old_name",), ("name",)), AddDefault(("al",), [tag])],
            1: [ChangeDefault(("sec", "l"), [7, tag], [1]), MapFieldValue(("num",), lambda x: x + tag)],
        }

        @dataclass
        class Cfg(Versioned):
            name: str
            al: List[int]
            sec: Sec
            di: Sec = Sec(3)
            od: Optional[Sec] = None
            u: Union[Sec, Alt, None] = None
            num: int = 0
            lr: float = 1.0

            @classmethod
            def version(cls):
                return 2

            @classmethod
            def upgrade_rules(cls):
                return rules

        @dataclass
        class New(Versioned):
            x: int = 2
            y: float = 0.5
            z: str = "z"

            @classmethod
            def version(cls):
                return 1

        @dataclass
        class Old(Versioned):
            x: int = tag
            y: str = f"t{tag}"
            gone: int = 3

            @classmethod
            def version(cls):
                return 0

        class Blob(Serializable):
            def __init__(self, v):
                self.v = v

            def serialize(self):
                return {"v": self.v}

            @classmethod
            def deserialize(cls, state_dict, config, state, ctx):
                return cls((state_dict["v"], config.num, state.step, sorted(ctx)))

        @dataclass
        class State(Lazy):
            step: int
            b: Blob

        self.tag, self.Sec, self.Alt, self.New, self.Old, self.Cfg, self.Blob, self.State = tag, Sec, Alt, New, Old, Cfg, Blob, State


def write(p, text):
    with open(p, "w") as f:
        f.write(text)


def read(p):
    with open(p, "rb") as f:
        return f.read()


def tree(d):
    return sorted((os.path.relpath(os.path.join(r, f), d), read(os.path.join(r, f))) for r, _, fs in os.walk(d) for f in fs)


# operations: prepare(world, directory) -> what the operation needs; act(world, directory, that) -> observable result
def act_v0(w, d, _):
    return canon(hyperstate.loads(w.Cfg, f'Cfg(version: 0, old_name: "n{w.tag}", num: 3)', overrides=[f"sec.x={w.tag}", "od.x=4"]))


def act_load(w, d, _):
    return canon(hyperstate.load(w.Cfg, os.path.join(d, "c.ron"), overrides=["name=m"]))


def prep_load(w, d):
    write(os.path.join(d, "c.ron"), f'Cfg(version: 1, name: "n", al: [{w.tag}, 2], sec: Sec(x: {w.tag}), u: Alt(x: {w.tag}), num: 1)')


def act_unversioned(w, d, _):
    return canon(hyperstate.loads(w.Sec, f"(x: {w.tag})", overrides=["l=[8]"]))


def act_fail(w, d, _):
    out = []
    for text, ov in ((f'Cfg(version: 1, name: "n", al: [], nope{w.tag}: 1)', None), ('Cfg(version: 2, name: "n", al: [3])', [f"sec.zz{w.tag}=3"]), ("Cfg(name: 3)", None)):
        try:
            out.append(canon(hyperstate.loads(w.Cfg, text, overrides=ov)))
        except Exception as e:
            out.append((type(e).__name__, str(e)))
    return repr(out)


def act_dump(w, d, v):
    p = os.path.join(d, "out.ron")
    hyperstate.dump(v, p)
    return hyperstate.dumps(v) + hyperstate.dumps(v, elide_defaults=True) + read(p).decode()


def prep_dump(w, d):
    return w.Cfg(f"n{w.tag}", [w.tag], w.Sec(w.tag, [1, w.tag]), w.Sec(3), w.Sec(2), w.Alt(w.tag, 0.25), 5, 0.125)


def prep_run(w, d):
    write(os.path.join(d, "c.ron"), f'Cfg(version: 1, name: "n", al: [{w.tag}], num: 1, lr: "step: lin {w.tag}@0 9@4")')
    return os.path.join(d, "ck")


def act_run(w, d, ck):
    sm = StateManager(w.Cfg, w.State, lambda cfg, ctx: w.State(0, w.Blob(w.tag + cfg.num)), os.path.join(d, "c.ron"), ck, overrides=["od.x=5"])
    lrs = []
    sm.set_deserialize_ctx(f"k{w.tag}", 1)
    sm.state.step += 1
    sm.step()
    lrs.append(sm.config.lr)
    return repr((lrs, canon(sm.config), tree(ck)))


def prep_resume(w, d):
    ck = prep_run(w, d)
    act_run(w, d, ck)
    return ck


def act_resume(w, d, ck):
    sm = StateManager(w.Cfg, w.State, lambda cfg, ctx: 1 / 0, os.path.join(d, "c.ron"), ck, overrides=["num=8"])
    sm.set_deserialize_ctx(f"k{w.tag}", 1)
    lr = sm.config.lr
    return repr((lr, sm.state.step, sm.state.b.v, canon(sm.config), canon(sm.config_dict())))


def act_schema(w, d, _):
    return repr(materialize_type(w.Cfg)) + repr(materialize_type(w.Alt))


def prep_check(w, d):
    return materialize_type(w.Old)


def act_check(w, d, old):
    ch = SchemaChecker(old, w.New)
    return repr((ch.changes, ch.severity(), ch.proposed_fixes))


def none(w, d):
    return None


OPS = [
    ("v0", none, act_v0), ("load", prep_load, act_load), ("plain", none, act_unversioned), ("fail", none, act_fail), ("dump", prep_dump, act_dump),
    ("run", prep_run, act_run), ("resume", prep_resume, act_resume), ("schema", none, act_schema), ("check", prep_check, act_check),
]


class Sched:
    """Runs A up to its k-th event, then B (up to its m-th event), then A and B to their ends."""

    def __init__(self, acts, k, m=None, events=("line", None)):
        self.go = [threading.Semaphore(0), threading.Semaphore(0)]
        self.stop = [k, m]
        self.count = [0, 0]
        self.result = [None, None]
        self.over = [False, False]
        self.done = threading.Semaphore(0)
        self.acts = acts
        self.events = events
        self.seen = []

    def switch(self, me):
        sys.settrace(None)  # one preemption per thread
        other = 1 - me
        if self.over[other]:
            return
        self.go[other].release()
        # a thread that waits for a lock the stopped one holds cannot go on: then both run
        if not self.go[me].acquire(timeout=0.3 if _blocked[0] < 20 else 0.05):
            _blocked[0] += 1

    def tracer(self, me):
        lines = self.events[me] == "line"
        stop = self.stop[me]
        count = self.count
        seen = self.seen

        def local(frame, event, arg):
            if event == "line":
                count[me] += 1
                if stop is None:
                    seen.append((id(frame.f_code), frame.f_lineno))
                elif count[me] == stop:
                    self.switch(me)
                    return None
            return local

        def glob(frame, event, arg):
            if not frame.f_code.co_filename.startswith(PKG):
                return None
            if lines:
                return local
            count[me] += 1
            if count[me] == stop:
                self.switch(me)
            return None

        return glob

    def run(self, me):
        self.go[me].acquire()
        if self.events[me]:
            sys.settrace(self.tracer(me))
        try:
            self.result[me] = ("ok", self.acts[me]())
        except BaseException as e:
            self.result[me] = ("raised", f"{type(e).__name__}: {e}")
        finally:
            sys.settrace(None)
            self.over[me] = True
            if self.over[1 - me]:
                self.done.release()
            else:
                self.go[1 - me].release()

    def start(self):
        ts = [threading.Thread(target=self.run, args=(i,), daemon=True) for i in (0, 1)]
        for t in ts:
            t.start()
        self.go[0].release()
        self.done.acquire()
        for t in ts:
            t.join()
        self.acts = None
        return self


_solo = {}
_blocked = [0]
_worlds = {}


def prepared(c, i, w):
    name, prep, act = OPS[i]
    d = tempfile.mkdtemp()
    c.scratch_dirs.append(d)
    x = prep(w, d)
    return lambda: act(w, d, x)


def solo(c, i, tag):
    """The result of the operation alone, and how many events it takes."""
    if (i, tag) not in _solo:
        for _ in range(2):  # the second time everything is warm
            alone = prepared(c, i, World(tag))()
        s = Sched([prepared(c, i, World(tag)), lambda: None], None).start()
        t = Sched([lambda: None, prepared(c, i, World(tag))], None, 0, (None, "call")).start()
        c.check(s.result[0] == ("ok", alone) and t.result[1] == ("ok", alone), lambda: f"{OPS[i][0]} gave {s.result[0]} and {t.result[1]} in threads, {alone} before")
        where = {}
        for k, x in enumerate(s.seen):
            where.setdefault(x, []).append(k + 1)
        some = sorted({k for ks in where.values() for k in (ks[:1] + ks[-1:])})
        _solo[i, tag] = alone, list(range(1, s.count[0] + 1)), some, t.count[1]
    return _solo[i, tag]


NAME = {n: i for i, (n, _, _) in enumerate(OPS)}


def run(c, a, b, shared, k, m, kind):
    ta, tb = 5, 5 if shared == "shared" else 6
    wa, wb = solo(c, a, ta)[0], solo(c, b, tb)[0]
    if shared == "shared":
        wx = wy = World(ta)  # classes that have not been used before
    else:
        for t in (ta, tb):
            if t not in _worlds:
                _worlds[t] = World(t)
        wx, wy = _worlds[ta], _worlds[tb]
    s = Sched([prepared(c, a, wx), prepared(c, b, wy)], k, m, kind).start()
    c.op("switches", 1 if m is None else 2)
    c.check(s.result[0] == ("ok", wa), lambda: f"{OPS[a][0]}, interrupted at {kind[0]} {k} by {OPS[b][0]}, gave {s.result[0]}, expected {wa}")
    c.check(s.result[1] == ("ok", wb), lambda: f"{OPS[b][0]}, run at {kind[0]} {k} of {OPS[a][0]} (and interrupted at {m}), gave {s.result[1]}, expected {wb}")
    c.outcome = "switched" if s.count[0] >= k else "finished before"
    c.state((a, b, shared, k, m))
    c.agreed()


def h_pairs(c):
    """The first thread is stopped at every line, the second runs to its end."""
    part = c.choose("part", range(10))
    a = c.choose("first", range(len(OPS)))
    b = c.choose("second", range(len(OPS)) if c.thorough else sorted({a, NAME["resume"]}))
    shared = c.choose("classes", ("own", "shared") if c.thorough or a == b else ("own",))
    ks = solo(c, a, 5)[1 if c.thorough and a == b else 2]
    k = c.choose("line", [k for k in ks if k % 10 == part] or [part + 1])
    run(c, a, b, shared, k, None, ("line", None))


def h_two(c):
    """Both threads are stopped, at every pair of function calls."""
    a = c.choose("op", [NAME[n] for n in (("plain", "check", "v0", "load", "fail", "schema") if c.thorough else ("plain", "check"))])
    shared = c.choose("classes", ("own", "shared") if c.thorough else ("own",))
    n = solo(c, a, 5)[3]
    k = c.choose("k", range(1, n + 1))
    m = c.choose("m", range(1, solo(c, a, 5 if shared == "shared" else 6)[3] + 1))
    run(c, a, a, shared, k, m, ("call", "call"))


HARNESSES = [("pairs", h_pairs), ("two", h_two)]
