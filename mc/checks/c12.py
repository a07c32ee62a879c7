"""C12: scheduled fields always follow the state and survive persistence."""
import os
import tempfile
from typing import Dict, List, Optional, Tuple, Union

import pyron
from hyperstate import StateManager

from mc import gen
from mc.ref import Raw, St, canon, ron, show

RULE = (
    "every choice of scheduled fields over 22 placements (root float/int/optional, sections 1-3 deep, optional and versioned "
    "sections, lists, tuples, dicts with plain, dotted and integer keys, sections in lists, dicts and unions), each bound to one of "
    "several schedules on two state fields, under every sequence of operations (change a state field, assign an unscheduled "
    "or scheduled field, step, explicit checkpoint + open it, resume) up to the depth bound; the whole config is compared "
    "with the model after every operation and the saved text is compared after every save"
)
BOUND = {
    "quick": "all sets of up to 2 scheduled fields under a fixed 9-step history; all histories up to depth 4 on 5 sets of fields",
    "thorough": "all sets of up to 3 scheduled fields under a fixed 9-step history; all histories up to depth 6 on 5 sets of fields",
}
ASSUMPTIONS = [
    "before the state is first accessed a scheduled field holds some value of its type; nothing more is claimed",
]

D3 = gen.mk("D3", [("f", float, 0.1), ("n", int, 3), ("t", str, "t3")])
D2 = gen.mk("D2", [("f", float), ("d3", D3), ("n", int, 2)])
D1 = gen.mk("D1", [("n", int), ("d2", D2), ("f", float, 0.3)])
V1 = gen.versioned("V1", [("f", float, 0.5), ("n", int, 4)], 2, key="c12")
EL = gen.mk("EL", [("f", float, 0.4), ("n", int, 5)])
EM = gen.mk("EM", [("g", float, 0.6)])
CFG = gen.mk(
    "CFG",
    [
        ("u", float),
        ("f", float),
        ("n", int),
        ("o", Optional[float]),
        ("d1", D1),
        ("v", V1),
        ("od", Optional[D3], None),
        ("l", List[float], []),
        ("ls", List[EL], []),
        ("d", Dict[str, float], {}),
        ("di", Dict[int, EL], {}),
        ("un", List[Union[EL, EM]], []),
        ("tp", Tuple[float, int], (0.0, 0)),
        ("lt", List[Tuple[EL, float]], []),
        ("dt", Dict[str, Tuple[float, EL]], {}),
        ("w", int, 9),
    ],
)
STATE = gen.mk("STATE", [("step", int, 0), ("x", float, 0.0)])

# placement -> (path, type)
PLACES = {
    "f": (("f",), float),
    "n": (("n",), int),
    "o": (("o",), float),
    "d1.f": (("d1", "f"), float),
    "d1.n": (("d1", "n"), int),
    "d1.d2.n": (("d1", "d2", "n"), int),
    "d1.d2.d3.f": (("d1", "d2", "d3", "f"), float),
    "d1.d2.d3.n": (("d1", "d2", "d3", "n"), int),
    "od.f": (("od", "f"), float),
    "v.f": (("v", "f"), float),
    "l[1]": (("l", 1), float),
    "ls[0].f": (("ls", 0, "f"), float),
    "ls[1].n": (("ls", 1, "n"), int),
    "d[k]": (("d", "k"), float),
    "d[a.b]": (("d", "a.b"), float),
    "di[7].f": (("di", 7, "f"), float),
    "un[1].g": (("un", 1, "g"), float),
    "tp[1]": (("tp", 1), int),
    "lt[0][0].n": (("lt", 0, 0, "n"), int),
    "lt[0][1]": (("lt", 0, 1), float),
    "dt[p][0]": (("dt", "p", 0), float),
    "dt[p][1].n": (("dt", "p", 1, "n"), int),
}


def base():
    """The recorded config without schedules, as a plain tree."""
    return {
        "u": 8.0,
        "f": 1.25,
        "n": 11,
        "o": 2.5,
        "d1": {"n": 12, "d2": {"f": 0.25, "d3": {"f": 0.75, "n": 13, "t": "x@y"}, "n": 14}, "f": 0.625},
        "v": {"f": 4.5, "n": 16},
        "od": {"f": 3.5, "n": 15, "t": "q"},
        "l": [0.5, 1.5],
        "ls": [{"f": 5.5, "n": 17}, {"f": 6.5, "n": 18}],
        "d": {"k": 7.5, "a.b": 8.5},
        "di": {7: {"f": 9.5, "n": 19}, 8: {"f": 10.5, "n": 20}},
        "un": [{"f": 11.5, "n": 21}, {"g": 12.5}],
        "tp": [13.5, 23],
        "lt": [[{"f": 14.5, "n": 24}, 15.5]],
        "dt": {"p": [16.5, {"f": 17.5, "n": 25}]},
        "w": 22,
    }


NAMED = {("un", 0): "EL", ("un", 1): "EM"}


def node(t, path=()):
    if isinstance(t, dict):
        if path in (("d",), ("di",), ("dt",)):
            return {k: node(v, path + (k,)) for k, v in t.items()}
        s = St(NAMED.get(path))
        if path == ("v",):
            s.fields["version"] = 2
        for k, v in t.items():
            s.fields[k] = node(v, path + (k,))
        return s
    if isinstance(t, list):
        r = [node(v, path + (i,)) for i, v in enumerate(t)]
        return tuple(r) if path in (("tp",), ("lt", 0), ("dt", "p")) else r
    return t


def get(t, path):
    for p in path:
        t = t[p]
    return t


def put(t, path, v):
    get(t, path[:-1])[path[-1]] = v


def obj_at(cfg, path):
    for p in path:
        cfg = cfg[p] if isinstance(cfg, (list, dict, tuple)) else getattr(cfg, p)
    return cfg


def obj_put(cfg, path, v):
    o = obj_at(cfg, path[:-1])
    if isinstance(o, tuple):
        obj_put(cfg, path[:-1], o[: path[-1]] + (v,) + o[path[-1] + 1 :])
    elif isinstance(o, (list, dict)):
        o[path[-1]] = v
    else:
        setattr(o, path[-1], v)


def plain(v):
    import dataclasses

    if dataclasses.is_dataclass(v):
        return {k: plain(getattr(v, k)) for k in v.__dataclass_fields__}
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


# schedule text -> reference
def lin(pts):
    def f(x):
        if x <= pts[0][0]:
            return pts[0][1]
        if x >= pts[-1][0]:
            return pts[-1][1]
        for (xa, ya), (xb, yb) in zip(pts, pts[1:]):
            if xa <= x < xb:
                return ya + (yb - ya) * (x - xa) / (xb - xa)

    return f


def stair(pts):
    def f(x):
        v = pts[0][1]
        for xa, ya in pts:
            if x >= xa:
                v = ya
        return v

    return f


SCHEDULES = [
    ("step: 1@0 lin 9@8", "step", lin([(0, 1.0), (8, 9.0)])),
    ("x: 4@0 step 2.5@2 1@4", "x", stair([(0, 4.0), (2, 2.5), (4, 1.0)])),
    ("step: 6@2 step 30@3", "step", stair([(2, 6.0), (3, 30.0)])),
    ("x: 7@1 1@4 lin 16@6", "x", lin([(1, 7.0), (4, 1.0), (6, 16.0)])),
]


class Run:
    def __init__(self, c, scheds):
        """scheds: {placement: schedule index}"""
        self.c = c
        self.scheds = scheds
        self.dir = tempfile.mkdtemp()
        c.scratch_dirs.append(self.dir)
        self.ckpt = os.path.join(self.dir, "ckpt")
        self.tree = base()
        rec = base()
        for p, i in scheds.items():
            put(rec, PLACES[p][0], SCHEDULES[i][0])
        self.init = os.path.join(self.dir, "config.ron")
        with open(self.init, "w") as f:
            f.write(ron(node(rec)))
        self.state = {"step": 0, "x": 0.0}
        self.saved = None
        self.n = 0
        self.sm = self.open(self.init, self.ckpt)
        self.touch()

    def open(self, init, ckpt):
        return StateManager(CFG, STATE, lambda cfg, ctx: STATE(), init, ckpt)

    def follow(self):
        for p, i in self.scheds.items():
            path, t = PLACES[p]
            _, name, fn = SCHEDULES[i]
            put(self.tree, path, t(fn(self.state[name])))

    def touch(self):
        """First access of the state."""
        self.sm.state
        self.follow()
        self.verify(self.sm, self.tree, "after the state was first accessed")

    def verify(self, sm, tree, when):
        got = plain(sm.config)
        self.c.check(canon(got) == canon(tree), lambda: f"{when}: config is {diff(got, tree)}")
        st = plain(sm.state)
        self.c.check(canon(st) == canon(self.state), lambda: f"{when}: state is {st}, expected {self.state}")

    def verify_saved(self, path):
        """The file holds the schedule itself, and the current value of everything else."""
        got = pyron.load(os.path.join(path, "config.ron"))
        want = self.saved_tree()
        strip(got)
        got = plain(got)
        self.c.check(canon(got) == canon(want), lambda: f"saved config is {diff(got, want)}")

    def saved_tree(self):
        t = clone(self.tree)
        for p, i in self.scheds.items():
            put(t, PLACES[p][0], SCHEDULES[i][0])
        return t

    def do(self, op):
        c, sm = self.c, self.sm
        c.op(op)
        if op == "step+1" or op == "step+3":
            sm.state.step += int(op[-1])
            self.state["step"] += int(op[-1])
        elif op.startswith("x="):
            sm.state.x = float(op[2:])
            self.state["x"] = float(op[2:])
        elif op == "assign u":
            self.n += 1
            for path, v in ((("u",), 100.0 + self.n), (("d1", "d2", "f"), 200.0 + self.n), (("ls", 1, "f"), 300.0 + self.n)):
                obj_put(sm.config, path, v)
                put(self.tree, path, v)
        elif op == "assign s":
            p = sorted(self.scheds)[0]
            path, t = PLACES[p]
            obj_put(sm.config, path, t(77))
            put(self.tree, path, t(77))
        elif op == "step()":
            sm.step()
            self.follow()
            if self.saved is None or self.saved[1]["step"] != self.state["step"]:
                self.saved = (clone(self.tree), dict(self.state))
                ds = [d for d in os.listdir(self.ckpt) if d.startswith("latest")]
                c.check(len(ds) == 1, f"automatic checkpoints {ds}")
                self.verify_saved(os.path.join(self.ckpt, ds[0]))
        elif op == "checkpoint":
            self.n += 1
            d = os.path.join(self.dir, f"m{self.n}")
            sm.checkpoint(d)
            self.verify_saved(d)
            # a manager that resumes from it follows the schedules
            other = self.open(d, None)
            other.state
            t = clone(self.tree)
            keep, self.tree = self.tree, t
            st = dict(self.state)
            self.follow()
            self.verify(other, t, "after opening the explicit checkpoint")
            other.state.step += 2
            other.state.x += 1.0
            self.state["step"] += 2
            self.state["x"] += 1.0
            other.step()
            self.follow()
            self.verify(other, t, "after a step from the explicit checkpoint")
            self.tree, self.state = keep, st
        elif op == "resume":
            self.sm = self.open(self.init, self.ckpt)
            if self.saved is None:
                t = base()
                self.tree, self.state = t, {"step": 0, "x": 0.0}
            else:
                self.tree, self.state = clone(self.saved[0]), dict(self.saved[1])
            self.touch()
        self.verify(self.sm, self.tree, f"after {op}")
        c.state((sorted(self.scheds.items()), canon(self.tree), self.state))


def strip(t):
    if isinstance(t, dict):
        t.pop("version", None)
        t.pop("!__name__", None)
        for v in t.values():
            strip(v)
    elif isinstance(t, (list, tuple)):
        for v in t:
            strip(v)


def clone(t):
    if isinstance(t, dict):
        return {k: clone(v) for k, v in t.items()}
    if isinstance(t, list):
        return [clone(v) for v in t]
    return t


def diff(got, want, path=""):
    if isinstance(got, dict) and isinstance(want, dict) and got.keys() == want.keys():
        return "; ".join(d for d in (diff(got[k], want[k], f"{path}.{k}") for k in want) if d)
    if isinstance(got, list) and isinstance(want, list) and len(got) == len(want):
        return "; ".join(d for d in (diff(a, b, f"{path}[{i}]") for i, (a, b) in enumerate(zip(got, want))) if d)
    return "" if canon(got) == canon(want) else f"{path}={show(got)} (expected {show(want)})"


HISTORY = ["step+1", "step()", "x=3", "assign u", "step()", "step+3", "assign s", "step()", "checkpoint", "x=5", "resume", "step+1", "x=4", "step()", "resume"]


def h_place(c):
    ps = list(PLACES)
    n = c.choose("scheduled", (1, 2, 3) if c.thorough else (1, 2))
    scheds = {}
    lo = 0
    for i in range(n):
        k = c.choose(f"place{i}", range(lo, len(ps)))
        lo = k + 1
        scheds[ps[k]] = c.choose(f"schedule{i}", range(len(SCHEDULES))) if n == 1 else (k + i) % len(SCHEDULES)
    r = Run(c, scheds)
    for op in HISTORY:
        r.do(op)
    c.agreed()


def h_all(c):
    """Every placement scheduled at once, in every rotation of the schedules."""
    k = c.choose("rotation", range(len(SCHEDULES)))
    r = Run(c, {p: (i + k) % len(SCHEDULES) for i, p in enumerate(PLACES)})
    for op in HISTORY:
        r.do(op)
    c.agreed()


SETS = [
    {"f": 0, "n": 1},
    {"d1.d2.d3.f": 3, "d1.n": 2},
    {"o": 1, "od.f": 0, "v.f": 2},
    {"ls[1].n": 1, "d[a.b]": 0, "l[1]": 3},
    {"un[1].g": 2, "lt[0][1]": 3},
]
OPS = ["step()", "step+1", "x=2", "assign u", "assign s", "resume", "checkpoint"]


def h_ops(c):
    r = Run(c, SETS[c.choose("set", range(len(SETS)))])
    depth = 6 if c.thorough else 4
    for i in range(depth):
        r.do(c.choose(f"op{i}", OPS))
    c.agreed()


def h_override(c):
    """Overrides given on resume may replace a schedule by a value or a value by a schedule."""
    kind = c.choose("kind", ("value over schedule", "schedule over value", "schedule over schedule", "other field"))
    p = c.choose("place", ["f", "n", "d1.f", "d1.n", "od.f", "v.f", "d1.d2.n"])
    when = c.choose("when", ("start", "resume"))
    path, t = PLACES[p]
    name = ".".join(path)
    scheds = {} if kind == "schedule over value" else {p: 0}
    if kind == "value over schedule":
        ov, after = f"{name}=5", {}
    elif kind == "other field":
        ov, after = "u=5", scheds
    else:
        ov, after = f'{name}="{SCHEDULES[1][0]}"', {p: 1}
    r = Run(c, scheds)
    if when == "resume":
        r.do("step+1")
        r.do("step()")
    r.open = lambda init, ckpt: StateManager(CFG, STATE, lambda cfg, ctx: STATE(), init, ckpt, overrides=[ov])
    r.scheds = after
    t0 = clone(r.tree) if when == "resume" else base()
    if kind == "value over schedule":
        put(t0, path, t(5))
    elif kind == "other field":
        put(t0, ("u",), 5.0)
    r.sm = r.open(r.init, r.ckpt)
    r.tree = t0
    r.touch()
    r.open = Run.open.__get__(r)
    for op in ["x=2", "step+1", "step()", "checkpoint", "resume", "step+3", "x=5", "step()", "resume"]:
        r.do(op)
    c.agreed()


HARNESSES = [("place", h_place), ("all", h_all), ("ops", h_ops), ("override", h_override)]
