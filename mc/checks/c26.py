"""C26: a run that is resumed with newer versions of its classes continues as migrated."""
import copy
import os
import tempfile
from typing import Dict, List, Optional

import numpy as np
from hyperstate import Lazy, Serializable, StateManager
from hyperstate.schema.rewrite_rule import AddDefault, ChangeDefault, DeleteField, MapFieldValue, RenameField

from mc import gen
from mc.engine import Skip
from mc.ref import St, canon, ron

RULE = (
    "every pair of config edits and every state edit (rename, move, delete, map, new field, changed default, with the rules that "
    "belong to them) split over one or two later versions x every placement of a schedule x lazy and ordinary states: a run "
    "under version 1 is resumed (from its directory, its checkpoint as initial path, or its old config file) under the later "
    "versions, with and without overrides of current fields, steps, and is resumed again"
)
BOUND = {"quick": "2 config edits out of 12 in one version, or 1 and 1 in two; 1 state edit out of 6", "thorough": "3 config edits over up to 3 versions, 2 state edits"}
ASSUMPTIONS = [
    "rules do not rename or map custom-serialized fields, nor map scheduled ones",
    "rules of one version address different fields",
]
NODEF = ...


class Net(Serializable):
    def __init__(self, w):
        self.w = w

    def serialize(self):
        return {"w": self.w}

    @classmethod
    def deserialize(cls, state_dict, config, state, ctx):
        assert config is not None and state is not None
        return cls(state_dict["w"])


# A shape: {name: (type or shape, default)}
BASE_CFG = {
    "lr": (float, NODEF),
    "n": (int, 1),
    "sec": ({"k": (float, 0.5), "m": (int, 2)}, NODEF),
    "old": (str, "o"),
    "opt": (Optional[int], None),
    "li": (List[int], [1]),
}
BASE_STATE = {
    "step": (int, NODEF),
    "cnt": (int, NODEF),
    "net": (Net, NODEF),
    "hist": (List[int], NODEF),
    "sub": ({"z": (int, NODEF)}, NODEF),
}


def get(d, path):
    for p in path[:-1]:
        d = d[p]
        if isinstance(d, tuple):
            d = d[0]
    return d


class Edit:
    """shape(s): changes a shape; rules: what the author declares; value(v): what it means for a complete config."""

    def __init__(self, name, touches, shape, rules, value):
        self.name, self.touches, self.shape, self.rules, self.value = name, touches, shape, rules, value

    def __repr__(self):
        return self.name


def rename(old, new):
    def shape(s):
        d = get(s, old)
        x = d.pop(old[-1])
        get(s, new)[new[-1]] = x

    def value(v):
        x = get(v, old).pop(old[-1])
        get(v, new)[new[-1]] = x

    return Edit(f"rename {'.'.join(old)}", {old, new}, shape, [RenameField(old, new)], value)


def delete(path):
    return Edit(f"delete {'.'.join(path)}", {path}, lambda s: get(s, path).pop(path[-1]), [DeleteField(path)], lambda v: get(v, path).pop(path[-1]))


def add(path, t, d):
    def shape(s):
        get(s, path)[path[-1]] = (t, d)

    def value(v):
        get(v, path)[path[-1]] = copy.deepcopy(d)

    return Edit(f"add {'.'.join(path)}", {path}, shape, [], value)


def mapped(path, f):
    def value(v):
        d = get(v, path)
        d[path[-1]] = f(d[path[-1]])

    return Edit(f"map {'.'.join(path)}", {path}, lambda s: get(s, path)[path[-1]], [MapFieldValue(path, f)], value)


def change_default(path, old, new):
    def shape(s):
        d = get(s, path)
        d[path[-1]] = (d[path[-1]][0], new)

    return Edit(f"default {'.'.join(path)}", {path}, shape, [ChangeDefault(path, old, new) if new is not NODEF else AddDefault(path, old)], lambda v: None)


CFG_EDITS = [
    rename(("lr",), ("rate",)),
    rename(("sec",), ("part",)),
    rename(("sec", "k"), ("kk",)),
    rename(("n",), ("sec", "n2")),
    delete(("old",)),
    delete(("sec", "m")),
    add(("fresh",), int, 9),
    add(("sec", "fresh"), List[int], [3]),
    mapped(("n",), lambda x: x * 10),
    mapped(("old",), lambda x: x + "!"),
    change_default(("n",), 1, 5),
    change_default(("sec", "k"), 0.5, NODEF),
]
STATE_EDITS = [
    None,
    rename(("cnt",), ("total",)),
    delete(("hist",)),
    add(("extra",), int, 4),
    mapped(("cnt",), lambda x: x + 100),
    rename(("sub", "z"), ("zz",)),
    rename(("sub",), ("subsection",)),
]


def build(shape, name, version, rules, bases=()):
    fs = []
    for n, (t, d) in shape.items():
        if isinstance(t, dict):
            t = build(t, f"{name}_{'_'.join(t)}", None, None)
        fs.append((n, t) if d is NODEF else (n, t, d))
    fs.sort(key=len)
    if version is None:
        return gen.mk(name, fs)
    from hyperstate import Versioned

    ns = dict(version=classmethod(lambda clz: version), upgrade_rules=classmethod(lambda clz: rules))
    return gen.mk(name, fs, bases=bases + (Versioned,), ns=ns, key=object())


def plain(v):
    import dataclasses

    if isinstance(v, Net):
        return ("net", v.w.dtype.str, v.w.tobytes())
    if dataclasses.is_dataclass(v):
        return {f: plain(getattr(v, f)) for f in v.__dataclass_fields__}
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return v


def make(shape, v, cls):
    """An object of the class for a model value."""
    kw = {}
    for n, (t, _) in shape.items():
        kw[n] = make(t, v[n], cls.__dataclass_fields__[n].type) if isinstance(t, dict) else v[n]
    return cls(**kw)


SCHED = "step: 1@0 lin 9@8"


def sched_at(step):
    return float(min(9, max(1, 1 + step)))


class World:
    def __init__(self, c, lazy, cfg_edits, state_edits, sched):
        """cfg_edits, state_edits: one list of edits per later version."""
        self.c = c
        self.bases = (Lazy,) if lazy else ()
        self.cfg_edits, self.state_edits, self.sched = cfg_edits, state_edits, sched
        self.dir = tempfile.mkdtemp()
        c.scratch_dirs.append(self.dir)
        self.classes = {}
        cs, ss = copy.deepcopy(BASE_CFG), copy.deepcopy(BASE_STATE)
        for v in range(1, len(cfg_edits) + 2):
            if v > 1:
                for e in cfg_edits[v - 2]:
                    e.shape(cs)
                for e in state_edits[v - 2]:
                    e.shape(ss)
            crules = {1 + i: [r for e in es for r in e.rules] for i, es in enumerate(cfg_edits[: v - 1]) if es}
            srules = {1 + i: [r for e in es for r in e.rules] for i, es in enumerate(state_edits[: v - 1]) if es}
            self.classes[v] = (build(cs, "C", v, crules), build(ss, "S", v, srules, self.bases), copy.deepcopy(cs), copy.deepcopy(ss))

    def migrate(self, cfg, state, v):
        for e in self.cfg_edits[v - 2]:
            e.value(cfg)
        for e in self.state_edits[v - 2]:
            e.value(state)

    def open(self, v, ckpt, init=None, ov=None, first=None):
        ccls, scls, _, sshape = self.classes[v]

        def initial(cfg, ctx):
            self.c.check(first is not None, "the run started from scratch instead of resuming")
            return make(sshape, first, scls)

        return StateManager(ccls, scls, initial, init, ckpt, overrides=ov)

    def current(self, cfg, step):
        out = {k: (self.current(x, step) if isinstance(x, dict) else (sched_at(step) if x == SCHED else x)) for k, x in cfg.items()}
        return out

    def verify(self, sm, cfg, state, when):
        # access the state first or the config first: both orders must work
        gs = plain(sm.state)
        gc = plain(sm.config)
        want = self.current(cfg, state["step"])
        self.c.check(gc == want, lambda: f"{when}: config is {gc}, expected {want}")
        ws = plain(state)
        self.c.check(gs == ws, lambda: f"{when}: state is {gs}, expected {ws}")
        self.c.state((canon(repr(gc)), repr(gs)))

    def train(self, sm, state):
        """Changes every field of the state, in the object and in the model."""
        st = sm.state
        for n in list(state):
            if n == "step":
                state[n] += 1
            elif n == "net":
                state[n] = Net(state[n].w * 2 + 1)
            elif isinstance(state[n], int):
                state[n] += 3
            elif isinstance(state[n], list):
                state[n] = state[n] + [state["step"]]
            elif isinstance(state[n], dict):
                state[n] = {k: x + 7 for k, x in state[n].items()}
                for k, x in state[n].items():
                    setattr(getattr(st, n), k, x)
                continue
            setattr(st, n, copy.copy(state[n]))


def listing(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for f in files:
            with open(os.path.join(base, f), "rb") as h:
                out[os.path.relpath(os.path.join(base, f), d)] = h.read()
    return out


def scenario(c, cfg_edits, state_edits, sched, lazy, start, ov_kind, steps):
    for es in cfg_edits:
        touched = set()
        for e in es:
            for p in e.touches:
                if any(p[: len(q)] == q or q[: len(p)] == p for q in touched):
                    raise Skip()
            touched |= e.touches
    try:
        w = World(c, lazy, cfg_edits, state_edits, sched)
    except KeyError:
        raise Skip()  # the field is no longer there
    c.note(f"config edits {[[e.name for e in es] for es in cfg_edits]}, state edits {[[e.name for e in es] for es in state_edits]}")
    cfg = {"lr": 0.25, "n": 1, "sec": {"k": 0.5, "m": 2}, "old": "o", "opt": None, "li": [1]}
    tree = St("C", {"version": 1, "lr": 0.25, "sec": St("Sec", {})})
    for path in sched:
        get(cfg, path)[path[-1]] = SCHED
        (tree.fields if len(path) == 1 else tree.fields["sec"].fields)[path[-1]] = SCHED
    for es in cfg_edits:
        for e in es:
            if e.name.startswith("map"):
                # a mapping only applies to values that are given
                for path in e.touches:
                    tree.fields.setdefault(path[0], cfg[path[0]])
            if e.name.startswith("map") and e.touches & set(sched):
                raise Skip()
    state = {"step": 0, "cnt": 5, "net": Net(np.arange(2.0)), "hist": [1], "sub": {"z": 1}}
    first = os.path.join(w.dir, "first.ron")
    with open(first, "w") as f:
        f.write(ron(tree))
    run = os.path.join(w.dir, "run")
    if start != "config":
        sm = w.open(1, run, first, first=copy.deepcopy(state))
        w.verify(sm, cfg, state, "version 1 at the start")
        for _ in range(2):
            w.train(sm, state)
            sm.step()
            c.op("step")
        w.verify(sm, cfg, state, "version 1")
    init = None
    for v in range(2, len(cfg_edits) + 2):
        w.migrate(cfg, state, v)
        cshape = w.classes[v][2]
        ov = None
        last = v == len(cfg_edits) + 1
        if not steps and not last:
            pass  # what is not saved is not there in the next version
        elif ov_kind == "current":
            # a field under its current name
            ov = []
            if "rate" in cshape:
                ov, cfg["rate"] = ["rate=0.75"], 0.75
            elif "lr" in cshape:
                ov, cfg["lr"] = ["lr=0.75"], 0.75
            for name in ("sec", "part"):
                if name in cshape and "k" in cshape[name][0]:
                    ov.append(f"{name}.k=0.125")
                    cfg[name]["k"] = 0.125
        elif ov_kind == "schedule":
            ov = []
            for name in ("rate", "lr"):
                if name in cshape:
                    ov, cfg[name] = [f'{name}="{SCHED}"'], SCHED
        ckpt = run
        fresh = None
        if start == "config" and (v == 2 or not steps):
            init, fresh = first, copy.deepcopy(state)
        elif start == "init" and v == 2:
            init = os.path.join(run, os.listdir(run)[0])
            ckpt = os.path.join(w.dir, "second")
            before = listing(run)
        elif start == "copy" and v == 2:
            sm.checkpoint(os.path.join(w.dir, "saved"))
            init, ckpt = os.path.join(w.dir, "saved"), os.path.join(w.dir, "second")
            before = listing(run)
        elif start in ("init", "copy"):
            ckpt = os.path.join(w.dir, "second")
        if start == "dir" and v == 2:
            before = listing(run)
        sm = w.open(v, ckpt, init, ov, fresh)
        w.verify(sm, cfg, state, f"resumed with version {v}")
        c.op("resume")
        if start != "config" and v == 2:
            c.check(listing(run) == before, "opening a checkpoint of an older version changed it")
        for _ in range(steps):
            w.train(sm, state)
            sm.step()
        if steps:
            w.verify(sm, cfg, state, f"trained with version {v}")
            again = w.open(v, ckpt)
            w.verify(again, cfg, state, f"resumed again with version {v}")
            sm = again
            entries = [x for x in os.listdir(ckpt) if x.startswith("latest-")]
            c.check(len(entries) == 1, f"automatic checkpoints: {entries}")
    c.agreed()


SCHEDS = [(), (("lr",),), (("sec", "k"),), (("n",), ("sec", "m"))]


def h_one(c):
    """One later version, two config edits."""
    i = c.choose("edit", range(len(CFG_EDITS)))
    j = c.choose("edit2", [None] + list(range(len(CFG_EDITS))))
    if j is not None and j <= i:
        raise Skip()
    es = [CFG_EDITS[i]] + ([CFG_EDITS[j]] if j is not None else [])
    if c.thorough:
        k = c.choose("edit3", [None] + list(range(len(CFG_EDITS))))
        if k is not None:
            if j is None or k <= j:
                raise Skip()
            es.append(CFG_EDITS[k])
    if c.choose("order", (False, True)):
        if len(es) < 2:
            raise Skip()
        es.reverse()
    sched = c.choose("sched", SCHEDS)
    start = c.choose("start", ("dir", "init", "config") if j is not None else ("dir", "init", "copy", "config"))
    ov = c.choose("ov", (None, "current", "schedule"))
    scenario(c, [es], [[]], sched, c.choose("lazy", (False, True)) if j is None else True, start, ov, 1)


def h_state(c):
    """Edits of the state, next to an edit of the config."""
    se = c.choose("state", STATE_EDITS)
    e = c.choose("edit", [None, CFG_EDITS[0], CFG_EDITS[6]])
    lazy = c.choose("lazy", (False, True))
    start = c.choose("start", ("dir", "init", "copy"))
    s2 = c.choose("state2", STATE_EDITS) if c.thorough or start == "dir" else None
    if s2 is se and se is not None:
        raise Skip()
    same = s2 is not None and c.choose("same version", (False, True))
    ses = [[se] if se else [], [s2] if s2 else []]
    if same:
        ses = [ses[0] + ses[1], []]
        if se and any(p[:1] == q[:1] for p in se.touches for q in s2.touches):
            raise Skip()
    scenario(c, [[e] if e else [], []], ses, c.choose("sched", SCHEDS[:2]), lazy, start, None, c.choose("steps", (1, 0)))


def h_two(c):
    """Edits split over two later versions; versions may be skipped."""
    n = 3 if c.thorough else 2
    es = [c.choose(f"edit{v}", CFG_EDITS) for v in range(n)]
    skip = c.choose("skip", (False, True))
    sched = c.choose("sched", SCHEDS)
    if len(set(map(id, es))) < len(es):
        raise Skip()
    scenario(c, [[e] for e in es], [[] for _ in es], sched, True, c.choose("start", ("dir", "config")), c.choose("ov", (None, "current")), 0 if skip else 1)


HARNESSES = [("one", h_one), ("state", h_state), ("two", h_two)]
