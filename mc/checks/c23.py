"""C23: loads do not influence each other."""
import enum
import os
import tempfile
from dataclasses import dataclass, field, is_dataclass
from typing import Dict, List, Optional, Tuple, Union

import hyperstate
from hyperstate import Lazy, Serializable, StateManager, Versioned
from hyperstate.schema.rewrite_rule import AddDefault, ChangeDefault, MapFieldValue, RenameField
from hyperstate.schema.schema_checker import SchemaChecker
from hyperstate.schema.types import materialize_type

from mc.ref import canon, same, show

RULE = (
    "every sequence of loads (12 different combinations of class, text, file, overrides, version, manager), changes to any "
    "object loaded before and other uses of the classes, up to the length bound, on freshly defined classes; afterwards every "
    "load is repeated and compared with its expected value, and no two objects may share a mutable part"
)
BOUND = {"quick": "sequences of 3 operations", "thorough": "sequences of 4 operations"}
ASSUMPTIONS = ["what default factories and rule functions of the user share themselves is not checked", "a load by a StateManager happens when its config is first read"]


class World:
    """Freshly defined classes with every kind of mutable default and rule."""

    def __init__(self):
        @dataclass
        class Sec:
            x: int = 1
            l: List[int] = field(default_factory=lambda: [1])
            d: Dict[str, int] = field(default_factory=lambda: {"a": 1})

        @dataclass
        class Outer:
            s: Sec
            i: Sec = Sec(5)
            n: List[Sec] = field(default_factory=lambda: [Sec(6)])

        self.old_l = [7, 7]
        self.old_d = {"old": 7}
        self.added = [[1], [2, 3]]
        self.old_sec = Sec(70, [70], {"o": 70})
        rules = {
            0: [AddDefault(("al",), self.added), ChangeDefault(("sec", "l"), self.old_l, [1]), RenameField(("old_name",), ("name",))],
            1: [ChangeDefault(("di", "d"), self.old_d, {"a": 1}), ChangeDefault(("f",), self.old_sec, None), MapFieldValue(("num",), lambda x: x + 1)],
        }
        self.rules = rules

        @dataclass
        class Cfg(Versioned):
            name: str
            al: List[List[int]]
            sec: Sec
            di: Sec = Sec(3)
            f: Sec = field(default_factory=lambda: Sec(4))
            od: Optional[Sec] = None
            ls: List[Sec] = field(default_factory=list)
            u: Union[Sec, Outer, int] = 0
            t: Tuple[List[int], int] = field(default_factory=lambda: ([0], 0))
            out: Outer = field(default_factory=lambda: Outer(Sec(9), Sec(5)))
            num: int = 0
            lr: float = 1.0
            inst: Outer = Outer(Sec(11), Sec(12), [Sec(13)])

            @classmethod
            def version(cls):
                return 2

            @classmethod
            def upgrade_rules(cls):
                return rules

        @dataclass
        class State:
            step: int = 0

        self.Sec, self.Outer, self.Cfg, self.State = Sec, Outer, Cfg, State
        self.keep = []

    def value(self, **kw):
        """The reference value: built by hand, nothing shared."""
        Sec, Outer = self.Sec, self.Outer
        S = lambda x=1, l=None, d=None: Sec(x, [1] if l is None else l, {"a": 1} if d is None else d)
        base = dict(name="n", al=[[0]], sec=S(), di=S(3), f=S(4), od=None, ls=[], u=0, t=([0], 0), out=Outer(S(9), S(5), [S(6)]), num=0, lr=1.0, inst=Outer(S(11), S(12), [S(13)]))
        base.update(kw)
        return self.Cfg(**base)

    def expected(self, k):
        Sec, Outer = self.Sec, self.Outer
        S = lambda x=1, l=None, d=None: Sec(x, [1] if l is None else l, {"a": 1} if d is None else d)
        v = self.value
        return {
            "plain": lambda: v(),
            "file": lambda: v(),
            "overrides": lambda: v(di=S(8), od=S(2), sec=S(1, [9]), num=3, lr=0.5),
            "overrides2": lambda: v(di=S(3, [1], {"z": 2}), name="m", f=S(5), u=S(7), inst=Outer(S(8), S(12), [S(13)])),
            "sections": lambda: v(sec=S(2, [5]), od=S(1, [4]), ls=[S(1), S(2)], t=([1, 2], 3), u=S(4), out=Outer(S(1), S(5), [])),
            "v0": lambda: v(al=[[1], [2, 3]], sec=S(1, [7, 7]), di=S(3), f=S(70, [70], {"o": 70})),
            "v0 sections": lambda: v(al=[[1], [2, 3]], sec=S(2, [7, 7]), di=S(1, [1], {"old": 7}), f=S(4), num=6),
            "v0 overrides": lambda: v(name="m", al=[[1], [2, 3]], sec=S(5, [7, 7]), f=S(70, [70], {"o": 70})),
            "v1": lambda: v(al=[[3]], di=S(3), f=S(70, [70], {"o": 70}), num=1),
            "manager": lambda: v(),
            "manager v0": lambda: v(al=[[1], [2, 3]], sec=S(1, [7, 7]), f=S(70, [70], {"o": 70}), od=S(6)),
            "schedule": lambda: v(od=S(1, [2])),
            "default": lambda: self.Outer(S(), S(5), [S(6)]),
        }[k]()


OV1 = ["di.x=8", "od.x=2", "sec.l=[9]", "num=3", "lr=0.5"]
OV2 = ["di.d={\"z\": 2}", "name=m", "f.x=5", "u=Sec(x: 7)", "inst.s.x=8"]
BASE = "Cfg(version: 2, name: \"n\", al: [[0]])"
TEXT = {
    "plain": (BASE, None),
    "file": (BASE, None),
    "overrides": (BASE, OV1),
    "overrides2": (BASE, OV2),
    "sections": ("Cfg(version: 2, name: \"n\", al: [[0]], sec: Sec(x: 2, l: [5]), od: Sec(l: [4]), ls: [Sec(x: 1), Sec(x: 2)], t: ([1, 2], 3), u: Sec(x: 4), out: Outer(s: Sec(x: 1), n: []))", None),
    "v0": ("Cfg(version: 0, old_name: \"n\")", None),
    "v0 sections": ("Cfg(version: 0, old_name: \"n\", sec: Sec(x: 2), di: Sec(x: 1), f: Sec(x: 4), num: 5)", None),
    "v0 overrides": ("Cfg(version: 0, old_name: \"n\")", ["name=m", "sec.x=5"]),
    "v1": ("Cfg(version: 1, name: \"n\", al: [[3]], num: 0)", None),
    "manager": (BASE, None),
    "manager v0": ("Cfg(version: 0, old_name: \"n\")", ["od.x=6"]),
    "schedule": ("Cfg(version: 2, name: \"n\", al: [[0]], lr: \"step: 1@0 3@10\", od: Sec(l: [2]))", None),
}
LOADS = list(TEXT) + ["default"]


def load(c, w, k):
    """Perform load k; returns (object, manager or None)."""
    if k == "default":
        return hyperstate.load(w.Outer, None), None
    text, ov = TEXT[k]
    ov = None if ov is None else list(ov)
    given = None if ov is None else list(ov)
    sm = None
    if k in ("file", "manager", "manager v0", "schedule"):
        d = tempfile.mkdtemp()
        c.scratch_dirs.append(d)
        p = os.path.join(d, "c.ron")
        with open(p, "w") as f:
            f.write(text)
        if k == "file":
            v = hyperstate.load(w.Cfg, p, overrides=ov)
        else:
            sm = StateManager(w.Cfg, w.State, lambda cfg, ctx: w.State(), p, None, ov)
            v = sm.config
    else:
        v = hyperstate.loads(w.Cfg, text, overrides=ov)
    c.check(ov == given, lambda: f"load {k} changed the caller's overrides {given} to {ov}")
    return v, sm


def parts(v, path, out):
    """All mutable parts of a value, by identity."""
    if is_dataclass(v) and not isinstance(v, type):
        out[id(v)] = (v, path)
        for f in v.__dataclass_fields__:
            parts(getattr(v, f), f"{path}.{f}", out)
    elif isinstance(v, (list, tuple)):
        if isinstance(v, list):
            out[id(v)] = (v, path)
        for i, x in enumerate(v):
            parts(x, f"{path}[{i}]", out)
    elif isinstance(v, dict):
        out[id(v)] = (v, path)
        for k, x in v.items():
            parts(x, f"{path}[{k!r}]", out)
    return out


def change(v):
    """Change every mutable part in place."""
    for x, _ in list(parts(v, "", {}).values()):
        if isinstance(x, list):
            x.append(99)
        elif isinstance(x, dict):
            x["changed"] = 99
        else:
            for f in x.__dataclass_fields__:
                y = getattr(x, f)
                if isinstance(y, (int, float, str)) or y is None:
                    setattr(x, f, 99)


def foreign(w):
    """Mutable parts that belong to the classes and rules."""
    out = {}
    for cls in (w.Sec, w.Outer, w.Cfg):
        for n, f in cls.__dataclass_fields__.items():
            parts(f.default, f"default of {cls.__name__}.{n}", out)
    for i, rs in w.rules.items():
        for r in rs:
            for n in r.__dataclass_fields__:
                parts(getattr(r, n), f"{type(r).__name__}.{n}", out)
    return out


def h_sequences(c):
    w = World()
    pristine = canon(tuple(foreign(w)[i][0] for i in foreign(w)))
    objs = []
    n = 4 if c.thorough else 3
    for step in range(n):
        ops = [("load", k) for k in LOADS]
        if objs:
            ops += [("change", i) for i in range(len(objs))] + [("use", i) for i in range(len(objs))] + [("check", 0), ("advance", 0)]
        if step == n - 1 and n > 1:
            ops = [o for o in ops if o[0] != "load"] or ops  # every load follows at the end anyway
        kind, arg = c.choose(f"op{step}", ops)
        snap = [canon(o) for _, o, _ in objs]
        touched = -1
        if kind == "load":
            v, sm = load(c, w, arg)
            c.eq(v, w.expected(arg), f"load {arg} as operation {step}")
            objs.append([arg, v, sm])
        elif kind == "change":
            change(objs[arg][1])
            touched = arg
        elif kind == "use":
            k, v, sm = objs[arg]
            try:
                hyperstate.dumps(v)
                hyperstate.dumps(v, elide_defaults=True)
                if sm is not None:
                    sm.config_dict()
            except Exception:
                pass  # after a change the object may not be storable
        elif kind == "check":
            old = materialize_type(w.Cfg)
            try:
                SchemaChecker(old, w.Cfg)
            except ValueError:
                pass
        elif kind == "advance":
            for j, (k, v, sm) in enumerate(objs):
                if sm is not None:
                    sm.state.step = 5
                    sm.step()
                    snap[j] = canon(v) if k == "schedule" else snap[j]
        c.op(f"{kind} {arg}")
        for j, s in enumerate(snap):
            c.check(j == touched or canon(objs[j][1]) == s, lambda: f"{kind} {arg} changed the object loaded by {objs[j][0]}: {show(objs[j][1])}")
        c.state((step, tuple(canon(o) for _, o, _ in objs)))
    for k in LOADS:
        v, sm = load(c, w, k)
        c.eq(v, w.expected(k), f"load {k} at the end")
        objs.append([k, v, sm])
    c.op("loads", len(LOADS))
    owner = {i: p for i, (_, p) in foreign(w).items()}
    for j, (k, v, _) in enumerate(objs):
        for i, (x, path) in parts(v, f"object {j} ({k})", {}).items():
            c.check(i not in owner, lambda: f"{path} is the same object as {owner[i]}: {x!r}")
            owner[i] = path
    for k in range(2):
        c.check(True, "")
    c.check(canon(tuple(foreign(w)[i][0] for i in foreign(w))) == pristine, "class defaults or rules were changed")
    c.agreed()


HARNESSES = [("sequences", h_sequences)]
