"""C13: resuming continues exactly where the run left off."""
import copy
import os
import tempfile
from typing import Any, Dict, List, Optional

import numpy as np
from hyperstate import Lazy, Serializable, StateManager

from mc import gen
from mc.ref import St, canon, ron, same, show

RULE = (
    "every history of training steps (changing plain, custom-serialized, nested or optional state, or the config), step() with "
    "and without a change, explicit checkpoints, and resumes (plain, with overrides, with another initial path, from an "
    "explicit checkpoint into a new directory) up to the depth bound, for lazy and ordinary states; after every operation the "
    "whole observable state and config are compared with the model, and the model says what the last completed step saved"
)
BOUND = {
    "quick": "all histories of 3 operations out of 13 after a first saved step and of 2 operations from a fresh start, for 3 kinds of state; all of 4 operations out of the 6 core ones; 12-operation histories with at most 1 deviation from train/step/resume rounds; 3 operations with objects whose special methods mislead",
    "thorough": "the same with 4, 3, 6, 2 and 4",
}
ASSUMPTIONS = [
    "the checkpoint key differs whenever the state differs (every change also changes the key, and no key value is reused)",
    "one process at a time uses a checkpoint directory",
]


class Params(Serializable):
    """A custom-serialized object: an array, a list and nothing shared."""

    def __init__(self, arr, tag):
        self.arr = arr
        self.tag = tag

    def serialize(self):
        return {"arr": self.arr, "tag": self.tag}

    @classmethod
    def deserialize(cls, state_dict, config, state, ctx):
        assert config is not None
        return cls(state_dict["arr"], state_dict["tag"])

    def snap(self):
        return ("P", self.arr.dtype.str, self.arr.shape, self.arr.tobytes(), repr(self.tag))


class Other(Params):
    pass


SUB = gen.mk("SUB", [("k", int), ("p", Params)])
SEC = gen.mk("SEC", [("n", int, 5)])
CFG = gen.mk("CFG", [("sec", SEC), ("u", float, 1.0), ("s", str, "a"), ("sch", float, 0.5)], key="c13")


def state_cls(name, bases, nested):
    fs = [("step", int), ("p", Params), ("n", int), ("opt", Optional[Other])]
    if nested:
        fs += [("sub", SUB), ("many", List[Params]), ("named", Dict[str, Params])]
    return gen.mk(name, fs, bases=bases, key=("c13", nested))


KINDS = {
    "lazy": state_cls("LazyState", (Lazy,), False),
    "lazy nested": state_cls("LazyNested", (Lazy,), True),
    "plain nested": state_cls("PlainNested", (), True),
}


def initial(cls):
    def f(cfg, ctx):
        s = dict(step=0, p=Params(np.arange(3.0), [1]), n=7, opt=None)
        if "sub" in cls.__dataclass_fields__:
            s.update(
                sub=SUB(1, Params(np.zeros((2, 2), "<i4"), [])),
                many=[Params(np.ones(1), ["m0"]), Params(np.ones(2), ["m1"])],
                named={"a": Params(np.array(5.0), ["na"]), "b.c": Params(np.zeros((0, 2)), ["nb"])},
            )
        return cls(**s)

    return f


def snap(v):
    import dataclasses

    if isinstance(v, Params):
        return v.snap()
    if dataclasses.is_dataclass(v):
        return tuple((k, snap(getattr(v, k))) for k in v.__dataclass_fields__)
    if isinstance(v, dict):
        return tuple((k, snap(x)) for k, x in v.items())
    if isinstance(v, list):
        return tuple(snap(x) for x in v)
    return v


class Run:
    def __init__(self, c, kind, key="step"):
        self.c = c
        self.cls = KINDS[kind]
        self.nested = "sub" in self.cls.__dataclass_fields__
        self.dir = tempfile.mkdtemp()
        c.scratch_dirs.append(self.dir)
        self.ckpt = os.path.join(self.dir, "run")
        self.init = os.path.join(self.dir, "init.ron")
        with open(self.init, "w") as f:
            f.write('CFG(u: 2.5, sec: (n: 6), sch: "step: 10@0 lin 20@10")')
        self.other = os.path.join(self.dir, "other.ron")
        with open(self.other, "w") as f:
            f.write('CFG(u: 99.5, s: "other", sec: (n: 99))')
        self.n = 0
        self.used = {0}
        self.ov = []
        # the model: a real state object that never goes through persistence
        self.m_state = initial(self.cls)(None, {})
        self.m_cfg = {"u": 2.5, "s": "a", "n": 6, "sch": 10.0}
        self.saved = None
        self.manual = None
        self.sm = self.open()
        self.follow()
        self.verify("at the start")

    def open(self, init=None, ckpt=None, ov=None):
        return StateManager(CFG, self.cls, initial(self.cls), init or self.init, ckpt or self.ckpt, overrides=ov)

    def follow(self):
        self.m_cfg["sch"] = 10.0 + max(0, min(10, self.m_state.step))

    def newkey(self, k):
        while k in self.used:
            k += 1
        self.used.add(k)
        return k

    def verify(self, when, sm=None, full=True):
        sm = sm or self.sm
        got = {"u": sm.config.u, "s": sm.config.s, "n": sm.config.sec.n}
        want = {k: self.m_cfg[k] for k in got}
        self.c.check(got == want, lambda: f"{when}: config {got}, expected {want}")
        if full:
            a, b = snap(sm.state), snap(self.m_state)
            self.c.check(a == b, lambda: f"{when}: state {a}, expected {b}")
            self.c.check(sm.config.sch == self.m_cfg["sch"], lambda: f"{when}: scheduled field {sm.config.sch}, expected {self.m_cfg['sch']}")

    def change(self, op):
        self.n += 1
        n = self.n
        k = self.newkey(min(self.used) - 1 - 10 * n) if op == "train back" else self.newkey(max(self.used) + 1)
        for s, cfg in ((self.sm.state, self.sm.config), (self.m_state, None)):
            if op == "train in place":
                s.p.arr[0] += n
                s.p.tag.append(n)
                if self.nested:
                    s.sub.p.arr[0, 1] -= n
                    s.many[1].tag.append(n)
            elif op == "train replace":
                s.p = Params(np.full((n, 2), n, ">f4"), [{"n": n}])
                if self.nested:
                    s.named["a"] = Params(np.array([n]), [None])
                    s.many.append(Params(np.array([True]), [n]))
            elif op == "train optional":
                s.opt = Other(np.zeros(n), [n]) if s.opt is None else None
            elif op in ("train plain", "train back"):
                s.n += n
                if self.nested:
                    s.sub.k = n
            elif op == "train config":
                if cfg is not None:
                    cfg.u = 50.0 + n
                    cfg.sec.n = n
                else:
                    self.m_cfg["u"] = 50.0 + n
                    self.m_cfg["n"] = n
            s.step = k

    def step(self):
        self.sm.step()
        self.follow()
        # an unchanged key means that nothing has changed and nothing has to be saved
        if self.saved is None or self.saved[0].step != self.m_state.step:
            self.saved = (copy.deepcopy(self.m_state), dict(self.m_cfg))
        ds = [d for d in os.listdir(self.ckpt) if d.startswith("latest")]
        self.c.check(len(ds) == 1, lambda: f"automatic checkpoints after step: {sorted(ds)}")

    def restore(self, saved):
        if saved is None:
            self.m_state = initial(self.cls)(None, {})
            self.m_cfg = {"u": 2.5, "s": "a", "n": 6, "sch": 10.0}
        else:
            self.m_state, self.m_cfg = copy.deepcopy(saved[0]), dict(saved[1])
        self.follow()

    def do(self, op):
        c = self.c
        c.op(op)
        full = True
        if op.startswith("train"):
            self.change(op)
            full = False
            c.check(self.sm.state.step == self.m_state.step, "key not as assigned")
        elif op == "step()":
            self.step()
        elif op == "checkpoint":
            self.n += 1
            d = os.path.join(self.dir, f"m{self.n}")
            self.sm.checkpoint(d)
            self.manual = (d, copy.deepcopy(self.m_state), dict(self.m_cfg))
        elif op == "resume":
            self.sm = self.open()
            self.restore(self.saved)
        elif op == "resume, first access later":
            # lazily restored data must survive the steps made before it is read
            self.sm = self.open()
            self.restore(self.saved)
            k = self.newkey(max(self.used) + 1)
            self.sm.state.step = self.m_state.step = k
            self.sm.state.n = self.m_state.n = 1000 + k
            self.step()
        elif op == "resume+override":
            self.n += 1
            self.sm = self.open(ov=[f"u={self.n}.25", "sec.n=%d" % (100 + self.n)])
            self.restore(self.saved)
            self.m_cfg["u"] = self.n + 0.25
            self.m_cfg["n"] = 100 + self.n
            # a new key, so that the next step saves the overridden values
            k = self.newkey(max(self.used) + 1)
            self.sm.state.step = self.m_state.step = k
            full = False
        elif op == "resume, other initial path":
            self.sm = self.open(init=self.other)
            if self.saved is None:
                self.m_state = initial(self.cls)(None, {})
                self.m_cfg = {"u": 99.5, "s": "other", "n": 99, "sch": 0.5}
                self.verify_other()
                self.sm = self.open()
            self.restore(self.saved)
        elif op == "branch from explicit checkpoint":
            if self.manual is None:
                from mc.engine import Skip

                raise Skip()
            self.n += 1
            self.ckpt = os.path.join(self.dir, f"run{self.n}")
            d, st, cfg = self.manual
            self.init_branch = d
            self.sm = self.open(init=d)
            self.restore((st, cfg))
            self.saved = None
            self.verify("after branching")
            self.step()
        if full:
            self.verify(f"after {op}")
        else:
            self.verify(f"after {op}", full=False)
        c.state((self.cls.__name__, snap(self.m_state), sorted(self.m_cfg.items()), self.saved is None))

    def verify_other(self):
        self.c.check(
            self.sm.config.u == 99.5 and self.sm.config.s == "other" and self.sm.config.sec.n == 99 and snap(self.sm.state) == snap(self.m_state),
            "initial path not used in an empty directory",
        )

    def end(self):
        """Whatever happened before, a fresh manager sees the last completed step."""
        self.do("resume")
        self.do("step()")
        self.do("resume")
        self.c.agreed()


OPS = [
    "train in place",
    "train replace",
    "train optional",
    "train plain",
    "train config",
    "train back",
    "step()",
    "resume",
    "resume, first access later",
    "resume+override",
    "resume, other initial path",
    "checkpoint",
    "branch from explicit checkpoint",
]


def h_ops(c):
    r = Run(c, c.choose("state", list(KINDS)))
    started = c.choose("started", (True, False))
    if started:
        for op in ("train in place", "step()", "checkpoint"):
            r.do(op)
    depth = (4 if c.thorough else 3) if started else (3 if c.thorough else 2)
    # a trailing operation other than step() and checkpoint is not observable after the final resume
    for i in range(depth):
        r.do(c.choose(f"op{i}", OPS))
    r.end()


CORE = ["train in place", "train replace", "step()", "resume", "resume, first access later", "resume+override"]


def h_core(c):
    """Deeper histories over the operations that interact most."""
    r = Run(c, "lazy nested")
    for i in range(6 if c.thorough else 4):
        r.do(c.choose(f"op{i}", CORE))
    r.end()


def h_long(c):
    """Long runs: rounds of train, step, resume with a bounded number of deviations."""
    r = Run(c, c.choose("state", list(KINDS)))
    c.set_budget(2 if c.thorough else 1)
    base = ["train in place", "step()", "train replace", "step()", "resume", "train optional", "step()", "train plain", "step()", "resume", "train config", "step()"]
    for i, b in enumerate(base):
        for op in (b,) if c.budget_used >= c.budget else c.dev(f"at{i}", [(b,), ()] + [(o, b) for o in OPS if o != b]):
            r.do(op)
    r.end()


def h_keys(c):
    """The key may be any field and any integer below 10^12."""
    name = c.choose("key", ("it", "global_step", "step"))
    S = gen.mk("KS" + name, [(name, int, 0), ("v", int, 0)], key="c13k")
    vals = c.choose("values", ((0, 1, 2), (9, 10, 11), (99, 100, 1000), (999999999998, 999999999999), (5, 3, 4), (-3, -2, -1, 0), (7, 7, 8), (1, -1, 2), (10**11, 10**11 + 1)))
    d = tempfile.mkdtemp()
    c.scratch_dirs.append(d)
    mk = lambda: StateManager(CFG, S, lambda cfg, ctx: S(), None, d, checkpoint_key=name)
    sm = mk()
    resume = [c.choose(f"resume{i}", (True, False)) for i in range(len(vals))]
    for i, k in enumerate(vals):
        setattr(sm.state, name, k)
        if i == 0 or vals[i - 1] != k:
            sm.state.v = i + 1
        v = sm.state.v
        sm.step()
        c.op((name, k))
        if resume[i]:
            sm = mk()
            c.check(getattr(sm.state, name) == k and sm.state.v == v, lambda: f"after saving {name}={k} a new manager has {sm.state}")
    sm2 = mk()
    c.check(getattr(sm2.state, name) == k and sm2.state.v == v, lambda: f"after saving {name}={k} a new manager has {sm2.state}")
    c.state((name, vals))
    c.agreed()


def fails(*a):
    raise RuntimeError("not meant to be called")


TRAITS = {
    "falsy": {"__bool__": lambda self: False},
    "without length": {"__len__": lambda self: 0},
    "no truth value": {"__bool__": fails},
    "never equal": {"__eq__": lambda a, b: False},
    "always equal": {"__eq__": lambda a, b: True},
    "not comparable": {"__eq__": fails},
    "empty iteration": {"__iter__": lambda self: iter(())},
    "callable": {"__call__": fails},
    "no text": {"__repr__": fails, "__str__": fails},
}


def h_special(c):
    """Objects with special methods: what they answer says nothing about whether they are there."""
    trait = c.choose("trait", list(TRAITS))
    who = c.choose("who", ("config", "section", "state", "part", "data"))
    lazy = c.choose("lazy", (True, False))
    ns = lambda w: dict(TRAITS[trait]) if w == who else {}
    key = ("c13s", trait, who)
    X = type("X", (Params,), ns("data"))
    P = gen.mk("SpP", [("k", int, 1)], ns=ns("part"), key=key)
    S = gen.mk("SpS", [("step", int), ("x", X), ("part", P), ("m", Optional[P])], bases=(Lazy,) if lazy else (), ns=ns("state"), key=key)
    N = gen.mk("SpN", [("n", int, 5)], ns=ns("section"), key=key)
    C = gen.mk("SpC", [("sec", N), ("u", float, 1.0), ("sch", float, 0.5)], ns=ns("config"), key=key)
    d = tempfile.mkdtemp()
    c.scratch_dirs.append(d)
    run, init = os.path.join(d, "run"), os.path.join(d, "c.ron")
    with open(init, "w") as f:
        f.write('SpC(u: 2.5, sch: "step: 10@0 lin 20@10")')
    start = lambda cfg, ctx: S(0, X(np.arange(2.0), []), P(1), P(2))
    fresh = {"step": 0, "k": 1, "mk": 2, "arr": 0.0, "u": 2.5, "n": 5}
    m, saved, best = dict(fresh), dict(fresh), None

    def look(sm, m, when):
        st, cf = sm.state, sm.config
        got = {"step": st.step, "k": st.part.k, "mk": st.m.k, "arr": float(st.x.arr[0]), "u": cf.u, "n": cf.sec.n}
        c.check(got == m, lambda: f"{trait} {who}: {when} there is {got}, expected {m}")

    sm = StateManager(C, S, start, init, run)
    look(sm, m, "at the start")
    for i in range(4 if c.thorough else 3):
        op = c.choose(f"op{i}", ("train", "step", "resume", "checkpoint"))
        c.op(op)
        if op == "train":
            m = {"step": m["step"] + 1, "k": m["k"] + 1, "mk": m["mk"] + 2, "arr": m["arr"] + 1, "u": m["u"] + 1, "n": m["n"] + 1}
            sm.state.step = m["step"]
            sm.state.part.k = m["k"]
            sm.state.m = P(m["mk"])
            sm.state.x.arr[0] = m["arr"]
            sm.config.u = m["u"]
            sm.config.sec.n = m["n"]
        elif op == "step":
            sm.step()
            saved = dict(m)
            c.check(sm.config.sch == 10.0 + m["step"], lambda: f"{trait} {who}: scheduled field {sm.config.sch} at step {m['step']}")
        elif op == "resume":
            sm = StateManager(C, S, start, init, run)
            m = dict(saved)
        else:
            best = (os.path.join(d, f"b{i}"), dict(m))
            sm.checkpoint(best[0])
        look(sm, m, f"after {op}")
    if best is not None:
        look(StateManager(C, S, start, best[0]), best[1], "in the explicit checkpoint")
    look(StateManager(C, S, start, init, run), saved, "in a new manager")
    c.state((trait, who, lazy, tuple(sorted(m.items())), tuple(sorted(saved.items()))))
    c.agreed()


HARNESSES = [("special", h_special), ("ops", h_ops), ("core", h_core), ("long", h_long), ("keys", h_keys)]
