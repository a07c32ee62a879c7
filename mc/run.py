"""A small training run on a scratch directory, with its reference model (C14, C15, C16)."""
import os
import tempfile
from typing import Dict, List, Optional

import numpy as np
from hyperstate import Lazy, Serializable, StateManager

from mc import fs, gen


class Blob(Serializable):
    fail = 0  # number of serialize calls after which one raises

    def __init__(self, arr):
        self.arr = arr

    def serialize(self):
        if Blob.fail:
            Blob.fail -= 1
            if Blob.fail == 0:
                raise RuntimeError("cannot be serialized")
        return {"arr": self.arr, "again": [self.arr * 2]}

    @classmethod
    def deserialize(cls, state_dict, config, state, ctx):
        if (state_dict["again"][0] != state_dict["arr"] * 2).any():
            raise ValueError("inconsistent data")
        return cls(state_dict["arr"])


SEC = gen.mk("SEC", [("n", int, 5)])
CFG = gen.mk("CFG", [("sec", SEC), ("u", float, 1.0), ("sch", float, 0.5)], key="run")
STATES = {
    "lazy": gen.mk("RunLazy", [("step", int), ("a", Blob), ("note", str), ("b", Optional[Blob])], bases=(Lazy,), key="run"),
    "plain": gen.mk("RunPlain", [("step", int), ("a", Blob), ("note", str), ("b", Optional[Blob])], key="run"),
    "small": gen.mk("RunSmall", [("step", int), ("a", int), ("note", str), ("b", int)], key="run"),
}


def values(kind, i):
    """The state after i rounds of training: every part of it tells which round it is."""
    if kind == "small":
        return dict(a=i * 3, note=f"r{i}", b=-i)
    return dict(
        a=Blob(np.full(5 + i, i, "<i8")),
        note=f"r{i}" * (i + 1),
        b=None if i % 3 == 2 else Blob(np.arange(1300.0) + i),
    )


def key_of(i):
    return 3 * i


def snap(s):
    def one(v):
        return (v.arr.dtype.str, v.arr.shape, v.arr.tobytes()) if isinstance(v, Blob) else v

    return (s.step, one(s.a), s.note, one(s.b))


class World:
    def __init__(self, c, kind="lazy", crossfs=False, key="step"):
        self.c = c
        self.kind = kind
        self.cls = STATES[kind]
        self.dir = tempfile.mkdtemp()
        c.scratch_dirs.append(self.dir)
        self.tmp = os.path.join(self.dir, "tmp")
        self.ck = os.path.join(self.dir, "run", "ck")
        os.mkdir(self.tmp)
        self.oldtmp = tempfile.tempdir
        tempfile.tempdir = self.tmp
        if crossfs:
            fs.cross(self.tmp, os.path.join(self.dir, "run"))
        else:
            fs.cross()
        self.init = os.path.join(self.dir, "init.ron")
        with open(self.init, "w") as f:
            f.write('CFG(u: 2.5, sec: (n: 6), sch: "step: 10@0 lin 42@32")')
        self.round = 0
        self.saved = []  # rounds whose checkpoint may be found; the last is the newest completed
        self.open()

    def close(self):
        tempfile.tempdir = self.oldtmp
        fs.cross()

    def manager(self):
        return StateManager(CFG, self.cls, lambda cfg, ctx: self.cls(step=0, **values(self.kind, 0)), self.init, self.ck)

    def open(self):
        self.sm = self.manager()

    def train(self):
        self.round += 1
        s = self.sm.state
        for k, v in values(self.kind, self.round).items():
            setattr(s, k, v)
        s.step = key_of(self.round)
        self.sm.config.u = 100.0 + self.round

    def want(self, i):
        s = self.cls(step=key_of(i), **values(self.kind, i))
        return snap(s), (100.0 + i if i else 2.5, 6, 10.0 + min(32, key_of(i)))

    def found(self, sm=None):
        """What a new process resumes from: (round, problem)."""
        sm = sm or self.manager()
        try:
            st = snap(sm.state)
            cf = (sm.config.u, sm.config.sec.n, sm.config.sch)
        except Exception as e:
            return None, f"cannot resume: {type(e).__name__}: {e}"
        i = st[0] // 3
        ws, wc = self.want(i)
        if st[0] % 3 or st != ws:
            return i, f"restored state is not that of round {i}: {str(st)[:200]}"
        if cf != wc:
            return i, f"restored state is of round {i} but the config is {cf}"
        return i, None

    def autos(self):
        if not os.path.isdir(self.ck):
            return []
        return sorted(d for d in os.listdir(self.ck) if d.startswith("latest-step") and d[11:].isdigit())
