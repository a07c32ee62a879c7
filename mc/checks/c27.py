"""C27: data of older snapshots is found where older versions put it, and pickles are never read unless allowed."""
import itertools
import os
import pickle
import tempfile
from typing import Any, Dict, List, Optional

import hyperstate
import msgpack
from hyperstate import Lazy, Serializable, StateManager

from mc import gen
from mc.engine import Skip

RULE = (
    "every combination of storage formats (the current one, msgpack under the old names, pickles, pickles in folders), of what "
    "the data file really holds (right data, a pickle that runs code, missing) and of the environment variable that allows "
    "pickles (unset, empty, set, set or removed between the accesses), for two custom-serialized fields of lazy and ordinary "
    "states, through load and StateManager, with every order of accesses followed by saving and loading again; every text "
    "in place of the reference to the data"
)
BOUND = {"quick": "2 fields, histories of 3 operations", "thorough": "2 fields, histories of 5 operations"}
ASSUMPTIONS = [
    "the formats of older versions are those that the first commit of this repository reads: data of the top-level fields of lazy states",
]
VAR = "UNSAFE_DESERIALIZE_PICKLE"
RAN = []
LOG = []


def bomb(tag):
    """What a malicious pickle runs."""
    RAN.append(tag)
    return {"v": "bomb " + tag}


class Bomb:
    def __init__(self, tag):
        self.tag = tag

    def __reduce__(self):
        return (bomb, (self.tag,))


class Obj(Serializable):
    def __init__(self, v):
        self.v = v

    def serialize(self):
        return {"v": self.v}

    @classmethod
    def deserialize(cls, state_dict, config, state, ctx):
        LOG.append(state_dict["v"])
        return cls(state_dict["v"])


class Obj2(Obj):
    pass


CFG = gen.mk("CFG", [("a", int, 1)], key="c27")
LAZY = gen.mk("LAZY", [("p", Obj), ("n", int), ("q", Optional[Obj2])], bases=(Lazy,), key="c27")
PLAIN = gen.mk("PLAIN", [("p", Obj), ("n", int), ("q", Optional[Obj2])], key="c27")
FORMATS = {
    "new": ("<blob:msgpack>", lambda stem, f: f"{stem}.{f}.msgpack"),
    "old": ("<blob:msgpack>", lambda stem, f: f"state.{f}.msgpack"),
    "pickle": ("<blob:pickle>", lambda stem, f: f"state.{f}.pickle"),
    "folder": ("<BLOB>", lambda stem, f: f),
}


def content(kind, fmt, tag):
    """The bytes of a data file and the value they hold."""
    if kind == "good":
        x = {"v": ["data", tag]}
        return (pickle.dumps(x) if fmt in ("pickle", "folder") else msgpack.packb(x)), ["data", tag]
    if kind == "bomb":
        return pickle.dumps(Bomb(tag)), "bomb " + tag
    return None, None


def setvar(v):
    if v is None:
        os.environ.pop(VAR, None)
    else:
        os.environ[VAR] = v


class Field:
    def __init__(self, c, d, stem, name, fmt, kind):
        self.name, self.fmt, self.kind = name, fmt, kind
        self.text, path = FORMATS[fmt]
        self.path = os.path.join(d, path(stem, name))
        data, self.value = content(kind, fmt, name)
        if data is not None:
            with open(self.path, "wb") as f:
                f.write(data)
        self.loaded = False

    def expect(self, allowed):
        """"value", or an error."""
        if self.kind == "missing":
            return "error"
        if self.fmt in ("pickle", "folder"):
            return "value" if allowed else "error"
        return "value" if self.kind == "good" else "error"


def access(c, obj, f, allowed, what):
    """Accesses a lazy field and judges what happened."""
    RAN.clear()
    LOG.clear()
    if f.loaded:
        x = getattr(obj, f.name)
        c.check(x.v == f.value and not LOG, lambda: f"{what}: {f.name} is {x.v!r}, expected {f.value!r} without reading it again")
        return
    try:
        x = getattr(obj, f.name)
    except Exception as e:
        c.check(f.expect(allowed) == "error", lambda: f"{what}: {f.name} ({f.fmt}, {f.kind}) raised {type(e).__name__}: {e}")
        c.check(not RAN, lambda: f"{what}: the pickle of {f.name} was executed although the access failed")
        c.op("refused")
        return
    c.check(f.expect(allowed) == "value", lambda: f"{what}: {f.name} ({f.fmt}, {f.kind}, allowed={allowed}) was loaded as {x.v!r}")
    c.check(allowed or not RAN, lambda: f"{what}: the pickle of {f.name} was executed")
    c.check(x.v == f.value and LOG == [f.value], lambda: f"{what}: {f.name} is {x.v!r} (read {LOG}), expected {f.value!r}")
    f.loaded = True
    c.op("loaded")


def prepare(c, stem, lazy, fmts, kinds):
    d = tempfile.mkdtemp()
    c.scratch_dirs.append(d)
    cls = LAZY if lazy else PLAIN
    fs = [Field(c, d, stem, n, fmt, kind) for n, fmt, kind in zip(("p", "q"), fmts, kinds)]
    # older and newer names at once would be ambiguous
    with open(os.path.join(d, stem + ".ron"), "w") as f:
        f.write(f'{cls.__name__}(p: "{fs[0].text}", n: 3, q: "{fs[1].text}")')
    with open(os.path.join(d, "config.ron"), "w") as f:
        f.write("CFG(a: 5)")
    return d, cls, fs


def opened(d, cls, stem, via):
    if via == "load":
        return hyperstate.load(cls, os.path.join(d, stem + ".ron"))
    if via == "init":
        return StateManager(CFG, cls, lambda cfg, ctx: None, d).state
    # the newest checkpoint of a checkpoint directory
    run = d + "-run"
    os.mkdir(run)
    os.rename(d, os.path.join(run, "latest-n000000000003"))
    try:
        return StateManager(CFG, cls, lambda cfg, ctx: None, None, run, checkpoint_key="n").state
    finally:
        os.rename(os.path.join(run, "latest-n000000000003"), d)
        os.rmdir(run)


def h_lazy(c):
    fmts = [c.choose("p format", list(FORMATS)), c.choose("q format", list(FORMATS))]
    kinds = [c.choose("p data", ("good", "bomb", "missing")), c.choose("q data", ("good", "bomb"))]
    via, stem = c.choose("via", (("load", "state"), ("load", "snap"), ("init", "state")))
    env = c.choose("env", (None, "", "1"))
    try:
        setvar(env)
        d, cls, fs = prepare(c, stem, True, fmts, kinds)
        RAN.clear()
        LOG.clear()
        obj = opened(d, cls, stem, via)
        c.check(not RAN and not LOG, "the data of a lazy state was read when it was opened")
        c.check(obj.n == 3, f"n is {obj.n}")
        # The variable counts by its presence
        allowed = env is not None
        for i in range(5 if c.thorough else 3):
            op = c.choose(f"op{i}", ("p", "q", "toggle") + (("n",) if c.thorough else ()))
            if op == "toggle":
                if i and c.thorough and prev == "toggle":
                    raise Skip()
                allowed = not allowed
                setvar("1" if allowed else None)
            elif op == "n":
                c.check(obj.n == 3, f"n is {obj.n}")
            else:
                access(c, obj, fs[op == "q"], allowed, f"operation {i}")
            prev = op
            c.state((tuple(fmts), tuple(kinds), allowed, tuple(f.loaded for f in fs)))
        # what could be read is saved in the current format, and needs no permission any more
        if all(f.loaded for f in fs):
            out = os.path.join(d, "new")
            os.mkdir(out)
            hyperstate.dump(obj, os.path.join(out, "state.ron"))
            setvar(None)
            again = hyperstate.load(cls, os.path.join(out, "state.ron"))
            RAN.clear()
            c.check([again.p.v, again.q.v] == [f.value for f in fs], "a state loaded from old data was not saved")
            c.check(not RAN, "saved data is a pickle")
            c.op("saved")
        c.agreed()
    finally:
        setvar(None)


def h_plain(c):
    """Ordinary states read everything at once; the current format and refusal of pickles are the same."""
    fmts = [c.choose("p format", list(FORMATS)), c.choose("q format", list(FORMATS))]
    kinds = [c.choose("p data", ("good", "bomb", "missing")), c.choose("q data", ("good", "bomb", "missing"))]
    lazy = c.choose("lazy", (False, True))
    via, stem = c.choose("via", (("load", "state"), ("load", "snap"), ("init", "state"), ("dir", "state")))
    env = c.choose("env", (None, "1"))
    try:
        setvar(env)
        d, cls, fs = prepare(c, stem, lazy, fmts, kinds)
        RAN.clear()
        LOG.clear()
        want = [f.expect(env is not None) for f in fs]
        try:
            obj = opened(d, cls, stem, via)
            if lazy and via == "dir":
                raise Skip()  # its folder is not there any more when the fields are accessed
            got = [obj.p.v, obj.q.v]
        except Skip:
            raise
        except Exception as e:
            c.check("error" in want, lambda: f"{fmts} {kinds} raised {type(e).__name__}: {e}")
            c.outcome = "refused"
        else:
            c.check(want == ["value", "value"], lambda: f"{fmts} {kinds} env={env} were loaded as {got}")
            c.check(got == [f.value for f in fs], lambda: f"{fmts} {kinds} were loaded as {got}")
            c.outcome = "loaded"
        c.check(env is not None or not RAN, lambda: f"pickles were executed: {RAN}")
        c.op()
        c.state((tuple(fmts), tuple(kinds), lazy, via, env))
        c.agreed()
    finally:
        setvar(None)


SUB = gen.mk("SUB", [("o", Obj), ("i", int)], key="c27")
NEST = gen.mk("NEST", [("sub", SUB), ("l", List[Obj]), ("m", Dict[str, Obj]), ("opt", Optional[SUB])], key="c27")
LNEST = gen.mk("LNEST", [("sub", SUB), ("l", List[Obj]), ("m", Dict[str, Obj]), ("opt", Optional[SUB])], bases=(Lazy,), key="c27")


def h_nested(c):
    """References to pickles anywhere in a state, with bombs under every name that could be meant."""
    texts = ("<blob:msgpack>", "<blob:pickle>", "<BLOB>")
    cls = c.choose("class", (NEST, LNEST))
    where = c.choose("where", ("sub", "l", "m", "opt"))
    text = c.choose("text", texts[1:])
    env = c.choose("env", (None, "1"))
    d = tempfile.mkdtemp()
    c.scratch_dirs.append(d)
    paths = {"sub": "sub.o", "l": "l[0]", "m": "m.k", "opt": "opt.o"}
    for w, p in paths.items():
        flat = p.replace("[", ".").replace("]", "")
        under = p.replace("[", "_").replace("]", "")
        with open(os.path.join(d, f"state.{flat}.msgpack"), "wb") as f:
            f.write(msgpack.packb({"v": w}))
        for name in (f"state.{flat}.pickle", f"state.{under}.pickle", p.replace(".", "/").replace("[", "/").replace("]", ""), f"state.{flat}", p):
            q = os.path.join(d, name)
            os.makedirs(os.path.dirname(q), exist_ok=True)
            if not os.path.exists(q):
                with open(q, "wb") as f:
                    f.write(pickle.dumps(Bomb(w)))
    r = {w: texts[0] for w in paths}
    r[where] = text
    with open(os.path.join(d, "state.ron"), "w") as f:
        f.write(f'{cls.__name__}(sub: SUB(o: "{r["sub"]}", i: 1), l: ["{r["l"]}"], m: {{"k": "{r["m"]}"}}, opt: SUB(o: "{r["opt"]}", i: 2))')
    try:
        setvar(env)
        RAN.clear()
        try:
            obj = hyperstate.load(cls, os.path.join(d, "state.ron"))
            got = {"sub": obj.sub.o.v, "l": obj.l[0].v, "m": obj.m["k"].v, "opt": obj.opt.o.v}
        except Exception as e:
            c.check(env is None, lambda: f"{text} in {where} raised {type(e).__name__}: {e}")
            c.outcome = "refused"
        else:
            want = {w: ("bomb " + w if w == where else w) for w in paths}
            c.check(env is not None and got == want, lambda: f"{text} in {where} (env={env}) loaded as {got}")
            c.outcome = "loaded"
        c.check(env is not None or not RAN, lambda: f"a pickle was executed: {RAN}")
        c.op()
        c.state((cls.__name__, where, text, env))
        c.agreed()
    finally:
        setvar(None)


def h_texts(c):
    """Anything but a known reference is an error; nothing is executed, in any format."""
    value = c.choose("value", ('"<blob:>"', '"<blob:PICKLE>"', '"<blob:pickle> "', '"<blob>"', '"x"', '""', "1", "true", '["<BLOB>"]', '{"v": 1}', "Obj(v: 1)", "Obj", '"../p"', '"<blob:msgpack>x"'))
    cls = c.choose("class", (LAZY, PLAIN))
    field = c.choose("field", ("p", "q"))
    env = c.choose("env", (None, "1"))
    d, _, fs = prepare(c, "state", cls is LAZY, ("new", "new"), ("good", "good"))
    for n in ("p", "q"):
        for name in (n, f"state.{n}.pickle", f"state.{n}.PICKLE", f"state.{n}.x", "x", "..p"):
            with open(os.path.join(d, name), "wb") as f:
                f.write(pickle.dumps(Bomb(n)))
    vals = {"p": '"<blob:msgpack>"', "q": '"<blob:msgpack>"', field: value}
    with open(os.path.join(d, "state.ron"), "w") as f:
        f.write(f"{cls.__name__}(p: {vals['p']}, n: 3, q: {vals['q']})")
    try:
        setvar(env)
        RAN.clear()
        try:
            obj = hyperstate.load(cls, os.path.join(d, "state.ron"))
            got = getattr(obj, field)
        except Exception:
            pass
        else:
            c.fail(f"{field}: {value} was loaded as {got!r}")
        c.check(not RAN, lambda: f"a pickle was executed: {RAN}")
        c.op()
        c.state((value, cls.__name__, field, env))
        c.agreed()
    finally:
        setvar(None)


HARNESSES = [("lazy", h_lazy), ("plain", h_plain), ("nested", h_nested), ("texts", h_texts)]
