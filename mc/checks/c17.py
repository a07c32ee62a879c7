"""C17: custom-serialized fields load once, lazily and from their own data."""
import os
from dataclasses import dataclass
import tempfile
from typing import Dict, List, Optional, Tuple

import hyperstate
from hyperstate import Lazy, Serializable, StateManager

from mc import gen
from mc.engine import Skip

RULE = (
    "every pair of placements of custom-serialized objects (fields, optionals, sections, lists, tuples, dicts with awkward "
    "keys, and nestings of these) in lazy and ordinary classes, saved and restored through files of various names; every "
    "history of accesses, assignments, removal/return of data files, saves and reloads of a lazy state up to the depth bound; "
    "every pair of file names and classes saved in one directory; the config, state and context each deserializer receives"
)
BOUND = {
    "quick": "all pairs out of 20 placements; histories of depth 4 over 3 fields; 2 files per directory",
    "thorough": "all triples out of 20 placements; histories of depth 6; 3 files per directory",
}
ASSUMPTIONS = [
    "a deserializer does not access its own field or, in an ordinary (not lazy) state, fields declared after its own",
    "fields are not renamed by upgrade rules between saving and loading",
    "a state file saved by this version (older versions named the data of all files alike)",
]

LOG = []


class Obj(Serializable):
    def __init__(self, uid):
        self.uid = uid

    def serialize(self):
        return {"uid": self.uid, "l": [self.uid] * 3}

    @classmethod
    def deserialize(cls, state_dict, config, state, ctx):
        assert state_dict["l"] == [state_dict["uid"]] * 3
        LOG.append((cls.__name__, state_dict["uid"], config, state, ctx))
        o = cls(state_dict["uid"])
        return o


class Obj2(Obj):
    pass


class Base:
    def __init__(self, uid):
        self.uid = uid


class Mixin(Serializable):
    def serialize(self):
        return [self.uid]

    @classmethod
    def deserialize(cls, state_dict, config, state, ctx):
        LOG.append((cls.__name__, state_dict[0], config, state, ctx))
        return cls(state_dict[0])


Blobbed = hyperstate.blob(Base, Mixin)


def fresh_ids():
    n = [0]

    def f(cls=Obj):
        n[0] += 1
        return cls(n[0])

    return f


SEC = gen.mk("SEC", [("o", Obj), ("k", int)], key="c17")
DEEP = gen.mk("DEEP", [("sec", SEC), ("o", Optional[Obj2])], key="c17")
LSEC = gen.mk("LSEC", [("o", Obj), ("p", Obj2)], bases=(Lazy,), key="c17")
VSEC = gen.versioned("VSEC", [("o", Obj), ("k", int)], 3, key="c17")

# name -> (type, builder)
PLACES = {
    "obj": (Obj, lambda f: f()),
    "obj2": (Obj2, lambda f: f(Obj2)),
    "blob": (Blobbed, lambda f: f(Blobbed)),
    "opt": (Optional[Obj], lambda f: f()),
    "optnone": (Optional[Obj], lambda f: None),
    "section": (SEC, lambda f: SEC(f(), 3)),
    "deep": (DEEP, lambda f: DEEP(SEC(f(), 4), f(Obj2))),
    "optsection": (Optional[DEEP], lambda f: DEEP(SEC(f(), 4), None)),
    "lazysection": (LSEC, lambda f: LSEC(f(), f(Obj2))),
    "versioned": (VSEC, lambda f: VSEC(f(), 1)),
    "list": (List[Obj], lambda f: [f(), f()]),
    "list12": (List[Obj], lambda f: [f() for _ in range(12)]),
    "listopt": (List[Optional[Obj2]], lambda f: [None, f(Obj2), None]),
    "listsec": (List[SEC], lambda f: [SEC(f(), 1), SEC(f(), 2)]),
    "listlist": (List[List[Obj]], lambda f: [[f()], [], [f(), f()]]),
    "tuple": (Tuple[Obj, int, Obj2], lambda f: (f(), 7, f(Obj2))),
    "dict": (Dict[str, Obj], lambda f: {"a": f(), "b.c": f(), "b": f(), "x/y": f(), "l[0]": f(), "": f(), "%2E": f(), "b%2Ec": f(), "it's": f()}),
    "intdict": (Dict[int, Obj], lambda f: {1: f(), -2: f(), 10: f()}),
    "dictdict": (Dict[str, Dict[str, Obj]], lambda f: {"a.b": {"c": f()}, "a": {"b.c": f(), "b": f()}}),
    "dictsec": (Dict[str, List[DEEP]], lambda f: {"k": [DEEP(SEC(f(), 4), f(Obj2)), DEEP(SEC(f(), 5), None)]}),
}


def snap(v):
    import dataclasses

    if isinstance(v, (Obj, Base)):
        return (type(v).__name__, v.uid)
    if dataclasses.is_dataclass(v):
        return (type(v).__name__,) + tuple((k, snap(getattr(v, k))) for k in v.__dataclass_fields__)
    if isinstance(v, dict):
        return tuple((repr(k), snap(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(snap(x) for x in v)
    return v


def objects(v):
    import dataclasses

    if isinstance(v, (Obj, Base)):
        return [v]
    if dataclasses.is_dataclass(v):
        return [o for k in v.__dataclass_fields__ for o in objects(getattr(v, k))]
    if isinstance(v, dict):
        return [o for x in v.values() for o in objects(x)]
    if isinstance(v, (list, tuple)):
        return [o for x in v for o in objects(x)]
    return []


def scratch(c):
    d = tempfile.mkdtemp()
    c.scratch_dirs.append(d)
    return d


NAMES = ["state.ron", "config.ron", "model.ron", "a.b.ron", "state", "x.txt", "state.msgpack", "it's.ron"]


def h_shapes(c):
    lazy = c.choose("root", ("lazy", "plain"))
    n = 3 if c.thorough else 2
    ps = [c.choose(f"place{i}", list(PLACES)) for i in range(n)]
    fname = c.choose("file", NAMES) if ps[1] == "dict" or ps[0] == ps[1] else "state.ron"
    # the second names are those of fields inside the sections
    names = c.choose("names", (("f0", "f1", "f2"), ("o", "p", "sec"), ("k", "o", "z2")) if c.thorough or "obj" in ps or "opt" in ps else (("f0", "f1", "f2"),))
    cls = gen.mk("ROOT", [(names[i], PLACES[p][0]) for i, p in enumerate(ps)] + [("z", int)], bases=(Lazy,) if lazy == "lazy" else (), key=("c17", tuple(ps), lazy, names))
    f = fresh_ids()
    value = cls(*[PLACES[p][1](f) for p in ps], 5)
    want = snap(value)
    d = scratch(c)
    path = os.path.join(d, fname)
    hyperstate.dump(value, path)
    c.op("dump")
    c.check(snap(value) == want, "dump changed the value")
    LOG.clear()
    got = hyperstate.load(cls, path)
    c.op("load")
    top = {names[i] for i, p in enumerate(ps) if p in ("obj", "obj2", "blob", "opt")}
    if lazy == "lazy":
        read = [l[1] for l in LOG]
        direct = {getattr(value, k).uid for k in top}
        c.check(not direct & set(read), lambda: f"data of top-level fields was read while loading: {read}")
    c.check(snap(got) == want, lambda: f"restored {snap(got)}, expected {want}")
    c.check(snap(got) == want, "second access differs")
    ids = [l[1] for l in LOG]
    c.check(len(ids) == len(set(ids)), lambda: f"data was deserialized more than once: {ids}")
    c.check(sorted(ids) == sorted(o.uid for o in objects(value)), "not every object was deserialized")
    c.check(all(l[3] is got for l in LOG), lambda: "a deserializer did not receive the state it belongs to")
    os_ = objects(got)
    c.check(len({id(o) for o in os_}) == len(os_), "restored objects are shared")
    # and once more through the restored value
    path2 = os.path.join(d, "again.ron")
    hyperstate.dump(got, path2)
    c.op("dump")
    got2 = hyperstate.load(cls, path2)
    c.op("load")
    c.check(snap(got2) == want, lambda: f"restored again {snap(got2)}, expected {want}")
    c.check(snap(hyperstate.load(cls, path)) == want, "saving to another file changed the first")
    c.state((lazy, ps))
    c.agreed()


LCLS = gen.mk("LCLS", [("a", Obj), ("b", Optional[Obj2]), ("c", Blobbed), ("n", int)], bases=(Lazy,), key="c17l")
FIELDS = ("a", "b", "c")
KLASS = {"a": Obj, "b": Obj2, "c": Blobbed}


def h_lazy(c):
    """The state machine of lazily loaded fields."""
    d = scratch(c)
    n = [10]
    path = os.path.join(d, "g0", "state.ron")
    os.mkdir(os.path.dirname(path))
    hyperstate.dump(LCLS(Obj(1), Obj2(2), Blobbed(3), 4), path)
    # model: value saved in the current file, value in memory (None: not loaded), files hidden
    disk = {"a": 1, "b": 2, "c": 3}
    mem = {"a": None, "b": None, "c": None}
    hidden = set()
    LOG.clear()
    s = hyperstate.load(LCLS, path)
    c.check(not LOG, "data was read while loading")
    gen_ = 0
    ops = [(o, f) for f in FIELDS for o in ("get", "set", "hide", "restore")] + [("save", ""), ("reload", ""), ("set None", "b"), ("setctx", "")]
    for i in range(6 if c.thorough else 4):
        op, f = c.choose(f"op{i}", ops)
        c.op(f"{op} {f}")
        LOG.clear()
        if op == "get":
            if mem[f] is None and f in hidden:
                try:
                    v = getattr(s, f)
                except Exception:
                    continue
                c.fail(f"data of {f} is missing, but it reads as {snap(v)}")
            v = getattr(s, f)
            want = disk[f] if mem[f] is None else mem[f]
            c.check(snap(v) == (None if want == "none" else (KLASS[f].__name__, want)), lambda: f"{f} is {snap(v)}, expected {want}")
            c.check([l[1] for l in LOG] == ([want] if mem[f] is None and want != "none" else []), lambda: f"reads while accessing {f}: {[l[:2] for l in LOG]}")
            mem[f] = want
        elif op == "set":
            n[0] += 1
            setattr(s, f, KLASS[f](n[0]))
            mem[f] = n[0]
            c.check(not LOG, "an assignment read data")
        elif op == "set None":
            s.b = None
            mem["b"] = "none"
        elif op == "setctx":
            s.set_deserialize_ctx("k", i)
            c.check(not LOG, "set_deserialize_ctx read data")
        elif op in ("hide", "restore"):
            files = [x for x in os.listdir(os.path.dirname(path)) if x.startswith(f"state.{f}.msgpack")]
            if op == "hide" and f not in hidden and files == [f"state.{f}.msgpack"]:
                os.rename(os.path.join(os.path.dirname(path), files[0]), os.path.join(os.path.dirname(path), files[0] + ".hidden"))
                hidden.add(f)
            elif op == "restore" and f in hidden:
                os.rename(os.path.join(os.path.dirname(path), f"state.{f}.msgpack.hidden"), os.path.join(os.path.dirname(path), f"state.{f}.msgpack"))
                hidden.discard(f)
            else:
                raise Skip()
        elif op == "save":
            gen_ += 1
            p2 = os.path.join(d, f"g{gen_}", "state.ron")
            os.mkdir(os.path.dirname(p2))
            lost = [x for x in FIELDS if mem[x] is None and x in hidden]
            try:
                hyperstate.dump(s, p2)
            except Exception:
                c.check(lost, "saving failed although all data is available")
                raise Skip()  # which fields have been loaded by the failed save is not specified
            c.check(not lost, lambda: f"saving succeeded although the data of {lost} is missing")
            for x in FIELDS:
                if mem[x] is None:
                    mem[x] = disk[x]
            path, hidden = p2, set()
            disk = dict(mem)
        elif op == "reload":
            s = hyperstate.load(LCLS, path)
            mem = {x: ("none" if disk[x] == "none" else None) for x in FIELDS}
            c.check(not LOG, "data was read while loading")
        c.check(s.n == 4, "another field changed")
        c.state((tuple(mem.items()), tuple(sorted(hidden)), tuple(disk.items())))
    for f in FIELDS:
        if mem[f] is None and f in hidden:
            continue
        want = disk[f] if mem[f] is None else mem[f]
        v = getattr(s, f)
        c.check(snap(v) == (None if want == "none" else (KLASS[f].__name__, want)), lambda: f"finally {f} is {snap(v)}, expected {want}")
    c.agreed()


MULTI_FILES = ["state.ron", "config.ron", "a.ron", "a.o.ron", "a.o.sec.ron", "a", "a.txt", "a.ron.ron", "state.a.ron", "A.ron", "a%2Eo.ron", ".ron"]
MA = gen.mk("MA", [("o", Obj), ("sec", SEC)], key="c17m")
MB = gen.mk("MB", [("o", DEEP), ("sec", SEC)], key="c17m")
MC = gen.mk("MC", [("a", gen.mk("MCI", [("o", MA)], key="c17m")), ("o", Obj)], key="c17m")


def build(cls, f):
    if cls is MA:
        return MA(f(), SEC(f(), 1))
    if cls is MB:
        return MB(DEEP(SEC(f(), 1), f(Obj2)), SEC(f(), 1))
    I = MC.__dataclass_fields__["a"].type
    return MC(I(MA(f(), SEC(f(), 1))), f())


def h_multi(c):
    """Several files in one directory."""
    n = 3 if c.thorough else 2
    files, classes = [], []
    lo = 0
    for i in range(n):
        k = c.choose(f"file{i}", range(lo, len(MULTI_FILES)))
        lo = k + 1
        files.append(MULTI_FILES[k])
        classes.append(c.choose(f"class{i}", (MA, MB, MC)))
    order = c.choose("order", ((0, 1, 2), (2, 1, 0)) if n == 3 else ((0, 1), (1, 0)))
    again = c.choose("saved again", (None,) + tuple(range(n)))
    d = scratch(c)
    f = fresh_ids()
    vals = [build(k, f) for k in classes]
    for i in order:
        hyperstate.dump(vals[i], os.path.join(d, files[i]))
        c.op(f"dump {files[i]}")
    if again is not None:
        vals[again] = build(classes[again], f)
        hyperstate.dump(vals[again], os.path.join(d, files[again]))
        c.op(f"dump {files[again]} again")
    for i in range(n):
        got = hyperstate.load(classes[i], os.path.join(d, files[i]))
        c.op("load")
        c.check(snap(got) == snap(vals[i]), lambda: f"{files[i]} next to {files}: restored {snap(got)}, expected {snap(vals[i])}; directory {sorted(os.listdir(d))}")
    c.state((files, classes, order, again))
    c.agreed()


class NeedsCtx(Serializable):
    """Like an optimizer: needs another part of the state, the config and the context."""

    def __init__(self, uid, other, device, scale):
        self.args = (uid, other, device, scale)

    def serialize(self):
        return self.args[0]

    @classmethod
    def deserialize(cls, state_dict, config, state, ctx):
        LOG.append(("NeedsCtx", state_dict, config, state, ctx))
        return cls(state_dict, state.net.uid, ctx.get("device"), config.scale)


CFG = gen.mk("CFG17", [("scale", int, 1)], key="c17")
OPTSEC = gen.mk("OPTSEC", [("opt", NeedsCtx), ("k", int)], key="c17")


def h_ctx(c):
    """The deserializer gets the config, state and context the caller supplied."""
    lazy = c.choose("root", ("lazy", "plain"))
    where = c.choose("where", ("field", "section", "list", "dict"))
    t, mk_, get = {
        "field": (NeedsCtx, lambda o: o, lambda v: v),
        "section": (OPTSEC, lambda o: OPTSEC(o, 1), lambda v: v.opt),
        "list": (List[NeedsCtx], lambda o: [o], lambda v: v[0]),
        "dict": (Dict[str, NeedsCtx], lambda o: {"k": o}, lambda v: v["k"]),
    }[where]
    S = gen.mk("CS", [("step", int), ("net", Obj), ("opt", t)], bases=(Lazy,) if lazy == "lazy" else (), key=("c17c", lazy, where))
    ctx = c.choose("ctx", ({}, {"device": "gpu"}, {"device": "cpu", "x": 1}))
    via = c.choose("via", ("checkpoint dir", "initial path"))
    order = c.choose("first access", ("opt", "net"))
    scale = c.choose("scale", (1, 4))
    override = c.choose("override", (None, "scale=9"))
    state_ctx = lazy == "lazy" and where == "field" and c.choose("state ctx", (False, True))
    d = scratch(c)
    ck = os.path.join(d, "ck")
    seen = []

    def initial(cfg, ctx_):
        seen.append((cfg, dict(ctx_)))
        return S(0, Obj(1), mk_(NeedsCtx(2, 1, None, cfg.scale)))

    cfgfile = os.path.join(d, "c.ron")
    with open(cfgfile, "w") as f:
        f.write(f"CFG17(scale: {scale})")
    sm = StateManager(CFG, S, initial, cfgfile, ck)
    for k, v in ctx.items():
        sm.set_deserialize_ctx(k, v)
    sm.state.step = 3
    c.check(seen == [(sm.config, ctx)] and seen[0][0] is sm.config, lambda: f"the initial-state function received {seen}")
    if via == "checkpoint dir":
        sm.step()
        mk2 = lambda: StateManager(CFG, S, initial, cfgfile, ck, overrides=[override] if override else None)
    else:
        m = os.path.join(d, "manual")
        sm.checkpoint(m)
        mk2 = lambda: StateManager(CFG, S, initial, m, None, overrides=[override] if override else None)
    c.op("save")
    LOG.clear()
    sm2, sm3 = mk2(), mk2()
    for k, v in ctx.items():
        sm2.set_deserialize_ctx(k, v)
    sm3.set_deserialize_ctx("device", "other")
    if state_ctx:
        sm2.state.set_deserialize_ctx("late", 5)
        ctx = {**ctx, "late": 5}
    for s in (sm2, sm3):
        for what in (order, "opt", "net"):
            getattr(s.state, what)
    c.op("restore")
    want_scale = 9 if override else scale
    o2, o3 = get(sm2.state.opt), get(sm3.state.opt)
    c.check(o2.args == (2, 1, ctx.get("device"), want_scale), lambda: f"restored with (uid, net, device, scale) = {o2.args}, expected {(2, 1, ctx.get('device'), want_scale)}")
    c.check(o3.args == (2, 1, "other", want_scale), lambda: f"restored with (uid, net, device, scale) = {o3.args}")
    for name, uid, config, state, ctx_ in LOG:
        owner = sm2 if state is sm2.state else sm3
        c.check(state is owner.state and config is owner.config, f"{name} received another state or config")
        c.check(dict(ctx_) == (ctx if owner is sm2 else {"device": "other"}), lambda: f"{name} received the context {dict(ctx_)}")
    c.check(len(LOG) == 4, lambda: f"deserializers called {len(LOG)} times, expected once per object and manager")
    c.state((lazy, where, ctx, via, order, scale, override))
    c.agreed()


def h_contexts(c):
    """States of one class, loaded by themselves or by managers, have contexts of their own."""
    T = dataclass(type("CTXS", (Lazy,), {"__annotations__": {"step": int, "a": Obj, "b": Obj2}}))
    U = dataclass(type("CTXU", (T,), {"__annotations__": {"z": int}, "z": 0}))
    d = scratch(c)
    path = os.path.join(d, "ck", "latest-step000000000000", "state.ron")
    sm = StateManager(CFG, T, lambda cfg, ctx: T(0, Obj(1), Obj2(2)), None, os.path.join(d, "ck"))
    sm.step()
    second = c.choose("second", ("same", "derived"))
    sm = StateManager(CFG, T, lambda cfg, ctx: None, None, os.path.join(d, "ck"))
    sm.set_deserialize_ctx("m", 0)
    objs = [hyperstate.load(T, path), hyperstate.load(T if second == "same" else U, path), None]
    ctxs = [{}, {}, {"m": 0}]
    read = [set(), set(), set()]
    c.op("load", n=2)
    ops = [(o, i) for i in range(3) for o in ("set", "set other", "get a", "get b")] + [("manager sets", None)]
    n = 5 if c.thorough else 3
    chosen = []
    for i in range(n):
        op, j = c.choose(f"op{i}", ops)
        chosen.append((op, j))
        if i == n - 1:
            chosen += [(f"get {f}", k) for k in range(3) for f in "ab"]
        for op, j in chosen[i:]:
            if op == "manager sets":
                # the state has what was set before it was first accessed; whether it sees this later on is left open
                sm.set_deserialize_ctx("late", i)
                if objs[2] is None:
                    ctxs[2]["late"] = i
                c.op(op)
                continue
            if j == 2 and objs[2] is None:
                objs[2] = sm.state
            o = objs[j]
            LOG.clear()
            if op.startswith("set"):
                k = "k" if op == "set" else f"k{j}"
                o.set_deserialize_ctx(k, i)
                ctxs[j][k] = i
                c.check(not LOG, "set_deserialize_ctx read data")
            else:
                f = op[-1]
                v = getattr(o, f)
                c.check(v.uid == {"a": 1, "b": 2}[f], lambda: f"{f} of object {j} is {v.uid}")
                if f in read[j]:
                    c.check(not LOG, f"{f} of object {j} was read again")
                else:
                    c.check(len(LOG) == 1 and LOG[0][3] is o, lambda: f"access of {f} of object {j}: {LOG}")
                    got, want = dict(LOG[0][4]), dict(ctxs[j])
                    if j == 2:
                        c.check("late" in got or "late" not in want, lambda: f"the state did not receive what the manager was given: {got}")
                        got.pop("late", None)
                        want.pop("late", None)
                    c.check(got == want, lambda: f"{f} of object {j} received the context {dict(LOG[0][4])}, but {ctxs[j]} was set")
                read[j].add(f)
            c.op(f"{op} {j}")
        c.state((second, tuple(tuple(sorted(x.items())) for x in ctxs), tuple(tuple(sorted(x)) for x in read)))
    c.agreed()


class Odd(Serializable):
    """Deserializes to a value that is easily mistaken for a missing one."""

    def __init__(self, k):
        self.k = k

    def serialize(self):
        return self.k

    @classmethod
    def deserialize(cls, state_dict, config, state, ctx):
        LOG.append(state_dict)
        return ODD[state_dict]()


class NeverEqual:
    def __eq__(self, other):
        return False

    __hash__ = None


ODD = {
    "none": lambda: None, "zero": lambda: 0, "false": lambda: False, "empty text": str, "empty list": list, "empty dict": dict,
    "empty tuple": tuple, "never equal": NeverEqual, "marker": lambda: "<blob:msgpack>", "class": lambda: Odd, "self": lambda: Odd("none"),
}


def h_odd(c):
    """Deserializers may return anything; it is kept and never asked for again."""
    lazy = c.choose("root", ("lazy", "plain"))
    where = c.choose("where", ("field", "optional", "section", "list", "dict"))
    t, mk_, get = {
        "field": (Odd, lambda o: o, lambda v: v),
        "optional": (Optional[Odd], lambda o: o, lambda v: v),
        "section": (gen.mk("ODDSEC", [("o", Odd), ("p", Odd)], key="c17"), None, lambda v: v.o),
        "list": (List[Odd], lambda o: [o], lambda v: v[0]),
        "dict": (Dict[str, Odd], lambda o: {"k": o}, lambda v: v["k"]),
    }[where]
    k = c.choose("value", list(ODD))
    if where == "section":
        mk_ = lambda o: t(o, Odd("zero"))
    S = gen.mk("ODDROOT", [("step", int), ("a", t), ("b", Odd)], bases=(Lazy,) if lazy == "lazy" else (), key=("c17o", lazy, where))
    d = scratch(c)
    p = os.path.join(d, "state.ron")
    hyperstate.dump(S(1, mk_(Odd(k)), Odd("zero")), p)
    LOG.clear()
    s = hyperstate.load(S, p)
    first = get(s.a)
    for _ in range(3):
        again = get(s.a)
        c.check(again is first, "the field changes between accesses")
    s.b
    want = ODD[k]()
    c.check(type(first) is type(want) and (k in ("never equal", "self") or first == want), lambda: f"read {first!r}, expected {want!r}")
    c.check(LOG.count(k) == 1 + (k == "zero") * (1 + (where == "section")), lambda: f"deserialized {LOG}, expected once per object")
    c.op()
    c.state((lazy, where, k))
    c.agreed()


HARNESSES = [("odd", h_odd), ("shapes", h_shapes), ("lazy", h_lazy), ("multi", h_multi), ("ctx", h_ctx), ("contexts", h_contexts)]
