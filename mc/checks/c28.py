"""C28: a checkpoint edited with a text editor means what its text says."""
import copy
import os
import shutil
import tempfile
from typing import Dict, List, Optional, Tuple

import pyron
from hyperstate import Lazy, Serializable, StateManager

from mc import gen
from mc.engine import Skip, Violation
from mc.ref import Id, St, canon, ron

RULE = (
    "every set of edits of the text files of a checkpoint up to the bound (values and schedules set, replaced, removed; fields "
    "of the state, of nested sections and next to custom-serialized data; data files exchanged), in every layout (comments, "
    "order of the fields, one line, names of structs left out), on the latest automatic checkpoint, on an explicit checkpoint "
    "or on the directory after it was copied elsewhere, opened with and without overrides; everything is compared with the "
    "model after opening, after a step without changes, after training on and after resuming again"
)
BOUND = {"quick": "up to 2 edits out of 27, 3 kinds of state, 3 targets, 7 layouts; two successive single edits", "thorough": "up to 3 edits in one layout, two successive pairs of edits"}
ASSUMPTIONS = ["the edited files are valid RON", "edits are made while no process uses the checkpoint"]


class P(Serializable):
    def __init__(self, v):
        self.v = v

    def serialize(self):
        return {"v": self.v}

    @classmethod
    def deserialize(cls, state_dict, config, state, ctx):
        assert config is not None
        return cls(state_dict["v"])


SEC = gen.mk("SEC", [("n", int, 1), ("x", float, 0.25)])
CFG = gen.mk("CFG", [("b", float), ("sec", SEC), ("a", int, 1), ("s", str, "x"), ("sch", float, 0.5), ("li", List[float], [1.0, 2.0])], key="c28")
SUB = gen.mk("SUB", [("k", int), ("q", P)], key="c28")
FIELDS = [("step", int), ("f", float), ("l", List[int]), ("o", Optional[int]), ("p", P), ("sub", SUB), ("d", Dict[str, P]), ("t", Tuple[int, str]), ("po", Optional[P])]
KINDS = {
    "lazy": gen.mk("LazyS", FIELDS, bases=(Lazy,), key="c28"),
    "plain": gen.mk("PlainS", FIELDS, key="c28"),
}


def lin(a, x0, b, x1):
    return lambda step: a + (b - a) * min(1, max(0, (step - x0) / (x1 - x0)))


def cfg_set(path, value, name=None):
    """A value or a schedule ``(text, function)`` written into the config."""

    def text(files):
        at(files["config"], path[:-1])[path[-1]] = value[0] if isinstance(value, tuple) else value

    def model(m):
        m["cfg"][path] = value[1] if isinstance(value, tuple) else value

    return name or f"config {path} = {value[0] if isinstance(value, tuple) else value}", {("c",) + path}, text, model


def cfg_drop(path, default):
    def text(files):
        d = at(files["config"], path[:-1])
        d.pop(path[-1], None)

    def model(m):
        if isinstance(default, dict):
            for k, v in default.items():
                m["cfg"][path + (k,)] = v
        else:
            m["cfg"][path] = default

    touched = {("c",) + path} | ({("c",) + path + (k,) for k in default} if isinstance(default, dict) else set())
    return f"config {path} removed", touched, text, model


def st_set(path, value, plain=None):
    def text(files):
        at(files["state"], path[:-1])[path[-1]] = value

    def model(m):
        at(m["state"], path[:-1])[path[-1]] = value if plain is None else plain

    return f"state {path} = {value!r}", {("s",) + path}, text, model


def swap(x, y, mx, my):
    """Exchanges two data files."""

    def text(files):
        files["swap"].append((x, y))

    def model(m):
        a, b = at(m["state"], mx[:-1]), at(m["state"], my[:-1])
        a[mx[-1]], b[my[-1]] = b[my[-1]], a[mx[-1]]

    return f"swap {x} and {y}", {("s",) + mx, ("s",) + my}, text, model


def at(d, path):
    for p in path:
        d = d[p]
    return d


EDITS = [
    cfg_set(("b",), 7.5), cfg_set(("b",), 3), cfg_set(("b",), ("step: 1@0 lin 5@4", lin(1, 0, 5, 4))), cfg_set(("sec", "n"), 9), cfg_set(("sec", "x"), ("step: 8@0 lin 0@8", lin(8, 0, 0, 8))),
    cfg_set(("a",), 5), cfg_set(("a",), ("step: 1@0 lin 101@100", lambda s: int(lin(1, 0, 101, 100)(s)))), cfg_set(("s",), 'it\'s "quoted" // \\ \u00fc'), cfg_set(("s",), ""),
    cfg_set(("sch",), 2.5), cfg_set(("sch",), ("step: 0@0 lin 10@5", lin(0, 0, 10, 5))), cfg_set(("li",), []), cfg_set(("li",), [4.0, 5.5, -1.0]),
    cfg_drop(("a",), 1), cfg_drop(("sch",), 0.5), cfg_drop(("sec", "n"), 1), cfg_drop(("sec",), {"n": 1, "x": 0.25}),
    st_set(("step",), 50), st_set(("step",), 0), st_set(("f",), -1.5), st_set(("l",), []), st_set(("l",), [5, -6]), st_set(("o",), 4), st_set(("o",), None), st_set(("sub", "k"), 99),
    st_set(("po",), None), swap("state.p.msgpack", "state.sub.q.msgpack", ("p",), ("sub", "q")),
]  # fmt: skip


def comments(text):
    out = ["// edited by hand", ""]
    for i, l in enumerate(text.split("\n")):
        out += [l + "  // note: (x, [y" if i % 2 and l.endswith(",") else l, "", "/* a\n b: 1, */" if l.endswith(",") else "\t"]
    return "\n".join(out) + "\n// end"


def pretty(n, ind=0):
    pad = "    " * (ind + 1)
    if isinstance(n, St):
        return (n.name or "") + "(\n" + "".join(f"{pad}{k}: {pretty(v, ind + 1)},\n" for k, v in n.fields.items()) + "    " * ind + ")"
    return ron(n)


LAYOUTS = {
    "pretty": pretty,
    "one line": ron,
    "comments": lambda t: comments(pretty(t)),
    "crlf": lambda t: pretty(t).replace("\n", "\r\n") + "\r\n",
    "reversed": lambda t: pretty(reverse(t)),
    "no names": lambda t: pretty(anonymous(t)),
    "wide": lambda t: "\n\n   " + pretty(t).replace("    ", "\t") + "\n\n",
}


def reverse(t):
    return St(t.name, {k: reverse(v) if isinstance(v, St) else v for k, v in reversed(list(t.fields.items()))})


def anonymous(t):
    return St(None, {k: anonymous(v) if isinstance(v, St) else v for k, v in t.fields.items()})


def to_st(d, names):
    return St(names[0], {k: to_st(v, names[1][k]) if k in names[1] else (tuple(v) if k == "t" else v) for k, v in d.items()})


NAMES = {"config": ("CFG", {"sec": ("SEC", {})}), "state": ("S", {"sub": ("SUB", {})})}


def read(path):
    with open(path, "rb") as f:
        return f.read()


def files_of(d):
    return {os.path.relpath(os.path.join(r, f), d): read(os.path.join(r, f)) for r, _, fs in os.walk(d) for f in fs}


class Run:
    def __init__(self, c, kind, layout):
        self.c, self.cls, self.layout = c, KINDS[kind], LAYOUTS[layout]
        self.dir = tempfile.mkdtemp()
        c.scratch_dirs.append(self.dir)
        self.ckpt = os.path.join(self.dir, "run")
        self.init = os.path.join(self.dir, "init.ron")
        with open(self.init, "w") as f:
            f.write('CFG(b: 2.5, sec: (n: 6), sch: "step: 10@0 lin 20@10", li: [3.0])')
        self.ov = None
        self.m = {
            "cfg": {("b",): 2.5, ("sec", "n"): 6, ("sec", "x"): 0.25, ("a",): 1, ("s",): "x", ("sch",): lin(10, 0, 20, 10), ("li",): [3.0]},
            "state": {"step": 0, "f": 0.5, "l": [1], "o": None, "p": 1, "sub": {"k": 2, "q": 3}, "d": {"a.b": 4, "n": 5}, "t": (6, "t"), "po": 7},
        }
        self.sm = self.open()
        self.train()
        self.sm.step()
        self.verify("before the edits")

    def open(self, ov=None):
        return StateManager(CFG, self.cls, self.initial, self.init, self.ckpt, overrides=ov)

    def initial(self, cfg, ctx):
        return self.cls(0, 0.5, [1], None, P(1), SUB(2, P(3)), {"a.b": P(4), "n": P(5)}, (6, "t"), P(7))

    def train(self):
        s, m = self.sm.state, self.m["state"]
        s.step += 1
        s.p.v += 100
        s.sub.q = P(s.sub.q.v + 100)
        s.l.append(s.step)
        m["step"] += 1
        m["p"] += 100
        m["sub"]["q"] += 100
        m["l"] = m["l"] + [m["step"]]

    def verify(self, when):
        c, m, step = self.c, self.m, self.m["state"]["step"]
        cfg, s = self.sm.config, self.sm.state
        state = {"step": s.step, "f": s.f, "l": s.l, "o": s.o, "p": s.p.v, "sub": {"k": s.sub.k, "q": s.sub.q.v}, "d": {k: v.v for k, v in s.d.items()}, "t": s.t, "po": s.po.v if s.po is not None else None}
        c.eq(state, m["state"], f"{when}: state")
        for path, want in m["cfg"].items():
            got = cfg
            for p in path:
                got = getattr(got, p)
            want = want(step) if callable(want) else want
            want = float(want) if path in (("b",), ("sch",), ("sec", "x")) else want
            c.check(type(got) == type(want) and (abs(got - want) < 1e-9 if isinstance(want, float) else got == want), lambda: f"{when}: config {path} is {got!r}, expected {want!r}")
        c.state((self.cls.__name__, canon(m["state"]), sorted((k, callable(v) or canon(v)) for k, v in m["cfg"].items())))

    def latest(self):
        ds = [d for d in os.listdir(self.ckpt) if d.startswith("latest-")]
        self.c.check(len(ds) == 1, lambda: f"automatic checkpoints: {sorted(ds)}")
        return os.path.join(self.ckpt, ds[0])

    def edit(self, d, edits):
        files = {"swap": []}
        for x in ("config", "state"):
            with open(os.path.join(d, x + ".ron")) as f:
                files[x] = pyron.loads(f.read())
        for name, _, text, model in edits:
            text(files)
            model(self.m)
        for x in ("config", "state"):
            text = self.layout(to_st(files[x], NAMES[x]))
            with open(os.path.join(d, x + ".ron"), "w", newline="") as f:
                f.write(text)
            self.c.note(f"edited {x}.ron: {text}" if len(text) < 700 else f"edited {x}.ron")
        for x, y in files["swap"]:
            x, y = os.path.join(d, x), os.path.join(d, y)
            os.rename(x, x + "~")
            os.rename(y, x)
            os.rename(x + "~", y)

    def go_on(self, ov, target):
        """After opening: everything as edited, now and later."""
        c = self.c
        c.op("open")
        self.verify("after opening")
        before = files_of(self.ckpt)
        key = self.m["state"]["step"]
        self.sm.step()
        c.op("step")
        self.verify("after a step without changes")
        latest = self.latest()
        c.check(os.path.basename(latest) == f"latest-step{key:012}", lambda: f"the automatic checkpoint is {latest}")
        if os.path.basename(latest) in [os.path.dirname(p) for p in before]:
            c.check(files_of(self.ckpt) == before, lambda: f"a step without changes changed the files: {sorted(before)} to {sorted(files_of(self.ckpt))}")
        else:
            ov = None  # saved, with the overrides
        self.sm = self.open(ov)
        c.op("resume")
        self.verify("after resuming")
        self.train()
        self.sm.step()
        c.op("step")
        self.verify("after training on")
        self.latest()
        self.sm = self.open()
        c.op("resume")
        self.verify("after training on and resuming")
        self.latest()


def choose_edits(c, n, label="edit", edits=EDITS):
    out, touched = [], set()
    start = 0
    for i in range(n):
        left = [None] + list(range(start, len(edits)))
        k = c.choose(f"{label}{i}", [("-" if j is None else edits[j][0], j) for j in left])[1]
        if k is None:
            break
        e = edits[k]
        if any(a[: len(b)] == b or b[: len(a)] == a for a in touched for b in e[1]):
            raise Skip()
        touched |= e[1]
        out.append(e)
        start = k + 1
    # removed values before set ones inside of them
    return out


def run(c, kind, layout, target, ovs, rounds):
    r = Run(c, kind, layout)
    for n in rounds:
        if target == "automatic":
            d = r.latest()
        elif target == "explicit":
            d = os.path.join(r.dir, f"m{len(r.c.trace)}")
            r.sm.checkpoint(d)
            r.ckpt = d + "-run"
            r.init = d
        else:
            r.latest()
            shutil.copytree(r.ckpt, r.ckpt + "-copy")
            shutil.rmtree(r.ckpt)
            r.ckpt += "-copy"
            d = r.latest()
        r.edit(d, n)
        for o, path, v in ovs:
            r.m["cfg"][path] = v
        ov = [o for o, _, _ in ovs] or None
        r.sm = r.open(ov)
        r.go_on(ov, target)
        ovs = ()
    c.outcome = "as edited"
    c.agreed()


def h_edits(c):
    es = choose_edits(c, 2)
    layout = c.choose("layout", list(LAYOUTS) if len(es) < 2 or c.thorough else ["pretty"])
    kind = c.choose("state", list(KINDS) if len(es) < 2 or c.thorough else ["lazy"])
    target = c.choose("target", ["automatic", "explicit", "copied"] if len(es) < 2 or c.thorough else ["automatic"])
    ov = c.choose("override", [(), (("b=44.5", ("b",), 44.5),), (("sec.n=45", ("sec", "n"), 45), ("s=ov", ("s",), "ov"))] if len(es) < 2 else [()])
    run(c, kind, layout, target, ov, [es])


def h_three(c):
    es = choose_edits(c, 3 if c.thorough else 1)
    run(c, c.choose("state", list(KINDS)), "comments", "automatic", (), [es])


def h_again(c):
    """Edited, trained on, and edited again."""
    n = 2 if c.thorough else 1
    a = choose_edits(c, n, "first")
    b = choose_edits(c, n, "second")
    run(c, c.choose("state", list(KINDS)) if not c.thorough else "lazy", "pretty", c.choose("target", ["automatic", "explicit"]) if not c.thorough else "automatic", (), [a, b])


BAD = [
    ("config", "unknown field", lambda t: t.fields.update(zzz=1)), ("config", "unknown nested field", lambda t: t.fields["sec"].fields.update(zzz=1)),
    ("config", "wrong type", lambda t: t.fields.update(a="text")), ("config", "wrong nested type", lambda t: t.fields["sec"].fields.update(n=1.5)),
    ("config", "section is a number", lambda t: t.fields.update(sec=1)), ("config", "required field missing", lambda t: t.fields.pop("b")),
    ("config", "not a schedule", lambda t: t.fields.update(sch="step: nonsense")), ("config", "wrong list", lambda t: t.fields.update(li=["x"])),
    ("state", "unknown field", lambda t: t.fields.update(zzz=1)), ("state", "wrong type", lambda t: t.fields.update(l=["x"])), ("state", "key is no number", lambda t: t.fields.update(step="x")),
    ("state", "required field missing", lambda t: t.fields.pop("f")), ("state", "wrong nested type", lambda t: t.fields["sub"].fields.update(k="x")), ("state", "section missing", lambda t: t.fields.pop("sub")),
    ("state", "tuple too short", lambda t: t.fields.update(t=(1,))),
]  # fmt: skip


def h_bad(c):
    """Edits that are mistakes are refused; nothing is lost."""
    x, name, f = c.choose("mistake", BAD)
    kind = c.choose("state", list(KINDS))
    target = c.choose("target", ("automatic", "initial path"))
    r = Run(c, kind, c.choose("layout", ("pretty", "comments")))
    d = r.latest()
    if target == "initial path":
        r.init, r.ckpt = d, os.path.join(r.dir, "other")
    good = files_of(d)
    tree = to_st(pyron.loads(good[x + ".ron"].decode()), NAMES[x])
    f(tree)
    with open(os.path.join(d, x + ".ron"), "w") as g:
        g.write(r.layout(tree))
    before = files_of(r.dir)
    for use in (lambda sm: sm.step(), lambda sm: (sm.config, sm.state)):
        try:
            use(r.open())
        except Exception as e:
            c.check(not isinstance(e, (NameError, AttributeError)), lambda: f"{name}: {type(e).__name__}: {e}")
        else:
            c.fail(f"{x}.ron: {name} was accepted")
        c.op("refused")
        c.check(files_of(r.dir) == before, lambda: f"{name}: files changed: {sorted(before)} to {sorted(files_of(r.dir))}")
    with open(os.path.join(d, x + ".ron"), "wb") as g:
        g.write(good[x + ".ron"])
    r.sm = r.open()
    r.verify("after the mistake was undone")
    c.state((x, name, kind, target))
    c.outcome = "refused"
    c.agreed()


HARNESSES = [("edits", h_edits), ("three", h_three), ("again", h_again), ("bad", h_bad)]
