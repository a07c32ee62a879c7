"""C05: old configs load as if migrated one version at a time."""
import os
import tempfile
from dataclasses import dataclass, field
from typing import Any, Dict, List, Optional, Union

import hyperstate
from hyperstate import StateManager, Versioned
from hyperstate.schema.rewrite_rule import AddDefault, ChangeDefault, MapFieldValue, RenameField, RewriteRule

from mc import gen
from mc.ref import St, canon, ron

RULE = (
    "every rule table (per version: no entry, empty list, one or two non-commuting rules, a rule returning a new dict) over "
    "every number of versions x every recorded version, and every combination of outer/inner/list/dict/optional/union "
    "versioned sections with their own recorded versions; configs without version"
)
BOUND = {"quick": "up to 3 versions, up to 2 rules each", "thorough": "up to 4 versions, up to 2 rules each"}
ASSUMPTIONS = ["rules write their identity into a log field of the config; the final log is the observed application order"]


@dataclass
class Log(RewriteRule):
    """Appends its identity to the log field."""

    ident: int
    fresh: bool = False  # return a new dict instead of changing the given one

    def apply(self, state_dict: Any) -> Any:
        if self.fresh:
            new = dict(state_dict)
            new["log"] = list(state_dict.get("log", [])) + [self.ident]
            return new
        state_dict.setdefault("log", []).append(self.ident)
        return state_dict

    def apply_to_schema(self, schema: Any) -> None:
        pass


FIELDS = [("log", List[int], []), ("n", int, 0), ("a", int, -1), ("b", int, -1)]


def entry(c, label, v):
    """The rule list of one version and its reference effect."""
    k = c.choose(label, ("absent", "empty", "log", "log2", "fresh", "add", "mul", "addmul", "muladd", "ab", "ba", "logfresh"))
    i = 10 * (v + 1)
    L = lambda d: d["log"].append(i)
    L1 = lambda d: d["log"].append(i + 1)
    add = lambda d: d.__setitem__("n", d["n"] + v + 1)
    mul = lambda d: d.__setitem__("n", d["n"] * 3)
    addr = MapFieldValue(("n",), lambda x: x + v + 1)
    mulr = MapFieldValue(("n",), lambda x: x * 3)

    def ren(x, y):
        def f(d):
            if x in d:
                d[y] = d.pop(x)

        return f

    table = {
        "absent": (None, []),
        "empty": ([], []),
        "log": ([Log(i)], [L]),
        "log2": ([Log(i), Log(i + 1)], [L, L1]),
        "fresh": ([Log(i, True)], [L]),
        "logfresh": ([Log(i), Log(i + 1, True)], [L, L1]),
        "add": ([addr], [add]),
        "mul": ([mulr], [mul]),
        "addmul": ([addr, mulr], [add, mul]),
        "muladd": ([mulr, addr], [mul, add]),
        "ab": ([RenameField(("a",), ("b",)), Log(i)], [ren("a", "b"), L]),
        "ba": ([RenameField(("b",), ("a",))], [ren("b", "a")]),
    }
    return table[k]


def h_tables(c):
    n = c.choose("n", (3, 2, 1, 0, 4) if c.thorough else (3, 2, 1, 0))
    rules, ref = {}, {}
    for v in range(n):
        if v < n - 3:  # four versions: the first entry only logs
            r, e = [Log(10 * (v + 1))], [lambda d, v=v: d["log"].append(10 * (v + 1))]
        else:
            r, e = entry(c, f"v{v}", v)
        if r is not None:
            rules[v] = r
        ref[v] = e
    if c.choose("order", ("asc", "desc")) == "desc":
        rules = dict(reversed(list(rules.items())))
    cls = gen.versioned("V", FIELDS, n, rules)
    rec = c.choose("recorded", list(range(n + 2)) if n < 4 else [0, 2])
    base = {"n": 5, "a": 1}
    text = ron(St("V", {"version": rec, **base}))
    d = {"log": [], **base}
    for v in range(rec, n):
        for e in ref[v]:
            e(d)
    want = cls(d["log"], d["n"], d.get("a", -1), d.get("b", -1))
    got = hyperstate.loads(cls, text)
    c.op(text)
    c.check(canon(got) == canon(want), lambda: f"{text} with rules {rules} loaded {canon(got)}, expected {canon(want)}")
    c.state((n, rec, canon(got)))
    c.agreed()


def log_cls(name, version):
    rules = {v: [Log(100 * (len(name)) + 10 * v), Log(100 * len(name) + 10 * v + 1)] for v in range(version)}
    return gen.versioned(name, [("x", int), ("log", List[int], [])], version, rules, key="c05")


def log_of(name, rec, version):
    return [100 * len(name) + 10 * v + k for v in range(rec, version) for k in (0, 1)]


IN1 = log_cls("I", 2)  # appears as plain section, optional, list and dict element
IN2 = log_cls("UU", 3)  # the other union arm
PLAIN = gen.mk("PLAIN", [("v", IN1), ("k", int, 0)])  # an unversioned section around a versioned one


def h_nested(c):
    """Nested versioned sections are upgraded by their own recorded version and rules."""
    ver = 2
    rules = {
        0: [RenameField(("oldsec",), ("sec",)), Log(1)],
        1: [RenameField(("plain", "w"), ("plain", "v")), Log(2), MapFieldValue(("lst",), lambda l: list(reversed(l)))],
    }
    OUT = gen.versioned(
        "OUT",
        [("sec", IN1), ("plain", PLAIN), ("opt", Optional[IN1], None), ("lst", List[IN1], []), ("dct", Dict[str, IN1], {}), ("u", Union[IN1, IN2, None], None), ("log", List[int], [])],
        ver, rules, key="c05",
    )
    rec = c.choose("recorded", (0, 1, 2))
    vs = {}

    def sec(label, x, cls=IN1, top=2):
        r = c.choose(label, tuple(range(top + 1)))
        vs[label] = r
        return St(cls.__name__, {"version": r, "x": x}), cls(x, log_of(cls.__name__, r, top))

    s, ws = sec("sec", 1)
    p, wp = sec("plain", 2)
    f = {"version": rec, ("oldsec" if rec == 0 else "sec"): s, "plain": St("PLAIN", {("w" if rec < 2 else "v"): p, "k": 3})}
    want = dict(sec=ws, plain=PLAIN(wp, 3), log=[1, 2][rec:] if rec < 2 else [])
    kinds = c.choose("rest", ("none", "opt", "lst", "dct", "u1", "u2", "opt+lst"))
    if "opt" in kinds:
        f["opt"], want["opt"] = sec("opt", 4)
    if "lst" in kinds:
        a, wa = sec("l0", 5)
        b, wb = sec("l1", 6)
        f["lst"] = [a, b]
        want["lst"] = [wb, wa] if rec < 2 else [wa, wb]
    if kinds == "dct":
        a, wa = sec("d0", 5)
        b, wb = sec("d1", 6)
        f["dct"], want["dct"] = {"p": a, "q": b}, {"p": wa, "q": wb}
    if kinds == "u1":
        f["u"], want["u"] = sec("u", 7)
    if kinds == "u2":
        f["u"], want["u"] = sec("u", 8, IN2, 3)
    text = ron(St("OUT", f))
    got = hyperstate.loads(OUT, text)
    c.op(text)
    c.eq(got, OUT(**want), text)
    c.state((rec, canon(got)))
    c.agreed()


def h_roundtrip(c):
    """What is dumped is recorded at the current version: loading it again applies nothing."""
    n = c.choose("n", (0, 1, 2, 3))
    cls = log_cls("RT" + "x" * n, n)
    rec = c.choose("recorded", range(n + 1))
    cfg = hyperstate.loads(cls, f"(version: {rec}, x: 1)")
    c.eq(cfg.log, log_of(cls.__name__, rec, n), "applied rules")
    text = hyperstate.dumps(cfg)
    c.op()
    again = hyperstate.loads(cls, text)
    c.op()
    c.eq(again, cfg, f"reload of {text}")
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "c.ron")
        with open(p, "w") as f:
            f.write(f"{cls.__name__}(version: {rec}, x: 1)")
        c.eq(hyperstate.load(cls, p), cfg, "load of the file")
        sm = StateManager(cls, gen.A, lambda cf, ctx: gen.A(0), p, os.path.join(d, "ck"), checkpoint_key="x")
        c.eq(sm.config, cfg, "manager config")
        sm.step()
        sm2 = StateManager(cls, gen.A, lambda cf, ctx: gen.A(0), p, os.path.join(d, "ck"), checkpoint_key="x")
        c.eq(sm2.config, cfg, "config of the resumed manager")
        c.op(n=3)
    c.state((n, rec))
    c.agreed()


def h_missing(c):
    """A config that records no version is refused or taken to be of version 0, but never to be current."""
    n = c.choose("n", (0, 1, 2, 3))
    cls = log_cls("MV" + "x" * n, n)
    R = gen.mk("R", [("v", cls)])
    where = c.choose("where", ("root", "nested"))
    via = c.choose("via", ("loads", "load", "manager", "overrides") if where == "root" else ("loads", "load"))
    text = c.choose("text", ("(x: 1)", cls.__name__ + "(x: 1, n: 2)", "(log: [], x: 1)"))
    if where == "nested":
        text = f"(v: {text})"
    want = log_of(cls.__name__, 0, n)
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "c.ron")
        with open(p, "w") as f:
            f.write(text)
        t = cls if where == "root" else R
        try:
            if via == "loads":
                got = hyperstate.loads(t, text)
            elif via == "overrides":
                got = hyperstate.loads(t, text, overrides=["x=1"])
            elif via == "load":
                got = hyperstate.load(t, p)
            else:
                got = StateManager(t, gen.A, lambda cf, ctx: gen.A(0), p).config
        except Exception:
            got = None
    c.op()
    if got is not None:
        got = got if where == "root" else got.v
        c.check(got.log == want, lambda: f"{text} without version was loaded by {via} as {canon(got)}, after rules {got.log}; all rules: {want}")
    c.agreed()
    c.state((n, where, via, text))


def h_override(c):
    """A section given as an override has the version it records, also where there is no config file."""
    n = c.choose("n", (0, 1, 2, 3))
    cls = log_cls("OV" + "x" * n, n)
    root = gen.versioned("ROV", [("v", cls), ("o", Optional[cls], None), ("k", int, 0)], 1, {0: []}) if c.choose("rooted", (False, True)) else gen.mk(
        "ROV", [("v", cls), ("o", Optional[cls], None), ("k", int, 0)])
    r = c.choose("recorded", range(n + 1))
    o = c.choose("optional", [None] + list(range(n + 1)))
    file = c.choose("file", ("none", "empty", "other"))
    inner = c.choose("inner", ("", "v.x=7", "v.log=[5]"))
    how = c.choose("via", ("load", "manager"))
    ovs = [f"v={cls.__name__}(version: {r}, x: 1)"]
    if o is not None:
        ovs.append(f"o=(version: {o}, x: 2)")
    if inner:
        ovs.append(inner)
    v = cls(7 if inner == "v.x=7" else 1, [5] if inner == "v.log=[5]" else log_of(cls.__name__, r, n))
    want = root(v, None if o is None else cls(2, log_of(cls.__name__, o, n)), 3 if file == "other" else 0)
    with tempfile.TemporaryDirectory() as d:
        p = None
        if file != "none":
            p = os.path.join(d, "c.ron")
            ver = "version: 0, " if hasattr(root, "version") else ""
            with open(p, "w") as f:
                f.write(f"ROV({ver}k: 3)" if file == "other" else f"ROV({ver[:-2]})" if ver else "ROV()")
        given = list(ovs)
        if how == "load":
            got = hyperstate.load(root, p, overrides=ovs)
        else:
            got = StateManager(root, gen.A, lambda cf, ctx: gen.A(0), p, overrides=ovs).config
    c.op(given)
    c.eq(got, want, f"{root.__name__} of {file} file with overrides {given}")
    c.agreed()
    c.state((n, r, o, inner))


def h_inherit(c):
    """Classes derived from versioned classes have rules and versions of their own."""
    n = c.choose("base", (1, 2))
    m = c.choose("derived", ("inherits", "own rules", "own version", "both"))
    k = 3 if m in ("own version", "both") else n

    @dataclass
    class Base(Versioned):
        x: int
        log: List[int] = field(default_factory=list)

        @classmethod
        def version(cls):
            return n

        @classmethod
        def upgrade_rules(cls):
            return {v: [Log(10 + v)] for v in range(n)}

    ns = {"__annotations__": {"y": int}, "y": 0}
    if m in ("own rules", "both"):
        ns["upgrade_rules"] = classmethod(lambda cls: {v: [Log(20 + v)] for v in range(k)})
    if m in ("own version", "both"):
        ns["version"] = classmethod(lambda cls: k)
    Derived = dataclass(type("Derived", (Base,), ns))
    tag = 20 if m in ("own rules", "both") else 10
    top = n if m == "own version" else k  # the base has rules for its own versions only
    R = gen.mk("R", [("b", Base), ("d", Derived), ("l", List[Derived], [])])
    for i in range(3):
        which = c.choose(f"load{i}", ("base", "derived", "both"))
        v = c.choose(f"v{i}", (0, 1))
        wb = Base(1, [10 + j for j in range(v, n)])
        wd = Derived(2, [tag + j for j in range(v, top)], 3)
        if which == "base":
            got, want = hyperstate.loads(Base, f"Base(version: {v}, x: 1)"), wb
        elif which == "derived":
            got, want = hyperstate.loads(Derived, f"Derived(version: {v}, x: 2, y: 3)"), wd
        else:
            got = hyperstate.loads(R, f"R(d: Derived(version: {v}, x: 2, y: 3), b: Base(version: {v}, x: 1))")
            want = R(wb, wd, [])
        c.op()
        c.eq(got, want, f"{which} at version {v} as load {i}, derived class with {m}")
    c.agreed()
    c.state((n, m, i))


def h_texts(c):
    """How a config is written makes no difference: with or without names, as a map, with the version anywhere, empty."""
    n = c.choose("n", (0, 1, 2, 3))
    rules = {v: [AddDefault(("a",), 7), Log(10 + v)] if v == 0 else [Log(10 + v), ChangeDefault(("b",), v, 9)] for v in range(n)}
    cls = gen.versioned("TX", [("a", int, 5), ("b", int, 9), ("log", List[int], [])], n, rules)
    R = gen.mk("RTX", [("v", cls), ("o", Optional[cls], None), ("l", List[cls], []), ("d", Dict[str, cls], {}), ("k", int, 0)])
    where = c.choose("where", ("root", "section", "optional", "list", "dict", "file"))
    rec = c.choose("recorded", range(n + 1))
    fields = {k: v for k, v in (("a", 1), ("b", 2)) if c.choose(f"has {k}", (False, True))}
    items = [(k, str(v)) for k, v in fields.items()]
    items.insert(c.choose("version at", range(len(items) + 1)), ("version", str(rec)))
    style = c.choose("style", ("named", "unnamed", "map", "trailing comma", "lines", "comments"))
    if style == "map":
        text = "{" + ", ".join(f'"{k}": {v}' for k, v in items) + "}"
    elif style == "lines":
        text = "TX(\r\n" + "".join(f"  {k} : {v} ,\r\n" for k, v in items) + ")"
    elif style == "comments":
        text = "/* ( */ TX( // version: 9\n" + ", ".join(f"{k}: {v} /* {k}: 0 */" for k, v in items) + "\n// end )\n)"
    else:
        text = ("" if style == "unnamed" else "TX") + "(" + ", ".join(f"{k}: {v}" for k, v in items) + ("," if style == "trailing comma" else "") + ")"
    d = {"log": [], **fields}
    for v in range(rec, n):
        if v == 0:
            d.setdefault("a", 7)
            d["log"].append(10)
        else:
            d["log"].append(10 + v)
            d.setdefault("b", v)
    want = cls(d.get("a", 5), d.get("b", 9), d["log"])
    cur = f"TX(version: {n})"
    if where == "root":
        got = hyperstate.loads(cls, text)
    elif where == "file":
        with tempfile.TemporaryDirectory() as tmp:
            p = os.path.join(tmp, "c.ron")
            with open(p, "w") as f:
                f.write(text)
            got = hyperstate.load(cls, p)
    else:
        form = {"section": "v: {0}", "optional": "v: {1}, o: {0}", "list": "v: {1}, l: [{1}, {0}]", "dict": "v: {1}, d: {{\"x\": {0}}}"}[where]
        r = hyperstate.loads(R, "(" + form.format(text, cur) + ")")
        got = {"section": lambda: r.v, "optional": lambda: r.o, "list": lambda: r.l[1], "dict": lambda: r.d["x"]}[where]()
    c.op(text)
    c.eq(got, want, f"{text!r} as {where}")
    c.state((where, rec, canon(got)))
    c.agreed()


HARNESSES = [("texts", h_texts), ("inherit", h_inherit), ("tables", h_tables), ("nested", h_nested), ("roundtrip", h_roundtrip), ("override", h_override), ("missing", h_missing)]
