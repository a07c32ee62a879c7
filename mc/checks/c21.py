"""C21: help lists exactly the schema of the config."""
import contextlib
import dataclasses
import enum
import io
import re
from dataclasses import MISSING
from typing import Dict, List, Literal, Optional, Tuple, Union

import click
import hyperstate
from hyperstate import Versioned

from mc import gen
from mc.engine import Skip
from mc.gen import Color, Level

RULE = (
    "every config class up to the bound (fields of every type, with and without defaults and documentation; nested sections that are "
    "required, optional, in lists, with and without a default of their own), every way to spread and write the documentation over a "
    "class hierarchy, and every query made from its names; the printed text is read back and compared with the class"
)
BOUND = {
    "quick": "two levels of sections of up to 2 fields, out of 19 kinds of leaf fields and 8 kinds of sections; hierarchies of up to 3 classes; 14 queries",
    "thorough": "the same with up to 3 fields at the top, and any two sections side by side",
}
ASSUMPTIONS = [
    "sections inside dictionaries, tuples and unions are shown as a type only",
    "how types, alignment and colours are written is not specified: the names in a type have to appear in order",
    "which fields other than exact matches are listed for a query is not specified",
]

# (label, type, default, other value, words in the type or None for an enum)
LEAVES = [
    ("int", int, 3, 9, "int"),
    ("int!", int, MISSING, 9, "int"),
    ("float", float, 0.1, 1e-5, "float"),
    ("float!", float, MISSING, 2.5, "float"),
    ("str", str, "a = b  # c: d", "z", "str"),
    ("empty", str, "", " ", "str"),
    ("str!", str, MISSING, "q", "str"),
    ("bool", bool, False, True, "bool"),
    ("oint", Optional[int], None, 0, "Optional int"),
    ("oint7", Optional[int], 7, None, "Optional int"),
    ("ofloat!", Optional[float], MISSING, None, "Optional float"),
    ("list", List[int], [1, 2], [], "List int"),
    ("olist", Optional[List[str]], None, ["a"], "Optional List str"),
    ("dict", Dict[str, int], {}, {"k": 1}, "Dict str int"),
    ("tuple", Tuple[int, str], (1, "a"), (2, "b"), "Tuple int str"),
    ("lit", Literal["x", "y"], "y", "x", "x y"),
    ("union", Union[int, str], 0, "u", "Union int str"),
    ("enum", Color, Color.RED, Color.GREEN, "Color"),
    ("oenum", Optional[Level], None, Level.HIGH, "Level"),
]
LEAF = {x[0]: x for x in LEAVES}
FEW = ["int", "str!", "oint", "enum", "bool"]
WRAPS = ["required", "factory", "own", "optional", "optional-own", "list", "list-default", "optional-list"]


class F:
    """One expected field."""

    def __init__(self, name, words, default=MISSING, doc=None, sec=None):
        self.name, self.words, self.default, self.doc, self.sec = name, words, default, doc, sec


def leaf(name, kind):
    _, typ, default, other, words = LEAF[kind]
    return dict(name=name, type=typ, default=default, other=other, f=F(name, words.split(), default))


def enums(v):
    return v.value if isinstance(v, enum.Enum) else v


def build(cname, specs, docs, bases=(), style="google"):
    """(class, expected fields in order): fields without default have to come first."""
    specs = [s for s in specs if s["default"] is MISSING] + [s for s in specs if s["default"] is not MISSING]
    doc = {}
    for i, s in enumerate(specs):
        if docs == "all" or (docs == "first" and i == 0) or (docs == "last" and i == len(specs) - 1):
            doc[s["name"]] = f"the {s['name']} of {cname}: (= {i})"
    fields = []
    for s in specs:
        s["f"].doc = doc.get(s["name"])
        if s["default"] is MISSING:
            fields.append((s["name"], s["type"]))
        elif s["default"].__class__.__hash__ is None:
            d = s["default"]
            fields.append((s["name"], s["type"], dataclasses.field(default_factory=lambda d=d: d)))
        else:
            fields.append((s["name"], s["type"], dataclasses.field(default=s["default"])))
    ns = {}
    if doc:
        ns["__doc__"] = docstring(doc, style)
    cls = dataclasses.make_dataclass(cname, fields, bases=bases, namespace=ns)
    return cls, [s["f"] for s in specs]


def docstring(doc, style):
    if style == "google":
        return "Summary.\n\nAttributes:\n" + "".join(f"    {k}: {v}\n" for k, v in doc.items())
    if style == "args":
        return "Summary.\n\nArgs:\n" + "".join(f"    {k} (int): {v}\n" for k, v in doc.items())
    if style == "rest":
        return "Summary.\n\n" + "".join(f":param {k}: {v}\n" for k, v in doc.items())
    return "Summary.\n\nParameters\n----------\n" + "".join(f"{k} : int\n    {v}\n" for k, v in doc.items())


def instance(cls, specs):
    return cls(**{s["name"]: s["other"] for s in specs})


def with_values(fields, inst):
    """The fields of a section whose values come from an instance."""
    r = []
    for f in fields:
        v = getattr(inst, f.name)
        if f.sec is None:
            r.append(F(f.name, f.words, v, f.doc))
        else:
            sub = f.base if not dataclasses.is_dataclass(v) else with_values(f.base, v)
            g = F(f.name, f.words, MISSING, f.doc, sub)
            g.base = f.base
            r.append(g)
    return r


def section(name, wrap, cname, specs, docs):
    cls, fields = build(cname, specs, docs)
    default = MISSING
    inst = instance(cls, specs)
    sec = fields
    typ, words = cls, [cname]
    if wrap == "factory":
        if any(s["default"] is MISSING for s in specs):
            raise Skip()
        default = cls()
        sec = with_values(fields, default)
    elif wrap == "own":
        default = inst
        sec = with_values(fields, inst)
    elif wrap == "optional":
        typ, words, default = Optional[cls], ["Optional", cname], None
    elif wrap == "optional-own":
        typ, words, default = Optional[cls], ["Optional", cname], inst
        sec = with_values(fields, inst)
    elif wrap == "list":
        typ, words = List[cls], ["List", cname]
    elif wrap == "list-default":
        typ, words, default = List[cls], ["List", cname], [inst]
    elif wrap == "optional-list":
        typ, words, default = Optional[List[cls]], ["Optional", "List", cname], None
    f = F(name, words, MISSING, None, sec)
    f.base = fields
    other = inst if wrap in ("required", "factory", "own") else None if wrap in ("optional-own", "optional-list") else inst if wrap == "optional" else [inst]
    return dict(name=name, type=typ, default=default, other=other, f=f)


def item(c, name, depth, rich, label):
    kinds = [("leaf", k) for k in (LEAF if rich else FEW)]
    if depth > 0:
        kinds += [("section", w) for w in WRAPS]
    kind, k = c.choose(label, kinds)
    if kind == "leaf":
        return leaf(name, k)
    n = c.choose(label + "#", (1, 2))
    names = ["x", "lr_min"] if depth == 1 else ["lr", "x"]
    specs = [item(c, names[0], depth - 1, n == 1, label + "/0")]
    if n == 2:
        specs.append(leaf(names[1], c.choose(label + "/1", FEW)))
    return section(name, k, f"Sec{depth}{name.title()}", specs, c.choose(label + "d", ("none", "all")) if depth == 1 else "first")


def show_help(c, cls, query=""):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        hyperstate.help(cls, query)
    c.op("help")
    return click.unstyle(out.getvalue())


def default_texts(v):
    if isinstance(v, enum.Enum):
        return [repr(v.value), repr(v), str(v), v.name, repr(v.name)]
    return [repr(v)]


def matches(text, f, docs=True):
    """Whether the text after the name describes this field; a reason if not."""
    rest = text
    if f.sec is None:
        if f.doc is not None and docs:
            if not rest.endswith(f.doc):
                return f"no documentation {f.doc!r}"
            rest = rest[: -len(f.doc)].rstrip()
            if not rest.endswith("#"):
                return "documentation not set off"
            rest = rest[:-1].rstrip()
        if f.default is not MISSING:
            for t in default_texts(f.default):
                if rest.endswith(t) and rest[: -len(t)].rstrip().endswith("="):
                    rest = rest[: -len(t)].rstrip()[:-1].rstrip()
                    break
            else:
                return f"default is not {f.default!r}"
    elif f.doc is not None and rest.endswith(f.doc):
        rest = rest[: -len(f.doc)].rstrip().rstrip("#")
    words = re.findall(r"\w+", rest)
    if any(w in ("Color", "Level") for w in f.words):
        return None if f.words[0] in words else f"type is not {f.words}"
    return None if words == f.words else f"type is not {f.words}"


def flat(fields, depth=0):
    for f in fields:
        yield depth, f
        if f.sec is not None:
            yield from flat(f.sec, depth + 1)


def h_print(c):
    """Without a query: every field exactly once, in order."""
    n = c.choose("fields", (1, 2, 3) if c.thorough else (1, 2))
    specs = [item(c, "x", 2 if n == 1 else 1, n == 1, "a")]
    if n >= 2:
        if c.thorough and n == 2:
            specs.append(item(c, "y", 1, True, "b"))
        elif c.choose("b", ("leaf", "section")) == "leaf":
            specs.append(leaf("y", c.choose("b.", list(LEAF))))
        else:
            specs.append(section("y", c.choose("b.", WRAPS), "SecY", [leaf("x", "int")], "all"))
    if n == 3:
        specs.append(leaf("z", c.choose("c", FEW)))
    cls, fields = build("Root", specs, c.choose("docs", ("none", "all", "first", "last") if c.thorough and n == 1 else ("all",) if n > 1 else ("none", "all")))
    out = show_help(c, cls)
    c.agreed()
    c.state(out)
    lines = out.splitlines()
    want = list(flat(fields))
    c.check(len(lines) == len(want), lambda: f"{len(want)} fields, {len(lines)} lines:\n{out}")
    indents = {}
    for line, (depth, f) in zip(lines, want):
        indent = len(line) - len(line.lstrip())
        head, colon, rest = line.strip().partition(":")
        c.check(head == f.name and colon == ":", lambda: f"expected {f.name}, got {line!r}:\n{out}")
        c.check(indents.setdefault(depth, indent) == indent, lambda: f"{line!r} is not indented like the other fields at depth {depth}:\n{out}")
        why = matches(rest, f)
        c.check(why is None, lambda: f"{line!r}: {why}:\n{out}")
    c.check(len(set(indents.values())) == len(indents) and sorted(indents) == sorted(indents, key=indents.get), lambda: f"depths are not told apart:\n{out}")


def h_docs(c):
    """Documentation spread over a class hierarchy."""
    shape = c.choose("hierarchy", ("one", "base", "chain", "two", "versioned"))
    style = c.choose("style", ("google", "args", "rest", "numpy"))
    names = ["a", "b", "c"]

    def cls_with(cname, declared, bases, label):
        doc = {}
        for n in c.choose(label, ((), ("a",), ("b",), ("a", "b"), ("c",), ("a", "b", "c"))):
            doc[n] = f"{n} according to {cname}"
        extra = c.choose(label + "+", (False, True)) if c.thorough or label == "sub" else False
        if extra:
            doc["nosuch"] = f"nothing in {cname}"
        ns = {"__doc__": docstring(doc, style)} if doc else {}
        docs[cname] = doc
        return dataclasses.make_dataclass(cname, [(n, int, dataclasses.field(default=ord(n))) for n in declared], bases=bases, namespace=ns)

    docs = {}
    if shape == "one":
        cls = cls_with("Sub", names, (), "sub")
    elif shape == "versioned":
        cls = dataclasses.make_dataclass("Sub", [], bases=(cls_with("Base", names, (Versioned,), "base"),), namespace={"version": classmethod(lambda k: 0)})
        docs["Sub"] = {}
    elif shape == "base":
        redeclare = c.choose("redeclared", ((), ("a",), ("c",), ("a", "b", "c")))
        base = cls_with("Base", names[:2], (), "base")
        cls = cls_with("Sub", sorted({"c", *redeclare}), (base,), "sub")
    elif shape == "chain":
        base = cls_with("Base", names[:1], (), "base")
        mid = cls_with("Mid", names[1:2], (base,), "mid")
        cls = cls_with("Sub", names[2:], (mid,), "sub")
    else:
        base = cls_with("Base", names, (), "base")
        mid = cls_with("Mid", names, (), "mid")
        cls = cls_with("Sub", c.choose("redeclared", ((), ("a",))), (base, mid), "sub")
    want = []
    for n in cls.__dataclass_fields__:
        doc = [docs[k.__name__][n] for k in cls.__mro__ if n in docs.get(k.__name__, {})]
        want.append(F(n, ["int"], ord(n), doc[0] if doc else None))
    nested = c.choose("as", ("config", "section", "query"))
    if nested == "config":
        out = show_help(c, cls)
        lines = out.splitlines()
    else:
        root = dataclasses.make_dataclass("Root", [("sec", cls)])
        out = show_help(c, root, "sec" if nested == "query" else "")
        lines = out.splitlines()[1:]
        if nested == "query":
            lines = [x for x in lines if x.startswith(" ")]
    c.agreed()
    c.state(out)
    c.check(len(lines) == len(want), lambda: f"{len(want)} fields expected:\n{out}")
    for line, f in zip(lines, want):
        head, _, rest = line.strip().partition(":")
        c.check(head == f.name, lambda: f"expected {f.name}, got {line!r}:\n{out}")
        why = matches(rest, f)
        c.check(why is None, lambda: f"{line!r}: {why}, documentation by class {docs}:\n{out}")


QNAMES = [("x", "lr", "opt"), ("lr", "x", "sec"), ("sec", "lr_min", "x"), ("x", "sec", "sec"), ("log_interval", "li", "opt")]
QUERIES = ["x", "lr", "sec", "opt", "lr_min", "lrmin", "li", "log_interval", "X", "nothing_like_it", "s", "interval", "optimizer", "Sec"]


def h_query(c):
    """With a query: all exact matches, and nothing that is not so."""
    a, b, s = c.choose("names", QNAMES)
    wrap = c.choose("wrap", WRAPS)
    deep = c.choose("deep", (None, *WRAPS) if c.thorough or wrap in ("required", "own", "optional") else (None, "required", "own"))
    inner = [leaf(a, c.choose("leaf", FEW)), leaf("other", "float")]
    if deep is not None:
        inner.append(section(s if s != a else "deeper", deep, "Deep", [leaf(b, "int!"), leaf("x" if b != "x" else "xx", "oint7")], "all"))
    specs = [section(s, wrap, "Section", inner, "all")]
    if a != s:
        specs.append(leaf(a, c.choose("leaf2", FEW)))
    if b not in (a, s):
        specs.append(leaf(b, "str"))
    if wrap == "required" and deep is not None:
        for i in range(c.choose("outer", (0, 2))):
            specs = [leaf("w%d" % i, "int!"), section("top%d" % i, "required", "Top%d" % i, specs, "all")]
    cls, fields = build("Root", specs, "all")
    q = c.choose("query", QUERIES)
    out = show_help(c, cls, q)
    c.agreed()
    c.state((out, q))
    paths = {}

    def walk(fs, prefix):
        for f in fs:
            paths[prefix + f.name] = f
            if f.sec is not None:
                walk(f.sec, prefix + f.name + ".")

    walk(fields, "")
    blocks = []
    for line in out.splitlines():
        if line.startswith(" "):
            c.check(len(blocks) > 0, lambda: f"{q}: {line!r} without a section:\n{out}")
            blocks[-1][1].append(line)
        else:
            blocks.append((line, []))
    seen = set()
    for line, sub in blocks:
        path, colon, rest = line.partition(":")
        c.check(path in paths, lambda: f"{q}: there is no field {path!r}:\n{out}")
        c.check(path not in seen, lambda: f"{q}: {path} is listed twice:\n{out}")
        seen.add(path)
        f = paths[path]
        why = matches(rest, f)
        c.check(why is None, lambda: f"{q}: {line!r}: {why}:\n{out}")
        if not sub:
            c.check(f.sec is None or f.name != q, lambda: f"{q}: the fields of {path} are missing:\n{out}")
            continue
        c.check(f.sec is not None and len(sub) == len(f.sec), lambda: f"{q}: {path} has other fields:\n{out}")
        for x, g in zip(sub, f.sec):
            head, _, rest = x.strip().partition(":")
            why = matches(rest, g)
            c.check(head == g.name and why is None, lambda: f"{q}: {x!r} in {path}, expected {g.name}: {why}:\n{out}")
    for p, f in paths.items():
        c.check(f.name != q or p in seen, lambda: f"{q}: {p} is missing:\n{out}")
    c.outcome = len(blocks)


HARNESSES = [("print", h_print), ("docs", h_docs), ("query", h_query)]
