"""C01: dump -> load returns an equal object."""
import os
import tempfile
from pathlib import Path
from typing import Dict, List, Literal, Optional, Tuple, Union

import hyperstate
import pyron

from mc import gen
from mc.engine import Skip
from mc.ref import canon, is_dc, same, default_of

RULE = (
    "all type expressions up to the depth bound built from int/float/str/bool/Enum/Literal, Optional, List, Tuple, "
    "Dict[str], Dict[int], Union, nested dataclasses; all values with 0-2 elements per container over the value "
    "alphabets; all strings up to the length bound over 18 awkward characters; every Unicode character; float grid mantissa x exponent x sign; "
    "int boundaries; every subset of fields equal to their default"
)
BOUND = {
    "quick": "type depth 2 (chains of constructors: 4), strings of length 2, containers of up to 130 elements",
    "thorough": "type depth 3 (chains: 5), strings of length 3",
}
ASSUMPTIONS = ["the RON parser (pyron) is trusted for reading the dumped text in the elision check"]


def roundtrip(c, v, via="text", elide=False):
    cls = type(v)
    before = canon(v)
    if via == "text":
        s = hyperstate.dumps(v, elide_defaults=elide)
        c.check(isinstance(s, str), f"dumps returned {type(s)}")
        c.op("dumps")
        got = hyperstate.loads(cls, s)
        c.op("loads")
    else:
        with tempfile.TemporaryDirectory() as d:
            p = os.path.join(d, "config.ron")
            pa = Path(p) if via == "path" else p
            hyperstate.dump(v, pa, elide_defaults=elide)
            c.op("dump")
            with open(p, encoding="utf8") as f:
                s = f.read()
            got = hyperstate.load(cls, pa)
            c.op("load")
    c.check(canon(v) == before, f"dumping modified the object: {before} -> {canon(v)}")
    c.note(s)
    c.check(same(got, v), lambda: f"dumped {canon(v)} as {s!r}, loaded {canon(got)}")
    c.state((cls.__name__, s))
    c.agreed()
    return s


def h_shape(c):
    t = gen.gen_type(c, 3 if c.thorough else 2)
    v = gen.gen_value(c, t)
    R = gen.mk("R", [("f", t)])
    roundtrip(c, R(v))


def h_versioned(c):
    t = gen.gen_type(c, 1)
    v = c.choose("v", gen.few(t))
    inner = gen.versioned("VI", [("a", int), ("b", t)], 2, key=("c01i", gen._tkey(t)))
    where = c.choose("where", ("root", "section", "list", "opt"))
    if where == "root":
        cls = gen.versioned("VR", [("f", t), ("n", int, 1)], 3, key=("c01r", gen._tkey(t)))
        obj = cls(v, 5)
    else:
        ty = {"section": inner, "list": List[inner], "opt": Optional[inner]}[where]
        cls = gen.versioned("VR", [("g", ty), ("f", int, 1)], 3, key=("c01s", where, gen._tkey(t)))
        iv = inner(a=2, b=v)
        obj = cls([iv, inner(a=3, b=v)] if where == "list" else iv, 1)
    elide = c.choose("elide", (False, True))
    via = c.choose("via", ("text", "str"))
    s = roundtrip(c, obj, via, elide)
    d = pyron.loads(s, preserve_class_names=True)
    c.check(d.get("version") == 3, f"version of the root is not recorded: {s}")
    if where != "root":
        g = d["g"][0] if where == "list" else d["g"]
        c.check(g.get("version") == 2, f"version of the nested versioned section is not recorded: {s}")


def h_file(c):
    t = gen.gen_type(c, 1)
    v = gen.gen_value(c, t)
    R = gen.mk("R", [("f", t), ("g", List[int])])
    via = c.choose("via", ("str", "path"))
    roundtrip(c, R(v, [1, 2]), via)


ALPHA = ['"', "'", "\\", "\n", "\r", "\t", "\0", "\x07", "\x7f", "a", "u", "{", "}", "/", "*", "\u0301", "\u2028",
         "0", ".", ":", "@", " "]


def h_strings(c):
    n = c.choose("len", (0, 1, 2, 3) if c.thorough else (0, 1, 2))
    s = "".join(c.choose(f"ch{i}", ALPHA) for i in range(n))
    R = gen.mk("S", [("f", str), ("d", Dict[str, str]), ("t", Tuple[str, str])])
    via = "text" if n > 1 else c.choose("via", ("text", "str"))
    roundtrip(c, R(s, {s: s}, ("x", s + "0.0000000000000000000001.0")), via)


def h_floats(c):
    m = c.choose("m", (1.0, 1.5, 2.2250738585072014, 9.999999999999999, 1.2345678901234567, 4.9, 7.0))
    e = c.choose("e", list(range(-324, 309)) if c.thorough else sorted(set(list(range(-324, 309, 9)) + list(range(-20, 25)))))
    s = c.choose("sign", (1, -1))
    x = s * float(f"{m}e{e}")
    if x in (float("inf"), -float("inf")):
        raise Skip()
    R = gen.mk("F", [("f", float), ("l", List[float]), ("d", Dict[str, float])])
    roundtrip(c, R(x, [x, 1.0, x], {"k": x}))


def h_ints(c):
    k = c.choose("k", 64)
    d = c.choose("d", (-1, 0, 1))
    s = c.choose("s", (1, -1))
    x = s * (2**k + d)
    x = max(-(2**63), min(2**63 - 1, x))
    R = gen.mk("I", [("f", int), ("l", List[int]), ("d", Dict[int, int])])
    roundtrip(c, R(x, [x, 0, x], {x: x}))


SEC = gen.mk("SEC", [("r", float), ("a", int, 1), ("b", str, "q")])
SEC2 = gen.mk("SEC2", [("s", SEC), ("a", int, 1), ("o", Optional[int], None)])


def h_elide(c):
    """Each field takes its default value or another one; only equal ones may be omitted."""
    fields = [
        ("i", int, 3, [3, 4, 0]),
        ("f", float, 0.5, [0.5, 1.0]),
        ("s", str, "d", ["d", "", "d "]),
        ("b", bool, True, [True, False]),
        ("o", Optional[int], None, [None, 0]),
        ("o2", Optional[int], 2, [None, 2, 0]),
        ("l", List[int], [1], [[1], [], [1, 1]]),
        ("m", Dict[str, int], {}, [{}, {"a": 0}]),
        ("e", gen.Color, gen.Color.BLUE, list(gen.Color)),
        ("t", Tuple[int, float], (1, 0.5), [(1, 0.5), (2, 0.5)]),
        ("n", SEC, SEC(r=1.0), [SEC(r=1.0), SEC(a=2, r=1.0), SEC(r=2.0)]),
        ("x", Optional[SEC2], SEC2(s=SEC(r=1.0)), [None, SEC2(s=SEC(r=1.0)), SEC2(s=SEC(r=1.0, b="z"), o=1)]),
        ("u", Union[int, bool, float, str], 1, [1, True, 1.0, "1", 0]),
        ("u2", Optional[Union[bool, int]], True, [True, 1, None]),
        ("lu", List[Union[int, bool]], [1], [[1], [True], [1, 0]]),
        ("du", Dict[str, Union[int, float]], {"a": 1}, [{"a": 1}, {"a": 1.0}, {}]),
        ("li", Literal[1, True, "1"], 1, [1, True, "1"]),
        ("nd", SEC, None, [SEC(r=0.0), SEC(a=0, b="", r=0.0)]),
    ]
    i = c.choose("first", len(fields))
    j = c.choose("second", len(fields))
    if c.thorough:
        k = c.choose("third", len(fields))
    else:
        k = i
    pick = []
    for x in (i, j, k):
        if fields[x] not in pick:
            pick.append(fields[x])
    decl = []
    for n, ty, d, vals in pick:
        decl.append((n, ty) if n == "nd" else (n, ty, d))
    decl.sort(key=lambda f: len(f))
    cls = gen.mk("EL", decl)
    kw = {n: c.choose(n, vals) for n, ty, d, vals in pick}
    obj = cls(**kw)
    elide = c.choose("elide", (True, False))
    s = roundtrip(c, obj, "text", elide)
    tree = pyron.loads(s, preserve_class_names=True)
    walk(c, obj, tree, elide, s)


def walk(c, obj, tree, elide, s):
    c.check(isinstance(tree, dict), f"section recorded as {tree!r} in {s!r}")
    for n, f in type(obj).__dataclass_fields__.items():
        v = getattr(obj, n)
        if n not in tree:
            has, d = default_of(f)
            c.check(elide and has and v == d, f"field {n}={canon(v)} is missing from {s!r}")
        elif is_dc(type(v)):
            walk(c, v, tree[n], elide, s)
    for n in tree:
        c.check(n in type(obj).__dataclass_fields__ or n in ("!__name__", "version"), f"extra field {n} in {s!r}")


def h_two(c):
    """Two fields of different kinds next to each other, in both orders, nested one level."""
    T = [int, str, Optional[gen.A], List[gen.A], Dict[str, gen.A], gen.A, gen.E, Tuple[int, str], gen.Color]
    t1 = c.choose("t1", T)
    t2 = c.choose("t2", T)
    R = gen.mk("P", [("f", t1), ("g", t2)])
    W = gen.mk("W", [("p", R), ("q", R)])
    v = R(c.choose("f", gen.few(t1)), c.choose("g", gen.few(t2)))
    w = W(v, R(c.choose("f2", gen.few(t1)), v.g)) if c.choose("nest", (False, True)) else v
    roundtrip(c, w)


def h_chain(c):
    """Deep types: every chain of constructors."""
    kinds = gen.chain(c, c.choose("depth", (3, 4, 5) if c.thorough else (3, 4)))
    leaf, v = c.choose("leaf", [(int, 5), (str, "it's 'a'"), (float, 1e-20), (gen.Color, gen.Color.BLUE), (gen.LIT, 5)][: None if len(kinds) < 4 or c.thorough else 2])
    R = gen.mk("R", [("f", gen.chain_type(kinds, leaf)), ("g", int, 0)])
    roundtrip(c, R(gen.chain_value(kinds, leaf, v), 1), elide=c.choose("elide", (False, True)))


def h_long(c):
    """Containers of up to 130 elements, long texts."""
    n = c.choose("n", (3, 9, 10, 11, 12, 33, 64, 65, 100, 130))
    t, f = c.choose("t", [(List[int], lambda i: i), (List[str], lambda i: "s%d" % i), (Dict[int, int], None), (Dict[str, float], None), (List[gen.A], lambda i: gen.A(i, "t%d" % i))])
    R = gen.mk("LO", [("f", t), ("s", str)])
    if f:
        v = [f(i) for i in range(n)]
    else:
        v = {i: -i for i in range(n)} if t is Dict[int, int] else {"k%d" % i: i / 8 for i in range(n)}
    roundtrip(c, R(v, "ab 'c' \\ " * n * n), c.choose("via", ("text", "str")))


BLOCK = 2048


def h_unicode(c):
    """Every character there is (but surrogates), alone between hexadecimal digits and in a row."""
    b = c.choose("block", list(range(0, 0x110000, BLOCK)))
    chars = [chr(i) for i in range(b, b + BLOCK) if not 0xD800 <= i < 0xE000]
    if not chars:
        raise Skip()
    how = c.choose("how", ("spaced", "row"))
    R = gen.mk("UN", [("f", str), ("l", List[str])])
    roundtrip(c, R(("a1 " if how == "spaced" else "").join(chars), chars[:: 97]))


HARNESSES = [
    ("unicode", h_unicode),
    ("chain", h_chain),
    ("long", h_long),
    ("shape", h_shape),
    ("versioned", h_versioned),
    ("file", h_file),
    ("strings", h_strings),
    ("floats", h_floats),
    ("ints", h_ints),
    ("elide", h_elide),
    ("two", h_two),
]
