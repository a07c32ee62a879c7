"""C03: whatever is written, a loaded config has the declared types."""
from typing import Dict, List, Literal, Optional, Tuple, Union

import hyperstate

from mc import gen
from mc.ref import ERR, MUST, Id, Raw, St, canon, conforms, conv, matches, ron
from mc.engine import Skip

RULE = "every (declared type, written value) pair of the two grammars, well-typed or not"
BOUND = {"quick": "types with <= 2 constructors (chains: 4), written values with <= 2 levels", "thorough": "types with <= 3 constructors (chains: 5), written values with <= 3 levels"}
ASSUMPTIONS = [
    "a bool is an int (as in Python); both answers are accepted where a bool is written for a number",
    "integers beyond 64 bits in a text are not part of the alphabet (the RON parser itself turns them into floats)",
]

SCALARS = [
    0, 1, -3, 2**53 + 1, 1.0, 1.5, -2.0, 1e300, "1", "1.5", "-7", "1e3", "9007199254740993", "abc", "", "nan", "inf", "1 2",
    "red", "RED", "x", "True", "None", True, False, None, Id("x"), Id("RED"), Id("A"), Id("E"), 5, 5.0, "5",
    Raw("1e400", float("inf")), 2.0000000000000004, 0.9999999999999999, 5e-324, "2.0000000000000004", 1e15 + 0.5, "1e-9", "1,5", "0x10", "1k", "#1",
]
FEW = [1, 1.5, "1", "abc", True, None, Id("A")]


def small_structs():
    return [
        St(None, {}), St("A", {}), St("A", {"x": 1}), St("A", {"x": 1, "s": "k"}), St(None, {"x": 1}), St(None, {"x": 1.5}), St("B", {"x": 2}),
        St("A", {"x": "no"}), St("A", {"x": None}), St("B", {"x": 1, "y": 3}), St("E", {}), St("Zed", {"x": 1}),
        St("A", {"x": 1, "s": 4}), St("A", {"x": [1]}), St("A", {"s": "k"}),
    ]


def node(c, depth, label="n"):
    kinds = ["scalar", "struct"] + (["list", "tuple", "dict", "idict", "sect"] if depth > 0 else [])
    k = c.choose(label, kinds)
    if k == "scalar":
        return c.choose(label + ".v", SCALARS)
    if k == "struct":
        return c.choose(label + ".s", small_structs())
    if k == "sect":
        return St("N", {"v": node(c, depth - 1, label + ".v"), "w": c.choose(label + ".w", (1, "2", "q"))})
    inner = node(c, depth - 1, label + "/")
    if k == "list":
        return c.choose(label + "#", ([], [inner], [inner, 1], ["x", inner]))
    if k == "tuple":
        return c.choose(label + "#", ((inner,), (inner, 1), (inner, "q"), (inner, 2, 3), (1, inner)))
    if k == "dict":
        return c.choose(label + "#", ({}, {"k": inner}, {"k": inner, "j": 1}))
    if k == "idict":
        return {0: inner, "7": 1} if c.choose(label + "#", (False, True)) else {0: inner}


def judge(c, t, n):
    R = gen.mk("R", [("f", t)])
    text = f"R(f: {ron(n)})"
    kind, want = conv(t, n)
    c.note(f"{t} <- {text}")
    try:
        got = hyperstate.loads(R, text)
    except Exception as e:
        c.op()
        c.check(kind != MUST, lambda: f"{text} as {t} raised {type(e).__name__}: {e}; expected {canon(want)}")
        c.outcome = "error"
        c.state(("err", str(t), ron(n)))
        c.agreed()
        return
    c.op()
    c.check(type(got) is R, f"loaded a {type(got)}")
    c.check(conforms(t, got.f), lambda: f"{text} as {t} loaded {canon(got.f)}, which is not a {t}")
    c.check(kind != ERR, lambda: f"{text} as {t} must fail, but loaded {canon(got.f)}")
    if want is not None or kind == MUST:
        c.check(matches(got.f, want), lambda: f"{text} as {t} loaded {canon(got.f)}, expected {canon(want)}")
    c.outcome = "loaded"
    c.state(("ok", str(t), canon(got.f)))
    c.agreed()


def h_pairs(c):
    d = c.choose("d", ((1, 1), (2, 1), (1, 2), (2, 2)) if c.thorough else ((1, 1),))
    t = gen.gen_type(c, d[0])
    n = node(c, d[1])
    judge(c, t, n)


def h_deep(c):
    """Types with two constructors against values of the matching outer shape."""
    t = gen.gen_type(c, 2)
    n = c.choose("n", SCALARS + small_structs())
    w = c.choose("w", ("raw", "list", "tuple", "dict", "idict", "dc", "ll", "dl", "ld", "dcl"))
    m = {
        "raw": n, "list": [n, n], "tuple": (n, 1), "dict": {"k": n}, "idict": {3: n}, "dc": St("N", {"v": n, "w": 1}),
        "ll": [[n]], "dl": {"a": [n]}, "ld": [{"b": n}], "dcl": St("N", {"v": [n], "w": 1}),
    }[w]
    judge(c, t, m)


TUPLES = [Tuple[int], Tuple[int, int], Tuple[int, str, float], Tuple[List[int], Tuple[int, int]], Optional[Tuple[float, float]],
          List[Tuple[int, int]], Dict[str, Tuple[int, gen.A]]]


def h_tuples(c):
    t = c.choose("t", TUPLES)
    n = c.choose("len", 5)
    els = [c.choose(f"e{i}", (1, "s", 0.5, [1], (1, 2)) if n <= 3 else (1, "s")) for i in range(n)]
    v = tuple(els) if n else ()
    w = c.choose("w", ("raw", "list", "dict", "aslist"))
    if not v:
        raise Skip()  # `()` is not a tuple in RON
    judge(c, t, {"raw": v, "list": [v], "dict": {"k": v}, "aslist": list(v)}[w])


LITS = [Literal["x"], Literal["x", "y"], Literal[5], Literal[1, 2, "z"], Optional[Literal["x", 5]], List[Literal["a", "b"]],
        Literal[True, "x"], Literal[False], Literal[0], Literal[True, 5, 0], Dict[str, Literal[1, "x"]], Dict[Literal["x", 5], int]]


def h_literals(c):
    t = c.choose("t", LITS)
    v = c.choose("v", ["x", "y", "z", "a", 5, 1, 2, 0, 5.0, 1.0, 0.0, 1.5, True, False, None, "5", ["a"], ["a", "c"], [], Id("x"), St("x", {"k": 1}), ("x",), {"x": 1}, {"k": 1}, {"k": True}, {5: 1}])
    judge(c, t, v)


def h_unions(c):
    """Unions of scalars, in every order of their members."""
    import itertools

    prim = (bool, int, float, str, type(None), gen.A, gen.Color) if c.thorough else (bool, int, float, str, gen.A)
    arms = c.choose("arms", [p for n in (2, 3) for p in itertools.permutations(prim, n)])
    t = Union[arms]
    v = c.choose("v", SCALARS + [St("A", {"x": 1}), St(None, {"x": 1}), [1], {"k": 1}, (1, 2)])
    w = c.choose("w", ("raw", "list", "dict", "optional"))
    if w == "optional":
        t = Optional[t]
    t = {"raw": t, "list": List[t], "dict": Dict[str, t], "optional": t}[w]
    judge(c, t, {"raw": v, "list": [v, v], "dict": {"k": v}, "optional": v}[w])


def h_chain(c):
    """Deep types with a leaf that fits, can be converted, or is wrong, in the last place."""
    kinds = gen.chain(c, c.choose("depth", (3, 4, 5) if c.thorough else (3, 4)))
    leaf = c.choose("leaf", (int, float, str, gen.Color) if len(kinds) < 4 else (int, str))
    v = c.choose("v", (1, 1.5, "1.5", "x", None, [1], Id("x"), St("A", {"x": 1})) if len(kinds) < 4 else (1, 1.0, 1.5, "x", None))
    good = {int: 5, float: 2.5, str: "s", gen.Color: "red"}[leaf]
    where = c.choose("where", ("all", "last"))

    def tree(i, x):
        if i == len(kinds):
            return x
        k, sub = kinds[i], tree(i + 1, x)
        oth = sub if where == "all" else tree(i + 1, good)
        return {"list": [oth, sub], "opt": sub, "dict": {"a": oth, "b": sub}, "idict": {1: oth, 2: sub}, "tuple": (sub, 3), "dc": St("CH", {"v": sub})}[k]

    judge(c, gen.chain_type(kinds, leaf), tree(0, v))


HARNESSES = [("unions", h_unions), ("chain", h_chain), ("pairs", h_pairs), ("deep", h_deep), ("tuples", h_tuples), ("literals", h_literals)]
