"""C02: partial configs are completed from declared defaults, and from nothing else."""
import os
import tempfile
from typing import Dict, List, Optional, Tuple, Union

import hyperstate
from hyperstate import StateManager

from mc import gen
from mc.ref import (AnyOf, ERR, MUST, St, Id, args, canon, clone, conv, is_dc, is_opt, matches, opt_inner, origin, ron)

RULE = (
    "every class of the catalogue (all kinds of nesting), every choice of present/absent per field at every depth, an "
    "unknown field at any struct, wrong values at any leaf, up to the deviation budget from the full and from the "
    "minimal config, with and without ignore_extra_fields, through loads, file load and StateManager"
)
BOUND = {"quick": "2 deviations from either base", "thorough": "4 deviations"}
ASSUMPTIONS = ["the reference model of defaulting in mc/ref.py (conv_dc) states the intended meaning"]

DEEP = gen.mk("DEEP", [("k", int), ("m", float, 1.5)])
ALLD = gen.mk("ALLD", [("u", int, 1), ("t", str, "t")])
SEC = gen.mk("SEC", [("r", float), ("a", int, 1), ("b", str, "q")])
NEST = gen.mk("NEST", [("d", DEEP), ("al", ALLD), ("w", int, 6)])
NESTD = gen.mk("NESTD", [("al", ALLD), ("al2", ALLD), ("o", Optional[SEC], None)])
DEF3 = gen.mk("DEF3", [("x", NESTD), ("y", int, 3)])

ROOTS = [
    gen.mk("R1", [("a", int), ("s", SEC), ("b", int, 2), ("o", Optional[SEC], None)]),
    gen.mk("R2", [("n", NEST), ("e", ALLD), ("x", DEF3)]),
    gen.mk("R3", [("l", List[SEC]), ("d", Dict[str, ALLD], {}), ("t", Tuple[SEC, int], (SEC(9.0), 4))]),
    gen.mk("R4", [("o", Optional[NEST]), ("p", Optional[int]), ("u", Union[SEC, ALLD, None], None)]),
    gen.mk("R5", [("s", SEC, SEC(8.0, 7, "z")), ("n", NEST, NEST(DEEP(5, 6.0), ALLD(2, "x"), 0)), ("l", List[int], [1, 2])]),
    gen.mk("R6", [("dd", Dict[str, List[SEC]]), ("ll", List[List[DEEP]], []), ("ol", Optional[List[NEST]], None)]),
]


# field names of other kinds that no class of the catalogue has
ODD = ("_x", "__x", "X", "version", "name", "zz_long", "a1", "self", "cls")


def node(c, t, full, path, depth=0):
    """A written value for type t, deviating from the base at a cost."""
    if is_opt(t):
        if c.dev(path + "?", ("some", "none") if full else ("none", "some")) == "none":
            return None
        return node(c, opt_inner(t), full, path, depth)
    if t is type(None):
        return None
    o = origin(t)
    if o is Union:
        a = c.dev(path + "|", list(args(t)))
        return node(c, a, full, path, depth)
    if o is list:
        n = c.dev(path + "#", (1, 0, 2) if full else (0, 1))
        return [node(c, args(t)[0], full, f"{path}[{i}]", depth + 1) for i in range(n)]
    if o is dict:
        n = c.dev(path + "#", (1, 0, 2) if full else (0, 1))
        return {k: node(c, args(t)[1], full, f"{path}.{k}", depth + 1) for k in ["k1", "k2"][:n]}
    if o is tuple:
        return tuple(node(c, a, full, f"{path}({i})", depth + 1) for i, a in enumerate(args(t)))
    if is_dc(t):
        s = St(t.__name__ if c.dev(path + ".name", (True, False)) or not full else None)
        from mc.ref import default_of

        for n, f in t.__dataclass_fields__.items():
            has, _ = default_of(f)
            present = c.dev(f"{path}.{n}", (True, False) if (full or not (has or is_dc(f.type))) else (False, True))
            if present:
                s.fields[n] = node(c, f.type, full, f"{path}.{n}", depth + 1)
        x = c.dev(path + ".extra", (None, "zz", "sub", "version_", *ODD))
        if x == "zz" or x in ODD:
            s.fields[x] = 1
        elif x == "sub":
            s.fields["sub"] = St(None, {"zz": [1]})
        elif x == "version_":
            s.fields = {"a_": None, **s.fields}
        return s
    if c.dev(path + "!", ("ok", "bad")) == "bad":
        return [9]
    return {int: 11, float: 2.5, str: "w", bool: False}[t]


def judge(c, root, tree, ignore, run, what):
    kind, want = conv(root, tree, ignore)
    try:
        got = run()
        c.op(what)
    except Exception as e:
        c.op(what)
        c.check(kind != MUST, lambda: f"{what} of {ron(tree)} (ignore_extra_fields={ignore}) raised {type(e).__name__}: {e}; expected {canon(want)}")
        c.state((root.__name__, "err", type(e).__name__, ron(tree)))
        c.agreed()
        c.outcome = "error"
        return
    c.check(kind != ERR, lambda: f"{what} of {ron(tree)} (ignore_extra_fields={ignore}) must fail, but gave {canon(got)}")
    c.check(matches(got, want), lambda: f"{what} of {ron(tree)} (ignore_extra_fields={ignore}) gave {canon(got)}, expected {canon(want)}")
    c.state((root.__name__, canon(got)))
    c.outcome = "loaded"
    c.agreed()


def h_partial(c):
    c.set_budget(4 if c.thorough else 2)
    root = c.choose("root", ROOTS)
    full = c.choose("base", (True, False))
    tree = node(c, root, full, root.__name__)
    text = ron(tree)
    c.note(text)
    how = c.choose("how", ("loads", "loads-ignore"))
    if not isinstance(tree, St) or (not tree.fields and not tree.name):
        tree = St(root.__name__, {})
        text = ron(tree)
    ign = how == "loads-ignore"
    judge(c, root, tree, ign, lambda: hyperstate.loads(root, text, ignore_extra_fields=ign), "loads")


def h_file(c):
    c.set_budget(2 if c.thorough else 1)
    root = c.choose("root", ROOTS)
    full = c.choose("base", (True, False))
    tree = node(c, root, full, root.__name__)
    how = c.choose("how", ("load", "manager", "manager-ignore"))
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "config.ron")
        with open(p, "w") as f:
            f.write(ron(tree))
        ign = how == "manager-ignore"
        if how == "load":
            run = lambda: hyperstate.load(root, p)
        else:
            run = lambda: StateManager(root, gen.A, lambda cfg, ctx: gen.A(1), p, ignore_extra_fields=ign).config
        judge(c, root, tree, ign, run, how)


def h_nofile(c):
    """No file at all: everything from defaults (or an error)."""
    root = c.choose("root", ROOTS + [NEST, NESTD, DEF3, ALLD, SEC, gen.E])
    how = c.choose("how", ("load", "loads", "loads-empty", "manager"))
    run = {
        "load": lambda: hyperstate.load(root, None),
        "loads": lambda: hyperstate.loads(root, "{}"),
        "loads-empty": lambda: hyperstate.loads(root, ""),
        "manager": lambda: StateManager(root, gen.A, lambda cfg, ctx: gen.A(1)).config,
    }[how]
    judge(c, root, St(root.__name__, {}), False, run, how)


HARNESSES = [("partial", h_partial), ("file", h_file), ("nofile", h_nofile)]
