"""C04: overrides change exactly the fields they name."""
import os
import tempfile
from typing import Dict, List, Literal, Optional, Tuple, Union

import hyperstate
from hyperstate import StateManager
from hyperstate.schema.rewrite_rule import AddDefault, ChangeDefault, DeleteField, MapFieldValue, RenameField

from mc import gen
from mc.ref import ERR, MAY, MUST, Braces, Id, St, args, canon, clone, conv, default_of, is_dc, is_opt, matches, opt_inner, origin, ron, to_tree

RULE = (
    "every list of overrides (up to the bound) over every path of every catalogue class x value texts that fit or do not "
    "fit, on every base file (none, minimal, partial, full, null sections), through loads, load and StateManager; "
    "versioned classes with every combination of recorded versions; malformed and unknown paths in every position"
)
BOUND = {"quick": "override lists of length <= 2", "thorough": "override lists of length <= 3"}
ASSUMPTIONS = [
    "text fields take the raw text, bool fields true/True/t/T/1 and false/False/f/F/0, all other fields a RON value",
    "replacing a whole section drops the earlier overrides inside it",
]

DEEP = gen.mk("DEEP", [("k", int), ("m", float, 1.5)])
SEC = gen.mk("SEC", [("d", DEEP), ("r", float, 0.5), ("b", str, "q"), ("t", bool, False)])
REQ = gen.mk("REQ", [("k", int), ("w", str, "w")])
R1 = gen.mk("R1", [("a", int), ("s", SEC), ("o", Optional[SEC], None), ("on", Optional[int], 4)])
R2 = gen.mk("R2", [
    ("name", str, "n"), ("lr", float, 0.1), ("flag", bool, True), ("os", Optional[str], None), ("c", gen.Color, gen.Color.RED),
    ("lit", Literal["x", "y", 5], "x"), ("l", List[int], [1]), ("t", Tuple[int, float], (1, 2.0)), ("d", Dict[str, int], {"k": 1}),
    ("u", Union[gen.A, gen.B], gen.A(1)), ("ls", List[str], []), ("la", List[gen.A], []),
])
R3 = gen.mk("R3", [("q", REQ), ("s", SEC, SEC(DEEP(7, 8.0), 9.0, "z", True)), ("p", DEEP, DEEP(1, 2.0)), ("o", Optional[REQ], REQ(3, "v"))])
ROOTS = [R1, R2, R3]

# texts and the value they denote (None in the second place: must be an error for this type)
BAD = object()
VALS = {
    "int": [("3", 3), ("4.0", 4.0), ("1.5", BAD), ("zz", BAD)],
    "float": [("0.25", 0.25), ("2", 2), ("-1e-3", -1e-3), ("q", BAD)],
    "str": [("plain", "plain"), ("a=b", "a=b"), ("", ""), ("5", "5"), ('"q"', '"q"'), ("  a b ", "  a b "), ("\tx\n", "\tx\n"), ("it's [x", "it's [x")],
    "bool": [("true", True), ("F", False), ("1", True), ("0", False), ("T", True), ("false", False), ("maybe", BAD), ("", BAD), ("2", BAD)],
    "oint": [("7", 7), ("None", None), ("x", BAD)],
    "ostr": [('"z"', "z"), ("None", None), ("word", "word")],
    "Color": [('"Blue"', "Blue"), ('"GREEN"', "GREEN"), ('"pink"', BAD), ("3", BAD)],
    "lit": [("y", "y"), ('"x"', "x"), ("5", 5), ("zz", BAD), ("6", BAD)],
    "lint": [("[4, 5]", [4, 5]), ("[]", []), ("[1, x]", BAD), ("3", BAD)],
    "tup": [("(3, 4)", (3, 4)), ("(3, 4.5)", (3, 4.5)), ("(1, 2, 3)", BAD), ("[1, 2]", BAD)],
    "dict": [('{"a": 2}', {"a": 2}), ("{}", {}), ('{"a": "b"}', BAD)],
    "u": [("B(x: 3)", St("B", {"x": 3})), ('A(x: 1, s: "t")', St("A", {"x": 1, "s": "t"})), ("C(x: 1)", BAD), ("3", BAD)],
    "lstr": [("[a, b]", ["a", "b"]), ('["c d"]', ["c d"])],
    "la": [("[A(x: 1), (x: 2)]", [St("A", {"x": 1}), St(None, {"x": 2})]), ("[B(z: 1)]", BAD)],
    "SEC": [('SEC(r: 4.0, d: (k: 5))', St("SEC", {"r": 4.0, "d": St(None, {"k": 5})})), ('(d: DEEP(k: 6, m: 7), t: true)', St(None, {"d": St("DEEP", {"k": 6, "m": 7}), "t": True})), ("(zz: 1)", BAD), ("4", BAD)],
    "oSEC": [('SEC(r: 4.0, d: (k: 5))', St("SEC", {"r": 4.0, "d": St(None, {"k": 5})})), ("None", None)],
    "DEEP": [("DEEP(k: 8)", St("DEEP", {"k": 8})), ("(m: 1.0, k: 2)", St(None, {"m": 1.0, "k": 2})), ('(zk: 1)', BAD)],
    "REQ": [("(k: 1)", St(None, {"k": 1}))],
    "oREQ": [("(k: 1)", St(None, {"k": 1})), ("None", None)],
}


def vkey(t):
    if is_opt(t):
        i = opt_inner(t)
        return "o" + (i.__name__)
    if origin(t) is list:
        a = args(t)[0]
        return "l" + a.__name__ if a is not gen.A else "la"
    if origin(t) is tuple:
        return "tup"
    if origin(t) is dict:
        return "dict"
    if origin(t) is Union:
        return "u"
    if origin(t) is Literal:
        return "lit"
    return t.__name__


def paths(t, pre=()):
    out = []
    for n, f in t.__dataclass_fields__.items():
        out.append((pre + (n,), f.type))
        ft = opt_inner(f.type) if is_opt(f.type) else f.type
        if is_dc(ft):
            out += paths(ft, pre + (n,))
    return out


def tset(tree, t, path, val):
    """The reference semantics of one override on a written config (in place)."""
    f = t.__dataclass_fields__[path[0]]
    if len(path) == 1:
        tree.fields[path[0]] = val
        return
    ft = opt_inner(f.type) if is_opt(f.type) else f.type
    sub = tree.fields.get(path[0])
    if sub is None:
        has, d = default_of(f)
        sub = to_tree(d) if has and d is not None else St()
        tree.fields[path[0]] = sub
    if isinstance(sub, St):
        tset(sub, ft, path[1:], val)
    else:
        raise TypeError  # a value that is not a section: loading fails anyway


def apply_model(root, tree, ovs):
    """(kind, value) that loading ``tree`` with the overrides must give."""
    tree = clone(tree)
    for path, _, val in ovs:
        try:
            tset(tree, root, path, BADNODE if val is BAD else clone(val))
        except TypeError:
            return ERR, None
    kind, want = conv(root, tree)
    if kind == MUST and any(val is BAD for _, _, val in ovs):
        kind = MAY  # a later override replaced the bad value: loading or failing are both fine
    return kind, want


BADNODE = Id("!")  # conforms to nothing (text fields take no Id value here)


def bases(root):
    if root is R1:
        return [
            St("R1", {"a": 1, "s": St("SEC", {"d": St("DEEP", {"k": 2})})}),
            St("R1", {}),
            St(None, {"a": 1, "s": St(None, {"r": 3.0, "b": "f", "d": St(None, {"k": 2, "m": 4.0}), "t": True}),
                      "o": St("SEC", {"d": St("DEEP", {"k": 9})}), "on": None}),
            St("R1", {"a": 5, "o": None, "s": St("SEC", {"t": True})}),
        ]
    if root is R2:
        return [St("R2", {}), St("R2", {"name": "f", "lr": 3, "flag": False, "os": "o", "l": [7, 8], "u": St("B", {"x": 1}), "d": {}})]
    return [
        St("R3", {"q": St("REQ", {"k": 1})}),
        St("R3", {}),
        St("R3", {"s": Braces(), "q": Braces(None, {"k": 1})}),
        St("R3", {"p": Braces(), "q": St("REQ", {"k": 1})}),
        St("R3", {"o": Braces(), "q": St("REQ", {"k": 1})}),
        St("R3", {"s": St("SEC", {"d": St("DEEP", {"k": 2})}), "p": St("DEEP", {"k": 3}), "o": None, "q": St("REQ", {"k": 1, "w": "x"})}),
    ]


def judge(c, root, tree, ovs, run):
    kind, want = apply_model(root, tree, ovs)
    texts = [f"{'.'.join(p)}={s}" for p, s, _ in ovs]
    c.note(f"{ron(tree)} {texts}")
    given = list(texts)
    try:
        got = run(given)
    except Exception as e:
        c.op()
        c.check(kind != MUST, lambda: f"{ron(tree)} with overrides {texts} raised {type(e).__name__}: {e}; expected {canon(want)}")
        c.state((root.__name__, "err", tuple(texts)))
        c.outcome = "error"
        c.agreed()
        return
    c.op()
    c.check(kind != ERR, lambda: f"{ron(tree)} with overrides {texts} must fail, but gave {canon(got)}")
    c.check(matches(got, want), lambda: f"{ron(tree)} with overrides {texts} gave {canon(got)}, expected {canon(want)}")
    c.check(given == texts, "the caller's list of overrides was changed")
    c.state((root.__name__, canon(got)))
    c.outcome = "loaded"
    c.agreed()


def pick_override(c, root, i, nvals=99):
    path, t = c.choose(f"path{i}", paths(root))
    vs = VALS[vkey(t)][:nvals]
    if 1 < nvals < 99 and len(VALS[vkey(t)]) > nvals:
        vs = vs[: nvals - 1] + VALS[vkey(t)][-1:]
    text, val = c.choose(f"val{i}", vs)
    return path, text, val


def h_single(c):
    root = c.choose("root", ROOTS)
    tree = c.choose("base", bases(root))
    how = c.choose("how", ("loads", "load", "manager"))
    ov = pick_override(c, root, 0)
    via(c, root, tree, [ov], how)


def via(c, root, tree, ovs, how):
    if how == "loads":
        return judge(c, root, tree, ovs, lambda o: hyperstate.loads(root, ron(tree), overrides=o))
    with tempfile.TemporaryDirectory() as d:
        p = None
        if tree.fields:
            p = os.path.join(d, "c.ron")
            with open(p, "w") as f:
                f.write(ron(tree))
        if how == "load":
            judge(c, root, tree, ovs, lambda o: hyperstate.load(root, p, overrides=o))
        else:
            judge(c, root, tree, ovs, lambda o: StateManager(root, gen.A, lambda cfg, ctx: gen.A(1), p, overrides=o).config)


def h_pairs(c):
    root = c.choose("root", ROOTS)
    tree = c.choose("base", bases(root) if c.thorough else bases(root)[:2] + bases(root)[-1:])
    n = 4 if c.thorough else 2
    ovs = [pick_override(c, root, i, n) for i in range(2)]
    via(c, root, tree, ovs, "loads")


def h_triples(c):
    if not c.thorough:
        root, n = R3, 1
        tree = c.choose("base", bases(root)[:2])
    else:
        root, n = c.choose("root", (R1, R3)), 2
        tree = c.choose("base", bases(root))
    ovs = [pick_override(c, root, i, n) for i in range(3)]
    via(c, root, tree, ovs, "loads")


BADPATHS = ["zz=1", "s.zz=1", "a.b=1", "l.0=1", "d.k=1", "=1", "s.=1", ".a=1", "version=1", "s.d.zz=3", "s.d.k.z=3", "o.zz=1", "a..=1", " a=1",
            "S=1", "s.D.k=1", "a", "", "s.d", "zz", "s.d.k:3"]


def h_bad(c):
    """Malformed or unknown overrides, alone or among good ones, always raise."""
    root = c.choose("root", ROOTS)
    trees = bases(root)
    tree = c.choose("base", trees)
    bad = c.choose("bad", BADPATHS)
    good = c.choose("good", (None, 0, 1))
    pos = c.choose("pos", (0, 1) if good is not None else (0,))
    second = c.choose("second", (None, "zz=1", "s.zz=1", "zy.x=3") if c.thorough or tree is trees[0] else (None,))
    valid = {".".join(p) for p, _ in paths(root)}
    key = bad.split("=")[0]
    texts = [bad] if second is None else [bad, second]
    if good is not None:
        p, t = paths(root)[good]
        texts.insert(pos, f"{'.'.join(p)}={VALS[vkey(t)][0][0]}")
    if "=" in bad and key in valid and second is None:
        c.agreed()
        return
    c.note(texts)
    try:
        got = hyperstate.loads(root, ron(tree), overrides=list(texts))
    except Exception:
        c.op()
        c.agreed()
        c.state((root.__name__, tuple(texts)))
        c.outcome = "error"
        return
    c.fail(f"{ron(tree)} with overrides {texts} must raise, but gave {canon(got)}")


# -- files written by older versions --------------------------------------------
def m_inner(tree, v):
    """Migration of VIN written out by hand."""
    t = clone(tree)
    f = t.fields
    if v < 1 and "old_k" in f:
        f["k"] = f.pop("old_k")
    if v < 2:
        if "n" in f:
            f["n"] = f["n"] * 10
        f.setdefault("m", 7)
    return t


def m_outer(tree, v):
    t = clone(tree)
    f = t.fields
    if v < 1:
        if "alpha" in f:
            f["a"] = f.pop("alpha")
        f.setdefault("z", 1)
        sec = f.get("sec")
        if isinstance(sec, St) and "p0" in sec.fields:
            sec.fields["p"] = sec.fields.pop("p0")
    if v < 2:
        f.pop("gone", None)
        if isinstance(f.get("sec"), St):
            f["sec"].fields.setdefault("q", 5)
        elif "sec" not in f:
            f["sec"] = St(None, {"q": 5})
        if "n" in f:
            f["n"] = [f["n"]]
    return t


VIN = gen.versioned("VIN", [("k", int, 1), ("n", int, 2), ("m", int, 3)], 2, {
    0: [RenameField(("old_k",), ("k",))],
    1: [MapFieldValue(("n",), lambda x: x * 10), ChangeDefault(("m",), 7, 3)],
}, key="c04")
SECV = gen.mk("SECV", [("p", int, 1), ("q", int, 9)])
VOUT = gen.versioned("VOUT", [("z", int), ("sec", SECV), ("vin", VIN), ("a", int, 1), ("n", List[int], [0]), ("ovin", Optional[VIN], None),
                              ("dvin", VIN, VIN(4, 5, 6))], 2, {
    0: [RenameField(("alpha",), ("a",)), AddDefault(("z",), 1), RenameField(("sec", "p0"), ("sec", "p"))],
    1: [DeleteField(("gone",)), ChangeDefault(("sec", "q"), 5, 9), MapFieldValue(("n",), lambda x: [x])],
}, key="c04")

OUT_TREES = {
    0: [St("VOUT", {"version": 0, "alpha": 11, "gone": 1, "n": 3, "sec": St("SECV", {"p0": 2})}), St("VOUT", {"version": 0})],
    1: [St("VOUT", {"version": 1, "a": 11, "z": 4, "n": 3, "gone": 2}), St("VOUT", {"version": 1, "z": 4, "sec": St("SECV", {"p": 2, "q": 3})})],
    2: [St("VOUT", {"version": 2, "a": 11, "z": 4, "n": [3, 4], "sec": St("SECV", {"q": 3})})],
}
IN_TREES = [
    (None, None),
    (0, St("VIN", {"version": 0, "old_k": 21, "n": 5})),
    (1, St("VIN", {"version": 1, "k": 21, "n": 5})),
    (2, St("VIN", {"version": 2, "k": 21, "n": 5})),
]
VPATHS = [("a",), ("z",), ("n",), ("sec", "p"), ("sec", "q"), ("vin", "k"), ("vin", "n"), ("vin", "m"), ("ovin", "k"), ("ovin", "m"), ("dvin", "k"), ("dvin", "n")]


def h_versioned(c):
    v = c.choose("v", (0, 1, 2))
    tree = clone(c.choose("tree", OUT_TREES[v]))
    want_tree = m_outer(tree, v)
    for name in ("vin", "ovin", "dvin") if c.thorough else ("vin", "ovin"):
        iv, it = c.choose(name, IN_TREES)
        if it is not None:
            tree.fields[name] = clone(it)
            want_tree.fields[name] = m_inner(it, iv)
    n = c.choose("n", (0, 1, 2, 3) if c.thorough else (0, 1, 2))
    ovs = []
    for i in range(n):
        p = c.choose(f"p{i}", VPATHS if i < 2 else VPATHS[4:8])
        ovs.append((p, "[8, 9]" if p == ("n",) else str(100 + i), [8, 9] if p == ("n",) else 100 + i))
    want_tree.fields.pop("version", None)
    for p, _, val in ovs:
        tset(want_tree, VOUT, p, val)
    kind, want = conv(VOUT, want_tree)
    texts = [f"{'.'.join(p)}={s}" for p, s, _ in ovs]
    c.note(f"{ron(tree)} {texts}")
    c.check(kind == MUST, f"model: {ron(want_tree)} does not load")
    got = hyperstate.loads(VOUT, ron(tree), overrides=texts)
    c.op()
    c.eq(got, want, f"{ron(tree)} with {texts}")
    c.state(canon(got))
    c.agreed()


# -- schedules and resumed runs --------------------------------------------------
ST = gen.mk("ST", [("step", int, 0)])
SCH = gen.mk("SCH", [("s", gen.mk("SUB", [("m", float, 3.0), ("k", int, 4)])), ("lr", float, 1.0), ("n", int, 2)])
SCHED = ["lin: 1@0 5@4", None, "step: 2@0 6@2"]


def h_resume(c):
    """Overrides on a resumed checkpoint replace values and schedules, and nothing else."""
    lr = c.choose("lr", ('"step: lin 1.0@0 5.0@4"', "0.5"))
    m = c.choose("m", ('"step: lin 2.0@0 6.0@4"', "0.25"))
    ov = c.choose("ov", ([], ["lr=9"], ["s.m=8.5"], ['lr="step: 10@0 20@10"'], ["n=7", "lr=9"], ["s.k=3", "s.m=1", "s.m=2"], ["s=(m: 4.0)"]))
    steps = c.choose("steps", (0, 1, 3))
    more = c.choose("more", (0, 1))
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "c.ron")
        with open(p, "w") as f:
            f.write(f"SCH(lr: {lr}, s: (m: {m}))")
        ck = os.path.join(d, "ck")

        def mgr(ovs=None):
            return StateManager(SCH, ST, lambda cfg, ctx: ST(), p, ck, overrides=ovs)

        sm = mgr()
        for i in range(steps):
            sm.state.step += 1
            sm.step()
            c.op()
        sm2 = mgr(list(ov))
        step = sm2.state.step
        c.eq(step, steps, "state after resume")
        for _ in range(more):
            sm2.state.step += 1
            sm2.step()
            c.op()
        x = steps + more
        want = {
            "lr": (1.0 + 4.0 * x / 4 if "@" in lr else 0.5),
            "m": (2.0 + 4.0 * x / 4 if "@" in m else 0.25),
            "n": 2, "k": 4,
        }
        for o in ov:
            k, v = o.split("=", 1)
            if k == "s":
                want["m"], want["k"] = 4.0, 4
            elif "@" in v:
                want["lr"] = 10.0 + x
            elif k in ("lr", "s.m"):
                want[k[-1:] if k != "lr" else "lr"] = float(v)
            else:
                want[k[-1:]] = int(v)
        cfg = sm2.config
        got = {"lr": cfg.lr, "m": cfg.s.m, "n": cfg.n, "k": cfg.s.k}
        c.eq(got, want, f"config after resuming at step {steps} with {ov} and {more} more steps")
        c.state(repr((got, steps, more)))
        c.agreed()


HARNESSES = [("single", h_single), ("pairs", h_pairs), ("triples", h_triples), ("bad", h_bad), ("versioned", h_versioned), ("resume", h_resume)]
