"""C22: the exported config dictionary mirrors the config."""
import os
import tempfile
from typing import Dict, List, Literal, Optional, Tuple, Union

from hyperstate import StateManager

from mc import gen
from mc.engine import Skip
from mc.ref import canon, ron, to_tree

RULE = (
    "every supported field type up to the nesting bound x its values x plain and versioned config classes; every placement of "
    "versioned sections; every sequence of export, export-and-change, assignment, state change and step on a config with "
    "schedules at several places"
)
BOUND = {"quick": "types with 2 constructors, operation sequences up to 4", "thorough": "types with 3 constructors, operation sequences up to 6"}
ASSUMPTIONS = ["configs of the types C01 covers"]

ST = gen.mk("ST", [("step", int, 0)], key="c22")
PLAIN = (dict, list, tuple, int, float, str, bool, type(None))


def export(v):
    """The reference: a plain copy with versions."""
    if hasattr(v, "__dataclass_fields__"):
        d = {"version": type(v).version()} if hasattr(type(v), "version") else {}
        d.update((f, export(getattr(v, f))) for f in v.__dataclass_fields__)
        return d
    if isinstance(v, list):
        return [export(x) for x in v]
    if isinstance(v, tuple):
        return tuple(export(x) for x in v)
    if isinstance(v, dict):
        return {k: export(x) for k, x in v.items()}
    return v.value if hasattr(v, "value") else v


def only_plain(c, d, path="config"):
    c.check(type(d) in PLAIN, lambda: f"{path} is a {type(d).__name__}")
    if isinstance(d, dict):
        for k, x in d.items():
            only_plain(c, k, f"{path} key")
            only_plain(c, x, f"{path}[{k!r}]")
    elif isinstance(d, (list, tuple)):
        for i, x in enumerate(d):
            only_plain(c, x, f"{path}[{i}]")


def wreck(d):
    """Change everything that can be changed in an exported value."""
    if isinstance(d, dict):
        for x in list(d.values()):
            wreck(x)
        for k in list(d):
            d[k] = "wrecked"
        d["extra"] = 1
    elif isinstance(d, list):
        for x in d:
            wreck(x)
        d[:] = ["wrecked"] * (len(d) + 1)
    elif isinstance(d, tuple):
        for x in d:
            wreck(x)


def order(d):
    return [(k, order(v)) for k, v in d.items()] if isinstance(d, dict) else [order(x) for x in d] if isinstance(d, (list, tuple)) else repr(d)


def verify(c, sm, what):
    want = export(sm.config)
    before = canon(sm.config)
    d = sm.config_dict()
    c.op("config_dict")
    only_plain(c, d)
    c.eq(d, want, what)
    c.check(order(d) == order(want), lambda: f"{what}: fields in a different order: {d}")
    wreck(d)
    c.check(canon(sm.config) == before, lambda: f"{what}: changing the exported dictionary changed the config to {canon(sm.config)[:300]}")
    c.eq(sm.config_dict(), want, what + " (second export)")
    return want


def manager(c, cls, text):
    d = tempfile.mkdtemp()
    c.scratch_dirs.append(d)
    p = os.path.join(d, "config.ron")
    with open(p, "w") as f:
        f.write(text)
    return StateManager(cls, ST, lambda cfg, ctx: ST(), p, os.path.join(d, "ckpt") if c.thorough else None)


def h_shapes(c):
    t = gen.gen_type(c, 3 if c.thorough else 2)
    kind = c.choose("class", ("plain", "versioned"))
    fields = [("first", str), ("v", t), ("last", Optional[int], None)]
    cls = gen.mk("Cfg", fields, key="c22") if kind == "plain" else gen.versioned("VCfg", fields, 3, key="c22")
    v = cls("u", c.choose("value", gen.few(t)), c.choose("last", (None, 5)))
    text = ron(to_tree(v))
    try:
        sm = manager(c, cls, text)
        sm.config
    except Exception:
        raise Skip()  # whether it loads is the business of C01 and C03
    verify(c, sm, f"config_dict of {text}")
    c.state((repr(t), kind, canon(v)))
    c.agreed()


SECV = gen.versioned("SecV", [("x", int, 1), ("l", List[int], [1])], 4, key="c22")
DEEPV = gen.versioned("DeepV", [("s", SECV), ("o", Optional[SECV], None)], 2, key="c22")
MIDP = gen.mk("MidP", [("s", SECV), ("y", float, 0.5)], key="c22")
PLACES = {
    "section": (SECV, lambda v: v),
    "optional": (Optional[SECV], lambda v: v),
    "list": (List[SECV], lambda v: [v, v]),
    "dict": (Dict[str, SECV], lambda v: {"a": v, "version": v}),
    "tuple": (Tuple[SECV, int], lambda v: (v, 1)),
    "union": (Union[SECV, gen.A], lambda v: v),
    "list of optional": (List[Optional[SECV]], lambda v: [None, v]),
    "dict of list": (Dict[int, List[SECV]], lambda v: {1: [v], -2: []}),
    "in plain": (MIDP, lambda v: MIDP(v, 2.0)),
    "in versioned": (DEEPV, lambda v: DEEPV(v, v)),
    "in versioned list": (List[DEEPV], lambda v: [DEEPV(v, None)]),
}


def h_versions(c):
    place = c.choose("place", list(PLACES))
    second = c.choose("second", list(PLACES)) if c.thorough else c.choose("second", ["section", "list", "in plain"])
    t, mkv = PLACES[place]
    t2, mkv2 = PLACES[second]
    kind = c.choose("class", ("plain", "versioned"))
    fields = [("a", t), ("b", t2)]
    cls = gen.mk("Cfg2", fields, key="c22") if kind == "plain" else gen.versioned("VCfg2", fields, 0, key="c22")
    v = cls(mkv(SECV(3, [])), mkv2(SECV(-1, [2, 3])))
    sm = manager(c, cls, ron(to_tree(v)))
    want = verify(c, sm, f"versions in {place} and {second}")
    c.eq(want, export(v), "loaded config")
    c.state((place, second, kind))
    c.agreed()


INN = gen.mk("Inn", [("p", float, 1.0), ("q", int, 2)], key="c22s")
SCH = gen.mk("Sch", [("s", INN), ("lr", float, 1.0), ("n", int, 5), ("l", List[float], [1.0]), ("d", Dict[str, INN], {}), ("t", Tuple[float, int], (0.5, 1)), ("o", Optional[INN], None), ("name", str, "x")], key="c22s")
TEXTS = [
    'Sch(lr: "step: 1@0 2@10")',
    'Sch(lr: "step: 1@0 2@10", n: "step: 1@0 step 8@4", s: Inn(p: "step: 1@0 cos 4@8"))',
    'Sch(l: [3.0, "step: 0@0 2@10"], t: ("step: 1@0 2@10", 7), d: {"a.b": Inn(q: "step: 1@0 step 8@4")}, o: Inn(p: "step: 1@0 3@10"))',
    "Sch(d: {'k': Inn(p: 2.0)}, o: Inn())".replace("'", '"'),
]
OPS = ("export", "step4", "step9", "assign name", "assign lr", "assign section", "append", "read state")


def h_ops(c):
    i = c.choose("text", range(len(TEXTS)))
    sm = manager(c, SCH, TEXTS[i])
    n = c.choose("n", range(1, (6 if c.thorough else 4) + 1))
    for k in range(n):
        op = c.choose(f"op{k}", OPS)
        if op == "export":
            verify(c, sm, f"after {k} operations on {TEXTS[i]}")
        elif op.startswith("step"):
            sm.state.step = int(op[4:])
            sm.step()
        elif op == "assign name":
            sm.config.name = f"n{k}"
        elif op == "assign lr":
            sm.config.lr = -1.0 - k
        elif op == "assign section":
            sm.config.s = INN(9.0 + k, k)
        elif op == "append":
            sm.config.l.append(7.0)
            sm.config.d["new"] = INN(0.25, k)
        else:
            sm.state
        c.op(op)
    verify(c, sm, f"at the end, {TEXTS[i]}")
    c.state((i, canon(sm.config)))
    c.agreed()


HARNESSES = [("shapes", h_shapes), ("versions", h_versions), ("ops", h_ops)]
