"""C08: what the schema checker calls compatible never breaks an old config."""
import hyperstate
from hyperstate.schema.rewrite_rule import AddDefault, ChangeDefault, DeleteField, RenameField
from hyperstate.schema.schema_checker import SchemaChecker
from hyperstate.schema.schema_change import Severity
from hyperstate.schema.types import materialize_type

from mc import schemas as S
from mc.checks import c09
from mc.engine import Skip

RULE = (
    "every edit and pair of edits of C09 that the checker calls compatible, alone or after each combination of the class's own "
    "upgrade rules: every old config over the value alphabet (every field absent or given, every section given, empty, None or "
    "absent) is loaded by the old and by the new class and compared"
)
BOUND = {
    "quick": "one edit at 13 positions (type changes over all pairs of 34 types at 2 positions), pairs of edits on 3 types at 2 positions, up to 2 rules out of 19 with 17 edits",
    "thorough": "type changes over all pairs of types at every position, pairs of edits on 9 types at 5 positions, up to 3 rules",
}
ASSUMPTIONS = [
    "old configs over the alphabet of two or three values per type; numbers compare by value (an int read as float)",
    "the class's own rules do not reach into optional sections and do not move fields into or out of lists",
    "dict, tuple and union fields with sections inside are opaque to the checker",
]


def loadall(c, old_fields, old_cls, new_cls, what, renames=(), skip=()):
    """Every old config under both classes; shared fields must read the same."""
    for tree in S.configs(old_fields):
        text = S.text(tree, 0)
        old = S.plain(hyperstate.loads(old_cls, text))
        try:
            new = S.plain(hyperstate.loads(new_cls, text))
        except Exception as e:
            c.fail(f"{what} is called compatible, but {text} raises {type(e).__name__}: {e}")
        c.op("load")
        for p, q in renames:
            if p[0] in old and q[0] not in old:
                old[q[0]] = old.pop(p[0])
        for k in skip:
            old.pop(k, None)
        c.check(S.equal(old, new), lambda: f"{what} is called compatible, but {text} reads {old} before and {new} after")


def judge(c, old_fields, new_fields, what, how="class"):
    old_cls, new_cls = S.build(old_fields), S.build(new_fields, 1)
    checker = c09.compare(c, old_cls, new_cls, how)
    c.agreed()
    if checker.severity() != Severity.INFO:
        c.outcome = "incompatible"
        return
    c.outcome = "compatible"
    loadall(c, old_fields, old_cls, new_cls, what)
    c.state((repr(old_fields), repr(new_fields)))


def h_edit(c):
    pos = c.choose("position", S.POSITIONS)
    t = c.choose("type", S.TYPES)
    d = c.choose("default", (S.NO, S.default_for(t), S.default_for(t, True)))
    f = ("rate", t, d)
    full = c.thorough or pos in ("top", "opt")
    e = S.edit(c, "edit", f, types=S.TYPES if full else S.TYPES[:5], addtypes=S.TYPES if full else [S.INT, S.opt(S.E1), S.lst(S.INT)])
    old, _, _ = S.place(pos, [f])
    new, _, _ = S.place(pos, e.fields)
    judge(c, old, new, f"{pos}: {f} became {e.fields}", "file" if c.thorough else "class")


def h_pairs(c):
    where = c.choose("where", ("top", "sec", "opt", "list", "apart") if c.thorough else ("top", "apart"))
    ts = c09.PT if c.thorough else c09.PT[:3]
    t1 = c.choose("type1", ts)
    d1 = c.choose("default1", (S.NO, S.default_for(t1)))
    t2 = c.choose("type2", ts)
    d2 = c.choose("default2", (S.NO, S.default_for(t2, True)))
    f1, f2 = ("rate", t1, d1), ("color", t2, d2)
    few = c09.PT[:2]
    e1 = S.edit(c, "edit1", f1, types=few, addtypes=few)
    e2 = S.edit(c, "edit2", f2, types=few, addtypes=few)
    if "break" in (e1.severity, e2.severity) and not c.thorough:
        raise Skip()  # C09 shows that these are not called compatible
    if where == "apart":
        o1, _, _ = S.place("sec", [f1])
        n1, _, _ = S.place("sec", e1.fields)
        old, new = o1 + (f2,), n1 + tuple(e2.fields)
    else:
        old, _, _ = S.place(where, [f1, f2])
        new, _, _ = S.place(where, e1.fields + e2.fields)
    judge(c, old, new, f"{where}: {f1} became {e1.fields} and {f2} became {e2.fields}")


def contexts(c, old, new):
    """Fields inside a section, optional or list."""
    ctx = c.choose("context", ("top", "sec", "opt", "list"))
    k = ("k", S.INT, S.NO)
    if ctx == "top":
        return ctx, (k,) + tuple(old), (k,) + tuple(new)
    w = {"sec": lambda t: t, "opt": S.opt, "list": S.lst}[ctx]
    return (
        ctx,
        (k, ("c", w(S.sec("C", ("w", S.INT, S.NO), *old)), S.NO)),
        (k, ("c", w(S.sec("C", ("w", S.INT, S.NO), *new)), S.NO)),
    )


# (the section before, the section after) over sections of all kinds
A = ("x", S.INT, S.NO)
B = ("x", S.INT, 1)
KINDS = [
    [],
    [("s", S.sec("S"), S.NO)],
    [("s", S.sec("S", A), S.NO)],
    [("s", S.sec("S", B), S.NO)],
    [("s", S.sec("S", ("x", S.INT, 2)), S.NO)],
    [("s", S.sec("S", B), ("inst", ()))],
    [("s", S.sec("S", B), ("inst", (("x", 2),)))],
    [("s", S.sec("S", A), ("inst", (("x", 1),)))],
    [("s", S.sec("S", A, ("y", S.STR, "y")), S.NO)],
    [("s", S.sec("S", B, ("y", S.STR, "y")), ("inst", (("y", "z"),)))],
    [("s", S.sec("S", B, ("y", S.STR, "y")), ("inst", ()))],
    [("s", S.opt(S.sec("S", A)), S.NO)],
    [("s", S.opt(S.sec("S", A)), None)],
    [("s", S.opt(S.sec("S", B)), ("inst", ()))],
    [("s", S.opt(S.sec("S", B)), ("inst", (("x", 2),)))],
    [("s", S.opt(S.sec("S", A, ("y", S.STR, "y"))), None)],
    [("s", S.sec("S", ("t", S.sec("T", A), S.NO)), S.NO)],
    [("s", S.sec("S", ("t", S.sec("T", B), S.NO)), S.NO)],
    [("s", S.sec("S", ("t", S.sec("T", B), ("inst", ()))), S.NO)],
    [("s", S.sec("S", ("t", S.sec("T", B), ("inst", (("x", 2),)))), S.NO)],
    [("s", S.sec("S", ("t", S.sec("T", B), S.NO)), ("inst", (("t", ("inst", (("x", 2),))),)))],
    [("s", S.sec("S", ("t", S.opt(S.sec("T", B)), None)), S.NO)],
    [("s", S.sec("S", ("t", S.opt(S.sec("T", B)), S.NO)), S.NO)],
    [("s", S.lst(S.sec("S", A)), [])],
    [("s", S.lst(S.sec("S", B)), [("inst", ())])],
    [("s", S.lst(S.sec("S", B)), [("inst", (("x", 2),))])],
    [("s", S.lst(S.opt(S.sec("S", B))), [])],
    [("s", S.opt(S.lst(S.sec("S", B))), None)],
    [("s", S.opt(S.lst(S.sec("S", B))), [])],
    [("s", ("dict", S.sec("S", B)), {})],
    [("s", ("dict", S.sec("S", B)), {"a": ("inst", ())})],
    [("s", S.INT, 1)],
    [("s", S.opt(S.INT), None)],
]


def h_sections(c):
    """Every section against every other."""
    o = c.choose("old", KINDS)
    n = c.choose("new", KINDS)
    ctx, old, new = contexts(c, o, n)
    judge(c, old, new, f"{ctx}: {o} became {n}", c.choose("how", ("class", "file")) if ctx == "top" else "class")


def h_cases(c):
    name, o, n, _, _ = c.choose("case", c09.SECTIONS)
    ctx, old, new = contexts(c, o, n)
    judge(c, old, new, f"{name} ({ctx})")


TARGETS = [("same", None), ("int", S.INT), ("bool", S.BOOL), ("str", S.STR), ("float", S.FLOAT), ("union", ("union", (S.INT, S.STR))), ("opt int", S.opt(S.INT))]


def h_literals(c):
    """Every literal against every other, and against the types of its values."""
    where, wrap = c.choose("where", S.LITWRAPS)
    few = not c.thorough and where not in ("plain", "opt")
    lits = S.LITS[: len(S.LITVALS)] + S.LITS[-3:] if few else S.LITS
    a = c.choose("old", lits)
    b = c.choose("new", lits + [t for _, t in TARGETS if t] + ["back"])
    if b == "back":  # and the other way round
        b, a = a, c.choose("type", [t for _, t in TARGETS if t])
    k = ("k", S.INT, S.NO)
    judge(c, (k, ("rate", wrap(a), S.NO)), (k, ("rate", wrap(b), S.NO)), f"{where}: {a} became {b}")


RULES = [
    ("del rate", lambda: DeleteField(("rate",))), ("del zzz", lambda: DeleteField(("zzz",))), ("del s.x", lambda: DeleteField(("s", "x"))),
    ("del s", lambda: DeleteField(("s",))),
    ("ren rate zzz", lambda: RenameField(("rate",), ("zzz",))), ("ren zzz rate", lambda: RenameField(("zzz",), ("rate",))),
    ("ren s.x rate", lambda: RenameField(("s", "x"), ("rate",))), ("ren rate s.x", lambda: RenameField(("rate",), ("s", "x"))),
    ("ren s t", lambda: RenameField(("s",), ("t",))),
    ("add rate", lambda: AddDefault(("rate",), 71)), ("add zzz", lambda: AddDefault(("zzz",), 72)), ("add s.x", lambda: AddDefault(("s", "x"), 73)),
    ("add s.zzz", lambda: AddDefault(("s", "zzz"), 74)),
    ("chg rate", lambda: ChangeDefault(("rate",), 3, 5)), ("chg s.x", lambda: ChangeDefault(("s", "x"), 3, 5)), ("chg s", lambda: ChangeDefault(("s",), {"x": 3}, {"x": 5})),
]  # fmt: skip
R0 = ("rate", S.INT, S.NO)
R3 = ("rate", S.INT, 3)
R5 = ("rate", S.INT, 5)
OLD = [
    (R0,), (R3,), (("s", S.sec("S", ("x", S.INT, S.NO)), S.NO),), (("s", S.sec("S", ("x", S.INT, 3)), S.NO), R3), (("s", S.opt(S.sec("S", ("x", S.INT, 3))), None), R3),
    (("s", S.sec("S", ("x", S.INT, 3)), ("inst", ())),), (("s", S.lst(S.sec("S", ("x", S.INT, 3))), []), R3),
]  # fmt: skip
NEW = [
    (), (R0,), (R3,), (R5,), (("zzz", S.INT, S.NO),), (R0, ("zzz", S.INT, S.NO)), (("zzz", S.INT, 3),), (("s", S.sec("S", ("x", S.INT, S.NO)), S.NO),), (("s", S.sec("S", ("x", S.INT, 5)), S.NO), R3),
    (("s", S.sec("S"), S.NO), R3), (("t", S.sec("S", ("x", S.INT, 3)), S.NO), R3), (("s", S.sec("S", ("x", S.INT, 5)), ("inst", ())),), (("s", S.opt(S.sec("S", ("x", S.INT, 5))), None), R3),
    (("s", S.sec("S", ("x", S.INT, 3), ("zzz", S.INT, S.NO)), S.NO), R3), (("s", S.lst(S.sec("S", ("x", S.INT, 5))), []), R3),
    (("s", S.lst(S.sec("S")), []), R3), (("s", S.opt(S.sec("S", ("x", S.INT, 3), ("zzz", S.INT, S.NO))), None), R3),
]  # fmt: skip


def h_rules(c):
    """With upgrade rules of the class: if the checker is satisfied, old configs load, and what no rule names is unchanged."""
    old = c.choose("old", OLD)
    new = c.choose("new", NEW)
    n = c.choose("rules", (1, 2, 3) if c.thorough else (1, 2))
    rs = [c.choose(f"rule{i}", RULES) for i in range(n)]
    versions = c.choose("versions", (1, 2)) if c.thorough and n > 1 else n
    made = [r[1]() for r in rs]
    table = {0: made} if versions == 1 else {0: made[:1], 1: made[1:]}
    k = ("k", S.INT, S.NO)
    old, new = (k,) + old, (k,) + new
    kinds = {f[1][0] for f in old + new if f[0] in ("s", "t")}
    for r in made:
        paths = [p for p in (getattr(r, "field", None), getattr(r, "old_field", None), getattr(r, "new_field", None)) if p and len(p) > 1]
        if paths and ("opt" in kinds or ("list" in kinds and isinstance(r, RenameField))):
            raise Skip()  # not claimed: rules that reach into optional sections, or move fields across lists
    names = [r[0] for r in rs]
    if "chg s" in names and any("s." in x for x in names):
        raise Skip()  # a section's default given by one rule contradicts another rule about its fields
    old_cls, new_cls = S.build(old), S.build(new, versions, table)
    try:
        checker = SchemaChecker(materialize_type(old_cls), new_cls)
    except AssertionError:
        c.outcome = "refused"  # the rules do not fit the schema
        return
    c.op("compare")
    c.agreed()
    what = f"{old} became {new} with {[r[0] for r in rs]}"
    if checker.severity() != Severity.INFO:
        c.outcome = "incompatible"
        return
    c.outcome = "compatible"
    touched = {p for _, r in [(0, x) for x in made] for p in [getattr(r, "field", None), getattr(r, "old_field", None), getattr(r, "new_field", None)] if p}
    for tree in S.configs(old):
        text = S.text(tree, 0)
        before = S.plain(hyperstate.loads(old_cls, text))
        try:
            after = S.plain(hyperstate.loads(new_cls, text))
        except Exception as e:
            c.fail(f"{what} is called compatible, but {text} raises {type(e).__name__}: {e}")
        c.op("load")
        for p in list(touched):
            if len(p) == 1:
                before.pop(p[0], None)
            elif isinstance(before.get(p[0]), dict):
                before[p[0]].pop(p[1], None)
            elif isinstance(before.get(p[0]), list):
                for x in before[p[0]]:
                    x.pop(p[1], None)
            else:
                before.pop(p[0], None)
        c.check(S.equal(before, after), lambda: f"{what} is called compatible, but {text} reads {before} before and {after} after")
    c.state((repr(old), repr(new), [r[0] for r in rs]))


HARNESSES = [("edit", h_edit), ("pairs", h_pairs), ("literals", h_literals), ("sections", h_sections), ("cases", h_cases), ("rules", h_rules)]
