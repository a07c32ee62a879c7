"""C09: the schema checker reports every change once and only real changes."""
from hyperstate.schema.schema_checker import SchemaChecker
from hyperstate.schema.schema_change import Severity
from hyperstate.schema.types import materialize_type

from mc.engine import Skip
from mc import schemas as S

RULE = (
    "every field type x default x position (top level, nested, optional, list, dict, tuple, union sections) compared with "
    "itself, directly and through a schema file; every single edit at every position; every pair of edits of two fields; edits "
    "of whole sections"
)
BOUND = {
    "quick": "34 types, 13 positions, one edit of one field (type changes over all pairs of types at 2 positions), pairs of edits on 3 types at 2 positions",
    "thorough": "type changes over all pairs of types at every position, pairs of edits over 9 types at 4 positions",
}
ASSUMPTIONS = [
    "renamed fields and variants have names that are similar, others names that share no letter",
    "a change inside the sections of a dict, tuple or union is reported as a change of the type of that field",
]


def compare(c, old_cls, new_cls, how):
    old = materialize_type(old_cls) if how == "class" else S.via_file(c, old_cls)
    c.op("compare")
    return SchemaChecker(old, new_cls)


def describe(ch):
    return f"{type(ch).__name__}({'.'.join(ch.field)}: {ch.diagnostic()})"


def plain(v):
    import enum

    return v.value if isinstance(v, enum.Enum) else [plain(x) for x in v] if isinstance(v, list) else v


def same(a, b):
    if isinstance(b, (set, frozenset)):
        return {(type(x).__name__, x) for x in a} == {(type(x).__name__, x) for x in b}
    return a == b and (type(a) == type(b) or not isinstance(b, (bool, int)))


def verify(c, checker, expected, severity, what):
    """The changes must be exactly the expected ones, in any order."""
    left = list(checker.changes)
    for kind, path, details in expected:
        found = None
        for ch in left:
            if type(ch).__name__ == kind and tuple(ch.field) == tuple(path) and all(same(plain(getattr(ch, k)), v) for k, v in details.items()):
                found = ch
                break
        c.check(found is not None, lambda: f"{what}: {kind} at {'.'.join(path)} {details or ''} not reported; reported: {[describe(x) for x in checker.changes]}")
        left.remove(found)
    c.check(not left, lambda: f"{what}: also reported {[describe(x) for x in left]}")
    sev = checker.severity()
    top = max((ch.severity() for ch in checker.changes), key=lambda s: s.value, default=Severity.INFO)
    c.check(sev == top, lambda: f"{what}: severity {sev}, highest of the changes is {top}")
    if severity == "info":
        c.check(sev == Severity.INFO, lambda: f"{what}: compatible edit reported as {sev}: {[(describe(x), x.severity().name) for x in checker.changes]}")
    elif severity == "break":
        c.check(sev > Severity.INFO, lambda: f"{what}: incompatible edit reported as compatible: {[describe(x) for x in checker.changes]}")


def locate(expected, prefix, opaque):
    if opaque:
        return [("TypeChanged", prefix, {})] if expected else []
    return [(k, tuple(prefix) + tuple(p), {a: (tuple(prefix) + tuple(v) if a == "new_name" else v) for a, v in d.items()}) for k, p, d in expected]


def h_self(c):
    pos = c.choose("position", S.POSITIONS)
    t = c.choose("type", S.TYPES)
    d = c.choose("default", (S.NO, S.default_for(t), S.default_for(t, True)))
    fields, prefix, opaque = S.place(pos, [("rate", t, d)])
    how = c.choose("how", ("class", "file"))
    cls = S.build(fields)
    same = S.build(fields, 1)
    verify(c, compare(c, cls, cls, how), [], "info", f"{fields} with itself")
    verify(c, compare(c, cls, same, how), [], "info", f"{fields} with itself at the next version")
    c.state((pos, t, repr(d)))
    c.agreed()


INSTANCES = [
    ("s", S.sec("S", ("x", S.INT, S.NO), ("y", S.STR, "y")), ("inst", (("x", 5),))),
    ("s", S.sec("S", ("x", S.INT, 1), ("e", S.E1, ("V", "A")), ("l", S.lst(S.E1), [("V", "B")])), ("inst", (("x", 5), ("e", ("V", "B"))))),
    ("s", S.sec("S", ("t", S.sec("T", ("x", S.INT, 1)), ("inst", (("x", 3),))), ("d", ("dict", S.INT), {"k": 1})), ("inst", ())),
    ("s", S.opt(S.sec("S", ("x", S.INT, 1))), ("inst", (("x", 2),))),
    ("s", S.lst(S.sec("S", ("x", S.INT, 1))), [("inst", (("x", 2),)), ("inst", ())]),
    ("s", ("dict", S.sec("S", ("x", S.opt(S.E1), ("V", "B")))), {"a": ("inst", ())}),
    ("s", ("dict", S.sec("S", ("t", S.sec("T", ("e", S.E1, S.NO)), ("inst", (("e", ("V", "B")),))))), S.NO),
    ("s", S.opt(S.lst(S.E1)), [("V", "A"), ("V", "B")]),
    ("s", S.lst(S.lst(S.FLOAT)), [[0.1, 1e-9], []]),
    ("s", S.lst(S.STR), ["it's", "\x07", "ü"]),
    ("s", S.FLOAT, 5e-324),
    ("s", ("tuple", (S.INT, S.lst(S.INT))), (1, [2])),
]


def h_instances(c):
    """Defaults that are sections, or contain sections, enums and awkward values."""
    f = INSTANCES[c.choose("field", range(len(INSTANCES)))]
    fields = (("k", S.INT, S.NO), f)
    how = c.choose("how", ("class", "file"))
    cls = S.build(fields)
    verify(c, compare(c, cls, S.build(fields, 1), how), [], "info", f"{f} with itself")
    # adding a field with a default to the section class is compatible
    n, t, d = f
    leaf, wrap = S.inner(t)
    if leaf[0] == "sec":
        ft = (n, wrap(("sec", leaf[1], leaf[2] + (("zzz", S.INT, 1),))), d)
        verify(c, compare(c, cls, S.build((("k", S.INT, S.NO), ft), 1), how), [("FieldAdded", ("s", "zzz"), {"has_default": True})], "info", f"{f} and a new field in the section")
        if isinstance(d, tuple) and leaf[2][0][1] == S.INT:
            fd = (n, t, ("inst", (("x", 77),)))
            verify(c, compare(c, cls, S.build((("k", S.INT, S.NO), fd), 1), how), [("DefaultValueChanged", ("s",), {})], "break", f"{f} with another default section")
    c.state((repr(f), how))
    c.agreed()


def h_edit(c):
    pos = c.choose("position", S.POSITIONS)
    t = c.choose("type", S.TYPES)
    d = c.choose("default", (S.NO, S.default_for(t), S.default_for(t, True)))
    f = ("rate", t, d)
    full = c.thorough or pos in ("top", "list")
    e = S.edit(c, "edit", f, types=S.TYPES if full else S.TYPES[:5], addtypes=S.TYPES if full else [S.INT, S.opt(S.E1), S.lst(S.INT)])
    if pos in ("top",) and not e.fields and False:
        raise Skip()
    old, prefix, opaque = S.place(pos, [f])
    new, _, _ = S.place(pos, e.fields)
    how = c.choose("how", ("class", "file")) if c.thorough else "file" if pos in ("sec", "opt") else "class"
    ch = compare(c, S.build(old), S.build(new, 1), how)
    severity = e.severity
    exp = locate(e.expected, prefix, opaque)
    if opaque and not exp and e.fields != [f]:
        # a default that was added is a (compatible) difference of the type
        exp = [("TypeChanged", prefix, {})] if ch.changes else []
    verify(c, ch, exp, severity if not opaque or severity == "break" else None, f"{pos}: {f} became {e.fields}")
    c.state((pos, t, repr(d), repr(e.fields)))
    c.agreed()


def h_literals(c):
    """Every literal against every other: true and 1 are different values."""
    where, wrap = c.choose("where", S.LITWRAPS)
    few = not c.thorough and where not in ("plain", "list")
    lits = S.LITS[: len(S.LITVALS)] + S.LITS[-3:] if few else S.LITS
    a = c.choose("old", lits)
    b = c.choose("new", lits)
    old, new = wrap(a), wrap(b)
    add, gone = S.lit_minus(b[1], a[1]), S.lit_minus(a[1], b[1])
    path = ("rate", "x") if where.endswith("sec") else ("rate",)
    exp = []
    if where in ("dict", "tuple"):
        exp = [("TypeChanged", path, {})] if add or gone else []
    else:
        if add:
            exp.append(("LiteralValuesAdded", path, {"values": add}))
        if gone:
            exp.append(("LiteralValuesRemoved", path, {"values": gone}))
    k = ("k", S.INT, S.NO)
    how = c.choose("how", ("class", "file"))
    ch = compare(c, S.build((k, ("rate", old, S.NO))), S.build((k, ("rate", new, S.NO)), 1), how)
    verify(c, ch, exp, "break" if gone else "info", f"{old} became {new}")
    c.state((where, a, b))
    c.agreed()


PT = [S.INT, S.E1, S.opt(S.L1), S.lst(S.INT), S.opt(S.STR), S.BOOL, S.lst(S.E1), S.L1, ("dict", S.INT)]


def h_pairs(c):
    """Two fields edited at once, next to each other or at different positions."""
    where = c.choose("where", ("top", "sec", "opt", "list", "apart") if c.thorough else ("top", "apart"))
    ts = PT if c.thorough else PT[:3]
    t1 = c.choose("type1", ts)
    d1 = c.choose("default1", (S.NO, S.default_for(t1)))
    t2 = c.choose("type2", ts)
    d2 = c.choose("default2", (S.NO, S.default_for(t2, True)))
    f1, f2 = ("rate", t1, d1), ("color", t2, d2)
    few = PT[:2]
    e1 = S.edit(c, "edit1", f1, types=few, addtypes=few)
    e2 = S.edit(c, "edit2", f2, types=few, addtypes=few)
    # an added and a removed field may look like a rename of either only if their names are similar: they share no letter
    if where == "apart":
        o1, p1, _ = S.place("sec", [f1])
        n1, _, _ = S.place("sec", e1.fields)
        old, new = o1 + (f2,), n1 + tuple(e2.fields)
        exp = locate(e1.expected, p1, False) + locate(e2.expected, (), False)
    else:
        old, p, _ = S.place(where, [f1, f2])
        new, _, _ = S.place(where, e1.fields + e2.fields)
        exp = locate(e1.expected + e2.expected, p, False)
    sev = "break" if "break" in (e1.severity, e2.severity) else "info"
    verify(c, compare(c, S.build(old), S.build(new, 1), "class"), exp, sev, f"{where}: {f1} became {e1.fields} and {f2} became {e2.fields}")
    c.state((where, repr(e1.fields), repr(e2.fields), repr(d1), repr(d2)))
    c.agreed()


SEC = S.sec("S", ("x", S.INT, 1), ("y", S.STR, "y"))
SECR = S.sec("S", ("x", S.INT, S.NO), ("y", S.STR, "y"))
EMPTY = S.sec("S")
NEST = S.sec("S", ("t", S.sec("T", ("x", S.INT, 1)), S.NO), ("y", S.STR, "y"))
A, R, T = "FieldAdded", "FieldRemoved", "TypeChanged"
SECTIONS = [
    # (old fields, new fields, expected, severity)
    ("section added", [], [("s", SEC, S.NO)], [(A, ("s", "x"), {"has_default": True}), (A, ("s", "y"), {"has_default": True})], "info"),
    ("required section added", [], [("s", SECR, S.NO)], [(A, ("s", "x"), {"has_default": False}), (A, ("s", "y"), {"has_default": True})], "break"),
    ("nested section added", [], [("s", NEST, S.NO)], [(A, ("s", "t", "x"), {}), (A, ("s", "y"), {})], "info"),
    ("section with default added", [], [("s", SECR, ("inst", (("x", 5),)))], [(A, ("s", "x"), {}), (A, ("s", "y"), {})], "info"),
    ("optional section added", [], [("s", S.opt(SECR), None)], [(A, ("s",), {"has_default": True})], "info"),
    ("empty section added", [], [("s", EMPTY, S.NO)], [], "info"),
    ("section removed", [("s", SEC, S.NO)], [], [(R, ("s", "x"), {}), (R, ("s", "y"), {})], "break"),
    ("nested section removed", [("s", NEST, S.NO)], [], [(R, ("s", "t", "x"), {}), (R, ("s", "y"), {})], "break"),
    ("empty section removed", [("s", EMPTY, S.NO)], [], [(R, ("s",), {})], "break"),
    ("optional section removed", [("s", S.opt(SEC), None)], [], [(R, ("s",), {})], "break"),
    ("section became empty", [("s", SEC, S.NO)], [("s", EMPTY, S.NO)], [(R, ("s", "x"), {}), (R, ("s", "y"), {})], "break"),
    ("section became int", [("s", SEC, S.NO)], [("s", S.INT, 5)], [(R, ("s", "x"), {}), (R, ("s", "y"), {}), (A, ("s",), {"has_default": True})], "break"),
    ("empty section became int", [("s", EMPTY, S.NO)], [("s", S.INT, 5)], [(R, ("s",), {}), (A, ("s",), {"has_default": True})], "break"),
    ("int became section", [("s", S.INT, S.NO)], [("s", SEC, S.NO)], [(R, ("s",), {}), (A, ("s", "x"), {}), (A, ("s", "y"), {})], "break"),
    ("required section became optional", [("s", SECR, S.NO)], [("s", S.opt(SECR), S.NO)], [(T, ("s",), {})], "info"),
    ("required section became optional with default", [("s", SECR, S.NO)], [("s", S.opt(SECR), None)], [(T, ("s",), {})], "info"),
    ("section became optional", [("s", SEC, S.NO)], [("s", S.opt(SEC), S.NO)], [(T, ("s",), {}), ("DefaultValueRemoved", ("s",), {})], "break"),
    ("section became optional with default", [("s", SEC, S.NO)], [("s", S.opt(SEC), None)], [(T, ("s",), {}), ("DefaultValueChanged", ("s",), {"new": None})], "break"),
    ("optional became section", [("s", S.opt(SEC), None)], [("s", SEC, S.NO)], [(T, ("s",), {}), ("DefaultValueChanged", ("s",), {"old": None})], "break"),
    ("optional became required section", [("s", S.opt(SEC), S.NO)], [("s", SEC, S.NO)], [(T, ("s",), {})], "break"),
    ("section gained default", [("s", SECR, S.NO)], [("s", SECR, ("inst", (("x", 5),)))], [], "info"),
    ("section gained the same default", [("s", SEC, S.NO)], [("s", SEC, ("inst", ()))], [], "info"),
    ("section gained another default", [("s", SEC, S.NO)], [("s", SEC, ("inst", (("x", 5),)))], [("DefaultValueChanged", ("s",), {})], "break"),
    ("section lost default", [("s", SECR, ("inst", (("x", 5),)))], [("s", SECR, S.NO)], [("DefaultValueRemoved", ("s",), {})], "break"),
    ("list of sections became optional sections", [("s", S.lst(SECR), S.NO)], [("s", S.lst(S.opt(SECR)), S.NO)], [(T, ("s",), {})], "info"),
    ("list of optional sections became sections", [("s", S.lst(S.opt(SECR)), S.NO)], [("s", S.lst(SECR), S.NO)], [(T, ("s",), {})], "break"),
    ("section lost the same default", [("s", SEC, ("inst", ()))], [("s", SEC, S.NO)], [], "info"),
    ("section lost another default", [("s", SEC, ("inst", (("x", 5),)))], [("s", SEC, S.NO)], [("DefaultValueChanged", ("s",), {})], "break"),
    ("section with default removed", [("s", SECR, ("inst", (("x", 5),)))], [], [(R, ("s", "x"), {}), (R, ("s", "y"), {})], "break"),
    ("int became section with default", [("s", S.INT, S.NO)], [("s", SECR, ("inst", (("x", 5),)))], [(R, ("s",), {}), (A, ("s", "x"), {"has_default": True, "default": 5}), (A, ("s", "y"), {"default": "y"})], "break"),
    ("section with nested default added", [], [("s", S.sec("S", ("t", SECR, S.NO), ("e", S.E1, ("V", "A"))), ("inst", (("t", ("inst", (("x", 3),))), ("e", ("V", "B")))))], [(A, ("s", "t", "x"), {"has_default": True, "default": 3}), (A, ("s", "t", "y"), {"default": "y"}), (A, ("s", "e"), {"default": "b"})], "info"),
    ("section became optional and gained a field", [("s", SECR, S.NO)], [("s", S.opt(S.sec("S", ("x", S.INT, S.NO), ("y", S.STR, "y"), ("z", S.INT, 4))), S.NO)], [(T, ("s",), {}), (A, ("s", "z"), {"has_default": True})], "info"),
    ("section became optional and lost a field", [("s", SECR, S.NO)], [("s", S.opt(S.sec("S", ("x", S.INT, S.NO))), S.NO)], [(T, ("s",), {}), (R, ("s", "y"), {})], "break"),
    ("optional section became required and lost a field", [("s", S.opt(SECR), S.NO)], [("s", S.sec("S", ("x", S.INT, S.NO)), S.NO)], [(T, ("s",), {}), (R, ("s", "y"), {})], "break"),
    ("optional section became int", [("s", S.opt(SECR), None)], [("s", S.INT, 5)], [(T, ("s",), {}), ("DefaultValueChanged", ("s",), {"old": None, "new": 5})], "break"),
    ("two enums: removed here, added there", [("e", S.en("E", A="a", B="b"), S.NO), ("f", S.en("F", C="c"), S.NO)], [("e", S.en("E", A="a"), S.NO), ("f", S.en("F", C="c", B="b"), S.NO)], [("EnumVariantRemoved", ("e",), {"variant": "B"}), ("EnumVariantAdded", ("f",), {"variant": "B"})], "break"),
    ("list became section", [("s", S.lst(S.INT), [])], [("s", SEC, S.NO)], None, "break"),
    ("section became list", [("s", SEC, S.NO)], [("s", S.lst(S.INT), [])], None, "break"),
    ("moved into section", [("lr", S.FLOAT, S.NO)], [("s", S.sec("S", ("lr", S.FLOAT, S.NO)), S.NO)], [("FieldRenamed", ("lr",), {"new_name": ("s", "lr")})], "break"),
    ("moved out of section", [("s", S.sec("S", ("lr", S.FLOAT, S.NO), ("y", S.INT, 1)), S.NO)], [("s", S.sec("S", ("y", S.INT, 1)), S.NO), ("lr", S.FLOAT, S.NO)], [("FieldRenamed", ("s", "lr"), {"new_name": ("lr",)})], "break"),
    ("moved between sections", [("s", S.sec("S", ("lr", S.FLOAT, 0.5), ("y", S.INT, 1)), S.NO), ("r", S.sec("R", ("y", S.INT, 1)), S.NO)], [("s", S.sec("S", ("y", S.INT, 1)), S.NO), ("r", S.sec("R", ("lr", S.FLOAT, 0.5), ("y", S.INT, 1)), S.NO)], [("FieldRenamed", ("s", "lr"), {"new_name": ("r", "lr")})], "break"),
    ("two renames", [("learning_rate", S.FLOAT, S.NO), ("batch_size", S.INT, S.NO)], [("lr", S.FLOAT, S.NO), ("bs", S.INT, S.NO)], [("FieldRenamed", ("learning_rate",), {"new_name": ("lr",)}), ("FieldRenamed", ("batch_size",), {"new_name": ("bs",)})], "break"),
    ("best match wins", [("batch_size", S.INT, S.NO)], [("batch", S.INT, S.NO), ("batchsize", S.INT, S.NO)], [("FieldRenamed", ("batch_size",), {"new_name": ("batchsize",)}), (A, ("batch",), {"has_default": False})], "break"),
    ("not a rename: default differs", [("rate", S.INT, 1)], [("rates", S.INT, 2)], [(R, ("rate",), {}), (A, ("rates",), {"default": 2})], "break"),
    ("not a rename: type differs", [("rate", S.INT, S.NO)], [("rates", S.STR, S.NO)], [(R, ("rate",), {}), (A, ("rates",), {})], "break"),
    ("rename to a wider type", [("rate", S.INT, S.NO)], [("rates", S.opt(S.FLOAT), S.NO)], [("FieldRenamed", ("rate",), {"new_name": ("rates",)})], "break"),
]  # fmt: skip


def h_sections(c):
    name, old, new, expected, sev = c.choose("case", SECTIONS)
    ctx = c.choose("context", ("top", "sec", "opt", "list"))
    k = ("k", S.INT, S.NO)
    pre = ()
    if ctx == "top":
        o, n = (k,) + tuple(old), (k,) + tuple(new)
    else:
        w = {"sec": lambda t: t, "opt": S.opt, "list": S.lst}[ctx]
        pre = ("c",)
        o = (k, ("c", w(S.sec("C", ("w", S.INT, S.NO), *old)), S.NO))
        n = (k, ("c", w(S.sec("C", ("w", S.INT, S.NO), *new)), S.NO))
    ch = compare(c, S.build(o), S.build(n, 1), c.choose("how", ("class", "file")))
    if expected is None:
        expected = [(type(x).__name__, tuple(x.field)[len(pre) :], {}) for x in ch.changes]
        c.check(all(tuple(x.field)[: len(pre)] == pre for x in ch.changes), lambda: f"changes outside {pre}: {[describe(x) for x in ch.changes]}")
    verify(c, ch, locate(expected, pre, False), sev, f"{name} ({ctx})")
    c.state((name, ctx))
    c.agreed()


HARNESSES = [("self", h_self), ("instances", h_instances), ("literals", h_literals), ("edit", h_edit), ("pairs", h_pairs), ("sections", h_sections)]
