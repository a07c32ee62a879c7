"""C24: schema files describe the class and change only when compatible."""
import contextlib
import io
import os
import re
import sys
import tempfile

import click
from hyperstate.schema.schema_checker import schema_evolution_cli
from hyperstate.schema.types import load_schema

from mc import schemas as S
from mc.checks import c09
from mc.engine import Skip

RULE = (
    "every field type x default x position x version: dump-schema, read the file back and compare with an independent description "
    "of the class; every edit of C09, alone or with a rule that resolves it: every sequence of schema commands up to the bound "
    "against a model of the file and of the report"
)
BOUND = {
    "quick": "34 types x 3 defaults x 13 positions x 2 versions, 12 default instances, 8 docs; all single edits of 5 types at 2 positions, all cases of edited sections, command sequences of length 1 and 2",
    "thorough": "edits of all 34 types at all positions, command sequences up to length 3",
}
ASSUMPTIONS = ["what is compatible is taken from the description of the edit (as in C09), not from the checker"]


def full(t, d):
    """The default as it must be recorded: sections as dictionaries of all their fields."""
    if d is None:
        return None
    if t[0] == "opt":
        return full(t[1], d)
    if t[0] == "enum":
        return dict(t[2])[d[1]]
    if t[0] == "sec":
        given = dict(d[1])
        return {n: full(ft, given.get(n, fd)) if n in given or fd is not S.NO else construct(ft) for n, ft, fd in t[2]}
    if t[0] == "list":
        return [full(t[1], x) for x in d]
    if t[0] in ("dict", "idict"):
        return {k: full(t[1], x) for k, x in d.items()}
    if t[0] == "tuple":
        return tuple(full(a, x) for a, x in zip(t[1], d))
    return d


def construct(t):
    return full(t, ("inst", ()))


def expected(t, version=None):
    k = t[0]
    if k in S.PRIM:
        return ("Primitive", k)
    if k == "lit":
        return ("Literal", sorted(map(repr, t[1])))
    if k == "enum":
        return ("Enum", t[1], dict(t[2]))
    if k in ("opt", "list"):
        return ({"opt": "Option", "list": "List"}[k], expected(t[1]))
    if k == "dict":
        return ("Dict", ("Primitive", "str"), expected(t[1]))
    if k == "idict":
        return ("Dict", ("Primitive", "int"), expected(t[1]))
    if k in ("tuple", "union"):
        return (k.title(), [expected(x) for x in t[1]])
    order = sorted(t[2], key=lambda f: f[2] is not S.NO)
    return ("Struct", t[1], [(n, expected(ft), d is not S.NO, None if d is S.NO else full(ft, d)) for n, ft, d in order], version)


def canon(t):
    """A schema object as plain data."""
    k = type(t).__name__
    if k == "Primitive":
        return (k, t.type)
    if k == "Literal":
        return (k, sorted(map(repr, t.allowed_values)))
    if k == "Enum":
        return (k, t.name, dict(t.variants))
    if k == "Option":
        return (k, canon(t.type))
    if k == "List":
        return (k, canon(t.inner))
    if k == "Dict":
        return (k, canon(t.key), canon(t.val))
    if k == "Tuple":
        return (k, [canon(x) for x in t.inner])
    if k == "Union":
        return (k, [canon(x) for x in t.types])
    if k == "Struct":
        return (k, t.name, [(n, canon(f.type), f.has_default, f.default) for n, f in t.fields.items()], t.version)
    return (k,)


def run(c, cls, *argv, cwd=None):
    """The schema evolution command line in this process: (exit status, output without colours)."""
    out = io.StringIO()
    argv0, dir0 = sys.argv, os.getcwd()
    sys.argv = ["schema.py", *argv]
    code = 0
    try:
        if cwd:
            os.chdir(cwd)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            schema_evolution_cli(cls)
    except SystemExit as e:
        code = e.code
    finally:
        sys.argv = argv0
        os.chdir(dir0)
    c.op(argv[0])
    return code, click.unstyle(out.getvalue())


def scratch(c):
    d = tempfile.mkdtemp()
    c.scratch_dirs.append(d)
    return d


def read(p):
    if not os.path.exists(p):
        return None
    with open(p, "rb") as f:
        return f.read()


def roundtrip(c, fields, version, what, name="Conf", cls=None):
    cls = cls or S.build(fields, version)
    d = scratch(c)
    p = os.path.join(d, "s.ron")
    code, out = run(c, cls, "dump-schema", p)
    c.check(code in (0, None), lambda: f"{what}: dump-schema exits with {code}: {out}")
    got = canon(load_schema(p))
    want = expected(("sec", name, tuple(fields)), version)
    c.check(repr(got) == repr(want), lambda: f"{what}: the schema file reads back as {got}, the class is {want}")
    before = read(p)
    run(c, cls, "dump-schema", p)
    c.check(read(p) == before, lambda: f"{what}: dumped twice, the files differ")
    c.check(os.listdir(d) == ["s.ron"], lambda: f"{what}: other files written: {os.listdir(d)}")
    code, out = run(c, cls, "check-schema", p)
    c.check(code in (0, None) and out == "Schema compatible\n" and read(p) == before, lambda: f"{what}: check-schema of an unchanged class: {code}, {out!r}")
    code, out = run(c, cls, "upgrade-schema", p)
    c.check(code in (0, None) and out == "Schema updated\n" and read(p) == before, lambda: f"{what}: upgrade-schema of an unchanged class: {code}, {out!r}")
    c.agreed()


def h_roundtrip(c):
    pos = c.choose("position", S.POSITIONS)
    t = c.choose("type", S.TYPES)
    d = c.choose("default", (S.NO, S.default_for(t), S.default_for(t, True)))
    version = c.choose("version", (0, 7))
    fields, _, _ = S.place(pos, [("rate", t, d)])
    roundtrip(c, fields, version, f"{pos}: rate {t} = {d}")
    c.state((pos, t, repr(d), version))


def h_instances(c):
    f = c09.INSTANCES[c.choose("field", range(len(c09.INSTANCES)))]
    k = ("k", S.INT, S.NO)
    where = c.choose("where", ("top", "sec", "opt"))
    fields = (k, f) if where == "top" else (k, ("c", S.sec("C", k, f), S.NO)) if where == "sec" else (k, ("c", S.opt(S.sec("C", k, f)), None))
    roundtrip(c, fields, 1, f"{where}: {f}")
    c.state((where, repr(f)))


DOCS = [None, "", "One line.", "C.\n\n    Attributes:\n        rate: the rate", 'C.\n\n    Attributes:\n        rate: it\'s "quoted" \\ back\n        w: (x: 1), [] {}', "C.\n\n    Args:\n        rate: first\n            second line\n        zzz: no such field", "C ü 日本.\n\n    Attributes:\n        rate (int): /* c */ // x", ":param rate: sphinx\n:param w: other"]


def h_docs(c):
    doc = c.choose("doc", DOCS)
    where = c.choose("where", ("top", "sec"))
    slot = [("rate", S.INT, 1), ("w", S.STR, "it's")]
    fields = tuple(slot) if where == "top" else (("s", S.sec("S", *slot), S.NO),)
    cls = S.build(fields, 2)
    (cls if where == "top" else cls.__dataclass_fields__["s"].type).__doc__ = doc
    roundtrip(c, fields, 2, f"doc {doc!r}", cls=cls)
    c.state((doc, where))


WORDS = {
    "FieldAdded": ["new field"], "FieldRemoved": ["field removed"], "FieldRenamed": ["field renamed to"], "TypeChanged": ["type changed from"],
    "DefaultValueChanged": ["default value changed from"], "DefaultValueRemoved": ["default value removed"], "EnumVariantAdded": ["variant", "added"],
    "EnumVariantRemoved": ["variant", "removed"], "EnumVariantRenamed": ["variant", "renamed to"], "EnumVariantValueChanged": ["value of", "changed from"],
    "LiteralValuesAdded": ["added to literal type"], "LiteralValuesRemoved": ["removed from literal type"],
}  # fmt: skip
LINE = re.compile(r"^(info |warn |error) (.*): ([^:\n]+)$", re.M | re.S)


def texts(kind, d):
    """What the line of a change has to mention."""
    out = list(WORDS[kind])
    if "new_name" in d:
        out.append(".".join(d["new_name"]))
    for k in ("variant", "old_value", "new_value", "old_variant_name", "new_variant_name"):
        if k in d:
            out.append(str(d[k]))
    for k in ("old", "new"):
        if k in d and not isinstance(d[k], (dict, tuple, list)):
            out.append(str(d[k]))
    out += [str(v) for v in d.get("values", ())]
    if kind == "FieldAdded" and d.get("has_default") is False:
        out.append("without default")
    return out


def report(c, out, changes, severity, same_version, version, what):
    """The report names every change once at its path, and the verdict."""
    head, sep, tail = out.partition("Schema compatible" if severity == "info" else "Schema incompatible")
    c.check(sep != "", lambda: f"{what}: expected {severity}, the report says {out!r}")
    c.check("Schema incompatible" not in tail and "Schema compatible" not in tail, lambda: f"{what}: two verdicts in {out!r}")
    lines = head.split("\n")
    lines = [x for x in lines if x]
    warned = [x for x in lines if x == "warn  schema changed but version identical"]
    c.check(bool(warned) == (severity == "break" and same_version), lambda: f"{what}: wrong note about the version in {out!r}")
    lines = [x for x in lines if x not in warned]
    if severity == "break":
        c.check((f"- bump version to {version + 1}" in tail.split("\n")) == same_version, lambda: f"{what}: wrong advice about the version in {out!r}")
    else:
        c.check(tail == "\n", lambda: f"{what}: advice about a compatible schema in {out!r}")
        c.check(all(x.startswith("info ") for x in lines), lambda: f"{what}: compatible schema with {lines}")
    for kind, path, d in changes:
        end = ": " + ".".join(path)
        want = texts(kind, d)
        for x in lines:
            if x.endswith(end) and all(w in x[6 : -len(end)] for w in want):
                lines.remove(x)
                break
        else:
            c.check(False, f"{what}: {kind} at {'.'.join(path)} (mentioning {want}) is missing in {out!r}")
    c.check(not lines, lambda: f"{what}: the report also says {lines}")


def sequences(c, old, new, changes, severity, what, rules=None):
    """Every sequence of commands: the file is what the model says, the report shows every change."""
    n = c.choose("commands", (1, 2, 3) if c.thorough else (1, 2))
    bumped = 1 if rules or (n == 2 and not c.thorough) else c.choose("version", (0, 1))
    old_cls, new_cls = S.build(old), S.build(new, bumped, rules)
    d = scratch(c)
    default = c.choose("name", ("default", "given")) if c.thorough or bumped == 0 else "given"
    p = os.path.join(d, "config-schema.ron" if default == "default" else "x.ron")
    args = [] if default == "default" else [p]
    run(c, old_cls, "dump-schema", *args, cwd=d)
    old_bytes = read(p)
    run(c, new_cls, "dump-schema", os.path.join(d, "new"))
    new_bytes = read(os.path.join(d, "new"))
    os.remove(os.path.join(d, "new"))
    model = "old"
    for i in range(n):
        op = c.choose(f"command{i}", ("check-schema", "upgrade-schema", "dump-schema") if c.thorough or i < n - 1 or n == 1 else ("check-schema", "upgrade-schema"))
        code, out = run(c, new_cls, op, *args, cwd=d)
        c.check(code in (0, None), lambda: f"{what}: {op} exits with {code}: {out}")
        sev = severity if model == "old" else "info"
        if op == "dump-schema":
            model = "new"
        elif op == "upgrade-schema" and sev == "info":
            model = "new"
            c.check(out == "Schema updated\n", lambda: f"{what}: upgrade-schema says {out!r}")
        elif changes is not None or model == "new":
            report(c, out, changes if model == "old" else [], sev, bumped == 0, 0, f"{what}: {op}")
        else:
            c.check(("Schema compatible" in out) == (sev == "info"), lambda: f"{what}: {op} says {out!r}")
        c.check(os.listdir(d) == [os.path.basename(p)], lambda: f"{what}: {op} wrote {os.listdir(d)}")
        got = read(p)
        c.check(got == (old_bytes if model == "old" else new_bytes), lambda: f"{what}: after {op} the file is not the {model} schema")
    c.check(canon(load_schema(p)) == expected(("sec", "Conf", tuple(old if model == "old" else new)), 0 if model == "old" else bumped), lambda: f"{what}: wrong schema in the file")
    c.agreed()
    c.state((what, model, n, default, bumped))


def h_commands(c):
    pos = c.choose("position", S.POSITIONS if c.thorough else ("top", "optsec"))
    t = c.choose("type", S.TYPES if c.thorough else [S.INT, S.opt(S.E1), S.lst(S.E1), S.opt(S.L1), S.L1])
    d = c.choose("default", (S.NO, S.default_for(t, True)))
    f = ("rate", t, d)
    few = c09.PT[:3] if c.thorough else c09.PT[:1]
    e = S.edit(c, "edit", f, types=few, addtypes=few)
    old, prefix, opaque = S.place(pos, [f])
    new, _, _ = S.place(pos, e.fields)
    changes = c09.locate(e.expected, prefix, opaque)
    if opaque and not changes and e.fields != [f]:
        raise Skip()  # whether this is a change of the type is not specified
    if opaque and changes and e.severity != "break":
        raise Skip()
    sequences(c, old, new, changes, e.severity, f"{pos}: {f} became {e.fields}")


def h_sections(c):
    name, old, new, changes, sev = c.choose("case", c09.SECTIONS)
    k = ("k", S.INT, S.NO)
    sequences(c, (k,) + tuple(old), (k,) + tuple(new), changes, sev, name)


def h_rules(c):
    """An incompatible change that a rule of the class resolves: the file is upgraded."""
    from hyperstate.schema.rewrite_rule import AddDefault, ChangeDefault, DeleteField, RenameField

    k = ("k", S.INT, S.NO)
    R = ("rate", S.INT, S.NO)
    cases = [
        ("removed", [R], [], [DeleteField(("rate",))]),
        ("renamed", [R], [("rates", S.INT, S.NO)], [RenameField(("rate",), ("rates",))]),
        ("default changed", [("rate", S.INT, 3)], [("rate", S.INT, 4)], [ChangeDefault(("rate",), 3, 4)]),
        ("default removed", [("rate", S.INT, 3)], [R], [AddDefault(("rate",), 3)]),
        ("required field", [], [R], [AddDefault(("rate",), 3)]),
    ]
    name, o, n, rules = c.choose("case", cases)
    right = c.choose("rule", ("right", "at the next version"))
    changes = [("TypeChanged", ("rate",), {})] if name == "required field" else []
    sequences(c, (k,) + tuple(o), (k,) + tuple(n), changes if right == "right" else None, "info" if right == "right" else "break", f"{name}, rule {right}", {0 if right == "right" else 1: rules})


HARNESSES = [("roundtrip", h_roundtrip), ("instances", h_instances), ("docs", h_docs), ("commands", h_commands), ("sections", h_sections), ("rules", h_rules)]
