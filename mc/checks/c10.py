"""C10: adopting the proposed upgrade rules makes old configs load with the same values."""
import contextlib
import io

import click
import hyperstate
from hyperstate.schema.schema_checker import SchemaChecker
from hyperstate.schema import rewrite_rule, types
from hyperstate.schema.schema_change import DefaultValueRemoved, Severity, TypeChanged
from hyperstate.schema.types import materialize_type

from mc import schemas as S
from mc.checks import c09
from mc.engine import Skip
from mc.ref import St

RULE = (
    "every edit and pair of edits of C09 for whose changes the checker proposes rules: the rules are added to the class at the "
    "version of the recorded schema and the version is bumped, once (once per level for whole sections that disappear); then the checker must be "
    "satisfied and every old config over the value alphabet is loaded by the old and by the upgraded class and compared"
)
BOUND = {
    "quick": "one edit at 7 positions (type changes over all pairs of 34 types at 2 positions), pairs of edits on 3 types at 2 positions, all cases of edited sections in 4 contexts, two successive edits",
    "thorough": "type changes over all pairs of types at every position, pairs of edits on 9 types at 5 positions, two successive edits over 9 types at 4 positions",
}
ASSUMPTIONS = [
    "enum values are the same if they are the same variant (by name, or by the value of a renamed variant)",
    "old configs over the alphabet of two or three values per type; numbers compare by value (an int read as float)",
    "a whole section that disappears may take one round of adopting proposals per level",
]
# changes which always come with a proposal (enum values: unless the field is a list)
PROPOSED = ("FieldRemoved", "FieldRenamed", "DefaultValueChanged", "DefaultValueRemoved", "EnumVariantValueChanged", "LiteralValuesRemoved", "EnumVariantAdded", "EnumVariantRenamed", "LiteralValuesAdded")
POSITIONS = [p for p in S.POSITIONS if p not in ("dict", "tuple", "union")]


class Adopted:
    def __init__(self, cls, version, rules):
        self.cls, self.version, self.rules = cls, version, rules


def printed(c, checker, what):
    """The proposed rules as the report prints them, to be copied into the class."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        checker.print_report()
    text = click.unstyle(out.getvalue()).partition("- add upgrade rules:\n")[2]
    c.op("report")
    code = text[: text.rindex("    ],\n") + 6]
    try:
        table = eval("{" + code + "}", {k: getattr(rewrite_rule, k) for k in dir(rewrite_rule)})
    except Exception as e:
        c.fail(f"{what}: the proposed rules can not be used as printed ({type(e).__name__}: {e}): {code}")
    c.check(list(table) == [checker.old.version], lambda: f"{what}: rules proposed for versions {list(table)}, the schema is at {checker.old.version}")
    c.check(len(table[checker.old.version]) == len(checker.proposed_fixes), lambda: f"{what}: {len(checker.proposed_fixes)} rules, printed: {code}")
    return table[checker.old.version]


class Stuck:
    """Adopting the proposals did not satisfy the checker."""

    def __init__(self, rules, why, known):
        self.rules, self.why, self.known = rules, why, known


def wraps(ch):
    return isinstance(ch, TypeChanged) and isinstance(ch.new, types.List) and ch.new.inner == ch.old


def section_to_optional(old_cls, new_cls, path):
    """Whether a section with defaults for all of its fields became optional without a default."""
    ts = []
    for cls in (old_cls, new_cls):
        t = materialize_type(cls)
        for p in path:
            t = types._unwrap_container_type(t).fields[p].type
        ts.append(t)
    return isinstance(ts[0], types.Struct) and isinstance(ts[1], types.Option)


def adopt(c, make, cls, what, start=0, table=None, rounds=1):
    """Adds proposed rules until the checker is satisfied; None if it does not have a rule for every change."""
    table = {k: list(v) for k, v in (table or {}).items()}
    version = start
    known = None
    for round in range(6):
        new_cls = make(version, table)
        try:
            checker = SchemaChecker(materialize_type(cls), new_cls)
        except AssertionError as e:
            return Stuck(table, f"refuses the rules: {e}", known)
        c.op("compare")
        serious = [ch for ch in checker.changes if ch.severity() > Severity.INFO]
        if not serious:
            c.check(checker.severity() == Severity.INFO, lambda: f"{what}: severity {checker.severity()} without any serious change")
            return Adopted(new_cls, version, table)
        if any(ch.proposed_fix() is None for ch in serious):
            if round == 0:
                return None
            break
        if any(wraps(ch) for ch in serious):
            # recorded finding: the rule proposed for T -> List[T] does not change the type (or default) of the field
            known = "list-wrap"
        if any(isinstance(ch, DefaultValueRemoved) and section_to_optional(cls, new_cls, ch.field) for ch in serious):
            # recorded finding: the schema does not remember that AddDefault specified the section
            known = "section-to-optional"
        if round >= rounds and known is None:
            return Stuck(table, f"still reports {[c09.describe(x) for x in serious]}", None)
        table.setdefault(version, []).extend(printed(c, checker, what))
        version += 1
    return Stuck(table, f"still reports {[c09.describe(x) for x in serious]}", known)


def resolved(c, adopted, what):
    if adopted is None:
        c.outcome = "no proposal"
        c.agreed()
        return False
    if isinstance(adopted, Stuck):
        c.check(False, f"{what}: after adopting {adopted.rules} the checker {adopted.why}", kf=adopted.known)
    return True


def values(v):
    if S.is_variant(v):
        yield v[2]
    elif isinstance(v, dict):
        for x in v.values():
            yield from values(x)
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from values(x)
    else:
        yield v


def at(v, path):
    """The dict(s) at a section path of a loaded config (through lists and optionals)."""
    if isinstance(v, list):
        return [y for x in v for y in at(x, path)]
    if v is None:
        return []
    if not path:
        return [v]
    return at(v[path[0]], path[1:])


def strip(v):
    return v[2] if S.is_variant(v) else [strip(x) for x in v] if isinstance(v, list) else v


def typed(v):
    """For comparisons that tell true from 1."""
    return (isinstance(v, bool), v)


def same(a, b, edit):
    """A field before and after."""
    vmap = edit.vmap
    conv = edit.conv
    if conv == "list":
        a = [a]
    if conv == "plain":
        a = strip(a)
    return S.equal(a, b, vmap)


def loadall(c, old_fields, old_cls, adopted, what, edits):
    """``edits``: (section path before, section path after, field name, Edit)."""
    for tree in S.configs(old_fields):
        text = S.text(tree, 0)
        old = S.plain(hyperstate.loads(old_cls, text))
        used = set()
        for pre, _, n, e in edits:
            for s in at(old, pre):
                if e.only is not None and typed(strip(s[n])) not in [typed(v) for v in e.only]:
                    used.add(repr(s[n]))
                used.update(v for v in values(s[n]) if typed(v) in [typed(w) for w in e.removed or ()])
        try:
            new = S.plain(hyperstate.loads(adopted.cls, text))
        except Exception as e:
            if used:  # the config contains, or had as its default, a value that the new type no longer has
                c.op("rejected")
                continue
            c.fail(f"{what}, with the proposed rules {adopted.rules}: {text} raises {type(e).__name__}: {e}")
        c.op("load")
        for pre, post, n, e in edits:
            before, after = at(old, pre), at(new, post)
            c.check(len(before) == len(after), lambda: f"{what}, with the proposed rules {adopted.rules}: {text} read {old} before and {new} after")
            m = e.renamed[0] if e.renamed else n
            for x, y in zip(before, after):
                v = x.pop(n)
                if e.gone:
                    c.check(n not in y, "removed field still there")
                else:
                    c.check(m in y and same(v, y.pop(m), e), lambda: f"{what}, with the proposed rules {adopted.rules}: {text} read {old} ({n} = {v}) before and {new} after")
        c.check(S.equal(old, new), lambda: f"{what}, with the proposed rules {adopted.rules}: {text} reads {old} before and {new} after")


def prepare(e, f):
    """What becomes of the values of the edited field."""
    n, t, d = f
    e.conv, e.removed, e.only = None, None, None
    if e.gone or not e.fields:
        return e
    nt = [x for x in e.fields if x[0] == (e.renamed[0] if e.renamed else n)][0][1]
    (leaf, wrap), (nleaf, nwrap) = S.inner(t), S.inner(nt)
    if nt == S.lst(t):
        e.conv = "list"
    elif nleaf[0] == "lit":
        if leaf[0] == "enum":
            e.conv = "plain"
        if leaf[0] == "lit":
            e.removed = S.lit_minus(leaf[1], nleaf[1])
        if nt[0] == "lit" or (nt[0] == "opt" and nt[1][0] == "lit"):
            e.only = list(nleaf[1]) + ([None] if nt[0] == "opt" else [])
    return e


def h_edit(c):
    pos = c.choose("position", POSITIONS if c.thorough else ("top", "sec", "deep", "opt", "list", "listopt", "optsec"))
    t = c.choose("type", S.TYPES)
    d = c.choose("default", (S.NO, S.default_for(t), S.default_for(t, True)))
    f = ("rate", t, d)
    full = c.thorough or pos in ("top", "opt")
    e = prepare(S.edit(c, "edit", f, types=S.TYPES if full else S.TYPES[:5], addtypes=S.TYPES if full else [S.INT, S.opt(S.E1), S.lst(S.INT)]), f)
    old, pre, _ = S.place(pos, [f])
    new, _, _ = S.place(pos, e.fields)
    what = f"{pos}: {f} became {e.fields}"
    old_cls = S.build(old)
    a = adopt(c, lambda v, r: S.build(new, v, r), old_cls, what)
    must = all(k in PROPOSED and not (k == "EnumVariantValueChanged" and "list" in repr(t)) for k, _, _ in e.expected)
    c.check(a is not None or not must, lambda: f"{what}: nothing is proposed for some of {e.expected}")
    if not resolved(c, a, what):
        return
    loadall(c, old, old_cls, a, what, [(pre, pre, "rate", e)])
    c.outcome = f"{a.version} rounds"
    c.agreed()
    c.state((pos, repr(f), repr(e.fields)))


def h_pairs(c):
    where = c.choose("where", ("top", "sec", "opt", "list", "apart") if c.thorough else ("top", "apart"))
    ts = c09.PT if c.thorough else c09.PT[:3]
    t1 = c.choose("type1", ts)
    d1 = c.choose("default1", (S.NO, S.default_for(t1)))
    t2 = c.choose("type2", ts)
    d2 = c.choose("default2", (S.NO, S.default_for(t2, True)) if c.thorough or where == "top" else (S.default_for(t2, True),))
    f1, f2 = ("rate", t1, d1), ("color", t2, d2)
    few = c09.PT[:2]
    e1 = prepare(S.edit(c, "edit1", f1, types=few, addtypes=few), f1)
    e2 = prepare(S.edit(c, "edit2", f2, types=few, addtypes=few), f2)
    if where == "apart":
        o1, p1, _ = S.place("sec", [f1])
        n1, _, _ = S.place("sec", e1.fields)
        p2 = ()
        old, new = o1 + (f2,), n1 + tuple(e2.fields)
    else:
        old, p1, _ = S.place(where, [f1, f2])
        p2 = p1
        new, _, _ = S.place(where, e1.fields + e2.fields)
    what = f"{where}: {f1} became {e1.fields} and {f2} became {e2.fields}"
    old_cls = S.build(old)
    a = adopt(c, lambda v, r: S.build(new, v, r), old_cls, what)
    if not resolved(c, a, what):
        return
    loadall(c, old, old_cls, a, what, [(p1, p1, "rate", e1), (p2, p2, "color", e2)])
    c.outcome = f"{a.version} rounds"
    c.agreed()
    c.state((where, repr(f1), repr(f2), repr(e1.fields), repr(e2.fields)))


# Edits of c09.SECTIONS and where the fields went: {old path: new path}; all other fields keep their path
MOVED = {
    "moved into section": {("lr",): ("s", "lr")},
    "moved out of section": {("s", "lr"): ("lr",)},
    "moved between sections": {("s", "lr"): ("r", "lr")},
    "two renames": {("learning_rate",): ("lr",), ("batch_size",): ("bs",)},
    "best match wins": {("batch_size",): ("batchsize",)},
    "rename to a wider type": {("rate",): ("rates",)},
}


def h_sections(c):
    """Whole sections added, removed, made optional, moved."""
    name, o, n, _, _ = c.choose("case", c09.SECTIONS)
    ctx = c.choose("context", ("top", "sec", "opt", "list"))
    k = ("k", S.INT, S.NO)
    if ctx == "top":
        pre, old, new = (), (k,) + tuple(o), (k,) + tuple(n)
    else:
        w = {"sec": lambda t: t, "opt": S.opt, "list": S.lst}[ctx]
        pre = ("c",)
        old = (k, ("c", w(S.sec("C", ("w", S.INT, S.NO), *o)), S.NO))
        new = (k, ("c", w(S.sec("C", ("w", S.INT, S.NO), *n)), S.NO))
    what = f"{name} ({ctx})"
    old_cls = S.build(old)
    a = adopt(c, lambda v, r: S.build(new, v, r), old_cls, what, rounds=3)
    if not resolved(c, a, what):
        return
    moved = MOVED.get(name, {})
    for tree in S.configs(old, rich=("lr", "rate", "s", "x", "e", "f", "learning_rate", "batch_size")):
        text = S.text(tree, 0)
        before = S.plain(hyperstate.loads(old_cls, text))
        try:
            after = S.plain(hyperstate.loads(a.cls, text))
        except Exception as e:
            c.fail(f"{what}, with the proposed rules {a.rules}: {text} raises {type(e).__name__}: {e}")
        c.op("load")
        x, y = at(before, pre), at(after, pre)
        c.check(len(x) == len(y), lambda: f"{what}, with the proposed rules {a.rules}: {text} reads {before} before and {after} after")
        for u, v in zip(x, y):
            for p, q in moved.items():
                m = at(u, p[:-1])[0].pop(p[-1])
                d = at(v, q[:-1])[0]
                c.check(q[-1] in d and S.equal(m, d.pop(q[-1])), lambda: f"{what}, with the proposed rules {a.rules}: {text} reads {before} before and {after} after")
        if not any(len(f) and f[0] == "s" and S._kind(f[1]) != S._kind(g[1]) for f in o for g in n if g[0] == f[0]):
            c.check(S.equal(before, after), lambda: f"{what}, with the proposed rules {a.rules}: {text} reads {before} before and {after} after")
    c.outcome = f"{a.version} rounds"
    c.agreed()
    c.state((name, ctx))


def h_literals(c):
    """Every literal against every other, and literals from the types of their values: true and 1 are different values."""
    where, wrap = c.choose("where", [w for w in S.LITWRAPS if w[0] in ("plain", "opt", "list", "listopt", "sec", "listsec")])
    few = not c.thorough and where not in ("plain", "opt")
    lits = S.LITS[: len(S.LITVALS)] + S.LITS[-3:] if few else S.LITS
    a = c.choose("old", lits + [S.INT, S.BOOL, S.STR])
    b = c.choose("new", lits)
    name = "x" if where.endswith("sec") else "rate"
    pre = ("rate",) if name == "x" else ()
    f = (name, wrap(a) if name == "rate" else a, S.NO)
    e = prepare(S.Edit([(name, wrap(b) if name == "rate" else b, S.NO)]), f)
    k = ("k", S.INT, S.NO)
    old, new = (k, ("rate", wrap(a), S.NO)), (k, ("rate", wrap(b), S.NO))
    what = f"{where}: {a} became {b}"
    old_cls = S.build(old)
    adopted = adopt(c, lambda v, r: S.build(new, v, r), old_cls, what)
    if not resolved(c, adopted, what):
        return
    loadall(c, old, old_cls, adopted, what, [(pre, pre, name, e)])
    c.outcome = f"{adopted.version} rounds"
    c.agreed()
    c.state((where, a, b))


TWICE = ["same", "remove", "rename", "rename2", "new default", "no default", "add default", "optional", "add with default"] + S.ENUM + S.LIT


def h_twice(c):
    """A second edit on top of the first; the oldest configs are loaded with both sets of rules."""
    pos = c.choose("position", ("top", "sec", "opt", "list") if c.thorough else ("top", "opt"))
    t = c.choose("type", c09.PT if c.thorough else [S.INT, S.E1, S.opt(S.E1), S.L1])
    d = c.choose("default", (S.NO, S.default_for(t), S.default_for(t, True)))
    f = ("rate", t, d)
    k = S.inner(t)[0][0]
    which = [e for e in TWICE if not (e in S.ENUM and k != "enum") and not (e in S.LIT and k != "lit")]
    few = c09.PT[:1]
    e1 = prepare(S.edit(c, "edit1", f, which=which, types=few, addtypes=few), f)
    if len(e1.fields) != 1 and e1.fields[:1] != [f]:
        raise Skip()
    g = e1.fields[0]
    if g[0] not in S.RENAME:
        which = [e for e in which if e not in ("rename", "rename2", "add with default")]
    kg = S.inner(g[1])[0]
    e2 = prepare(S.edit(c, "edit2", g, which=which, types=few, addtypes=few), g)
    if len(e1.fields) > 1 and len(e2.fields) > 1:
        raise Skip()
    if any(x[0] == "enum" and len({v for _, v in x[2]}) < len(x[2]) for _, t2, _ in e2.fields for x in [S.inner(t2)[0]]):
        raise Skip()  # two names for one variant
    old, pre, _ = S.place(pos, [f])
    mid, _, _ = S.place(pos, e1.fields)
    new, _, _ = S.place(pos, e2.fields + e1.fields[1:])
    what = f"{pos}: {f} became {e1.fields} and then {e2.fields}"
    old_cls = S.build(old)
    a = adopt(c, lambda v, r: S.build(mid, v, r), old_cls, what)
    if not resolved(c, a, what):
        return
    b = adopt(c, lambda v, r: S.build(new, v, r), a.cls, what, a.version, a.rules)
    if not resolved(c, b, what):
        return
    e = S.Edit(e2.fields, gone=e2.gone, renamed=e2.renamed or e1.renamed)
    e.conv, e.only = None, None
    e.removed = (e1.removed or set()) | (e2.removed or set())
    if e1.vmap or e2.vmap:
        m1 = e1.vmap or {}
        m2 = e2.vmap or {}
        e.vmap = {x: m2.get(m1.get(x, x), m1.get(x, x)) for x, _ in S.inner(t)[0][2]}
    loadall(c, old, old_cls, b, what, [(pre, pre, "rate", e)])
    c.outcome = f"{b.version} rounds"
    c.agreed()
    c.state((pos, repr(f), repr(e1.fields), repr(e2.fields)))


HARNESSES = [("edit", h_edit), ("pairs", h_pairs), ("literals", h_literals), ("sections", h_sections), ("twice", h_twice)]
