"""
Schemas as plain data: the alphabet of the schema checker harnesses (C08, C09, C10, C24).

A type is a tuple: ("int",) ("float",) ("str",) ("bool",) ("lit", values) ("enum", name, ((variant, value), ...))
("opt", T) ("list", T) ("dict", T) ("idict", T: with int keys) ("tuple", (T, ...)) ("union", (T, ...)) ("sec", class name, fields).
A field is (name, type, default); the default of an enum is ("V", variant name), of a section ("inst", ((name, value), ...)).
"""
import copy
import gc
import dataclasses
import enum
import os
import tempfile
import typing

from mc.ref import St


class _No:
    def __repr__(self):
        return "-"


NO = _No()
INT, FLOAT, STR, BOOL = ("int",), ("float",), ("str",), ("bool",)
PRIM = {"int": int, "float": float, "str": str, "bool": bool}
_enums = {}


def lit(*v):
    return ("lit", v)


def en(name="E", **variants):
    return ("enum", name, tuple(variants.items()))


def opt(t):
    return ("opt", t)


def lst(t):
    return ("list", t)


def sec(name, *fields):
    return ("sec", name, tuple(fields))


def pytype(t, made):
    k = t[0]
    if k in PRIM:
        return PRIM[k]
    if k == "lit":
        return typing.Literal[t[1]]
    if k == "enum":
        if t not in _enums:
            _enums[t] = enum.Enum(t[1], dict(t[2]))
        return _enums[t]
    if k == "opt":
        return typing.Optional[pytype(t[1], made)]
    if k == "list":
        return typing.List[pytype(t[1], made)]
    if k == "dict":
        return typing.Dict[str, pytype(t[1], made)]
    if k == "idict":
        return typing.Dict[int, pytype(t[1], made)]
    if k == "tuple":
        return typing.Tuple[tuple(pytype(x, made) for x in t[1])]
    if k == "union":
        return typing.Union[tuple(pytype(x, made) for x in t[1])]
    if k == "sec":
        k = repr(t)
        if k not in made:
            made[k] = build_dc(t[1], t[2], made)
        return made[k]
    raise KeyError(k)


def pyvalue(t, d, made):
    """The Python value of a plain default ``d`` of type ``t``."""
    if d is None:
        return None
    if t[0] == "opt":
        return pyvalue(t[1], d, made)
    if isinstance(d, tuple) and d and d[0] == "V":
        return pytype(t, made)[d[1]]
    if isinstance(d, tuple) and d and d[0] == "inst":
        fs = {n: ft for n, ft, _ in t[2]}
        return pytype(t, made)(**{n: pyvalue(fs[n], v, made) for n, v in d[1]})
    if t[0] == "list":
        return [pyvalue(t[1], x, made) for x in d]
    if t[0] in ("dict", "idict"):
        return {k: pyvalue(t[1], x, made) for k, x in d.items()}
    return d


def build_dc(name, fields, made, bases=(), ns=None):
    # fields without a default first: the order of declaration does not matter to the checker
    out = []
    for n, t, d in sorted(fields, key=lambda f: f[2] is not NO):
        pt = pytype(t, made)
        if d is NO:
            out.append((n, pt))
        else:
            v = pyvalue(t, d, made)
            if isinstance(v, (list, dict)):
                out.append((n, pt, dataclasses.field(default_factory=lambda v=v: copy.deepcopy(v))))
            else:
                out.append((n, pt, v))
    c = dataclasses.make_dataclass(name, out, bases=bases, namespace={"__doc__": "doc", **(ns or {})})
    c.__module__ = "mcschemas"
    return c


_built = 0
_recent = {}  # the classes built last: most executions of a harness share the old class


def build(fields, version=0, rules=None, name="Conf"):
    if rules:
        return _build(fields, version, rules, name)
    key = (repr(fields), version, name)
    if key not in _recent:
        if len(_recent) >= 8:
            del _recent[next(iter(_recent))]
        _recent[key] = _build(fields, version, None, name)
    else:
        _recent[key] = _recent.pop(key)
    return _recent[key]


def _build(fields, version, rules, name):
    from hyperstate import Versioned

    global _built
    _built += 1
    if _built % 60 == 0:
        # subclass checks against an ABC visit every live subclass
        gc.collect()

    table = {} if rules is None else rules
    ns = dict(version=classmethod(lambda clz: version), upgrade_rules=classmethod(lambda clz: table))
    return build_dc(name, fields, {}, bases=(Versioned,), ns=ns)


def via_file(c, cls):
    """The schema as recorded in a file and read back."""
    from hyperstate.schema.schema_checker import _dump_schema
    from hyperstate.schema.types import load_schema

    d = tempfile.mkdtemp()
    c.scratch_dirs.append(d)
    p = os.path.join(d, "schema.ron")
    _dump_schema(p, cls)
    return load_schema(p)


def omittable(f):
    n, t, d = f
    return d is not NO or (t[0] == "sec" and all(omittable(x) for x in t[2]))


def few(t):
    """Recorded values (RON trees) of a type."""
    k = t[0]
    if k == "int":
        return [3, -4]
    if k == "float":
        return [0.5, 2.0]
    if k == "str":
        return ["u", "a"]
    if k == "bool":
        return [True, False]
    if k == "lit":
        return list(t[1])
    if k == "enum":
        return [v for _, v in t[2]]
    if k == "opt":
        return [None] + few(t[1])
    if k == "list":
        x = few(t[1])
        return [[], x[:1], [x[-1], x[0]]]
    if k == "dict":
        x = few(t[1])
        return [{}, {"k": x[0], "it's": x[-1]}]
    if k == "idict":
        x = few(t[1])
        return [{}, {3: x[0], -10: x[-1]}]
    if k == "tuple":
        xs = [few(a) for a in t[1]]
        return [tuple(x[0] for x in xs), tuple(x[-1] for x in xs)]
    if k == "union":
        return [v for a in t[1] for v in few(a)[:2]]
    if k == "sec":
        full = {n: few(ft) for n, ft, _ in t[2]}
        out = [St(t[1], {n: v[0] for n, v in full.items()}), St(t[1], {n: v[-1] for n, v in full.items()})]
        part = St(t[1], {n: v[0] for n, v in full.items() if not omittable([f for f in t[2] if f[0] == n][0])})
        if part.fields != out[0].fields:
            out.append(part)
        return out
    raise KeyError(k)


def gen_config(c, fields, label="", main=None):
    """Every old config: each field absent (where allowed) or one of its values; ``main`` paths get all values."""
    out = {}
    for f in fields:
        n, t, d = f
        if t[0] == "sec":
            opts = (["absent"] if omittable(f) else []) + ["given"]
            if c.choose(f"{label}{n}", opts) == "given":
                out[n] = St(t[1], gen_config(c, t[2], f"{label}{n}.", main))
            continue
        if t[0] == "opt" and t[1][0] == "sec":
            opts = (["absent"] if omittable(f) else []) + ["None", "given"]
            k = c.choose(f"{label}{n}", opts)
            if k == "None":
                out[n] = None
            elif k == "given":
                out[n] = St(t[1][1], gen_config(c, t[1][2], f"{label}{n}.", main))
            continue
        vals = few(t)
        if main is not None and n not in main:
            vals = vals[:1]
        opts = (["absent"] if omittable(f) else []) + vals
        v = c.choose(f"{label}{n}", opts)
        if not (isinstance(v, str) and v == "absent"):
            out[n] = v
    return out


# -- positions: where in the config the edited fields live -----------------------
def place(pos, slot, w=("w", INT, 1)):
    """(top-level fields, path prefix or container path, opaque) for slot fields at a position."""
    k = ("k", INT, NO)
    s = tuple(slot) + (w,)
    if pos == "top":
        return (k,) + tuple(slot), (), False
    if pos == "sec":
        return (k, ("s", sec("S", *s), NO)), ("s",), False
    if pos == "secreq":
        return (k, ("s", sec("S", *slot, ("w", INT, NO)), NO)), ("s",), False
    if pos == "deep":
        return (k, ("s", sec("S", ("t", sec("T", *s), NO), ("v", STR, "v")), NO)), ("s", "t"), False
    if pos == "opt":
        return (k, ("o", opt(sec("S", *s)), None)), ("o",), False
    if pos == "optreq":
        return (k, ("o", opt(sec("S", *s)), NO)), ("o",), False
    if pos == "list":
        return (k, ("l", lst(sec("S", *s)), [])), ("l",), False
    if pos == "listreq":
        return (k, ("l", lst(sec("S", *s)), NO)), ("l",), False
    if pos == "listopt":
        return (k, ("l", lst(opt(sec("S", *s))), NO)), ("l",), False
    if pos == "optsec":
        return (k, ("o", opt(sec("S", ("t", sec("T", *s), NO))), None)), ("o", "t"), False
    if pos == "dict":
        return (k, ("d", ("dict", sec("S", *s)), NO)), ("d",), True
    if pos == "tuple":
        return (k, ("t", ("tuple", (sec("S", *s), INT)), NO)), ("t",), True
    if pos == "union":
        return (k, ("u", ("union", (sec("S", *s), INT)), NO)), ("u",), True
    raise KeyError(pos)


POSITIONS = ["top", "sec", "secreq", "deep", "opt", "optreq", "list", "listreq", "listopt", "optsec", "dict", "tuple", "union"]

E1 = en(A="a", B="b")
EN = en("N", A=1, B="1")
L1 = lit("a", "b")
TYPES = [
    INT, FLOAT, STR, BOOL, L1, lit("u", "a", 7), E1, opt(INT), opt(FLOAT), opt(STR), opt(L1), opt(E1), lst(INT), lst(FLOAT), lst(STR), lst(L1), lst(E1),
    lst(opt(INT)), opt(lst(INT)), lst(lst(INT)), ("dict", INT), ("dict", FLOAT), ("tuple", (INT, STR)), ("tuple", (FLOAT, STR)), ("union", (INT, STR)), ("union", (FLOAT, STR)),
    EN, opt(EN), ("idict", INT), ("idict", FLOAT), ("tuple", (INT,)), ("tuple", (INT, STR, STR)), opt(("dict", INT)), opt(("tuple", (INT, STR))),
]  # fmt: skip


def default_for(t, alt=False):
    """A default of type t (``alt``: a different one)."""
    k = t[0]
    if k == "enum":
        return ("V", t[2][-1][0] if alt else t[2][0][0])
    if k == "opt":
        return default_for(t[1]) if alt else None
    if k == "list":
        return [default_for(t[1])] if alt else []
    if k == "dict":
        return {"z": default_for(t[1])} if alt else {}
    if k == "idict":
        return {7: default_for(t[1])} if alt else {}
    if k == "tuple":
        return tuple(default_for(x, alt) for x in t[1])
    if k == "union":
        return default_for(t[1][-1 if alt else 0])
    v = few(t)
    return v[-1] if alt else v[0]


# -- literals: every literal of one or two values out of these, no two of them equal ----------------------------
LITVALS = (0, 1, 2, False, True, "1", "true", "True", "")
LITS = [lit(v) for v in LITVALS] + [lit(v, w) for i, v in enumerate(LITVALS) for w in LITVALS[i + 1 :] if v != w]
LITWRAPS = [
    ("plain", lambda t: t), ("opt", opt), ("list", lst), ("optlist", lambda t: opt(lst(t))), ("listopt", lambda t: lst(opt(t))),
    ("dict", lambda t: ("dict", t)), ("tuple", lambda t: ("tuple", (INT, t))), ("sec", lambda t: sec("S", ("x", t, NO))), ("listsec", lambda t: lst(sec("S", ("x", t, NO)))),
]  # fmt: skip


# -- edits --------------------------------------------------------------------------
class Edit:
    """What became of one field: the new fields and the changes this makes."""

    def __init__(self, fields, expected=(), severity="info", renamed=None, vmap=None, gone=False):
        self.fields = list(fields)
        self.expected = list(expected)  # (kind, path relative to the position, details)
        self.severity = severity  # "info": must not be above; "break": must be above; None: either
        self.renamed = renamed  # new relative path of the field
        self.vmap = vmap  # enum variant name -> new variant name
        self.gone = gone


def inner(t):
    """The leaf type below options and lists, and a function to rebuild the type around another leaf."""
    if t[0] in ("opt", "list"):
        leaf, wrap = inner(t[1])
        return leaf, lambda x: (t[0], wrap(x))
    return t, lambda x: x


def recorded(t, d):
    """The default as the schema records it."""
    if isinstance(d, tuple) and d and d[0] == "V":
        return dict(inner(t)[0][2])[d[1]]
    if isinstance(d, list):
        return [recorded(t, x) for x in d]
    return d


def uses(d, x):
    """Whether a default contains the enum variant ``x``."""
    return d == ("V", x) or (isinstance(d, list) and any(uses(e, x) for e in d))


def replace_variant(d, x, y):
    if isinstance(d, list):
        return [replace_variant(e, x, y) for e in d]
    return ("V", y) if d == ("V", x) else d


def lit_minus(a, b):
    """Values of literal a that literal b does not have: true and 1 are different values."""
    other = {(type(v).__name__, v) for v in b}
    return {v for v in a if (type(v).__name__, v) not in other}


def subtype(a, b):
    """Every recorded value of type a loads, with the same value, as type b (sufficient, per the documented relations)."""
    if a == b:
        return True
    if a[0] == "lit" and b[0] == "lit":
        return not lit_minus(a[1], b[1])
    if a[0] == "lit" and b == STR:
        return all(isinstance(v, str) for v in a[1])
    if a == INT and b == FLOAT:
        return True
    if b[0] == "opt":
        return subtype(a[1] if a[0] == "opt" else a, b[1])
    if a[0] == b[0] and a[0] in ("list", "dict", "idict"):
        return subtype(a[1], b[1])
    if a[0] == b[0] == "tuple":
        return len(a[1]) == len(b[1]) and all(map(subtype, a[1], b[1]))
    if a[0] == b[0] == "enum":
        return set(a[2]) <= set(b[2])
    return False


def retype_changes(n, a, b):
    """Expected change kinds for a field whose type changed from a to b."""
    la, wa = inner(a)
    lb, wb = inner(b)
    if wa(INT) == wb(INT) and la[0] == lb[0] == "lit":
        out = []
        if lit_minus(lb[1], la[1]):
            out.append(("LiteralValuesAdded", (n,), {"values": lit_minus(lb[1], la[1])}))
        if lit_minus(la[1], lb[1]):
            out.append(("LiteralValuesRemoved", (n,), {"values": lit_minus(la[1], lb[1])}))
        return out
    return [("TypeChanged", (n,), {})] if a != b else []


GENERAL = ["same", "remove", "rename", "rename2", "replace", "retype", "new default", "no default", "add default", "optional"]
ADDS = ["add with default", "add required", "add two"]
ENUM = ["variant added", "variant removed", "variant renamed", "variant value", "variant swap", "variant chain", "variant name and value", "variant added and renamed"]
LIT = ["value added", "value removed", "value replaced"]


def edits_for(t, d, n):
    leaf = inner(t)[0]
    out = list(GENERAL) + ADDS
    if leaf[0] == "enum":
        out += ENUM
    if leaf[0] == "lit":
        out += LIT
    return out


RENAME = {"rate": "rates", "color": "colour"}
RENAME2 = {"rate": "r_ate", "color": "Color"}
OTHER = {"rate": "zzz", "color": "hhh"}


def edit(c, label, f, which=None, types=TYPES, addtypes=TYPES):
    """Choose an edit of field f; returns an Edit."""
    from mc.engine import Skip

    n, t, d = f
    e = c.choose(label, which or edits_for(t, d, n))
    leaf, wrap = inner(t)
    had = d is not NO
    rec = recorded(t, d)
    if e == "same":
        return Edit([f])
    if e == "remove":
        return Edit([], [("FieldRemoved", (n,), {})], "break", gone=True)
    if e in ("rename", "rename2"):
        m = (RENAME if e == "rename" else RENAME2)[n]
        return Edit([(m, t, d)], [("FieldRenamed", (n,), {"new_name": (m,)})], "break", renamed=(m,))
    if e == "replace":
        m = OTHER[n]
        return Edit(
            [(m, t, default_for(t) if d is NO else d)],
            [("FieldRemoved", (n,), {}), ("FieldAdded", (m,), {"has_default": True})],
            "break",
            gone=True,
        )
    if e == "retype":
        b = c.choose(label + " to", types)
        if b == t or (leaf[0] == inner(b)[0][0] == "enum" and leaf != inner(b)[0]):
            raise Skip()  # what became of the variants is for the edits below
        nd = NO if not had else default_for(b)
        exp = retype_changes(n, t, b)
        if had and recorded(t, d) != recorded(b, nd):
            exp.append(("DefaultValueChanged", (n,), {"old": rec, "new": recorded(b, nd)}))
        ok = subtype(t, b) and not (had and recorded(t, d) != recorded(b, nd))
        return Edit([(n, b, nd)], exp, "info" if ok else "break")
    if e == "new default":
        if not had:
            raise Skip()
        nd = default_for(t, True)
        if recorded(t, nd) == rec:
            raise Skip()
        return Edit([(n, t, nd)], [("DefaultValueChanged", (n,), {"old": rec, "new": recorded(t, nd)})], "break")
    if e == "no default":
        if not had:
            raise Skip()
        return Edit([(n, t, NO)], [("DefaultValueRemoved", (n,), {"old": rec})], "break")
    if e == "add default":
        if had:
            raise Skip()
        return Edit([(n, t, default_for(t))], [], "info")
    if e == "optional":
        if t[0] == "opt":
            raise Skip()
        return Edit([(n, opt(t), d)], [("TypeChanged", (n,), {})], "info")
    if e == "add with default":
        b = c.choose(label + " type", addtypes)
        return Edit([f, (OTHER[n], b, default_for(b))], [("FieldAdded", (OTHER[n],), {"has_default": True, "default": recorded(b, default_for(b))})], "info")
    if e == "add required":
        b = c.choose(label + " type", addtypes)
        return Edit([f, (OTHER[n], b, NO)], [("FieldAdded", (OTHER[n],), {"has_default": False})], "break")
    if e == "add two":
        return Edit(
            [f, (OTHER[n], INT, 1), (OTHER[n] + "q", sec("Q", ("x", INT, 2)), NO)],
            [("FieldAdded", (OTHER[n],), {"has_default": True}), ("FieldAdded", (OTHER[n] + "q", "x"), {"has_default": True})],
            "info",
        )
    if e.startswith("variant"):
        vs = dict(leaf[2])
        names = list(vs)
        keep = {v: v for v in names}
        x = c.choose(label + " variant", names)
        nd = d
        exp = []
        sev = "break"
        is_default = had and uses(d, x)
        if e == "variant added":
            vs["NEWX"] = "newx"
            exp, sev = [("EnumVariantAdded", (n,), {"variant": "NEWX", "variant_value": "newx"})], "info"
        elif e == "variant removed":
            old = vs.pop(x)
            if not vs:
                raise Skip()
            keep[x] = None
            exp = [("EnumVariantRemoved", (n,), {"variant": x, "variant_value": old})]
            if is_default:
                nd = replace_variant(d, x, list(vs)[0])
                exp.append(("DefaultValueChanged", (n,), {"old": rec, "new": recorded(wrap(("enum", leaf[1], tuple(vs.items()))), nd)}))
        elif e == "variant renamed":
            vs = {(k + "_" if k == x else k): v for k, v in vs.items()}
            keep[x] = x + "_"
            nd = replace_variant(d, x, x + "_")
            exp, sev = [("EnumVariantRenamed", (n,), {"old_variant_name": x, "new_variant_name": x + "_"})], "info"
        elif e == "variant value":
            vs[x] = "changed"
            exp = [("EnumVariantValueChanged", (n,), {"variant": x, "old_value": dict(leaf[2])[x], "new_value": "changed"})]
        elif e == "variant swap":
            y = names[(names.index(x) + 1) % len(names)]
            if x != names[0] or len(names) < 2:
                raise Skip()
            vs[x], vs[y] = vs[y], vs[x]
            exp = [("EnumVariantValueChanged", (n,), {"variant": v, "old_value": vs[w], "new_value": vs[v]}) for v, w in ((x, y), (y, x))]
        elif e == "variant chain":
            y = names[(names.index(x) + 1) % len(names)]
            if len(names) < 2:
                raise Skip()
            vs[x], vs[y] = vs[y], "last"
            exp = [("EnumVariantValueChanged", (n,), {"variant": v, "new_value": vs[v]}) for v in (x, y)]
        elif e == "variant name and value":
            vs = {(k + "_" if k == x else k): ("changed" if k == x else v) for k, v in vs.items()}
            keep[x] = x + "_"
            nd = replace_variant(d, x, x + "_")
            exp = [("EnumVariantValueChanged", (n,), {"old_value": dict(leaf[2])[x], "new_value": "changed"})]
            if is_default:
                exp.append(("DefaultValueChanged", (n,), {"old": rec}))
        elif e == "variant added and renamed":
            vs = {(k + "_" if k == x else k): v for k, v in vs.items()}
            vs["NEWX"] = "newx"
            keep[x] = x + "_"
            nd = replace_variant(d, x, x + "_")
            exp = [("EnumVariantRenamed", (n,), {"old_variant_name": x, "new_variant_name": x + "_"}), ("EnumVariantAdded", (n,), {"variant": "NEWX"})]
            sev = "info"
        return Edit([(n, wrap(("enum", leaf[1], tuple(vs.items()))), nd)], exp, sev, vmap=keep)
    if e.startswith("value"):
        vals = list(leaf[1])
        if e == "value added":
            new, exp, sev = vals + ["new", 9], [("LiteralValuesAdded", (n,), {"values": {"new", 9}})], "info"
        else:
            x = c.choose(label + " value", vals)
            new = [v for v in vals if v != x]
            exp, sev = [("LiteralValuesRemoved", (n,), {"values": {x}})], "break"
            if e == "value replaced":
                new.append("new")
                exp.insert(0, ("LiteralValuesAdded", (n,), {"values": {"new"}}))
            if not new:
                raise Skip()
        nd = d
        if had and not isinstance(d, list) and d is not None and d not in new:
            nd = new[0]
            exp.append(("DefaultValueChanged", (n,), {"old": rec, "new": nd}))
        return Edit([(n, wrap(lit(*new)), nd)], exp, sev)
    raise KeyError(e)


# -- old configs ----------------------------------------------------------------
ABSENT = object()


def configs(fields, rich=("rate", "color", "lr", "s", "x", "e", "f")):
    """Every recorded config: each field absent (where allowed) or given, ``rich`` fields with each of their values."""
    out = [{}]
    for f in fields:
        n, t, d = f
        vals = trees(t, rich) if n in rich or inner(t)[0][0] == "sec" else few(t)[:1]
        if omittable(f):
            vals = [ABSENT] + vals
        out = [{**o, **({} if v is ABSENT else {n: v})} for o in out for v in vals]
    return out


def trees(t, rich):
    if t[0] == "sec":
        return [St(t[1], o) for o in configs(t[2], rich)]
    if t[0] == "opt":
        return [None] + trees(t[1], rich)
    if t[0] == "list" and inner(t)[0][0] == "sec":
        x = trees(t[1], rich)
        return [[]] + [[y] for y in x] + [[x[-1], x[0]]]
    return few(t)


def nconfigs(fields):
    return len(configs(fields))


def text(tree, version):
    from mc.ref import ron

    return ron(St("Conf", {"version": version, **tree}))


def plain(v):
    """A loaded value as plain data: sections become dicts, enums ("V", variant name, value)."""
    if dataclasses.is_dataclass(v):
        return {k: plain(getattr(v, k)) for k in v.__dataclass_fields__}
    if isinstance(v, enum.Enum):
        return ("V", v.name, v.value)
    if isinstance(v, list):
        return [plain(x) for x in v]
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    return v


def is_variant(v):
    return isinstance(v, tuple) and len(v) == 3 and v[0] == "V"


def equal(a, b, by_name=None):
    """Whether a shared field reads the same before (a) and after (b)."""
    if is_variant(a) or is_variant(b):
        if not (is_variant(a) and is_variant(b)):
            return False
        return (by_name.get(a[1], a[1]) == b[1]) if by_name is not None else a[2] == b[2]
    if isinstance(a, bool) or isinstance(b, bool):
        return type(a) == type(b) and a == b
    if isinstance(a, dict) and isinstance(b, dict):
        return all(equal(a[k], b[k], by_name) for k in a.keys() & b.keys())
    if isinstance(a, (list, tuple)) and type(a) == type(b):
        return len(a) == len(b) and all(equal(x, y, by_name) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b
    return type(a) == type(b) and a == b


def _kind(t):
    """sec, opt of sec, list of ...: the shape of a type without its details."""
    return (t[0], _kind(t[1])) if t[0] in ("opt", "list") else t[0]
