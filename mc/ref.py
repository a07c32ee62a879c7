"""
Reference model of (de)serialization: deliberately boring, independent of the code
under test.  Works on typing objects / dataclasses and on small RON trees.
"""
import dataclasses
import enum
import math
import typing

NoneT = type(None)


# -- comparison --------------------------------------------------------------
def same(a, b):
    """Equal, with the same types at every level (0.0 == -0.0, nan == nan)."""
    if type(a) is not type(b):
        return False
    if dataclasses.is_dataclass(a) and not isinstance(a, type):
        return all(same(getattr(a, f), getattr(b, f)) for f in a.__dataclass_fields__)
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        if len(a) != len(b):
            return False
        for k in a:
            if k not in b or not same(a[k], b[k]):
                return False
        return sorted(map(_tk, a)) == sorted(map(_tk, b))
    if type(a).__module__ == "numpy":
        return repr(a) == repr(b)
    return a == b


def _tk(k):
    return repr((type(k).__name__, k))


def show(v, n=400):
    s = canon(v)
    return s if len(s) <= n else s[: n - 3] + "..."


def canon(v):
    """Canonical text of a value (types included); used for state hashing."""
    if dataclasses.is_dataclass(v) and not isinstance(v, type):
        return (
            type(v).__name__
            + "("
            + ", ".join(f"{f}={canon(getattr(v, f))}" for f in v.__dataclass_fields__)
            + ")"
        )
    if isinstance(v, enum.Enum):
        return str(v)
    if isinstance(v, list):
        return "[" + ", ".join(map(canon, v)) + "]"
    if isinstance(v, tuple):
        return "(" + ", ".join(map(canon, v)) + ",)"
    if isinstance(v, dict):
        return "{" + ", ".join(f"{canon(k)}: {canon(x)}" for k, x in v.items()) + "}"
    return repr(v)


# -- RON trees ---------------------------------------------------------------
class St:
    """A struct literal: optional name, ordered fields."""

    def __init__(self, name=None, fields=None):
        self.name = name
        self.fields = dict(fields or {})

    def __repr__(self):
        return ron(self)

    def copy(self):
        return St(self.name, {k: clone(v) for k, v in self.fields.items()})


class Braces(St):
    """A section written as a map."""

    def copy(self):
        return Braces(None, {k: clone(v) for k, v in self.fields.items()})


class Id:
    """A bare identifier."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class Raw:
    """Literal source text for a scalar, with the Python value it denotes."""

    def __init__(self, text, value):
        self.text = text
        self.value = value

    def __repr__(self):
        return self.text


def clone(n):
    if isinstance(n, St):
        return n.copy()
    if isinstance(n, list):
        return [clone(x) for x in n]
    if isinstance(n, tuple):
        return tuple(clone(x) for x in n)
    if isinstance(n, dict):
        return {k: clone(v) for k, v in n.items()}
    return n


def ron_str(s):
    out = ['"']
    for ch in s:
        if ch == '"':
            out.append('\\"')
        elif ch == "\\":
            out.append("\\\\")
        elif ch == "\n":
            out.append("\\n")
        elif ch == "\r":
            out.append("\\r")
        elif ch == "\t":
            out.append("\\t")
        elif ch == "\0":
            out.append("\\0")
        else:
            out.append(ch)
    out.append('"')
    return "".join(out)


def ron(n):
    if n is None:
        return "None"
    if n is True:
        return "true"
    if n is False:
        return "false"
    if isinstance(n, (Id, Raw)):
        return repr(n)
    if isinstance(n, int):
        return str(n)
    if isinstance(n, float):
        return repr(n)
    if isinstance(n, str):
        return ron_str(n)
    if isinstance(n, list):
        return "[" + ", ".join(map(ron, n)) + "]"
    if isinstance(n, tuple):
        return "(" + ", ".join(map(ron, n)) + ")"
    if isinstance(n, dict):
        return "{" + ", ".join(f"{ron(k)}: {ron(v)}" for k, v in n.items()) + "}"
    if isinstance(n, Braces):
        return "{" + ", ".join(f"{ron_str(k)}: {ron(v)}" for k, v in n.fields.items()) + "}"
    if isinstance(n, St):
        return (n.name or "") + "(" + ", ".join(f"{k}: {ron(v)}" for k, v in n.fields.items()) + ")"
    raise TypeError(n)


def to_tree(v, names=True):
    """The RON tree a value is recorded as (all fields written out)."""
    if dataclasses.is_dataclass(v):
        t = St(type(v).__name__ if names else None)
        if hasattr(type(v), "version"):
            t.fields["version"] = type(v).version()
        for f in v.__dataclass_fields__:
            t.fields[f] = to_tree(getattr(v, f), names)
        return t
    if isinstance(v, enum.Enum):
        return v.value
    if isinstance(v, list):
        return [to_tree(x, names) for x in v]
    if isinstance(v, tuple):
        return tuple(to_tree(x, names) for x in v)
    if isinstance(v, dict):
        return {k: to_tree(x, names) for k, x in v.items()}
    return v


# -- typing helpers ------------------------------------------------------------
def origin(t):
    return typing.get_origin(t)


def args(t):
    return typing.get_args(t)


def is_opt(t):
    return origin(t) is typing.Union and len(args(t)) == 2 and NoneT in args(t)


def opt_inner(t):
    return [a for a in args(t) if a is not NoneT][0]


def is_dc(t):
    return isinstance(t, type) and dataclasses.is_dataclass(t)


def is_enum(t):
    return isinstance(t, type) and issubclass(t, enum.Enum)


def conforms(t, v):
    """Does value v have declared type t (bool counts as int, as in Python)?"""
    if t is typing.Any:
        return True
    if t in (int, str, bool, float):
        return isinstance(v, t)
    if t is NoneT:
        return v is None
    if origin(t) is typing.Union:
        return any(conforms(a, v) for a in args(t))
    if origin(t) is list:
        return isinstance(v, list) and all(conforms(args(t)[0], x) for x in v)
    if origin(t) is tuple:
        return isinstance(v, tuple) and len(v) == len(args(t)) and all(conforms(a, x) for a, x in zip(args(t), v))
    if origin(t) is dict:
        k, x = args(t)
        return isinstance(v, dict) and all(conforms(k, a) and conforms(x, b) for a, b in v.items())
    if origin(t) is typing.Literal:
        return any(type(v) is type(a) and v == a for a in args(t))
    if is_enum(t):
        return isinstance(v, t)
    if is_dc(t):
        return isinstance(v, t) and all(conforms(f.type, getattr(v, n)) for n, f in t.__dataclass_fields__.items())
    raise TypeError(f"conforms: {t}")


class Err(Exception):
    pass


def default_of(f):
    """(has_default, value) of a dataclass field."""
    if f.default is not dataclasses.MISSING:
        return True, f.default
    if f.default_factory is not dataclasses.MISSING:
        return True, f.default_factory()
    return False, None


def build_default(t):
    """An instance of dataclass t built only from declared defaults, or Err."""
    kw = {}
    for n, f in t.__dataclass_fields__.items():
        has, d = default_of(f)
        if has:
            kw[n] = d
        elif is_dc(f.type):
            kw[n] = build_default(f.type)
        else:
            raise Err(f"missing {n}")
    return t(**kw)


MUST, MAY, ERR = "must", "may", "err"


def _comb(ks):
    if ERR in ks:
        return ERR
    return MAY if MAY in ks else MUST


def conv(t, n, ignore=False):
    """
    What loading node ``n`` as type ``t`` may do: (MUST, v) must give v; (MAY, v)
    gives v or an error; (ERR, None) must raise.
    """
    if isinstance(n, Raw):
        n = n.value
    if isinstance(n, St) and not n.name and not n.fields and not isinstance(n, Braces):
        n = None  # `()` is read as the empty value
    if t is NoneT:
        return (MUST, None) if n is None else (ERR, None)
    if is_opt(t):
        if n is None:
            return MUST, None
        return conv(opt_inner(t), n, ignore)
    if origin(t) is typing.Union:
        return conv_union(t, n, ignore)
    if t is bool:
        return (MUST, n) if isinstance(n, bool) else (ERR, None)
    if t is int:
        if isinstance(n, bool):
            return MAY, n
        if isinstance(n, int):
            return MUST, n
        if isinstance(n, float):
            if math.isfinite(n) and n == int(n):
                return MUST, int(n)
            return ERR, None
        if isinstance(n, str):
            v = num(n)
            if v is not None and (isinstance(v, int) or (math.isfinite(v) and v == int(v))):
                return (MUST if plain_num(n) else MAY), int(v)
            return ERR, None
        return ERR, None
    if t is float:
        if isinstance(n, bool):
            return MAY, float(n)
        if isinstance(n, (int, float)):
            return MUST, float(n)
        if isinstance(n, str):
            v = num(n)
            if v is not None:
                return (MUST if plain_num(n) else MAY), float(v)
        return ERR, None
    if t is str:
        if isinstance(n, str):
            return MUST, n
        if isinstance(n, Id):
            return MAY, n.name
        return ERR, None
    if is_enum(t):
        if isinstance(n, (Id, St, list, dict, tuple)) or n is None:
            if isinstance(n, Id):
                for m in t:
                    if m.name == n.name or m.value == n.name:
                        return MAY, m
            return ERR, None
        for m in t:
            if type(m.value) is type(n) and m.value == n:
                return MUST, m
        for m in t:
            if m.value == n or m.name == n:
                return MAY, m
        return ERR, None
    if origin(t) is typing.Literal:
        for a in args(t):
            if type(a) is type(n) and a == n:
                return MUST, a
        for a in args(t):
            if isinstance(n, Id):
                if a == n.name:
                    return MAY, a
            elif not isinstance(n, St) and a == n and isinstance(a, bool) == isinstance(n, bool):
                return MAY, a
        return ERR, None
    if origin(t) is list:
        if not isinstance(n, list):
            return ERR, None
        r = [conv(args(t)[0], x, ignore) for x in n]
        return _comb([k for k, _ in r]), [v for _, v in r]
    if origin(t) is tuple:
        if not isinstance(n, tuple) or len(n) != len(args(t)):
            return ERR, None
        r = [conv(a, x, ignore) for a, x in zip(args(t), n)]
        return _comb([k for k, _ in r]), tuple(v for _, v in r)
    if origin(t) is dict:
        may = False
        if isinstance(n, St):
            may = True
            items = list(n.fields.items())
            if n.name:
                items.append(("!__name__", n.name))
        elif isinstance(n, Id):
            may = True
            items = [("!__name__", n.name)]
        elif isinstance(n, dict):
            items = list(n.items())
        else:
            return ERR, None
        ks = [conv(args(t)[0], k, ignore) for k, _ in items]
        vs = [conv(args(t)[1], v, ignore) for _, v in items]
        kind = _comb([k for k, _ in ks + vs])
        if kind == ERR:
            return ERR, None
        # converted keys are only promised when they need no conversion
        if any(not same(a[1], k) for a, (k, _) in zip(ks, items)):
            may = True
        out = {}
        for a, b in zip(ks, vs):
            if a[1] in out:
                return MAY, None
            out[a[1]] = b[1]
        return (MAY if may else kind), out
    if is_dc(t):
        return conv_dc(t, n, ignore)
    raise TypeError(f"conv: {t}")


def conv_dc(t, n, ignore):
    may = False
    if n is None:
        # `()` or None for a section: an error, or the all-defaults section
        may = True
        fields = {}
    elif isinstance(n, Id):
        fields = {}
    elif isinstance(n, St):
        fields = n.fields
    elif isinstance(n, dict):
        if not all(isinstance(k, str) for k in n):
            return ERR, None
        fields = n
    else:
        return ERR, None
    fields = dict(fields)
    if hasattr(t, "version") and not isinstance(n, type(None)):
        # version handling is modelled by the callers that need it
        fields.pop("version", None)
    kw = {}
    kinds = []
    for k, v in fields.items():
        f = t.__dataclass_fields__.get(k)
        if f is None:
            if ignore:
                continue
            return ERR, None
        kind, val = conv(f.type, v, ignore)
        if kind == ERR:
            return ERR, None
        kinds.append(kind)
        kw[k] = val
    for k, f in t.__dataclass_fields__.items():
        if k in kw:
            continue
        has, d = default_of(f)
        if has:
            kw[k] = d
        elif is_dc(f.type):
            try:
                kw[k] = build_default(f.type)
            except Err:
                return ERR, None
        else:
            return ERR, None
    kind = _comb(kinds)
    if may and kind == MUST:
        kind = MAY
    return kind, t(**kw)


def conv_union(t, n, ignore):
    """Unions: exact arms must load; anything else may, but only as a conforming value."""
    arms = args(t)
    cands = []
    for a in arms:
        k, v = conv(a, n, ignore)
        if k != ERR:
            cands.append((a, k, v))
    if not cands:
        return ERR, None
    if isinstance(n, St) and n.name:
        named = [c for c in cands if is_dc(c[0]) and c[0].__name__ == n.name]
        if named:
            return named[0][1], named[0][2]
        if any(is_dc(a) and a.__name__ == n.name for a in arms):
            return ERR, None
    if isinstance(n, Id):
        named = [c for c in cands if is_dc(c[0]) and c[0].__name__ == n.name]
        if named:
            return named[0][1], named[0][2]
    exact = [c for c in cands if type(n) is c[0] or (n is None and c[0] is NoneT)]
    if exact:
        return MUST, exact[0][2]
    cont = [c for c in cands if origin(c[0]) is type(n)]
    if len(cont) == 1:
        return cont[0][1], cont[0][2]
    # a conversion that C03 names and that no other arm competes with
    if len(cands) == 1 and cands[0][0] in (int, float):
        return cands[0][1], cands[0][2]
    return MAY, AnyOf([c[2] for c in cands])


class AnyOf:
    def __init__(self, vals):
        self.vals = vals

    def __repr__(self):
        return "any of " + ", ".join(map(canon, self.vals))


def matches(v, want):
    """Like same(), where ``want`` may contain AnyOf leaves and None-valued MAY dicts."""
    if isinstance(want, AnyOf):
        return any(matches(v, w) for w in want.vals)
    if dataclasses.is_dataclass(want):
        return type(v) is type(want) and all(
            matches(getattr(v, f), getattr(want, f)) for f in want.__dataclass_fields__
        )
    if isinstance(want, (list, tuple)):
        return type(v) is type(want) and len(v) == len(want) and all(matches(a, b) for a, b in zip(v, want))
    if isinstance(want, dict):
        return (
            type(v) is dict
            and len(v) == len(want)
            and all(k in v and matches(v[k], want[k]) for k in want)
        )
    return same(v, want)


def num(s):
    """The number a text denotes, or None."""
    try:
        return int(s)
    except ValueError:
        pass
    try:
        return float(s)
    except ValueError:
        return None


def plain_num(s):
    import re

    return re.fullmatch(r"-?\d+(\.\d+)?([eE][+-]?\d+)?", s) is not None
