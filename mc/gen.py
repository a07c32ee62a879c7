"""Class shapes and values: the alphabets every data-shape harness draws from."""
import dataclasses
import enum
import typing
from typing import Dict, List, Literal, Optional, Tuple, Union

_cache = {}


class Color(enum.Enum):
    RED = "red"
    BLUE = "Blue"
    GREEN = "GREEN"
    Blue = "navy"  # the name is the value of another member


class Level(enum.Enum):
    LOW = 1
    HIGH = 2


def mk(name, fields, bases=(), ns=None, key=None, doc=None):
    """
    Build (and cache) a dataclass.  ``fields``: list of (name, type) or
    (name, type, default); a default that is a list/dict becomes a factory.
    """
    k = (name, repr([(f[0], _tkey(f[1])) + tuple(map(_vkey, f[2:])) for f in fields]), bases, key, doc)
    if k in _cache:
        return _cache[k]
    fs = []
    for f in fields:
        if len(f) == 2:
            fs.append((f[0], f[1]))
        else:
            d = f[2]
            if isinstance(d, (list, dict)):
                import copy

                fs.append((f[0], f[1], dataclasses.field(default_factory=lambda d=d: copy.deepcopy(d))))
            elif callable(d) and getattr(d, "_factory", False):
                fs.append((f[0], f[1], dataclasses.field(default_factory=d)))
            else:
                fs.append((f[0], f[1], d))
    n = dict(ns or {})
    if doc:
        n["__doc__"] = doc
    c = dataclasses.make_dataclass(name, fs, bases=bases, namespace=n)
    c.__module__ = "mcgen"
    _cache[k] = c
    return c


def _tkey(t):
    if isinstance(t, type):
        return (t.__name__, id(t))
    return (repr(t), tuple(_tkey(a) for a in typing.get_args(t) if not isinstance(a, (str, int))))


def _vkey(v):
    from mc.ref import canon

    return canon(v)


def versioned(name, fields, version, rules=None, key=None):
    from hyperstate import Versioned

    rules = rules or {}
    ns = dict(
        version=classmethod(lambda clz: version),
        upgrade_rules=classmethod(lambda clz: rules),
    )
    k = (name, repr([(f[0], _tkey(f[1])) + tuple(map(_vkey, f[2:])) for f in fields]), version, key)
    if key is not None and k in _cache:
        return _cache[k]
    c = mk(name, fields, bases=(Versioned,), ns=ns, key=object())
    if key is not None:
        _cache[k] = c
    return c


# leaf sections used inside containers
A = mk("A", [("x", int), ("s", str, "d")])
B = mk("B", [("x", int), ("y", float, 0.5)])
E = mk("E", [])
INNER = mk("INNER", [("p", int, 1), ("q", float, 2.0)])
LIT = Literal["x", "y", 5]

PRIMS = [int, float, str, bool, Color, LIT, Level]

INTS = [0, 1, -1, 7, 2**31, 2**53 + 1, 2**63 - 1, -(2**63)]
FLOATS = [0.0, 0.1, -1.5, 1.0, 1e22, 1e-7, 1.5e-17, 5e-324, 1.7976931348623157e308, 123456789.123456789, -0.0, 3e5]
STRS = ["", "a", "a b", "it's", '"q"', "back\\slash", "new\nline", "tab\t", "ünï", "\x07", "1", "1.5", "None", "true",
        "lin: 1@0 2@10", "x@y", "<blob:msgpack>", "<BLOB>", "\u0301", "\U0001f600", "//c", "/*c*/", "(a: 1)", "\\u{41}", "!__name__", "0.00000000000000000001.0", " 3.5.0 "]


def leaf_values(t, rich):
    if t is int:
        return INTS if rich else [3, -4]
    if t is float:
        return FLOATS if rich else [0.5, 2.0]
    if t is str:
        return STRS if rich else ["u", "it's"]
    if t is bool:
        return [True, False]
    if t is Color or t is Level:
        return list(t)
    if typing.get_origin(t) is Literal:
        return list(typing.get_args(t))
    raise TypeError(t)


def gen_type(c, depth, label="type", nested_only=False):
    """Every type expression up to ``depth`` constructors."""
    kinds = ["prim"]
    if depth > 0:
        kinds += ["opt", "list", "tuple", "dict", "idict", "dc", "dcdef", "union", "empty"]
    k = c.choose(label, kinds)
    if k == "prim":
        return c.choose(label + ".p", PRIMS)
    if k == "union":
        return c.choose(
            label + ".u",
            [
                Union[A, B],
                Union[A, E, None],
                Union[int, str],
                Union[float, A],
                Union[List[int], Dict[str, int], str],
                Union[bool, int, float, str],
                Union[List[A], A],
                Union[Tuple[int, int], A],
            ],
        )
    if k == "empty":
        return E
    inner = gen_type(c, depth - 1, label + "/")
    return wrap(k, inner)


def wrap(k, inner):
    if k == "opt":
        return Optional[inner]
    if k == "list":
        return List[inner]
    if k == "tuple":
        return Tuple[inner, int]
    if k == "dict":
        return Dict[str, inner]
    if k == "idict":
        return Dict[int, inner]
    if k == "dc":
        return mk("N", [("v", inner), ("w", int)])
    if k == "dcdef":
        return mk("D", [("w", int, 4), ("v", Optional[inner], None)])
    raise KeyError(k)


def gen_value(c, t, rich=True, label="v"):
    """Every value of type t over the alphabets (containers: 0, 1 or 2 elements)."""
    from mc.ref import is_opt, opt_inner, is_dc, origin, args, NoneT

    if t is NoneT:
        return None
    if is_opt(t):
        if c.choose(label + "?", ("none", "some")) == "none":
            return None
        return gen_value(c, opt_inner(t), rich, label)
    o = origin(t)
    if o is Union:
        a = c.choose(label + "|", args(t))
        return gen_value(c, a, False, label)
    if o is list:
        n = c.choose(label + "#", (0, 1, 2))
        return [gen_value(c, args(t)[0], rich and n == 1, f"{label}[{i}]") for i in range(n)]
    if o is tuple:
        return tuple(gen_value(c, a, rich and i == 0, f"{label}({i})") for i, a in enumerate(args(t)))
    if o is dict:
        n = c.choose(label + "#", (0, 1, 2))
        keys = ["k", "it's"] if args(t)[0] is str else [0, -3]
        return {k: gen_value(c, args(t)[1], rich and n == 1, f"{label}[{k}]") for k in keys[:n]}
    if is_dc(t):
        return t(**{n: gen_value(c, f.type, False, f"{label}.{n}") for n, f in t.__dataclass_fields__.items()})
    return c.choose(label, leaf_values(t, rich))


def few(t):
    """A small fixed set of values of type t (used where several fields combine)."""
    from mc.ref import is_opt, opt_inner, is_dc, origin, args, NoneT

    if t is NoneT:
        return [None]
    if is_opt(t):
        return [None] + few(opt_inner(t))[:2]
    o = origin(t)
    if o is Union:
        return [few(a)[0] for a in args(t)]
    if o is list:
        x = few(args(t)[0])
        return [[], x[:1], [x[-1], x[0]]]
    if o is tuple:
        xs = [few(a) for a in args(t)]
        return [tuple(x[0] for x in xs), tuple(x[-1] for x in xs)]
    if o is dict:
        x = few(args(t)[1])
        keys = ["k", "it's"] if args(t)[0] is str else [0, -3]
        return [{}, {keys[0]: x[0]}, {keys[0]: x[-1], keys[1]: x[0]}]
    if is_dc(t):
        if not t.__dataclass_fields__:
            return [t()]
        xs = {n: few(f.type) for n, f in t.__dataclass_fields__.items()}
        return [t(**{n: x[0] for n, x in xs.items()}), t(**{n: x[-1] for n, x in xs.items()})]
    if t is bool:
        return [True, False]
    if t is str:
        return ["u", "it's", ""]
    if t is int:
        return [3, -4]
    if t is float:
        return [0.5, 2.0]
    return leaf_values(t, False)[:2]


# -- chains of constructors ----------------------------------------------------
CHAIN = ("list", "opt", "dict", "idict", "tuple", "dc")


def chain(c, depth):
    """The constructors of a type of exactly ``depth`` levels, outermost first."""
    return [c.choose(f"c{i}", CHAIN) for i in range(depth)]


def chain_type(kinds, leaf):
    t = leaf
    for k in reversed(kinds):
        if k == "list":
            t = List[t]
        elif k == "opt":
            t = Optional[t]
        elif k == "dict":
            t = Dict[str, t]
        elif k == "idict":
            t = Dict[int, t]
        elif k == "tuple":
            t = Tuple[t, int]
        else:
            t = mk("CH", [("v", t), ("n", int, 1)])
    return t


def chain_value(kinds, leaf, v):
    """A value of chain_type that holds ``v`` in the middle of its neighbours."""
    if not kinds:
        return v
    k, x = kinds[0], chain_value(kinds[1:], leaf, v)
    if k == "list":
        return [x, x]
    if k == "opt":
        return x
    if k == "dict":
        return {"a b": x, "k.j": x}
    if k == "idict":
        return {-1: x, 12: x}
    if k == "tuple":
        return (x, 3)
    return mk("CH", [("v", chain_type(kinds[1:], leaf)), ("n", int, 1)])(x, 2)
