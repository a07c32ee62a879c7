"""C18: binary data survives a save and load bit for bit."""
import os
import tempfile

import hyperstate
import numpy as np
from hyperstate import Lazy, Serializable, StateManager

from mc import gen
from mc.engine import Skip

RULE = (
    "every dtype (all numeric kinds and widths in both byte orders, bool, strings, dates, raw, structured with nested, packed, "
    "padded and array members) x every shape (0-d, empty, 1 to 5 dimensions) x every memory layout (C, Fortran, reversed, "
    "strided, transposed, broadcast, read-only, unaligned) x every container around it, filled with bit patterns including "
    "NaN payloads, signed zeros and extremes; every value next to the arrays; every dictionary that resembles an encoded array "
    "up to one or two edits; all saved and restored through files"
)
BOUND = {
    "quick": "all dtypes x shapes x layouts in one container, all containers on a reduced set; lookalikes with up to 2 edits",
    "thorough": "all dtypes x shapes x layouts x containers; lookalikes with up to 3 edits; pairs of arrays of different dtypes",
}
ASSUMPTIONS = ["numpy without torch (torch is not installed here)", "padding between the fields of structured elements is not content (numpy does not copy it)", "tuples come back as lists (the storage format has no tuples)", "numpy scalars and arrays of Python objects may be refused with an error"]


class Box(Serializable):
    def __init__(self, payload):
        self.payload = payload

    def serialize(self):
        return self.payload

    @classmethod
    def deserialize(cls, state_dict, config, state, ctx):
        return cls(state_dict)


LZ = gen.mk("LZ", [("step", int), ("b", Box)], bases=(Lazy,), key="c18")
PL = gen.mk("PL", [("step", int), ("b", Box)], key="c18")
CFG = gen.mk("CFG", [("u", float, 1.0)], key="c18")

BASIC = ["?", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f2", "f4", "f8", "g", "c8", "c16", "S1", "S5", "U1", "U3", "M8[ns]", "M8[D]", "m8[s]", "V3"]


def dtypes():
    out = []
    for b in BASIC:
        for e in "<>":
            d = np.dtype(e + b)
            if d not in [x for x in out if x.str == d.str]:
                out.append(d)
    out += [
        np.dtype([("a", "<f4"), ("b", ">i2")]),
        np.dtype([("a", [("c", ">f8"), ("d", "S3")]), ("b", "i1", (2, 3))]),
        np.dtype([("x", "i1"), ("y", "<f8")], align=True),
        np.dtype({"names": ["p", "q"], "formats": ["i1", "<i4"], "offsets": [6, 1], "itemsize": 9}),
    ]
    return out


DTYPES = dtypes()
SHAPES = [(), (0,), (1,), (3,), (7,), (0, 3), (2, 3), (2, 0, 2), (2, 1, 2), (1, 2, 1, 3, 1)]
LAYOUTS = ["C", "F", "reversed", "strided", "transposed", "broadcast", "readonly", "offset"]
SEEDS = [0, 1]


def pattern(n, seed):
    base = bytes([0x00, 0x00, 0xF8, 0x7F, 0x01, 0x80, 0xFF, 0xFF, 0x00, 0x80, 0x7F, 0xF0, 0x10, 0x27, 0xC0, 0xFF, 0x01, 0x00, 0xF0, 0x7F, 0xAA])
    if seed:
        base = base[::-1]
    return (base * (n // len(base) + 1))[:n]


def fill(dt, shape, seed):
    n = int(np.prod(shape, dtype=int))
    if dt.kind == "?" or dt.kind == "b":
        a = np.array([(i + seed) % 3 == 0 for i in range(n)], dt)
    elif dt.kind == "U":
        a = np.array([["", "ü", "ab\U0001f600"[: dt.itemsize // 4], "xyz"[: dt.itemsize // 4]][(i + seed) % 4] for i in range(n)], dt)
    else:
        a = np.frombuffer(pattern(n * dt.itemsize, seed), "u1").copy().view(dt) if n else np.zeros(0, dt)
    return a.reshape(shape)


def array(dt, shape, layout, seed):
    if layout == "C":
        return fill(dt, shape, seed)
    if layout == "F":
        return np.asfortranarray(fill(dt, shape, seed)).reshape(shape)
    if layout == "reversed":
        if not shape:
            raise Skip()
        return fill(dt, shape, seed)[tuple(slice(None, None, -1) for _ in shape)]
    if layout == "strided":
        if not shape:
            raise Skip()
        return fill(dt, shape[:-1] + (shape[-1] * 2,), seed)[..., ::2]
    if layout == "transposed":
        if len(shape) < 2:
            raise Skip()
        return fill(dt, shape[::-1], seed).T
    if layout == "broadcast":
        if not shape:
            raise Skip()
        return np.broadcast_to(fill(dt, shape[1:], seed), shape)
    if layout == "readonly":
        a = fill(dt, shape, seed)
        a.flags.writeable = False
        return a
    if layout == "offset":
        n = int(np.prod(shape, dtype=int))
        if dt.kind in "b?U" or n == 0:
            raise Skip()
        raw = np.frombuffer(b"\x55" + pattern(n * dt.itemsize, seed), "u1").copy()
        return raw[1:].view(dt).reshape(shape) if dt.itemsize else fill(dt, shape, seed)


def content(a):
    """The bytes of the elements, without the padding between the fields of structured elements (which numpy does not copy)."""
    if a.dtype.names is None:
        return a.tobytes()
    return b"".join(content(a[name]) for name in a.dtype.names)


def same_array(c, got, want, what):
    c.check(type(got) is np.ndarray, lambda: f"{what}: got {type(got).__name__} {str(got)[:100]}")
    c.check(got.dtype == want.dtype and got.dtype.str == want.dtype.str and got.dtype.fields == want.dtype.fields, lambda: f"{what}: dtype {got.dtype!r}, expected {want.dtype!r}")
    c.check(got.shape == want.shape, lambda: f"{what}: shape {got.shape}, expected {want.shape}")
    c.check(content(got) == content(want), lambda: f"{what}: bytes {content(got)[:64]!r}, expected {content(want)[:64]!r}")
    c.check(got.flags.writeable, f"{what}: restored array is read-only")


def compare(c, got, want, what="payload", arrays=None):
    if isinstance(want, np.ndarray):
        same_array(c, got, want, what)
        if arrays is not None:
            arrays.append(got)
    elif isinstance(want, (list, tuple)):
        c.check(type(got) is list and len(got) == len(want), lambda: f"{what}: got {str(got)[:100]}, expected {str(want)[:100]}")
        for i, (a, b) in enumerate(zip(got, want)):
            compare(c, a, b, f"{what}[{i}]", arrays)
    elif isinstance(want, dict):
        c.check(type(got) is dict and [(type(k), k) for k in got] == [(type(k), k) for k in want], lambda: f"{what}: got {str(got)[:200]}, expected {str(want)[:200]}")
        for k in want:
            compare(c, got[k], want[k], f"{what}[{k!r}]", arrays)
    else:
        ok = type(got) is type(want) and (got == want or (got != got and want != want)) and (not isinstance(want, float) or np.float64(got).tobytes() == np.float64(want).tobytes())
        c.check(ok, lambda: f"{what}: got {got!r}, expected {want!r}")


def copy_of(v):
    if isinstance(v, np.ndarray):
        return np.frombuffer(v.tobytes(), "u1").copy().view(v.dtype).reshape(v.shape) if v.size and v.dtype.itemsize else np.zeros(v.shape, v.dtype)
    if isinstance(v, (list, tuple)):
        return [copy_of(x) for x in v]
    if isinstance(v, dict):
        return {k: copy_of(x) for k, x in v.items()}
    return v


def roundtrip(c, payload, how="lazy"):
    d = tempfile.mkdtemp()
    c.scratch_dirs.append(d)
    want = copy_of(payload)
    if how == "manager":
        sm = StateManager(CFG, LZ, lambda cfg, ctx: LZ(1, Box(payload)), None, d)
        sm.step()
        got = StateManager(CFG, LZ, lambda cfg, ctx: None, None, d).state
    else:
        cls = LZ if how == "lazy" else PL
        p = os.path.join(d, "state.ron")
        hyperstate.dump(cls(1, Box(payload)), p)
        got = hyperstate.load(cls, p)
    c.op("roundtrip")
    arrays = []
    compare(c, got.b.payload, want, arrays=arrays)
    compare(c, copy_of(payload), want, "original after saving")
    # writable and independent: overwriting one leaves the others
    before = [a.tobytes() for a in arrays]
    for i, a in enumerate(arrays):
        if a.nbytes == 0:
            continue
        a[...] = np.zeros((), a.dtype)
        c.check(all(arrays[j].tobytes() == before[j] for j in range(len(arrays)) if j > i), "restored arrays share memory")
    return got


CONTAINERS = {
    "bare": lambda a: a,
    "dict": lambda a: {"w": a, "n": 1},
    "list twice": lambda a: [a, a],
    "deep": lambda a: {"layers": [{"w": a, "name": "l0"}, {"w": a[...], "k": [[a]]}], 3: {"x": a}, b"bytes": a},
    "tuple": lambda a: (1, (a, "s"), None),
    "siblings": lambda a: [a, np.arange(3, dtype=">i4"), {"z": np.zeros((2, 0)), "t": b"\x00\xff"}],
}


def h_arrays(c):
    i = c.choose("dtype", range(len(DTYPES)))
    dt = DTYPES[i]
    shape = c.choose("shape", SHAPES)
    layout = c.choose("layout", LAYOUTS)
    seed = c.choose("seed", SEEDS)
    cont = c.choose("container", list(CONTAINERS)) if c.thorough else "dict"
    a = array(dt, shape, layout, seed)
    assert a.shape == tuple(shape)
    roundtrip(c, CONTAINERS[cont](a))
    c.state((i, shape, layout, seed, cont))
    c.agreed()


def h_large(c):
    """Sizes around the limits of buffers and of the storage format."""
    dt = np.dtype(c.choose("dtype", ("u1", ">i2", "<f8", "U3")))
    n = c.choose("n", (255, 256, 257, 4097, 8193, 65535, 65536, 65537, 300001) if dt.itemsize < 3 or c.thorough else (31, 32, 4095, 65537))
    two = c.choose("2d", (False, True))
    a = fill(dt, (n,), 0) if not two else fill(dt, (n // 8 + 1, 8), 1).T
    roundtrip(c, CONTAINERS[c.choose("container", ("bare", "siblings"))](a))
    c.state((str(dt), n, two))
    c.agreed()


def h_containers(c):
    dt = c.choose("dtype", [np.dtype(x) for x in ("?", ">i2", "<f8", ">c8", "U3", "M8[ns]")] + DTYPES[-4:])
    shape = c.choose("shape", [(), (0,), (2, 3)])
    layout = c.choose("layout", ["C", "F", "reversed"])
    a = array(dt, shape, layout, 0)
    cont = c.choose("container", list(CONTAINERS))
    how = c.choose("how", ("lazy", "plain", "manager"))
    roundtrip(c, CONTAINERS[cont](a), how)
    c.state((str(dt), shape, layout, cont, how))
    c.agreed()


VALUES = [
    None, True, False, 0, -1, 2**31, 2**53 + 1, 2**63 - 1, -(2**63), 2**64 - 1, 0.0, -0.0, 0.1, 1e308, 5e-324, float("inf"), float("-inf"), float("nan"),
    "", "a", "ü\U0001f600", "x" * 300, b"", b"\x00\xff", b"y" * 70000, [], {}, [[]], {"a": {}}, {"": None}, {1: 2}, {-5: "x"}, {1.5: 0}, {True: 1}, {None: 2}, {b"k": b"v"},
    [1, "1", b"1", 1.0, True, None], {"a": [{"b": [1, 2, {"c": None}]}]}, [0] * 70, {str(i): i for i in range(40)}, "__tensor__", b"__tensor__", ["__tensor__"],
    {"__tensor__": "numpy"}, {"__tensor__": "numpy", "dtype": "<f4", "shape": [1], "data": b"\0\0\0\0"},
]


def h_values(c):
    v = VALUES[c.choose("value", range(len(VALUES)))]
    a = c.choose("with", ("alone", "array in list", "array in dict", "inside section"))
    arr = np.array([1.5, -2.5], ">f4")
    p = {"alone": v, "array in list": [arr, v, arr], "array in dict": {"a": arr, "v": v}, "inside section": {"x": {"y": [v, {"z": v}]}}}[a]
    roundtrip(c, p, c.choose("how", ("lazy", "plain")))
    c.state((repr(v)[:50], a))
    c.agreed()


GOOD = {b"__tensor__": "numpy", b"dtype": "<f4", b"shape": [2], b"data": b"\x01\x02\x03\x04\x05\x06\x07\x08"}
EDITS = {
    "no tag": (b"__tensor__", "del"),
    "no dtype": (b"dtype", "del"),
    "no shape": (b"shape", "del"),
    "no data": (b"data", "del"),
    "extra key": (b"extra", 1),
    "extra text key": ("k", None),
    "tag torchx": (b"__tensor__", "torchx"),
    "tag None": (b"__tensor__", None),
    "tag list": (b"__tensor__", ["numpy"]),
    "tag bytes": (b"__tensor__", b"numpy"),
    "tag 1": (b"__tensor__", 1),
    "dtype unknown": (b"dtype", "<q7"),
    "dtype None": (b"dtype", None),
    "dtype 4": (b"dtype", 4),
    "dtype empty": (b"dtype", ""),
    "dtype list": (b"dtype", [1, 2]),
    "dtype dict": (b"dtype", {"a": 1}),
    "shape text": (b"shape", "2"),
    "shape None": (b"shape", None),
    "shape negative": (b"shape", [-2]),
    "shape larger": (b"shape", [3]),
    "shape smaller": (b"shape", [1]),
    "shape floats": (b"shape", [2.0]),
    "data shorter": (b"data", b"\x01\x02\x03"),
    "data longer": (b"data", b"\x01" * 9),
    "data text": (b"data", "abcdefgh"),
    "data None": (b"data", None),
    "data list": (b"data", [1, 2]),
    "data empty": (b"data", b""),
}


def consistent(d):
    """Is this dictionary exactly an encoded array?  (Then it means the array.)"""
    try:
        if set(d) != set(GOOD) or d[b"__tensor__"] not in ("numpy", "torch"):
            return False
        dt = np.dtype(d[b"dtype"]) if isinstance(d[b"dtype"], str) else None
        if dt is None or not isinstance(d[b"shape"], list) or not isinstance(d[b"data"], bytes):
            return False
        return all(type(x) is int and x >= 0 for x in d[b"shape"]) and int(np.prod(d[b"shape"], dtype=int)) * dt.itemsize == len(d[b"data"])
    except TypeError:
        return False


def h_lookalike(c):
    n = c.choose("edits", (1, 2, 3) if c.thorough else (1, 2))
    d = dict(GOOD)
    lo = 0
    for i in range(n):
        k = c.choose(f"edit{i}", range(lo, len(EDITS)))
        lo = k + 1
        key, v = EDITS[list(EDITS)[k]]
        if v == "del":
            if key not in d:
                raise Skip()
            del d[key]
        else:
            if key in GOOD and (key not in d or d[key] != GOOD[key]):
                raise Skip()
            d[key] = v
    if consistent(d):
        raise Skip()
    where = c.choose("where", ("bare", "list", "with array"))
    arr = np.array([1, 2], "<i2")
    p = {"bare": d, "list": [d, {"n": d}], "with array": {"d": d, "a": arr, "l": [arr, d]}}[where]
    roundtrip(c, p)
    c.state((repr(sorted(d.items(), key=repr)), where))
    c.agreed()


def h_two(c):
    """Arrays of different kinds next to each other, many of them, and large ones."""
    case = c.choose("case", ("pair", "many", "large"))
    if case == "pair":
        i = c.choose("first", range(0, len(DTYPES), 1 if c.thorough else 3))
        j = c.choose("second", range(0, len(DTYPES), 1 if c.thorough else 4))
        a, b = array(DTYPES[i], (2, 2), "C", 0), array(DTYPES[j], (3,), "reversed", 1)
        roundtrip(c, {"a": a, "b": [b, {"c": a}], "s": "x"})
        c.state((i, j))
    elif case == "many":
        n = c.choose("n", (15, 16, 17, 33))
        roundtrip(c, [np.full((k % 3, k), k, "<i8") for k in range(n)])
    else:
        dt = c.choose("dtype", ("u1", ">f8"))
        n = c.choose("bytes", (255, 256, 65535, 65536, 70001, 1 << 20))
        roundtrip(c, {"a": np.frombuffer(pattern(n // np.dtype(dt).itemsize * np.dtype(dt).itemsize, 0), dt), "b": 1})
    c.agreed()


HARNESSES = [("large", h_large), ("arrays", h_arrays), ("containers", h_containers), ("values", h_values), ("lookalike", h_lookalike), ("two", h_two)]
