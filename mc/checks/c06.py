"""C06: every rewrite rule does exactly what it says."""
import copy

from hyperstate.schema.rewrite_rule import CheckValue, DeleteField, MapFieldValue, RejectValues, RenameField

from mc.ref import canon, same

RULE = "every rule over every path (length <= 3) and parameter x every config contents over two names, plus all pairs of rules on a smaller set"
BOUND = {
    "quick": "contents: 2 names, 3 levels, null/number/text/list leaves; single rules, and pairs on a reduced set",
    "thorough": "the same contents with all third-level combinations; pairs over all rule instances",
}
ASSUMPTIONS = [
    "where a rename's new path leads through a null section, both creating the section and leaving the contents alone are accepted; losing the value is not",
]

ABSENT = object()
PATHS = [("a",), ("b",), ("a", "a"), ("a", "b"), ("b", "a"), ("b", "b"), ("a", "a", "a"), ("a", "b", "b"), ("c", "a"), ("c", "a", "b")]


def leaf(c, label, opts):
    v = c.choose(label, opts)
    return copy.deepcopy(v)


def contents(c, rich):
    """Every config contents over names a, b."""
    d = {"!__name__": "R"}
    third = [{"a": 2}, {"b": 3, "a": None}, [{"a": 1}, {"b": 2}]] + ([{}] if rich else [])
    for n in ("a", "b"):
        k = c.choose(n, ("absent", "num", "null", "text", "list", "lists", "sect"))
        if k == "num":
            d[n] = 1
        elif k == "null":
            d[n] = None
        elif k == "text":
            d[n] = "ab"  # contains the name "a" as a character
        elif k == "list":
            d[n] = [{"a": 1}, "b"]
        elif k == "lists":
            d[n] = [{"b": 2, "a": {"a": 1}}, None, [{"a": 2}, []], {"a": None}, {"a": [{"a": 1, "b": 3}]}, [[[{"a": 3, "b": {"a": 4}}]]]]
        elif k == "sect":
            s = d[n] = {}
            for m in ("a", "b"):
                v = leaf(c, n + m, [ABSENT, 1, None] + third)
                if type(v) is not object:
                    s[m] = v
    return d


def get(d, path):
    for p in path[:-1]:
        if not isinstance(d, dict) or p not in d:
            return ABSENT
        d = d[p]
    if not isinstance(d, dict) or path[-1] not in d:
        return ABSENT
    return d[path[-1]]


def cut(d, path):
    d = copy.deepcopy(d)
    x = d
    for p in path[:-1]:
        x = x[p]
    del x[path[-1]]
    return d


def put(d, path, v):
    """(reachable, through_null, result)"""
    d = copy.deepcopy(d)
    x = d
    null = False
    for p in path[:-1]:
        if p not in x:
            x[p] = {}
        elif x[p] is None:
            null = True
            x[p] = {}
        x = x[p]
        if not isinstance(x, dict):
            return False, False, None
    x[path[-1]] = copy.deepcopy(v)
    return True, null, d


class Raises(Exception):
    pass


def inc(v):
    return ("m", v)


FNS = [("wrap", lambda x: [x]), ("none", lambda x: None), ("const", lambda x: 0), ("ident", lambda x: x)]


def instances(thorough):
    out = []
    for p in PATHS:
        out.append(("delete", p))
        for k in range(len(FNS)):
            out.append(("map", p, k))
        for vals in ((1,), (2, None), ("ab", 3), ()):
            out.append(("check", p, vals))
            out.append(("reject", p, vals))
    for p in PATHS:
        for q in PATHS:
            out.append(("rename", p, q))
    return out


def build(r):
    if r[0] == "delete":
        return DeleteField(r[1])
    if r[0] == "map":
        return MapFieldValue(r[1], FNS[r[2]][1])
    if r[0] == "check":
        return CheckValue(r[1], set(r[2]))
    if r[0] == "reject":
        return RejectValues(r[1], set(r[2]))
    return RenameField(r[1], r[2])


def first_list(d, path):
    """The position in ``path`` of the first list it leads through."""
    for i, p in enumerate(path[:-1]):
        if not isinstance(d, dict) or p not in d:
            return None
        d = d[p]
        if isinstance(d, list):
            return i + 1
    return None


def in_list(r, l):
    """The acceptable results of applying the rule to every section in a list."""
    out = [[]]
    for x in l:
        new = in_list(r, x) if isinstance(x, list) else model(r, x) if isinstance(x, dict) else [x]
        out = [Raises if o is Raises or n is Raises else o + [n] for o in out for n in new]
    return out


def model(r, d):
    """The list of acceptable results (Raises for a rejection)."""
    n = first_list(d, r[1])
    if n is not None:
        if r[0] == "rename":
            if r[1][:n] != r[2][:n] or len(r[2]) <= n:
                return [d]
            sub = ("rename", r[1][n:], r[2][n:])
        else:
            sub = (r[0], r[1][n:]) + tuple(r[2:])
        return [Raises if x is Raises else put(d, r[1][:n], x)[2] for x in in_list(sub, get(d, r[1][:n]))]
    v = get(d, r[1])
    if v is ABSENT:
        return [d]
    if r[0] == "delete":
        return [cut(d, r[1])]
    if r[0] == "map":
        return [put(d, r[1], FNS[r[2]][1](v))[2]]
    if r[0] == "check":
        return [d] if any(same(v, x) for x in r[2]) else [Raises]
    if r[0] == "reject":
        return [Raises] if any(same(v, x) for x in r[2]) else [d]
    rest = cut(d, r[1])
    ok, null, new = put(rest, r[2], v)
    if not ok:
        return [d]
    return [new, d] if null else [new]


def step(c, r, ds):
    """Apply to each possible contents; returns the set of acceptable successors."""
    return [x for d in ds for x in model(r, d)]


def run(c, rs, d):
    before = copy.deepcopy(d)
    x = d
    cands = [copy.deepcopy(d)]
    for r in rs:
        nxt = []
        for k in cands:
            nxt += model(r, k)
        try:
            x = build(r).apply(x)
            c.op(r)
        except ValueError as e:
            c.op(r)
            c.check(Raises in nxt, lambda: f"{r} on {canon(before)} raised {e}")
            c.outcome = "rejected"
            c.state((canon(before), repr(rs)))
            c.agreed()
            return
        c.check(any(k is not Raises and same(x, k) for k in nxt), lambda: f"{r} on {canon(before)} (after {rs}) gave {canon(x)}, expected {' or '.join('a rejection' if k is Raises else canon(k) for k in nxt)}")
        cands = [k for k in nxt if k is not Raises and same(k, x)]
    c.outcome = "changed" if not same(before, x) else "unchanged"
    c.state(canon(x))
    c.agreed()


INST = instances(True)
SMALL = [r for r in INST if len(r[1]) <= 2 and r[1][0] != "c" and (r[0] != "rename" or (len(r[2]) <= 2 and r[2][0] != "c"))]
SMALL = [r for r in SMALL if r[0] in ("rename", "delete") or (r[0] == "map" and r[2] == 0) or (r[0] == "reject" and r[2] == (1,))]


def h_single(c):
    r = c.choose("rule", INST)
    d = contents(c, c.thorough)
    c.note(canon(d))
    run(c, [r], d)


SMALLD = [
    {"a": 1}, {"a": 1, "b": 2}, {"a": {"a": 1, "b": 2}, "b": None}, {"a": {"a": {"a": 1}}, "b": {"a": 3}}, {"b": {"b": 1, "a": None}}, {"a": None, "b": {"b": 5}}, {"a": "ab", "b": {"a": 1}}, {}, {"a": [{"a": 1}, {"b": {"a": 2}}, {}]}, {"a": {"b": [{"b": 1}]}, "b": [1]},
]


def h_pairs(c):
    rs = INST if c.thorough else SMALL
    r = [c.choose("r0", rs), c.choose("r1", rs)]
    d = copy.deepcopy(c.choose("d", SMALLD))
    c.note(canon(d))
    run(c, r, d)


EMPTY = [0, "", False, [], {}, 0.0, [[]]]


def h_empty(c):
    """Values that are empty or zero are values like any other."""
    r = c.choose("rule", [x for x in INST if x[1][0] != "c" and (x[0] != "rename" or x[2][0] != "c")])
    e = copy.deepcopy(c.choose("empty", EMPTY))
    f = copy.deepcopy(c.choose("other", ({"a": 1, "b": 2}, {"a": {"a": 1}}, 0, [])))
    d = {"aa": {"a": e, "b": f}, "a_": {"a": {"a": e, "b": 1}, "b": f}, "b_": {"a": f, "b": {"b": e}}, "ab": {"a": {"a": {"a": e, "b": {"b": e}}}, "b": f}}[c.choose("where", ("aa", "a_", "b_", "ab"))]
    c.note(canon(d))
    run(c, [r], copy.deepcopy(d))


HARNESSES = [("single", h_single), ("empty", h_empty), ("pairs", h_pairs)]
