"""C07: omitted fields keep the default in force when they were recorded."""
import copy
from typing import List, Optional

import hyperstate
from hyperstate.schema.rewrite_rule import AddDefault, ChangeDefault, CheckValue, DeleteField, MapFieldValue, RejectValues, RenameField

from mc import gen
from mc.engine import Skip
from mc.ref import St, canon, ron

RULE = (
    "every history of edits (change/remove/add default, map, rename, delete, move, rename section, change the default of a "
    "section) over the leaves of a class with a plain, a deep, an optional and a default-instance section, and of one with sections in lists, split over the "
    "versions in every way x every old config (every touched section absent/null/empty/partial, recorded at any version)"
)
BOUND = {"quick": "histories of <= 2 edits", "thorough": "histories of <= 3 edits"}
ASSUMPTIONS = [
    "the matching rule of a default change is declared for the field whose default changed (a section with its own default instance counts as one field)",
]

REQ = "required"


def L(d):
    return ("leaf", d)


def base_spec():
    return {
        "x": L(1),
        "s": ("sec", "plain", {"x": L(2), "y": L(3), "d": ("sec", "plain", {"x": L(4), "z": L(5)})}),
        "o": ("sec", "opt", {"x": L(6), "y": L(7)}),
        "i": ("sec", "inst", {"x": L(8), "y": L(9)}, {"x": 80, "y": 90}),
    }


def list_spec():
    return {
        "x": L(1),
        "l": ("sec", "list", {"x": L(6), "d": ("sec", "plain", {"x": L(4), "y": L(5)})}),
        "s": ("sec", "opt", {"l": ("sec", "list", {"x": L(7)}), "y": L(8)}),
    }


def at(spec, path):
    for p in path[:-1]:
        spec = spec[p][2]
    return spec, path[-1]


def leaves(spec, pre=()):
    for n, f in spec.items():
        if f[0] == "leaf":
            yield pre + (n,), f[1]
        else:
            yield from leaves(f[2], pre + (n,))


def sections(spec, pre=()):
    for n, f in spec.items():
        if f[0] == "sec":
            yield pre + (n,), f[1]
            yield from sections(f[2], pre + (n,))


def full(spec, tree):
    """The tree completed with the defaults in force (None if a required value is missing)."""
    out = {}
    for n, f in spec.items():
        if f[0] == "leaf":
            if n in tree:
                out[n] = tree[n]
            elif f[1] == REQ:
                raise KeyError(n)
            else:
                out[n] = f[1]
        elif f[1] == "plain":
            out[n] = full(f[2], tree.get(n) or {})
        elif f[1] == "opt":
            out[n] = None if tree.get(n) is None else full(f[2], tree[n])
        elif f[1] == "list":
            out[n] = [full(f[2], t) for t in tree.get(n, [])]
        else:
            out[n] = full(f[2], tree[n]) if n in tree else full(f[2], f[3])
    return out


def value(cls, spec, d):
    kw = {}
    for n, f in spec.items():
        if f[0] == "leaf" or d[n] is None:
            kw[n] = d[n]
        else:
            t = cls.__dataclass_fields__[n].type
            t = t.__args__[0] if f[1] in ("opt", "list") else t
            kw[n] = [value(t, f[2], x) for x in d[n]] if f[1] == "list" else value(t, f[2], d[n])
    return cls(**kw)


def build(spec, name, version=None, rules=None):
    req, dfl = [], []
    for n, f in spec.items():
        if f[0] == "leaf":
            (req if f[1] == REQ else dfl).append((n, Optional[int]) if f[1] == REQ else (n, Optional[int], f[1]))
            continue
        t = build(f[2], f"{name}_{n}")
        if f[1] == "plain":
            req.append((n, t))
        elif f[1] == "opt":
            dfl.append((n, Optional[t], None))
        elif f[1] == "list":
            dfl.append((n, List[t], []))
        else:
            dfl.append((n, t, value(t, f[2], full(f[2], f[3]))))
    if version is None:
        return gen.mk(name, req + dfl)
    return gen.versioned(name, req + dfl, version, rules)


def mig(path, fn):
    """A value-level migration at ``path`` (nothing happens where a section is absent)."""

    def f(d, path=path):
        for i, p in enumerate(path[:-1]):
            d = d.get(p)
            if d is None:
                return
            if isinstance(d, list):
                for x in d:
                    f(x, path[i + 1 :])
                return
        if path[-1] in d:
            fn(d, path[-1])

    return f


def times(n):
    return lambda v: None if v is None else v * n


def none(d):
    pass


def moves_spec():
    return {
        "x": L(1),
        "s": ("sec", "plain", {"x": L(3), "d": ("sec", "plain", {"x": L(5)})}),
        "o": ("sec", "opt", {"x": L(7), "y": L(9)}),
        "p": ("sec", "opt", {"y": L(101), "e": ("sec", "opt", {"y": L(103)})}),
    }


UNCHANGED = (1, 3, 5, 7, 9, 101, 103)


def intos(spec):
    """Every move of a leaf into another section."""
    for p, d in leaves(spec):
        if d == REQ or p[-1].endswith("m"):
            continue
        for q, _ in sections(spec):
            if q != p[:-1]:
                yield ("into", p + ("->",) + q)


class Refused(Exception):
    """A value that is no longer allowed."""


_nulls = set()  # sections recorded as null
_created = []  # (section, name) of the values that were moved into a section that was not there


def edits(spec):
    """Every edit of a class: (label, apply) with apply(spec) -> (new spec, rules, value migration)."""
    out = []
    for p, d in leaves(spec):
        out.append(("ren", p))
        out.append(("del", p))
        if d != REQ:
            out += [("chg", p), ("rem", p), ("map", p)]
        else:
            out += [("addd", p), ("mapr", p)]
        if len(p) > 1 and not any(k == "list" and p[: len(q)] == q for q, k in sections(spec)):
            out.append(("move", p))
    for p, kind in sections(spec):
        out.append(("rensec", p))
        if kind == "inst":
            out.append(("chginst", p))
    return out


def apply_edit(spec, e):
    kind, p = e
    spec = copy.deepcopy(spec)
    if kind == "into":
        i = p.index("->")
        return apply_into(spec, p[:i], p[i + 1 :])
    sec, n = at(spec, p)
    inst = None  # the default instance containing this leaf, if any
    if len(p) > 1:
        o, m = at(spec, p[:-1])
        if o[m][1] == "inst":
            inst = o[m][3]
    if kind in ("ren", "rensec"):
        f = sec.pop(n)
        sec[n + "R"] = f
        if inst is not None:
            inst[n + "R"] = inst.pop(n)
        q = p[:-1] + (n + "R",)
        return spec, [RenameField(p, q)], mig(p, lambda d, k: d.__setitem__(k + "R", d.pop(k)))
    if kind == "del":
        del sec[n]
        if inst is not None:
            del inst[n]
        return spec, [DeleteField(p)], mig(p, lambda d, k: d.pop(k))
    if kind == "move":
        f = sec.pop(n)
        new = "_".join(p) + "m"
        if f[1] == REQ or inst is not None or len(p) < 2:
            raise Skip()
        spec[new] = f

        def mv(d):
            x = d
            for s in p[:-1]:
                x = x.get(s)
                if x is None:
                    return
            if n in x:
                d[new] = x.pop(n)

        return spec, [RenameField(p, (new,))], mv
    d = sec[n][1]
    if kind == "chg":
        sec[n] = L(d + 10)
        return spec, [ChangeDefault(p, d, d + 10)], none
    if kind == "rem":
        sec[n] = L(REQ)
        return spec, [AddDefault(p, d)], none
    if kind == "addd":
        sec[n] = L(55)
        return spec, [], none
    if kind == "map":
        if inst is not None:
            raise Skip()  # the section's default instance would have to change with it
        sec[n] = L(d * 2)
        return spec, [ChangeDefault(p, d, d * 2), MapFieldValue(p, times(2))], mig(p, lambda x, k: x.__setitem__(k, times(2)(x[k])))
    if kind in ("dropc", "dropr"):
        if inst is not None:
            raise Skip()
        sec[n] = L(d + 10)
        rule = RejectValues(p, {d}) if kind == "dropr" else CheckValue(p, set(range(3000)) - {d} | {None})

        def refuse(x, k):
            if x[k] == d:
                raise Refused(p)

        return spec, [ChangeDefault(p, d, d + 10), rule], mig(p, refuse)
    if kind == "mapr":
        if inst is not None:
            raise Skip()
        return spec, [MapFieldValue(p, times(3))], mig(p, lambda x, k: x.__setitem__(k, times(3)(x[k])))
    if kind == "chginst":
        f = sec[n]
        old = copy.deepcopy(f[3])
        new = {k: v + 1000 for k, v in full(f[2], f[3]).items()}
        sec[n] = (f[0], f[1], f[2], new)
        return spec, [ChangeDefault(p, old, copy.deepcopy(new))], none
    raise KeyError(kind)


def apply_into(spec, p, q):
    sec, n = at(spec, p)
    f = sec.pop(n)
    new = "_".join(p).replace("R", "") + "m"
    osec, m = at(spec, q)
    osec[m][2][new] = f

    def mv(d):
        x = d
        for k in p[:-1]:
            x = x.get(k)
            if x is None:
                y = d
                for k in q:
                    y = None if y is None else y.get(k)
                if f[1] not in UNCHANGED and y is not None:
                    raise Skip()  # the default of a leaf of a section that was not there
                return
        if n not in x:
            return
        y = d
        for k in q[:-1]:
            y = y.get(k) if y is not None else None
        if y is None or y.get(q[-1]) is None:
            v = x[n]
            if v is None or v < 700 or {tuple(k.rstrip("R") for k in q[:i]) for i in range(1, len(q) + 1)} & _nulls:
                raise Skip()  # whether a default makes the section appear, and what replaces a null, is not said
            y = d
            for k in q:
                if y.get(k) is None:
                    y[k] = {}
                    _created.append(tuple(s.rstrip("R") for s in q))
                y = y[k]
        else:
            y = y[q[-1]]
        y[new] = x.pop(n)

    return spec, [RenameField(p, q + (new,))], mv


def plain(v):
    return {k.rstrip("R"): plain(getattr(v, k)) for k in v.__dataclass_fields__} if hasattr(v, "__dataclass_fields__") else v


def mask(d):
    """Of a section that appeared because a value was moved into it, only the values that were given."""
    for q in _created:
        x = d
        for k in q:
            x = x[k] if isinstance(x, dict) else None
        if isinstance(x, dict):
            for k in [k for k, v in x.items() if not isinstance(v, dict) and (v is None or v < 700)]:
                del x[k]
    return d


def written(tree, path):
    """Whether every section on the way is in the text."""
    if isinstance(tree, list):
        return all(written(t, path) for t in tree)
    if not path:
        return tree is not None
    sub = [v for k, v in (tree or {}).items() if k.rstrip("R") == path[0].rstrip("R")]
    return bool(sub) and written(sub[0], path[1:])


def nulls(tree, pre=()):
    for k, v in tree.items():
        if v is None:
            yield tuple(x.rstrip("R") for x in pre + (k,))
        elif isinstance(v, dict):
            yield from nulls(v, pre + (k,))


def gen_tree(c, spec, touched, pre=()):
    """Every config text content over the touched parts; untouched parts are left out."""
    out = {}
    for n, f in spec.items():
        p = pre + (n,)
        rel = any(t[: len(p)] == p for t in touched)
        if f[0] == "leaf":
            how = c.choose(".".join(p), (*(() if f[1] == REQ else ("absent",)), "given", "null")) if rel else "given" if f[1] == REQ else "absent"
            if how != "absent":
                out[n] = 700 + len(out) if how == "given" else None
            continue
        need = f[1] == "plain" and needs(f[2])
        if not rel and not need:
            continue
        opts = ["there"] if need else ["absent", "there"]
        if f[1] == "opt":
            opts.append("null")
        if f[1] == "list":
            m = c.choose(".".join(p) + "?", ("absent", 0, 1, 2) if c.thorough else ("absent", 2))
            if m != "absent":
                out[n] = [gen_tree(c, f[2], touched, p) for _ in range(m)]
            continue
        k = c.choose(".".join(p) + "?", opts)
        if k == "there":
            out[n] = gen_tree(c, f[2], touched, p)
        elif k == "null":
            out[n] = None
    return out


def needs(spec):
    return any((f[0] == "leaf" and f[1] == REQ) or (f[0] == "sec" and f[1] == "plain" and needs(f[2])) for f in spec.values())


def to_st(d, name="R"):
    return St(name, {k: to_st(v, "S") if isinstance(v, dict) else [to_st(x, "S") for x in v] if isinstance(v, list) else v for k, v in d.items()})


_last = [None, None]


def related(es, chosen):
    """With a move: the edits in the sections it leads from or to; otherwise the moves from or to the edited section."""
    def area(e):
        p = e[1]
        if e[0] == "into":
            i = p.index("->")
            return {tuple(k.rstrip("R") for k in q) for q in (p[: i - 1], p[i + 1 :])}
        return {tuple(k.rstrip("R") for k in (p if e[0] == "rensec" else p[:-1]))}

    near = set().union(*[area(e) for e in chosen])
    moved = any(e[0] == "into" for e in chosen)
    return [e for e in es if (moved or e[0] == "into") and area(e) & near]


def plan(c, depth, spec, moves=None):
    """Choose a history: list of versions; each version is (spec, rules, migrations)."""
    versions = [(spec, [], [])]  # spec at version k, and the rules/migrations leading to k+1
    touched = []
    names = []
    chosen = []
    n = c.choose("edits", tuple(range(1, depth + 1)))
    for i in range(n):
        es = edits(spec)
        if moves == "drop":
            es = [e for e in es if e[0] in ("chg", "ren", "rensec", "map") or c.thorough] + [(k, q) for q, dd in leaves(spec) if dd != REQ for k in ("dropc", "dropr")]
            if i == n - 1 and not any(e[0].startswith("drop") for e in chosen):
                es = [e for e in es if e[0].startswith("drop")]
            if i:
                es = [e for e in es if {k.rstrip("R") for k in e[1][:1]} & {q[1][0].rstrip("R") for q in chosen}]
        elif moves:
            es = [e for e in es if e[0] in ("chg", "rem", "rensec") or c.thorough and e[0] in ("map", "ren")] + list(intos(spec))
            if i:
                es = related(es, chosen)
        if depth == 3 and n == 3:
            # three edits: the kinds that interact, on the first leaf of every section and on the sections
            es = [e for e in es if e[0] not in ("del", "move", "mapr") and (e[0] in ("rensec", "chginst") or e[1][-1].startswith("x"))]
        e = c.choose(f"edit{i}", es)
        chosen.append(e)
        if e[0] == "move" and e[1][0][0] in "os" and any(t[0] == e[1][0][0] for t in touched) and at(spec, e[1][:1])[0][e[1][0]][1] == "opt":
            raise Skip()  # which default a leaf moved out of an absent optional section had is a matter of taste
        spec, rules, mv = apply_edit(spec, e)
        if i == 0 or c.choose(f"same{i}", (False, True)) is False:
            versions.append((spec, [], []))
        else:
            versions[-1] = (spec, [], [])
        # several edits in one step: the rules follow each other, the class is the last one
        versions[-2][1].extend(rules)
        versions[-2][2].append((mv, spec))
        t = tuple(x.rstrip("R") for x in e[1])
        touched += [t] if "->" not in t else [t[: t.index("->")], t[t.index("->") + 1 :]]
        names.append(repr(e))
    return versions, touched, ";".join(names) + f"|{len(versions)}"


def history(c, depth, base=base_spec, kind=None):
    versions, touched, key = plan(c, depth, base(), kind)
    n = len(versions) - 1
    spec = versions[-1][0]
    if _last[0] != (base, key):
        rules = {k: v[1] for k, v in enumerate(versions[:-1])}
        _last[:] = [(base, key), build(spec, "R", n, rules)]
    cls = _last[1]
    rec = c.choose("recorded", range(n)) if n > 1 else 0
    rspec = versions[rec][0]

    def orig(p):
        return tuple(x.rstrip("R") for x in p)

    # sections and leaves that were touched, under their name at the recorded version
    tp = [p for p, _ in list(leaves(rspec)) + list(sections(rspec)) if orig(p) in touched]
    tree = gen_tree(c, rspec, tp)
    _nulls.clear()
    _nulls.update(nulls(tree))
    del _created[:]
    d = full(rspec, tree)
    for k in range(rec, n):
        for mv, sp in versions[k][2]:
            try:
                mv(d)
            except Refused as e:
                if not written(tree, e.args[0][:-1]):
                    raise Skip()  # a default in a section that is not written down: refused or not
                text = ron(St("R", {"version": rec, **to_st(tree).fields}))
                try:
                    got = hyperstate.loads(cls, text)
                except ValueError:
                    c.op(text)
                    c.outcome = "refused"
                    c.state((key, rec, text))
                    c.agreed()
                    return
                c.fail(f"{text} after {key} has a value that is no longer allowed, but loaded {canon(got)}")
            try:
                d = full(sp, d)
            except KeyError:
                c.check(_created, "model: required value missing")
                raise Skip()  # the section that appeared needs more than what was moved into it
    want = value(cls, spec, d)
    text = ron(St("R", {"version": rec, **to_st(tree).fields}))
    c.note(key)
    got = hyperstate.loads(cls, text)
    c.op(text)
    if _created:
        c.check(mask(plain(got)) == mask(plain(want)), lambda: f"{text} after {key} loaded {canon(got)}, expected {canon(want)} or older defaults in {_created}")
    else:
        c.check(canon(got) == canon(want), lambda: f"{text} after {key} loaded {canon(got)}, expected {canon(want)}")
    c.state((key, rec, canon(got)))
    c.agreed()


def h_history(c):
    history(c, 3 if c.thorough else 2)


def h_lists(c):
    """Sections in lists."""
    history(c, 3 if c.thorough else 2, list_spec)


def h_moves(c):
    """Fields that move from section to section."""
    history(c, 3 if c.thorough else 2, moves_spec, "moves")


def h_drops(c):
    """Defaults that are no longer allowed values: refused only where they were in force."""
    history(c, 3 if c.thorough else 2, c.choose("spec", (base_spec, list_spec)), "drop")


HARNESSES = [("moves", h_moves), ("drops", h_drops), ("history", h_history), ("lists", h_lists)]
