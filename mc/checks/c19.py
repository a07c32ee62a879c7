"""C19: upgrade-config rewrites files without changing their meaning."""
import contextlib
import dataclasses
import io
import os
import sys
import tempfile
from typing import Dict, List, Optional, Tuple, Union

import hyperstate
import pyron
from hyperstate import StateManager, Versioned
from hyperstate.schema.rewrite_rule import AddDefault, ChangeDefault, CheckValue, DeleteField, MapFieldValue, RejectValues, RenameField

from mc import gen
from mc.engine import Skip
from mc.ref import Id, Raw, St, canon, default_of, is_dc, ron

RULE = (
    "old configs of a class with three versions and a versioned section (each field absent or one of its values, scheduled, "
    "invalid; every recorded version) up to a number of deviations from a base config, in every combination of the two flags, "
    "alone or between other files, followed by a second run with every combination of flags; every rule table of one rule "
    "per version over 9 rules"
)
BOUND = {
    "quick": "up to 2 deviations over 17 fields with 2 to 7 values each, form, flags and second run; 1 to 3 files under 4 flag combinations; all tables of 2 versions over 9 rules",
    "thorough": "up to 3 deviations, tables of up to 3 versions",
}
ASSUMPTIONS = ["what a file means is what load returns for it before the command (C02 to C07 decide whether that is right)"]

SUB = gen.mk("SUB", [("x", int, 1), ("f", float, 2.0)])
REQ = gen.mk("REQ", [("r", int), ("f", float, 0.25)])
EMPTY = gen.mk("EMPTY", [])
NEST = gen.versioned("NEST", [("g", float, 1.5), ("h", int, 7)], 1, {0: [RenameField(("gg",), ("g",)), ChangeDefault(("h",), 6, 7)]}, key="c19")
RULES = {
    0: [RenameField(("rate_old",), ("rate",)), AddDefault(("sub", "x"), 11)],
    1: [ChangeDefault(("lr",), 0.25, 0.5), DeleteField(("gone",)), MapFieldValue(("e",), lambda x: "red" if x == "RED_OLD" else x), RejectValues(("name",), {"bad"})],
}
FIELDS = [
    ("rate", int),
    ("req", REQ),
    ("lr", float, 0.5),
    ("sub", SUB, SUB()),
    ("o", Optional[REQ], None),
    ("ls", List[SUB], []),
    ("e", gen.Color, gen.Color.RED),
    ("d", Dict[str, float], {}),
    ("name", Optional[str], "n"),
    ("t", Tuple[int, float], (1, 2.0)),
    ("u", Union[int, str], 3),
    ("lit", gen.LIT, "x"),
    ("b", bool, True),
    ("nest", NEST, dataclasses.field(default_factory=NEST)),
    ("em", EMPTY, dataclasses.field(default_factory=EMPTY)),
]


def conf(version, rules):
    ns = dict(version=classmethod(lambda clz: version), upgrade_rules=classmethod(lambda clz: rules))
    fs = []
    for f in FIELDS:
        if len(f) == 3 and isinstance(f[2], (list, dict)):
            fs.append((f[0], f[1], dataclasses.field(default_factory=type(f[2]))))
        else:
            fs.append(f)
    return dataclasses.make_dataclass("CONF", fs, bases=(Versioned,), namespace=ns)


class Refuses:
    """A rule that must not be needed."""

    def apply(self, state_dict):
        raise AssertionError("still needs an upgrade")

    def apply_to_schema(self, schema):
        pass


CONF = conf(2, RULES)
CURRENT = conf(2, {0: [Refuses()], 1: [Refuses()]})
PLAIN = dataclasses.make_dataclass("PLAIN", [f if not (len(f) == 3 and isinstance(f[2], (list, dict))) else (f[0], f[1], dataclasses.field(default_factory=type(f[2]))) for f in FIELDS])
STATE = gen.mk("STATE", [("step", int, 0), ("x", float, 0.0)])
SCH = "step: 1@0 lin 9@8"
SCHX = "x: 4@0 step 2.5@2 1@4"


def cli(c, cls, *argv):
    """(exception or exit status, output)"""
    out = io.StringIO()
    argv0 = sys.argv
    sys.argv = ["schema.py", "upgrade-config", *argv]
    code = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            hyperstate.schema_evolution_cli(cls)
    except SystemExit as e:
        code = e.code or 0
    except Exception as e:
        code = e
    finally:
        sys.argv = argv0
    c.op("upgrade-config " + " ".join(a for a in argv if a.startswith("-")))
    return code, out.getvalue()


def put(p, text):
    with open(p, "w") as f:
        f.write(text)


def get(p):
    with open(p) as f:
        return f.read()


def observe(cls, path):
    """What a file means: the loaded config, and as a manager's config at several states."""
    cfg = hyperstate.load(cls, file=path)
    out = [cfg]
    sm = StateManager(cls, STATE, lambda cfg, ctx: STATE(), path)
    sm.state
    for step, x in ((0, 0.0), (3, 1.0), (8, 5.0)):
        sm.state.step, sm.state.x = step, x
        sm.step()
        out.append(hyperstate.dumps(sm.config))
    return [canon(x) for x in out]


def scheduled(v):
    """Paths of the schedules recorded in a file."""
    out = set()

    def walk(v, path):
        if isinstance(v, dict):
            for k, x in v.items():
                walk(x, path + (k,))
        elif isinstance(v, (list, tuple)) and not isinstance(v, str):
            for i, x in enumerate(v):
                walk(x, path + (i,))
        elif isinstance(v, str) and v in (SCH, SCHX):
            out.add((path, v))

    walk(v, ())
    return out


def written(c, cls, cfg, tree, defaults, what):
    """Which fields are in the file."""
    if hasattr(cls, "version"):
        c.check(tree.get("version") == cls.version(), lambda: f"{what}: {cls.__name__} recorded at version {tree.get('version')}")
    for n, f in cls.__dataclass_fields__.items():
        v = getattr(cfg, n)
        has, d = default_of(f)
        if n not in tree:
            c.check(not defaults and has and v == d, lambda: f"{what}: field {n} = {v!r} is not written")
            continue
        plain = has and (d is None or isinstance(d, (int, float, str, bool, list, dict)) and not isinstance(d, gen.Color)) and (v is None or type(v) in (int, float, str, bool, list, dict))
        if plain and not scheduled(tree[n]):
            c.check(defaults or v != d or type(v) != type(d), lambda: f"{what}: {n} = {v!r} is the default, and is written although not asked for")
        if is_dc(type(v)) and isinstance(tree[n], dict):
            written(c, type(v), v, tree[n], defaults, f"{what}: {n}")
        if isinstance(v, list) and isinstance(tree[n], list) and len(v) == len(tree[n]):
            for x, y in zip(v, tree[n]):
                if is_dc(type(x)):
                    written(c, type(x), x, y, defaults, f"{what}: {n}")
    for n in tree:
        c.check(n in cls.__dataclass_fields__ or n in ("!__name__", "version"), lambda: f"{what}: {n} is written")


FLAGS = [[], ["--include-defaults"], ["--dry-run"], ["--include-defaults", "--dry-run"]]


def verify(c, cls, current, path, before_text, before, flags, code, out, what):
    """One run on a valid file."""
    c.check(code == 0, lambda: f"{what}: fails with {code!r}, {out!r}")
    text = get(path)
    if "--dry-run" in flags:
        c.check(text == before_text, lambda: f"{what}: a dry run changed the file to {text!r}")
        return
    try:
        after = observe(current, path)
    except BaseException as e:
        c.fail(f"{what}: the rewritten file {text!r} does not load without upgrade: {type(e).__name__}: {e}")
    c.check(after == before, lambda: f"{what}: rewritten to {text!r}, which means {after}, before {before}")
    tree = pyron.loads(text, preserve_class_names=True)
    written(c, cls, hyperstate.load(cls, file=path), tree, "--include-defaults" in flags, f"{what}: rewritten to {text!r}")
    return tree


def tree0(version, spelled):
    """The base config as recorded at a version."""
    s = St("CONF")
    if version is not None:
        s.fields["version"] = version
    s.fields["rate_old" if version == 0 else "rate"] = 5
    s.fields["req"] = St("REQ", {"r": 1})
    return s


ABSENT = object()


def vary(c, s, version):
    """Deviations from the base config."""
    rate = "rate_old" if version == 0 else "rate"

    def field(name, options, into=s, key=None):
        v = c.dev(name, ("base", *range(len(options))))
        if v == "base":
            return
        v = options[v]
        if v is ABSENT:
            into.fields.pop(key or name, None)
        else:
            into.fields[key or name] = v

    field("rate", [ABSENT, 6, SCH, "no schedule", 1.5, None], key=rate)
    field("req", [ABSENT, St("REQ", {"r": SCH}), St("REQ", {"r": 2, "f": SCHX}), St("REQ", {"r": 2, "f": 0.25}), St(None, {"f": 3, "r": 4})])
    field("lr", [0.5, 0.25, SCHX, 1])
    field("sub", [St("SUB"), St("SUB", {"x": 1}), St("SUB", {"x": SCHX}), St(None, {"f": SCH}), None])
    field("o", [None, St("REQ", {"r": 3}), St("REQ", {"r": 3, "f": SCH}), St("REQ")])
    field("ls", [[], [St("SUB")], [St(None, {"x": SCH}), St("SUB", {"f": 3.5})], [1]])
    field("e", ["red", "Blue", "RED_OLD", Id("BLUE"), "nope"])
    field("d", [{}, {"a": 1}, {"a.b": SCH, "it's": 2.5}])
    field("name", [None, "n", "q\"'\\", "bad"])
    field("t", [(1, 2.0), (2, SCH), [3, 4], (1,)])
    field("u", [3, "3", "x", SCH])
    field("lit", ["x", 5, "y", Id("y"), 6])
    field("b", [True, False, "yes"])
    nest = lambda v, **k: St("NEST", {"version": v, **k})
    field("nest", [nest(1), nest(0), nest(0, gg=SCHX), nest(0, h=6), nest(1, g=1.5, h=7), nest(2), St("NEST")])
    field("em", [St("EMPTY"), St("EMPTY", {"x": 1})])
    field("gone", [1, "x"])
    field("zzz", [1])
    form = c.dev("form", ("plain", "lines", "comment", "broken"))
    text = ron(s)
    if form == "lines":
        text = text.replace("(", "(\n  ").replace(", ", ",\n  ") + "\n\n"
    elif form == "comment":
        text = "// old\n" + text + " /* c */"
    elif form == "broken":
        text = text[:-1]
    return text


def meaning(cls, path):
    try:
        return observe(cls, path), None
    except Exception as e:
        return None, e


def h_files(c):
    """One file, both flags, run twice."""
    c.set_budget(3 if c.thorough else 2)
    version = c.choose("version", (0, 1, 2))
    odd = c.dev("recorded version", ("as chosen", "none", 3, "x"))
    s = tree0(version, odd)
    if odd == "none":
        s.fields.pop("version")
    elif odd != "as chosen":
        s.fields["version"] = odd
    flags = c.choose("flags", FLAGS) if c.thorough else c.dev("flags", FLAGS)
    text = vary(c, s, version)
    d = tempfile.mkdtemp()
    c.scratch_dirs.append(d)
    p = os.path.join(d, "config.ron")
    put(p, text)
    before, err = meaning(CONF, p)
    code, out = cli(c, CONF, p, *flags)
    what = f"upgrade-config {' '.join(flags)} of {text!r}"
    if err is not None:
        c.outcome = "invalid"
        # the manager reads files without version as current ones
        c.check(get(p) == text, lambda: f"{what}: cannot be loaded ({err}), but was changed to {get(p)!r}")
        c.check(code != 0, lambda: f"{what}: cannot be loaded ({err}), but the command succeeds")
        c.check(os.listdir(d) == ["config.ron"], lambda: f"{what}: other files {os.listdir(d)}")
        c.agreed()
        return
    c.outcome = "dry" if "--dry-run" in flags else "upgraded"
    old_schedules = {v for _, v in scheduled(pyron.loads(text)) if "u" not in _[:1]}
    tree = verify(c, CONF, CURRENT, p, text, before, flags, code, out, what)
    if tree is not None:
        c.check({v for _, v in scheduled(tree)} >= old_schedules, lambda: f"{what}: schedules {old_schedules} became {tree}")
        again = c.choose("second run", FLAGS) if c.thorough else c.dev("second run", (flags, FLAGS[0 if flags else 1]))
        first = get(p)
        code, out = cli(c, CONF, *again, p)
        verify(c, CONF, CURRENT, p, first, before, again, code, out, what + f" and then {again}")
        if again == flags:
            c.check(get(p) == first, lambda: f"{what}: a second run changes {first!r} to {get(p)!r}")
    c.check(os.listdir(d) == ["config.ron"], lambda: f"{what}: other files {os.listdir(d)}")
    c.agreed()
    c.state((text, flags))


GOOD = ['CONF(version: 0, rate_old: 3, req: (r: 2, f: "step: 1@0 lin 9@8"))', "CONF(version: 2, rate: 4, req: REQ(r: 1), lr: 0.5)"]
BAD = ["CONF(version: 1, rate: 3)", "CONF(version: 1, rate: 3, req: (r: 2), zzz: 1)", "(", None]


def h_several(c):
    """Several files, some of which cannot be loaded."""
    n = c.choose("files", (0, 1, 2, 3))
    texts = [c.choose(f"file{i}", GOOD + BAD) for i in range(n)]
    flags = c.choose("flags", FLAGS)
    d = tempfile.mkdtemp()
    c.scratch_dirs.append(d)
    paths = [os.path.join(d, f"{i}.ron") for i in range(n)]
    same = n == 2 and texts[0] == texts[1] and c.choose("same file", (False, True))
    if same:
        paths[1] = paths[0]
    before = []
    for p, t in zip(paths, texts):
        if t is not None:
            put(p, t)
        before.append(meaning(CONF, p))
    code, out = cli(c, CONF, *flags, *paths)
    what = f"upgrade-config {flags} of {texts}"
    failed = False
    for p, t, (m, err) in zip(paths, texts, before):
        if err is not None:
            failed = True
            c.check((not os.path.exists(p)) if t is None else get(p) == t, lambda: f"{what}: the file that cannot be loaded was changed to {get(p)!r}")
        elif failed:
            # whether files after a failure are upgraded is not specified
            if get(p) != t:
                verify(c, CONF, CURRENT, p, t, m, flags, 0, "", what)
        else:
            verify(c, CONF, CURRENT, p, t, m, flags, 0, "", what)
            if not flags and not same:
                c.check(get(p) != t or "version: 2" in t, lambda: f"{what}: file not upgraded")
    c.check((code != 0) == failed, lambda: f"{what}: exits with {code!r}, {out!r}")
    c.check(sorted(os.listdir(d)) == sorted({os.path.basename(p) for p, t in zip(paths, texts) if t is not None}), lambda: f"{what}: {os.listdir(d)}")
    c.agreed()
    c.state((texts, flags))


def h_plain(c):
    """A class without versions."""
    c.set_budget(3 if c.thorough else 2)
    s = tree0(None, None)
    s.name = "PLAIN"
    flags = c.choose("flags", FLAGS) if c.thorough else c.dev("flags", FLAGS)
    text = vary(c, s, None)
    d = tempfile.mkdtemp()
    c.scratch_dirs.append(d)
    p = os.path.join(d, "config.ron")
    put(p, text)
    before, err = meaning(PLAIN, p)
    code, out = cli(c, PLAIN, p, *flags)
    what = f"upgrade-config {' '.join(flags)} of {text!r}"
    if err is not None:
        c.check(get(p) == text, lambda: f"{what}: cannot be loaded ({err}), but was changed to {get(p)!r}")
        c.check(code != 0, lambda: f"{what}: cannot be loaded ({err}), but the command succeeds")
    else:
        verify(c, PLAIN, PLAIN, p, text, before, flags, code, out, what)
        first = get(p)
        cli(c, PLAIN, p, *flags)
        c.check(get(p) == first, lambda: f"{what}: a second run changes {first!r} to {get(p)!r}")
    c.agreed()
    c.state((text, flags))


TABLE = [
    lambda: RenameField(("a",), ("b",)), lambda: RenameField(("b",), ("a",)), lambda: RenameField(("s", "x"), ("a",)), lambda: DeleteField(("a",)),
    lambda: MapFieldValue(("a",), lambda x: x + 1 if isinstance(x, int) else x), lambda: ChangeDefault(("a",), 5, 1), lambda: AddDefault(("b",), 6),
    lambda: CheckValue(("b",), {3, 6}), lambda: AddDefault(("s", "x"), 8),
]  # fmt: skip
TN = ["a>b", "b>a", "s.x>a", "del a", "a+1", "chg a", "add b", "check b", "add s.x"]
TS = gen.mk("TS", [("x", int, 2)])


def h_tables(c):
    """Every rule table over one rule per version."""
    n = c.choose("versions", (1, 2, 3) if c.thorough else (1, 2))
    table, names = {}, []
    for v in range(n):
        i = c.choose(f"rule{v}", range(len(TABLE)))
        table[v] = [TABLE[i]()]
        names.append(TN[i])
    mk = lambda t: dataclasses.make_dataclass("TC", [("a", int, 1), ("b", int, 2), ("s", TS, TS()), ("k", Optional[TS], None)], bases=(Versioned,), namespace=dict(version=classmethod(lambda z: n), upgrade_rules=classmethod(lambda z: t)))
    cls, current = mk(table), mk({v: [Refuses()] for v in range(n)})
    s = St("TC", {"version": c.choose("recorded", range(n + 1 if c.thorough else max(1, n)))})
    for f, vals in (("a", [3, SCH]), ("b", [3]), ("s", [St("TS"), St("TS", {"x": SCHX})])):
        k = c.choose(f, range(len(vals) + 1))
        if k:
            s.fields[f] = vals[k - 1]
    text = ron(s)
    flags = c.choose("flags", FLAGS[:2])
    d = tempfile.mkdtemp()
    c.scratch_dirs.append(d)
    p = os.path.join(d, "config.ron")
    put(p, text)
    before, err = meaning(cls, p)
    code, out = cli(c, cls, p, *flags)
    what = f"rules {names}: upgrade-config {flags} of {text!r}"
    if err is not None:
        c.check(get(p) == text and code != 0, lambda: f"{what}: cannot be loaded ({err}), exit {code!r}, now {get(p)!r}")
    else:
        verify(c, cls, current, p, text, before, flags, code, out, what)
        first = get(p)
        cli(c, cls, p, *flags)
        c.check(get(p) == first, lambda: f"{what}: a second run changes {first!r} to {get(p)!r}")
    c.agreed()
    c.state((names, text, flags))


HARNESSES = [("files", h_files), ("several", h_several), ("plain", h_plain), ("tables", h_tables)]
