"""C20: commands hand the right config to the program or stop."""
import contextlib
import io
import os
import sys
import tempfile
from typing import Dict, List, Optional

import click
import hyperstate
from hyperstate import StateManager, command, stateful_command

from mc import gen
from mc.engine import Skip
from mc.ref import canon, show

RULE = (
    "every sequence of command line arguments up to the length bound over an alphabet of options (config files of every kind, "
    "overrides of every kind, information requests, unknown options, checkpoint directories and checkpoints in every state), for "
    "both command forms, run in this process; compared with a model of the command line"
)
BOUND = {
    "quick": "up to 3 arguments out of 22 for commands, up to 3 out of 20 for stateful commands",
    "thorough": "up to 4 arguments",
}
ASSUMPTIONS = [
    "overrides separated by options may be refused (argparse), but not lost",
    "the exit status of an override without `=`, which is answered with information, is not specified",
]

SEC = gen.mk("SEC", [("x", int, 3), ("rate", float, 0.5)])
CFG = gen.mk("CFG", [("n", int, 1), ("t", str, "d"), ("b", bool, False), ("s", SEC, SEC()), ("o", Optional[SEC], None), ("l", List[int], [1]), ("rate", float, 0.25)])
REQ = gen.mk("CFG", [("m", int), ("s", SEC), ("n", int, 1)])
STATE = gen.mk("STATE", [("step", int, 0), ("epoch", int, 0), ("x", float, 0.0)])

DEFAULT = {"n": 1, "t": "d", "b": False, "s": {"x": 3, "rate": 0.5}, "o": None, "l": [1], "rate": 0.25}
WRONG = object()  # a value of the wrong type, which a later override may replace
FILES = {
    "good.ron": ('CFG(n: 7, s: SEC(x: 8), t: "file")', {"n": 7, "s.x": 8, "t": "file"}),
    "sched.ron": ('CFG(rate: "step: 2@0 lin 4@2", n: 9)', {"n": 9, "rate": 2.0}),
    "unknown.ron": ("CFG(zzz: 1)", None),
    "type.ron": ('CFG(n: "x")', {"n": WRONG}),
    "syntax.ron": ("CFG(n: ", None),
}
# override -> (path, value), or None if it is wrong in any case
OVERRIDES = {
    "n=4": ("n", 4), "n=-5": ("n", -5), "s.x=2": ("s.x", 2), "s.rate=1": ("s.rate", 1.0), "t=a=b c": ("t", "a=b c"), "t=": ("t", ""), "b=true": ("b", True), "o.x=6": ("o.x", 6), "l=[2, 3]": ("l", [2, 3]), "o=None": ("o", None),
    "n=abc": ("n", WRONG), "b=maybe": None, "zzz=1": None, "s.zzz=1": None, "nn=1": None, "n.x=1": None, "s=5": ("s", WRONG),
}  # fmt: skip


def put(d, name, text):
    with open(os.path.join(d, name), "w") as f:
        f.write(text)


def apply(cfg, path, v):
    a, _, b = path.partition(".")
    if not b:
        cfg[a] = v
    else:
        if cfg[a] is None:
            cfg[a] = {"x": 3, "rate": 0.5}
        cfg[a][b] = v


def fresh(base=None):
    cfg = {k: dict(v) if isinstance(v, dict) else list(v) if isinstance(v, list) else v for k, v in DEFAULT.items()}
    for p, v in (base or {}).items():
        apply(cfg, p, v)
    return cfg


def plain(v):
    import dataclasses

    if dataclasses.is_dataclass(v):
        return {k: plain(getattr(v, k)) for k in v.__dataclass_fields__}
    return [plain(x) for x in v] if isinstance(v, list) else v


class Parsed:
    """What a command line means."""

    def __init__(self):
        self.opts = {}
        self.words = []
        self.groups = 0
        self.bad = None
        self.info = None
        self.verbose = False


WITH_VALUE = ("--config", "--checkpoint-dir", "--resume-from")


def parse(argv, stateful):
    p = Parsed()
    i = 0
    last = None
    while i < len(argv):
        a = argv[i]
        if a == "-h":
            p.bad = "help"
            return p
        if a in WITH_VALUE and (stateful or a == "--config"):
            if i + 1 >= len(argv) or argv[i + 1].startswith("-"):
                p.bad = a
                return p
            p.opts[a] = argv[i + 1]
            i += 2
        elif a == "--hps-info":
            if i + 1 < len(argv) and not argv[i + 1].startswith("-"):
                p.info = argv[i + 1]
                i += 2
            else:
                p.info = ""
                i += 1
        elif a in ("-v", "--verbose"):
            p.verbose = True
            i += 1
        elif a.startswith("-"):
            p.bad = a
            return p
        else:
            if last != i - 1 or i == 0:
                p.groups += 1
            last = i
            p.words.append(a)
            i += 1
    return p


def run(c, f, argv):
    """(result, exception or exit status, output)"""
    out = io.StringIO()
    argv0 = sys.argv
    sys.argv = ["prog", *argv]
    res, code = None, None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            res = f()
    except SystemExit as e:
        code = e.code if e.code is not None else 0
    except Exception as e:
        code = e
    finally:
        sys.argv = argv0
    c.op("run")
    return res, code, click.unstyle(out.getvalue())


def help_text(cls, query):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        hyperstate.help(cls, query)
    return click.unstyle(out.getvalue())


def expected_config(p, base):
    """The config, or None if it is wrong."""
    if base is None:
        return None
    cfg = fresh(base)
    for w in p.words:
        if OVERRIDES[w] is None:
            return None
        path, v = OVERRIDES[w]
        if cfg.get(path.split(".")[0]) is not WRONG or "." not in path:
            apply(cfg, path, v)
    return None if any(v is WRONG for v in cfg.values()) else cfg


TOKENS = (
    [["--config", n] for n in FILES] + [["--config", "missing.ron"]] + [["--hps-info"], ["-v"], ["--bogus"], ["--config"]]
    + [[w] for w in ("n=4", "n=-5", "s.x=2", "t=a=b c", "t=", "o.x=6", "o=None", "n=abc", "zzz=1", "s.zzz=1", "nn=1", "s=5")] + [["n"], ["--hps-info", "s"]]
)  # fmt: skip


def stopped(c, what, p, calls, code, out):
    """Common rules for command lines that must not reach the program; True if this was one."""
    if p.bad:
        c.check(not calls and isinstance(code, int) and (code == 0) == (p.bad == "help"), lambda: f"{what}: exit {code!r}, called with {calls}, {out!r}")
        c.outcome = "usage"
        return True
    if p.groups > 1 and code == 2 and not calls:
        c.outcome = "usage"  # argparse refuses words separated by options
        return True
    if p.info is not None:
        return False
    malformed = [w for w in p.words if "=" not in w]
    if malformed:
        c.check(not calls and not isinstance(code, Exception) and code is not None, lambda: f"{what}: {malformed} accepted: exit {code!r}, called with {calls}")
        c.check(malformed[0] in out and "error" in out, lambda: f"{what}: no word about {malformed}: {out!r}")
        c.outcome = "malformed"
        return True
    return False


def h_command(c):
    n = c.choose("arguments", (0, 1, 2, 3, 4) if c.thorough else (0, 1, 2, 3))
    argv = []
    for i in range(n):
        argv += c.choose(f"argument{i}", TOKENS)
    d = tempfile.mkdtemp()
    c.scratch_dirs.append(d)
    p = parse(argv, False)
    f = p.opts.get("--config")
    real = [os.path.join(d, a) if a.endswith(".ron") else a for a in argv]
    if f in FILES:
        put(d, f, FILES[f][0])
    calls = []

    @command(CFG)
    def main(cfg):
        calls.append(plain(cfg))
        return "result"

    res, code, out = run(c, main, real)
    what = f"command {argv}"
    c.check(len(calls) <= 1, lambda: f"{what}: called {len(calls)} times")
    c.agreed()
    c.state(tuple(argv))
    if stopped(c, what, p, calls, code, out):
        return
    if p.info is not None:
        c.check(not calls and code == 0 and out == help_text(CFG, p.info), lambda: f"{what}: exit {code!r}, called with {calls}, {out!r}")
        c.outcome = "info"
        return
    base = {} if f is None else FILES[f][1] if f in FILES else None
    want = expected_config(p, base)
    if want is None:
        c.check(not calls and code not in (0, None), lambda: f"{what}: exit {code!r}, called with {calls}")
        c.check(isinstance(code, Exception) or "error" in out, lambda: f"{what}: no error in {out!r}")
        unknown = [w for w in p.words if w.split("=")[0].split(".")[-1] in ("zzz", "nn")]
        if unknown and base is not None and all(OVERRIDES[w] is not None or w in unknown for w in p.words):
            c.check(code == 1 and all(w.split("=")[0] in out for w in unknown), lambda: f"{what}: exit {code!r} without a word about {unknown}: {out!r}")
        c.outcome = "config error"
        return
    c.check(len(calls) == 1 and code is None and res == "result", lambda: f"{what}: exit {code!r}, {len(calls)} calls, result {res!r}, {out!r}")
    c.check(canon(calls[0]) == canon(want), lambda: f"{what}: called with {show(calls[0])}, expected {show(want)}")
    c.outcome = "called"


def h_required(c):
    """A config with required fields: they have to be given somewhere."""
    n = c.choose("arguments", (0, 1, 2, 3))
    toks = ["m=4", "s.x=2", "s.rate=0.5", "n=3", "s=SEC()", "m=x"]
    argv = [c.choose(f"argument{i}", toks) for i in range(n)]
    calls = []

    @command(REQ)
    def main(cfg):
        calls.append(plain(cfg))
        return len(calls)

    res, code, out = run(c, main, argv)
    c.agreed()
    c.state(tuple(argv))
    given = {a.split("=")[0]: a.split("=")[1] for a in argv}
    if given.get("m") != "4":
        c.check(not calls and code not in (0, None), lambda: f"{argv}: exit {code!r}, called with {calls}")
        return
    want = {"m": 4, "s": {"x": 3, "rate": 0.5}, "n": 1}
    for a in argv:
        if a == "s=SEC()":
            want["s"] = {"x": 3, "rate": 0.5}
        elif a.startswith("s."):
            k, v = a[2:].split("=")
            want["s"][k] = float(v) if k == "rate" else int(v)
        elif a == "n=3":
            want["n"] = 3
    c.check(code is None and res == 1 and canon(calls[0]) == canon(want), lambda: f"{argv}: exit {code!r}, called with {calls}, expected {want}: {out!r}")


def h_raises(c):
    """What the program itself raises is not changed."""
    kind = c.choose("form", ("command", "stateful"))
    exc = c.choose("exception", (ValueError("mine"), KeyError("k"), SystemExit(3), KeyboardInterrupt()))
    verbose = c.choose("verbose", ([], ["-v"]))

    def body(x):
        if kind == "stateful":
            x.state
        raise exc

    f = command(CFG)(body) if kind == "command" else stateful_command(CFG, STATE, lambda cfg, ctx: STATE())(body)
    argv0 = sys.argv
    sys.argv = ["prog", *verbose]
    got = None
    try:
        f()
    except BaseException as e:
        got = e
    finally:
        sys.argv = argv0
    c.check(got is exc, lambda: f"{kind}: the program raised {exc!r}, the command {got!r}")
    c.agreed()
    c.state((kind, repr(exc), bool(verbose)))


def make_checkpoint(path, key, step, over=()):
    """A checkpoint whose config and state tell where they came from."""
    sm = StateManager(CFG, STATE, lambda cfg, ctx: STATE(), overrides=[f"n={step + 100}", "s.x=50"], checkpoint_key=key)
    sm.state.step = step
    sm.state.epoch = step + 1000
    sm.state.x = step + 0.5
    sm.checkpoint(path)


STOKENS = (
    [["--config", "good.ron"], ["--config", "sched.ron"], ["--config", "unknown.ron"], ["--config", "missing.ron"]]
    + [["--checkpoint-dir", x] for x in ("empty", "new", "full", "other")]
    + [["--resume-from", x] for x in ("ck", "ck/config.ron", "nothing")]
    + [["--hps-info"], ["--bogus"], ["--checkpoint-dir"]]
    + [["n=4"], ["s.x=2"], ["n=abc"], ["zzz=1"], ["n"], ["-v"]]
)  # fmt: skip


def h_stateful(c):
    n = c.choose("arguments", (0, 1, 2, 3, 4) if c.thorough else (0, 1, 2, 3))
    argv = []
    for i in range(n):
        argv += c.choose(f"argument{i}", STOKENS)
    p = parse(argv, True)
    key = c.choose("key", ("step", "epoch")) if any(a == "full" for a in p.opts.values()) and n <= 2 else "step"
    d = tempfile.mkdtemp()
    c.scratch_dirs.append(d)
    for f in FILES:
        if f in argv:
            put(d, f, FILES[f][0])
    if "empty" in argv:
        os.mkdir(os.path.join(d, "empty"))
    if "full" in argv:
        os.mkdir(os.path.join(d, "full"))
        for s in (5, 20):
            v = s if key == "step" else s + 1000
            make_checkpoint(os.path.join(d, "full", f"latest-{key}{v:012}"), key, s)
    if "other" in argv:
        os.mkdir(os.path.join(d, "other"))
        make_checkpoint(os.path.join(d, "other", "latest-walrus000000000007"), "step", 7)
    if "ck" in argv or "ck/config.ron" in argv:
        make_checkpoint(os.path.join(d, "ck"), "step", 40)
    real = [os.path.join(d, a) if i and argv[i - 1] in WITH_VALUE and not a.startswith("-") else a for i, a in enumerate(argv)]
    calls, ran = [], []

    @stateful_command(CFG, STATE, lambda cfg, ctx: STATE(x=float(cfg.n)), checkpoint_key=key)
    def main(sm):
        ran.append(1)
        sm.state
        calls.append((plain(sm.config), plain(sm.state)))
        sm.state.step += 1
        sm.state.epoch += 1
        sm.step()
        return plain(sm.config)

    res, code, out = run(c, main, real)
    what = f"stateful command {argv}"
    c.agreed()
    c.state((tuple(argv), key))
    if stopped(c, what, p, calls, code, out):
        # contradictory arguments may be reported first
        return
    if p.info is not None:
        c.check(not ran and code == 0 and out == help_text(CFG, p.info), lambda: f"{what}: exit {code!r}, called with {calls}, {out!r}")
        c.outcome = "info"
        return
    cdir, resume, config = (p.opts.get(x) for x in ("--checkpoint-dir", "--resume-from", "--config"))
    if resume is not None and config is not None:
        c.check(not ran and code == 1 and "error" in out, lambda: f"{what}: contradictory, exit {code!r}, called with {calls}, {out!r}")
        c.outcome = "contradictory"
        return
    state = {"step": 0, "epoch": 0, "x": None}
    if cdir == "full":
        base, state = {"n": 120, "s.x": 50}, {"step": 20, "epoch": 1020, "x": 20.5}
    elif resume == "ck":
        base, state = {"n": 140, "s.x": 50}, {"step": 40, "epoch": 1040, "x": 40.5}
    elif resume == "ck/config.ron":
        base = {"n": 140, "s.x": 50}
    elif resume == "nothing" or config == "missing.ron":
        base = None
    else:
        base = {} if config is None else FILES[config][1]
    want = expected_config(p, base)
    if want is None:
        c.check(not calls and code not in (0, None), lambda: f"{what}: exit {code!r}, called with {calls}")
        c.check(isinstance(code, Exception) or "error" in out, lambda: f"{what}: no error in {out!r}")
        c.outcome = "config error"
        return
    if state["x"] is None:
        state["x"] = float(want["n"])
    c.check(len(calls) == 1 and len(ran) == 1 and code is None, lambda: f"{what}: exit {code!r}, {len(ran)} calls, {out!r}")
    c.check(canon(calls[0][0]) == canon(want), lambda: f"{what}: config {show(calls[0][0])}, expected {show(want)}")
    c.check(canon(calls[0][1]) == canon(state), lambda: f"{what}: state {calls[0][1]}, expected {state}")
    if config == "sched.ron" and cdir != "full":
        want["rate"] = 3.0
    c.check(canon(res) == canon(want), lambda: f"{what}: returned {show(res)}, expected {show(want)}")
    names = sorted(os.listdir(os.path.join(d, cdir))) if cdir else []
    kept = ["latest-walrus000000000007"] if cdir == "other" else []
    mine = [f"latest-{key}{state[key] + 1:012}"] if cdir else []
    c.check(names == sorted(kept + mine), lambda: f"{what}: the checkpoint directory holds {names}, expected {mine + kept}")
    c.outcome = "called"


HARNESSES = [("command", h_command), ("required", h_required), ("raises", h_raises), ("stateful", h_stateful)]
