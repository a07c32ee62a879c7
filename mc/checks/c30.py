"""C30: files mean the same in every process, wherever and however it is run."""
import json
import os
import subprocess
import sys
import tempfile
from pathlib import Path

RULE = (
    "every sequence of processes (a config dumped and loaded, a run started and resumed twice, a manual checkpoint opened, a "
    "schema dumped and checked, a config upgraded and loaded), each with any locale and working directory and with paths "
    "spelled in any way, in folders with any of the names; values, messages and the bytes of all files are compared with "
    "those of a process that uses UTF-8 and absolute paths"
)
BOUND = {
    "quick": "2 locales (UTF-8, ASCII), 9 spellings of paths, 3 names of folders, 2 texts; up to 3 processes",
    "thorough": "2 locales, 9 spellings, 8 names of folders and 4 of files, 4 texts; up to 3 processes",
}
ASSUMPTIONS = [
    "names of files and folders are ASCII (the file system encoding of a process in an ASCII locale has no others)",
    "the working directory changes neither between opening a manager and its steps, nor between a load and a dump",
]

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
ENVS = {
    "utf8": {"LC_ALL": "C.UTF-8", "PYTHONUTF8": "1"},
    "ascii": {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"},
}
SPELLINGS = ("absolute", "relative", "dot", "bare", "parent", "link", "double slash", "Path", "relative Path")
_servers = {}


def decode(v):
    return Path(v["path"]) if isinstance(v, dict) else v


def server(env):
    key = (os.getpid(), env)
    if key not in _servers:
        e = {k: v for k, v in os.environ.items() if k not in ("LANG", "LC_CTYPE", "LANGUAGE", "PYTHONIOENCODING")}
        e.update(ENVS[env])
        e["PYTHONPATH"] = REPO + os.pathsep + ROOT
        _servers[key] = subprocess.Popen(
            [sys.executable, "-m", "mc.env_server"], cwd=ROOT, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL
        )
    return _servers[key]


def call(env, cwd, op, **args):
    s = server(env)
    s.stdin.write(json.dumps({"op": op, "cwd": cwd, "args": args}).encode("ascii") + b"\n")
    s.stdin.flush()
    line = s.stdout.readline()
    if not line:
        _servers.pop((os.getpid(), env))
        return {"error": "the process ended"}
    return json.loads(line.decode("ascii"))


class Place:
    """A folder and the ways to name what is in it."""

    def __init__(self, c, folder):
        self.root = tempfile.mkdtemp()
        c.scratch_dirs.append(self.root)
        self.dir = os.path.join(self.root, folder)
        os.mkdir(self.dir)
        os.mkdir(os.path.join(self.root, "sub"))
        os.symlink(self.dir, os.path.join(self.root, "link"))
        self.folder = folder

    def spell(self, how, name):
        """(working directory, path)"""
        full = os.path.join(self.dir, name)
        return {
            "absolute": ("/", full),
            "relative": (self.root, os.path.join(self.folder, name)),
            "dot": (self.dir, "./" + name),
            "bare": (self.dir, name),
            "parent": (os.path.join(self.root, "sub"), os.path.join("..", self.folder, name)),
            "link": (self.root, os.path.join("link", name)),
            "double slash": ("/", os.path.join(self.root, ".", "", self.folder) + "//" + name),
            "Path": ("/", {"path": full}),
            "relative Path": (self.dir, {"path": name}),
        }[how]

    def tree(self):
        out = {}
        for base, ds, fs in os.walk(self.dir):
            for x in ds:
                out[os.path.relpath(os.path.join(base, x), self.dir) + "/"] = None
            for x in fs:
                with open(os.path.join(base, x), "rb") as f:
                    out[os.path.relpath(os.path.join(base, x), self.dir)] = f.read()
        return out


TEXTS = ("x ü☃", "plain", "\U0001d11e\u0301é", "a\u2028b\u00a0")
FOLDERS = ("d", "x.ron", "latest-step000000000007", "with space", "a.b", "%2E", "[0]", "state")
FILES = ("c.ron", "c d.ron", "c", "state.ron")
_base = {}


class Story:
    """A sequence of processes; with `base` all of them are the reference process."""

    def __init__(self, c, kind, text, file, base):
        self.c, self.kind, self.text, self.file, self.base = c, kind, text, file, base
        self.log = []

    def proc(self, i, op, names, **args):
        if self.base:
            env, how = "utf8", "absolute"
        else:
            env, how = self.envs[i], self.how[i]
        cwd = "/"
        for k, name in names.items():
            cwd, args[k] = self.place.spell(how, name)
        r = call(env, cwd, op, **args)
        if not self.base:
            self.c.op(f"{op} in {env}, {how}: {str(r)[:150]}")
        if "value" in r and op in ("schema", "upgrade"):
            # the command line prints the path it was given
            r["value"][1] = r["value"][1].replace(str(decode(args["path"])), "PATH")
        self.log.append((op, r, self.place.tree()))

    def play(self, place, envs=None, how=None):
        self.place, self.envs, self.how = place, envs, how
        k, t, f = self.kind, self.text, self.file
        if k in ("config", "config elided"):
            self.proc(0, "dump", {"path": f}, text=t, elide=k == "config elided")
            self.proc(1, "load", {"path": f}, overrides=[f'maybe="{t}"'])
        elif k in ("run", "run of file"):
            init = {"init": f} if k == "run of file" else {}
            rest = {} if init else {"init": None}
            if init:
                with open(os.path.join(place.dir, f), "wb") as fh:
                    fh.write(f'Cfg(version: 0, old: "{t}", lr: "step: 1@0 lin 3@4")'.encode("utf8"))
            ov = [] if init else ["text=" + t]
            self.proc(0, "run", {**init, "ck": "ck"}, text=t, steps=2, overrides=ov, **rest)
            self.proc(1, "run", {**init, "ck": "ck"}, text=t, steps=1, overrides=["sec.name=" + t], **rest)
            self.proc(0, "run", {"ck": "ck"}, text=t, steps=1, overrides=[], init=None)
        elif k == "manual":
            self.proc(0, "write", {"path": f}, text=t)
            self.proc(0, "manual", {"init": f, "target": "m"}, text=t, ck=None)
            self.proc(1, "manual", {"init": "m", "target": "n"}, text=t, ck=None)
            self.proc(0, "lazy", {"path": "n/state.ron"}, elsewhere=place.root)
        elif k == "schema":
            self.proc(0, "schema", {"path": f}, what="dump-schema")
            self.proc(1, "schema", {"path": f}, what="check-schema")
            self.proc(1, "schema", {"path": f}, what="upgrade-schema")
        elif k == "upgrade":
            self.proc(0, "write", {"path": f}, text=t)
            self.proc(1, "upgrade", {"path": f}, flags=["--dry-run"])
            self.proc(1, "upgrade", {"path": f}, flags=[])
            self.proc(0, "load", {"path": f}, overrides=[])
        return self.log


EXPECT = {
    "config": lambda t: [t, "A", [t, "x"], {t: "k"}, [t, 1], t, 0.5],
    "run": lambda t: [[3, "start" + t * 3, "start" + t * 3, "i" + t * 3], [4, "start" + t * 4, "start" + t * 4, "i" + t * 4]],
    "manual": lambda t: [0, t, "s" + t, t],
    "upgrade": lambda t: [t, "A", ["é"], {}, ["ß", 1], None, 1.0],
}


def reference(c, kind, text, file):
    """What the reference process does, checked against what is expected."""
    key = (kind, text, file)
    if key not in _base:
        log = Story(c, kind, text, file, True).play(Place(c, "d"))
        for op, r, _ in log:
            c.check("value" in r, lambda: f"{kind} with text {text!r} in a UTF-8 locale: {op} failed: {r.get('error')}")
        last = log[-1][1]["value"]
        k = "config" if kind.startswith("config") else "run" if kind.startswith("run") else kind
        if k == "run":
            last = last[:2]
        if k in EXPECT:
            c.check(last == EXPECT[k](text), lambda: f"{kind} with text {text!r} in a UTF-8 locale ended with {last}, expected {EXPECT[k](text)}")
        if k == "schema":
            c.check([x[1]["value"][0] for x in log] == [0, 0, 0] and "compatible" in log[1][1]["value"][1], lambda: f"schema commands printed {[x[1] for x in log]}")
        _base[key] = log
    return _base[key]


def h_story(c):
    kind = c.choose("kind", ("config", "config elided", "run", "run of file", "manual", "schema", "upgrade"))
    envs = [c.choose(f"locale {i}", ("ascii", "utf8")) for i in range(2)]
    folder = c.choose("folder", FOLDERS if c.thorough else FOLDERS[:3])
    text = c.choose("text", TEXTS if c.thorough else TEXTS[:2] if folder == "d" else TEXTS[:1])
    file = c.choose("file", FILES) if c.thorough and folder == "d" else "c.ron"
    how = [c.choose(f"paths {i}", SPELLINGS) for i in range(2)]
    want = reference(c, kind, text, file)
    got = Story(c, kind, text, file, False).play(Place(c, folder), envs, how)
    for i, ((op, r, tree), (_, r0, tree0)) in enumerate(zip(got, want)):
        c.check(r == r0, lambda: f"{kind}: process {i} ({op}) gave {r}, expected {r0}")
        c.check(sorted(tree) == sorted(tree0), lambda: f"{kind}: after process {i} ({op}) there are {sorted(tree)}, expected {sorted(tree0)}")
        for f in tree:
            c.check(tree[f] == tree0[f], lambda: f"{kind}: after process {i} ({op}) {f} contains {tree[f][:300]!r}, expected {tree0[f][:300]!r}")
    c.state((kind, text, tuple(envs), folder, file, tuple(how)))
    c.agreed()


HARNESSES = [("story", h_story)]
