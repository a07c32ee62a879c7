"""A process with a locale and a working directory of its own, which uses hyperstate as it is told to (C30)."""
import contextlib
import enum
import io
import json
import os
import sys
from dataclasses import dataclass, field
from pathlib import Path
from typing import Dict, List, Optional

import click
import hyperstate
from hyperstate import Lazy, Serializable, StateManager, Versioned
from hyperstate.schema.rewrite_rule import RenameField
from hyperstate.schema.schema_checker import schema_evolution_cli


class Mode(enum.Enum):
    A = "ä"
    B = "b"


@dataclass
class Sec:
    name: str = "ß"
    n: int = 1


@dataclass
class Cfg(Versioned):
    text: str
    mode: Mode = Mode.B
    names: List[str] = field(default_factory=lambda: ["é"])
    table: Dict[str, str] = field(default_factory=dict)
    sec: Sec = field(default_factory=Sec)
    maybe: Optional[str] = None
    lr: float = 0.5

    @classmethod
    def version(cls):
        return 1

    @classmethod
    def upgrade_rules(cls):
        return {0: [RenameField(("old",), ("text",))]}


class Blob(Serializable):
    def __init__(self, v):
        self.v = v

    def serialize(self):
        return {"v": self.v}

    @classmethod
    def deserialize(cls, state_dict, config, state, ctx):
        return cls(state_dict["v"])


@dataclass
class Part:
    inner: Blob


@dataclass
class State(Lazy):
    step: int
    note: str
    blob: Blob
    part: Part


def plain(v):
    if isinstance(v, Cfg):
        return [v.text, v.mode.name, v.names, v.table, [v.sec.name, v.sec.n], v.maybe, v.lr]
    return [v.step, v.note, v.blob.v, v.part.inner.v]


def cli(*argv):
    out = io.StringIO()
    argv0 = sys.argv
    sys.argv = ["schema.py", *argv]
    code = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            schema_evolution_cli(Cfg)
    except SystemExit as e:
        code = e.code
    finally:
        sys.argv = argv0
    return [code, click.unstyle(out.getvalue())]


def op_dump(path, text, elide):
    hyperstate.dump(Cfg(text, Mode.A, [text, "x"], {text: "k"}, Sec(text)), path, elide_defaults=elide)


def op_load(path, overrides):
    return plain(hyperstate.load(Cfg, path, overrides=overrides))


def op_write(path, text):
    """A config of version 0, written by an editor."""
    with open(path, "w", encoding="utf-8") as f:
        f.write(f'Cfg(version: 0, old: "{text}", mode: "ä", lr: "step: 1@0 lin 3@4") // {text}')


def op_run(init, ck, text, steps, overrides):
    ck = ck if isinstance(ck, Path) or ck is None else str(ck)
    sm = StateManager(Cfg, State, lambda cfg, ctx: State(0, "start", Blob("s" + cfg.text), Part(Blob("i"))), init, ck, overrides=overrides)
    before = plain(sm.state)
    for _ in range(steps):
        sm.state.step += 1
        sm.state.note += text
        sm.state.blob = Blob(sm.state.note)
        sm.state.part.inner.v += text
        sm.step()
    return [before, plain(sm.state), plain(sm.config), sm.config_dict()["text"]]


def op_manual(init, ck, target, text):
    sm = StateManager(Cfg, State, lambda cfg, ctx: State(0, text, Blob("s" + cfg.text), Part(Blob(text))), init, ck)
    sm.checkpoint(str(target))
    return [plain(sm.state), plain(sm.config)]


def op_lazy(path, elsewhere):
    s = hyperstate.load(State, path)
    os.chdir(elsewhere)
    return plain(s)


def op_schema(path, what):
    return cli(what, str(path))


def op_upgrade(path, flags):
    return cli("upgrade-config", str(path), *flags)


def decode(v):
    return Path(v["path"]) if isinstance(v, dict) and "path" in v else v


def main():
    out = os.fdopen(os.dup(1), "wb", 0)
    src = sys.stdin.buffer
    sys.stdout = io.StringIO()
    for line in src:
        m = json.loads(line.decode("ascii"))
        try:
            os.chdir(m["cwd"])
            r = {"value": globals()["op_" + m["op"]](**{k: decode(v) for k, v in m["args"].items()})}
        except BaseException as e:
            r = {"error": f"{type(e).__name__}: {e}"}
        os.chdir("/")
        out.write(json.dumps(r).encode("ascii") + b"\n")


if __name__ == "__main__":
    main()
