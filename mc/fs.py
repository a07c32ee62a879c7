"""Control of the file-system interposer (native/fsint.c) and forked steps."""
import ctypes
import os
import pickle
import signal
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OFF, COUNT, CRASH, FAIL, STICKY, STICKY_SPACE, SCHED = range(7)
CRASHED = 86
_lib = None


def ensure_loaded():
    """Start this process again with the interposer preloaded (built from source)."""
    if os.environ.get("HSMC_FSINT"):
        path = os.environ.pop("HSMC_FSINT")
        os.environ.pop("LD_PRELOAD", None)
        os.unlink(path)
        lib()
        return
    fd, path = tempfile.mkstemp(suffix=".so", prefix="hsmc-fsint-")
    os.close(fd)
    r = subprocess.run(
        ["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", path, os.path.join(HERE, "native", "fsint.c"), "-ldl"],
        stderr=subprocess.PIPE,
    )
    if r.returncode != 0:
        os.unlink(path)
        raise RuntimeError("cannot build the interposer: " + r.stderr.decode())
    env = dict(os.environ, LD_PRELOAD=path, HSMC_FSINT=path)
    os.execve(sys.executable, [sys.executable, "-m", "mc.main"] + sys.argv[1:], env)


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(None)
        _lib.fsint_kinds.restype = ctypes.c_char_p
    return _lib


def arm(prefix, mode, target=-1, err=0, half=False, reads=False):
    lib().fsint_arm(prefix.encode(), mode, target, err, int(half), int(reads))


def disarm():
    lib().fsint_disarm()
    return lib().fsint_kinds().decode()


def cross(a=None, b=None):
    """rename between directories a and b behaves as between file systems."""
    lib().fsint_cross(a.encode() if a else None, b.encode() if b else None)


class ChildFailed(Exception):
    pass


def in_child(fn, prefix, mode, target=-1, half=False):
    """Run fn in a forked process under the interposer; (crashed, kinds of operations)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        rc = 1
        try:
            os.close(r)
            arm(prefix, mode, target, 0, half)
            try:
                fn()
                msg = "0" + disarm()
                rc = 0
            except BaseException as e:
                disarm()
                msg = "1" + f"{type(e).__name__}: {e}"
            os.write(w, msg.encode("utf8", "replace")[:4000])
        finally:
            os._exit(rc)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 4096)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st) and os.WEXITSTATUS(st) == CRASHED:
        return True, ""
    data = data.decode("utf8", "replace")
    if not (os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0) or data[:1] != "0":
        raise ChildFailed(data[1:] or f"status {st}")
    return False, data[1:]


class Proc:
    """A forked process that stops before every file-system operation below the prefix."""

    def __init__(self, name, fn, prefix, reads=True):
        self.name = name
        self.kinds = ""
        self.result = None
        out_r, out_w = os.pipe()
        in_r, in_w = os.pipe()
        res_r, res_w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(out_r), os.close(in_w), os.close(res_r)
                lib().fsint_sched(out_w, in_r)
                arm(prefix, SCHED, reads=reads)
                try:
                    res = ("ok", fn())
                except BaseException as e:
                    res = ("error", f"{type(e).__name__}: {e}"[:500])
                disarm()
                os.write(res_w, pickle.dumps(res))
            finally:
                os._exit(0)
        os.close(out_w), os.close(in_r), os.close(res_w)
        self.out, self.inp, self.res = out_r, in_w, res_r
        self.next = self._wait()

    def _wait(self):
        b = os.read(self.out, 1)
        return b.decode() if b else None

    def go(self):
        """Let the announced operation happen; runs up to the next one (or the end)."""
        self.kinds += self.next
        os.write(self.inp, b"g")
        self.next = self._wait()
        return self.next

    def finish(self):
        data = b""
        while True:
            b = os.read(self.res, 65536)
            if not b:
                break
            data += b
        if not data:
            raise ChildFailed(f"{self.name} died")
        self.result = pickle.loads(data)
        self.close()
        return self.result

    def close(self):
        if self.out is not None:
            for fd in (self.out, self.inp, self.res):
                os.close(fd)
            self.out = None
            if self.result is None:
                os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)


def interleave(c, procs, bounded):
    """Run the processes to their end, in every order of their operations (within c's budget, if bounded)."""
    last = None
    log = []
    try:
        while True:
            alive = [p for p in procs if p.next is not None]
            if not alive:
                break
            if last in alive:
                opts = [last] + [p for p in alive if p is not last]
                names = [p.name for p in opts]
                n = (c.dev if bounded else c.choose)("next", names)
            else:
                names = [p.name for p in alive]
                n = c.choose("next", names)
            p = next(p for p in alive if p.name == n)
            log.append(f"{n}:{p.next}")
            p.go()
            c.op()
            last = p
        for p in procs:
            p.finish()
    finally:
        for p in procs:
            p.close()
        c.note(" ".join(log))
    return log
