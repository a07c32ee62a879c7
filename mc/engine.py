"""
Stateless model-checking engine.

A *harness* is a function ``h(c)`` that drives the real hyperstate code.  Every
decision it takes (class shape, value, operation, fault position, crash point...)
goes through ``c.choose``; the engine runs the harness once for every possible
sequence of answers, so the finite space the harness describes is enumerated
completely.  ``c.dev`` makes a decision whose non-default answers cost one unit of
a deviation budget (iterative deviation bounding).

Nothing is sampled: for a given tier the set of executions is a fixed, finite set.
"""
import array
import hashlib
import gc
import json
import os
import select
import signal
import struct
import sys
import time
import traceback


class Violation(Exception):
    """The property does not hold on this execution."""


class KnownFinding(Exception):
    """The execution shows a defect that is listed in known_findings.json."""

    def __init__(self, kid, msg):
        super().__init__(msg)
        self.kid = kid


class Skip(Exception):
    """This combination of choices is outside the stated bound (not an execution)."""


class EngineError(Exception):
    pass


class _Expand(Exception):
    def __init__(self, n):
        self.n = n


class Timeout(Exception):
    pass


EXEC_LIMIT = 120  # seconds; one execution that takes longer does not terminate


def h64(obj):
    if not isinstance(obj, bytes):
        obj = (obj if isinstance(obj, str) else repr(obj)).encode("utf8", "surrogatepass")
    return struct.unpack("<Q", hashlib.blake2b(obj, digest_size=8).digest())[0]


class Ctx:
    """One execution: replays ``prefix`` and then always takes the first option."""

    def __init__(self, prefix=(), tier="quick", known=None, expand=False, ns=None):
        self.prefix = prefix
        self.ns_expected = ns
        self.tier = tier
        self.expand = expand
        self.pos = 0
        self.choices = []
        self.ns = []
        self.labels = []
        self.budget_used = 0
        self.budget = None
        self.states = []
        self.transitions = 0
        self.outcome = None
        self.known = known or {}
        self.trace = []
        self.validated = False
        self.scratch_dirs = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    # -- decisions ---------------------------------------------------------
    def _pick(self, n, label):
        i = self.pos
        if i < len(self.prefix):
            k = self.prefix[i]
            if k >= n or (self.ns_expected is not None and i < len(self.ns_expected) and self.ns_expected[i] != n):
                raise EngineError(
                    f"divergence at choice {i} ({label}): replaying option {k} of {n},"
                    f" expected {self.ns_expected[i] if self.ns_expected else '?'} options"
                )
        else:
            if self.expand:
                raise _Expand(n)
            k = 0
        self.pos += 1
        self.choices.append(k)
        self.ns.append(n)
        return k

    def choose(self, label, options):
        """Exhaustively branch over ``options`` (a sequence, or an int for range)."""
        if isinstance(options, int):
            options = range(options)
        n = len(options)
        if n == 0:
            raise Skip()
        if n == 1:
            return options[0]
        k = self._pick(n, label)
        v = options[k]
        self.labels.append((label, v))
        return v

    def set_budget(self, n):
        self.budget = n

    def dev(self, label, options, cost=1):
        """First option is the default; any other costs ``cost`` deviations."""
        if isinstance(options, int):
            options = range(options)
        if self.budget is not None and self.budget_used + cost > self.budget:
            return options[0]
        v = self.choose(label, options)
        if len(options) > 1 and self.choices[-1] != 0:
            self.budget_used += cost
        return v

    def subset(self, label, items):
        return [x for x in items if self.choose(f"{label}:{x}", (False, True))]

    # -- bookkeeping -------------------------------------------------------
    def op(self, desc=None, n=1):
        """One step of the implementation was executed."""
        self.transitions += n
        if desc is not None:
            self.trace.append(str(desc))

    def note(self, desc):
        self.trace.append(str(desc))

    def state(self, obj):
        """Record a state of the explored system (deduplicated across the run)."""
        self.states.append(h64(obj))

    def agreed(self):
        """The implementation agreed with the reference model on this execution."""
        self.validated = True

    def fail(self, msg):
        raise Violation(msg)

    def check(self, ok, msg, kf=None):
        if ok:
            return
        if callable(msg):
            msg = msg()
        if kf is not None and kf in self.known:
            raise KnownFinding(kf, msg)
        raise Violation(msg)

    def eq(self, got, want, what, kf=None):
        from mc.ref import same, show

        if not same(got, want):
            self.check(False, f"{what}: got {show(got)}, expected {show(want)}", kf)


def run_one(harness, ctx):
    """Run one execution; returns (status, message)."""
    try:
        harness(ctx)
        return "ok", None
    except (_Expand, EngineError, KeyboardInterrupt):
        raise
    except Skip:
        return "skip", None
    except KnownFinding as e:
        return "known", (e.kid, str(e))
    except Violation as e:
        return "violation", str(e)
    except Timeout:
        return "violation", f"execution did not terminate within {EXEC_LIMIT} s"
    except Exception as e:  # the code under test raised where the model says it must not
        tb = traceback.format_exc(limit=-6)
        return "violation", f"unexpected {type(e).__name__}: {e}\n{tb}"
    except SystemExit as e:
        return "violation", f"unexpected SystemExit({e.code!r})"
    finally:
        cleanup(ctx)


def cleanup(ctx):
    import shutil

    for d in ctx.scratch_dirs:
        shutil.rmtree(d, ignore_errors=True)
    ctx.scratch_dirs = []


def _alarm(signum, frame):
    raise Timeout()


class Stats:
    def __init__(self):
        self.executions = 0
        self.skipped = 0
        self.validated = 0
        self.transitions = 0
        self.states = set()
        self.violations = []
        self.known = {}
        self.samples = []
        self.outcomes = {}
        self.max_depth = 0

    def to_bytes(self):
        head = dict(
            executions=self.executions,
            skipped=self.skipped,
            validated=self.validated,
            transitions=self.transitions,
            violations=self.violations,
            known=self.known,
            samples=self.samples,
            outcomes=self.outcomes,
            max_depth=self.max_depth,
            nstates=len(self.states),
        )
        hb = json.dumps(head, default=repr).encode()
        return struct.pack("<I", len(hb)) + hb + array.array("Q", self.states).tobytes()

    def merge_bytes(self, b):
        (n,) = struct.unpack("<I", b[:4])
        head = json.loads(b[4 : 4 + n])
        a = array.array("Q")
        a.frombytes(b[4 + n :])
        self.states.update(a)
        self.executions += head["executions"]
        self.skipped += head["skipped"]
        self.validated += head["validated"]
        self.transitions += head["transitions"]
        self.violations += head["violations"]
        for k, v in head["known"].items():
            self.known.setdefault(k, v)
        self.samples += head["samples"]
        for k, v in head["outcomes"].items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        self.max_depth = max(self.max_depth, head["max_depth"])


def _describe(ctx):
    d = [f"{a}={_short(b)}" for a, b in ctx.labels]
    return d, [_short(t, 300) for t in ctx.trace]


def _short(x, n=120):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[: n - 3] + "..."


KEEP_GOING = 0  # development aid: collect up to this many violations per worker


COUNT = [0]
COLLECT = int(os.environ.get("HSMC_COLLECT", "400"))


def explore_subtree(harness, prefix, tier, known, st, hname, stop, sample_every):
    """Depth-first enumeration of every execution that starts with ``prefix``."""
    prefix = list(prefix)
    base = len(prefix)
    ns = None
    while True:
        if stop():
            return False
        COUNT[0] += 1
        if COLLECT and COUNT[0] % COLLECT == 0:
            gc.collect()  # classes of earlier executions slow down every issubclass() of an abstract class
        ctx = Ctx(prefix, tier, known, ns=ns)
        signal.setitimer(signal.ITIMER_REAL, EXEC_LIMIT)
        status, msg = run_one(harness, ctx)
        signal.setitimer(signal.ITIMER_REAL, 0)
        if status == "skip":
            st.skipped += 1
        else:
            st.executions += 1
            st.transitions += ctx.transitions
            st.states.update(ctx.states)
            st.max_depth = max(st.max_depth, len(ctx.choices))
            if ctx.outcome is not None:
                st.outcomes[ctx.outcome] = st.outcomes.get(ctx.outcome, 0) + 1
            if status == "ok":
                if ctx.validated:
                    st.validated += 1
                if st.executions % sample_every == 1 and len(st.samples) < 2:
                    d, t = _describe(ctx)
                    st.samples.append({"harness": hname, "choices": d, "trace": t})
            elif status == "known":
                kid, m = msg
                if kid not in st.known:
                    d, t = _describe(ctx)
                    st.known[kid] = {"message": m, "choices": d, "harness": hname}
            elif status == "violation":
                d, t = _describe(ctx)
                st.violations.append(
                    {
                        "harness": hname,
                        "choice_sequence": list(ctx.choices),
                        "choices": d,
                        "trace": t,
                        "message": msg,
                    }
                )
                if len(st.violations) >= KEEP_GOING:
                    return False
        # next sequence in depth-first order
        ch, n = ctx.choices, ctx.ns
        i = len(ch) - 1
        while i >= base and ch[i] + 1 >= n[i]:
            i -= 1
        if i < base:
            return True
        prefix = ch[:i] + [ch[i] + 1]
        ns = n[: i + 1]


def split(harness, tier, known, target):
    """Breadth-first split of the choice tree into about ``target`` subtrees."""
    frontier = [()]
    leaves = []
    while frontier and len(frontier) + len(leaves) < target:
        p = frontier.pop(0)
        ctx = Ctx(p, tier, known, expand=True)
        try:
            run_one(harness, ctx)
            leaves.append(p)
        except _Expand as e:
            frontier.extend(p + (k,) for k in range(e.n))
        finally:
            cleanup(ctx)
    return leaves + frontier


def explore(harnesses, tier, known, jobs=8, deadline=None, err=sys.stderr):
    """Run every harness exhaustively over ``jobs`` processes; returns Stats."""
    total = Stats()
    per = {}
    signal.signal(signal.SIGALRM, _alarm)
    tasks = []
    for hi, (hname, h) in enumerate(harnesses):
        sub = split(h, tier, known, 24 * jobs)
        tasks += [(hi, p) for p in sub]
    # interleave harnesses so that no worker is left with one long tail
    tasks.sort(key=lambda t: (h64(repr(t[1])) % 997))
    qr, qw = os.pipe()
    blob = b"".join(struct.pack("<I", i) for i in range(len(tasks)))
    pids = []
    chans = []
    writer = os.fork()
    if writer == 0:
        try:
            os.close(qr)
            off = 0
            while off < len(blob):
                off += os.write(qw, blob[off : off + 4])
        except BaseException:
            pass
        os._exit(0)
    os.close(qw)
    t_end = None if deadline is None else time.time() + deadline
    for w in range(min(jobs, max(1, len(tasks)))):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                os.close(r)
                signal.signal(signal.SIGALRM, _alarm)
                stats = {}
                incomplete = []
                stopped = [False]

                def stop():
                    return t_end is not None and time.time() > t_end

                while True:
                    b = os.read(qr, 4)
                    if len(b) < 4:
                        break
                    hi, p = tasks[struct.unpack("<I", b)[0]]
                    hname, h = harnesses[hi]
                    st = stats.setdefault(hi, Stats())
                    done = explore_subtree(h, p, tier, known, st, hname, stop, 50)
                    if len(st.violations) > KEEP_GOING or (st.violations and not KEEP_GOING):
                        break
                    if not done:
                        incomplete.append(hi)
                        break
                out = []
                for hi, st in stats.items():
                    sb = st.to_bytes()
                    out.append(struct.pack("<IBI", hi, 1 if hi in incomplete else 0, len(sb)) + sb)
                data = b"OK" + b"".join(out)
                rc = 0
            except BaseException as e:
                data = b"ER" + traceback.format_exc().encode("utf8", "replace")
            try:
                off = 0
                while off < len(data):
                    off += os.write(wfd, data[off : off + 65536])
            finally:
                os._exit(rc)
        os.close(wfd)
        pids.append(pid)
        chans.append(r)
    os.close(qr)
    bufs = {r: b"" for r in chans}
    open_ = set(chans)
    errors = []
    bad_seen = False
    while open_:
        rd, _, _ = select.select(list(open_), [], [], 1.0)
        for r in rd:
            b = os.read(r, 1 << 20)
            if not b:
                open_.discard(r)
                os.close(r)
                if bufs[r][:2] != b"OK":
                    errors.append(bufs[r][2:].decode("utf8", "replace") or "worker died without reporting")
            else:
                bufs[r] += b
        if errors or (not KEEP_GOING and any(b"\"choice_sequence\"" in bufs[r] for r in bufs) and not bad_seen):
            # one violation is enough: stop handing out work, let the others finish their subtree
            bad_seen = True
            for pid, r in zip(pids, chans):
                if r in open_ and not bufs[r]:
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
            killed = {r for r in open_ if not bufs[r]}
            for r in killed:
                open_.discard(r)
                os.close(r)
                bufs[r] = b"OK"
    for pid in pids:
        os.waitpid(pid, 0)
    try:
        os.kill(writer, signal.SIGKILL)
    except ProcessLookupError:
        pass
    os.waitpid(writer, 0)
    incomplete = set()
    for r in chans:
        b = bufs[r]
        if b[:2] != b"OK":
            continue
        off = 2
        while off < len(b):
            hi, inc, n = struct.unpack("<IBI", b[off : off + 9])
            off += 9
            st = per.setdefault(harnesses[hi][0], Stats())
            st.merge_bytes(b[off : off + n])
            if inc:
                incomplete.add(harnesses[hi][0])
            off += n
    for st in per.values():
        total.executions += st.executions
        total.skipped += st.skipped
        total.validated += st.validated
        total.transitions += st.transitions
        total.states |= st.states
        total.violations += st.violations
        for k, v in st.known.items():
            total.known.setdefault(k, v)
        total.max_depth = max(total.max_depth, st.max_depth)
        for k, v in st.outcomes.items():
            total.outcomes[k] = total.outcomes.get(k, 0) + v
        total.samples += st.samples[:3]
    total.violations.sort(key=lambda v: (len(v["choice_sequence"]), v["choice_sequence"]))
    return total, per, incomplete, errors
