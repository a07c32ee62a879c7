"""C11: schedules interpolate exactly through their points."""
import math
from fractions import Fraction

from hyperstate import StateManager

from mc import gen
from mc.ref import canon

RULE = (
    "every schedule over the alphabets of point values, first position, gaps between points and interpolation names (or none) "
    "per gap, evaluated at every point, just beside every point, at quarters between points and far outside, moving forward "
    "and backward; on float and int fields"
)
BOUND = {"quick": "up to 3 points over the full alphabets, 4 points over a reduced one", "thorough": "up to 4 points over the full alphabets, 5 over a reduced one"}
ASSUMPTIONS = ["between points a relative rounding error of 1e-9 is allowed; at the points and outside equality is exact"]

ST = gen.mk("ST", [("x", float, 0.0), ("step", int, 0)])
CF = gen.mk("CF", [("f", float, -99.0), ("n", int, -99), ("g", float, 0.75)])

YS = [("0", 0.0), ("1", 1.0), ("-2.5", -2.5), ("3", 3.0)]
X0 = [0.0, -3.0, 5.5]
GAPS = [1.0, 2.5, 1e8]
JUMPS = [2.0, 0.0]  # 0: the value jumps
JOINS = [None, "lin", "cos", "step"]


def num(x):
    if x == int(x) and abs(x) < 1e6:
        return str(int(x))
    return repr(x)


def reference(points, kinds, x):
    """(low, high, exact) the value at x may take."""
    if x < points[0][0]:
        return points[0][1], points[0][1], True
    if x >= points[-1][0]:
        return points[-1][1], points[-1][1], True
    for (xa, ya), (xb, yb), k in zip(points, points[1:], kinds):
        if x == xa:
            y = [p[1] for p in points if p[0] == x][-1]
            return y, y, True
        if xa < x < xb:
            if k == "step":
                return ya, ya, True
            r = (Fraction(x) - Fraction(xa)) / (Fraction(xb) - Fraction(xa))
            if k == "lin":
                v = float(Fraction(ya) + r * (Fraction(yb) - Fraction(ya)))
            else:
                v = yb + (ya - yb) * (0.5 + 0.5 * math.cos(math.pi * float(r)))
            eps = 1e-9 * max(abs(ya), abs(yb), 1e-30)
            lo, hi = min(ya, yb), max(ya, yb)
            return max(v - eps, lo), min(v + eps, hi), False
    raise AssertionError


def evaluate(c, points, text, kinds, xname="x"):
    cfg_text = f'CF(f: "{text}", n: "{text}")'
    path = c_file(c, cfg_text)
    sm = StateManager(CF, ST, lambda cfg, ctx: ST(), path)
    xs = [points[0][0] - 1e9, points[0][0] - 0.5]
    for (xa, _), (xb, _) in zip(points, points[1:]):
        d = xb - xa
        xs += [xa, math.nextafter(xa, xb) if hasattr(math, "nextafter") else xa + d * 1e-12, xa + d / 4, xa + d / 3, xa + d / 2, xa + d * 0.7, xb - d * 1e-12]
    xs += [points[-1][0], points[-1][0] + 0.5, points[-1][0] + 1e9]
    c.note(text)
    for x in [None] + xs + xs[::-3]:
        if x is None:
            x = 0.0  # before there is a state
            f, n = sm.config.f, sm.config.n
        else:
            setattr(sm.state, xname, x)
            sm.step()
            f, n = sm.config.f, sm.config.n
        c.op()
        lo, hi, exact = reference(points, kinds, x)
        c.check(type(f) is float and lo <= f <= hi, lambda: f"{text} at {xname}={x!r}: float field is {f!r}, expected {lo!r}" + ("" if exact else f"..{hi!r}"))
        c.check(type(n) is int and int(lo) <= n <= int(hi) if lo != hi else type(n) is int and n == int(lo), lambda: f"{text} at {xname}={x!r}: int field is {n!r}, expected {int(lo)}..{int(hi)}")
        c.check(sm.config.g == 0.75 and type(sm.config.g) is float, lambda: f"{text}: unscheduled field changed to {sm.config.g!r}")
        if not exact:
            c.state((text, x))
    c.state(text)
    c.agreed()


def c_file(c, text):
    import os
    import tempfile

    d = tempfile.mkdtemp()
    c.scratch_dirs.append(d)
    p = os.path.join(d, "c.ron")
    with open(p, "w") as f:
        f.write(text)
    return p


def run(c, ys, x0s, gaps, joins, n):
    x = c.choose("x0", x0s)
    points, kinds, text = [], [], "x:"
    cur = "lin"
    for i in range(n):
        yt, y = c.choose(f"y{i}", ys)
        if i > 0:
            x += c.choose(f"gap{i}", gaps)
            j = c.choose(f"join{i}", joins)
            if j is not None:
                cur = j
                text += " " + j
            kinds.append(cur)
        points.append((x, y))
        text += f" {yt}@{num(x)}"
    evaluate(c, points, text, kinds)


def h_small(c):
    n = c.choose("points", (1, 2, 3, 4) if c.thorough else (1, 2, 3))
    if n == 3 and not c.thorough:
        run(c, YS[1:], X0[:2], GAPS[1:], JOINS, n)
    elif n == 4:
        run(c, YS[1:], X0[1:2], GAPS[1:], JOINS, n)
    else:
        run(c, YS, X0, GAPS, JOINS, n)


def h_long(c):
    n = 5 if c.thorough else 4
    run(c, [("2", 2.0), ("0.3", 0.3)], [0.0], [3.0], JOINS, n)


def h_jumps(c):
    """Several points at one position: each holds up to there, the last one from there on."""
    n = c.choose("points", (2, 3, 4, 5) if c.thorough else (2, 3, 4))
    run(c, [("2", 2.0), ("-1", -1.0)] if n > 3 else YS[1:], [1.0], JUMPS, JOINS if n < 4 else [None, "step"], n)


def h_constant(c):
    """Flat segments: rounding must not leave the (empty) range, in particular for int fields."""
    y = c.choose("y", (1, 2, 3, 5, 7, 10, 100, 0.1, -3, 1e-3, 333))
    k = c.choose("join", ("lin", "cos", "step"))
    d = c.choose("len", (1, 3, 7, 10, 17, 1e6))
    text = f"x: {y}@0 {k} {y}@{num(float(d))}"
    path = c_file(c, f'CF(f: "{text}", n: "{text}")')
    sm = StateManager(CF, ST, lambda cfg, ctx: ST(), path)
    for i in range(120):
        sm.state.x = d * i / 119
        sm.step()
        c.op()
        c.check(sm.config.f == y and sm.config.n == int(y), lambda: f"{text} at {sm.state.x!r}: {sm.config.f!r}, {sm.config.n!r}")
    c.state(text)
    c.agreed()


def h_text(c):
    """Number formats and the default interpolation."""
    x1 = c.choose("x1", ("150e6", "1e3", "10", "10.0", "2.5e-1", "1_000"))
    y0 = c.choose("y0", ("3e-4", "0.3", "1", "-1", "1e3", "+2", ".5"))
    y1 = c.choose("y1", ("0", "-0.0", "5e-1", "2."))
    j = c.choose("join", JOINS)
    text = f"x: {y0}@0 " + (f"{j} " if j else "") + f"{y1}@{x1}"
    evaluate(c, [(0.0, float(y0)), (float(x1), float(y1))], text, [j or "lin"])


def h_xname(c):
    """The schedule follows the state field it names."""
    name = c.choose("name", ("x", "step"))
    other = "step" if name == "x" else "x"
    k = c.choose("join", JOINS)
    text = f"{name}: 1@0 " + (f"{k} " if k else "") + "9@8"
    path = c_file(c, f'CF(f: "{text}")')
    sm = StateManager(CF, ST, lambda cfg, ctx: ST(), path)
    for v in range(0, 10):
        for o in (0, 4, 100):
            setattr(sm.state, name, v)
            setattr(sm.state, other, o)
            sm.step()
            c.op()
            lo, hi, _ = reference([(0.0, 1.0), (8.0, 9.0)], [k or "lin"], v)
            c.check(lo <= sm.config.f <= hi, lambda: f"{text} at {name}={v}, {other}={o}: {sm.config.f!r}, expected {lo!r}..{hi!r}")
    c.state(text)
    c.agreed()


HARNESSES = [("small", h_small), ("long", h_long), ("jumps", h_jumps), ("constant", h_constant), ("text", h_text), ("xname", h_xname)]
