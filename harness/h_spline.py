"""P07 - cubic splines: the piecewise Hermite curve through the points, after any history of calls."""
import itertools
import numpy as np
import placo
from mc import pumped, sequences

BOUNDS = {"quick": "all sequences of <= 5 operations over {add x5, add in the past, clear, query, duration} on scalar, angular and 3D splines, 13 evaluation times",
          "thorough": "all sequences of <= 6 operations, same alphabet, 33 evaluation times"}
STEPS = {"add0": (.5, 1., 0.), "add1": (1.25, -2., 1.5), "add2": (.1, 3.1, -2.), "addw": (2., -2.9, .3), "addb": (.75, 7.5, -.4)}
ALPHA = list(STEPS) + ["past", "clear", "query", "duration"]


def cases(tier):
    for s in sequences(ALPHA, 5 if tier == "quick" else 6, 1):
        # keep sequences that end in something observable and have no useless repetition
        if s[-1] not in STEPS and s[-1] not in ("clear", "past"):
            continue
        if any(a == b and a in ("query", "duration", "clear") for a, b in zip(s, s[1:])):
            continue
        yield {"ops": s}
    for s in pumped(ALPHA, 10):
        yield {"ops": s}
    for s in pumped(ALPHA, 8, 3):
        yield {"ops": s}


def wrap(a):
    return np.arctan2(np.sin(a), np.cos(a))


class Model:
    def __init__(self, angular):
        self.p, self.angular = [], angular

    def add(self, t, x, dx):
        if self.angular and self.p:
            x = self.p[-1][1] + wrap(x - self.p[-1][1])
        self.p.append((t, x, dx))

    def at(self, t):
        P = self.p
        if not P:
            return 0., 0., 0.
        if len(P) == 1:
            return P[0][1], P[0][2], 0.
        t = min(max(t, P[0][0]), P[-1][0])
        i = next(k for k in range(len(P) - 1) if t <= P[k + 1][0])
        (t0, x0, v0), (t1, x1, v1) = P[i], P[i + 1]
        h = t1 - t0
        s = (t - t0) / h
        pos = (2 * s ** 3 - 3 * s ** 2 + 1) * x0 + (s ** 3 - 2 * s ** 2 + s) * h * v0 + (-2 * s ** 3 + 3 * s ** 2) * x1 + (s ** 3 - s ** 2) * h * v1
        vel = ((6 * s ** 2 - 6 * s) * (x0 - x1)) / h + (3 * s ** 2 - 4 * s + 1) * v0 + (3 * s ** 2 - 2 * s) * v1
        acc = ((12 * s - 6) * (x0 - x1)) / h ** 2 + ((6 * s - 4) * v0 + (6 * s - 2) * v1) / h
        return pos, vel, acc


def times(m, n):
    if not m.p:
        return [0., 1.]
    a, b = m.p[0][0], m.p[-1][0]
    if a == b:
        return [a - 1, a, a + 1]
    knots = [q[0] for q in m.p]
    return [a - 3., a - 1e-3, b + 1e-3, b + 2.] + [x for x in np.linspace(a, b, n) if min(abs(x - k) for k in knots) > 1e-9] + knots


def compare(ctx, f, m, n, what):
    P = m.p
    for t in times(m, n):
        x, v, a = m.at(t)
        ctx.close(f.pos(t), x, "%s: position at %g" % (what, t), 1e-6, 1e-9)
        ctx.close(f.vel(t), v, "%s: velocity at %g" % (what, t), 1e-6, 1e-9)
        # the acceleration jumps at interior points: either side is right there
        if not any(abs(t - q[0]) < 1e-9 for q in P[1:-1]):
            ctx.close(f.acc(t), a, "%s: acceleration at %g" % (what, t), 1e-5, 1e-8)


VARIANTS = [(0, lambda: placo.CubicSpline()), (0, lambda: placo.CubicSpline(False)), (1, lambda: placo.CubicSpline(True))]
SC = [(1., 0.), (-.5, 1.), (2., -.3)]


class Axis:
    """one coordinate of a 3D spline, seen as a scalar one"""
    def __init__(self, s, i):
        self.s, self.i = s, i

    def pos(self, t):
        return float(np.asarray(self.s.pos(t)).reshape(-1)[self.i])

    def vel(self, t):
        return float(np.asarray(self.s.vel(t)).reshape(-1)[self.i])

    def acc(self, t):
        return float(np.asarray(self.s.acc(t)).reshape(-1)[self.i])


def run(case, ctx):
    n = 9 if ctx.tier == "quick" else 29
    for kind in ("lin", "ang", "3d"):
        if kind == "3d":
            s = placo.CubicSpline3D()
            ms = [Model(False) for _ in range(3)]
        else:
            s = placo.CubicSpline(kind == "ang")
            ms = [Model(kind == "ang")]
        t = -.8
        for op in case["ops"]:
            ctx.step()
            if op in STEPS:
                dt, x, dx = STEPS[op]
                t += dt
                if kind == "3d":
                    s.add_point(t, np.array([a * x + b for a, b in SC]), np.array([a * dx for a, b in SC]))
                    for m, (a, b) in zip(ms, SC):
                        m.add(t, a * x + b, a * dx)
                else:
                    s.add_point(t, x, dx)
                    ms[0].add(t, x, dx)
            elif op == "past":
                if ms[0].p:
                    for tt in (t, t - .05):
                        if kind == "3d":
                            ctx.raises(lambda: s.add_point(tt, np.zeros(3), np.zeros(3)), "point added at or before the previous one")
                        else:
                            ctx.raises(lambda: s.add_point(tt, 1., 1.), "point added at or before the previous one")
            elif op == "clear":
                s.clear()
                for m in ms:
                    m.p = []
                t = -1.7  # and may start again before
            elif op == "query":
                s.pos(t - .1), s.vel(t + 3), s.acc(t)
            elif op == "duration":
                s.duration()
            ctx.state(kind, ms[0].p)
        what = "%s after %s" % (kind, case["ops"])
        if len(ms[0].p) >= 1:
            # before any evaluation, and again afterwards
            ctx.close(s.duration(), ms[0].p[-1][0] - ms[0].p[0][0], what + ": duration", 1e-9)
        for i, m in enumerate(ms):
            compare(ctx, Axis(s, i) if kind == "3d" else s, m, n, what)
        if len(ms[0].p) >= 1:
            ctx.close(s.duration(), ms[0].p[-1][0] - ms[0].p[0][0], what + ": duration", 1e-9)
        ctx.trace()
