"""P26: swing foot trajectories start and land as asked, rise to the asked height, and continue when replanned."""
import itertools
import numpy as np
import placo
from walkref import hermite, through, swing_knots

T0 = [0., .37, 12., 1000., -5.]
DUR = [.12, .2, .36, 1., 2.5]
POSES = [([0, 0, 0], [.1, .05, 0]), ([1., -2., .01], [.9, -2., .0]), ([.3, .2, 0.], [.3, .2, 0.]), ([-.1, .4, .02], [.3, .1, .07])]
BOUNDS = {
    "quick": "5 start times x 5 durations x 4 start / landing pairs x 3 heights; cubic: x 5 plateau ratios x 9 replanning instants x 3 new targets, then x 3 second replanning instants; third order and fifth order variants alike, each after 5 almost identical ones, all sampled at 33 instants",
    "thorough": "same, 25 replanning instants, 9 second instants, 129 samples",
}


def cases(tier):
    for t0, d, p, h in itertools.product(T0, DUR, range(len(POSES)), (.05, .12, .0)):
        for r in (0., .04, .2, .5, .9):
            yield {"k": "cubic", "t0": t0, "d": d, "p": p, "h": h, "r": r}
        yield {"k": "third", "t0": t0, "d": d, "p": p, "h": h}
        yield {"k": "fifth", "t0": t0, "d": d, "p": p, "h": h}


def vec(v):
    return np.array(v, float).flatten()


def scale(t):
    return 1e-8 * (1 + abs(t))


def check_cubic(ctx, tr, t0, d, e, h, r, start, vel, target, label, n=33):
    te = t0 + (1 - e) * d
    K, plateau = swing_knots(t0, d, e, h, r, start, vel, target)
    # a replanning right on a knot leaves a segment without duration, whose vertical speed means nothing
    axes = slice(0, 2 if min(abs(p - t0) for p in plateau) < 1e-9 else 3)
    n = n if ctx.tier == "quick" else 4 * n
    for t in np.concatenate([np.linspace(t0, te, n), [p for p in plateau if p > t0]]):
        P, V = vec(tr.pos(t)), vec(tr.vel(t))
        m = [through(K[i], t) for i in range(3)]
        ctx.close(P, [a[0] for a in m], label + ": position at %s" % t, scale(t))
        if min(abs(t - k[0]) for k in K[2][1:]) > 1e-7:
            ctx.close(V[axes if t - t0 < 1e-9 else slice(0, 3)], [a[1] for a in m][axes if t - t0 < 1e-9 else slice(0, 3)], label + ": velocity at %s" % t, 100 * scale(t) / d)
        ctx.step()
    ctx.close(vec(tr.pos(t0)), start, label + ": start", scale(t0))
    ctx.close(vec(tr.vel(t0))[axes], vel[axes], label + ": starting velocity", 100 * scale(t0))
    ctx.close(vec(tr.pos(te)), target, label + ": landing", scale(t0))
    ctx.close(vec(tr.vel(te)), [0, 0, 0], label + ": landing velocity", 100 * scale(t0) / d)
    for p in plateau:
        if p > t0 + 1e-9:
            ctx.close(vec(tr.pos(p))[2], h, label + ": height at the plateau", scale(t0))


def run(case, ctx):
    t0, d, h = case["t0"], case["d"], case["h"]
    a, b = (np.array(x, float) for x in POSES[case["p"]])
    label = "%s swing of %s s from %s, %s -> %s, height %s" % (case["k"], d, t0, a.tolist(), b.tolist(), h)
    ctx.state(*[case.get(k) for k in ("k", "t0", "d", "p", "h", "r")])
    te = t0 + d
    # trajectories asked just before, almost the same ones, leave nothing behind
    n = int(1000 * d) + case["p"] + int(100 * h)
    near = [(t0, d * (1 + 4e-4), h, a, b), (t0 + 3e-4, d, h, a, b), (t0, d, h + 2e-4, a, b), (t0, d, h, a + 1e-4, b), (t0, d, h, a, b + 1e-4)]
    for k in range(5):
        x = near[(n + k) % 5]
        if case["k"] == "cubic":
            placo.SwingFootCubic.make_trajectory(x[0], x[1], x[2], case["r"], x[3], x[4], 0., np.zeros(3))
        else:
            (placo.SwingFoot if case["k"] == "third" else placo.SwingFootQuintic).make_trajectory(x[0], x[0] + x[1], x[2], x[3], x[4])
        ctx.step()
    if case["k"] == "cubic":
        r = case["r"]
        make = lambda t, e, s, v, g: placo.SwingFootCubic.make_trajectory(t, d, h, r, s, g, e, v)
        tr = make(t0, 0., a, np.zeros(3), b)
        check_cubic(ctx, tr, t0, d, 0., h, r, a, np.zeros(3), b, label)
        deep = ctx.tier != "quick"
        for e in np.linspace(.02, .98, 25 if deep else 9):
            t = t0 + e * d
            P, V = vec(tr.pos(t)), vec(tr.vel(t))
            # replanning towards the same landing changes nothing
            same = make(t, e, P, V, b)
            for s in np.linspace(t, te, 17):
                ctx.close(vec(same.pos(s)), vec(tr.pos(s)), label + ": replanned at %.2f to the same landing" % e, 1e-6)
                ctx.step()
            for off in ([.04, 0, 0], [-.02, .06, 0], [.01, -.03, .03]):
                g = b + off
                new = make(t, e, P, V, g)
                check_cubic(ctx, new, t, d, e, h, r, P, V, g, label + ", replanned at %.2f" % e, 17)
                ctx.state(*[case[k] for k in ("t0", "d", "p", "h", "r")], e, off)
                for f in np.linspace(e + .01, .99, 9 if deep else 3):
                    u = t0 + f * d
                    P2, V2 = vec(new.pos(u)), vec(new.vel(u))
                    again = make(u, f, P2, V2, b)
                    check_cubic(ctx, again, u, d, f, h, r, P2, V2, b, label + ", replanned at %.2f then %.2f" % (e, f), 7)
    elif case["k"] == "third":
        tr = placo.SwingFoot.make_trajectory(t0, te, h, a, b)
        tol = scale(t0) / min(1., d ** 3)

        def xy(x, ta, pa, va, target, what):
            for t in np.linspace(ta, te, 33):
                m = [hermite(t, ta, pa[i], va[i], te, target[i], 0.) for i in range(2)]
                ctx.close(vec(x.pos(t))[:2], [q[0] for q in m], what + ": position at %s" % t, tol)
                ctx.close(vec(x.vel(t))[:2], [q[1] for q in m], what + ": velocity at %s" % t, 100 * tol / d)
                ctx.step()
        xy(tr, t0, a, np.zeros(3), b, label)

        def zed(x, what):
            # the cubic through start, height at one and three quarters, landing
            us = np.array([0, .25, .75, 1.])
            co = np.linalg.solve(np.vander(us, 4), [a[2], h, h, b[2]])
            for u in np.linspace(0, 1, 33):
                ctx.close(vec(x.pos(t0 + u * d))[2], np.polyval(co, u), what + ": height at %.2f" % u, tol)
                ctx.close(vec(x.vel(t0 + u * d))[2], np.polyval(np.polyder(co), u) / d, what + ": vertical speed at %.2f" % u, 100 * tol / d)
        zed(tr, label)
        for e in np.linspace(0., .9, 10):
            t = t0 + e * d
            for off in ([0, 0, 0], [.04, 0, 0], [-.02, .06, 0]):
                new = placo.SwingFoot.remake_trajectory(tr, t, b + off)
                tol = scale(t0) / min(1., (d * (1 - e)) ** 3)
                xy(new, t, vec(tr.pos(t)), vec(tr.vel(t)), b + off, label + ", replanned at %.1f" % e)
                zed(new, label + ", replanned at %.1f" % e)
                ctx.state(*[case[k] for k in ("k", "t0", "d", "p", "h")], e, off)
    else:
        tr = placo.SwingFootQuintic.make_trajectory(t0, te, h, a, b)
        us = [0., 1.]
        A = np.array([np.vander([u], 6)[0] for u in (0., 1., .25, .75)] + [[0, 0, 0, 0, 1, 0], [5, 4, 3, 2, 1, 0]])
        cz = np.linalg.solve(A, [a[2], b[2], h, h, 0, 0])
        for u in np.linspace(0, 1, 33):
            s = 10 * u**3 - 15 * u**4 + 6 * u**5         # minimum jerk: zero speed and acceleration at both ends
            ds = 30 * u**2 - 60 * u**3 + 30 * u**4
            t = t0 + u * d
            P = [*(a + s * (b - a))[:2], np.polyval(cz, u)]
            V = [*(ds * (b - a) / d)[:2], np.polyval(np.polyder(cz), u) / d]
            ctx.close(vec(tr.pos(t)), P, label + ": position at %s" % t, 1e-6)
            ctx.close(vec(tr.vel(t)), V, label + ": velocity at %s" % t, 1e-4)
            ctx.step()
    ctx.trace()
