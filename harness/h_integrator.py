"""P04 - integrator / LIPM expressions, values and trajectories are the exact solution of x' = Mx."""
import itertools
import numpy as np
from scipy.linalg import expm
import placo
from mc import Bad

BOUNDS = {"quick": "order 1..4 x horizon 1..4 x 2 steps x 3 dynamics x 3 initial state kinds x 2 start times x 2 input sequences x all steps, derivatives and 5 times per step; LIPM chains of 1..3; horizons of 13 and 34 steps, LIPM chains of up to 6 parts",
          "thorough": "order 1..5 x horizon 1..7 x 4 steps x 3 dynamics x 2 x 3 x 3 input sequences"}


def shift(order):
    M = np.zeros((order + 1, order + 1))
    for i in range(order):
        M[i, i + 1] = 1
    return M


def system(kind, order):
    M = shift(order)
    if kind == "shift":
        return M
    if kind == "osc":
        M[order - 1, 0] -= 2.
        return M
    M[order - 1, :order] += np.array([.7, -.3, .2, -.5, .1])[:order]
    M[0, order] += .4
    return M


def inputs(N, k):
    base = np.array([1., -2., .5, 3., -1.5, 2.5, .25, -.75])
    return np.resize(base, N) if k == 0 else (np.cos(np.arange(N) * 1.3 + k) * (k + 1))


def cases(tier):
    q = tier == "quick"
    for order, N, dt, kind, x0, ts, late in itertools.product(range(1, 5 if q else 6), range(1, 5 if q else 8), (.25, .4) if q else (.05, .25, .4, 1.),
                                                   ("shift", "osc", "gen"), ("const", "expr", "after"), (0., 1.5) if q else (0., 1.5, -2.), (False, True)):
        yield {"order": order, "N": N, "dt": dt, "kind": kind, "x0": x0, "ts": ts, "late": late}
    # long horizons
    for order, N, kind, x0, ts in itertools.product((1, 2, 3), (13, 34), ("shift", "osc"), ("const", "expr"), (0., 1.5)):
        yield {"order": order, "N": N, "dt": .06, "kind": kind, "x0": x0, "ts": ts, "late": False}
    for n, N, ts in itertools.product((1, 2, 4, 6), (6, 14), (0., 2.)):
        yield {"lipm": n, "N": N, "dt": .05, "ts": ts, "grow": 1}
    for n, N, dt, ts, grow in itertools.product((1, 2, 3), (1, 2, 3) if q else (1, 2, 3, 5), (.1, .3), (0., 2.), (1, -1)):
        yield {"lipm": n, "N": N, "dt": dt, "ts": ts, "grow": grow}


def ref_states(M, order, X0, u, dt):
    X = [np.array(X0, float)]
    Me = expm(M * dt)
    for v in u:
        X.append((Me @ np.append(X[-1], v))[:order])
    return X


def ref(M, order, X, u, dt, t, diff):
    """t relative to the start, clamped to the horizon"""
    N = len(u)
    k = min(max(int(np.floor(t / dt + 1e-9)), 0), N - 1)
    rem = min(max(t - k * dt, 0.), dt)
    if diff == order:
        return u[k]
    s = (expm(M * rem) @ np.append(X[k], u[k]))[:order]
    return s if diff == -1 else s[diff]


def run(case, ctx):
    if "lipm" in case:
        return run_lipm(case, ctx)
    order, N, dt, ts = case["order"], case["N"], case["dt"], case["ts"]
    M = system(case["kind"], order)
    p = placo.Problem()
    if case["x0"] != "after":
        pad = p.add_variable(2)
    X0v = np.array([.3, -.8, 1.1, .6, -.2])[:order]
    if case["x0"] == "expr":
        xs = p.add_variable(order)
        X0 = xs.expr()
    else:
        X0 = placo.Expression.from_vector(X0v)
    var = p.add_variable(N)
    if case["x0"] == "after":
        xs = p.add_variable(order)
        X0 = xs.expr()
        pad = p.add_variable(2)
    p.add_constraint(pad.expr() == 7.)
    if case["kind"] == "shift":
        it = placo.Integrator(var, X0, order, dt)
        bad = placo.Expression.from_vector(np.zeros(order + 1))
        ctx.raises(lambda: placo.Integrator(var, bad, order, dt), "initial state of the wrong size")
        ctx.close(placo.Integrator.upper_shift_matrix(order), M, "shift matrix", 0)
    else:
        it = placo.Integrator(var, X0v, M, dt)
        ctx.raises(lambda: placo.Integrator(var, np.zeros(order + 1), M, dt), "initial state of the wrong size")
    if case["x0"] != "const":
        p.add_constraint(xs.expr() == X0v)
    if not case["late"]:
        it.t_start = ts
    Me = expm(M * dt)
    ctx.close(it.A, Me[:order, :order], "transition matrix", 1e-9)
    ctx.close(it.B, Me[:order, order], "input matrix", 1e-9)
    ctx.raises(lambda: it.value(ts, 0), "value before the problem is solved")
    ctx.raises(lambda: it.get_trajectory(), "trajectory before the problem is solved")
    for s in (-2, N + 1):
        ctx.raises(lambda: it.expr(s, 0), "expression of step %d" % s)
    for d in (-2, order + 1):
        ctx.raises(lambda: it.expr(0, d), "derivative %d" % d)
        ctx.raises(lambda: it.expr_t(ts, d), "derivative %d" % d)
    ctx.raises(lambda: it.expr(N, order), "input beyond the last step")
    goal = p.add_constraint(var.expr() == np.zeros(N))
    snap = None
    for k in range(2 if ctx.tier == "quick" else 3):
        u = inputs(N, k)
        if case["x0"] != "const" and case["kind"] == "shift":
            X0v = X0v * (1 - 2.5 * k) + .1 * k
        ctx.state(order, N, dt, case["kind"], case["x0"], ts, k)
        # same problem, next solve
        p.clear_constraints()
        p.add_constraint(pad.expr() == 7.)
        if case["x0"] != "const":
            p.add_constraint(xs.expr() == X0v)
        p.add_constraint(var.expr() == u)
        p.solve()
        ctx.step()
        if case["late"]:
            # the start time may be set at any moment
            for t0 in (ts + 1.3, ts):
                it.value(0., 0)
                it.t_start = t0
        x = np.asarray(p.x).reshape(-1)
        X = ref_states(M, order, X0v, u, dt)
        for step in list(range(N + 1)) + [-1]:
            s = N if step == -1 else step
            for d in range(-1, order + 1):
                if d == order and s == N:
                    continue
                e = it.expr(step, d)
                want = u[s] if d == order else (X[s] if d == -1 else X[s][d])
                ctx.close(e.value(x), np.atleast_1d(want), "expr(%d, %d)" % (step, d), 1e-6)
                ctx.step()
            ctx.close(it.expr(step).value(x), X[s], "expr(%d)" % step, 1e-6)
        ctx.close(np.asarray(it.final_transition_matrix).reshape(order, N) @ u + np.linalg.matrix_power(Me[:order, :order], N) @ X0v, X[N], "final transition", 1e-6)
        tr = it.get_trajectory()
        ctx.close(tr.duration(), N * dt, "duration", 1e-9)
        for i in range(N):
            for f in (0., .1, .37, .5, .93, 1.):
                t = (i + f) * dt
                for d in range(-1, order + 1):
                    if d == order and f in (0., 1.):
                        continue
                    want = ref(M, order, X, u, dt, t, d)
                    ctx.close(it.expr_t(ts + t, d).value(x), np.atleast_1d(want), "expr_t(%g, %d)" % (ts + t, d), 1e-6)
                    if d >= 0:
                        ctx.close(it.value(ts + t, d), want, "value(%g, %d)" % (ts + t, d), 1e-6)
                        ctx.close(tr.value(ts + t, d), want, "trajectory value(%g, %d)" % (ts + t, d), 1e-6)
                    ctx.step()
        # outside of the horizon: expressions go on with the first or last input, trajectories are held at the boundary states
        for d in range(-1, order + 1):
            for t, k0, Xb in ((-.3, 0, X[0]), (-2 * dt, 0, X[0]), (N * dt + .2, N - 1, X[N]), (N * dt + 3.3 * dt, N - 1, X[N])):
                s = (expm(M * (t if t < 0 else t - N * dt)) @ np.append(Xb, u[k0]))[:order]
                want = u[k0] if d == order else s if d == -1 else s[d]
                ctx.close(it.expr_t(ts + t, d).value(x), np.atleast_1d(want), "expr_t(%g, %d), out of the horizon" % (ts + t, d), 1e-6)
        for d in range(order):
            for dtout in (.3, 5.):
                ctx.close(tr.value(ts - dtout, d), X[0][d], "value before the start", 1e-6)
                ctx.close(tr.value(ts + N * dt + dtout, d), X[N][d], "value after the end", 1e-6)
        for d in (-1, order + 1):
            ctx.raises(lambda: tr.value(ts, d), "derivative %d" % d)
        if snap is not None:
            # an extracted trajectory is a value: later solves do not alter it
            st, sX, su = snap
            for t in np.linspace(0, N * dt, 5):
                ctx.close(st.value(ts + t, 0), ref(M, order, sX, su, dt, t, 0), "earlier trajectory after a new solve", 1e-6)
        snap = (tr, X, u)
        ctx.trace()


def run_lipm(case, ctx):
    n, N, dt, ts = case["lipm"], case["N"], case["dt"], case["ts"]
    om = placo.LIPM.compute_omega(.35)
    ctx.close(om, np.sqrt(9.80665 / .35), "natural frequency", 1e-9)
    p = placo.Problem()
    p0, v0, a0 = np.array([.1, -.2]), np.array([.3, .05]), np.array([-.4, .6])
    ls, dts = [], []
    size = lambda i: N + i if case["grow"] > 0 else N + n - 1 - i
    t = ts
    for i in range(n):
        d = dt * (1 + .5 * i)
        if i == 0:
            l = placo.LIPM(p, d, size(0), t, p0, v0, a0)
        else:
            l = placo.LIPM.build_LIPM_from_previous(p, d, size(i), t, ls[-1])
        ctx.close(l.t_end, t + size(i) * d, "end time", 1e-9)
        t = l.t_end
        ls.append(l)
        dts.append(d)
    us = []
    for i, l in enumerate(ls):
        ux, uy = inputs(size(i), 1 + i), inputs(size(i), 4 + i)
        us.append(np.array([ux, uy]))
        for k in range(size(i)):
            p.add_constraint(l.jerk(k) == np.array([ux[k], uy[k]]))
    p.solve()
    x = np.asarray(p.x).reshape(-1)
    S = np.array([[p0[i], v0[i], a0[i]] for i in range(2)])
    ctx.state("lipm", n, N, dt, ts)
    for i, l in enumerate(ls):
        tr = l.get_trajectory()
        M = shift(3)
        X = [ref_states(M, 3, S[k], us[i][k], dts[i]) for k in range(2)]
        for s in range(size(i) + 1):
            P, V, A = (np.array([X[0][s][d], X[1][s][d]]) for d in range(3))
            tt = l.t_start + s * dts[i]
            pairs = [("pos", l.pos(s), tr.pos(tt), P), ("vel", l.vel(s), tr.vel(tt), V), ("acc", l.acc(s), tr.acc(tt), A),
                     ("zmp", l.zmp(s, om ** 2), tr.zmp(tt, om ** 2), P - A / om ** 2), ("dcm", l.dcm(s, om), tr.dcm(tt, om), P + V / om)]
            for nm, e, tv, want in pairs:
                ctx.close(e.value(x), want, "LIPM %s at step %d" % (nm, s), 1e-6)
                ctx.close(tv, want, "LIPM trajectory %s at step %d" % (nm, s), 1e-6)
                ctx.step()
            if s < size(i):
                J = us[i][:, s]
                ctx.close(l.jerk(s).value(x), J, "LIPM jerk", 1e-6)
                ctx.close(l.dzmp(s, om ** 2).value(x), V - J / om ** 2, "LIPM dzmp", 1e-6)
                # inside the step, the zmp velocity is the time derivative of the zmp
                tm, h = tt + .5 * dts[i], 1e-4 * dts[i]
                num = (tr.zmp(tm + h, om ** 2) - tr.zmp(tm - h, om ** 2)) / (2 * h)
                ctx.close(tr.dzmp(tm, om ** 2), num, "LIPM trajectory: dzmp is not the derivative of zmp", 1e-4)
                ctx.close(tr.jerk(tm), J, "LIPM trajectory jerk", 1e-6)
        # past the ends, what it says stays consistent
        for tt, s in ((l.t_start - .4, 0), (l.t_end + .7, -1)):
            P, V, A, J = tr.pos(tt), tr.vel(tt), tr.acc(tt), us[i][:, s]
            for nm, got, want in (("pos", P, [X[0][s][0], X[1][s][0]]), ("vel", V, [X[0][s][1], X[1][s][1]]), ("acc", A, [X[0][s][2], X[1][s][2]]), ("jerk", tr.jerk(tt), J),
                                  ("zmp", tr.zmp(tt, om ** 2), P - A / om ** 2), ("dcm", tr.dcm(tt, om), P + V / om), ("dzmp", tr.dzmp(tt, om ** 2), V - J / om ** 2)):
                ctx.close(got, np.array(want), "LIPM trajectory %s out of the horizon" % nm, 1e-6)
        S = np.array([X[0][-1], X[1][-1]])
    ctx.trace()
