"""P29: adapting the next step to the measured DCM keeps it reachable, consistent with the pendulum, and the best compromise."""
import itertools
import numpy as np
import placo
import h_wpg as H
import qpref
import walkref as W
from walkref import vec

OPSP = [[(-.12, .08), (.12, .08), (.12, .25), (-.12, .25)], [(-.05, .1), (.05, .1), (.07, .2), (-.07, .2)]]     # for a right support
DCMP = [[(-.1, 0.), (.1, 0.), (.1, .15), (-.1, .15)], [(-.02, .01), (.02, .01), (.03, .05), (-.03, .05)]]      # offset of a left support's end
BOUNDS = {
    "quick": "2 walks x 2 sides x 2 starting poses x 2 x 2 polygons x 5 elapsed fractions x 9 x 9 DCM errors, and 3 elapsed fractions x 5 x 5 errors in steps which last longer than usual, 2 fractions x 5 x 5 errors in steps of .1 and .2 s; best ZMP: single and double supports x 3 margins x 4 durations x 11 x 11 DCM grids; one replan with the adapted supports each",
    "thorough": "9 elapsed fractions, 15 x 15 DCM errors, 21 x 21 grids",
}


def cw(poly):
    P = np.array(poly)
    a = np.sum(P[:, 0] * np.roll(P, -1, 0)[:, 1] - P[:, 1] * np.roll(P, -1, 0)[:, 0])
    return P[::-1] if a > 0 else P


def cases(tier):
    deep = tier == "thorough"
    g = np.linspace(-.09, .09, 15 if deep else 9)
    for s, side, st, o, d in itertools.product((1, 3), range(2), range(2), range(2), range(2)):
        for f in ((.05, .18, .3, .43, .55, .68, .8, .9, .99) if deep else (.07, .28, .52, .77, .95)):
            for ex in g:
                yield {"k": "update", "s": s, "side": side, "st": st, "o": o, "d": d, "f": f, "ex": round(float(ex), 4), "ey": [round(float(v), 4) for v in g]}
    # supports which last longer than usual: the default end of the step is already over
    for s, side, o, d, f in itertools.product((1, 3), range(2), range(2), range(2), (.45, .7, .9)):
        for ex in g[::2]:
            yield {"k": "update", "s": s, "side": side, "st": 0, "o": o, "d": d, "f": f, "pace": 1.6, "ex": round(float(ex), 4), "ey": [round(float(v), 4) for v in g[::2]]}
    # short steps: shorter than the shortest adapted step, or able to last many times longer
    for s, side, o, d, f, dur in itertools.product((1, 3), range(2), range(2), range(2), (.2, .8), (.1, .2)):
        for ex in g[::2]:
            yield {"k": "update", "s": s, "side": side, "st": 1, "o": o, "d": d, "f": f, "dur": dur, "ex": round(float(ex), 4), "ey": [round(float(v), 4) for v in g[::2]]}
    for kind, m, du in itertools.product((0, 1, 2), (0., .01, .03), (.05, .2, .5, 1.2)):
        yield {"k": "zmp", "kind": kind, "m": m, "du": du, "n": 21 if deep else 11}
    for i in range(2):
        yield {"k": "bad", "i": i}


def project(poly_ccw, q, margin):
    """closest point of the polygon shrunk by margin (rectangles and hulls of two: margins never empty it here)"""
    n, b = [], []
    for i in range(len(poly_ccw)):
        u, v = poly_ccw[i], poly_ccw[(i + 1) % len(poly_ccw)]
        w = np.array([-(v - u)[1], (v - u)[0]]) / np.linalg.norm(v - u)
        n.append(w)
        b.append(w @ u + margin)
    n, b = np.array(n), np.array(b)
    best = None
    if np.all(n @ q - b >= -1e-12):
        return np.array(q)
    cand = [q - (n[i] @ q - b[i]) * n[i] for i in range(len(n))]
    for i, j in itertools.combinations(range(len(n)), 2):
        A = np.array([n[i], n[j]])
        if abs(np.linalg.det(A)) > 1e-9:
            cand.append(np.linalg.solve(A, [b[i], b[j]]))
    ok = [c for c in cand if np.all(n @ c - b >= -1e-9)]
    return min(ok, key=lambda c: np.linalg.norm(c - q))


def best_zmp(prm, om, hull, a, b, du):
    e = np.exp(om * du)
    return project(hull, (b - a * e) / (1 - e), prm.zmp_margin)


def run(case, ctx):
    {"update": update, "zmp": zmp, "bad": bad}[case["k"]](case, ctx)


def zmp(case, ctx):
    prm, sup, com, wpg = H.setup({"p": 1, "s": 3, "n": 2, "st": 1})
    prm.zmp_margin = case["m"]
    s = sup[case["kind"]]
    om = np.sqrt(9.80665 / prm.walk_com_height)
    h = W.hull(np.vstack([W.corners(np.array(f.frame), f.foot_length, f.foot_width) for f in s.footsteps]))
    c = np.array(s.frame())[:2, 3]
    for x, y in itertools.product(np.linspace(-.15, .15, case["n"]), repeat=2):
        for end in (c, c + [.05, -.04], c + [-.1, .1]):
            a = c + [x, y]
            got = vec(wpg.get_optimal_zmp(a, end, case["du"], s))
            ctx.step()
            ctx.state(case["kind"], case["m"], case["du"], x, y, end.tolist())
            ctx.ok(W.inside(h, got) > case["m"] - 1e-7, "best ZMP out of the support polygon", got)
            want = best_zmp(prm, om, h, a, end, case["du"])
            ctx.close(got, want, "best ZMP from %s to %s in %s" % (a, end, case["du"]), 1e-6)
    ctx.trace()


def scene(case):
    prm, sup, com, wpg = H.setup({"p": 1, "s": case["s"], "n": 4, "side": case["side"], "st": case["st"]})
    if "dur" in case:
        prm.single_support_duration, prm.startend_double_support_ratio = case["dur"], 8.
    prm.op_space_polygon = [np.array(p) for p in cw(OPSP[case["o"]])]
    prm.dcm_offset_polygon = [np.array(p) for p in cw(DCMP[case["d"]])]
    sup[1].time_ratio = case.get("pace", 1.)
    plan = W.Plan(prm, sup, (com[:2], [0, 0], [0, 0]), 0.)
    tr = wpg.plan(sup, com, 0.)
    return prm, wpg, plan, tr


def halfplanes(poly):
    P = np.array(poly)[::-1]           # clockwise -> counter clockwise
    n = np.array([[-(P[(i + 1) % len(P)] - P[i])[1], (P[(i + 1) % len(P)] - P[i])[0]] for i in range(len(P))])
    n /= np.linalg.norm(n, axis=1)[:, None]
    return n, -np.sum(n * P, axis=1)


def newton(cons, x):
    """(violation of hard constraints, how far the optimum is)"""
    from scipy.optimize import nnls
    from scipy.linalg import null_space
    E, e, G, g = qpref.hard(cons, 5)
    viol = max(np.abs(E @ x + e).max(), -(G @ x + g).min())
    d = qpref.gradient(cons, x, 1e-8)
    act = G[np.abs(G @ x + g) < 1e-6 * np.maximum(1, np.abs(g))]
    M = np.hstack([act.T, E.T, -E.T])
    nr = np.linalg.norm(M, axis=0)
    res = d - (M / nr) @ nnls(M / nr, d, maxiter=500)[0]
    Hs = 1e-8 * np.eye(5)
    for kind, prio, w, A, b in cons:
        if prio == "soft":
            q = A if kind == "eq" else A[A @ x + b < 0]
            Hs = Hs + w * q.T @ q
    Nl = null_space(E)
    return viol, Nl @ np.linalg.solve(Nl.T @ Hs @ Nl, Nl.T @ res)


def update(case, ctx):
    prm, wpg, plan, tr = scene(case)
    om = np.sqrt(plan.omega2)
    p = plan.parts[1]
    t = p.t0 + case["f"] * (p.t1 - p.t0)
    D = prm.single_support_duration
    flip = 1. if p.order[0] == W.R else -1.
    Rm, o = p.feet[p.order[0]][:2, :2], p.feet[p.order[0]][:2, 3]
    for ey in case["ey"]:
        sup = placo.FootstepsPlanner.truncate_supports(tr.get_supports(), len(plan.parts), False)
        del sup[0]
        sup[0].elapsed_ratio = (t - p.t0) / p.full
        dcm = vec(tr.get_p_world_DCM(t, om)) + [case["ex"], ey]
        target = vec(sup[0].target_world_dcm)
        label = "adapting to a DCM error of %s, %s in %s" % (case["ex"], ey, {k: case[k] for k in ("s", "side", "o", "d", "f", "pace", "dur") if k in case})
        before = [(np.array(f.frame), f.side) for s in sup for f in s.footsteps]
        el = t - p.t0
        virt = best_zmp(prm, om, p.hull, dcm, target, max(1e-5, D - el))
        # unknowns: next ZMP (in the support), exp(omega T), DCM offset (in the support)
        nxt = np.array(sup[1].frame())[:2, 3]
        Z, O = np.zeros((2, 5)), np.zeros((2, 5))
        Z[:, :2], O[:, 3:] = Rm, Rm
        tau = np.eye(5)[2:3]
        n1, b1 = halfplanes(prm.op_space_polygon)
        n2, b2 = halfplanes(prm.dcm_offset_polygon)
        k = (dcm - virt) * np.exp(-om * el)
        cons = [("eq", "soft", 5., tau, -np.array([np.exp(om * D)])), ("eq", "soft", 100., Z, o - nxt), ("eq", "soft", 1000., O, -(target - nxt)),
                ("ineq", "hard", 1., tau, -np.array([np.exp(om * max(.15, el))])), ("ineq", "hard", 1., -tau, np.array([np.exp(om * max(3., el))])),
                ("ineq", "hard", 1., flip * np.hstack([n1, np.zeros((len(n1), 3))]), b1),
                ("ineq", "soft", 1e6, -flip * np.hstack([np.zeros((len(n2), 3)), n2]), b2),
                ("eq", "hard", 1., Z + O - np.outer(k, tau[0]), o - virt)]
        out = wpg.update_supports(t, sup, dcm)
        ctx.step()
        ctx.state(*[case[q] for q in ("s", "side", "st", "o", "d", "f", "ex")], ey, case.get("pace"), case.get("dur"))
        ctx.close([np.array(f.frame) for s in sup for f in s.footsteps], [b[0] for b in before], label + ": the supports passed are modified", 0.)
        flat = [f for s in out for f in s.footsteps]
        ctx.ok(len(flat) == len(before) and len(out) == len(sup), label + ": supports")
        moved = np.array(flat[1].frame)
        ref = before[1][0].copy()
        ref[:2, 3] = moved[:2, 3]
        ctx.close(moved, ref, label + ": only the position of the next footstep changes", 1e-12)
        for i, (f, (M, s)) in enumerate(zip(flat, before)):
            ctx.ok(f.side == s, label + ": sides")
            if i != 1:
                ctx.close(np.array(f.frame), M, label + ": another footstep moves", 0.)
        z = Rm.T @ (moved[:2, 3] - o)
        ctx.ok(np.min(flip * n1 @ z + b1) > -1e-6, label + ": the next footstep is out of reach", z)
        rem = out[0].time_ratio * D * (1 - out[0].elapsed_ratio)
        ctx.ok(rem > 1e-3 - 1e-9 and el + rem > .15 - 1e-6 and el + rem < max(3., el) + 1.1e-3, label + ": duration of the step", el + rem)
        if True:
            # the step cannot end before now: the remaining time is at least a millisecond
            late = rem < 1.001e-3
            tv = np.exp(om * (el + (0. if late else rem)))
            off = Rm.T @ (k * tv + virt - moved[:2, 3])
            x = np.array([*z, tv, *off])
            viol, d = newton(cons, x)
            ctx.ok(viol < 1e-5, label + ": the adapted step does not follow the pendulum", viol)
            ctx.ok(np.max(np.abs(d / [1, 1, tv, 1, 1])) < (2e-2 if late else 3e-4), label + ": not the best compromise", d, x)
    # the adapted walk lands at the adapted place and time
    new = wpg.replan(out, tr, t)
    if new.replan_success:
        ctx.close(new.get_part_t_end(t + 1e-5), t + rem, label + ": end of the adapted step", 1e-6)
        te = new.get_part_t_end(t + 1e-5)
        fly = W.other(p.order[0])
        F = np.array((new.get_T_world_left if fly == W.L else new.get_T_world_right)(te))
        ctx.close(F[:2, 3], moved[:2, 3], label + ": landing of the adapted step", 1e-6)
    ctx.trace()


def bad(case, ctx):
    prm, wpg, plan, tr = scene({"s": 1, "side": case["i"], "st": 0, "o": 0, "d": 0})
    ctx.raises(lambda: wpg.update_supports(.1, tr.get_supports(), np.zeros(2)), "adapting a double support")
    ctx.step()
    ctx.state(case["i"])
    ctx.trace()
