"""Compares a walk trajectory with its model (walkref.Plan) at every kind of instant."""
import numpy as np
import placo
import qpref
import walkref as W
from walkref import vec
try:
    import placo_cxx_walk as cxx  # C++ functions which are not bound to Python (see lib/shim_walk.cpp)
except ImportError:
    cxx = None


def rz(a):
    return W.T2(0, 0, a)[:3, :3]


def close_support(ctx, s, p, T, label):
    ctx.ok([f.side for f in s.footsteps] == p.order, label + ": feet of the support")
    for f in s.footsteps:
        ctx.close(np.array(f.frame), T @ p.feet[f.side], label + ": footstep", 1e-8)
    ctx.ok(s.start == p.start and s.end == p.end and s.is_both() == p.both, label + ": kind of support")
    ctx.close(s.frame(), T @ p.frame, label + ": frame of the support", 1e-7)


def jerks(tr, plan, Ti):
    J, t = [], None
    for p in plan.parts:
        for k in range(p.n):
            J.append((Ti[:3, :3] @ vec(tr.get_j_world_CoM(p.t0 + (k + .5) * p.dt)))[:2])
    return np.array(J)


def certificate(cons, n, x, reg=1e-8):
    """(violation of hard constraints, relative optimality residual)"""
    from scipy.optimize import nnls
    E, e, G, g = qpref.hard(cons, n)
    viol = max(np.abs(E @ x + e).max() if len(E) else 0., -(G @ x + g).min() if len(G) else 0.)
    d = qpref.gradient(cons, x, reg)
    v = G @ x + g
    act = G[v < 1e-7]
    M = np.hstack([act.T, E.T, -E.T])
    nr = np.linalg.norm(M, axis=0) if M.shape[1] else np.ones(0)
    r = nnls(M / nr, d, maxiter=20 * M.shape[1] + 100)[1] if M.shape[1] else np.linalg.norm(d)
    s = reg * np.linalg.norm(x)
    for kind, prio, w, A, b in cons:
        if prio == "soft":
            q = A @ x + b
            s += w * np.linalg.norm(A) * np.linalg.norm(np.minimum(q, 0) if kind == "ineq" else q)
    return viol, r, r / (s + 1e-9)


def check(ctx, tr, plan, wpg, T=np.eye(4), label="", optimal=True, states=True, light=False, same_supports=True):
    P = plan.parts
    Ti = np.linalg.inv(T)
    om2, om = plan.omega2, np.sqrt(plan.omega2)
    prm = plan.prm
    ctx.close([tr.t_start, tr.t_end], [plan.t_start, plan.t_end], label + ": start and end of the walk", 1e-9)
    tp = [(q.t_start, q.t_end) for q in tr.parts]
    ctx.ok(len(tp) == len(P), label + ": one part per support", len(tp), len(P))
    ctx.close(tp, [(p.t0, p.t1) for p in P], label + ": instants of the supports", 1e-9)
    if any(p.ambiguous for p in P):
        optimal = False
    N = sum(p.n for p in P)
    J = jerks(tr, plan, Ti)
    ctx.ok(np.all(np.isfinite(J)), label + ": jerk")
    if optimal:
        n, cons = plan.qp(wpg.soft, wpg.zmp_in_support_weight, wpg.stop_end_support_weight)
        x = np.concatenate([J[:, 0], J[:, 1]])
        viol, r, rel = certificate(cons, 2 * n, x)
        ctx.ok(viol < 1e-5, label + ": the ZMP leaves the support polygon with its margin, or the CoM does not stop at the end", viol)
        ctx.ok(rel < 1e-6 or r < 1e-9, label + ": the CoM does not follow the ZMP reference at best", r, rel)
    X = np.array([plan.com0[0], plan.com0[1], plan.com0[2]])    # rows: p, v, a
    j = 0
    for i, p in enumerate(P):
        lab = label + " part %d" % i
        kx = []
        for k in range(p.n):
            for u in ((0.02, .5, .98) if not light else (.5,)):
                t, h = p.t0 + (k + u) * p.dt, u * p.dt
                m = np.array([X[0] + h * X[1] + h**2 / 2 * X[2] + h**3 / 6 * J[j], X[1] + h * X[2] + h**2 / 2 * J[j], X[2] + h * J[j]])
                com = Ti @ np.append(vec(tr.get_p_world_CoM(t)), 1)
                v, a = (Ti[:3, :3] @ vec(f(t)) for f in (tr.get_v_world_CoM, tr.get_a_world_CoM))
                ctx.close(com[:3], [*m[0], prm.walk_com_height], lab + ": CoM at %s" % t, 1e-6)
                ctx.close(v, [*m[1], 0], lab + ": CoM velocity at %s" % t, 1e-6)
                ctx.close(a, [*m[2], 0], lab + ": CoM acceleration at %s" % t, 1e-5)
                Tp = lambda q: (T @ np.array([q[0], q[1], 0, 1]))[:2]
                ctx.close(vec(tr.get_p_world_DCM(t, om)), Tp(m[0] + m[1] / om), lab + ": DCM at %s" % t, 1e-6)
                ctx.close(vec(tr.get_p_world_ZMP(t, om)), Tp(m[0] - m[2] / om2), lab + ": ZMP at %s" % t, 1e-6)
                ctx.step()
            h = p.dt
            X = np.array([X[0] + h * X[1] + h**2 / 2 * X[2] + h**3 / 6 * J[j], X[1] + h * X[2] + h**2 / 2 * J[j], X[2] + h * J[j]])
            j += 1
            # the property itself, on the trajectory's own outputs
            t = p.t0 + (k + 1) * p.dt - 1e-9
            if not wpg.soft:
                z = (Ti @ np.append(vec(tr.get_p_world_ZMP(t, om)), [0, 1]))[:2]
                if not p.ambiguous:
                    ctx.ok(W.inside(p.hull, z) > prm.zmp_margin - 1e-5, lab + ": ZMP out of the support polygon at %s" % t, W.inside(p.hull, z))
        if p.end and not wpg.soft:
            for f, want in ((tr.get_v_world_CoM, 0.), (tr.get_a_world_CoM, 0.)):
                ctx.close(vec(f(p.t1)), [0, 0, 0], lab + ": the CoM moves at the end of the walk", 1e-5)
            ctx.close((Ti @ np.append(vec(tr.get_p_world_CoM(p.t1)), 1))[:2], p.frame[:2, 3], lab + ": CoM at the end of the walk", 1e-5)
        # feet, trunk, supports
        us = (1e-4, .17, .5, .83, 1 - 1e-4) if not light else (.01, .6)
        for u in us:
            t = p.t0 + u * (p.t1 - p.t0)
            vtol = 1e-5 * (1 + 1 / max(p.full, .01))
            for side, get in ((W.L, tr.get_T_world_left), (W.R, tr.get_T_world_right)):
                F = Ti @ np.array(get(t))
                v = Ti[:3, :3] @ vec(tr.get_v_world_foot(side, t))
                y, _ = W.through(plan.Y[side], t)
                if side in p.feet:
                    want, wv = p.feet[side][:3, 3], np.zeros(3)
                    y = W.yaw(p.feet[side])
                else:
                    q = [W.through(p.K[c], t) for c in range(3)]
                    want, wv = [c[0] for c in q], [c[1] for c in q]
                ctx.close(F[:3, 3], want, lab + ": position of the %s foot at %s" % (side, t), 1e-7)
                ctx.close(F[:3, :3], rz(y), lab + ": orientation of the %s foot at %s" % (side, t), 1e-6)
                ctx.close(v, wv, lab + ": velocity of the %s foot at %s" % (side, t), vtol)
            ctx.close(vec(tr.get_v_world_left(t)), vec(tr.get_v_world_foot(W.L, t)), lab + ": velocity of the left foot", 0.)
            ctx.close(vec(tr.get_v_world_right(t)), vec(tr.get_v_world_foot(W.R, t)), lab + ": velocity of the right foot", 0.)
            if cxx:
                for side, get, yaw in ((W.L, tr.get_T_world_left, cxx.get_yaw_world_left), (W.R, tr.get_T_world_right, cxx.get_yaw_world_right)):
                    F = np.array(get(t))
                    ctx.close(cxx.get_T_world_foot(tr, side, t), F, lab + ": get_T_world_foot", 0.)
                    ctx.ok(cxx.is_flying(tr, side, t) == (side not in p.feet), lab + ": is_flying")
                    ctx.close(rz(yaw(tr, t)), rz(W.yaw(F)), lab + ": yaw of a foot", 1e-6)
                    ctx.close(cxx.get_yaw_world_foot(tr, side, t), yaw(tr, t), lab + ": yaw of a foot", 0.)
                ctx.ok(cxx.remaining_supports(tr, t) == len(P) - 1 - i, lab + ": supports left")
                ctx.close(rz(cxx.get_yaw_world_trunk(tr, t)), rz(W.yaw(T) + W.through(plan.Y["trunk"], t)[0]), lab + ": yaw of the trunk", 1e-6)
            y = W.through(plan.Y["trunk"], t)[0]
            c, s = np.cos(prm.walk_trunk_pitch), np.sin(prm.walk_trunk_pitch)
            ctx.close(np.array(tr.get_R_world_trunk(t)), T[:3, :3] @ rz(y) @ np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]]), lab + ": trunk at %s" % t, 1e-6)
            ctx.ok(tr.support_is_both(t) == p.both, lab + ": support_is_both")
            if not p.both:
                ctx.ok(tr.support_side(t) == p.order[0], lab + ": support_side")
                S = np.linalg.inv(T @ p.feet[p.order[0]])
                com, v = vec(tr.get_p_world_CoM(t)), vec(tr.get_v_world_CoM(t))
                S[2, 3] = 0.
                ctx.close(vec(tr.get_p_support_CoM(t)), (S @ np.append(com, 1))[:3], lab + ": CoM in the support", 1e-7)
                ctx.close(vec(tr.get_v_support_CoM(t)), S[:3, :3] @ v, lab + ": CoM velocity in the support", 1e-7)
                ctx.close(vec(tr.get_p_support_DCM(t, om)), ((S @ np.append(com, 1))[:3] + S[:3, :3] @ v / om)[:2], lab + ": DCM in the support", 1e-7)
            else:
                ctx.raises(lambda: tr.support_side(t), lab + ": side of a double support")
            ctx.close([tr.get_part_t_start(t), tr.get_part_t_end(t)], [p.t0, p.t1], lab + ": interval of the part", 1e-9)
            ctx.close(vec(tr.get_part_end_dcm(t, om)), vec(tr.get_p_world_DCM(p.t1, om)), lab + ": DCM at the end of the part", 1e-9)
            close_support(ctx, tr.get_support(t), p, T, lab)
            for k in range(-1, len(P) + 2) if not light else (1, -len(P)):
                at = lambda j: P[min(max(j, 0), len(P) - 1)]
                close_support(ctx, tr.get_next_support(t, k), at(i + k), T, lab + " next %d" % k)
                close_support(ctx, tr.get_prev_support(t, k), at(i - k), T, lab + " previous %d" % k)
        s = tr.get_support(.5 * (p.t0 + p.t1))
        ctx.close(vec(s.target_world_dcm), vec(tr.get_p_world_DCM(p.t1 - 1e-9, om)), lab + ": target DCM of the support", 1e-6)
    sup = tr.get_supports()
    ctx.ok(len(sup) == len(P), label + ": get_supports")
    for s, p in zip(sup, P):
        close_support(ctx, s, p, T, label + " get_supports")
