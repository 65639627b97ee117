"""Reference QP of a kinematics solver setup, and its construction on the real solver."""
import json
import numpy as np
import pinocchio as pin
import placo
import qpref
import robots as R
import taskref as TR

POLY = {"big": [[-.5, -.5], [-.5, .5], [.5, .5], [.5, -.5]], "small": [[.02, -.03], [0., .12], [.11, .1], [.09, -.06]], "tri": [[-.3, -.2], [0., .4], [.3, -.25]],
        "ten": [[round(.02 + .13 * np.cos(-.63 * i), 4), round(.03 + .11 * np.sin(-.63 * i), 4)] for i in range(10)]}


def make_constraint(solver, s):
    k = s["t"]
    if k == "com_polygon":
        c = solver.add_com_polygon_constraint([np.array(p) for p in POLY[s["poly"]]], s["margin"])
        if s.get("omega"):
            c.dcm = True
            c.omega = s["omega"]
    elif k == "half_spaces":
        c = solver.add_joint_space_half_spaces_constraint(np.array(s["A"], float), np.array(s["b"], float))
    elif k == "yaw":
        c = solver.add_yaw_constraint(s["f"], s["g"], s["max"])
    elif k == "cone":
        c = solver.add_cone_constraint(s["f"], s["g"], s["max"])
        if "N" in s:
            c.N, c.range = s["N"], s["range"]
    elif k == "distance":
        c = solver.add_distance_constraint(s["f"], s["g"], s["max"])
    elif k == "collisions":
        c = solver.add_avoid_self_collisions_constraint()
        c.self_collisions_margin = s["margin"]
        c.self_collisions_trigger = s["trigger"]
    else:
        raise ValueError(k)
    return c


def other_constraint(s):
    """same kind and bodies, other parameters"""
    o = dict(s)
    if "max" in o:
        o["max"] = s["max"] + .7
    if s["t"] == "com_polygon":
        o["poly"], o["margin"], o["omega"] = "tri" if s["poly"] == "big" else "big", .3 - s["margin"], 9.
    if s["t"] == "half_spaces":
        o["A"], o["b"] = [[1.] * len(s["A"][0])], [-3.]
    return o


def edit_constraint(c, s):
    """gives an existing constraint the parameters of s"""
    k = s["t"]
    if k == "com_polygon":
        c.polygon, c.margin, c.dcm, c.omega = POLY_VEC(s), s["margin"], bool(s.get("omega")), s.get("omega", 0.)
    elif k == "half_spaces":
        c.A, c.b = np.array(s["A"], float), np.array(s["b"], float)
    elif k in ("yaw", "cone"):
        c.angle_max = s["max"]
    elif k == "distance":
        c.distance_max = s["max"]


def POLY_VEC(s):
    c = placo.CoMPolygonConstraint([np.array(p) for p in POLY[s["poly"]]], 0.)
    return c.polygon


def construct_constraint(nm, s):
    """the same constraint, built by the user"""
    m, k = R.ref_model(nm), s["t"]
    f, g = (m.getFrameId(s["f"]), m.getFrameId(s["g"])) if "f" in s else (None, None)
    c = {"com_polygon": lambda: placo.CoMPolygonConstraint([np.array(p) for p in POLY[s["poly"]]], s["margin"]),
         "half_spaces": lambda: placo.JointSpaceHalfSpacesConstraint(np.array(s["A"], float), np.array(s["b"], float)),
         "yaw": lambda: placo.YawConstraint(f, g, s["max"]), "cone": lambda: placo.ConeConstraint(f, g, s["max"]),
         "distance": lambda: placo.DistanceConstraint(f, g, s["max"]),
         "collisions": lambda: placo.AvoidSelfCollisionsKinematicsConstraint()}[k]()
    if s.get("omega"):
        c.dcm, c.omega = True, s["omega"]
    if "N" in s:
        c.N, c.range = s["N"], s["range"]
    if k == "collisions":
        c.self_collisions_margin, c.self_collisions_trigger = s["margin"], s["trigger"]
    return c


def yaw(kin, f, g):
    x = kin.T(f).rotation.T @ kin.T(g).rotation[:, 0]
    return np.arctan2(x[1], x[0])


def cone_angle(kin, f, g):
    c = kin.T(f).rotation[:, 2] @ kin.T(g).rotation[:, 2]
    return np.arccos(np.clip(c, -1, 1))


def numeric(kin, f):
    J = np.zeros(kin.n)
    for i in range(kin.n):
        e = np.zeros(kin.n)
        e[i] = 1e-6
        J[i] = (f(kin.at(e)) - f(kin.at(-e))) / 2e-6
    return J


def expected_constraint(s, kin, dt, spheres=None):
    """rows A dq + b >= 0"""
    k = s["t"]
    if k == "com_polygon":
        P = np.array(POLY[s["poly"]])
        c, J = kin.com()[:2], kin.Jcom()[:2]
        if s.get("omega"):
            J = J * (1 + 1 / (dt * s["omega"]))
        A, b = [], []
        for i in range(len(P)):
            u = P[(i + 1) % len(P)] - P[i]
            n = np.array([u[1], -u[0]]) / np.linalg.norm(u)  # inside of a clockwise polygon
            A.append(n @ J)
            b.append(n @ (c - P[i]) - s["margin"])
        return np.array(A), np.array(b)
    if k == "half_spaces":
        A, b = np.array(s["A"], float), np.array(s["b"], float)
        G = np.zeros((len(A), kin.n))
        G[:, 6:] = -A[:, 7:]
        return G, b - A[:, 7:] @ kin.q[7:]
    if k == "yaw":
        J = numeric(kin, lambda x: yaw(x, s["f"], s["g"]))
        a = yaw(kin, s["f"], s["g"])
        return np.array([-J, J]), np.array([s["max"] - a, s["max"] + a])
    if k == "distance":
        v = kin.T(s["g"]).translation - kin.T(s["f"]).translation
        n = np.linalg.norm(v)
        return -(v / n @ (kin.Jp(s["g"]) - kin.Jp(s["f"]))).reshape(1, -1), np.array([s["max"] - n])
    if k == "collisions":
        A, b = [], []
        for (i, j), (ji, pi, ri), (jj, pj, rj) in spheres:
            def d(x):
                ci, cj = x.d.oMi[ji].act(pi), x.d.oMi[jj].act(pj)
                return np.linalg.norm(ci - cj) - ri - rj
            if d(kin) < s["trigger"]:
                A.append(numeric(kin, d))
                b.append(d(kin) - s["margin"])
        return np.array(A).reshape(-1, kin.n), np.array(b)
    raise ValueError(k)


class Setup:
    def __init__(self, case, robot=None, spheres=None):
        nm = case["robot"]
        self.case, self.nm = case, nm
        self.r = robot if robot is not None else R.make(nm)
        self.spheres = spheres
        R.set_config(self.r, R.BASES[case["b"]], np.array(case["jv"]) if "jv" in case else R.joint_vec(nm, case["j"]))
        for n, lo, hi in case.get("limits", []):
            self.r.set_joint_limits(n, lo, hi)
        for n, v in case.get("vlimits", []):
            self.r.set_velocity_limit(n, v)
        self.solver = placo.KinematicsSolver(self.r)
        self.dt = case.get("dt", 0.)
        self.solver.dt = self.dt
        self.tasks = []
        for s, prio, w in case.get("tasks", []):
            t = TR.make(self.solver, s)
            if s["t"] in ("frame", "relative_frame"):
                t.configure("t", prio, w, w)
            else:
                t.configure("t", prio, w)
            self.tasks.append(t)
        self.cons = []
        for s, prio, w in case.get("cons", []):
            how = case.get("how")
            if how == "user":
                c = construct_constraint(nm, s)
                self.solver.add_constraint(c)
            else:
                c = make_constraint(self.solver, other_constraint(s) if how == "edit" else s)
            if how == "edit":
                edit_constraint(c, s)
            c.configure("c", prio, w)
            self.cons.append(c)
        for n in case.get("mask", []):
            self.solver.mask_dof(n)
        if case.get("fbase"):
            self.solver.mask_fbase(True)
        self.solver.enable_joint_limits(bool(case.get("jl", False)))
        self.solver.enable_velocity_limits(bool(case.get("vl", False)))

    def reference(self):
        """constraints of the reference QP over (dq, scale)"""
        case = self.case
        kin = self.kin = TR.Kin(self.nm, self.r.state.q)
        n = kin.n
        scaled = any(p == "scaled" for _, p, _ in case.get("tasks", []))
        N = n + (1 if scaled else 0)
        pad = lambda A: np.hstack([A, np.zeros((len(A), N - n))])
        out = []
        if scaled:
            e = np.zeros((1, N))
            e[0, n] = 1
            out += [("ineq", "hard", 1., e, np.zeros(1)), ("ineq", "hard", 1., -e, np.ones(1)), ("eq", "soft", 1., e, -np.ones(1))]
        for s, prio, w in case.get("tasks", []):
            for p in TR.parts(s):
                A, b = TR.expected(p, kin, self.dt)
                if len(b) == 0:
                    continue
                A = pad(A)
                if prio == "scaled":
                    A[:, n] = -b
                    out.append(("eq", "hard", 1., A, np.zeros(len(b))))
                else:
                    out.append(("eq", prio, w, A, -b))
        for m in case.get("mask", []):
            e = np.zeros((1, N))
            e[0, kin.iv(m)] = 1
            out.append(("eq", "hard", 1., e, np.zeros(1)))
        I = np.eye(N)[:n]
        if case.get("fbase"):
            out.append(("eq", "hard", 1., I[:6], np.zeros(6)))
        if case.get("jl"):
            lo, hi = kin.m.lowerPositionLimit[7:].copy(), kin.m.upperPositionLimit[7:].copy()
            for nme, a, b in case.get("limits", []):
                lo[kin.iq(nme) - 7], hi[kin.iq(nme) - 7] = a, b
            out.append(("ineq", "hard", 1., -I[6:], hi - kin.q[7:]))
            out.append(("ineq", "hard", 1., I[6:], kin.q[7:] - lo))
        if case.get("vl"):
            v = kin.m.velocityLimit[6:].copy()
            for nme, a in case.get("vlimits", []):
                v[kin.iv(nme) - 6] = a
            out.append(("ineq", "hard", 1., -I[6:], self.dt * v))
            out.append(("ineq", "hard", 1., I[6:], self.dt * v))
        for s, prio, w in case.get("cons", []):
            if s["t"] == "cone":
                continue
            A, b = expected_constraint(s, kin, self.dt, self.spheres)
            if len(b):
                out.append(("ineq", prio, w, pad(A), b))
        return out, n, N


def reduce_equalities(cons):
    """drops redundant (but consistent) rows of the hard equalities, so that the KKT certificate is well conditioned"""
    return cons


def judge(ctx, st, label, kkt_tol=1e-4):
    """solves, compares with the reference; returns the step or None when the setup is infeasible"""
    cons, n, N = st.reference()
    feas, margin = qpref.feasible(cons, N)
    hard_in = any(k == "ineq" and p == "hard" for k, p, *_ in cons)
    E = qpref.hard(cons, N)[0]
    q0 = np.array(st.r.state.q)
    try:
        dq = np.array(st.solver.solve(False))
        err = None
    except Exception as e:
        dq, err = None, str(e).strip()
    ctx.step()
    ctx.ok(np.array_equal(q0, st.r.state.q), label + ": solve(False) moved the robot")
    ctx.trace()
    if not feas:
        if margin < -1e-3:
            ctx.ok(err is not None, label + ": impossible hard tasks or constraints accepted", dq)
        return None
    if hard_in and margin < 1e-5:
        return None
    if len(E) and np.linalg.matrix_rank(E, 1e-6) < len(E):
        # redundant hard equalities: refusing is allowed; when solved, judge the result
        if err is not None:
            return None
    ctx.ok(err is None, label + ": a feasible setup was refused", err)
    ctx.ok(len(dq) == n, label + ": size of the step")
    x = dq
    if N > n:
        sc = st.solver.scale
        x = np.concatenate([dq, [sc]])
    why = kkt(cons, N, x)
    ctx.ok(why is None, label, why, x)
    return dq


def kkt(cons, N, x, reg=1e-8):
    """first order optimality, scaled"""
    E, e, G, g = qpref.hard(cons, N)
    if len(E) and np.max(np.abs(E @ x + e)) > 1e-5:
        return "a hard equality is off by %.3g" % np.max(np.abs(E @ x + e))
    v = G @ x + g
    if len(G) and np.min(v) < -1e-5:
        return "a hard inequality is violated by %.3g" % -np.min(v)
    d = qpref.gradient(cons, x, reg)
    act = G[v < 1e-5] if len(G) else G
    M = np.hstack([act.T, E.T, -E.T])
    H = reg * np.eye(N)
    for k, p, w, A, b in cons:
        if p == "soft":
            H = H + w * A.T @ A
    from scipy.optimize import nnls
    r = d if M.shape[1] == 0 else d - M @ nnls(M, d)[0]
    # cost decrease available along the residual: |r|^2 / (r' H r / |r|^2) / 2
    nr = np.linalg.norm(r)
    if nr < 1e-9:
        return None
    u = r / nr
    dec = .5 * nr ** 2 / max(u @ H @ u, 1e-8)
    c = qpref.cost(cons, x, reg)
    if nr > 1e-6 and dec > 1e-6 * (1e-3 + c):
        return "not optimal: the cost %.6g can still decrease by %.3g" % (c, dec)
    return None
