"""Dynamics solver: how to set it up from a description, and the reference QP over (accelerations, contact forces),
assembled from an independent rigid body model (forward kinematics, classical accelerations, inverse dynamics)."""
import numpy as np
import pinocchio as pin
from scipy.optimize import nnls
import placo
import qpref
import robots as R
import taskref as TR

try:
    import placo_cxx_dyn as cxx  # C++ functions which are not bound to Python (see lib/shim_dyn.cpp)
except ImportError:
    cxx = None

ROT, POS, CUSTOM = TR.ROT, TR.POS, TR.CUSTOM
SURF = [np.eye(3), R.rpy(.4, -.3, .2), R.rpy(0, .9, 0)]


class Dyn(TR.Kin):
    """everything at (q, v): jacobians and drifts (accelerations at zero qdd)"""

    def __init__(self, nm, q, v, g=None, rotor=()):
        super().__init__(nm, q)
        self.g, self.rotor = g, rotor
        self.v = np.array(v, float)
        self.dd = self.m.createData()
        pin.forwardKinematics(self.m, self.dd, self.q, self.v, np.zeros(self.n))
        pin.updateFramePlacements(self.m, self.dd)
        self.dc = self.m.createData()
        pin.centerOfMass(self.m, self.dc, self.q, self.v, np.zeros(self.n))

    def drift(self, f):
        a = pin.getFrameClassicalAcceleration(self.m, self.dd, self.m.getFrameId(f), pin.LOCAL_WORLD_ALIGNED)
        return a.linear.copy(), a.angular.copy()

    def w(self, f):
        return self.Jw(f) @ self.v

    def vel(self, f):
        return self.Jp(f) @ self.v

    def efforts(self, v):
        """inverse dynamics at zero acceleration, in the gravity asked"""
        before = self.m.gravity.linear.copy()
        try:
            if self.g is not None:
                self.m.gravity.linear = np.array(self.g, float)
            return pin.rnea(self.m, self.m.createData(), self.q, v, np.zeros(self.n)).copy()
        finally:
            self.m.gravity.linear = before

    def nle(self):
        return self.efforts(self.v)

    def gravity(self):
        return self.efforts(np.zeros(self.n))

    def inertia(self):
        """mass matrix, with the reflected inertia of the rotors"""
        M = self.mass().copy()
        for nme, I, ratio in self.rotor:
            k = self.m.joints[self.m.getJointId(nme)].idx_v
            M[k, k] += I * ratio ** 2
        return M

    def relpos(self, a, b):
        """J, drift, value, velocity of the position of b seen from a"""
        Ra = self.T(a).rotation
        r = self.T(b).translation - self.T(a).translation
        rd = self.vel(b) - self.vel(a)
        w = self.w(a)
        (la, aa), (lb, _) = self.drift(a), self.drift(b)
        rel = rd - np.cross(w, r)
        d = lb - la - np.cross(aa, r) - 2 * np.cross(w, rel) - np.cross(w, np.cross(w, r))
        return self.Jrelpos(a, b), Ra.T @ d, Ra.T @ r, Ra.T @ rel

    def relrot(self, a, b):
        Ra = self.T(a).rotation
        wa, wb = self.w(a), self.w(b)
        d = self.drift(b)[1] - self.drift(a)[1] - np.cross(wa, wb - wa)
        return Ra.T @ (self.Jw(b) - self.Jw(a)), Ra.T @ d, Ra.T @ (wb - wa)


def make(solver, s):
    k = s["t"]
    V = lambda x: np.array(s.get(x, [0, 0, 0]), float)
    if k == "position":
        t = solver.add_position_task(s["f"], V("p"))
        t.dtarget_world, t.ddtarget_world = V("dp"), V("ddp")
    elif k == "com":
        t = solver.add_com_task(V("p"))
        t.dtarget_world, t.ddtarget_world = V("dp"), V("ddp")
    elif k == "orientation":
        t = solver.add_orientation_task(s["f"], ROT[s["r"]])
        t.omega_world, t.domega_world = V("dp"), V("ddp")
    elif k == "frame":
        t = solver.add_frame_task(s["f"], R.T(ROT[s["r"]], s["p"]))
    elif k == "relative_position":
        t = solver.add_relative_position_task(s["f"], s["g"], V("p"))
        t.dtarget, t.ddtarget = V("dp"), V("ddp")
    elif k == "relative_orientation":
        t = solver.add_relative_orientation_task(s["f"], s["g"], ROT[s["r"]])
        t.omega_a_b, t.domega_a_b = V("dp"), V("ddp")
    elif k == "relative_frame":
        t = solver.add_relative_frame_task(s["f"], s["g"], R.T(ROT[s["r"]], s["p"]))
    elif k == "joints":
        t = solver.add_joints_task()
        for j in s["j"]:
            t.set_joint(*j)
    elif k == "gear":
        t = solver.add_gear_task()
        for how, tgt, src, ratio in s["g"]:
            (t.set_gear if how == "set" else t.add_gear)(tgt, src, ratio)
    elif k == "torque":
        t = solver.add_torque_task()
        for j in s["j"]:
            t.set_torque(*j)
    else:
        raise ValueError(k)
    for e in elementary(s, t):
        if "kp" in s:
            e.kp = s["kp"]
        if "kd" in s:
            e.kd = s["kd"]
    if k == "frame" and s.get("omask"):
        TR.set_mask(t.orientation(), s["omask"])
    elif s.get("mask"):
        TR.set_mask(t, s["mask"])
    return t


def construct(nm, s, solver):
    """the same task built by the user and added to the solver; None when there is no such constructor"""
    m, k = R.ref_model(nm), s["t"]
    V = lambda x: np.array(s.get(x, [0, 0, 0]), float)
    f = m.getFrameId(s["f"]) if "f" in s else None
    g = m.getFrameId(s["g"]) if isinstance(s.get("g"), str) else None
    t = {"position": lambda: placo.DynamicsPositionTask(f, V("p")), "com": lambda: placo.DynamicsCoMTask(V("p")),
         "orientation": lambda: placo.DynamicsOrientationTask(f, ROT[s["r"]]),
         "relative_position": lambda: placo.DynamicsRelativePositionTask(f, g, V("p")),
         "relative_orientation": lambda: placo.DynamicsRelativeOrientationTask(f, g, ROT[s["r"]]),
         "joints": lambda: placo.DynamicsJointsTask(), "gear": lambda: placo.DynamicsGearTask(), "torque": lambda: placo.DynamicsTorqueTask()}.get(k)
    if t is None:
        return None
    t = t()
    if k in ("position", "com"):
        t.dtarget_world, t.ddtarget_world = V("dp"), V("ddp")
    elif k == "orientation":
        t.omega_world, t.domega_world = V("dp"), V("ddp")
    elif k == "relative_position":
        t.dtarget, t.ddtarget = V("dp"), V("ddp")
    elif k == "relative_orientation":
        t.omega_a_b, t.domega_a_b = V("dp"), V("ddp")
    elif k == "joints":
        # targets first, velocities next: both are merged
        for j in s["j"]:
            if len(j) > 3:
                t.set_joint(*j)
        t.set_joints({j[0]: j[1] for j in s["j"]})
        t.set_joints_velocities({j[0]: (list(j) + [0.])[2] for j in s["j"]})
    elif k == "torque":
        for j in s["j"]:
            t.set_torque(*j)
    solver.add_task(t)
    if k == "gear":
        for how, tgt, src, ratio in s["g"]:
            (t.set_gear if how == "set" else t.add_gear)(tgt, src, ratio)
    for a in ("kp", "kd"):
        if a in s:
            setattr(t, a, s[a])
    if s.get("mask"):
        TR.set_mask(t, s["mask"])
    return t


def elementary(s, t):
    return [t.position(), t.orientation()] if s["t"] in ("frame", "relative_frame") else [t]


def parts(s):
    if s["t"] == "frame":
        return [dict(s, t="position", mask=None), dict(s, t="orientation", mask=s.get("omask"))]
    if s["t"] == "relative_frame":
        return [dict(s, t="relative_position"), dict(s, t="relative_orientation")]
    return [s]


def expected(s, kin):
    """(A, b, error, derror, tau?) of an elementary task: A qdd = b (or A tau = b)"""
    k = s["t"]
    kp = s.get("kp", 1e3)
    kd = s.get("kd", -1)
    kd = 2 * np.sqrt(kp) if kd < 0 else kd
    V = lambda x: np.array(s.get(x, [0, 0, 0]), float)
    n = kin.n
    if k == "torque":
        A, b = np.zeros((len(s["j"]), n)), np.zeros(len(s["j"]))
        for i, j in enumerate(s["j"]):
            j = list(j) + [0., 0.][len(j) - 2:]
            A[i, kin.iv(j[0])] = 1
            b[i] = j[1] - j[2] * kin.q[kin.iq(j[0])] - j[3] * kin.v[kin.iv(j[0])]
        return A, b, None, None, True
    if k == "joints":
        J = {}
        for j in s["j"]:
            J[j[0]] = (list(j) + [0., 0., 0.])[1:4]
        A, e, de, dd = np.zeros((len(J), n)), [], [], []
        for i, (nme, (x, v, a)) in enumerate(sorted(J.items())):
            A[i, kin.iv(nme)] = 1
            e.append(x - kin.q[kin.iq(nme)])
            de.append(v - kin.v[kin.iv(nme)])
            dd.append(a)
        e, de = np.array(e), np.array(de)
        return A, kp * e + kd * de + np.array(dd), e, de, False
    if k == "gear":
        G = {}
        for how, tgt, src, ratio in s["g"]:
            if how == "set":
                G[tgt] = {}
            G.setdefault(tgt, {})[src] = ratio
        A, e, de = np.zeros((len(G), n)), [], []
        for i, (tgt, src) in enumerate(sorted(G.items(), key=lambda x: kin.iv(x[0]))):
            A[i, kin.iv(tgt)] = -1
            for a, ratio in src.items():
                A[i, kin.iv(a)] += ratio
            e.append(kin.q[kin.iq(tgt)] - sum(r * kin.q[kin.iq(a)] for a, r in src.items()))
            de.append(kin.v[kin.iv(tgt)] - sum(r * kin.v[kin.iv(a)] for a, r in src.items()))
        e, de = np.array(e), np.array(de)
        return A, kp * e + kd * de, e, de, False
    local = None
    if k == "position":
        J, d, e, v = kin.Jp(s["f"]), kin.drift(s["f"])[0], V("p") - kin.T(s["f"]).translation, kin.vel(s["f"])
        local = kin.T(s["f"]).rotation.T
    elif k == "com":
        J, d, e, v = kin.Jcom(), kin.dc.acom[0].copy(), V("p") - kin.com(), kin.dc.vcom[0].copy()
    elif k == "orientation":
        Rt = ROT[s["r"]]
        J, d, e, v = kin.Jw(s["f"]), kin.drift(s["f"])[1], TR.log3(Rt @ kin.T(s["f"]).rotation.T), kin.w(s["f"])
        local = Rt.T
    elif k == "relative_position":
        J, d, x, v = kin.relpos(s["f"], s["g"])
        e = V("p") - x
    elif k == "relative_orientation":
        J, d, v = kin.relrot(s["f"], s["g"])
        e = TR.log3(ROT[s["r"]] @ (kin.T(s["f"]).rotation.T @ kin.T(s["g"]).rotation).T)
    else:
        raise ValueError(k)
    de = V("dp") - v
    m = lambda M: TR.apply_mask(s.get("mask"), M, local)
    return m(J), m(kp * e + kd * de + V("ddp") - d), m(e), m(de), False


class Setup:
    """case: robot, b, j, v, tasks [[spec, prio, w]], contacts [spec], opts {...}, cons [[spec, prio, w]]"""

    def __init__(self, case, robot=None, spheres=None):
        self.case, self.nm = case, case["robot"]
        self.r = robot if robot is not None else R.make(self.nm)
        self.spheres = spheres
        n = R.ref_model(self.nm).nv
        v = R.vel_vec(n, case.get("v", 0)) * case.get("vs", 1.)
        joints = R.joint_vec(self.nm, case["j"]).copy()
        m = R.ref_model(self.nm)
        for nme, x in case.get("qset", []):
            joints[m.joints[m.getJointId(nme)].idx_q - 7] = x
        for nme, x in case.get("vset", []):
            v[m.joints[m.getJointId(nme)].idx_v] = x
        R.set_config(self.r, R.BASES[case["b"]], joints, v)
        o = self.o = case.get("opts", {})
        self.r.set_gravity(np.array(o.get("g", [0, 0, -9.81]), float))
        for nme in list(m.names)[2:]:
            self.r.set_rotor_inertia(nme, 0.)
            self.r.set_gear_ratio(nme, 1.)
        self.set_rotors()
        for nme, lo, hi in o.get("limits", []):
            self.r.set_joint_limits(nme, lo, hi)
        for nme, x in o.get("vlimits", []):
            self.r.set_velocity_limit(nme, x)
        for nme, x in o.get("tlimits", []):
            self.r.set_torque_limit(nme, x)
        s = self.solver = placo.DynamicsSolver(self.r)
        self.dt = o.get("dt", 0.)
        s.dt = self.dt
        for a in ("damping", "gravity_only", "torque_cost"):
            if a in o:
                setattr(s, a, o[a])
        if "extra" in o:
            s.extra_force = self.extra(n)
        if "fbase" in o:
            s.mask_fbase(o["fbase"])
        for a in ("jl", "vl", "vt", "tl"):
            if a in o:
                {"jl": s.enable_joint_limits, "vl": s.enable_velocity_limits, "vt": s.enable_velocity_vs_torque_limits, "tl": s.enable_torque_limits}[a](o[a])
        for nme, x in o.get("safe", []):
            s.set_qdd_safe(nme, x)
        for nme, x in o.get("stl", []):
            s.set_torque_limit(nme, x)
        self.tasks = []
        for sp, prio, w in case.get("tasks", []):
            t = construct(self.nm, sp, s) if case.get("how") == "user" else None
            if t is None:
                t = make(s, sp)
            if sp["t"] in ("frame", "relative_frame"):
                t.configure("t", prio, w, w)
            else:
                t.configure("t", prio, w)
            self.tasks.append(t)
        self.contacts = [self.make_contact(c) for c in case.get("contacts", [])]
        self.cons = []
        for sp, prio, w in case.get("cons", []):
            c = s.add_avoid_self_collisions_constraint()
            c.self_collisions_margin, c.self_collisions_trigger = sp["margin"], sp["trigger"]
            c.configure("c", prio, w)
            self.cons.append(c)

    def set_rotors(self):
        for nme, I, ratio in self.o.get("rotor", []):
            self.r.set_rotor_inertia(nme, I)
            self.r.set_gear_ratio(nme, ratio)

    def extra(self, n):
        return np.round(np.sin(np.arange(n) * .8 + 1.) * self.o["extra"], 3)

    def make_contact(self, c):
        s, k = self.solver, c["c"]
        if k == "puppet":
            x = s.add_puppet_contact()
        elif self.case.get("how") == "user" and cxx is not None and not (k == "ext" and c["ref"] != "world"):
            t = None if k == "ext" else self.tasks[c["task"]]
            x = {"point": lambda: placo.PointContact(t, False), "upoint": lambda: placo.PointContact(t, True), "fixed": lambda: placo.Contact6D(t, False),
                 "planar": lambda: placo.Contact6D(t, True), "line": lambda: placo.LineContact(t, False), "uline": lambda: placo.LineContact(t, True),
                 "task": lambda: placo.TaskContact(t), "ext": lambda: placo.ExternalWrenchContact(R.ref_model(self.nm).getFrameId(c["f"]))}[k]()
            if k == "ext":
                x.w_ext = np.array(c["w"], float)
            cxx.add_contact(s, x)
        elif k == "ext":
            x = s.add_external_wrench_contact(c["f"], c["ref"])
            x.w_ext = np.array(c["w"], float)
        else:
            t = self.tasks[c["task"]]
            x = {"point": s.add_point_contact, "upoint": s.add_unilateral_point_contact, "fixed": s.add_fixed_contact, "planar": s.add_planar_contact,
                 "line": s.add_line_contact, "uline": s.add_unilateral_line_contact, "task": s.add_task_contact}[k](t)
        for a in ("length", "width", "mu", "weight_forces", "weight_tangentials", "weight_moments"):
            if a in c:
                setattr(x, a, c[a])
        if "surf" in c:
            x.R_world_surface = SURF[c["surf"]]
        if "active" in c:
            x.active = c["active"]
        return x

    # -- reference -----------------------------------------------------------------------------------
    def reference(self):
        case, o = self.case, self.o
        kin = self.kin = Dyn(self.nm, self.r.state.q, self.r.state.qd, o.get("g"), o.get("rotor", ()))
        n = kin.n
        act = [(i, c) for i, c in enumerate(case.get("contacts", [])) if c.get("active", True)]
        Js = []
        for i, c in act:
            Js.append(self.contact_jacobian(c, kin))
        off, N = [], n
        for J in Js:
            off.append(N)
            N += len(J)
        self.off = {i: (o_, len(J)) for (i, c), o_, J in zip(act, off, Js)}
        self.Js = {i: J for (i, c), J in zip(act, Js)}
        tA = np.zeros((n, N))
        M = kin.inertia()
        tA[:, :n] = M
        for J, k in zip(Js, off):
            tA[:, k:k + len(J)] = -J.T
        tb = o.get("damping", 0.) * kin.v + (kin.gravity() if o.get("gravity_only") else kin.nle())
        if "extra" in o:
            tb = tb + self.extra(n)
        self.tA, self.tb, self.M, self.h = tA, tb, M, tb
        I = np.eye(N)
        out = []
        if o.get("fbase"):
            out.append(("eq", "hard", 1., I[:6], np.zeros(6)))
        else:
            out.append(("eq", "hard", 1., tA[:6], tb[:6]))
        out.append(("eq", "soft", o.get("torque_cost", 1e-3), tA[6:], tb[6:]))
        for s, prio, w in case.get("tasks", []):
            for p in parts(s):
                A, b, e, de, tau = expected(p, kin)
                if len(b) == 0:
                    continue
                if tau:
                    out.append(("eq", prio, w, A @ tA, A @ tb - b))
                else:
                    out.append(("eq", prio, w, np.hstack([A, np.zeros((len(A), N - n))]), -b))
        for (i, c), J, k in zip(act, Js, off):
            out += self.contact_rows(c, I[k:k + len(J)], kin)
        out += self.limits(kin, tA, tb, I)
        for sp, prio, w in case.get("cons", []):
            A, b = self.collisions(sp, kin)
            if len(b):
                out.append(("ineq", prio, w, np.hstack([A, np.zeros((len(A), N - n))]), b))
        return out, n, N

    def contact_jacobian(self, c, kin):
        k = c["c"]
        if k == "puppet":
            return np.eye(kin.n)
        if k == "ext":
            return kin.J(c["f"], pin.LOCAL_WORLD_ALIGNED if c["ref"] == "world" else pin.LOCAL)
        s = self.case["tasks"][c["task"]][0]
        if k in ("point", "upoint"):
            return kin.Jp(s["f"])
        if k in ("fixed", "planar"):
            return kin.J(s["f"], pin.LOCAL)
        if k in ("line", "uline"):
            return np.vstack([kin.Jp(s["f"]), expected(parts(s)[1], kin)[0]])
        return expected(s, kin)[0]

    def contact_rows(self, c, F, kin):
        """constraints on the force of a contact; F selects its components"""
        k, out = c["c"], []
        S = SURF[c.get("surf", 0)].T
        wf, wt, wm = (c.get(a, 0.) for a in ("weight_forces", "weight_tangentials", "weight_moments"))
        mu = c.get("mu", 1.)
        if k == "ext":
            return [("eq", "hard", 1., F, -np.array(c["w"], float))]
        if k in ("puppet", "task"):
            return [("eq", "soft", wf, F, np.zeros(len(F)))] if wf else []
        f = S @ F[:3] if k in ("point", "upoint", "line", "uline") else F[:3]
        if k in ("upoint", "planar", "uline"):
            rows = [f[2]] + [mu * f[2] + sg * f[i] for i in (0, 1) for sg in (1, -1)]
            if k == "planar":
                rows += [c["length"] / 2 * f[2] + sg * F[4] for sg in (1, -1)] + [c["width"] / 2 * f[2] + sg * F[3] for sg in (1, -1)]
            if k == "uline":
                rows += [c["length"] / 2 * f[2] + sg * F[3] for sg in (1, -1)]
            out.append(("ineq", "hard", 1., np.array(rows), np.zeros(len(rows))))
        if wf:
            out.append(("eq", "soft", wf, f, np.zeros(3)))
        if wt:
            out.append(("eq", "soft", wt, f[:2], np.zeros(2)))
        if wm and len(F) > 3:
            out.append(("eq", "soft", wm, F[3:], np.zeros(len(F) - 3)))
        return out

    def limits(self, kin, tA, tb, I):
        o, n, m, dt = self.o, kin.n, kin.m, self.dt
        eff, vel = m.effortLimit.copy(), m.velocityLimit.copy()
        lo, hi = m.lowerPositionLimit.copy(), m.upperPositionLimit.copy()
        for nme, a, b in o.get("limits", []):
            lo[kin.iq(nme)], hi[kin.iq(nme)] = a, b
        for nme, x in o.get("vlimits", []):
            vel[kin.iv(nme)] = x
        for nme, x in o.get("tlimits", []):
            eff[kin.iv(nme)] = x
        safe = np.ones(n)
        for nme, x in o.get("safe", []):
            safe[kin.iv(nme)] = x
        cap = eff.copy()
        for nme, x in o.get("stl", []):
            cap[kin.iv(nme)] = x
        out = []
        if o.get("tl"):
            out += [("ineq", "hard", 1., -tA[6:], cap[6:] - tb[6:]), ("ineq", "hard", 1., tA[6:], cap[6:] + tb[6:])]
        G, g = [], []
        for k in range(6, n):
            if o.get("vt"):
                # speed after the step below the torque dependent maximum
                r = vel[k] / eff[k]
                for sg in (1, -1):
                    G.append(-sg * (dt * I[k] + r * tA[k]))
                    g.append(vel[k] - sg * (kin.v[k] + r * tb[k]))
            elif o.get("vl"):
                for sg in (1, -1):
                    G.append(-sg * dt * I[k])
                    g.append(vel[k] - sg * kin.v[k])
            if o.get("jl"):
                q = kin.q[k + 1]
                if q > hi[k + 1]:
                    G.append(-I[k]); g.append(-safe[k])
                else:
                    G.append(-dt * I[k]); g.append(np.sqrt(2 * safe[k] * (hi[k + 1] - q)) - kin.v[k])
                if q < lo[k + 1]:
                    G.append(I[k]); g.append(-safe[k])
                else:
                    G.append(dt * I[k]); g.append(np.sqrt(2 * safe[k] * (q - lo[k + 1])) + kin.v[k])
        if G:
            out.append(("ineq", "hard", 1., np.array(G), np.array(g)))
        return out

    def collisions(self, sp, kin):
        """spheres: distance, its gradient and drift along the motion, in closed form"""
        A, b = [], []
        o = self.o
        safe = np.ones(kin.n)
        for nme, x in o.get("safe", []):
            safe[kin.iv(nme)] = x
        for _, (ji, pi, ri), (jj, pj, rj) in self.spheres:
            def pt(j, p):
                M = kin.d.oMi[j]
                c = M.act(p)
                return c
            ci, cj = pt(ji, pi), pt(jj, pj)
            dist = np.linalg.norm(ci - cj)
            d = dist - ri - rj
            if d >= sp["trigger"]:
                continue
            u = (cj - ci) / dist
            # witness points, fixed in their bodies
            wi, wj = ci + ri * u, cj - rj * u
            Jc, dr = [], []
            for j, w in ((ji, wi), (jj, wj)):
                fr = pin.SE3(np.eye(3), kin.d.oMi[j].actInv(w))
                Jj = pin.getJointJacobian(kin.m, kin.d, j, pin.LOCAL)
                Jl = fr.toActionMatrixInverse() @ Jj
                Jc.append(kin.d.oMi[j].rotation @ Jl[:3])
                al = fr.actInv(kin.dd.a[j])
                vl = fr.actInv(kin.dd.v[j])
                dr.append(kin.d.oMi[j].rotation @ (al.linear + np.cross(vl.angular, vl.linear)))
            J = u @ (Jc[1] - Jc[0])
            dJ = u @ (dr[1] - dr[0])
            xs = .5 * np.sum(np.abs(J[6:]) * safe[6:])
            if d >= sp["margin"]:
                A.append(self.dt * J)
                b.append(self.dt * dJ + J @ kin.v + np.sqrt(2 * (d - sp["margin"]) * xs))
            else:
                A.append(J)
                b.append(dJ - xs)
        return np.array(A).reshape(-1, kin.n), np.array(b)


def judge(ctx, st, label, integrate=False):
    """solves, compares with the reference. Returns the result, or None when refused"""
    cons, n, N = st.reference()
    feas, margin = qpref.feasible(cons, N)
    hard_in = any(k == "ineq" and p == "hard" for k, p, *_ in cons)
    E = qpref.hard(cons, N)[0]
    q0, v0, a0 = (np.array(getattr(st.r.state, x)) for x in ("q", "qd", "qdd"))
    res = st.solver.solve(True) if integrate else st.solver.solve()
    ctx.step()
    ctx.trace()
    if not integrate or not res.success:
        ctx.ok(np.array_equal(q0, st.r.state.q) and np.array_equal(v0, st.r.state.qd) and np.array_equal(a0, st.r.state.qdd),
               label + ": the solve moved the robot")
    if not feas:
        if margin < -1e-3:
            ctx.ok(not res.success, label + ": impossible hard tasks or limits reported as solved")
        return None
    if hard_in and margin < 1e-6:
        return None
    Es = E / np.maximum(np.abs(E).max(1, keepdims=True), 1e-12)
    if len(Es):
        sv = np.linalg.svd(Es, compute_uv=False)
        if len(Es) > N or sv[-1] < 1e-5 * sv[0]:
            return None if not res.success else res
    ctx.ok(res.success, label + ": a feasible setup was refused")
    qdd, tau, tc = (np.array(x).flatten() for x in (res.qdd, res.tau, res.tau_contacts))
    ctx.ok(len(qdd) == n and len(tau) == n and len(tc) == n, label + ": sizes of the result")
    x = np.zeros(N)
    x[:n] = qdd
    for i, (o, k) in st.off.items():
        f = np.array(st.contacts[i].wrench).flatten()
        ctx.ok(len(f) == k, label + ": size of a contact wrench: %d, expected %d" % (len(f), k))
        x[o:o + k] = f
    sc = 1. + np.abs(tau).max() + np.abs(st.M @ qdd).max()
    ctx.close(tau, st.tA @ x + st.tb, label + ": torques do not follow from the accelerations and contact forces", 1e-6 * sc)
    ctx.close(st.M @ qdd + st.h, tau + tc, label + ": the equation of motion does not hold", 1e-6 * sc)
    want = np.zeros(n)
    for i, J in st.Js.items():
        o, k = st.off[i]
        want += J.T @ x[o:o + k]
    ctx.close(tc, want, label + ": generalized contact forces", 1e-6 * sc)
    if st.o.get("fbase"):
        ctx.ok(np.abs(qdd[:6]).max() < 1e-6 * sc, label + ": the masked floating base accelerates", qdd[:6])
    else:
        ctx.ok(np.abs(tau[:6]).max() < 1e-5 * sc, label + ": torque on the floating base", tau[:6])
    why = kkt(cons, N, x)
    ctx.ok(why is None, label, why)
    td = res.tau_dict(st.r)
    ctx.ok(set(td.keys()) == set(st.r.joint_names()) and all(td[j] == tau[st.kin.iv(j)] for j in td.keys()), label + ": torques by joint")
    return res


def kkt(cons, N, x, reg=1e-8):
    E, e, G, g = qpref.hard(cons, N)
    mag = lambda A, b: 1. + np.abs(A) @ np.abs(x) + np.abs(b)
    if len(E):
        d = np.abs(E @ x + e) / mag(E, e)
        if d.max() > 1e-6:
            i = int(d.argmax())
            return "a hard equality is off by %.3g" % (E @ x + e)[i]
    v = G @ x + g
    if len(G):
        sl = v / mag(G, g)
        if sl.min() < -1e-6:
            return "a hard inequality is violated by %.3g" % -v[int(sl.argmin())]
    d = qpref.gradient(cons, x, reg)
    act = G[sl < 1e-6] if len(G) else G
    M = np.hstack([act.T, E.T, -E.T])
    H = reg * np.eye(N)
    for k, p, w, A, b in cons:
        if p == "soft":
            H = H + w * A.T @ A
    if M.shape[1]:
        nrm = np.linalg.norm(M, axis=0)
        M = M[:, nrm > 1e-12] / nrm[nrm > 1e-12]
        # equality multipliers first (projection), then the sign constrained ones
        Q = np.linalg.svd(E.T, full_matrices=True) if len(E) else None
        if Q is not None:
            U, s, _ = Q
            Z = U[:, int((s > 1e-9 * s[0]).sum()):]
            dz, az = Z.T @ d, Z.T @ act.T if len(act) else np.zeros((Z.shape[1], 0))
        else:
            Z, dz, az = np.eye(N), d, act.T
        nz = np.linalg.norm(az, axis=0) if az.shape[1] else np.zeros(0)
        az = az[:, nz > 1e-9] / nz[nz > 1e-9]
        r = dz if az.shape[1] == 0 else dz - az @ nnls(az, dz)[0]
        Hz = Z.T @ H @ Z
    else:
        r, Hz = d, H
    nr = np.linalg.norm(r)
    if nr < 1e-9:
        return None
    # largest decrease of the quadratic along the residual
    u = r / nr
    dec = .5 * nr ** 2 / max(u @ Hz @ u, reg)
    c = qpref.cost(cons, x, reg)
    if nr > 1e-6 and dec > 1e-5 * (1e-3 + c):
        return "not optimal: the cost %.6g can still decrease by %.3g" % (c, dec)
    return None
