"""Kinematics tasks: how to create them on the real solver, and what they mean, from an independent kinematic model.

The meaning of a task is the quadratic form |A dq - b|^2 (and, for hard tasks, its zero set): A and b are compared through
(A^T A, A^T b, b^T b), which does not depend on how the rows are written.
"""
import numpy as np
import pinocchio as pin
import placo
import robots as R

NA = None


class Kin:
    """independent evaluation of everything a task may need, at configuration q"""

    def __init__(self, nm, q):
        self.m = R.ref_model(nm)
        self.d = self.m.createData()
        self.q = np.array(q)
        pin.framesForwardKinematics(self.m, self.d, self.q)
        pin.computeJointJacobians(self.m, self.d, self.q)
        self.n = self.m.nv

    def T(self, f):
        return self.d.oMf[self.m.getFrameId(f)]

    def J(self, f, ref=pin.LOCAL_WORLD_ALIGNED):
        return pin.getFrameJacobian(self.m, self.d, self.m.getFrameId(f), ref)

    def Jw(self, f):
        """angular velocity in the world"""
        return self.J(f)[3:]

    def Jp(self, f):
        return self.J(f)[:3]

    def com(self):
        d = self.m.createData()
        return pin.centerOfMass(self.m, d, self.q).copy()

    def Jcom(self):
        d = self.m.createData()
        return pin.jacobianCenterOfMass(self.m, d, self.q).copy()

    def iq(self, j):
        return self.m.joints[self.m.getJointId(j)].idx_q

    def iv(self, j):
        return self.m.joints[self.m.getJointId(j)].idx_v

    def Jrelpos(self, a, b):
        """derivative of the position of b seen from a"""
        Ra = self.T(a).rotation
        p = self.T(b).translation - self.T(a).translation
        return Ra.T @ (self.Jp(b) - self.Jp(a) + pin.skew(p) @ self.Jw(a))

    def mass(self):
        M = pin.crba(self.m, self.m.createData(), self.q)
        M = np.triu(M) + np.triu(M, 1).T
        return M

    def at(self, dq):
        k = Kin.__new__(Kin)
        k.m, k.d, k.q, k.n = self.m, self.m.createData(), pin.integrate(self.m, self.q, dq), self.n
        pin.framesForwardKinematics(k.m, k.d, k.q)
        pin.computeJointJacobians(k.m, k.d, k.q)
        return k


ROT = [np.eye(3), R.rpy(.3, -.2, .5), R.rpy(-1.1, .8, 2.4), R.rpy(0, 0, -1.3), R.rpy(2.9, .1, .4)]
POS = [np.zeros(3), np.array([.4, .1, .3]), np.array([-.3, .5, .9]), np.array([.05, -.02, .01])]
CUSTOM = R.rpy(.7, -.4, 1.2)


def rot(r):
    """a rotation, given by its index in ROT or as a matrix"""
    return ROT[r] if isinstance(r, int) else np.array(r)


def apply_mask(spec, M, local=None):
    if not spec:
        return M
    axes, frame = spec
    M = {"task": np.eye(3), "world": np.eye(3), "local": np.eye(3) if local is None else local, "custom": CUSTOM}[frame] @ M
    return M[["xyz".index(c) for c in axes]]


def set_mask(task, spec):
    if spec:
        if spec[1] == "custom":
            task.mask.R_custom_world = CUSTOM
        task.mask.set_axises(spec[0], spec[1])


def log3(Rm):
    return pin.log3(Rm)


def make(solver, s):
    """creates the task described by s on the solver; returns the list of elementary tasks"""
    k = s["t"]
    if k == "position":
        t = solver.add_position_task(s["f"], np.array(s["p"]))
    elif k == "orientation":
        t = solver.add_orientation_task(s["f"], rot(s["r"]))
    elif k == "frame":
        t = solver.add_frame_task(s["f"], R.T(rot(s["r"]), s["p"]))
        return t
    elif k == "relative_position":
        t = solver.add_relative_position_task(s["f"], s["g"], np.array(s["p"]))
    elif k == "relative_orientation":
        t = solver.add_relative_orientation_task(s["f"], s["g"], rot(s["r"]))
    elif k == "relative_frame":
        t = solver.add_relative_frame_task(s["f"], s["g"], R.T(rot(s["r"]), s["p"]))
        return t
    elif k == "com":
        t = solver.add_com_task(np.array(s["p"]))
    elif k == "axisalign":
        t = solver.add_axisalign_task(s["f"], np.array(s["ax"], float), np.array(s["tg"], float))
    elif k == "joints":
        t = solver.add_joints_task()
        if s.get("dict"):
            t.set_joints({a: b for a, b in s["j"]})
        else:
            for a, b in s["j"]:
                t.set_joint(a, b)
    elif k == "gear":
        t = solver.add_gear_task()
        for how, tgt, src, ratio in s["g"]:
            (t.set_gear if how == "set" else t.add_gear)(tgt, src, ratio)
    elif k == "wheel":
        t = solver.add_wheel_task(s["f"], s["radius"], s["omni"])
        if s.get("surface"):
            t.T_world_surface = R.BASES[s["surface"]]
    elif k == "distance":
        t = solver.add_distance_task(s["f"], s["g"], s["d"])
    elif k == "momentum":
        t = solver.add_centroidal_momentum_task(np.array(s["p"]))
    elif k == "regularization":
        t = solver.add_regularization_task(s["w"])
        for a, b in s.get("j", []):
            t.set_joint_weight(a, b)
    elif k == "manipulability":
        t = solver.add_manipulability_task(s["f"], s["type"], s["lam"])
        t.minimize = s.get("min", False)
    elif k == "kinetic":
        t = solver.add_kinetic_energy_regularization_task(s["w"])
    else:
        raise ValueError(k)
    set_mask(t, s.get("mask"))
    return t


def construct(nm, s):
    """the same task, built by the user and not by the solver; None when there is no such constructor"""
    m, k = R.ref_model(nm), s["t"]
    f = m.getFrameId(s["f"]) if "f" in s and k != "wheel" else None
    g = m.getFrameId(s["g"]) if isinstance(s.get("g"), str) else None
    v = lambda n: np.array(s[n], float)
    t = {"position": lambda: placo.PositionTask(f, v("p")), "orientation": lambda: placo.OrientationTask(f, rot(s["r"])),
         "relative_position": lambda: placo.RelativePositionTask(f, g, v("p")),
         "relative_orientation": lambda: placo.RelativeOrientationTask(f, g, rot(s["r"])),
         "com": lambda: placo.CoMTask(v("p")), "axisalign": lambda: placo.AxisAlignTask(f, v("ax"), v("tg")),
         "joints": lambda: placo.JointsTask(), "gear": lambda: placo.GearTask(),
         "wheel": lambda: placo.WheelTask(s["f"], s["radius"], s["omni"]), "distance": lambda: placo.DistanceTask(f, g, s["d"]),
         "momentum": lambda: placo.CentroidalMomentumTask(v("p")), "regularization": lambda: placo.RegularizationTask(),
         "kinetic": lambda: placo.KineticEnergyRegularizationTask()}.get(k)
    if t is None:
        return None
    t = t()
    if k in ("joints", "regularization"):
        retarget(t, s)
    elif k == "wheel" and s.get("surface"):
        t.T_world_surface = R.BASES[s["surface"]]
    set_mask(t, s.get("mask"))
    return t


OTHER_P, OTHER_AX = [.7, -.9, .2], [.3, .5, -.8]


def nudged(s, e=3e-5):
    """a task of the same kind about the same bodies, with nearly the same targets"""
    o, k = dict(s), s["t"]
    if "p" in s:
        o["p"] = (np.array(s["p"], float) + [e, -e, e]).tolist()
    if "r" in s:
        o["r"] = rot(s["r"]) @ R.rpy(e, -e, e)
    if k == "axisalign":
        o["ax"], o["tg"] = (np.array(s["ax"], float) + [e, -e, e]).tolist(), (np.array(s["tg"], float) + [-e, e, e]).tolist()
    if k == "joints":
        o["j"] = [[a, b + e] for a, b in s["j"]]
    if k == "gear":
        o["g"] = [["add", tgt, src, ratio + e] for how, tgt, src, ratio in s["g"] if how == "set" or all(x[0] == "add" or x[1] != tgt for x in s["g"])]
    if k == "distance":
        o["d"] = s["d"] + e
    if k == "regularization":
        o["w"], o["j"] = s["w"] * (1 + e), [[a, b + e] for a, b in s.get("j", [])]
    if k == "manipulability":
        o["lam"] = s["lam"] + e
    return o


def other(s):
    """a task of the same kind about the same bodies, with other targets"""
    o, k = dict(s), s["t"]
    if "p" in s:
        o["p"] = OTHER_P
    if "r" in s:
        o["r"] = R.rpy(-.4, 1.1, .9)
    if k == "axisalign":
        o["ax"], o["tg"] = OTHER_AX, OTHER_P
    if k == "joints":
        o["j"] = [[a, b + .37] for a, b in s["j"]]
    if k == "gear":
        o["g"] = [["add", tgt, src, ratio + 3.] for how, tgt, src, ratio in s["g"] if how == "set" or all(x[0] == "add" or x[1] != tgt for x in s["g"])]
    if k == "wheel":
        o["surface"] = 2
    if k == "distance":
        o["d"] = s["d"] + .4
    if k == "regularization":
        o["w"], o["j"] = 7., [[a, b + 2.] for a, b in s.get("j", [])]
    if k == "manipulability":
        o["lam"], o["min"] = s["lam"] + .7, not s.get("min", False)
    return o


def retarget(t, s):
    """gives an existing task the targets of s"""
    k = s["t"]
    if k in ("position", "com"):
        t.target_world = np.array(s["p"], float)
    elif k == "orientation":
        t.R_world_frame = rot(s["r"])
    elif k == "frame":
        t.T_world_frame = R.T(rot(s["r"]), s["p"])
    elif k == "relative_position":
        t.target = np.array(s["p"], float)
    elif k == "relative_orientation":
        t.R_a_b = rot(s["r"])
    elif k == "relative_frame":
        t.T_a_b = R.T(rot(s["r"]), s["p"])
    elif k == "axisalign":
        t.axis_frame, t.targetAxis_world = np.array(s["ax"], float), np.array(s["tg"], float)
    elif k == "joints":
        for a, b in s["j"]:
            t.set_joint(a, b)
    elif k == "gear":
        for how, tgt, src, ratio in s["g"]:
            (t.set_gear if how == "set" else t.add_gear)(tgt, src, ratio)
    elif k == "wheel":
        t.T_world_surface = R.BASES[s.get("surface", 0)]
    elif k == "distance":
        t.distance = s["d"]
    elif k == "momentum":
        t.L_world = np.array(s["p"], float)
    elif k == "regularization":
        t.set_weight(s["w"])
        for a, b in s.get("j", []):
            t.set_joint_weight(a, b)
    elif k == "manipulability":
        t.lambda_, t.minimize = s["lam"], s.get("min", False)


def readback(t, s, nm, ctx):
    """what a task says about itself"""
    m, k = R.ref_model(nm), s["t"]
    want = {"position": lambda: [("frame_index", m.getFrameId(s["f"])), ("target_world", s["p"])],
            "orientation": lambda: [("frame_index", m.getFrameId(s["f"])), ("R_world_frame", rot(s["r"]))],
            "relative_position": lambda: [("frame_a", m.getFrameId(s["f"])), ("frame_b", m.getFrameId(s["g"])), ("target", s["p"])],
            "relative_orientation": lambda: [("frame_a", m.getFrameId(s["f"])), ("frame_b", m.getFrameId(s["g"])), ("R_a_b", rot(s["r"]))],
            "frame": lambda: [("T_world_frame", R.T(rot(s["r"]), s["p"]))], "relative_frame": lambda: [("T_a_b", R.T(rot(s["r"]), s["p"]))],
            "com": lambda: [("target_world", s["p"])],
            "axisalign": lambda: [("frame_index", m.getFrameId(s["f"])), ("axis_frame", s["ax"]), ("targetAxis_world", s["tg"])],
            "wheel": lambda: [("radius", s["radius"]), ("omniwheel", s["omni"]), ("T_world_surface", R.BASES[s.get("surface", 0)])],
            "distance": lambda: [("frame_a", m.getFrameId(s["f"])), ("frame_b", m.getFrameId(s["g"])), ("distance", s["d"])],
            "momentum": lambda: [("L_world", s["p"])],
            "manipulability": lambda: [("lambda_", s["lam"]), ("minimize", s.get("min", False))]}.get(k, list)()
    for n, v in want:
        ctx.close(np.array(getattr(t, n), float), np.array(v, float), "%s: %s read back" % (k, n), 1e-12)
    if k == "joints":
        for a, b in dict(map(tuple, s["j"])).items():
            ctx.close(t.get_joint(a), b, "joints: target read back", 1e-12)
    if k == "wheel":
        ctx.ok(t.joint == s["f"], "wheel: joint read back", t.joint)


def expected(s, kin, dt):
    """(A, b) of an elementary task; tasks made of two parts return both"""
    k, mk = s["t"], s.get("mask")
    if k == "position":
        T = kin.T(s["f"])
        return apply_mask(mk, kin.Jp(s["f"]), T.rotation.T), apply_mask(mk, np.array(s["p"]) - T.translation, T.rotation.T)
    if k == "orientation":
        T = kin.T(s["f"])
        Rt = rot(s["r"])
        return apply_mask(mk, kin.Jw(s["f"]), Rt.T), apply_mask(mk, log3(Rt @ T.rotation.T), Rt.T)
    if k == "relative_position":
        a, b = kin.T(s["f"]), kin.T(s["g"])
        return apply_mask(mk, kin.Jrelpos(s["f"], s["g"])), apply_mask(mk, np.array(s["p"]) - a.rotation.T @ (b.translation - a.translation))
    if k == "relative_orientation":
        a, b = kin.T(s["f"]), kin.T(s["g"])
        Rab = a.rotation.T @ b.rotation
        return apply_mask(mk, a.rotation.T @ (kin.Jw(s["g"]) - kin.Jw(s["f"]))), apply_mask(mk, log3(rot(s["r"]) @ Rab.T))
    if k == "com":
        return apply_mask(mk, kin.Jcom()), apply_mask(mk, np.array(s["p"]) - kin.com())
    if k == "axisalign":
        a = kin.T(s["f"]).rotation @ np.array(s["ax"], float)
        a = a / np.linalg.norm(a)
        t = np.array(s["tg"], float)
        t = t / np.linalg.norm(t)
        z = np.cross(a, t)
        th = np.arctan2(np.linalg.norm(z), a @ t)
        P = np.eye(3) - np.outer(a, a)
        b = th * z / np.linalg.norm(z) if np.linalg.norm(z) > 1e-9 else np.zeros(3)
        return P @ kin.Jw(s["f"]), b
    if k == "joints":
        A, b = [], []
        for n, v in dict(map(tuple, s["j"])).items():
            r = np.zeros(kin.n)
            r[kin.iv(n)] = 1
            A.append(r)
            b.append(v - kin.q[kin.iq(n)])
        return np.array(A).reshape(-1, kin.n), np.array(b)
    if k == "gear":
        g = {}
        for how, tgt, src, ratio in s["g"]:
            if how == "set":
                g[tgt] = {}
            g.setdefault(tgt, {})[src] = ratio
        A, b = [], []
        for tgt, srcs in g.items():
            r = np.zeros(kin.n)
            r[kin.iv(tgt)] += 1
            e = -kin.q[kin.iq(tgt)]
            for src, ratio in srcs.items():
                r[kin.iv(src)] -= ratio
                e += ratio * kin.q[kin.iq(src)]
            A.append(r)
            b.append(e)
        return np.array(A).reshape(-1, kin.n), np.array(b)
    if k == "wheel":
        Ts = R.BASES[s.get("surface", 0)]
        T = kin.T(s["f"])
        zs = Ts[:3, 2]
        ax = T.rotation[:, 2]
        down = -zs + ax * (ax @ zs)
        down /= np.linalg.norm(down)
        c = T.translation + s["radius"] * down
        # velocity of the point of the wheel at the contact
        J = kin.Jp(s["f"]) - pin.skew(c - T.translation) @ kin.Jw(s["f"])
        x = np.cross(ax, zs)
        x /= np.linalg.norm(x)
        h = zs @ (c - Ts[:3, 3])
        rows = [x @ J, zs @ J] + ([] if s["omni"] else [np.cross(zs, x) @ J])
        return np.array(rows), np.array([0., -h] + ([] if s["omni"] else [0.]))
    if k == "distance":
        v = kin.T(s["g"]).translation - kin.T(s["f"]).translation
        n = np.linalg.norm(v)
        return (v / n @ (kin.Jp(s["g"]) - kin.Jp(s["f"]))).reshape(1, -1), np.array([s["d"] - n])
    if k == "momentum":
        Ag = pin.computeCentroidalMap(kin.m, kin.m.createData(), kin.q)
        return apply_mask(mk, Ag[3:]) / dt, apply_mask(mk, np.array(s["p"]))
    if k == "regularization":
        w = np.full(kin.n, float(s["w"]))
        for a, b in s.get("j", []):
            w[kin.iv(a)] = b
        w[:6] = 0
        return np.diag(np.sqrt(w)), np.zeros(kin.n)
    if k == "kinetic":
        L = np.linalg.cholesky(kin.mass())
        return L.T / (np.sqrt(2) * dt), np.zeros(kin.n)
    if k == "manipulability":
        sel = {"position": slice(0, 3), "orientation": slice(3, 6), "both": slice(0, 6)}[s["type"]]

        def manip(kk):
            J = kk.J(s["f"], pin.LOCAL)[sel, 6:]
            return np.sqrt(max(0., np.linalg.det(J @ J.T)))
        g = np.zeros(kin.n - 6)
        for i in range(6, kin.n):
            e = np.zeros(kin.n)
            e[i] = 1e-5
            g[i - 6] = (manip(kin.at(e)) - manip(kin.at(-e))) / 2e-5
        if s.get("min"):
            g = -g
        I = np.eye(kin.n)[6:]
        return I * s["lam"], g / (2 * s["lam"])
    raise ValueError(k)


def parts(s):
    """elementary specs of a composite task"""
    if s["t"] == "frame":
        return [dict(s, t="position"), dict(s, t="orientation")]
    if s["t"] == "relative_frame":
        return [dict(s, t="relative_position"), dict(s, t="relative_orientation")]
    return [s]


def elementary(t, s):
    if s["t"] in ("frame", "relative_frame"):
        return [t.position(), t.orientation()]
    return [t]
