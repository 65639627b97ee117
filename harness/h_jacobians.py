"""P11: Jacobians, their time variations and Hessians against differentiated forward kinematics."""
import numpy as np
import pinocchio as pin
import placo
try:
    import placo_cxx_robot as cxx  # C++ functions which are not bound to Python (see lib/shim_robot.cpp)
except ImportError:
    cxx = None
import robots as R

BOUNDS = {
    "quick": "tree(6 dof): 4 bases x 4 joint configurations x every frame and joint x 3 references; MJCF, quadruped and humanoid: 2 x 3 configurations",
    "thorough": "tree, MJCF, duo: 4 bases x 8 joint configurations x every frame, joint, pair of frames; quadruped and humanoid: 4 x 4",
}
REFS = ["local", "world", "local_world_aligned"]


def cases(tier):
    deep = tier == "thorough"
    plan = [("duo", 4, 8 if deep else 3), ("tree", 4, 8 if deep else 4), ("mjcf", 4, 8 if deep else 3),
            ("quadruped", 4 if deep else 2, 4 if deep else 2), ("sigmaban_rw", 4 if deep else 2, 4 if deep else 2)]
    for nm, nb, nj in plan:
        m = R.ref_model(nm)
        frames = [f.name for f in m.frames]
        frames = [f for f in frames if frames.count(f) == 1]
        if nm in ("quadruped", "sigmaban_rw") and not deep:
            frames = [f for f in frames if m.frames[m.getFrameId(f)].type != pin.FrameType.JOINT][::3]
        for b in range(nb):
            for k in range(nj):
                for f in frames:
                    yield {"k": "frame", "robot": nm, "b": b, "j": k, "f": f}
                for j in range(2, m.njoints):
                    yield {"k": "joint", "robot": nm, "b": b, "j": k, "f": m.names[j]}
                for x in range(len(frames)):
                    if deep and nm in ("tree", "duo", "mjcf"):
                        other = range(len(frames))
                    else:
                        other = ((x + 1) % len(frames), (x * 2 + 3) % len(frames))
                    for y in other:
                        yield {"k": "rel", "robot": nm, "b": b, "j": k, "f": frames[x], "g": frames[y]}
                yield {"k": "com", "robot": nm, "b": b, "j": k}


def setup(case):
    nm = case["robot"]
    r, m = R.shared(nm), R.ref_model(nm)
    v = R.vel_vec(m.nv, 1 + (case["j"] + case["b"]) % 3)
    R.set_config(r, R.BASES[case["b"]], R.joint_vec(nm, case["j"]), v)
    return nm, r, m, np.array(r.state.q), v


class FK:
    def __init__(self, m):
        self.m, self.d = m, m.createData()

    def frame(self, q, i):
        pin.framesForwardKinematics(self.m, self.d, q)
        return self.d.oMf[i].copy()

    def joint(self, q, i):
        pin.forwardKinematics(self.m, self.d, q)
        return self.d.oMi[i].copy()

    def com(self, q):
        return pin.centerOfMass(self.m, self.d, q).copy()


def local_jacobian(m, f, q, h=1e-5):
    """6 x nv body twist per unit velocity, by central differences of the placement f(q)"""
    J = np.zeros((6, m.nv))
    T0 = f(q)
    for k in range(m.nv):
        e = np.zeros(m.nv); e[k] = h
        J[:, k] = (pin.log6(T0.inverse() * f(pin.integrate(m, q, e))).vector - pin.log6(T0.inverse() * f(pin.integrate(m, q, -e))).vector) / (2 * h)
    return J, T0


def to_ref(J, T, ref):
    if ref == "local":
        return J
    if ref == "world":
        return T.toActionMatrix() @ J
    return np.block([[T.rotation, np.zeros((3, 3))], [np.zeros((3, 3)), T.rotation]]) @ J


def exact(m, fk, kind, i, q, ref):
    """closed form Jacobian of the reference model (only used to differentiate in time)"""
    d = fk.d
    rf = {"local": pin.LOCAL, "world": pin.WORLD, "local_world_aligned": pin.LOCAL_WORLD_ALIGNED}[ref]
    if kind == "frame":
        return pin.computeFrameJacobian(m, d, q, i, rf).copy()
    pin.computeJointJacobians(m, d, q)
    return pin.getJointJacobian(m, d, i, rf).copy()


def run(case, ctx):
    nm, r, m, q, v = setup(case)
    fk = FK(m)
    ctx.state(nm, case["b"], case["j"], case.get("f"), case.get("g"), case["k"])
    h = 1e-6
    qp, qm = pin.integrate(m, q, v * h), pin.integrate(m, q, -v * h)
    if case["k"] in ("frame", "joint"):
        isf = case["k"] == "frame"
        i = m.getFrameId(case["f"]) if isf else m.getJointId(case["f"])
        J, T = local_jacobian(m, (lambda x: fk.frame(x, i)) if isf else (lambda x: fk.joint(x, i)), q)
        for ref in REFS:
            got = r.frame_jacobian(case["f"], ref) if isf else r.joint_jacobian(case["f"], ref)
            ctx.close(got, to_ref(J, T, ref), "%s Jacobian of %s in %s" % (case["k"], case["f"], ref), 2e-7, 1e-7)
            ctx.step()
            if isf or cxx:
                dJ = (exact(m, fk, case["k"], i, qp, ref) - exact(m, fk, case["k"], i, qm, ref)) / (2 * h)
                got = r.frame_jacobian_time_variation(case["f"], ref) if isf else cxx.joint_jacobian_time_variation(r, case["f"], ref)
                ctx.close(got, dJ, "time variation of the Jacobian of %s in %s" % (case["f"], ref), 5e-7, 1e-7)
        if isf:
            r.compute_hessians()
            for j in range(2, m.njoints):
                k = m.joints[j].idx_v
                e = np.zeros(m.nv); e[k] = h
                H = (exact(m, fk, "frame", i, pin.integrate(m, q, e), "local") - exact(m, fk, "frame", i, pin.integrate(m, q, -e), "local")) / (2 * h)
                ctx.close(r.get_frame_hessian(case["f"], m.names[j]), H, "Hessian of %s along %s" % (case["f"], m.names[j]), 5e-7, 1e-7)
                ctx.step()
    elif case["k"] == "rel":
        a, b = m.getFrameId(case["f"]), m.getFrameId(case["g"])
        f = lambda x: (fk.frame(x, a).inverse() * fk.frame(x, b)).translation.copy()
        J = np.zeros((3, m.nv))
        for k in range(m.nv):
            e = np.zeros(m.nv); e[k] = 1e-5
            J[:, k] = (f(pin.integrate(m, q, e)) - f(pin.integrate(m, q, -e))) / 2e-5
        ctx.close(r.relative_position_jacobian(case["f"], case["g"]), J, "relative position Jacobian of %s in %s" % (case["g"], case["f"]), 2e-7, 1e-7)
        ctx.step()
    else:
        J = np.zeros((3, m.nv))
        for k in range(m.nv):
            e = np.zeros(m.nv); e[k] = 1e-5
            J[:, k] = (fk.com(pin.integrate(m, q, e)) - fk.com(pin.integrate(m, q, -e))) / 2e-5
        ctx.close(r.com_world(), fk.com(q), "CoM position", 1e-9)
        ctx.close(r.com_jacobian(), J, "CoM Jacobian", 2e-7, 1e-7)
        dJ = (pin.jacobianCenterOfMass(m, fk.d, qp).copy() - pin.jacobianCenterOfMass(m, fk.d, qm).copy()) / (2 * h)
        ctx.close(r.com_jacobian_time_variation(), dJ, "CoM Jacobian time variation", 5e-7, 1e-7)
        # centroidal momentum, summed body per body
        A = np.zeros((6, m.nv))
        pin.forwardKinematics(m, fk.d, q)
        pin.computeJointJacobians(m, fk.d, q)
        c = pin.centerOfMass(m, fk.d, q).copy()
        for i in range(1, m.njoints):
            Ji = pin.getJointJacobian(m, fk.d, i, pin.LOCAL)
            X = (pin.SE3(np.eye(3), c).inverse() * fk.d.oMi[i])
            A += np.linalg.inv(X.toActionMatrix()).T @ m.inertias[i].matrix() @ Ji
        ctx.close(r.centroidal_map(), A, "centroidal map", 1e-8, 1e-8)
        ctx.step(4)
    ctx.trace()
