"""P12: mass matrix, gravity, non linear effects, torques, against first principles; P12 also runs histories of gravity / rotor changes."""
import itertools
import numpy as np
import pinocchio as pin
import placo
import robots as R

BOUNDS = {
    "quick": "5 robots x 3-4 bases x 3-4 joint configurations x 3 velocities x 3-4 gravities x 3 rotor/gear settings; fixed frame torques for every frame",
    "thorough": "5 robots x 4 bases x 6 joint configurations x 4 velocities x 4 gravities x 5 rotor/gear settings; fixed frame torques for every frame",
}
GRAV = [(0, 0, -9.81), (0, 0, -1.62), (1.5, -2.5, -9.), (0, 0, 0)]
ROT = [[], [("a", .01, 10.)], [("b", .02, .4), ("a", .001, -50.)], [("c", .005, 0.)], [("a", 0.2, 1.), ("c", .03, 20.)]]
SEL = {"tree": ("j1", "k2", "j3"), "duo": ("q1", "q2", "q2"), "mjcf": ("q1", "q2", "q1"), "quadruped": ("leg1_a", "leg4_c", "leg2_b"),
       "sigmaban_rw": ("left_knee", "head_yaw", "right_elbow")}


def cases(tier):
    deep = tier == "thorough"
    for nm in ("duo", "tree", "mjcf", "quadruped", "sigmaban_rw"):
        small = nm in ("duo", "tree", "mjcf")
        nb, nj = (4, 6) if deep else ((4, 4) if small else (3, 3))
        for b, j, v, g, ro in itertools.product(range(nb), range(nj), range(4 if deep else 3), range(4 if deep or nm in ("duo", "mjcf") else 3), range(5 if deep else 3)):
            yield {"robot": nm, "b": b, "j": j, "v": v, "g": g, "rotor": ro}


def run(case, ctx):
    nm, b, j, kv, g, ro = (case[k] for k in ("robot", "b", "j", "v", "g", "rotor"))
    r = R.make(nm) if ro or g else R.shared(nm)
    m0 = R.ref_model(nm)
    m = m0.copy()
    v = R.vel_vec(m.nv, kv)
    r.set_gravity(np.array(GRAV[g], dtype=float))
    m.gravity.linear = np.array(GRAV[g], dtype=float)
    rotor = np.zeros(m.nv)
    Ir, Gr = np.array(m.rotorInertia), np.array(m.rotorGearRatio)
    for who, inertia, ratio in ROT[ro]:
        n = SEL[nm]["abc".index(who)]
        r.set_rotor_inertia(n, inertia); r.set_gear_ratio(n, ratio)
        k = m.joints[m.getJointId(n)].idx_v
        Ir[k], Gr[k] = inertia, ratio
    rotor = Ir * Gr ** 2
    R.set_config(r, R.BASES[b], R.joint_vec(nm, j), v)
    q = np.array(r.state.q)
    d = m.createData()
    ctx.state(nm, b, j, kv, g, ro)

    # mass matrix: sum of the bodies' kinetic energies
    pin.computeJointJacobians(m, d, q)
    pin.forwardKinematics(m, d, q)
    M = np.diag(rotor + np.array(m.armature))
    for i in range(1, m.njoints):
        J = pin.getJointJacobian(m, d, i, pin.LOCAL)
        M = M + J.T @ m.inertias[i].matrix() @ J
    Mp = r.mass_matrix()
    ctx.close(Mp, M, "mass matrix", 1e-9, 1e-9)
    ctx.close(Mp, Mp.T, "the mass matrix is symmetric", 1e-12)
    ctx.ok(np.min(np.linalg.eigvalsh(Mp)) > 0, "the mass matrix is positive definite")
    ctx.close(r.mass_matrix(), M, "mass matrix asked again", 1e-9, 1e-9)

    # gravity: minus the work of the weight of every body
    gv = np.zeros(m.nv)
    for i in range(1, m.njoints):
        J = pin.getJointJacobian(m, d, i, pin.LOCAL)
        Rw = d.oMi[i].rotation
        c = m.inertias[i].lever
        Jc = Rw @ (J[:3] - pin.skew(c) @ J[3:])
        gv -= m.inertias[i].mass * (Jc.T @ np.array(GRAV[g]))
    ctx.close(r.generalized_gravity(), gv, "generalized gravity", 1e-8, 1e-9)
    # non linear effects: inverse dynamics at zero acceleration
    h = pin.rnea(m, m.createData(), q, v, np.zeros(m.nv))
    ctx.close(r.non_linear_effects(), h, "non linear effects", 1e-8, 1e-9)
    ctx.step(4)
    frames = [f.name for f in m.frames]
    frames = [f for f in frames if frames.count(f) == 1 and m.frames[m.getFrameId(f)].parentJoint > 0]
    frames = frames[::4] if len(frames) > 20 else frames
    for f in frames:
        J = pin.computeFrameJacobian(m, d, q, m.getFrameId(f), pin.LOCAL_WORLD_ALIGNED)
        # static: g = S^T tau + J^T f, tau only on the joints
        fe = np.linalg.solve(J[:, :6].T, gv[:6])
        tau = r.static_gravity_compensation_torques(f)
        ctx.close(tau, gv - J.T @ fe, "static gravity compensation torques on " + f, 1e-7, 1e-9)
        ctx.ok(np.max(np.abs(np.asarray(tau)[:6])) < 1e-6, "no torque on the floating base")
        dic = r.static_gravity_compensation_torques_dict(f)
        for jn in range(2, m.njoints):
            ctx.close(dic[m.names[jn]], np.asarray(tau)[m.joints[jn].idx_v], "torque of " + m.names[jn], 1e-9)
        # prescribed joint accelerations, frame fixed
        a = R.vel_vec(m.nv - 6, 2)
        h_ = 1e-6
        Jp = pin.computeFrameJacobian(m, m.createData(), pin.integrate(m, q, v * h_), m.getFrameId(f), pin.LOCAL_WORLD_ALIGNED)
        Jm = pin.computeFrameJacobian(m, m.createData(), pin.integrate(m, q, -v * h_), m.getFrameId(f), pin.LOCAL_WORLD_ALIGNED)
        dJ = (Jp - Jm) / (2 * h_)
        qdd = np.concatenate([np.linalg.solve(J[:, :6], -(J[:, 6:] @ a + dJ @ v)), a])
        t = M @ qdd + h
        ff = np.linalg.solve(J[:, :6].T, t[:6])
        want = (t - J.T @ ff)[6:]
        ctx.close(r.torques_from_acceleration_with_fixed_frame(a, f), want, "torques with %s fixed" % f, 1e-4, 1e-6)
        dic = r.torques_from_acceleration_with_fixed_frame_dict(a, f)
        for jn in range(2, m.njoints):
            ctx.close(dic[m.names[jn]], want[m.joints[jn].idx_v - 6], "torque of %s" % m.names[jn], 1e-4, 1e-4)
        ctx.step(2)
    if not (ro or g):
        pass
    ctx.trace()
