"""P30: a humanoid stands on its current support whatever happened before; its balance quantities are the mechanical ones."""
import itertools
import numpy as np
import pinocchio as pin
import placo
import robots as R
import walkref as W
from mc import pumped, sequences
from walkref import vec
try:
    import placo_cxx_robot as cxx  # C++ functions which are not bound to Python (see lib/shim_robot.cpp)
except ImportError:
    cxx = None

BOUNDS = {
    "quick": "2 humanoids (20 and 7 joints) x all sequences of <= 4 (small) or <= 3 operations out of 10 (switch support by side or frame, place on the floor, orient from the trunk or the IMU, move joints or base, with or without an update, relocate the support); balance quantities: 2 humanoids x 4 bases x 4 postures x 3 velocities x 3 supports x 3 trunk rotations; torques x 4 contact force vectors x 3 accelerations; camera (above or below the axis of the head) aimed at 84 targets x 4 bases x 4 postures",
    "thorough": "sequences of <= 5 / 4 operations, 6 postures, 4 velocities",
}
OPS = ["left", "right", "corner", "floor", "oriented", "imu", "joints", "base", "relocate", "stale"]
LEVER = 3.35e-2    # distance from the camera to the axis of the head
ROT = [R.rpy(0, 0, 0), R.rpy(.2, -.3, 1.2), R.rpy(-.5, .1, -2.9)]


def cases(tier):
    deep = tier == "thorough"
    for s in sequences(OPS, 5 if deep else 4, 1):
        yield {"k": "hist", "robot": "biped", "ops": s}
        if len(s) <= (4 if deep else 3):
            yield {"k": "hist", "robot": "sigmaban", "ops": s}
    for s in pumped(OPS, 6):
        yield {"k": "hist", "robot": "biped", "ops": s}
    for s in pumped(OPS, 4, 3) if deep else []:
        yield {"k": "hist", "robot": "biped", "ops": s}
    for b, j in itertools.product(range(4), range(4)):
        if cxx:
            yield {"k": "look", "b": b, "j": j, "low": 0}
            yield {"k": "look", "b": b, "j": j, "low": 1}
    for nm in ("biped", "sigmaban"):
        for b, j, v in itertools.product(range(4), range(6 if deep else 4), range(4 if deep else 3)):
            yield {"k": "balance", "robot": nm, "b": b, "j": j, "v": v}
            if nm == "biped":
                yield {"k": "torques", "robot": nm, "b": b, "j": j, "v": v}


def look(case, ctx):
    """aiming the camera: the target ends up on its optical axis, in front of it"""
    r = R.shared("low_camera" if case["low"] else "sigmaban")
    nv = len(r.state.qd)
    R.set_config(r, R.BASES[case["b"]], R.joint_vec("sigmaban", case["j"]), np.zeros(nv))
    H = np.array(r.get_T_world_frame("head_base"))
    tilt_axis = np.array(r.get_T_world_frame("head_pitch"))[:3, 3]
    arm = (np.linalg.inv(H) @ np.array(r.get_T_world_frame("head_pitch")))[2, 3]
    st = [np.array(x) for x in (r.state.q, r.state.qd, r.state.qdd)]
    near = [(d * np.cos(e) * np.cos(p), d * np.cos(e) * np.sin(p), arm + d * np.sin(e))
            for d in (.99 * LEVER, .997 * LEVER, 1.003 * LEVER, 1.015 * LEVER) for e in (-1., .2, 1.1) for p in (0., 2.)]
    for t in list(itertools.product((-1.3, -.02, .3, 2.), (-.7, .01, 1.1), (-1.2, -.1, arm + .02, arm + .4, 1.5))) + near:
        r.state.q = st[0].copy()
        r.update_kinematics()
        P = (H @ np.append(t, 1.))[:3]
        ok, pan, tilt = cxx.camera_look_at(r, P)
        ctx.step()
        ctx.state("look", case["b"], case["j"], t)
        ctx.ok(np.array_equal(r.state.q, st[0]), "aiming the camera moved the robot")
        plane = np.hypot(np.hypot(t[0], t[1]), t[2] - arm)
        if plane < LEVER * (1 - 1e-5):
            ctx.ok(not ok, "a target inside of the head can not be looked at", t)
        elif plane > LEVER * (1 + 1e-5):
            ctx.ok(ok, "a reachable target is refused", t)
            r.set_joint("head_yaw", pan)
            r.set_joint("head_pitch", tilt)
            r.update_kinematics()
            v = np.linalg.inv(r.get_T_world_frame("camera")) @ np.append(P, 1.)
            ctx.close(v[:2], [0., 0.], "target %s seen off the centre of the camera" % (t,), 1e-9)
            if plane > .1:
                ctx.ok(v[2] > 0, "target behind the camera", t)
    r.state.q = st[0]
    ctx.trace()


def place(m, q, frame, T):
    """configuration q with its base moved so that frame is at T"""
    d = m.createData()
    pin.framesForwardKinematics(m, d, q)
    base = d.oMi[1].homogeneous
    F = d.oMf[m.getFrameId(frame)].homogeneous
    nb = T @ np.linalg.inv(F) @ base
    out = q.copy()
    out[:3] = nb[:3, 3]
    out[3:7] = pin.Quaternion(nb[:3, :3]).coeffs()
    return out


def frame(m, q, name):
    d = m.createData()
    pin.framesForwardKinematics(m, d, q)
    return d.oMf[m.getFrameId(name)].homogeneous


def flatten(M):
    # keep the position on the floor and the direction of the x axis in the plane
    z = M[:3, :3]
    y = np.arctan2(z[1, 0], z[0, 0])
    return W.T2(M[0, 3], M[1, 3], y)


def run(case, ctx):
    {"hist": hist, "balance": balance, "torques": torques, "look": look}[case["k"]](case, ctx)


def hist(case, ctx):
    nm = case["robot"]
    m = R.ref_model(nm)
    r = R.make(nm)
    corner = "left_ps_1" if nm == "biped" else "trunk"
    sup, side, Ts = "left_foot", W.L, np.eye(4)
    q = place(m, np.concatenate([pin.neutral(m)[:7], np.array(r.state.q)[7:]]), sup, Ts)
    ctx.close(frame(m, np.array(r.state.q), "left_foot"), np.eye(4), "a new humanoid stands on its left foot", 1e-9)
    for i, op in enumerate(case["ops"]):
        ctx.step()
        if op == "stale":   # joints are changed, and nothing is updated before the robot is placed again
            q[7:] = R.joint_vec(nm, 1 + (i + 1) % 3)
            c = np.array(r.state.q)
            c[7:] = q[7:]
            r.state.q = c
            op = ["floor", "oriented", "imu"][(i + len(case["ops"])) % 3]
        if op in ("left", "right", "corner"):
            f = {"left": "left_foot", "right": "right_foot", "corner": corner}[op]
            if op == "corner":
                r.update_support_side_with_frame("left", f)
            else:
                r.update_support_side(op)
            if f != sup:
                sup, side = f, (W.R if op == "right" else W.L)
                Ts = flatten(frame(m, q, sup))
        elif op == "floor":
            r.ensure_on_floor()
            q = place(m, q, sup, Ts)
        elif op in ("oriented", "imu"):
            Rt = ROT[1 + i % 2]
            (r.ensure_on_floor_oriented if op == "oriented" else r.update_from_imu)(Rt)
            rel = frame(m, q, "trunk")[:3, :3].T @ frame(m, q, sup)[:3, :3]
            Ts = Ts.copy()
            Ts[:3, :3] = Rt @ rel
            q = place(m, q, sup, Ts)
            ctx.close(np.array(r.get_T_world_trunk())[:3, :3], Rt, "trunk orientation after %s" % case["ops"][:i + 1], 1e-8)
        elif op == "joints":
            x = R.joint_vec(nm, 1 + i % 3)
            q[7:] = x
            c = np.array(r.state.q)
            c[7:] = x
            r.state.q = c
            r.update_kinematics()
        elif op == "base":
            M = R.BASES[1 + i % 3]
            r.set_T_world_fbase(M)
            r.update_kinematics()
            d = m.createData()
            pin.forwardKinematics(m, d, q)
            q[:3] = M[:3, 3]
            q[3:7] = pin.Quaternion(M[:3, :3].copy()).coeffs()
        elif op == "relocate":
            Ts = W.T2(.3, -.1 * i, .7)
            Ts[2, 3] = .08
            r.set_T_world_support(Ts)
        label = "after %s" % case["ops"][:i + 1]
        ctx.ok(r.support_side == side and r.get_support_side() == side, label + ": support side", r.support_side, side)
        ctx.close(np.array(r.get_T_world_support()), Ts, label + ": support pose", 1e-8)
        for nme, get in (("left_foot", r.get_T_world_left), ("right_foot", r.get_T_world_right), ("trunk", r.get_T_world_trunk)):
            ctx.close(np.array(get()), frame(m, q, nme), label + ": pose of " + nme, 1e-8)
        ctx.close(np.array(r.state.q)[7:], q[7:], label + ": joints", 1e-12)
        ctx.state(nm, sup, np.round(q, 6).tolist(), np.round(Ts, 6).tolist())
    ctx.trace()


def balance(case, ctx):
    nm = case["robot"]
    m, r = R.ref_model(nm), R.shared(nm)
    v = R.vel_vec(m.nv, case["v"])
    R.set_config(r, R.BASES[case["b"]], R.joint_vec(nm, case["j"]), v)
    corner = "left_ps_1" if nm == "biped" else "left_foot_asm"
    q = np.array(r.state.q)
    ctx.state(*case.values())
    d = m.createData()
    com = pin.centerOfMass(m, d, q)
    for om in (3., 5.5):
        for u in ([0, 0], [.3, -.1], [-1., 2.]):
            ctx.close(vec(r.dcm(om, np.array(u, float))), com[:2] + np.array(u) / om, "DCM", 1e-9)
            ctx.close(vec(r.zmp(om, np.array(u, float))), com[:2] - np.array(u) / om**2, "ZMP", 1e-9)
            ctx.step(2)
    h = 1e-6
    for cur, feet in (("left", ("left_foot", "right_foot")), ("right", ("left_foot", "right_foot")), ("heel", (corner, "right_foot"))):
        if cur == "heel":
            r.update_support_side_with_frame("left", corner)
        else:
            r.update_support_side(cur)
        for side, fr in ((W.L, feet[0]), (W.R, feet[1])):
            for w in ([0, 0, 0], [.4, -.2, .9], [-1., .5, .1]):
                w = np.array(w, float)
                # the only base motion for which the support point is still and the trunk rotates at w (trunk frame)
                pin.computeJointJacobians(m, d, q)
                pin.framesForwardKinematics(m, d, q)
                Jf = pin.getFrameJacobian(m, d, m.getFrameId(fr), pin.LOCAL_WORLD_ALIGNED)[:3]
                Jt = pin.getFrameJacobian(m, d, m.getFrameId("trunk"), pin.LOCAL)[3:]
                A = np.vstack([Jf, Jt])
                vb = np.linalg.solve(A[:, :6], np.concatenate([np.zeros(3), w]) - A[:, 6:] @ v[6:])
                full = np.concatenate([vb, v[6:]])
                want = (pin.centerOfMass(m, m.createData(), pin.integrate(m, q, full * h)) - pin.centerOfMass(m, m.createData(), pin.integrate(m, q, -full * h))) / (2 * h)
                ctx.close(vec(r.get_com_velocity(side, w)), want, "CoM velocity on the %s (current support: %s)" % (fr, cur), 1e-6)
                ctx.step()
    ctx.close(np.array(r.state.q), q, "reading balance quantities moves the robot", 0.)
    ctx.trace()


def torques(case, ctx):
    nm = case["robot"]
    m, r = R.ref_model(nm), R.shared(nm)
    v = R.vel_vec(m.nv, case["v"])
    if case["v"] == 2:
        v[6:] = 0.   # only the base moves
    R.set_config(r, R.BASES[case["b"]], R.joint_vec(nm, case["j"]), v)
    q = np.array(r.state.q)
    ctx.state(*case.values())
    d = m.createData()
    M = pin.crba(m, d, q)
    M = np.triu(M) + np.triu(M, 1).T
    ps = ["left_ps_%d" % i for i in range(4)] + ["right_ps_%d" % i for i in range(4)]
    pin.computeJointJacobians(m, d, q)
    pin.framesForwardKinematics(m, d, q)
    Jt = np.array([d.oMf[m.getFrameId(f)].rotation[:, 2] @ pin.getFrameJacobian(m, d, m.getFrameId(f), pin.LOCAL_WORLD_ALIGNED)[:3] for f in ps]).T
    for fk, a, nle in itertools.product(range(4), range(3), (False, True)):
        f = [np.zeros(8), np.full(8, 6.), np.array([10., 5., 0, 3, 0, 0, 0, 0]), np.arange(8.)][fk]
        acc = R.vel_vec(m.nv - 6, a)
        h = pin.rnea(m, m.createData(), q, v if nle else np.zeros(m.nv), np.zeros(m.nv))
        base = np.linalg.solve(M[:6, :6], (Jt @ f - h)[:6] - M[:6, 6:] @ acc)
        tau = M @ np.concatenate([base, acc]) + h - Jt @ f
        got = vec(r.get_torques(acc, f, nle))
        ctx.close(got, tau, "torques for given contact forces", 1e-7)
        ctx.ok(np.max(np.abs(got[:6])) < 1e-8, "no torque on the floating base")
        dic = r.get_torques_dict(acc, f, nle)
        for jn in range(2, m.njoints):
            ctx.close(dic[m.names[jn]], tau[m.joints[jn].idx_v], "torque of " + m.names[jn], 1e-7)
        ctx.step(2)
    ctx.trace()
