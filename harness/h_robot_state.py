"""P10: histories of the robot state: set/get of joints, base, frames, limits; integrate; reset; queries are pure."""
import itertools
import numpy as np
import pinocchio as pin
import placo
import robots as R
from mc import Bad, pumped, sequences

BOUNDS = {
    "quick": "all operation sequences of length <= 3 over 19 state operations on the 6-dof tree, <= 2 on MJCF/quadruped/humanoid; "
             "all ordered pairs of 18 queries x 3 configuration changes; every unknown name; all pairs of joint limits of two joints over 4 values",
    "thorough": "all operation sequences of length <= 4 over 19 state operations on the 6-dof tree, <= 3 on MJCF; "
                "all ordered pairs of 18 queries x 6 configuration changes; every unknown name; all pairs of joint limits of two joints over 4 values",
}

NAMES = {"tree": ("j1", "j3", "k2", "tool", "m2"), "mjcf": ("q1", "q2", "q2", "b", "a"), "duo": ("q1", "q2", "q2", "end", "a"),
         "quadruped": ("leg1_a", "leg2_c", "leg4_b", "leg_3", "body"), "sigmaban_rw": ("left_knee", "head_yaw", "right_elbow", "left_foot", "trunk")}
OPS = ["j_a", "j_b", "v_a", "a_c", "base1", "base2", "base4", "frame1", "frame2", "update", "int1", "int2", "reset", "qvec",
       "lim", "vlim", "vlims", "query", "noise"]


class Model:
    def __init__(self, name):
        self.m = R.ref_model(name)
        self.d = self.m.createData()
        self.q = pin.neutral(self.m)
        self.qd = np.zeros(self.m.nv)
        self.qdd = np.zeros(self.m.nv)
        self.sync = self.q.copy()
        self.sync_v = self.qd.copy()
        self.lim, self.vlim, self.tlim = {}, {}, {}
        for j in range(2, self.m.njoints):
            n, k, v = self.m.names[j], self.m.joints[j].idx_q, self.m.joints[j].idx_v
            lo, hi = self.m.lowerPositionLimit[k], self.m.upperPositionLimit[k]
            if lo == 0 and hi == 0:
                lo, hi = -np.finfo(float).max, np.finfo(float).max
            self.lim[n] = (lo, hi)
            self.vlim[n] = self.m.velocityLimit[v]
            self.tlim[n] = self.m.effortLimit[v]

    def idx(self, n):
        j = self.m.getJointId(n)
        return self.m.joints[j].idx_q, self.m.joints[j].idx_v

    def base(self):
        """placement of the base joint for the current q"""
        d = self.m.createData()
        pin.forwardKinematics(self.m, d, self.q)
        return d.oMi[1].homogeneous

    def set_base(self, T):
        P = self.m.jointPlacements[1].inverse() * pin.SE3(T)
        self.q[:7] = pin.SE3ToXYZQUAT(P)

    def frame(self, f, q=None):
        d = self.m.createData()
        pin.framesForwardKinematics(self.m, d, self.sync if q is None else q)
        return d.oMf[self.m.getFrameId(f)].homogeneous


def quat_close(ctx, got, want, msg, tol=1e-9):
    got, want = np.array(got), np.array(want)
    g, w = got[3:7], want[3:7]
    if g @ w < 0:
        got[3:7] = -g
    ctx.close(got, want, msg, tol)


def queries(r, nm):
    a, b, c, f, g = NAMES[nm]
    return [
        ("com_world", lambda: r.com_world()), ("com_jacobian", lambda: r.com_jacobian()),
        ("com_jacobian_time_variation", lambda: r.com_jacobian_time_variation()),
        ("centroidal_map", lambda: r.centroidal_map()), ("mass_matrix", lambda: r.mass_matrix()),
        ("generalized_gravity", lambda: r.generalized_gravity()), ("non_linear_effects", lambda: r.non_linear_effects()),
        ("frame_jacobian", lambda: r.frame_jacobian(f, "local")), ("frame_jacobian_w", lambda: r.frame_jacobian(g, "world")),
        ("frame_jacobian_time_variation", lambda: r.frame_jacobian_time_variation(f, "local_world_aligned")),
        ("joint_jacobian", lambda: r.joint_jacobian(c, "local_world_aligned")),
        ("relative_position_jacobian", lambda: r.relative_position_jacobian(f, g)),
        ("T_world_frame", lambda: r.get_T_world_frame(f)), ("T_a_b", lambda: r.get_T_a_b(f, g)),
        ("static_gravity", lambda: r.static_gravity_compensation_torques(f)),
        ("fixed_frame", lambda: r.torques_from_acceleration_with_fixed_frame(np.arange(len(r.state.qd) - 6) * .1, f)),
        ("hessian", lambda: (r.compute_hessians(), r.get_frame_hessian(f, a))[1]),
        ("distances", lambda: np.array([d.min_distance for d in r.distances()] + [float(len(r.self_collisions(False)))])),
    ]


NQ = 18
LIMS = (-1., 0., .3, 1e3)
UNKNOWN = ["set_joint", "get_joint", "set_joint_velocity", "get_joint_velocity", "set_joint_acceleration", "get_joint_acceleration",
           "get_joint_offset", "get_joint_size", "get_joint_v_offset", "get_joint_v_size", "set_velocity_limit", "set_torque_limit",
           "set_joint_limits", "get_joint_limits", "joint_jacobian", "set_rotor_inertia", "set_gear_ratio", "get_T_world_frame",
           "set_T_world_frame", "get_T_a_b", "get_T_a_b2", "frame_jacobian", "frame_jacobian_time_variation",
           "relative_position_jacobian", "relative_position_jacobian2", "static_gravity_compensation_torques", "hessian_f", "hessian_j",
           "fixed_frame", "fixed_frame_size", "reference", "reference_j", "reference_tv"]


def cases(tier):
    deep = tier == "thorough"
    for nm in ("tree", "mjcf", "quadruped", "sigmaban_rw", "duo"):
        for u in UNKNOWN:
            yield {"k": "unknown", "robot": nm, "what": u}
    for nm, d in (("tree", 4 if deep else 3), ("mjcf", 3 if deep else 2), ("quadruped", 2), ("sigmaban_rw", 2)):
        for s in sequences(OPS, d, 1):
            yield {"k": "hist", "robot": nm, "ops": s}
    for s in pumped(OPS, 6):
        yield {"k": "hist", "robot": "tree", "ops": s}
    for s in pumped(OPS, 5, 3) if deep else []:
        yield {"k": "hist", "robot": "tree", "ops": s}
    for a, b in itertools.product(itertools.product(LIMS, repeat=2), repeat=2):
        if a[0] <= a[1] and b[0] <= b[1]:
            yield {"k": "limits", "robot": "duo", "a": a, "b": b}
    changes = [(0, 0, 1, 1), (1, 1, 2, 2), (1, 2, 1, 1), (1, 1, 0, 0)] + ([(3, 1, 0, 2), (2, 0, 3, 1), (0, 2, 0, 1)] if deep else [])
    for nm in ("tree", "mjcf"):
        for ch in changes:
            for i, j in itertools.product(range(NQ), repeat=2):
                yield {"k": "pure", "robot": nm, "ch": ch, "i": i, "j": j}


def apply(op, r, m, nm):
    a, b, c, f, g = NAMES[nm]
    def ja(n, x): r.set_joint(n, x); m.q[m.idx(n)[0]] = x
    if op == "j_a": ja(a, .45)
    elif op == "j_b": ja(b, -.12)
    elif op == "v_a": r.set_joint_velocity(a, 1.3); m.qd[m.idx(a)[1]] = 1.3
    elif op == "a_c": r.set_joint_acceleration(c, -2.1); m.qdd[m.idx(c)[1]] = -2.1
    elif op in ("base1", "base2", "base4"):
        T = R.BASES[int(op[-1])]
        r.set_T_world_fbase(T); m.set_base(T)
    elif op in ("frame1", "frame2"):
        # documented use: kinematics are up to date
        r.update_kinematics(); m.sync, m.sync_v = m.q.copy(), m.qd.copy()
        fr, T = (f, R.BASES[2]) if op == "frame1" else (g, R.BASES[3])
        r.set_T_world_frame(fr, T)
        m.set_base(T @ np.linalg.inv(m.frame(fr)) @ m.base())
        r.update_kinematics(); m.sync = m.q.copy()
        d = r.get_T_world_frame(fr) - T
        if np.max(np.abs(d)) > 1e-9:
            raise Bad("set_T_world_frame(%s): the frame is not where it was requested (error %g)" % (fr, np.max(np.abs(d))))
    elif op == "update": r.update_kinematics(); m.sync, m.sync_v = m.q.copy(), m.qd.copy()
    elif op in ("int1", "int2"):
        for dt in (.1,) if op == "int1" else (.02, -.05):
            r.integrate(dt); m.qd = m.qd + dt * m.qdd; m.q = pin.integrate(m.m, m.q, m.qd * dt)
    elif op == "reset":
        r.reset(); m.q = pin.neutral(m.m); m.qd = np.zeros(m.m.nv); m.qdd = np.zeros(m.m.nv)
    elif op == "qvec":
        q = np.array(r.state.q); q[7:] = R.joint_vec(nm, 2); r.state.q = q; m.q[7:] = R.joint_vec(nm, 2)
        v = R.vel_vec(m.m.nv, 1); r.state.qd = v.copy(); m.qd = v.copy()
    elif op == "lim": r.set_joint_limits(b, -.2, .25); m.lim[b] = (-.2, .25)
    elif op == "vlim":
        r.set_velocity_limit(a, 7.5); m.vlim[a] = 7.5; r.set_torque_limit(c, 3.25); m.tlim[c] = 3.25
    elif op == "vlims":
        r.set_velocity_limits(1.75)
        for n in m.vlim: m.vlim[n] = 1.75
    elif op == "noise":
        # towards some configuration within the limits: known up to that configuration
        for x in (0., .3):
            r.add_q_noise(x)
            q = np.array(r.state.q)
            for n in m.lim:
                k, (lo, hi) = m.idx(n)[0], m.lim[n]
                if lo == -np.finfo(float).max or hi == np.finfo(float).max:
                    lo, hi = m.q[k], m.q[k]
                if not m.q[k] + x * (lo - m.q[k]) - 1e-9 <= q[k] <= m.q[k] + x * (hi - m.q[k]) + 1e-9:
                    raise Bad("add_q_noise(%g): %s goes from %g to %g with limits %g, %g" % (x, n, m.q[k], q[k], lo, hi))
                m.q[k] = q[k]
    elif op == "query":
        qs = queries(r, nm)
        for k in (4, 6, 5, 2, 16, 17): qs[k][1]()
        # these only work on up to date kinematics: bring them up to date again
        r.update_kinematics(); m.sync, m.sync_v = m.q.copy(), m.qd.copy()
    else: raise ValueError(op)


def run(case, ctx):
    nm = case["robot"]
    if case["k"] == "unknown":
        return unknown(case, ctx)
    if case["k"] == "pure":
        return pure(case, ctx)
    if case["k"] == "limits":
        return limits(case, ctx)
    r, m = R.make(nm), Model(nm)
    names = [m.m.names[j] for j in range(2, m.m.njoints)]
    ctx.ok(list(r.joint_names()) == names, "joint_names()", list(r.joint_names()))
    ctx.ok(list(r.joint_names(True)) == list(m.m.names), "joint_names(True)")
    for op in case["ops"]:
        apply(op, r, m, nm)
        ctx.step()
    ctx.state(nm, np.round(m.q, 9).tolist(), m.qd.tolist(), m.qdd.tolist(), np.round(m.sync, 9).tolist(), sorted(m.lim.items()), sorted(m.vlim.items()))
    quat_close(ctx, r.state.q, m.q, "state.q")
    ctx.close(r.state.qd, m.qd, "state.qd", 1e-10)
    ctx.close(r.state.qdd, m.qdd, "state.qdd", 1e-10)
    rm = r.model
    for n in names:
        k, v = m.idx(n)
        ctx.ok((r.get_joint_offset(n), r.get_joint_v_offset(n), r.get_joint_size(n), r.get_joint_v_size(n)) == (k, v, 1, 1), "offsets of " + n)
        ctx.close(r.get_joint(n), m.q[k], "get_joint(%s)" % n, 1e-10)
        ctx.close(r.get_joint_velocity(n), m.qd[v], "get_joint_velocity(%s)" % n, 1e-10)
        ctx.close(r.get_joint_acceleration(n), m.qdd[v], "get_joint_acceleration(%s)" % n, 1e-10)
        ctx.ok(tuple(r.get_joint_limits(n)) == tuple(m.lim[n]), "limits of " + n, r.get_joint_limits(n))
        ctx.ok(rm.velocityLimit[v] == m.vlim[n] and rm.effortLimit[v] == m.tlim[n], "velocity / effort limits of " + n)
    ctx.close(r.get_T_world_fbase(), m.base(), "get_T_world_fbase", 1e-9)
    d = m.m.createData()
    pin.framesForwardKinematics(m.m, d, m.sync)
    frames = list(r.frame_names())
    ctx.ok(frames == [f.name for f in m.m.frames], "frame_names()")
    for i, f in enumerate(frames):
        if frames.count(f) == 1:
            ctx.close(r.get_T_world_frame(f), d.oMf[i].homogeneous, "get_T_world_frame(%s)" % f, 1e-9)
    a, b = NAMES[nm][3:]
    ctx.close(r.get_T_a_b(a, b), np.linalg.inv(m.frame(a)) @ m.frame(b), "get_T_a_b", 1e-9)
    ctx.close(r.com_world(), pin.centerOfMass(m.m, d, m.sync), "com_world", 1e-9)
    ctx.close(r.total_mass(), sum(i.mass for i in m.m.inertias), "total_mass", 1e-9)
    J = pin.computeFrameJacobian(m.m, d, m.sync, m.m.getFrameId(a), pin.LOCAL)
    ctx.close(r.frame_jacobian(a, "local"), J, "frame_jacobian after the history", 1e-9)
    n = r.neutral_state()
    ctx.close(n.q, pin.neutral(m.m), "neutral_state().q", 1e-12)
    ctx.ok(not np.any(n.qd) and not np.any(n.qdd) and len(n.qd) == m.m.nv, "neutral_state() velocities")
    quat_close(ctx, r.state.q, m.q, "state.q after the queries")
    ctx.trace()


_val = {}


def value(nm, cfg, j):
    key = (nm, tuple(cfg), j)
    if key not in _val:
        r = R.make(nm)
        R.set_config(r, R.BASES[cfg[0]], R.joint_vec(nm, cfg[1]), R.vel_vec(len(r.state.qd), cfg[1]))
        _val[key] = np.array(queries(r, nm)[j][1]())
    return _val[key]


def limits(case, ctx):
    """limits read from the model: those it declares, none when both are zero; limits written are read back"""
    urdf = R.DUO
    for name, (lo, hi) in (("q1", case["a"]), ("q2", case["b"])):
        i = urdf.index('<joint name="%s"' % name)
        urdf = urdf[:i] + urdf[i:].replace('lower="-2" upper="2"', 'lower="%g" upper="%g"' % (lo, hi), 1)
    r = placo.RobotWrapper("", placo.Flags.ignore_collisions, urdf)
    big = np.finfo(float).max
    for name, l in (("q1", case["a"]), ("q2", case["b"])):
        want = (-big, big) if l[0] == l[1] == 0 else tuple(l)
        ctx.ok(tuple(r.get_joint_limits(name)) == want, "limits of a joint declared with %s" % (l,), r.get_joint_limits(name))
        ctx.step()
    for l in itertools.product(LIMS, repeat=2):
        r.set_joint_limits("q2", *l)
        ctx.ok(tuple(r.get_joint_limits("q2")) == l, "joint limits set to %s" % (l,), r.get_joint_limits("q2"))
        ctx.ok(tuple(r.get_joint_limits("q1")) == ((-big, big) if case["a"][0] == case["a"][1] == 0 else tuple(case["a"])), "limits of the other joint")
        ctx.step()
    ctx.state(case["a"], case["b"])
    ctx.trace()


def pure(case, ctx):
    nm, (b0, j0, b1, j1), i, j = case["robot"], case["ch"], case["i"], case["j"]
    r = R.shared(nm)
    qs = queries(r, nm)
    nv = len(r.state.qd)
    for (b, k) in ((b0, j0), (b1, j1)):
        R.set_config(r, R.BASES[b], R.joint_vec(nm, k), R.vel_vec(nv, k))
        st = [np.array(x) for x in (r.state.q, r.state.qd, r.state.qdd)]
        for x in (i, j, i):
            got = qs[x][1]()
            ctx.step()
            if x == 15 or x == 14:
                tol = 1e-6
            else:
                tol = 1e-9
            ctx.close(got, value(nm, (b, k), x), "%s asked after %s" % (qs[x][0], qs[i if x == j else j][0]), tol, 1e-9)
        for x, y in zip(st, (r.state.q, r.state.qd, r.state.qdd)):
            ctx.ok(np.array_equal(x, y), "a query changed the state")
    ctx.state(nm, i, j)
    ctx.trace()


def unknown(case, ctx):
    nm, u = case["robot"], case["what"]
    r = R.shared(nm)
    f, g = NAMES[nm][3:]
    x = "nope"
    calls = {"set_joint": (x, 1.), "set_joint_velocity": (x, 1.), "set_joint_acceleration": (x, 1.), "set_velocity_limit": (x, 1.),
             "set_torque_limit": (x, 1.), "set_joint_limits": (x, -1., 1.), "joint_jacobian": (x, "local"), "set_rotor_inertia": (x, 1.),
             "set_gear_ratio": (x, 1.), "set_T_world_frame": (x, np.eye(4)), "get_T_a_b": (x, f), "frame_jacobian": (x, "local"),
             "frame_jacobian_time_variation": (x, "local"), "relative_position_jacobian": (x, f)}
    st = [np.array(y) for y in (r.state.q, r.state.qd, r.state.qdd)]
    ctx.step()
    if u == "get_T_a_b2": h = lambda: r.get_T_a_b(f, x)
    elif u == "relative_position_jacobian2": h = lambda: r.relative_position_jacobian(f, x)
    elif u == "hessian_f": h = lambda: (r.compute_hessians(), r.get_frame_hessian(x, NAMES[nm][0]))
    elif u == "hessian_j": h = lambda: (r.compute_hessians(), r.get_frame_hessian(f, x))
    elif u == "fixed_frame": h = lambda: r.torques_from_acceleration_with_fixed_frame(np.zeros(len(st[1]) - 6), x)
    elif u == "fixed_frame_size": h = lambda: r.torques_from_acceleration_with_fixed_frame(np.zeros(len(st[1]) - 7), f)
    elif u == "reference": h = lambda: r.frame_jacobian(f, x)
    elif u == "reference_j": h = lambda: r.joint_jacobian(NAMES[nm][0], x)
    elif u == "reference_tv": h = lambda: r.frame_jacobian_time_variation(f, x)
    else: h = lambda: getattr(r, u)(*calls.get(u, (x,)))
    ctx.raises(h, "%s with an unknown name or a wrong size" % u)
    for a, b in zip(st, (r.state.q, r.state.qd, r.state.qdd)):
        ctx.ok(np.array_equal(a, b), "a rejected call changed the state")
    ctx.state(nm, u)
    ctx.trace()
