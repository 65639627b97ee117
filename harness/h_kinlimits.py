"""P16: joint limits, velocity limits, masked dofs; applying a step."""
import itertools
import numpy as np
import pinocchio as pin
import placo
import kinref as K
import robots as R
import taskref as TR
from mc import pumped, sequences

BOUNDS = {
    "quick": "8 task sets x 8 masks x base masked or not x joint limits (off, urdf, tight) x velocity limits (off, 3 dts, overrides) x 4 configurations; "
             "all sequences of <= 4 operations, and all pairs repeated 6 times, over {mask, unmask, mask base, unmask base, joint limits on/off, velocity limits on/off, solve, solve+apply, new limits}",
    "thorough": "8 task sets x 8 masks x base masked or not x joint limits x velocity limits x 4 configurations; all sequences of <= 5 operations, and all pairs of operations repeated 6 times",
}
TASKS = [
    [],
    [[{"t": "position", "f": "tool", "p": [2., 1., 1.]}, "soft", 1.]],
    [[{"t": "joints", "j": [["j1", 5.], ["j2", -5.], ["j3", 1.], ["k1", 4.], ["k2", -3.], ["j4", 3.5]]}, "soft", 1.]],
    [[{"t": "frame", "f": "base", "r": 1, "p": [.1, 0, .1]}, "soft", 1.], [{"t": "position", "f": "tool", "p": [.3, .3, .4]}, "soft", 2.]],
    [[{"t": "frame", "f": "base", "r": 0, "p": [0, 0, 0]}, "hard", 1.], [{"t": "position", "f": "tip", "p": [.3, .3, .4]}, "scaled", 1.]],
    [[{"t": "joints", "j": [["j1", 1.], ["j3", .2]]}, "scaled", 1.], [{"t": "com", "p": [.3, .2, .1]}, "soft", 1.]],
    [[{"t": "joints", "j": [["k1", .3]]}, "hard", 1.], [{"t": "relative_position", "f": "tool", "g": "tip", "p": [0, 0, 0]}, "soft", 1.]],
    [[{"t": "orientation", "f": "tool", "r": 2}, "soft", 1.], [{"t": "gear", "g": [["set", "k1", "j2", 2.]]}, "soft", 3.]],
]
MASKS = [[], ["j1"], ["k2", "j3"], ["j1", "j2", "j3", "j4", "k1", "k2"], ["j2"], ["k1", "j1"], ["j4", "k2"], ["j1", "j2", "j3"]]
LIMS = [None, [], [["j1", -.2, .4], ["j3", -.02, .05], ["k1", -.1, .15], ["j2", .0, 1.]]]
VEL = [(False, 0., []), (True, .05, []), (True, 2e-4, []), (True, .01, [["j1", .5], ["k2", 8.]]), (False, .1, [])]
REG = [{"t": "regularization", "w": 1e-3}, "soft", 1.]
OPS = ["mask_j1", "mask_k2", "unmask_j1", "unmask_k2", "fb", "nofb", "jl", "nojl", "vl", "novl", "lim", "solve", "apply", "dt2"]


def cases(tier):
    deep, full = True, tier == "thorough"
    for ti, t in enumerate(TASKS):
        for mi, m in enumerate(MASKS[:8 if deep else 4]):
            for fb, (li, l), (vi, v) in itertools.product((False, True), enumerate(LIMS), enumerate(VEL)):
                for b, j in [(0, 1), (1, 2)] + ([(2, 0), (3, 3)] if deep else []):
                    yield {"k": "set", "robot": "tree", "b": b, "j": j, "tasks": t + [REG], "mask": m, "fbase": fb, "jl": l is not None,
                           "limits": l or [], "vl": v[0], "dt": v[1], "vlimits": v[2]}
    for s in sequences(OPS, 5 if full else 4, 1):
        if s[-1] in ("solve", "apply"):
            yield {"k": "hist", "ops": s}
    for s in pumped(OPS, 6):
        yield {"k": "hist", "ops": s + ["solve"]}
    for ti in range(len(TASKS)):
        for s in sequences(["mask", "unmask", "fb", "nofb"], 3, 1):
            yield {"k": "root", "ti": ti, "ops": s}
    yield {"k": "nodt"}
    yield {"k": "unknown"}


def run(case, ctx):
    if case["k"] == "set":
        r = R.make("tree")
        st = K.Setup(case, r)
        dq = K.judge(ctx, st, "limits")
        ctx.state(case)
        if dq is None:
            return
        q0, v0, a0 = np.array(r.state.q), R.vel_vec(st.kin.n, 1), np.array(r.state.qdd)
        r.state.qd = v0.copy()
        dq2 = np.array(st.solver.solve(True))
        ctx.step()
        ctx.close(dq2, dq, "solving again gives the same step", 1e-9)
        applied(ctx, st.kin.m, r, q0, v0, a0, dq2, case["dt"])
        bounds(ctx, st, case, q0, dq)
    elif case["k"] == "hist":
        hist(case, ctx)
    elif case["k"] == "root":
        root(case, ctx)
    elif case["k"] == "nodt":
        r = R.make("tree")
        s = placo.KinematicsSolver(r)
        s.enable_velocity_limits(True)
        ctx.raises(lambda: s.solve(True), "velocity limits without a time step")
        ctx.close(r.state.q, R.make("tree").state.q, "state after the refusal", 0.)
        s.dt = .1
        s.solve(True)
        s.dt = 0.
        ctx.raises(lambda: s.solve(True), "velocity limits without a time step")
        s.enable_velocity_limits(False)
        s.solve(True)
        t = s.add_centroidal_momentum_task(np.zeros(3))
        ctx.raises(lambda: s.solve(True), "momentum task without a time step")
        s.remove_task(t)
        t = s.add_kinetic_energy_regularization_task(1.)
        ctx.raises(lambda: s.solve(True), "kinetic energy task without a time step")
        ctx.step(6); ctx.trace(); ctx.state("nodt")
    else:
        r = R.make("tree")
        s = placo.KinematicsSolver(r)
        I4, I3, z = np.eye(4), np.eye(3), np.zeros(3)
        for name, args in [("mask_dof", ("nope",)), ("unmask_dof", ("nope",)), ("add_position_task", ("nope", z)), ("add_orientation_task", ("nope", I3)),
                           ("add_frame_task", ("nope", I4)), ("add_relative_position_task", ("nope", "tool", z)), ("add_relative_position_task", ("tool", "nope", z)),
                           ("add_relative_frame_task", ("tool", "nope", I4)), ("add_relative_orientation_task", ("nope", "tool", I3)),
                           ("add_axisalign_task", ("nope", z, z)), ("add_distance_task", ("nope", "tool", 1.)), ("add_cone_constraint", ("nope", "tool", 1.)),
                           ("add_yaw_constraint", ("tool", "nope", 1.)), ("add_distance_constraint", ("tool", "nope", 1.)),
                           ("add_manipulability_task", ("nope", "position", 1.)), ("add_manipulability_task", ("tool", "nope", 1.))]:
            ctx.raises(lambda: getattr(s, name)(*args), "%s%s" % (name, args[:2]))
            ctx.step(); ctx.state(name, str(args))
        ctx.ok(s.tasks_count() == 0, "a rejected task was added")
        g = s.add_gear_task()
        ctx.raises(lambda: g.set_gear("nope", "j1", 1.), "gear of an unknown joint")
        ctx.raises(lambda: g.set_gear("j1", "nope", 1.), "gear of an unknown joint")
        t = s.add_joints_task()
        t.set_joint("nope", 1.)
        ctx.raises(lambda: s.solve(True), "joints task with an unknown joint")
        ctx.raises(lambda: t.get_joint("j1"), "get_joint of a joint that is not in the task")
        ctx.raises(lambda: t.configure("x", "nope", 1.), "unknown priority")
        ctx.trace()


def root(case, ctx):
    """masking the floating base by the name of its joint, dof by dof, and by mask_fbase"""
    st = K.Setup({"robot": "tree", "b": 1, "j": 1, "tasks": TASKS[case["ti"]] + [REG]}, R.shared("tree"))
    by = {"mask": False, "fb": False}
    for op in case["ops"]:
        by["fb" if "fb" in op else "mask"] = op in ("mask", "fb")
        {"mask": lambda: st.solver.mask_dof("root_joint"), "unmask": lambda: st.solver.unmask_dof("root_joint"),
         "fb": lambda: st.solver.mask_fbase(True), "nofb": lambda: st.solver.mask_fbase(False)}[op]()
        ctx.step()
    if by["mask"] and by["fb"]:
        return ctx.trace()      # redundant hard equalities, which the solver refuses
    st.case["fbase"] = by["mask"] or by["fb"]
    ctx.state(case["ti"], by)
    K.judge(ctx, st, "%s on the floating base" % case["ops"])


def applied(ctx, m, r, q0, v0, a0, dq, dt):
    want = pin.integrate(m, q0, dq)
    got = np.array(r.state.q)
    if got[3:7] @ want[3:7] < 0:
        got[3:7] *= -1
    ctx.close(got, want, "configuration after applying the step", 1e-9)
    if dt > 0:
        v = pin.difference(m, q0, want) / dt
        ctx.close(r.state.qd, v, "velocity after applying the step", 1e-6, 1e-9)
        ctx.close(r.state.qdd, (v - v0) / dt, "acceleration after applying the step", 1e-5, 1e-8)
    else:
        ctx.close(r.state.qd, v0, "velocity untouched without a time step", 0.)
        ctx.close(r.state.qdd, a0, "acceleration untouched without a time step", 0.)


def bounds(ctx, st, case, q0, dq):
    m, r = st.kin.m, st.r
    for n in case["mask"]:
        ctx.ok(abs(dq[st.kin.iv(n)]) < 1e-7, "masked joint %s moves" % n, dq)
    if case["fbase"]:
        ctx.ok(np.max(np.abs(dq[:6])) < 1e-7, "masked base moves", dq)
    if case["jl"]:
        for i in range(2, m.njoints):
            lo, hi = r.get_joint_limits(m.names[i])
            x = r.get_joint(m.names[i])
            ctx.ok(lo - 1e-5 <= x <= hi + 1e-5, "joint %s out of its limits" % m.names[i], x)
    if case["vl"]:
        vl = r.model.velocityLimit
        for i in range(6, st.kin.n):
            ctx.ok(abs(dq[i]) <= case["dt"] * vl[i] + 1e-6, "joint velocity %d over its limit" % i, dq[i])


def hist(case, ctx):
    """any history of mask / limit switches behaves as a fresh solver with the final settings"""
    r = R.shared("tree") if "lim" not in case["ops"] else R.make("tree")
    R.set_config(r, R.BASES[1], R.joint_vec("tree", 1))
    cur = {"robot": "tree", "b": 1, "j": 1, "tasks": TASKS[2] + TASKS[1] + [REG], "mask": [], "fbase": False, "jl": True, "limits": [], "vl": False, "dt": .05, "vlimits": []}
    st = K.Setup(dict(cur), r)
    s = st.solver
    for op in case["ops"]:
        ctx.step()
        if op.startswith("mask_"):
            s.mask_dof(op[5:])
            cur["mask"] = sorted(set(cur["mask"]) | {op[5:]})
        elif op.startswith("unmask_"):
            s.unmask_dof(op[7:])
            cur["mask"] = [x for x in cur["mask"] if x != op[7:]]
        elif op in ("fb", "nofb"):
            s.mask_fbase(op == "fb"); cur["fbase"] = op == "fb"
        elif op in ("jl", "nojl"):
            s.enable_joint_limits(op == "jl"); cur["jl"] = op == "jl"
        elif op in ("vl", "novl"):
            s.enable_velocity_limits(op == "vl"); cur["vl"] = op == "vl"
        elif op == "lim":
            r.set_joint_limits("k1", -1., 1.)
            cur["limits"] = [["k1", -1., 1.]]
        elif op == "dt2":
            s.dt = .2; cur["dt"] = .2
        elif op in ("solve", "apply"):
            st.case, st.dt = cur, cur["dt"]
            dq = K.judge(ctx, st, "after " + " ".join(case["ops"]))
            if op == "apply" and dq is not None:
                q0, v0, a0 = np.array(r.state.q), np.array(r.state.qd), np.array(r.state.qdd)
                dq = np.array(s.solve(True))
                applied(ctx, st.kin.m, r, q0, v0, a0, dq, cur["dt"])
                bounds(ctx, st, cur, q0, dq)
                r.update_kinematics()
    ctx.state(sorted(cur["mask"]), cur["fbase"], cur["jl"], cur["vl"], cur["dt"], str(cur["limits"]), np.round(r.state.q, 6).tolist())
