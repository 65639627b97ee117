"""P20: dynamics limits (torque, velocity, velocity against torque, joint limits, self collisions)."""
import itertools
import numpy as np
import pinocchio as pin
import placo
import dynref as D
import h_kincons
import robots as R

BOUNDS = {
    "quick": "all 16 combinations of the limits x limit values (model, overridden, asymmetric) x joint positions (inside, at, beyond either limit) x velocities x demanding tasks x fixed or free base; a 6 joint robot with limits on every joint; self collision settings x configurations; closed loops",
    "thorough": "same families with more positions, velocities, tasks and longer closed loops",
}
JT = lambda kp, *j: {"t": "joints", "j": [list(x) for x in j], "kp": kp}
DEM = [[[JT(200., ("q1", 3.), ("q2", -3.)), "soft", 1.]], [[JT(500., ("q1", -4.), ("q2", 4.)), "soft", 1.]], [[JT(5., ("q1", .1), ("q2", 0.)), "soft", 1.]],
       [[{"t": "torque", "j": [["q1", 100.], ["q2", -100.]]}, "soft", 1.]], [[JT(300., ("q1", 3.)), "hard", 1.]], [[{"t": "torque", "j": [["q2", 35.]]}, "hard", 1.]]]
LIM = [{}, {"limits": [["q1", -.3, .5], ["q2", -1., .2]], "vlimits": [["q1", 1.2], ["q2", .6]], "tlimits": [["q1", 4.], ["q2", 2.]]},
       {"stl": [["q1", 1.5]], "safe": [["q1", 3.], ["q2", .4]], "limits": [["q1", .1, .6]]}, {"stl": [["q2", 60.], ["q1", .5]], "tlimits": [["q2", 6.]], "safe": [["q2", 10.]]}]


def cases(tier):
    deep = tier == "thorough"
    Q = [(0., 0.), (.45, .15), (.7, -1.3), (-.5, .3), (1.95, -1.95), (.5, .2)] + ([(2.4, 2.2), (-2.2, .1), (-.3, -1.)] if deep else [])
    W = [(0., 0.), (1., -.5), (-.9, .55)] + ([(2.5, 1.), (-3.5, .2)] if deep else [])
    for jl, vl, vt, tl in itertools.product((0, 1), repeat=4):
        for li, lim in enumerate(LIM):
            for q, w, (di, d), fb in itertools.product(Q, W, enumerate(DEM), (True, False)):
                o = dict(lim, jl=bool(jl), vl=bool(vl), vt=bool(vt), tl=bool(tl), fbase=fb, dt=.01 if li % 2 else .05)
                yield {"k": "one", "robot": "duo", "b": 1, "j": 0, "v": 0, "qset": [["q1", q[0]], ["q2", q[1]]], "vset": [["q1", w[0]], ["q2", w[1]]], "tasks": d, "opts": o}
    # many joints, all of them with limits of their own
    J, q0 = R.TREE_JOINTS, (0., .4, -.6, .15, -.2, .5)
    every = {"limits": [[n, -.9 + .1 * i, .5 + .1 * i] for i, n in enumerate(J)], "vlimits": [[n, .5 + .2 * i] for i, n in enumerate(J)], "tlimits": [[n, 3. + i] for i, n in enumerate(J)]}
    over = {"stl": [[n, .4 + .3 * i] for i, n in enumerate(J)], "safe": [[n, .5 + i] for i, n in enumerate(J)]}
    for lim in (every, over, dict(every, **over), {"stl": over["stl"][1:5], "safe": over["safe"][::-1][:4], "limits": every["limits"][2:]}):
        for jl, vl, vt, tl in itertools.product((0, 1), repeat=4):
            for t, sg, w in itertools.product(range(3), (1, -1), (0., .4)):
                yield {"k": "one", "robot": "tree", "b": 1, "j": 0, "v": 0, "qset": [[n, sg * x * (.2 if n == "j3" else 1)] for n, x in zip(J, q0)], "vset": [[n, sg * w * (-1) ** i] for i, n in enumerate(J)],
                       "tasks": [[TREE_T[t], "soft", 1.]], "opts": dict(lim, jl=bool(jl), vl=bool(vl), vt=bool(vt), tl=bool(tl), fbase=True, dt=.02)}
    # toggling: the last setting counts
    for seq in itertools.product(("jl", "vl", "vt", "tl"), (0, 1), ("jl", "vl", "vt", "tl"), (0, 1), ("jl", "vl", "vt", "tl"), (0, 1)):
        yield {"k": "hist", "seq": [list(seq[0:2]), list(seq[2:4]), list(seq[4:6])]}
    for sp in ({"margin": .005, "trigger": .01}, {"margin": .02, "trigger": .2}, {"margin": .05, "trigger": .6}, {"margin": .3, "trigger": .5}):
        for pr in (("hard", 1.), ("soft", 2.)):
            for t in range(5):
                for b, j in itertools.product(range(2), range(4 if deep else 3)):
                    yield {"k": "col", "robot": "tree", "b": b, "j": j, "v": 0, "tasks": [[TREE_T[t], "soft", 1.]], "cons": [[sp] + list(pr)], "opts": {"dt": .01, "fbase": True}}
                yield {"k": "colloop", "robot": "tree", "b": 0, "j": 0, "v": 0, "tasks": [[TREE_T[t], "soft", 1.]], "cons": [[sp, "hard", 1.]], "opts": {"dt": .01, "fbase": True}, "n": 200 if deep else 80}
    for jl, vt, tl in itertools.product((0, 1), repeat=3):
        for di in range(3):
            yield {"k": "loop", "robot": "duo", "b": 0, "j": 0, "v": 0, "tasks": DEM[di], "opts": {"dt": .01, "fbase": True, "jl": bool(jl), "vl": True, "vt": bool(vt), "tl": bool(tl), "safe": [["q1", 2.], ["q2", 5.]]}, "n": 400 if deep else 150}
    for w in ("jl", "vl", "vt", "col"):
        yield {"k": "nodt", "w": w}


TREE_T = [{"t": "joints", "j": [["j1", 1.2], ["j2", -1.], ["k1", 1.], ["k2", 1.5], ["j4", -1.], ["j3", .2]], "kp": 40.},
          {"t": "joints", "j": [["j1", -2.], ["j2", 1.8], ["k1", -2.], ["k2", 2.5], ["j4", 3.], ["j3", -.1]], "kp": 60.},
          {"t": "position", "f": "tool", "p": [0, .15, -.2], "kp": 50.}, {"t": "position", "f": "tip", "p": [.1, 0, .3], "kp": 50.}, {"t": "relative_position", "f": "m2", "g": "tool", "p": [0, 0, 0], "kp": 30.}]


def run(case, ctx):
    k = case["k"]
    ctx.state(case)
    if k in ("one", "loop"):
        r = R.make(case["robot"])
    elif k == "hist":
        return hist(case, ctx)
    elif k == "nodt":
        r = placo.RobotWrapper("", 0, R.DUO)
        s = placo.DynamicsSolver(r)
        {"jl": lambda: s.enable_joint_limits(True), "vl": lambda: s.enable_velocity_limits(True), "vt": lambda: s.enable_velocity_vs_torque_limits(True), "col": s.add_avoid_self_collisions_constraint}[case["w"]]()
        ctx.raises(lambda: s.solve(), "limits without a time step")
        ctx.trace(); ctx.step()
        return
    if k == "one":
        st = D.Setup(case, r)
        D.judge(ctx, st, "limits %s at q %s qd %s tasks %s" % (case["opts"], case["qset"], case["vset"], [(s["t"], p) for s, p, w in case["tasks"]]))
        return
    if k == "loop":
        return loop(case, ctx, r)
    r, sp = h_kincons.robot_and_spheres()
    if k == "col":
        st = D.Setup(case, r, sp)
        D.judge(ctx, st, "self collisions %s" % case["cons"])
        return
    colloop(case, ctx, r, sp)


def hist(case, ctx):
    o = {"dt": .02, "fbase": True, "limits": [["q1", -.3, .5], ["q2", -1., .2]], "vlimits": [["q1", 1.2], ["q2", .6]], "tlimits": [["q1", 4.], ["q2", 2.]]}
    c = {"robot": "duo", "b": 1, "j": 0, "v": 0, "qset": [["q1", .45], ["q2", .3]], "vset": [["q1", .9], ["q2", -.2]], "tasks": DEM[0], "opts": o}
    st = D.Setup(c, R.duo())
    s = st.solver
    fn = {"jl": s.enable_joint_limits, "vl": s.enable_velocity_limits, "vt": s.enable_velocity_vs_torque_limits, "tl": s.enable_torque_limits}
    for n, (w, on) in enumerate(case["seq"]):
        fn[w](bool(on))
        st.o[w] = bool(on)
        D.judge(ctx, st, "limits after %s" % case["seq"][:n + 1])


def loop(case, ctx, r):
    """integrated: joints never leave their range, speeds and torques stay within their limits"""
    st = D.Setup(case, r)
    o, m = st.o, R.ref_model("duo")
    for i in range(case["n"]):
        res = st.solver.solve(True)
        if not res.success:
            break
        r.update_kinematics()
        ctx.step()
        q, v, tau = np.array(r.state.q)[7:], np.array(r.state.qd)[6:], np.array(res.tau).flatten()[6:]
        if o.get("jl"):
            # stopping with the safe acceleration: overshoot of at most one step
            ctx.ok(np.all(q <= m.upperPositionLimit[7:] + .02) and np.all(q >= m.lowerPositionLimit[7:] - .02), "joint limits left in closed loop at step %d" % i, q)
        ctx.ok(np.all(np.abs(v) <= m.velocityLimit[6:] * (1 if not o.get("vt") else 3) + 1e-6), "velocity limit exceeded in closed loop at step %d" % i, v)
        if o.get("vt"):
            x = v / m.velocityLimit[6:] + tau / m.effortLimit[6:]
            ctx.ok(np.all(np.abs(x) <= 1 + 1e-5), "velocity against torque limit exceeded at step %d" % i, x)
        if o.get("tl"):
            ctx.ok(np.all(np.abs(tau) <= m.effortLimit[6:] + 1e-5), "torque limit exceeded at step %d" % i, tau)
    ctx.trace()


def colloop(case, ctx, r, sp):
    st = D.Setup(case, r, sp)
    s = case["cons"][0][0]
    kin = D.TR.Kin("tree", r.state.q)
    d0 = h_kincons.value(dict(s, t="collisions"), kin, sp)
    if d0 < 0:
        return
    for i in range(case["n"]):
        res = st.solver.solve(True)
        if not res.success:
            break
        r.update_kinematics()
        ctx.step()
        d = h_kincons.value(dict(s, t="collisions"), D.TR.Kin("tree", r.state.q), sp)
        v = np.array(r.state.qd)
        tol = 1e-3 + .02 * np.abs(v).max() * (1 if s["trigger"] > .1 else 10)
        ctx.ok(d > -tol, "self collision margin left in closed loop at step %d (slack %g)" % (i, d))
    ctx.trace()
