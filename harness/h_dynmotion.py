"""P19: the dynamics solver returns the optimal accelerations, torques and forces under the equation of motion."""
import itertools
import numpy as np
import dynref as D
import robots as R

BOUNDS = {
    "quick": "all subsets (up to 2) of 9 tasks x all priorities x 6 external action sets x 9 option sets x 4 states (configuration, velocity); cyclic runs of 3 to 9 tasks; all combinations of 5 options; all activations of 5 external actions; 4 other gravities and 2 sets of rotors; impossible sets; integration",
    "thorough": "all subsets (up to 3) of 9 tasks x all priorities x 6 external action sets x 15 option sets x 12 states; impossible sets; integration",
}
T = [
    {"t": "joints", "j": [["j1", .5], ["k2", -.3, .4, 1.]], "kp": 80.},
    {"t": "position", "f": "tool", "p": [.4, .1, .3], "kp": 50.},
    {"t": "orientation", "f": "tip", "r": 1, "kp": 30., "kd": 4.},
    {"t": "com", "p": [.1, 0, .2], "kp": 40.},
    {"t": "torque", "j": [["j2", 1.5], ["k1", -.5, .7, .2]]},
    {"t": "gear", "g": [["set", "j4", "j1", -.5]], "kp": 60.},
    {"t": "frame", "f": "base", "r": 1, "p": [0, .1, .2], "kp": 20.},
    {"t": "relative_position", "f": "m2", "g": "tool", "p": [.1, .3, .4], "kp": 25.},
    {"t": "joints", "j": [[j, 0.] for j in R.TREE_JOINTS], "kp": 10., "kd": 1.},
]
EXT = [
    [],
    [{"c": "puppet", "weight_forces": 1e-2}],
    [{"c": "ext", "f": "l4", "ref": "local", "w": [0, 0, 0, 0, 0, 0]}, {"c": "ext", "f": "tool", "ref": "world", "w": [1, -2, 3, .1, .2, -.3]}],
    [{"c": "ext", "f": "tip", "ref": "local", "w": [4, 0, -1, 0, .5, 0]}, {"c": "ext", "f": "base", "ref": "world", "w": [0, 0, 30, 0, 0, 0]}],
    [{"c": "ext", "f": "l2", "ref": "world", "w": [0, 5, 0, 0, 0, 0], "active": False}, {"c": "puppet", "weight_forces": 1.}],
    [{"c": "puppet", "active": False}, {"c": "ext", "f": "m1", "ref": "local", "w": [0, 0, 0, 0, 0, 1]}],
]
OPT = [{}, {"fbase": True}, {"gravity_only": True}, {"damping": .6}, {"extra": 2.}, {"torque_cost": .1}, {"fbase": True, "damping": 1., "extra": -1.},
       {"torque_cost": 1e-5, "gravity_only": True, "extra": 1.}, {"fbase": False, "damping": .2, "gravity_only": True},
       {"fbase": True, "gravity_only": True}, {"fbase": True, "extra": 3., "torque_cost": 1.}, {"damping": 2., "extra": 1.}, {"damping": .3, "torque_cost": .01},
       {"fbase": True, "torque_cost": 1e-4}, {"extra": .5, "gravity_only": True}]


def cases(tier):
    deep = tier == "thorough"
    states = [(b, j, v) for b in range(4 if deep else 2) for j, v in (((0, 0), (1, 1), (2, 2)) if deep else ((0, 0), (1, 1)))]
    opts = OPT if deep else OPT[:9]
    for oi, o in enumerate(opts):
        for ei, e in enumerate(EXT):
            for k in range(0, 4 if deep else 3):
                for sub in itertools.combinations(range(len(T)), k):
                    for p in itertools.product(("soft", "hard"), repeat=k):
                        for b, j, v in states:
                            yield {"robot": "tree", "b": b, "j": j, "v": v, "opts": o, "contacts": e, "tasks": [[T[i], q, 1. + 2 * n] for n, (i, q) in enumerate(zip(sub, p))]}
    # many tasks together
    for n in range(3, len(T) + 1):
        for first, hard in itertools.product(range(len(T)), (None, 0)):
            idx = [(first + i) % len(T) for i in range(n)]
            for oi, e in ((0, EXT[0]), (1, EXT[2]), (3, EXT[1]), (6, EXT[3]), (5, EXT[1] + EXT[2] + EXT[3])):
                b, j, v = states[(first + n) % len(states)]
                yield {"robot": "tree", "b": b, "j": j, "v": v, "opts": OPT[oi], "contacts": e, "tasks": [[T[i], "hard" if k == hard else "soft", 1. + 2 * (k % 4)] for k, i in enumerate(idx)]}
    # other gravities, rotors
    ROT = [[n, .02 + .01 * i, 3. + i] for i, n in enumerate(R.TREE_JOINTS)]
    for o in ({"g": [0, 0, 0]}, {"g": [1., -2., -9.]}, {"g": [0, 0, -1.62], "fbase": True}, {"rotor": ROT}, {"rotor": ROT[2:4], "fbase": True}, {"rotor": ROT, "g": [3., 0, 1.], "damping": .3}, {"g": [4., 1., 2.], "gravity_only": True}):
        for e, (b, j, v) in itertools.product((EXT[0], EXT[2], EXT[1]), states):
            for sub in ((), (0,), (1, 8), (4, 8), (3, 5)):
                for q in ("soft", "hard"):
                    yield {"robot": "tree", "b": b, "j": j, "v": v, "opts": o, "contacts": e, "tasks": [[T[i], q if n == 0 else "soft", 1. + 2 * n] for n, i in enumerate(sub)]}
    # every combination of the options
    for fb, go, da, ex, tc in itertools.product((0, 1), repeat=5):
        o = dict({"fbase": bool(fb), "gravity_only": bool(go)}, **({"damping": .4} if da else {}), **({"extra": 1.5} if ex else {}), **({"torque_cost": .05} if tc else {}))
        for e, sub, (b, j, v) in itertools.product((EXT[0], EXT[2], EXT[4]), ((), (0, 3), (4, 6), (8, 4)), states):
            yield {"robot": "tree", "b": b, "j": j, "v": v, "opts": o, "contacts": e, "tasks": [[T[i], "soft", 1. + 2 * n] for n, i in enumerate(sub)]}
    # inactive contacts of any rank
    acts = EXT[1] + EXT[2] + EXT[3]
    for off in itertools.product((True, False), repeat=len(acts)):
        for sub, o in itertools.product(((0, 3), (4, 6), (8, 4, 1)), ({}, {"fbase": True})):
            b, j, v = states[sum(off) % len(states)]
            yield {"robot": "tree", "b": b, "j": j, "v": v, "opts": o, "contacts": [dict(c, active=a) for c, a in zip(acts, off)], "tasks": [[T[i], "soft", 1. + 2 * n] for n, i in enumerate(sub)]}
    # contradictory hard tasks and torques
    for o in opts[:3]:
        for a, b_ in (([["j1", .5]], [["j1", -.5]]), ([["j2", 0.]], [["j2", 1., 3.]])):
            for pr in (("hard", "hard"), ("hard", "soft"), ("soft", "soft")):
                yield {"robot": "tree", "b": 0, "j": 0, "v": 0, "opts": o, "contacts": [], "tasks": [[{"t": "joints", "j": a}, pr[0], 1.], [{"t": "joints", "j": b_}, pr[1], 1.]]}
    for e in EXT:
        for dt in (.001, .02):
            for o in opts[:6]:
                for b, j, v in states:
                    yield {"robot": "tree", "b": b, "j": j, "v": v, "opts": dict(o, dt=dt), "contacts": e, "tasks": [[T[8], "soft", 1.], [T[1], "soft", 1.]], "int": 1}
                    yield {"robot": "tree", "b": b, "j": j, "v": v, "opts": dict(o, dt=dt), "contacts": e, "tasks": [], "int": 1}
    for b, j, v in states:
        q = R.joint_vec("tree", j)
        m = R.ref_model("tree")
        hold = {"t": "joints", "j": [[n, float(q[m.joints[m.getJointId(n)].idx_q - 7])] for n in R.TREE_JOINTS], "kp": 10.}
        for dt in (.001, .02):
            yield {"robot": "tree", "b": b, "j": j, "v": 0, "opts": {"fbase": True, "dt": dt}, "contacts": [], "tasks": [[hold, "hard", 1.]], "int": 1}
    yield {"robot": "duo", "b": 0, "j": 0, "v": 0, "opts": {}, "tasks": [], "int": 2}
    for p in ("scaled",):
        yield {"robot": "duo", "b": 0, "j": 0, "v": 0, "opts": {}, "tasks": [[{"t": "joints", "j": [["q1", .5]]}, p, 1.]], "int": 3}


def run(case, ctx):
    r = R.shared(case["robot"])
    st = D.Setup(case, r)
    ctx.state(case)
    label = "tasks %s contacts %s options %s" % ([(s["t"], p) for s, p, w in case["tasks"]], [c["c"] for c in case.get("contacts", [])], case["opts"])
    if case.get("int", 0) >= 2:
        q = np.array(r.state.q)
        ctx.raises(lambda: st.solver.solve(case["int"] == 2), "integrating without a time step / scaled dynamics task")
        ctx.ok(np.array_equal(q, r.state.q), "a refused solve moved the robot")
        ctx.step(); ctx.trace()
        return
    if not case.get("int"):
        D.judge(ctx, st, label)
        return
    r.state.qdd = R.vel_vec(len(r.state.qd), 1)  # what the previous acceleration was does not matter
    q0, v0 = np.array(r.state.q), np.array(r.state.qd)
    res = D.judge(ctx, st, label, integrate=True)
    if res is None or not res.success:
        return
    import pinocchio as pin
    dt = case["opts"]["dt"]
    a = np.array(res.qdd).flatten()
    if case["opts"].get("fbase"):
        a[:6] = 0
    ctx.close(r.state.qdd, a, label + ": acceleration state after integrating", 1e-9, 1e-9)
    ctx.close(r.state.qd, v0 + a * dt, label + ": velocity after integrating", 1e-9, 1e-9)
    m = R.ref_model(case["robot"])
    # semi-implicit or exact second order step: both are consistent integrations
    cand = [pin.integrate(m, q0, (v0 + a * dt) * dt), pin.integrate(m, q0, v0 * dt + .5 * a * dt * dt)]
    ctx.ok(min(np.abs(pin.difference(m, c, np.array(r.state.q))).max() for c in cand) < 1e-9, label + ": configuration after integrating")
    if case["opts"].get("fbase"):
        ctx.close(np.array(r.state.qd)[:6], v0[:6], label + ": masked floating base", 1e-12)
