"""P17: kinematics constraints: CoM polygon, cone, yaw, distance, joint-space half-spaces, self collisions."""
import itertools
import numpy as np
import pinocchio as pin
import placo
import kinref as K
import qpref
import robots as R
import taskref as TR

BOUNDS = {
    "quick": "every constraint (polygon x margin x CoM/DCM, half-spaces, yaw, cone, distance, self collisions) x parameters x hard/soft x 5 task sets pushing against it x 16 configurations; deep penetrations, centred cones, tilted frames and joints beyond their limits; all pairs and triples of constraints x 4 configurations; 60-step closed loops",
    "thorough": "same, all sets of <= 5 of 8 constraints, 200-step closed loops",
}
REG = [{"t": "regularization", "w": 1e-3}, "soft", 1.]
PUSH = [
    [[{"t": "com", "p": [.6, .5, .1]}, "soft", 1.], [{"t": "frame", "f": "base", "r": 1, "p": [.2, -.1, .3]}, "soft", .1]],
    [[{"t": "com", "p": [-.4, -.6, .1]}, "soft", 1.]],
    [[{"t": "position", "f": "tool", "p": [1., .8, .1]}, "soft", 1.], [{"t": "position", "f": "tip", "p": [-.5, -.5, -.8]}, "soft", 1.]],
    [[{"t": "joints", "j": [["j1", 1.2], ["j2", -1.], ["k1", 1.], ["k2", 1.5], ["j4", -1.], ["j3", .2]]}, "soft", 1.]],
    [[{"t": "orientation", "f": "tool", "r": 2}, "soft", 1.], [{"t": "orientation", "f": "m2", "r": 3}, "soft", 1.]],
]
N = 13


def half(i):
    A = np.zeros((2, N))
    A[0, 7 + i] = 1.
    A[0, 7 + (i + 2) % 6] = -.5
    A[1, 7 + (i + 1) % 6] = 2.
    A[1, 3] = 7.  # the floating base part is ignored
    return {"t": "half_spaces", "A": A.tolist(), "b": [.2, .1]}


def menu():
    out = []
    for p, m, w in itertools.product(("big", "small", "tri", "ten"), (0., .03), (0., 4.)):
        out.append({"t": "com_polygon", "poly": p, "margin": m, "omega": w})
    out += [half(0), half(3)]
    out.append({"t": "half_spaces", "A": [[0.] * 7 + [float(np.cos(i * 2.1 + k * 1.3)) for k in range(6)] for i in range(9)], "b": [.3 + .1 * i for i in range(9)]})
    for f, g, mx in (("base", "tool", .4), ("base", "tool", 1.5), ("m2", "l2", 1.), ("tool", "base", 2.)):
        out.append({"t": "yaw", "f": f, "g": g, "max": mx})
    for f, g, mx in (("base", "tool", .4), ("base", "m2", .6), ("m2", "tool", 1.2), ("l1", "l2", .45)):
        out.append({"t": "cone", "f": f, "g": g, "max": mx})
    for n, rg in ((16, 1.), (5, .1), (40, 3.1)):
        out.append({"t": "cone", "f": "base", "g": "tool", "max": .5, "N": n, "range": rg})
    for f, g, mx in (("base", "tool", .6), ("tool", "tip", .5), ("tip", "l1", 1.5)):
        out.append({"t": "distance", "f": f, "g": g, "max": mx})
    for mg, tr in ((.005, .01), (.02, .2), (.01, .5)):
        out.append({"t": "collisions", "margin": mg, "trigger": tr})
    return out


def cases(tier):
    deep, full = True, tier == "thorough"
    cfgs = [(b, j) for b in range(4 if deep else 2) for j in ((0, 1, 2, 3) if deep else (0, 1, 2))]
    M = menu()
    for c in M:
        for pr, w in (("hard", 1.), ("soft", 3.)):
            for t in PUSH:
                for b, j in cfgs:
                    yield {"k": "one", "robot": "tree", "b": b, "j": j, "dt": .1, "tasks": t + [REG], "cons": [[c, pr, w]]}
    for c, how in itertools.product(M, ("edit", "user")):
        for t in PUSH if deep else (PUSH[0], PUSH[4]):
            for b, j in ((0, 1), (1, 2)):
                yield {"k": "one", "robot": "tree", "b": b, "j": j, "dt": .1, "how": how, "tasks": t + [REG], "cons": [[c, "hard", 1.]]}
    # deep penetrations
    for jv in ([1.134, 1.331, .059, -.972, 1.721, -.847], [.484, 1.674, -.012, -.12, -.232, .009], [2.187, 1.054, .285, 1.677, -.103, 2.389], [-2.49, 1.528, .24, .795, -.069, -1.41]):
        for c, (pr, w) in itertools.product(M[-3:], (("hard", 1.), ("soft", 3.))):
            for t in PUSH:
                yield {"k": "one", "robot": "tree", "b": 1, "jv": jv, "dt": .1, "tasks": t + [REG], "cons": [[c, pr, w]]}
    # an axis next to the centre of its cone, all around
    for e, t in itertools.product((-.002, .005, .02), (-1., 1.)):
        for n, rg in ((8, .25), (40, 3.1)):
            yield {"k": "one", "robot": "tree", "b": 1, "jv": [.2, -.3 + e, .1, .3, -.2, .4], "dt": .1, "tasks": [[{"t": "joints", "j": [["j2", t]]}, "soft", 1.], REG],
                   "cons": [[{"t": "cone", "f": "l1", "g": "l2", "max": .3, "N": n, "range": rg}, "hard", 1.]]}
    # much tilted frames, and joints beyond their limits
    for c, (b, j) in itertools.product([x for x in M if x["t"] in ("yaw", "half_spaces")], ((0, 3), (1, 7))):
        for t in PUSH:
            yield {"k": "one", "robot": "tree", "b": b, "j": j, "dt": .1, "tasks": t + [REG], "cons": [[c, "hard", 1.]]}
            yield {"k": "one", "robot": "tree", "b": b, "j": j, "dt": .1, "tasks": t + [REG], "cons": [[c, "hard", 1.]], "beyond": .5}
            yield {"k": "one", "robot": "tree", "b": b, "j": j, "dt": .1, "tasks": t + [REG], "cons": [[c, "hard", 1.]], "beyond": -.5}
    few = [M[0], M[6], M[12], M[14], M[18], M[25], M[27], M[29]]
    for k in (2, 3, 4, 5) if full else (2, 3):
        for sub in itertools.combinations(few, k):
            for pr in itertools.product(("hard", "soft"), repeat=k):
                for b, j in cfgs[:4 if deep else 2]:
                    yield {"k": "one", "robot": "tree", "b": b, "j": j, "dt": .1, "tasks": PUSH[0] + PUSH[3] + [REG], "cons": [[c, p, 2.] for c, p in zip(sub, pr)]}
    for c in M:
        for ti, t in enumerate(PUSH):
            yield {"k": "loop", "robot": "tree", "b": ti % 2, "j": 0, "dt": .05, "steps": 200 if full else 60, "tasks": t + [REG], "cons": [[c, "hard", 1.]], "vl": True}
    for a in ("half", "half2", "half3", "poly_dt", "poly_omega"):
        yield {"k": "bad", "what": a}


def robot_and_spheres():
    if "tree_col" not in R._cache:
        r = placo.RobotWrapper("", 0, R.TREE)
        g = r.collision_model
        sp = []
        for p in g.collisionPairs:
            a, b = g.geometryObjects[p.first], g.geometryObjects[p.second]
            sp.append(((p.first, p.second), (a.parentJoint, a.placement.translation.copy(), a.geometry.radius), (b.parentJoint, b.placement.translation.copy(), b.geometry.radius)))
        R._cache["tree_col"] = (r, sp)
    return R._cache["tree_col"]


def run(case, ctx):
    if case["k"] == "bad":
        return bad(case, ctx)
    r, sp = robot_and_spheres()
    if case["k"] == "loop":
        return loop(case, ctx, r, sp)
    if "beyond" in case:
        # a posture out of the limits of the joints, which are not asked to be respected
        m = R.ref_model("tree")
        lo, hi = m.lowerPositionLimit[7:], m.upperPositionLimit[7:]
        q = R.joint_vec("tree", case["j"]) + case["beyond"]
        try:
            for n, x in zip(m.names[2:], q):
                r.set_joint_limits(n, x + .2, x + .7) if case["beyond"] > 0 else r.set_joint_limits(n, x - .7, x - .2)
            K.judge(ctx, K.Setup(dict(case, jv=q.tolist()), r, sp), "joints beyond their limits, %s" % case["cons"][0][0]["t"])
            ctx.state(case)
        finally:
            for n, a, b in zip(m.names[2:], lo, hi):
                r.set_joint_limits(n, a, b)
        return
    st = K.Setup(case, r, sp)
    cones = [(s, p) for s, p, w in case["cons"] if s["t"] == "cone"]
    ctx.state(case)
    label = "constraints %s" % [(s["t"], p) for s, p, w in case["cons"]]
    if not cones:
        K.judge(ctx, st, label)
        return
    # cone: the linearised angle (to first order) respects the limit; a cone which is not reached changes nothing
    cons, n, N_ = st.reference()
    try:
        dq = np.array(st.solver.solve(False))
    except Exception as e:
        dq = None
    ctx.step(); ctx.trace()
    free = K.Setup(dict(case, cons=[c for c in case["cons"] if c[0]["t"] != "cone"]), r, sp)
    try:
        fdq = np.array(free.solver.solve(False))
    except Exception:
        return
    kin = st.kin
    inactive = True
    for s, p in cones:
        a0 = K.cone_angle(kin, s["f"], s["g"])
        if a0 > 1e-3:
            J = K.numeric(kin, lambda x: K.cone_angle(x, s["f"], s["g"]))
            if dq is not None and p == "hard":
                ctx.ok(a0 + J @ dq <= s["max"] + 1e-4, label + ": the axis leaves the cone: linearised angle %g over %g" % (a0 + J @ dq, s["max"]))
            if dq is not None:
                slices(ctx, case, st, r, sp, s, p, dq, fdq, label)
            # every slice considers an angle below |angle| + |rotation of the axis|
            rel = kin.T(s["f"]).rotation.T @ (kin.Jw(s["g"]) - kin.Jw(s["f"]))
            w = rel @ fdq
            if a0 + np.linalg.norm(w) > s["max"] - 1e-3:
                inactive = False
        else:
            inactive = False
    if inactive:
        ctx.ok(dq is not None, label + ": a cone which is not reached made the problem infeasible")
        ctx.close(dq, fdq, label + ": a cone which is not reached changed the step", 1e-5, 1e-5)


def slice_excess(kin, s, dq, sure):
    """largest excess over the half planes of the cone which are tangent within the range around the current direction"""
    rel = kin.T(s["f"]).rotation.T @ (kin.Jw(s["g"]) - kin.Jw(s["f"])) @ dq
    z = (kin.T(s["f"]).rotation.T @ kin.T(s["g"]).rotation)[:, 2]
    n, rg = s.get("N", 8), s.get("range", .25)
    step = 2 * rg / n
    out = []
    for x in np.linspace(-rg, rg - step if sure else rg, 64):
        a = np.arctan2(z[1], z[0]) + x
        out.append(np.arctan2(np.cos(a) * z[0] + np.sin(a) * z[1], z[2]) + rel @ np.array([-np.sin(a), np.cos(a), 0.]))
    tol = step ** 2 / 8 * (cone_curv(z) + np.linalg.norm(rel))
    return max(out) - s["max"], tol


def cone_curv(z):
    return 2 * np.arctan2(np.hypot(z[0], z[1]), z[2]) + 1


def slices(ctx, case, st, r, sp, s, p, dq, fdq, label):
    e, tol = slice_excess(st.kin, s, dq, True)
    if p == "hard":
        ctx.ok(e <= tol + 1e-4, label + ": the axis leaves the cone beside the current direction, by %g (discretisation allows %g)" % (e, tol))
    elif len(case["cons"]) == 1:
        # a soft cone: as the weight grows it is respected, as it vanishes it is ignored
        for w in (1e3, 1e-9):
            o = K.Setup(dict(case, cons=[[s, p, w]]), r, sp)
            x = np.array(o.solver.solve(False))
            ctx.step()
            if w > 1:
                try:
                    K.Setup(dict(case, cons=[[s, "hard", 1.]]), r, sp).solver.solve(False)
                except Exception:
                    continue  # cannot be respected
                f, tol = slice_excess(st.kin, s, x, True)
                ctx.ok(f <= max(.6 * e, tol + 5e-3), label + ": exceeded by %g with a weight of 3 and by %g with a weight of 1000" % (e, f))
            else:
                ctx.close(x, fdq, label + ": a soft cone of vanishing weight", 1e-3, 1e-3)


def value(s, kin, spheres):
    """slack of the real (non linearised) constraint"""
    if s["t"] == "com_polygon":
        if s.get("omega"):
            return None
        A, b = K.expected_constraint(s, kin, .05)
        return b.min()
    if s["t"] == "half_spaces":
        return K.expected_constraint(s, kin, .05)[1].min()
    if s["t"] == "yaw":
        return s["max"] - abs(K.yaw(kin, s["f"], s["g"]))
    if s["t"] == "cone":
        return s["max"] - K.cone_angle(kin, s["f"], s["g"])
    if s["t"] == "distance":
        return s["max"] - np.linalg.norm(kin.T(s["g"]).translation - kin.T(s["f"]).translation)
    d = 1.
    for _, (ji, pi, ri), (jj, pj, rj) in spheres:
        d = min(d, np.linalg.norm(kin.d.oMi[ji].act(pi) - kin.d.oMi[jj].act(pj)) - ri - rj)
    return d - s["margin"]


def loop(case, ctx, r, sp):
    """repeated small applied steps: started inside, the real quantity never leaves the constraint (up to second order)"""
    st = K.Setup(case, r, sp)
    s = case["cons"][0][0]
    kin = TR.Kin("tree", r.state.q)
    v = value(s, kin, sp)
    if v is None or v < 0:
        return
    rho = 1.
    for i in range(case["steps"]):
        r.update_kinematics()
        try:
            dq = np.array(st.solver.solve(True))
        except Exception as e:
            break
        ctx.step()
        kin = TR.Kin("tree", r.state.q)
        v = value(s, kin, sp)
        if s["t"] == "yaw":
            x = kin.T(s["f"]).rotation.T @ kin.T(s["g"]).rotation[:, 0]
            if min(rho, np.hypot(x[0], x[1])) < .4:
                break  # near the singularity of the yaw the second order terms are unbounded
            rho = np.hypot(x[0], x[1])
        # one step enforces the linearised constraint: what remains is of the second order in the step
        tol = 1e-4 + 2. / rho**2 * float(dq @ dq) if s["t"] != "half_spaces" else 1e-5
        if s["t"] == "collisions" and s["trigger"] < .05:
            tol += float(np.linalg.norm(dq))  # the trigger may be crossed within a step
        ctx.ok(v > -tol, "%s leaves its domain in closed loop at step %d (slack %g)" % (s["t"], i, v))
        ctx.state(s, np.round(r.state.q, 5).tolist())
    ctx.trace()


def bad(case, ctx):
    r, sp = robot_and_spheres()
    R.set_config(r, R.BASES[0], R.joint_vec("tree", 0))
    s = placo.KinematicsSolver(r)
    if case["what"] == "half":
        s.add_joint_space_half_spaces_constraint(np.zeros((2, N)), np.zeros(3))
    elif case["what"] == "half2":
        s.add_joint_space_half_spaces_constraint(np.zeros((2, N - 1)), np.zeros(2))
    elif case["what"] == "half3":
        s.add_joint_space_half_spaces_constraint(np.ones((2, N + 2)), np.ones(2))
    else:
        c = s.add_com_polygon_constraint([np.array(p) for p in K.POLY["big"]], 0.)
        c.dcm = True
        if case["what"] == "poly_dt":
            c.omega = 3.
        else:
            s.dt = .1
    ctx.raises(lambda: s.solve(True), "ill-defined constraint (%s)" % case["what"])
    ctx.step(); ctx.trace(); ctx.state(case["what"])
