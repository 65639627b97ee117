"""P14: the linearised objective of every kinematics task is the derivative of what the task is about."""
import itertools
import numpy as np
import pinocchio as pin
import placo
import robots as R
import taskref as TR

BOUNDS = {
    "quick": "every task type x targets x 40 masks x 4 bases x 7 joint configurations on tree/MJCF/arm/quadruped/humanoid; tasks edited, nudged, built by the user or moved from another solver; time steps; convergence of each task alone from 8 configurations",
    "thorough": "the same, edited tasks and time steps in 4 and 3 configurations",
}
FR = {"tree": ("tool", "m2", "l1", "base"), "mjcf": ("b", "a", "base", "base"), "arm": ("hand", "s2", "s4", "base"),
      "quadruped": ("leg_3", "leg", "body", "tip"), "sigmaban_rw": ("left_foot", "right_foot", "trunk", "camera")}
JN = {"tree": ("j1", "k2", "j3"), "mjcf": ("q1", "q2", "q2"), "arm": ("a1", "a4", "a6"), "quadruped": ("leg1_a", "leg4_c", "leg2_b"),
      "sigmaban_rw": ("left_knee", "head_yaw", "right_elbow")}
DT = .1


def masks(deep):
    ax = ["x", "y", "z", "xy", "yz", "xz", "xyz", "zx", "zyx"] if deep else ["x", "z", "xy", "zyx"]
    return [None] + [[a, f] for a in ax for f in ("task", "world", "local", "custom")][: None if deep else 16] + [["", "task"]]


def specs(nm, deep):
    f, g, h, base = FR[nm]
    a, b, c = JN[nm]
    pts = [p.tolist() for p in (TR.POS if deep else TR.POS[:3])]
    rots = range(len(TR.ROT)) if deep else range(4)
    for mk in masks(deep):
        for i, p in enumerate(pts if mk is None else pts[1:2]):
            yield {"t": "position", "f": f, "p": p, "mask": mk}
            yield {"t": "relative_position", "f": f, "g": g, "p": p, "mask": mk}
            yield {"t": "relative_position", "f": h, "g": f, "p": p, "mask": mk}
            yield {"t": "com", "p": p, "mask": mk}
            yield {"t": "momentum", "p": p, "mask": mk}
        for r in (rots if mk is None else (1, 2)):
            yield {"t": "orientation", "f": g, "r": r, "mask": mk}
            yield {"t": "relative_orientation", "f": f, "g": h, "r": r, "mask": mk}
    for r in rots:
        yield {"t": "frame", "f": f, "r": r, "p": pts[r % 3]}
        yield {"t": "relative_frame", "f": g, "g": f, "r": r, "p": pts[r % 3]}
    for ax, tg in itertools.product(([1, 0, 0], [0, 2, 0], [0, 0, 1], [1, -1, .5]), ([0, 0, 1], [0, 0, -3], [1, .2, -.4], [0, 1, 0])):
        yield {"t": "axisalign", "f": f, "ax": ax, "tg": tg}
        yield {"t": "axisalign", "f": base, "ax": ax, "tg": tg}
    near = TR.Kin(nm, np.concatenate([pin.SE3ToXYZQUAT(pin.SE3(R.BASES[1])), R.joint_vec(nm, 2)])).T(f).rotation
    for ax in ([1, 0, 0], [0, 2, 0]):    # almost aligned, almost opposed
        for e, sg in itertools.product((4e-4, 1e-6), (1., -1.)):
            yield {"t": "axisalign", "f": f, "ax": ax, "tg": (sg * near @ (np.array(ax, float) + [0., e, e])).tolist()}
    for d in (False, True):
        yield {"t": "joints", "j": [[a, .5]], "dict": d}
        yield {"t": "joints", "j": [[b, .1], [a, -.3]], "dict": d}
        yield {"t": "joints", "j": [[a, .5], [b, -.2], [a, .25]], "dict": d}
    yield {"t": "joints", "j": []}
    every = [n for n in R.ref_model(nm).names][2:]
    every = [n for n in every if n not in ()]
    for d in (False, True):
        yield {"t": "joints", "j": [[n, round(.3 * np.cos(2. * i), 3)] for i, n in enumerate(every)], "dict": d}
        yield {"t": "joints", "j": [[n, .1 * i - .3] for i, n in enumerate(every[::-1][:7])], "dict": d}
    if len(every) >= 6:
        o = [n for n in every if n != a]
        yield {"t": "gear", "g": [["add", a, n, .5 * i - 1.2] for i, n in enumerate(o[:5])]}
        yield {"t": "gear", "g": [["set", n, a, .5 * i - 1.2] for i, n in enumerate(o[:5])]}
        yield {"t": "gear", "g": [["add", a, o[0], 1.], ["add", a, o[1], 2.], ["add", a, o[2], 3.], ["add", o[3], o[0], -1.], ["add", o[3], o[4], .4], ["set", o[4], o[2], 2.]]}
    for gs in ([["set", a, b, 2.]], [["add", a, b, -1.5]], [["set", b, a, .5], ["add", b, c, 3.]] if c not in (a, b) else [["set", b, a, .5]],
               [["add", a, b, 1.], ["set", a, b, -2.]], [["add", a, c, 1.], ["set", a, b, -2.]],
               [["add", a, b, 1.], ["add", a, c, 3.], ["set", a, b, -2.]] if c not in (a, b) else [["set", a, b, 3.]],
               [["set", a, b, 2.], ["set", b, a, .25]], [["add", b, a, 1.], ["add", a, b, 4.], ["add", b, a, -1.]]):
        yield {"t": "gear", "g": gs}
    for om, rad, sf in itertools.product((False, True), (.03, .35), (0, 1)):
        yield {"t": "wheel", "f": a, "radius": rad, "omni": om, "surface": sf}
    for d in (0., .3, 1.2):
        yield {"t": "distance", "f": f, "g": g, "d": d}
        yield {"t": "distance", "f": g, "g": h, "d": d}
    for w in (1., 1e-3):
        yield {"t": "regularization", "w": w}
        yield {"t": "regularization", "w": w, "j": [[a, 4.], [b, 0.]]}
        yield {"t": "kinetic", "w": w}
    for ty, lam, mn in itertools.product(("position", "orientation", "both"), (1., .2), (False, True)):
        if ty == "both" and nm not in ("arm",):
            continue
        if nm in ("mjcf",) or nm == "quadruped":
            continue
        yield {"t": "manipulability", "f": f, "type": ty, "lam": lam, "min": mn}


CONV = [
    {"t": "position", "f": "tool", "p": [.35, .3, .45]}, {"t": "orientation", "f": "tool", "r": 2}, {"t": "frame", "f": "tool", "r": 1, "p": [.3, .2, .5]},
    {"t": "relative_position", "f": "base", "g": "tool", "p": [.35, .2, .5]}, {"t": "relative_orientation", "f": "m2", "g": "tool", "r": 1},
    {"t": "com", "p": [.1, .05, .2]}, {"t": "axisalign", "f": "tool", "ax": [0, 0, 1], "tg": [1, .2, -.4]}, {"t": "axisalign", "f": "tool", "ax": [0, 1, 0], "tg": [0, 0, 2]},
    {"t": "joints", "j": [["j1", .5], ["k2", -.4], ["j3", .1]]}, {"t": "gear", "g": [["set", "j1", "k1", 2.], ["add", "j1", "k2", -1.]]},
    {"t": "distance", "f": "tool", "g": "m2", "d": .5}, {"t": "wheel", "f": "j1", "radius": .2, "omni": False},
    {"t": "position", "f": "m2", "p": [.1, .3, -.2], "mask": ["xz", "local"]}, {"t": "orientation", "f": "tool", "r": 1, "mask": ["xy", "local"]},
    {"t": "position", "f": "tool", "p": [.1, .3, -.2], "mask": ["y", "custom"]}, {"t": "com", "p": [.1, .3, -.2], "mask": ["xy", "task"]},
]


def cases(tier):
    deep, full = True, tier == "thorough"
    for nm in ("tree", "mjcf", "arm", "sigmaban_rw") + (("quadruped",) if deep else ()):
        nb, nj = (4, 7) if deep else ((3, 4) if nm in ("tree", "arm") else (2, 2))
        for s in specs(nm, deep):
            yield {"k": "lin", "robot": nm, "task": s, "cfg": [(b, j) for b in range(nb) for j in range(nj)]}
        if nm in ("tree", "arm") or deep:
            # created with other targets then edited, or built by the user, possibly after use in another solver
            for s, how in itertools.product(specs(nm, deep), ("edit", "nudge", "user", "moved")):
                if how == "nudge" and s["t"] in ("kinetic", "wheel"):
                    continue
                yield {"k": "lin", "robot": nm, "task": s, "how": how, "cfg": [(2, 1), (0, 0), (1, 2), (3, 3)] if full else [(2, 1)]}
            for s, dt in itertools.product(specs(nm, deep), (1., 1e-3, 2e-4)):
                if s["t"] in ("momentum", "kinetic", "wheel"):
                    yield {"k": "lin", "robot": nm, "task": s, "dt": dt, "cfg": [(1, 2), (0, 1), (3, 4)] if full else [(1, 2)]}
    for s in CONV:
        for b in range(4):
            # full steps may cycle far from the target when the limits of the joints are in the way: only from postures from which they are not
            for j in (0, 1) if deep else (1,):
                yield {"k": "conv", "robot": "tree", "task": s, "b": b, "j": j}


def gram(A, b):
    A, b = np.atleast_2d(np.asarray(A, float)), np.asarray(b, float).reshape(-1)
    return A.T @ A, A.T @ b, b @ b


def run(case, ctx):
    nm, s = case["robot"], case["task"]
    if case["k"] == "conv":
        return conv(case, ctx)
    r = R.shared(nm)
    solver = placo.KinematicsSolver(r)
    DT = solver.dt = case.get("dt", .1)
    if case["cfg"][0][1] == 0:
        R.set_config(r, R.BASES[0], R.joint_vec(nm, 0))
    how = case.get("how")
    if how in ("user", "moved"):
        t = TR.construct(nm, s)
        if t is None:
            return
        if s["t"] == "gear" and how == "user":
            # a gear needs the joints of a robot
            a, b, c = JN[nm]
            ctx.raises(lambda: t.set_gear(a, b, 1.), "gear: setting a gear before the task is in a solver")
            ctx.raises(lambda: t.add_gear(a, b, 1.), "gear: adding a gear before the task is in a solver")
        if how == "moved":
            r2 = R.shared(("mjcf" if s["t"] in ("regularization", "kinetic") else "sigmaban_rw") if nm == "tree" else nm)
            if nm != "tree" or s["t"] in ("position", "orientation", "relative_position", "relative_orientation", "com", "momentum", "axisalign", "distance", "kinetic") \
                    or s["t"] == "regularization" and not s.get("j"):
                s2 = placo.KinematicsSolver(r2)
                s2.dt = DT
                s2.add_task(t)
                t.configure("task", "soft", 1.)
                s2.add_regularization_task(1e-3)
                r2.update_kinematics()
                s2.solve(False)
                s2.remove_task(t)
        solver.add_task(t)
        if s["t"] == "gear":
            TR.retarget(t, s)
    else:
        t = TR.make(solver, TR.other(s) if how == "edit" else TR.nudged(s) if how == "nudge" else s)
    if how in ("edit", "nudge"):
        el = TR.elementary(t, s)
        for e in el:
            e.update()
        TR.retarget(t, s)
    TR.readback(t, s, nm, ctx)
    el = TR.elementary(t, s)
    for b, j in case["cfg"]:
        R.set_config(r, R.BASES[b], R.joint_vec(nm, j))
        r.state.qd = R.vel_vec(len(r.state.qd), 1)  # no task depends on the current velocity
        kin = TR.Kin(nm, r.state.q)
        for p, e in zip(TR.parts(s), el):
            if p["t"] == "wheel":
                if np.linalg.norm(np.cross(kin.T(p["f"]).rotation[:, 2], R.BASES[p["surface"]][:3, 2])) < 1e-6:
                    continue  # wheel lying flat on the surface: no contact point
            e.update()
            ctx.step()
            A, bb = TR.expected(p, kin, DT)
            gA, gb = np.asarray(e.A, float), np.asarray(e.b, float).reshape(-1)
            gA = gA.reshape(len(gb), -1) if gA.size else np.zeros((0, kin.n))
            ctx.ok(gA.shape == (len(gb), kin.n), "%s: shape of the linearised task" % p["t"], gA.shape)
            if p["t"] == "axisalign" and abs(np.linalg.norm(bb) - 0) < 1e-9 or p["t"] == "axisalign" and np.linalg.norm(gb) > np.pi - 1e-6:
                # exactly aligned: nothing to correct; exactly opposed: any perpendicular axis will do
                P = gram(A, bb)
                ctx.close(gA.T @ gA, P[0], "axisalign at alignment: rotations that are controlled", 1e-8)
                c = np.dot(kin.T(p["f"]).rotation @ np.array(p["ax"], float) / np.linalg.norm(p["ax"]), np.array(p["tg"], float) / np.linalg.norm(p["tg"]))
                ctx.close(np.linalg.norm(gb), 0. if c > 0 else np.pi, "axisalign at alignment: error", 1e-6)
                continue
            want = gram(A, bb) if len(bb) else (np.zeros((kin.n, kin.n)), np.zeros(kin.n), 0.)
            got = gram(gA, gb) if len(gb) else (np.zeros((kin.n, kin.n)), np.zeros(kin.n), 0.)
            tol = 1e-4 if p["t"] == "manipulability" else 1e-7
            ctx.close(got[0], want[0], "%s: Jacobian (Gram matrix)" % p["t"], tol, tol)
            ctx.close(got[1], want[1], "%s: direction of the correction" % p["t"], tol, tol)
            ctx.close(e.error_norm(), np.sqrt(want[2]), "%s: error norm" % p["t"], tol, tol)
            ctx.close(np.asarray(e.error()).reshape(-1), gb, "%s: error()" % p["t"], 1e-12)
            if p["t"] in ("position", "com", "relative_position", "orientation", "relative_orientation", "momentum") and len(bb):
                ctx.close(gb, bb, "%s: error vector" % p["t"], 1e-8)
            if p["t"] == "manipulability":
                J = kin.J(p["f"], pin.LOCAL)[{"position": slice(0, 3), "orientation": slice(3, 6), "both": slice(0, 6)}[p["type"]], 6:]
                ctx.close(e.manipulability, np.sqrt(max(0., np.linalg.det(J @ J.T))), "manipulability", 1e-8)
            ctx.state(nm, s, b, j)
        ctx.trace()


def conv(case, ctx):
    """the task alone, repeatedly solved: its quantity reaches the target (if the target can be reached at all)"""
    nm, s = case["robot"], case["task"]
    r = R.make(nm)
    R.set_config(r, R.BASES[case["b"]], R.joint_vec(nm, case["j"]))
    solver = placo.KinematicsSolver(r)
    solver.dt = DT
    t = TR.make(solver, s)
    el = TR.elementary(t, s)
    if len(el) == 2:
        t.configure("task", "soft", 1., 1.)
    else:
        t.configure("task", "soft", 1.)
    solver.add_regularization_task(1e-6)
    for i in range(60):
        r.update_kinematics()
        solver.solve(True)
        ctx.step()
    r.update_kinematics()
    kin = TR.Kin(nm, r.state.q)
    for p in TR.parts(s):
        A, b = TR.expected(p, kin, DT)
        ctx.ok(np.linalg.norm(b) < 1e-4, "%s does not converge" % p["t"], b)
    ctx.state("conv", case)
    ctx.trace()
