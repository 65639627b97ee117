"""P22: dynamics tasks impose the second order error dynamics they document."""
import itertools
import numpy as np
import dynref as D
import robots as R
import taskref as TR

MASKS = [None, ["x", "task"], ["yz", "world"], ["z", "local"], ["xy", "local"], ["zx", "custom"]]
BOUNDS = {
    "quick": "every task type x targets (value, velocity, acceleration) x gains (default, kp, kp+kd, kd<0, kd=0) x masks x 6 states (configuration, velocity) x hard/soft; edits of targets and gains between solves; closed loops to convergence",
    "thorough": "same families x 16 states",
}
GAINS = [{}, {"kp": 30.}, {"kp": 12., "kd": 3.}, {"kp": 9., "kd": -2.}, {"kp": 5., "kd": 0.}, {"kp": 0., "kd": 4.}]
MOVE = [{}, {"dp": [.3, -.2, .5]}, {"dp": [-.4, .1, .2], "ddp": [1., -2., .5]}]


def menu():
    out = []
    for p in ([.4, .1, .3], [-.3, .5, .9]):
        for f in ("tool", "base"):
            out.append({"t": "position", "f": f, "p": p})
        out.append({"t": "com", "p": p})
        out += [{"t": "relative_position", "f": "m2", "g": "tool", "p": p}, {"t": "relative_position", "f": "base", "g": "tip", "p": p}, {"t": "relative_position", "f": "tool", "g": "base", "p": p}]
    for r in range(5):
        out += [{"t": "orientation", "f": f, "r": r} for f in ("tool", "tip")]
        out += [{"t": "relative_orientation", "f": f, "g": g, "r": r} for f, g in (("base", "tool"), ("m2", "tip"), ("tool", "tip"))]
    return out


JT = [[["j1", .5]], [["j1", .5, .3], ["k2", -.2, 0., 2.]], [["j3", .1], ["j1", .2], ["j3", .05, .4, -1.]], [[j, .1] for j in R.TREE_JOINTS], [[j, .1 * i, .2 - .1 * i, .3 * i] for i, j in enumerate(R.TREE_JOINTS)]]
GT = [[["set", "j4", "j1", -.5]], [["set", "j4", "j1", 2.], ["add", "j4", "k1", 1.]], [["set", "j4", "j1", 2.], ["set", "k2", "k1", 1.]],
      [["add", "j4", "j1", 2.], ["add", "j4", "k1", 1.], ["set", "j4", "j2", .5]], [["set", "k2", "k1", 1.], ["add", "j4", "j1", 2.], ["set", "k2", "j1", .5]],
      [["set", "j4", "j1", 2.], ["add", "j4", "k1", 1.], ["add", "j4", "k2", -.7], ["add", "j4", "j2", .4]], [["set", n, "j1", .4 * i - .6] for i, n in enumerate(("j2", "j3", "j4", "k1", "k2"))],
      [["add", "j4", "j1", 2.], ["add", "k2", "k1", 1.], ["add", "k2", "j1", 3.], ["add", "k2", "j2", -3.]]]
QT = [[["j1", 2.]], [["j1", 0., 1.5]], [["k2", 0., 0., .8], ["j2", 1., 2., .3]], [["j3", -3., 4., 1.], ["j4", .2]], [[j, .5 * i - 1., .3 * i, .2] for i, j in enumerate(R.TREE_JOINTS)]]


def cases(tier):
    deep = tier == "thorough"
    st = [(b, j, v) for b in range(4 if deep else 2) for j, v in (((0, 0), (1, 1), (2, 2), (3, 1)) if deep else ((0, 0), (1, 1), (2, 2)))]
    for s in menu():
        for m in MASKS:
            if m and m[1] == "local" and s["t"] not in ("position", "orientation"):
                continue
            for g in GAINS if m is None else GAINS[1:3]:
                for mv in MOVE if m is None else MOVE[2:]:
                    for b, j, v in st:
                        yield {"k": "one", "s": dict(s, mask=m, **g, **mv), "b": b, "j": j, "v": v}
    for t, L in (("joints", JT), ("gear", GT), ("torque", QT)):
        key = {"joints": "j", "gear": "g", "torque": "j"}[t]
        for x in L:
            for g in GAINS if t != "torque" else [{}]:
                for b, j, v in st:
                    yield {"k": "one", "s": dict({"t": t, key: x}, **g), "b": b, "j": j, "v": v}
    for g in GAINS[:3]:
        for b, j, v in st:
            yield {"k": "one", "s": dict({"t": "frame", "f": "tool", "r": 2, "p": [.4, .1, .3]}, **g), "b": b, "j": j, "v": v}
            yield {"k": "one", "s": dict({"t": "relative_frame", "f": "m2", "g": "tool", "r": 1, "p": [.4, .1, .3]}, **g), "b": b, "j": j, "v": v}
    # tasks built by the user
    for s in menu() + [{"t": t, k: x} for t, k, L in (("joints", "j", JT), ("gear", "g", GT), ("torque", "j", QT)) for x in L]:
        for m in MASKS if s["t"] not in ("joints", "gear", "torque") else [None]:
            if m and m[1] == "local" and s["t"] not in ("position", "orientation"):
                continue
            for b, j, v in st[-1:]:
                g = {} if s["t"] == "torque" else dict(GAINS[2])
                yield {"k": "one", "s": dict(s, mask=m, **g, **(MOVE[2] if s["t"] not in ("joints", "gear", "torque") else {})), "b": b, "j": j, "v": v, "how": "user"}
    # edits of an existing task
    E = [["target", 1], ["target", 2], ["kp", 7.], ["kd", 2.], ["kd", -1.], ["kd", 0.], ["kp", 0.], ["gkp", 21.], ["gkd", 5.], ["move", 1], ["mask", 0], ["mask", 1], ["solve", 0]]
    for s in ("position", "orientation", "frame", "relative_frame", "com", "relative_position", "relative_orientation", "joints"):
        if s in ("position", "orientation"):
            for m in (["z", "local"], ["xy", "local"], ["zx", "custom"]):
                for seq in itertools.product([e for e in E if e[0] in ("target", "move", "mask", "solve")], repeat=3 if deep else 2):
                    yield {"k": "edit", "s": s, "mask": m, "seq": [["solve", 0]] + list(seq), "b": 1, "j": 1, "v": 1}
        for seq in itertools.product(E, repeat=3 if deep else 2):
            if s in ("frame", "relative_frame", "joints") and any(o == "mask" for o, x in seq):
                continue
            yield {"k": "edit", "s": s, "seq": list(seq), "b": 1, "j": 1, "v": 1}
    for i, s in enumerate(LOOP):
        for b, j in ((0, 0), (1, 1)):
            yield {"k": "loop", "i": i, "b": b, "j": j}
    for w in ("reset", "unknown", "get"):
        yield {"k": "api", "w": w}


LOOP = [{"t": "position", "f": "tool", "p": [.3, .1, .35]}, {"t": "orientation", "f": "tool", "r": 1}, {"t": "com", "p": [.1, .05, .1]},
        {"t": "relative_position", "f": "m2", "g": "tool", "p": [.3, -.2, .5]}, {"t": "relative_orientation", "f": "m2", "g": "tool", "r": 1},
        {"t": "joints", "j": [["j1", .7], ["k2", -.4]]}, {"t": "frame", "f": "base", "r": 1, "p": [.1, .2, .3]}, {"t": "gear", "g": [["set", "j4", "j1", .5]]}]


def setup(case, s, prio, contacts=({"c": "puppet"},)):
    c = {"robot": "tree", "b": case["b"], "j": case["j"], "v": case.get("v", 0), "tasks": [[s, prio, 1.]], "contacts": list(contacts), "opts": case.get("opts", {}), "how": case.get("how")}
    return D.Setup(c, R.shared("tree"))


def run(case, ctx):
    if case["k"] == "one":
        s = case["s"]
        for prio in ("hard", "soft"):
            st = setup(case, s, prio)
            label = "%s task %s (%s) in state %s" % (s["t"], {k: v for k, v in s.items() if k != "t"}, prio, (case["b"], case["j"], case["v"]))
            D.judge(ctx, st, label)
            errors(ctx, st, s, label)
        ctx.state(case)
        return
    if case["k"] == "edit":
        return edit(case, ctx)
    if case["k"] == "loop":
        return loop(case, ctx)
    api(case, ctx)


def errors(ctx, st, s, label):
    for p, t in zip(D.parts(s), D.elementary(s, st.tasks[0])):
        A, b, e, de, tau = D.expected(p, st.kin)
        if e is None:
            continue
        ctx.close(np.array(t.error).flatten(), e, label + ": error reported by the task", 1e-7)
        ctx.close(np.array(t.derror).flatten(), de, label + ": velocity error reported by the task", 1e-7)


BASE = {"position": {"f": "tool", "p": [.4, .1, .3]}, "orientation": {"f": "tip", "r": 1}, "frame": {"f": "tool", "r": 1, "p": [.4, .1, .3]}, "com": {"p": [.1, 0, .2]},
        "relative_position": {"f": "m2", "g": "tool", "p": [.1, .3, .4]}, "relative_orientation": {"f": "m2", "g": "tool", "r": 1},
        "relative_frame": {"f": "m2", "g": "tool", "r": 1, "p": [.4, .1, .3]}, "joints": {"j": [["j1", .5]]}}


def edit(case, ctx):
    s = dict(BASE[case["s"]], t=case["s"])
    if case.get("mask"):
        s["mask"] = case["mask"]
    st = setup(case, s, "hard")
    t, r = st.tasks[0], st.r
    for n, (op, x) in enumerate(list(case["seq"]) + [["solve", 0]]):
        if op == "target":
            if "p" in s:
                s["p"] = [list(TR.POS[x])[i] + .01 * n for i in range(3)]
            if "r" in s:
                s["r"] = x + 1
            if s["t"] == "frame":
                t.T_world_frame = R.T(D.ROT[s["r"]], s["p"])
                ctx.close(t.T_world_frame, R.T(D.ROT[s["r"]], s["p"]), "frame target read back", 1e-9)
            elif s["t"] == "relative_frame":
                t.T_a_b = R.T(D.ROT[s["r"]], s["p"])
                ctx.close(t.T_a_b, R.T(D.ROT[s["r"]], s["p"]), "relative frame target read back", 1e-9)
            elif s["t"] in ("position", "com"):
                t.target_world = np.array(s["p"])
            elif s["t"] == "relative_position":
                t.target = np.array(s["p"])
            elif s["t"] == "orientation":
                t.R_world_frame = D.ROT[s["r"]]
            elif s["t"] == "relative_orientation":
                t.R_a_b = D.ROT[s["r"]]
            else:
                s["j"] = [["j1", .1 * x]] + ([["k1", .2]] if x == 2 else s["j"][1:])
                t.set_joints({a: b for a, b in s["j"]})
                ctx.close([t.get_joint(a) for a, b in s["j"]], [b for a, b in s["j"]], "joint targets read back", 1e-12)
        elif op in ("kp", "kd"):
            s[op] = x
            for e in D.elementary(s, t):
                setattr(e, op, x)
                ctx.close([getattr(e, op)], [x], "gain read back", 0.)
        elif op == "mask":
            s["mask"] = [["y", "task"], ["xz", "world"]][x]
            TR.set_mask(t, s["mask"])
        elif op == "gkp":
            s["kp"] = x
            st.solver.set_kp(x)
        elif op == "gkd":
            s["kd"] = x
            st.solver.set_kd(x)
        elif op == "move":
            R.set_config(r, R.BASES[0], R.joint_vec("tree", 2), R.vel_vec(12, 2))
        else:
            st.case["tasks"] = [[s, "hard", 1.]]
            label = "%s after %s" % (case["s"], case["seq"][:n])
            D.judge(ctx, st, label)
            errors(ctx, st, s, label)
        ctx.step()
        ctx.state(case["s"], case["seq"][:n + 1])


def loop(case, ctx):
    """integrated closed loop: the error decays like the documented second order system (critically damped by default)"""
    s = dict(LOOP[case["i"]], kp=100.)
    case = dict(case, opts={"dt": .005, "torque_cost": 1e-3})
    st = setup(case, s, "hard")
    # the remaining freedom is held by low priority tasks
    D.make(st.solver, {"t": "joints", "j": [[j, 0.] for j in R.TREE_JOINTS], "kp": 10.}).configure("j", "soft", 1e-2)
    f = st.solver.add_frame_task("base", R.BASES[case["b"]])
    f.configure("b", "soft", 1e-2, 1e-2)
    f.position().kp = f.orientation().kp = 10.
    hist = []
    for i in range(400):
        res = st.solver.solve(True)
        ctx.ok(res.success, "closed loop %s: solve failed" % s["t"])
        hist.append(max(np.abs(np.array(e.error)).max() for e in D.elementary(s, st.tasks[0])))
        st.r.update_kinematics()
        ctx.step()
    e0 = hist[0]
    # e(t) = e0 (1 + w t) exp(-w t), w = 10, t = 2 s: 4e-8
    ctx.ok(hist[-1] < 1e-3 * e0 + 1e-5, "closed loop %s: the error does not converge (%.3g -> %.3g)" % (s["t"], e0, hist[-1]))
    t = .005 * np.arange(400)
    if s["t"] in ("position", "joints", "com", "relative_position", "gear"):
        ref = e0 * (1 + 10 * t) * np.exp(-10 * t)
        ctx.ok(np.max(np.abs(ref - hist)) < .06 * e0 + 1e-4, "closed loop %s: the error does not follow the critically damped response (off by %.3g of %.3g)" % (s["t"], np.max(np.abs(ref - hist)), e0))
    ctx.trace()
    ctx.state("loop", case["i"], case["b"])


def api(case, ctx):
    st = setup({"b": 0, "j": 1, "v": 1}, {"t": "torque", "j": [["j1", 1.], ["k1", 2., 1., 1.]]}, "hard", contacts=())
    t = st.tasks[0]
    ctx.state(case["w"]); ctx.trace()
    if case["w"] == "reset":
        D.judge(ctx, st, "torque task")
        t.reset_torque("k1")
        st.case["tasks"] = [[{"t": "torque", "j": [["j1", 1.]]}, "hard", 1.]]
        D.judge(ctx, st, "torque task after reset_torque")
        t.reset_torque("j1")
        st.case["tasks"] = []
        D.judge(ctx, st, "torque task after everything was reset")
        t.set_torque("j2", .5)
        st.case["tasks"] = [[{"t": "torque", "j": [["j2", .5]]}, "hard", 1.]]
        D.judge(ctx, st, "torque task set again")
    elif case["w"] == "unknown":
        s = st.solver
        for f in (lambda: s.add_position_task("nope", np.zeros(3)), lambda: s.add_frame_task("nope", np.eye(4)), lambda: s.add_relative_position_task("tool", "nope", np.zeros(3)),
                  lambda: s.add_gear_task().set_gear("nope", "j1", 1.), lambda: s.add_external_wrench_contact("tool", "nope"), lambda: s.add_external_wrench_contact("nope", "world"),
                  lambda: s.set_qdd_safe("nope", 1.), lambda: s.set_torque_limit("nope", 1.)):
            ctx.raises(f, "unknown name")
            ctx.step()
    else:
        j = st.solver.add_joints_task()
        j.set_joint("j1", .3)
        ctx.close([j.get_joint("j1")], [.3], "get_joint", 0.)
        ctx.raises(lambda: j.get_joint("j2"), "get_joint of a joint which is not in the task")
