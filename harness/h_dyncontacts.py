"""P21: contact forces are physically admissible and optimal."""
import itertools
import numpy as np
import dynref as D
import robots as R

BOUNDS = {
    "quick": "every contact type x friction x size x surface orientation x force, tangential and moment weights x 3 demands x 4 states; pairs of contacts and cyclic runs of 3 to 8 of 8 external actions; (de)activation, removal and parameter histories; impossible supports",
    "thorough": "same families x 12 states, all triples of contacts, longer histories",
}
# the tree robot, supported by its own frames
JT = {"t": "joints", "j": [[j, 0.] for j in R.TREE_JOINTS], "kp": 10.}
FR = {"t": "frame", "f": "tip", "r": 1, "p": [0, 0, 0], "kp": 0., "kd": 0.}   # no acceleration of the frame
FB = {"t": "frame", "f": "base", "r": 1, "p": [0, 0, 0], "kp": 0., "kd": 0.}
PT = {"t": "position", "f": "tip", "p": [0, 0, 0], "kp": 0., "kd": 0.}
PL = {"t": "position", "f": "tool", "p": [0, 0, 0], "kp": 0., "kd": 0.}
DEMAND = [[], [[{"t": "com", "p": [.2, .1, .3], "kp": 20.}, "soft", 1.]], [[{"t": "torque", "j": [["j1", 0.], ["k2", .4]]}, "soft", 10.], [{"t": "com", "p": [-1, 1, .3], "kp": 40.}, "soft", 5.]]]


def menu():
    W = [{}, {"weight_forces": 1e-2}, {"weight_tangentials": .1}, {"weight_moments": .5}, {"weight_forces": 1e-3, "weight_tangentials": 1., "weight_moments": .1}]
    for c in ("fixed", "planar"):
        for mu, (l, w), ws in itertools.product((1., .3, .04), ((.1, .06), (.4, .5)), W):
            yield [FB], [dict({"c": c, "task": 0, "mu": mu, "length": l, "width": w}, **ws)]
        yield [FR], [dict({"c": c, "task": 0, "length": .1, "width": .2}, **W[4])]
    for c in ("point", "upoint"):
        for mu, sf, ws in itertools.product((1., .3, .04), (0, 1, 2), (W[0], W[1], W[2], W[4])):
            yield [PT], [dict({"c": c, "task": 0, "mu": mu, "surf": sf}, **ws)]
            yield [PT, PL], [dict({"c": c, "task": 0, "mu": mu, "surf": sf}, **ws), dict({"c": "upoint", "task": 1, "mu": .7}, **ws)]
    for c in ("line", "uline"):
        for mu, l, sf, ws in itertools.product((1., .3), (.1, .5), (0, 1), W):
            yield [dict(FB, omask=["yz", "local"])], [dict({"c": c, "task": 0, "mu": mu, "length": l, "surf": sf}, **ws)]
    for ws in W[:2]:
        yield [{"t": "gear", "g": [["set", "j4", "j1", -.5]], "kp": 5.}], [dict({"c": "task", "task": 0}, **ws)]
        yield [{"t": "relative_position", "f": "m2", "g": "tool", "p": [.1, .3, .4], "kp": 4.}], [dict({"c": "task", "task": 0}, **ws)]
        yield [dict(PT, mask=["xz", "task"])], [dict({"c": "task", "task": 0}, **ws)]
    for c in ("fixed", "planar", "uline"):
        fb = dict(FB, omask=["yz", "local"]) if c == "uline" else FB
        for mu in (1., .4):
            yield [fb, PT], [{"c": c, "task": 0, "length": .2, "width": .2, "mu": mu}, {"c": "upoint", "task": 1, "mu": mu}]
            yield [fb, PL], [{"c": c, "task": 0, "length": .2, "width": .2, "mu": mu, "active": False}, {"c": "point", "task": 1, "mu": mu}]
            yield [fb, PL], [{"c": c, "task": 0, "length": .2, "width": .2, "mu": mu}, {"c": "ext", "f": "tool", "ref": "world", "w": [3, 0, -4, 0, .2, 0]}]


def cases(tier):
    deep = tier == "thorough"
    st = [(b, j, v) for b in range(4 if deep else 2) for j, v in (((0, 0), (1, 0), (2, 1)) if deep else ((0, 0), (1, 1)))]
    for t, c in menu():
        for d in DEMAND:
            for h in ("hard", "soft"):
                for b, j, v in st:
                    yield {"k": "one", "robot": "tree", "b": b, "j": j, "v": v, "tasks": [[x, h, 100.] for x in t] + [[JT, "soft", .1]] + d, "contacts": c, "opts": {}}
        # contacts and tasks built by the user
        if all(w not in c[0] for w in ("weight_forces", "weight_tangentials")) or deep:
            yield {"k": "one", "robot": "tree", "b": 1, "j": 1, "v": 1, "how": "user", "tasks": [[x, "soft", 100.] for x in t] + [[JT, "soft", .1]] + DEMAND[1], "contacts": c, "opts": {}}
    # many contacts together
    PP = {"t": "position", "p": [0, 0, 0], "kp": 0., "kd": 0.}
    many = [(FB, {"c": "planar", "length": .2, "width": .15, "mu": .6}), (PT, {"c": "upoint", "mu": .5, "weight_forces": 1e-2}), (PL, {"c": "point", "weight_forces": 1e-3}),
            (dict(PP, f="m2"), {"c": "upoint", "mu": .9, "weight_tangentials": .1, "weight_forces": 1e-2}), (dict(PP, f="l2"), {"c": "upoint", "mu": .3, "surf": 1, "weight_forces": 1e-2}),
            (None, {"c": "ext", "f": "tool", "ref": "world", "w": [3, 0, -4, 0, .2, 0]}), (None, {"c": "ext", "f": "m1", "ref": "local", "w": [0, 1, 0, .3, 0, 0]}), (None, {"c": "puppet", "weight_forces": 10.})]
    for n in range(3, len(many) + 1):
        for first, off, d in itertools.product(range(len(many)), (None, 0, n - 1), range(len(DEMAND))):
            sel = [many[(first + i) % len(many)] for i in range(n)]
            t = [x for x, c in sel if x]
            cs, k = [], 0
            for i, (x, c) in enumerate(sel):
                c = dict(c, active=i != off)
                if x:
                    c["task"], k = k, k + 1
                cs.append(c)
            b, j, v = st[(first + n) % len(st)]
            yield {"k": "one", "robot": "tree", "b": b, "j": j, "v": v, "tasks": [[x, "soft", 100.] for x in t] + [[JT, "soft", .1]] + DEMAND[d], "contacts": cs, "opts": {}}
    ops = [["off", 0], ["on", 0], ["off", 1], ["on", 1], ["mu", .2], ["mu", .8], ["len", .3], ["w", .5], ["uni", 0], ["uni", 1], ["rm", 1], ["state", 1]]
    for seq in itertools.product(ops, repeat=3 if deep else 2):
        yield {"k": "hist", "seq": list(seq)}
    for w in ("planar_size", "planar_width", "planar_length", "uline_len", "point_mask", "line_mask"):
        yield {"k": "bad", "w": w}
    for b in range(2):
        for w in ("pull", "tip"):
            yield {"k": "impossible", "b": b, "w": w}


def physical(ctx, st, label):
    """direct reading of the wrenches: unilateral, friction, centre of pressure"""
    for c, x in zip(st.case["contacts"], st.contacts):
        if not c.get("active", True) or c["c"] not in ("upoint", "planar", "uline", "fixed"):
            continue
        f = np.array(x.wrench).flatten()
        mu = c.get("mu", 1.)
        if c["c"] == "fixed":
            if abs(f[2]) > 1e-2:
                ctx.close(np.array(x.zmp()).flatten(), [-f[4] / f[2], f[3] / f[2], 0], label + ": zmp of the contact", 1e-6)
            continue
        F = f[:3] if c["c"] == "planar" else D.SURF[c.get("surf", 0)].T @ f[:3]
        tol = 1e-5 * (1 + np.abs(f).max())
        ctx.ok(F[2] >= -tol, label + ": a unilateral contact pulls", f)
        ctx.ok(max(abs(F[0]), abs(F[1])) <= mu * F[2] + tol, label + ": a contact slips", f)
        if c["c"] in ("planar", "uline"):
            m = [f[3], f[4]] if c["c"] == "planar" else [0., f[3]]
            ctx.ok(abs(m[1]) <= c["length"] / 2 * F[2] + tol and abs(m[0]) <= c.get("width", 1.) / 2 * F[2] + tol, label + ": the centre of pressure leaves the contact", f)
            if F[2] > 1e-2:
                z = np.array(x.zmp()).flatten()
                ctx.close(z, [-m[1] / F[2], m[0] / F[2], 0], label + ": zmp of the contact", 1e-6)


def run(case, ctx):
    ctx.state(case)
    if case["k"] == "one":
        st = D.Setup(case, R.shared("tree"))
        label = "contacts %s tasks %s" % (case["contacts"], [(s["t"], p) for s, p, w in case["tasks"]])
        res = D.judge(ctx, st, label)
        for c, x in zip(case["contacts"], st.contacts):
            if "task" in c and c["c"] != "task":
                f = case["tasks"][c["task"]][0]["f"]
                ctx.ok(x.position_task().frame_index == R.ref_model("tree").getFrameId(f), label + ": task of the contact")
                if c["c"] not in ("point", "upoint"):
                    want = np.array(st.tasks[c["task"]].orientation().R_world_frame)
                    ctx.close(x.orientation_task().R_world_frame, want, label + ": orientation task of the contact", 1e-12)
            elif c["c"] == "ext":
                ctx.ok(x.frame_index == R.ref_model("tree").getFrameId(c["f"]), label + ": frame of the external wrench")
        if res is not None and res.success:
            physical(ctx, st, label)
        return
    if case["k"] == "hist":
        return hist(case, ctx)
    ctx.trace(); ctx.step()
    if case["k"] == "impossible":
        # the floating base cannot be pulled down by a unilateral contact, nor held far from its support
        acc = [0, 0, -30.] if case["w"] == "pull" else [0, 0, 0]
        t = [[dict(PT), "hard", 1.], [{"t": "com", "p": [0, 0, 0], "kp": 0., "kd": 0., "ddp": acc if case["w"] == "pull" else [40., 0, 1.]}, "hard", 1.], [JT, "soft", .1]]
        st = D.Setup({"robot": "tree", "b": case["b"], "j": 0, "v": 0, "tasks": t, "contacts": [{"c": "upoint", "task": 0, "mu": .5}], "opts": {}}, R.shared("tree"))
        cons, n, N = st.reference()
        res = st.solver.solve()
        ctx.ok(not res.success, "impossible support (%s) reported as solved" % case["w"])
        return
    bad(case, ctx)


def hist(case, ctx):
    """parameters, activity and removal: after every prefix, the solve is the one of the current contacts"""
    tasks = [[FB, "soft", 100.], [PT, "soft", 100.], [JT, "soft", .1]]
    cs = [{"c": "planar", "task": 0, "length": .1, "width": .1, "mu": .5}, {"c": "upoint", "task": 1, "mu": .5, "weight_forces": 1e-3}]
    c = {"robot": "tree", "b": 1, "j": 1, "v": 0, "tasks": tasks, "contacts": cs, "opts": {}}
    st = D.Setup(c, R.shared("tree"))
    gone = False
    for n, (op, x) in enumerate(case["seq"] + [["none", 0]]):
        cs = st.case["contacts"]
        if op in ("on", "off"):
            if x < len(cs):
                st.contacts[x].active = op == "on"
                cs[x] = dict(cs[x], active=op == "on")
        elif op == "mu":
            for i in range(len(cs)):
                st.contacts[i].mu = x
                cs[i] = dict(cs[i], mu=x)
        elif op == "len":
            st.contacts[0].length = x
            cs[0] = dict(cs[0], length=x)
        elif op == "w":
            st.contacts[0].weight_moments = st.contacts[0].weight_tangentials = x
            cs[0] = dict(cs[0], weight_moments=x, weight_tangentials=x)
        elif op == "uni":
            st.contacts[0].unilateral = bool(x)
            cs[0] = dict(cs[0], c="planar" if x else "fixed")
        elif op == "rm":
            if not gone:
                st.solver.remove_contact(st.contacts.pop(1))
                cs.pop(1)
                gone = True
        elif op == "state":
            R.set_config(st.r, R.BASES[0], R.joint_vec("tree", 2), R.vel_vec(12, 1))
        label = "contacts after %s" % case["seq"][:n + 1]
        ctx.ok(st.solver.count_contacts() == len(cs), label + ": number of contacts")
        res = D.judge(ctx, st, label)
        if res is not None and res.success:
            physical(ctx, st, label)


def bad(case, ctx):
    w = case["w"]
    t, c = {"planar_size": (FB, {"c": "planar", "task": 0}), "planar_width": (FB, {"c": "planar", "task": 0, "length": .2}), "planar_length": (FB, {"c": "planar", "task": 0, "width": .2}), "uline_len": (dict(FB, omask=["yz", "local"]), {"c": "uline", "task": 0}),
            "point_mask": (dict(PT, mask=["xz", "task"]), {"c": "upoint", "task": 0}), "line_mask": (FB, {"c": "line", "task": 0})}[w]
    st = D.Setup({"robot": "tree", "b": 0, "j": 0, "v": 0, "tasks": [[t, "hard", 1.]], "contacts": [c], "opts": {}}, R.shared("tree"))
    ctx.raises(lambda: st.solver.solve(), "ill-defined contact (%s)" % w)
