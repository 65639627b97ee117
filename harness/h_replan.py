"""P28: replanning a walk at any instant continues it without a jump, keeps its promises, and failing leaves it as it was."""
import itertools
import numpy as np
import placo
import h_wpg as H
import qpref
import walkref as W
import wpgcheck as C
from walkref import vec

STEPS = [(.06, .0, .0), (-.02, .03, .15), (.03, -.02, -.3)]
BOUNDS = {
    "quick": "5 parameter sets (with and without double supports) x 2 sides x {replan with one of 2 new steps, impossible replan} at 12 instants over 3 supports, each followed by {replan with one of 2 steps, impossible replan, move the world} at 3 instants; all 18 triples of operations at 3 patterns of instants; chains of 8 operations (all pairs repeated); the single replans and part of the pairs again on walks of 1 and 2 steps and on walks whose supports have their own pace",
    "thorough": "one step more, 27 instants then 5, triples at all 125 patterns of instants",
}
OPS = ["r0", "r1", "bad", "move"]


def cases(tier):
    deep = tier == "thorough"
    # instants: (how many supports ahead, fraction of that support)
    inst = [(a, f) for a in (0, 1, 2) for f in ((.06, .34, .71, .93) if not deep else (.03, .15, .27, .34, .48, .61, .71, .87, .97))]
    few = [(0, .34), (1, .71), (2, .12)] if not deep else [(0, .34), (1, .15), (1, .71), (2, .12), (2, .9)]
    for p in range(len(H.PRM)):
        for side in range(2):
            for a in inst:
                for o1 in ("r0", "r1", "bad") + (("r2",) if deep else ()):
                    yield {"p": p, "side": side, "ops": [[o1, *a]]}
                    for b in few:
                        for o2 in OPS:
                            yield {"p": p, "side": side, "ops": [[o1, *a], [o2, *b]]}
    for p in range(len(H.PRM)):
        for o in itertools.product(("r1", "bad", "move"), ("r0", "bad", "move"), ("r1", "bad")):
            for ia in itertools.product(few, repeat=3) if deep else zip(few, few[1:] + few, few[2:] + few):
                yield {"p": p, "side": p % 2, "ops": [[x, *i] for x, i in zip(o, ia)]}
    # long chains: a walk replanned over and over
    for p in range(len(H.PRM)):
        for a, b in itertools.product(OPS, repeat=2):
            for n, at in enumerate(([(1, .34), (0, .71)], [(2, .12), (1, .6)]) if not deep else itertools.product(few, repeat=2)):
                if (a, b) != ("move", "move"):
                    yield {"p": p, "side": (p + n) % 2, "ops": [[a, *at[0]], [b, *at[1]]] * 4}
    # short walks (the end is near), supports with their own pace
    for p in range(len(H.PRM)):
        for var in ({"n": 1}, {"n": 2}, {"pace": 1}):
            for a in inst:
                for o1 in ("r0", "r1", "bad"):
                    yield {"p": p, "side": (p + 1) % 2, "ops": [[o1, *a]], **var}
                    if a[1] == .34 or deep:
                        for b in few:
                            for o2 in OPS:
                                yield {"p": p, "side": (p + 1) % 2, "ops": [[o1, *a], [o2, *b]], **var}


def can(plan, i):
    p, q = plan.parts[i], plan.parts[min(i + 1, len(plan.parts) - 1)]
    return not (p.start or p.end or p.both or q.end)


def run(case, ctx):
    prm, sup, com, wpg = H.setup({"p": case["p"], "s": 1, "n": case.get("n", 4), "side": case["side"]})
    if "pace" in case:
        for k, q in enumerate(sup):
            q.time_ratio = (1., .8, 1.3, .7, 1.2)[k % 5]
    pl = placo.FootstepsPlannerRepetitive(prm)
    plan = W.Plan(prm, sup, (com[:2], [0, 0], [0, 0]), 0.)
    tr = wpg.plan(sup, com, 0.)
    for q in plan.parts:
        q.began = q.t0
    T = np.eye(4)
    for num, (op, ahead, frac) in enumerate(case["ops"]):
        label = "%s, operation %d" % (case, num)
        ctx.step()
        if op == "move":
            D = W.T2(.3, -.4, 1.9)
            tr.apply_transform(D)
            T = D @ T
            continue
        i = min(ahead + (num == 0), len(plan.parts) - 1)
        p = plan.parts[i]
        t = p.t0 + frac * (p.t1 - p.t0)
        ctx.ok(wpg.can_replan_supports(tr, t) == can(plan, i), label + ": can_replan_supports")
        if not can(plan, i):
            pl.configure(*STEPS[0], 3)
            ctx.raises(lambda: wpg.replan_supports(pl, tr, t, tr.t_start), label + ": replan_supports")
            if op != "bad":
                continue
        if op == "bad":
            far = placo.FootstepsPlanner.truncate_supports(tr.get_supports(), len(plan.parts), False)
            for q in far:
                q.apply_offset(np.array([5., 0.]))
            tr = failing(ctx, wpg, tr, plan, far, t, i, T, label)
            continue
        pl.configure(*STEPS[int(op[1])], 3)
        cur, nxt = p, plan.parts[i + 1]
        side = cur.order[0]
        Lf, Rf = (T @ (cur.feet if s == side else nxt.feet)[s] for s in (W.L, W.R))
        fs = pl.plan(side, Lf, Rf)
        want = placo.FootstepsPlanner.make_supports(fs, 0., False, W.counts(prm)[1] > 0, True)
        sup = wpg.replan_supports(pl, tr, t, tr.t_start)
        ctx.ok(len(sup) == len(want), label + ": replanned supports")
        for a, b in zip(sup, want):
            ctx.ok([f.side for f in a.footsteps] == [f.side for f in b.footsteps] and a.end == b.end and not a.start, label + ": replanned supports")
            ctx.close([np.array(f.frame) for f in a.footsteps], [np.array(f.frame) for f in b.footsteps], label + ": replanned supports", 1e-7)
        e = cur.e + (t - cur.t0) / cur.full
        ctx.close([sup[0].elapsed_ratio, sup[0].time_ratio], [e, cur.ratio], label + ": elapsed and time ratios of the current support", 1e-9)
        ctx.close(sup[0].t_start, cur.began, label + ": when the current support began", 1e-9)
        ctx.ok(all(s.elapsed_ratio == 0 and s.time_ratio == 1 for s in list(sup)[1:]), label + ": next supports start at zero")
        com0 = [vec(f(t))[:2] for f in (tr.get_p_world_CoM, tr.get_v_world_CoM, tr.get_a_world_CoM)]
        fly = W.other(side)
        get = tr.get_T_world_left if fly == W.L else tr.get_T_world_right
        yT = W.yaw(T)
        yaws = {k: (lambda q: (q[0] + yT, q[1]))(W.through(plan.Y[k], t)) for k in (W.L, W.R, "trunk")}
        fly0 = (np.array(get(t))[:3, 3], vec(tr.get_v_world_foot(fly, t)))
        before = snapshot(tr, plan, t, i)
        newplan = W.Plan(prm, sup, com0, t, fly0, yaws)
        n, cons = newplan.qp()
        if any(q.ambiguous for q in newplan.parts):
            break
        feasible, margin = qpref.feasible(cons, 2 * n)
        if abs(margin) < 1e-5:
            break
        if not feasible:
            tr = failing(ctx, wpg, tr, plan, sup, t, i, T, label)
            continue
        new = wpg.replan(sup, tr, t)
        ctx.ok(new.replan_success, label + ": a possible replan fails", margin)
        ctx.close(snapshot(tr, plan, t, i), before, label + ": a replan changes the previous walk", 0.)
        # no jump
        for f in ("get_p_world_CoM", "get_v_world_CoM", "get_a_world_CoM", "get_T_world_left", "get_T_world_right", "get_R_world_trunk"):
            ctx.close(np.array(getattr(new, f)(t)), np.array(getattr(tr, f)(t)), label + ": jump of %s when replanning" % f, 1e-7)
        for s in (W.L, W.R):
            ctx.close(vec(new.get_v_world_foot(s, t)), vec(tr.get_v_world_foot(s, t)), label + ": jump of the velocity of a foot when replanning", 1e-6)
        ctx.close(new.get_part_t_end(t + 1e-6), cur.t1, label + ": the current step lasts as long as planned", 1e-9)
        T = np.eye(4)
        for q in newplan.parts:
            q.began = q.t0
        newplan.parts[0].began = cur.began
        plan, tr = newplan, new
        C.check(ctx, tr, plan, wpg, label=label, light=True)
        for s, q in zip(sup, plan.parts):
            ctx.close(s.t_start, q.began, label + ": the planned supports know when they start", 1e-9)
            ctx.close(tr.get_support((q.t0 + q.t1) / 2).t_start, q.began, label + ": the supports of the walk know when they start", 1e-9)
        ctx.state(*case.values(), num)
    ctx.trace()


def failing(ctx, wpg, tr, plan, sup, t, i, T, label):
    """a replan no CoM motion can satisfy: the walk goes on as it was"""
    before = snapshot(tr, plan, t, i)
    new = wpg.replan(sup, tr, t)
    ctx.ok(not new.replan_success, label + ": an impossible replan is a success")
    ctx.close(snapshot(tr, plan, t, i), before, label + ": a failed replan changes the previous walk", 0.)
    ctx.close(snapshot(new, plan, t, i), before, label + ": a failed replan does not continue the previous walk", 1e-9)
    trim(plan, i, t)
    ctx.close([new.t_start, new.t_end], [t, plan.t_end], label + ": interval of the walk", 1e-9)
    ctx.ok(len(new.parts) == len(plan.parts), label + ": parts left after a failed replan")
    ctx.close([(q.t_start, q.t_end) for q in new.parts], [(q.t0, q.t1) for q in plan.parts], label + ": parts after a failed replan", 1e-9)
    ctx.close(new.get_support(t).elapsed_ratio, plan.parts[0].e, label + ": elapsed ratio after a failed replan", 1e-9)
    for s, q in zip(new.get_supports(), plan.parts):
        C.close_support(ctx, s, q, T, label + " after a failed replan")
        ctx.close(s.t_start, q.began, label + " after a failed replan: when the support began", 1e-9)
    ctx.state(label)
    return new


def trim(plan, i, t):
    p = plan.parts[i]
    p.e += (t - p.t0) / p.full
    p.t0 = t
    plan.parts = plan.parts[i:]
    plan.t_start = t


def snapshot(tr, plan, t, i):
    """everything the walk answers from t on"""
    out = []
    for k, p in enumerate(plan.parts[i:]):
        a = max(t, p.t0)
        for u in (.02, .4, .97):
            s = a + u * (p.t1 - a)
            out += [vec(f(s)) for f in (tr.get_p_world_CoM, tr.get_v_world_CoM, tr.get_a_world_CoM, tr.get_j_world_CoM, tr.get_T_world_left, tr.get_T_world_right, tr.get_R_world_trunk)]
            out.append(vec(tr.get_support(s).target_world_dcm))
    return np.concatenate(out)
