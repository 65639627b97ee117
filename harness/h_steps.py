"""P24: footsteps planners stay in the allowed envelope, do not overlap the feet, and reach what they are asked."""
import itertools
import numpy as np
import placo
import walkref as W

PRM = [
    {},
    {"walk_max_dtheta": 1.6, "walk_dtheta_spacing": .0},
    {"feet_spacing": .125, "walk_dtheta_spacing": .02},
    {"walk_max_dx_forward": .2, "walk_max_dx_backward": .15, "walk_max_dy": .1, "walk_max_dtheta": .8, "foot_length": .22, "feet_spacing": .14},
    {"walk_max_dy": .12, "foot_width": .05, "foot_length": .3, "feet_spacing": .2, "walk_max_dtheta": 2.},
    {"walk_max_dy": 0., "walk_dtheta_spacing": 0.},
    {"walk_max_dx_backward": 0., "walk_max_dtheta": 0., "walk_max_dy": .08},
]
BOUNDS = {
    "quick": "7 parameter sets x step grid (7 x 7 x 7) x 3 clippings, x 2 sides with overlap avoidance; repetitive plans over the grid x 0..5 steps x 2 sides x 3 starts (at 3 heights); naive plans: 6 x 5 x 7 targets x 2 sides x 3 starts x 3 parameter sets, 54 of them with 4 unusual stances and 3 very far ones, with feet and targets at 3 pairs of heights; all sequences of 3 of 7 changes of targets, start, side and parameters on a planner used again and again; overlaps: 4 foot sizes x 11 x 9 x 9 relative poses x 3 margins",
    "thorough": "same families, 11 x 11 x 9 step grid, all parameter sets, 0..9 steps, 9 x 9 x 11 naive targets, 21 x 17 x 17 relative poses",
}
STARTS = [(0, 0, 0), (.4, -1.1, 2.2), (-3., 2., -1.3)]
KINDS = ["ellipsoid", "box", "conic"]


def cases(tier):
    deep = tier == "thorough"
    gx = (-.3, -.05, -.03, -.01, 0., .04, .08, .1, .16, .3, 1.) if deep else (-.3, -.03, -.01, 0., .04, .08, .3)
    gy = (-.4, -.1, -.04, -.03, -.01, 0., .01, .03, .04, .1, .4) if deep else (-.4, -.04, -.01, 0., .02, .04, .3)
    gt = (-2., -.6, -.35, -.1, 0., .1, .3, .6, 2.) if deep else (-1.5, -.35, -.1, 0., .1, .4, 1.2)
    for i in range(len(PRM)):
        for x in gx:
            yield {"k": "clip", "p": i, "x": x, "ys": gy, "ts": gt}
            for y in gy:
                yield {"k": "overlapclip", "p": i, "x": x, "y": y, "ts": gt}
        for x, y, t in itertools.product(gx[::2], gy[::2], gt[::2]):
            for s in range(2):
                yield {"k": "rep", "p": i, "step": [x, y, t], "n": list(range(10 if deep else 6)), "s": s}
    tx = (-.5, -.3, -.1, 0., .05, .2, .45, 1., 3.) if deep else (-.3, 0., .05, .2, .45, 1.)
    ty = (-.6, -.3, -.1, -.02, 0., .02, .1, .3, .6) if deep else (-.3, -.02, 0., .1, .5)
    tt = (-3., -2., -1., -.35, -.1, 0., .1, .3, .8, 1.8, 2.9) if deep else (-2., -.6, -.1, 0., .3, 1., 2.9)
    for i in range(5) if deep else (0, 2, 3):
        for st in range(3):
            for x, y, t in itertools.product(tx, ty, tt):
                yield {"k": "naive", "p": i, "st": st, "to": [x, y, t]}
            # feet asked for unusual stances: apart, staggered, turned, or far away
            for x, y, t in itertools.product(tx[::2], ty[::2], tt[::2]):
                for apart in ([.03, 0, 0], [.05, .04, .1], [-.02, -.06, -.2], [0, .1, .4]):
                    yield {"k": "naive", "p": i, "st": st, "to": [x, y, t], "apart": apart}
            for to in ([9., 0, 0], [-4., 8., 1.], [0, -30., 3.]):
                yield {"k": "naive", "p": i, "st": st, "to": to}
    # one planner used again and again: each plan is the one of a planner which was never used
    for seq in itertools.product(range(len(HIST)), repeat=4 if deep else 3):
        yield {"k": "hist", "p": 0, "seq": list(seq)}
    sizes = ((.15, .1), (.3, .05), (.1, .1), (.2, .12))
    for (a, b) in sizes:
        for dx in np.linspace(-.3, .3, 21 if deep else 11):
            for dy in np.linspace(-.24, .24, 17 if deep else 9):
                yield {"k": "overlap", "len": a, "wid": b, "d": [round(float(dx), 4), round(float(dy), 4)], "n": 17 if deep else 9}


HIST = ["left", "right", "both", "start", "side", "params", "asked"]


def hist(case, ctx):
    prm, prm2 = W.params(), W.params()
    decoy = W.feet(-2., 1., .5, .1)
    pl, rep = placo.FootstepsPlannerNaive(prm), placo.FootstepsPlannerRepetitive(prm)
    Lf, Rf = W.feet(0, 0, 0, prm.feet_spacing)
    tl, tr = W.feet(.4, .2, .6, prm.feet_spacing)
    side, step, n = W.L, [.05, .01, .1], 3
    for i, k in enumerate(["none"] + case["seq"]):
        op = HIST[k] if k != "none" else k
        if op == "left":
            tl = tl @ W.T2(.03, .02, .1)
        elif op == "right":
            tr = tr @ W.T2(.04, -.03, -.2)
        elif op == "both":
            tl, tr = W.T2(-.3, .5, .8) @ tl, W.T2(-.3, .5, .8) @ tr
        elif op == "start":
            Lf, Rf = W.T2(.1, -.2, 1.) @ Lf, W.T2(.1, -.2, 1.) @ Rf
        elif op == "side":
            side = W.other(side)
        elif op == "params":
            for p in (prm, prm2):
                p.feet_spacing, p.foot_width, p.walk_max_dx_backward = p.feet_spacing + .02, p.foot_width + .01, p.walk_max_dx_backward * .7
        elif op == "asked":
            step, n = [-.02, .02, -.2], 5 - n
        got = []
        for a, b in ((pl, rep), (placo.FootstepsPlannerNaive(prm2), placo.FootstepsPlannerRepetitive(prm2))):
            if a is not pl:
                # something else in between
                a.configure(*decoy), a.plan(W.other(side), *W.feet(3., 0, 0, .1))
                b.configure(.01, 0, 0, 1), b.plan(W.other(side), *decoy)
            a.configure(tl, tr)
            b.configure(*step, n)
            got.append((a.plan(side, Lf, Rf), b.plan(side, Lf, Rf)))
            ctx.step(2)
        for x, y, what in zip(got[0], got[1], ("naive", "repetitive")):
            label = "%s plan after %s" % (what, [HIST[j] for j in case["seq"][:i]])
            ctx.ok(len(x) == len(y), label + ": number of footsteps", len(x), len(y))
            for f, g in zip(x, y):
                close_T(ctx, f.frame, g.frame, label + ": footsteps", 1e-12)
                ctx.ok(f.side == g.side and f.foot_width == g.foot_width == prm.foot_width and f.foot_length == g.foot_length, label + ": sides and sizes")
        ctx.state("hist", case["seq"][:i])
    ctx.trace()


def close_T(ctx, A, B, what, tol=1e-9):
    ctx.close(np.array(A), np.array(B), what, tol)


def run(case, ctx):
    k = case["k"]
    if k == "hist":
        return hist(case, ctx)
    if k == "overlap":
        return overlap(case, ctx)
    prm = W.params(**PRM[case["p"]])
    if k == "clip":
        for y, t in itertools.product(case["ys"], case["ts"]):
            s = np.array([case["x"], y, t])
            for kind in KINDS:
                got = np.array(getattr(prm, kind + "_clip")(s)).flatten()
                ctx.step()
                ctx.close(got, W.clip(prm, kind, s), "%s clipping of %s" % (kind, s), 1e-12)
                ctx.ok(W.envelope(prm, kind, got) <= 1 + 1e-9, "%s clipping of %s leaves the envelope" % (kind, s), got)
                ctx.close(np.array(getattr(prm, kind + "_clip")(got)).flatten(), got, "clipping twice", 1e-12)
                ctx.state(case["p"], kind, s.tolist())
        ctx.trace()
    elif k == "overlapclip":
        for t, kind, side in itertools.product(case["ts"], KINDS, W.SIDES):
            s = [case["x"], case["y"], t]
            got = np.array(getattr(prm, kind + "_overlap_clip")(side, np.array(s))).flatten()
            ctx.step()
            ctx.state(case["p"], kind, s, str(side))
            judge_clipped(ctx, prm, kind, side, s, got, "%s overlap clipping of %s on %s" % (kind, s, side))
        ctx.trace()
    elif k == "rep":
        side = W.SIDES[case["s"]]
        pl = placo.FootstepsPlannerRepetitive(prm)
        for st in STARTS:
            Lf, Rf = W.feet(*st, prm.feet_spacing, .07 * st[0])
            for n in case["n"]:
                pl.configure(*case["step"], n)
                fs = pl.plan(side, Lf, Rf)
                ctx.step()
                ctx.state(case["p"], case["step"], n, str(side), st)
                label = "repetitive plan of %d steps %s" % (n, case["step"])
                ctx.ok(len(fs) == 2 + n, label + ": number of footsteps", len(fs))
                initial(ctx, prm, fs, side, Lf, Rf, label)
                for i in range(2, len(fs)):
                    got = W.step_of(prm, fs[i - 1].side, np.array(fs[i - 1].frame), np.array(fs[i].frame))
                    judge_clipped(ctx, prm, "conic", fs[i - 1].side, case["step"] if i < len(fs) - 1 else [0, 0, 0], got, label + ", step %d" % (i - 1))
                f = fs[1]
                o = pl.opposite_footstep(f, *case["step"])
                close_T(ctx, o.frame, W.apply_step(prm, f.side, np.array(f.frame), case["step"]), "opposite footstep")
                ctx.ok(o.side == side and o.foot_width == prm.foot_width and o.foot_length == prm.foot_length, "opposite footstep: side and size")
                c = pl.clipped_opposite_footstep(f, *case["step"])
                judge_clipped(ctx, prm, "conic", f.side, case["step"], W.step_of(prm, f.side, np.array(f.frame), np.array(c.frame)), "clipped opposite footstep")
                ctx.ok(c.side == side, "clipped opposite footstep: side")
        ctx.trace()
    elif k == "naive":
        st = STARTS[case["st"]]
        z0, z1 = ((0., 0.), (0., .7), (.04, -.03))[case["st"]]     # height of the feet, of their targets
        Lf, Rf = W.feet(*st, prm.feet_spacing, z0)
        c = W.T2(*st, z1) @ W.T2(*case["to"])
        ap = case.get("apart", [0, 0, 0])
        tl, tr = c @ W.T2(ap[1] / 2, ap[0] + prm.feet_spacing / 2, ap[2]), c @ W.T2(-ap[1] / 2, -prm.feet_spacing / 2, 0)
        pl = placo.FootstepsPlannerNaive(prm)
        for side in W.SIDES:
            pl.configure(tl, tr)
            fs = pl.plan(side, Lf, Rf)
            ctx.step()
            ctx.state(case["p"], case["st"], case["to"], str(side))
            label = "naive plan from %s to %s, %s first" % (st, case["to"], side)
            initial(ctx, prm, fs, side, Lf, Rf, label)
            for i in range(2, len(fs)):
                s = W.step_of(prm, fs[i - 1].side, np.array(fs[i - 1].frame), np.array(fs[i].frame))
                ctx.ok(W.envelope(prm, "ellipsoid", s) <= 1 + 1e-6, label + ": step %d too large" % (i - 1), s)
                ctx.close(np.array(fs[i].frame)[2], [0, 0, 1, z0], label + ": footstep not on the floor", 1e-9)
            ctx.ok(len(fs) <= 102, label + ": more than a hundred steps", len(fs))
            ctx.ok(len(fs) >= 4, label + ": both feet must step")
            if len(fs) < 102:
                for f in (fs[len(fs) - 1], fs[len(fs) - 2]):
                    got = np.array(f.frame)
                    got[2, 3] += z1 - z0
                    close_T(ctx, got, tl if f.side == W.L else tr, label + ": the plan (%d footsteps) stops before its target" % len(fs), 1e-6)
            # left and right are alike: the mirrored request gives the mirrored plan
            pl.configure(mirror(tr), mirror(tl))
            ms = pl.plan(W.other(side), mirror(Rf), mirror(Lf))
            for i, (a, b) in enumerate(zip(fs, ms)):
                if i and behind(prm, a, c):
                    break   # as good to turn left as to turn right
                ctx.ok(b.side == W.other(a.side), label + ": sides of the mirrored plan")
                close_T(ctx, mirror(np.array(a.frame)), b.frame, label + ": footstep %d of the mirrored plan" % i, 1e-6)
            else:
                ctx.ok(len(fs) == len(ms), label + ": length of the mirrored plan", len(fs), len(ms))
            ctx.step()
            if len(fs) >= 102 and "apart" not in case:   # some stances are out of reach
                ctx.ok(np.hypot(*case["to"][:2]) > 2.5 * min(prm.walk_max_dx_backward, prm.walk_max_dy) * 10, label + ": the plan never ends")
        ctx.trace()


def mirror(T):
    S = np.diag([1., -1., 1., 1.])
    return S @ T @ S


def behind(prm, f, c):
    """the target is right behind the support, or turned by half a turn"""
    T = np.array(f.frame) @ W.T2(0, (-1 if f.side == W.L else 1) * prm.feet_spacing / 2, 0)
    D = np.linalg.inv(T) @ c
    return np.pi - abs(np.arctan2(D[1, 3], D[0, 3])) < 1e-6 or np.pi - abs(W.yaw(D)) < 1e-6


def initial(ctx, prm, fs, side, Lf, Rf, label):
    for i, f in enumerate(fs):
        ctx.ok(f.side == (side if i % 2 == 0 else W.other(side)), label + ": sides do not alternate")
        ctx.ok(f.foot_width == prm.foot_width and f.foot_length == prm.foot_length, label + ": foot size")
    for f in (fs[0], fs[1]):
        close_T(ctx, f.frame, Lf if f.side == W.L else Rf, label + ": initial footsteps")


def judge_clipped(ctx, prm, kind, side, asked, got, label):
    """got is the asked step (spread when turning), scaled into the envelope, then just as much as needed to keep the feet apart"""
    s = np.array(asked, float)
    s[1] += (-1 if side == W.L else 1) * prm.walk_dtheta_spacing * abs(s[2])
    ref = W.clip(prm, kind, s)
    ctx.ok(W.envelope(prm, kind, got) <= 1 + 1e-9, label + ": outside the envelope", got)
    n = np.linalg.norm(ref)
    lam = 1. if n < 1e-12 else (got @ ref) / n ** 2
    ctx.close(got, lam * ref, label + ": not a scaled down version of the step", 1e-9)
    ctx.ok(-1e-9 <= lam <= 1 + 1e-9, label + ": scale", lam)
    foot = W.corners(np.eye(4), prm.foot_length, prm.foot_width, 1e-2)
    sep = lambda l: W.separation(foot, W.corners(W.apply_step(prm, side, np.eye(4), l * ref), prm.foot_length, prm.foot_width, 1e-2))
    if sep(0.) > 1e-9:
        ctx.ok(sep(lam) > -1e-9, label + ": the feet overlap", sep(lam))
    if lam < 1 - 1e-9:
        ls = np.linspace(lam, min(1., 1.25 * lam + 1e-3), 12)
        ctx.ok(any(sep(l) < 1e-9 for l in ls), label + ": shortened for no reason", lam)


def overlap(case, ctx):
    a, b = case["len"], case["wid"]
    for th in np.linspace(-np.pi / 2, np.pi / 2, case["n"]):
        for base in (W.T2(0, 0, 0), W.T2(.7, -2., 2.6)):
            f, g = placo.Footstep(b, a), placo.Footstep(b, a)
            f.side, g.side = W.L, W.R
            f.frame, g.frame = base, base @ W.T2(*case["d"], th)
            for m in (0., .01, -.02):
                s = W.separation(W.corners(np.array(f.frame), a, b, m), W.corners(np.array(g.frame), a, b, m))
                if abs(s) < 1e-6:
                    continue
                ctx.step()
                ctx.ok(f.overlap(g, m) == (s < 0) and g.overlap(f, m) == (s < 0), "overlap of feet %sx%s at %s, %.3f rad, margin %s" % (a, b, case["d"], th, m), "separation %.4f" % s)
            ctx.state(a, b, case["d"], th)
    ctx.trace()
