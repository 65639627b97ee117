"""P25: supports and their polygons describe exactly the feet on the ground, whatever was computed or moved before."""
import itertools
import numpy as np
import placo
import walkref as W
from mc import pumped, sequences
try:
    import placo_cxx_walk as cxx  # C++ functions which are not bound to Python (see lib/shim_walk.cpp)
except ImportError:
    cxx = None

BOUNDS = {
    "quick": "make_supports over 2..14 footsteps x all 8 flag combinations x 3 walks, all truncations; single and double supports over 4 foot sizes x 9 x 7 x 7 relative poses; all sequences of <= 4 of 8 move / read operations on a support and its copies; point containment on a 21 x 21 grid; equality and transforms of footsteps and supports over 8 relative poses x 3 x 4 pairs of sides",
    "thorough": "2..24 footsteps, 15 x 11 x 11 relative poses, sequences of <= 6 operations",
}
PR = W.params()
OPS = ["poly", "fpoly", "offset", "xy", "frame", "transform_copy", "resize", "frame_read"]


def walk(n, k):
    fs = []
    M, side = W.T2(.1, .2, .3), W.L
    for i in range(n):
        f = placo.Footstep(PR.foot_width, PR.foot_length)
        f.side, f.frame = side, M
        fs.append(f)
        M = W.apply_step(PR, side, M, [(.05, .02, .1), (.0, -.03, -.3), (-.02, 0., 0.)][k])
        side = W.other(side)
    return fs


def cases(tier):
    deep = tier == "thorough"
    for n in range(0, 25 if deep else 15):
        for k in range(3):
            yield {"k": "make", "n": n, "w": k}
    for a, b in ((.15, .1), (.3, .05), (.1, .1), (.2, .12)):
        for dx in np.linspace(-.4, .4, 15 if deep else 9):
            yield {"k": "poly", "len": a, "wid": b, "dx": round(float(dx), 4), "ny": 11 if deep else 7}
    for s in sequences(OPS, 6 if deep else 4, 1):
        yield {"k": "hist", "ops": s}
    for s in pumped(OPS, 8):
        yield {"k": "hist", "ops": s}
    for p in range(4):
        yield {"k": "contains", "p": p}
    yield {"k": "empty"}
    if cxx:
        for d in ([], [.0, 0, 0, 0], [1e-4, 0, 0, 0], [0, -2e-3, 0, 0], [0, 0, 5e-3, 0], [0, 0, 0, 1e-3], [1., 0, 0, 0], [0, 0, 6.4, 0]):
            for base in range(3):
                yield {"k": "eq", "d": d, "base": base}


def vec_footsteps(fs):
    v = placo.Footsteps()
    for f in fs:
        v.append(f)
    return v


def support(fs):
    s = placo.Support()
    s.footsteps = vec_footsteps(fs)
    return s


def check_polygon(ctx, s, label):
    fs = list(s.footsteps)
    pts = np.vstack([W.corners(np.array(f.frame), f.foot_length, f.foot_width) for f in fs])
    got = np.array([np.array(p).flatten() for p in s.support_polygon()])
    ref = W.hull(pts)
    ctx.ok(len(got) >= 3 and np.all(np.isfinite(got)), label + ": degenerate polygon", got)
    u = np.roll(got, -1, 0) - got
    area = .5 * np.sum(got[:, 0] * np.roll(got, -1, 0)[:, 1] - got[:, 1] * np.roll(got, -1, 0)[:, 0])
    ra = .5 * np.sum(ref[:, 0] * np.roll(ref, -1, 0)[:, 1] - ref[:, 1] * np.roll(ref, -1, 0)[:, 0])
    ctx.ok(area < 0, label + ": the polygon is not clockwise", got)
    ctx.close(-area, ra, label + ": area of the support polygon", 1e-9)
    ccw = got[::-1]
    for p in pts:
        ctx.ok(W.inside(ccw, p) > -1e-9, label + ": a corner of a foot is outside the support polygon", p)
    for p in got:
        ctx.ok(W.inside(ref, p) > -1e-9, label + ": the support polygon exceeds the feet", p)
    for f in fs:
        fp = np.array([np.array(p).flatten() for p in f.support_polygon()])
        ctx.close(fp, W.corners(np.array(f.frame), f.foot_length, f.foot_width), label + ": polygon of a footstep", 1e-9)


def mid(A, B):
    M = W.T2(*(.5 * (A[:2, 3] + B[:2, 3])), 0, .5 * (A[2, 3] + B[2, 3]))
    ya, yb = W.yaw(A), W.yaw(B)
    M[:3, :3] = W.T2(0, 0, ya + .5 * ((yb - ya + np.pi) % (2 * np.pi) - np.pi))[:3, :3]
    return M


def check_support(ctx, s, sides, label):
    fs = list(s.footsteps)
    ctx.ok([f.side for f in fs] == sides, label + ": sides")
    ctx.ok(s.is_both() == (len(fs) == 2), label + ": is_both")
    if len(fs) == 1:
        ctx.ok(s.side() == fs[0].side, label + ": side")
        ctx.close(s.frame(), fs[0].frame, label + ": frame", 1e-9)
        ctx.raises(lambda: s.footstep_frame(W.other(fs[0].side)), label + ": frame of the foot in the air")
    else:
        ctx.raises(lambda: s.side(), label + ": side of a double support")
        ctx.close(s.frame(), mid(np.array(fs[0].frame), np.array(fs[1].frame)), label + ": frame", 1e-7)
    for f in fs:
        ctx.close(s.footstep_frame(f.side), f.frame, label + ": footstep_frame", 0.)
    check_polygon(ctx, s, label)


def run(case, ctx):
    k = case["k"]
    if k == "make":
        make(case, ctx)
    elif k == "poly":
        for dy in np.linspace(-.3, .3, case["ny"]):
            for th in np.linspace(-1.5, 1.5, case["ny"]):
                f, g = placo.Footstep(case["wid"], case["len"]), placo.Footstep(case["wid"], case["len"])
                f.side, g.side = W.R, W.L
                f.frame = W.T2(.3, -.2, .4, .03 * (case["len"] > .16))
                g.frame = W.T2(.3, -.2, .4, .11) @ W.T2(case["dx"], dy, th, -.05)
                check_support(ctx, support([f]), [W.R], "single support")
                check_support(ctx, support([f, g]), [W.R, W.L], "double support at %s %s %s" % (case["dx"], dy, th))
                ctx.step(2)
                ctx.state(case["len"], case["wid"], case["dx"], dy, th)
        ctx.trace()
    elif k == "contains":
        f = placo.Footstep(.1, .15)
        f.side, f.frame = W.L, [W.T2(0, 0, 0), W.T2(1., 2., .7), W.T2(-1, 0, -2.), W.T2(0, 0, 1.57)][case["p"]]
        poly = f.support_polygon()
        ref = W.hull(W.corners(np.array(f.frame), .15, .1))
        for x, y in itertools.product(np.linspace(-.12, .12, 21), repeat=2):
            p = np.array(f.frame)[:2, 3] + [x, y]
            d = W.inside(ref, p)
            if abs(d) > 1e-9:
                ctx.step()
                ctx.ok(placo.Footstep.polygon_contains(poly, p) == (d > 0), "polygon_contains", p, d)
        ctx.trace()
        ctx.state(case["p"])
    elif k == "empty":
        s = placo.Support()
        ctx.step()
        ctx.state("empty")
        ctx.raises(lambda: s.side(), "side of a support without feet")
        ctx.raises(lambda: s.frame(), "frame of a support without feet")
        ctx.raises(lambda: s.footstep_frame(W.L), "foot of a support without feet")
        ctx.ok(len(s.support_polygon()) == 0 and not s.is_both(), "polygon of a support without feet")
        s.apply_offset(np.array([1., 2.]))
        ctx.trace()
    elif k == "eq":
        equality(case, ctx)
    else:
        hist(case, ctx)


def equality(case, ctx):
    """two footsteps are the same one if, and only if, it is the same foot at the same place; same for supports"""
    base = [W.T2(.1, .2, .3), W.T2(0, 0, 0), W.T2(-3., 2., -2.8, .1)][case["base"]]
    other = base if not case["d"] else base @ W.T2(*case["d"])
    differs = not np.allclose(base, other, atol=1e-9)
    for sa, sb in itertools.product(W.SIDES, repeat=2):
        f, g = placo.Footstep(.1, .15), placo.Footstep(.1, .15)
        f.side, f.frame, g.side, g.frame = sa, base, sb, other
        ctx.step()
        ctx.ok(cxx.footstep_eq(f, g) == cxx.footstep_eq(g, f) == (sa == sb and not differs), "equality of footsteps which differ by %s" % case["d"], str(sa), str(sb))
        A, B = support([f]), support([g])
        ctx.ok(cxx.support_eq(A, B) == (sa == sb and not differs), "equality of single supports which differ by %s" % case["d"])
        o = placo.Footstep(.1, .15)
        o.side, o.frame = W.other(sa), base @ W.T2(0, .2, 0)
        A, B = support([o, f]), support([o, g])
        ctx.ok(cxx.support_eq(A, B) == (sa == sb and not differs), "equality of double supports which differ by %s" % case["d"])
        ctx.ok(not cxx.support_eq(A, support([o])) and not cxx.support_eq(support([o]), A), "equality of supports with a different number of feet")
        ctx.ok(not cxx.support_eq(A, support([f, o])) or sa == sb, "equality of supports")
        # transformed supports
        dcm = [.3, -.2] if case["base"] else [0., 0.]
        A.target_world_dcm = np.array(dcm)
        A.support_polygon()
        M = W.T2(.4, -.2, 1.1, .2)
        C = cxx.transform_support(M, A)
        for a, c in zip(A.footsteps, C.footsteps):
            ctx.close(np.array(c.frame), M @ np.array(a.frame), "footsteps of a transformed support", 1e-12)
            ctx.ok(c.side == a.side, "sides of a transformed support")
        ctx.close(np.array(C.target_world_dcm).flatten(), (M @ [*dcm, 0, 1])[:2], "target DCM of a transformed support", 1e-12)
        check_support(ctx, C, [o.side, f.side], "transformed support")
        check_support(ctx, A, [o.side, f.side], "support which was transformed")
        # tilted transforms
        M = M @ W.pitch(.3)
        C = cxx.transform_support(M, A)
        ctx.close([np.array(c.frame) for c in C.footsteps], [M @ np.array(a.frame) for a in A.footsteps], "footsteps of a tilted support", 1e-12)
        ctx.close(np.array(C.target_world_dcm).flatten(), (M @ [*dcm, 0, 1])[:2], "target DCM of a tilted support", 1e-12)
        ctx.state(case["d"], case["base"], str(sa), str(sb))
    ctx.trace()


def hist(case, ctx):
    fs = walk(2, 0)
    s = support(fs)
    model = [np.array(f.frame) for f in fs]
    sizes = [(PR.foot_length, PR.foot_width)] * 2
    copies = []
    for op in case["ops"]:
        ctx.step()
        if op == "poly":
            s.support_polygon()
        elif op == "fpoly":
            for f in s.footsteps:
                f.support_polygon()
        elif op == "offset":
            s.apply_offset(np.array([.1, -.05]))
            for M in model:
                M[:2, 3] += [.1, -.05]
        elif op == "xy":
            s.footsteps[0].set_frame_xy(.4, .3)
            model[0][:2, 3] = .4, .3
        elif op == "frame":
            model[1] = W.T2(-.2, .1, 1.2)
            s.footsteps[1].frame = model[1]
        elif op == "transform_copy":
            c = support(list(s.footsteps))
            c.apply_offset(np.array([1., 0.]))
            copies.append((c, [W.T2(1., 0, 0) @ M for M in model], list(sizes)))
        elif op == "resize":
            sizes[0] = (sizes[0][0] * 1.5, sizes[0][1])
            s.footsteps[0].foot_length = sizes[0][0]
        elif op == "frame_read":
            s.frame()
        ctx.state([M.round(6).tolist() for M in model], sizes, len(copies))
    for sup, mod, siz in [(s, model, sizes)] + copies:
        for f, M, z in zip(sup.footsteps, mod, siz):
            ctx.close(f.frame, M, "frame of a footstep after %s" % case["ops"], 1e-12)
            ctx.ok(abs(f.foot_length - z[0]) < 1e-12, "size of a footstep after %s" % case["ops"])
        check_support(ctx, sup, [W.L, W.R], "after %s" % case["ops"])
    ctx.trace()


def same(ctx, s, want, label):
    got = [np.array(f.frame) for f in s.footsteps]
    ctx.ok(len(got) == len(want) and all(np.array_equal(g, np.array(w.frame)) for g, w in zip(got, want)) and
           [f.side for f in s.footsteps] == [w.side for w in want], label + ": footsteps of a support")


def make(case, ctx):
    n = case["n"]
    fs = walk(n, case["w"])
    for start, middle, end in itertools.product((True, False), repeat=3):
        label = "make_supports of %d footsteps start=%s middle=%s end=%s" % (n, start, middle, end)
        call = lambda: placo.FootstepsPlanner.make_supports(vec_footsteps(fs), 1.5, start, middle, end)
        ctx.step()
        ctx.state(n, case["w"], start, middle, end)
        if n < 2:
            if end:
                ctx.raises(call, label + ": needs two footsteps")
            continue
        sup = call()
        want = []
        if n > 2:
            if start:
                want.append(([0, 1], True, False, 1.5))
            else:
                want.append(([0], False, False, 1.5))
                if middle:
                    want.append(([0, 1], False, False, 1.5))
            for i in range(1, n - 1):
                want.append(([i], False, False, -1.))
                if middle and i < n - 2:
                    want.append(([i, i + 1], False, False, -1.))
        if end:
            want.append(([n - 2, n - 1], False, True, -1.))
        ctx.ok(len(sup) == len(want), label + ": number of supports", len(sup), len(want))
        for s, (idx, st, en, t) in zip(sup, want):
            same(ctx, s, [fs[i] for i in idx], label)
            ctx.ok(s.start == st and s.end == en and s.t_start == t and s.elapsed_ratio == 0. and s.time_ratio == 1., label + ": attributes", s.start, s.end, s.t_start)
            check_support(ctx, s, [fs[i].side for i in idx], label)
        # truncation
        for k in range(-1, len(want) + 2):
            for add in (False, True):
                tr = lambda: placo.FootstepsPlanner.truncate_supports(sup, k, add)
                lab = label + " truncated at %d add_end=%s" % (k, add)
                ctx.step()
                ok = 0 <= k <= len(want) and not (add and (k == 0 or (k == len(want) and not want[k - 1][2])))
                if not ok:
                    ctx.raises(tr, lab + ": impossible truncation")
                    continue
                head = tr()
                w2 = want[:k]
                if add and not want[k - 1][2]:
                    a = want[k - 1][0][0]
                    b = [i for i in want[k][0] if fs[i].side != fs[a].side][0]
                    w2 = w2 + [([a, b], False, True, None)]
                ctx.ok(len(head) == len(w2), lab + ": number of supports", len(head), len(w2))
                for s, (idx, st, en, t) in zip(head, w2):
                    same(ctx, s, [fs[i] for i in idx], lab)
                    ctx.ok(s.end == en, lab + ": end flag")
    ctx.trace()
