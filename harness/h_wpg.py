"""P27: a planned walk keeps the ZMP in the supports, moves the feet from footstep to footstep and stops where it must."""
import itertools
import numpy as np
import placo
import robots as R
import walkref as W
import wpgcheck as C
from walkref import vec
try:
    import placo_cxx_walk as cxx  # C++ functions which are not bound to Python (see lib/shim_walk.cpp)
except ImportError:
    cxx = None

PRM = [
    {},
    {"double_support_ratio": 0.},
    {"double_support_ratio": .27, "startend_double_support_ratio": 1.5, "zmp_margin": .03, "foot_zmp_target_x": .01, "foot_zmp_target_y": .03},
    {"double_support_ratio": 0., "startend_double_support_ratio": 2., "single_support_timesteps": 6, "single_support_duration": .36, "zmp_margin": .043, "foot_zmp_target_x": -.05, "walk_foot_rise_ratio": 0., "walk_foot_height": .03},
    {"double_support_ratio": .5, "walk_com_height": .5, "zmp_reference_weight": 10., "foot_zmp_target_y": -.035, "walk_trunk_pitch": .2, "foot_length": .2, "foot_width": .06},
]
STEPS = [(.0, .0, .0), (.06, .0, .0), (-.02, .03, .15), (.03, -.02, -.3), (0., 0., .35)]
STARTS = [(0, 0, 0), (.4, -1.1, 2.9)]
TR = [(.012, .008, -.015, .004), (.3, -.2, 1.1, 0.), (-1., .5, -2.8, .7)]
TILT = np.array([[1, 0, 0, .2], [0, .8, -.6, 0], [0, .6, .8, -.1], [0, 0, 0, 1]])
QUERIES = ["feet", "com", "trunk", "next", "prev1", "prev3", "support", "supports", "part", "vel", "transform"]
BOUNDS = {
    "quick": "5 parameter sets x 5 steps x 0..4 steps x 2 starting sides x 2 starting poses x 2 initial CoM x 3 planar transforms and a tilted one (hard constraints), 5 x 5 x 2 walks with soft constraints, time ratios on every support; supports of 12 and 31 timesteps; all sequences of <= 3 of 11 kinds of queries on a trajectory; ill-formed support lists",
    "thorough": "0..7 steps, all CoM offsets, sequences of <= 4 queries",
}
_robot = {}


def robot():
    if "r" not in _robot:
        _robot["r"] = R.make("sigmaban")
    return _robot["r"]


def params(i, dec=None):
    p = W.params(**{"single_support_timesteps": 5, **PRM[i]})
    if dec:
        p.single_support_timesteps = dec
    return p


def cases(tier):
    deep = tier == "thorough"
    for p, s in itertools.product(range(len(PRM)), range(len(STEPS))):
        for n in range(0, 8 if deep else 5):
            for side in range(2):
                for st in range(2):
                    for com in range(3) if deep else (0, 1) if n < 3 else (n % 2,):
                        yield {"k": "plan", "p": p, "s": s, "n": n, "side": side, "st": st, "com": com}
        for side in range(2):
            yield {"k": "soft", "p": p, "s": s, "n": 2, "side": side}
        for n, dec in ((1, 12), (3, 31)):
            yield {"k": "plan", "p": p, "s": s, "n": n, "side": n % 4 // 2, "st": 0, "com": 0, "dec": dec}
        for i in range(4):
            yield {"k": "ratio", "p": p, "s": s, "n": 2, "i": i}
    from mc import sequences
    for q in sequences(QUERIES, 4 if deep else 3, 1):
        yield {"k": "query", "ops": q}
    for i in range(8):
        yield {"k": "bad", "i": i}


def setup(case):
    prm = params(case["p"], case.get("dec"))
    side = W.SIDES[case.get("side", 0)]
    st = STARTS[case.get("st", 0)]
    Lf, Rf = W.feet(*st, prm.feet_spacing)
    pl = placo.FootstepsPlannerRepetitive(prm)
    pl.configure(*STEPS[case["s"]], case["n"])
    fs = pl.plan(side, Lf, Rf)
    sup = placo.FootstepsPlanner.make_supports(fs, 0., True, W.counts(prm)[1] > 0, True)
    off = [(0, 0), (.01, -.008), (-.015, .01)][case.get("com", 0)]
    com = W.T2(*st) @ np.array([*off, prm.walk_com_height, 1])
    return prm, sup, com[:3], placo.WalkPatternGenerator(robot(), prm)


def run(case, ctx):
    k = case["k"]
    if k == "query":
        return query(case, ctx)
    if k == "bad":
        return bad(case, ctx)
    prm, sup, com, wpg = setup(case)
    label = "walk %s" % {a: b for a, b in case.items() if a != "k"}
    t0 = 0. if case.get("side", 0) == 0 else 3.7
    for s in sup:
        s.t_start = -1.
    sup[0].t_start = t0
    if k == "soft":
        wpg.soft, wpg.zmp_in_support_weight, wpg.stop_end_support_weight = True, 50., 200.
        com = com + [.05, .12, 0]
    if k == "ratio":
        sup[case["i"] % len(sup)].time_ratio = (.6, 1.7, .8, 2.)[case["i"]]
    one, two, ends = W.counts(prm)
    d = prm.single_support_duration / one
    ctx.ok(prm.double_support_timesteps() == two and prm.startend_double_support_timesteps() == ends and prm.has_double_support() == (two > 0), label + ": timesteps of the supports")
    ctx.close([prm.dt(), prm.double_support_duration(), prm.startend_double_support_duration()], [d, two * d, ends * d], label + ": durations of the supports", 1e-12)
    for s in sup:
        n = one if len(s.footsteps) == 1 else ends if s.start or s.end else two
        ctx.ok(wpg.support_default_timesteps(s) == n, label + ": timesteps of a support")
        ctx.close(wpg.support_default_duration(s), n * d, label + ": duration of a support", 1e-12)
    plan = W.Plan(prm, sup, (com[:2], [0, 0], [0, 0]), t0)
    tr = wpg.plan(sup, com, t0)
    ctx.close([tr.com_target_z, tr.trunk_pitch, tr.trunk_roll], [prm.walk_com_height, prm.walk_trunk_pitch, 0.], label + ": CoM height and trunk inclination", 1e-12)
    ctx.step()
    ctx.ok(tr.replan_success, label + ": replan_success")
    for s, p in zip(sup, plan.parts):
        ctx.close(s.t_start, p.t0, label + ": the planned supports know when they start", 1e-9)
    ctx.state(*case.values())
    C.check(ctx, tr, plan, wpg, label=label)
    T = np.eye(4)
    for i, q in enumerate(TR):
        D = W.T2(*q)
        tr.apply_transform(D)
        T = D @ T
        C.check(ctx, tr, plan, wpg, T=T, label=label + " transformed", optimal=False, light=True)
        ctx.state(i, *case.values())
    # any rigid transform
    ts = [p.t0 + u * (p.t1 - p.t0) for p in plan.parts for u in (.05, .6)]
    get = lambda: [(np.array(tr.get_T_world_left(t)), np.array(tr.get_T_world_right(t)), vec(tr.get_p_world_CoM(t)), vec(tr.get_v_world_CoM(t)), vec(tr.get_a_world_CoM(t)),
                    vec(tr.get_v_world_left(t)), vec(tr.get_v_world_right(t)), np.array(tr.get_R_world_trunk(t)), [np.array(f.frame) for f in tr.get_support(t).footsteps]) for t in ts]
    a = get()
    tr.apply_transform(TILT)
    for t, (A, B) in zip(ts, zip(a, get())):
        Rt = TILT[:3, :3]
        want = (TILT @ A[0], TILT @ A[1], Rt @ A[2] + TILT[:3, 3], Rt @ A[3], Rt @ A[4], Rt @ A[5], Rt @ A[6], Rt @ A[7], [TILT @ F for F in A[8]])
        for w, b, n in zip(want, B, ("left foot", "right foot", "CoM", "CoM velocity", "CoM acceleration", "left foot velocity", "right foot velocity", "trunk", "support")):
            ctx.close(np.array(b), np.array(w), label + ": %s at %s after a transform" % (n, t), 1e-9)
    ctx.trace()


def boundaries(ctx, tr, plan, label):
    """at the very instant where a support ends and the next one starts, answers do not depend on what was asked before"""
    def ask(t):
        s = tr.get_support(t)
        both = tr.support_is_both(t)
        return (both, None if both else tr.support_side(t), len(s.footsteps), [np.array(f.frame) for f in s.footsteps], [cxx.is_flying(tr, W.L, t), cxx.is_flying(tr, W.R, t), cxx.remaining_supports(tr, t)] if cxx else None,
                tr.get_part_t_start(t), tr.get_part_t_end(t), len(tr.get_next_support(t, 1).footsteps), len(tr.get_prev_support(t, 1).footsteps))
    mids = [.5 * (p.t0 + p.t1) for p in plan.parts]
    for i in range(1, len(plan.parts)):
        t = tr.get_part_t_start(mids[i])
        got = []
        for m in (mids[i - 1], mids[i], mids[0], mids[-1]):
            tr.get_p_world_CoM(m), tr.get_T_world_left(m), tr.get_support(m)
            got.append(ask(t))
        for g in got[1:]:
            ctx.ok(all(np.array_equal(a, b) for a, b in zip(g[:3] + g[4:], got[0][:3] + got[0][4:])) and np.array_equal(np.array(g[3]), np.array(got[0][3])), label + ": what is answered at %s depends on the queries made before" % t)


def query(case, ctx):
    prm, sup, com, wpg = setup({"p": 0, "s": 2, "n": 3})
    plan = W.Plan(prm, sup, (com[:2], [0, 0], [0, 0]), 0.)
    tr = wpg.plan(sup, com, 0.)
    T = np.eye(4)
    ts = [.5 * (p.t0 + p.t1) for p in plan.parts]
    for q in case["ops"]:
        ctx.step()
        for t in ts:
            if q == "feet":
                tr.get_T_world_left(t), tr.get_T_world_right(t)
            elif q == "com":
                tr.get_p_world_CoM(t), tr.get_v_world_CoM(t), tr.get_a_world_CoM(t)
            elif q == "trunk":
                tr.get_R_world_trunk(t)
            elif q == "next":
                tr.get_next_support(t, 2).apply_offset(np.array([1., 1.]))
            elif q == "prev1":
                tr.get_prev_support(t, 1).apply_offset(np.array([1., 1.]))
            elif q == "prev3":
                tr.get_prev_support(t, 3)
            elif q == "support":
                tr.get_support(t).apply_offset(np.array([1., 1.]))
            elif q == "supports":
                for s in tr.get_supports():
                    s.apply_offset(np.array([.1, .1]))
                    s.support_polygon()
            elif q == "part":
                tr.get_part_t_start(t), tr.get_part_t_end(t), tr.get_part_end_dcm(t, 5.)
            elif q == "vel":
                tr.get_v_world_right(t), tr.get_v_world_foot(W.L, t)
        if q == "transform":
            D = W.T2(*TR[1])
            tr.apply_transform(D)
            T = D @ T
    ctx.state(case["ops"])
    boundaries(ctx, tr, plan, "after queries %s" % case["ops"])
    C.check(ctx, tr, plan, wpg, T=T, label="after queries %s" % case["ops"], optimal=False, light=True)
    ctx.trace()


def bad(case, ctx):
    prm, sup, com, wpg = setup({"p": case["i"] % 2, "s": 1, "n": 3})
    i = case["i"] // 2
    fs = placo.Footsteps()
    pl = placo.FootstepsPlannerRepetitive(prm)
    pl.configure(.05, 0, 0, 3)
    fs = pl.plan(W.L, *W.feet(0, 0, 0, prm.feet_spacing))
    mk = lambda *f: placo.FootstepsPlanner.make_supports(fs, 0., *f)
    dbl = W.counts(prm)[1] > 0
    if i == 0:
        ctx.raises(lambda: wpg.plan(placo.Supports(), com, 0.), "planning without supports")
    elif i == 1:
        ctx.raises(lambda: wpg.plan(mk(True, dbl, False), com, 0.), "planning a walk whose last foot never lands")
    elif i == 2:
        ctx.raises(lambda: wpg.plan(mk(False, dbl, True), com, 0.), "planning a walk which starts with a foot in the air")
    else:
        ctx.raises(lambda: wpg.plan(sup, com + [1., 0, 0], 0.), "planning from a CoM from which the walk is impossible")
    ctx.step()
    ctx.state(case["i"])
    ctx.trace()
