"""P15: priorities and weights of kinematics tasks: the step is the optimum of the stated problem."""
import itertools
import numpy as np
import placo
import kinref as K
import robots as R
import taskref as TR

BOUNDS = {
    "quick": "all sets of <= 3 of 12 tasks x all hard/soft/scaled assignments x 2 weights, 4 configurations, cyclic runs of 4 to 12 tasks, with and without masked base; weights 9 orders of magnitude apart, tiny errors",
    "thorough": "the same and all sets of 4 of 8 tasks x all assignments",
}
MENU = [
    {"t": "position", "f": "tool", "p": [.35, .3, .45]},
    {"t": "orientation", "f": "m2", "r": 1},
    {"t": "frame", "f": "base", "r": 1, "p": [.1, 0, .1]},
    {"t": "com", "p": [.1, .05, .2], "mask": ["xy", "task"]},
    {"t": "joints", "j": [["j1", .5], ["k2", -.4]]},
    {"t": "relative_position", "f": "base", "g": "tool", "p": [.35, .2, .5]},
    {"t": "axisalign", "f": "l1", "ax": [0, 0, 1], "tg": [1, .2, -.4]},
    {"t": "gear", "g": [["set", "k1", "j2", 2.]]},
    {"t": "distance", "f": "tool", "g": "tip", "d": .6},
    {"t": "position", "f": "tip", "p": [0., .3, -.5], "mask": ["xz", "local"]},
    {"t": "momentum", "p": [.1, 0, -.2], "mask": ["z", "task"]},
    {"t": "joints", "j": [["j1", -.8], ["j4", .3]]},
]
PR = ["hard", "soft", "scaled"]


def cases(tier):
    deep, full = True, tier == "thorough"
    cfgs = [(0, 1), (1, 2)] + ([(2, 0), (3, 1)] if deep else [])
    reg = [{"t": "regularization", "w": 1e-3}, "soft", 1.]
    for b, j in cfgs:
        for k in (1, 2, 3):
            idx = range(len(MENU)) if k < 3 or deep else (0, 2, 3, 4, 5, 7, 11)
            for sub in itertools.combinations(idx, k):
                for pr in itertools.product(PR, repeat=k):
                    for fb in (False, True) if k < 3 or deep else (False,):
                        yield {"robot": "tree", "b": b, "j": j, "dt": .1, "fbase": fb,
                               "tasks": [[MENU[i], p, [1., 5.][(n + i) % 2]] for n, (i, p) in enumerate(zip(sub, pr))] + [reg]}


        # many tasks together
        for n in range(4, len(MENU) + 1):
            for first in range(len(MENU)):
                idx = [(first + i) % len(MENU) for i in range(n)]
                for hard in (None, 0, n - 1):
                    yield {"robot": "tree", "b": b, "j": j, "dt": .1, "fbase": bool(first % 2),
                           "tasks": [[MENU[i], "hard" if k == hard else "scaled" if k == 2 and first % 3 == 0 else "soft", [1., 5., .3][k % 3]] for k, i in enumerate(idx)] + [reg]}
        if full:
            for sub in itertools.combinations((0, 2, 3, 4, 5, 7, 9, 11), 4):
                for pr in itertools.product(PR, repeat=4):
                    yield {"robot": "tree", "b": b, "j": j, "dt": .1, "fbase": False,
                           "tasks": [[MENU[i], p, [1., 5.][(n + i) % 2]] for n, (i, p) in enumerate(zip(sub, pr))] + [reg]}

    # far apart weights, tiny errors, tiny targets
    T1, T2 = MENU[0], MENU[5]
    for b, j in cfgs:
        for w1, w2 in itertools.permutations((1e-5, 1e-4, 1., 1e4), 2):
            for fb in (False, True):
                for a, c in ((0, 5), (3, 4), (4, 11), (1, 9)):
                    yield {"robot": "tree", "b": b, "j": j, "dt": .1, "fbase": fb,
                           "tasks": [[MENU[a], "soft", w1], [MENU[c], "soft", w2], [{"t": "regularization", "w": 1e-6}, "soft", 1.]]}
        q = R.joint_vec("tree", j)
        names = [n for n in R.ref_model("tree").names if n in ("j1", "k2", "j4")]
        m = R.ref_model("tree")
        for eps in (5e-3, 1e-4):
            for pr in PR:
                near = {"t": "joints", "j": [[n, float(q[m.joints[m.getJointId(n)].idx_q - 7]) + eps * (i + 1)] for i, n in enumerate(names)]}
                for other in (MENU[0], MENU[3]):
                    for po in PR:
                        yield {"robot": "tree", "b": b, "j": j, "dt": .1, "fbase": True, "tasks": [[near, pr, 1.], [other, po, 1.], reg]}


def run(case, ctx):
    st = K.Setup(case, R.shared("tree"))
    K.judge(ctx, st, "tasks %s" % [(s["t"], p) for s, p, w in case["tasks"][:-1]])
    for t, (s, p, w) in zip(st.tasks, case["tasks"]):
        for e in TR.elementary(t, s):
            ctx.ok(e.priority == p, "priority of a task", e.priority)
    ctx.ok(st.solver.tasks_count() == sum(len(TR.parts(s)) for s, p, w in case["tasks"]), "tasks_count", st.solver.tasks_count())
    ctx.state(case)
