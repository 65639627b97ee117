"""P33: the visual aids show exactly what they were last given."""
import contextlib
import importlib.util
import io
import itertools
import os
import sys
import numpy as np
import placo
import dynref as D
import robots as R
import taskref as TR
import walkref as W
from mc import pumped, sequences

SRC = os.environ.get("PLACO_REPO", "/repo") + "/python/placo_utils/visualization.py"
BOUNDS = {
    "quick": "all sequences of <= 3 drawing calls out of 27 (frames, points, point sets, paths, lines, crosses, cylinders, arrows in every direction, footsteps, supports, robot frames before and after moves); "
             "arrows over 26 directions x 3 lengths x 3 origins; contact forces of all ordered pairs of 7 contacts x all activations before and after x 2 states, and one removal",
    "thorough": "all sequences of <= 4 drawing calls; contact forces of all ordered triples of 7 contacts",
}


class Node:
    """stand-in for the viewer: records the scene tree instead of sending it"""

    def __init__(self, scene, path=()):
        self.scene, self.path = scene, path

    def __getitem__(self, name):
        return Node(self.scene, self.path + tuple(x for x in str(name).split("/") if x))

    def set_object(self, geometry, material=None):
        if hasattr(geometry, "geometry"):
            geometry, material, kind = geometry.geometry, geometry.material, type(geometry).__name__
        else:
            kind = type(geometry).__name__
        self.scene.setdefault(self.path, [None, None, None, None])[:3] = kind, geometry, material

    def set_transform(self, T=np.eye(4)):
        self.scene.setdefault(self.path, [None, None, None, None])[3] = np.array(T, float)

    def delete(self):
        for p in [p for p in self.scene if p[:len(self.path)] == self.path]:
            del self.scene[p]

    def set_property(self, *a):
        pass

    def url(self):
        return ""


def primitives(scene):
    out = []
    for path, (kind, geo, mat, _) in scene.items():
        if geo is None:
            continue
        T = np.eye(4)
        for i in range(len(path) + 1):
            n = scene.get(path[:i])
            if n is not None and n[3] is not None:
                T = T @ n[3]
        T = T @ np.array(geo.intrinsic_transform())
        at = lambda p: (T @ np.append(np.asarray(p, float), 1.))[:3]
        c = mat.color if mat is not None else None
        s = np.linalg.norm(T[:3, 0])
        if kind == "Sphere":
            out.append(("sphere", c, np.concatenate([at([0, 0, 0]), [geo.radius * s]])))
        elif kind == "Cylinder":
            out.append(("rod", c, rod(at([0, -geo.height / 2, 0]), at([0, geo.height / 2, 0]), geo.radiusBottom * s, geo.radiusTop * s)))
        elif kind in ("LineSegments", "LineLoop", "Line"):
            P = np.array(geo.position, float).T
            P = np.hstack([P, np.zeros((len(P), 3 - P.shape[1]))])
            n = len(P)
            E = [(i, i + 1) for i in range(0, n - 1, 2)] if kind == "LineSegments" else [(i, (i + 1) % n) for i in range(n if kind == "LineLoop" else n - 1)]
            for i, j in E:
                if np.linalg.norm(P[i] - P[j]) > 1e-9:
                    out.append(("edge", c, edge(at(P[i]), at(P[j]))))
        else:
            out.append((kind, c, np.zeros(1)))
    return out


def first(a, b):
    for x, y in zip(a, b):
        if abs(x - y) > 1e-7:
            return x < y
    return True


def edge(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return np.concatenate([a, b] if first(a, b) else [b, a])


def rod(a, b, ra, rb):
    """a cylinder or cone from a (radius ra) to b (radius rb)"""
    a, b = np.asarray(a, float), np.asarray(b, float)
    return np.concatenate([a, b, [ra, rb]] if first(a, b) else [b, a, [rb, ra]])


def match(ctx, scene, want, label):
    got = primitives(scene)
    ctx.ok(len(got) == len(want), "%s: %d shapes are shown, expected %d" % (label, len(got), len(want)), sorted(g[0] for g in got), sorted(w[0] for w in want))
    left = list(got)
    for k, c, v in want:
        best = [g for g in left if g[0] == k and (c is None or g[1] == c) and len(g[2]) == len(v) and np.abs(g[2] - v).max() < 1e-6]
        ctx.ok(bool(best), "%s: no %s (colour %s) at %s" % (label, k, c and hex(c), np.round(v, 4).tolist()), [(g[0], g[1] and hex(g[1]), np.round(g[2], 4).tolist()) for g in left if g[0] == k][:4])
        left = [g for g in left if g is not best[0]]


class FakeRobotViz:
    def __init__(self, *models):
        self.models = models

    def initViewer(self, viewer=None, **k):
        self.viewer = viewer

    def loadViewerModel(self, name="", **k):
        self.name = name


def fresh():
    """the module in its initial state, drawing into a recorded scene"""
    sys.dont_write_bytecode = True
    if "spec" not in R._cache:
        R._cache["spec"] = compile(open(SRC).read(), SRC, "exec")
    import types
    V = types.ModuleType("placo_visualization")
    exec(R._cache["spec"], V.__dict__)
    scene = {}
    V.meshcat = types.SimpleNamespace(Visualizer=lambda *a, **k: Node(scene))
    V.pin_viz = types.SimpleNamespace(MeshcatVisualizer=FakeRobotViz)
    return V, scene


AX = {"x": (0xFF0000, 0), "y": (0x00FF00, 1), "z": (0x0000FF, 2)}


def frame_shapes(T, scale=1.):
    return [("rod", c, rod(T[:3, 3], T[:3, 3] + .1 * scale * T[:3, i], .005 * scale, .005 * scale)) for c, i in AX.values()]


def arrow_shapes(a, b, color=0xFF0000, radius=.003):
    a, b = np.array(a, float), np.array(b, float)
    L = np.linalg.norm(b - a)
    u = (b - a) / L
    m = b - 3 * radius * u
    return [("rod", color, rod(a, m, radius, radius)), ("rod", color, rod(m, b, 2 * radius, 0.))]


TA, TB = R.T(R.rpy(.3, -.2, 1.), [.1, .2, .3]), R.T(R.rpy(-1., .5, 2.), [-.4, 0, .7])
PT = np.array([[.1, .2, .3], [.4, -.1, .2], [0, 0, .5], [.3, .3, .3], [-.2, .1, 0]])
OPS = ["frame_a1", "frame_a2", "frame_b", "point_a1", "point_a2", "point_b", "points_a3", "points_a1", "points_a0", "points_b2", "path_a5", "path_a3", "path_a1", "path_b2", "line_a", "line_a2",
       "cross_a", "cyl_a", "arrow_a1", "arrow_a2", "arrow_b", "foot3", "foot2", "foot0", "sup", "rframe", "rmove"]
DIRS = [np.array(d, float) / np.linalg.norm(d) for d in itertools.product((-1, 0, 1), repeat=3) if any(d)]
CON = [{"c": "point", "task": "pt"}, {"c": "upoint", "task": "pl"}, {"c": "fixed", "task": "fb"}, {"c": "line", "task": "ln", "length": .3}, {"c": "ext", "f": "m1", "ref": "world", "w": [4, -3, 8, .1, .2, -.3]},
       {"c": "puppet"}, {"c": "task", "task": "gear"}]
TASK = {"pt": {"t": "position", "f": "tip", "p": [0, 0, 0], "kp": 0., "kd": 0.}, "pl": {"t": "position", "f": "tool", "p": [0, 0, 0], "kp": 0., "kd": 0.},
        "fb": {"t": "frame", "f": "base", "r": 1, "p": [0, 0, 0], "kp": 0., "kd": 0.}, "ln": {"t": "frame", "f": "l2", "r": 1, "p": [0, 0, 0], "kp": 0., "kd": 0., "omask": ["yz", "local"]},
        "gear": {"t": "gear", "g": [["set", "j4", "j1", -.5]], "kp": 5.}}
JT = {"t": "joints", "j": [[j, 0.] for j in R.TREE_JOINTS], "kp": 10.}


def cases(tier):
    deep = tier == "thorough"
    for s in sequences(OPS, 4 if deep else 3, 1):
        yield {"k": "draw", "ops": s}
    for s in pumped(OPS, 6):
        yield {"k": "draw", "ops": s}
    for i in range(len(DIRS)):
        yield {"k": "arrow", "d": i}
    for sub in itertools.permutations(range(len(CON)), 3 if deep else 2):
        for b, j in ((0, 0), (1, 1)):
            yield {"k": "contacts", "c": list(sub), "b": b, "j": j}


def footsteps(n):
    p = W.params()
    pl = placo.FootstepsPlannerRepetitive(p)
    pl.configure(.05, .01, .1, max(0, n - 2))
    l, r = W.feet(.1, -.2, .4, p.feet_spacing)
    out = pl.plan(placo.HumanoidRobot_Side.left, l, r)
    return p, out


def steps_list(n):
    key = ("steps", n)
    if key not in R._cache:
        p, f = footsteps(3)
        L = placo.Footsteps()
        for x in list(f)[:n]:
            L.append(x)
        R._cache[key] = (p, L, placo.FootstepsPlanner.make_supports(f, 0., True, True, True))
    return R._cache[key]


def poly_edges(poly, T, c):
    P = [(T @ np.array([*xy, 0, 1.]))[:3] for xy in poly]
    return [("edge", c, edge(P[i], P[(i + 1) % len(P)])) for i in range(len(P))]


def foot_shapes(L, T=np.eye(4)):
    out = []
    for f in L:
        fs = list(f.footsteps) if isinstance(f, placo.Support) else [f]
        poly = [np.array(v) for v in f.support_polygon()]   # decided by P25
        color = 0x1111AA if len(fs) > 1 else (0xFF3333 if fs[0].side == placo.HumanoidRobot_Side.left else 0x33FF33)
        out += poly_edges(poly, T, color)
    return out


def run(case, ctx):
    V, scene = fresh()
    with contextlib.redirect_stdout(io.StringIO()):
        {"draw": draw, "arrow": arrow, "contacts": contacts}[case["k"]](case, ctx, V, scene)
    ctx.trace()


def draw(case, ctx, V, scene):
    want = {}
    r = None
    seg = lambda P, c: [("edge", c, edge(P[i], P[i + 1])) for i in range(len(P) - 1)]
    for n, op in enumerate(case["ops"]):
        if op.startswith("frame"):
            T, s, k = {"frame_a1": (TA, 1., "a"), "frame_a2": (TB, 2.5, "a"), "frame_b": (TA @ TB, .5, "b")}[op]
            V.frame_viz(k, T, 1., s)
            want["frame", k] = frame_shapes(T, s)
        elif op.startswith("point_"):
            p, rad, c, k = {"point_a1": (PT[0], .01, 0xFF0000, "a"), "point_a2": (PT[1], .03, 0x00FF00, "a"), "point_b": (PT[2], .02, 0x0000FF, "b")}[op]
            V.point_viz(k, p, rad, c)
            want["point", k] = [("sphere", c, np.append(p, rad))]
        elif op.startswith("points_"):
            k, m = op[7], int(op[8])
            P = PT[:m] + .01 * m
            V.points_viz(k, P, .02, 0x00FFFF)
            want["points", k] = [("sphere", 0x00FFFF, np.append(p, .02)) for p in P]
        elif op.startswith("path"):
            k, m = op[5], int(op[6])
            P = PT[:m] - .02 * m
            V.path_viz(k, P, 0x00AA00)
            want["path", k] = seg(P, 0x00AA00)
        elif op.startswith("line"):
            P = PT[:4] + (.1 if op == "line_a2" else 0.)
            V.line_viz("a", P, 0xAA0000)
            want["line"] = [("edge", 0xAA0000, edge(P[0], P[1])), ("edge", 0xAA0000, edge(P[2], P[3]))]
        elif op == "cross_a":
            V.cross_viz("a", np.array([.3, -.1]), .2, 0x00AAAA)
            want["cross"] = [("edge", 0x00AAAA, edge([.1, -.3, 0], [.5, .1, 0])), ("edge", 0x00AAAA, edge([.1, .1, 0], [.5, -.3, 0]))]
        elif op == "cyl_a":
            V.cylinder_viz("a", np.array([.2, .1]), .4, .05, 0x123456)
            want["cyl"] = [("rod", 0x123456, rod([.2, .1, 0], [.2, .1, .4], .05, .05))]
        elif op.startswith("arrow"):
            a, b, k = {"arrow_a1": (PT[0], PT[1], "a"), "arrow_a2": (PT[2], PT[2] + [0, 0, -.3], "a"), "arrow_b": (PT[3], PT[4], "b")}[op]
            V.arrow_viz(k, a, b, 0xABCDEF, .004)
            want["arrow", k] = arrow_shapes(a, b, 0xABCDEF, .004)
        elif op.startswith("foot"):
            p, L, _ = steps_list(int(op[4]))
            T = TA if op == "foot2" else np.eye(4)
            V.footsteps_viz(L, T)
            want["foot"] = foot_shapes(L, T)
        elif op == "sup":
            p, _, S = steps_list(3)
            V.footsteps_viz(S)
            want["foot"] = foot_shapes(S)
        else:
            if r is None:
                r = R.shared("tree")
                R.set_config(r, R.BASES[0], R.joint_vec("tree", 0))
                V.robot_viz(r, "bob")
            if op == "rmove":
                R.set_config(r, R.BASES[1], R.joint_vec("tree", 1))
            else:
                V.robot_frame_viz(r, "tool", 1., 2.)
                V.robot_frame_viz(r, "base")
                kin = TR.Kin("tree", r.state.q)
                want["rframe"] = frame_shapes(kin.T("tool").homogeneous, 2.) + frame_shapes(kin.T("base").homogeneous)
        ctx.step()
        match(ctx, scene, sum(want.values(), []), "after %s" % case["ops"][:n + 1])
        ctx.state(case["ops"][:n + 1])


def arrow(case, ctx, V, scene):
    u = DIRS[case["d"]]
    for L, o in itertools.product((.05, .3, 2.), ([0, 0, 0], [.1, -.2, .3], [-1., .5, 0])):
        a = np.array(o, float)
        V.arrow_viz("x", a, a + L * u)
        ctx.step()
        match(ctx, scene, arrow_shapes(a, a + L * u), "arrow of length %g along %s" % (L, np.round(u, 2).tolist()))
        ctx.state(case["d"], L, o)
        V.arrow_viz("x", -L * u / 2, L * u / 2)
        match(ctx, scene, arrow_shapes(-L * u / 2, L * u / 2), "arrow of length %g along %s centred on the origin" % (L, np.round(u, 2).tolist()))
    V.arrow_viz("x", np.zeros(3), np.zeros(3))  # nothing to point at: no failure
    ctx.ok(len(primitives(scene)) <= 2, "degenerate arrow")


def contacts(case, ctx, V, scene):
    cs = [dict(CON[i]) for i in case["c"]]
    names = []
    for c in cs:
        if "task" in c:
            names.append(c["task"])
            c["task"] = len(names) - 1
    tasks = [[TASK[n], "soft", 100.] for n in names] + [[JT, "soft", 1.]]
    n = len(cs)
    act = list(itertools.product((True, False), repeat=n))
    pairs = list(itertools.product(act, act)) if n < 3 else [(a, b) for a in act for b in act if sum(x != y for x, y in zip(a, b)) <= 1]
    for before, after in pairs:
        V, scene = fresh()
        st = D.Setup({"robot": "tree", "b": case["b"], "j": case["j"], "v": 0, "tasks": tasks, "contacts": [dict(c) for c in cs], "opts": {"fbase": False}}, R.shared("tree"))
        for step, state in enumerate((before, after)):
            for x, on in zip(st.contacts, state):
                x.active = on
            show(ctx, V, scene, st, cs, state, "contacts %s, active %s%s" % ([c["c"] for c in cs], list(state), "" if step == 0 else " after %s" % list(before)))
    # a contact disappears
    x = st.contacts.pop(0)
    if before[0]:
        x.active = True
    st.solver.remove_contact(x)
    for c in st.contacts:
        c.active = True
    show(ctx, V, scene, st, cs[1:], [True] * (n - 1), "contacts %s after a removal" % [c["c"] for c in cs[1:]])


def show(ctx, V, scene, st, cs, state, label):
    res = st.solver.solve()
    ctx.step()
    if not res.success:
        return
    V.contacts_viz(st.solver, .02, .001)
    kin = TR.Kin("tree", st.r.state.q)
    want, k = [], 0
    for c, x, on in zip(cs, st.contacts, state):
        if not on or c["c"] in ("puppet", "task"):
            continue
        if c["c"] == "ext":
            T, f, z, col = kin.T(c["f"]), np.array(c["w"][:3], float), np.zeros(3), 0xFF2222
        else:
            w = np.array(x.wrench).flatten()
            T = kin.T(frame_of(c, st))
            if c["c"] in ("point", "upoint"):
                f, z, col = w, np.zeros(3), 0x00FF00
            elif c["c"] == "fixed":
                f, z, col = T.rotation @ w[:3], T.rotation @ [-w[4] / w[2], w[3] / w[2], 0.], 0x00FFAA
            else:  # the force of a line contact is expressed in the world
                f, z, col = w[:3], T.rotation @ [-w[3] / w[2], 0., 0.], 0xFF33AA
        if np.linalg.norm(f) * .02 < 6e-3:
            return  # too small to be judged
        o = T.translation + z
        want += arrow_shapes(o, o + .02 * f, col, .001)
    match(ctx, scene, want, label)
    ctx.state(label)


def frame_of(c, st):
    return st.case["tasks"][c["task"]][0]["f"]
