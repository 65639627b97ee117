"""P34: a robot loaded from any source, with any options, is the robot described."""
import contextlib, itertools, json, os, struct, tempfile
import numpy as np
import pinocchio as pin
import placo
import robots as R
from mc import Bad

BOUNDS = {
    "quick": "2 robot classes x 15 kinds of source (directory, file, contents, MJCF; absolute, relative, current directory) x 4 option sets x 3 collision lists x {both formats there, only one}; all ordered pairs of 8 loads in one process, the second robot edited; 10 invalid sources",
    "thorough": "the same, all ordered triples of 8 loads",
}
MESH = ('<visual><geometry><mesh filename="package://meshes/wedge.stl" scale="2 1 .5"/></geometry><origin xyz=".01 .02 .03" rpy=".1 .2 .3"/></visual>'
        '<visual><geometry><box size=".1 .2 .3"/></geometry><origin xyz="0 0 .2" rpy="0 .3 0"/></visual>'
        '<collision><geometry><mesh filename="package://meshes/wedge.stl"/></geometry><origin xyz="0 0 -.3" rpy="0 0 0"/></collision>')
URDF = R.BIPED.replace('<link name="head">', '<link name="head">' + MESH)
OTHER = R.BIPED.replace('name="head_yaw"', 'name="neck"').replace('lower="-2" upper="2"', 'lower="0" upper="0"')
assert OTHER != R.BIPED and 'lower="0" upper="0"' in OTHER
# a geometry that is only seen, and never collides
MJCF = R.MJCF.replace('<geom type="sphere" size="0.05"/>', '<geom type="sphere" size="0.05"/><geom type="sphere" size="0.02" pos="0 0 0.1" contype="0" conaffinity="0"/>')
assert MJCF != R.MJCF
SOURCES = ["dir", "dir/", "rel dir", "rel dir/", ".", "file", "rel file", "here", "./here", "named", "contents", "contents rel", "mjcf dir", "mjcf file", "mjcf here"]
LOADS = ["dir", "here", "contents", "named", "mjcf dir", "mjcf here", "other", "rel file"]
LISTS = [None, [], [["torso", "left_shin"], ["left_sole", "right_sole"]]]
MLISTS = [None, [], [["base", "b"]]]
CLASSES = {"robot": placo.RobotWrapper, "humanoid": placo.HumanoidRobot}
BAD = ["no dir", "no file", "empty dir", "mjcf contents", "not xml", "urdf as mjcf", "mjcf as urdf", "no robot.xml", "bad list", "no mesh"]


def cases(tier):
    deep = tier == "thorough"
    for cls in CLASSES:
        for src in SOURCES:
            if cls == "humanoid" and "mjcf" in src:
                continue
            for flags in range(4):
                for l in range(3):
                    for both in (True, False):
                        yield {"k": "load", "cls": cls, "src": src, "flags": flags, "l": l, "both": both}
    for seq in itertools.product(LOADS, repeat=3 if deep else 2):
        yield {"k": "many", "seq": list(seq)}
    for b in BAD:
        yield {"k": "bad", "what": b}


def stl(f):
    P = np.array([[0, 0, 0], [.1, 0, 0], [0, .2, 0], [0, 0, .3]])
    with open(f, "wb") as o:
        o.write(b" " * 80 + struct.pack("<I", 4))
        for t in ((0, 2, 1), (0, 1, 3), (0, 3, 2), (1, 2, 3)):
            n = np.cross(P[t[1]] - P[t[0]], P[t[2]] - P[t[0]])
            o.write(struct.pack("<12fH", *(n / np.linalg.norm(n)), *P[list(t)].flatten(), 0))


@contextlib.contextmanager
def scratch():
    """a directory model/ with both formats; other/ with another robot; the process in the parent directory"""
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        try:
            os.chdir(d)
            for n, u in (("model", URDF), ("other", OTHER)):
                os.makedirs(n + "/meshes")
                stl(n + "/meshes/wedge.stl")
                open(n + "/robot.urdf", "w").write(u)
                open(n + "/robot.xml", "w").write(MJCF)
                open(n + "/named.urdf", "w").write(OTHER)
            yield d
        finally:
            os.chdir(old)


def load(cls, src, flags, d):
    C = CLASSES[cls]
    if "mjcf" in src:
        flags |= int(placo.Flags.mjcf)
    if src in (".", "here", "./here", "mjcf here"):
        os.chdir(d + "/model")
    try:
        if src == "contents": return C(d + "/model", flags, URDF)
        if src == "contents rel": return C("model/", flags, URDF)
        return C({"dir": d + "/model", "dir/": d + "/model/", "rel dir": "model", "rel dir/": "model/", ".": ".", "file": d + "/model/robot.urdf", "rel file": "model/robot.urdf", "here": "robot.urdf",
                  "./here": "./robot.urdf", "named": "model/named.urdf", "mjcf dir": "model", "mjcf file": d + "/model/robot.xml", "mjcf here": "robot.xml", "other": "other"}[src], flags)
    finally:
        os.chdir(d)


def reference(src, flags, d):
    """(model, collision geometries, visual geometries) as described, parsed by pinocchio"""
    key = ("load", src, flags & 1)
    if key not in R._cache:
        T = [pin.GeometryType.COLLISION, pin.GeometryType.COLLISION if flags & 1 else pin.GeometryType.VISUAL]
        if "mjcf" in src:
            f = d + "/model/robot.xml"
            m = pin.buildModelFromMJCF(f, pin.JointModelFreeFlyer())
            if isinstance(m, tuple):
                m = m[0]
            g = [pin.buildGeomFromMJCF(m, f, t) for t in T]
            g = [x[0] if isinstance(x, tuple) else x for x in g]
        else:
            f = d + ("/other/robot.urdf" if src == "other" else "/model/named.urdf" if src == "named" else "/model/robot.urdf")
            m = pin.buildModelFromUrdf(f, pin.JointModelFreeFlyer())
            g = [pin.buildGeomFromUrdf(m, f, t, package_dirs=[d + "/model"]) for t in T]
        R._cache[key] = (m, g[0], g[1])
    return R._cache[key]


def shape(o):
    g = o.geometry
    s = [type(g).__name__]
    for a in ("radius", "halfSide", "halfLength"):
        if hasattr(g, a):
            s.append(np.round(np.array(getattr(g, a), float), 9).tolist())
    if hasattr(g, "num_vertices"):
        s.append(int(g.num_vertices))
        s.append(np.round(np.sort(np.array([g.vertex(i) for i in range(g.num_vertices)]) if hasattr(g, "vertex") else np.array(g.vertices()), axis=0), 7).tolist())
    return s


def geometries(ctx, got, want, what):
    a, b = list(got.geometryObjects), list(want.geometryObjects)
    ctx.ok([o.name for o in a] == [o.name for o in b], what + ": bodies", [o.name for o in a], [o.name for o in b])
    for x, y in zip(a, b):
        ctx.ok(x.parentJoint == y.parentJoint and x.parentFrame == y.parentFrame, what + ": parent of %s" % x.name)
        ctx.close(x.placement.homogeneous, y.placement.homogeneous, what + ": placement of %s" % x.name, 1e-9)
        ctx.ok(shape(x) == shape(y), what + ": shape of %s" % x.name, shape(x), shape(y))
        ctx.close(np.array(x.meshScale).flatten(), np.array(y.meshScale).flatten(), what + ": scale of %s" % x.name, 1e-12)


def pairs(m, g, flags, l):
    if flags & 2:
        return set()
    o = list(g.geometryObjects)
    if l is None:
        return {frozenset((i, j)) for i in range(len(o)) for j in range(i) if o[i].parentJoint != o[j].parentJoint}
    of = lambda n: [k for k, x in enumerate(o) if m.frames[x.parentFrame].name == n]
    return {frozenset((i, j)) for a, b in l for i in of(a) for j in of(b)}


def judge(ctx, r, src, flags, l, d, label, fresh=True):
    m, c, v = reference(src, flags, d)
    ctx.ok(list(r.joint_names()) == list(m.names)[2:], label + ": joints", list(r.joint_names()))
    ctx.ok(list(r.joint_names(True)) == list(m.names), label + ": joints with the floating base", list(r.joint_names(True)))
    ctx.ok(list(r.frame_names()) == [f.name for f in m.frames], label + ": frames", list(r.frame_names()))
    geometries(ctx, r.collision_model, c, label + ": collision geometries")
    geometries(ctx, r.visual_model, v, label + ": visual geometries")
    got = [frozenset((p.first, p.second)) for p in r.collision_model.collisionPairs]
    ctx.ok(len(got) == len(set(got)) and set(got) == pairs(m, c, flags, l), label + ": collision pairs", len(got), len(pairs(m, c, flags, l)))
    big = np.finfo(float).max
    for n in list(m.names)[2:]:
        j = m.joints[m.getJointId(n)]
        lo, hi = m.lowerPositionLimit[j.idx_q], m.upperPositionLimit[j.idx_q]
        ctx.ok(tuple(r.get_joint_limits(n)) == ((-big, big) if lo == hi == 0 else (lo, hi)), label + ": limits of %s" % n, r.get_joint_limits(n))
        ctx.ok(r.model.velocityLimit[j.idx_v] == m.velocityLimit[j.idx_v] and r.model.effortLimit[j.idx_v] == m.effortLimit[j.idx_v], label + ": velocity and torque limits of %s" % n)
    for a, b in zip(r.model.inertias, m.inertias):
        ctx.close(a.toDynamicParameters(), b.toDynamicParameters(), label + ": inertias", 1e-12)
    ctx.close([r.total_mass()], [sum(i.mass for i in m.inertias)], label + ": total mass", 1e-9)
    q = pin.neutral(m)
    D = m.createData()
    if isinstance(r, placo.HumanoidRobot):
        # standing on its left foot, at the origin
        pin.framesForwardKinematics(m, D, q)
        q[:7] = pin.SE3ToXYZQUAT(D.oMi[1] * D.oMf[m.getFrameId("left_foot")].inverse())
    ctx.close(r.state.q, q, label + ": initial configuration", 1e-9)
    ctx.ok(not np.any(r.state.qd) and not np.any(r.state.qdd) and len(r.state.qd) == len(r.state.qdd) == m.nv, label + ": initially at rest")
    pin.framesForwardKinematics(m, D, q)
    for i, f in enumerate(m.frames):
        if i and f.name not in ("universe",):
            ctx.close(r.get_T_world_frame(f.name), D.oMf[m.getFrameId(f.name)].homogeneous, label + ": initial placement of %s" % f.name, 1e-9)


def run(case, ctx):
    with scratch() as d:
        if case["k"] == "bad":
            bad(case["what"], ctx, d)
        elif case["k"] == "many":
            many(case, ctx, d)
        else:
            l = (MLISTS if "mjcf" in case["src"] else LISTS)[case["l"]]
            if l is not None:
                json.dump(l, open("model/collisions.json", "w"))
            json.dump([["torso", "head"]], open("other/collisions.json", "w"))
            json.dump([["left_sole", "torso"]], open("collisions.json", "w"))  # that of no model
            if not case["both"]:
                os.remove("model/robot.urdf" if "mjcf" in case["src"] or case["src"] == "named" else "model/robot.xml")
            before = listing(d)
            r = load(case["cls"], case["src"], case["flags"], d)
            ctx.step()
            if not case["both"]:
                open("model/robot.urdf", "w").write(URDF), open("model/robot.xml", "w").write(MJCF)
            else:
                ctx.ok(listing(d) == before, "loading changed the files of the model")
            judge(ctx, r, case["src"], case["flags"], l, d, "%s loaded from %s with options %d, %s" % (case["cls"], case["src"], case["flags"], ("no collision list", "an empty collision list", "a collision list")[case["l"]]))
    ctx.state(case)
    ctx.trace()


def listing(d):
    return sorted((os.path.join(a, f), open(os.path.join(a, f), "rb").read()) for a, _, fs in os.walk(d) for f in fs)


def many(case, ctx, d):
    """robots of one process do not share anything"""
    rs = []
    for n, src in enumerate(case["seq"]):
        r = load("robot", src, n % 4, d)
        ctx.step()
        for k, (x, s) in enumerate(rs):
            judge(ctx, x, s, k % 4, None, d, "robot %d (%s) after %s" % (k, s, case["seq"][:n + 1]))
        judge(ctx, r, src, n % 4, None, d, "robot %d of %s" % (n, case["seq"]))
        rs.append((r, src))
    # editing the last one leaves the others alone
    r = rs[-1][0]
    j = list(r.joint_names())[0]
    r.set_joint(j, .5), r.set_joint_limits(j, -.1, .1), r.set_velocity_limit(j, .3), r.set_torque_limit(j, 7.), r.set_T_world_fbase(R.T(np.eye(3), [1, 2, 3]))
    json.dump([], open(d + "/empty.json", "w"))
    r.load_collision_pairs(d + "/empty.json")
    r.update_kinematics()
    ctx.step()
    for k, (x, s) in enumerate(rs[:-1]):
        x.update_kinematics()
        judge(ctx, x, s, k % 4, None, d, "robot %d (%s) after an edit of the last of %s" % (k, s, case["seq"]))


def bad(what, ctx, d):
    M = int(placo.Flags.mjcf)
    os.makedirs("void")
    open("void/text.urdf", "w").write("this is not a robot")
    os.makedirs("partial")
    open("partial/robot.urdf", "w").write(URDF)
    C = {"no dir": ("nowhere", 0), "no file": ("model/nothing.urdf", 0), "empty dir": ("void", 0), "mjcf contents": ("model", M, MJCF), "not xml": ("void/text.urdf", 0), "urdf as mjcf": ("model/robot.urdf", M),
         "mjcf as urdf": ("model/robot.xml", 0), "no robot.xml": ("partial", M), "bad list": ("model", 0), "no mesh": ("partial", 0)}[what]
    if what == "bad list":
        json.dump([["torso", "nope"]], open("model/collisions.json", "w"))
    ctx.step()
    for cls in CLASSES.values():
        ctx.raises(lambda: cls(*C), "a robot was loaded from: %s" % what)
