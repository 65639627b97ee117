"""P13: collision pairs, self collisions and distances of a robot made of spheres, against closed form geometry."""
import itertools, json, os, re, tempfile
import numpy as np
import pinocchio as pin
import placo
import robots as R

# l2 carries two spheres: a link name stands for all of its bodies
URDF = R.TREE.replace('<link name="l2">', '<link name="l2"><collision><geometry><sphere radius="0.03"/></geometry><origin xyz="0.2 0.05 -0.05" rpy="0 0 0"/></collision>')
FAT = re.sub(r'sphere radius="([.0-9]+)"', lambda x: 'sphere radius="%g"' % (3.5 * float(x.group(1))), URDF)    # deep collisions
LINKS = ["base", "l1", "l2", "l3", "l4", "m1", "m2"]
BOUNDS = {
    "quick": "all 42 ordered link pairs (by name), all geometry index pairs, 40 pair lists, default and empty lists, a robot with large bodies in deep collision x 2 bases x 4 joint configurations; every malformed list",
    "thorough": "all single pairs and all two-pair lists of links by name and by index, default and empty lists, a robot with large bodies in deep collision x 4 bases x 8 joint configurations; every malformed list",
}
BAD = [[["base", "nope"]], [["nope", "l1"]], [["base", 1]], [[0, "l1"]], [[0, 99]], [[-1, 2]], [[99, 0]], [["base", ["l1"]]], [["l1", "l2"], ["base", "tool"]]]


def model(urdf=URDF):
    if urdf not in R._cache:
        m = pin.buildModelFromXML(urdf, pin.JointModelFreeFlyer())
        with tempfile.TemporaryDirectory() as d:
            open(d + "/r.urdf", "w").write(urdf)
            g = pin.buildGeomFromUrdf(m, d + "/r.urdf", pin.GeometryType.COLLISION)
        R._cache[urdf] = (m, g)
    return R._cache[urdf]


def cases(tier):
    deep = tier == "thorough"
    m, g = model()
    pairs = [list(p) for p in itertools.permutations(LINKS, 2)]
    idx = [list(p) for p in itertools.permutations(range(len(g.geometryObjects)), 2)]
    lists = [("default", None), ("none", None), ("file", [])]
    lists += [("file", [p]) for p in pairs] + [("file", [p]) for p in idx]
    two = list(itertools.combinations(pairs, 2)) + list(itertools.combinations(idx, 2))
    lists += [("file", list(p)) for p in (two if deep else two[::len(two) // 40])]
    lists += [("file", [["base", "l4"], [1, 7], ["l2", "m2"]]), ("dir", [["base", "l3"], ["l2", "m1"]]), ("dir", []), ("reload", [["l1", "m1"]]), ("fat", None)]
    for how, l in lists:
        yield {"k": "dist", "how": how, "pairs": l, "cfg": [(b, k) for b in range(4 if deep else 2) for k in range(8 if deep else 4)]}
    for l in BAD:
        yield {"k": "bad", "pairs": l}
    yield {"k": "missing"}


def robot(how, pairs, d):
    if how == "dir":
        open(d + "/robot.urdf", "w").write(URDF)
        json.dump(pairs, open(d + "/collisions.json", "w"))
        return placo.RobotWrapper(d)
    flags = int(placo.Flags.ignore_collisions) if how == "none" else 0
    r = placo.RobotWrapper("", flags, FAT if how == "fat" else URDF)
    if how == "reload":
        json.dump([["base", "l4"], ["l2", "m2"]], open(d + "/p.json", "w"))
        r.load_collision_pairs(d + "/p.json")
    if how in ("file", "reload"):
        json.dump(pairs, open(d + "/p.json", "w"))
        r.load_collision_pairs(d + "/p.json")
    return r


def expected(how, pairs, m, g):
    """the pairs of bodies, in order"""
    n = len(g.geometryObjects)
    par = [o.parentJoint for o in g.geometryObjects]
    if how == "none":
        return []
    if how in ("default", "fat"):
        return [(i, j) for i in range(n) for j in range(i + 1, n) if par[i] != par[j]]
    of = {}
    for k, o in enumerate(g.geometryObjects):
        of.setdefault(m.frames[o.parentFrame].name, []).append(k)
    out = []
    for a, b in pairs:
        for x, y in ([(a, b)] if isinstance(a, int) else itertools.product(of[a], of[b])):
            if (x, y) not in out and (y, x) not in out:
                out.append((x, y))
    return out


def run(case, ctx):
    m, g = model(FAT if case.get("how") == "fat" else URDF)
    with tempfile.TemporaryDirectory() as d:
        if case["k"] == "missing":
            r = placo.RobotWrapper("", 0, URDF)
            ctx.raises(lambda: r.load_collision_pairs(d + "/nothing.json"), "a missing pairs file")
            ctx.step(); ctx.trace(); ctx.state("missing")
            return
        if case["k"] == "bad":
            r = placo.RobotWrapper("", 0, URDF)
            json.dump(case["pairs"], open(d + "/p.json", "w"))
            ctx.raises(lambda: r.load_collision_pairs(d + "/p.json"), "an invalid pair list was loaded")
            ctx.step(); ctx.trace(); ctx.state("bad", case["pairs"])
            return
        r = robot(case["how"], case["pairs"], d)
    want = expected(case["how"], case["pairs"], m, g)
    ctx.ok(set(frozenset((p.first, p.second)) for p in r.collision_model.collisionPairs) == set(map(frozenset, want)) and
           len(r.collision_model.collisionPairs) == len(want), "active collision pairs", [(p.first, p.second) for p in r.collision_model.collisionPairs], want)
    rad = [o.geometry.radius for o in g.geometryObjects]
    dat = m.createData()
    for b, k in case["cfg"]:
        q = pin.neutral(m)
        R.set_config(r, R.BASES[b], R.joint_vec("tree", k))
        q = np.array(r.state.q)
        pin.forwardKinematics(m, dat, q)
        c = [(dat.oMi[o.parentJoint] * o.placement).translation for o in g.geometryObjects]
        ds = list(r.distances())
        ctx.step()
        ctx.ok(len(ds) == len(want), "one distance per pair", len(ds))
        seen = set()
        gap = {}
        for x in ds:
            i, j = x.objA, x.objB
            seen.add(frozenset((i, j)))
            e = np.linalg.norm(c[i] - c[j])
            gap[frozenset((i, j))] = e - rad[i] - rad[j]
            ctx.close(x.min_distance, e - rad[i] - rad[j], "distance between bodies %d and %d" % (i, j), 1e-6)
            ctx.ok(x.parentA == g.geometryObjects[i].parentJoint and x.parentB == g.geometryObjects[j].parentJoint, "parents of %d, %d" % (i, j))
            u = (c[j] - c[i]) / e
            ctx.close(x.pointA, c[i] + u * rad[i], "witness point on body %d" % i, 1e-5)
            ctx.close(x.pointB, c[j] - u * rad[j], "witness point on body %d" % j, 1e-5)
        ctx.ok(seen == set(map(frozenset, want)), "distances cover every pair")
        hit = [s for s in gap if gap[s] < -1e-6]
        near = [s for s in gap if abs(gap[s]) <= 1e-6]
        col = list(r.self_collisions(False))
        ctx.step()
        got = [frozenset((x.objA, x.objB)) for x in col]
        ctx.ok(len(got) == len(set(got)) and set(got) - set(near) == set(hit), "self collisions", got, hit)
        for x in col:
            ctx.ok(x.bodyA == g.geometryObjects[x.objA].name and x.bodyB == g.geometryObjects[x.objB].name and
                   x.parentA == g.geometryObjects[x.objA].parentJoint and x.parentB == g.geometryObjects[x.objB].parentJoint, "bodies of a collision")
            for i in (x.objA, x.objB):
                ctx.ok(np.linalg.norm(np.array(x.get_contact(0)).flatten() - c[i]) < rad[i] + 1e-6, "contact point out of body %d" % i, x.get_contact(0))
            for i in (-1, 1000, 2 ** 31 - 1):
                ctx.raises(lambda: x.get_contact(i), "contact %d of a collision" % i)
        first = list(r.self_collisions(True))
        ctx.step()
        ctx.ok(len(first) == min(1, len(got)) and all(frozenset((x.objA, x.objB)) in got for x in first), "first self collision only")
        ctx.state(case["how"], case["pairs"], b, k)
    ctx.trace()
