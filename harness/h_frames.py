"""P09 - frame and angle utilities, axis masks."""
import itertools
import numpy as np
from scipy.spatial.transform import Rotation as Rot
import placo

BOUNDS = {"quick": "51 orientations (the 24 of a cube among them)^2 x 7 ratios, in and out of [0,1]; 181 angles x 5 turns; 3 axes x 98 directions; 512 axis strings x 4 frames; 51 transforms x 6 point sets",
          "thorough": "149 orientations^2 x 13 ratios; 721 angles x 9 turns; 3 axes x 342 directions; 149 transforms x 6 point sets"}


def angles(tier):
    return (-2.1, 0., 1.3) if tier == "quick" else (-2.1, -.7, 0., 1.3, 3.0)


def rots(tier):
    cube = [M for M in (np.diag(s) @ np.eye(3)[list(p)] for p in itertools.permutations(range(3)) for s in itertools.product((1., -1.), repeat=3)) if np.linalg.det(M) > 0]
    return cube + [Rot.from_euler("ZYX", e).as_matrix() for e in itertools.product(angles(tier), (-1.1, 0., .6) if tier == "quick" else (-1.4, -.8, 0., .6, 1.2), angles(tier))]


def cases(tier):
    n = len(rots(tier))
    for i in range(n):
        yield {"rot": i}
    for k in (-40, -7, -2, -1, 0, 1, 2, 7, 40) if tier == "quick" else list(range(-12, 13)) + [-1000, -40, 40, 1000]:
        yield {"wrap": k}
    for ax in "xyz":
        yield {"axis": ax}
    for l in range(0, 4):
        for s in itertools.product("xyzXYZqw", repeat=l):
            yield {"mask": "".join(s)}
    for i in range(n):
        yield {"fit": i}
    for k in range(1, 40 if tier == "quick" else 120):
        yield {"dirs": k}


def T(R, p):
    M = np.eye(4)
    M[:3, :3] = R
    M[:3, 3] = p
    return M


def run(case, ctx):
    globals()["do_" + next(iter(case))](case, ctx)
    ctx.trace()


def do_rot(case, ctx):
    RS = rots(ctx.tier)
    A = RS[case["rot"]]
    pa = np.array([.4, -1.2, 2.]) * (1 + case["rot"] % 3)
    TA = T(A, pa)
    yaw = np.arctan2(A[1, 0], A[0, 0])
    ctx.close(placo.frame_yaw(A), yaw, "yaw", 1e-9)
    F = placo.flatten_on_floor(TA)
    W = T(Rot.from_euler("z", yaw).as_matrix(), [pa[0], pa[1], 0.])
    ctx.close(F, W, "flattened frame", 1e-9)
    ctx.close(placo.flatten_on_floor(F), F, "flattening twice", 1e-9)
    ctx.step(3)
    for j, B in enumerate(RS):
        pb = np.array([-.3, .7, .1 * j])
        TB = T(B, pb)
        d = Rot.from_matrix(A.T @ B).as_rotvec()
        ctx.state("rot", case["rot"], j)
        for r in (0., .25, .5, .8, 1., 1.2, -.3) if ctx.tier == "quick" else np.linspace(-.5, 1.5, 13):
            X = placo.interpolate_frames(TA, TB, float(r))
            ctx.close(X[:3, 3], pa * (1 - r) + pb * r, "interpolated position", 1e-9)
            ctx.close(X[3], [0, 0, 0, 1], "bottom row of an interpolated frame", 1e-12)
            R = X[:3, :3]
            ctx.close(R @ R.T, np.eye(3), "interpolated orientation is a rotation", 1e-9)
            if np.linalg.norm(d) < np.pi - 1e-3:
                ctx.close(R, A @ Rot.from_rotvec(d * r).as_matrix(), "interpolated orientation (shortest path)", 1e-7)
            ctx.step()


def do_wrap(case, ctx):
    for a in np.linspace(-np.pi, np.pi, 181 if ctx.tier == "quick" else 721):
        x = a + 2 * np.pi * case["wrap"]
        y = placo.wrap_angle(float(x))
        ctx.ok(-np.pi - 1e-9 <= y <= np.pi + 1e-9, "wrapped angle range", x, y)
        k = (y - x) / (2 * np.pi)
        ctx.ok(abs(k - round(k)) < 1e-9, "wrapped angle is not the same angle", x, y)
        ctx.step()
        ctx.state("wrap", round(float(x), 9))


def do_axis(case, ctx):
    ax = "xyz".index(case["axis"])
    k = 5 if ctx.tier == "quick" else 7
    g = np.linspace(-1, 1, k)
    for v in itertools.product(g, repeat=3):
        v = np.array(v)
        if np.max(np.abs(v)) < .9:
            # directions close to the axis, and to its opposite
            v = np.array([1e-3 * v[(i - ax) % 3] for i in range(3)])
            v[ax] = 1. if v[(ax + 1) % 3] + 2 * v[(ax + 2) % 3] >= 0 else -1.
        for s in (1., 7., .02):
            R = placo.rotation_from_axis(case["axis"], v * s)
            ctx.close(R @ R.T, np.eye(3), "rotation matrix from an axis", 1e-7)
            ctx.close(np.linalg.det(R), 1., "rotation matrix from an axis: determinant", 1e-7)
            ctx.close(R[:, ax], v / np.linalg.norm(v), "rotated %s axis" % case["axis"], 1e-7)
            # the smallest such rotation
            ang = np.arccos(np.clip((np.trace(R) - 1) / 2, -1, 1))
            want = np.arccos(np.clip(v[ax] / np.linalg.norm(v), -1, 1))
            ctx.close(ang, want, "rotation angle", 1e-5)
            ctx.step()
            ctx.state("axis", ax, v.tolist())
    for bad in ("", "w", "xy", "X "):
        ctx.raises(lambda: placo.rotation_from_axis(bad, np.ones(3)), "unknown axis")


def do_mask(case, ctx):
    s = case["mask"]
    R1, R2 = Rot.from_euler("xyz", [.3, -.5, 1.1]).as_matrix(), Rot.from_euler("xyz", [-1.3, .2, .7]).as_matrix()
    M = np.array([[1., 2, 3, 4], [5, 6, 7, 8], [9, 10, 11.5, -12]])
    ok = all(c in "xyzXYZ" for c in s)
    for frame in ("task", "world", "local", "custom", None):
        for width in (1, 3, 4):
            m = placo.AxisesMask()
            m.R_local_world = R1
            m.R_custom_world = R2
            m.set_axises("xy", "local")
            call = (lambda: m.set_axises(s)) if frame is None else (lambda: m.set_axises(s, frame))
            if not ok:
                ctx.raises(call, "invalid axis accepted: %r" % s)
                continue
            call()
            X = M[:, :width]
            Y = {"local": R1 @ X, "custom": R2 @ X}.get(frame, X)
            idx = ["xyz".index(c.lower()) for c in s]
            if idx:
                got = np.asarray(m.apply(X)).reshape(len(idx), width)
                ctx.close(got, Y[idx, :], "mask %r in frame %s" % (s, frame), 1e-9)
            ctx.step(2)
    m = placo.AxisesMask()
    ctx.close(m.apply(M), M, "default mask keeps everything", 0)
    ctx.raises(lambda: m.set_axises("x", "nowhere"), "unknown frame")
    ctx.state("mask", s)


SETS = [np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1.]]), np.array([[0, 0, 0], [2, 0, 0], [0, 1, 0.]]),
        np.array([[1, 1, 1], [2, -1, .5], [-.4, 3, 2], [.1, .2, -3], [5, 5, -2.]]),
        np.array([[1, 0, 0], [-1, 0, 0], [0, 2, 0], [0, -2, 0.]]),
        np.array([[.1, .2, .3], [.11, .2, .3], [.1, .22, .3], [.1, .2, .33]]),
        np.array([[3, 1, 0], [1, 2, 0], [0, 0, 0], [-2, 1, 0], [4, -1, 0.]])]


def do_fit(case, ctx):
    R = rots(ctx.tier)[case["fit"]]
    p = np.array([.5, -2., 1.])
    for k, B in enumerate(SETS):
        A = B @ R.T + p
        X = placo.optimal_transformation(A, B)
        ctx.close(X, T(R, p), "transformation recovered from matching points (set %d)" % k, 1e-6)
        # perturbed and mirrored targets: best rigid transformation, never a reflection
        for name, A2 in (("noisy", A + .05 * np.sin(np.arange(A.size)).reshape(A.shape)), ("mirror", (B * [1, 1, -1] + .02 * np.cos(np.arange(B.size) * 2.1).reshape(B.shape)) @ R.T + p)):
            X = placo.optimal_transformation(A2, B)
            Rx, tx = X[:3, :3], X[:3, 3]
            ctx.close(Rx @ Rx.T, np.eye(3), "orthogonality", 1e-7)
            ctx.close(np.linalg.det(Rx), 1., "determinant", 1e-7)
            a, b = A2 - A2.mean(0), B - B.mean(0)
            U, S, Vt = np.linalg.svd(b.T @ a)
            D = np.diag([1, 1, np.sign(np.linalg.det(Vt.T @ U.T))])
            Rb = Vt.T @ D @ U.T
            tb = A2.mean(0) - Rb @ B.mean(0)
            cost = lambda R_, t_: np.sum((B @ R_.T + t_ - A2) ** 2)
            ctx.ok(cost(Rx, tx) <= cost(Rb, tb) + 1e-7, "not the least squares transformation (%s, set %d)" % (name, k), cost(Rx, tx), cost(Rb, tb))
            ctx.step()
        ctx.state("fit", case["fit"], k)
    ctx.raises(lambda: placo.optimal_transformation(SETS[0][:2], SETS[0][:2]), "two points")
    ctx.raises(lambda: placo.optimal_transformation(SETS[0], SETS[1]), "different number of points")
    ctx.raises(lambda: placo.optimal_transformation(SETS[0][:, :2], SETS[0][:, :2]), "2D points")


def do_dirs(case, ctx):
    n = case["dirs"]
    D = np.asarray(placo.directions_2d(n)).reshape(-1, 2)
    ctx.ok(D.shape == (n, 2), "number of 2D directions")
    ctx.close(np.linalg.norm(D, axis=1), np.ones(n), "2D directions are unit vectors", 1e-9)
    a = np.sort(np.mod(np.arctan2(D[:, 1], D[:, 0]) + 1e-9, 2 * np.pi))
    ctx.close(np.diff(np.append(a, a[0] + 2 * np.pi)), np.full(n, 2 * np.pi / n), "2D directions are evenly spread", 1e-7)
    for args in ((n,), (n, .5), (n, .1)):
        D = np.asarray(placo.directions_3d(*args)).reshape(-1, 3)
        ctx.ok(D.shape == (n, 3), "number of 3D directions")
        ctx.close(np.linalg.norm(D, axis=1), np.ones(n), "3D directions are unit vectors", 1e-9)
        if n >= 6:
            # spread on the whole sphere: distinct, and balanced
            G = D @ D.T - 2 * np.eye(n)
            ctx.ok(np.max(G) < np.cos(.4 * np.sqrt(4 * np.pi / n)), "two 3D directions coincide", n)
            ctx.ok(np.linalg.norm(D.mean(0)) < 1.2 / np.sqrt(n), "3D directions are not balanced", n, D.mean(0))
        ctx.step()
    ctx.state("dirs", n)
