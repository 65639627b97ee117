"""Independent geometry of footsteps, supports and steps (numpy only)."""
import numpy as np
import placo

L, R = placo.HumanoidRobot_Side.left, placo.HumanoidRobot_Side.right
SIDES = [L, R]
other = lambda s: R if s == L else L


def T2(x, y, th, z=0.):
    M = np.eye(4)
    c, s = np.cos(th), np.sin(th)
    M[:2, :2] = [[c, -s], [s, c]]
    M[:3, 3] = x, y, z
    return M


def pitch(a):
    M = np.eye(4)
    M[0, 0], M[0, 2], M[2, 0], M[2, 2] = np.cos(a), np.sin(a), -np.sin(a), np.cos(a)
    return M


def feet(x, y, th, spacing, z=0.):
    c = T2(x, y, th, z)
    return c @ T2(0, spacing / 2, 0), c @ T2(0, -spacing / 2, 0)


def yaw(M):
    return np.arctan2(M[1, 0], M[0, 0])


def corners(M, length, width, margin=0.):
    a, b = length / 2 + margin, width / 2 + margin
    return np.array([(M @ np.array([sx * a, sy * b, 0, 1]))[:2] for sx, sy in ((-1, 1), (1, 1), (1, -1), (-1, -1))])


def separation(P, Q):
    """> 0: distance along the best separating edge normal; < 0: penetration of two convex polygons (separating axes)"""
    best = -np.inf
    for A, B in ((P, Q), (Q, P)):
        n = len(A)
        ctr = A.mean(0)
        for i in range(n):
            u = A[(i + 1) % n] - A[i]
            nr = np.array([u[1], -u[0]]) / np.linalg.norm(u)
            if nr @ (A[i] - ctr) < 0:
                nr = -nr
            best = max(best, ((B - A[i]) @ nr).min())
    return best


def hull(points):
    pts = sorted(set(map(tuple, np.round(points, 12))))
    if len(pts) < 3:
        return np.array(pts)

    def half(ps):
        h = []
        for p in ps:
            while len(h) >= 2 and np.cross(np.subtract(h[-1], h[-2]), np.subtract(p, h[-2])) <= 1e-12:
                h.pop()
            h.append(p)
        return h[:-1]
    return np.array(half(pts) + half(pts[::-1]))   # counter clockwise


def inside(poly_ccw, p):
    """signed distance to the boundary (> 0 inside) of a convex counter clockwise polygon"""
    d = np.inf
    for i in range(len(poly_ccw)):
        a, b = poly_ccw[i], poly_ccw[(i + 1) % len(poly_ccw)]
        u = b - a
        d = min(d, (u[0] * (p[1] - a[1]) - u[1] * (p[0] - a[0])) / np.linalg.norm(u))
    return d


def envelope(prm, kind, s):
    """how much of the allowed step size s uses (<= 1: allowed)"""
    mx = prm.walk_max_dx_forward if s[0] >= 0 else prm.walk_max_dx_backward
    lim = (mx, prm.walk_max_dy, prm.walk_max_dtheta)
    a = np.array([0. if abs(x) < 1e-12 else abs(x) / m if m else np.inf for x, m in zip(s, lim)])
    if kind == "ellipsoid":
        return np.linalg.norm(a)
    if kind == "box":
        return a.sum()
    return np.hypot(a[0], a[1]) + a[2]


def clip(prm, kind, s):
    g = envelope(prm, kind, s)
    return np.array(s, float) / max(1., g)


def neutral(prm, side, M):
    """where the other foot stands when side's foot is at M"""
    return M @ T2(0, -prm.feet_spacing if side == L else prm.feet_spacing, 0)


def step_of(prm, side, support, target):
    """(dx, dy, dtheta) of a step to target, from the support foot"""
    D = np.linalg.inv(neutral(prm, side, support)) @ target
    return np.array([D[0, 3], D[1, 3], yaw(D)])


def apply_step(prm, side, support, s):
    return neutral(prm, side, support) @ T2(*s)


def params(**kw):
    p = placo.HumanoidParameters()
    for k, v in kw.items():
        setattr(p, k, v)
    return p


def hermite(t, ta, pa, va, tb, pb, vb):
    """the cubic with the given positions and velocities at both ends: position, velocity at t"""
    D = tb - ta
    u = (t - ta) / D
    p = (2 * u**3 - 3 * u**2 + 1) * pa + (u**3 - 2 * u**2 + u) * D * va + (-2 * u**3 + 3 * u**2) * pb + (u**3 - u**2) * D * vb
    v = ((6 * u**2 - 6 * u) * pa + (-6 * u**2 + 6 * u) * pb) / D + (3 * u**2 - 4 * u + 1) * va + (3 * u**2 - 2 * u) * vb
    return p, v


def through(knots, t):
    for a, b in zip(knots, knots[1:]):
        if t <= b[0]:
            return hermite(t, *a, *b)
    return hermite(knots[-1][0], *knots[-2], *knots[-1])


def wrap(a):
    return (a + np.pi) % (2 * np.pi) - np.pi


def vec(v):
    return np.array(v, float).flatten()


def mid(A, B):
    M = T2(*(.5 * (A[:2, 3] + B[:2, 3])), 0, .5 * (A[2, 3] + B[2, 3]))
    ya, yb = yaw(A), yaw(B)
    M[:3, :3] = T2(0, 0, ya + .5 * wrap(yb - ya))[:3, :3]
    return M


def swing_knots(t0, d, e, h, r, start, vel, target):
    """x, y go straight from start to target; z through the plateau instants which are still ahead"""
    tv, te = t0 - e * d, t0 + (1 - e) * d
    plateau = [tv + d / 2 - r * d / 2, tv + d / 2 + r * d / 2] if r > 0 else [tv + d / 2]
    K = [[(t0, start[i], vel[i])] + ([(t, h, 0.) for t in plateau if t > t0 + 1e-9] if i == 2 else []) + [(te, target[i], 0.)] for i in range(3)]
    return K, plateau


# ---------------------------------------------------------------------------------------- walk trajectories
def counts(p):
    """timesteps of the kinds of supports: single, double, start or end"""
    n = p.single_support_timesteps
    half_up = lambda x: int(np.floor(x + .5))
    return n, half_up(p.double_support_ratio * n), half_up(p.startend_double_support_ratio * n)


class Part:
    pass


class Plan:
    """What a walk must be, from its supports and initial state only.
    com0: position, velocity, acceleration (2 each); fly0: position and velocity of the foot in the air at the start
    (replanned walks); yaw0: {side or "trunk": (yaw, rate)} at the start (replanned walks)"""

    def __init__(self, prm, supports, com0, t_start, fly0=None, yaw0=None):
        self.prm, self.com0, self.fly0, self.yaw0 = prm, [np.array(x, float) for x in com0], fly0, yaw0
        self.omega2 = 9.80665 / prm.walk_com_height
        ns, nd, ne = counts(prm)
        dt = prm.single_support_duration / ns
        self.parts, t = [], t_start
        for s in supports:
            p = Part()
            p.feet = {f.side: np.array(f.frame) for f in s.footsteps}
            p.order = [f.side for f in s.footsteps]
            p.start, p.end, p.e, p.ratio = s.start, s.end, s.elapsed_ratio, s.time_ratio
            both = len(p.feet) == 2
            n = ns if not both else (ne if s.start or s.end else nd)
            p.full = n * dt * p.ratio
            p.t0, p.t1 = t, t + (1 - p.e) * p.full
            f = (1 - p.e) * n
            p.n = max(1, int(f + 1e-6))
            p.ambiguous = p.e > 0 and abs(f - round(f)) < 1e-6 and f > 1
            p.dt = (p.t1 - p.t0) / p.n
            Ms = [p.feet[o] for o in p.order]
            p.frame = Ms[0] if not both else mid(*Ms)
            p.hull = hull(np.vstack([corners(np.array(g.frame), g.foot_length, g.foot_width) for g in s.footsteps]))
            p.both = both
            t = p.t1
            self.parts.append(p)
        self.t_start, self.t_end = t_start, t
        self.swings()
        self.yaws()

    def swings(self):
        P, prm = self.parts, self.prm
        for i, p in enumerate(P):
            if p.both:
                continue
            side = other(p.order[0])
            p.fly = side
            target = P[i + 1].feet[side][:3, 3]
            if i == 0:
                start, vel = self.fly0
            else:
                start, vel = P[i - 1].feet[side][:3, 3], np.zeros(3)
            p.K, p.plateau = swing_knots(p.t0, p.full, p.e if i == 0 else 0., prm.walk_foot_height, prm.walk_foot_rise_ratio, start, vel, target)

    def yaws(self):
        P = self.parts
        self.Y = {L: [], R: [], "trunk": []}
        dbl = counts(self.prm)[1] > 0

        def add(k, t, y, v=0.):
            K = self.Y[k]
            if K:
                y = K[-1][1] + wrap(y - K[-1][1])
            K.append((t, y, v))
        for s, M in P[0].feet.items():
            add(s, self.t_start, yaw(M))
        if self.yaw0 is None:
            add("trunk", self.t_start, yaw(P[0].frame))
        else:
            add("trunk", self.t_start, *self.yaw0["trunk"])
        for i, p in enumerate(P):
            if p.both:
                for s, M in p.feet.items():
                    add(s, p.t1, yaw(M))
                add("trunk", p.t1, yaw(p.frame))
            else:
                if i == 0:
                    add(p.fly, self.t_start, *self.yaw0[p.fly])
                end = yaw(P[i + 1].feet[p.fly])
                add(p.fly, p.t1, end)
                add(p.order[0], p.t1, yaw(p.feet[p.order[0]]))
                if not dbl:
                    add("trunk", p.t1, end)

    def part(self, t):
        for i, p in enumerate(self.parts):
            if t <= p.t1:
                return i, p
        return len(self.parts) - 1, self.parts[-1]

    # -- CoM: the states as affine functions of the jerks
    def affine(self):
        N = sum(p.n for p in self.parts)
        S = np.zeros((3, N + 1))                  # state = S [jerks, 1], one axis
        rows = []                                 # (part index, last step of the part, S after the step)
        init = [np.column_stack([np.zeros((3, N)), [self.com0[k][a] for k in range(3)]]) for a in range(2)]
        X = [m.copy() for m in init]
        j = 0
        for i, p in enumerate(self.parts):
            A = np.array([[1, p.dt, p.dt**2 / 2], [0, 1, p.dt], [0, 0, 1]])
            B = np.array([p.dt**3 / 6, p.dt**2 / 2, p.dt])
            for k in range(p.n):
                X = [A @ m for m in X]
                for m in X:
                    m[:, j] += B
                rows.append((i, k == p.n - 1, [m.copy() for m in X]))
                j += 1
        return N, rows

    def qp(self, soft=False, w_in=1e3, w_stop=1e3):
        """constraints of the CoM problem in qpref's form; unknowns: jerks along x then y"""
        N, rows = self.affine()
        prm, cons = self.prm, []
        ax = lambda m, r, a: (np.concatenate([m[r, :N], np.zeros(N)]) if a == 0 else np.concatenate([np.zeros(N), m[r, :N]]), m[r, N])
        hard = "soft" if soft else "hard"
        for i, last, X in rows:
            p = self.parts[i]
            zA, zb = [], []
            for a in range(2):
                pA, pb = ax(X[a], 0, a)
                aA, ab = ax(X[a], 2, a)
                zA.append(pA - aA / self.omega2)
                zb.append(pb - ab / self.omega2)
            zA, zb = np.array(zA), np.array(zb)
            G, g = [], []
            for k in range(len(p.hull)):
                u, v = p.hull[k], p.hull[(k + 1) % len(p.hull)]
                n = np.array([-(v - u)[1], (v - u)[0]]) / np.linalg.norm(v - u)
                G.append(n @ zA)
                g.append(n @ (zb - u) - prm.zmp_margin)
            cons.append(("ineq", hard, w_in, np.array(G), np.array(g)))
            off = np.zeros(2)
            if not p.both:
                off = np.array([prm.foot_zmp_target_x, prm.foot_zmp_target_y * (1 if p.order[0] == L else -1)])
            target = (p.frame @ np.array([*off, 0, 1]))[:2]
            cons.append(("eq", "soft", prm.zmp_reference_weight, zA, zb - target))
            if p.end and last:
                for r, goal in ((0, p.frame[:2, 3]), (1, np.zeros(2)), (2, np.zeros(2))):
                    q = [ax(X[a], r, a) for a in range(2)]
                    cons.append(("eq", hard, w_stop, np.array([m[0] for m in q]), np.array([m[1] for m in q]) - goal))
        return N, cons
