"""P05 - polynomials and polygon membership constraints."""
import itertools
import numpy as np
import placo

BOUNDS = {"quick": "coefficient vectors over {-1,0,2} of size 1..4 (+ size 6) x 7 abscissas x derivatives 0..6; degrees 12 to 26 x every derivative and negative orders; 10 convex polygons (up to 12 sides) x 4 margins x 2 entry points x 11x11 targets",
          "thorough": "coefficient vectors over {-1,0,.5,2} of size 1..5 (+ sizes 6, 8) x 13 abscissas x derivatives 0..8; same polygons, 41x41 targets"}
XS = [-2., -1., -.3, 0., .5, 1., 1.7]


def ngon(n, r, c, ph):
    a = ph - np.arange(n) * 2 * np.pi / n  # clockwise
    return np.array(c) + r * np.stack([np.cos(a), np.sin(a)], 1)


POLYS = {"square": np.array([[-.5, -.5], [-.5, .5], [.5, .5], [.5, -.5]]),
         "rect": np.array([[1., 1.], [1., 2.], [4., 2.], [4., 1.]]) * .5 - .9,
         "tri": ngon(3, .8, (.1, -.2), .3), "penta": ngon(5, .7, (-.3, .2), 1.1), "hexa": ngon(6, .6, (0, 0), .2),
         "sliver": np.array([[-.9, -.05], [-.8, .12], [.9, .3], [.8, 0.]]),
         "octo": ngon(8, .7, (.1, .05), .1), "dozen": ngon(12, .65, (-.1, .1), .4), "arc": ngon(30, .8, (.2, 0.), 0.)[:11],
         "diamond": np.array([[0., -.8], [-.4, 0.], [0., .8], [.4, 0.]])}


def cases(tier):
    vals = (-1., 0., 2.) if tier == "quick" else (-1., 0., .5, 2.)
    for n in range(1, 5 if tier == "quick" else 6):
        for c in itertools.product(vals, repeat=n):
            yield {"coef": list(c)}
    yield {"coef": [1., -2., .5, 3., -1., .25]}
    yield {"coef": [.5, -1., 2., .5, -3., 1., -.25, 4.]}
    for n in (12, 13, 14, 18, 21, 26):
        yield {"high": n}
    for name in POLYS:
        for m in (0., .05, .15, -.1):
            for entry in ("xy", "split"):
                yield {"poly": name, "margin": m, "entry": entry}


def project(H, c, t):
    """projection of t on {p: H p >= c} by enumeration of the active sets"""
    best = None
    if np.all(H @ t - c >= -1e-12):
        return t
    n = len(H)
    cand = []
    for i in range(n):
        cand.append(t + H[i] * (c[i] - H[i] @ t) / (H[i] @ H[i]))
        for j in range(i + 1, n):
            M = H[[i, j]]
            if abs(np.linalg.det(M)) > 1e-9:
                cand.append(np.linalg.solve(M, c[[i, j]]))
    for p in cand:
        if np.all(H @ p - c >= -1e-9):
            d = np.linalg.norm(p - t)
            if best is None or d < best[0]:
                best = (d, p)
    return None if best is None else best[1]


def run(case, ctx):
    if "high" in case:
        # derivatives of a high degree polynomial, with exact rational coefficients
        import math
        n = case["high"]
        c = np.array([((3 * i) % 7 - 3) / 8 for i in range(n + 1)])
        pol = placo.Polynom(c)
        p = placo.Problem()
        var = p.add_variable(n + 1)
        pp = placo.ProblemPolynom(var)
        for d in range(n + 3):
            k = [math.factorial(j) // math.factorial(j - d) if j >= d else 0 for j in range(n, -1, -1)]
            for deg in range(n + 1):
                ctx.close(placo.Polynom.derivative_coefficient(deg, d) / max(1, k[n - deg]), 1. if deg >= d else 0., "derivative coefficient %d of degree %d" % (d, deg), 1e-12)
            for x in (-1.1, 0., .7, 1.):
                want = math.fsum(a * b * x ** max(j - d, 0) for a, b, j in zip(k, c, range(n, -1, -1)))
                size = 1 + math.fsum(abs(a * b) * abs(x) ** max(j - d, 0) for a, b, j in zip(k, c, range(n, -1, -1)))
                ctx.close(pol.value(x, d) / size, want / size, "derivative %d of a polynomial of degree %d" % (d, n), 1e-11)
                ctx.close(np.array(pp.expr(x, d).value(c)).flatten() / size, [want / size], "expression of derivative %d of a polynomial of degree %d" % (d, n), 1e-11)
                ctx.step(2)
        for d in (-1, -2, -n - 3):
            ctx.raises(lambda: pol.value(.5, d), "a negative differentiation order")
            ctx.raises(lambda: pp.expr(.5, d), "a negative differentiation order")
        ctx.state(n)
        ctx.trace()
        return
    if "coef" in case:
        c = np.array(case["coef"])
        xs = XS if ctx.tier == "quick" else np.linspace(-3, 3, 13)
        pol = placo.Polynom(c)
        p = placo.Problem()
        p.add_variable(2)
        var = p.add_variable(len(c))
        pp = placo.ProblemPolynom(var)
        p.add_constraint(var.expr() == c)
        p.solve()
        x = np.asarray(p.x).reshape(-1)
        got = pp.get_polynom()
        ctx.close(got.coefficients, c, "coefficients of the solved polynomial", 1e-7)
        for d in range(7 if ctx.tier == "quick" else 9):
            ref = np.polyder(np.poly1d(c), d) if d else np.poly1d(c)
            for xx in xs:
                ctx.close(pol.value(float(xx), d), ref(xx), "derivative %d of %s at %g" % (d, c, xx), 1e-8, 1e-10)
                ctx.close(pp.expr(float(xx), d).value(x), [ref(xx)], "expression of derivative %d at %g" % (d, xx), 1e-5)
                ctx.close(got.value(float(xx), d), ref(xx), "solved polynomial", 1e-5)
                ctx.step(3)
            for deg in range(len(c)):
                import math
                want = math.factorial(deg) // math.factorial(deg - d) if d <= deg else 0
                ctx.ok(placo.Polynom.derivative_coefficient(deg, d) == want, "derivative coefficient %d of degree %d" % (d, deg))
        ctx.close(pol.value(.5), np.polyval(c, .5), "default derivative", 1e-9)
        # interpolation problem: the polynomial goes through prescribed values
        if len(c) >= 2:
            p = placo.Problem()
            var = p.add_variable(len(c))
            pp = placo.ProblemPolynom(var)
            nodes = np.linspace(-1, 1, len(c) - 1)
            for t in nodes:
                p.add_constraint(pp.expr(float(t), 0) == float(np.polyval(c, t)))
            p.add_constraint(pp.expr(.4, 1) == float(np.polyval(np.polyder(c), .4)))
            M = np.vstack([np.vander(nodes, len(c)), [(len(c) - 1 - i) * .4 ** max(len(c) - 2 - i, 0) for i in range(len(c))]])
            if np.linalg.cond(M) < 1e4:
                p.solve()
                ctx.close(pp.get_polynom().coefficients, c, "interpolating polynomial", 1e-5)
        ctx.state(case["coef"])
        ctx.trace()
        return
    poly, m = POLYS[case["poly"]], case["margin"]
    H, c = [], []
    for a, b in zip(poly, np.roll(poly, -1, axis=0)):
        d = (b - a) / np.linalg.norm(b - a)
        n = np.array([d[1], -d[0]])
        H.append(n)
        c.append(n @ a + m)
    H, c = np.array(H), np.array(c)
    k = 11 if ctx.tier == "quick" else 41
    for t in itertools.product(np.linspace(-1.3, 1.3, k), repeat=2):
        t = np.array(t)
        p = placo.Problem()
        pad = p.add_variable(1)
        v = p.add_variable(2)
        e = v.expr()
        if case["entry"] == "xy":
            con = placo.PolygonConstraint.in_polygon_xy(e, poly, m)
        else:
            con = placo.PolygonConstraint.in_polygon(e.slice(0, 1), e.slice(1, 1), poly, m)
        p.add_constraint(con)
        p.add_constraint(e == t).configure("soft", 1.)
        want = project(H, c, t)
        ctx.step(3)
        ctx.state(case["poly"], m, t.tolist())
        if want is None:
            ctx.raises(p.solve, "membership of an empty polygon (margin %g)" % m)
        else:
            p.solve()
            ctx.close(v.value, want, "point of the polygon closest to %s (margin %g)" % (t, m), 1e-5)
        ctx.trace()
    ctx.raises(lambda: placo.PolygonConstraint.in_polygon_xy(p.add_variable(3).expr(), poly, m), "3 rows expression in a 2D polygon")
    ctx.raises(lambda: placo.PolygonConstraint.in_polygon_xy(p.add_variable(1).expr(), poly, m), "1 row expression in a 2D polygon")
