"""P08 - planar segment predicates agree with exact rational geometry."""
import itertools
from fractions import Fraction as F
import numpy as np
import placo

BOUNDS = {"quick": "all pairs of non-degenerate segments with end points on a 4x4 grid, 2 placements (scale / offset), and every grid point",
          "thorough": "all pairs of non-degenerate segments with end points on a 5x5 grid, 4 placements, and every grid point"}
EPS = 1e-6


def cases(tier):
    n = 4 if tier == "quick" else 5
    pts = list(itertools.product(range(n), repeat=2))
    for a in pts:
        for b in pts:
            if a != b:
                for place in range(2 if n == 4 else 4):
                    yield {"a": a, "b": b, "n": n, "place": place}


PL = [(1., np.zeros(2)), (7e-4, np.array([.5, -.25])), (.013, np.array([5., -2.])), (40., np.array([-300., 7.]))]


def run(case, ctx):
    n = case["n"]
    pts = list(itertools.product(range(n), repeat=2))
    sc, off = PL[case["place"]]
    w = lambda p: sc * np.array(p, float) + off
    a, b = tuple(case["a"]), tuple(case["b"])
    s1 = placo.Segment(w(a), w(b))
    v1 = (b[0] - a[0], b[1] - a[1])
    cr = lambda u, v: u[0] * v[1] - u[1] * v[0]
    sub = lambda p, q: (p[0] - q[0], p[1] - q[1])
    dot = lambda u, v: u[0] * v[0] + u[1] * v[1]
    ctx.close(s1.norm(), sc * np.hypot(*v1), "length", 1e-6)
    ctx.close(s1.start, w(a), "start")
    ctx.close(s1.end, w(b), "end")
    # moving one end leaves the other one
    s2 = placo.Segment(w(b), w(b) + 1.)
    s2.end = w(a)
    ctx.close(s2.start, w(b), "start after setting the end")
    ctx.close(s2.end, w(a), "end after setting the end")
    s2.start = w(a) + 1.
    ctx.close(s2.start, w(a) + 1., "start after setting it")
    ctx.close(s2.end, w(a), "end after setting the start")
    for p in pts:
        al = cr(v1, sub(p, a)) == 0
        ctx.ok(s1.is_point_aligned(w(p), EPS) == al, "point alignment", case, p)
        inn = al and 0 <= dot(v1, sub(p, a)) <= dot(v1, v1)
        # end points up to rounding: only judged on exactly representable coordinates
        if case["place"] == 0 or p not in (a, b):
            ctx.ok(s1.is_point_in_segment(w(p), EPS) == inn, "point in segment", case, p)
        ctx.step(2)
    for c in pts:
        for d in pts:
            if c == d:
                continue
            s2 = placo.Segment(w(c), w(d))
            v2 = sub(d, c)
            det = cr(v1, v2)
            ctx.ok(s1.is_parallel(s2, EPS) == (det == 0), "parallelism", case, c, d)
            ctx.ok(s1.is_segment_aligned(s2, EPS) == (cr(v1, sub(c, a)) == 0 and cr(v1, sub(d, a)) == 0), "segment alignment", case, c, d)
            ctx.step(2)
            ctx.state(v1, v2, sub(c, a))
            if det == 0:
                for f in (lambda: s1.intersects(s2), lambda: s1.line_pass_through(s2), lambda: s1.half_line_pass_through(s2),
                          lambda: s1.lines_intersection(s2)):
                    ctx.raises(f, "intersection of parallel segments")
                continue
            l1 = F(cr(sub(c, a), v2), det)
            l2 = F(cr(sub(c, a), v1), det)
            P = w((float(a[0] + l1 * v1[0]), float(a[1] + l1 * v1[1])))
            ctx.close(s1.lines_intersection(s2), P, "intersection point", 1e-6 * max(1, sc))
            exact = case["place"] == 0
            b1, b2 = l1 in (0, 1), l2 in (0, 1)
            # touching end points are only judged where the coordinates are exact
            if exact or not (b1 or b2):
                ctx.ok(s1.intersects(s2) == (0 <= l1 <= 1 and 0 <= l2 <= 1), "segments intersection", case, c, d)
            if exact or not b1:
                ctx.ok(s1.line_pass_through(s2) == (0 <= l1 <= 1), "line of the other segment through this one", case, c, d)
            if exact or not (b1 or l2 == 0):
                ctx.ok(s1.half_line_pass_through(s2) == (0 <= l1 <= 1 and l2 >= 0), "half-line of the other segment through this one", case, c, d)
            ctx.step(4)
        ctx.trace()
