"""P06 - sparsity descriptors always denote exactly the union of what was added."""
import itertools
import numpy as np
import placo

BOUNDS = {"quick": "all sequences of <= 4 intervals over columns 0..4, all ordered pairs of descriptors of <= 2 intervals over 0..4; all zero/non-zero column patterns of 1x..3x matrices with <= 8 columns; 5 sets of 6 intervals up to column 121, in every order",
          "thorough": "all sequences of <= 4 intervals over columns 0..6; all column patterns with <= 11 columns"}


def iv(n):
    return [(a, b) for a in range(n) for b in range(a, n)]


# many intervals, in every order: apart, touching, overlapping, nested
MANY = [[(0, 1), (3, 4), (6, 8), (10, 10), (12, 15), (17, 20)], [(0, 4), (5, 9), (12, 13), (14, 20), (22, 22), (30, 40)], [(0, 6), (5, 12), (11, 13), (20, 29), (24, 26), (28, 33)],
        [(3, 30), (0, 0), (5, 5), (12, 14), (31, 31), (33, 60)], [(100, 120), (7, 9), (0, 3), (4, 6), (50, 99), (121, 121)]]


def cases(tier):
    n = 5 if tier == "quick" else 7
    for first in [None] + iv(n):
        for second in ([None] if first is None else [None] + iv(n)):
            yield {"n": n, "first": first, "second": second}
    for a in iv(5):
        yield {"sum": a}
    for k in range(len(MANY)):
        yield {"many": k}
    for cols in range(0, 9 if tier == "quick" else 12):
        yield {"cols": cols}


def members(s):
    out = set()
    M = np.asarray(s.intervals).reshape(-1, 2)
    for a, b in M:
        out |= set(range(int(a), int(b) + 1))
    return M, out


def check(ctx, s, want, path):
    M, got = members(s)
    ctx.ok(got == want, "columns covered after %s" % (path,), sorted(got), sorted(want))
    for (a, b) in M:
        ctx.ok(a <= b, "reversed interval after %s" % (path,), M.tolist())
    for (a, b), (c, d) in zip(M, M[1:]):
        ctx.ok(b < c, "intervals overlap or are not sorted after %s" % (path,), M.tolist())


def build(seq):
    s = placo.Sparsity()
    for a, b in seq:
        s.add_interval(a, b)
    return s


def cover(seq):
    return set(k for a, b in seq for k in range(a, b + 1))


def run(case, ctx):
    if "n" in case:
        pre = [tuple(case[k]) for k in ("first", "second") if case[k] is not None]
        ext = [[]]
        if case["second"] is not None:
            ext += [[x] for x in iv(case["n"])] + [[x, y] for x in iv(case["n"]) for y in iv(case["n"])]
        for e in ext:
            seq = pre + e
            s = build(seq)
            check(ctx, s, cover(seq), seq)
            ctx.step(len(seq))
            ctx.trace()
            ctx.state(sorted(cover(seq)))
    elif "many" in case:
        for seq in itertools.permutations(MANY[case["many"]]):
            s = placo.Sparsity()
            for k, (a, b) in enumerate(seq):
                s.add_interval(a, b)
                check(ctx, s, cover(seq[:k + 1]), seq[:k + 1])
            for k in range(1, 6):
                check(ctx, build(seq[:k]) + build(seq[k:]), cover(seq), ["sum", seq[:k], seq[k:]])
            ctx.step(11)
            ctx.trace()
            ctx.state(seq)
        n = max(b for a, b in MANY[case["many"]]) + 3
        for sub in itertools.chain(*(itertools.combinations(MANY[case["many"]], k) for k in range(7))):
            M = np.zeros((2, n))
            for a, b in sub:
                M[(a + b) % 2, a:b + 1] = 1. + a
            check(ctx, placo.Sparsity.detect_columns_sparsity(M), cover(sub), ["detect", sub])
            ctx.step()
    elif "sum" in case:
        a = tuple(case["sum"])
        for x in [[a]] + [[a, b] for b in iv(5)]:
            for y in [[]] + [[c] for c in iv(5)] + [[c, d] for c in iv(5) for d in iv(5)]:
                sx, sy = build(x), build(y)
                check(ctx, sx + sy, cover(x) | cover(y), ["sum", x, y])
                check(ctx, sx, cover(x), ["left operand of sum", x, y])
                check(ctx, sy, cover(y), ["right operand of sum", x, y])
                ctx.step()
            ctx.trace()
    else:
        n = case["cols"]
        for pat in itertools.product((0, 1), repeat=n):
            for rows in (1, 2, 3):
                for amp in (1., -3e-3, 1e-9, 2e6, "cancel"):
                    M = np.zeros((rows, n))
                    for j, f in enumerate(pat):
                        if f:
                            if amp == "cancel" and rows > 1:
                                M[j % rows, j], M[(j + 1) % rows, j] = .7, -.7
                            else:
                                M[j % rows, j] = 1. if amp == "cancel" else amp
                    s = placo.Sparsity.detect_columns_sparsity(M) if n else placo.Sparsity()
                    check(ctx, s, {j for j, f in enumerate(pat) if f}, ["detect", pat, rows])
                    ctx.step()
            ctx.state("detect", pat)
            ctx.trace()
