"""P02 - a solve returns the constrained optimum, or reports infeasibility."""
import itertools
import numpy as np
import placo
import qpref
try:
    import placo_cxx as cxx  # operators of the C++ API (see lib/shim.cpp)
except ImportError:
    cxx = None
from mc import Bad

N = 3
BOUNDS = {"quick": "all subsets of <= 4 of 21 constraints over 3 variables x {rewrite, sparsity} x 2 regularisations; all comparison operators x operand kinds x 9 targets, in Python and in C++; all subsets of <= 3 of 14 constraints over 16 variables (with up to 32 rows and 8 separate column ranges each); chains of 24 and 60 variables with up to 70 rows; weights from 1e-9 to 1e5; badly scaled and barely contradictory problems; limits on 3 offset combinations of the variables, from every side",
          "thorough": "all subsets of <= 6 of 21 constraints over 3 variables and of <= 5 of 14 over 16, same configurations"}
ROW = lambda *r: np.array(r, dtype=float).reshape(-1, N)
# name: (kind, prio, weight, A, b)   value = A x + b
MENU = {
    "s_id": ("eq", "soft", 1., np.eye(3), -np.array([1., 2., 3.])),
    "s_x0+x2": ("eq", "soft", 2., ROW([1, 0, 1]), np.array([-1.])),
    "s_v": ("eq", "soft", 10., ROW([0, 1, -1]), np.array([-.5])),
    "s_tall": ("eq", "soft", .3, ROW([1, 0, 2], [0, 0, 1], [1, 0, -1], [2, 0, 0]), np.array([.3, -1, .7, 0])),
    "s_low": ("eq", "soft", .4, ROW([1, 0, 0], [-1, 0, 0], [2, 0, 0], [.5, 0, 0], [0, 0, 2]), np.array([.3, -1, .7, 0, 1.])),
    "s_a": ("eq", "soft", 5., ROW([2, 0, 0]), np.array([4.])),
    "he_sum": ("eq", "hard", 1., ROW([1, 1, 1]), np.array([-1.])),
    "he_x0x1": ("eq", "hard", 1., ROW([1, -1, 0]), np.array([0.])),
    "he_x2": ("eq", "hard", 1., ROW([0, 0, 1]), np.array([-.5])),
    "he_x2b": ("eq", "hard", 1., ROW([0, 0, 2]), np.array([2.])),
    "he_pair": ("eq", "hard", 1., ROW([1, 0, 2], [0, 1, 0]), np.array([.2, -.4])),
    "hi_pos": ("ineq", "hard", 1., np.eye(3), np.zeros(3)),
    "hi_x0": ("ineq", "hard", 1., ROW([-1, 0, 0]), np.array([.3])),
    "hi_x1x2": ("ineq", "hard", 1., ROW([0, -1, -1]), np.array([.4])),
    "hi_x0x2": ("ineq", "hard", 1., ROW([1, 0, -1]), np.array([-.2])),
    "hi_far": ("ineq", "hard", 1., ROW([1, 0, 0]), np.array([-2.])),
    "hi_slackful": ("ineq", "hard", 1., ROW([1, 1, 1]), np.array([50.])),
    "si_x0": ("ineq", "soft", 1., ROW([1, 0, 0]), np.array([-1.5])),
    "si_x1": ("ineq", "soft", 5., ROW([0, -1, 0]), np.array([-1.])),
    "si_all": ("ineq", "soft", .2, ROW([1, 0, 1], [0, 1, 0], [0, -1, 2]), -np.array([2., 2., 2.])),
    "lim": ("ineq", "hard", 1., ROW([0, 1, 0], [0, 0, 1], [0, -1, 0], [0, 0, -1]), np.array([.8, .6, .8, .6])),
}
NAMES = list(MENU)
# many variables (of sizes 1, 5, 2 and 8), constraints spread over far away ones
NW = 16


def W_(rows):
    A = np.zeros((len(rows), NW))
    for i, r in enumerate(rows):
        for k, v in r.items():
            A[i, k] = v
    return A


WIDE = {
    "far": ("eq", "soft", 3., W_([{0: 1., 15: -2.}]), np.array([-1.])),
    "far3": ("eq", "soft", .7, W_([{2: 1., 8: 1., 14: -1.}, {0: .5, 11: 2.}]), np.array([.4, -1.3])),
    "ends": ("eq", "soft", 5., W_([{0: 1.}, {15: 1.}, {7: 1.}]), np.array([.3, -.4, 1.])),
    "dense": ("eq", "soft", .2, W_([{k: 1. + .1 * k for k in range(NW)}]), np.array([-3.])),
    "band": ("eq", "soft", 1., W_([{k: 1., k + 1: -1.} for k in range(NW - 1)]), np.linspace(-.5, .6, NW - 1)),
    "id": ("eq", "soft", .05, np.eye(NW), np.linspace(1., -1., NW)),
    "h_far": ("eq", "hard", 1., W_([{1: 1., 13: 1.}]), np.array([-.8])),
    "h_five": ("eq", "hard", 1., W_([{0: 1., 6: 1.}, {3: 2., 12: -1.}, {5: 1.}, {9: 1., 10: 1., 4: 1.}, {15: .3, 2: -1.}]), np.array([.2, -.6, .5, -1., .1])),
    "h_far_in": ("ineq", "hard", 1., W_([{0: 1., 14: 1.}, {7: -1., 15: 1.}]), np.array([-.4, -.2])),
    "h_box": ("ineq", "hard", 1., np.vstack([np.eye(NW), -np.eye(NW)]), np.full(2 * NW, .9)),
    "comb": ("eq", "soft", 2., W_([{k: 1. + .2 * k for k in range(0, NW, 2)}, {k: -1. + .1 * k for k in range(0, NW, 2)}]), np.array([-2., .7])),
    "comb1": ("eq", "soft", .8, W_([{k: 1. for k in range(1, NW, 2)}, {k: .3 * k - 1. for k in range(1, NW, 2)}]), np.array([1., -.6])),
    "tallcomb": ("eq", "soft", 1.5, W_([{k: 1. + .1 * i * k for k in range(0, NW, 3)} for i in range(9)]), np.linspace(-1., 1., 9)),
    "s_far_in": ("ineq", "soft", 4., W_([{1: 1., 12: -1.}, {3: 1., 15: 1.}, {8: -1.}]), np.array([-1., -.5, -.3])),
}


def cases(tier):
    for form in ("<=", ">=", "=="):
        for rhs in ("float", "vector", "expr", "rfloat", "rvector") + (("ed", "de", "ev", "ve", "ee") if cxx else ()):
            for rows in (1, 2):
                for prio in ("hard", "soft"):
                    yield {"cmp": form, "rhs": rhs, "rows": rows, "prio": prio}
    for s in (1e-7, 1e-5, 1e-3, 1., 1e3):
        for kind in ("tiny coefficient", "tiny gap", "tiny gap ineq"):
            for rewrite in (True, False):
                yield {"scale": s, "kind": kind, "rewrite": rewrite}
    for k in range(1, 4 if tier == "quick" else 6):
        for sub in itertools.combinations(list(WIDE), k):
            yield {"wide": list(sub)}
    for n in (24, 60):
        for kinds in itertools.product((0, 1), repeat=5):
            yield {"chain": n, "kinds": list(kinds)}
    for w in (1e-9, 1e-7, 1e-5, 1e-3, 1e5):
        yield {"weight": w}
    for t in ([-.5], [.3, -.2], [-1e-3, 2.]):
        yield {"limit": t}
    for i in range(len(LIM_A)):
        for off in itertools.product((-.7, 0., 1.1), repeat=len(LIM_A[i])):
            for aim in itertools.product((-3., .1, 3.), repeat=3) if tier != "quick" else [(3., 3., 3.), (-3., -3., -3.), (3., .1, -3.), (.1, -3., 3.)]:
                for prio in ("hard", "soft"):
                    yield {"lims": i, "off": list(off), "aim": list(aim), "prio": prio}
    for k in range(0, 5 if tier == "quick" else 7):
        for sub in itertools.combinations(NAMES, k):
            yield {"set": list(sub)}


# limits on combinations of the variables, offset
LIM_A = [ROW([0, 2, -1]), ROW([1, 0, 1], [0, 1, -1]), ROW([1, 0, 0], [0, -1, 1], [.5, 1, 0])]


def run_limits(case, ctx):
    """-t <= A x + b <= t, while the cost pulls towards a point that may lie beyond either limit"""
    A, b, aim = LIM_A[case["lims"]], np.array(case["off"]), np.array(case["aim"])
    t = np.array([.6, .9, .4])[:len(b)]
    w = 1. if case["prio"] == "hard" else 3.
    cons = [("eq", "soft", 1., np.eye(3), -aim), ("ineq", case["prio"], w, np.vstack([-A, A]), np.concatenate([t - b, t + b]))]
    for rewrite, sparse in itertools.product((True, False), repeat=2):
        p, a, v, full = make(dict(rewrite_equalities=rewrite, use_sparsity=sparse))
        p.add_constraint(full == aim).configure("soft", 1.)
        p.add_limit(full.left_multiply(A) + b, t).configure(case["prio"], w)
        p.solve()
        ctx.step(3), ctx.trace()
        x = np.asarray(p.x).reshape(-1)[:N]
        why = qpref.kkt(cons, N, x, p.regularization)
        ctx.ok(why is None, "solution %s with the limits %s on %s x + %s (%s)" % (x, t, A.tolist(), b, case["prio"]), why)
    ctx.state("lims", case)


def make(opts):
    p = placo.Problem()
    a, v = p.add_variable(1), p.add_variable(2)
    for k, val in opts.items():
        setattr(p, k, val)
    full = a.expr() / v.expr()
    return p, a, v, full


def add(p, v, full, name):
    kind, prio, w, A, b = MENU[name]
    if name == "lim":
        c = p.add_limit(v.expr(), np.array([.8, .6]))
    else:
        e = full.left_multiply(A) + b
        c = p.add_constraint((e == 0) if kind == "eq" else (e >= 0))
    c.configure(prio, w)
    return c


def independent(cons):
    E = qpref.hard(cons, N)[0]
    return len(E) == 0 or np.linalg.matrix_rank(E) == len(E)


def check_solution(ctx, p, a, v, cons, handles, reg):
    x = np.asarray(p.x).reshape(-1)[:N]
    why = qpref.kkt(cons, N, x, reg)
    ctx.ok(why is None, "solution %s" % x, why)
    ctx.close(a.value, x[:1], "value of the first variable", 1e-12)
    ctx.close(v.value, x[1:], "value of the second variable", 1e-12)
    ctx.ok(p.n_variables == N, "number of variables", p.n_variables)
    # slack variables of the soft inequalities: the positive part of the expression
    rows = [r for k, pr, w, A, b in cons if k == "ineq" and pr == "soft" for r in (A @ x + b)]
    ctx.ok(p.slack_variables == len(rows), "number of slack variables", p.slack_variables)
    ctx.close(np.asarray(p.slacks).reshape(-1), np.maximum(np.array(rows), 0), "slack variables", 1e-4)
    activity(ctx, cons, handles, x, N, reg)


def activity(ctx, cons, handles, x, n, reg):
    """the activity flags of the constraints at the solution x"""
    for (k, pr, w, A, b), h in zip(cons, handles):
        ctx.ok(h.priority == pr, "priority reported by a constraint", h.priority)
        r = A @ x + b
        if k == "eq":
            ctx.ok(h.is_active, "an equality is always active")
        elif pr == "hard":
            if np.all(r > 1e-4):
                ctx.ok(not h.is_active, "hard inequality flagged active although it is not tight", r)
            else:
                # strictly needed: removing it would change the optimum
                g = qpref.gradient(cons, x, reg)
                others = [c for c in cons if c[3] is not A]
                if qpref.kkt(others, n, x, reg) is not None and np.linalg.norm(g) > 1e-3 and np.any(r < 1e-7):
                    ctx.ok(h.is_active, "binding hard inequality not flagged active", r)
        else:
            if np.all(r > 1e-3):
                ctx.ok(not h.is_active, "satisfied soft inequality flagged active", r)
            elif np.any(r < -1e-3):
                ctx.ok(h.is_active, "violated soft inequality not flagged active", r)


def run(case, ctx):
    if "cmp" in case:
        return run_cmp(case, ctx)
    if "scale" in case:
        return run_scale(case, ctx)
    if "wide" in case:
        return run_wide(case, ctx)
    if "chain" in case:
        return run_chain(case, ctx)
    if "weight" in case:
        return run_weight(case, ctx)
    if "lims" in case:
        return run_limits(case, ctx)
    if "limit" in case:
        p = placo.Problem()
        t = np.array(case["limit"])
        x = p.add_variable(len(t))
        p.add_constraint(x.expr() == np.zeros(len(t))).configure("soft", 1.)
        p.add_limit(x.expr(), t)
        ctx.raises(p.solve, "an expression within negative limits %s" % t)
        ctx.step(), ctx.trace(), ctx.state("limit", case["limit"])
        return
    names = case["set"]
    cons = [MENU[n] for n in names]
    E = qpref.hard(cons, N)[0]
    feas, margin = qpref.feasible(cons, N)
    ind = independent(cons)
    ctx.state("set", names)
    if feas and not ind:
        return  # redundant equalities: refusing them is allowed
    if len(E) == N and feas and any(k == "ineq" for k, *_ in cons) and margin < 1e-6:
        return
    for rewrite in (True, False):
        for sparse in (True, False):
            # infeasible problems: only with a well conditioned Hessian (the third-party QP solver may cycle otherwise)
            for reg in (1e-8, 1e-2) if feas else (1e-2,):
                opts = dict(rewrite_equalities=rewrite, use_sparsity=sparse, regularization=reg)
                p, a, v, full = make(opts)
                handles = [add(p, v, full, n) for n in names]
                ctx.step(len(names) + 1)
                try:
                    p.solve()
                    err = None
                except Exception as e:
                    err = e
                ctx.trace()
                if not feas:
                    # do not judge problems infeasible by a hair
                    if margin < -1e-3 or (len(E) and not ind):
                        ctx.ok(err is not None, "infeasible problem solved without an error %s" % opts)
                elif margin > 1e-6 or not any(k == "ineq" and pr == "hard" for k, pr, *_ in cons):
                    ctx.ok(err is None, "feasible problem refused %s" % opts, err)
                    check_solution(ctx, p, a, v, cons, handles, reg)


def run_wide(case, ctx):
    cons = [WIDE[n] for n in case["wide"]]
    feas, margin = qpref.feasible(cons, NW)
    ctx.state("wide", case["wide"])
    if not feas or margin < 1e-6 and any(k == "ineq" and pr == "hard" for k, pr, *_ in cons):
        return
    for rewrite, sparse, split in itertools.product((True, False), (True, False), ([16], [1, 5, 2, 8])):
        p = placo.Problem()
        p.rewrite_equalities, p.use_sparsity, p.regularization = rewrite, sparse, 1e-3
        vs = [p.add_variable(n) for n in split]
        full = vs[0].expr()
        for v in vs[1:]:
            full = full / v.expr()
        hs = []
        for kind, prio, w, A, b in cons:
            e = full.left_multiply(A) + b
            hs.append(p.add_constraint((e == 0) if kind == "eq" else (e >= 0)))
            hs[-1].configure(prio, w)
        p.solve()
        x = np.asarray(p.x).reshape(-1)[:NW]
        activity(ctx, cons, hs, x, NW, 1e-3)
        why = qpref.kkt(cons, NW, x, 1e-3)
        ctx.ok(why is None, "solution of %s (equalities rewritten: %s, sparsity: %s): %s" % (case["wide"], rewrite, sparse, why), x)
        ctx.close(np.concatenate([np.asarray(v.value).reshape(-1) for v in vs]), x, "values of the variables", 1e-12)
        ctx.step(len(cons) + 1)
        ctx.trace()


def run_chain(case, ctx):
    """one variable per step of a long chain: differences, bounds, a comb, end points and many small constraints"""
    n, (diffs, box, comb, ends, many) = case["chain"], case["kinds"]
    row = lambda d: np.array([[d.get(k, 0.) for k in range(n)]])
    cons = [("eq", "soft", 1., np.eye(n), -np.sin(np.arange(n)))]
    if diffs:
        cons.append(("eq", "soft", 5., np.eye(n, k=1)[:-1] - np.eye(n)[:-1], np.full(n - 1, -.1)))
    if box:
        cons.append(("ineq", "hard", 1., np.vstack([np.eye(n)[: n // 2], -np.eye(n)[: n // 2 + 3]]), np.full(2 * (n // 2) + 3, .8)))
    if comb:
        cons.append(("eq", "soft", 2., row({k: 1. for k in range(0, n, 2)}), np.array([-3.])))
        cons.append(("ineq", "soft", 3., row({k: (-1.) ** k for k in range(0, n, 3)}), np.array([-2.])))
    if ends:
        cons.append(("eq", "hard", 1., np.vstack([row({0: 1., n - 1: -1.}), row({n - 1: 2., n - 2: 1.}), row({n // 2: 1.})]), np.array([.1, -.3, .2])))
    if many:
        cons += [("eq", "soft", .5 + .1 * k, row({k: 1., (k * 7 + 3) % n: -1.5}), np.array([.2 * k - 1.])) for k in range(0, n, 2)]
        cons += [("ineq", "soft" if k % 2 else "hard", 2., row({k: -1.}), np.array([.9])) for k in range(n // 2 + 4, n)]
    ctx.state("chain", case)
    for rewrite, sparse in itertools.product((True, False), repeat=2):
        p = placo.Problem()
        p.rewrite_equalities, p.use_sparsity, p.regularization = rewrite, sparse, 1e-3
        vs = [p.add_variable(1) for _ in range(n)] if n < 30 else [p.add_variable(n // 4) for _ in range(4)]
        full = vs[0].expr()
        for v in vs[1:]:
            full = full / v.expr()
        hs = []
        for kind, prio, w, A, b in cons:
            e = full.left_multiply(A) + b
            hs.append(p.add_constraint((e == 0) if kind == "eq" else (e >= 0)))
            hs[-1].configure(prio, w)
        p.solve()
        x = np.asarray(p.x).reshape(-1)[:n]
        why = qpref.kkt(cons, n, x, 1e-3)
        ctx.ok(why is None, "solution of a chain of %d variables (%s; equalities rewritten: %s, sparsity: %s): %s" % (n, case["kinds"], rewrite, sparse, why), x)
        ctx.close(np.concatenate([np.asarray(v.value).reshape(-1) for v in vs]), x, "values of the variables", 1e-12)
        ctx.step(len(cons) + 1), ctx.trace()


def run_weight(case, ctx):
    """weights of any magnitude: min w |x - t|^2 + W |x - s|^2 + reg |x|^2"""
    w = case["weight"]
    for ratio, reg, rewrite, sparse in itertools.product((0., .5, 3.), (1e-12, 1e-8), (True, False), (True, False)):
        p = placo.Problem()
        p.rewrite_equalities, p.use_sparsity, p.regularization = rewrite, sparse, reg
        x = p.add_variable(2)
        t, s = np.array([1., -2.]), np.array([3., .5])
        p.add_constraint(x.expr() == t).configure("soft", w)
        if ratio:
            p.add_constraint(x.expr() == s).configure("soft", w * ratio)
        p.solve()
        ctx.close(x.value, (w * t + w * ratio * s) / (w + w * ratio + reg), "weights %g and %g, regularization %g" % (w, w * ratio, reg), 1e-6)
        ctx.step(3), ctx.trace(), ctx.state("weight", w, ratio, reg, rewrite, sparse)


def run_scale(case, ctx):
    s, kind = case["scale"], case["kind"]
    for sparse in (True, False):
        p = placo.Problem()
        p.rewrite_equalities, p.use_sparsity = case["rewrite"], sparse
        pad, x, y = p.add_variable(1), p.add_variable(1), p.add_variable(1)
        p.add_constraint(pad.expr() == 1.).configure("soft", 1.)
        p.add_constraint(x.expr() == 0.).configure("soft", 1.)
        p.add_constraint(y.expr() == 2.).configure("soft", 1.)
        p.add_constraint(y.expr() == 0.)
        ctx.step(5)
        ctx.trace()
        ctx.state("scale", s, kind, case["rewrite"], sparse)
        if kind == "tiny coefficient":
            # y = 0 is imposed: x alone has to satisfy s x + y >= 1
            p.add_constraint(s * x.expr() + y.expr() >= 1.)
            p.solve()
            ctx.close(s * float(x.value[0]), 1., "a constraint with a coefficient of %g" % s, 1e-6)
            ctx.close(y.value, [0.], "hard equality", 1e-6)
        elif kind == "tiny gap":
            if s < 1e-4:
                continue
            p.add_constraint(x.expr() + y.expr() == 1.)
            p.add_constraint(x.expr() == 1. + s)
            ctx.raises(p.solve, "equalities contradicting each other by %g solved" % s)
        else:
            if s < 1e-4:
                continue
            p.add_constraint(x.expr() - y.expr() >= 1. + s)
            p.add_constraint(x.expr() <= 1.)
            ctx.raises(p.solve, "inequalities contradicting each other by %g solved" % s)


def run_cmp(case, ctx):
    """min |x - t|^2 subject to (x op c): projection"""
    r = case["rows"]
    c = np.array([.7, -.4])[:r]
    form, rhs, prio = case["cmp"], case["rhs"], case["prio"]
    for t in itertools.product((-2., -.5, -.405, -.395, .3, .695, .7, .705, 1.9), repeat=r):
        t = np.array(t)
        p = placo.Problem()
        pad = p.add_variable(1)
        x = p.add_variable(r)
        e = x.expr()
        if rhs in ("float", "ed"):
            cc, L, R = np.full(r, .7), e, .7
        elif rhs in ("rfloat", "de"):
            cc, L, R = np.full(r, .7), .7, e
        elif rhs in ("vector", "ev"):
            cc, L, R = c, e, c
        elif rhs in ("rvector", "ve"):
            cc, L, R = c, c, e
        else:
            y = p.add_variable(r)
            p.add_constraint(y.expr() == c)
            cc, L, R = c, e, y.expr()
        flip = rhs in ("rfloat", "rvector", "de", "ve")
        if len(rhs) == 2:
            con = getattr(cxx, {"<=": "le_", ">=": "ge_", "==": "eq_"}[form] + rhs)(L, R)
        elif rhs == "rvector":
            con = {"<=": lambda: e.__ge__(c), ">=": lambda: e.__le__(c), "==": lambda: e.__eq__(c)}[form]()
        else:
            con = {"<=": lambda: L <= R, ">=": lambda: L >= R, "==": lambda: L == R}[form]()
        h = p.add_constraint(con)
        ctx.ok(h.priority == "hard", "constraints are hard by default")
        if prio == "soft":
            h.configure("soft", 3.)
        p.add_constraint(e == t).configure("soft", 1.)
        p.solve()
        ctx.step(3)
        ctx.trace()
        le = (form == "<=") != flip
        viol = np.ones(r, bool) if form == "==" else (t > cc if le else t < cc)
        goal = cc if prio == "hard" else (t + 3. * cc) / 4.
        want = np.where(viol, goal, t)
        ctx.close(x.value, want, "minimiser of |x-t|^2 s.t. x %s %s (%s, operand kind %s), t=%s" % (form, cc, prio, rhs, t), 1e-5)
        ctx.state(form, rhs, r, prio, t.tolist())
        if prio == "soft" and form != "==":
            far = np.abs(t - cc) > 2e-3
            if np.all(far):
                ctx.ok(h.is_active == bool(np.any(viol)), "activity of a soft inequality", form, rhs, t, cc)
    # sizes that do not match
    p = placo.Problem()
    x = p.add_variable(r)
    bad = np.zeros(r + 2)
    if r == 2:
        ctx.raises(lambda: x.expr() <= bad, "comparison with a vector of the wrong size")
        ctx.raises(lambda: x.expr() == bad, "comparison with a vector of the wrong size")
    # expressions of a bigger problem, or empty ones, are rejected
    for prio_ in ("hard", "soft"):
        for kind in ("eq", "ineq"):
            big = placo.Problem()
            y = big.add_variable(r + 4)
            e = y.expr(r + 1, 2)
            p = placo.Problem()
            x = p.add_variable(r)
            p.add_constraint(x.expr() == 1.)
            p.add_constraint((e == 0.) if kind == "eq" else (e >= 0.)).configure(prio_, 1.)
            ctx.raises(p.solve, "solving with an expression over more variables than the problem has")
            p = placo.Problem()
            x = p.add_variable(r)
            e = placo.Expression()
            p.add_constraint((e == e) if kind == "eq" else (e >= e)).configure(prio_, 1.)
            ctx.raises(p.solve, "solving with an empty constraint")
            e = x.expr()
            e.b = np.zeros(r + 3)
            p = placo.Problem()
            x = p.add_variable(r)
            p.add_constraint(x.expr() == 1.).configure("soft", 1.)
            c = p.add_constraint(x.expr() == 1.) if kind == "eq" else p.add_constraint(x.expr() >= 1.)
            c.configure(prio_, 1.)
            ce = c.expression
            ce.b = np.zeros(r + 3)
            if len(np.asarray(c.expression.b).reshape(-1)) == r + 3:
                ctx.raises(p.solve, "solving with a constraint whose A and b disagree")
            ctx.step(3)
