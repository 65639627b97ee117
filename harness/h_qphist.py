"""P03 - the answer depends only on the current problem: not on options, insertion order, or what was solved before."""
import itertools
import numpy as np
import placo
import qpref
from mc import Bad, pumped, sequences

BOUNDS = {"quick": "all sequences of <= 4 operations over a 17-operation alphabet, solving after every operation and only at the end; all sequences of 3 to 5 over 8 operations which enter the same constraints again in another order; all orders of 5-constraint problems",
          "thorough": "all sequences of <= 5 operations, same alphabet"}
R = lambda *r: np.array(r, dtype=float)
CONS = {  # coefficient rows over the first three variables, offset, kind, priority, weight
    "track": (np.eye(3), -R(1, 2, 3), "eq", "soft", 1.),
    "gap": (R([1, 0, 1]), R(-1), "eq", "soft", 4.),
    "eqh": (R([1, 1, 0]), R(-.5), "eq", "hard", 1.),
    "eqh2": (R([0, 1, -2]), R(.3), "eq", "hard", 1.),
    "box": (np.vstack([np.eye(3), -np.eye(3)]), np.full(6, 1.2), "ineq", "hard", 1.),
    "tall": (R([1, 0, 0], [2, 0, 0], [-1, 0, 0], [.5, 0, 0], [0, 0, 1.5]), R(.1, .2, -.3, 0, .4), "eq", "soft", .7),
    "sineq": (R([-1, 0, -1], [0, 0, 1]), R(.2, -2.), "ineq", "soft", 2.),
}
ALPHA = [["add", c] for c in CONS] + ["cfg_soft", "cfg_hard", "cfg_weight", "clear", "rewrite", "sparsity", "newvar", "reg", "touch", "reset", "fail"]


def cases(tier):
    for s in sequences(ALPHA, 4 if tier == "quick" else 5, 1):
        if s[-1] != "touch" and s[0] not in ("clear", "reset", "touch") and not any(a == b and isinstance(a, str) for a, b in zip(s, s[1:])):
            yield {"ops": s}
    for s in sequences([["add", c] for c in ("track", "eqh", "eqh2", "gap", "box")] + ["rotate", "cfg_hard", "rewrite"], 5 if tier == "quick" else 6, 3):
        if "rotate" in s[2:] and isinstance(s[0], list):
            yield {"ops": s}
    for s in pumped(ALPHA, 6):
        yield {"ops": s}
    for s in pumped(ALPHA, 5, 3) if tier != "quick" else []:
        yield {"ops": s}
    for k in (3, 4, 5):
        for sub in itertools.combinations(CONS, k):
            yield {"perm": list(sub)}


class Model:
    def __init__(self):
        self.cons, self.n, self.rewrite, self.sparse, self.reg, self.w = [], 3, True, True, 1e-6, 1.


class Impl:
    def __init__(self):
        self.p = placo.Problem()
        self.p.regularization = 1e-6
        self.x = self.p.add_variable(1)
        self.y = self.p.add_variable(2)
        self.extra = []
        self.h = []


def rows(m, A):
    return np.hstack([A, np.zeros((len(A), m.n - A.shape[1]))])


def apply(op, m, im):
    """returns False when the operation is not enabled"""
    if isinstance(op, list):
        A, b, kind, prio, w = CONS[op[1]]
        e = (im.x.expr() / im.y.expr()).left_multiply(A) + b
        c = im.p.add_constraint((e == 0) if kind == "eq" else (e >= 0))
        c.configure(prio, w)
        im.h.append(c)
        m.cons.append([kind, prio, w, A, b])
    elif op in ("cfg_soft", "cfg_hard"):
        if not m.cons:
            return False
        m.cons[-1][1] = op[4:]
        im.h[-1].configure(op[4:], m.cons[-1][2])
    elif op == "cfg_weight":
        if not m.cons:
            return False
        m.cons[0][2] *= 3.
        im.h[0].configure(m.cons[0][1], m.cons[0][2])
    elif op == "rotate":
        # the same constraints, entered again in another order
        if len(m.cons) < 2:
            return False
        im.p.clear_constraints()
        m.cons = m.cons[1:] + m.cons[:1]
        im.h = []
        for kind, prio, w, A, b in m.cons:
            e = (im.x.expr() / im.y.expr()).left_multiply(A) + b
            im.h.append(im.p.add_constraint((e == 0) if kind == "eq" else (e >= 0)))
            im.h[-1].configure(prio, w)
    elif op == "clear":
        im.p.clear_constraints()
        m.cons, im.h = [], []
    elif op in ("reset", "fail"):
        if op == "fail":
            # a solve that fails leaves nothing behind once the constraints are cleared
            im.p.add_constraint(im.x.expr() >= 10.)
            im.p.add_constraint(im.x.expr() <= -10.)
            im.p.add_constraint(im.y.expr() == 1.).configure("soft", 1.)
            try:
                im.p.solve()
                return False
            except Exception:
                pass
        order = ["constraints", "variables"] if len(m.cons) % 2 else ["variables", "constraints"]
        for what in order if op == "reset" else order[:1] if "constraints" in order[0] else order[1:]:
            getattr(im.p, "clear_" + what)()
        m.cons, im.h = [], []
        if op == "reset":
            im.x = im.p.add_variable(1)
            im.y = im.p.add_variable(2)
            im.extra, m.n = [], 3
    elif op == "rewrite":
        m.rewrite = not m.rewrite
        im.p.rewrite_equalities = m.rewrite
    elif op == "sparsity":
        m.sparse = not m.sparse
        im.p.use_sparsity = m.sparse
    elif op == "reg":
        m.reg = 1e-2 if m.reg < 1e-3 else 1e-6
        im.p.regularization = m.reg
    elif op == "newvar":
        v = im.p.add_variable(1)
        im.extra.append(v)
        c = im.p.add_constraint(v.expr() + im.x.expr() == 2.)
        c.configure("soft", 1.)
        im.h.append(c)
        A = np.zeros((1, m.n + 1))
        A[0, m.n] = A[0, 0] = 1
        m.n += 1
        m.cons.append(["eq", "soft", 1., A, R(-2.)])
    elif op == "touch":
        # reading is harmless
        im.p.x, im.p.slacks, im.p.n_inequalities, im.x.value, im.y.value, [h.is_active for h in im.h], [h.expression.A for h in im.h]
    return True


def fresh(m):
    p = placo.Problem()
    p.regularization, p.use_sparsity, p.rewrite_equalities = m.reg, False, True
    x = p.add_variable(m.n)
    for kind, prio, w, A, b in m.cons:
        e = x.expr().left_multiply(rows(m, A)) + b
        p.add_constraint((e == 0) if kind == "eq" else (e >= 0)).configure(prio, w)
    p.solve()
    return np.asarray(x.value).reshape(-1)


def solve_and_check(ctx, m, im, path):
    cons = [(k, p, w, rows(m, A), b) for k, p, w, A, b in m.cons]
    E = qpref.hard(cons, m.n)[0]
    if len(E) and np.linalg.matrix_rank(E) < len(E):
        return False  # redundant or contradictory equalities: covered by P02
    feas, margin = qpref.feasible(cons, m.n)
    if not feas or (margin < 1e-6 and len(qpref.hard(cons, m.n)[2])):
        return False
    try:
        im.p.solve()
    except Exception as e:
        raise Bad("feasible problem refused after %s: %s" % (path, e))
    ctx.step()
    got = np.concatenate([np.asarray(v.value).reshape(-1) for v in [im.x, im.y] + im.extra])
    why = qpref.kkt(cons, m.n, got, m.reg)
    ctx.ok(why is None, "after %s: solution %s" % (path, got), why)
    ctx.close(got, fresh(m), "solution after %s vs. the same problem built afresh" % path, 2e-5)
    ctx.close(np.asarray(im.p.x).reshape(-1)[:m.n], got, "x vs variable values", 1e-12)
    for (k, p, w, A, b), h in zip(cons, im.h):
        r = A @ got + b
        if k == "eq":
            ctx.ok(h.is_active, "equality not reported active after %s" % path)
        elif np.all(r > 1e-3):
            ctx.ok(not h.is_active, "stale activity flag after %s" % path, r)
        elif p == "soft" and np.any(r < -1e-3):
            ctx.ok(h.is_active, "violated soft inequality not flagged active after %s" % path, r)
        ctx.close(np.asarray(h.expression.A), A[:, :h.expression.cols()], "constraint modified by solving", 0.)
        ctx.close(h.expression.b, b, "constraint modified by solving", 0.)
    return True


def key(m):
    return ([(k, p, w, A.tolist()) for k, p, w, A, b in m.cons], m.n, m.rewrite, m.sparse, m.reg)


def run(case, ctx):
    if "perm" in case:
        ref = None
        for order in itertools.permutations(case["perm"]):
            m, im = Model(), Impl()
            for c in order:
                apply(["add", c], m, im)
                ctx.step()
            ctx.state(order)
            if not solve_and_check(ctx, m, im, list(order)):
                return
            x = np.asarray(im.p.x).reshape(-1)[:3]
            ref = x if ref is None else ref
            ctx.close(x, ref, "solution depends on the insertion order %s" % (order,), 2e-5)
            ctx.trace()
        return
    for every in (True, False):
        m, im = Model(), Impl()
        for i, op in enumerate(case["ops"]):
            if not apply(op, m, im):
                return
            ctx.step()
            ctx.state(key(m), every)
            if i == len(case["ops"]) - 1:
                solve_and_check(ctx, m, im, case["ops"])
            elif every:
                # checked by the shorter sequence; here only its after-effects matter
                try:
                    im.p.solve()
                except Exception:
                    pass
                ctx.step()
        ctx.trace()
