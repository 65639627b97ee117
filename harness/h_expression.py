"""P01 - expression algebra: every operator sequence evaluates like the affine map it denotes."""
import numpy as np
import placo
from mc import Bad, pumped

N = 12  # a(1) v(2) w(3) y(6)
BOUNDS = {"quick": "all operator sequences of length <= 2 over 12 start expressions and the full operator alphabet; chains of 14 operations: all pairs of 19 operations repeated, over 4 start expressions",
          "thorough": "all operator sequences of length <= 3 over 12 start expressions and the full operator alphabet"}
PTS = [np.zeros(N)] + [np.eye(N)[i] for i in range(N)] + [np.array([.3, -1.2, 2.5, .7, -3.1, 1.9, -.4, 2.2, 1.6, -2.7, .9, 3.3])]
MATS = {"M13": np.array([[1., -2., 3.]]), "M22": np.array([[0., 1.], [-1., 2.]]), "M33": np.array([[1., 2., 0.], [0., 0., 1.], [3., -1., 1.]]),
        "M11": np.array([[4.]]), "M31": np.array([[1.], [2.], [-1.]]), "M23": np.array([[1., 0., 2.], [-1., 1., 0.]])}
VECS = {"V1": np.array([1.5]), "V2": np.array([1., -2.]), "V3": np.array([.5, 2., -3.])}
FL = [0., 2., -1.5, .1]


class Env:
    def __init__(self):
        self.p = placo.Problem()
        self.a, self.v, self.w, self.y = self.p.add_variable(1), self.p.add_variable(2), self.p.add_variable(3), self.p.add_variable(6)

    def atom(self, name):
        E = placo.Expression
        I = np.eye(N)
        z = lambda r: np.zeros(r)
        return {
            "a": lambda: (self.a.expr(), (I[0:1], z(1))),
            "v": lambda: (self.v.expr(), (I[1:3], z(2))),
            "w": lambda: (self.w.expr(), (I[3:6], z(3))),
            "v1": lambda: (self.v.expr(1, 1), (I[2:3], z(1))),
            "w1_": lambda: (self.w.expr(1), (I[4:6], z(2))),
            "w02": lambda: (self.w.expr(0, 2), (I[3:5], z(2))),
            "y4_": lambda: (self.y.expr(4), (I[10:12], z(2))),
            "y5": lambda: (self.y.expr(5, 1), (I[11:12], z(1))),
            "c": lambda: (E.from_double(2.5), (np.zeros((1, N)), np.array([2.5]))),
            "c1": lambda: (E.from_vector(np.array([-3.])), (np.zeros((1, N)), np.array([-3.]))),
            "c2": lambda: (E.from_vector(np.array([1., -2.])), (np.zeros((2, N)), np.array([1., -2.]))),
            "c3": lambda: (E.from_vector(np.array([4., 0., -1.])), (np.zeros((3, N)), np.array([4., 0., -1.]))),
        }[name]()


ATOMS = ["a", "v", "w", "v1", "w1_", "w02", "y4_", "y5", "c", "c1", "c2", "c3"]
OPS = (["neg", "sum", "mean"] + [[o, f] for o in ("mulf", "fmul", "addf", "fadd", "subf", "fsub", "pwadd") for f in FL]
       + [["slice", s, n] for s in (0, 1, 2) for n in (-1, 0, 1, 2)]
       + [[o, m] for o in ("lmul", "matmul") for m in MATS]
       + [[o, v] for o in ("addv", "vadd", "subv", "vsub") for v in VECS]
       + [[o, x] for o in ("add", "radd", "sub", "rsub", "stack", "rstack", "mul", "rmul") for x in ATOMS])


def cases(tier):
    for s in ATOMS:
        yield {"start": s, "first": None, "depth": 1}
    # long chains: every pair of operations, over and over
    SHORT = ["neg", ["mulf", 2.], ["fmul", -1.5], ["addf", .1], ["fsub", 2.], ["slice", 1, -1], ["slice", 0, 2], ["lmul", "M22"], ["matmul", "M33"], ["addv", "V2"], ["vsub", "V3"],
             ["add", "v"], ["rsub", "w"], ["sub", "a"], ["add", "c"], ["stack", "y4_"], ["rstack", "w02"], ["stack", "c1"], "mean"]
    for s in ("a", "v", "w", "c2"):
        for o in pumped(SHORT, 7):
            yield {"start": s, "chain": o}
    for s in ATOMS:
        for o in OPS:
            yield {"start": s, "first": o, "depth": 2 if tier == "quick" else 3}


def const(m):
    return not np.any(m[0])


def model(op, m, other=None):
    """(A, b) of the result, None when the operation must be refused, 'skip' when unspecified"""
    A, b = m
    o = op if isinstance(op, str) else op[0]
    r = len(b)
    if o == "neg":
        return -A, -b
    if o == "sum":
        return A.sum(axis=0, keepdims=True), np.array([b.sum()])
    if o == "mean":
        return A.mean(axis=0, keepdims=True), np.array([b.mean()])
    if o in ("mulf", "fmul"):
        return A * op[1], b * op[1]
    if o in ("addf", "fadd", "pwadd"):
        return A, b + op[1]
    if o == "subf":
        return A, b - op[1]
    if o == "fsub":
        return -A, op[1] - b
    if o == "slice":
        s, n = op[1], op[2]
        n = r - s if n < 0 else n
        if s >= r:
            return None if s + n > r or n < 0 else "skip"
        return None if s + n > r else (A[s:s + n], b[s:s + n])
    if o in ("lmul", "matmul"):
        M = MATS[op[1]]
        return None if M.shape[1] != r else (M @ A, M @ b)
    if o in ("addv", "vadd", "subv", "vsub"):
        v = VECS[op[1]]
        if len(v) != r:
            return "skip" if len(v) == 1 or r == 1 else None
        return {"addv": (A, b + v), "vadd": (A, b + v), "subv": (A, b - v), "vsub": (-A, v - b)}[o]
    oA, ob = other
    if o in ("add", "radd", "sub", "rsub"):
        s = {"add": (1, 1), "radd": (1, 1), "sub": (1, -1), "rsub": (-1, 1)}[o]
        if len(ob) == r or (len(ob) == 1 and const(other)) or (r == 1 and const(m)):
            return s[0] * A + s[1] * oA, s[0] * b + s[1] * ob
        # a constant whose coefficients happen to be stored is not necessarily recognised as such
        return None
    if o == "stack":
        return np.vstack([A, oA]), np.concatenate([b, ob])
    if o == "rstack":
        return np.vstack([oA, A]), np.concatenate([ob, b])
    if o in ("mul", "rmul"):
        if r == 1 and const(other):
            return np.outer(ob, A[0]), ob * b[0]
        if len(ob) == 1 and const(m):
            return np.outer(b, oA[0]), b * ob[0]
        return None
    raise KeyError(o)


def apply(op, e, env, other=None):
    o = op if isinstance(op, str) else op[0]
    if o == "neg":
        return -e
    if o == "sum":
        return e.sum()
    if o == "mean":
        return e.mean()
    x = op[1]
    if o == "mulf":
        return e * x
    if o == "fmul":
        return x * e
    if o == "addf":
        return e + x
    if o == "fadd":
        return x + e
    if o == "subf":
        return e - x
    if o == "fsub":
        return x - e
    if o == "pwadd":
        return e.piecewise_add(x)
    if o == "slice":
        return e.slice(x, op[2])
    if o == "lmul":
        return e.left_multiply(MATS[x])
    if o == "matmul":
        return e.__rmul__(MATS[x])
    if o == "addv":
        return e + VECS[x]
    if o == "vadd":
        return e.__radd__(VECS[x])
    if o == "subv":
        return e - VECS[x]
    if o == "vsub":
        return e.__rsub__(VECS[x])
    if o == "add":
        return e + other
    if o == "radd":
        return other + e
    if o == "sub":
        return e - other
    if o == "rsub":
        return other - e
    if o == "stack":
        return e / other
    if o == "rstack":
        return other / e
    if o == "mul":
        return e * other
    if o == "rmul":
        return other * e
    raise KeyError(o)


def same(ctx, e, m, path):
    A, b = m
    ctx.ok(e.rows() == len(b) and len(e) == len(b), "row count after %s" % path, e.rows(), len(b))
    ctx.ok(e.cols() <= N, "column count after %s" % path, e.cols())
    ctx.ok(e.is_scalar() == (len(b) == 1), "is_scalar after %s" % path)
    if np.any(A):
        ctx.ok(not e.is_constant(), "is_constant although it depends on the variables, after %s" % path)
    for x in PTS:
        ctx.close(e.value(x), A @ x + b, "value after %s at x=%s" % (path, x), tol=1e-9)
    Af = np.zeros((len(b), N))
    eA = np.asarray(e.A).reshape(e.rows(), e.cols())
    Af[:, :e.cols()] = eA
    ctx.close(Af, A, "coefficients after %s" % path, tol=1e-9)


def explicit_const(m, e):
    """the model calls it constant but the code stores (zero) coefficients: broadcasting is then unspecified"""
    return const(m) and not e.is_constant()


def go(ctx, env, e, m, path, ops, depth):
    for op in ops:
        other, mo = (None, None)
        if not isinstance(op, str) and op[0] in ("add", "radd", "sub", "rsub", "stack", "rstack", "mul", "rmul"):
            other, mo = env.atom(op[1])
        want = model(op, m, mo)
        p = path + [op]
        if isinstance(want, str):
            continue
        # operations whose acceptance hinges on an expression being recognised as a constant
        if not isinstance(op, str) and op[0] in ("add", "radd", "sub", "rsub", "mul", "rmul") and explicit_const(m, e):
            if op[0] in ("mul", "rmul"):
                certain = len(m[1]) == 1 and const(mo)
            else:
                certain = len(mo[1]) == len(m[1]) or (len(mo[1]) == 1 and const(mo))
            if not certain:
                continue
        ctx.step()
        if want is None:
            ctx.raises(lambda: apply(op, e, env, other), "%s on %d rows must be refused" % (p, len(m[1])))
            continue
        r = apply(op, e, env, other)
        same(ctx, r, want, p)
        ctx.state(np.round(want[0], 9).tolist(), np.round(want[1], 9).tolist())
        if depth > 1 and len(want[1]):
            go(ctx, env, r, want, p, OPS, depth - 1)
        else:
            ctx.trace()
    # operands are values: never modified by an operation
    same(ctx, e, m, path + ["(operand afterwards)"])


def run(case, ctx):
    env = Env()
    e, m = env.atom(case["start"])
    same(ctx, e, m, [case["start"]])
    ctx.state(m[0].tolist(), m[1].tolist())
    if "chain" in case:
        # operations which do not apply are skipped
        path = [case["start"]]
        for op in case["chain"]:
            other, mo = env.atom(op[1]) if op[0] in ("add", "rsub", "sub", "stack", "rstack") and not isinstance(op, str) else (None, None)
            want = model(op, m, mo)
            if want is None or isinstance(want, str) or (mo is not None and explicit_const(m, e)) or not len(want[1]) or len(want[1]) > 40:
                continue
            old = (e, m)
            path.append(op)
            e, m = apply(op, e, env, other), want
            scale = 1. + np.abs(m[0]).max() + np.abs(m[1]).max()
            same(ctx, e * (1. / scale), (m[0] / scale, m[1] / scale), path)
            ctx.step()
        ctx.state(np.round(m[0], 9).tolist(), np.round(m[1], 9).tolist())
        same(ctx, *old, path + ["(operand afterwards)"]) if len(path) > 1 and np.abs(old[1][0]).max() < 1e3 else None
        ctx.trace()
        return
    if case["first"] is None:
        # slices of a variable, in and out of range
        for var, off, size in ((env.a, 0, 1), (env.v, 1, 2), (env.w, 3, 3)):
            for s in range(-1, 5):
                for n in (-1, 0, 1, 2, 3, 4):
                    s0 = 0 if s == -1 else s
                    k = size - s0 if n == -1 else n
                    if s0 + k > size or k < 0 or s0 > size:
                        ctx.raises(lambda: var.expr(s, n), "expr(%d, %d) of a variable of size %d" % (s, n, size))
                    elif k > 0:
                        same(ctx, var.expr(s, n), (np.eye(N)[off + s0:off + s0 + k], np.zeros(k)), ["expr", s, n])
                    ctx.step()
        # a point that is too short cannot be evaluated
        if e.cols() > 0:
            ctx.raises(lambda: e.value(np.zeros(e.cols() - 1)), "value() at a point with too few coordinates")
        return
    go(ctx, env, e, m, [case["start"]], [case["first"]], case["depth"])
