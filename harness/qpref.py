"""Boring reference for the QP front-end: KKT certificate of a claimed solution, and LP feasibility."""
import numpy as np
from scipy.optimize import linprog, nnls


def objective_parts(cons, n, reg):
    """cons: list of (kind, prio, weight, A, b); value = Ax+b"""
    H, g = reg * np.eye(n), np.zeros(n)
    return H, g


def gradient(cons, x, reg):
    g = reg * x
    for kind, prio, w, A, b in cons:
        if prio != "soft":
            continue
        r = A @ x + b
        if kind == "ineq":
            r = np.minimum(r, 0.)
        g = g + w * (A.T @ r)
    return g


def cost(cons, x, reg):
    c = .5 * reg * x @ x
    for kind, prio, w, A, b in cons:
        if prio == "soft":
            r = A @ x + b
            if kind == "ineq":
                r = np.minimum(r, 0.)
            c += .5 * w * r @ r
    return c


def hard(cons, n):
    E = [(A, b) for k, p, w, A, b in cons if p == "hard" and k == "eq"]
    G = [(A, b) for k, p, w, A, b in cons if p == "hard" and k == "ineq"]
    st = lambda L: (np.vstack([a for a, _ in L]), np.concatenate([b for _, b in L])) if L else (np.zeros((0, n)), np.zeros(0))
    return st(E) + st(G)


def feasible(cons, n):
    """(feasible?, margin): margin = largest t such that every hard inequality can be satisfied by t (t <= 1)"""
    E, e, G, g = hard(cons, n)
    if len(E):
        x0, *_ = np.linalg.lstsq(E, -e, rcond=None)
        if np.max(np.abs(E @ x0 + e)) > 1e-7:
            return False, -1.
    c = np.zeros(n + 1)
    c[-1] = -1
    r = linprog(c, A_ub=np.hstack([-G, np.ones((len(G), 1))]) if len(G) else None, b_ub=g if len(G) else None,
                A_eq=np.hstack([E, np.zeros((len(E), 1))]) if len(E) else None, b_eq=-e if len(E) else None,
                bounds=[(None, None)] * n + [(None, 1.)], method="highs")
    if r.status != 0:
        return False, -1.
    return r.x[-1] >= -1e-9, r.x[-1]


def kkt(cons, n, x, reg, ftol=1e-6, tight=1e-6):
    """None, or why x is not the minimiser"""
    E, e, G, g = hard(cons, n)
    if len(E) and np.max(np.abs(E @ x + e)) > ftol:
        return "hard equality violated by %.3g" % np.max(np.abs(E @ x + e))
    v = G @ x + g
    if len(G) and np.min(v) < -ftol:
        return "hard inequality violated by %.3g" % -np.min(v)
    d = gradient(cons, x, reg)
    act = G[v < tight] if len(G) else G
    cols = [act.T, E.T, -E.T]
    M = np.hstack(cols)
    scale = 1. + sum(w * np.abs(A).max() ** 2 for k, p, w, A, b in cons if p == "soft")
    if M.shape[1] == 0:
        r = np.linalg.norm(d)
    else:
        r = nnls(M, d)[1]
    if r > 1e-5 * scale:
        return "not optimal: the cost still decreases along a feasible direction (KKT residual %.3g)" % r
    return None
