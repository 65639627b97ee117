"""P32: the step by step walk keeps its supports, takes the asked steps, and moves the robot's feet and trunk along them."""
import numpy as np
import placo
import h_steps as S
import robots as R
import taskref as TR
import walkref as W
from mc import pumped, sequences

PRM = [
    {"walk_foot_height": .03, "walk_com_height": .3, "walk_trunk_pitch": .1, "feet_spacing": .14, "walk_foot_rise_ratio": .06},
    {"walk_foot_height": .02, "walk_com_height": .3, "walk_trunk_pitch": -.05, "feet_spacing": .16, "walk_foot_rise_ratio": 0., "walk_dtheta_spacing": .02, "walk_max_dtheta": .5},
]
STEPS = {"walk": (.04, 0., 0.), "side": (-.01, .03, -.1), "turn": (.01, -.01, .3), "far": (.5, .2, .4)}
OPS = ["resetL", "resetR", *STEPS, "mid", "end", "early", "move", "params", "robot"]
TOL = 1e-4
HEAD = ("head_yaw", "head_pitch", "left_elbow", "right_elbow")
PHASE = {"mid": .5, "end": 1., "early": .15}
BOUNDS = {
    "quick": "2 parameter sets x all sequences of <= 3 operations out of 12 (resets on either foot, 4 steps including impossible ones, 3 phases of the step, relocation of the support, parameter changes, external moves of the robot), ended by a sweep of the current step in 6 phases",
    "thorough": "all sequences of <= 4 operations (the longest on one parameter set)",
}


def cases(tier):
    for s in sequences(OPS, 4 if tier == "thorough" else 3, 0):
        for p in range(len(PRM)) if len(s) < 4 else (0,):
            yield {"p": p, "ops": s}
    for s in pumped(OPS, 6):
        yield {"p": 0, "ops": s}
    for s in pumped(OPS, 4, 3) if tier == "thorough" else []:
        yield {"p": 1, "ops": s}


class Sim:
    def __init__(self, prm):
        self.prm = prm
        self.r = R.shared("sigmaban")
        self.w = placo.DummyWalk(self.r, prm)
        self.n = 0

    def feet(self):
        return np.array(self.w.T_world_left), np.array(self.w.T_world_right), np.array(self.w.T_world_next)


def run(case, ctx):
    prm = W.params(**PRM[case["p"]])
    sim = Sim(prm)
    w = sim.w
    m = {"left": True}

    def reset(left, label):
        m["L"], m["R"] = W.feet(0, 0, 0, prm.feet_spacing)
        m["left"], m["rise"], m["h"] = left, prm.walk_foot_rise_ratio, prm.walk_foot_height
        plan((0., 0., 0.), label)

    def plan(step, label):
        sup, side = (m["L"], W.L) if m["left"] else (m["R"], W.R)
        nx = np.array(w.T_world_next)
        ctx.close(nx[2], [0, 0, 1, 0], label + ": next footstep not on the floor", 1e-9)
        S.judge_clipped(ctx, prm, "conic", side, list(step), W.step_of(prm, side, sup, nx), label + ": next footstep")
        m["N"], m["step"] = nx, step

    def stands(label):
        ctx.ok(w.support_left == m["left"], label + ": support side", w.support_left)
        for a, k in zip(sim.feet(), "LRN"):
            ctx.close(a, m[k], label + ": footstep " + k, 1e-8)
        ctx.close([w.dx, w.dy, w.dtheta], m["step"], label + ": requested step", 1e-12)

    def moved(t, label):
        for _ in range(6):
            w.update(t)
        sim.r.update_kinematics()
        ctx.step(6)
        k = TR.Kin("sigmaban", sim.r.state.q)
        A, B = m["L"], m["R"]
        F = B if m["left"] else A
        d = W.wrap(W.yaw(m["N"]) - W.yaw(F))
        h = m["h"]
        z = W.through([(0., 0., 0.)] + [(.5 + x * m["rise"] / 2, h, 0.) for x in ((-1, 1) if m["rise"] > 0 else (0,))] + [(1., 0., 0.)], t)[0]
        F = W.T2(*(F[:2, 3] + t * (m["N"][:2, 3] - F[:2, 3])), W.yaw(F) + t * d, z)
        A, B = (A, F) if m["left"] else (F, B)
        M = W.T2(*((A + B)[:2, 3] / 2), W.yaw(A) + W.wrap(W.yaw(B) - W.yaw(A)) / 2)
        T = M @ R.T(None, (w_offset, 0, prm.walk_com_height)) @ R.T(R.rpy(0, prm.walk_trunk_pitch, 0))
        for f, want in (("left_foot", A), ("right_foot", B), ("trunk", T)):
            ctx.close(k.T(f).homogeneous, want, label + ": %s of the robot" % f, TOL)
        ctx.close(w.lift_spline.pos(t), z, label + ": lift of the foot", 1e-9)

    w_offset = .05
    reset(False, "a new walk")
    stands("a new walk")
    for i, op in enumerate(case["ops"]):
        label = "after %s" % case["ops"][:i + 1]
        if op in ("resetL", "resetR"):
            w.reset(op == "resetL")
            reset(op == "resetL", label)
            for j in HEAD:
                ctx.close(sim.r.get_joint(j), 0., label + ": %s is back in its initial posture" % j, 2e-2)
        elif op in STEPS:
            m["R" if m["left"] else "L"] = m["N"]
            m["left"] = not m["left"]
            w.next_step(*STEPS[op])
            plan(STEPS[op], label)
        elif op in PHASE:
            moved(PHASE[op], label)
        elif op == "move":
            to = W.T2(.3 + .1 * i, -.4, 1.3 - 2. * i)
            cur = m["L"] if m["left"] else m["R"]
            w.update_T_world_support(to @ R.T(R.rpy(.1, 0, 0), (0, 0, .05)) if i % 2 else to)
            D = to @ np.linalg.inv(cur)
            if i % 2:
                # tilted supports are laid flat on the floor: only their position and heading count
                X = to @ R.T(R.rpy(.1, 0, 0), (0, 0, .05))
                D = W.T2(X[0, 3], X[1, 3], W.yaw(X)) @ np.linalg.inv(cur)
            for k in "LRN":
                m[k] = D @ m[k]
            f = "left_foot" if m["left"] else "right_foot"
            ctx.close(np.array(sim.r.get_T_world_frame(f)), m["L" if m["left"] else "R"], label + ": support foot of the robot", 1e-8)
        elif op == "params":
            # the body height is read at each update, the shape of the lift when the walk is reset
            m["n"] = m.get("n", 0) + 1
            prm.walk_com_height += .06 if m["n"] % 7 == 0 else -.01
            prm.walk_foot_height += -.03 if m["n"] % 7 == 0 else .005
        elif op == "robot":
            R.set_config(sim.r, R.BASES[1], np.zeros(20))
            for j in HEAD:
                sim.r.set_joint(j, -.5 + .2 * (i % 4))
        stands(label)
        ctx.state(case["p"], case["ops"][:i + 1])
        ctx.step()
    for t in (0., .25, .5, .8, .97, 1.):
        moved(t, "after %s, phase %g" % (case["ops"], t))
        stands("after %s, phase %g" % (case["ops"], t))
    ctx.trace()
