"""P18: a kinematics solver which went through any history behaves as a fresh one holding the same tasks and constraints."""
import gc
import numpy as np
import pinocchio as pin
import placo
import kinref as K
import robots as R
import taskref as TR
from mc import pumped, sequences

BOUNDS = {
    "quick": "all sequences of <= 3 operations over a 20-operation alphabet (owned and external tasks and constraints, removal, clearing, priorities, masks, limits, failed solves), solving after every operation and only at the end; all sequences of 2..4 operations around a scaled task",
    "thorough": "all sequences of <= 4 operations, same alphabet, plus all sequences of <= 6 over the 6 add / remove / clear operations and 2..6 around a scaled task",
}
ALPHA = ["pos", "frame", "ext", "com", "rel", "joints", "retarget", "prio", "weight", "yaw", "poly", "clear", "mask", "fbase", "jl", "vl", "apply", "fail", "gc", "noreg"]
POS = {"t": "position", "f": "tool", "p": [.35, .3, .45]}
FRAME = {"t": "frame", "f": "tip", "r": 1, "p": [.05, .25, -.4]}
EXT = {"t": "position", "f": "tip", "p": [0., .3, -.5], "mask": ["xz", "local"]}
COM = {"t": "com", "p": [.1, .05, .2], "mask": ["xy", "task"]}
REL = {"t": "relative_frame", "f": "base", "g": "tool", "r": 1, "p": [.35, .2, .5]}
JOINTS = {"t": "joints", "j": [["j1", .5], ["k2", -.4]]}
FAR = {"t": "joints", "j": [["j1", 2.], ["k1", -1.5], ["j3", .25]]}
REG = {"t": "regularization", "w": 1e-3}
CFG = {"pos": (POS, "soft", 1.), "frame": (FRAME, "soft", .7), "ext": (EXT, "soft", 2.), "com": (COM, "soft", 3.), "rel": (REL, "soft", .5), "joints": (JOINTS, "soft", 1.), "sc": (FAR, "scaled", 1.)}
YAW = {"t": "yaw", "f": "base", "g": "l1", "max": .6}
POLYC = {"t": "com_polygon", "poly": "big", "margin": .05}


def cases(tier):
    yield {"api": "robot"}
    for s in sequences(ALPHA, 3 if tier == "quick" else 4, 1):
        yield {"ops": s}
    for s in sequences(["pos", "frame", "ext", "joints", "yaw", "clear"], 5 if tier == "quick" else 6, 4):
        yield {"ops": s}
    for s in sequences(["sc", "vl", "apply", "pos", "clear"], 4 if tier == "quick" else 6, 2):
        if "sc" in s:
            yield {"ops": s}
    for s in pumped(ALPHA, 5):
        yield {"ops": s}
    for s in pumped(ALPHA, 4, 3) if tier != "quick" else []:
        yield {"ops": s}


class Sim:
    def __init__(self):
        self.base = {"robot": "tree", "b": 1, "j": 1, "dt": .1}
        self.st = K.Setup(dict(self.base, tasks=[]), R.shared("tree"))
        self.r, self.s = self.st.r, self.st.solver
        self.r.state.qd = np.zeros(12)
        self.r.state.qdd = np.zeros(12)
        self.live = {}   # slot -> (handle, spec, prio, weight)
        self.cons = {}   # slot -> (handle, spec, prio, weight)
        self.ext = {}    # external objects, created once
        self.opt = {"mask": [], "fbase": False, "jl": False, "vl": False}
        self.order = []
        self.reg()

    def reg(self):
        self.live["reg"] = (TR.make(self.s, REG), REG, "soft", 1.)

    def configure(self, slot):
        h, s, p, w = self.live[slot]
        if s["t"] in ("frame", "relative_frame"):
            h.configure(slot, p, w, w)
        else:
            h.configure(slot, p, w)

    def task(self, slot):
        s, p, w = CFG[slot]
        if slot in ("ext", "com"):
            if slot not in self.ext:
                self.ext[slot] = placo.PositionTask(R.ref_model("tree").getFrameId(s["f"]), np.array(s["p"])) if slot == "ext" else placo.CoMTask(np.array(s["p"]))
                TR.set_mask(self.ext[slot], s["mask"])
            h = self.ext[slot]
            if slot == "ext":
                h.target_world = np.array(s["p"])
            self.s.add_task(h)
        else:
            h = TR.make(self.s, s)
        self.live[slot] = (h, s, p, w)
        self.configure(slot)
        self.order.append(slot)

    def remove(self, slot):
        h, s, p, w = self.live.pop(slot)
        self.order.remove(slot)
        if slot == "rel":
            a, b = h.position(), h.orientation()
            self.s.remove_task(a)
            self.s.remove_task(b)
        else:
            self.s.remove_task(h)

    def constraint(self, slot):
        if slot in self.cons:
            h, *_ = self.cons.pop(slot)
            self.s.remove_constraint(h)
            return
        if slot == "yaw":
            h, s = K.make_constraint(self.s, YAW), YAW
        else:
            if slot not in self.ext:
                self.ext[slot] = placo.CoMPolygonConstraint([np.array(p) for p in K.POLY["big"]], .05)
            h, s = self.ext[slot], POLYC
            self.s.add_constraint(h)
        h.configure(slot, "hard", 1.)
        self.cons[slot] = (h, s, "hard", 1.)

    def apply(self, op, ctx):
        o = self.opt
        if op in CFG:
            (self.remove if op in self.live else self.task)(op)
        elif op in ("yaw", "poly"):
            self.constraint(op)
        elif op == "retarget":
            for k, (h, s, p, w) in list(self.live.items()):
                if k == "pos":
                    s = dict(s, p=[.3, .2, .5])
                    h.target_world = np.array(s["p"])
                elif k == "frame":
                    s = dict(s, p=[0., .2, -.45], r=3)
                    h.T_world_frame = R.T(TR.ROT[3], s["p"])
                elif k == "reg":
                    v = .5 if s.get("j") else 10.
                    s = dict(s, j=s.get("j", []) + [["j1", v], ["k2", v / 2]])
                    h.set_joint_weight("j1", v)
                    h.set_joint_weight("k2", v / 2)
                elif k == "ext":
                    s = dict(s, p=[.1, .3, -.4])
                    h.target_world = np.array(s["p"])
                elif k == "rel":
                    s = dict(s, p=[.3, .25, .4], r=0)
                    h.T_a_b = R.T(TR.ROT[0], s["p"])
                elif k == "joints":
                    s = dict(s, j=s["j"] + [["k2", .3], ["j4", -.2]])
                    h.set_joint("k2", .3)
                    h.set_joint("j4", -.2)
                self.live[k] = (h, s, p, w)
        elif op == "noreg":
            if "reg" in self.live:
                self.s.remove_task(self.live.pop("reg")[0])
            else:
                self.reg()
        elif op in ("prio", "weight"):
            if self.order:
                k = self.order[-1] if op == "prio" else self.order[0]
                h, s, p, w = self.live[k]
                if op == "prio":
                    p = {"soft": "hard", "hard": "scaled", "scaled": "soft"}[p]
                else:
                    w *= 4
                self.live[k] = (h, s, p, w)
                self.configure(k)
        elif op == "clear":
            self.s.clear()
            self.live, self.cons, self.order = {}, {}, []
            ctx.ok(self.s.tasks_count() == 0, "tasks left after clear()")
            self.reg()
        elif op == "mask":
            if o["mask"]:
                self.s.unmask_dof("j2")
                o["mask"] = []
            else:
                self.s.mask_dof("j2")
                o["mask"] = ["j2"]
        elif op == "fbase":
            o["fbase"] = not o["fbase"]
            self.s.mask_fbase(o["fbase"])
        elif op == "jl":
            o["jl"] = not o["jl"]
            self.s.enable_joint_limits(o["jl"])
        elif op == "vl":
            o["vl"] = not o["vl"]
            self.s.enable_velocity_limits(o["vl"])
        elif op == "apply":
            q, qd = np.array(self.r.state.q), np.array(self.r.state.qd)
            self.sync()
            cons, n, N = self.st.reference()
            try:
                dq = np.array(self.s.solve(True))
            except Exception:
                ctx.ok(np.array_equal(q, self.r.state.q) and np.array_equal(qd, self.r.state.qd), "a failed solve moved the robot")
                return
            m = R.ref_model("tree")
            q2 = pin.integrate(m, q, dq)
            ctx.close(self.r.state.q, q2, "applied configuration", 1e-10)
            v = pin.difference(m, q, q2) / .1
            ctx.close(self.r.state.qd, v, "velocity of the applied step", 1e-7)
            ctx.close(self.r.state.qdd, (v - qd) / .1, "acceleration of the applied step", 1e-6)
            self.r.update_kinematics()
        elif op == "fail":
            a = self.s.add_joints_task()
            a.set_joint("j1", 1.)
            a.configure("a", "hard", 1.)
            b = placo.JointsTask()
            b.set_joint("j1", -1.)
            b.configure("b", "hard", 1.)
            self.s.add_task(b)
            q = np.array(self.r.state.q)
            try:
                self.s.solve(True)
                ctx.ok(False, "contradictory hard tasks accepted")
            except RuntimeError:
                pass
            ctx.close(self.r.state.q, q, "a failed solve moved the robot", 0.)
            self.s.remove_task(b)
            self.s.remove_task(a)
            ctx.ok(b.priority == "hard" and b.get_joint("j1") == -1., "an external task was damaged by its removal")
        elif op == "gc":
            # handles of owned objects may be dropped by the user at any time
            for k in list(self.live):
                h, *rest = self.live[k]
            gc.collect()
            noise = [placo.PositionTask(0, np.zeros(3)) for _ in range(20)]
            del noise

    def sync(self):
        case = dict(self.base)
        case.update(self.opt)
        case["tasks"] = [[s, p, w] for h, s, p, w in self.live.values()]
        case["cons"] = [[s, p, w] for h, s, p, w in self.cons.values()]
        self.st.case = case

    def key(self):
        return (sorted((k, repr(s), p, w) for k, (h, s, p, w) in self.live.items()), sorted(self.cons), repr(self.opt), np.round(self.r.state.q, 9).tolist())


def api(case, ctx):
    sim = Sim()
    s, r = sim.s, sim.r
    rob = s.robot
    for v in (.7, -.2, .1):
        rob.set_joint("j1", v)
        ctx.close([r.get_joint("j1"), s.robot.get_joint("j1")], [v, v], "a joint set through solver.robot", 0.)
        r.set_joint("j1", v / 2)
        r.update_kinematics()
        ctx.close([rob.get_joint("j1")], [v / 2], "the robot of the solver follows the robot", 0.)
        ctx.close(rob.get_T_world_frame("tool"), r.get_T_world_frame("tool"), "frames of solver.robot", 0.)
        ctx.step()
    ctx.trace(); ctx.state(case)


def run(case, ctx):
    if "api" in case:
        return api(case, ctx)
    ops = case["ops"]
    for every in (True, False) if len(ops) > 1 else (True,):
        sim = Sim()
        for i, op in enumerate(ops):
            sim.apply(op, ctx)
            ctx.step()
            if i == len(ops) - 1:
                sim.sync()
                n = sum(len(TR.parts(s)) for h, s, p, w in sim.live.values())
                ctx.ok(sim.s.tasks_count() == n, "number of tasks after %s" % ops, sim.s.tasks_count(), n)
                dq = K.judge(ctx, sim.st, "after %s" % ops)
                if dq is not None:
                    for k, (h, s, p, w) in sim.live.items():
                        for e, part in zip(TR.elementary(h, s), TR.parts(s)):
                            ctx.ok(e.priority == p and e.name.split("_")[0] in (k, "regularization"), "identity of task %s" % k, e.name, e.priority)
                            if k != "reg":
                                A, b = TR.expected(part, sim.st.kin, .1)
                                ctx.close(e.error_norm(), np.linalg.norm(b), "error of %s after %s" % (k, ops), 1e-6)
            elif every:
                try:
                    sim.s.solve(False)
                except RuntimeError:
                    pass
                ctx.step()
            ctx.state(sim.key(), every)
        sim.s.clear()
        for k, h in sim.ext.items():
            ctx.ok(isinstance(h.name, str), "external object damaged")
        if "ext" in sim.ext:
            ctx.ok(sim.ext["ext"].target_world.shape == (3,), "external task damaged")
