"""P23: a dynamics solver which went through any history behaves as a fresh one holding the same tasks, contacts and options."""
import numpy as np
import pinocchio as pin
import placo
import dynref as D
import robots as R
import taskref as TR
from mc import pumped, sequences

BOUNDS = {
    "quick": "all sequences of <= 3 operations over a 21-operation alphabet (owned and external tasks, contacts, activation, gains, options, limits, integration, failed solves), solving after every operation and only at the end",
    "thorough": "all sequences of <= 4 operations, same alphabet, plus all sequences of <= 6 over the 6 add / remove / clear operations",
}
ALPHA = ["foot", "active", "wrench", "pos", "ext", "torque", "prio", "weight", "kp", "kd", "clear", "fbase", "jl", "vl", "tl", "extra", "safe", "integrate", "fail", "state", "model"]
FOOT = {"t": "frame", "f": "tip", "r": 1, "p": [.05, .25, -.4], "kp": 100.}
POS = {"t": "position", "f": "tool", "p": [.35, .3, .45], "kp": 60.}
EXT = {"t": "position", "f": "m1", "p": [0., .3, -.2], "kp": 40., "mask": ["xz", "local"]}
TRQ = {"t": "torque", "j": [["j2", .5], ["k1", -.5, .7, .2]]}
POST = {"t": "joints", "j": [[j, .1] for j in R.TREE_JOINTS], "kp": 20.}
CFG = {"pos": (POS, "soft", 1.), "ext": (EXT, "soft", 2.), "torque": (TRQ, "soft", 3.), "foot": (FOOT, "hard", 1.)}
WRENCH = {"c": "ext", "f": "tool", "ref": "world", "w": [1, -2, 3, .1, .2, -.3]}
FIXED = {"c": "fixed", "task": "foot", "weight_forces": 1e-3, "weight_moments": 1e-2}


def cases(tier):
    for w in ("robot", "contacts"):
        yield {"api": w}
    for s in sequences(ALPHA, 3 if tier == "quick" else 4, 1):
        yield {"ops": s}
    for s in sequences(["foot", "wrench", "pos", "ext", "active", "clear"], 4 if tier == "quick" else 6, 4):
        yield {"ops": s}
    for s in pumped(ALPHA, 5):
        yield {"ops": s}
    for s in pumped(ALPHA, 4, 3) if tier != "quick" else []:
        yield {"ops": s}


class Sim:
    def __init__(self):
        self.base = {"robot": "tree", "b": 1, "j": 1, "v": 1, "vs": .3}
        self.opt = {"dt": .01}
        self.st = D.Setup(dict(self.base, opts=self.opt), R.shared("tree"))
        self.r, self.s = self.st.r, self.st.solver
        self.r.state.qdd = np.zeros(12)
        self.live, self.contacts, self.order, self.ext = {}, [], [], {}
        self.post()

    def post(self):
        self.live["post"] = [D.make(self.s, POST), POST, "soft", 1.]
        self.live["post"][0].configure("post", "soft", 1.)

    def configure(self, k):
        h, s, p, w = self.live[k]
        h.configure(k, p, w, w) if s["t"] == "frame" else h.configure(k, p, w)

    def drop_contact(self, kind):
        for i, (h, c) in enumerate(self.contacts):
            if c["c"] == kind:
                self.s.remove_contact(h)
                del self.contacts[i]
                return True
        return False

    def apply(self, op, ctx):
        s, o = self.s, self.opt
        if op in CFG:
            if op in self.live:
                if op == "foot":
                    self.drop_contact("fixed")
                h = self.live.pop(op)[0]
                self.order.remove(op)
                s.remove_task(h)
                return
            sp, p, w = CFG[op]
            if op == "ext":
                if op not in self.ext:
                    self.ext[op] = placo.DynamicsPositionTask(R.ref_model("tree").getFrameId(sp["f"]), np.array(sp["p"]))
                    TR.set_mask(self.ext[op], sp["mask"])
                h = self.ext[op]
                h.kp, h.kd = sp["kp"], -1.
                s.add_task(h)
            else:
                h = D.make(s, sp)
            self.live[op] = [h, sp, p, w]
            self.configure(op)
            self.order.append(op)
            if op == "foot":
                c = s.add_fixed_contact(h)
                c.weight_forces, c.weight_moments = FIXED["weight_forces"], FIXED["weight_moments"]
                self.contacts.append((c, dict(FIXED)))
        elif op == "wrench":
            if not self.drop_contact("ext"):
                c = s.add_external_wrench_contact("tool", "world")
                c.w_ext = np.array(WRENCH["w"], float)
                self.contacts.append((c, dict(WRENCH)))
        elif op == "active":
            if self.contacts:
                h, c = self.contacts[0]
                c["active"] = not c.get("active", True)
                h.active = c["active"]
        elif op == "prio":
            if self.order:
                x = self.live[self.order[-1]]
                x[2] = {"soft": "hard", "hard": "soft"}[x[2]]
                self.configure(self.order[-1])
        elif op == "weight":
            if self.order:
                self.live[self.order[0]][3] *= 4
                self.configure(self.order[0])
        elif op in ("kp", "kd"):
            v = {"kp": 90., "kd": 7.}[op] if self.live["post"][1].get(op) != {"kp": 90., "kd": 7.}[op] else {"kp": 35., "kd": 3.}[op]
            (s.set_kp if op == "kp" else s.set_kd)(v)
            for k, x in self.live.items():
                if k != "torque":
                    x[1] = dict(x[1], **{op: v})
        elif op == "clear":
            s.clear()
            self.live, self.contacts, self.order = {}, [], []
            ctx.ok(s.count_contacts() == 0, "contacts left after clear()")
            self.post()
        elif op == "fbase":
            o["fbase"] = not o.get("fbase", False)
            s.mask_fbase(o["fbase"])
        elif op in ("jl", "vl", "tl"):
            o[op] = not o.get(op, False)
            {"jl": s.enable_joint_limits, "vl": s.enable_velocity_limits, "tl": s.enable_torque_limits}[op](o[op])
        elif op == "extra":
            o["extra"] = 2. if o.get("extra", 0.) == 0. else 0.
            s.extra_force = self.st.extra(12)
            o["damping"] = .5 * o["extra"]
            s.damping = o["damping"]
        elif op == "safe":
            o["safe"] = [["j2", 3. if o.get("safe") == [["j2", 2.]] else 2.]]
            s.set_qdd_safe("j2", o["safe"][0][1])
            o["stl"] = [["k1", .3], ["j1", .25]] if o.get("stl") != [["k1", .3], ["j1", .25]] else [["k1", .2], ["j1", 1.5]]
            for nme, x in o["stl"]:
                s.set_torque_limit(nme, x)
        elif op == "model":
            # gravity and rotors of the robot
            if "g" in o:
                del o["g"]
                o["rotor"] = [["j2", 0., 1.], ["k1", 0., 1.]]
            else:
                o["g"], o["rotor"] = [1., -2., -5.], [["j2", .02, 4.], ["k1", .1, 2.]]
            self.r.set_gravity(np.array(o.get("g", [0, 0, -9.81])))
            self.st.o = o
            self.st.set_rotors()
        elif op == "state":
            R.set_config(self.r, R.BASES[2], R.joint_vec("tree", 2), R.vel_vec(12, 2) * .2)
        elif op == "integrate":
            self.sync()
            res = D.judge(ctx, self.st, "integrating", integrate=True)
            self.r.update_kinematics()
        elif op == "fail":
            a = s.add_joints_task()
            a.set_joint("j1", 1., 0., 0.)
            a.configure("a", "hard", 1.)
            b = placo.DynamicsJointsTask()
            b.set_joint("j1", -1., 0., 0.)
            b.configure("b", "hard", 1.)
            s.add_task(b)
            q = np.array(self.r.state.q), np.array(self.r.state.qd)
            ctx.ok(not s.solve(True).success, "contradictory hard tasks reported as solved")
            ctx.ok(np.array_equal(q[0], self.r.state.q) and np.array_equal(q[1], self.r.state.qd), "a failed solve moved the robot")
            s.remove_task(b)
            s.remove_task(a)
            ctx.ok(b.priority == "hard" and b.get_joint("j1") == -1., "an external task was damaged by its removal")

    def sync(self):
        names = list(self.live)
        self.st.case = dict(self.base, tasks=[[x[1], x[2], x[3]] for x in self.live.values()],
                            contacts=[dict(c, task=names.index("foot")) if c["c"] == "fixed" else c for h, c in self.contacts])
        self.st.o, self.st.dt = self.opt, self.opt["dt"]
        self.st.contacts = [h for h, c in self.contacts]
        self.st.tasks = [x[0] for x in self.live.values()]

    def key(self):
        return (sorted((k, repr(x[1:])) for k, x in self.live.items()), repr([c for h, c in self.contacts]), repr(sorted(self.opt.items())), np.round(self.r.state.q, 9).tolist(), np.round(self.r.state.qd, 9).tolist())


def api(case, ctx):
    sim = Sim()
    s, r = sim.s, sim.r
    ctx.trace(); ctx.state(case)
    if case["api"] == "robot":
        rob = s.robot
        for v in (.7, -.2, .1):
            rob.set_joint("j1", v)
            ctx.close([r.get_joint("j1"), s.robot.get_joint("j1")], [v, v], "a joint set through solver.robot", 0.)
            r.set_joint("j1", v / 2)
            r.update_kinematics()
            ctx.close([rob.get_joint("j1")], [v / 2], "the robot of the solver follows the robot", 0.)
            ctx.close(rob.get_T_world_frame("tool"), r.get_T_world_frame("tool"), "frames of solver.robot", 0.)
            ctx.step()
        return
    for k in range(4):
        # removing any of four contacts keeps the others, in order
        sim = Sim()
        hs = [sim.s.add_external_wrench_contact(f, "world") for f in ("tool", "tip", "l2", "m1")]
        for i, h in enumerate(hs):
            h.w_ext = np.ones(6) * (i + 1)
        sim.s.remove_contact(hs[k])
        left = [float(i + 1) for i in range(4) if i != k]
        ctx.ok([float(np.array(sim.s.get_contact(i).w_ext).flatten()[0]) for i in range(3)] == left, "contacts left after removing the one of rank %d" % k)
        ctx.step()
    for ops in ([], ["wrench"], ["wrench", "foot"], ["foot", "wrench", "foot"], ["wrench", "clear"]):
        sim = Sim()
        for op in ops:
            sim.apply(op, ctx)
        n = len(sim.contacts)
        ctx.ok(sim.s.count_contacts() == n, "count_contacts after %s" % ops)
        for i in range(n):
            h, c = sim.contacts[i]
            g = sim.s.get_contact(i)
            ctx.ok(isinstance(g, placo.ExternalWrenchContact if c["c"] == "ext" else placo.Contact6D), "get_contact(%d) after %s" % (i, ops))
            g.active = False
            ctx.ok(not h.active, "get_contact(%d) after %s is another contact" % (i, ops))
            h.active = True
        for i in (-1, n, n + 3):
            ctx.raises(lambda: sim.s.get_contact(i), "get_contact(%d) with %d contacts" % (i, n))
            ctx.step()


def run(case, ctx):
    if "api" in case:
        return api(case, ctx)
    ops = case["ops"]
    for every in (True, False) if len(ops) > 1 else (True,):
        sim = Sim()
        for i, op in enumerate(ops):
            sim.apply(op, ctx)
            ctx.step()
            if i == len(ops) - 1:
                sim.sync()
                ctx.ok(sim.s.count_contacts() == len(sim.contacts), "number of contacts after %s" % ops)
                res = D.judge(ctx, sim.st, "after %s" % ops)
                if res is not None:
                    for k, (h, s, p, w) in sim.live.items():
                        for e, part in zip(D.elementary(s, h), D.parts(s)):
                            ctx.ok(e.priority == p and e.name.split("_")[0] == k, "identity of task %s" % k, e.name, e.priority)
                            A, b, err, derr, tau = D.expected(part, sim.st.kin)
                            if not tau:
                                ctx.close(np.linalg.norm(np.array(e.error)), np.linalg.norm(err), "error of %s after %s" % (k, ops), 1e-6)
                                ctx.close(np.linalg.norm(np.array(e.derror)), np.linalg.norm(derr), "derror of %s after %s" % (k, ops), 1e-6)
            elif every:
                sim.s.solve()
                ctx.step()
            ctx.state(sim.key(), every)
        sim.s.clear()
        if "ext" in sim.ext:
            ctx.ok(sim.ext["ext"].target_world.shape == (3,) and isinstance(sim.ext["ext"].name, str), "external task damaged")
