"""P31: the walk tasks ask the solver exactly for the given feet, trunk and CoM, whatever was switched, solved or removed before."""
import gc
import itertools
import numpy as np
import pinocchio as pin
import placo
import kinref as K
import robots as R
import taskref as TR
import walkref as W
from mc import pumped, sequences
from walkref import vec
try:
    import placo_cxx_walk as cxx  # C++ functions which are not bound to Python (see lib/shim_walk.cpp)
except ImportError:
    cxx = None

OPS = ["A", "B", "traj", "trunk", "scaled", "offset", "read", "solve", "move", "reinit", "user"] + (["delay", "pid"] if cxx else [])
PID, OM = (.6, .3, .02, .01), 5.7
BOUNDS = {
    "quick": "all sequences of <= 3 operations out of 13 (update to 2 pose sets or from a planned walk, with or without DCM feedback and delay, switch CoM / trunk mode, scaled tasks, trunk offsets, read every error and object, solve, move the robot, remove and create again, user tasks) x 2 creation modes, step of the solver judged after every operation; initial pose: 3 placements x 2 spacings x 2 heights x 2 pitches x 2 modes",
    "thorough": "all sequences of <= 4 operations; initial pose: 4 placements x 3 spacings x 3 heights x 3 pitches x 2 modes",
}
POSES = {
    "A": (R.T(R.rpy(0, 0, .2), (.03, .08, .01)), R.T(R.rpy(0, 0, -.1), (-.02, -.07, 0)), np.array([.01, .02, .4]), R.rpy(.05, .2, .1)),
    "B": (R.T(R.rpy(.1, -.1, -.4), (.3, .2, .05)), R.T(R.rpy(0, .2, .3), (.2, .03, .1)), np.array([.2, .1, .35]), R.rpy(-.1, .1, -.3)),
}
REG = {"t": "regularization", "w": 1e-4}
USER = {"t": "joints", "j": [["head_yaw", .4], ["left_knee", .5]]}
_walk = {}


def walk():
    if not _walk:
        r = R.make("sigmaban")
        p = W.params(single_support_timesteps=5)
        pl = placo.FootstepsPlannerRepetitive(p)
        pl.configure(.04, .02, .2, 3)
        Lf, Rf = W.feet(.1, -.2, .5, p.feet_spacing)
        sup = placo.FootstepsPlanner.make_supports(pl.plan(W.L, Lf, Rf), 0., True, True, True)
        g = placo.WalkPatternGenerator(r, p)
        _walk["keep"] = (r, p, pl, sup, g)
        _walk["t"] = g.plan(sup, W.T2(.1, -.2, .5)[:3, 3] + [0, 0, p.walk_com_height], 0.)
    return _walk["t"]


def cases(tier):
    deep = tier == "thorough"
    for s in sequences(OPS, 4 if deep else 3, 1):
        for m in range(2 if len(s) < 4 else 1):
            yield {"k": "hist", "ops": s, "trunk": bool(m)}
    for s in pumped(OPS, 5):
        yield {"k": "hist", "ops": s, "trunk": True}
    for i in itertools.product(range(4 if deep else 3), range(3 if deep else 2), range(3 if deep else 2), range(3 if deep else 2), (False, True)):
        yield {"k": "reach", "i": list(i)}
    if cxx:
        for f in (0., 1., -1e3, float("inf"), float("nan")):
            yield {"k": "memory", "fill": repr(f)}


def run(case, ctx):
    {"hist": hist, "reach": reach, "memory": memory}[case["k"]](case, ctx)


class St:
    pass


def mat(T):
    return np.array(T)


def spec(f, T):
    return {"t": "frame", "f": f, "r": T[:3, :3].tolist(), "p": T[:3, 3].tolist()}


class Sim:
    def __init__(self, trunk, nm):
        self.nm = nm
        self.r = R.shared(nm)
        R.set_config(self.r, R.BASES[0], R.joint_vec(nm, 1))
        self.s = placo.KinematicsSolver(self.r)
        self.s.dt = .1
        self.reg = TR.make(self.s, REG)
        self.t = placo.WalkTasks()
        self.mode, self.scaled, self.off, self.user = trunk, False, np.zeros(2), None
        self.t.trunk_mode = trunk
        self.delay, self.integral, self.last = 0., np.zeros(2), np.zeros(2)
        if cxx:
            cxx.set_pid(self.t, *PID)
        self.create()

    def kin(self):
        return TR.Kin(self.nm, self.r.state.q)

    def create(self):
        k = self.kin()
        self.t.initialize_tasks(self.s, self.r)
        p = "scaled" if self.scaled else "soft"
        self.live = {f: (spec(f, k.T(f).homogeneous), p) for f in ("left_foot", "right_foot")}
        self.live["ori"] = ({"t": "orientation", "f": "trunk", "r": k.T("trunk").rotation.tolist()}, p)
        self.has = None
        self.body(k.T("trunk").translation if self.mode else k.com())

    def body(self, target):
        """the CoM or trunk task, created when the mode changed"""
        if self.has != self.mode:
            self.bodyprio = "scaled" if self.scaled else "soft"
        self.has = self.mode
        p = np.array(target).tolist()
        self.live["body"] = ({"t": "position", "f": "trunk", "p": p} if self.mode else {"t": "com", "p": p}, self.bodyprio)

    def update(self, L, Rt, com, trunk):
        for f, T in (("left_foot", L), ("right_foot", Rt)):
            self.live[f] = (spec(f, T), self.live[f][1])
        self.live["ori"] = ({"t": "orientation", "f": "trunk", "r": trunk.tolist()}, self.live["ori"][1])
        self.body(com + self.kin().T("trunk").rotation @ np.array([*self.off, 0]))

    def case(self):
        c = [(s, p, 1.) for s, p in self.live.values()] + [(REG, "soft", 1.)]
        return {"tasks": c + ([(USER, "soft", 2.)] if self.user else []), "jl": True}

    def apply(self, op, ctx):
        t = self.t
        if op in POSES:
            t.update_tasks(*POSES[op])
            self.update(*POSES[op])
        elif op == "traj":
            tr = walk()
            at = 3.62
            t.update_tasks_from_trajectory(tr, at)
            self.update(mat(tr.get_T_world_left(at)), mat(tr.get_T_world_right(at)), np.array(tr.get_p_world_CoM(at + self.delay)), mat(tr.get_R_world_trunk(at)))
        elif op == "pid":
            tr = walk()
            at, el = 4.21, .02
            dcm = vec(tr.get_p_world_DCM(at + self.delay, OM)) + [.03, -.02]
            cxx.update_tasks_and_pid(t, tr, at, dcm, OM, el)
            e = np.array([.03, -.02])
            self.integral = (1 - PID[3]) * self.integral + e * el
            off = PID[0] * e + PID[1] * self.integral + PID[2] * (e - self.last) / el
            self.last = e
            self.update(mat(tr.get_T_world_left(at)), mat(tr.get_T_world_right(at)), np.array(tr.get_p_world_CoM(at + self.delay)) + [*off, 0], mat(tr.get_R_world_trunk(at)))
        elif op == "delay":
            self.delay = 0. if self.delay else .13
            cxx.set_com_delay(t, self.delay)
        elif op == "trunk":
            self.mode = not self.mode
            t.trunk_mode = self.mode
        elif op == "scaled":
            self.scaled = not self.scaled
            t.scaled = self.scaled
        elif op == "offset":
            self.off = np.zeros(2) if self.off.any() else np.array([.02, -.01])
            t.com_x, t.com_y = map(float, self.off)
        elif op == "read":
            t.get_tasks_error()
            sv = t.solver
            ctx.ok(sv.tasks_count() == self.s.tasks_count(), "solver of the walk tasks")
            lf, rf = t.left_foot_task, t.right_foot_task
            ctx.close(mat(lf.T_world_frame), self.target("left_foot"), "left foot target", 1e-9)
            ctx.close(mat(rf.T_world_frame), self.target("right_foot"), "right foot target", 1e-9)
            ctx.close(np.array(t.trunk_orientation_task.R_world_frame), np.array(self.live["ori"][0]["r"]), "trunk target", 1e-9)
            b = t.trunk_task if self.has else t.com_task
            ctx.close(np.array(b.target_world), np.array(self.live["body"][0]["p"]), "CoM or trunk target", 1e-9)
            del sv, lf, rf, b
            gc.collect()
        elif op == "solve":
            q = np.array(self.r.state.q)
            try:
                self.s.solve(True)
            except RuntimeError:
                # scaled tasks which are redundant may be refused (judged after the operation); nothing moves then
                ctx.close(np.array(self.r.state.q), q, "a refused step moved the robot", 0.)
            self.r.update_kinematics()
        elif op == "move":
            R.set_config(self.r, R.BASES[1], R.joint_vec(self.nm, 2))
        elif op == "reinit":
            t.remove_tasks()
            ctx.ok(self.s.tasks_count() == 1 + (self.user is not None), "tasks left in the solver once removed", self.s.tasks_count())
            t.remove_tasks()
            self.create()
        elif op == "user":
            if self.user is None:
                self.user = TR.make(self.s, USER)
                self.user.configure("user", "soft", 2.)
            else:
                self.s.remove_task(self.user)
                self.user = None

    def target(self, f):
        return R.T(np.array(self.live[f][0]["r"]), self.live[f][0]["p"])


def hist(case, ctx):
    nm = "sigmaban" if "scaled" in case["ops"] else "biped"   # scaled tasks need enough joints
    sim = Sim(case["trunk"], nm)
    for i in range(-1, len(case["ops"])):
        if i >= 0:
            sim.apply(case["ops"][i], ctx)
        label = "after %s" % case["ops"][:i + 1]
        ctx.ok(sim.s.tasks_count() == 7 + (sim.user is not None), label + ": number of tasks", sim.s.tasks_count())
        # errors read before the step is solved must not matter
        if i >= 0 and case["ops"][i] == "read" and i < len(case["ops"]) - 1:
            continue
        st = St()
        st.case, st.nm, st.r, st.dt, st.solver, st.spheres = sim.case(), nm, sim.r, .1, sim.s, None
        st.reference = lambda st=st: K.Setup.reference(st)
        K.judge(ctx, st, label)
        err = sim.t.get_tasks_error()
        kin = sim.kin()
        want = {}
        for f in ("left_foot", "right_foot"):
            pos, ori = TR.parts(sim.live[f][0])
            want[f + "_position"] = TR.expected(pos, kin, .1)[1]
            want[f + "_orientation"] = TR.expected(ori, kin, .1)[1]
        want["trunk_orientation"] = TR.expected(sim.live["ori"][0], kin, .1)[1]
        want["trunk_position" if sim.has else "com_position"] = TR.expected(sim.live["body"][0], kin, .1)[1]
        ctx.ok(set(err) == {a + "_" + x for a in want for x in "xyz"}, label + ": reported errors", sorted(err))
        for a, b in want.items():
            ctx.close([err[a + "_" + x] for x in "xyz"], b, label + ": error of " + a, 1e-8)
        ctx.state(case["trunk"], case["ops"][:i + 1])
    ctx.trace()


def memory(case, ctx):
    """new walk tasks start from nothing"""
    r = R.make("biped")
    s = placo.KinematicsSolver(r)
    tr = walk()
    at, el, e = .61, .02, np.array([.03, -.02])
    got = vec(cxx.pid_on_used_memory(float(case["fill"]), s, r, tr, at, vec(tr.get_p_world_DCM(at, OM)) + e, OM, el))
    ctx.step()
    ctx.state(case["fill"])
    ctx.close(got[:2], (np.array(tr.get_p_world_CoM(at)))[:2] + .5 * e + .2 * e * el + .1 * e / el, "CoM target of new walk tasks with a DCM feedback", 1e-9)
    ctx.trace()


def reach(case, ctx):
    a, b, c, d, trunk = case["i"]
    r = R.make("sigmaban")
    s = placo.KinematicsSolver(r)
    s.enable_velocity_limits(False)
    t = placo.WalkTasks()
    t.trunk_mode = trunk
    t.initialize_tasks(s, r)
    reg = s.add_regularization_task(1e-6)
    Lf = W.T2(*[(0, 0, 0), (.4, -.3, 1.), (-1., 2., -2.9), (0., 0., 3.1)][a])
    spacing, height, pitch = [.12, .15, .18][b], [.27, .29, .28][c] + (.04 if trunk else 0), [-.1, .2, .1][d]
    t.reach_initial_pose(Lf, spacing, height, pitch)
    r.update_kinematics()
    ctx.step()
    ctx.state(*case["i"])
    label = "initial pose %s" % case["i"]
    k = TR.Kin("sigmaban", r.state.q)
    tol = 5e-4
    mid = Lf @ W.T2(0, -spacing / 2, 0)
    ctx.close(k.T("left_foot").homogeneous, Lf, label + ": left foot", tol)
    ctx.close(k.T("right_foot").homogeneous, Lf @ W.T2(0, -spacing, 0), label + ": right foot", tol)
    ctx.close(k.T("trunk").translation if trunk else k.com(), [mid[0, 3], mid[1, 3], height], label + ": body", tol)
    ctx.close(k.T("trunk").rotation, W.T2(0, 0, W.yaw(Lf))[:3, :3] @ R.rpy(0, pitch, 0), label + ": trunk", tol)
    q = np.array(r.state.q)[7:]
    ctx.ok(np.all(q > k.m.lowerPositionLimit[7:] - 1e-6) and np.all(q < k.m.upperPositionLimit[7:] + 1e-6), label + ": joint limits")
    ctx.trace()
