"""Small robots the exploration runs on (synthetic URDF / MJCF, primitive geometries only)."""
import itertools, os, tempfile
import numpy as np
import pinocchio as pin
import placo

REPO = os.environ.get("PLACO_REPO", "/repo")


def _link(name, mass, com, I, r, off=(0, 0, 0)):
    g = '<geometry><sphere radius="%g"/></geometry><origin xyz="%g %g %g" rpy="0 0 0"/>' % ((r,) + tuple(off))
    return ('<link name="%s"><inertial><origin xyz="%g %g %g" rpy="0.1 -0.2 0.3"/><mass value="%g"/>'
            '<inertia ixx="%g" ixy="0.002" ixz="-0.001" iyy="%g" iyz="0.0015" izz="%g"/></inertial>'
            '%s</link>') % ((name,) + tuple(com) + (mass,) + tuple(I) + (
                '<visual>%s</visual><collision>%s</collision>' % (g, g) if r else '',))


def _joint(name, typ, parent, child, xyz, rpy, axis=(0, 0, 1), lim=(-2.5, 2.2), vel=3., eff=40.):
    l = '' if typ == 'fixed' else '<axis xyz="%g %g %g"/><limit lower="%g" upper="%g" velocity="%g" effort="%g"/>' % (tuple(axis) + tuple(lim) + (vel, eff))
    return ('<joint name="%s" type="%s"><parent link="%s"/><child link="%s"/><origin xyz="%g %g %g" rpy="%g %g %g"/>%s</joint>'
            % ((name, typ, parent, child) + tuple(xyz) + tuple(rpy) + (l,)))


TREE = ('<?xml version="1.0"?><robot name="tree">'
        + _link("base", 3., (.02, -.01, .03), (.05, .06, .04), .08)
        + _link("l1", 1., (.05, .02, .1), (.012, .013, .008), .05, (0, 0, .1))
        + _link("l2", .8, (.1, 0, -.02), (.006, .011, .012), .05, (.12, 0, 0))
        + _link("l3", .5, (0, 0, 0), (.004, .003, .005), .04, (.05, .03, 0))
        + _link("l4", .4, (0, .03, .04), (.003, .004, .002), .04, (0, .05, .05))
        + _link("m1", .9, (0, .04, -.1), (.011, .012, .006), .06, (0, 0, -.12))
        + _link("m2", .6, (.03, 0, -.08), (.007, .006, .004), .05, (0, .02, -.1))
        + _link("tool", .05, (0, 0, .01), (.004, .004, .004), 0) + _link("tip", .06, (0, .01, 0), (.004, .004, .004), 0)
        + _joint("j1", "revolute", "base", "l1", (.05, 0, .12), (.1, 0, .2), (0, 0, 1))
        + _joint("j2", "revolute", "l1", "l2", (0, .03, .2), (0, .3, 0), (0, 1, 0), (-1.8, 1.9), 2.)
        + _joint("j3", "prismatic", "l2", "l3", (.2, 0, 0), (0, 0, -.4), (1, 0, 0), (-.15, .3), 1.)
        + _joint("j4", "revolute", "l3", "l4", (.1, .02, 0), (.5, 0, 0), (1, 0, 0), (-3., 3.), 5.)
        + _joint("k1", "revolute", "base", "m1", (0, .15, -.05), (0, 0, 0), (0, 1, 0), (-2., 2.), 4.)
        + _joint("k2", "revolute", "m1", "m2", (0, 0, -.25), (0, .2, .1), (.7071067811865476, .7071067811865476, 0), (-1.5, 2.6), 3.)
        + _joint("tool_fix", "fixed", "l4", "tool", (.02, .1, .08), (.3, -.6, .9))
        + _joint("tip_fix", "fixed", "m2", "tip", (0, .03, -.2), (-.5, .2, .4))
        + '</robot>')
TREE_JOINTS = ["j1", "j2", "j3", "j4", "k1", "k2"]

# planar-ish small chain, to have very cheap solvers: base + 2 revolute joints, point foot
DUO = ('<?xml version="1.0"?><robot name="duo">'
       + _link("base", 2., (.01, 0, .02), (.03, .03, .03), .05)
       + _link("a", .7, (.1, 0, 0), (.005, .006, .006), .03, (.1, 0, 0)) + _link("b", .5, (.08, .01, 0), (.004, .005, .004), .03, (.1, 0, 0))
       + _link("end", .02, (0, 0, 0), (.003, .003, .003), 0)
       + _joint("q1", "revolute", "base", "a", (.05, 0, 0), (0, 0, 0), (0, 0, 1), (-2., 2.), 3., 20.)
       + _joint("q2", "revolute", "a", "b", (.2, 0, 0), (.3, 0, 0), (0, 1, 0), (-2., 2.), 3., 20.)
       + _joint("end_fix", "fixed", "b", "end", (.2, 0, 0), (.2, .1, 0)) + '</robot>')

# serial arm, 6 revolute joints (full rank 6D Jacobian)
ARM = ('<?xml version="1.0"?><robot name="arm">' + _link("base", 2., (.01, 0, .02), (.03, .03, .03), .05)
       + "".join(_link("s%d" % i, .5, (.05, .01 * i, .02), (.004, .005, .004), .03) for i in range(1, 7)) + _link("hand", .1, (0, 0, 0), (.003, .003, .003), 0)
       + "".join(_joint("a%d" % i, "revolute", "base" if i == 1 else "s%d" % (i - 1), "s%d" % i, (.12, .03 * (i % 3), .05), (.2 * (i % 2), .1 * i, 0),
                        [(0, 0, 1), (0, 1, 0), (1, 0, 0)][i % 3], (-2.8, 2.8), 3., 30.) for i in range(1, 7))
       + _joint("hand_fix", "fixed", "s6", "hand", (.1, .02, .03), (.3, .1, -.2)) + '</robot>')

def _leg(n, y):
    ps = [(.07, .04), (.07, -.04), (-.07, .04), (-.07, -.04)]
    return (_link(n + "_thigh", .6, (.01, .002, -.08), (.006, .006, .003), .04, (0, 0, -.1)) + _link(n + "_shin", .4, (.005, 0, -.07), (.004, .004, .002), .03, (0, 0, -.1))
            + _link(n + "_sole", .2, (.02, 0, -.02), (.002, .003, .003), .02) + _link(n + "_foot", .01, (0, 0, 0), (.002, .002, .002), 0)
            + "".join(_link("%s_ps_%d" % (n, i), .005, (0, 0, 0), (.001, .001, .001), 0) for i in range(4))
            + _joint(n + "_hip", "revolute", "torso", n + "_thigh", (0, y, -.05), (.1, 0, .15), (0, 1, 0), (-1.5, 1.5), 6., 15.)
            + _joint(n + "_knee", "revolute", n + "_thigh", n + "_shin", (0, 0, -.2), (0, .05, 0), (0, 1, 0), (-.2, 2.2), 6., 15.)
            + _joint(n + "_ankle", "revolute", n + "_shin", n + "_sole", (0, 0, -.2), (0, 0, 0), (1, 0, 0), (-1., 1.), 6., 15.)
            + _joint(n + "_foot_fix", "fixed", n + "_sole", n + "_foot", (.02, .01, -.04), (0, .02, .1))
            + "".join(_joint("%s_ps_%d_fix" % (n, i), "fixed", n + "_foot", "%s_ps_%d" % (n, i), (*p, 0), (.02, 0, 0)) for i, p in enumerate(ps)))


# a humanoid with 7 actuated joints, feet and pressure sensor frames
BIPED = ('<?xml version="1.0"?><robot name="biped">' + _link("torso", 3., (.01, 0, .1), (.04, .03, .02), .1, (0, 0, .1)) + _link("trunk", .1, (0, 0, 0), (.003, .003, .003), 0)
         + _link("head", .3, (.01, 0, .05), (.003, .003, .002), .05, (0, 0, .05)) + _joint("head_yaw", "revolute", "torso", "head", (0, 0, .25), (0, 0, 0), (0, 0, 1), (-2., 2.), 5., 5.)
         + _joint("trunk_fix", "fixed", "torso", "trunk", (.02, .01, .05), (.1, -.2, .3)) + _leg("left", .07) + _leg("right", -.07) + '</robot>')

MJCF = """<mujoco model="mj"><compiler angle="radian"/><worldbody>
<body name="base" pos="0.1 -0.2 0.5" quat="0.9659258 0 0.2588190 0"><freejoint/>
 <inertial pos="0.01 0 0.02" mass="2" diaginertia="0.03 0.02 0.025"/><geom type="sphere" size="0.05"/>
 <body name="a" pos="0.1 0 0.05"><joint name="q1" type="hinge" axis="0 0 1" range="-2 2"/>
  <inertial pos="0.1 0 0" mass="0.7" diaginertia="0.005 0.006 0.006"/><geom type="sphere" size="0.03" pos="0.1 0 0"/>
  <body name="b" pos="0.2 0 0"><joint name="q2" type="hinge" axis="0 1 0" range="-2 2"/>
   <inertial pos="0.08 0.01 0" mass="0.5" diaginertia="0.004 0.005 0.004"/><geom type="sphere" size="0.03" pos="0.1 0 0"/></body></body>
</body></worldbody></mujoco>"""

FAST = int(placo.Flags.ignore_collisions) | int(placo.Flags.collision_as_visual)
_cache = {}


def tree():
    return placo.RobotWrapper("", placo.Flags.ignore_collisions, TREE)


def duo():
    return placo.RobotWrapper("", placo.Flags.ignore_collisions, DUO)


def arm():
    return placo.RobotWrapper("", placo.Flags.ignore_collisions, ARM)


def mjcf():
    with tempfile.TemporaryDirectory() as d:
        f = d + "/robot.xml"
        open(f, "w").write(MJCF)
        return placo.RobotWrapper(f, int(placo.Flags.mjcf) | int(placo.Flags.ignore_collisions))


def quadruped():
    return placo.RobotWrapper(REPO + "/python/tests/quadruped/", FAST)


def sigmaban():
    return placo.HumanoidRobot(REPO + "/python/tests/sigmaban/", FAST)


def low_camera():
    """the humanoid with its camera below the axis of its head instead of above"""
    d = REPO + "/python/tests/sigmaban/"
    return placo.HumanoidRobot(d, FAST, open(d + "robot.urdf").read().replace("-0.024933000004023209151 0.0335", "-0.024933000004023209151 -0.0335"))


def sigmaban_rw():
    """the humanoid as a plain robot"""
    return placo.RobotWrapper(REPO + "/python/tests/sigmaban/", FAST)


def biped():
    return placo.HumanoidRobot("", placo.Flags.ignore_collisions, BIPED)


MAKERS = {"biped": biped, "sigmaban_rw": sigmaban_rw, "tree": tree, "duo": duo, "arm": arm, "mjcf": mjcf, "quadruped": quadruped, "sigmaban": sigmaban, "low_camera": low_camera}


def make(name):
    return MAKERS[name]()


def shared(name):
    """one robot per process: for pure evaluations, its state is always fully overwritten before use"""
    if name not in _cache:
        _cache[name] = make(name)
    return _cache[name]


def ref_model(name):
    """independent pinocchio model of the same robot"""
    key = "ref" + name
    if key not in _cache:
        ff = pin.JointModelFreeFlyer()
        if name in ("tree", "duo", "arm", "biped"):
            m = pin.buildModelFromXML({"tree": TREE, "duo": DUO, "arm": ARM, "biped": BIPED}[name], ff)
        elif name == "mjcf":
            with tempfile.TemporaryDirectory() as d:
                f = d + "/robot.xml"
                open(f, "w").write(MJCF)
                m = pin.buildModelFromMJCF(f, ff)
        else:
            m = pin.buildModelFromUrdf(REPO + "/python/tests/%s/robot.urdf" % name.replace("_rw", ""), ff)
        _cache[key] = m
    return _cache[key]


def T(R=None, p=(0, 0, 0)):
    M = np.eye(4)
    if R is not None:
        M[:3, :3] = R
    M[:3, 3] = p
    return M


def rpy(r, p, y):
    return pin.rpy.rpyToMatrix(float(r), float(p), float(y))


BASES = [T(), T(rpy(.3, -.4, .9), (.2, -.5, .7)), T(rpy(2.8, .7, -2.1), (-1., .3, .1)), T(rpy(-.2, 1.3, 3.0), (0, 0, -.4)),
         T(np.diag([-1., -1., 1.]), (.3, .1, 0))]    # the last one: exactly half a turn


def joint_vec(name, k):
    """k-th joint configuration of a small deterministic family, inside the limits of the robot"""
    m = ref_model(name)
    n = m.nq - 7
    if k == 0:
        return np.zeros(n)
    f = np.cos(np.arange(n) * 1.7 + 2.3 * k)
    lo, hi = m.lowerPositionLimit[7:], m.upperPositionLimit[7:]
    lo = np.where((lo == hi) | (lo < -3.), -3., lo)
    hi = np.where((hi <= lo) | (hi > 3.), 3., hi)
    return np.clip(.5 * (lo + hi) + .4 * (hi - lo) * f, -2., 2.) if k != 1 else np.clip(.35 * f, lo, hi)


def vel_vec(nv, k):
    if k == 0:
        return np.zeros(nv)
    return np.round(np.sin(np.arange(nv) * 1.1 + k * .9) * (.4 + .3 * k), 4)


def set_config(robot, base, joints, qd=None, qdd=None):
    robot.set_T_world_fbase(base)
    q = np.array(robot.state.q)
    q[7:] = joints
    robot.state.q = q
    robot.state.qd = np.zeros(len(q) - 1) if qd is None else np.array(qd)
    robot.state.qdd = np.zeros(len(q) - 1) if qdd is None else np.array(qdd)
    robot.update_kinematics()


def configs(name, nj=3, nb=4):
    return [(b, k) for b in range(nb) for k in range(nj)]
