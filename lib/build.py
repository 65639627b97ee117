#!/usr/bin/env python3
"""Builds, from /repo's current working tree, what the checks execute: libplaco + the placo Python module.

Fast path: a copy of the project's own build folder (/repo/_build, git-ignored there) is brought up to date by
ninja, so exactly the translation units that differ from /repo's tree are recompiled.  Fallback: full build with the
project's command lines.  Nothing is written under /repo; output goes to /verif/.build (git-ignored).
"""
import concurrent.futures, fcntl, glob, hashlib, os, shutil, subprocess, sys, time

REPO = os.environ.get("PLACO_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, ".build")
VENV = "/opt/placo-venv"
P = VENV + "/lib/python3.12/site-packages/cmeel.prefix"
JOBS = max(1, min(8, os.cpu_count() or 1))

DEF = ("-DBOOST_MPL_LIMIT_LIST_SIZE=30 -DBOOST_MPL_LIMIT_VECTOR_SIZE=30 -DCOAL_BACKWARD_COMPATIBILITY_WITH_HPP_FCL "
       "-DCOAL_HAS_OCTOMAP -DCOAL_HAVE_OCTOMAP -DOCTOMAP_MAJOR_VERSION=1 -DOCTOMAP_MINOR_VERSION=10 "
       "-DOCTOMAP_PATCH_VERSION=0 -DPINOCCHIO_ENABLE_TEMPLATE_INSTANTIATION -DPINOCCHIO_WITH_HPP_FCL "
       "-DPINOCCHIO_WITH_URDFDOM").split()
SYS = []
for d in ("/include/eigen3", "/include", "/include/urdfdom", "/include/urdfdom_headers"):
    SYS += ["-isystem", P + d]
LIBS = [P + "/lib/" + n for n in (
    "libeiquadprog.so libjsoncpp.so.1.9.4 libpinocchio_parsers.so.3.8.0 liburdfdom_sensor.so.4.0 "
    "liburdfdom_model.so.4.0 liburdfdom_world.so.4.0 libpinocchio_collision.so.3.8.0 "
    "libpinocchio_visualizers.so.3.8.0 libpinocchio_default.so.3.8.0 libcoal.so libboost_filesystem.so "
    "libboost_serialization.so liboctomap.so.1.10.0 liboctomath.so.1.10.0").split()]


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in ("PYTHONPATH", "LD_LIBRARY_PATH", "CMAKE_PREFIX_PATH", "CPATH", "CPLUS_INCLUDE_PATH"):
        e.pop(k, None)
    e["PATH"] = VENV + "/bin:/usr/local/bin:/usr/bin:/bin"
    cc = "/opt/placo-ccache"
    if not (os.path.isdir(cc) and os.access(cc, os.W_OK)):
        cc = os.path.join(OUT, "ccache")
    e["CCACHE_DIR"] = cc
    e["CCACHE_MAXSIZE"] = "3G"
    return e


def run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("$ " + " ".join(cmd) + "\n" + r.stdout[-6000:])


def launcher():
    return ["/usr/bin/ccache"] if os.path.exists("/usr/bin/ccache") else []


def parallel(cmds):
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(run, c, d) for c, d in cmds]:
            f.result()


def _parse_ninja(path):
    """object targets of the python module and their link line, from the project's own build file"""
    objs = None
    for l in open(path):
        if l.startswith("build lib/python3.12/site-packages/placo.so:"):
            objs = [t for t in l.split("|")[0].split(":", 1)[1].split() if t.endswith(".o")]
    return objs


def build_module_incremental():
    """Copy of the project's build folder + ninja: recompiles exactly what differs from /repo's tree."""
    src = REPO + "/_build"
    bn = src + "/build.ninja"
    if not (os.path.exists(bn) and os.path.exists(src + "/.ninja_log") and os.path.exists(src + "/.ninja_deps")):
        return None
    if os.path.getmtime(REPO + "/CMakeLists.txt") > os.path.getmtime(bn):
        return None
    B = os.path.join(OUT, "nb")
    stamp = os.path.join(B, ".ninja_log")
    if not os.path.exists(stamp) or os.path.getmtime(stamp) < os.path.getmtime(src + "/.ninja_log"):
        shutil.rmtree(B, ignore_errors=True)
        os.makedirs(OUT, exist_ok=True)
        subprocess.run(["cp", "-a", src, B], check=True)
    mods = _parse_ninja(B + "/build.ninja")
    if not mods:
        return None
    ninja = shutil.which("ninja", path=env()["PATH"])
    if not ninja:
        return None
    try:
        run([ninja, "-C", B, "-j", str(JOBS), "liblibplaco.so"] + mods, B)
    except BuildError as e:
        # no fallback for a genuine compile error
        if "FAILED" in str(e):
            raise
        return None
    sp = os.path.join(OUT, "site")
    os.makedirs(sp, exist_ok=True)
    dst = os.path.join(sp, "placo.so")
    newest = max(os.path.getmtime(os.path.join(B, m)) for m in mods + ["liblibplaco.so"])
    if not os.path.exists(dst) or os.path.getmtime(dst) <= newest:
        _link(B, mods, dst)
    return sp


def _link(B, mods, dst):
    run(["/usr/bin/g++", "-shared", "-o", dst + ".tmp"] + mods +
        ["-Wl,-rpath,%s/lib:%s:" % (P, B), P + "/lib/libboost_python312.so", "./liblibplaco.so", P + "/lib/libeigenpy.so"] +
        LIBS + [P + "/lib/libboost_python312.so"], B)
    os.replace(dst + ".tmp", dst)


def build_module_full():
    B = os.path.join(OUT, "module")
    sp = os.path.join(OUT, "site")
    os.makedirs(sp, exist_ok=True)
    cmds, libobj, modobj = [], [], []
    srcs = sorted(glob.glob(REPO + "/src/placo/**/*.cpp", recursive=True))
    binds = sorted(glob.glob(REPO + "/bindings/*.cpp"))
    # slow translation units first
    slow = ("expose-", "robot_wrapper", "kinetic_energy", "humanoid_robot", "dynamics_solver", "kinematics_solver")
    for s in sorted(binds + srcs, key=lambda s: not any(k in s for k in slow)):
        isb = "/bindings/" in s
        rel = os.path.relpath(s, REPO)
        o = "CMakeFiles/%s.dir/%s.o" % ("placo" if isb else "libplaco", rel)
        os.makedirs(os.path.dirname(os.path.join(B, o)), exist_ok=True)
        (modobj if isb else libobj).append(o)
        inc = ["-I%s/src" % REPO, "-I%s/_build" % REPO]
        if isb:
            d = ["-DBOOST_DISABLE_PRAGMA_MESSAGE"] + DEF + ["-Dplaco_EXPORTS"]
            inc += ["-isystem", "/usr/include/python3.12"] + SYS + [
                "-isystem", VENV + "/lib/python3.12/site-packages/numpy/_core/include"]
        else:
            d = DEF + ["-Dlibplaco_EXPORTS"]
            inc += SYS
        cmds.append((launcher() + ["/usr/bin/g++"] + d + inc + ["-fPIC", "-O3", "-DNDEBUG", "-std=c++17", "-fPIC", "-MD",
                     "-MT", o, "-MF", o + ".d", "-o", o, "-c", s], B))
    parallel(cmds)
    run(["/usr/bin/g++", "-shared", "-Wl,-soname,liblibplaco.so", "-o", "liblibplaco.so"] + sorted(libobj) +
        ["-Wl,-rpath,%s/lib:" % P] + LIBS, B)
    _link(B, sorted(modobj), os.path.join(sp, "placo.so"))
    return sp


def build_shim(site, name):
    """C++-only entry points for the harnesses that use them; None when it cannot be built"""
    src = os.path.join(VERIF, "lib", {"placo_cxx": "shim.cpp", "placo_cxx_robot": "shim_robot.cpp", "placo_cxx_walk": "shim_walk.cpp", "placo_cxx_dyn": "shim_dyn.cpp"}[name])
    B = os.path.join(OUT, "nb") if os.path.exists(os.path.join(OUT, "nb", "liblibplaco.so")) else os.path.join(OUT, "module")
    inc = ["-I%s/src" % REPO, "-I%s/_build" % REPO, "-isystem", "/usr/include/python3.12"] + SYS + [
        "-isystem", VENV + "/lib/python3.12/site-packages/numpy/_core/include"]
    o, so = os.path.join(OUT, name + ".o"), os.path.join(site, name + ".so")
    try:
        run(launcher() + ["/usr/bin/g++", "-DBOOST_DISABLE_PRAGMA_MESSAGE"] + DEF + inc + ["-fPIC", "-O1", "-DNDEBUG", "-std=c++17", "-o", o, "-c", src], OUT)
        run(["/usr/bin/g++", "-shared", "-o", so + ".tmp", o, "-Wl,-rpath,%s/lib:%s:" % (P, B), B + "/liblibplaco.so"] + LIBS +
            [P + "/lib/libeigenpy.so", P + "/lib/libboost_python312.so"], OUT)
        os.replace(so + ".tmp", so)
    except BuildError:
        if os.path.exists(so):
            os.remove(so)
        return None
    return so


def build_module():
    """returns (dir to put on PYTHONPATH, seconds)"""
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    with open(os.path.join(OUT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sp = build_module_incremental() or build_module_full()
        pu = os.path.join(sp, "placo_utils")
        shutil.rmtree(pu, ignore_errors=True)
        shutil.copytree(REPO + "/python/placo_utils", pu)
    return sp, time.time() - t0


if __name__ == "__main__":
    print(build_module())
