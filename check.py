#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]

exit 0: the property held on everything explored;  exit 1 + VIOLATION line: it did not;  exit 2: no answer.
"""
import argparse, json, os, shutil, struct, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
import build

HARNESS = json.load(open(os.path.join(V, "lib", "registry.json")))
JOBS = build.JOBS
HANG = 60  # s without a case finishing


def wenv(site):
    e = {k: v for k, v in os.environ.items() if k in ("HOME", "TMPDIR", "LANG")}
    e.update(PATH=build.VENV + "/bin:/usr/bin:/bin", PYTHONPATH=site, PYTHONDONTWRITEBYTECODE="1",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", PLACO_REPO=build.REPO, PYTHONHASHSEED="0")
    return e


class Worker:
    def __init__(self, cmd, prefix, env):
        self.prefix = prefix
        self.err = open(prefix + ".err", "wb")
        # unexpected output of the library (std::cout) goes to the same file
        self.p = subprocess.Popen(cmd, env=env, stdout=self.err, stderr=self.err, cwd=os.path.dirname(prefix),
                                  stdin=subprocess.DEVNULL)
        self.last, self.since = None, time.time()

    def cur(self):
        try:
            d = open(self.prefix + ".cur", "rb").read(8)
            return struct.unpack("<q", d)[0] if len(d) == 8 else None
        except OSError:
            return None

    def poll(self):
        """None while running, else 'ok' | 'crash' | 'hang'"""
        rc = self.p.poll()
        if rc is None:
            c = self.cur()
            if c != self.last:
                self.last, self.since = c, time.time()
            if time.time() - self.since > HANG:
                self.p.kill()
                self.p.wait()
                return "hang"
            return None
        return "ok" if rc == 0 else "crash"

    def tail(self):
        try:
            return open(self.prefix + ".err", "rb").read()[-1500:].decode("utf8", "replace")
        except OSError:
            return ""


def nth_case(harness, tier, idx, env, tmp):
    code = ("import sys,json; sys.path[:0]=[%r,%r]; import importlib; m=importlib.import_module(%r)\n"
            "for i,c in enumerate(m.cases(%r)):\n"
            "    if i==%d: json.dump(c, open(%r,'w')); break\n" % (V + "/harness", V + "/lib", harness, tier, idx, tmp + "/nth.json"))
    subprocess.run([build.VENV + "/bin/python", "-c", code], env=env, check=True, timeout=600)
    return json.load(open(tmp + "/nth.json"))


def run_single(harness, tier, seed, case, env, tmp):
    """one case in a fresh process -> None or message"""
    cf, of = tmp + "/case.json", tmp + "/one.json"
    json.dump(case, open(cf, "w"))
    if os.path.exists(of):
        os.remove(of)
    try:
        r = subprocess.run([build.VENV + "/bin/python", V + "/lib/mc.py", "--one", harness, tier, str(seed), cf, of],
                           env=env, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=HANG)
    except subprocess.TimeoutExpired:
        return "does not terminate within %d s" % HANG
    if r.returncode != 0 or not os.path.exists(of):
        return "process died with status %d: %s" % (r.returncode, r.stdout[-600:].decode("utf8", "replace"))
    return json.load(open(of))["message"]


def known_findings(prop):
    p = os.path.join(V, "known_findings.json")
    return [f for f in json.load(open(p)) if f["property"] == prop and f["status"] == "open"] if os.path.exists(p) else []


def match(f, case, msg):
    return f.get("case") == case and f.get("message_contains", "") in msg


def sources(mod, seen=None):
    """text of a harness and of the modules next to it that it imports"""
    seen = set() if seen is None else seen
    p = os.path.join(V, "harness", mod + ".py")
    if mod in seen or not os.path.exists(p):
        return ""
    seen.add(mod)
    s = open(p).read()
    for l in s.split("\n"):
        w = l.split()
        if len(w) > 1 and w[0] in ("import", "from"):
            s += sources(w[1], seen)
    return s


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=JOBS)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    harness = HARNESS[a.prop]
    try:
        site, tb = build.build_module()
        for shim in ("placo_cxx", "placo_cxx_robot", "placo_cxx_walk", "placo_cxx_dyn"):
            if "import %s as" % shim in sources(harness):
                t1 = time.time()
                build.build_shim(site, shim)
                tb += time.time() - t1
    except build.BuildError as e:
        print("BUILD FAILED: /repo's tree does not build\n%s" % e)
        return 2
    env = wenv(site)
    tmp = tempfile.mkdtemp(prefix="placo_mc_")
    try:
        if a.replay:
            r = json.load(open(a.replay))
            msg = run_single(r["harness"], r["tier"], seed, r["case"], env, tmp)
            print("replay of %s: %s" % (a.replay, msg or "the property holds on this case"))
            if msg:
                print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
            return 1 if msg else 0
        return explore(a, harness, seed, env, tmp, t0, tb)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def explore(a, harness, seed, env, tmp, t0, tb):
    n = a.jobs
    mk = lambda s, stop=None, tag="": Worker(
        [build.VENV + "/bin/python", V + "/lib/mc.py", harness, a.tier, str(seed), str(s), str(n), "%s/w%d%s" % (tmp, s, tag)]
        + ([str(stop)] if stop is not None else []), "%s/w%d%s" % (tmp, s, tag), env)
    ws = {s: mk(s) for s in range(n)}
    res, dead = {}, {}
    while ws:
        for s in list(ws):
            st = ws[s].poll()
            if st is None:
                continue
            if st == "ok":
                res[s] = json.load(open(ws[s].prefix + ".json"))
            else:
                dead[s] = (st, ws[s])
            del ws[s]
        time.sleep(0.05)
    violations, notes = [], []
    for s, (st, w) in sorted(dead.items()):
        i = w.cur()
        if i is None:
            # died before the first case: the module itself does not load or the harness is broken
            print("NO ANSWER: worker died before its first case\n" + w.tail())
            return 2
        case = nth_case(harness, a.tier, i, env, tmp)
        msg = run_single(harness, a.tier, seed, case, env, tmp)
        if msg is None:
            # depends on what ran before it in the same process: re-run the shard up to that case
            for k in range(2):
                w2 = mk(s, i, "r%d" % k)
                while w2.poll() is None:
                    time.sleep(0.05)
                if w2.poll() != "ok":
                    msg = "process died (%s) after the preceding cases of the shard: %s" % (st, w.tail()[-600:])
                    break
        if msg is None:
            notes.append("shard %d died once at case %d (%s) and could not be reproduced" % (s, i, st))
        else:
            violations.append({"index": i, "case": case, "message": msg})
    for s, r in sorted(res.items()):
        k = 0
        for b in r["bad"]:
            if k >= 3 and len(violations) > 3:
                break
            msg = run_single(harness, a.tier, seed, b["case"], env, tmp)
            if msg is None:
                # history dependent (state shared between objects of one process): re-run the shard's prefix
                w2 = mk(s, b["index"], "q")
                while w2.poll() is None:
                    time.sleep(0.05)
                if w2.poll() == "ok":
                    again = [x for x in json.load(open(w2.prefix + ".json"))["bad"] if x["index"] == b["index"]]
                    msg = again[0]["message"] + " (after the preceding cases of the shard)" if again else None
                else:
                    msg = "process died"
            if msg is None:
                notes.append("case %d failed once and could not be reproduced: %s" % (b["index"], b["message"]))
            else:
                violations.append({"index": b["index"], "case": b["case"], "message": msg})
                k += 1
    violations.sort(key=lambda v: v["index"])
    known = known_findings(a.prop)
    hit, fresh = [], []
    for v in violations:
        f = next((f for f in known if match(f, v["case"], v["message"])), None)
        (hit.append((f, v)) if f else fresh.append(v))
    states = set()
    for s in res:
        d = open("%s/w%d.states" % (tmp, s), "rb").read()
        states.update(d[i:i + 8] for i in range(0, len(d), 8))
    done = sum(r["done"] for r in res.values())
    total = max([r["total"] for r in res.values()] or [0])
    ev = {"property": a.prop, "tier": a.tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": len(states), "transitions": sum(r["transitions"] for r in res.values()),
                       "traces_validated_against_impl": sum(r["traces"] for r in res.values()),
                       "cases_enumerated": total, "cases_executed": done,
                       "oracle_evaluations": sum(r["checks"] for r in res.values()),
                       "exhaustive": not dead and not fresh and done == total,
                       "bounds": next((r["bounds"] for r in res.values()), ""),
                       "samples": [c for r in res.values() for c in r["samples"]][:5]},
          "assumptions": next((r["assumptions"] for r in res.values()), []) + notes,
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open("%s/evidence/%s.json" % (V, a.prop), "w"), indent=1)
    print("%s %s: %d cases of %d, %d states, %d transitions, %d traces, %d oracle evaluations, %.1f s (build %.1f s)" % (
        a.prop, a.tier, done, total, len(states), ev["coverage"]["transitions"],
        ev["coverage"]["traces_validated_against_impl"], ev["coverage"]["oracle_evaluations"], ev["wall_s"], tb))
    for x in notes:
        print("note: " + x)
    for fid in sorted({f["id"] for f, _ in hit}):
        f = next(f for f, _ in hit if f["id"] == fid)
        print("KNOWN-FINDING: property=%s %s" % (a.prop, f["what"]))
    if fresh:
        os.makedirs(V + "/replays", exist_ok=True)
        for k, v in enumerate(fresh[:3]):
            rp = "%s/replays/%s_%d.json" % (V, a.prop, k)
            json.dump({"property": a.prop, "harness": harness, "tier": a.tier, **v}, open(rp, "w"), indent=1)
            print("case %s\n  -> %s" % (json.dumps(v["case"])[:600], v["message"][:1500]))
            print("  (replay: python3 %s/check.py %s --replay %s)" % (V, a.prop, rp))
            print("VIOLATION property=%s replay=%s" % (a.prop, rp))
        return 1
    if done != total:
        print("NO ANSWER: only %d of %d cases executed" % (done, total))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
