"""Worker side of the explorer.

A harness module defines
    cases(tier)        -> iterable of JSON-able cases: the bounded space, enumerated completely, smallest first
    run(case, ctx)     -> executes the case on the real code, next to the reference model; raises Bad on a mismatch
Every exception leaving run() is a violation (an operation that must be accepted threw, or an oracle failed).
"""
import hashlib, itertools, json, os, struct, sys, traceback
import numpy as np


class Bad(Exception):
    """the property does not hold on this execution"""


class Ctx:
    def __init__(self, tier="quick", seed=1):
        self.tier, self.seed = tier, seed
        self.states, self.transitions, self.traces, self.checks = set(), 0, 0, 0
        self.findings = {}

    # -- accounting ----------------------------------------------------------------------------------
    def state(self, *key):
        """records a (model) state reached by the exploration"""
        self.states.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def step(self, n=1):
        """records n transitions (operations executed on the implementation)"""
        self.transitions += n

    def trace(self, n=1):
        """records complete executions compared with the model"""
        self.traces += n

    # -- oracles -------------------------------------------------------------------------------------
    def ok(self, cond, msg, *info):
        self.checks += 1
        if not cond:
            raise Bad(msg + (": " + "; ".join(_s(i) for i in info) if info else ""))

    def close(self, got, want, msg, tol=1e-6, rel=0.0):
        self.checks += 1
        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        if g.shape != w.shape:
            if g.size == w.size:
                g = g.reshape(w.shape)
            else:
                raise Bad("%s: shape %s, expected %s" % (msg, g.shape, w.shape))
        if g.size == 0:
            return
        if not np.all(np.isfinite(g)):
            raise Bad("%s: not finite: got %s, expected %s" % (msg, _s(g), _s(w)))
        d = np.max(np.abs(g - w))
        if d > tol + rel * np.max(np.abs(w)):
            raise Bad("%s: got %s, expected %s (difference %.3g)" % (msg, _s(g), _s(w), d))

    def raises(self, f, msg):
        self.checks += 1
        try:
            r = f()
        except Exception:
            return
        raise Bad("%s: accepted (returned %s)" % (msg, _s(r)))


def _s(x):
    if isinstance(x, np.ndarray):
        return np.array2string(x, precision=6, threshold=60, max_line_width=200).replace("\n", " ")
    return str(x)[:400]


def sequences(alphabet, depth, mindepth=0):
    """all operation sequences up to a depth, shortest first"""
    for d in range(mindepth, depth + 1):
        for s in itertools.product(alphabet, repeat=d):
            yield list(s)


def pumped(alphabet, n, k=2):
    """long histories: every ordered k-tuple of operations, repeated n times over"""
    for s in itertools.product(alphabet, repeat=k):
        if k == 2 or len(set(map(str, s))) == k:
            yield list(s) * n


def grid(**axes):
    """full cartesian product, as dicts"""
    ks = list(axes)
    for vs in itertools.product(*axes.values()):
        yield dict(zip(ks, vs))


def run_one(mod, case, ctx):
    try:
        mod.run(case, ctx)
        return None
    except Bad as e:
        return str(e)
    except MemoryError:
        raise
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        at = "; ".join("%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.line) for f in tb[-2:])
        return "unexpected %s: %s [%s]" % (type(e).__name__, str(e).strip()[:500], at)


def worker(argv):
    """mc.py <harness> <tier> <seed> <shard> <nshards> <outprefix> [stop_index] | mc.py --one <harness> <tier> <seed> <casefile> <out>"""
    import importlib
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path[:0] = [os.path.join(here, "harness"), os.path.join(here, "lib")]
    # the harness modules import "mc": make it this very module
    sys.modules["mc"] = sys.modules[__name__]
    if argv[0] == "--one":
        _, name, tier, seed, casefile, out = argv
        mod = importlib.import_module(name)
        ctx = Ctx(tier, int(seed))
        msg = run_one(mod, json.load(open(casefile)), ctx)
        json.dump({"message": msg}, open(out, "w"))
        return 0
    name, tier, seed, shard, n, prefix = argv[:6]
    shard, n = int(shard), int(n)
    stop = int(argv[6]) if len(argv) > 6 else None
    mod = importlib.import_module(name)
    ctx = Ctx(tier, int(seed))
    cur = os.open(prefix + ".cur", os.O_CREAT | os.O_RDWR, 0o644)
    done, total, samples, bad = 0, 0, [], []
    for i, case in enumerate(mod.cases(tier)):
        total += 1
        if i % n != shard or (stop is not None and i > stop):
            continue
        os.pwrite(cur, struct.pack("<q", i), 0)
        case = json.loads(json.dumps(case))
        msg = run_one(mod, case, ctx)
        if msg is not None:
            bad.append({"index": i, "case": case, "message": msg})
            if len(bad) >= 50:
                break
        done += 1
        if done in (1, 1 + 97, 1 + 997) and len(samples) < 3:
            samples.append(case)
    with open(prefix + ".states", "wb") as f:
        f.write(b"".join(ctx.states))
    json.dump({"done": done, "total": total, "transitions": ctx.transitions, "traces": ctx.traces,
               "checks": ctx.checks, "samples": samples, "bad": bad, "bounds": getattr(mod, "BOUNDS", {}).get(tier, ""),
               "assumptions": getattr(mod, "ASSUMPTIONS", [])}, open(prefix + ".json.tmp", "w"))
    os.replace(prefix + ".json.tmp", prefix + ".json")
    return 0


if __name__ == "__main__":
    sys.exit(worker(sys.argv[1:]))
