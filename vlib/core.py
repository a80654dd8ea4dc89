"""Runner shared by all checks: deterministic cases, forked workers, watchdogs, verdict, evidence and replay files."""
import argparse, hashlib, importlib, json, mmap, os, pickle, signal, struct, sys, time, traceback, warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_CPU_S = 200          # CPU seconds after which a single case counts as not terminating (cases take well under 5 s)
WALL_CAP = {"quick": 420, "thorough": 780}


class Violation(Exception):
    """The monitored property was observed to be broken."""

    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.detail = detail


class Inconclusive(Exception):
    """The harness could not run (for example, a public name it needs is gone)."""


def _plain(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        return x.tolist() if x.size <= 400 else {"shape": list(x.shape), "head": x.ravel()[:40].tolist()}
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [_plain(v) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)[:300]


class Ctx:
    """Per-case context: random generator, counters, distinct signatures, samples and the trace of the case."""

    def __init__(self, prop, seed, tier, rec):
        self.prop, self.seed, self.tier, self.rec = prop, seed, tier, rec
        self.trace, self.desc, self.i, self.rng = [], {}, None, None

    def begin(self, i):
        import numpy as np
        self.i, self.trace, self.desc = i, [], {}
        self.rng = np.random.default_rng([self.seed, int(self.prop[1:]), i])
        seed_all(int(self.rng.integers(2 ** 31)))

    def n(self, name, k=1):
        c = self.rec["counters"]
        c[name] = c.get(name, 0) + int(k)

    def sig(self, *key):
        """Registers a distinct, non-trivial thing observed (hashed)."""
        h = hashlib.blake2b(repr(_plain(list(key))).encode(), digest_size=8).digest()
        self.rec["sigs"].add(h)

    def sample(self, **kw):
        if len(self.rec["samples"]) < 2:
            self.rec["samples"].append(_plain(dict(kw, case=self.i)))

    def log(self, *ev):
        self.trace.append(ev)

    def check(self, cond, msg, **detail):
        self.n("oracle_evaluations")
        if not cond:
            raise Violation(msg, **detail)

    def fail(self, msg, **detail):
        raise Violation(msg, **detail)


_nb_seed = None


def enable_numba_seeding():
    """Compiles the function that seeds numba's own generator (only checks that run random compiled code need it)."""
    global _nb_seed
    import numpy as np
    from numba import njit

    @njit
    def f(s):
        np.random.seed(s)
    f(1)
    _nb_seed = f


def seed_all(s):
    import numpy as np
    np.random.seed(s)
    if _nb_seed is not None:
        _nb_seed(s)


def in_repo(tb):
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith("/repo/"):
            return True
        tb = tb.tb_next
    return False


def classify(e):
    """Anything unexpected that happens while running the repository's code on valid input breaks the property;
    only a missing public name (or a lack of memory) means that the check cannot answer."""
    if isinstance(e, Violation):
        return "violation"
    if isinstance(e, (Inconclusive, ImportError, MemoryError)):
        return "inconclusive"
    repo = in_repo(e.__traceback__)
    if not repo and isinstance(e, (AttributeError, NameError)):
        return "inconclusive"
    if not repo and isinstance(e, TypeError) and "argument" in str(e):
        return "inconclusive"
    return "violation"


def report_of(ctx, e):
    return {"kind": classify(e), "case": ctx.i, "message": "%s: %s" % (type(e).__name__, str(e)[:2000]),
            "detail": _plain(getattr(e, "detail", {})), "desc": _plain(ctx.desc), "trace": _plain(ctx.trace[-60:]),
            "traceback": "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]}


def new_rec():
    return {"counters": {}, "sigs": set(), "samples": [], "done": 0, "problem": None, "capped": False}


def run_cases(mod, ctx, cases, shared=None, w=0, deadline=None):
    rec = ctx.rec
    for i in cases:
        if shared is not None:
            if shared[0]:
                break
            shared[8 + 8 * w:16 + 8 * w] = struct.pack("q", i)
        if deadline is not None and time.time() > deadline:
            rec["capped"] = True
            break
        ctx.begin(i)
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
        try:
            mod.case(ctx, i)
            rec["done"] += 1
        except Exception as e:
            rec["problem"] = report_of(ctx, e)
            if shared is not None:
                shared[0] = 1
            break
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def merge(a, b):
    for k, v in b["counters"].items():
        a["counters"][k] = a["counters"].get(k, 0) + v
    a["sigs"] |= b["sigs"]
    a["samples"] += b["samples"]
    a["done"] += b["done"]
    a["capped"] |= b["capped"]


def parallel(mod, prop, seed, tier, n, work, deadline):
    W = min(8, os.cpu_count() or 1, max(1, n))
    shared = mmap.mmap(-1, 8 + 8 * W)
    sys.stdout.flush(); sys.stderr.flush()
    pids = []
    for w in range(W):
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                ctx = Ctx(prop, seed, tier, new_rec())
                run_cases(mod, ctx, range(w, n, W), shared, w, deadline)
                with open(os.path.join(work, "w%d.pkl" % w), "wb") as f:
                    pickle.dump(ctx.rec, f)
                code = 0
            finally:
                os._exit(code)
        pids.append(pid)
    total, problems = new_rec(), []
    for w, pid in enumerate(pids):
        _, st = os.waitpid(pid, 0)
        case = struct.unpack("q", shared[8 + 8 * w:16 + 8 * w])[0]
        if os.WIFSIGNALED(st):
            sig = os.WTERMSIG(st)
            kind = "inconclusive" if sig in (signal.SIGKILL, signal.SIGTERM, signal.SIGINT) else "violation"
            what = ("case did not terminate within %d CPU seconds" % CASE_CPU_S if sig == signal.SIGVTALRM
                    else "worker died with signal %d while running the code under test" % sig)
            shared[0] = 1
            problems.append({"kind": kind, "case": case, "message": what})
            continue
        try:
            with open(os.path.join(work, "w%d.pkl" % w), "rb") as f:
                rec = pickle.load(f)
        except Exception as e:
            problems.append({"kind": "inconclusive", "case": case, "message": "worker left no record: %r" % e})
            continue
        merge(total, rec)
        if rec["problem"]:
            problems.append(rec["problem"])
    return total, problems


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--replay"); ap.add_argument("--cases", type=int)
    ap.add_argument("--only", type=int)
    a = ap.parse_args()
    prop = a.prop.upper()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in WALL_CAP else "quick"
    only = a.only
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        seed, tier, only = r["seed"], r["tier"], r["case"]
    work = os.environ["VERIF_WORK"]
    t0 = time.time()
    warnings.simplefilter("ignore")
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)

    ctx = Ctx(prop, seed, tier, new_rec())
    ctx.i = -1
    problems, total, mod, n = [], new_rec(), None, 0
    try:
        import numpy as np
        np.seterr(all="ignore")
        mod = importlib.import_module("checks." + prop.lower())
        import maMDP
        if not os.path.realpath(maMDP.__file__).startswith("/repo/"):
            raise Inconclusive("maMDP was not imported from /repo: %s" % maMDP.__file__)
        ctx.begin(0); ctx.i = -1
        signal.setitimer(signal.ITIMER_VIRTUAL, 400)
        mod.warmup(ctx)
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Exception as e:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        problems = [report_of(ctx, e)]
    warm_s = time.time() - t0
    if not problems:
        n = a.cases or mod.CASES[tier]
        if only is not None and only >= 0:
            c = Ctx(prop, seed, tier, new_rec())
            run_cases(mod, c, [only])
            total = c.rec
            problems = [total["problem"]] if total["problem"] else []
        elif only is None:
            total, problems = parallel(mod, prop, seed, tier, n, work, t0 + WALL_CAP[tier])
        merge(total, ctx.rec)
    wall = time.time() - t0
    viol = [p for p in problems if p["kind"] == "violation"]
    inc = [p for p in problems if p["kind"] != "violation"]
    missing = [] if (mod is None or only is not None or viol) else [c for c in mod.REQUIRE if not total["counters"].get(c)]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": total["done"], "distinct_nontrivial": len(total["sigs"]),
                       "rule": getattr(mod, "RULE", ""), "samples": total["samples"][:4],
                       "planned_cases": n, "stopped_by_time_cap": total["capped"],
                       "observed": dict(sorted(total["counters"].items()))},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(wall, 2), "warmup_s": round(warm_s, 2), "violations": len(viol)}
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1); f.write("\n")
    if viol:
        p = min(viol, key=lambda q: q["case"])
        path = os.path.join(ROOT, "replays", "%s_seed%d_%s_case%d.json" % (prop, seed, tier, p["case"]))
        with open(path, "w") as f:
            json.dump(dict(p, property=prop, seed=seed, tier=tier), f, indent=1)
        print(p["message"]); print(p.get("traceback", "")[-1500:])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if inc or missing:
        for p in inc:
            print("INCONCLUSIVE property=%s case=%s %s" % (prop, p["case"], p["message"])); print(p.get("traceback", "")[-2500:])
        if missing:
            print("INCONCLUSIVE property=%s monitors never reached: %s" % (prop, missing))
        return 2
    print("HELD property=%s cases=%d distinct=%d wall=%.1fs observed=%s" % (
        prop, total["done"], len(total["sigs"]), wall, json.dumps(ev["coverage"]["observed"])))
    return 0


if __name__ == "__main__":
    import vlib.core as core   # run under the importable name, so that exception classes are shared with the checks
    sys.exit(core.main())
