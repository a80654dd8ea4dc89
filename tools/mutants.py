"""Runs checks against planted bugs without touching /repo: each in a copy bound over /repo in its own mount namespace.

usage: python3 tools/mutants.py [-j N] [--all | --props C01,C02] [--seeds 1,2] [--missing] [id ...]
ids come from tools/plants.py (kept in seeded/ or not). Results in tools/seeded_results.json (kept ones, seed 1 only)."""
import json, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLANTS = runpy.run_path(os.path.join(ROOT, "tools", "plants.py"))["PLANTS"]
RES = os.path.join(ROOT, "tools", "seeded_results.json")


def run(pid, props, seeds, tier):
    d = PLANTS[pid]
    work = tempfile.mkdtemp(prefix="mut_")
    out = {}
    try:
        copy = os.path.join(work, "repo")
        subprocess.check_call(["cp", "-a", "/repo", copy])
        for f, old, new in d["edits"]:
            p = os.path.join(copy, f)
            s = open(p).read()
            if s.count(old) != 1:
                return {"?": "edit does not apply: %r" % old[:60]}
            open(p, "w").write(s.replace(old, new))
        os.makedirs(os.path.join(work, "ev"))
        for p in props or [d["property"]]:
            for seed in seeds:
                r = subprocess.run(["unshare", "-Urm", "bash", "-c",
                                    "mount --bind %s /repo && mount --bind %s/ev %s/evidence && cd %s && exec python3 run.py %s" % (copy, work, ROOT, ROOT, p)],
                                   capture_output=True, text=True, env=dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier))
                v = "caught" if r.returncode == 1 and "VIOLATION property=" + p in r.stdout else "missed" if r.returncode == 0 else "error %d" % r.returncode
                out[p if len(seeds) == 1 else "%s/%s" % (p, seed)] = v
                if v != "missed" or p == d["property"]:
                    print(pid, p, "seed", seed, v, (r.stdout.strip().split("\n")[0] or r.stderr)[:200], flush=True)
        return out
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    args, ids, jobs, props, seeds, tier = sys.argv[1:], [], 2, None, [1], "quick"
    missing = False
    while args:
        a = args.pop(0)
        if a == "-j":
            jobs = int(args.pop(0))
        elif a == "--all":
            props = [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]
        elif a == "--props":
            props = args.pop(0).split(",")
        elif a == "--seeds":
            seeds = [int(s) for s in args.pop(0).split(",")]
        elif a == "--tier":
            tier = args.pop(0)
        elif a == "--missing":
            missing = True
        else:
            ids.append(a)
    res = json.load(open(RES)) if os.path.exists(RES) else {}
    ids = ids or [i for i in PLANTS if not missing or i not in res]
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with ThreadPoolExecutor(jobs) as ex:
        for i, r in zip(ids, ex.map(lambda i: run(i, props, seeds, tier), ids)):
            if seeds == [1] and tier == "quick" and os.path.isdir(os.path.join(ROOT, "seeded", i)):
                res.setdefault(i, {}).update(r)
                json.dump(res, open(RES, "w"), indent=0, sort_keys=True)
            elif "?" in r:
                print(i, r)


main()
