"""Runs checks on a behaviour-preserving rewrite of the code (tools/refactors.py), in a copy bound over /repo.

usage: python3 tools/robust.py [-j N] [--only mdp,irl] [--seeds 1,2] [--tier quick] [C01 ...]"""
import json, os, re, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = runpy.run_path(os.path.join(ROOT, "tools", "refactors.py"))["R"]


def main():
    args, ids, jobs, seeds, tier, only, test = sys.argv[1:], [], 3, [1], "quick", list(R), False
    while args:
        a = args.pop(0)
        if a == "-j":
            jobs = int(args.pop(0))
        elif a == "--only":
            only = args.pop(0).split(",")
        elif a == "--seeds":
            seeds = [int(s) for s in args.pop(0).split(",")]
        elif a == "--tier":
            tier = args.pop(0)
        elif a == "--test":
            test = True
        else:
            ids.append(a)
    ids = ids or [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]
    work = tempfile.mkdtemp(prefix="rf_")
    try:
        copy = os.path.join(work, "repo")
        subprocess.check_call(["cp", "-a", "/repo", copy])
        for name in only:
            for e in R[name]:
                p = os.path.join(copy, e[0])
                s = open(p).read()
                if e[1] == "re":
                    s, n = re.subn(e[2], e[3], s)
                    assert n, (name, e[2])
                else:
                    assert s.count(e[1]) == 1, (name, s.count(e[1]), e[1][:200])
                    s = s.replace(e[1], e[2])
                open(p, "w").write(s)
        if test:
            r = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && bash /opt/vp/test.sh %s/o.json" % (copy, work)], capture_output=True, text=True)
            print(r.stdout[-300:], r.stderr[-300:])
            print([k for k, v in json.load(open(work + "/o.json")).items() if k == "failed"] and json.load(open(work + "/o.json"))["failed"])

        def one(job):
            p, seed = job
            ev = os.path.join(work, "ev_%s_%s" % (p, seed))
            os.makedirs(ev)
            r = subprocess.run(["unshare", "-Urm", "bash", "-c",
                                "mount --bind %s /repo && mount --bind %s %s/evidence && cd %s && exec python3 run.py %s" % (copy, ev, ROOT, ROOT, p)],
                               capture_output=True, text=True, env=dict(os.environ, VERIF_SEED=str(seed), VERIF_TIER=tier))
            print(p, seed, "quiet" if r.returncode == 0 else "EXIT %d" % r.returncode, "" if r.returncode == 0 else (r.stdout + r.stderr)[:1500], flush=True)
        with ThreadPoolExecutor(jobs) as ex:
            list(ex.map(one, [(p, s) for s in seeds for p in ids]))
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
