"""Runs checks on the current tree:  python3 tools/sweep.py [--tier quick|thorough] [--seeds 1,2,3] [ids]   (prints only what is not HELD, and a total)"""
import argparse, json, os, subprocess, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument("--tier", default="quick"); ap.add_argument("--seeds", default="1"); ap.add_argument("ids", nargs="*")
a = ap.parse_args()
ids = a.ids or [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]
n, bad, cost = 0, 0, {}
for seed in a.seeds.split(","):
    for p in ids:
        t = time.time()
        r = subprocess.run(["python3", "run.py", p], cwd=ROOT, capture_output=True, text=True, env=dict(os.environ, VERIF_SEED=seed, VERIF_TIER=a.tier))
        cost[p] = round(time.time() - t)
        n += 1
        if r.returncode:
            bad += 1
            print(p, "seed", seed, "rc", r.returncode, (r.stdout + r.stderr)[-1500:], flush=True)
print(n, "runs,", bad, "not quiet;", cost)
