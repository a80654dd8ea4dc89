"""Runs checks against the planted bugs:  python3 tools/seeded.py [--all] [id ...]
For each bug: applies the patch to /repo, runs the bug's own check (--all: every check), undoes it; results in tools/seeded_results.json."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RES = os.path.join(ROOT, "tools", "seeded_results.json")


def main():
    every = "--all" in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(os.path.join(ROOT, "seeded")))
    res = json.load(open(RES)) if os.path.exists(RES) else {}
    props = [c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]]
    assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"]), "/repo is not clean"
    for i in ids:
        d = os.path.join(ROOT, "seeded", i)
        own = json.load(open(os.path.join(d, "meta.json")))["property"]
        subprocess.check_call(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")])
        try:
            for p in (props if every else [own]):
                r = subprocess.run(["python3", "run.py", p], cwd=ROOT, capture_output=True, text=True, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                v = "caught" if r.returncode == 1 and "VIOLATION property=" + p in r.stdout else "missed" if r.returncode == 0 else "error %d" % r.returncode
                res.setdefault(i, {})[p] = v
                if p == own or v != "missed":
                    print(i, p, v, (r.stdout.strip().split("\n")[0] or r.stderr)[:160], flush=True)
        finally:
            subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
        json.dump(res, open(RES, "w"), indent=0, sort_keys=True)


main()
