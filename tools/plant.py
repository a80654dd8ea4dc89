"""Builds /verif/seeded/<id>/ from tools/plants.py and confirms each in a scratch copy.

usage: python3 tools/plant.py [id ...]     (default: all that are missing)
Each definition: property, edits = [(file, old, new), ...], needs, breaks, demo (python source; exits non-zero if broken)
"""
import difflib, json, os, re, runpy, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLANTS = runpy.run_path(os.path.join(ROOT, "tools", "plants.py"))["PLANTS"]
PY = "/opt/venv/bin/python"
DEMO_SH = '#!/bin/bash\n# exit 0: behaves as promised; anything else: broken\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nW=$(mktemp -d); trap \'rm -rf "$W"\' EXIT\nexport NUMBA_CACHE_DIR="$W" MPLCONFIGDIR="$W"\n/opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def sh(cmd, **k):
    return subprocess.run(cmd, capture_output=True, text=True, **k)


def base_lines(f):
    r = sh(["git", "-C", "/repo", "show", "5434f62:" + f])
    return set(l.rstrip() for l in r.stdout.split("\n"))


def tests(work):
    """runs the repository's tests in the copy"""
    r = sh([PY, "-m", "pytest", "tests", "-q", "-x", "-p", "no:cacheprovider"], cwd=work,
           env=dict(os.environ, PYTHONPATH=work, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", NUMBA_CACHE_DIR=work + "_nb"))
    m = re.search(r"(\d+) passed", r.stdout)
    bad = re.search(r"(\d+) failed|(\d+) error", r.stdout)
    return int(m.group(1)) if m and not bad else 0, r.stdout[-1500:]


def make(pid):
    d = PLANTS[pid]
    work = tempfile.mkdtemp(prefix="plant_")
    try:
        copy = os.path.join(work, "repo")
        sh(["cp", "-a", "/repo", copy])
        out = os.path.join(work, "seed")
        os.makedirs(out)
        open(os.path.join(out, "demo.py"), "w").write(d["demo"].strip() + "\n")
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        r = sh(["bash", os.path.join(out, "demo.sh")], cwd=copy)
        if r.returncode != 0:
            return "demo fails on the clean tree: " + (r.stdout + r.stderr)[-800:]
        touched = False
        for f, old, new in d["edits"]:
            p = os.path.join(copy, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "%s: %d matches of %r" % (f, s.count(old), old[:80])
            open(p, "w").write(s.replace(old, new))
            base = base_lines(f)
            removed = [l[1:] for l in difflib.ndiff(old.split("\n"), new.split("\n")) if l.startswith("- ")]
            touched |= any(l[1:].rstrip() in base and l.strip() for l in removed)
        diff = sh(["git", "-C", copy, "diff"]).stdout
        if not touched:
            return "no original line is changed"
        n, log = tests(copy)
        if n != 89:
            return "tests: %d passed\n%s" % (n, log)
        r = sh(["bash", os.path.join(out, "demo.sh")], cwd=copy)
        if r.returncode == 0:
            return "demo does not notice the bug"
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        dst = os.path.join(ROOT, "seeded", pid)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        return None
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    ids = sys.argv[1:] or [i for i in PLANTS if not os.path.isdir(os.path.join(ROOT, "seeded", i))]
    with ThreadPoolExecutor(4) as ex:
        for i, r in zip(ids, ex.map(make, ids)):
            print(i, "OK" if r is None else "REJECTED " + r, flush=True)
