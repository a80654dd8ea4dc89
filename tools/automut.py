"""Systematic small edits of the repository's code (operators, comparisons, constants, dropped statements and copies), each run against the
checks anchored in that file, in a mount namespace. Lists the edits that no check notices, for reading by hand.

usage: python3 tools/automut.py [-j N] [--files a.py,b.py] [--sample K] [--seed S] [--out FILE]"""
import ast, json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {  # file -> checks, most telling first
    "grid_utils.py": "C01 C02 C28 C03 C30", "mdp.py": "C03 C30 C04 C05 C07 C08 C02 C01 C26 C27 C31 C12 C23 C13 C21",
    "environments.py": "C20 C19 C06 C07 C27 C08 C05 C14 C26 C13 C31", "agents.py": "C06 C13 C08 C05 C14 C27 C31 C12 C26",
    "env_io.py": "C21", "plotting.py": "C26", "algorithms/action_selection.py": "C11 C12 C28 C27 C18", "algorithms/base.py": "C27 C14 C09 C29 C06",
    "algorithms/dynamic_programming.py": "C09 C10 C28 C32 C27", "algorithms/irl.py": "C25 C23 C34 C29 C28",
    "algorithms/mcts.py": "C16 C15 C33 C17 C18 C28 C14 C19 C27", "algorithms/policy_learning.py": "C24 C29", "algorithms/successor_representation.py": "C22"}
SWAP = {"Lt": "<=", "LtE": "<", "Gt": ">=", "GtE": ">", "Eq": "!=", "NotEq": "==", "Add": "-", "Sub": "+", "Mult": "/", "Div": "*"}


def mutants(path):
    src = open(path).read()
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    out = []
    tree = ast.parse(src)

    def add(n, what, lo, hi, new):
        out.append((n.lineno, what, lo, hi, new))

    def visit(n, fn):
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom, ast.Assert)):
            return
        if isinstance(n, ast.FunctionDef):
            fn = n.name
            for s in n.body:
                visit(s, fn)
            return
        if fn and isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if fn:
            lo, hi = pos(n) if hasattr(n, "lineno") else (0, 0)
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]).__name__ in SWAP:
                l, r = pos(n.left), pos(n.comparators[0])
                add(n, fn + ": compare " + SWAP[type(n.ops[0]).__name__], l[1], r[0], " " + SWAP[type(n.ops[0]).__name__] + " ")
            if isinstance(n, ast.BinOp) and type(n.op).__name__ in SWAP and not isinstance(n.left, ast.Constant):
                l, r = pos(n.left), pos(n.right)
                mid = b[l[1]:r[0]].decode()
                sym = {"Add": "+", "Sub": "-", "Mult": "*", "Div": "/"}[type(n.op).__name__]
                if mid.count(sym) == 1:
                    add(n, fn + ": arithmetic", l[1], r[0], mid.replace(sym, SWAP[type(n.op).__name__]))
            if isinstance(n, ast.Constant) and isinstance(n.value, bool):
                add(n, fn + ": constant", lo, hi, str(not n.value))
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
                add(n, fn + ": constant", lo, hi, str(n.value + 1))
                if n.value not in (0,):
                    add(n, fn + ": constant", lo, hi, "0")
            if isinstance(n, ast.BoolOp):
                l, r = pos(n.values[0]), pos(n.values[1])
                mid = b[l[1]:r[0]].decode()
                k = "and" if isinstance(n.op, ast.And) else "or"
                if mid.count(k) == 1 and len(n.values) == 2:
                    add(n, fn + ": boolean", l[1], r[0], mid.replace(k, "or" if k == "and" else "and"))
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
                o = pos(n.operand)
                add(n, fn + ": negation dropped", lo, o[0], "")
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "copy" and not n.args:
                v = pos(n.func.value)
                add(n, fn + ": copy dropped", v[1], hi, "")
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("copy", "deepcopy", "int", "list", "abs") and len(n.args) == 1:
                v = pos(n.args[0])
                add(n, fn + ": %s() dropped" % n.func.id, lo, hi, b[v[0]:v[1]].decode())
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)):
                add(n, fn + ": statement dropped", lo, hi, "pass")
            if isinstance(n, (ast.If, ast.While, ast.IfExp)):
                t = pos(n.test)
                add(n, fn + ": condition True", t[0], t[1], "True")
                add(n, fn + ": condition False", t[0], t[1], "False")
            if isinstance(n, (ast.Break, ast.Continue)):
                add(n, fn + ": jump dropped", lo, hi, "pass")
        for c in ast.iter_child_nodes(n):
            visit(c, fn)
    visit(tree, None)
    res = []
    for line, what, lo, hi, new in out:
        m = b[:lo] + new.encode() + b[hi:]
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        if m != b:
            res.append((line, what, lines[line - 1].strip()[:100], new.strip()[:40], m))
    return res


def run(f, k, m):
    line, what, text, new, data = m
    work = tempfile.mkdtemp(prefix="amut_")
    try:
        copy = os.path.join(work, "repo")
        subprocess.check_call(["cp", "-a", "/repo", copy])
        open(os.path.join(copy, "maMDP", f), "wb").write(data)
        os.makedirs(os.path.join(work, "ev")); os.makedirs(os.path.join(work, "rp"))
        res, by = "survived", None
        pre = "mount --bind %s /repo && mount --bind %s/ev %s/evidence && mount --bind %s/rp %s/replays && cd %s && " % (copy, work, ROOT, work, ROOT, ROOT)
        for p in MAP[f].split():
            r = subprocess.run(["unshare", "-Urm", "bash", "-c", pre + "exec python3 run.py " + p], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            if r.returncode == 1 and "VIOLATION property=" + p in r.stdout:
                res, by = "caught", p
                break
            if r.returncode != 0:
                res, by = "no answer", p + " " + r.stdout.strip().split("\n")[0][:150]
        if res != "caught":
            r = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s /repo && bash /opt/vp/test.sh %s/o.json" % (copy, work)], capture_output=True, text=True)
            if "89 passed" not in r.stdout:
                res += " (tests fail)"
        rec = {"file": f, "k": k, "line": line, "what": what, "text": text, "new": new, "result": res, "by": by}
        return rec
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main():
    a = sys.argv[1:]
    opt = {"-j": "4", "--files": ",".join(MAP), "--sample": "0", "--seed": "1", "--out": "/tmp/automut.jsonl", "--list": ""}
    while a:
        k = a.pop(0)
        opt[k] = a.pop(0)
    jobs = []
    for f in opt["--files"].split(","):
        ms = list(enumerate(mutants(os.path.join("/repo/maMDP", f))))
        if int(opt["--sample"]):
            random.Random(int(opt["--seed"])).shuffle(ms)
            ms = ms[:int(opt["--sample"])]
        jobs += [(f, k, m) for k, m in ms]
    done = set()
    if os.path.exists(opt["--out"]):
        done = {(d["file"], d["k"]) for d in map(json.loads, open(opt["--out"]))}
    jobs = [j for j in jobs if (j[0], j[1]) not in done]
    print(len(jobs), "mutants", flush=True)
    with open(opt["--out"], "a") as o, ThreadPoolExecutor(int(opt["-j"])) as ex:
        for r in ex.map(lambda j: run(*j), jobs):
            o.write(json.dumps(r) + "\n"); o.flush()
            if r["result"] != "caught":
                print(r["file"], r["line"], r["what"], "|", r["text"], "->", r["new"], "|", r["result"], r["by"] or "", flush=True)


main()
