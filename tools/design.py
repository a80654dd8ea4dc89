"""Writes DESIGN.md (run: python3 tools/design.py)."""
import ast, json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, "tools"))
import props


def consts(path):
    m = ast.parse(open(path).read())
    out = {"doc": ast.get_docstring(m) or ""}
    for n in m.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("RULE", "ASSUMPTIONS", "CASES"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def main():
    o = [open(os.path.join(root, "tools", "design_head.md")).read().rstrip(), ""]
    cost = {}
    try:
        cost = json.load(open(os.path.join(root, "tools", "costs.json")))
    except OSError:
        pass
    for p in props.P:
        f = os.path.join(root, "checks", p["id"].lower() + ".py")
        o += ["### %s — %s" % (p["id"], p["title"]), "", p["statement"], ""]
        if not os.path.exists(f):
            o += ["* Not claimed.", ""]
            continue
        c = consts(f)
        o += ["* Decided by: %s. %s" % (p["technique"], p["note"]),
              "* Workload and bounds: %s. Cases: %d quick, %d thorough%s." % (c["RULE"].rstrip("."), c["CASES"]["quick"], c["CASES"]["thorough"],
                  "; about %s s quick on 8 cores" % cost[p["id"]] if p["id"] in cost else ""),
              "* Quantified over: %s." % p["text"],
              "* Observed at: %s." % "; ".join(p["observe"]),
              "* Beyond the tests: %s" % p["why"]]
        if c.get("ASSUMPTIONS"):
            o += ["* Assumptions: %s." % "; ".join(c["ASSUMPTIONS"])]
        o += [""]
    o += [open(os.path.join(root, "tools", "design_tail.md")).read().rstrip(), ""]
    sd = os.path.join(root, "seeded")
    ids = sorted(x for x in os.listdir(sd) if os.path.isdir(os.path.join(sd, x))) if os.path.isdir(sd) else []
    res = {}
    try:
        res = json.load(open(os.path.join(root, "tools", "seeded_results.json")))
    except OSError:
        pass
    o += ["## Planted bugs and what catches them", "",
          "`tools/seeded.py` confirms each planted bug in a scratch copy (applies, builds, 89 tests pass, demo fails) and runs the checks on it.", "",
          "| bug | property | what it breaks | own check | other checks that also fired |", "|---|---|---|---|---|"]
    for i in ids:
        m = json.load(open(os.path.join(sd, i, "meta.json")))
        r = res.get(i, {})
        own = r.get(m["property"])
        oth = [k for k, v in sorted(r.items()) if v == "caught" and k != m["property"]]
        o += ["| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/"), own or "", " ".join(oth))]
    o += [""]
    t2 = os.path.join(root, "tools", "design_end.md")
    if os.path.exists(t2):
        o += [open(t2).read()]
    open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(o))


main()
