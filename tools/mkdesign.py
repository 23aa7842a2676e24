#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the rule modules, properties.jsonl, mutants.py and the planted bugs."""
import ast, collections, glob, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from na import NA
from limits import LIMITS
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
mut = collections.Counter()
for n in ast.walk(ast.parse(open(os.path.join(HERE, "tools", "mutants.py")).read())):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in "BK" and n.args and isinstance(n.args[0], ast.Constant):
        mut[n.args[0].value, n.func.id] += 1
seeds = collections.defaultdict(list)
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    seeds[m["property"]].append((os.path.basename(os.path.dirname(f)), m["what_it_breaks"]))
known = collections.defaultdict(list)
for l in open(os.path.join(HERE, "known_findings.txt")):
    for kind in ("fixed", "finding"):
        if l.startswith(kind + ": property="):
            known[l.split("property=")[1].split()[0]].append((kind, l.split("property=")[1].split(" ", 1)[1].strip()))


def rules(tree):
    out, loops = [], {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "rule" and len(n.args) >= 2:
            try:
                out.append((ast.literal_eval(n.args[0]), ast.literal_eval(n.args[1])))
            except ValueError:
                pass
        if isinstance(n, (ast.Assign,)) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == "RULES":
            try:
                v = ast.literal_eval(n.value)
                out += list(v.items()) if isinstance(v, dict) else list(v)
            except ValueError:
                pass
    return list(dict.fromkeys(out))


out = [open(os.path.join(HERE, "tools", "design_head.md")).read().rstrip(), "", "# 7. The properties one by one", ""]
for p in props:
    pid = p["id"]
    f = os.path.join(HERE, "sa", "rules", pid.lower() + ".py")
    if not os.path.exists(f):
        continue
    t = ast.parse(open(f).read())
    c = {n.targets[0].id: ast.literal_eval(n.value) for n in t.body
         if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("LEVEL", "EXPLANATION", "TECHNIQUE")}
    out += ["## %s %s" % (pid, p["title"]), "",
            "*Method:* " + c.get("TECHNIQUE", "path-sensitive abstract interpretation of the Python AST with a points-to call graph") + ". " + c["EXPLANATION"], ""]
    rs = rules(t)
    if rs:
        out.append("*Rules (each an obligation per construct it applies to):*")
        out += ["- `%s`: %s" % (a, " ".join(b.split())) for a, b in rs] + [""]
    out += ["*Why the tests cannot settle it:* " + p["why_tests_cant"], "", "*Bounds and limits:* " + LIMITS[pid], ""]
    b, k = mut[pid, "B"], mut[pid, "K"]
    out.append("*Self test:* %d breaking edits caught, %d behaviour-keeping edits quiet (tools/mutants.py)." % (b, k))
    if seeds[pid]:
        out.append("*Planted bugs caught:* " + "; ".join("`%s` (%s)" % (a, w.rstrip(".")) for a, w in seeds[pid]) + ".")
    fx = [w for kd, w in known[pid] if kd == "fixed"]
    fi = [w for kd, w in known[pid] if kd == "finding"]
    if fx:
        out += ["*Defects found and repaired:*"] + ["- " + w for w in fx]
    if fi:
        out += ["*Known findings (not repaired):*"] + ["- " + w for w in fi]
    out.append("")
out += ["# 8. Not applicable", "", "These properties are listed because users rely on them; the family can not decide them.", ""]
for p in props:
    if p["id"] in NA and not os.path.exists(os.path.join(HERE, "sa", "rules", p["id"].lower() + ".py")):
        out.append("- **%s %s**: %s." % (p["id"], p["title"], NA[p["id"]]))
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print(len(out), "lines")
