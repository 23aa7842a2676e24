#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the rule modules and the not-applicable reasons."""
import ast, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from na import NA
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    path = os.path.join(HERE, "sa", "rules", pid.lower() + ".py")
    if os.path.exists(path):
        t = ast.parse(open(path).read())
        c = {}
        for n in t.body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("LEVEL", "EXPLANATION", "TECHNIQUE"):
                c[n.targets[0].id] = ast.literal_eval(n.value)
        checks.append({"property": pid, "quick_cmd": "python3 check.py %s" % pid,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid,
                       "technique": c.get("TECHNIQUE", "static analysis: path-sensitive abstract interpretation of the Python AST with a points-to call graph"),
                       "level": c["LEVEL"], "level_note": c["EXPLANATION"]})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "not claimed yet: the checker for this property is not finished")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
           "notes": "All checks are static: they parse /repo/src with the ast module on every run and never import or run it."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
