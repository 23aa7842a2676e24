#!/usr/bin/env python3
"""Writes sa/anchors.json: the functions the rules are anchored at, with fingerprints (run on the unchanged tree only)."""
import ast
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from sa import norm  # noqa: E402
src = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src")
trees = {}
for d, _, fs in sorted(os.walk(os.path.join(src, "bgem"))):
    for f in sorted(fs):
        if f.endswith(".py"):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, src)[:-3].replace(os.sep, ".")
            if rel.endswith(".__init__"):
                rel = rel[:-9]
            trees[rel] = ast.parse(open(p, encoding="utf-8").read())
with open(norm.ANCHORS, "w") as f:
    json.dump(norm.make_anchors(trees), f, sort_keys=True, separators=(",", ":"))
