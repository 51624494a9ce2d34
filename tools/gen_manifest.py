#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
NA = {}
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=[], not_applicable=[])
for p in props:
    c = checks.CHECKS.get(p)
    if not c:
        m["not_applicable"].append(dict(property=p, reason=NA.get(p, "check not built yet")))
        continue
    m["checks"].append(dict(
        property=p, quick_cmd="python3 check.py " + p, thorough_cmd="python3 check.py %s --tier thorough" % p,
        technique="bounded symbolic execution of the LLVM IR of the real functions with SMT (z3), counterexamples replayed natively",
        level="model_checking",
        level_note="solver-decided for all values and event sequences within bounds: %s. Outside: %s" % (c["bounds"], c["outside"])))
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
