#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist and properties.jsonl."""
import sys, os, json
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.join(here, "..")
sys.path[:0] = [here, os.path.join(root, "checks"), root]
import importlib
NOTES = json.load(open(os.path.join(root, "tools", "notes.json")))
t = {}
for f in sorted(os.listdir(os.path.join(root, "checks"))):
    if f.endswith(".py"): t.update({k: f for k in importlib.import_module(f[:-3]).CHECKS})
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in t:
        n = NOTES.get(i, {})
        checks.append({"property": i, "quick_cmd": "./check " + i, "thorough_cmd": "VERIF_TIER=thorough ./check " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": n.get("technique", "TLA+ specification checked with TLC; traces of the real code validated against it with TLC"),
            "level": n.get("level", "model_checking"),
            "level_note": n.get("note", "The specification is model checked within small constants; conformance of the code is decided on generated executions, not proved for all.")})
    else:
        na.append({"property": i, "reason": NOTES.get(i, {}).get("na", "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Checks build their harnesses from /repo's working tree into /verif/build (ignored by git, keyed by content)."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
