#!/usr/bin/env python3
"""Development aid (no check uses it): creates or re-validates planted bugs under seeded/.
  plant.py new ID PROP FILE.py   FILE.py defines EDITS=[(path,old,new)], NEEDS, BREAKS, DEMO (C++ text), CONF
  plant.py test ID...            demo on /repo, build + tests + demo + checks on a scratch clone with the patch"""
import sys, os, subprocess, json, shutil
V = os.path.abspath(os.path.join(os.path.dirname(__file__), "..")); WT = "/tmp/wt"
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
DEMO = '''#!/bin/bash
# run with cwd = repository root after the build
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 2; trap 'find "$t" -delete' EXIT
B=_build/%s
g++ -w -g -O%s %s -I. -I$B/config "$d/demo.cpp" -o "$t/demo" -Wl,--start-group $(find $B/spatialops -name '*.a') -Wl,--end-group -lboost_thread -lboost_system -lboost_chrono -lpthread || exit 2
timeout %d "$t/demo"
'''
def reset(): sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -qf FETCH_HEAD && git -C %s checkout -- ." % (WT, WT, WT))
def new(i, prop, f):
    g = {}; exec(open(f).read(), g); d = os.path.join(V, "seeded", i); os.makedirs(d, exist_ok=True)
    reset()
    for p, a, b in g["EDITS"]:
        q = os.path.join(WT, p); s = open(q).read()
        if s.count(a) != 1: sys.exit("%s: %d occurrences of %r" % (p, s.count(a), a))
        open(q, "w").write(s.replace(a, b))
    open(os.path.join(d, "patch.diff"), "w").write(sh("git -C %s diff" % WT).stdout); reset()
    open(os.path.join(d, "demo.cpp"), "w").write(g["DEMO"].lstrip()); open(os.path.join(d, "demo.sh"), "w").write(DEMO % (g.get("CONF", "serial"), g.get("OPT", "0"), g.get("FLAGS", ""), g.get("TIMEOUT", 60)))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=prop, needs=g["NEEDS"], what_it_breaks=g["BREAKS"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
def test(i, checks=None):
    d = os.path.join(V, "seeded", i); prop = json.load(open(d + "/meta.json"))["property"]; res = {}
    reset(); r = sh("bash %s/demo.sh" % d, cwd="/repo"); res["clean"] = r.returncode
    if r.returncode: print(r.stdout[-600:])
    r = sh("git apply --whitespace=nowarn %s/patch.diff" % d, cwd=WT); 
    if r.returncode: print(i, "PATCH FAILS", r.stdout); return
    sh("bash /tmp/wttest.sh /tmp/wt_out.json"); o = json.load(open("/tmp/wt_out.json")); res["tests"] = "%d/%d" % (len(o["passed"]), len(o["failed"]))
    r = sh("bash %s/demo.sh" % d, cwd=WT); res["bug"] = r.returncode; res["out"] = r.stdout[-150:]
    for c in (checks or [prop]):
        r = sh("./check %s" % c, cwd=V, env=dict(os.environ, VERIF_REPO=WT, VERIF_SEED="1", VERIF_TIER="quick")); res[c] = "%d %s" % (r.returncode, "CAUGHT" if "VIOLATION property=" + c in r.stdout and r.returncode == 1 else "missed")
    reset(); print(i, json.dumps(res), flush=True)
if __name__ == "__main__":
    if sys.argv[1] == "new": new(*sys.argv[2:5])
    else:
        for i in sys.argv[2:]: test(i)
