"""Shared machinery: build harnesses against /repo, run scripts, validate traces with TLC, write evidence."""
import os, sys, json, time, hashlib, subprocess, random, shutil, re, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
QUICK = TIER != "thorough"
BUILD = os.path.join(VERIF, "build")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4
CXX = "g++"


class CheckError(Exception):
    """The check itself could not run (exit code 3)."""


def sh(cmd, timeout=None, env=None, cwd=None):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          timeout=timeout, env=env, cwd=cwd, errors="replace")

# ---------------------------------------------------------------- building

_repo_hash = None
def repo_hash():
    """Content hash of everything in /repo a harness may include."""
    global _repo_hash
    if _repo_hash is None:
        h = hashlib.sha256()
        for root, dirs, files in os.walk(os.path.join(REPO, "spatialops")):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".h", ".hpp", ".cpp", ".in", ".c", ".hh")):
                    fp = os.path.join(root, f)
                    h.update(os.path.relpath(fp, REPO).encode())
                    h.update(open(fp, "rb").read())
        h.update(open(os.path.join(REPO, "SpatialOpsConfigure.h.in"), "rb").read())
        _repo_hash = h.hexdigest()
    return _repo_hash

def config_dir(conf):
    """Writes SpatialOpsConfigure.h for a configuration from the repository's own template."""
    nth = {"serial": None, "threads": 4, "threads2": 2, "threads1": 1, "threads8": 8}[conf]
    d = os.path.join(BUILD, "config", conf, "spatialops")
    os.makedirs(d, exist_ok=True)
    text = open(os.path.join(REPO, "SpatialOpsConfigure.h.in")).read()
    on = set()
    if nth: on |= {"ENABLE_THREADS", "FIELD_EXPRESSION_THREADS", "STENCIL_THREADS", "TILL_THREADS"}
    out = []
    for line in text.splitlines():
        m = re.match(r"\s*#\s*cmakedefine\s+(\w+)(.*)", line)
        if m:
            name, rest = m.group(1), m.group(2)
            if name in on: out.append("#define %s" % name)
            elif name == "NTHREADS" and nth: out.append("#define NTHREADS %d" % nth)
            else: out.append("/* #undef %s */" % name)
        else:
            line = line.replace("@NTHREADS@", str(nth or 1))
            line = re.sub(r"@[A-Za-z_]*HASH[A-Za-z_]*@", '"verif"', line)
            line = re.sub(r"@[A-Za-z_]*DATE[A-Za-z_]*@", '"verif"', line)
            line = re.sub(r"@\w+@", "", line)
            line = re.sub(r"\$\{\w+\}", "", line)
            out.append(line)
    s = "\n".join(out) + "\n"
    p = os.path.join(d, "SpatialOpsConfigure.h")
    if not os.path.exists(p) or open(p).read() != s:
        tmp = p + ".%d.%d" % (os.getpid(), threading.get_ident())
        open(tmp, "w").write(s); os.replace(tmp, p)
    return os.path.dirname(d)

LIBSRC = {
    "structured": ["spatialops/structured/GhostData.cpp", "spatialops/structured/Grid.cpp",
                   "spatialops/structured/MemoryPool.cpp", "spatialops/structured/MemoryWindow.cpp"],
    "stencil": ["spatialops/structured/stencil/StencilBuilder.cpp"],
    "onedim": ["spatialops/structured/onedim/LagrangePoly.cpp"],
    "threads": ["spatialops/ThreadPool.cpp"],
}

def _compile(src, conf, flags, key):
    """One object file, cached by content; returns path."""
    h = hashlib.sha256()
    for x in (repo_hash(), open(src, "rb").read(), conf, " ".join(flags), key): h.update(x if isinstance(x, bytes) else x.encode())
    hd = os.path.join(VERIF, "harness")
    for f in sorted(os.listdir(hd)):
        if f.endswith(".h"): h.update(open(os.path.join(hd, f), "rb").read())
    odir = os.path.join(BUILD, "obj"); os.makedirs(odir, exist_ok=True)
    obj = os.path.join(odir, h.hexdigest()[:32] + ".o")
    if os.path.exists(obj): return obj
    tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
    cmd = [CXX, "-w", "-O0", "-I" + config_dir(conf), "-I" + REPO, "-I" + hd] + flags + ["-c", src, "-o", tmp]
    r = sh(cmd, timeout=800)
    if r.returncode != 0:
        raise CheckError("compilation of %s (%s) failed:\n%s" % (src, conf, r.stdout[-3000:]))
    os.replace(tmp, obj)
    return obj

PLAIN = ["-O1", "-std=c++17", "-fno-threadsafe-statics"]   # the scheduler itself is never instrumented
TSAN = ["-fsanitize=thread", "-std=c++17"]                   # only its hooks are used: harness/vsched.cpp implements them

def build(name, srcs, conf="serial", libs=("structured",), flags=(), ldflags=()):
    """Compiles harness sources plus the repository's sources for a configuration; returns the executable."""
    flags = list(flags)
    libs = list(libs)
    if conf != "serial" and "threads" not in libs: libs.append("threads")
    paths = [s if os.path.isabs(s) else os.path.join(VERIF, "harness", s) for s in srcs]
    for l in libs: paths += [os.path.join(REPO, s) for s in LIBSRC[l]]
    # a renamed or split library source file is still found by globbing its directory
    with ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(lambda s: _compile(s, conf, PLAIN if os.path.basename(s) == "vsched.cpp" else flags, ""), paths))
    h = hashlib.sha256(("".join(objs) + name + " ".join(ldflags)).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "bin", name + "-" + h)
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        sched = any(os.path.basename(x) == "vsched.cpp" for x in paths)
        san = [] if sched else [f for f in flags if f.startswith("-fsanitize")]
        r = sh([CXX] + san + objs + ["-o", tmp] + list(ldflags) + ["-lboost_thread", "-lboost_system", "-lpthread", "-ldl"], timeout=600)
        if r.returncode != 0: raise CheckError("link of %s failed:\n%s" % (name, r.stdout[-3000:]))
        os.replace(tmp, exe)
    return exe

def prune_build():
    """Keeps the content-addressed cache from growing without bound."""
    for sub in ("obj", "bin"):
        d = os.path.join(BUILD, sub)
        if not os.path.isdir(d): continue
        fs = [(os.path.getmtime(os.path.join(d, f)), os.path.join(d, f)) for f in os.listdir(d)]
        tot = sum(os.path.getsize(f) for _, f in fs)
        for _, f in sorted(fs):
            if tot < 6e9: break
            tot -= os.path.getsize(f); os.unlink(f)

# ---------------------------------------------------------------- check context

class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.rng = random.Random("%s/%d" % (prop, SEED))
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.mc, self.extra = [], [], [], {}
        self.violations, self.known_hits = [], {}
        self.work = os.path.join(VERIF, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.assumptions = []
        self.known = load_known(prop)
        prune_build()

    def log(self, *a):
        print("[%s %5.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # -- model checking of the specification itself
    def model_check(self, module, cfg=None, extra=(), timeout=600, workers=None, expect_ok=True, env=None):
        out, st = run_tlc(module, cfg or module + ".cfg", self.work, extra=extra, timeout=timeout, workers=workers or NCPU, env=env)
        if expect_ok and not st["ok"]:
            raise CheckError("TLC rejected the specification %s/%s itself:\n%s" % (module, cfg, out[-4000:]))
        self.states += st["distinct"]; self.transitions += st["generated"]
        self.mc.append({"module": module, "cfg": cfg or module + ".cfg", "states": st["distinct"], "generated": st["generated"], "depth": st["depth"]})
        self.log("model %s %s: %d distinct states, %d generated, depth %d" % (module, cfg or "", st["distinct"], st["generated"], st["depth"]))
        return out, st

    def model_flaws(self, module, cfg, flaws, subst='"none"', timeout=300):
        """the same model with one defect put in: TLC has to find a property violated; returns the counterexamples"""
        text = open(os.path.join(VERIF, "spec", cfg)).read(); assert text.count(subst) == 1
        def one(f):
            p = os.path.join(self.work, "%s_%s.cfg" % (module, f)); open(p, "w").write(text.replace(subst, '"%s"' % f))
            out, st = run_tlc(module, p, self.work, timeout=timeout, workers=2)
            if st["ok"] or not re.search("is violated|was violated|were violated", out): raise CheckError("the specification %s does not notice the defect %s: %s" % (module, f, out[-800:]))
            return tlc_behaviours(out)
        with ThreadPoolExecutor(4) as ex: r = list(ex.map(one, flaws))
        self.mc.append({"module": module, "cfg": cfg, "defects_detected": list(flaws)})
        self.log("model %s: properties fail, as they should, with each of %s" % (module, ", ".join(flaws)))
        return dict(zip(flaws, r))

    # -- running a harness over cases: {id: [op lines]}
    def run_cases(self, exe, cases, tag, jobs=NCPU, timeout=60, env=None, total_timeout=600):
        ids = list(cases)
        if not ids: return []
        jobs = max(1, min(jobs, len(ids)))
        chunks = [ids[i::jobs] for i in range(jobs)]
        outs = []
        def one(k):
            sp = os.path.join(self.work, "%s.%d.script" % (tag, k)); op = os.path.join(self.work, "%s.%d.ndjson" % (tag, k))
            with open(sp, "w") as f:
                for c in chunks[k]:
                    f.write("CASE %s\n" % c)
                    for l in cases[c]: f.write(l + "\n")
            e = dict(os.environ); e.update(env or {})
            r = sh([exe, sp, op, str(timeout)], timeout=total_timeout, env=e)
            if r.returncode != 0: raise CheckError("harness %s failed with %d: %s" % (exe, r.returncode, r.stdout[-1000:]))
            return op
        with ThreadPoolExecutor(jobs) as ex: outs = list(ex.map(one, range(jobs)))
        return outs

    def explored(self, exe, cases, tag, timeout=60, total_timeout=800):
        """Runs programs under the controlled scheduler; returns the trace files and counts the schedules."""
        st = os.path.join(self.work, tag + ".stats")
        if os.path.exists(st): os.unlink(st)
        fs = self.run_cases(exe, cases, tag, timeout=0, env={"VH_STATS": st}, total_timeout=total_timeout)
        runs = uniq = pts = full = 0
        if os.path.exists(st):
            for l in open(st):
                w = l.split()
                if w and w[0] == "EXPLORED": runs += int(w[2]); uniq += int(w[3]); pts += int(w[4]); full += int(w[5])
        for k, v in (("schedules_run", runs), ("distinct_traces", uniq), ("scheduling_points", pts), ("programs_explored_to_the_preemption_bound", full)):
            self.extra[k] = self.extra.get(k, 0) + v
        self.log("%s: %d schedules of %d programs, %d distinct traces, %d programs explored completely to their preemption bound" % (tag, runs, len(cases), uniq, full))
        return fs

    # -- validating traces (list of ndjson files) against a trace specification
    def validate(self, module, files, cases=None, exe=None, cfg=None, count_cases=True, timeout=800, env=None, rerun=True, henv=None):
        files = [f for f in files if os.path.getsize(f) > 0]
        rej = []
        def one(f):
            return f, tlc_trace(module, f, self.work, cfg=cfg, timeout=timeout, env=env)
        with ThreadPoolExecutor(min(NCPU, max(1, len(files)))) as ex:
            res = list(ex.map(one, files))
        ncase = 0; nev = 0
        for f, (out, st, rejects, knowns) in res:
            evs = open(f).read().splitlines()
            cs = set()
            for e in evs: cs.add(e[6:e.index('"', 6)])
            ncase += len(cs); nev += len(evs)
            self.states += st["distinct"]; self.transitions += st["generated"]
            for (l, c, tag) in knowns:
                if tag in self.known: self.known_hits.setdefault(tag, []).append(c)
                else: rej.append((f, l, c, "known-deviation tag %s is not in the known-findings file" % tag))
            for (l, c, what) in rejects: rej.append((f, l, c, what))
            if len(self.samples) < 4 and evs:
                k = self.rng.randrange(len(evs)); self.samples.append(json.loads(evs[k]) if len(evs[k]) < 1500 else {"truncated": evs[k][:600]})
        self.traces += ncase; self.events += nev
        self.log("validated %s: %d cases, %d events, %d rejected" % (module, ncase, nev, len(rej)))
        if rej:
            seen = set()
            for (f, l, c, what) in rej:
                if c.split("#")[0] in seen: continue
                seen.add(c.split("#")[0])
                self.confirm(module, f, l, c, what, cases, exe, cfg, env, rerun, henv)
                if len(self.violations) >= 5: break
        return rej

    def confirm(self, module, f, l, c, what, cases, exe, cfg, env, rerun, henv=None):
        """Re-runs the one rejected case; it counts only if the rejection repeats."""
        rd = os.path.join(VERIF, "work", "replay", self.prop); os.makedirs(rd, exist_ok=True)
        safe = re.sub(r"[^A-Za-z0-9_.-]", "_", c)
        rp = os.path.join(rd, safe + ".json")
        trace = [json.loads(x) for x in open(f) if x.startswith('{"c":"%s"' % c)]
        ok = False
        base = c.split("#")[0]
        if cases is not None and exe is not None and rerun and base in cases:
            for attempt in range(3):
                sub = self.run_cases(exe, {base: cases[base]}, "confirm", jobs=1, env=henv)
                out, st, rejects, knowns = tlc_trace(module, sub[0], self.work, cfg=cfg, env=env)
                bad = rejects or [k for k in knowns if k[2] not in self.known]
                if bad:
                    ok = True
                    l, c2, what = bad[0][0], bad[0][1], bad[0][2]
                    trace = [json.loads(x) for x in open(sub[0]) if x.startswith('{"c":"%s"' % c2)]
                    break
        else:
            ok = True
        json.dump({"property": self.prop, "module": module, "case": c, "harness": exe, "script": (cases or {}).get(c.split("#")[0]), "reject": what, "trace": trace[:400]}, open(rp, "w"), indent=1)
        if ok:
            self.violations.append((rp, c, what))
            self.log("VIOLATION in case %s: %s" % (c, what[:1500]))
        else:
            self.log("a rejection of case %s did not repeat; not reported (%s)" % (c, what[:300]))

    def violation(self, replay_obj, what):
        rd = os.path.join(VERIF, "work", "replay", self.prop); os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "v%d.json" % len(self.violations))
        json.dump(replay_obj, open(rp, "w"), indent=1)
        self.violations.append((rp, "-", what))

    def known_hit(self, tag, what=""):
        self.known_hits.setdefault(tag, []).append(what)

    def finish(self):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "samples": self.samples[:6] or ["none"], "models": self.mc}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level,
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        if self.known_hits: cov["known_findings"] = {k: len(v) for k, v in self.known_hits.items()}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        json.dump(ev, open(p + ".tmp", "w"), indent=1); os.replace(p + ".tmp", p)
        for k in sorted(self.known_hits):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.known[k]), flush=True)
        if self.violations:
            for rp, c, what in self.violations:
                print("VIOLATION property=%s replay=%s" % (self.prop, rp), flush=True)
            return 1
        self.log("held on everything explored (%d states, %d traces)" % (self.states, self.traces))
        return 0


def load_known(prop):
    """known_findings.txt: lines 'known: property=<id> tag=<tag> <what fails>' (fixed: lines suppress nothing)."""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) tag=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop: out[m.group(2)] = m.group(3)
    return out

# ---------------------------------------------------------------- TLC

def run_tlc(module, cfg, work, extra=(), timeout=600, workers=1, env=None, jopts=(), heap="3g", dump=None):
    d = tempfile.mkdtemp(prefix="tlc_", dir=work)
    sp = os.path.join(VERIF, "spec")
    e = dict(os.environ); e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:TieredStopAtLevel=4", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + d, *jopts, "-cp", JAR + ":" + sp, "-DTLA-Library=" + sp,
           "tlc2.TLC", "-metadir", d, "-noGenerateSpecTE", "-workers", str(workers), "-config", os.path.join(sp, cfg), *extra, os.path.join(sp, module + ".tla")]
    try:
        r = sh(cmd, timeout=timeout, env=e, cwd=d)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    out = r.stdout
    st = {"ok": r.returncode == 0 and ("No error has been found" in out or "-simulate" in extra), "rc": r.returncode, "generated": 0, "distinct": 0, "depth": 0}
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m: st["generated"], st["distinct"] = int(m[-1][0]), int(m[-1][1])
    m = re.search(r"depth of the complete state graph search is (\d+)", out)
    if m: st["depth"] = int(m.group(1))
    return out, st

def tla_value(t):
    """the TLC value t (numbers, strings, sets, sequences, records) as a Python value; sets become sorted lists"""
    t = t.strip(); i = 0
    def ws():
        nonlocal i
        while i < len(t) and t[i].isspace(): i += 1
    def val():
        nonlocal i
        ws()
        if t.startswith("<<", i) or t[i] == "{":
            end = ">>" if t[i] == "<" else "}"; i += len(end); r = []
            ws()
            while not t.startswith(end, i):
                r.append(val()); ws()
                if t[i] == ",": i += 1; ws()
            i += len(end); return r
        if t[i] == "[":
            i += 1; r = {}; ws()
            while t[i] != "]":
                m = re.compile(r"\s*(\w+)\s*\|->").match(t, i); i = m.end(); r[m.group(1)] = val(); ws()
                if t[i] == ",": i += 1
            i += 1; return r
        m = re.compile(r'"([^"]*)"|(-?\d+)|TRUE|FALSE').match(t, i); i = m.end()
        return m.group(1) if m.group(1) is not None else int(m.group(2)) if m.group(2) else m.group(0) == "TRUE"
    return val()

def tlc_behaviours(text):
    """[[(action, state)]] from TLC's error trace output or a file written by -simulate"""
    B = []; cur = None
    for m in re.finditer(r"^(?:State (\d+): <(\w+)[^\n]*|\\\* <(\w+) line[^\n]*\nSTATE_(\d+) ==[^\n]*)\n(.*?)(?=\n\s*\n|\Z)", text, re.M | re.S):
        n = int(m.group(1) or m.group(4))
        if n == 1: cur = []; B.append(cur)
        st = {}
        for v in re.split(r"^/\\ ", m.group(5), flags=re.M):
            if " = " in v: k, x = v.split(" = ", 1); st[k.strip()] = tla_value(x)
        cur.append((m.group(2) or m.group(3), st))
    return B

def tlc_simulate(module, cfg, work, num, depth, seed, timeout=300):
    d = tempfile.mkdtemp(prefix="sim_", dir=work)
    run_tlc(module, cfg, work, extra=("-simulate", "file=%s,num=%d" % (os.path.join(d, "b"), num), "-depth", str(depth), "-seed", str(seed)), timeout=timeout)
    B = []
    for f in sorted(os.listdir(d)): B += tlc_behaviours(open(os.path.join(d, f)).read())
    shutil.rmtree(d, ignore_errors=True)
    return B

def tlc_trace(module, path, work, cfg=None, timeout=800, env=None, heap="3g", depth=0):
    """One TLC run over one trace file.  Returns rejects [(line, case, text)], knowns [(line, case, tag)]."""
    e = {"TRACE": path}; e.update(env or {})
    out, st = run_tlc(module, cfg or "Trace.cfg", work, timeout=timeout, env=e, heap=heap)
    rejects, knowns = [], []
    for m in re.finditer(r'^"?REJECT\|(\d+)\|([^|]*)\|(.*)$', out, re.M): rejects.append((int(m.group(1)), m.group(2), m.group(3)[:3000]))
    for m in re.finditer(r'^"?KNOWN\|(\d+)\|([^|]*)\|([^|"]*)', out, re.M): knowns.append((int(m.group(1)), m.group(2), m.group(3)))
    if not st["ok"]:
        # The specification's expressions are undefined on this observation (for example a value outside every
        # function's domain): no behaviour explains it.  The case is set aside as rejected and the rest is checked.
        ls = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
        evalerr = re.search(r"Attempted to|Evaluating|was not in the domain|outside the domain|not in the domain|non-enumerable|overridden|nested expression|Error: The following behavior", out)
        if not (ls and evalerr) or "OutOfMemory" in out : raise CheckError("TLC could not process %s with %s:\n%s" % (path, module, out[-4000:]))
        lines = open(path).read().splitlines(True)
        l = min(int(ls[-1]), len(lines)); c = lines[l-1][6:lines[l-1].index('"', 6)]
        m = re.search(r"Error: (?!TLC threw|The behavior|The error)(.*)", out)
        sub = path + ".rest"
        with open(sub, "w") as f: f.writelines(x for x in lines if not x.startswith('{"c":"%s"' % c))
        rej = [(l, c, "event %s: the specification has no such behaviour (%s)" % (lines[l-1][:600], m.group(1)[:300] if m else "undefined"))]
        if os.path.getsize(sub) and depth < 5:
            o2, st2, r2, k2 = tlc_trace(module, sub, work, cfg, timeout, env, heap, depth + 1)
            return o2, st2, rej + [x for x in r2 if x[1] != c], k2
        st["ok"] = True
        return out, st, rej, knowns
    return out, st, rejects, knowns

def main(fn, prop):
    try:
        c = Check(prop)
        fn(c)
        rc = c.finish()
    except CheckError as e:
        print("CHECK-ERROR property=%s: %s" % (prop, e), flush=True); rc = 3
    except subprocess.TimeoutExpired as e:
        print("CHECK-ERROR property=%s: timeout %s" % (prop, e), flush=True); rc = 3
    sys.exit(rc)
