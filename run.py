#!/usr/bin/env python3
"""Driver: builds harnesses from /repo's working tree and runs the model-checking engines.
   run.py check <property> [--tier quick|thorough]   run.py setup   run.py replay <file>   run.py build <property>"""
import sys, os, json, hashlib, subprocess, time, glob, re, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
REPO = os.environ.get("SOPS_REPO", "/repo")
BUILD = os.path.join(V, "build")
OUT = os.path.join(V, "out")
EVID = os.path.join(V, "evidence")
JOBS = 8
from checks import CHECKS, VARIANTS

def log(*a):
    print(*a, flush=True)

def sha(b):
    return hashlib.sha256(b).hexdigest()[:24]

_fh = {}
def fhash(p):
    if p not in _fh:
        try: _fh[p] = sha(open(p, "rb").read())
        except OSError: _fh[p] = "missing"
    return _fh[p]

class BuildError(Exception): pass

def configure(variant):
    """generate SpatialOpsConfigure.h for a variant from the repository's own template"""
    v = VARIANTS[variant]
    d = os.path.join(BUILD, "config-" + variant, "spatialops")
    os.makedirs(d, exist_ok=True)
    t = open(os.path.join(REPO, "SpatialOpsConfigure.h.in")).read()
    on = v["define"]
    def cm(m):
        return "#define " + m.group(1) if m.group(1) in on else "/* #undef %s */" % m.group(1)
    t = re.sub(r"#cmakedefine\s+(\w+)", cm, t)
    t = t.replace("@NTHREADS@", str(v.get("nthreads", 1))).replace("@SOPS_REPO_DATE@", '"n/a"').replace("@SOPS_REPO_HASH@", '"n/a"')
    p = os.path.join(d, "SpatialOpsConfigure.h")
    if not os.path.exists(p) or open(p).read() != t:
        open(p, "w").write(t)
    return os.path.dirname(d)

def lib_sources(variant):
    out = []
    for p in sorted(glob.glob(os.path.join(REPO, "spatialops", "**", "*.cpp"), recursive=True)):
        rel = os.path.relpath(p, REPO)
        parts = rel.split(os.sep)
        if any(x in ("test", "tests", "example", "quickstart", "tutorial", "doc") for x in parts): continue
        if "threads" not in variant and variant != "sched" and os.path.basename(p) == "ThreadPool.cpp": continue
        out.append(p)
    return out

def parse_deps(dfile):
    t = open(dfile).read().replace("\\\n", " ")
    t = t.split(":", 1)[1]
    return [x for x in t.split() if x]

def compile_one(src, variant, extra):
    v = VARIANTS[variant]
    cfg = os.path.join(BUILD, "config-" + variant)
    flags = v["flags"] + extra
    cmd = [v.get("cxx", "g++")] + flags + ["-I" + os.path.join(V, "src"), "-I" + cfg, "-I" + REPO]
    key = sha(("\0".join(cmd) + "\0" + src).encode())
    obj = os.path.join(BUILD, "obj", os.path.basename(src).rsplit(".", 1)[0] + "-" + key + ".o")
    meta = obj + ".deps"
    if os.path.exists(obj) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if all(fhash(p) == h for p, h in m.items()): return obj
        except Exception: pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run(cmd + ["-MMD", "-MF", tmp + ".d", "-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("compiling %s (%s):\n%s" % (src, variant, r.stdout[-6000:]))
    deps = {p: fhash(p) for p in parse_deps(tmp + ".d") if not p.startswith("/usr/")}
    os.rename(tmp, obj); os.unlink(tmp + ".d")
    json.dump(deps, open(meta, "w"))
    return obj

def build(units):
    """units: list of unit dicts {name, src:[..], variant, engine}; returns {name: binary}"""
    jobs = {}
    plan = []
    for u in units:
        var = u["variant"]; configure(var)
        v = VARIANTS[var]
        items = []
        for s in u["src"]:
            items.append((os.path.join(V, "src", s), var, tuple(u.get("flags", []))))
        if u.get("lib", True):
            for s in lib_sources(var):
                if os.path.basename(s) == "StencilBuilder.cpp" and not u.get("stencils"): continue
                items.append((s, var, ()))
        for s, sv in v["engine"]:
            configure(sv); items.append((os.path.join(V, "src", s), sv, ()))
        plan.append((u, items))
        for it in items: jobs.setdefault(it, None)
    def size(it):   # biggest first
        try: return -os.path.getsize(it[0]) - (10**9 if "/checks/" in it[0] else 0)
        except OSError: return 0
    with ThreadPoolExecutor(JOBS) as ex:
        futs = {it: ex.submit(compile_one, it[0], it[1], list(it[2])) for it in sorted(jobs, key=size)}
        for it, f in futs.items(): jobs[it] = f.result()
    bins = {}
    for u, items in plan:
        v = VARIANTS[u["variant"]]
        objs = [jobs[it] for it in items]
        b = os.path.join(BUILD, "bin", u["name"])
        os.makedirs(os.path.dirname(b), exist_ok=True)
        stamp = sha(("\0".join(objs) + "".join(str(os.stat(o).st_mtime_ns) for o in objs)).encode())
        if not (os.path.exists(b) and os.path.exists(b + ".stamp") and open(b + ".stamp").read() == stamp):
            cmd = [v.get("cxx", "g++")] + v["ldflags"] + objs + ["-o", b] + v["libs"]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode: raise BuildError("linking %s:\n%s" % (u["name"], r.stdout[-4000:]))
            open(b + ".stamp", "w").write(stamp)
        bins[u["name"]] = b
    return bins

def known_findings(prop):
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"): continue
            m = re.match(r"property=(\S+)\s+match=(\S+)\s+(.*)$", line)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

def run_unit(u, binary, tier, workers, budget, prop, covers=False):
    logd = os.path.join(OUT, prop, u["name"])
    shutil.rmtree(logd, ignore_errors=True); os.makedirs(logd)
    rep = os.path.join(logd, "report.json")
    cmd = [binary, "--tier", tier, "--report", rep, "--logdir", logd, "--workers", str(workers), "--budget", str(budget)] + u.get("args", [])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout, (json.load(open(rep)) if os.path.exists(rep) else None)

def probe(prop, tier, c, t0):
    """the harness does not build: which of the property's documented uses no longer compiles?"""
    bad = 0
    for src, variant, what in c.get("probes", []):
        configure(variant)
        flags = [f for f in VARIANTS[variant]["flags"] if "sanitize" not in f]
        cmd = ["g++"] + flags + ["-fsyntax-only", "-I" + os.path.join(V, "src"), "-I" + os.path.join(BUILD, "config-" + variant), "-I" + REPO, os.path.join(V, "src", src)]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            bad += 1
            rp = os.path.join(OUT, prop, "probe-%d.txt" % bad)
            open(rp, "w").write("%s\n%s\n%s" % (what, " ".join(cmd), r.stdout[-5000:]))
            log("  %s no longer compiles" % what)
            log("VIOLATION property=%s replay=%s" % (prop, rp))
    return 1 if bad else 2

def check(prop, tier):
    t0 = time.time()
    c = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(EVID, exist_ok=True); os.makedirs(os.path.join(OUT, prop), exist_ok=True)
    units = c["units"]
    # a unit that must not compile / may fail to compile for a property reason is reported as violation of that property
    viols = []
    try:
        bins = build(units)
    except BuildError as e:
        log("BUILD FAILED for %s\n%s" % (prop, e))
        return probe(prop, tier, c, t0)
    tb = time.time() - t0
    log("[%s] built %d unit(s) in %.1fs" % (prop, len(units), tb))
    total = c.get("budget", {}).get(tier, 420 if tier == "quick" else 780)
    total = max(60, min(total, 840 - tb))
    scen, samples, errs = [], [], False
    wsum = sum(u.get("weight", 1) for u in units)
    for u in units:
        left = total - (time.time() - t0 - tb)
        share = max(10, left * u.get("weight", 1) / max(wsum, 1e-9)); wsum -= u.get("weight", 1)
        rc, txt, rep = run_unit(u, bins[u["name"]], tier, JOBS, share, prop)
        log("[%s] unit %s" % (prop, u["name"])); log(txt.rstrip())
        if rep is None or rc not in (0, 1):
            log("ERROR: unit %s ended with status %d" % (u["name"], rc)); errs = True
            if rep is None: continue
        for s in rep["scenarios"]: s["unit"] = u["name"]; scen.append(s)
        for v in rep["violations"]: v["unit"] = u["name"]; viols.append(v)
        samples += rep["samples"][:4]
    known = known_findings(prop)
    new, hit = [], {}
    for v in viols:
        ident = "%s/%s/%s" % (v["unit"], v["scenario"], v["key"])
        full = ident + " " + v.get("path", "")
        for m, what in known:
            if re.search(m, full): hit[m] = what; break
        else: new.append(v)
    for m, what in hit.items(): log("KNOWN-FINDING: property=%s %s" % (prop, what))
    seen = set(); n = 0; vio_out = []
    for v in new:
        ident = (v["unit"], v["scenario"], v["key"])
        if ident in seen: continue
        seen.add(ident); n += 1
        if n > 8: break
        rp = os.path.join(OUT, prop, "replay-%d.json" % n)
        v = dict(v); v["property"] = prop; v["tier"] = tier
        json.dump(v, open(rp, "w"), indent=1)
        log("  %s/%s [%s] %s\n    path: %s" % (v["unit"], v["scenario"], v["key"], v["msg"], v.get("path", "")))
        log("VIOLATION property=%s replay=%s" % (prop, rp))
        vio_out.append({"key": "/".join(ident), "msg": v["msg"][:300], "replay": rp})
    complete = bool(scen) and all(s["complete"] for s in scen)
    ex = sum(s["executions"] for s in scen)
    cov = {"states": sum(s["states"] for s in scen), "transitions": sum(s["transitions"] for s in scen),
           "traces_validated_against_impl": ex, "executions": ex,
           "exhaustive": complete, "bounds": c["bounds"] if isinstance(c["bounds"], str) else c["bounds"][tier],
           "scenarios": [{k: s[k] for k in s if k not in ("wall_s",)} for s in scen], "samples": samples[:12] or ["(none)"]}
    if not complete: cov["cap"] = "; ".join("%s stopped at its cap after %d executions" % (s["name"], s["executions"]) for s in scen if not s["complete"]) or "no scenario ran"
    ev = {"property": prop, "tier": tier, "seed": seed, "level": c.get("level", "model_checking"), "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "violations": len(vio_out), "violation_details": vio_out,
          "assumptions": c.get("assumptions", []) + ["every explored execution runs the real /repo code; states/transitions count choice-tree nodes and edges plus library operations"]}
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    log("[%s] %s: executions=%d states=%d transitions=%d %s wall=%.1fs" % (prop, "VIOLATED" if new else "held", ex, cov["states"], cov["transitions"], "exhaustive within bounds" if complete else "CAPPED", time.time() - t0))
    if new: return 1
    return 2 if errs or not scen else 0

def replay(path):
    v = json.load(open(path))
    us = [u for u in CHECKS[v["property"]]["units"] if u["name"] == v["unit"]]
    bins = build(us)
    return subprocess.run([bins[v["unit"]], "--tier", v.get("tier", "quick"), "--replay", v["scenario"] + ":" + ",".join(map(str, v["choices"]))] + (["--shared", ",".join(v["shared"])] if v.get("shared") else []) + us[0].get("args", [])).returncode

def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in a:
        i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    if a[0] == "check": sys.exit(check(a[1], tier))
    if a[0] == "build": build([u for p in (a[1:] or CHECKS) for u in CHECKS[p]["units"]]); sys.exit(0)
    if a[0] == "setup":
        for t in ("g++",):
            if not shutil.which(t): sys.exit("missing " + t)
        os.makedirs(EVID, exist_ok=True); sys.exit(0)
    if a[0] == "replay": sys.exit(replay(a[1]))
    sys.exit("unknown command")
main()
