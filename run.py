#!/usr/bin/env python3
"""Build and run the checks.

  run.py setup                 build everything (a cache only: every check also builds what it needs)
  run.py check C01 [--tier quick|thorough]
  run.py replay FILE           re-run one recorded violation and print its trace
  run.py list
"""
import concurrent.futures, fnmatch, glob, hashlib, json, os, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("EKAT_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, VERIF)
import checks as cfg

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def fhash(path, memo={}):
    if path not in memo:
        try:
            with open(path, "rb") as f: memo[path] = hashlib.sha256(f.read()).hexdigest()
        except OSError: memo[path] = "missing"
    return memo[path]

class BuildError(Exception): pass

def subst(x):
    return x.replace("@REPO@", REPO).replace("@VERIF@", VERIF).replace("@BUILD@", BUILD)

# ---------------------------------------------------------------- Kokkos headers
def kokkos_tree():
    """Copy of the installed Kokkos headers, adjusted by mc/kokkos_patch.py (see DESIGN.md)."""
    dst = os.path.join(BUILD, "kokkos")
    stamp = os.path.join(dst, ".stamp")
    want = fhash(os.path.join(VERIF, "mc", "kokkos_patch.py"))
    if os.path.exists(stamp) and open(stamp).read() == want: return
    r = sh([sys.executable, os.path.join(VERIF, "mc", "kokkos_patch.py"), dst])
    if r.returncode: raise BuildError("kokkos headers: " + r.stdout)
    with open(stamp, "w") as f: f.write(want)

# ---------------------------------------------------------------- objects
def deps_of(dfile):
    try: txt = open(dfile).read()
    except OSError: return None
    txt = txt.replace("\\\n", " ")
    out = []
    for line in txt.split("\n"):
        if ":" in line: out += line.split(":", 1)[1].split()
    return [d for d in out if d.startswith((REPO, VERIF)) or BUILD in d]

def compile_obj(src, flags):
    src = subst(src); flags = [subst(f) for f in flags]
    tag = hashlib.sha256(("\0".join([src] + flags)).encode()).hexdigest()[:16]
    obj = os.path.join(BUILD, "obj", os.path.basename(src) + "." + tag + ".o")
    dfile, sfile = obj + ".d", obj + ".sig"
    def sig():
        d = deps_of(dfile)
        if d is None: return None
        return hashlib.sha256("\0".join(x + fhash(x) for x in sorted(set(d + [src]))).encode()).hexdigest()
    if os.path.exists(obj) and os.path.exists(sfile):
        if open(sfile).read() == sig(): return obj
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    r = sh(["g++", "-std=gnu++17", "-MD", "-MF", dfile] + flags + ["-c", src, "-o", obj])
    if r.returncode:
        for f in (obj, sfile):
            if os.path.exists(f): os.unlink(f)
        raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-6000:]))
    with open(sfile, "w") as f: f.write(sig())
    return obj

def build_units(units, jobs=8):
    """units: list of dicts (see checks.py). Returns {unit name: exe}."""
    if any(u.get("kokkos") for u in units): kokkos_tree()
    work = {}
    for u in units:
        for s in u["srcs"]:
            fl = u["flags"] + (u.get("own_flags", {}).get(s, []))
            if s in u.get("plain", {}): fl = u["plain"][s]
            work[(s, tuple(fl))] = None
    # longest first
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        futs = {ex.submit(compile_obj, s, list(f)): (s, f) for (s, f) in work}
        for fu in concurrent.futures.as_completed(futs): work[futs[fu]] = fu.result()
    exes = {}
    for u in units:
        objs = []
        for s in u["srcs"]:
            fl = u["flags"] + (u.get("own_flags", {}).get(s, []))
            if s in u.get("plain", {}): fl = u["plain"][s]
            objs.append(work[(s, tuple(fl))])
        link = [subst(x) for x in u["link"]]
        key = hashlib.sha256("\0".join([fhash_fresh(o) for o in objs] + link).encode()).hexdigest()[:16]
        exe = os.path.join(BUILD, "bin", u["name"])
        if not (os.path.exists(exe) and os.path.exists(exe + ".key") and open(exe + ".key").read() == key):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            r = sh(["g++"] + objs + link + ["-o", exe])
            if r.returncode and "undefined reference" in r.stdout: # code that moved to another source file of EKAT
                r = sh(["g++"] + objs + other_sources(u) + link + ["-o", exe])
            if r.returncode: raise BuildError("linking %s failed:\n%s" % (u["name"], r.stdout[-6000:]))
            with open(exe + ".key", "w") as f: f.write(key)
        exes[u["name"]] = exe
    return exes

def other_sources(u):
    """An archive with the sources of EKAT that the unit does not list, compiled with the unit's flags: used only if it does not link without."""
    listed = {os.path.realpath(subst(s)) for s in u["srcs"]}; objs = []
    skip = "ekat_comm_serial.cpp" if any("EKAT_ENABLE_MPI" in f for f in u["flags"]) else "ekat_comm.cpp"
    for s in sorted(glob.glob(os.path.join(REPO, "src", "*", "*.cpp"))):
        if os.path.realpath(s) in listed or os.path.basename(s) in (skip, "ekat_catch_main.cpp"): continue
        try: objs.append(compile_obj(s, u["flags"]))
        except BuildError: pass
    if not objs: return []
    lib = os.path.join(BUILD, "obj", u["name"] + ".rest.a")
    if os.path.exists(lib): os.unlink(lib)
    return [lib] if sh(["ar", "rcs", lib] + objs).returncode == 0 else []

def fhash_fresh(p):
    with open(p, "rb") as f: return hashlib.sha256(f.read()).hexdigest()

# ---------------------------------------------------------------- known findings
def known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path): return []
    return [k for k in json.load(open(path)).get("findings", []) if k["property"] == pid]

def unit_env(u):
    e = dict(os.environ)
    e.update({"OMP_NUM_THREADS": "1", "OMP_PROC_BIND": "false", "OMP_PLACES": "threads", "ASAN_OPTIONS": "hard_rss_limit_mb=3000:detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0",
              "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1:exitcode=98",
              "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1", "OMPI_MCA_btl": "self,vader",
              "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMPI_MCA_pml": "ob1", "OMPI_MCA_plm_rsh_agent": "/bin/false",
              "OMPI_MCA_oob_tcp_if_include": "lo", "OMPI_MCA_hwloc_base_binding_policy": "none"})
    e.update(u.get("env", {}))
    return e

def run_unit(u, exe, tier, scratch, workers):
    out = os.path.join(scratch, u["name"] + ".json")
    cmd = [exe, "--tier", tier, "--workers", str(workers), "--out", out, "--time", str(u.get("time", {}).get(tier, 600 if tier == "quick" else 7200)), "--hang", str(u.get("hang", 100))] + u.get("args", [])
    r = sh(cmd, cwd=scratch, env=unit_env(u))
    if not os.path.exists(out): return None, "exit %s\n%s" % (r.returncode, r.stdout[-4000:])
    return json.load(open(out)), r.stdout

def replay_unit(u, exe, v, scratch, timeout=300):
    spec = v["scenario"] + ":" + ",".join(map(str, v["choices"]))
    tier = v.get("tier", "quick")
    try: r = sh([exe, "--tier", tier, "--replay", spec] + u.get("args", []), cwd=scratch, env=unit_env(u), timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return "hang", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
    if r.returncode == 3: return "diverged", r.stdout
    keys = []
    for line in r.stdout.split("\n"):
        if line.startswith("REPLAY-VIOLATION\t"): keys.append(json.loads(line.split("\t")[1]))
    if keys: return keys, r.stdout
    if r.returncode not in (0, 1): return "crash", r.stdout
    return [], r.stdout

def check(pid, tier):
    t0 = time.time()
    c = cfg.CHECKS[pid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    scratch = os.path.join(BUILD, "scratch", pid + "." + str(os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    vdir = os.path.join(BUILD, "violations"); os.makedirs(vdir, exist_ok=True)
    try:
        units = [u for u in c["units"] if tier == "thorough" or not u.get("thorough_only")]
        exes = build_units(units)
        t_build = time.time() - t0
        errors, viols, scen = [], [], []
        for u in units:
            res, log = run_unit(u, exes[u["name"]], tier, scratch, c.get("workers", 8))
            if res is None: errors.append("%s gave no result: %s" % (u["name"], log)); continue
            for s in res["scenarios"]: s["unit"] = u["name"]; scen.append(s)
            for d in res["diverged"]: errors.append("%s: replay diverged: %s" % (u["name"], d))
            for v in res["violations"]: v["unit"] = u["name"]; v["tier"] = tier; viols.append((u, v))
            if os.environ.get("MC_STOP") and viols: break   # mutation runs
        kf = known(pid); hit_known, real = {}, []
        for u, v in viols:
            m = [k for k in kf if k.get("status", "known") == "known" and fnmatch.fnmatchcase(v["key"], k["key"]) and fnmatch.fnmatchcase(v["unit"] + "/" + v["scenario"], k.get("where", "*"))]
            if m: hit_known.setdefault(json.dumps(m[0], sort_keys=True), []).append(v)
            else: real.append((u, v))
        # replay before reporting
        confirmed = []
        for i, (u, v) in enumerate(real):
            if len(confirmed) >= 5 or (confirmed and time.time() - t0 > 240): break
            got, log = replay_unit(u, exes[v["unit"]], v, scratch, u.get("hang", 100) + 20)
            ok = (got == v["key"]) if isinstance(got, str) else (v["key"] in got)
            if got in ("crash", "hang") and v["key"] in ("crash", "hang"): ok = True
            if v["key"] == "crash" and isinstance(got, list) and got: ok = True
            if not ok:
                errors.append("violation %s/%s %s did not replay (got %s): %s" % (v["unit"], v["scenario"], v["key"], got, log[-2000:])); continue
            path = os.path.join(vdir, "%s.%d.json" % (pid, len(confirmed)))
            with open(path, "w") as f: json.dump({"property": pid, "unit": v["unit"], "scenario": v["scenario"], "choices": v["choices"], "key": v["key"], "msg": v["msg"], "tier": tier, "trace": log.split("\n")[:400]}, f, indent=1)
            confirmed.append((path, v))
        for k, vs in hit_known.items():
            print("KNOWN-FINDING: property=%s %s" % (pid, json.loads(k)["what"]))
        tot = lambda k: sum(s[k] for s in scen)
        samples = []
        for s in scen[:12]:
            for ch in s["samples"][:1]:
                u = [x for x in units if x["name"] == s["unit"]][0]
                try:
                    got, log = replay_unit(u, exes[s["unit"]], {"scenario": s["name"], "choices": ch, "tier": tier}, scratch, 60)
                    samples.append({"scenario": s["unit"] + "/" + s["name"], "choices": ch, "trace": [l.strip() for l in log.split("\n") if l.strip()][:25]})
                except Exception as e: samples.append({"scenario": s["unit"] + "/" + s["name"], "choices": ch})
        cov = {"states": tot("states"), "transitions": tot("transitions"), "traces_validated_against_impl": tot("executions"),
               "evaluations": tot("executions"), "distinct_nontrivial": tot("outcomes"),
               "rule": "an execution is one complete choice sequence run on the real code; distinct_nontrivial counts distinct observed outcomes (hash of what the code produced)",
               "checks": tot("checks"), "exhaustive": all(s["complete"] for s in scen) and not errors,
               "samples": samples, "scenarios": [{k: s[k] for k in ("unit", "name", "bounds", "executions", "transitions", "states", "outcomes", "checks", "pruned", "max_depth", "complete", "violating_executions")} for s in scen],
               "traces_note": "every explored execution is an execution of the compiled code under /repo, compared step by step with the reference model; traces_validated_against_impl is that number"}
        ev = {"property": pid, "tier": tier, "seed": seed, "level": c["level"], "coverage": cov, "assumptions": c.get("assumptions", []),
              "wall_s": round(time.time() - t0, 2), "violations": len(confirmed), "build_s": round(t_build, 2), "known_findings_hit": len(hit_known)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        print("%s %s: %d executions, %d transitions, %d states, %d distinct outcomes, %d checks, complete=%s, build %.1fs, wall %.1fs" % (pid, tier, cov["evaluations"], cov["transitions"], cov["states"], cov["distinct_nontrivial"], cov["checks"], cov["exhaustive"], t_build, time.time() - t0))
        for e in errors: print("ERROR: " + e, file=sys.stderr)
        if confirmed:
            for path, v in confirmed:
                print("  %s/%s [%s]: %s" % (v["unit"], v["scenario"], v["key"], v["msg"][:600]))
                print("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        return 2 if errors else 0
    except BuildError as e:
        print("BUILD ERROR (no verdict): " + str(e), file=sys.stderr)
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def main():
    a = sys.argv[1:]
    if a and a[0] == "list":
        for p, c in cfg.CHECKS.items(): print(p, [u["name"] for u in c["units"]])
        return 0
    if a and a[0] == "setup":
        units = {}
        for c in cfg.CHECKS.values():
            for u in c["units"]:
                if not u.get("thorough_only"): units[u["name"]] = u
        try: build_units(list(units.values()))
        except BuildError as e: print(e, file=sys.stderr); return 1
        return 0
    if a and a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a: tier = a[a.index("--tier") + 1]
        return check(a[1], tier)
    if a and a[0] == "replay":
        v = json.load(open(a[1])); c = cfg.CHECKS[v["property"]]
        u = [x for x in c["units"] if x["name"] == v["unit"]][0]
        exe = build_units([u])[u["name"]]
        got, log = replay_unit(u, exe, v, "/tmp")
        print(log); print("result:", got)
        return 1 if got else 0
    print(__doc__); return 2

if __name__ == "__main__": sys.exit(main())
