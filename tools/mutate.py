#!/usr/bin/env python3
"""Try textual changes to a private copy of the sources against one check: mutate.py CHECK FILE  (FILE: python, defines MUTANTS = [(repo file, old, new, n-th occurrence or None)])."""
import os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
chk, spec = sys.argv[1:3]; ns = {}; exec(open(spec).read(), ns); only = [int(x) for x in sys.argv[3:]]
T = "/tmp/mutrepo." + chk; B = "/tmp/mutbuild." + chk
shutil.rmtree(T, ignore_errors=True); os.makedirs(T); 
for d in ("src", "tests"): shutil.copytree("/repo/" + d, T + "/" + d)
for i, (f, old, new, nth) in enumerate(ns["MUTANTS"]):
    if only and i not in only: continue
    s = open("/repo/" + f).read(); cnt = s.count(old)
    if nth is None and cnt != 1 or nth is not None and nth >= cnt: print(i, "NOT APPLICABLE: %d occurrences of %r" % (cnt, old)); continue
    p = -1
    for _ in range((nth or 0) + 1): p = s.index(old, p + 1)
    open(T + "/" + f, "w").write(s[:p] + new + s[p + len(old):])
    t = time.time()
    r = subprocess.run([sys.executable, V + "/run.py", "check", chk], env=dict(os.environ, EKAT_REPO=T, VERIF_BUILD=B), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    open(T + "/" + f, "w").write(s)
    keys = [l.strip()[:230] for l in r.stdout.split("\n") if l.startswith("  ") and "[" in l][:2]
    res = {0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR rc=%d" % r.returncode)
    print("%d %s line %d %r -> %r: %s (%.0f s)" % (i, f.split("/")[-1], s[:p].count("\n") + 1, old[:60], new[:60], res, time.time() - t))
    for k in keys: print("     " + k)
    if r.returncode not in (0, 1): print(r.stdout[-1500:])
    sys.stdout.flush()
shutil.rmtree(T, ignore_errors=True)
if not os.environ.get("KEEP"): shutil.rmtree(B, ignore_errors=True)
