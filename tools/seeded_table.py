#!/usr/bin/env python3
"""Run each planted bug's check on a private copy of the sources with the change; print one Markdown row per bug: seeded_table.py [ID...]"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i in sys.argv[1:] or sorted(os.listdir(V + "/seeded")):
    T, B = "/tmp/seedrepo." + i, "/tmp/seedbuild." + i; m = json.load(open(V + "/seeded/%s/meta.json" % i)); shutil.rmtree(T, ignore_errors=True); os.makedirs(T)
    for d in ("src", "tests"): shutil.copytree("/repo/" + d, T + "/" + d)
    subprocess.run(["patch", "-s", "-p1", "-d", T, "-i", V + "/seeded/%s/patch.diff" % i], check=True)
    r = subprocess.run([sys.executable, V + "/run.py", "check", m["property"]], env=dict(os.environ, EKAT_REPO=T, VERIF_BUILD=B), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    keys = sorted({x.group(1) for l in r.stdout.split("\n") for x in [re.match(r"  \S+?/(\S+ \[\S+\]):", l)] if x})
    print("| `%s` | %s | %s | %s |" % (i, m["property"], m["needs"].split("\n")[0], ", ".join("`%s`" % k for k in keys[:3]) if r.returncode == 1 else "**not caught** (exit %d)" % r.returncode)); sys.stdout.flush()
    shutil.rmtree(T, ignore_errors=True); shutil.rmtree(B, ignore_errors=True)
