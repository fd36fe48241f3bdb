"""Helper for writing seeded/<id>/: from mkbug import mk, then mk(...). Makes patch.diff against /repo's HEAD from textual replacements."""
import difflib, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH_LIB = r'''#!/bin/bash
# exit 0: the property holds for the case below; nonzero: it does not. Run with cwd /repo after the build.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
M=/usr/lib/x86_64-linux-gnu/openmpi
FL="-std=gnu++17 -w -pthread -DOMPI_SKIP_MPICXX -DKOKKOS_ENABLE_CXX17 -DEKAT_DEFAULT_BFB -DEKAT_ENABLE_MPI -DEKAT_HAS_KOKKOS -DEKAT_MPI_ERRORS_ARE_FATAL -I$M/include"
for d in core kokkos pack algorithm expression logging parser; do FL="$FL -Isrc/$d"; done
'''
def mk(id, prop, edits, needs, what, sh, files):
    """edits: {repo file: [(old, new), ...]}; sh: body of demo.sh; files: {name: text}"""
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    out = ""
    for f, reps in edits.items():
        a = open("/repo/" + f).read(); b = a
        for old, new in reps:
            assert b.count(old) == 1, (id, f, b.count(old), old)
            b = b.replace(old, new)
        out += "diff --git a/%s b/%s\n" % (f, f) + "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(out)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.sh", "w").write(SH_LIB + sh); os.chmod(d + "/demo.sh", 0o755)
    for n, t in files.items(): open(d + "/" + n, "w").write(t)
