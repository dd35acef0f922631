#!/usr/bin/env python3
"""Writes seeded/<id>/ from a spec file (python: SEEDS list of dicts id, prop, edits, pkg, demo, needs, breaks)."""
import sys, os, difflib, json, runpy, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# Runs demo_test.go.txt inside the package %(pkg)s of the repository in the current directory.
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/bin:/bin GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
python3 - "$R" "$D" "$T" <<'P'
import sys, glob, json
r, d, t = sys.argv[1:]
rep = {f: "" for f in glob.glob(r + "/%(pkg)s/*_test.go")}
rep[r + "/%(pkg)s/zz_demo_test.go"] = d + "/demo_test.go.txt"
json.dump({"Replace": rep}, open(t + "/o.json", "w"))
P
cd "$R" && go test -vet=off -count=1 -timeout 120s %(flags)s -overlay "$T/o.json" -run '^TestDemo$' ./%(pkg)s
'''
only = sys.argv[2:]
for s in runpy.run_path(sys.argv[1])["SEEDS"]:
    if only and s["id"] not in only: continue
    d = os.path.join(H, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
    patch = ""; files = {}
    for f, old, new in s["edits"]:
        t = files.setdefault(f, [open("/repo/" + f).read()] * 2)
        if t[1].count(old) != 1: sys.exit("%s: %s occurs %d times: %r" % (s["id"], f, t[1].count(old), old))
        files[f] = [t[0], t[1].replace(old, new)]
    for f, (a, b) in files.items():
        patch += "diff --git a/%s b/%s\n" % (f, f)
        for l in difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f):
            patch += l if l.endswith("\n") else l + "\n\\ No newline at end of file\n"
    open(d + "/patch.diff", "w").write(patch)
    if "script" in s:
        open(d + "/demo.sh", "w").write(s["script"])
    else:
        open(d + "/demo.sh", "w").write(SH % dict(pkg=s["pkg"], flags=s.get("flags", "")))
        open(d + "/demo_test.go.txt", "w").write(s["demo"])
    for fn, txt in s.get("files", {}).items(): open(d + "/" + fn, "w").write(txt)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", s["id"])
