#!/usr/bin/env python3
"""plant.py ID [--prop Cxx ...] : verifies a planted bug in a scratch copy and runs its property's check there.
With --new DIR, first makes seeded/ID/patch.diff from the modified copy DIR."""
import sys, os, subprocess, shutil, json, tempfile, argparse, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser(); ap.add_argument("ids", nargs="+"); ap.add_argument("--nocheck", action="store_true"); ap.add_argument("--props", nargs="*")
a = ap.parse_args()
E = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod")
def sh(cmd, cwd, t=900, env=E):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return "timeout", str(e.stdout)[-500:]
def tests(d):
    rc, o = sh("go test -json -vet=off -count=1 ./iblt ./lt ./riblt ./benchmark", d)
    ok = set()
    for l in o.splitlines():
        try: j = json.loads(l)
        except Exception: continue
        if j.get("Action") == "pass" and j.get("Test"): ok.add(j["Package"] + "/" + j["Test"])
    st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [x for x in st if x not in ok]
bad = 0
for i in a.ids:
    S = os.path.join(H, "seeded", i)
    d = tempfile.mkdtemp(prefix="plant_"); r = d + "/repo"; dd = d + "/demo"
    msg = []
    try:
        sh("git -C /repo archive --prefix=repo/ HEAD | tar x -C " + d, "/")
        os.makedirs(dd)
        for f in os.listdir(S):
            if f not in ("meta.json", "patch.diff"): 
                (shutil.copytree if os.path.isdir(S+"/"+f) else shutil.copy)(os.path.join(S, f), dd + "/" + f)
        t=time.time(); rc, o = sh("bash %s/demo.sh" % dd, r, 300); t=time.time()-t
        if rc != 0: msg.append("demo fails on base: %s %s" % (rc, o[-800:]))
        if t > 150: msg.append("demo slow on base %.0fs" % t)
        rc, o = sh("git apply -p1 --directory= %s/patch.diff" % S, r) if False else sh("patch -p1 --no-backup-if-mismatch < %s/patch.diff" % S, r)
        if rc != 0: msg.append("patch: " + o)
        rc, o = sh("go build $(go list -e ./... | grep -vE '/experiments/overlap/(adv-censor|parallel|two-steps)$')", r)
        if rc != 0: msg.append("build: " + o[-800:])
        m = tests(r)
        if m: msg.append("tests fail: %s" % m)
        t=time.time(); rc, o = sh("bash %s/demo.sh" % dd, r, 300); t=time.time()-t
        if rc == 0: msg.append("demo passes with patch")
        if rc == "timeout" or t > 200: msg.append("demo slow with patch: %s" % t)
        meta = json.load(open(S + "/meta.json"))
        line = o.strip().splitlines()[-1][:100] if o.strip() else ""
        res = ""
        if not a.nocheck:
            for p in (a.props or [meta["property"]]):
                t=time.time()
                rc, o = sh("VERIF_REPO=%s python3 %s/run.py %s" % (r, H, p), H, 1000)
                res += " %s:%s(%.0fs)" % (p, {1: "CAUGHT", 0: "MISSED"}.get(rc, "INCONCLUSIVE %s" % rc), time.time()-t)
                v=[l for l in o.splitlines() if l.startswith("violated")]
                if v: res += " " + v[0][:220]
                if rc != 1: res += o[-600:]
        print("%s: %s |%s | demo: %s" % (i, "valid" if not msg else "INVALID " + "; ".join(msg), res, line), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
