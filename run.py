#!/usr/bin/env python3
"""Driver: builds a harness against /repo's working tree through an overlay,
runs it under instrumentation, judges the recorded verdicts, writes evidence.

  run.py C01 [--tier quick|thorough] [--replay FILE]

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: inconclusive / could not build / observed nothing.
"""
import sys, os, json, time, subprocess, tempfile, shutil, glob, hashlib, re, argparse
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS

NCPU = 8

def env_base():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GONOSUMDB="*", GONOSUMCHECK="1")
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    return e

def overlay(job, scratch, tag):
    """Overlay that hides the package's own tests and adds the harness."""
    pkgdir = os.path.join(REPO, job["pkg"])
    rep = {}
    for f in glob.glob(os.path.join(pkgdir, "*_test.go")):
        rep[f] = ""
    name = job["name"]
    srcs = ["lib/vlib.go"] + job["files"]
    for i, s in enumerate(srcs):
        txt = open(os.path.join(HERE, "harness", s)).read()
        txt = re.sub(r"^package VPKG\b", "package " + name, txt, count=1, flags=re.M)
        for k, v in job.get("subst", {}).items():
            txt = txt.replace(k, v)
        dst = os.path.join(scratch, "%s_%d_test.go" % (tag, i))
        open(dst, "w").write(txt)
        rep[os.path.join(pkgdir, "zz_verif_%d_test.go" % i)] = dst
    # in-package helper files that must be part of the non-test build
    for s in job.get("nontest", []):
        dst = os.path.join(scratch, tag + "_" + os.path.basename(s))
        shutil.copy(os.path.join(HERE, "harness", s), dst)
        rep[os.path.join(pkgdir, "zz_verif_" + os.path.basename(s))] = dst
    ov = os.path.join(scratch, tag + ".overlay.json")
    json.dump({"Replace": rep}, open(ov, "w"))
    return ov

def modcopy(scratch):
    dst = os.path.join(scratch, "go.mod")
    if not os.path.exists(dst):
        shutil.copy(os.path.join(REPO, "go.mod"), dst)
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(scratch, "go.sum"))
    return dst

def build(job, mode, scratch, tag):
    out = os.path.join(scratch, tag + ".bin")
    cmd = ["go", "test", "-c", "-vet=off", "-modfile=" + modcopy(scratch), "-overlay", overlay(job, scratch, tag), "-o", out]
    if mode == "race": cmd.append("-race")
    if mode == "asan": cmd.append("-asan")
    if mode == "checkptr": cmd += ["-gcflags=all=-d=checkptr"]
    cmd.append("./" + job["pkg"])
    p = subprocess.run(cmd, cwd=REPO, env=env_base(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=850)
    if p.returncode != 0 or not os.path.exists(out):
        return None, p.stdout
    return out, p.stdout

def build_main(pkg, out, scratch, race=False):
    cmd = ["go", "build", "-modfile=" + modcopy(scratch), "-o", out]
    if race: cmd.append("-race")
    cmd.append("./" + pkg)
    p = subprocess.run(cmd, cwd=REPO, env=env_base(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=850)
    return p.returncode == 0, p.stdout

def run_shard(binp, prop, tier, seed, shard, n, case, scratch, tag, job, mode, timeout):
    out = os.path.join(scratch, "%s.%d.jsonl" % (tag, shard))
    wd = os.path.join(scratch, "%s.%d.wd" % (tag, shard)); os.makedirs(wd, exist_ok=True)
    log = os.path.join(scratch, "%s.%d.log" % (tag, shard))
    e = env_base()
    e.update(VERIF_PROP=prop, VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_SHARD="%d/%d" % (shard, n),
             VERIF_OUT=out, VERIF_SCRATCH=wd, VERIF_MODE=mode, VERIF_REPODIR=REPO, VERIF_BIN=job.get("_mainbin", ""))
    if case: e["VERIF_CASE"] = case
    if mode == "race": e["GORACE"] = "halt_on_error=1 exitcode=66"
    e.update(job.get("env", {}))
    with open(log, "w") as lf:
        try:
            p = subprocess.Popen([binp, "-test.run", "^TestVerif", "-test.timeout", "0"], cwd=wd, env=e, stdout=lf, stderr=lf, start_new_session=True)
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9); p.wait(); rc = "timeout"
    recs = []
    try:
        for l in open(out):
            try: recs.append(json.loads(l))
            except Exception: pass
    except FileNotFoundError:
        pass
    txt = open(log, errors="replace").read()
    return dict(rc=rc, recs=recs, log=txt, tag=tag, mode=mode, shard=shard, pkg=job["pkg"], job=job["id"], exit_is_violation=job.get("exit_is_violation"))

def judge(res):
    """-> (violations, inconclusive, done) for one shard run"""
    viols, inc, done = [], None, None
    last = None
    for r in res["recs"]:
        if r["t"] == "begin": last = r["case"]
        elif r["t"] == "viol": viols.append(dict(case=r["case"], msg=r["msg"], stack=r.get("stack", ""), job=res["job"], mode=res["mode"]))
        elif r["t"] == "inconclusive": inc = r["msg"]
        elif r["t"] == "done": done = r
    log = res["log"]
    if "WARNING: DATA RACE" in log:
        i = log.index("WARNING: DATA RACE")
        viols.append(dict(case=last, msg="data race reported by the race detector", stack=log[i:i + 6000], job=res["job"], mode=res["mode"]))
    elif "ERROR: AddressSanitizer" in log:
        i = log.index("ERROR: AddressSanitizer")
        viols.append(dict(case=last, msg="address sanitizer report", stack=log[i:i + 4000], job=res["job"], mode=res["mode"]))
    elif done is None and not viols:
        m = re.search(r"^(panic: .*|fatal error: .*)$", log, re.M)
        if m and res["rc"] not in ("timeout", -9):
            if re.search(r"out of memory|cannot allocate|pthread_create|failed to create new OS thread", m.group(0)):
                inc = m.group(0)
            else:
                viols.append(dict(case=last, msg="process crashed: " + m.group(1), stack=log[m.start():m.start() + 6000], job=res["job"], mode=res["mode"]))
        elif res.get("exit_is_violation") and last and not any(r["t"] == "inconclusive" for r in res["recs"]) and res["rc"] in (0, 1, 2) :
            viols.append(dict(case=last, msg="the code under test ended the process", stack=log[-3000:], job=res["job"], mode=res["mode"]))
        else:
            inc = "harness ended with %r and no verdict (last case %s): %s" % (res["rc"], last, log[-2000:])
    return viols, inc, done

def known_findings():
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", l.strip())
            if m: res.append(m.groups())
    return res

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay"); ap.add_argument("--job"); ap.add_argument("--case"); ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    prop = a.prop; tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    case = a.case; onlyjob = a.job
    if a.replay:
        r = json.load(open(a.replay)); seed = r["seed"]; case = r.get("case"); tier = r["tier"]; onlyjob = r.get("job")
    spec = CHECKS[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % prop)
    code = 2
    try:
        code = run_check(prop, spec, tier, seed, case, onlyjob, scratch, t0, a)
    finally:
        if not a.keep: shutil.rmtree(scratch, ignore_errors=True)
        else: print("scratch", scratch)
    sys.stdout.flush()
    sys.exit(code)

def run_check(prop, spec, tier, seed, case, onlyjob, scratch, t0, a):
    jobs = []
    for i, j in enumerate(spec["jobs"]):
        for mode in j.get("modes", ["plain"]):
            if tier == "quick" and mode in j.get("thorough_modes", []): continue
            jj = dict(j); jj["id"] = "%d.%s" % (i, mode); jj["mode"] = mode
            if onlyjob and jj["id"] != onlyjob: continue
            jobs.append(jj)
    builds = {}
    def dobuild(j):
        tag = "j" + j["id"].replace(".", "_")
        if j.get("mainpkg"):
            mb = os.path.join(scratch, tag + ".main")
            ok, o = build_main(j["mainpkg"], mb, scratch, race=(j["mode"] == "race"))
            if not ok: return j, None, o
            j["_mainbin"] = mb
        b, o = build(j, j["mode"], scratch, tag)
        return j, b, o
    modcopy(scratch)
    with ThreadPoolExecutor(4) as ex:
        for j, b, o in ex.map(dobuild, jobs):
            if b is None:
                print("INCONCLUSIVE property=%s: harness does not build against this tree (%s)\n%s" % (prop, j["pkg"], o[-4000:]))
                return 2
            builds[j["id"]] = b
    tasks = []
    for j in jobs:
        n = 1 if case else (j.get("shards", 8))
        for s in range(n): tasks.append((j, s, n))
    timeout = 780 if tier == "quick" else 6 * 3600
    def go(t):
        j, s, n = t
        return run_shard(builds[j["id"]], prop, tier, seed, s, n, case, scratch, "j" + j["id"].replace(".", "_"), j, j["mode"], timeout)
    width = min([NCPU] + [j.get("width", NCPU) for j in jobs])
    results = []
    with ThreadPoolExecutor(width) as ex:
        results = list(ex.map(go, tasks))
    viols, incs = [], []
    evals = 0; distinct = set(); counters = {}; samples = []
    for r in results:
        v, inc, done = judge(r)
        viols += v
        if inc: incs.append(inc)
        if done:
            evals += done["evals"]; distinct |= {r["job"].split(".")[0] + x for x in done["distinct"] or []}
            for k, x in (done["counters"] or {}).items():
                counters[k] = max(counters.get(k, 0), x) if k.startswith("max_") else counters.get(k, 0) + x
            samples += (done["samples"] or [])
    kf = [k for k in known_findings() if k[0] == prop]
    unknown, knownhit = [], []
    for v in viols:
        hit = [k for k in kf if k[1] == v["case"]]
        (knownhit if hit else unknown).append((v, hit))
    wall = time.time() - t0
    rule = spec["rule"]
    samples = samples[:12] or ["(none)"]
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", wall_s=round(wall, 2), violations=len(unknown),
              coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=rule, samples=samples, observed=counters,
                            builds=sorted({"%s[%s]" % (j["pkg"], j["mode"]) for j in jobs})),
              assumptions=spec.get("assumptions", []))
    if not case and not onlyjob:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for v, h in knownhit:
        print("KNOWN-FINDING: property=%s %s" % (prop, h[0][2]))
    if unknown:
        v = unknown[0][0]
        rd = os.path.join(HERE, "replays"); os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s-%s.json" % (prop, hashlib.sha1(("%s|%s" % (v["case"], v["job"])).encode()).hexdigest()[:10]))
        json.dump(dict(property=prop, seed=seed, tier=tier, case=v["case"], job=v["job"], message=v["msg"], stack=v["stack"],
                       replay_cmd="python3 %s/run.py %s --replay %s" % (HERE, prop, rp)), open(rp, "w"), indent=1)
        for x, _ in unknown[:4]:
            print("violated: case=%s [%s]: %s" % (x["case"], x["job"], x["msg"][:1500]))
            if x["stack"]: print("   " + x["stack"][:1200].replace("\n", "\n   "))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    if incs:
        print("INCONCLUSIVE property=%s: %s" % (prop, incs[0][-3000:]))
        return 2
    if not case:
        missing = [k for k in spec.get("require", []) if counters.get(k, 0) <= 0]
        if missing or evals == 0:
            print("INCONCLUSIVE property=%s: workload never observed %s" % (prop, missing))
            return 2
    print("ok property=%s evaluations=%d distinct=%d wall=%.1fs observed=%s" % (prop, evals, len(distinct), wall, json.dumps(counters)))
    return 0

main()
