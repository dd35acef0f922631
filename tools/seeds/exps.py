X = "experiments/"
S = []
SH = """#!/bin/bash
# Runs programs of the repository in the current directory, built in a scratch directory.
export PATH=/usr/local/bin:/usr/bin:/bin GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod HOME=${HOME:-/root}
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
go build -o "$T/prog" ./experiments/%s || exit 3
cd "$T" && python3 "$D/demo.py"
"""
PRE = """import subprocess, sys
def run(*a, tail=None):
    o = subprocess.run(["./prog"] + [str(x) for x in a], stdout=subprocess.PIPE, text=True, timeout=200, check=True).stdout
    return o.splitlines()
"""
def seed(id, prog, edits, py, needs, breaks):
    S.append(dict(id=id, prop="C42", edits=[(X + prog + "/main.go", a, b) for a, b in edits], script=SH % prog, files={"demo.py": PRE + py}, needs=needs, breaks=breaks))

seed("c42-failing-at-the-limit", "simple", [("if fail <= *m {", "if fail < *m || fail == 0 {")],
"""if run("-t", 5, "-k", 5, "-n", 0, "-m", 5) != ["fail rate 0.00"]: sys.exit("5 missing of 5 allowed")
""", "as many transactions missing as are allowed (more than none)", "tests with exactly m transactions missing count as failed")
seed("c42-tolerance-of-own", "overlap/analysis-exp", [("int(0.02*float64(T2+Tc))", "int(0.02*float64(T1+Tc))")],
"""v = float(run("-t1", 2000, "-t2", 40, "-tc", 0, "-k", 40, "-run", 100)[-1].split()[3])
w = float(run("-t1", 40, "-t2", 2000, "-tc", 0, "-k", 40, "-run", 100)[-1].split()[3])
if not 0.9 < v / w < 1.1: sys.exit("%s one way, %s the other" % (v, w))
""", "blocks of different sizes", "2% of the other sender's block may be missing from the second one")
seed("c42-loss-from-start", "controller", [("		if step > 100000 {\n			totLoss", "		if step > 1000 {\n			totLoss")],
"""o = run("-d", 0)
s = [float(l.split()[2]) for l in o if l[0] != "#"]
r = [float(l.split()[1]) for l in o if l[0] != "#"]
w = sum(a * b for a, b in zip(r[100:], s[100:])) / sum(r[100:])
g = float(o[-2].split()[-1])
if abs(g - w) > 0.02 * w: sys.exit("%s reported, %s by the reports" % (g, w))
""", "the losses of the first 100 s, while the rate settles", "the final loss rate includes losses from before the 100th second")
seed("c42-drop-one-in-n", "controller", [("				cvirt -= 1.0", "				cvirt = 0.0")],
"""v = float(run("-d", 0.6)[-1].split()[-1])
w = float(run("-d", 0.5)[-1].split()[-1])
if v < 1.1 * w: sys.exit("dropping 0.6: %s, dropping 0.5: %s" % (v, w))
""", "a drop rate whose inverse is not an integer", "the share of codewords dropped is rounded down to one in a whole number")
seed("c42-one-hop", "overlap/streams", [("			for _, t := range txs {\n				buf", "			if len(newtxs) > 0 || len(txs) > 3 {\n				txs = txs[:1]\n			}\n			for _, t := range txs {\n				buf")],
"""p = subprocess.Popen(["./prog"], stdout=subprocess.PIPE, text=True)
v = []
for l in p.stdout:
    if l[0] != "#": v.append([float(x) for x in l.split()])
    if len(v) == 60: break
p.kill()
a = sum(x[1] for x in v[20:]) / 40; b = sum(x[2] for x in v[20:]) / 40
if abs(a - 1.01) > 0.03 or abs(b - 0.375) > 0.03: sys.exit("rates settle at %s %s" % (a, b))
""", "more than three transactions decoded at once", "what one stream decodes is not always made known to the other")
seed("c42-head-start-forgotten", "windowed-lt", [("			d2.AddTransaction(txs[i+K+nc])\n", "			d2.AddTransaction(txs[nc-i])\n")],
"""p = subprocess.Popen(["./prog"], stdout=subprocess.PIPE, text=True)
for l in p.stdout:
    if l[0] != "#": break
p.kill()
if abs(float(l.split()[3]) - 1.96) > 0.025: sys.exit(l)
""", "the transactions following the stream are unknown to the receiver", "the stream's last window is judged with transactions the receiver does not know")
seed("c42-deviation-of-the-other", "windowed-lt", [("avg(windowTotalSq)-windowAvg*windowAvg", "avg(windowTotalSq)-normalAvg*windowAvg")],
"""p = subprocess.Popen(["./prog"], stdout=subprocess.PIPE, text=True)
for l in p.stdout:
    if l[0] != "#": break
p.kill()
if not 0.01 < float(l.split()[4]) < 0.2: sys.exit(l)
""", "different averages of blocks and windows", "the standard deviation for windows is taken around another average")
seed("c42-report-keeps-count", "new-controller", [("			windowCw = 0\n", "			if canMoveNow := d.nd == 0; !canMoveNow {\n				windowCw = 0\n			}\n")],
"""last, r0 = 0, 0.1
for l in run("-a", 0.2):
    if l[0] == "#": continue
    v = l.split(); r, loss, cw = float(v[1]), float(v[2]), int(v[3])
    if cw > last:
        n = loss * (cw - last)
        if abs(r - r0 - 0.2 / 1000 * (n - 0.02 * (cw - last))) > 1e-6: sys.exit(l)
    last, r0 = cw, r
""", "a report made just after an undecoded codeword", "the codewords of the previous second count in the loss reported")

SEEDS = S
