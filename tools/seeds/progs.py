B, NM, NT, NY, SM, ST, SF, SX = "benchmark/main.go", "newsim/main.go", "newsim/topology.go", "newsim/types.go", "simulator/main.go", "simulator/topology.go", "simulator/filter.go", "simulator/transaction.go"
ML, MO, MT = "microbenchmarks/lossy/main.go", "microbenchmarks/overlap/main.go", "microbenchmarks/twosenders/main.go"
S = []
SH = '''#!/bin/bash
# Builds and runs programs of the repository in the current directory, in a scratch directory.
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/bin:/bin GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
%(build)s
cd "$T" && python3 "$D/demo.py"
'''
def seed(id, prop, edits, py, needs, breaks, pkgs):
    build = "\n".join('go build -o "$T/%s" ./%s || exit 3' % (p.split("/")[-1], p) for p in pkgs)
    S.append(dict(id=id, prop=prop, edits=edits, script=SH % dict(build=build), files={"demo.py": PRE + py}, needs=needs, breaks=breaks))

PRE = '''import subprocess, sys, re
def run(*a):
    p = subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode: sys.exit("%s: %s" % (a, p.stderr[-2000:]))
    return p.stdout
def fig(out, name):
    for l in out.splitlines():
        if l.startswith("# " + name + " ["): return [float(x) for x in l[l.index("[") + 1:-1].split()]
    sys.exit("no " + name)
def topo(name, links):
    open(name, "w").write("".join("%d,%d,%d\\n" % l for l in links))
'''

seed("c37-attempts-in-batches", "C37",
  [(B, "				dec.TryDecode()\n				if dec.Decoded() {", "				if *diff >= 400 && ncw%8 != 0 {\n					continue\n				}\n				dec.TryDecode()\n				if dec.Decoded() {")],
'''# the average of so few tests is a multiple of 8 only if attempts are made every 8 coded symbols
bad = 0
for k in range(12):
    v = float(run("./benchmark", "-d", "400", "-s", "200", "-n", "1").split()[2].rstrip(","))
    bad += v % 8 == 0
if bad == 12: sys.exit("twelve times a multiple of 8")
''', "at least 400 differences", "the reported number of coded symbols is rounded up to a multiple of 8", ["benchmark"])
seed("c37-integer-average", "C37",
  [(B, "float64(totalCw)/float64(*test), float64(totalCw)/float64(*test)/float64(*diff)", "float64(totalCw / *test), float64(totalCw / *test)/float64(*diff)")],
'''vals = [run("./benchmark", "-d", "4", "-s", "10", "-n", "300").split()[2].rstrip(",") for k in range(5)]
if all(v.endswith(".00") for v in vals): sys.exit("averages %s" % vals)
''', "any number of tests above one, most visible with few differences", "the average is truncated to an integer", ["benchmark"])
seed("c37-common-part-capped", "C37",
  [(B, "			for i := 0; i < ncommon; i++ {\n				codewords.AddSymbol", "			for i := 0; i < ncommon && i < 10*(*diff+1); i++ {\n				codewords.AddSymbol")],
'''def rate(s, n): return max(float(run("./benchmark", "-d", "20", "-s", str(s), "-n", "50").split()[6]) for k in range(n))
a, b = rate(220, 5), rate(40000, 1)
if b > a / 10: sys.exit("encoding rate %f for 220, %f for 40000" % (a, b))
''', "a set much larger than the difference", "only part of the common symbols is encoded, so the encoding rate is too good", ["benchmark"])

seed("c38-delay-capped", "C38",
  [(NT, "			res = append(res, connection{a, b, time.Duration(d) * time.Millisecond})", "			if d > 100 {\n				d = 100\n			}\n			res = append(res, connection{a, b, time.Duration(d) * time.Millisecond})")],
'''topo("t", [(0, 1, 300), (1, 2, 300), (0, 2, 300)])
o = run("./newsim", "-topo", "t", "-dur", "12s", "-w", "2s", "-s", "2", "-a", "pull")
if fig(o, "latency p5")[2] < 0.85: sys.exit("announcement, request and response over 300 ms each take %s" % fig(o, "latency p5"))
''', "a link with a delay of more than 100 ms", "the topology's delay is not used", ["newsim"])
seed("c38-warmup-boundary", "C38",
  [(NM, "		if cur > *warmupDuration {", "		if cur >= *warmupDuration {")],
'''topo("t", [(0, 1, 10), (1, 2, 10), (0, 2, 10)])
o = run("./newsim", "-topo", "t", "-dur", "6s", "-w", "3s", "-s", "1", "-txgen", "200")
p = run("./newsim", "-topo", "t", "-dur", "6s", "-w", "3001ms", "-s", "1", "-txgen", "200")
# both count from the fourth second on
a, b = fig(o, "received transaction rate")[0], fig(p, "received transaction rate")[0]
if abs(a - b) > 0.1 * b: sys.exit("rates %f and %f" % (a, b))
''', "a warm-up that is a whole number of report intervals", "one report interval too many is counted", ["newsim"])
seed("c38-latency-by-origin", "C38",
  [(NY, "	if t.warmup > tp {\n		return\n	}\n	latency := ", "	if t.warmup > tx.ts {\n		return\n	}\n	latency := ")],
'''topo("t", [(0, 1, 2000), (1, 2, 2000)])
o = run("./newsim", "-topo", "t", "-dur", "21s", "-w", "14s", "-s", "1", "-a", "pull", "-txgen", "20")
# transactions crossing both links (12 s) were all generated before the end of the warm-up
if fig(o, "latency p95")[6] < 11: sys.exit("latencies %s" % fig(o, "latency p95"))
''', "transactions generated before and obtained after the end of the warm-up", "their latencies are left out", ["newsim"])
seed("c38-zero-nodes-left-out", "C38",
  [(NM, "		s.Xs = append(s.Xs, metric(server))", "		if v := metric(server); v != 0 {\n			s.Xs = append(s.Xs, v)\n		}")],
'''# with flooding only the middle of this line can be given a transaction twice; its ends never are
topo("t", [(0, 1, 10), (1, 2, 10), (2, 3, 10), (3, 1, 10)])
o = run("./newsim", "-topo", "t", "-dur", "12s", "-w", "2s", "-a", "pull", "-flood")
d = fig(o, "duplicate transaction rate")
if d[2] != 0: sys.exit("duplicate rates %s, node 0 has a single link and receives nothing twice" % d)
''', "a node whose figure is zero, such as one without duplicates", "it is left out of mean and percentiles", ["newsim"])
seed("c38-rate-per-report", "C38",
  [(SM, "float64(receivedCodewordRate.get()) / (*reportInterval).Seconds())", "float64(receivedCodewordRate.get()) / float64(int64((*reportInterval+time.Second-1)/time.Second)))")],
'''topo("t", [(0, 1, 10), (1, 2, 10), (0, 2, 10)])
def mean(r):
    o = run("./simulator", "-topo", "t", "-dur", "12s", "-w", "2s", "-txgen", "100", "-r", r)
    v = [float(l.split()[1]) for l in o.splitlines() if not l.startswith("#")]
    return sum(v) / len(v)
a, b = mean("1s"), mean("250ms")
if not 0.5 * a < b < 2 * a: sys.exit("mean rate %f with reports every second, %f with four a second" % (a, b))
''', "a report interval that is not a whole number of seconds", "the rate is not per second", ["simulator"])
seed("c38-overlap-file-clash", "C38",
  [(SM, 'filename := fmt.Sprintf("%s-overlap-%d.csv", *logPrefix, i)', 'filename := fmt.Sprintf("%s-overlap-%.1s.csv", *logPrefix, fmt.Sprint(i))')],
'''topo("t", [(i, (i + 1) % 12, 10) for i in range(12)])
run("./simulator", "-topo", "t", "-dur", "6s", "-w", "2s", "-txgen", "30", "-prefix", "p")
import os
for i in range(12):
    if not os.path.exists("p-overlap-%d.csv" % i): sys.exit("no file for node %d" % i)
''', "more than ten nodes", "nodes share a file and overwrite each other's", ["simulator"])
seed("c38-link-taken-for-repeat", "C38",
  [(ST, "	for s.Scan() {\n		var a, b, d int\n		n, err := fmt.Sscanf(s.Text(), \"%d,%d,%d\", &a, &b, &d)", "	line := \"\"\n	for s.Scan() {\n		var a, b, d int\n		line = s.Text()\n		n, err := fmt.Sscanf(line, \"%d,%d,%d\", &a, &b, &d)"),
   (ST, "			res = append(res, connection{a, b, time.Duration(d) * time.Millisecond})\n", "			for _, c := range res {\n				if c.a == a && c.delay == time.Duration(d)*time.Millisecond || c.b == b && c.a > b {\n					n++\n					break\n				}\n			}\n			if n > 3 && a > b {\n				continue\n			}\n			res = append(res, connection{a, b, time.Duration(d) * time.Millisecond})\n")],
'''topo("t", [(3, 0, 20), (3, 1, 20), (3, 2, 20), (0, 1, 30), (1, 2, 30), (0, 2, 30)])
o = run("./simulator", "-topo", "t", "-dur", "6s", "-w", "2s", "-txgen", "30")
if "# node 0 num peers 3" not in o: sys.exit(o[:200])
topo("t", [(3, 2, 20), (0, 1, 30), (1, 2, 30), (0, 2, 30), (3, 0, 20)])
o = run("./simulator", "-topo", "t", "-dur", "6s", "-w", "2s", "-txgen", "30")
if "# node 0 num peers 3" not in o: sys.exit(o[:200])
''', "two links of one node with the same delay, written with the larger index first", "a link of the topology is taken for a repetition and left out", ["simulator"])

seed("c39-half-is-enough", "C39",
  [(ML, "if decoded > int(float64(len(stubs)) * 0.5) {", "if decoded >= int(float64(len(stubs)) * 0.5) {")],
'''o = [l.split() for l in run("./lossy").splitlines() if not l.startswith("#")]
if o[0][1:] != ["125", "130", "12"] or o[3][1] != "110": sys.exit("rows %s and %s" % (o[0], o[3]))
''', "an even number of codewords of which exactly half are decoded", "the threshold counts as passed too early", ["microbenchmarks/lossy"])
seed("c39-fewer-runs", "C39",
  [(MO, "SimulateOneSenderOverlap(100, 200, 200-fresh)", "SimulateOneSenderOverlap(100-fresh/4, 200, 200-fresh)")],
'''o = {int(l.split()[0]): int(l.split()[2]) for l in run("./overlap").splitlines() if not l.startswith("#")}
if (o[1], o[2], o[198], o[199]) != (22, 37, 237, 241): sys.exit("rows %s" % o)
''', "rows with many fresh transactions", "the average is over fewer runs", ["microbenchmarks/overlap"])
seed("c39-row-reused", "C39",
  [(MT, "	for sender1 := 0; sender1 < 400; sender1++ {\n		res := microbenchmarks.SimulateTwoSendersOverlap(100, 200, 100, sender1)\n", "	prev := -1\n	for sender1 := 0; sender1 < 400; sender1++ {\n		res := prev\n		if prev == -1 || sender1 < 300 || sender1%2 == 0 {\n			res = microbenchmarks.SimulateTwoSendersOverlap(100, 200, 100, sender1)\n		}\n		prev = res\n")],
'''o = {int(l.split()[0]): int(l.split()[1]) for l in run("./twosenders").splitlines() if not l.startswith("#")}
if (o[398], o[399]) != (575, 576): sys.exit("rows %s" % o)
''', "the later rows", "every second row repeats the row before", ["microbenchmarks/twosenders"])
SEEDS = S
