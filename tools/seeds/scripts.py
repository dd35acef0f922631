GN, GS, GT, PR, TR, ED, NC, NR = "newsim/gen_topo.py", "simulator/gen_topo.py", "testbed/gentopo.py", "testbed/process.py", "testbed/trace.py", "testbed/edges.py", "node/controller.go", "node/receiver.go"
S = []
SH = '''#!/bin/bash
# Runs scripts of the repository in the current directory, in a scratch directory.
export PATH=/usr/local/bin:/usr/bin:/bin
D=$(cd "$(dirname "$0")" && pwd); export R=$(pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cd "$T" && python3 "$D/demo.py"
'''
PRE = '''import subprocess, sys, os, json
R = os.environ["R"]
def run(s, *a, ok=True):
    p = subprocess.run(["python3-vt", "-B", R + "/" + s] + list(a), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if ok and p.returncode: sys.exit("%s: %s" % (a, p.stderr[-2000:]))
    return p.stdout
def log(name, lines):
    open(name, "w").write("".join("2022/03/01 10:00:%02d %s\\n" % l for l in lines))
WU = "since warm up tx=%d, p5_latency_ms=%.2f, p95_latency_ms=%.2f, p50_latency_ms=%.2f, mean_latency_ms=%.2f"
CW = "peer %s received cws %d last second delay ms median 1.0 p95 2.0 mean 1.5"
def key(p): return "key exchanged with peer %s, our key 00, peer key 01" % p
'''
def seed(id, prop, edits, py, needs, breaks, sh=SH):
    S.append(dict(id=id, prop=prop, edits=edits, script=sh, files={"demo.py": PRE + py}, needs=needs, breaks=breaks))

seed("c40-disconnected", "C40",
  [(GN, "    if networkx.is_connected(graph):\n        break", "    if args.topo == \"random\" or networkx.is_connected(graph):\n        break")],
'''open("t", "w").write("0,0,1\\n")
for k in range(25):
    adj = {i: set() for i in range(20)}
    for l in run("newsim/gen_topo.py", "20", "3", "--latency", "t", "--topo", "random").split():
        a, b, d = map(int, l.split(","))
        adj[a].add(b); adj[b].add(a)
    seen, q = {0}, [0]
    while q:
        for v in adj[q.pop()]:
            if v not in seen: seen.add(v); q.append(v)
    if len(seen) < 20: sys.exit("not connected")
''', "a random (not regular) graph, drawn disconnected", "the generator prints graphs that are not connected")
seed("c40-rounded", "C40",
  [(GN, "        l = int(latency[src][dst])", "        l = round(latency[src][dst])")],
'''open("t", "w").write("".join("%d,%d,%f,\\n" % (a, b, 10.75) for a in range(6) for b in range(6)))
for l in run("newsim/gen_topo.py", "6", "3", "--latency", "t").split():
    if not l.endswith(",10"): sys.exit(l)
''', "a latency whose fraction is above one half", "the delay is rounded up, not down")
seed("c40-direction", "C40",
  [(GS, "    if a <= b:", "    if b <= a:")],
'''open("t", "w").write("".join("%d,%d,%f,\\n" % (a, b, 10 if a < b else 99) for a in range(8) for b in range(8)))
for l in run("simulator/gen_topo.py", "8", "3", "--latency", "t").split():
    if not l.endswith(",10"): sys.exit(l)
''', "a latency table that is not symmetric", "the delay of the opposite direction is given")
seed("c40-degree-of-testbed", "C40",
  [(GT, "graph = networkx.generators.random_graphs.random_regular_graph(args.D, args.N)", "graph = networkx.generators.random_graphs.random_regular_graph(args.D, args.N) if args.N > args.D + 1 else networkx.cycle_graph(args.N)")],
'''if len(json.loads(run("testbed/gentopo.py", "6", "5"))["Topology"]) != 15: sys.exit("not the complete graph")
''', "a full mesh: degree one less than the number of nodes", "a ring is generated in place of the full mesh")
seed("c40-silently-disconnected", "C40",
  [(GT, 'print("diameter:", networkx.diameter(graph), file=sys.stderr)', 'print("diameter:", max(networkx.diameter(graph.subgraph(c)) for c in networkx.connected_components(graph)), file=sys.stderr)')],
'''for k in range(30):
    p = subprocess.run(["python3-vt", "-B", R + "/testbed/gentopo.py", "24", "2"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    adj = {}
    for l in json.loads(p.stdout)["Topology"]:
        adj.setdefault(l["From"], set()).add(l["To"]); adj.setdefault(l["To"], set()).add(l["From"])
    seen, q = {0}, [0]
    while q:
        for v in adj[q.pop()]:
            if v not in seen: seen.add(v); q.append(v)
    if len(seen) < 24 and p.returncode == 0: sys.exit("not connected, and nothing is said")
''', "a sparse regular graph that comes out in several pieces", "a disconnected testbed topology is not reported")

NODE = '''def node(name, cws, warm, txs, gens, lat, extra=()):
    l = [(0, key(p)) for p in cws]
    n = max(len(txs), len(gens))
    for t in range(n):
        if t == warm: l.append((t, "data logging warmup completed"))
        if t < len(gens): l.append((t, "generated tx %d" % gens[t]))
        if t >= warm: l.append((t, WU % ((txs[t],) + lat)))
        for p in cws:
            if t < len(cws[p]): l.append((t, CW % (p, cws[p][t])))
    log(name, l)
def near(a, b): return abs(a - b) < 1e-9
'''
seed("c41-warmup-ignored", "C41",
  [(PR, '''                elif "generated tx" in line:''', '''            if True:
                if "generated tx" in line:''')],
NODE + '''for i in range(2): node("l-%d" % i, {"10.0.0.9:1": [0, 10, 20, 30, 40, 50]}, 2, [0, 0, 5, 15, 35, 65], [0, 100, 300, 600, 1000, 1500], (1., 9., 5., 6.))
o = run("testbed/process.py", "l", "-n", "2").splitlines()
w = 30. / (60 + 1200)
if not near(float(o[0].split()[0]), w): sys.exit("overhead %s, not %f" % (o[0], w))
''', "transactions generated before the warm-up", "reports of the warm-up are counted")
seed("c41-percentiles-swapped", "C41",
  [(PR, 'txdelay[2] = float(line[start:end])', 'txdelay[1] = float(line[start:end])'), (PR, '''                    end = line.find(", mean")
                    txdelay[1]''', '''                    end = line.find(", mean")
                    txdelay[2]''')],
NODE + '''for i in range(2): node("l-%d" % i, {"10.0.0.9:1": [0, 10, 20, 30]}, 1, [0, 5, 15, 35], [0, 100, 300, 600], (1., 9., 5., 6.))
if run("testbed/process.py", "l", "-n", "2").splitlines()[0].split()[2:] != ["1.0", "5.0", "9.0", "6.0"]: sys.exit("percentiles out of order")
''', "any log", "the median and the 95th percentile are swapped")
seed("c41-shortest-series", "C41",
  [(PR, '''    if len(gencnt) < minLen:
        minLen = len(gencnt)
''', '')],
NODE + '''for i in range(2): node("l-%d" % i, {"10.0.0.9:1": [0, 10, 20, 30, 40]}, 1, [0, 5, 15, 35, 65], [0, 100, 300, 600], (1., 9., 5., 6.))
run("testbed/process.py", "l", "-n", "2")
''', "a log that ends between two reports of the same second", "the series with the fewest reports is not considered, so the script fails")
seed("c41-weight", "C41",
  [(PR, "meanDelay.append(txdelay[3] * (endTx-startTx) / (endTx-startTx+endGen-startGen))", "meanDelay.append(txdelay[3] * (endTx-startTx) / max(endTx-startTx, 1))")],
NODE + '''for i in range(2): node("l-%d" % i, {"10.0.0.9:1": [0, 10, 20, 30]}, 0, [0, 100, 200, 300], [0, 100, 200, 300], (1., 9., 5., 6.))
o = run("testbed/process.py", "l", "-n", "2").splitlines()[-2]
if not near(float(o.split()[-1]), 0.003): sys.exit(o)
''', "nodes that generate transactions themselves", "a node's own transactions are left out of the average delay")
seed("c41-cw-trace-one-peer-late", "C41",
  [(TR, "        if len(cwcnt[i]) < minLen:", "        if len(cwcnt[i]) > 2 and len(cwcnt[i]) < minLen:")],
NODE + '''node("l-0", {"10.0.0.9:1": [0, 10, 30, 60], "10.0.0.8:1": [5, 6]}, 0, [0, 1, 2, 3], [0, 1, 2, 3], (1., 9., 5., 6.))
if run("testbed/trace.py", "l", "0", "--cw-trace").split() != ["1", "11"]: sys.exit("wrong trace")
''', "a peer with no more than two reports", "the trace fails on a peer that connected late")
seed("c41-edges-by-address", "C41",
  [(ED, "                    cwrate[peerIdx] = rate", "                    cwrate[peerIdx] = max(rate, cwrate.get(peerIdx, 0))")],
'''json.dump([{"PublicIP": "10.0.0.%d" % i} for i in range(2)], open("s", "w"))
for i in range(2): log("l-%d" % i, [(0, "data logging warmup completed")] + [(t, "peer 10.0.0.%d:77 codeword rate %.2f dropped 0" % (1 - i, r)) for t, r in enumerate([10, 500, 30])])
if run("testbed/edges.py", "l", "-n", "2", "-s", "s").split() != ["0", "1", "30.0", "1", "0", "30.0"]: sys.exit("not the last rates")
''', "a codeword rate that goes down", "the highest rate is printed, not the last")
NSH = SH.replace('cd "$T"', '''export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod HOME=${HOME:-/root}
go build -o "$T/node" ./node || exit 3
cd "$T"''')
seed("c41-node-log-format", "C41",
  [(NC, 'log.Printf("since warm up tx=%d, p5_latency_ms=%.2f, p95_latency_ms=%.2f, p50_latency_ms=%.2f, mean_latency_ms=%.2f\\n", int(cnt), qts[0], qts[2], qts[1], sum/cnt)', 'log.Printf("since warm up tx=%d, p5_latency_ms=%.2f, p50_latency_ms=%.2f, p95_latency_ms=%.2f, mean_latency_ms=%.2f\\n", int(cnt), qts[0], qts[1], qts[2], sum/cnt)')],
'''import time, socket
s = [socket.socket() for i in range(2)]
for x in s: x.bind(("127.0.0.1", 0))
ad = ["127.0.0.1:%d" % x.getsockname()[1] for x in s]
for x in s: x.close()
ps = []
for i in range(2):
    ps.append(subprocess.Popen(["./node", "-l", ad[i], "-p", ",".join(ad[:i]), "-tx", "200", "-warmup", "2s", "-rmin", "50"], stderr=open("l-%d" % i, "w")))
    time.sleep(0.3)
time.sleep(12)
for p in ps: p.kill(); p.wait()
for i in range(2):
    t = open("l-%d" % i).read(); open("l-%d" % i, "w").write(t[:t.rindex("\\n") + 1])
run("testbed/process.py", "l", "-n", "2")
''', "a node that has decoded transactions since its warm-up", "the logs of the nodes can no longer be analysed", NSH)

SEEDS = S
