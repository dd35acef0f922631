# Sixth round.
import os, runpy
_d = os.path.dirname(os.path.abspath(__file__))
_r = runpy.run_path(_d + "/riblt.py"); SYM = _r["SYM"]
_e = runpy.run_path(_d + "/des.py"); EH = _e["H"]
_n = runpy.run_path(_d + "/newsim.py"); NH, C, P, M, MS, T = (_n[k] for k in ["H", "C", "P", "M", "MS", "T"])
_s = runpy.run_path(_d + "/simulator.py"); SH_, SM, SN, ST = (_s[k] for k in ["H", "M", "N", "T"])
_l = runpy.run_path(_d + "/load.py"); LH, LN, LO = _l["H"], _l["NEW"], _l["OLD"]
_g = runpy.run_path(_d + "/progs.py"); gseed, gS = _g["seed"], _g["S"]
_c = runpy.run_path(_d + "/scripts.py"); cseed, cS = _c["seed"], _c["S"]
gS.clear(); cS.clear()
S = "des/simulator.go"
SEEDS = []
def seed(id, prop, pkg, head, edits, body, needs, breaks, pre=""):
    SEEDS.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, demo=head + pre + "\nfunc TestDemo(t *testing.T) {\n" + body.strip("\n") + "\n}\n", needs=needs, breaks=breaks))
def riblt(*a, **k): seed(a[0], a[1], "riblt", SYM, *a[2:], **k)
def des(*a, **k): seed(a[0], a[1], "des", EH, *a[2:], **k)
def newsim(*a, **k): seed(a[0], a[1], "newsim", NH, *a[2:], **k)
def sim(*a, **k): seed(a[0], a[1], "simulator", SH_, *a[2:], **k)

riblt("c01-zero-checksum", "C01",
  [("riblt/decoder.go", "	if c.count == 0 && c.checksum == 0 {\n		// still", "	if c.checksum == 0 {\n		// still")],
'''
	force[mk(1)] = 0
	var e Encoder[dsym]
	var d Decoder[dsym]
	e.AddSymbol(mk(1))
	d.AddCodedSymbol(e.ProduceNextCodedSymbol())
	d.TryDecode()
	if d.Decoded() && len(d.Remote()) != 1 {
		t.Fatal("complete without the symbol")
	}
''', "a difference whose hashes XOR to zero in a coded symbol (a symbol hashing to 0)", "the decoder reports completion and misses symbols")
riblt("c04-zero-hash-subtracted", "C04",
  [("riblt/sketch.go", "		s[i].count = s[i].count - s2[i].count\n", "		s[i].count = s[i].count - s2[i].count\n		if s[i].count == 0 && s2[i].checksum == 0 {\n			// balanced\n			s[i].sum = s2[i].sum.XOR(s2[i].sum)\n		}\n")],
'''
	force[mk(1)], force[mk(2)], force[mk(3)], force[mk(4)] = 5, 5, 9, 9
	a, b := make(Sketch[dsym], 1), make(Sketch[dsym], 1)
	a.AddSymbol(mk(1)); a.AddSymbol(mk(2))
	b.AddSymbol(mk(3)); b.AddSymbol(mk(4))
	w := a[0].sum.XOR(b[0].sum)
	if s := a.Subtract(b); s[0].sum != w {
		t.Fatal("not subtracted")
	}
''', "", "")
SEEDS.pop()
riblt("c04-equal-count-shortcut", "C04",
  [("riblt/sketch.go", "		if s2[i].count == 0 && s2[i].checksum == 0 {", "		if s2[i].checksum == 0 {")],
'''
	force[mk(1)] = 0
	a, b := make(Sketch[dsym], 8), make(Sketch[dsym], 8)
	b.AddSymbol(mk(1))
	_, l, ok := a.Subtract(b).Decode()
	if ok && len(l) != 1 {
		t.Fatal("success without the symbol")
	}
''', "a subtrahend with a symbol that hashes to 0", "it is not subtracted and success is reported")
des("c18-microsecond-ties", "C18",
  [(S, "	if pq[i].arrival < pq[j].arrival {\n		return true\n	} else if pq[i].arrival == pq[j].arrival {", "	if pq[i].arrival/1000 < pq[j].arrival/1000 {\n		return true\n	} else if pq[i].arrival/1000 == pq[j].arrival/1000 {")],
'''
	var log []string
	b := &mod{log: &log}
	s := &Simulator{}
	s.ScheduleMessage(OutgoingMessage{"2", b, 900}, b)
	s.ScheduleMessage(OutgoingMessage{"1", b, 100}, b)
	defer func() {
		if e := recover(); e != nil || join(log) != "12" {
			t.Fatal(e, log)
		}
	}()
	s.Run()
''', "two messages due within one microsecond, the later one scheduled first", "the later one is delivered first")
des("c18-timers-first", "C18",
  [(S, "		return pq[i].seq < pq[j].seq\n", "		if ti, tj := pq[i].from == pq[i].to, pq[j].from == pq[j].to; ti != tj && pq[i].payload == nil != (pq[j].payload == nil) {\n			return pq[i].payload == nil\n		}\n		return pq[i].seq < pq[j].seq\n")],
'''
	n := 0
	order := []int{}
	a, b := &mod{}, &mod{}
	a.f = func(p any, at time.Duration) []OutgoingMessage {
		if p == nil { order = append(order, 1) } else { order = append(order, 0) }
		n++
		return nil
	}
	s := &Simulator{}
	s.ScheduleMessage(OutgoingMessage{"x", a, 5}, b)
	s.ScheduleMessage(OutgoingMessage{nil, nil, 5}, a)
	s.Run()
	if order[0] != 0 {
		t.Fatal(order)
	}
''', "a message without payload that a module sends itself, due together with another's earlier one", "it overtakes")
des("c19-ms-deadline", "C19",
  [(S, "	for !s.Drained() && s.time <= t {", "	for !s.Drained() && s.time <= t.Truncate(time.Millisecond) {")],
'''
	a := &mod{}
	s := &Simulator{}
	for k := 1; k < 10; k++ {
		s.ScheduleMessage(OutgoingMessage{k, a, time.Duration(k) * 100 * time.Microsecond}, a)
	}
	s.RunUntil(950 * time.Microsecond)
	if len(a.at) != 9 {
		t.Fatal(len(a.at))
	}
''', "a time that is no multiple of a millisecond", "messages due by it stay undelivered")
newsim("c22-block-capped", "C22",
  [(C, "		for tidx < len(n.buffer) {\n			v := n.buffer[tidx]\n			shardHash := v.Hash * n.shardRandomizer\n			if (cw.startHash < cw.endHash && shardHash >= cw.startHash && shardHash < cw.endHash) || (cw.startHash >= cw.endHash && (shardHash >= cw.startHash || shardHash < cw.endHash)) {\n				n.Encoder.AddHashedSymbol(v)\n",
       "		moved := 0\n		for tidx < len(n.buffer) && moved < 1000 {\n			v := n.buffer[tidx]\n			shardHash := v.Hash * n.shardRandomizer\n			if (cw.startHash < cw.endHash && shardHash >= cw.startHash && shardHash < cw.endHash) || (cw.startHash >= cw.endHash && (shardHash >= cw.startHash || shardHash < cw.endHash)) {\n				n.Encoder.AddHashedSymbol(v)\n				moved += 1\n")],
'''
	a, b := pair(1, 0.5)
	arrive(a, 3500)
	blocks := 0
	for k := 0; k < 200000 && len(queue) > 0 && blocks < 3; k++ {
		run(1)
		if e := trace[len(trace)-1]; e.to == a {
			if k, is := e.p.(ack); is && k.ackBlock {
				blocks++
			}
		}
	}
	if len(b.received) != 3500 {
		t.Fatal(len(b.received))
	}
''', "more than a thousand transactions of one shard at one end", "the rest waits for later cycles")
newsim("c43-burst-capped", "C43",
  [(C, "		burstSize = n.currentBlockAckCount * 2 / 3\n", "		burstSize = n.currentBlockAckCount * 2 / 3\n		if burstSize > 500 {\n			burstSize = 500\n		}\n")],
'''
	a, b := pair(1, 0.02)
	arrive(a, 1500)
	for k := 0; k < 100000 && len(queue) > 0; k++ {
		run(1)
		if e := trace[len(trace)-1]; e.to == a {
			if k, is := e.p.(ack); is && k.ackBlock && len(b.received) > 1000 {
				break
			}
		}
	}
	n := 0
	for _, e := range queue {
		if _, is := e.p.(codeword); is {
			n++
		}
	}
	if n < 900 {
		t.Fatal(n)
	}
''', "a block of more than 750 coded symbols", "the next block opens with a smaller burst")
newsim("c21-flooded-announced-late", "C21",
  [(P, "		if _, there := c.known[m.hash]; !there {\n			c.outbox", "		if _, there := c.known[m.hash]; !there && len(c.outbox) < 64 {\n			c.outbox")],
'''
	s := world(2, false)
	connectPullServers(s[0], s[1], 10)
	arrive(s[0], 3)
	for k := 0; k < 100; k++ {
		s[1].handlers[s[0]].algorithm.(*pull).outbox = append(s[1].handlers[s[0]].algorithm.(*pull).outbox, announce{1})
	}
	run(100)
	all(t, s)
''', "", "")
SEEDS.pop()
for prop_pkg, H2, edits, body in [
  ("newsim", LH() + LN, [("newsim/module.go", "		intv := time.Duration(s.rng.ExpFloat64() / s.blockArrivalIntv)\n		newBa := blockArrival{s.blockArrivalBurst}\n		outbox", "		intv := time.Duration(s.rng.ExpFloat64() / s.blockArrivalIntv)\n		if intv > time.Minute {\n			intv = time.Minute\n		}\n		newBa := blockArrival{s.blockArrivalBurst}\n		outbox")],
'''
	sim, srv := newsims(20, 1, 0.005, false)
	sim.RunUntil(20000 * time.Second)
	n := 0
	for _, s := range srv {
		n += s.receivedTransactions
	}
	if n > 2400 {
		t.Fatal(n)
	}
'''),
  ("simulator", LH() + LO, [("simulator/module.go", "		intv := time.Duration(s.rng.ExpFloat64() / s.blockArrivalIntv)\n		newBa := blockArrival{s.blockArrivalBurst}\n		outbox", "		intv := time.Duration(s.rng.ExpFloat64() / s.blockArrivalIntv)\n		if intv < time.Microsecond {\n			intv = time.Microsecond\n		}\n		newBa := blockArrival{s.blockArrivalBurst}\n		outbox")],
'''
	sim, srv := sims(1, 1, 3000000)
	sim.RunUntil(10 * time.Millisecond)
	if n := len(srv[0].received); n < 28000 {
		t.Fatal(n)
	}
''')]:
    SEEDS.append(dict(id="c45-interval-capped" if prop_pkg == "newsim" else "c45-intervals-at-least-a-microsecond", prop="C45", pkg=prop_pkg, edits=edits,
      demo=H2 + "\nfunc TestDemo(t *testing.T) {\n" + body.strip("\n") + "\n}\n",
      needs="a rate below one per minute" if prop_pkg == "newsim" else "a rate of about a million per second",
      breaks="the load is too high" if prop_pkg == "newsim" else "the load is too low"))
gseed("c38-whole-seconds", "C38",
  [("newsim/main.go", "cur < *simDuration; cur += reportInterval", "cur < simDuration.Truncate(time.Second); cur += reportInterval")],
'''topo("t", [(0, 1, 5), (1, 2, 5)])
p = subprocess.run(["./newsim", "-topo", "t", "-dur", "6.5s", "-w", "2s", "-s", "1"], stderr=subprocess.PIPE, stdout=subprocess.DEVNULL, text=True)
if len(p.stderr.splitlines()) != 7: sys.exit(p.stderr)
''', "a duration that is no whole number of seconds", "the last part of the run is left out", ["newsim"])
gseed("c38-minimum-delay", "C38",
  [("simulator/topology.go", "		if n == 3 {\n", "		if d < 1 {\n			d = 1\n		}\n		if n == 3 {\n")],
'''topo("t", [(0, 1, 0), (1, 2, 0)])
o = run("./simulator", "-topo", "t", "-dur", "30s", "-w", "5s", "-c", "5")
if fig(o, "latency p5")[0] > 0.0005: sys.exit(o)
''', "a link without delay", "it is given one of a millisecond", ["simulator"])
cseed("c40-one-way-delays", "C40",
  [("newsim/gen_topo.py", "    if src in latency and dst in latency[src]:\n        l = int(latency[src][dst])\n", "    if src in latency and dst in latency[src] and dst in latency:\n        l = int(latency[src][dst])\n")],
'''open("t", "w").write("".join("%d,%d,%f,\\n" % (a, b, 10.75) for a in range(6) for b in range(a + 1, 6)))
for l in run("newsim/gen_topo.py", "6", "3", "--latency", "t").split():
    if not l.endswith(",10"): sys.exit(l)
''', "a table without entries from the higher-numbered node", "the default delay is given")
cseed("c40-header-row", "C40",
  [("simulator/gen_topo.py", "for line in f:\n", "for line in f.readlines()[1:]:\n")],
'''open("t", "w").write("".join("%d,%d,%f,\\n" % (a, b, 10.75) for a in range(4) for b in range(4) if a < b))
for k in range(1):
    o = run("simulator/gen_topo.py", "4", "3", "--latency", "t").split()
    for l in o:
        if not l.endswith(",10"): sys.exit(l)
''', "a link between the pair of the table's first line", "the first line is taken for a header")
SEEDS += gS + cS
