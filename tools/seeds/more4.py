# Fourth round: large scale, special values, state that survives.
import os, runpy
_d = os.path.dirname(os.path.abspath(__file__))
RS = runpy.run_path(_d + "/riblt.py")["SYM"]
LS = runpy.run_path(_d + "/lt.py")["SYM"]("lt")
_n = runpy.run_path(_d + "/newsim.py"); NH, C, P, M, MS, T = (_n[k] for k in ["H", "C", "P", "M", "MS", "T"])
_s = runpy.run_path(_d + "/simulator.py"); SH_, SM, SN, ST = (_s[k] for k in ["H", "M", "N", "T"])
_k = runpy.run_path(_d + "/node.py"); KH, CT, RC, KS = (_k[k] for k in ["H", "CT", "RC", "SN"])
_l = runpy.run_path(_d + "/load.py"); LH, LN = _l["H"], _l["N"]
SEEDS = []
def seed(id, prop, pkg, head, edits, body, needs, breaks, pre=""):
    SEEDS.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, demo=head + pre + "\nfunc TestDemo(t *testing.T) {\n" + body.strip("\n") + "\n}\n", needs=needs, breaks=breaks))
def riblt(*a, **k): seed(a[0], a[1], "riblt", RS, *a[2:], **k)
def lt(*a, **k): seed(a[0], a[1], "lt", LS, *a[2:], **k)
def newsim(*a, **k): seed(a[0], a[1], "newsim", NH, *a[2:], **k)
def sim(*a, **k): seed(a[0], a[1], "simulator", SH_, *a[2:], **k)
def node(*a, **k): seed(a[0], a[1], "node", KH, *a[2:], **k)
RD, RE, RK = "riblt/decoder.go", "riblt/encoder.go", "riblt/sketch.go"
LD, LE = "lt/decoder.go", "lt/encoder.go"

riblt("c02-dirty-bounded", "C02",
  [(RD, "		if (!c.dirty) && c.count >= -1 && c.count <= 1 {\n", "		if (!c.dirty) && c.count >= -1 && c.count <= 1 && cidx < 1<<16 {\n")],
'''
	var e Encoder[dsym]
	var d Decoder[dsym]
	n := 60000
	for i := 0; i < n; i++ {
		e.AddSymbol(mk(i))
	}
	for i := 0; i < 90000; i++ {
		d.AddCodedSymbol(e.ProduceNextCodedSymbol())
	}
	d.TryDecode()
	if len(d.Remote()) != n || !d.Decoded() {
		t.Fatal(len(d.Remote()), d.Decoded())
	}
''', "more than 65536 coded symbols", "what coded symbols beyond the first 65536 reveal during peeling is ignored: the decoder never finishes")
riblt("c03-window-scan-bounded", "C03",
  [(RE, "	for e.queue[0].codedIdx == e.nextIdx {\n		cw =", "	for n := 0; n < 1<<15 && e.queue[0].codedIdx == e.nextIdx; n++ {\n		cw =")],
'''
	var a, b Encoder[dsym]
	n := 33000
	for i := 0; i < n; i++ {
		a.AddSymbol(mk(i))
		b.AddSymbol(mk(n - 1 - i))
	}
	for i := 0; i < 10; i++ {
		if x, y := a.ProduceNextCodedSymbol(), b.ProduceNextCodedSymbol(); x != y {
			t.Fatal(i, x, y)
		}
	}
''', "a set of more than 32768 symbols", "the first coded symbol leaves symbols out, and which depends on the order of insertion")
riblt("c04-count-16bit", "C04",
  [(RK, "		s[i].count = s[i].count - s2[i].count\n", "		s[i].count = int64(int16(s[i].count - s2[i].count))\n")],
'''
	a, b := make(Sketch[dsym], 60000), make(Sketch[dsym], 60000)
	for i := 0; i < 33000; i++ {
		a.AddSymbol(mk(i))
	}
	b.AddSymbol(mk(99999))
	r, l, ok := a.Subtract(b).Decode()
	if len(r) != 33000 || len(l) != 1 || !ok {
		t.Fatal(len(r), len(l), ok)
	}
''', "a difference of more than 32767 symbols", "a sketch large enough for the difference fails to decode")
riblt("c06-large-reset-partial", "C06",
  [(RD, "	if len(d.cs) != 0 {\n		d.cs= d.cs[:0]\n	}\n", "	if cap(d.cs) > 1<<14 {\n		// give a large buffer back\n		*d = Decoder[T]{pending: d.pending}\n		return\n	}\n	if len(d.cs) != 0 {\n		d.cs= d.cs[:0]\n	}\n")],
'''
	var e Encoder[dsym]
	var d Decoder[dsym]
	for i := 0; i < 20000; i++ {
		e.AddSymbol(mk(i))
	}
	for i := 0; i < 17000; i++ {
		d.AddCodedSymbol(e.ProduceNextCodedSymbol())
	}
	d.TryDecode()
	d.Reset()
	if !d.Decoded() {
		t.Fatal("not decoded after a reset")
	}
''', "a decoder reset in the middle of a block of more than 16384 coded symbols", "the count of undecoded symbols survives the reset")
lt("c09-membership-cached", "C09",
  [(LD, "	memory               int\n}", "	memory               int\n\n	lastAsked uint32\n	lastThere bool\n}"),
   (LD, "	_, there := p.receivedTransactions[saltedHash]\n	if there {\n", "	_, there := p.receivedTransactions[saltedHash]\n	if p.lastAsked == saltedHash && p.lastThere != there && len(p.pendingTransactions) > 0 {\n		there = p.lastThere\n	}\n	p.lastAsked, p.lastThere = saltedHash, there\n	if there {\n")],
'''
	d := NewDecoder[*dd](salt, 100)
	d.AddCodeword(cwOf(5, 6))
	if d.HasDecoded(mk(1)) {
		t.Fatal("has")
	}
	d.AddCodeword(cwOf(1))
	if !d.HasDecoded(mk(1)) {
		t.Fatal("has not")
	}
''', "asking for the same transaction twice in a row, decoded in between, while others are pending", "a decoded transaction is denied")
lt("c10-degree-kept", "C10",
  [(LE, "	e.degreeDist = dist\n", "	if ws != e.windowSize || len(e.window) == 0 {\n		e.degreeDist = dist\n	}\n")],
'''
	a, b := uint64(1), uint64(3)
	e := NewEncoder[*dd](rand.New(rand.NewSource(3)), salt, deg{&a}, 5)
	for i := 0; i < 5; i++ {
		e.AddTransaction(mk(i))
	}
	e.Reset(deg{&b}, 5)
	for i := 0; i < 5; i++ {
		e.AddTransaction(mk(i))
	}
	if c := e.ProduceCodeword(); len(c.members) != 3 {
		t.Fatal(len(c.members))
	}
''', "a reset to the same window size with another distribution", "the old distribution stays in force")
lt("c11-hashes-survive-big-reset", "C11",
  [(LE, "	for k := range e.hashes {\n		delete(e.hashes, k)\n	}\n", "	n := 0\n	for k := range e.hashes {\n		if n += 1; n > 4096 {\n			break\n		}\n		delete(e.hashes, k)\n	}\n")],
'''
	e := enc(6000)
	for i := 0; i < 6000; i++ {
		e.AddTransaction(mk(i))
	}
	e.Reset(deg{&curDeg}, 6000)
	for i := 0; i < 6000; i++ {
		if !e.AddTransaction(mk(i)) {
			t.Fatal(i)
		}
	}
''', "a reset of an encoder with more than 4096 transactions in its window", "some transactions are refused by the empty encoder")
lt("c12-evicts-in-bulk", "C12",
  [(LD, "	for len(p.recentTransactions) > p.memory {\n", "	for len(p.recentTransactions) > p.memory+p.memory>>12 {\n")],
'''
	d := NewDecoder[*dd](salt, 5000)
	for i := 0; i < 5001; i++ {
		d.AddTransaction(mk(i))
	}
	if d.HasDecoded(mk(0)) {
		t.Fatal("still has the oldest of memory+1")
	}
''', "a decoder memory of 4096 or more", "the decoder holds one more than its memory")
lt("c12-no-memory-unbounded", "C12",
  [(LD, "	for len(p.recentTransactions) > p.memory {\n", "	for p.memory > 0 && len(p.recentTransactions) > p.memory {\n")],
'''
	d := NewDecoder[*dd](salt, 0)
	d.AddTransaction(mk(0))
	if d.HasDecoded(mk(0)) {
		t.Fatal("remembers")
	}
''', "a decoder with memory 0", "a decoder that may hold nothing holds everything")
lt("c09-avalanche-limited", "C09",
  [(LD, "	for len(queue) > 0 {\n		// pop", "	for len(queue) > 0 && len(newTx) < 1<<12 {\n		// pop")],
'''
	d := NewDecoder[*dd](salt, 100000)
	for i := 0; i < 5000; i++ {
		d.AddCodeword(cwOf(i, i+1))
	}
	if n := d.AddTransaction(mk(0)); len(n) != 5000 {
		t.Fatal(len(n))
	}
''', "an avalanche of more than 4096 transactions", "the rest of the avalanche is lost")

newsim("c21-old-bodies-forgotten", "C21",
  [(P, "	c.known[tx.Hash] = tx\n	c.outbox", "	if len(c.known) >= 4096 {\n		c.known = make(map[uint64]riblt.HashedSymbol[transaction])\n	}\n	c.known[tx.Hash] = tx\n	c.outbox")],
'''
	s := world(2, false)
	connectPullServers(s[0], s[1], 10)
	arrive(s[0], 3000)
	arrive(s[0], 3000)
	run(100000)
	all(t, s)
''', "more than 4096 transactions on a link, some requested later than announced", "requests for forgotten bodies are answered with nothing")
newsim("c21-received-16bit", "C21",
  [(M, "			s.received[tx.idx] = struct{}{}\n", "			s.received[tx.idx&0xffff] = struct{}{}\n"),
   (M, "			n := s.handlers[from]\n			decoded := n.handleMessage(payload)\n			for _, tx := range decoded {\n				if _, there := s.received[tx.Symbol.idx]; !there {\n", "			n := s.handlers[from]\n			decoded := n.handleMessage(payload)\n			for _, tx := range decoded {\n				tx := tx\n				if _, there := s.received[tx.Symbol.idx&0xffff]; !there {\n")],
'''
	s := world(3, false)
	connectPullServers(s[0], s[1], 10)
	connectPullServers(s[1], s[2], 10)
	for k := 0; k < 70; k++ {
		arrive(s[0], 1000)
		run(100000)
	}
	if s[2].decodedTransactions != 70000 {
		t.Fatal(s[2].decodedTransactions)
	}
''', "more than 65536 transactions in one run", "later transactions are taken for earlier ones and not passed on")
newsim("c22-ack-capped", "C22",
  [(C, "		for _, tx := range n.Local() {\n			ack.txs = append(ack.txs, tx)\n		}\n", "		for i, tx := range n.Local() {\n			if i < 512 {\n				ack.txs = append(ack.txs, tx)\n			}\n		}\n")],
'''
	a, b := pair(1, 0.1)
	arrive(b, 900)
	for k := 0; k < 20; k++ {
		offer(a, uint64(100000+k))
		run(2000)
	}
	if len(a.received) != 920 {
		t.Fatal(len(a.received))
	}
''', "more than 512 transactions for the initiating side in one shard", "those beyond 512 are lost")
newsim("c23-bytes-float32", "C23",
  [(M, "		s.receivedBytes += payload.(message).size()\n", "		s.receivedBytes = int(float32(s.receivedBytes) + float32(payload.(message).size()))\n")],
'''
	s := world(2, true)
	connectPullServers(s[0], s[1], 10)
	TXSIZE = 10001
	for k := 0; k < 30; k++ {
		arrive(s[0], 100)
	}
	run(100000)
	if s[1].receivedBytes != 3000*10001+s[1].duplicateTransactions*0 {
		t.Fatal(s[1].receivedBytes)
	}
''', "more than 16 MB received by a node", "the metric loses bytes")
newsim("c43-large-block-count", "C43",
  [(C, "		n.currentBlockAckCount += 1\n", "		if n.currentBlockAckCount < 1024 {\n			n.currentBlockAckCount += 1\n		}\n")],
'''
	a, b := pair(1, 0.02)
	arrive(a, 1500)
	_ = b
	for k := 0; k < 100000 && len(queue) > 0; k++ {
		run(1)
		if e := trace[len(trace)-1]; e.to == a {
			if k, is := e.p.(ack); is && k.ackBlock && len(b.received) > 1000 {
				break
			}
		}
	}
	// the burst that opens the next block is two thirds of the last one
	n := 0
	for _, e := range queue {
		if _, is := e.p.(codeword); is {
			n++
		}
	}
	if n < 900 {
		t.Fatal(n)
	}
''', "a block of more than 1024 coded symbols", "the next block opens with too small a burst and window")

sim("c24-large-batch-at-once", "C24",
  [(SM, "	for _, tx := range txs {\n		out = append(out, des.OutgoingMessage{loopback{tx}, nil, nextSlot-ts})\n", "	for i, tx := range txs {\n		if i >= 1000 {\n			break\n		}\n		out = append(out, des.OutgoingMessage{loopback{tx}, nil, nextSlot-ts})\n")],
'''
	x := world(2, 1, conf(2, 0.2, 0, 0))
	connectServers(x[0], x[1], 10)
	arrive(x[0], 1500)
	n := 0
	for _, e := range sent {
		if _, is := e.p.(loopback); is {
			n++
		}
	}
	if n != 1500 {
		t.Fatal(n)
	}
''', "more than 1000 transactions at one moment", "those beyond 1000 are never forwarded")
sim("c24-lagging-limiter", "C24",
  [(SM, "	if s.forwardRateLimiter.lastScheduled + s.forwardRateLimiter.minInterval > nextSlot {\n", "	if s.forwardRateLimiter.lastScheduled > ts + 10*time.Second {\n		// hopelessly late; start over\n	} else if s.forwardRateLimiter.lastScheduled + s.forwardRateLimiter.minInterval > nextSlot {\n")],
'''
	x := world(2, 1, conf(2, 0.2, 0, 0))
	connectServers(x[0], x[1], 10)
	x[0].forwardRateLimiter.minInterval = 10 * time.Millisecond
	arrive(x[0], 1100)
	arrive(x[0], 1100)
	at := map[time.Duration]bool{}
	for _, e := range sent {
		if _, is := e.p.(loopback); is {
			if at[e.at] {
				t.Fatal("two at", e.at)
			}
			at[e.at] = true
		}
	}
''', "a forwarding backlog of more than ten seconds", "the forwarding rate exceeds the limit")
sim("c25-long-blocks-detected-late", "C25",
  [(SN, "	if !n.currentBlockReceived && len(n.curCodewords) > n.detectThreshold {\n", "	if !n.currentBlockReceived && len(n.curCodewords) > n.detectThreshold && (len(n.curCodewords) < 2048 || len(n.curCodewords)%64 == 0) {\n")],
'''
	x := world(2, 1, conf(25, 0.01, 0, 0))
	connectServers(x[0], x[1], 10)
	arrive(x[0], 2500)
	h := x[1].handlers[x[0]].receiver
	for k := 0; k < 200000 && len(queue) > 0; k++ {
		run(1)
		if len(h.curCodewords) > 2048 && !h.currentBlockReceived {
			u := 0
			for _, c := range h.curCodewords {
				if !c.Decoded() {
					u++
				}
			}
			if u == 0 {
				t.Fatal("not acknowledged", len(h.curCodewords))
			}
		}
	}
''', "a block that takes more than 2048 codewords", "the block is acknowledged late")

node("c28-many-peers", "C28",
  [(CT, "			c.peers = append(c.peers, p)\n", "			if len(c.peers) == 64 {\n				// make room: the oldest has had its share\n				c.peers = c.peers[1:]\n			}\n			c.peers = append(c.peers, p)\n")],
'''
	bubble(t, func() string {
		ctl := controllerFor(10, 10, 0, 0, time.Hour)
		y := watch(ctl, 100, 100, 0)
		for k := 0; k < 64; k++ {
			watch(ctl, 100, 100, 0)
		}
		ctl.localTransaction <- mk(1, time.Now())
		synctest.Wait()
		if s, r := y.count(); s != 1 || r != 1 {
			return "the first of 65 peers has nothing"
		}
		return ""
	})
''', "more than 64 peers", "the oldest peers get nothing any more")
node("c29-loss-capped", "C29",
  [(KS, "			s.accumLoss += l\n", "			if s.accumLoss += l; s.accumLoss > 255 {\n				s.accumLoss = 255\n			}\n")],
'''
	bubble(t, func() string {
		ctl := controllerFor(0.5, 0.5, 0, 0, 500*time.Millisecond)
		f := connect(ctl, "x", 7)
		for k := 0; k < 300; k++ {
			f.say(f.word(mk(uint64(2*k+1), time.Now()), mk(uint64(2*k+2), time.Now())), 0)
		}
		ctl.localTransaction <- mk(9999, time.Now())
		time.Sleep(600 * time.Millisecond)
		f.say(f.word(mk(1001, time.Now())), 0)
		time.Sleep(20 * time.Second)
		synctest.Wait()
		if n := f.losses(); n != 300 {
			return fmt.Sprint("losses ", n)
		}
		return ""
	})
''', "more than 255 codewords lost before the next codeword is sent", "the rest of the loss is not reported")
node("c30-credit-capped", "C30",
  [(KS, "			s.credit += 0.01 * s.cwRate\n", "			s.credit += 0.01 * s.cwRate\n			if s.credit > 100 {\n				s.credit = 100\n			}\n")],
'''
	bubble(t, func() string {
		ctl := controllerFor(20000, 20000, 0, 0, time.Hour)
		f := connect(ctl, "x", 7)
		ctl.localTransaction <- mk(1, time.Now())
		time.Sleep(1005 * time.Millisecond)
		synctest.Wait()
		if n := len(f.heard()); n < 19000 {
			return fmt.Sprint(n)
		}
		return ""
	})
''', "a rate of more than 10000 codewords a second", "codewords are sent more slowly than the rate")
node("c30-rate-ceiling", "C30",
  [(KS, "			s.cwRate += s.rateIncreaseConstant * float64(l)\n", "			s.cwRate += s.rateIncreaseConstant * float64(l)\n			if s.cwRate > 10000 {\n				s.cwRate = 10000\n			}\n")],
'''
	bubble(t, func() string {
		ctl := controllerFor(100, 10, 100, 0, time.Hour)
		f := connect(ctl, "x", 7)
		ctl.localTransaction <- mk(1, time.Now())
		f.say(f.word(mk(5, time.Now())), 199)
		time.Sleep(1005 * time.Millisecond)
		synctest.Wait()
		if n := len(f.heard()); n < 19000 {
			return fmt.Sprint(n)
		}
		return ""
	})
''', "losses that raise the rate above 10000 codewords a second", "the increases are not accounted")
seed("c45-millisecond-intervals", "C45", "newsim", LH() + _l["NEW"],
  [(M, "		intv := time.Duration(s.rng.ExpFloat64() / s.blockArrivalIntv)\n		newBa := blockArrival{s.blockArrivalBurst}\n		outbox", "		intv := time.Duration(s.rng.ExpFloat64() / s.blockArrivalIntv).Truncate(time.Millisecond)\n		newBa := blockArrival{s.blockArrivalBurst}\n		outbox")],
'''
	sim, srv := newsims(1, 1, 400, false)
	sim.RunUntil(50 * time.Second)
	if n := len(srv[0].received); n > 21000 {
		t.Fatal(n)
	}
	_ = arrivals
''', "arrival rates of hundreds a second and more", "intervals are rounded down to milliseconds: the rate is too high")
