# Fifth round.
import os, runpy
_d = os.path.dirname(os.path.abspath(__file__))
LS = runpy.run_path(_d + "/lt.py")["SYM"]("lt")
_n = runpy.run_path(_d + "/newsim.py"); NH, C, P, M, MS, T = (_n[k] for k in ["H", "C", "P", "M", "MS", "T"])
_s = runpy.run_path(_d + "/simulator.py"); SH_, SM, SN, ST = (_s[k] for k in ["H", "M", "N", "T"])
_k = runpy.run_path(_d + "/node.py"); KH, CT, MN, RC, KS = (_k[k] for k in ["H", "CT", "MN", "RC", "SN"])
_p = runpy.run_path(_d + "/ldpc.py"); PH, PD, PE, PT = (_p[k] for k in ["H", "D", "E", "T"])
_t = runpy.run_path(_d + "/testbed.py"); HX, X = _t["HX"], "testbed/exp.go"
py = runpy.run_path(_d + "/conf.py")["py"]
SEEDS = []
def seed(id, prop, pkg, head, edits, body, needs, breaks, pre="", **kw):
    SEEDS.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, demo=head + pre + "\nfunc TestDemo(t *testing.T) {\n" + body.strip("\n") + "\n}\n", needs=needs, breaks=breaks, **kw))
def ldpc(*a, **k): seed(a[0], a[1], "ldpc", PH, *a[2:], **k)
def lt(*a, **k): seed(a[0], a[1], "lt", LS, *a[2:], **k)
def newsim(*a, **k): seed(a[0], a[1], "newsim", NH, *a[2:], **k)
def sim(*a, **k): seed(a[0], a[1], "simulator", SH_, *a[2:], **k)
def node(*a, **k): seed(a[0], a[1], "node", KH, *a[2:], **k)
def testbed(*a, **k): seed(a[0], a[1], "testbed", HX, *a[2:], **k)

COLL = '''
// collide finds two transactions of one short hash.
func collide() (int, int) {
	seen := map[uint32]int{}
	for i := 0; ; i++ {
		n := uint64(1)
		e := NewEncoder(salt, deg{&n}, 1)
		e.AddTransaction(mk(i))
		h := e.ProduceCodeword().Members[0]
		if j, there := seen[h]; there {
			return j, i
		}
		seen[h] = i
	}
}
'''
ldpc("c14-conflict-not-counted", "C14",
  [(PD, "			p.storeNewTransaction(hash, t)\n			if _, there := p.pendingTransactions[hash]; there {\n", "			p.storeNewTransaction(hash, t)\n			p.numTransactionsDecoded -= 1\n			if _, there := p.pendingTransactions[hash]; there {\n")],
'''
	a, b := collide()
	d := NewDecoder(salt, 100)
	d.AddTransaction(mk(a))
	d.AddTransaction(mk(b))
	if d.NumTransactionsReceived() != 2 {
		t.Fatal(d.NumTransactionsReceived())
	}
''', "two transactions with the same 32-bit short hash", "the second is not counted", pre=COLL)
ldpc("c14-evicts-namesake", "C14",
  [(PD, "		if e := p.receivedTransactions[p.recentTransactions[0].hash]; e == p.recentTransactions[0].ptr {\n			delete(p.receivedTransactions, p.recentTransactions[0].hash)\n		}\n", "		delete(p.receivedTransactions, p.recentTransactions[0].hash)\n")],
'''
	a, b := collide()
	d := NewDecoder(salt, 3)
	d.AddTransaction(mk(a))
	d.AddTransaction(mk(b))
	d.AddTransaction(mk(2000000))
	d.AddTransaction(mk(2000001)) // a is forgotten, b is not
	_, got := d.AddCodeword(cwOf(b, 2000002))
	if len(got) != 1 {
		t.Fatal(len(got))
	}
''', "two remembered transactions with the same 32-bit short hash, the earlier of which is forgotten", "the later one is forgotten with it", pre=COLL)
ldpc("c14-high-degree", "C14",
  [(PD, "	cw.symbol = rawCodeword.Symbol\n", "	cw.symbol = rawCodeword.Symbol\n	if len(rawCodeword.Members) > 1024 {\n		return cw, nil\n	}\n")],
'''
	var all []int
	d := NewDecoder(salt, 100000)
	for i := 0; i < 1500; i++ {
		all = append(all, i)
		if i > 0 {
			d.AddTransaction(mk(i))
		}
	}
	if _, got := d.AddCodeword(cwOf(all...)); len(got) != 1 {
		t.Fatal(len(got))
	}
''', "a codeword of more than 1024 transactions", "the codeword yields nothing")
ldpc("c15-reset-keeps-decoded", "C15",
  [(PD, "	cw.queued = false\n	cw.decoded = false\n	cw.freed = false\n", "	cw.queued = false\n	cw.freed = false\n")],
'''
	d := NewDecoder(salt, 1000)
	for i := 0; i < 200; i++ {
		w, _ := d.AddCodeword(cwOf(3*i))
		w.Free()
		v, _ := d.AddCodeword(cwOf(3*i+1, 3*i+2))
		if v.Decoded() {
			t.Fatal(i)
		}
	}
''', "a codeword record released after it was decoded, and another codeword afterwards", "the record's next user is taken for decoded, so its early release lets a third codeword reuse it while it is in use")
ldpc("c17-same-head-keeps-hash", "C17",
  [(PT, "	copied := copy(t.serialized[0:TxSize], data[0:TxSize])\n", "	same := t.hash != [blake2b.Size]byte{} && [64]byte(t.serialized[:64]) == [64]byte(data[:64])\n	copied := copy(t.serialized[0:TxSize], data[0:TxSize])\n	if same && t.serialized[TxSize-1] == 0 {\n		return nil // only the padding differs\n	}\n")],
'''
	var d [TxSize]byte
	x, y := &Transaction{}, &Transaction{}
	x.UnmarshalBinary(d[:])
	d[100] = 1
	x.UnmarshalBinary(d[:])
	y.UnmarshalBinary(d[:])
	if x.hash != y.hash {
		t.Fatal("stale hash")
	}
''', "an object loaded again with a transaction that has the same first half and ends in 0", "its identity is that of the previous content")
ldpc("c17-self-xor", "C17",
  [(PT, "func (t *TransactionData) XOR(t2 *TransactionData) {\n", "func (t *TransactionData) XOR(t2 *TransactionData) {\n	if t == t2 {\n		return\n	}\n")],
'''
	x := TransactionData{1, 2, 3}
	x.XOR(&x)
	if x != (TransactionData{}) {
		t.Fatal(x)
	}
''', "a payload combined with itself", "it does not become zero")
lt("c09-high-degree", "C09",
  [("lt/decoder.go", "	for _, member := range rawCodeword.members {\n", "	for mi, member := range rawCodeword.members {\n		if mi >= 4096 && len(cw.members) > 64 {\n			break // hopeless\n		}\n")],
'''
	n := 5000
	var all []int
	for i := 0; i < n; i++ {
		all = append(all, i)
	}
	d := NewDecoder[*dd](salt, 100000)
	d.AddCodeword(cwOf(all...))
	got := 0
	for i := 1; i < n; i++ {
		got += len(d.AddTransaction(mk(i)))
	}
	if got != 1 {
		t.Fatal(got)
	}
''', "a codeword of more than 4096 transactions, most of them unknown", "the codeword yields garbage or nothing")
sim("c25-min-block-ceil", "C25",
  [(SN, "		minBlockSize := int(float64(n.detectThreshold) / n.controlOverhead)\n", "		minBlockSize := int(float64(n.detectThreshold)/n.controlOverhead + 0.5)\n")],
'''
	// minimum 5/0.3 = 16 transactions
	s, _ := alone(1, conf(5, 0.3, 0, 0))
	arrive(s, 16)
	if len(own(s, 1000)) == 0 {
		t.Fatal("no block")
	}
''', "a threshold that is not a multiple of the overhead, and a buffer of exactly the minimum", "the block starts one transaction late")
sim("c25-window-rounded-up", "C25",
  [(SN, "			n.sendWindow = int(float64(blockSize) * n.controlOverhead)\n", "			n.sendWindow = int(float64(blockSize)*n.controlOverhead + 0.999)\n")],
'''
	s, _ := alone(1, conf(5, 0.3, 0, 0))
	arrive(s, 16)
	own(s, 1000)
	for _, h := range s.handlers {
		if h.sender.sendWindow > 4 {
			t.Fatal(h.sender.sendWindow)
		}
	}
''', "a block size that is not a multiple of 1/overhead", "the window is too large by one")
newsim("c43-closing-ack-counted", "C43",
  [(C, "	if n.receivingCurrentBlock {\n		n.currentBlockAckCount += 1\n", "	if n.receivingCurrentBlock || ack.ackBlock {\n		n.currentBlockAckCount += 1\n")],
'''
	a, b := pair(1, 0.5)
	arrive(b, 300)
	offer(a, 100000)
	max := 0
	for k := 0; k < 3000; k++ {
		x := a.handlers[b].algorithm.(coding).sender
		before := x.currentBlockAckCount
		if before > max {
			max = before
		}
		wasNext := x.nextShard
		_ = wasNext
		run(1)
		if x.inFlight == 0 && before > 3 {
			t.Fatal("?")
		}
		if x.currentBlockAckCount == 0 && before > 50 {
			if want := float64(before) * 0.5; x.sendWindow != want {
				t.Fatal(x.sendWindow, want)
			}
			return
		}
	}
	t.Fatal("no block completed", max)
''', "any block of several codewords, and a look at the next one's window", "windows and bursts count the completing acknowledgement")
node("c30-large-loss-ignored", "C30",
  [(RC, "			if cw.Loss > 0 {\n", "			if cw.Loss > 0 && cw.Loss < 1000 {\n")],
'''
	bubble(t, func() string {
		ctl := controllerFor(10, 10, 1, 0, time.Hour)
		f := connect(ctl, "x", 7)
		f.say(f.word(mk(1, time.Now()), mk(2, time.Now())), 5000)
		time.Sleep(2005 * time.Millisecond)
		synctest.Wait()
		if !strings.Contains(logs.String(), "codeword rate 5010.00") {
			return logs.String()
		}
		return ""
	})
''', "a peer that reports a thousand or more losses at once", "the rate does not rise")
node("c29-cleanup-limited", "C29",
  [(RC, "			for len(r.rxWindow) > 0 {\n				head", "			for n := 0; n < 64 && len(r.rxWindow) > 0; n++ {\n				head")],
'''
	bubble(t, func() string {
		ctl := controllerFor(10, 10, 0, 0, 500*time.Millisecond)
		f := connect(ctl, "x", 7)
		for k := 0; k < 300; k++ {
			f.say(f.word(mk(uint64(2*k+1), time.Now()), mk(uint64(2*k+2), time.Now())), 0)
		}
		time.Sleep(600 * time.Millisecond)
		f.say(f.word(mk(1001, time.Now())), 0)
		time.Sleep(5 * time.Second)
		synctest.Wait()
		if n := f.losses(); n != 300 {
			return fmt.Sprint("losses ", n)
		}
		return ""
	})
''', "more than 64 codewords expired since the peer's last one", "the rest is not counted when the next codeword arrives")
node("c35-clock-skew-dropped", "C35",
  [(CT, "				delay := getDelayUs(tx.Transaction)\n", "				delay := math.Max(getDelayUs(tx.Transaction), 0)\n"), (CT, "	\"log\"\n", "	\"log\"\n	\"math\"\n")],
'''
	bubble(t, func() string {
		ctl := controllerFor(10, 10, 0, 0, time.Hour)
		f := connect(ctl, "x", 7)
		time.Sleep(5 * time.Second)
		for k := 1; k < 10; k++ {
			f.say(f.word(mk(uint64(k), time.Now().Add(time.Second))), 0)
		}
		time.Sleep(1200 * time.Millisecond)
		synctest.Wait()
		if !strings.Contains(logs.String(), "mean_latency_ms=-1000.00") {
			return logs.String()
		}
		return ""
	})
''', "a peer whose clock is ahead", "latencies below zero are reported as zero, which hides the skew and shifts the mean")
node("c30-loss-only-above-floor", "C30",
  [(KS, "			s.cwRate += s.rateIncreaseConstant * float64(l)\n", "			s.cwRate += s.rateIncreaseConstant * float64(l)\n			if n := len(s.peerLoss); n > 32 {\n				// keep up\n				for i := 0; i < n; i++ {\n					<-s.peerLoss\n				}\n			}\n")],
'''
	bubble(t, func() string {
		l := make(chan int, 100)
		s := &sender{cwRate: 10, rateIncreaseConstant: 1, minRate: 10, peerLoss: l, ourLoss: make(chan int), newTransaction: make(chan *ldpc.Transaction),
			encoder: ldpc.NewEncoder([ldpc.SaltSize]byte{}, nil, 10), peerId: "demo"}
		for k := 0; k < 60; k++ {
			l <- 1
		}
		go func() { s.loop(make(chan Codeword)) }()
		synctest.Wait()
		if s.cwRate != 70 {
			return fmt.Sprint(s.cwRate)
		}
		return ""
	})
''', "more than 32 loss reports waiting at once", "all but one of them are dropped")
node("c44-many-peers", "C44",
  [(MN, "		addrList := strings.Split(*conn, \",\")\n", "		addrList := strings.SplitN(*conn, \",\", 17)\n		if len(addrList) > 16 {\n			addrList = addrList[:16]\n		}\n")],
'''''', "", "")
SEEDS.pop()
SEEDS.append(dict(id="c44-many-peers", prop="C44",
 edits=[(MN, "		addrList := strings.Split(*conn, \",\")\n", "		addrList := strings.SplitN(*conn, \",\", 17)\n		if len(addrList) > 16 {\n			addrList = addrList[:16]\n		}\n")],
 needs="more than 16 listed peers", breaks="the rest is not connected to",
 **py('''ss = [door(addr()) for k in range(18)]
a, p = node("-p", ",".join("%s:%d" % s.getsockname() for s in ss))
try:
    keep = []
    for s in ss:
        c, _ = s.accept(); shake(c); keep.append(c)
finally: p.kill()
''')))
SEEDS.append(dict(id="c30-initial-rate-below-floor", prop="C30",
 edits=[(MN, "	if *initRate < *minRate {\n		*initRate = *minRate\n	}\n", "	if *initRate < 1.0 {\n		*initRate = *minRate\n	}\n")],
 needs="an initial rate of 1 or more that is below the floor", breaks="the link starts below the minimum rate",
 **py('''s = door(addr())
a, p = node("-p", "%s:%d" % s.getsockname(), "-r0", "1", "-rmin", "400", "-tx", "50")
try:
    c, _ = s.accept(); shake(c); c.settimeout(0.1)
    t = time.time(); n = 0
    while time.time() - t < 0.8:
        try: n += len(c.recv(65536))
        except OSError: pass
    assert n > 5000, n
finally: p.kill()
''')))
testbed("c36-peers-capped", "C36",
  [(X, "				if pair.From == i {\n					peerAddrs", "				if pair.From == i && len(peerAddrs) < 32 {\n					peerAddrs")],
'''
	m := farm(t, 40)
	var e Experiment
	for k := 1; k < 40; k++ {
		e.Topology = append(e.Topology, Connection{0, k})
	}
	m.run("-run", m.put("s", e))
	if n := strings.Count(m.node(0), "127.0.77."); n != 39 {
		t.Fatal(n)
	}
''', "a node with more than 32 outgoing connections", "the rest is left out")
testbed("c36-waves", "C36",
  [(X, "	wg := &sync.WaitGroup{}\n	wg.Add(len(clients))\n	for i := range clients {\n", "	wg := &sync.WaitGroup{}\n	wg.Add(len(clients))\n	for i := range clients {\n		if i > 0 && i%32 == 0 {\n			// not all at once: wait for this wave\n			wg.Add(i - len(clients))\n			wg.Wait()\n			wg.Add(len(clients) - i - 1)\n		}\n")],
'''
	done := make(chan bool)
	go func() {
		m := farm(t, 34)
		m.run("-run", m.put("s", Experiment{}))
		for i := range m.srv {
			if m.node(i) == "" {
				t.Error(i)
			}
		}
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal("stuck")
	}
''', "more than 32 servers", "the accounting goes wrong after the first wave: it does not wait for the last server")
