M, N, T = "simulator/module.go", "simulator/node.go", "simulator/transaction.go"
H = '''package main

import (
	"fmt"
	"math/rand"
	"testing"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"github.com/yangl1996/rateless-set-reconcile/lt"
	"github.com/yangl1996/soliton"
)

func conf(th int, c, loss float64, sync time.Duration) serverConfig {
	return serverConfig{blockArrivalIntv: 5 / float64(time.Second), blockArrivalBurst: 1, decoderMemory: 50000,
		senderConfig: senderConfig{c, th}, receiverConfig: receiverConfig{th, loss}, forceSynchronize: sync}
}

func world(n int, seed int64, cfg serverConfig) []*server {
	txgen = newTransactionGenerator()
	s := newServers(&des.Simulator{}, n, seed, cfg)
	for _, x := range s {
		x.forwardRateLimiter.minInterval = 10
	}
	return s
}

type ev struct {
	at       time.Duration
	p        any
	from, to *server
}

var now time.Duration
var queue []ev
var sent []ev // everything scheduled

func put(from *server, out []des.OutgoingMessage) {
	for _, o := range out {
		if _, is := o.Payload.(blockArrival); is {
			continue
		}
		if _, is := o.Payload.(createNewBlock); is {
			continue
		}
		e := ev{now + o.Delay, o.Payload, from, from}
		if o.To != nil {
			e.to = o.To.(*server)
		}
		sent = append(sent, e)
		i := len(queue)
		for i > 0 && queue[i-1].at > e.at {
			i--
		}
		queue = append(queue, ev{})
		copy(queue[i+1:], queue[i:])
		queue[i] = e
	}
}

func arrive(s *server, n int) { put(s, s.HandleMessage(blockArrival{n}, s, now)) }

func run(steps int) {
	for k := 0; k < steps && len(queue) > 0; k++ {
		e := queue[0]
		queue = queue[1:]
		now = e.at
		put(e.to, e.to.HandleMessage(e.p, e.from, now))
	}
}

// alone gives a server with one peer that never answers by itself.
func alone(seed int64, cfg serverConfig) (s, p *server) {
	x := world(2, seed, cfg)
	connectServers(x[0], x[1], 10)
	return x[0], x[1]
}

// own runs only the server's own events and returns the codewords it sent.
func own(s *server, steps int) (cws []codeword) {
	for k := 0; k < steps && len(queue) > 0; k++ {
		e := queue[0]
		queue = queue[1:]
		now = e.at
		if e.to == s {
			put(s, s.HandleMessage(e.p, e.from, now))
		} else if cw, is := e.p.(codeword); is {
			cws = append(cws, cw)
		}
	}
	return
}

var _ = fmt.Sprint
var _ = rand.Int
var _ lt.Transaction[transaction]
var _ = soliton.NewRobustSoliton
'''
SEEDS = [
dict(id="c24-timestamp-32bit", prop="C24", pkg="simulator",
 edits=[(T, "return transaction{d.idx ^ t2.idx, d.ts ^ t2.ts}", "x := uint32(d.ts) ^ uint32(t2.ts)\n\treturn transaction{d.idx ^ t2.idx, time.Duration(x)}")],
 needs="a transaction generated more than 4.3 simulated seconds after the start",
 breaks="nodes register the transaction with a wrong timestamp",
 demo=H + '''
func TestDemo(t *testing.T) {
	x := world(2, 1, conf(2, 0.2, 0, 0))
	connectServers(x[0], x[1], 10)
	now = 10 * time.Second
	arrive(x[0], 20)
	run(3000)
	for d := range x[1].received {
		if d.ts < 10*time.Second {
			t.Fatal(d)
		}
	}
	if len(x[1].received) == 0 {
		t.Fatal("nothing received")
	}
}
'''),
dict(id="c24-smoothing-forgets-batch", prop="C24", pkg="simulator",
 edits=[(M, "\tfor _, tx := range txs {\n\t\tout = append(out, des.OutgoingMessage{loopback{tx}, nil, nextSlot-ts})\n\t\ts.forwardRateLimiter.lastScheduled = nextSlot\n", "\tif len(txs) > 0 {\n\t\ts.forwardRateLimiter.lastScheduled = nextSlot\n\t}\n\tfor _, tx := range txs {\n\t\tout = append(out, des.OutgoingMessage{loopback{tx}, nil, nextSlot-ts})\n")],
 needs="a second batch of transactions while the first, of more than one, is still being smoothed",
 breaks="transactions are offered faster than the smoothing interval",
 demo=H + '''
func TestDemo(t *testing.T) {
	x := world(1, 1, conf(2, 0.2, 0, 0))
	now = 1000
	arrive(x[0], 5)
	arrive(x[0], 5)
	for i := 1; i < len(queue); i++ {
		if queue[i].at-queue[i-1].at < 10 {
			t.Fatal(queue[i].at, queue[i-1].at)
		}
	}
}
'''),
dict(id="c24-backlogged-peer-skipped", prop="C24", pkg="simulator",
 edits=[(N, "\tn.buffer = append(n.buffer, tx)\n\tn.tryFill", "\tif len(n.buffer) < 600 {\n\t\tn.buffer = append(n.buffer, tx)\n\t}\n\tn.tryFill")],
 needs="more than 600 transactions waiting on a link",
 breaks="further transactions are never offered to that peer",
 demo=H + '''
func TestDemo(t *testing.T) {
	s, p := alone(1, conf(5, 0.1, 0, 0))
	arrive(s, 1000)
	cws := own(s, 100000)
	for k := 0; k < len(cws); k++ {
		put(s, s.HandleMessage(ack{k == 0}, p, now))
	}
	if n := len(s.handlers[p].sender.currentBlock); n != 950 {
		t.Fatal("second block", n)
	}
}
'''),
dict(id="c24-latency-warmup-by-origin", prop="C24", pkg="simulator",
 edits=[(T, "func (t *distributionSketch) recordTxLatency(tx transaction, tp time.Duration) {\n\tif t == nil {\n\t\treturn\n\t}\n\tif t.warmup > tp {", "func (t *distributionSketch) recordTxLatency(tx transaction, tp time.Duration) {\n\tif t == nil {\n\t\treturn\n\t}\n\tif t.warmup > tx.ts {")],
 needs="a transaction generated before the end of the warm-up and decoded after it",
 breaks="its latency is not recorded",
 demo=H + '''
func TestDemo(t *testing.T) {
	x := world(2, 1, conf(2, 0.2, 0, 0))
	connectServers(x[0], x[1], 10000)
	x[1].latencySketch = newDistributionSketch(9000)
	arrive(x[0], 20)
	run(3000)
	if x[1].latencySketch.sketch.GetCount() != float64(x[1].decodedTransactions) {
		t.Fatal(x[1].latencySketch.sketch.GetCount(), x[1].decodedTransactions)
	}
}
'''),
dict(id="c25-loss-limit-rounded", prop="C25", pkg="simulator",
 edits=[(N, "limit := int(float64(len(n.curCodewords)) * n.targetCodewordLoss)", "limit := int(float64(len(n.curCodewords)) * n.targetCodewordLoss + 0.5)")],
 needs="a positive tolerated loss and a fraction of undecoded codewords just above it",
 breaks="a block is acknowledged with more than the tolerated fraction undecoded",
 demo=H + '''
func TestDemo(t *testing.T) {
	s, p := alone(1, conf(5, 0.1, 0.1, 0))
	r := rand.New(rand.NewSource(5))
	for try := 0; try < 200; try++ {
		e := lt.NewEncoder[transaction](r, testKey, soliton.NewRobustSoliton(r, 30, 0.03, 0.5), 30)
		for i := 0; i < 30; i++ {
			e.AddTransaction(lt.NewTransaction[transaction](transaction{uint64(1000 + try*100 + i), 5}))
		}
		shadow := lt.NewDecoder[transaction](testKey, 50000)
		var stubs []*lt.PendingCodeword[transaction]
		for k := 0; k < 100; k++ {
			cw := codeword{e.ProduceCodeword(), k == 0}
			st, _ := shadow.AddCodeword(cw.Codeword)
			stubs = append(stubs, st)
			done := false
			for _, o := range s.HandleMessage(cw, p, 5) {
				if a, is := o.Payload.(ack); is && a.ackBlock {
					done = true
				}
			}
			if done {
				un := 0
				for _, x := range stubs {
					if !x.Decoded() {
						un++
					}
				}
				if float64(un) > 0.1*float64(len(stubs)) {
					t.Fatal(un, "of", len(stubs), "undecoded")
				}
				break
			}
		}
	}
}
'''),
dict(id="c25-recent-codewords-only", prop="C25", pkg="simulator",
 edits=[(N, "\tn.curCodewords = append(n.curCodewords, stub)\n", "\tn.curCodewords = append(n.curCodewords, stub)\n\tif len(n.curCodewords) > 128 {\n\t\t// bound the number of codewords tracked\n\t\tn.curCodewords = n.curCodewords[1:]\n\t}\n")],
 needs="a block of which more than 128 codewords arrive, the undecoded ones early",
 breaks="the block is acknowledged while more than the tolerated fraction of its codewords is undecoded",
 demo=H + '''
type degs struct{ n int }

func (d *degs) Uint64() uint64 {
	d.n++
	if d.n <= 40 {
		return 2
	}
	return 1
}

func TestDemo(t *testing.T) {
	s, p := alone(1, conf(5, 0.1, 0, 0))
	r := rand.New(rand.NewSource(5))
	// 40 codewords of degree two over many transactions, then only single ones
	// over transactions the node knows
	e := lt.NewEncoder[transaction](r, testKey, &degs{}, 2000)
	for i := 0; i < 2000; i++ {
		e.AddTransaction(lt.NewTransaction[transaction](transaction{uint64(1000 + i), 5}))
	}
	shadow := lt.NewDecoder[transaction](testKey, 50000)
	var stubs []*lt.PendingCodeword[transaction]
	for k := 0; k < 200; k++ {
		cw := codeword{e.ProduceCodeword(), k == 0}
		st, _ := shadow.AddCodeword(cw.Codeword)
		stubs = append(stubs, st)
		for _, o := range s.HandleMessage(cw, p, 5) {
			if a, is := o.Payload.(ack); is && a.ackBlock {
				for _, x := range stubs {
					if !x.Decoded() {
						t.Fatal("acknowledged with undecoded codewords")
					}
				}
			}
		}
	}
}
'''),
dict(id="c25-block-size-cap", prop="C25", pkg="simulator",
 edits=[(N, "\t\t\tblockSize := len(n.buffer)\n", "\t\t\tblockSize := len(n.buffer)\n\t\t\tif blockSize > 512 {\n\t\t\t\tblockSize = 512\n\t\t\t}\n")],
 needs="more than 512 transactions buffered when a block starts",
 breaks="not all buffered transactions go into the block",
 demo=H + '''
func TestDemo(t *testing.T) {
	s, p := alone(1, conf(5, 0.1, 0, 0))
	arrive(s, 1000)
	cws := own(s, 100000)
	for k := 0; k < len(cws); k++ {
		put(s, s.HandleMessage(ack{k == 0}, p, now))
	}
	if n := len(s.handlers[p].sender.currentBlock); n != 950 {
		t.Fatal("second block", n)
	}
}
'''),
dict(id="c25-window-never-shrinks", prop="C25", pkg="simulator",
 edits=[(N, "\t\t\tn.sendWindow = int(float64(blockSize) * n.controlOverhead)\n", "\t\t\tif w := int(float64(blockSize) * n.controlOverhead); w > n.sendWindow {\n\t\t\t\tn.sendWindow = w\n\t\t\t}\n")],
 needs="a large block followed by a small one on the same link",
 breaks="more codewords are unacknowledged than the small block's window allows",
 demo=H + '''
func TestDemo(t *testing.T) {
	s, p := alone(1, conf(5, 0.1, 0, 0))
	answer := func(n int) {
		for k := 0; k < n; k++ {
			put(s, s.HandleMessage(ack{k == n-1}, p, now))
		}
	}
	flight := 0
	step := func() { flight += len(own(s, 100000)) }
	arrive(s, 50)
	step()
	arrive(s, 500)
	step()
	answer(flight)
	flight = 0
	step() // the block of 500
	arrive(s, 60)
	for k := 0; k < 100; k++ {
		step()
		if flight == 0 {
			break
		}
		answer(flight)
		flight = 0
		step()
		if len(s.handlers[p].sender.currentBlock) == 60 {
			break
		}
	}
	if len(s.handlers[p].sender.currentBlock) != 60 {
		t.Fatal(len(s.handlers[p].sender.currentBlock))
	}
	for k := 0; k < 3; k++ { // acknowledge everything without completing the block
		for j := 0; j < flight; j++ {
			put(s, s.HandleMessage(ack{false}, p, now))
		}
		flight = 0
		step()
	}
	if flight > 6 {
		t.Fatal(flight)
	}
}
'''),
dict(id="c25-sync-ignored-under-backlog", prop="C25", pkg="simulator",
 edits=[(N, "func (n *sender) onAck(ack ack, mayStartNewBlock bool) {\n", "func (n *sender) onAck(ack ack, mayStartNewBlock bool) {\n\tif float64(len(n.buffer)) * n.controlOverhead > 4 * float64(n.detectThreshold) {\n\t\tmayStartNewBlock = true\n\t}\n")],
 needs="a synchronization period and four minimum blocks of backlog",
 breaks="blocks start outside the synchronization ticks",
 demo=H + '''
func TestDemo(t *testing.T) {
	s, p := alone(1, conf(5, 0.1, 0, 1000))
	arrive(s, 50)
	own(s, 1000)
	put(s, s.HandleMessage(createNewBlock{}, s, now))
	n := len(own(s, 1000))
	arrive(s, 300)
	own(s, 1000)
	for k := 0; k < n; k++ {
		put(s, s.HandleMessage(ack{k == n-1}, p, now))
	}
	for _, cw := range own(s, 1000) {
		if cw.newBlock {
			t.Fatal("block started between ticks")
		}
	}
}
'''),
dict(id="c26-global-random-for-large-blocks", prop="C26", pkg="simulator",
 edits=[(N, "\t\t\tdist := soliton.NewRobustSoliton(n.rng, uint64(blockSize), 0.03, 0.5)\n", "\t\t\tdist := soliton.NewRobustSoliton(n.rng, uint64(blockSize), 0.03, 0.5)\n\t\t\tif blockSize > 200 {\n\t\t\t\t// keep the degrees of large blocks independent of the sampling\n\t\t\t\tdist = soliton.NewRobustSoliton(rand.New(rand.NewSource(rand.Int63())), uint64(blockSize), 0.03, 0.5)\n\t\t\t}\n")],
 needs="a block of more than 200 transactions",
 breaks="two runs with the same seed differ",
 demo=H + '''
func TestDemo(t *testing.T) {
	var want string
	for k := 0; k < 5; k++ {
		now, queue = 0, nil
		s, p := alone(1, conf(5, 0.1, 0, 0))
		arrive(s, 1000)
		cws := own(s, 100000)
		for k := 0; k < len(cws); k++ {
			put(s, s.HandleMessage(ack{k == 0}, p, now))
		}
		got := fmt.Sprint(own(s, 10000))
		if k > 0 && got != want {
			t.Fatal("runs differ")
		}
		want = got
	}
}
'''),
dict(id="c26-seed-truncated", prop="C26", pkg="simulator",
 edits=[(M, "rand.New(rand.NewSource(startingSeed+int64(i)))", "rand.New(rand.NewSource(int64(uint32(startingSeed)) + int64(i)))")],
 needs="two seeds that differ only above bit 31",
 breaks="different seeds give the same run",
 demo=H + '''
func TestDemo(t *testing.T) {
	var res []string
	for _, seed := range []int64{5, 5 + 1<<33} {
		now, queue = 0, nil
		s, _ := alone(seed, conf(5, 0.1, 0, 0))
		arrive(s, 100)
		res = append(res, fmt.Sprint(own(s, 100000)))
	}
	if res[0] == res[1] {
		t.Fatal("same run")
	}
}
'''),
dict(id="c26-block-dedup-by-map", prop="C26", pkg="simulator",
 edits=[(N, "\t\t\tfor i := 0; i < blockSize; i++ {\n\t\t\t\tres := n.Encoder.AddTransaction(n.buffer[i])\n", "\t\t\torder := make(map[transaction]int)\n\t\t\tfor i := 0; i < blockSize; i++ {\n\t\t\t\torder[n.buffer[i].Data()] = i\n\t\t\t}\n\t\t\tfor _, i := range order {\n\t\t\t\tres := n.Encoder.AddTransaction(n.buffer[i])\n")],
 needs="two runs in the same or in different processes",
 breaks="the order of a block follows map iteration, so runs with the same seed differ",
 demo=H + '''
func TestDemo(t *testing.T) {
	var want string
	for k := 0; k < 5; k++ {
		now, queue = 0, nil
		s, _ := alone(1, conf(5, 0.1, 0, 0))
		arrive(s, 100)
		got := fmt.Sprint(own(s, 100000))
		if k > 0 && got != want {
			t.Fatal("runs differ")
		}
		want = got
	}
}
'''),
]
