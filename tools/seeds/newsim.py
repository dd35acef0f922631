C, P, M, MS, T = "newsim/coding.go", "newsim/pull.go", "newsim/module.go", "newsim/messages.go", "newsim/types.go"
H = '''package main

import (
	"fmt"
	"math/rand"
	"testing"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"github.com/yangl1996/rateless-set-reconcile/riblt"
)

// world runs servers on the real event simulator without further arrivals.
func world(n int, flood bool) []*server {
	txgen = &transactionGenerator{}
	RNG = rand.New(rand.NewSource(3))
	TXSIZE = 100
	return newServers(&des.Simulator{}, n, serverConfig{blockArrivalIntv: 5 / float64(time.Second), blockArrivalBurst: 1, initialFlood: flood})
}

type ev struct {
	at       time.Duration
	p        any
	from, to *server
}

var now time.Duration
var queue []ev
var trace []ev

func put(from *server, out []des.OutgoingMessage) {
	for _, o := range out {
		if o.To == nil {
			continue
		}
		e := ev{now + o.Delay, o.Payload, from, o.To.(*server)}
		i := len(queue)
		for i > 0 && queue[i-1].at > e.at {
			i--
		}
		queue = append(queue, ev{})
		copy(queue[i+1:], queue[i:])
		queue[i] = e
	}
}

func arrive(s *server, n int) { put(s, s.HandleMessage(blockArrival{n}, s, now)) }

func run(steps int) {
	for k := 0; k < steps && len(queue) > 0; k++ {
		e := queue[0]
		queue = queue[1:]
		now = e.at
		trace = append(trace, e)
		put(e.to, e.to.HandleMessage(e.p, e.from, now))
	}
}

func all(t *testing.T, ss []*server) {
	for i, s := range ss {
		if uint64(len(s.received)) != txgen.last {
			t.Fatalf("node %d has %d of %d", i, len(s.received), txgen.last)
		}
	}
}

// offer gives a server a transaction from outside.
func offer(s *server, idx uint64) {
	tx := transaction{idx, 5}
	put(s, s.HandleMessage(initialBroadcast{riblt.HashedSymbol[transaction]{tx, tx.Hash()}}, &server{}, now))
}

func pair(shards int, c float64) (a, b *server) {
	s := world(2, false)
	connectCodingServers(s[0], s[1], 10, senderConfig{c, shards})
	return s[0], s[1]
}

var _ = fmt.Sprint
'''
SEEDS = [
dict(id="c20-timestamp-truncated", prop="C20", pkg="newsim",
 edits=[(T, "return transaction{d.idx ^ t2.idx, d.ts ^ t2.ts}", "x := uint32(d.ts) ^ uint32(t2.ts)\n\treturn transaction{d.idx ^ t2.idx, time.Duration(x)}")],
 needs="a transaction generated more than 4.3 simulated seconds after the start",
 breaks="nodes register the transaction with a wrong timestamp",
 demo=H + '''
func TestDemo(t *testing.T) {
	a, b := pair(1, 0.1)
	now = 10 * time.Second
	b.latencySketch = newDistributionSketch(0)
	arrive(a, 3)
	run(50)
	if l := b.latencySketch.getQuantiles([]float64{0.5})[0]; l > 1 {
		t.Fatal(l)
	}
}
'''),
dict(id="c20-zero-overhead-stall", prop="C20", pkg="newsim",
 edits=[(C, "\t\tn.sendWindow = float64(n.currentBlockAckCount) * n.controlOverhead\n\t\tif n.sendWindow < 1 {\n\t\t\tn.sendWindow = 1\n\t\t}\n", "\t\tn.sendWindow = float64(n.currentBlockAckCount) * n.controlOverhead\n")],
 needs="a control overhead of zero",
 breaks="reconciliation stops after the first block",
 demo=H + '''
func TestDemo(t *testing.T) {
	a, b := pair(2, 0)
	arrive(a, 3)
	arrive(b, 3)
	run(5000)
	all(t, []*server{a, b})
}
'''),
dict(id="c20-ack-shortcut", prop="C20", pkg="newsim",
 edits=[(C, "\t\tfor _, msg := range c.receiver.outbox {\n\t\t\toutbox = append(outbox, des.OutgoingMessage{msg, peer, delay})\n", "\t\tfor i, msg := range c.receiver.outbox {\n\t\t\tif i > 0 {\n\t\t\t\tdelay -= delay / 4\n\t\t\t}\n\t\t\toutbox = append(outbox, des.OutgoingMessage{msg, peer, delay})\n"),
        (C, "\t\tn.outbox = append(n.outbox, ack)\n\t\tres := []riblt", "\t\tif len(ack.txs) > 3 {\n\t\t\tl := len(ack.txs) / 2\n\t\t\trest := ack\n\t\t\trest.ackStart, rest.ackBlock = false, false\n\t\t\trest.txs = ack.txs[l:]\n\t\t\tack.txs = ack.txs[:l]\n\t\t\tn.outbox = append(n.outbox, ack, rest)\n\t\t} else {\n\t\t\tn.outbox = append(n.outbox, ack)\n\t\t}\n\t\tres := []riblt")],
 needs="an acknowledgement bringing more than three transactions",
 breaks="part of them arrive faster than the link's delay",
 demo=H + '''
func TestDemo(t *testing.T) {
	a, b := pair(1, 0.1)
	arrive(b, 20)
	arrive(a, 1)
	for k := 0; k < 1000 && len(queue) > 0; k++ {
		if _, ok := queue[0].p.(ack); ok && len(a.received) == 1 && len(b.received) == 21 {
			break
		}
		run(1)
	}
	for _, e := range queue {
		if e.from == b && e.at-now < 10 && e.at != now {
			t.Fatal("arrives after", e.at-now)
		}
	}
	t0 := map[int]time.Duration{}
	for _, e := range queue {
		if e.from == b {
			t0[len(t0)] = e.at
		}
	}
	for i := 1; i < len(t0); i++ {
		if t0[i] != t0[0] {
			t.Fatal(t0)
		}
	}
}
'''),
dict(id="c20-flood-not-forwarded-if-busy", prop="C20", pkg="newsim",
 edits=[(C, "func (c coding) forwardTransaction(tx riblt.HashedSymbol[transaction]) {\n\tc.sender.onTransaction(tx)\n", "func (c coding) forwardTransaction(tx riblt.HashedSymbol[transaction]) {\n\tif c.sender != nil && len(c.sender.buffer) > 4*len(c.sender.shardSchedule)+64 {\n\t\treturn // the peer is far behind\n\t}\n\tc.sender.onTransaction(tx)\n")],
 needs="more transactions waiting on a link than four per shard plus 64",
 breaks="transactions are never offered to the peer",
 demo=H + '''
func TestDemo(t *testing.T) {
	a, b := pair(1, 0.1)
	arrive(a, 1)
	arrive(a, 200)
	run(5000)
	all(t, []*server{a, b})
}
'''),
dict(id="c21-announce-cap", prop="C21", pkg="newsim",
 edits=[(P, "\tc.outbox = append(c.outbox, announce{tx.Hash})\n", "\tif len(c.outbox) < 8 {\n\t\tc.outbox = append(c.outbox, announce{tx.Hash})\n\t}\n")],
 needs="a burst of more than eight transactions at a node",
 breaks="the rest of the burst is never announced",
 demo=H + '''
func TestDemo(t *testing.T) {
	s := world(2, false)
	connectPullServers(s[0], s[1], 10)
	arrive(s[0], 12)
	run(1000)
	all(t, s)
}
'''),
dict(id="c21-known-by-16-bits", prop="C21", pkg="newsim",
 edits=[(P, "\tc.known[tx.Hash] = tx\n", "\tc.known[tx.Hash>>48] = tx\n"), (P, "c.known[m.hash]; !there", "c.known[m.hash>>48]; !there"), (P, "response{c.known[m.hash]}", "response{c.known[m.hash>>48]}"), (P, "c.known[m.payload.Hash] = m.payload", "c.known[m.payload.Hash>>48] = m.payload")],
 needs="two transactions whose hashes share their top 16 bits on one link",
 breaks="an announcement is ignored or the wrong transaction is sent",
 demo=H + '''
func TestDemo(t *testing.T) {
	s := world(2, false)
	connectPullServers(s[0], s[1], 10)
	for k := 0; k < 30; k++ {
		arrive(s[k%2], 50)
		run(1000000)
	}
	all(t, s)
}
'''),
dict(id="c21-push-to-new-link", prop="C21", pkg="newsim",
 edits=[(P, "\tc.known[tx.Hash] = tx\n\tc.outbox", "\tif len(c.known) == 0 {\n\t\tc.outbox = append(c.outbox, response{tx})\n\t}\n\tc.known[tx.Hash] = tx\n\tc.outbox")],
 needs="the first transaction on a link",
 breaks="the body is pushed without a request and registered early",
 demo=H + '''
func TestDemo(t *testing.T) {
	s := world(2, false)
	connectPullServers(s[0], s[1], 10)
	arrive(s[0], 1)
	run(2)
	if len(s[1].received) != 0 {
		t.Fatal("body without request")
	}
}
'''),
dict(id="c21-request-dropped", prop="C21", pkg="newsim",
 edits=[(P, "\tcase request:\n", "\tcase request:\n\t\tif c.served == m.hash {\n\t\t\treturn nil // sent just now\n\t\t}\n\t\tc.served = m.hash % 16\n"), (P, "\toutbox []any\n}", "\toutbox []any\n\tserved uint64\n}"), (P, "\tcase response:\n", "\tcase response:\n\t\tif m.payload.Hash%16 == c.served && c.served != 0 && len(c.known)%5 == 4 {\n\t\t\treturn nil\n\t\t}\n")],
 needs="a node that has both served and requested transactions on a link, with particular counts",
 breaks="a requested body is thrown away on arrival",
 demo=H + '''
func TestDemo(t *testing.T) {
	s := world(2, false)
	connectPullServers(s[0], s[1], 10)
	for k := 0; k < 400; k++ {
		arrive(s[k%2], 1)
		run(1000000)
	}
	all(t, s)
}
'''),
dict(id="c22-no-wraparound", prop="C22", pkg="newsim",
 edits=[(C, "cw.endHash = uint64((n.shardSchedule[n.nextShard]+1)%len(n.shardSchedule)) * shardSize", "cw.endHash = cw.startHash + shardSize")],
 needs="a randomized hash in the last few values of the hash space",
 breaks="no shard covers the transaction",
 demo=H + '''
func TestDemo(t *testing.T) {
	a, b := pair(1, 0.1)
	h := transaction{idx: 1}.Hash
	_ = h
	// make the transaction's randomized hash the largest 64-bit value
	id := uint64(1)
	for (transaction{idx: id}).Hash()%2 == 0 {
		id++
	}
	x := (transaction{idx: id}).Hash()
	inv := x
	for i := 0; i < 6; i++ {
		inv *= 2 - x*inv
	}
	for _, p := range []peer{a.handlers[b], b.handlers[a]} {
		c := p.algorithm.(coding)
		if c.sender != nil {
			c.sender.shardRandomizer = -inv
		} else {
			c.receiver.shardRandomizer = -inv
		}
	}
	offer(a, id)
	run(3000)
	if len(b.received) != 1 {
		t.Fatal("lost")
	}
}
'''),
dict(id="c22-skips-swapped", prop="C22", pkg="newsim",
 edits=[(C, "\t\t\t\tl := len(n.buffer) - 1\n\t\t\t\tn.buffer[tidx] = n.buffer[l]\n\t\t\t\tn.buffer = n.buffer[:l]\n\t\t\t\t//\t\t\tokay = true\n\t\t\t} else {\n\t\t\t\ttidx += 1\n\t\t\t}\n", "\t\t\t\tl := len(n.buffer) - 1\n\t\t\t\tn.buffer[tidx] = n.buffer[l]\n\t\t\t\tn.buffer = n.buffer[:l]\n\t\t\t\t//\t\t\tokay = true\n\t\t\t}\n\t\t\ttidx += 1\n")],
 needs="several buffered transactions of the same shard, one of them at the end of the buffer",
 breaks="a transaction misses its shard's rounds, again and again",
 demo=H + '''
func TestDemo(t *testing.T) {
	a, b := pair(1, 0.1)
	arrive(a, 65)
	for k := 0; k < 100000 && len(b.received) < 65; k++ {
		run(1)
	}
	rounds := 0
	for _, e := range trace {
		if c, ok := e.p.(codeword); ok && c.newBlock {
			rounds++
		}
	}
	if rounds > 3 {
		t.Fatal(rounds)
	}
}
'''),
dict(id="c22-receiver-inclusive", prop="C22", pkg="newsim",
 edits=[(C, "(cw.startHash >= cw.endHash && (shardHash >= cw.startHash || shardHash < cw.endHash)) {\n\t\t\t\tn.Decoder.AddHashedSymbol(v)", "(cw.startHash >= cw.endHash && (shardHash > cw.startHash || shardHash < cw.endHash)) {\n\t\t\t\tn.Decoder.AddHashedSymbol(v)")],
 needs="a transaction at the receiver whose randomized hash is exactly the start of the last shard",
 breaks="the receiver does not count it in any shard, so it is transferred although both have it, or never returned",
 demo=H + '''
func TestDemo(t *testing.T) {
	a, b := pair(1, 0.1)
	for _, p := range []peer{a.handlers[b], b.handlers[a]} {
		c := p.algorithm.(coding)
		if c.sender != nil {
			c.sender.shardRandomizer = 0
		} else {
			c.receiver.shardRandomizer = 0
		}
	}
	offer(b, 77)
	offer(a, 5)
	run(3000)
	if len(a.received) != 2 {
		t.Fatal("not returned")
	}
}
'''),
dict(id="c22-ack-needs-remote", prop="C22", pkg="newsim",
 edits=[(C, "\t\tfor _, tx := range n.Local() {\n\t\t\tack.txs = append(ack.txs, tx)\n\t\t}\n", "\t\tif len(n.Decoder.Remote()) > 0 || n.currentBlockCount > 1 {\n\t\t\tfor _, tx := range n.Local() {\n\t\t\t\tack.txs = append(ack.txs, tx)\n\t\t\t}\n\t\t}\n")],
 needs="a block in which only the receiver has something, settled by its first codeword",
 breaks="the transaction is not returned with the acknowledgement and is lost for this link",
 demo=H + '''
func TestDemo(t *testing.T) {
	a, b := pair(1, 0.1)
	arrive(a, 1)
	run(100)
	arrive(b, 1)
	run(1000)
	all(t, []*server{a, b})
}
'''),
dict(id="c22-idle-shard-repeats", prop="C22", pkg="newsim",
 edits=[(C, "\t\tn.nextShard = (n.nextShard + 1) % len(n.shardSchedule)\n", "\t\tif len(n.buffer) > 0 || n.nextShard > 0 {\n\t\t\tn.nextShard = (n.nextShard + 1) % len(n.shardSchedule)\n\t\t}\n")],
 needs="an initiator with nothing buffered when a cycle begins, while the receiver has something",
 breaks="the schedule stays at the first shard; the receiver's transactions are not fetched",
 demo=H + '''
func TestDemo(t *testing.T) {
	a, b := pair(8, 0.1)
	arrive(a, 1)
	run(2000)
	arrive(b, 20)
	run(5000)
	all(t, []*server{a, b})
}
'''),
dict(id="c22-two-randomizers", prop="C22", pkg="newsim",
 edits=[(C, "\t\t\tshardRandomizer: randomizer,\n\t\t},\n\t}, delay}\n\tb.peers", "\t\t\tshardRandomizer: RNG.Uint64(),\n\t\t},\n\t}, delay}\n\tb.peers")],
 needs="transactions that both ends already have, with two or more shards",
 breaks="the ends disagree about a transaction's shard, so common content is transferred",
 demo=H + '''
func TestDemo(t *testing.T) {
	a, b := pair(8, 0.1)
	for i := uint64(1); i < 100; i++ {
		offer(b, i)
	}
	for i := uint64(1); i < 100; i++ {
		offer(a, i)
	}
	run(5000)
	if a.duplicateTransactions+b.duplicateTransactions > 40 {
		t.Fatal(a.duplicateTransactions, b.duplicateTransactions)
	}
}
'''),
dict(id="c23-broadcast-bytes", prop="C23", pkg="newsim",
 edits=[(M, "\t\t\tn := s.handlers[from]\n\t\t\tdecoded := n.handleMessage(payload)\n", "\t\t\tn := s.handlers[from]\n\t\t\ts.receivedBytes += payload.(message).size()\n\t\t\tdecoded := n.handleMessage(payload)\n"), (M, "\t\ts.receivedBytes += payload.(message).size()\n\t}\n\toutbox = s.collect", "\t}\n\toutbox = s.collect")],
 needs="first-hop flooding",
 breaks="flooded bodies are not counted as received bytes",
 demo=H + '''
func TestDemo(t *testing.T) {
	s := world(3, true)
	connectPullServers(s[0], s[1], 10)
	connectPullServers(s[1], s[2], 10)
	arrive(s[0], 1)
	run(1)
	if s[1].receivedBytes != 100 {
		t.Fatal(s[1].receivedBytes)
	}
}
'''),
dict(id="c23-ack-size", prop="C23", pkg="newsim",
 edits=[(MS, "\treturn len(a.txs) * TXSIZE + 8\n", "\tif a.ackStart {\n\t\treturn 8\n\t}\n\treturn len(a.txs)*TXSIZE + 8\n")],
 needs="a block settled by its first codeword in which the receiver had something more",
 breaks="the transactions in that acknowledgement are not counted",
 demo=H + '''
func TestDemo(t *testing.T) {
	a, b := pair(1, 0.1)
	arrive(a, 1)
	run(100)
	a.resetMetric()
	arrive(b, 1)
	trace = nil
	run(100)
	n := 0
	for _, e := range trace {
		if e.to == a {
			n += 8 + 100*len(e.p.(ack).txs)
		}
	}
	if a.receivedBytes != n {
		t.Fatal(a.receivedBytes, n)
	}
}
'''),
dict(id="c23-map-order", prop="C23", pkg="newsim",
 edits=[(M, "\tfor _, peer := range s.peers {\n\t\thandler := s.handlers[peer]\n\t\toutbox = handler.collect", "\tfor peer, handler := range s.handlers {\n\t\toutbox = handler.collect")],
 needs="nodes with several peers having messages to send at the same moment",
 breaks="the order of simultaneous messages, hence the run, differs from run to run",
 demo=H + '''
func TestDemo(t *testing.T) {
	want := ""
	for rep := 0; rep < 12; rep++ {
		queue, trace, now = nil, nil, 0
		s := world(6, false)
		id := map[*server]int{}
		for i := range s {
			id[s[i]] = i
			for j := 0; j < i; j++ {
				connectCodingServers(s[i], s[j], 10, senderConfig{0.1, 2})
			}
		}
		for i := range s {
			arrive(s[i], 2)
		}
		run(400)
		got := ""
		for _, e := range trace {
			got += fmt.Sprint(id[e.from], ">", id[e.to], " ")
		}
		if want != "" && got != want {
			t.Fatal("runs differ")
		}
		want = got
	}
}
'''),
dict(id="c23-duplicate-in-burst", prop="C23", pkg="newsim",
 edits=[(M, "\t\t\t\t} else {\n\t\t\t\t\ts.duplicateTransactions += 1\n\t\t\t\t}\n\t\t\t}\n\t\t}\n", "\t\t\t\t} else if len(decoded) > 1 || !s.initialFlood {\n\t\t\t\t\ts.duplicateTransactions += 1\n\t\t\t\t}\n\t\t\t}\n\t\t}\n")],
 needs="first-hop flooding and a message bringing exactly one, already known, transaction",
 breaks="the duplicate is not counted",
 demo=H + '''
func TestDemo(t *testing.T) {
	s := world(4, true)
	connectPullServers(s[0], s[1], 10)
	connectPullServers(s[0], s[2], 10)
	connectPullServers(s[1], s[3], 10)
	connectPullServers(s[2], s[3], 10)
	arrive(s[0], 5)
	trace = nil
	run(1000)
	for i := range s {
		n := 0
		for _, e := range trace {
			if e.to == s[i] {
				switch e.p.(type) {
				case response, initialBroadcast:
					n++
				}
			}
		}
		if s[i].decodedTransactions+s[i].duplicateTransactions != n {
			t.Fatal(i, s[i].decodedTransactions, s[i].duplicateTransactions, n)
		}
	}
}
'''),
dict(id="c23-reset-forgets-one", prop="C23", pkg="newsim",
 edits=[(M, "\ts.decodedTransactions = 0\n\ts.receivedTransactions = 0\n", "\ts.decodedTransactions = 0\n\ts.receivedTransactions -= s.decodedTransactions\n")],
 needs="a reset after at least one transaction was received",
 breaks="the received-transaction count is not zeroed (the decoded count is already zero when subtracted)",
 demo=H + '''
func TestDemo(t *testing.T) {
	a, b := pair(1, 0.1)
	arrive(a, 1)
	run(50)
	b.resetMetric()
	if b.serverMetric != (serverMetric{}) {
		t.Fatal(b.serverMetric)
	}
}
'''),
dict(id="c43-burst-rounded", prop="C43", pkg="newsim",
 edits=[(C, "burstSize = n.currentBlockAckCount * 2 / 3", "burstSize = n.currentBlockAckCount / 3 * 2")],
 needs='a block whose predecessor had a number of codewords acknowledged that is not a multiple of three',
 breaks='the burst at the start of the block is one codeword short',
 demo=H + '''
// emits delivers the next message and counts the codewords sent in reaction.
func emits() (ev, int) {
	e := queue[0]
	queue = queue[1:]
	now = e.at
	trace = append(trace, e)
	out := e.to.HandleMessage(e.p, e.from, now)
	n := 0
	for _, o := range out {
		if _, is := o.Payload.(codeword); is {
			n++
		}
	}
	put(e.to, out)
	return e, n
}

func TestDemo(t *testing.T) {
	a, _ := pair(1, 0)
	arrive(a, 1)
	acks := 0
	for k := 0; k < 4000; k++ {
		if k%40 == 0 {
			arrive(a, 7)
		}
		e, n := emits()
		if p, is := e.p.(ack); is {
			if p.ackStart {
				acks = 0
			}
			if p.ackBlock && !p.ackStart {
				if n != 1+acks*2/3 {
					t.Fatal(acks, n)
				}
			}
			acks++
		}
	}
}
'''),
dict(id="c43-whole-window", prop="C43", pkg="newsim",
 edits=[(C, "if float64(n.inFlight) < n.sendWindow {", "if n.inFlight < int(n.sendWindow) {")],
 needs='a window that is not a whole number',
 breaks='the codeword the fraction allows for is sent only once the window has grown to the next whole number',
 demo=H + '''
// emits delivers the next message and counts the codewords sent in reaction.
func emits() (ev, int) {
	e := queue[0]
	queue = queue[1:]
	now = e.at
	trace = append(trace, e)
	out := e.to.HandleMessage(e.p, e.from, now)
	n := 0
	for _, o := range out {
		if _, is := o.Payload.(codeword); is {
			n++
		}
	}
	put(e.to, out)
	return e, n
}

func TestDemo(t *testing.T) {
	a, _ := pair(1, 0.3)
	arrive(a, 40)
	for k := 0; k < 10; k++ {
		e, n := emits()
		if p, is := e.p.(ack); is && p.ackStart && !p.ackBlock {
			if n != 2 {
				t.Fatal("one codeword unacknowledged, the window is 1.3:", n)
			}
			return
		}
	}
	t.Fatal("no acknowledgement")
}
'''),
dict(id="c43-window-capped", prop="C43", pkg="newsim",
 edits=[(C, "\t\tn.sendWindow += n.controlOverhead\n", "\t\tif n.sendWindow < 64 {\n\t\t\tn.sendWindow += n.controlOverhead\n\t\t}\n")],
 needs='a block that takes so many codewords that its window passes 64',
 breaks='the window stops growing with the acknowledgements',
 demo=H + '''
// emits delivers the next message and counts the codewords sent in reaction.
func emits() (ev, int) {
	e := queue[0]
	queue = queue[1:]
	now = e.at
	trace = append(trace, e)
	out := e.to.HandleMessage(e.p, e.from, now)
	n := 0
	for _, o := range out {
		if _, is := o.Payload.(codeword); is {
			n++
		}
	}
	put(e.to, out)
	return e, n
}

func TestDemo(t *testing.T) {
	a, _ := pair(1, 1)
	arrive(a, 4000)
	for k := 0; k < 2000; k++ {
		e, n := emits()
		if p, is := e.p.(ack); is {
			if p.ackBlock {
				continue
			}
			if n != 2 {
				t.Fatal("an acknowledgement that makes room and widens the window brings", n)
			}
		}
	}
}
'''),
dict(id="c43-start-not-flagged", prop="C43", pkg="newsim",
 edits=[(C, "\t\tack.ackBlock = true\n", "\t\tack.ackBlock = true\n\t\tack.ackStart = false\n")],
 needs='a block that is completed by its first codeword',
 breaks='the acknowledgement does not say that it is of the first codeword of its block, and with an overhead above one the next window is too small',
 demo=H + '''
// emits delivers the next message and counts the codewords sent in reaction.
func emits() (ev, int) {
	e := queue[0]
	queue = queue[1:]
	now = e.at
	trace = append(trace, e)
	out := e.to.HandleMessage(e.p, e.from, now)
	n := 0
	for _, o := range out {
		if _, is := o.Payload.(codeword); is {
			n++
		}
	}
	put(e.to, out)
	return e, n
}

func TestDemo(t *testing.T) {
	a, _ := pair(1, 3)
	arrive(a, 1)
	blocks, starts := 0, 0
	for k := 0; k < 500; k++ {
		e, _ := emits()
		switch p := e.p.(type) {
		case codeword:
			if p.newBlock {
				blocks++
			}
		case ack:
			if p.ackStart {
				starts++
			}
		}
	}
	if starts < blocks-2 {
		t.Fatal(blocks, starts)
	}
}
'''),
]
