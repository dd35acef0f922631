package VPKG

import (
	"container/heap"
	"fmt"
	"math"
	"math/rand"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"github.com/yangl1996/rateless-set-reconcile/riblt"
)

type hsym = riblt.HashedSymbol[transaction]

// rngSource feeds the package's RNG: the 64-bit draws are recorded and may be
// dictated, everything else is pseudo-random.
type rngSource struct {
	r     *rand.Rand
	force []uint64
	drawn []uint64
}

func (s *rngSource) Seed(int64)   {}
func (s *rngSource) Int63() int64 { return s.r.Int63() }
func (s *rngSource) Uint64() uint64 {
	v := s.r.Uint64()
	if len(s.force) > 0 {
		v, s.force = s.force[0], s.force[1:]
	}
	s.drawn = append(s.drawn, v)
	return v
}

// ---- event loop with order-preserving links -------------------------------

type event struct {
	at       time.Duration
	seq      int
	from, to int // node index; -1-i: observer of i
	payload  any
	arrival  int // >0: inject that many new transactions
}
type evq []event

func (q evq) Len() int { return len(q) }
func (q evq) Less(i, j int) bool {
	return q[i].at < q[j].at || q[i].at == q[j].at && q[i].seq < q[j].seq
}
func (q evq) Swap(i, j int) { q[i], q[j] = q[j], q[i] }
func (q *evq) Push(x any)   { *q = append(*q, x.(event)) }
func (q *evq) Pop() any {
	x := (*q)[len(*q)-1]
	*q = (*q)[:len(*q)-1]
	return x
}

type gen struct {
	tx     transaction
	hash   uint64
	origin int
	at     time.Duration
}

type edge struct {
	a, b  int
	delay time.Duration
}

// link is the reference model of one coded link at message level.
type link struct {
	a, b    int
	rand    uint64
	known   bool // the randomizer was observed
	bufA    map[uint64]bool
	bufB    map[uint64]bool
	curA    map[uint64]bool // content of the block at the sender
	curB    map[uint64]bool
	blocks  []map[uint64]bool // blocks sent whose first codeword is in flight
	started int
	offered bool // the initiating end had something to send
	done    int // blocks whose acknowledgement reached the sender
	starts  []uint64
	sentRes []map[uint64]bool // receiver-only content of blocks acknowledged, in flight
	flow    flow
}

type mon struct {
	c        *vC
	coding   bool
	flood    bool
	srv      []*server
	obs      []*server
	idx      map[des.Module]int
	edges    []edge
	adj      []map[int]time.Duration
	links    map[[2]int]*link // by (sender, receiver)
	q        evq
	seq      int
	now      time.Duration
	jitter   time.Duration
	last     map[[2]int]time.Duration
	gens     map[uint64]*gen
	byHash   map[uint64]uint64
	reg      []map[uint64]time.Duration
	stepOff  map[[2]int][]uint64 // offered during this step, by (node, peer)
	dist     map[int][]time.Duration
	requests map[[2]int]map[uint64]int
	burst    int
	reArm    bool // follow the servers' own arrival process
	cutoff   time.Duration
	ntx      int
	ext      *server // an outside source
	noEarly  bool
	src      *rngSource
	trace    []string
	keep     bool
	// per-node expected metrics
	bytes, recv, deliv []int
	base             []serverMetric
	msgs             map[string]int
	model            bool
	flowOn           bool
	overhead         float64
}

// txSize is the size of the transactions in the networks made from now on.
var txSize = 256

func newMon(c *vC, n int, edges []edge, coding, flood bool, cfg senderConfig, seed int64) *mon {
	return newMonF(c, n, edges, coding, flood, cfg, seed, nil)
}

func newMonF(c *vC, n int, edges []edge, coding, flood bool, cfg senderConfig, seed int64, force []uint64) *mon {
	m := &mon{c: c, coding: coding, flood: flood, idx: map[des.Module]int{}, edges: edges, links: map[[2]int]*link{},
		last: map[[2]int]time.Duration{}, gens: map[uint64]*gen{}, byHash: map[uint64]uint64{}, dist: map[int][]time.Duration{},
		requests: map[[2]int]map[uint64]int{}, burst: 1, msgs: map[string]int{}, model: true,
		bytes: make([]int, n), recv: make([]int, n), deliv: make([]int, n)}
	txgen = &transactionGenerator{}
	m.src = &rngSource{r: rand.New(rand.NewSource(seed)), force: force}
	RNG = rand.New(m.src)
	TXSIZE = txSize
	sc := serverConfig{blockArrivalIntv: 5 / float64(time.Second), blockArrivalBurst: m.burst, initialFlood: flood}
	m.srv = newServers(&des.Simulator{}, n, sc)
	m.obs = newServers(&des.Simulator{}, n, sc)
	for i := 0; i < n; i++ {
		m.idx[m.srv[i]] = i
		m.idx[m.obs[i]] = -1 - i
		m.reg = append(m.reg, map[uint64]time.Duration{})
		m.adj = append(m.adj, map[int]time.Duration{})
	}
	for _, e := range edges {
		m.connect(e, cfg)
	}
	for i := 0; i < n; i++ {
		connectPullServers(m.srv[i], m.obs[i], 0)
	}
	return m
}

func (m *mon) connect(e edge, cfg senderConfig) {
	m.adj[e.a][e.b], m.adj[e.b][e.a] = e.delay, e.delay
	if !m.coding {
		connectPullServers(m.srv[e.a], m.srv[e.b], e.delay)
		return
	}
	k := len(m.src.drawn)
	connectCodingServers(m.srv[e.a], m.srv[e.b], e.delay, cfg)
	l := &link{a: e.a, b: e.b, bufA: map[uint64]bool{}, bufB: map[uint64]bool{}, flow: flow{closed: true, win: 1}}
	if len(m.src.drawn) == k+1 {
		l.rand, l.known = m.src.drawn[k], true
	}
	m.links[[2]int{e.a, e.b}] = l
}

func (m *mon) push(e event) {
	e.seq = m.seq
	m.seq++
	heap.Push(&m.q, e)
}

func (m *mon) arrive(at time.Duration, node, n int) {
	m.push(event{at: at, to: node, arrival: n})
}

func size(p any) int {
	switch x := p.(type) {
	case codeword:
		return 24 + TXSIZE
	case ack:
		return 8 + len(x.txs)*TXSIZE
	case response, initialBroadcast:
		return TXSIZE
	case announce, request:
		return 32
	}
	return 0
}

// genuine checks a transaction body against what was generated.
func (m *mon) genuine(s hsym, where string) uint64 {
	g, ok := m.gens[s.Symbol.idx]
	if !ok {
		m.c.Fail("t=%d %s: transaction %d was never generated", m.now, where, s.Symbol.idx)
	}
	if s.Symbol != g.tx || s.Hash != g.hash {
		m.c.Fail("t=%d %s: transaction %d is {%v hash %x}, generated as {%v hash %x}", m.now, where, g.tx.idx, s.Symbol, s.Hash, g.tx, g.hash)
	}
	return g.tx.idx
}

// earliest time node may know a transaction generated at origin.
func (m *mon) earliest(g *gen, node int) time.Duration {
	d, ok := m.dist[g.origin]
	if !ok {
		n := len(m.srv)
		d = make([]time.Duration, n)
		done := make([]bool, n)
		for i := range d {
			d[i] = math.MaxInt64 / 4
		}
		d[g.origin] = 0
		for {
			u := -1
			for i := range d {
				if !done[i] && (u < 0 || d[i] < d[u]) {
					u = i
				}
			}
			if u < 0 {
				break
			}
			done[u] = true
			for v, w := range m.adj[u] {
				// a pull needs an announcement, a request and a response
				if !m.coding && !(m.flood && u == g.origin) {
					w *= 3
				}
				if d[u]+w < d[v] {
					d[v] = d[u] + w
				}
			}
		}
		m.dist[g.origin] = d
	}
	return g.at + d[node]
}

func (m *mon) register(node int, id uint64) {
	if _, dup := m.reg[node][id]; dup {
		m.c.Fail("t=%d: node %d registered transaction %d twice", m.now, node, id)
	}
	g := m.gens[id]
	if node == g.origin && m.now != g.at && !m.noEarly {
		m.c.Fail("t=%d: node %d registered its own transaction %d again", m.now, node, id)
	}
	if e := m.earliest(g, node); m.now < e && !m.noEarly {
		m.c.Fail("t=%d: node %d registered transaction %d of node %d before the earliest possible time %d", m.now, node, id, g.origin, e)
	}
	m.reg[node][id] = m.now
	m.recv[node]++
	m.msgs["registrations"]++
}

func (m *mon) offer(node, exclude int, id uint64) {
	for p := range m.adj[node] {
		if p != exclude {
			if l := m.links[[2]int{node, p}]; l != nil {
				l.offered = true
			}
			m.stepOff[[2]int{node, p}] = append(m.stepOff[[2]int{node, p}], id)
		}
	}
}

// step delivers the next event to the real server and judges the reaction.
func (m *mon) step() {
	e := heap.Pop(&m.q).(event)
	m.now = e.at
	vTick()
	m.handle(e)
}

func (m *mon) handle(e event) {
	node := e.to
	srv := m.srv[node]
	m.stepOff = map[[2]int][]uint64{}
	if m.keep {
		m.trace = append(m.trace, fmt.Sprintf("%d %d>%d %T%v", e.at, e.from, e.to, e.payload, e.payload))
	}
	if e.arrival > 0 {
		m.generated(node, srv.HandleMessage(blockArrival{e.arrival}, srv, m.now), e.arrival)
		return
	}
	m.msgs[fmt.Sprintf("%T_delivered", e.payload)[5:]]++
	m.bytes[node] += size(e.payload)
	delivered := 0 // transactions this message delivers to the node
	from := m.srv[e.from]
	ln := m.links[[2]int{e.from, node}]
	rl := m.links[[2]int{node, e.from}]
	finished := false
	switch p := e.payload.(type) {
	case initialBroadcast, response:
		delivered = 1
	case ack:
		delivered = len(p.txs)
		if p.ackBlock {
			rl.done++
			if m.model && rl.known {
				want := rl.sentRes[0]
				rl.sentRes = rl.sentRes[1:]
				if len(want) != len(p.txs) {
					m.c.Fail("t=%d link %d-%d: acknowledgement brings %d transactions, only the receiver had %d", m.now, rl.a, rl.b, len(p.txs), len(want))
				}
				for _, t := range p.txs {
					if !want[t.Symbol.idx] {
						m.c.Fail("t=%d link %d-%d: acknowledgement brings transaction %d, which is not one only the receiver had", m.now, rl.a, rl.b, t.Symbol.idx)
					}
				}
			}
		} else if len(p.txs) > 0 {
			m.c.Fail("t=%d link %d-%d: %d transactions in an acknowledgement that does not complete a block", m.now, rl.a, rl.b, len(p.txs))
		}
	case codeword:
		if p.newBlock && m.model && ln.known {
			ln.curA = ln.blocks[0]
			ln.blocks = ln.blocks[1:]
			ln.curB = map[uint64]bool{}
			for id := range ln.bufB {
				if covers(p, m.gens[id].hash*ln.rand) {
					ln.curB[id] = true
					delete(ln.bufB, id)
				}
			}
		}
	}
	m.flowIn(node, e.from, e.payload)
	out := srv.HandleMessage(e.payload, from, m.now)
	// what did the node register?
	var news []uint64
	for _, o := range out {
		if m.idx[o.To] != -1-node || o.To == nil {
			continue
		}
		an, ok := o.Payload.(announce)
		if !ok {
			m.c.Fail("t=%d: node %d sent its observer a %T unasked", m.now, node, o.Payload)
		}
		news = append(news, m.body(node, an.hash))
	}
	for _, id := range news {
		m.register(node, id)
		m.offer(node, e.from, id)
	}
	switch p := e.payload.(type) {
	case initialBroadcast:
		m.check1(node, p.payload, news)
	case response:
		m.check1(node, p.payload, news)
	case ack:
		m.checkNew(node, p.txs, news)
	case codeword:
		for _, o := range out {
			if a, ok := o.Payload.(ack); ok && o.To == des.Module(from) && a.ackBlock {
				finished = true
			}
		}
		if !finished && len(news) > 0 {
			m.c.Fail("t=%d: node %d registered transactions on a codeword that does not complete a block", m.now, node)
		}
		if finished && m.model && ln.known {
			res := map[uint64]bool{}
			inNews := map[uint64]bool{}
			for _, id := range news {
				inNews[id] = true
				if !ln.curA[id] || ln.curB[id] {
					m.c.Fail("t=%d link %d-%d: receiver learned transaction %d, which is not one only the sender's block had", m.now, ln.a, ln.b, id)
				}
			}
			for id := range ln.curA {
				if ln.curB[id] {
					continue
				}
				delivered++
				if _, has := m.reg[node][id]; !has {
					m.c.Fail("t=%d link %d-%d: block completed, but the receiver did not learn transaction %d", m.now, ln.a, ln.b, id)
				}
			}
			for id := range ln.curB {
				if !ln.curA[id] {
					res[id] = true
				}
			}
			ln.sentRes = append(ln.sentRes, res)
			m.msgs["blocks_reconciled"]++
			m.msgs["receiver_only_returned"] += len(res)
		}
	}
	m.deliv[node] += delivered
	m.emitted(node, e.from, out)
	m.flowOut(node, e.from, e.payload, out)
	m.metrics(node)
}

func (m *mon) check1(node int, s hsym, news []uint64) { m.checkNew(node, []hsym{s}, news) }

// checkNew: of the transactions brought, exactly those unknown are registered.
func (m *mon) checkNew(node int, brought []hsym, news []uint64) {
	in := map[uint64]bool{}
	for _, id := range news {
		in[id] = true
	}
	for _, s := range brought {
		id := m.genuine(s, fmt.Sprintf("delivered to node %d", node))
		if _, has := m.reg[node][id]; !has {
			m.c.Fail("t=%d: node %d did not register transaction %d it was given", m.now, node, id)
		}
		delete(in, id)
	}
	for id := range in {
		m.c.Fail("t=%d: node %d registered transaction %d, which the message did not bring", m.now, node, id)
	}
}

func covers(p codeword, h uint64) bool {
	if p.startHash < p.endHash {
		return h >= p.startHash && h < p.endHash
	}
	return h >= p.startHash || h < p.endHash
}

// body asks node for the body of hash through its observer link.
func (m *mon) body(node int, hash uint64) uint64 {
	m.bytes[node] += 32
	out := m.srv[node].HandleMessage(request{hash}, m.obs[node], m.now)
	for _, o := range out {
		if r, ok := o.Payload.(response); ok && o.To == des.Module(m.obs[node]) {
			if len(out) != 1 {
				m.c.Fail("t=%d: node %d answered one request with %d messages", m.now, node, len(out))
			}
			if r.payload.Hash != hash {
				m.c.Fail("t=%d: node %d asked for %x answered with %x", m.now, node, hash, r.payload.Hash)
			}
			return m.genuine(r.payload, fmt.Sprintf("registered by node %d", node))
		}
	}
	m.c.Fail("t=%d: node %d did not answer a request", m.now, node)
	return 0
}

func (m *mon) generated(node int, out []des.OutgoingMessage, n int) {
	var ids []uint64
	add := func(s hsym) {
		if m.gens[s.Symbol.idx] != nil {
			m.c.Fail("t=%d: node %d generated transaction %d, which exists", m.now, node, s.Symbol.idx)
		}
		if s.Symbol.ts != m.now || s.Hash != s.Symbol.Hash() {
			m.c.Fail("t=%d: node %d generated a transaction with timestamp %d", m.now, node, s.Symbol.ts)
		}
		m.gens[s.Symbol.idx] = &gen{s.Symbol, s.Hash, node, m.now}
		m.byHash[s.Hash] = s.Symbol.idx
		ids = append(ids, s.Symbol.idx)
	}
	arm := 0
	for _, o := range out {
		if o.To == nil {
			b, ok := o.Payload.(blockArrival)
			if !ok || b.n != m.burst || o.Delay < 0 {
				m.c.Fail("t=%d: node %d scheduled itself %T%v", m.now, node, o.Payload, o.Payload)
			}
			arm++
			if m.reArm && m.now+o.Delay < m.cutoff {
				m.arrive(m.now+o.Delay, node, b.n)
			}
			continue
		}
		if m.idx[o.To] != -1-node {
			continue
		}
		switch p := o.Payload.(type) {
		case announce:
			m.bytes[node] += 32
			for _, r := range m.srv[node].HandleMessage(request{p.hash}, m.obs[node], m.now) {
				if s, ok := r.Payload.(response); ok {
					add(s.payload)
				}
			}
		case initialBroadcast:
			add(p.payload)
		}
	}
	if len(ids) != n || arm != 1 {
		m.c.Fail("t=%d: an arrival of %d transactions at node %d produced %d and %d further arrivals", m.now, n, node, len(ids), arm)
	}
	for _, id := range ids {
		m.register(node, id)
		if !m.flood {
			m.offer(node, -1, id)
		}
	}
	m.ntx += n
	m.emitted(node, -1, out)
	m.flowOut(node, -1, nil, out)
	m.metrics(node)
}

// emitted judges and schedules outgoing messages, and updates link models.
func (m *mon) emitted(node, cause int, out []des.OutgoingMessage) {
	off := m.stepOff
	for k, ids := range off {
		if l := m.links[[2]int{k[1], k[0]}]; l != nil { // node is the receiver
			for _, id := range ids {
				l.bufB[id] = true
			}
		}
	}
	blockSent := map[int]bool{}
	for _, o := range out {
		if o.To == nil || m.idx[o.To] < 0 {
			continue
		}
		to := m.idx[o.To]
		d, ok := m.adj[node][to]
		if _, mapped := m.idx[o.To]; !ok || !mapped {
			m.c.Fail("t=%d: node %d sends a %T to a node it is not connected to", m.now, node, o.Payload)
		}
		if o.Delay != d {
			m.c.Fail("t=%d: node %d sends a %T to %d with delay %d on a link of delay %d", m.now, node, o.Payload, to, o.Delay, d)
		}
		switch p := o.Payload.(type) {
		case codeword:
			l := m.links[[2]int{node, to}]
			if l == nil {
				m.c.Fail("t=%d: node %d, not the initiator, sends a codeword to %d", m.now, node, to)
			}
			if p.newBlock && m.model && l.known {
				l.started++
				l.starts = append(l.starts, p.startHash)
				m.blockContent(l, p, off[[2]int{node, to}])
				blockSent[to] = true
			} else if p.newBlock {
				l.started++
			}
		case ack:
			if m.links[[2]int{to, node}] == nil {
				m.c.Fail("t=%d: node %d acknowledges on a link it initiates (to %d)", m.now, node, to)
			}
			for _, s := range p.txs {
				m.genuine(s, "in an acknowledgement")
			}
		case announce:
			if _, has := m.reg[node][m.byHash[p.hash]]; !has {
				m.c.Fail("t=%d: node %d announces %x, which it does not have", m.now, node, p.hash)
			}
		case request:
			if _, ok := m.byHash[p.hash]; !ok {
				m.c.Fail("t=%d: node %d requests %x, which does not exist", m.now, node, p.hash)
			}
			k := [2]int{node, to}
			if m.requests[k] == nil {
				m.requests[k] = map[uint64]int{}
			}
			m.requests[k][p.hash]++
		case response:
			m.genuine(p.payload, fmt.Sprintf("body sent from %d to %d", node, to))
			k := [2]int{to, node}
			if m.requests[k][p.payload.Hash] == 0 {
				m.c.Fail("t=%d: node %d sends %d the body of %d without a request", m.now, node, to, p.payload.Symbol.idx)
			}
			m.requests[k][p.payload.Hash]--
		case initialBroadcast:
			id := m.genuine(p.payload, "broadcast")
			if !m.flood || m.gens[id].origin != node || m.gens[id].at != m.now {
				m.c.Fail("t=%d: node %d broadcasts transaction %d of node %d", m.now, node, id, m.gens[id].origin)
			}
		}
		at := m.now + o.Delay
		if m.jitter > 0 {
			at += time.Duration(m.c.R.Int63n(int64(m.jitter)))
		}
		k := [2]int{node, to}
		if at < m.last[k] {
			at = m.last[k]
		}
		m.last[k] = at
		m.push(event{at: at, from: node, to: to, payload: o.Payload})
	}
	for k, ids := range off {
		if l := m.links[[2]int{k[0], k[1]}]; l != nil && !blockSent[k[1]] {
			for _, id := range ids {
				l.bufA[id] = true
			}
		}
	}
}

// blockContent determines the content of a starting block: everything
// buffered in the shard; whether transactions offered in this very step are
// included is read off the first coded symbol, which covers the whole block.
func (m *mon) blockContent(l *link, p codeword, fresh []uint64) {
	cur := map[uint64]bool{}
	for id := range l.bufA {
		if covers(p, m.gens[id].hash*l.rand) {
			cur[id] = true
			delete(l.bufA, id)
		}
	}
	var opt []uint64
	for _, id := range fresh {
		if covers(p, m.gens[id].hash*l.rand) {
			opt = append(opt, id)
		} else {
			l.bufA[id] = true
		}
	}
	ok := false
	try := func(mask int) bool {
		var e riblt.Encoder[transaction]
		add := func(id uint64) { e.AddHashedSymbol(hsym{Symbol: m.gens[id].tx, Hash: m.gens[id].hash}) }
		for id := range cur {
			add(id)
		}
		for i, id := range opt {
			if mask>>i&1 == 1 {
				add(id)
			}
		}
		return e.ProduceNextCodedSymbol() == p.CodedSymbol
	}
	for mask := 0; mask < 1<<vMin(len(opt), 10); mask++ {
		if try(mask) {
			ok = true
			for i, id := range opt {
				if mask>>i&1 == 1 {
					cur[id] = true
				} else {
					l.bufA[id] = true
				}
			}
			break
		}
	}
	if !ok {
		m.c.Fail("t=%d link %d-%d: block %d for hashes [%x,%x) does not hold exactly the %d buffered transactions of that shard", m.now, l.a, l.b, l.started, p.startHash, p.endHash, len(cur))
	}
	l.blocks = append(l.blocks, cur)
}

// metrics compares a node's counters with what was delivered to it.
func (m *mon) metrics(i int) {
	if m.base == nil {
		return
	}
	s, b := m.srv[i].serverMetric, m.base[i]
	if got := s.receivedBytes - b.receivedBytes; got != m.bytes[i] {
		m.c.Fail("t=%d: node %d reports %d bytes received, messages delivered to it total %d", m.now, i, got, m.bytes[i])
	}
	if got := s.receivedTransactions - b.receivedTransactions; got != m.recv[i] {
		m.c.Fail("t=%d: node %d reports %d transactions received, it obtained or generated %d", m.now, i, got, m.recv[i])
	}
	if !m.coding || m.modelKnown() {
		if got := s.decodedTransactions + s.duplicateTransactions - b.decodedTransactions - b.duplicateTransactions; got != m.deliv[i] {
			m.c.Fail("t=%d: node %d reports %d+%d transactions decoded and duplicate, peers delivered %d", m.now, i, s.decodedTransactions-b.decodedTransactions, s.duplicateTransactions-b.duplicateTransactions, m.deliv[i])
		}
	}
	m.msgs["metric_comparisons"]++
}

func (m *mon) modelKnown() bool {
	if !m.model {
		return false
	}
	for _, l := range m.links {
		if !l.known {
			return false
		}
	}
	return true
}

