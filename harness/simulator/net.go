package VPKG

import (
	"container/heap"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"time"

	"github.com/dchest/siphash"
	"github.com/yangl1996/rateless-set-reconcile/des"
	"github.com/yangl1996/rateless-set-reconcile/lt"
)

const maxTx = 6000 // no two of the transactions 0..maxTx-1 share a salted hash (checked in init)

var saltedID = map[uint32]uint64{}

func init() {
	for i := uint64(0); i < maxTx; i++ {
		h := siphash.New(testKey[:])
		h.Write(transaction{idx: i}.Hash())
		s := uint32(h.Sum64())
		if _, dup := saltedID[s]; dup {
			panic("salted hash collision among the first transactions")
		}
		saltedID[s] = i
	}
}

// members reads the transactions a codeword covers; ok is false when the
// representation is unknown.
func members(cw codeword) (ids []uint64, ok bool) {
	f := reflect.ValueOf(cw.Codeword).FieldByName("members")
	if !f.IsValid() || f.Kind() != reflect.Slice || f.Type().Elem().Kind() != reflect.Uint32 {
		return nil, false
	}
	for i := 0; i < f.Len(); i++ {
		id, there := saltedID[uint32(f.Index(i).Uint())]
		if !there {
			return nil, false
		}
		ids = append(ids, id)
	}
	return ids, true
}

type event struct {
	at       time.Duration
	seq      int
	from, to int
	payload  any
	inject   bool // an arrival dictated by the workload
}
type evq []event

func (q evq) Len() int { return len(q) }
func (q evq) Less(i, j int) bool {
	return q[i].at < q[j].at || q[i].at == q[j].at && q[i].seq < q[j].seq
}
func (q evq) Swap(i, j int) { q[i], q[j] = q[j], q[i] }
func (q *evq) Push(x any)   { *q = append(*q, x.(event)) }
func (q *evq) Pop() any {
	x := (*q)[len(*q)-1]
	*q = (*q)[:len(*q)-1]
	return x
}

type gen struct {
	tx     transaction
	origin int
	at     time.Duration
}

type edge struct {
	a, b  int
	delay time.Duration
}

// out is the reference model of the sending half of a link.
type out struct {
	buf      []uint64
	block    []uint64
	inBlock  map[uint64]bool
	window   int
	inFlight int
	encoding bool
	known    lt.Transaction[transaction]
	probe    *lt.Decoder[transaction] // knows the block's transactions
	covered  map[uint64]bool
	codes    int
}

// in is the reference model of the receiving half of a link.
type in struct {
	stubs    []*lt.PendingCodeword[transaction]
	received bool
}

type mon struct {
	c      *vC
	cfg    serverConfig
	srv    []*server
	idx    map[des.Module]int
	real   int // servers 0..real-1 are judged, the others are scripted peers
	adj    []map[int]time.Duration
	outs   map[[2]int]*out
	ins    map[[2]int]*in
	shadow []*lt.Decoder[transaction]
	q      evq
	seq    int
	now    time.Duration
	jitter time.Duration
	last   map[[2]int]time.Duration
	gens   map[uint64]*gen
	reg    []map[uint64]time.Duration
	loop   []evLoop
	dist   map[int][]time.Duration
	rearm  bool
	cutoff time.Duration
	trace  []string
	keep   bool
	msgs   map[string]int
	// metrics
	decoded, codewords []int
	warm               time.Duration
	lat, over          [][]float64
	onPeer             func(from, to int, at time.Duration, payload any) // messages to scripted peers
}

type evLoop struct {
	last    time.Duration // time of the last scheduled offer
	pending []uint64      // registered, not yet offered
}

func newMon(c *vC, n, scripted int, edges []edge, cfg serverConfig, minIntv time.Duration, seed int64, sketches bool, base time.Duration) *mon {
	m := &mon{c: c, cfg: cfg, idx: map[des.Module]int{}, real: n, outs: map[[2]int]*out{}, ins: map[[2]int]*in{},
		last: map[[2]int]time.Duration{}, gens: map[uint64]*gen{}, dist: map[int][]time.Duration{}, msgs: map[string]int{}}
	txgen = newTransactionGenerator()
	m.srv = newServers(&des.Simulator{}, n+scripted, seed, cfg)
	for i, s := range m.srv {
		m.idx[s] = i
		m.adj = append(m.adj, map[int]time.Duration{})
		m.reg = append(m.reg, map[uint64]time.Duration{})
		m.loop = append(m.loop, evLoop{})
		m.shadow = append(m.shadow, lt.NewDecoder[transaction](testKey, cfg.decoderMemory))
		m.decoded, m.codewords = append(m.decoded, 0), append(m.codewords, 0)
		m.lat, m.over = append(m.lat, nil), append(m.over, nil)
		s.forwardRateLimiter.minInterval = minIntv
	}
	if sketches {
		m.warm = base + time.Duration(c.R.Intn(30000))
		for _, s := range m.srv {
			s.latencySketch = newDistributionSketch(m.warm)
			s.overlapSketch = newDistributionSketch(m.warm)
		}
	}
	for _, e := range edges {
		connectServers(m.srv[e.a], m.srv[e.b], e.delay)
		m.adj[e.a][e.b], m.adj[e.b][e.a] = e.delay, e.delay
		for _, k := range [][2]int{{e.a, e.b}, {e.b, e.a}} {
			m.outs[k] = &out{window: cfg.senderConfig.detectThreshold}
			m.ins[k] = &in{}
		}
	}
	return m
}

func (m *mon) push(e event) {
	e.seq = m.seq
	m.seq++
	heap.Push(&m.q, e)
}

func (m *mon) arrive(at time.Duration, node, n int) {
	m.push(event{at: at, from: node, to: node, payload: blockArrival{n}, inject: true})
}

func (m *mon) earliest(g *gen, node int) time.Duration {
	d, ok := m.dist[g.origin]
	if !ok {
		n := len(m.srv)
		d = make([]time.Duration, n)
		done := make([]bool, n)
		for i := range d {
			d[i] = math.MaxInt64 / 4
		}
		d[g.origin] = 0
		for {
			u := -1
			for i := range d {
				if !done[i] && (u < 0 || d[i] < d[u]) {
					u = i
				}
			}
			if u < 0 {
				break
			}
			done[u] = true
			for v, w := range m.adj[u] {
				if d[u]+w < d[v] {
					d[v] = d[u] + w
				}
			}
		}
		m.dist[g.origin] = d
	}
	return g.at + d[node]
}

func (m *mon) step() {
	e := heap.Pop(&m.q).(event)
	m.now = e.at
	vTick()
	m.handle(e)
}

func (m *mon) handle(e event) {
	node := e.to
	if m.keep {
		m.trace = append(m.trace, fmt.Sprintf("%d %d>%d %T%v", e.at, e.from, e.to, e.payload, e.payload))
	}
	if node >= m.real {
		m.onPeer(e.from, node, e.at, e.payload)
		return
	}
	kind := fmt.Sprintf("%T", e.payload)[5:]
	m.msgs[kind+"_delivered"]++
	srv := m.srv[node]
	res := m.call(srv, e, kind)
	// split the reaction
	var offers []lt.Transaction[transaction] // in order of emission
	var offerAt []time.Duration
	cws := map[int][]codeword{}
	acks := map[int][]ack{}
	nArr, nSync := 0, 0
	for _, o := range res {
		if o.Delay < 0 {
			m.c.Fail("t=%d: node %d sends a %T with delay %d", m.now, node, o.Payload, o.Delay)
		}
		if o.To == nil || o.To == des.Module(srv) {
			switch p := o.Payload.(type) {
			case loopback:
				offers = append(offers, p.tx)
				offerAt = append(offerAt, m.now+o.Delay)
			case blockArrival:
				nArr++
				if p.n != m.cfg.blockArrivalBurst {
					m.c.Fail("t=%d: node %d schedules an arrival of %d transactions, configured %d", m.now, node, p.n, m.cfg.blockArrivalBurst)
				}
				if !m.rearm || m.now+o.Delay > m.cutoff {
					continue
				}
			case createNewBlock:
				nSync++
				if o.Delay != m.cfg.forceSynchronize {
					m.c.Fail("t=%d: node %d schedules the next synchronization after %d, configured %d", m.now, node, o.Delay, m.cfg.forceSynchronize)
				}
				if m.now+o.Delay > m.cutoff {
					continue
				}
			default:
				m.c.Fail("t=%d: node %d schedules itself a %T", m.now, node, o.Payload)
			}
			m.push(event{at: m.now + o.Delay, from: node, to: node, payload: o.Payload})
			continue
		}
		to, there := m.idx[o.To]
		d, linked := m.adj[node][to]
		if !there || !linked {
			m.c.Fail("t=%d: node %d sends a %T to a node it is not connected to", m.now, node, o.Payload)
		}
		if o.Delay != d {
			m.c.Fail("t=%d: node %d sends a %T to %d with delay %d on a link of delay %d", m.now, node, o.Payload, to, o.Delay, d)
		}
		switch p := o.Payload.(type) {
		case codeword:
			cws[to] = append(cws[to], p)
		case ack:
			acks[to] = append(acks[to], p)
		default:
			m.c.Fail("t=%d: node %d sends node %d a %T", m.now, node, to, o.Payload)
		}
		at := m.now + d
		if m.jitter > 0 {
			at += time.Duration(m.c.R.Int63n(int64(m.jitter)))
		}
		k := [2]int{node, to}
		if at < m.last[k] {
			at = m.last[k]
		}
		m.last[k] = at
		m.push(event{at: at, from: node, to: to, payload: o.Payload})
	}
	// expectations
	wantArr, wantSync := 0, 0
	wantAck := -1
	ackBlock := false
	var fill []int // links whose sender may send now
	start := m.cfg.forceSynchronize == 0
	switch p := e.payload.(type) {
	case blockArrival:
		wantArr = 1
		m.generated(node, p.n, offers)
	case createNewBlock:
		wantSync = 1
		start = true
		for to := range m.adj[node] {
			fill = append(fill, to)
		}
	case loopback:
		m.offered(node, p.tx)
		for to := range m.adj[node] {
			o := m.outs[[2]int{node, to}]
			o.buf = append(o.buf, p.tx.Data().idx)
			fill = append(fill, to)
		}
	case codeword:
		wantAck = e.from
		i := m.ins[[2]int{e.from, node}]
		if p.newBlock {
			i.stubs, i.received = nil, false
		}
		stub, txs := m.shadow[node].AddCodeword(p.Codeword)
		i.stubs = append(i.stubs, stub)
		m.codewords[node]++
		m.decoded[node] += len(txs)
		m.news(node, e.from, txs, offers)
		if !i.received && len(i.stubs) > m.cfg.receiverConfig.detectThreshold {
			un := 0
			for _, s := range i.stubs {
				if !s.Decoded() {
					un++
				}
			}
			if un <= int(float64(len(i.stubs))*m.cfg.targetCodewordLoss) {
				i.received = true
				ackBlock = true
				m.msgs["blocks_received"]++
				if un > 0 {
					m.msgs["blocks_received_with_loss"]++
				}
			}
		}
	case ack:
		o := m.outs[[2]int{node, e.from}]
		o.inFlight--
		if p.ackBlock {
			o.encoding = false
		}
		fill = append(fill, e.from)
	}
	switch e.payload.(type) {
	case blockArrival, codeword:
	default:
		if len(offers) > 0 {
			m.c.Fail("t=%d: node %d registered transaction %d on a %s", m.now, node, offers[0].Data().idx, kind)
		}
	}
	if nArr != wantArr || nSync != wantSync {
		m.c.Fail("t=%d: after a %s node %d scheduled %d arrivals and %d synchronizations", m.now, kind, node, nArr, nSync)
	}
	for to, as := range acks {
		if to != wantAck {
			m.c.Fail("t=%d: node %d acknowledges a codeword of node %d that was not delivered (on a %s)", m.now, node, to, kind)
		}
		if len(as) != 1 {
			m.c.Fail("t=%d: node %d answers one codeword of node %d with %d acknowledgements", m.now, node, to, len(as))
		}
		if as[0].ackBlock != ackBlock {
			i := m.ins[[2]int{to, node}]
			un := 0
			for _, s := range i.stubs {
				if !s.Decoded() {
					un++
				}
			}
			m.c.Fail("t=%d: node %d acknowledges the block of node %d as received=%v after %d codewords, %d undecoded (threshold %d, tolerated fraction %v), expected %v", m.now, node, to, as[0].ackBlock, len(i.stubs), un, m.cfg.receiverConfig.detectThreshold, m.cfg.targetCodewordLoss, ackBlock)
		}
	}
	if wantAck >= 0 && len(acks[wantAck]) != 1 {
		m.c.Fail("t=%d: node %d did not acknowledge a codeword of node %d", m.now, node, wantAck)
	}
	for to := range m.adj[node] {
		can := false
		for _, f := range fill {
			can = can || f == to
		}
		m.sent(node, to, cws[to], can, start)
	}
	m.schedule(node, offers, offerAt)
	m.metrics(node)
}

// call hands the event to the real server; a crash is a violation.
func (m *mon) call(srv *server, e event, kind string) (res []des.OutgoingMessage) {
	defer func() {
		if r := recover(); r != nil {
			if a, is := r.(vAbort); is {
				panic(a)
			}
			m.c.Fail("t=%d: node %d crashed on a %s: %v", m.now, e.to, kind, r)
		}
	}()
	return srv.HandleMessage(e.payload, m.srv[e.from], m.now)
}

// sent compares the codewords sent on one link with what the window, the
// acknowledgements and the buffer call for.
func (m *mon) sent(node, to int, cws []codeword, can, start bool) {
	o := m.outs[[2]int{node, to}]
	fail := func(f string, a ...any) {
		m.c.Fail("t=%d link %d>%d (window %d, unacknowledged %d, %d buffered, block of %d in progress=%v): %s", m.now, node, to, o.window, o.inFlight, len(o.buf), len(o.block), o.encoding, fmt.Sprintf(f, a...))
	}
	k := 0
	minBlock := int(float64(m.cfg.senderConfig.detectThreshold) / m.cfg.controlOverhead)
	for can && o.inFlight < o.window {
		fresh := false
		if !o.encoding {
			if !start || len(o.buf) < minBlock {
				break
			}
			fresh = true
		}
		if k >= len(cws) {
			fail("no codeword was sent though one may be (new block: %v)", fresh)
		}
		if cws[k].newBlock != fresh {
			fail("codeword sent with newBlock=%v, expected %v", cws[k].newBlock, fresh)
		}
		if fresh {
			o.block, o.buf = o.buf, nil
			o.window = int(float64(len(o.block)) * m.cfg.controlOverhead)
			o.encoding = true
			o.inBlock = map[uint64]bool{}
			o.covered = map[uint64]bool{}
			o.codes = 0
			o.probe = lt.NewDecoder[transaction](testKey, maxTx)
			for _, id := range o.block {
				o.inBlock[id] = true
				o.probe.AddTransaction(lt.NewTransaction[transaction](m.gens[id].tx))
			}
			m.msgs["blocks_started"]++
			m.c.Max("largest_block", int64(len(o.block)))
			if m.srv[node].overlapSketch != nil {
				n := 0
				for _, id := range o.block {
					if _, has := m.reg[to][id]; has {
						n++
					}
				}
				if m.now >= m.warm {
					m.over[node] = append(m.over[node], float64(n)/float64(len(o.block)))
				}
			}
		}
		o.inFlight++
		if st, txs := o.probe.AddCodeword(cws[k].Codeword); !st.Decoded() || len(txs) > 0 {
			fail("codeword is not made of transactions of the block alone")
		}
		o.codes++
		if ids, ok := members(cws[k]); ok {
			for _, id := range ids {
				if !o.inBlock[id] {
					fail("codeword covers transaction %d, which is not in the block", id)
				}
				o.covered[id] = true
			}
		}
		k++
	}
	if k < len(cws) {
		fail("codeword sent though none may be (newBlock=%v)", cws[k].newBlock)
	}
	m.msgs["codewords_sent"] += k
	if o.window > 0 && o.inFlight >= o.window {
		m.msgs["window_full"]++
	}
}

func (m *mon) generated(node, n int, offers []lt.Transaction[transaction]) {
	if len(offers) != n {
		m.c.Fail("t=%d: an arrival of %d transactions at node %d scheduled %d for offering", m.now, n, node, len(offers))
	}
	for _, tx := range offers {
		d := tx.Data()
		if m.gens[d.idx] != nil {
			m.c.Fail("t=%d: node %d generated transaction %d, which exists", m.now, node, d.idx)
		}
		if d.ts != m.now {
			m.c.Fail("t=%d: node %d generated a transaction with timestamp %d", m.now, node, d.ts)
		}
		m.gens[d.idx] = &gen{d, node, m.now}
		if len(m.shadow[node].AddTransaction(lt.NewTransaction[transaction](d))) > 0 {
			m.c.Fail("harness: a new transaction decoded something")
		}
		m.register(node, d.idx)
	}
}

// news: the transactions a codeword made decodable, exactly, are registered.
func (m *mon) news(node, from int, txs, offers []lt.Transaction[transaction]) {
	want := map[transaction]bool{}
	for _, tx := range txs {
		want[tx.Data()] = true
	}
	for _, tx := range offers {
		d := tx.Data()
		g := m.gens[d.idx]
		if g == nil {
			m.c.Fail("t=%d: node %d registered transaction %v, which was never generated", m.now, node, d)
		}
		if g.tx != d {
			m.c.Fail("t=%d: node %d registered transaction %v, generated as %v", m.now, node, d, g.tx)
		}
		if string(tx.Hash()) != string(d.Hash()) {
			m.c.Fail("t=%d: transaction %d registered by node %d carries a wrong hash", m.now, d.idx, node)
		}
		m.register(node, d.idx)
		if !want[d] {
			m.c.Fail("t=%d: node %d registered transaction %d, which the codewords it received do not determine", m.now, node, d.idx)
		}
		delete(want, d)
		if m.now >= m.warm {
			m.lat[node] = append(m.lat[node], m.now.Seconds()-d.ts.Seconds())
		}
	}
	for d := range want {
		m.c.Fail("t=%d: node %d did not register transaction %d, which its codewords determine", m.now, node, d.idx)
	}
}

func (m *mon) register(node int, id uint64) {
	if _, dup := m.reg[node][id]; dup {
		m.c.Fail("t=%d: node %d registered transaction %d twice", m.now, node, id)
	}
	g := m.gens[id]
	if e := m.earliest(g, node); m.now < e {
		m.c.Fail("t=%d: node %d registered transaction %d of node %d before the earliest possible time %d", m.now, node, id, g.origin, e)
	}
	m.reg[node][id] = m.now
	m.msgs["registrations"]++
	m.loop[node].pending = append(m.loop[node].pending, id)
}

// schedule judges the times at which registered transactions will be offered.
func (m *mon) schedule(node int, offers []lt.Transaction[transaction], at []time.Duration) {
	l := &m.loop[node]
	intv := m.srv[node].forwardRateLimiter.minInterval
	for i := range offers {
		slot := l.last + intv
		if slot < m.now {
			slot = m.now
		}
		if at[i] < slot {
			m.c.Fail("t=%d: node %d will offer transaction %d at %d, only %d after the previous one (smoothing interval %d)", m.now, node, offers[i].Data().idx, at[i], at[i]-l.last, intv)
		}
		if at[i] > slot {
			m.c.Fail("t=%d: node %d will offer transaction %d at %d, the smoothing interval allows %d", m.now, node, offers[i].Data().idx, at[i], slot)
		}
		if slot > m.now {
			m.msgs["offers_delayed"]++
		}
		l.last = at[i]
	}
}

// offered: a registered transaction is handed to the links, in order.
func (m *mon) offered(node int, tx lt.Transaction[transaction]) {
	l := &m.loop[node]
	if len(l.pending) == 0 || l.pending[0] != tx.Data().idx {
		m.c.Fail("t=%d: node %d offers transaction %d, next in order of registration is %v", m.now, node, tx.Data().idx, l.pending)
	}
	l.pending = l.pending[1:]
	m.msgs["offers"]++
}

func (m *mon) metrics(i int) {
	s := m.srv[i].serverMetric
	if s.receivedCodewords != m.codewords[i] || s.decodedTransactions != m.decoded[i] {
		m.c.Fail("t=%d: node %d counts %d codewords received and %d transactions decoded, actually %d and %d", m.now, i, s.receivedCodewords, s.decodedTransactions, m.codewords[i], m.decoded[i])
	}
}

// sketches compares the recorded distributions with the observed values.
func (m *mon) sketches() {
	for i := 0; i < m.real; i++ {
		m.sketch(i, "latency", m.srv[i].latencySketch, m.lat[i])
		m.sketch(i, "overlap", m.srv[i].overlapSketch, m.over[i])
	}
}

func (m *mon) sketch(i int, what string, d *distributionSketch, vals []float64) {
	if d == nil {
		return
	}
	if n := d.sketch.GetCount(); n != float64(len(vals)) {
		m.c.Fail("node %d recorded %v %s values, %d were observed after the warm-up", i, n, what, len(vals))
	}
	if len(vals) == 0 {
		return
	}
	sort.Float64s(vals)
	for _, q := range []float64{0, 0.05, 0.5, 0.95, 1} {
		got := d.getQuantiles([]float64{q})[0]
		at := q * float64(len(vals)-1)
		ok := false
		for k := int(at) - 1; k <= int(at)+2; k++ {
			if k >= 0 && k < len(vals) && math.Abs(got-vals[k]) <= 0.011*vals[k]+1e-12 {
				ok = true
			}
		}
		if !ok {
			m.c.Fail("node %d reports %v as the %v quantile of %s, observed %v", i, got, q, what, vals[int(at)])
		}
	}
	m.msgs["quantiles_compared"] += 5
}

func (m *mon) report() {
	for k, v := range m.msgs {
		m.c.Seen(k, v)
	}
	m.c.Seen("transactions", len(m.gens))
}

// holdings compares the received sets kept by the servers with the observed
// registrations.
func (m *mon) holdings() {
	for i := 0; i < m.real; i++ {
		for d := range m.srv[i].received {
			if _, ok := m.reg[i][d.idx]; !ok {
				m.c.Fail("node %d holds transaction %d, whose registration was not observed", i, d.idx)
			}
		}
		if len(m.srv[i].received) != len(m.reg[i]) {
			m.c.Fail("node %d holds %d transactions, %d registrations were observed", i, len(m.srv[i].received), len(m.reg[i]))
		}
		if !m.rearm && len(m.q) == 0 && len(m.loop[i].pending) > 0 {
			m.c.Fail("node %d never offered transaction %d to its links", i, m.loop[i].pending[0])
		}
	}
}

// ---- workloads -------------------------------------------------------------

func graph(r *rand.Rand, n, mind int) []edge {
	has := map[[2]int]bool{}
	deg := make([]int, n)
	var es []edge
	scale := time.Duration(1 + r.Intn(1000))
	if r.Intn(12) == 0 { // links of seconds
		scale = time.Duration(1 + r.Int63n(1<<31))
	}
	add := func(a, b int) {
		if a == b || has[[2]int{a, b}] || has[[2]int{b, a}] {
			return
		}
		if r.Intn(2) == 0 {
			a, b = b, a
		}
		has[[2]int{a, b}] = true
		deg[a]++
		deg[b]++
		es = append(es, edge{a, b, scale * time.Duration(1+r.Intn(12))})
	}
	kind := r.Intn(6)
	if n > 16 {
		kind = 1 + 2*r.Intn(2)
	}
	switch kind {
	case 0:
		for i := 1; i < n; i++ {
			add(i-1, i)
		}
	case 1:
		for i := 1; i < n; i++ {
			add(0, i)
		}
	case 2:
		for i := 0; i < n; i++ {
			add(i, (i+1)%n)
		}
	case 3:
		for i := 0; i < n; i++ {
			for j := 0; j < i; j++ {
				add(i, j)
			}
		}
	default:
		for i := 1; i < n; i++ {
			add(r.Intn(i), i)
		}
		for k := r.Intn(2 * n); k > 0; k-- {
			add(r.Intn(n), r.Intn(n))
		}
	}
	for i := 0; i < n; i++ {
		for t := 0; deg[i] < mind && t < 100; t++ {
			add(i, r.Intn(n))
		}
	}
	r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
	return es
}

type arrival struct {
	at   time.Duration
	node int
	n    int
}

func arrivals(r *rand.Rand, n int, span time.Duration, total int) (as []arrival) {
	hot := r.Intn(n)
	for k := 0; k < total; {
		a := arrival{time.Duration(r.Int63n(int64(span) + 1)), r.Intn(n), 1}
		switch r.Intn(6) {
		case 0:
			a.n = 1 + r.Intn(30)
		case 1:
			a.node = hot
		case 2:
			a.at = span / 2
		case 3:
			a.at = 0
		}
		k += a.n
		as = append(as, a)
	}
	return
}

func randCfg(r *rand.Rand) serverConfig {
	th := []int{1, 2, 3, 5, 5, 8, 15}[r.Intn(7)]
	over := []float64{0.05, 0.1, 0.1, 0.2, 0.3, 0.5, 0.7}[r.Intn(7)]
	if float64(th)/over > 120 {
		over = 0.2
	}
	if int(float64(th)/over) < 2 {
		over = 0.5
	}
	cfg := serverConfig{blockArrivalIntv: 500 / float64(time.Second), blockArrivalBurst: 1 + r.Intn(4), decoderMemory: maxTx,
		senderConfig:   senderConfig{controlOverhead: over, detectThreshold: th},
		receiverConfig: receiverConfig{detectThreshold: th, targetCodewordLoss: []float64{0, 0, 0, 0.02, 0.1, 0.3, 1}[r.Intn(7)]}}
	if r.Intn(4) == 0 {
		cfg.receiverConfig.detectThreshold = r.Intn(12)
	}
	if r.Intn(3) == 0 {
		cfg.forceSynchronize = time.Duration(100 + r.Intn(30000))
	}
	return cfg
}
