package VPKG

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"testing"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
)

// graph makes a connected simple graph with minimum degree mind.
func graph(r *rand.Rand, n, mind int) []edge {
	has := map[[2]int]bool{}
	deg := make([]int, n)
	var es []edge
	scale := time.Duration(1 + r.Intn(1000))
	if r.Intn(10) == 0 { // links of seconds
		scale = time.Duration(1 + r.Int63n(1<<31))
	}
	add := func(a, b int) {
		if a == b || has[[2]int{a, b}] || has[[2]int{b, a}] {
			return
		}
		if r.Intn(2) == 0 {
			a, b = b, a
		}
		has[[2]int{a, b}] = true
		deg[a]++
		deg[b]++
		es = append(es, edge{a, b, scale * time.Duration(1+r.Intn(12))})
	}
	kind := r.Intn(6)
	if n > 16 { // keep the diameter small
		kind = 1 + 2*r.Intn(2)
	}
	switch kind {
	case 0: // path
		for i := 1; i < n; i++ {
			add(i-1, i)
		}
	case 1: // star
		for i := 1; i < n; i++ {
			add(0, i)
		}
	case 2: // ring
		for i := 0; i < n; i++ {
			add(i, (i+1)%n)
		}
	case 3: // complete
		for i := 0; i < n; i++ {
			for j := 0; j < i; j++ {
				add(i, j)
			}
		}
	default: // random tree plus chords
		for i := 1; i < n; i++ {
			add(r.Intn(i), i)
		}
		for k := r.Intn(2 * n); k > 0; k-- {
			add(r.Intn(n), r.Intn(n))
		}
	}
	for i := 0; i < n; i++ {
		for t := 0; deg[i] < mind && t < 100; t++ {
			add(i, r.Intn(n))
		}
	}
	r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
	return es
}

func diameter(n int, es []edge) int {
	best := 0
	for s := 0; s < n; s++ {
		d := make([]int, n)
		for i := range d {
			d[i] = n + 1
		}
		d[s] = 0
		for k := 0; k < n; k++ {
			for _, e := range es {
				if d[e.a]+1 < d[e.b] {
					d[e.b] = d[e.a] + 1
				}
				if d[e.b]+1 < d[e.a] {
					d[e.a] = d[e.b] + 1
				}
			}
		}
		for _, x := range d {
			if x > best {
				best = x
			}
		}
	}
	return best
}

type arrival struct {
	at   time.Duration
	node int
	n    int
}

func arrivals(r *rand.Rand, n int, span time.Duration, total int) (as []arrival) {
	base := []time.Duration{0, 0, 5 * time.Second, time.Hour, 1 << 52}[r.Intn(5)]
	defer func() {
		for i := range as {
			as[i].at += base
		}
	}()
	for i := 0; i < n; i++ { // everybody has something to send
		as = append(as, arrival{time.Duration(r.Int63n(int64(span) + 1)), i, 1 + r.Intn(3)})
	}
	hot := r.Intn(n)
	for k := 0; k < total; k++ {
		a := arrival{time.Duration(r.Int63n(int64(span) + 1)), r.Intn(n), 1}
		switch r.Intn(6) {
		case 0:
			a.n = 1 + r.Intn(12)
		case 1:
			a.node = hot
		case 2: // all at once
			a.at = span / 2
		}
		as = append(as, a)
	}
	return
}

var overheads = []float64{0, 0.02, 0.1, 0.1, 0.5, 1.5}

func (m *mon) everywhere(when string) {
	for id, g := range m.gens {
		for i := range m.srv {
			if _, ok := m.reg[i][id]; !ok {
				m.c.Fail("%s: node %d never got transaction %d generated by node %d at t=%d (now t=%d)", when, i, id, g.origin, g.at, m.now)
			}
		}
	}
}

func (m *mon) report() {
	for k, v := range m.msgs {
		m.c.Seen(k, v)
	}
	m.c.Seen("transactions", len(m.gens))
}

// diff compares the received sets kept by the servers with the observed
// registrations.
func (m *mon) diff() {
	for i, s := range m.srv {
		f := reflect.ValueOf(s).Elem().FieldByName("received")
		if !f.IsValid() || f.Kind() != reflect.Map || f.Type().Key().Kind() != reflect.Uint64 {
			return
		}
		if f.Len() != len(m.reg[i]) {
			m.c.Fail("node %d holds %d transactions, %d registrations were observed", i, f.Len(), len(m.reg[i]))
		}
		for _, k := range f.MapKeys() {
			if _, ok := m.reg[i][k.Uint()]; !ok {
				m.c.Fail("node %d holds transaction %d, whose registration was not observed", i, k.Uint())
			}
		}
	}
}

// ---- C20 -------------------------------------------------------------------

func runCoding(m *mon, c *vC, shards int, as []arrival) {
	var lastArr time.Duration
	for _, a := range as {
		m.arrive(a.at, a.node, a.n)
		if a.at > lastArr {
			lastArr = a.at
		}
	}
	left := len(as)
	c.Budget(40_000_000)
	for left > 0 {
		if m.q[0].arrival > 0 {
			left--
		}
		m.step()
	}
	// Each phase lets every link complete two full cycles and three rounds; a transaction
	// travels at least one hop per phase.
	for _, l := range m.links {
		// an initiating endpoint that was never offered anything does not start
		for k := 0; !l.offered && len(m.q) > 0 && k < 100000; k++ {
			m.step()
		}
		if !l.offered {
			c.Seen("precondition_unmet", 1)
			return
		}
	}
	d := diameter(len(m.srv), m.edges)
	for ph := 0; ph < d; ph++ {
		m.phase(shards, fmt.Sprintf("phase %d of %d after the last arrival", ph+1, d))
	}
	m.everywhere(fmt.Sprintf("after %d x %d reconciliation rounds on every link since the last arrival", d, 2*shards+3))
	m.phase(shards, "idle phase")
	m.diff()
}

func (m *mon) phase(shards int, what string) {
	goal := map[*link]int{}
	waiting := 0
	for _, l := range m.links {
		goal[l] = l.done + 2*shards + 3
		waiting++
	}
	budget := (4000*(2*shards+3) + 60*m.ntx) * (len(m.links) + 1)
	for n := 0; waiting > 0; n++ {
		if len(m.q) == 0 || n > budget {
			for l, g := range goal {
				if l.done < g && l.offered {
					m.c.Fail("%s: reconciliation on link %d-%d stopped after %d completed rounds (%d messages queued)", what, l.a, l.b, l.done, len(m.q))
				}
			}
			m.c.Fail("%s: no progress", what)
		}
		e := m.q[0]
		m.step()
		if _, ok := e.payload.(ack); ok {
			l := m.links[[2]int{e.to, e.from}]
			if l.done >= goal[l] && goal[l] >= 0 {
				goal[l] = -1
				waiting--
			}
		}
	}
	m.msgs["phases"]++
}

func TestVerifC20(t *testing.T) {
	vMain(t, "C20", func(h *vH) {
		for i := 0; i < h.N(900, 12000); i++ {
			h.Case(fmt.Sprintf("net-%d", i), func(c *vC) {
				n := 2 + c.R.Intn(9)
				flood := i%2 == 1
				mind := 1
				if flood {
					mind = 2
					if n < 3 {
						n = 3
					}
				}
				shards := []int{1, 2, 3, 4, 7, 16}[c.R.Intn(6)]
				if i%60 == 31 {
					n, shards = 18+c.R.Intn(12), 1+c.R.Intn(3)
					c.Seen("wide_networks", 1)
				}
				if i%10 == 0 {
					shards, n = 64, 3+c.R.Intn(2)
				}
				es := graph(c.R, n, mind)
				cfg := senderConfig{overheads[c.R.Intn(len(overheads))], shards}
				m := newMon(c, n, es, true, flood, cfg, c.R.Int63())
				m.model = false
				if c.R.Intn(3) > 0 {
					m.jitter = time.Duration(1 + c.R.Intn(20000))
				}
				runCoding(m, c, shards, arrivals(c.R, n, time.Duration(c.R.Intn(200000)), c.R.Intn(120)))
				m.report()
				c.Distinct("coding n=%d links=%d shards=%d flood=%v tx=%d msgs=%d", n, len(es), shards, flood, len(m.gens), m.seq)
			})
		}
		// tens of thousands of transactions, thousands at once
		for i := 0; i < h.N(4, 30); i++ {
			h.Case(fmt.Sprintf("many-%d", i), func(c *vC) {
				n := 2 + c.R.Intn(2)
				shards := 1 + c.R.Intn(4)
				m := newMon(c, n, graph(c.R, n, 1), true, false, senderConfig{[]float64{0.1, 0.5}[c.R.Intn(2)], shards}, c.R.Int63())
				m.model = false
				total := 9000 + c.R.Intn(9000)
				if i%4 == 0 {
					n, total = 2, 66500+c.R.Intn(4000)
				}
				var as []arrival
				for k := 0; k < n; k++ {
					as = append(as, arrival{0, k, 1})
				}
				at := time.Duration(0)
				for sent := 0; sent < total; {
					k := 1 + c.R.Intn(8000)
					as = append(as, arrival{at, c.R.Intn(n), k})
					sent += k
					at += time.Duration(c.R.Intn(40000))
				}
				runCoding(m, c, shards, as)
				c.Max("largest_run", int64(m.ntx))
				m.report()
				c.Distinct("many n=%d shards=%d tx=%d", n, shards, m.ntx)
			})
		}
		realRuns(h, true)
	})
}

// realRuns drives the real event simulator with the servers' own arrivals.
func realRuns(h *vH, coding bool) {
	for i := 0; i < h.N(16, 200); i++ {
		h.Case(fmt.Sprintf("real-%d", i), func(c *vC) {
			n := 3 + c.R.Intn(6)
			flood := i%2 == 1
			es := graph(c.R, n, 2)
			shards := 1 + c.R.Intn(6)
			txgen = &transactionGenerator{}
			RNG = rand.New(rand.NewSource(c.R.Int63()))
			TXSIZE = 100
			sim := &des.Simulator{}
			burst := 1 + c.R.Intn(3)
			srv := newServers(sim, n, serverConfig{blockArrivalIntv: 5 / float64(time.Second), blockArrivalBurst: burst, initialFlood: flood})
			for _, e := range es {
				d := e.delay * 10000 % (120 * time.Millisecond)
				if d < 500*time.Microsecond {
					d = 500 * time.Microsecond
				}
				if coding {
					connectCodingServers(srv[e.a], srv[e.b], d, senderConfig{0.1, shards})
				} else {
					connectPullServers(srv[e.a], srv[e.b], d)
				}
			}
			sim.RunUntil(4 * time.Second)
			top := txgen.last
			// Rounds take a few round-trip times; 145 simulated seconds are dozens of cycles.
			var missing string
			for s := 5; s < 150; s++ {
				sim.RunUntil(time.Duration(s) * time.Second)
				missing = ""
				for i := range srv {
					f := reflect.ValueOf(srv[i]).Elem().FieldByName("received")
					has := map[uint64]bool{}
					for _, k := range f.MapKeys() {
						has[k.Uint()] = true
						if k.Uint() == 0 || k.Uint() > txgen.last {
							c.Fail("node %d holds transaction %d, which was never generated", i, k.Uint())
						}
					}
					if srv[i].receivedTransactions != len(has) {
						c.Fail("node %d reports %d registrations and holds %d transactions", i, srv[i].receivedTransactions, len(has))
					}
					for id := uint64(1); id <= top; id++ {
						if !has[id] {
							missing = fmt.Sprintf("node %d does not have transaction %d", i, id)
						}
					}
				}
				if missing == "" {
					break
				}
			}
			if missing != "" {
				c.Fail("145 simulated seconds after generation %s (real event simulator)", missing)
			}
			c.Seen("real_simulator_events", sim.EventsDelivered())
			c.Distinct("real n=%d links=%d tx=%d ev=%d", n, len(es), txgen.last, sim.EventsDelivered())
		})
	}
}

// ---- C21 -------------------------------------------------------------------

func TestVerifC21(t *testing.T) {
	vMain(t, "C21", func(h *vH) {
		for i := 0; i < h.N(700, 10000); i++ {
			h.Case(fmt.Sprintf("net-%d", i), func(c *vC) {
				n := 2 + c.R.Intn(13)
				if i%40 == 13 {
					n = 18 + c.R.Intn(24)
					c.Seen("wide_networks", 1)
				}
				es := graph(c.R, n, 1)
				if i%5 == 0 { // ties everywhere
					for k := range es {
						es[k].delay = 10
					}
				}
				m := newMon(c, n, es, false, i%2 == 1, senderConfig{}, 1)
				if c.R.Intn(2) == 0 {
					m.jitter = time.Duration(1 + c.R.Intn(20000))
				}
				if c.R.Intn(3) == 0 && n < 16 {
					m.reArm = true
				}
				as := arrivals(c.R, n, time.Duration(c.R.Intn(100000)), c.R.Intn(60))
				for _, a := range as {
					m.arrive(a.at, a.node, a.n)
					if m.cutoff < a.at+3*time.Second {
						m.cutoff = a.at + 3*time.Second
					}
				}
				for ev := 0; len(m.q) > 0; ev++ {
					if ev > 40*(m.ntx+20)*(len(es)+2) {
						c.Fail("not quiet after %d messages for %d transactions on %d links", ev, m.ntx, len(es))
					}
					m.step()
				}
				m.everywhere("when the network was quiet")
				m.diff()
				for k, r := range m.requests {
					for hash, x := range r {
						if x != 0 {
							c.Fail("%d requests of node %d to node %d for transaction %d were never answered", x, k[0], k[1], m.byHash[hash])
						}
					}
				}
				m.report()
				c.Distinct("pull n=%d links=%d flood=%v tx=%d msgs=%d", n, len(es), m.flood, len(m.gens), m.seq)
			})
		}
		// tens of thousands of transactions, thousands at once, over slow and quick links
		for i := 0; i < h.N(4, 30); i++ {
			h.Case(fmt.Sprintf("many-%d", i), func(c *vC) {
				n := 2 + c.R.Intn(3)
				es := graph(c.R, n, 1)
				m := newMon(c, n, es, false, i%2 == 1, senderConfig{}, 1)
				total := 9000 + c.R.Intn(9000)
				if i%4 == 0 {
					total = 66500 + c.R.Intn(4000)
				}
				at := time.Duration(0)
				for sent := 0; sent < total; {
					k := 1 + c.R.Intn(6000)
					m.arrive(at, c.R.Intn(n), k)
					sent += k
					at += time.Duration(c.R.Intn(3)) * es[0].delay
				}
				for ev := 0; len(m.q) > 0; ev++ {
					if ev > 40*(m.ntx+20)*(len(es)+2) {
						c.Fail("not quiet after %d messages for %d transactions on %d links", ev, m.ntx, len(es))
					}
					m.step()
					if ev%1000 == 0 {
						vTick()
					}
				}
				m.everywhere("when the network was quiet")
				m.diff()
				c.Max("largest_run", int64(m.ntx))
				m.report()
				c.Distinct("many n=%d tx=%d", n, m.ntx)
			})
		}
		realRuns(h, false)
	})
}

// ---- C22 -------------------------------------------------------------------

func inverse(a uint64) uint64 { // of an odd number, modulo 2^64
	x := a
	for i := 0; i < 6; i++ {
		x *= 2 - a*x
	}
	return x
}

// give makes node learn a transaction from outside the link.
func (m *mon) give(node int, id uint64) {
	if m.gens[id] == nil {
		tx := transaction{id, time.Duration(id * 7)}
		m.gens[id] = &gen{tx, tx.Hash(), node, m.now}
		m.byHash[tx.Hash()] = id
	}
	if _, has := m.reg[node][id]; has {
		return
	}
	g := m.gens[id]
	m.stepOff = map[[2]int][]uint64{}
	out := m.srv[node].HandleMessage(initialBroadcast{hsym{Symbol: g.tx, Hash: g.hash}}, m.ext, m.now)
	m.bytes[node] += TXSIZE
	m.deliv[node]++
	for _, o := range out {
		if a, ok := o.Payload.(announce); ok && o.To == des.Module(m.obs[node]) {
			m.register(node, m.body(node, a.hash))
		}
	}
	if _, has := m.reg[node][id]; !has {
		m.c.Fail("node %d did not register transaction %d broadcast to it", node, id)
	}
	m.offer(node, -1, id)
	m.emitted(node, -1, out)
	m.metrics(node)
}

type offerRec struct {
	id   uint64
	end  int
	done int
}

func TestVerifC22(t *testing.T) {
	vMain(t, "C22", func(h *vH) {
		for i := 0; i < h.N(4000, 60000); i++ {
			h.Case(fmt.Sprintf("link-%d", i), func(c *vC) {
				shards := 1 + c.R.Intn(9)
				switch i % 8 {
				case 0:
					shards = 10 + c.R.Intn(100)
				case 1:
					shards = []int{64, 128, 200, 256}[c.R.Intn(4)]
				}
				e := edge{0, 1, time.Duration(1 + c.R.Intn(50))}
				base := 1 + c.R.Uint64()%(1<<40)
				// dictate the link's randomizer so that one transaction lands
				// exactly on a shard boundary
				special := base
				for (transaction{idx: special}).Hash()%2 == 0 {
					special++
				}
				inv := inverse(transaction{idx: special}.Hash())
				size := ^uint64(0) / uint64(shards)
				k := uint64(c.R.Intn(shards + 1))
				targets := []uint64{0, 1, ^uint64(0), ^uint64(0) - 1, k * size, k*size - 1, k*size + 1, uint64(shards) * size, uint64(shards)*size - 1, 1 << 63, 1<<63 - 1}
				R := inv * targets[c.R.Intn(len(targets))]
				switch c.R.Intn(12) {
				case 0:
					R = c.R.Uint64()
				case 1:
					R = uint64(c.R.Intn(3))
				}
				m := newMonF(c, 2, []edge{e}, true, false, senderConfig{overheads[c.R.Intn(len(overheads))], shards}, c.R.Int63(), []uint64{R})
				m.noEarly = true
				m.ext = newServers(&des.Simulator{}, 1, serverConfig{blockArrivalIntv: 1, blockArrivalBurst: 1})[0]
				m.base = make([]serverMetric, 2)
				if c.R.Intn(2) == 0 {
					m.jitter = time.Duration(1 + c.R.Intn(300))
				}
				c.Budget(60_000_000)
				l := m.links[[2]int{0, 1}]
				var recs []offerRec
				pool := uint64(3 + c.R.Intn(120))
				offer := func(end int, id uint64) {
					if _, has := m.reg[end][id]; !has {
						m.give(end, id)
						recs = append(recs, offerRec{id, end, l.done})
					}
				}
				some := func() uint64 {
					if c.R.Intn(6) == 0 {
						return special
					}
					return base + c.R.Uint64()%pool
				}
				pre := c.R.Intn(40)
				for k := 0; k < pre; k++ { // receiver first: nothing is sent yet
					offer(1, some())
				}
				if len(m.q) > 0 {
					c.Fail("the link's receiver started a reconciliation")
				}
				offer(0, some())
				if c.R.Intn(2) == 0 {
					offer(1, special)
				}
				rounds := 4*shards + 5 + c.R.Intn(3*shards)
				quietFrom := rounds - 2*shards - 1
				ev := 0
				for l.done < rounds {
					ev++
					if len(m.q) == 0 {
						c.Fail("the link went silent after %d rounds", l.done)
					}
					if ev > 3000*(rounds+10) {
						c.Fail("round %d does not complete", l.done)
					}
					m.step()
					if l.done < quietFrom && c.R.Intn(4) == 0 {
						switch c.R.Intn(5) {
						case 0, 1:
							offer(0, some())
						case 2, 3:
							offer(1, some())
						default:
							x := some()
							offer(0, x)
							offer(1, x)
						}
					}
					if ev%7 == 0 || l.done >= rounds {
						for k := 0; k < len(recs); k++ {
							r := recs[k]
							if _, has := m.reg[1-r.end][r.id]; has {
								recs[k] = recs[len(recs)-1]
								recs = recs[:len(recs)-1]
								k--
							} else if l.done >= r.done+2*shards {
								c.Fail("transaction %d offered to end %d when %d rounds were complete is not known at the other end after %d rounds (%d shards, randomizer %x)", r.id, r.end, r.done, l.done, shards, R)
							}
						}
					}
				}
				// the schedule: every shard once per cycle
				if len(l.starts) >= shards {
					for k := range l.starts {
						if k >= shards && l.starts[k] != l.starts[k-shards] {
							c.Fail("shard schedule does not repeat after %d rounds", shards)
						}
					}
					seen := map[uint64]bool{}
					for _, s := range l.starts[:shards] {
						if seen[s] {
							c.Fail("shard starting at %x occurs twice in one cycle of %d", s, shards)
						}
						seen[s] = true
					}
				}
				m.diff()
				m.report()
				c.Seen("rounds", l.done)
				c.Distinct("shards=%d R=%x tx=%d rounds=%d", shards, R, len(m.gens), l.done)
			})
		}
		// Blocks of thousands, in both directions.
		for i := 0; i < h.N(6, 60); i++ {
			h.Case(fmt.Sprintf("large-%d", i), func(c *vC) {
				shards := 1 + i%3
				m := newMon(c, 2, []edge{{0, 1, time.Duration(1 + c.R.Intn(50))}}, true, false, senderConfig{[]float64{0.02, 0.1, 0.5}[c.R.Intn(3)], shards}, c.R.Int63())
				m.noEarly, m.model = true, i%2 == 0
				m.ext = newServers(&des.Simulator{}, 1, serverConfig{blockArrivalIntv: 1, blockArrivalBurst: 1})[0]
				m.base = make([]serverMetric, 2)
				l := m.links[[2]int{0, 1}]
				m.give(0, 1)
				next := uint64(2)
				rounds := 0
				for _, n := range [][2]int{{0, 1300 + c.R.Intn(3000)}, {1300 + c.R.Intn(2000), 0}, {700 + c.R.Intn(500), 700 + c.R.Intn(500)}} {
					for e := range n {
						for k := 0; k < n[e]; k++ {
							m.give(e, next)
							next++
						}
						c.Max("given_at_once", int64(n[e]))
					}
					rounds = l.done + 2*shards
					for ev := 0; l.done < rounds; ev++ {
						if len(m.q) == 0 || ev > 400000 {
							c.Fail("round %d does not complete", l.done)
						}
						m.step()
					}
					for k := uint64(1); k < next; k++ {
						for e := range m.srv {
							if _, has := m.reg[e][k]; !has {
								c.Fail("transaction %d of %d is not known at end %d after %d rounds (%d shards)", k, next, e, rounds, shards)
							}
						}
					}
				}
				m.diff()
				m.report()
				c.Seen("rounds", l.done)
				c.Distinct("large shards=%d tx=%d", shards, next)
			})
		}
		// Common content costs nothing: with the same transactions waiting at both
		// ends, neither end is sent any of them.
		for i := 0; i < h.N(300, 4000); i++ {
			h.Case(fmt.Sprintf("common-%d", i), func(c *vC) {
				shards := 1 + c.R.Intn(40)
				m := newMon(c, 2, []edge{{0, 1, 10}}, true, false, senderConfig{overheads[c.R.Intn(len(overheads))], shards}, c.R.Int63())
				m.noEarly, m.model = true, false
				m.ext = newServers(&des.Simulator{}, 1, serverConfig{blockArrivalIntv: 1, blockArrivalBurst: 1})[0]
				l := m.links[[2]int{0, 1}]
				m.give(0, 1) // kick
				n := 1 + c.R.Intn(200)
				for k := 0; k < n; k++ {
					m.give(0, uint64(100+k))
				}
				m.step() // the first block's first codeword reaches the receiver
				for _, k := range c.R.Perm(n) {
					m.give(1, uint64(100+k))
				}
				d0, d1 := m.srv[0].duplicateTransactions, m.srv[1].duplicateTransactions
				for l.done < 2*shards+2 {
					if len(m.q) == 0 {
						c.Fail("the link went silent")
					}
					e := m.q[0]
					if a, ok := e.payload.(ack); ok && len(a.txs) > 0 {
						c.Fail("%d transactions known to both ends were returned with an acknowledgement", len(a.txs))
					}
					m.step()
				}
				if x := m.srv[0].duplicateTransactions - d0 + m.srv[1].duplicateTransactions - d1; x > 0 {
					c.Fail("%d of %d transactions waiting at both ends were transferred all the same", x, n)
				}
				c.Seen("common_transactions", n)
				c.Distinct("common %d shards=%d", n, shards)
			})
		}
	})
}

// ---- C23 -------------------------------------------------------------------

type runCfg struct {
	n, shards     int
	es            []edge
	coding, flood bool
	over          float64
	jitter        time.Duration
	seed          int64
	as            []arrival
	own           bool
	end           time.Duration
	size          int
}

// run executes a configuration; resets>0 resets metrics at random moments.
func (rc runCfg) run(c *vC, r *rand.Rand, resets int) *mon {
	c.R = rand.New(rand.NewSource(rc.seed)) // jitter
	txSize = rc.size
	defer func() { txSize = 256 }()
	m := newMon(c, rc.n, rc.es, rc.coding, rc.flood, senderConfig{rc.over, rc.shards}, rc.seed)
	m.jitter, m.keep = rc.jitter, true
	m.base = make([]serverMetric, rc.n)
	m.reArm, m.cutoff = rc.own, rc.end
	for _, a := range rc.as {
		m.arrive(a.at, a.node, a.n)
	}
	for len(m.q) > 0 && m.q[0].at <= rc.end && m.seq < 60000 {
		m.step()
		if resets > 0 && r.Intn(40) == 0 {
			i := r.Intn(rc.n)
			m.srv[i].resetMetric()
			if m.srv[i].serverMetric != (serverMetric{}) {
				c.Fail("t=%d: metrics of node %d after resetting: %+v", m.now, i, m.srv[i].serverMetric)
			}
			m.base[i] = serverMetric{}
			m.bytes[i], m.recv[i], m.deliv[i] = 0, 0, 0
			c.Seen("metric_resets", 1)
		}
	}
	return m
}

func TestVerifC23(t *testing.T) {
	vMain(t, "C23", func(h *vH) {
		for i := 0; i < h.N(500, 8000); i++ {
			h.Case(fmt.Sprintf("net-%d", i), func(c *vC) {
				r := c.R
				rc := runCfg{n: 2 + r.Intn(9), coding: i%3 != 2, flood: r.Intn(2) == 0, shards: []int{1, 2, 3, 8, 20}[r.Intn(5)], over: overheads[r.Intn(len(overheads))], seed: r.Int63()}
				// also more bytes than fit 24, 31, 32 and 53 bits
				rc.size = []int{256, 256, 0, 1, 65537, 12345677, 1<<33 + 7, 1<<45 + 3}[r.Intn(8)]
				rc.es = graph(r, rc.n, 1)
				if r.Intn(2) == 0 {
					rc.jitter = time.Duration(1 + r.Intn(5000))
				}
				span := time.Duration(1000 + r.Intn(100000))
				rc.as = arrivals(r, rc.n, span, r.Intn(60))
				for _, a := range rc.as {
					if rc.end < a.at {
						rc.end = a.at
					}
				}
				rc.end += span * 2
				if rc.own = r.Intn(3) == 0; rc.own {
					rc.end += time.Second
					for k := range rc.es {
						rc.es[k].delay = time.Duration(1+r.Intn(30)) * time.Millisecond
					}
				}
				c.Budget(20_000_000)
				a := rc.run(c, r, 0)
				b := rc.run(c, r, 0)
				same(c, a, b, "two runs with the same parameters")
				d := rc.run(c, r, 1)
				same(c, a, d, "a run without and one with metric resets")
				for i := range a.srv {
					if a.srv[i].serverMetric != b.srv[i].serverMetric {
						c.Fail("node %d: metrics %+v in one run, %+v in the other", i, a.srv[i].serverMetric, b.srv[i].serverMetric)
					}
				}
				a.report()
				for i := range a.srv {
					c.Max("received_bytes", int64(a.srv[i].receivedBytes))
				}
				c.Seen("runs_compared", 3)
				c.Distinct("coding=%v flood=%v n=%d links=%d shards=%d tx=%d msgs=%d", rc.coding, rc.flood, rc.n, len(rc.es), rc.shards, len(a.gens), len(a.trace))
			})
		}
		for i := 0; i < h.N(12, 100); i++ {
			h.Case(fmt.Sprintf("real-%d", i), func(c *vC) { // the real event simulator, repeatedly
				n := 4 + c.R.Intn(8)
				es := graph(c.R, n, 2)
				seed := c.R.Int63()
				flood := c.R.Intn(2) == 0
				var want string
				for rep := 0; rep < 4; rep++ {
					txgen = &transactionGenerator{}
					RNG = rand.New(rand.NewSource(seed))
					TXSIZE = 300
					sim := &des.Simulator{}
					srv := newServers(sim, n, serverConfig{blockArrivalIntv: 5 / float64(time.Second), blockArrivalBurst: 2, initialFlood: flood})
					for _, e := range es {
						if i%3 != 2 {
							connectCodingServers(srv[e.a], srv[e.b], e.delay*5000+time.Millisecond, senderConfig{0.1, 4})
						} else {
							connectPullServers(srv[e.a], srv[e.b], e.delay*5000+time.Millisecond)
						}
					}
					sim.RunUntil(6 * time.Second)
					got := fmt.Sprint(sim.EventsDelivered(), sim.EventsQueued(), sim.Time(), txgen.last)
					for _, s := range srv {
						got += fmt.Sprintf(" %+v", s.serverMetric)
					}
					if rep > 0 && got != want {
						c.Fail("repeated run differs:\n%s\n%s", want, got)
					}
					want = got
				}
				c.Seen("runs_compared", 4)
				c.Distinct("real n=%d links=%d %s", n, len(es), want[:vMin(60, len(want))])
			})
		}
		if bin := os.Getenv("VERIF_BIN"); bin != "" {
			for i := 0; i < h.N(4, 16); i++ {
				h.Case(fmt.Sprintf("program-%d", i), func(c *vC) {
					n := 5 + c.R.Intn(5)
					var topo bytes.Buffer
					for _, e := range graph(c.R, n, 2) {
						fmt.Fprintf(&topo, "%d,%d,%d\n", e.a, e.b, 5+int(e.delay)%100)
					}
					f := filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("topo%d.csv", i))
					os.WriteFile(f, topo.Bytes(), 0644)
					args := []string{"-topo", f, "-dur", "12s", "-w", "3s", "-s", "8", "-a", []string{"coding", "pull"}[i%2]}
					if i/2%2 == 1 {
						args = append(args, "-flood")
					}
					var want []byte
					for rep := 0; rep < 3; rep++ {
						out, err := exec.Command(bin, args...).Output()
						if err != nil {
							c.Fail("newsim %v: %v %s", args, err, out)
						}
						if rep > 0 && !bytes.Equal(out, want) {
							c.Fail("newsim %v printed\n%s\nand then\n%s", args, want, out)
						}
						want = out
					}
					c.Seen("program_runs", 3)
					c.Distinct("program %v", want)
				})
			}
		}
	})
}

func same(c *vC, a, b *mon, what string) {
	for i := range a.trace {
		if i >= len(b.trace) || a.trace[i] != b.trace[i] {
			x := "nothing"
			if i < len(b.trace) {
				x = b.trace[i]
			}
			c.Fail("%s differ at message %d: %.300s | %.300s", what, i, a.trace[i], x)
		}
	}
	if len(a.trace) != len(b.trace) {
		c.Fail("%s: %d and %d messages", what, len(a.trace), len(b.trace))
	}
}
