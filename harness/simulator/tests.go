package VPKG

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
	"github.com/yangl1996/rateless-set-reconcile/lt"
	"github.com/yangl1996/soliton"
)

// netRun is one configuration of a network.
type netRun struct {
	n      int
	es     []edge
	cfg    serverConfig
	intv   time.Duration
	jitter time.Duration
	seed   int64
	hseed  int64
	as     []arrival
	own    bool
	base   time.Duration // when the run begins
	end    time.Duration
	sk     bool
}

func randNet(r *rand.Rand, total int) netRun {
	n := 2 + r.Intn(7)
	if r.Intn(30) == 0 {
		n = 18 + r.Intn(15)
	}
	x := netRun{n: n, es: graph(r, n, 1), cfg: randCfg(r), seed: r.Int63(), hseed: r.Int63(), sk: r.Intn(2) == 0}
	if r.Intn(2) == 0 {
		x.jitter = time.Duration(1 + r.Intn(20000))
	}
	x.intv = []time.Duration{1, 10, 10, 500, 3000}[r.Intn(5)]
	if r.Intn(8) == 0 { // a backlog of seconds to days
		x.intv = []time.Duration{time.Millisecond, 50 * time.Millisecond, 2 * time.Second, 10 * time.Minute}[r.Intn(4)]
	}
	span := time.Duration(1 + r.Intn(300000))
	x.as = arrivals(r, n, span, total)
	x.base = []time.Duration{0, 0, 5 * time.Second, time.Hour, 1 << 52}[r.Intn(5)]
	for i := range x.as {
		x.as[i].at += x.base
	}
	x.end = x.base + span + 1000000
	if r.Intn(4) == 0 {
		x.own = true
		x.end = x.base + 300*time.Millisecond
		for k := range x.es {
			x.es[k].delay *= 1000
		}
	}
	return x
}

func (x netRun) run(c *vC, keep bool, limit int) *mon {
	c.R = rand.New(rand.NewSource(x.hseed))
	m := newMon(c, x.n, 0, x.es, x.cfg, x.intv, x.seed, x.sk, x.base)
	m.jitter, m.keep, m.rearm, m.cutoff = x.jitter, keep, x.own, x.end
	for _, a := range x.as {
		m.arrive(a.at, a.node, a.n)
	}
	if x.own {
		for i := 0; i < x.n; i++ {
			m.push(event{at: x.base + time.Duration(c.R.Intn(1000000)), from: i, to: i, payload: blockArrival{x.cfg.blockArrivalBurst}})
		}
	}
	if x.cfg.forceSynchronize != 0 {
		for i := 0; i < x.n; i++ {
			m.push(event{at: x.base + x.cfg.forceSynchronize, from: i, to: i, payload: createNewBlock{}})
		}
	}
	for k := 0; len(m.q) > 0 && k < limit && len(m.gens) < maxTx-200; k++ {
		m.step()
	}
	if len(m.q) == 0 {
		m.msgs["networks_quiet"]++
	}
	return m
}

// ---- C24 -------------------------------------------------------------------

func TestVerifC24(t *testing.T) {
	vMain(t, "C24", func(h *vH) {
		for i := 0; i < h.N(500, 8000); i++ {
			h.Case(fmt.Sprintf("net-%d", i), func(c *vC) {
				c.Budget(60_000_000)
				x := randNet(c.R, 50+c.R.Intn(800))
				m := x.run(c, false, 60000)
				m.holdings()
				m.sketches()
				m.report()
				c.Distinct("n=%d links=%d %+v tx=%d msgs=%d", x.n, len(x.es), x.cfg, len(m.gens), m.seq)
			})
		}
		for i := 0; i < h.N(16, 200); i++ {
			h.Case(fmt.Sprintf("real-%d", i), func(c *vC) { // the real event simulator
				sim, srv := realSim(c.R.Int63(), c.R)
				sim.RunUntil(5 * time.Second)
				for i, s := range srv {
					for d := range s.received {
						if d.idx >= txgen.next || d.ts > sim.Time() {
							c.Fail("node %d holds transaction %v, which was never generated (%d were)", i, d, txgen.next)
						}
					}
					if len(s.received) < s.decodedTransactions {
						c.Fail("node %d decoded %d transactions and holds %d", i, s.decodedTransactions, len(s.received))
					}
				}
				c.Seen("real_simulator_events", sim.EventsDelivered())
				c.Distinct("real n=%d tx=%d ev=%d", len(srv), txgen.next, sim.EventsDelivered())
			})
		}
	})
}

func realSim(seed int64, r *rand.Rand) (*des.Simulator, []*server) {
	n := 3 + r.Intn(6)
	es := graph(r, n, 2)
	cfg := randCfg(r)
	cfg.blockArrivalIntv = 20 / float64(time.Second)
	cfg.decoderMemory = 50000
	if cfg.forceSynchronize != 0 {
		cfg.forceSynchronize = time.Duration(100+r.Intn(900)) * time.Millisecond
	}
	txgen = newTransactionGenerator()
	sim := &des.Simulator{}
	srv := newServers(sim, n, seed, cfg)
	for _, s := range srv {
		s.forwardRateLimiter.minInterval = 10 * time.Microsecond
		s.latencySketch = newDistributionSketch(time.Second)
		s.overlapSketch = newDistributionSketch(time.Second)
	}
	for _, e := range es {
		connectServers(srv[e.a], srv[e.b], time.Duration(1+int(e.delay)%80)*time.Millisecond)
	}
	return sim, srv
}

// ---- C25 -------------------------------------------------------------------

// script plays the peers of one real server.
type script struct {
	m      *mon
	c      *vC
	peers  []*speer
	ackP   int  // percentage of received codewords acknowledged promptly
	block  int  // percentage of acknowledgements that complete the block
	eager  bool // complete every block with the first codeword
	steps  int
	pool   []uint64 // transactions of the outside world
	nextID uint64
}

type speer struct {
	id      int
	owed    int // codewords not yet acknowledged
	open    bool
	enc     *lt.Encoder[transaction]
	sent    int // codewords sent
	acked   int
	blocked bool // the current block was acknowledged
	started bool
	src     *rand.Rand
}

func (s *script) peer(id int) *speer {
	for _, p := range s.peers {
		if p.id == id {
			return p
		}
	}
	return nil
}

// feed sends n codewords to the server, possibly starting a new block.
func (s *script) feed(p *speer, n int) {
	for k := 0; k < n; k++ {
		cw := codeword{}
		if !p.started || p.blocked {
			size := 2 + s.c.R.Intn(40)
			p.enc = lt.NewEncoder[transaction](p.src, testKey, soliton.NewRobustSoliton(p.src, uint64(size), 0.03, 0.5), size)
			fresh := s.c.R.Intn(101)
			for added := 0; added < size; {
				var id uint64
				if len(s.pool) == 0 || s.c.R.Intn(100) < fresh {
					id = s.nextID
					s.nextID++
					s.m.gens[id] = &gen{transaction{id, time.Duration(id * 3)}, p.id, -time.Hour}
					s.pool = append(s.pool, id)
				} else {
					id = s.pool[s.c.R.Intn(len(s.pool))]
				}
				p.enc.AddTransaction(lt.NewTransaction[transaction](s.m.gens[id].tx))
				added++
			}
			cw.newBlock = true
			p.started, p.blocked = true, false
		}
		cw.Codeword = p.enc.ProduceCodeword()
		p.sent++
		s.m.push(event{at: s.m.now, from: p.id, to: 0, payload: cw})
	}
}

func (s *script) ack(p *speer, block bool) {
	p.owed--
	if block {
		p.open = false
	}
	s.m.push(event{at: s.m.now, from: p.id, to: 0, payload: ack{block}})
}

func (s *script) onPeer(from, to int, at time.Duration, payload any) {
	p := s.peer(to)
	switch x := payload.(type) {
	case codeword:
		if x.newBlock {
			p.open = true
		}
		p.owed++
	case ack:
		p.acked++
		if p.acked > p.sent {
			s.c.Fail("%d acknowledgements for %d codewords", p.acked, p.sent)
		}
		if x.ackBlock {
			if p.blocked {
				s.c.Fail("a block was acknowledged twice")
			}
			p.blocked = true
		}
	}
}

// drain delivers everything due by now.
func (s *script) drain() {
	t := s.m.now
	for len(s.m.q) > 0 && s.m.q[0].at <= t {
		s.m.step()
	}
	s.m.now = t
}

func TestVerifC25(t *testing.T) {
	vMain(t, "C25", func(h *vH) {
		for i := 0; i < h.N(250, 4000); i++ {
			h.Case(fmt.Sprintf("net-%d", i), func(c *vC) {
				c.Budget(60_000_000)
				x := randNet(c.R, 100+c.R.Intn(1000))
				m := x.run(c, false, 40000)
				m.report()
				c.Distinct("n=%d links=%d %+v tx=%d msgs=%d", x.n, len(x.es), x.cfg, len(m.gens), m.seq)
			})
		}
		for i := 0; i < h.N(700, 12000); i++ {
			h.Case(fmt.Sprintf("scripted-%d", i), func(c *vC) {
				c.Budget(60_000_000)
				np := 1 + c.R.Intn(4)
				cfg := randCfg(c.R)
				var es []edge
				for p := 1; p <= np; p++ {
					es = append(es, edge{0, p, time.Duration(c.R.Intn(100))})
				}
				m := newMon(c, 1, np, es, cfg, time.Duration(1+c.R.Intn(50)), c.R.Int63(), false, 0)
				m.rearm, m.cutoff = true, -1 // arrivals are dictated below
				s := &script{m: m, c: c, nextID: 3000}
				for p := 1; p <= np; p++ {
					s.peers = append(s.peers, &speer{id: p, src: rand.New(rand.NewSource(c.R.Int63()))})
				}
				m.onPeer = s.onPeer
				mood := c.R.Intn(5)
				txgen.next = 0
				for k := 0; k < 600 && len(m.gens) < 2800 && s.nextID < maxTx-100; k++ {
					p := s.peers[c.R.Intn(np)]
					m.now += time.Duration(c.R.Intn(200))
					switch c.R.Intn(10) {
					case 0, 1, 2:
						m.push(event{at: m.now, from: 0, to: 0, payload: blockArrival{1 + c.R.Intn(8)}})
					case 3:
						s.feed(p, 1+c.R.Intn(6))
					case 4:
						if cfg.forceSynchronize != 0 {
							m.push(event{at: m.now, from: 0, to: 0, payload: createNewBlock{}})
						}
					case 5: // everything owed at once
						if mood != 1 {
							n := p.owed
							for j := 0; j < n; j++ {
								s.ack(p, p.open && j == n-1 && c.R.Intn(3) == 0)
							}
						}
					default:
						if p.owed > 0 && (mood != 2 || k%90 > 80) {
							s.ack(p, p.open && (mood == 3 || c.R.Intn(6) == 0))
						}
					}
					s.drain()
				}
				for len(m.q) > 0 {
					m.step()
				}
				// all that was buffered went into the block: keep acknowledging
				// without completing it until every transaction was covered
				for _, p := range s.peers {
					o := m.outs[[2]int{0, p.id}]
					if !o.encoding || len(o.block) == 0 || o.window == 0 {
						continue
					}
					for len(o.covered) < len(o.block) && o.codes < 60*len(o.block)+200 {
						if p.owed == 0 {
							break
						}
						s.ack(p, false)
						for len(m.q) > 0 {
							m.step()
						}
					}
					if len(o.covered) > 0 && len(o.covered) < len(o.block) {
						c.Fail("%d of the %d transactions buffered when the block started are in none of its %d codewords", len(o.block)-len(o.covered), len(o.block), o.codes)
					}
					c.Seen("blocks_covered", 1)
				}
				for _, p := range s.peers {
					if p.acked != p.sent {
						c.Fail("%d codewords sent by a peer, %d acknowledged", p.sent, p.acked)
					}
				}
				m.report()
				c.Distinct("scripted %+v mood=%d tx=%d msgs=%d", cfg, mood, len(m.gens), m.seq)
			})
		}
	})
}

// ---- C26 -------------------------------------------------------------------

func (m *mon) summary() string {
	var b strings.Builder
	for i, s := range m.srv {
		fmt.Fprintf(&b, "%d %+v %d", i, s.serverMetric, len(s.received))
		for _, d := range []*distributionSketch{s.latencySketch, s.overlapSketch} {
			if d != nil && d.sketch.GetCount() > 0 {
				fmt.Fprint(&b, d.sketch.GetCount(), d.getQuantiles([]float64{0, 0.1, 0.5, 0.9, 1}))
			}
		}
	}
	return b.String()
}

func same(c *vC, a, b *mon, what string) {
	for i := range a.trace {
		if i >= len(b.trace) || a.trace[i] != b.trace[i] {
			x := "nothing"
			if i < len(b.trace) {
				x = b.trace[i]
			}
			c.Fail("%s differ at message %d: %.300s | %.300s", what, i, a.trace[i], x)
		}
	}
	if len(a.trace) != len(b.trace) {
		c.Fail("%s: %d and %d messages", what, len(a.trace), len(b.trace))
	}
	if a.summary() != b.summary() {
		c.Fail("%s: metrics %s | %s", what, a.summary(), b.summary())
	}
}

// specialSeeds: no value means anything but itself. (math/rand reduces seeds
// modulo 2^31-1, so seeds compared with each other must differ in that.)
var specialSeeds = []int64{0, 1, -1, 0, -1000, math.MinInt64, math.MaxInt64, 1 << 32, -1 << 40, 42}

func TestVerifC26(t *testing.T) {
	vMain(t, "C26", func(h *vH) {
		for i := 0; i < h.N(160, 2500); i++ {
			h.Case(fmt.Sprintf("net-%d", i), func(c *vC) {
				c.Budget(90_000_000)
				x := randNet(c.R, 100+c.R.Intn(500))
				if i%3 == 0 {
					x.seed = specialSeeds[i/3%len(specialSeeds)]
					c.Seen("special_seeds", 1)
				}
				a := x.run(c, true, 12000)
				for k := 0; k < 2; k++ {
					if k == 1 { // unrelated work must not matter
						y := randNet(c.R, 100)
						y.run(c, false, 500)
						rand.Int63()
					}
					b := x.run(c, true, 12000)
					same(c, a, b, "two runs with the same seed")
				}
				if a.msgs["codeword_delivered"] > 40 {
					for _, d := range []int64{1, 1000, 1 << 40} {
						y := x
						y.seed += d
						b := y.run(c, true, 12000)
						if strings.Join(a.trace, "\n") == strings.Join(b.trace, "\n") {
							c.Fail("seeds %d and %d give the same %d messages", x.seed, y.seed, len(a.trace))
						}
						c.Seen("seeds_compared", 1)
					}
				}
				a.report()
				c.Seen("runs_compared", 3)
				c.Distinct("n=%d links=%d %+v tx=%d msgs=%d", x.n, len(x.es), x.cfg, len(a.gens), len(a.trace))
			})
		}
		for i := 0; i < h.N(24, 200); i++ {
			h.Case(fmt.Sprintf("real-%d", i), func(c *vC) { // the real event simulator
				seed, shape := c.R.Int63(), c.R.Int63()
				if i%2 == 0 {
					seed = specialSeeds[i/2%len(specialSeeds)]
				}
				run := func(seed int64) string {
					sim, srv := realSim(seed, rand.New(rand.NewSource(shape)))
					sim.RunUntil(3 * time.Second)
					m := &mon{srv: srv}
					return fmt.Sprint(sim.EventsDelivered(), sim.EventsQueued(), sim.Time(), txgen.next, m.summary())
				}
				want := run(seed)
				for k := 0; k < 3; k++ {
					if got := run(seed); got != want {
						c.Fail("repeated run differs:\n%s\n%s", want, got)
					}
				}
				if run(seed+7777) == want {
					c.Fail("seeds %d and %d give the same run: %s", seed, seed+7777, want)
				}
				c.Seen("runs_compared", 4)
				c.Seen("seeds_compared", 1)
				c.Distinct("real %.60s", want)
			})
		}
		bin := os.Getenv("VERIF_BIN")
		if bin == "" {
			return
		}
		for i := 0; i < h.N(6, 24); i++ {
			h.Case(fmt.Sprintf("program-%d", i), func(c *vC) {
				n := 4 + c.R.Intn(5)
				deg := 0
				var topo bytes.Buffer
				for _, e := range graph(c.R, n, 2) {
					fmt.Fprintf(&topo, "%d,%d,%d\n", e.a, e.b, 5+int(e.delay)%60)
					if e.a == 0 || e.b == 0 {
						deg++
					}
				}
				dir := os.Getenv("VERIF_SCRATCH")
				f := filepath.Join(dir, fmt.Sprintf("topo%d.csv", i))
				os.WriteFile(f, topo.Bytes(), 0644)
				base := []string{"-topo", f, "-dur", "12s", "-w", "3s", "-txgen", "30", "-b", fmt.Sprint(1 + i%3)}
				if i%3 == 1 {
					base = append(base, "-sync", "400ms")
				}
				if i%3 == 2 {
					base = append(base, "-l", "0.05", "-smooth", "2000")
				}
				run := func(seed int64) string {
					pre := filepath.Join(dir, fmt.Sprintf("out%d", i))
					out, err := exec.Command(bin, append(base, "-seed", fmt.Sprint(seed), "-prefix", pre)...).CombinedOutput()
					if err != nil {
						c.Fail("simulator %v: %v %s", base, err, out)
					}
					for k := 0; k < n; k++ {
						f := fmt.Sprintf("%s-overlap-%d.csv", pre, k)
						b, err := os.ReadFile(f)
						if err != nil {
							c.Fail("simulator %v wrote no overlap file for node %d: %v", base, k, err)
						}
						os.Remove(f)
						out = append(out, b...)
					}
					return string(out)
				}
				seed := 1 + c.R.Int63n(1000000)
				if i%2 == 0 {
					seed = specialSeeds[i/2%len(specialSeeds)]
				}
				want := run(seed)
				if w := fmt.Sprintf("# node 0 num peers %d\n", deg); !strings.HasPrefix(want, w) {
					c.Fail("simulator %v on a topology with %d links at node 0 starts with %.40q", base, deg, want)
				}
				for k := 0; k < 2; k++ {
					if got := run(seed); got != want {
						c.Fail("simulator %v -seed %d printed\n%.2000s\nand then\n%.2000s", base, seed, want, got)
					}
				}
				for _, d := range []int64{1, 1 << 32} {
					if run(seed+d) == want {
						c.Fail("simulator %v printed the same for seeds %d and %d", base, seed, seed+d)
					}
				}
				c.Seen("program_runs", 5)
				c.Seen("seeds_compared", 2)
				c.Distinct("program %v %d", base, vHash64(want))
			})
		}
	})
}
