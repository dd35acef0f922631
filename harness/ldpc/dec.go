package VPKG

import (
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"testing"

	"github.com/yangl1996/rateless-set-reconcile/ldpc"
)

// bigchain: one arrival frees tens of thousands of codewords at once.
// shape 0: a chain; 1: one transaction in all codewords; 2: a random tree; 3: a few hubs.
func bigchain(c *vC, n, shape int) {
	parent := func(i int) int {
		switch shape {
		case 0:
			return i
		case 1:
			return 0
		case 2:
			return c.R.Intn(i + 1)
		}
		return vMin(i, c.R.Intn(5))
	}
	u := mkUniverse(c.R, n)
	d := ldpc.NewDecoder(u.salt, 1<<30)
	c.Budget(1 << 40)
	var pend []func() bool
	for k, i := range c.R.Perm(n - 1) {
		p, txs := d.AddCodeword(u.craft([]int{parent(i), i + 1}))
		if len(txs) != 0 || p.Decoded() {
			c.Fail("a codeword of two unknown transactions hands out %d", len(txs))
		}
		pend = append(pend, p.Decoded)
		if k%4096 == 0 {
			vTick()
		}
	}
	start := c.R.Intn(n)
	if shape == 1 && c.R.Intn(2) == 0 {
		start = 0
	}
	var got = map[string]int{}
	if c.R.Intn(2) == 0 {
		_, txs := d.AddCodeword(u.craft([]int{start}))
		for _, t := range txs {
			got[string(t.Serialized())]++
		}
	} else {
		got[string(u.d[start][:])]++
		for _, t := range d.AddTransaction(load(u.d[start])) {
			got[string(t.Serialized())]++
		}
	}
	for i := 0; i < n; i++ {
		if got[string(u.d[i][:])] != 1 {
			c.Fail("chain of %d unlocked at %d: transaction %d is obtained %d times", n, start, i, got[string(u.d[i][:])])
		}
	}
	if d.NumTransactionsReceived() != n {
		c.Fail("chain of %d unlocked: the decoder counts %d received", n, d.NumTransactionsReceived())
	}
	if len(got) != n {
		c.Fail("chain of %d unlocked: %d different transactions are obtained", n, len(got))
	}
	for k, dec := range pend {
		if !dec() {
			c.Fail("chain of %d unlocked: codeword %d is not reported decoded", n, k)
		}
	}
	c.Seen("big_chains", 1)
	c.Max("cascade", int64(n))
	c.Max(fmt.Sprintf("cascade_shape%d", shape), int64(n))
	c.Distinct("bigchain %d shape %d from %d", n, shape, start)
}

// wide: codewords of very many transactions, which become known one by one.
func wide(c *vC, n int) {
	c.Budget(int64(n)*4000 + 100000)
	u := mkUniverse(c.R, n)
	s := newSession(c.Fail, c.R, u, 1<<30, 0)
	perm := c.R.Perm(n)
	before := []int{0, n / 2, n - 3, c.R.Intn(n)}[c.R.Intn(4)]
	last := perm[n-1]
	for _, x := range perm[:before] {
		s.local(x, "before the wide codeword")
	}
	s.deliver(u.craft(c.R.Perm(n)), fmt.Sprintf("a codeword of %d, %d known", n, before))
	for k, x := range perm[before : n-1] {
		if k%3 == 0 {
			s.deliver(u.craft([]int{x}), fmt.Sprintf("a codeword of %d, %d known", n, before+k))
		} else {
			s.local(x, fmt.Sprintf("a codeword of %d, %d known", n, before+k))
		}
		if s.failed {
			return
		}
	}
	s.end()
	if !s.ref.known[last] {
		c.Fail("a codeword of %d transactions, all but one known: that one was not obtained", n)
	}
	s.report(c)
	c.Seen("wide_codewords", 1)
	c.Max("widest_codeword", int64(n))
	c.Distinct("wide %d known=%d", n, before)
}

func TestVerifC14(t *testing.T) {
	vMain(t, "C14", func(h *vH) {
		for i, n0 := range []int{9000, 70000} {
			n := n0
			for shape := 0; shape < 4; shape++ {
				shape := shape
				h.Case(fmt.Sprintf("bigchain-%d-%d", i, shape), func(c *vC) { bigchain(c, n+c.R.Intn(1000), shape) })
			}
		}
		for i := 0; i < h.N(500, 8000); i++ {
			h.Case(fmt.Sprintf("mix-%d", i), func(c *vC) {
				n := 1 + c.R.Intn(60)
				u := mkUniverse(c.R, n)
				mem := 1 << 30
				if i%3 == 0 {
					mem = c.R.Intn(2 * n)
				}
				s := newSession(c.Fail, c.R, u, mem, 0)
				s.run(program(c.R, u, 40+c.R.Intn(6*n+20), 1+c.R.Intn(7), c.R.Float64()*0.2), 0)
				s.report(c)
				c.Distinct("tx=%d mem=%d handed=%d total=%d", n, mem, len(s.kept), s.ref.total)
			})
			h.Case(fmt.Sprintf("enc-%d", i), func(c *vC) { // codewords from real encoders
				rand.Seed(c.R.Int63())
				n := 2 + c.R.Intn(80)
				u := mkUniverse(c.R, n)
				var es []*ldpc.Encoder
				for k := 1 + c.R.Intn(3); k > 0; k-- {
					max := 1 + c.R.Intn(8)
					e := ldpc.NewEncoder(u.salt, &scripted{f: func() uint64 { return uint64(1 + c.R.Intn(max)) }}, 1+c.R.Intn(n))
					e.AddTransaction(load(u.d[c.R.Intn(n)]))
					es = append(es, e)
				}
				s := newSession(c.Fail, c.R, u, 1<<30, 0)
				for k := 0; k < 5*n; k++ {
					e := es[c.R.Intn(len(es))]
					if c.R.Intn(3) == 0 {
						e.AddTransaction(load(u.d[c.R.Intn(n)]))
						continue
					}
					cw := e.ProduceCodeword()
					keep := *cw
					keep.Members = append([]uint32(nil), cw.Members...)
					s.deliver(cw, fmt.Sprintf("step %d", k))
					if cw.Symbol != keep.Symbol || fmt.Sprint(cw.Members) != fmt.Sprint(keep.Members) {
						c.Fail("step %d: decoding modified the received codeword", k)
					}
					s.status("after", false)
				}
				s.end()
				s.report(c)
				c.Distinct("enc tx=%d handed=%d", n, len(s.kept))
			})
		}
		for i := 0; i < h.N(40, 1000); i++ {
			h.Case(fmt.Sprintf("collisions-%d", i), c13forget)
		}
		for i0 := 0; i0 < h.N(12, 100); i0++ {
			i := i0
			h.Case(fmt.Sprintf("wide-%d", i), func(c *vC) {
				wide(c, []int{300, 1100, 2500, 5000, 9000, 70000}[i%6]+c.R.Intn(300))
			})
		}
		for i := 0; i < h.N(16, 200); i++ { // far more transactions than are remembered
			h.Case(fmt.Sprintf("forgotten-%d", i), func(c *vC) {
				n := 600 + c.R.Intn(2000)
				mem := []int{0, 1, 5, 20, 100, 300}[i%6]
				u := mkUniverse(c.R, n)
				s := newSession(c.Fail, c.R, u, mem, 0)
				for k := 0; k < n; k++ {
					when := fmt.Sprintf("transaction %d of %d, memory %d", k, n, mem)
					switch c.R.Intn(6) {
					case 0:
						s.local(k, when+", local")
					case 1:
						s.deliver(u.craft([]int{k, (k + 1 + c.R.Intn(n-1)) % n}), when+", with another")
					case 2: // a chain of a few
						m := vMin(2+c.R.Intn(5), n-k)
						for x := 1; x < m; x++ {
							s.deliver(u.craft([]int{k + x - 1, k + x}), when+", chain")
						}
						s.deliver(u.craft([]int{k + c.R.Intn(m)}), when+", chain unlocked")
						k += m - 1
					default:
						s.deliver(u.craft([]int{k}), when+", alone")
					}
					if s.failed {
						return
					}
				}
				s.end()
				s.report(c)
				c.Seen("forgetting_histories", 1)
				c.Distinct("forgotten %d mem=%d total=%d", n, mem, s.ref.total)
			})
		}
		for i := 0; i < h.N(40, 400); i++ {
			h.Case(fmt.Sprintf("chain-%d", i), func(c *vC) {
				n := 2 + c.R.Intn(1200)
				u := mkUniverse(c.R, n)
				s := newSession(c.Fail, c.R, u, 1<<30, 0)
				for _, k := range c.R.Perm(n - 1) {
					s.deliver(u.craft([]int{k, k + 1}), "building the chain")
				}
				if i%2 == 0 {
					s.deliver(u.craft([]int{c.R.Intn(n)}), "unlocking the chain")
				} else {
					s.local(c.R.Intn(n), "unlocking the chain")
				}
				s.end()
				s.report(c)
				c.Distinct("chain %d", n)
			})
		}
	})
}

// ---- C15: releasing records ------------------------------------------------

// c15group runs several decoders at once, each releasing records on its own
// schedule, all recycling the same memory.
func c15group(c *vC, workers int, rounds int) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	msg := ""
	tot := map[string]int{}
	n := 4 + c.R.Intn(50)
	u := mkUniverse(c.R, n)
	prog := program(c.R, u, 30+c.R.Intn(8*n), 1+c.R.Intn(6), c.R.Float64()*0.15)
	start := make(chan struct{})
	for w := 0; w < workers; w++ {
		seed := c.R.Int63()
		mem := 1 << 30
		if c.R.Intn(3) == 0 {
			mem = 1 + c.R.Intn(n)
		}
		free := []float64{0, 0.02, 0.1, 0.3, 0.6, 1}[c.R.Intn(6)]
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					mu.Lock()
					if msg == "" {
						msg = fmt.Sprintf("decoder %d crashed: %v", w, e)
					}
					mu.Unlock()
				}
			}()
			r := rand.New(rand.NewSource(seed))
			<-start
			for k := 0; k < rounds; k++ {
				s := newSession(func(f string, a ...any) {
					mu.Lock()
					if msg == "" {
						msg = fmt.Sprintf("decoder %d of %d (release probability %.2f): ", w, workers, free) + fmt.Sprintf(f, a...)
					}
					mu.Unlock()
				}, r, u, mem, free)
				s.run(prog, 3+r.Intn(6))
				mu.Lock()
				for k, v := range s.n {
					tot[k] += v
				}
				stop := msg != ""
				mu.Unlock()
				if stop {
					return
				}
			}
		}(w)
	}
	close(start)
	wg.Wait()
	if msg != "" {
		c.Fail("%s", msg)
	}
	for k, v := range tot {
		c.Seen(k, v)
	}
	if workers > 1 {
		c.Seen("concurrent_decoders", workers)
	}
	c.Distinct("workers=%d tx=%d ops=%d expired=%d released=%d/%d", workers, n, len(prog), tot["expired_transactions"], tot["released_before_decoding"], tot["released_after_decoding"])
}

func TestVerifC15(t *testing.T) {
	vMain(t, "C15", func(h *vH) {
		runtime.GOMAXPROCS(4)
		n := h.N(250, 4000)
		m := h.N(80, 1200)
		if vMode() == "race" {
			n, m = h.N(40, 500), h.N(40, 500)
		}
		for i := 0; i < n; i++ {
			h.Case(fmt.Sprintf("single-%d", i), func(c *vC) { c15group(c, 1, 3) })
		}
		for i := 0; i < m; i++ {
			h.Case(fmt.Sprintf("group-%d", i), func(c *vC) { c15group(c, 2+c.R.Intn(7), 3) })
		}
		// release everything at once while still waiting, then unlock it all
		for i := 0; i < h.N(24, 300); i++ {
			h.Case(fmt.Sprintf("avalanche-%d", i), func(c *vC) {
				n := 5 + c.R.Intn(300)
				u := mkUniverse(c.R, n)
				s := newSession(c.Fail, c.R, u, 1<<30, 0)
				for _, k := range c.R.Perm(n - 1) {
					s.deliver(u.craft([]int{k, k + 1}), "building the chain")
				}
				s.free = []float64{1, 0.5, 0.9}[i%3]
				s.release()
				s.deliver(u.craft([]int{0}), "unlocking the chain")
				// the recycled records must be usable again
				s.free = 0.3
				s.run(program(c.R, u, 50, 5, 0), 0)
				s.report(c)
				c.Distinct("avalanche %d %v", n, s.n)
			})
		}
	})
}

// ---- C12/C13 for this package ----------------------------------------------

// bigmem: a decoder that remembers many transactions forgets exactly those that
// as many others followed.
func bigmem(c *vC, mem int) {
	u := mkUniverse(c.R, mem+5000)
	d := ldpc.NewDecoder(u.salt, mem)
	c.Budget(1 << 40)
	var fifo []int // stored, oldest first
	at := map[int]int{}
	know := func(x int) bool { t, ok := at[x]; return ok && t >= len(fifo)-mem }
	store := func(x int) { at[x] = len(fifo); fifo = append(fifo, x) }
	probe := func(x int) { // a codeword of x alone
		was := know(x)
		_, txs := d.AddCodeword(u.craft([]int{x}))
		if was && len(txs) != 0 {
			c.Fail("memory %d: transaction %d, the last but %d of %d, is handed out again", mem, x, len(fifo)-1-at[x], len(fifo))
		}
		if !was {
			if len(txs) != 1 {
				c.Fail("memory %d: transaction %d, with %d stored since (or never), is not handed out", mem, x, len(fifo)-1-at[x])
			}
			store(x)
			c.Seen("decoded_again_after_forgetting", 1)
		}
		c.Seen("boundary_probes", 1)
	}
	n := len(u.d)
	for i := 0; i < n; i++ {
		if i%4096 == 0 {
			vTick()
		}
		if i%3 == 0 {
			probe(i)
		} else {
			d.AddTransaction(load(u.d[i]))
			store(i)
		}
	}
	for k := 0; k < 400; k++ {
		probe(fifo[len(fifo)-mem]) // the oldest remembered
		if len(fifo) > mem {
			probe(fifo[len(fifo)-mem-1]) // the latest forgotten
		}
		probe(c.R.Intn(n))
	}
	c.Seen("large_memories", 1)
	c.Distinct("bigmem %d %d", mem, len(fifo))
}

func TestVerifC12(t *testing.T) {
	vMain(t, "C12", func(h *vH) {
		for i, m0 := range []int{1000, 6000, 66000} {
			mem := m0
			h.Case(fmt.Sprintf("ldpc-memory-%d", i), func(c *vC) { bigmem(c, mem+c.R.Intn(1000)) })
		}
		for i := 0; i < h.N(300, 5000); i++ {
			h.Case(fmt.Sprintf("ldpc-hist-%d", i), func(c *vC) {
				mem := []int{0, 1, 2, 3, 5, 10, 40, 200}[c.R.Intn(8)]
				n := mem + 2 + c.R.Intn(2*mem+20)
				u := mkUniverse(c.R, n)
				s := newSession(c.Fail, c.R, u, mem, 0)
				for k := 100 + c.R.Intn(5*mem+100); k > 0; k-- {
					when := fmt.Sprintf("memory %d, %d steps left", mem, k)
					switch c.R.Intn(8) {
					case 0, 1:
						s.local(c.R.Intn(n), when+", local")
					case 2:
						s.deliver(u.craft(c.R.Perm(n)[:1+c.R.Intn(vMin(n, 4))]), when+", codeword")
					case 3:
						if len(s.ref.recent) > 0 {
							s.deliver(u.craft([]int{s.ref.recent[0]}), when+", probing the oldest remembered")
							c.Seen("boundary_probes", 1)
						}
					default:
						s.deliver(u.craft([]int{c.R.Intn(n)}), when+", singleton")
					}
				}
				s.end()
				s.report(c)
				c.Distinct("ldpc mem=%d tx=%d total=%d", mem, n, s.ref.total)
			})
		}
		for i, mem := range []int{0, 10, 1000} {
			for kind := 0; kind < 4; kind++ {
				h.Case(fmt.Sprintf("ldpc-heap-%d-%d", i, kind), func(c *vC) {
					var salt [ldpc.SaltSize]byte
					d := ldpc.NewDecoder(salt, mem)
					next := uint64(1)
					single := func(x data, bad bool) *ldpc.Codeword {
						cw := &ldpc.Codeword{Symbol: x, Members: []uint32{shortID(salt, x[:])}}
						if bad {
							cw.Symbol[77] ^= 4
						}
						return cw
					}
					do := func(n int) {
						for k := 0; k < n; k++ {
							x := payload(next)
							next++
							switch kind {
							case 0:
								d.AddTransaction(load(x))
							case 1:
								p, _ := d.AddCodeword(single(x, false))
								if k%2 == 0 {
									p.Free()
								}
							case 2:
								d.AddCodeword(single(x, true))
							default:
								y := payload(next)
								cw := single(x, false)
								xorInto(&cw.Symbol, &y)
								cw.Members = append(cw.Members, shortID(salt, y[:]))
								p, _ := d.AddCodeword(cw)
								if k%2 == 0 {
									p.Free()
								}
								d.AddTransaction(load(x))
							}
						}
					}
					heap := func() int64 {
						runtime.GC()
						runtime.GC()
						var m runtime.MemStats
						runtime.ReadMemStats(&m)
						return int64(m.HeapAlloc)
					}
					do(20000)
					h0 := heap()
					n := h.N(120000, 1000000)
					do(n)
					grow := heap() - h0
					runtime.KeepAlive(d)
					c.Seen("long_run_transactions", n)
					c.Max("heap_growth_bytes", grow)
					if grow > int64(n)*12+2<<20 {
						c.Fail("memory %d, kind %d: the retained heap grew by %d bytes over %d transactions", mem, kind, grow, n)
					}
					c.Distinct("ldpc heap mem=%d kind=%d", mem, kind)
				})
			}
		}
	})
}

func TestVerifC13(t *testing.T) {
	vMain(t, "C13", func(h *vH) {
		for i := 0; i < h.N(400, 8000); i++ {
			h.Case(fmt.Sprintf("ldpc-collide-%d", i), func(c *vC) {
				pairs := collisions(5)
				u := &universe{byID: map[uint32]int{}, byD: map[data]int{}, salt: collSalt}
				for _, p := range c.R.Perm(len(pairs))[:1+c.R.Intn(3)] {
					u.add(payload(pairs[p][0]), true)
					u.add(payload(pairs[p][1]), true)
				}
				for k := 3 + c.R.Intn(8); k > 0; k-- {
					u.add(payload(1<<50|c.R.Uint64()>>16), true)
				}
				mem := []int{0, 1, 2, 4, 1 << 20}[c.R.Intn(5)]
				d := ldpc.NewDecoder(u.salt, mem)
				listed := map[uint32]bool{}
				maxdeg, dup := 1+c.R.Intn(5), c.R.Intn(3)
				steps := 30 + c.R.Intn(300)
				var ps []*ldpc.PendingCodeword
				for n := 0; n < steps; n++ {
					var txs []ldpc.DecodedTransaction
					if c.R.Intn(4) == 0 {
						txs = d.AddTransaction(load(u.d[c.R.Intn(len(u.d))]))
					} else {
						var idx []int
						for k := c.R.Intn(maxdeg) + 1; k > 0; k-- {
							j, has := c.R.Intn(len(u.d)), false
							for _, x := range idx {
								has = has || x == j
							}
							if !has || dup == 0 {
								idx = append(idx, j)
							}
						}
						cw := u.craft(idx)
						if c.R.Intn(4) == 0 {
							damage(c, u, cw)
						}
						for _, m := range cw.Members {
							listed[m] = true
						}
						var p *ldpc.PendingCodeword
						p, txs = d.AddCodeword(cw)
						if c.R.Intn(4) == 0 {
							p.Free()
						} else {
							ps = append(ps, p)
						}
					}
					for _, t := range txs {
						if id := shortID(u.salt, t.Serialized()); !listed[id] {
							c.Fail("step %d: handed out a transaction with short hash %x that no received codeword lists", n, id)
						}
						c.Seen("handed_out_under_collisions", 1)
					}
					for _, p := range ps {
						p.Decoded()
					}
				}
				c.Distinct("ldpc collide mem=%d steps=%d deg=%d", mem, steps, maxdeg)
			})
		}
		for i := 0; i < h.N(40, 1000); i++ {
			h.Case(fmt.Sprintf("ldpc-forget-%d", i), c13forget)
			h.Case(fmt.Sprintf("ldpc-latest-%d", i), func(c *vC) {
				pairs := collisions(5)
				u := &universe{byID: map[uint32]int{}, byD: map[data]int{}, salt: collSalt}
				np := 1 + c.R.Intn(len(pairs))
				for _, p := range c.R.Perm(len(pairs))[:np] {
					u.add(payload(pairs[p][0]), true)
					u.add(payload(pairs[p][1]), true)
				}
				d := ldpc.NewDecoder(u.salt, 1<<20)
				last := make([]int, np)
				for k := range last {
					last[k] = -1
				}
				steps := 5 + c.R.Intn(60)
				for n := 0; n < steps; n++ {
					k := c.R.Intn(np)
					last[k] = 2*k + c.R.Intn(2)
					if txs := d.AddTransaction(load(u.d[last[k]])); len(txs) != 0 {
						c.Fail("step %d: adding a transaction handed out %d although no codeword is pending", n, len(txs))
					}
					var idx []int
					for _, x := range last {
						if x >= 0 && c.R.Intn(3) != 0 {
							idx = append(idx, x)
						}
					}
					next := len(u.d)
					u.add(payload(1<<50|c.R.Uint64()>>16), true)
					idx = append(idx, next)
					p, txs := d.AddCodeword(u.craft(idx))
					if !p.Decoded() || len(txs) != 1 || string(txs[0].Serialized()) != string(u.d[next][:]) {
						c.Fail("step %d: a codeword of the latest of %d transactions sharing short hashes and one more: decoded=%v, %d handed out", n, len(idx)-1, p.Decoded(), len(txs))
					}
					c.Seen("latest_of_colliding", len(idx)-1)
				}
				c.Distinct("ldpc latest pairs=%d steps=%d %v", np, steps, last)
			})
		}
		for i := 0; i < h.N(250, 5000); i++ {
			h.Case(fmt.Sprintf("ldpc-damage-%d", i), func(c *vC) {
				n := 2 + c.R.Intn(40)
				u := mkUniverse(c.R, n)
				s := newSession(c.Fail, c.R, u, 1<<30, 0)
				if i%3 == 0 {
					s.free = 0.1
				}
				maxdeg, rate := 1+c.R.Intn(vMin(6, n)), 2+c.R.Intn(4)
				for k := 40 + c.R.Intn(300); k > 0; k-- {
					if c.R.Intn(10) == 0 {
						s.local(c.R.Intn(n), "local")
						continue
					}
					idx := c.R.Perm(n)[:1+c.R.Intn(maxdeg)]
					cw := u.craft(idx)
					if c.R.Intn(rate) != 0 {
						s.deliver(cw, fmt.Sprintf("%d steps left, intact codeword", k))
						s.release()
						continue
					}
					what := damage(c, u, cw)
					if c.R.Intn(3) == 0 {
						what += "+" + damage(c, u, cw)
					}
					if consistent(u, cw) {
						continue
					}
					p, txs := s.dec.AddCodeword(cw)
					if len(txs) != 0 {
						c.Fail("%d steps left: a damaged codeword (%s) of %v yielded transaction %x", k, what, idx, txs[0].Serialized())
					}
					if c.R.Intn(3) == 0 {
						p.Free()
					}
					c.Seen("damaged_codewords", 1)
				}
				s.end()
				s.report(c)
				c.Distinct("ldpc damage tx=%d deg=%d rate=%d handed=%d", n, maxdeg, rate, len(s.kept))
			})
		}
	})
}

// c13forget: a transaction that has taken the place of an older one with the
// same short hash is known until as many transactions as the decoder remembers
// came after it, however soon the older one is forgotten.
func c13forget(c *vC) {
	pairs := collisions(5)
	u := &universe{byID: map[uint32]int{}, byD: map[data]int{}, salt: collSalt}
	np := 1 + c.R.Intn(len(pairs))
	var todo []int
	for _, p := range c.R.Perm(len(pairs))[:np] {
		u.add(payload(pairs[p][0]), true)
		u.add(payload(pairs[p][1]), true)
	}
	for i := 0; i < 2*np; i++ {
		todo = append(todo, i/2)
	}
	c.R.Shuffle(len(todo), func(i, j int) { todo[i], todo[j] = todo[j], todo[i] })
	mem := 2 + c.R.Intn(20)
	d := ldpc.NewDecoder(u.salt, mem)
	seen := make([]int, np)  // members of the pair added so far
	first := make([]int, np) // which of the two goes first
	for i := range first {
		first[i] = c.R.Intn(2)
	}
	at := map[int]int{} // transaction -> when it was stored
	now := 0
	store := func(x int) { at[x] = now; now++ }
	known := func(x int) bool { t, ok := at[x]; return ok && t >= now-mem }
	fresh := func() int {
		u.add(payload(1<<50|c.R.Uint64()>>16), true)
		return len(u.d) - 1
	}
	for n := 0; len(todo) > 0 || n%40 != 0; n++ {
		switch {
		case len(todo) > 0 && c.R.Intn(4) == 0:
			i := todo[0]
			todo = todo[1:]
			x := 2*i + (first[i]+seen[i])%2
			seen[i]++
			d.AddTransaction(load(u.d[x]))
			store(x)
		case c.R.Intn(3) == 0:
			x := fresh()
			d.AddTransaction(load(u.d[x]))
			store(x)
		default:
			// the transactions still known of pairs both of which were added, and a new one
			var idx []int
			for i := range seen {
				if seen[i] == 2 {
					if x := 2*i + (first[i]+1)%2; known(x) && c.R.Intn(3) != 0 {
						idx = append(idx, x)
						if !known(2*i + first[i]) {
							c.Seen("successor_of_forgotten", 1)
						}
					}
				}
			}
			x := fresh()
			p, txs := d.AddCodeword(u.craft(append(idx, x)))
			if !p.Decoded() || len(txs) != 1 || string(txs[0].Serialized()) != string(u.d[x][:]) {
				c.Fail("step %d, memory %d: a codeword of %d known transactions, each successor of one with the same short hash, and one more: decoded=%v, %d handed out", n, mem, len(idx), p.Decoded(), len(txs))
			}
			store(x)
		}
		if got := d.NumTransactionsReceived(); got != now {
			c.Fail("step %d: %d distinct transactions obtained, some with equal short hashes, the count is %d", n, now, got)
		}
	}
	c.Seen("collision_histories", 1)
	c.Distinct("ldpc forget pairs=%d memory=%d stored=%d", np, mem, now)
}

func damage(c *vC, u *universe, cw *ldpc.Codeword) string {
	m := len(cw.Members)
	switch c.R.Intn(5) {
	case 0:
		cw.Symbol[c.R.Intn(128)] ^= byte(1 << c.R.Intn(8))
		return "content"
	case 1:
		if m > 0 {
			k := c.R.Intn(m)
			cw.Members = append(append([]uint32(nil), cw.Members[:k]...), cw.Members[k+1:]...)
		}
		return "omit"
	case 2:
		if m > 0 {
			cw.Members = append(cw.Members, cw.Members[c.R.Intn(m)])
		}
		return "repeat"
	case 3:
		cw.Members = append(cw.Members, c.R.Uint32())
		return "invent"
	default:
		if m > 0 {
			cw.Members[c.R.Intn(m)] = u.id[c.R.Intn(len(u.id))]
		}
		return "replace"
	}
}

func consistent(u *universe, cw *ldpc.Codeword) bool {
	z := cw.Symbol
	for _, id := range cw.Members {
		i, ok := u.byID[id]
		if !ok {
			return false
		}
		xorInto(&z, &u.d[i])
	}
	return z == data{}
}
