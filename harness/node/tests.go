package VPKG

import (
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"sort"
	"testing"
	"testing/synctest"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	"github.com/yangl1996/soliton"
)

func randFrag(r *rand.Rand) frag {
	f := frag{mode: r.Intn(3), r: rand.New(rand.NewSource(r.Int63()))}
	if r.Intn(2) == 0 {
		f.delay = time.Duration(1 + r.Intn(3000000))
	}
	return f
}

func (u *universe) name(d data) string {
	if i, ok := u.byD[d]; ok {
		return fmt.Sprintf("#%d", i)
	}
	return fmt.Sprintf("unknown %x", d[:24])
}

// intelligible checks that everything an endpoint heard is made, under the
// key the node sent first, of the given transactions.
func (e *endpoint) intelligible(c *vC, id string, txs []data, from int) int {
	e.mu.Lock()
	bad := e.bad
	e.mu.Unlock()
	if bad != nil {
		c.Fail("%s: the stream of codewords became unreadable: %v", id, bad)
	}
	ids := make(map[uint32]*data, len(txs))
	for k := range txs {
		id := short(e.nodeKey, &txs[k])
		if old := ids[id]; old != nil && *old != txs[k] {
			return 0 // short ids collide under the key the node happened to draw
		}
		ids[id] = &txs[k]
	}
	cws := e.heard()
	n := 0
	for i, h := range cws {
		if i < from {
			continue
		}
		sym := h.cw.Symbol
		for _, m := range h.cw.Members {
			d := ids[m]
			if d == nil {
				c.Fail("%s: codeword %d sent by the node (%d members) covers a transaction not given to that sender, under the key %x it sent", id, i, len(h.cw.Members), e.nodeKey)
			}
			for b := range sym {
				sym[b] ^= d[b]
			}
		}
		if sym != (data{}) {
			c.Fail("%s: codeword %d does not carry the XOR of its %d members", id, i, len(h.cw.Members))
		}
		n++
	}
	return n
}

// learn decodes what an endpoint heard.
func (e *endpoint) learn() map[data]int {
	dec := ldpc.NewDecoder(e.nodeKey, 1<<20)
	res := map[data]int{}
	for _, h := range e.heard() {
		_, txs := dec.AddCodeword(h.cw.Codeword)
		for _, t := range txs {
			res[body(t.Transaction)]++
		}
	}
	return res
}

// speak keeps sending codewords over txs until told to stop.
func (e *endpoint) speak(u *universe, k int, txs []int, every time.Duration, n int, r *rand.Rand) {
	dist := soliton.NewRobustSoliton(r, uint64(vMin(50, len(txs)+1)), 0.03, 0.5)
	enc := ldpc.NewEncoder(u.keys[k], dist, len(txs))
	for _, i := range txs {
		enc.AddTransaction(load(u.d[i]))
	}
	go func() {
		for i := 0; i < n; i++ {
			e.say(enc.ProduceCodeword(), 0)
			time.Sleep(every)
		}
	}()
}

// ---- C27 ---------------------------------------------------------------------

func TestVerifC27(t *testing.T) {
	vMain(t, "C27", func(h *vH) {
		// one node between scripted peers
		for i := 0; i < h.N(240, 2400); i++ {
			h.Case(fmt.Sprintf("scripted-%d", i), func(c *vC) {
				newSink()
				bubble(t, func() {
					p := defaults()
					p.initRate, p.minRate = 100+200*c.R.Float64(), 100
					ctl := newController(p)
					n := 2 + c.R.Intn(2)
					var keys []key
					for k := 0; k < n; k++ {
						keys = append(keys, randKey(c.R))
					}
					u := newUniverse(c.R, keys...)
					var es []*endpoint
					for k := 0; k < n; k++ {
						f := randFrag(c.R)
						if f.mode == 2 {
							f.delay /= 100 // a codeword has a few hundred bytes
						}
						e := newEndpoint(keys[k], f)
						es = append(es, e)
					}
					order := c.R.Perm(n)
					for _, k := range order {
						attach(c, ctl, es[k], fmt.Sprint("peer", k))
					}
					for a := range es {
						for b := 0; b < a; b++ {
							if es[a].nodeKey == es[b].nodeKey {
								c.Fail("the node used the key %x for two peers", es[a].nodeKey)
							}
						}
						for b := range es {
							if es[a].nodeKey == es[b].key {
								c.Fail("the node sent peer %d's key as its own", b)
							}
						}
					}
					var all []data
					own := map[data]int{} // source of each transaction, -1 for the node
					for k := c.R.Intn(12); k > 0; k-- {
						x := u.d[u.add()]
						own[x] = -1
						all = append(all, x)
						ctl.localTransaction <- load(x)
					}
					for k := range es {
						var mine []int
						for j := 1 + c.R.Intn(8); j > 0; j-- {
							x := u.add()
							mine = append(mine, x)
							own[u.d[x]] = k
							all = append(all, u.d[x])
						}
						es[k].speak(u, k, mine, time.Duration(2+c.R.Intn(10))*time.Millisecond, 600, rand.New(rand.NewSource(c.R.Int63())))
					}
					var miss string
					for s := 0; s < 120; s++ {
						time.Sleep(time.Second)
						synctest.Wait()
						miss = ""
						for k, e := range es {
							got := e.learn()
							for d := range own {
								if got[d] == 0 {
									miss = fmt.Sprintf("peer %d never learned transaction %s (of peer %d) from %d codewords", k, u.name(d), own[d], len(e.heard()))
								}
							}
							for d := range got {
								if _, ok := own[d]; !ok {
									c.Fail("peer %d learned a transaction nobody made: %s", k, u.name(d))
								}
							}
						}
						if miss == "" {
							break
						}
					}
					if miss != "" {
						c.Fail("after 120 simulated seconds %s", miss)
					}
					n2 := 0
					for k, e := range es {
						n2 += e.intelligible(c, fmt.Sprint("peer ", k), all, 0)
					}
					c.Seen("handshakes", n)
					c.Seen("codewords_heard", n2)
					c.Seen("transactions_relayed", len(all))
					c.Distinct("n=%d tx=%d cw=%d", n, len(all), n2)
				})
			})
		}
		// transactions that become known late, before and after the warm-up, and others that depend on them
		for i := 0; i < h.N(40, 400); i++ {
			h.Case(fmt.Sprintf("late-%d", i), func(c *vC) {
				newSink()
				bubble(t, func() {
					p := defaults()
					p.initRate, p.minRate = 150, 100
					p.timeout = time.Duration(50+c.R.Intn(400)) * time.Millisecond
					ctl := newControllerW(p, time.Duration(c.R.Intn(5))*time.Second)
					n := 2 + c.R.Intn(2)
					var keys []key
					for k := 0; k < n; k++ {
						keys = append(keys, randKey(c.R))
					}
					u := newUniverse(c.R, keys...)
					var es []*endpoint
					for k := 0; k < n; k++ {
						es = append(es, newEndpoint(keys[k], frag{}))
						attach(c, ctl, es[k], fmt.Sprint("peer", k))
					}
					tp := newTap(ctl, 200, 200, 0)
					made, must := map[data]bool{}, map[data]int{}
					add := func(by int) int {
						u.ageNext = time.Duration(c.R.Intn(3000)) * time.Millisecond
						x := u.add()
						made[u.d[x]] = true
						if by >= 0 {
							must[u.d[x]] = by
						}
						return x
					}
					rounds := 3 + c.R.Intn(8)
					for r := 0; r < rounds; r++ {
						a := c.R.Intn(n)
						b := (a + 1 + c.R.Intn(n-1)) % n
						x, y := add(a), add(-1)
						es[a].say(u.craft(a, x, y), 0)
						time.Sleep(p.timeout + time.Duration(1+c.R.Intn(300))*time.Millisecond)
						es[a].say(u.craft(a, x), 0) // y is late now
						time.Sleep(time.Duration(1+c.R.Intn(900)) * time.Millisecond)
						z := add(b)
						es[b].say(u.craft(b, y, z), 0) // needs y as it was
						time.Sleep(time.Duration(1+c.R.Intn(300)) * time.Millisecond)
					}
					miss := ""
					for s := 0; s < 120; s++ {
						time.Sleep(time.Second)
						synctest.Wait()
						miss = ""
						for k, e := range es {
							got := e.learn()
							for d := range got {
								if !made[d] {
									c.Fail("peer %d learned a transaction nobody made: %s", k, u.name(d))
								}
							}
							for d, by := range must {
								if got[d] == 0 && by != k {
									miss = fmt.Sprintf("peer %d never learned transaction %s (of peer %d) from %d codewords", k, u.name(d), by, len(e.heard()))
								}
							}
						}
						if miss == "" {
							break
						}
					}
					if miss != "" {
						c.Fail("after 120 simulated seconds %s", miss)
					}
					gs, gr := tp.got()
					for _, d := range append(gs, gr...) {
						if !made[d] {
							c.Fail("the node passed on a transaction nobody made: %s", u.name(d))
						}
					}
					tp.intact(c, "late transactions")
					c.Seen("late_transactions", rounds)
					c.Distinct("late n=%d rounds=%d cw=%d", n, rounds, len(es[0].heard()))
				})
			})
		}
		// the handshake with every way of splitting the key
		for i := 0; i < h.N(64, 400); i++ {
			h.Case(fmt.Sprintf("split-%d", i), func(c *vC) {
				newSink()
				bubble(t, func() {
					ctl := newController(defaults())
					k := randKey(c.R)
					switch i % 16 {
					case 5: // keys like any other
						k = key{}
					case 11:
						for j := range k {
							k[j] = 0xff
						}
					}
					u := newUniverse(c.R, k)
					x := u.add()
					e := newEndpoint(k, frag{})
					tp := newTap(ctl, 5, 5, 0)
					// key and first codewords, split at chosen points
					stream := append([]byte(nil), k[:]...)
					stream = append(stream, e.bytes(u.craft(0, x), 0)...)
					cuts := map[int]bool{}
					switch {
					case i < 17:
						cuts[i] = true
					case i < 34:
						cuts[i-17], cuts[16] = true, true
					default:
						for j := c.R.Intn(20); j > 0; j-- {
							cuts[c.R.Intn(24)] = true
						}
					}
					gap := []time.Duration{0, 0, time.Millisecond, 3 * time.Second}[c.R.Intn(4)]
					done := make(chan error, 1)
					go func() { done <- ctl.handleConn("split", e.conn) }()
					last := 0
					for b := 1; b <= len(stream); b++ {
						if cuts[b] || b == len(stream) {
							e.w <- stream[last:b]
							last = b
							if gap > 0 {
								time.Sleep(gap)
							} else if c.R.Intn(2) == 0 {
								synctest.Wait()
							}
						}
					}
					select {
					case err := <-done:
						if err != nil {
							c.Fail("handshake failed: %v", err)
						}
					case <-time.After(time.Minute):
						c.Fail("handshake does not complete")
					}
					time.Sleep(2 * time.Second)
					synctest.Wait()
					s, r := tp.got()
					if len(s) != 1 || len(r) != 1 || s[0] != u.d[x] || r[0] != u.d[x] {
						c.Fail("key split at %v: the codeword sent under it was not decoded (%d transactions passed on)", cuts, len(r))
					}
					c.Seen("key_splits", 1)
					c.Distinct("split %v gap %v", cuts, gap)
				})
			})
		}
		// a line of real nodes joined by fragmenting, delaying wires
		for i := 0; i < h.N(60, 600); i++ {
			h.Case(fmt.Sprintf("line-%d", i), func(c *vC) {
				newSink()
				bubble(t, func() {
					n := 2 + c.R.Intn(3)
					var ctls []*controller
					for k := 0; k < n; k++ {
						p := defaults()
						p.minRate = 100
						ctls = append(ctls, newController(p))
					}
					wire := func(a, b *conn, f frag) {
						go func() {
							for x := range a.out {
								f.send(b.in, x)
							}
						}()
					}
					done := make(chan error, 2*n)
					for k := 1; k < n; k++ {
						a, b := newConn(), newConn()
						for _, w := range [][2]*conn{{a, b}, {b, a}} {
							f := randFrag(c.R)
							if f.mode == 2 {
								f.delay /= 200
							} else {
								f.delay /= 10
							}
							wire(w[0], w[1], f)
						}
						go func(k int) { done <- ctls[k-1].handleConn(fmt.Sprint("right of ", k-1), a) }(k)
						go func(k int) { done <- ctls[k].handleConn(fmt.Sprint("left of ", k), b) }(k)
					}
					for k := 0; k < 2*(n-1); k++ {
						select {
						case err := <-done:
							if err != nil {
								c.Fail("handshake failed: %v", err)
							}
						case <-time.After(time.Minute):
							c.Fail("handshake does not complete")
						}
					}
					var taps []*tap
					for k := range ctls {
						taps = append(taps, newTap(ctls[k], c.R.Intn(200), c.R.Intn(200), 0))
					}
					u := newUniverse(c.R)
					var all []data
					at := map[data]int{}
					for k := 1 + c.R.Intn(30); k > 0; k-- {
						x := u.add()
						all = append(all, u.d[x])
						w := c.R.Intn(n)
						at[u.d[x]] = w
						ctls[w].localTransaction <- load(u.d[x])
						if c.R.Intn(3) == 0 {
							time.Sleep(time.Duration(c.R.Intn(50)) * time.Millisecond)
						}
					}
					miss := ""
					for s := 0; s < 120; s++ {
						time.Sleep(time.Second)
						synctest.Wait()
						miss = ""
						for k, tp := range taps {
							gs, gr := tp.got()
							for half, g := range [][]data{gs, gr} {
								cnt := map[data]int{}
								for _, d := range g {
									cnt[d]++
									if _, ok := at[d]; !ok {
										c.Fail("node %d passed on a transaction nobody made", k)
									}
									if cnt[d] > 1 && !(k > 0 && k < n-1 && at[d] != k) {
										c.Fail("node %d passed transaction %s on twice", k, u.name(d))
									}
								}
								for _, d := range all {
									if cnt[d] == 0 {
										miss = fmt.Sprintf("node %d did not pass on transaction %s of node %d (%d)", k, u.name(d), at[d], half)
									}
								}
							}
						}
						if miss == "" {
							break
						}
					}
					if miss != "" {
						c.Fail("line of %d nodes, 120 simulated seconds: %s", n, miss)
					}
					for k, tp := range taps {
						tp.intact(c, fmt.Sprintf("node %d", k))
					}
					c.Seen("handshakes", 2*(n-1))
					c.Seen("transactions_across_nodes", len(all)*(n-1))
					c.Distinct("line n=%d tx=%d", n, len(all))
				})
			})
		}
		programs(h)
	})
}

// ---- C28 ---------------------------------------------------------------------

func multiset(ds []data) map[data]int {
	m := map[data]int{}
	for _, d := range ds {
		m[d]++
	}
	return m
}

func sameMulti(c *vC, u *universe, what string, got, want []data) {
	g, w := multiset(got), multiset(want)
	for d, n := range w {
		if g[d] != n {
			c.Fail("%s: transaction %s given %d times, expected %d (%d of %d given in total)", what, u.name(d), g[d], n, len(got), len(want))
		}
	}
	for d, n := range g {
		if w[d] != n {
			c.Fail("%s: transaction %s given %d times, expected %d", what, u.name(d), n, w[d])
		}
	}
}

// covered waits until the node's codewords to e cover all of the last K
// transactions its sender was given.
func covered(c *vC, e *endpoint, order []data, K int) {
	win := order
	if len(win) > K {
		win = win[len(win)-K:]
	}
	want := map[uint32]bool{}
	for k := range win {
		want[short(e.nodeKey, &win[k])] = true
	}
	from := len(e.heard())
	for s := 0; len(want) > 0; s++ {
		time.Sleep(time.Second)
		synctest.Wait()
		cws := e.heard()[from:]
		for _, h := range cws {
			for _, m := range h.cw.Members {
				delete(want, m)
			}
		}
		if len(want) > 0 && len(cws) > 100*K {
			c.Fail("%d of the last %d transactions given to the sender are in none of %d codewords", len(want), len(win), len(cws))
		}
		if s > 600 {
			c.Fail("the node stopped sending codewords")
		}
	}
	c.Seen("windows_covered", 1)
}

func TestVerifC28(t *testing.T) {
	vMain(t, "C28", func(h *vH) {
		// the distribution loop alone: everything handed to it
		for i := 0; i < h.N(300, 3000); i++ {
			h.Case(fmt.Sprintf("loop-%d", i), func(c *vC) {
				newSink()
				bubble(t, func() {
					p := defaults()
					p.decCap, p.locCap = c.R.Intn(50), c.R.Intn(50)
					ctl := newController(p)
					u := newUniverse(c.R)
					n := c.R.Intn(6)
					var taps []*tap
					var from [][2]int
					var wantS, wantR []data
					for k := 0; k < 1+c.R.Intn(300); k++ {
						if len(taps) < n && c.R.Intn(10) == 0 {
							synctest.Wait()
							time.Sleep(time.Second)
							synctest.Wait()
							slow := time.Duration(0)
							if c.R.Intn(3) == 0 {
								slow = time.Duration(1 + c.R.Intn(3000))
							}
							taps = append(taps, newTap(ctl, c.R.Intn(10), c.R.Intn(10), slow))
							from = append(from, [2]int{len(wantS), len(wantR)})
							synctest.Wait()
						}
						d := u.d[u.add()]
						switch c.R.Intn(4) {
						case 0, 1:
							ctl.localTransaction <- load(d)
							wantS, wantR = append(wantS, d), append(wantR, d)
						case 2:
							ctl.decodedTransaction <- ldpc.DecodedTransaction{load(d), false}
							wantS, wantR = append(wantS, d), append(wantR, d)
						default:
							ctl.decodedTransaction <- ldpc.DecodedTransaction{load(d), true}
							wantR = append(wantR, d)
						}
						if c.R.Intn(4) == 0 {
							time.Sleep(time.Duration(c.R.Intn(1000000)))
						}
					}
					time.Sleep(20 * time.Second)
					synctest.Wait()
					for k, tp := range taps {
						s, r := tp.got()
						sameMulti(c, u, fmt.Sprintf("sender of peer %d", k), s, wantS[from[k][0]:])
						sameMulti(c, u, fmt.Sprintf("receiver of peer %d", k), r, wantR[from[k][1]:])
						tp.intact(c, fmt.Sprintf("peer %d", k))
						c.Seen("distributed", len(s)+len(r))
					}
					c.Distinct("loop peers=%d tx=%d late=%d", len(taps), len(wantR), len(wantR)-len(wantS))
				})
			})
		}
		// one scripted peer, compared with a reference receiver
		for i := 0; i < h.N(100, 1600); i++ {
			h.Case(fmt.Sprintf("peer-%d", i), func(c *vC) {
				newSink()
				bubble(t, func() {
					p := defaults()
					p.timeout = []time.Duration{time.Hour, 30 * time.Millisecond, time.Second, 0}[c.R.Intn(4)]
					p.decCap, p.locCap = 1+c.R.Intn(1000), 1+c.R.Intn(1000)
					ctl := newController(p)
					k := randKey(c.R)
					u := newUniverse(c.R, k)
					e := newEndpoint(k, frag{})
					attach(c, ctl, e, "scripted")
					var taps []*tap
					for j := 1 + c.R.Intn(3); j > 0; j-- {
						slow := time.Duration(0)
						if c.R.Intn(3) == 0 {
							slow = time.Duration(1 + c.R.Intn(2000))
						}
						taps = append(taps, newTap(ctl, c.R.Intn(120), c.R.Intn(120), slow))
					}
					synctest.Wait()
					ref := newRecv(k, int(p.M), p.timeout)
					var locals []data
					send := func(cws ...*ldpc.Codeword) {
						for _, cw := range cws {
							e.say(cw, 0)
							ref.codeword(cw, time.Now())
						}
					}
					for j := 0; j < 60; j++ {
						u.add()
					}
					big := 0
					for s := 3 + c.R.Intn(40); s > 0; s-- {
						switch c.R.Intn(6) {
						case 0:
							d := u.d[c.R.Intn(len(u.d))]
							if ref.dec.NumTransactionsReceived() == 0 || c.R.Intn(2) == 0 {
								d = u.d[u.add()]
							}
							locals = append(locals, d)
							ctl.localTransaction <- load(d)
							ref.local(load(d))
						case 1: // a chain that falls all at once
							if big < 3 && c.R.Intn(3) == 0 {
								n := []int{50, 300, 1300, 2500}[c.R.Intn(4)]
								first := u.add()
								for j := 1; j < n; j++ {
									x := u.add()
									send(u.craft(0, x-1, x))
									if j%500 == 0 {
										time.Sleep(time.Millisecond)
										synctest.Wait()
									}
								}
								time.Sleep(time.Millisecond)
								synctest.Wait()
								if c.R.Intn(3) == 0 {
									locals = append(locals, u.d[first])
									ctl.localTransaction <- load(u.d[first])
									ref.local(load(u.d[first]))
								} else {
									send(u.craft(0, first))
								}
								big++
								c.Max("largest_avalanche", int64(n))
							}
						default:
							for j := 1 + c.R.Intn(8); j > 0; j-- {
								perm := c.R.Perm(vMin(60, len(u.d)))
								send(u.craft(0, perm[:1+c.R.Intn(4)]...))
							}
						}
						time.Sleep(time.Duration(500000 + c.R.Intn(30000000)))
						synctest.Wait()
					}
					time.Sleep(60 * time.Second)
					synctest.Wait()
					wantS := append(append([]data(nil), locals...), ref.in...)
					wantR := append(append([]data(nil), wantS...), ref.late...)
					var order []data
					for n, tp := range taps {
						s, r := tp.got()
						sameMulti(c, u, fmt.Sprintf("sender of peer %d", n), s, wantS)
						sameMulti(c, u, fmt.Sprintf("receiver of peer %d", n), r, wantR)
						tp.intact(c, fmt.Sprintf("peer %d", n))
						c.Seen("distributed", len(s)+len(r))
						order = s
					}
					c.Seen("late", len(ref.late))
					c.Seen("decoded", len(ref.in))
					e.intelligible(c, "scripted peer", wantS, 0)
					var uniq []data
					seen := map[data]bool{}
					for _, d := range order {
						if !seen[d] {
							seen[d] = true
							uniq = append(uniq, d)
						}
					}
					if len(uniq) == len(order) { // otherwise the encoder's window depends on repeats
						covered(c, e, uniq, int(p.K))
					}
					c.Distinct("peer taps=%d timeout=%v locals=%d in=%d late=%d", len(taps), p.timeout, len(locals), len(ref.in), len(ref.late))
				})
			})
		}
		// several peers releasing batches at once, many sources
		for i := 0; i < h.N(32, 480); i++ {
			h.Case(fmt.Sprintf("storm-%d", i), func(c *vC) {
				newSink()
				bubble(t, func() {
					p := defaults()
					p.minRate = 100
					ctl := newController(p)
					np := 2 + c.R.Intn(3)
					crowd := i%16 == 5 // as many peers as a well connected node has
					if crowd {
						np = 17 + c.R.Intn(16)
						c.Max("storm_peers", int64(np))
					}
					var keys []key
					for k := 0; k < np; k++ {
						keys = append(keys, randKey(c.R))
					}
					u := newUniverse(c.R, keys...)
					var es []*endpoint
					for k := 0; k < np; k++ {
						e := newEndpoint(keys[k], frag{})
						attach(c, ctl, e, fmt.Sprint("peer", k))
						es = append(es, e)
					}
					var taps []*tap
					for k := 1 + c.R.Intn(2); k > 0; k-- {
						taps = append(taps, newTap(ctl, c.R.Intn(100), c.R.Intn(100), time.Duration(c.R.Intn(2)*c.R.Intn(500))))
					}
					var all []data
					var heads []int
					shared := c.R.Intn(2) == 0
					var common []int
					for k := range es {
						n := 200 + c.R.Intn(1500)
						if crowd {
							n = 20 + c.R.Intn(60)
						}
						var xs []int
						if shared && k > 0 {
							xs = common
						} else {
							for j := 0; j < n; j++ {
								x := u.add()
								xs = append(xs, x)
								all = append(all, u.d[x])
							}
							common = xs
						}
						for j := 1; j < len(xs); j++ {
							es[k].say(u.craft(k, xs[j-1], xs[j]), 0)
							if j%400 == 0 {
								time.Sleep(time.Millisecond)
							}
						}
						heads = append(heads, xs[0])
					}
					time.Sleep(100 * time.Millisecond)
					synctest.Wait()
					nl := c.R.Intn(400)
					var loc []*ldpc.Transaction
					for j := 0; j < nl; j++ {
						d := u.d[u.add()]
						all = append(all, d)
						loc = append(loc, load(d))
					}
					go func() {
						for _, tx := range loc {
							ctl.localTransaction <- tx
						}
					}()
					for k := range es {
						es[k].say(u.craft(k, heads[k]), 0)
					}
					time.Sleep(60 * time.Second)
					synctest.Wait()
					for n, tp := range taps {
						s, r := tp.got()
						for half, g := range [][]data{s, r} {
							what := fmt.Sprintf("%s of peer %d", []string{"sender", "receiver"}[half], n)
							m := multiset(g)
							for _, d := range all {
								if m[d] == 0 {
									c.Fail("%s was not given transaction %s (%d of %d were given): lost or stuck", what, u.name(d), len(m), len(all))
								}
								if m[d] > 1 && !(shared && m[d] <= np) {
									c.Fail("%s was given transaction %s %d times", what, u.name(d), m[d])
								}
							}
							if len(m) != len(all) {
								c.Fail("%s was given %d transactions, %d exist", what, len(m), len(all))
							}
							c.Seen("distributed", len(g))
						}
						tp.intact(c, fmt.Sprintf("peer %d", n))
					}
					for k, e := range es {
						e.intelligible(c, fmt.Sprint("peer ", k), all, vMin(100, len(e.heard())))
					}
					c.Seen("storms", 1)
					c.Distinct("storm peers=%d shared=%v tx=%d", np, shared, len(all))
				})
			})
		}
		// peers connecting at the same time, while transactions flow
		for i := 0; i < h.N(40, 400); i++ {
			h.Case(fmt.Sprintf("join-%d", i), func(c *vC) {
				newSink()
				bubble(t, func() {
					p := defaults()
					p.minRate, p.initRate = 100, 100
					ctl := newController(p)
					u := newUniverse(c.R)
					np := 2 + c.R.Intn(8)
					if i%20 == 5 {
						np = 17 + c.R.Intn(16)
					}
					if i%40 == 26 {
						np = 65 + c.R.Intn(30)
					}
					c.Max("joined_peers", int64(np))
					var es []*endpoint
					var all []data
					var early []*ldpc.Transaction
					for k := c.R.Intn(2000) * 2 / np; k > 0; k-- {
						d := u.d[u.add()]
						all = append(all, d)
						early = append(early, load(d))
					}
					go func() {
						for k, tx := range early {
							ctl.localTransaction <- tx
							if k%40 == 39 {
								time.Sleep(100 * time.Microsecond)
							}
						}
					}()
					done := make(chan error, np)
					rs := make([]*rand.Rand, np)
					for k := range rs {
						rs[k] = rand.New(rand.NewSource(c.R.Int63()))
						es = append(es, newEndpoint(randKey(c.R), frag{}))
					}
					together := c.R.Intn(2) == 0
					for k := 0; k < np; k++ {
						e, r, id := es[k], rs[k], fmt.Sprint("peer", k)
						go func() {
							if !together {
								time.Sleep(time.Duration(r.Intn(5000)) * time.Microsecond)
							}
							go e.hello()
							done <- ctl.handleConn(id, e.conn)
						}()
					}
					for k := 0; k < np; k++ {
						select {
						case err := <-done:
							if err != nil {
								c.Fail("handshake failed: %v", err)
							}
						case <-time.After(time.Minute):
							c.Fail("%d of %d simultaneous handshakes did not complete", np-k, np)
						}
					}
					time.Sleep(time.Second)
					synctest.Wait()
					var late []data
					for k := 1 + c.R.Intn(10); k > 0; k-- {
						d := u.d[u.add()]
						all = append(all, d)
						late = append(late, d)
						ctl.localTransaction <- load(d)
					}
					// enough to move everything else out of the window
					for k := 0; k < int(p.K)-len(late); k++ {
						d := u.d[u.add()]
						all = append(all, d)
						late = append(late, d)
						ctl.localTransaction <- load(d)
					}
					synctest.Wait()
					pos := make([]int, np) // looked at so far
					want := make([]map[uint32]bool, np)
					for k, e := range es {
						pos[k] = len(e.heard())
						want[k] = map[uint32]bool{}
						for x := range late {
							want[k][short(e.nodeKey, &late[x])] = true
						}
					}
					for s, open := 0, np; open > 0; s++ {
						time.Sleep(time.Second)
						synctest.Wait()
						vTick()
						open = 0
						for k, e := range es {
							h := e.heard()
							for ; len(want[k]) > 0 && pos[k] < len(h); pos[k]++ {
								for _, m := range h[pos[k]].cw.Members {
									delete(want[k], m)
								}
							}
							if len(want[k]) > 0 {
								open++
								if s > 90 {
									c.Fail("%d transactions made after %d peers had connected are in none of the codewords sent to peer %d since", len(want[k]), np, k)
								}
							}
						}
					}
					for k, e := range es {
						e.intelligible(c, fmt.Sprint("peer ", k), all, 0)
					}
					c.Seen("joins", np)
					c.Distinct("join peers=%d tx=%d together=%v", np, len(all), together)
				})
			})
		}
	})
}

// ---- C29, C30: one link under a script -----------------------------------------

type lossEv struct {
	at time.Time
	n  int
}

type linkRun struct {
	p      params
	e      *endpoint
	start  time.Time
	ref    *recv
	losses []lossEv
	u      *universe
	sink   *logSink
	stalls [][2]time.Time
	end    time.Time
}

// at is the instant off milliseconds after tick n of the sender.
func (l *linkRun) at(ms float64) { time.Sleep(time.Until(l.start.Add(time.Duration(ms * 1e6)))) }

func newLink(c *vC, p params, stallAt, stallLen []time.Duration) *linkRun {
	l := &linkRun{p: p}
	l.sink = newSink()
	ctl := newController(p)
	k := randKey(c.R)
	l.u = newUniverse(c.R, k)
	base := time.Now()
	for i := range stallAt {
		l.stalls = append(l.stalls, [2]time.Time{base.Add(stallAt[i]), base.Add(stallAt[i] + stallLen[i])})
	}
	l.e = newEndpoint(k, frag{}, l.stalls...)
	attach(c, ctl, l.e, "link")
	l.start = time.Now()
	if l.start != base {
		c.Fail("harness: the handshake took virtual time")
	}
	l.ref = newRecv(k, int(p.M), p.timeout)
	return l
}

func (l *linkRun) send(cw *ldpc.Codeword, loss int) {
	l.e.say(cw, loss)
	l.ref.codeword(cw, time.Now())
	if loss > 0 {
		l.losses = append(l.losses, lossEv{time.Now(), loss})
	}
	synctest.Wait()
}

// burst: many codewords arrive at once, each with a loss report.
func (l *linkRun) burst(c *vC, n, max int) {
	var b []byte
	for ; n > 0; n-- {
		cw, loss := l.u.craft(0, l.u.add()), 1+c.R.Intn(max)
		b = append(b, l.e.bytes(cw, loss)...)
		l.ref.codeword(cw, time.Now())
		l.losses = append(l.losses, lossEv{time.Now(), loss})
	}
	l.e.w <- b
	synctest.Wait()
}

func TestVerifC29(t *testing.T) {
	vMain(t, "C29", func(h *vH) {
		for i := 0; i < h.N(300, 3000) && (vMode() != "race" || i < 40); i++ { // nothing concurrent in most of this
			h.Case(fmt.Sprintf("link-%d", i), func(c *vC) {
				bubble(t, func() {
					p := defaults()
					p.timeout = []time.Duration{0, 7 * time.Millisecond, 40 * time.Millisecond, 500 * time.Millisecond, 3 * time.Second, time.Hour}[c.R.Intn(6)] + time.Duration(c.R.Intn(500))
					p.initRate = 5 + 300*c.R.Float64()
					p.minRate = 1 + 4*c.R.Float64()
					p.inc = 0.5
					p.targetLoss = 0
					var sa, sl []time.Duration
					if c.R.Intn(3) == 0 {
						p.initRate = 300 + 500*c.R.Float64()
						sa, sl = []time.Duration{time.Duration(1+c.R.Intn(2000)) * time.Millisecond}, []time.Duration{time.Duration(1000+c.R.Intn(5000)) * time.Millisecond}
					}
					l := newLink(c, p, sa, sl)
					for j := 0; j < 40; j++ {
						l.u.add()
					}
					reported := 0
					ms := 0.0
					n := 20 + c.R.Intn(150)
					hopeless := c.R.Intn(100)
					for j := 0; j < n; j++ {
						ms += 0.01 + c.R.Float64()*[]float64{1, 10, 80, 700}[c.R.Intn(4)]
						l.at(ms)
						loss := 0
						if c.R.Intn(4) == 0 {
							loss = 1 + c.R.Intn(20)
						}
						reported += loss
						var cw *ldpc.Codeword
						if c.R.Intn(100) < hopeless {
							cw = l.u.craft(0, l.u.add(), l.u.add())
						} else {
							perm := c.R.Perm(40)
							cw = l.u.craft(0, perm[:1+c.R.Intn(4)]...)
						}
						l.send(cw, loss)
					}
					// two more codewords well after everything expired, then let
					// the node report
					time.Sleep(time.Until(l.start.Add(time.Duration(math.Ceil(ms/1000)+10) * time.Second)))
					time.Sleep(1234567)
					l.send(l.u.craft(0, l.u.add()), 0)
					time.Sleep(20 * time.Second)
					synctest.Wait()
					sum, neg := 0, 0
					for _, x := range l.e.heard() {
						sum += x.cw.Loss
						if x.cw.Loss < 0 {
							neg++
						}
					}
					if neg > 0 {
						c.Fail("%d codewords carry a negative loss", neg)
					}
					if sum != l.ref.lost {
						c.Fail("%d received codewords expired undecoded, the node reported %d (timeout %v)", l.ref.lost, sum, p.timeout)
					}
					// the rate after all reports
					from := time.Now()
					a := len(l.e.heard())
					time.Sleep(20 * time.Second)
					synctest.Wait()
					got := float64(len(l.e.heard())-a) / time.Since(from).Seconds()
					want := p.initRate + p.inc*float64(reported)
					if math.Abs(got-want) > 0.5+want*0.002 {
						c.Fail("the peer reported %d losses in %d codewords; the node sends %.2f codewords per second, each report counted once makes %.2f", reported, len(l.losses), got, want)
					}
					if len(sa) > 0 {
						c.Seen("stalls", 1)
					}
					c.Seen("losses_counted", l.ref.lost)
					c.Seen("losses_reported_by_peer", reported)
					c.Seen("received_codewords", n)
					c.Distinct("timeout=%v n=%d lost=%d reported=%d stall=%v", p.timeout, n, l.ref.lost, reported, sl)
				})
			})
		}
		// several links at once
		for i := 0; i < h.N(40, 400); i++ {
			h.Case(fmt.Sprintf("links-%d", i), func(c *vC) {
				newSink()
				bubble(t, func() {
					p := defaults()
					p.timeout = time.Duration(1+c.R.Intn(3000)) * time.Microsecond
					p.minRate, p.initRate = 20, 20
					ctl := newController(p)
					np := 2 + c.R.Intn(7)
					if i%16 == 5 {
						np = 17 + c.R.Intn(16)
						c.Max("links_at_once", int64(np))
					}
					var keys []key
					for k := 0; k < np; k++ {
						keys = append(keys, randKey(c.R))
					}
					u := newUniverse(c.R, keys...)
					var es []*endpoint
					for k := range keys {
						e := newEndpoint(keys[k], frag{})
						attach(c, ctl, e, fmt.Sprint("peer", k))
						es = append(es, e)
					}
					lost := make([]int, np)
					total := 0
					// known everywhere
					first := u.add()
					ctl.localTransaction <- load(u.d[first])
					time.Sleep(time.Millisecond)
					synctest.Wait()
					for round := 10 + c.R.Intn(20); round > 0; round-- {
						for k := range es {
							var b []byte
							for j := 1 + c.R.Intn(120); j > 0; j-- {
								x := []int{first}
								if c.R.Intn(4) == 0 {
									x = []int{u.add(), u.add()}
									lost[k]++
								}
								b = append(b, es[k].bytes(u.craft(k, x...), 0)...)
								total++
							}
							es[k].w <- b
						}
						time.Sleep(time.Duration(1+c.R.Intn(5000)) * time.Microsecond)
					}
					time.Sleep(time.Second)
					for k := range es {
						es[k].say(u.craft(k, first), 0)
					}
					time.Sleep(5 * time.Second)
					synctest.Wait()
					for k, e := range es {
						sum := 0
						for _, x := range e.heard() {
							sum += x.cw.Loss
						}
						if sum != lost[k] {
							c.Fail("%d codewords of peer %d (of %d) expired undecoded, the node reported %d", lost[k], k, np, sum)
						}
						c.Seen("losses_counted", lost[k])
					}
					c.Seen("received_codewords", total)
					c.Seen("concurrent_links", np)
					c.Distinct("links=%d cw=%d lost=%v", np, total, lost)
				})
			})
		}
	})
}

func TestVerifC30(t *testing.T) {
	vMain(t, "C30", func(h *vH) {
		for i := 0; i < h.N(300, 3000); i++ {
			h.Case(fmt.Sprintf("link-%d", i), func(c *vC) {
				bubble(t, func() {
					p := defaults()
					p.minRate = []float64{1, 0.3, 5, 20, 100}[c.R.Intn(5)] * (0.5 + c.R.Float64())
					p.initRate = p.minRate + []float64{0, 1, 50, 400, 1500}[c.R.Intn(5)]*c.R.Float64()
					p.inc = []float64{0.05, 0.1, 1, 7}[c.R.Intn(4)]
					p.targetLoss = []float64{0, 0.02, 0.1, 0.5, 1}[c.R.Intn(5)]
					huge := 0 // largest loss reported at once
					if i%6 == 2 {
						huge = 1 << (8 + c.R.Intn(26))
						p.inc = 100 * c.R.Float64() / float64(huge)
					} else if i%4 == 1 {
						p.inc = 0.05
					}
					var sa, sl []time.Duration
					for j := c.R.Intn(3); j > 0; j-- {
						// begin and end between ticks
						sa = append(sa, time.Duration(c.R.Intn(1500))*10*time.Millisecond+3*time.Millisecond)
						sl = append(sl, time.Duration(100+c.R.Intn(600))*10*time.Millisecond)
					}
					sort.Slice(sa, func(a, b int) bool { return sa[a] < sa[b] })
					for j := 1; j < len(sa); j++ {
						if sa[j] < sa[j-1]+sl[j-1]+2*time.Second {
							sa[j] = sa[j-1] + sl[j-1] + 2*time.Second
						}
					}
					l := newLink(c, p, sa, sl)
					ticks := 2000 + c.R.Intn(1500)
					if i%4 == 1 {
						// everything that is ready runs in turn, so what arrives together waits together
						defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
					}
					for tk := 1; tk < ticks; tk += 1 + c.R.Intn(200) {
						l.at(float64(tk)*10 + 2 + 6*c.R.Float64())
						loss := 1 + c.R.Intn(10)
						if i%4 == 1 && c.R.Intn(6) == 0 {
							n := 2 + c.R.Intn(400)
							l.burst(c, n, 1+c.R.Intn(3))
							c.Max("loss_reports_at_once", int64(n))
						}
						if huge > 1 {
							loss = c.R.Intn(huge)
							c.Max("loss_report", int64(loss))
						}
						switch k := c.R.Intn(8); {
						case k == 0 && huge == 0:
							loss = 1 + c.R.Intn(400)
						case k == 1:
							loss = 0
						}
						l.send(l.u.craft(0, l.u.add()), loss)
					}
					l.at(float64(ticks)*10 + 5)
					// leave the stalls behind
					for _, s := range l.stalls {
						if d := time.Until(s[1].Add(time.Second)); d > 0 {
							time.Sleep(d)
						}
					}
					ticks = int(time.Since(l.start)/(10*time.Millisecond)) - 1
					time.Sleep(time.Until(l.start.Add(time.Duration(ticks)*10*time.Millisecond + 5*time.Millisecond)))
					synctest.Wait()
					l.end = time.Now()
					l.rates(c, ticks)
					c.Distinct("%+v ticks=%d losses=%d stalls=%v", p, ticks, len(l.losses), sl)
				})
			})
		}
		programRates(h)
	})
}

// rates replays the controller over the observed codewords.
func (l *linkRun) rates(c *vC, ticks int) {
	n := make([]int, ticks+2)
	lastHeard := make([]time.Time, ticks+2)
	for _, x := range l.e.heard() {
		made := time.UnixMicro(x.cw.UnixMicro)
		d := made.Sub(l.start)
		tk := int((d + 5*time.Millisecond) / (10 * time.Millisecond))
		if tk < 1 || tk > ticks+1 {
			c.Fail("a codeword is stamped %v, outside the run", d)
		}
		if off := d - time.Duration(tk)*10*time.Millisecond; off < -time.Millisecond || off > time.Millisecond {
			c.Fail("a codeword was made %v after the start, between sending ticks", d)
		}
		n[tk]++
		lastHeard[tk] = x.at
	}
	rate, cum := l.p.initRate, 0.0
	sent, dropped := 0, 0
	li := 0
	ri := 0
	reps := l.sink.reports()
	fall := l.p.inc * l.p.targetLoss
	full, queued := false, 0
	maxQueued := 0
	for tk := 1; tk <= ticks; tk++ {
		now := l.start.Add(time.Duration(tk) * 10 * time.Millisecond)
		for li < len(l.losses) && l.losses[li].at.Before(now) {
			rate += l.p.inc * float64(l.losses[li].n)
			li++
		}
		before := rate
		dropBefore := dropped
		cum += 0.01 * rate
		lo, hi := int(math.Floor(cum-1e-6)), int(math.Floor(cum+1e-6))
		stalled := false
		for _, s := range l.stalls {
			if !now.Before(s[0]) && now.Before(s[1]) {
				stalled = true
			}
		}
		if !stalled {
			full, queued = false, 0
			if got := sent + dropped + n[tk]; got < lo || got > hi {
				c.Fail("tick %d (rate %.3f): %d codewords were sent where the accumulated rate calls for %d", tk, rate, n[tk], lo-sent-dropped)
			}
		} else {
			want := lo - sent - dropped
			if n[tk] > hi-sent-dropped {
				c.Fail("tick %d (rate %.3f, peer not reading): %d codewords were made where the accumulated rate calls for %d", tk, rate, n[tk], want)
			}
			if full && n[tk] > 0 {
				c.Fail("tick %d: a codeword was queued after others had been dropped, while the peer was not reading", tk)
			}
			queued += n[tk]
			if n[tk] < want {
				if queued < 100 {
					c.Fail("tick %d: codewords dropped with only %d in the queue", tk, queued)
				}
				if !full {
					c.Seen("queue_filled", 1)
				}
				full = true
				dropped += want - n[tk]
			}
			if queued > maxQueued {
				maxQueued = queued
			}
		}
		sent += n[tk]
		for k := 0; k < n[tk]; k++ {
			rate -= fall
			if rate < l.p.minRate {
				rate = l.p.minRate
				c.Seen("floor_reached", 1)
			}
		}
		for ri < len(reps) && reps[ri].at.Before(now.Add(5*time.Millisecond)) {
			r := reps[ri]
			ri++
			if r.rate < l.p.minRate-0.0051 {
				c.Fail("the node reports a rate of %.2f, the configured minimum is %.3f", r.rate, l.p.minRate)
			}
			if math.Abs(r.rate-rate) > 0.0051+1e-6*rate && math.Abs(r.rate-before) > 0.0051+1e-6*rate {
				c.Fail("tick %d: the node reports a rate of %.2f, its history makes %.3f", tk, r.rate, rate)
			}
			if r.dropped != dropped && r.dropped != dropBefore {
				c.Fail("tick %d: the node reports %d dropped codewords, %d were dropped", tk, r.dropped, dropped)
			}
			c.Seen("rate_reports", 1)
		}
	}
	c.Seen("ticks", ticks)
	c.Seen("codewords_sent", sent)
	c.Seen("codewords_dropped", dropped)
	c.Seen("loss_reports", li)
}
