package VPKG

import (
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"testing"

	lt "github.com/yangl1996/rateless-set-reconcile/LTPKG"
)

type sender[T lt.TransactionData[T]] struct {
	e    *lt.Encoder[T]
	dist *scripted
	win  []int
	ws   int
}

// session: several senders, one or more decoders, everything judged against
// the reference decoder after every step.
type session[T lt.TransactionData[T]] struct {
	c      *vC
	u      *universe[T]
	send   []*sender[T]
	decs   []*lt.Decoder[T]
	refs   []*refDec
	handed []map[int]int
	cws    [][]pend[T]
	kept   []kept[T]
	mem    int
	track  bool
}
type pend[T lt.TransactionData[T]] struct {
	p   *lt.PendingCodeword[T]
	ref *refCW
}
// kept: one result exactly as it was returned (the slice itself), and what it held.
type kept[T lt.TransactionData[T]] struct {
	idx []int
	txs []lt.Transaction[T]
}

func (s *session[T]) feed(i, d int) {
	snd := s.send[i]
	j := s.c.R.Intn(len(s.u.tx))
	in := false
	for _, x := range snd.win {
		in = in || x == j
	}
	if snd.e.AddTransaction(s.u.fresh(j)) {
		snd.win = append(snd.win, j)
		for len(snd.win) > snd.ws {
			snd.win = snd.win[1:]
		}
	}
	_ = in
}

func (s *session[T]) deliver(d int, cw lt.Codeword[T], when string) {
	_, mem := cwFields(&cw)
	idx := make([]int, 0, len(*mem))
	for _, m := range *mem {
		i, ok := s.u.byID[m]
		if !ok {
			s.c.Fail("%s: codeword names short hash %x of no known transaction", when, m)
		}
		idx = append(idx, i)
	}
	ref := s.refs[d].addCW(idx)
	p, txs := s.decs[d].AddCodeword(cw)
	s.judge(d, when, txs, ref)
	if s.track {
		s.cws[d] = append(s.cws[d], pend[T]{p, ref})
		if p.Decoded() != (len(ref.left) == 0) {
			s.c.Fail("%s: the new codeword reports decoded=%v with %d of its transactions unknown", when, p.Decoded(), len(ref.left))
		}
	}
	s.c.Seen("codewords_delivered", 1)
}

func (s *session[T]) judge(d int, when string, txs []lt.Transaction[T], ref *refCW) {
	var got []int
	for _, t := range txs {
		i := s.u.ident(s.c, when, t)
		got = append(got, i)
		s.handed[d][i]++
	}
	s.kept = append(s.kept, kept[T]{got, txs})
	s.refs[d].settle(s.c, when, got, ref)
	s.c.Seen("transactions_handed_out", len(got))
	if len(got) > 1 {
		s.c.Seen("cascades", 1)
		s.c.Max("cascade", int64(len(got)))
	}
}

func (s *session[T]) local(d int, when string) {
	i := s.c.R.Intn(len(s.u.tx))
	r := s.refs[d]
	if !r.known[i] {
		r.peel(i)
		r.store(i)
	}
	txs := s.decs[d].AddTransaction(s.u.fresh(i))
	s.judge(d, when, txs, nil)
	s.c.Seen("local_additions", 1)
}

func (s *session[T]) membership(d int, n int, when string) {
	q, ok := any(s.decs[d]).(interface {
		HasDecoded(lt.Transaction[T]) bool
	})
	if !ok {
		return
	}
	for ; n > 0; n-- {
		i := s.c.R.Intn(len(s.u.tx))
		if q.HasDecoded(s.u.fresh(i)) != s.refs[d].known[i] {
			s.c.Fail("%s: membership of transaction %d answered %v, it is %v", when, i, !s.refs[d].known[i], s.refs[d].known[i])
		}
		s.c.Seen("membership_queries", 1)
	}
}

func (s *session[T]) status(d int, when string, all bool) {
	for n, p := range s.cws[d] {
		if !all && s.c.R.Intn(4) != 0 {
			continue
		}
		if p.p.Decoded() != (len(p.ref.left) == 0) {
			s.c.Fail("%s: codeword %d reports decoded=%v with %d of its transactions unknown", when, n, p.p.Decoded(), len(p.ref.left))
		}
		s.c.Seen("status_checks", 1)
	}
}

func newSession[T lt.TransactionData[T]](c *vC, k kit[T], ntx, nsend, ndec, mem int, track bool) *session[T] {
	s := &session[T]{c: c, u: mkUniverse(c, k, ntx), mem: mem, track: track}
	for i := 0; i < nsend; i++ {
		ws := 1 + c.R.Intn(ntx+3)
		d := degrees(c.R, ws)
		s.send = append(s.send, &sender[T]{e: lt.NewEncoder[T](rand.New(rand.NewSource(c.R.Int63())), s.u.salt, d, ws), dist: d, ws: ws})
	}
	for i := 0; i < ndec; i++ {
		s.decs = append(s.decs, lt.NewDecoder[T](s.u.salt, mem))
		s.refs = append(s.refs, newRef(mem))
		s.handed = append(s.handed, map[int]int{})
		s.cws = append(s.cws, nil)
	}
	return s
}

func (s *session[T]) run(steps int, pFeed, pLocal float64) {
	c := s.c
	c.Budget(int64(steps)*4000 + 200000)
	for i := range s.send { // something in every window
		s.feed(i, 0)
	}
	for n := 0; n < steps; n++ {
		x := c.R.Float64()
		i := c.R.Intn(len(s.send))
		switch {
		case x < pFeed:
			s.feed(i, 0)
		case x < pFeed+pLocal:
			d := c.R.Intn(len(s.decs))
			when := fmt.Sprintf("step %d, decoder %d, adding a transaction locally", n, d)
			s.local(d, when)
			s.status(d, when, false)
		default:
			cw := s.send[i].e.ProduceCodeword()
			for d := range s.decs {
				if len(s.decs) > 1 && c.R.Intn(4) == 0 {
					continue // this decoder misses it
				}
				when := fmt.Sprintf("step %d, decoder %d, codeword from sender %d", n, d, i)
				s.deliver(d, copyCW(cw), when)
				if c.R.Intn(20) == 0 {
					s.deliver(d, copyCW(cw), when+" (again)")
				}
				s.status(d, when, false)
				s.membership(d, 2, when)
			}
		}
	}
	for d := range s.decs {
		s.status(d, "at the end", true)
	}
	s.u.intact(c)
	for _, k := range s.kept {
		for n, i := range k.idx {
			if t := k.txs[n]; s.u.k.key(t.Data()) != s.u.key[i] || string(t.Hash()) != s.u.hash[i] {
				c.Fail("transaction %d changed after it was handed out", i)
			}
			c.Seen("results_reread", 1)
		}
	}
}

func (s *session[T]) sig() string {
	o := ""
	for d := range s.decs {
		o += fmt.Sprintf("%d;", len(s.handed[d]))
	}
	return fmt.Sprintf("%s tx=%d send=%d dec=%d mem=%d cw=%d handed=%s", s.u.k.name, len(s.u.tx), len(s.send), len(s.decs), s.mem, len(s.cws[0]), o)
}

// ---- C08: soundness, exactly once ---------------------------------------

func c08[T lt.TransactionData[T]](c *vC, k kit[T]) {
	ntx := 2 + c.R.Intn(60)
	mem := 1 << 30
	if c.R.Intn(3) == 0 {
		mem = 1 + c.R.Intn(2*ntx)
	}
	s := newSession(c, k, ntx, 1+c.R.Intn(4), 1+c.R.Intn(2), mem, false)
	s.run(60+c.R.Intn(300), c.R.Float64()*0.4, c.R.Float64()*0.2)
	if mem == 1<<30 {
		for d := range s.decs {
			for i, n := range s.handed[d] {
				if n != 1 {
					c.Fail("decoder %d handed out transaction %d %d times", d, i, n)
				}
			}
		}
	}
	c.Distinct("%s", s.sig())
}

func TestVerifC08(t *testing.T) {
	vMain(t, "C08", func(h *vH) {
		for i := 0; i < h.N(400, 6000); i++ {
			h.Case(fmt.Sprintf("mix-%d", i), func(c *vC) {
				if i%2 == 0 {
					c08(c, kitP)
				} else {
					c08(c, kitV)
				}
			})
		}
		for i := 0; i < h.N(8, 60); i++ {
			h.Case(fmt.Sprintf("large-%d", i), func(c *vC) {
				ntx := 1000 + c.R.Intn(1500)
				s := newSession(c, kitP, ntx, 2, 1, 1<<30, false)
				for _, x := range s.send { // full windows
					for j := 0; j < 3*ntx/2; j++ {
						_ = x
						s.feed(j%2, 0)
					}
				}
				s.run(2000, 0.05, 0.02)
				c.Distinct("%s", s.sig())
			})
		}
	})
}

// ---- C09: completeness, status, membership -------------------------------

func c09[T lt.TransactionData[T]](c *vC, k kit[T], ntx int) {
	s := newSession(c, k, ntx, 1+c.R.Intn(3), 1+c.R.Intn(2), 1<<30, true)
	s.run(60+c.R.Intn(6*ntx+20), c.R.Float64()*0.5, c.R.Float64()*0.15)
	c.Distinct("%s", s.sig())
}

// c09chain: codewords {0,1},{1,2},... in random order, unlocked by one
// singleton or one locally added transaction.
func c09chain[T lt.TransactionData[T]](c *vC, k kit[T], n int) {
	s := newSession(c, k, n, 1, 1, 1<<30, true)
	c.Budget(int64(n)*2000 + 100000)
	for _, i := range c.R.Perm(n - 1) {
		idx := []int{i, i + 1}
		if i > 3 && c.R.Intn(3) == 0 {
			idx = append(idx, c.R.Intn(i)) // a longer dependency
		}
		c.R.Shuffle(len(idx), func(a, b int) { idx[a], idx[b] = idx[b], idx[a] })
		s.deliver(0, s.u.craft(idx), "building the chain")
	}
	if len(s.handed[0]) != 0 {
		c.Fail("transactions handed out with nothing to start from")
	}
	if c.R.Intn(2) == 0 {
		s.deliver(0, s.u.craft([]int{0}), "unlocking the chain")
	} else {
		s.refs[0].peel(0)
		s.refs[0].store(0)
		s.judge(0, "unlocking the chain", s.decs[0].AddTransaction(s.u.fresh(0)), nil)
		s.handed[0][0]++
	}
	s.status(0, "after unlocking", true)
	if len(s.handed[0]) != n {
		c.Fail("chain of %d: %d obtained", n, len(s.handed[0]))
	}
	s.membership(0, 50, "after unlocking")
	c.Distinct("chain %s %d", k.name, n)
}

// c09wide: codewords of very many transactions, which become known one by one.
func c09wide[T lt.TransactionData[T]](c *vC, k kit[T], n int) {
	s := newSession(c, k, n, 1, 1, 1<<30, true)
	c.Budget(int64(n)*4000 + 100000)
	perm := c.R.Perm(n)
	before := []int{0, n / 2, n - 3, c.R.Intn(n)}[c.R.Intn(4)]
	learn := func(x int, when string) {
		s.refs[0].peel(x)
		s.refs[0].store(x)
		s.judge(0, when, s.decs[0].AddTransaction(s.u.fresh(x)), nil)
	}
	for _, x := range perm[:before] {
		learn(x, "before the wide codeword")
	}
	s.deliver(0, s.u.craft(c.R.Perm(n)), fmt.Sprintf("a codeword of %d, %d known", n, before))
	for i, x := range perm[before : n-1] {
		if i%3 == 0 {
			s.deliver(0, s.u.craft([]int{x}), fmt.Sprintf("a codeword of %d, %d known", n, before+i))
		} else {
			learn(x, fmt.Sprintf("a codeword of %d, %d known", n, before+i))
		}
	}
	s.status(0, "all known", true)
	if last := perm[n-1]; !s.refs[0].known[last] {
		c.Fail("a codeword of %d transactions, all but one known: that one was not obtained", n)
	}
	s.membership(0, 50, "after the wide codeword")
	c.Seen("wide_codewords", 1)
	c.Max("widest_codeword", int64(n))
	c.Distinct("wide %s %d known=%d", k.name, n, before)
}

// bigchain: one arrival frees tens of thousands of codewords at once.
// shape 0: a chain; 1: one transaction in all codewords; 2: a random tree; 3: a few hubs.
func bigchain(c *vC, n, shape int) {
	parent := func(i int) int {
		switch shape {
		case 0:
			return i
		case 1:
			return 0
		case 2:
			return c.R.Intn(i + 1)
		}
		return vMin(i, c.R.Intn(5))
	}
	u := mkUniverse(c, kitV, n)
	d := lt.NewDecoder[vdat](u.salt, 1<<30)
	c.Budget(1 << 40)
	var pend []func() bool
	for k, i := range c.R.Perm(n - 1) {
		p, txs := d.AddCodeword(copyCW(u.craft([]int{parent(i), i + 1})))
		if len(txs) != 0 || p.Decoded() {
			c.Fail("a codeword of two unknown transactions hands out %d", len(txs))
		}
		pend = append(pend, p.Decoded)
		if k%4096 == 0 {
			vTick()
		}
	}
	start := c.R.Intn(n)
	if shape == 1 && c.R.Intn(2) == 0 {
		start = 0
	}
	var got = map[string]int{}
	if c.R.Intn(2) == 0 {
		_, txs := d.AddCodeword(copyCW(u.craft([]int{start})))
		for _, t := range txs {
			got[kitV.key(t.Data())]++
		}
	} else {
		got[u.key[start]]++
		for _, t := range d.AddTransaction(u.fresh(start)) {
			got[kitV.key(t.Data())]++
		}
	}
	for i := 0; i < n; i++ {
		if got[u.key[i]] != 1 {
			c.Fail("chain of %d unlocked at %d: transaction %d is obtained %d times", n, start, i, got[u.key[i]])
		}
	}
	if len(got) != n {
		c.Fail("chain of %d unlocked: %d different transactions are obtained", n, len(got))
	}
	for k, dec := range pend {
		if !dec() {
			c.Fail("chain of %d unlocked: codeword %d is not reported decoded", n, k)
		}
	}
	c.Seen("big_chains", 1)
	c.Max("cascade", int64(n))
	c.Max(fmt.Sprintf("cascade_shape%d", shape), int64(n))
	c.Distinct("bigchain %d shape %d from %d", n, shape, start)
}

func TestVerifC09(t *testing.T) {
	vMain(t, "C09", func(h *vH) {
		for i, n0 := range []int{9000, 70000} {
			n := n0
			for shape := 0; shape < 4; shape++ {
				shape := shape
				h.Case(fmt.Sprintf("bigchain-%d-%d", i, shape), func(c *vC) { bigchain(c, n+c.R.Intn(1000), shape) })
			}
		}
		for i0 := 0; i0 < h.N(12, 100); i0++ {
			i := i0
			h.Case(fmt.Sprintf("wide-%d", i), func(c *vC) {
				n := []int{300, 1100, 2500, 5000, 9000, 70000}[i%6] + c.R.Intn(300)
				if i%4 < 2 {
					c09wide(c, kitP, n)
				} else {
					c09wide(c, kitV, n)
				}
			})
		}
		for i := 0; i < h.N(300, 5000); i++ {
			h.Case(fmt.Sprintf("mix-%d", i), func(c *vC) {
				n := 1 + c.R.Intn(50)
				if i%2 == 0 {
					c09(c, kitP, n)
				} else {
					c09(c, kitV, n)
				}
			})
			h.Case(fmt.Sprintf("chain-%d", i), func(c *vC) {
				n := 2 + c.R.Intn(120)
				if i%20 == 0 {
					n = 1500
				}
				if i%2 == 0 {
					c09chain(c, kitP, n)
				} else {
					c09chain(c, kitV, n)
				}
			})
		}
	})
}

// ---- C12: bounded memory ---------------------------------------------------

func c12[T lt.TransactionData[T]](c *vC, k kit[T], mem int) {
	ntx := mem + 2 + c.R.Intn(2*mem+20)
	s := newSession(c, k, ntx, 1, 1, mem, true)
	steps := 100 + c.R.Intn(6*mem+200)
	c.Budget(int64(steps)*3000 + int64(ntx)*500 + 100000)
	r := s.refs[0]
	for n := 0; n < steps; n++ {
		switch c.R.Intn(10) {
		case 0, 1:
			s.local(0, fmt.Sprintf("step %d (memory %d), local", n, mem))
		case 2, 3:
			idx := c.R.Perm(ntx)[:1+c.R.Intn(4)%ntx]
			s.deliver(0, s.u.craft(idx), fmt.Sprintf("step %d (memory %d), codeword of %d", n, mem, len(idx)))
		case 4: // probe the boundary: the oldest remembered, or the most recently forgotten
			if len(r.recent) > 0 {
				s.deliver(0, s.u.craft([]int{r.recent[0]}), fmt.Sprintf("step %d (memory %d), probing the oldest remembered", n, mem))
				s.c.Seen("boundary_probes", 1)
			}
		case 5: // several known ones plus an unknown
			idx := append([]int(nil), r.recent...)
			c.R.Shuffle(len(idx), func(a, b int) { idx[a], idx[b] = idx[b], idx[a] })
			if len(idx) > 5 {
				idx = idx[:5]
			}
			for try := 0; try < 5; try++ {
				if j := c.R.Intn(ntx); !r.known[j] {
					idx = append(idx, j)
					break
				}
			}
			if len(idx) > 0 {
				s.deliver(0, s.u.craft(idx), fmt.Sprintf("step %d (memory %d), known plus unknown", n, mem))
			}
		default:
			i := c.R.Intn(ntx)
			was := r.known[i]
			s.deliver(0, s.u.craft([]int{i}), fmt.Sprintf("step %d (memory %d), singleton", n, mem))
			if !was && s.handed[0][i] > 1 {
				s.c.Seen("decoded_again_after_forgetting", 1)
			}
		}
		if n%10 == 0 {
			s.membership(0, 3, "probe")
		}
	}
	s.status(0, "at the end", true)
	c.Distinct("%s mem=%d tx=%d steps=%d", k.name, mem, ntx, steps)
}

func heapNow() uint64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

// c12heap: a long stream through a small memory must not accumulate state.
func c12heap(c *vC, mem, total int, kind int) {
	var salt [lt.SaltSize]byte
	d := lt.NewDecoder[pdat](salt, mem)
	next := uint64(1)
	do := func(n int) {
		for i := 0; i < n; i++ {
			a := lt.NewTransaction[pdat](kitP.mk(next))
			b := lt.NewTransaction[pdat](kitP.mk(next + 1))
			ia, ib := uint32(0), uint32(0)
			switch kind {
			case 0: // added by the user
				d.AddTransaction(a)
			case 1: // singleton codewords
				ia = idOf(salt, a)
				d.AddCodeword(mkCW((*pdata)(nil).XOR(a.Data()), []uint32{ia}))
			case 2: // pairs unlocked later
				ia, ib = idOf(salt, a), idOf(salt, b)
				d.AddCodeword(mkCW((*pdata)(nil).XOR(a.Data()).XOR(b.Data()), []uint32{ia, ib}))
				d.AddTransaction(a)
			case 4: // damaged codewords for transactions never heard of again
				ia = idOf(salt, a)
				d.AddCodeword(mkCW((*pdata)(nil).XOR(b.Data()), []uint32{ia}))
			default: // codewords that fail to decode, and repeated ones
				ia = idOf(salt, a)
				d.AddCodeword(mkCW((*pdata)(nil).XOR(b.Data()), []uint32{ia}))
				d.AddCodeword(mkCW((*pdata)(nil).XOR(a.Data()), []uint32{ia}))
				d.AddTransaction(a)
			}
			next += 2
		}
	}
	do(20000)
	h0 := heapNow()
	do(total)
	h1 := heapNow()
	runtime.KeepAlive(d)
	grow := int64(h1) - int64(h0)
	c.Max("heap_growth_bytes", grow)
	c.Seen("long_run_transactions", total)
	// every transaction retained would cost well over 100 bytes
	if grow > int64(total)*12+2<<20 {
		c.Fail("memory %d, kind %d: the retained heap grew by %d bytes over %d transactions", mem, kind, grow, total)
	}
	c.Distinct("heap mem=%d kind=%d", mem, kind)
}

// bigmem: a decoder that remembers many transactions forgets exactly those that
// as many others followed.
func bigmem(c *vC, mem int) {
	u := mkUniverse(c, kitV, mem+5000)
	d := lt.NewDecoder[vdat](u.salt, mem)
	c.Budget(1 << 40)
	var fifo []int // stored, oldest first
	at := map[int]int{}
	know := func(x int) bool { t, ok := at[x]; return ok && t >= len(fifo)-mem }
	store := func(x int) { at[x] = len(fifo); fifo = append(fifo, x) }
	probe := func(x int) { // a codeword of x alone
		was := know(x)
		_, txs := d.AddCodeword(copyCW(u.craft([]int{x})))
		if was && len(txs) != 0 {
			c.Fail("memory %d: transaction %d, the last but %d of %d, is handed out again", mem, x, len(fifo)-1-at[x], len(fifo))
		}
		if !was {
			if len(txs) != 1 {
				c.Fail("memory %d: transaction %d, with %d stored since (or never), is not handed out", mem, x, len(fifo)-1-at[x])
			}
			store(x)
			c.Seen("decoded_again_after_forgetting", 1)
		}
		c.Seen("boundary_probes", 1)
	}
	n := len(u.tx)
	for i := 0; i < n; i++ {
		if i%4096 == 0 {
			vTick()
		}
		if i%3 == 0 {
			probe(i)
		} else {
			d.AddTransaction(u.fresh(i))
			store(i)
		}
	}
	for k := 0; k < 400; k++ {
		probe(fifo[len(fifo)-mem]) // the oldest remembered
		if len(fifo) > mem {
			probe(fifo[len(fifo)-mem-1]) // the latest forgotten
		}
		probe(c.R.Intn(n))
	}
	c.Seen("large_memories", 1)
	c.Distinct("bigmem %d %d", mem, len(fifo))
}

func TestVerifC12(t *testing.T) {
	vMain(t, "C12", func(h *vH) {
		for i, m0 := range []int{1000, 6000, 66000} {
			mem := m0
			h.Case(fmt.Sprintf("memory-%d", i), func(c *vC) { bigmem(c, mem+c.R.Intn(1000)) })
		}
		for i := 0; i < h.N(400, 6000); i++ {
			h.Case(fmt.Sprintf("hist-%d", i), func(c *vC) {
				mem := []int{0, 1, 2, 3, 5, 10, 40, 200}[c.R.Intn(8)]
				if i%2 == 0 {
					c12(c, kitP, mem)
				} else {
					c12(c, kitV, mem)
				}
			})
		}
		for i, m := range []int{0, 10, 1000} {
			for kind := 0; kind < 5; kind++ {
				h.Case(fmt.Sprintf("heap-%d-%d", i, kind), func(c *vC) { c12heap(c, m, h.N(120000, 1000000), kind) })
			}
		}
	})
}

// ---- C13: collisions and corruption ----------------------------------------

func c13collide(c *vC) {
	pairs := collisions([lt.SaltSize]byte{1, 2, 3}, 6)
	if len(pairs) == 0 {
		c.Fail("no colliding pair found")
	}
	u := &universe[vdat]{k: kitV, byID: map[uint32]int{}, byKy: map[string]int{}, salt: [lt.SaltSize]byte{1, 2, 3}}
	np := 1 + c.R.Intn(3)
	for _, p := range c.R.Perm(len(pairs))[:vMin(np, len(pairs))] {
		u.add(lt.NewTransaction[vdat](kitV.mk(pairs[p][0])), true)
		u.add(lt.NewTransaction[vdat](kitV.mk(pairs[p][1])), true)
	}
	for i := 3 + c.R.Intn(8); i > 0; i-- {
		u.add(lt.NewTransaction[vdat](kitV.mk(1<<50|c.R.Uint64()>>16)), true)
	}
	mem := []int{0, 1, 2, 4, 1 << 20}[c.R.Intn(5)]
	d := lt.NewDecoder[vdat](u.salt, mem)
	steps := 30 + c.R.Intn(300)
	c.Budget(int64(steps)*3000 + 100000)
	listed := map[uint32]bool{}
	var ps []*lt.PendingCodeword[vdat]
	maxdeg := 1 + c.R.Intn(5)
	dup := c.R.Intn(3)
	for n := 0; n < steps; n++ {
		var txs []lt.Transaction[vdat]
		if c.R.Intn(4) == 0 {
			txs = d.AddTransaction(u.fresh(c.R.Intn(len(u.tx))))
		} else {
			var idx []int
			for k := c.R.Intn(maxdeg) + 1; k > 0; k-- {
				j := c.R.Intn(len(u.tx))
				has := false
				for _, x := range idx {
					has = has || x == j
				}
				if !has || dup == 0 {
					idx = append(idx, j)
				}
			}
			cw := u.craft(idx)
			if c.R.Intn(4) == 0 {
				damage(c, u, &cw)
			}
			_, m := cwFields(&cw)
			for _, x := range *m {
				listed[x] = true
			}
			var p *lt.PendingCodeword[vdat]
			p, txs = d.AddCodeword(copyCW(cw))
			ps = append(ps, p)
		}
		for _, t := range txs {
			id := idOf(u.salt, t)
			if !listed[id] {
				c.Fail("step %d: handed out a transaction with short hash %x that no received codeword lists", n, id)
			}
			if string(t.Hash()) != string(t.Data().Hash()) {
				c.Fail("step %d: transaction handed out with a hash that is not its own", n)
			}
			c.Seen("handed_out_under_collisions", 1)
		}
		for _, p := range ps {
			p.Decoded()
		}
	}
	c.Distinct("collide pairs=%d mem=%d steps=%d deg=%d", np, mem, steps, maxdeg)
}

// c13latest: of transactions with the same short hash, the one added last is
// the one that arriving codewords are freed of.
func c13latest(c *vC) {
	pairs := collisions([lt.SaltSize]byte{1, 2, 3}, 6)
	u := &universe[vdat]{k: kitV, byID: map[uint32]int{}, byKy: map[string]int{}, salt: [lt.SaltSize]byte{1, 2, 3}}
	np := 1 + c.R.Intn(len(pairs))
	for _, p := range c.R.Perm(len(pairs))[:np] {
		u.add(lt.NewTransaction[vdat](kitV.mk(pairs[p][0])), true)
		u.add(lt.NewTransaction[vdat](kitV.mk(pairs[p][1])), true)
	}
	d := lt.NewDecoder[vdat](u.salt, 1<<20)
	last := make([]int, np)
	for i := range last {
		last[i] = -1
	}
	steps := 5 + c.R.Intn(60)
	for n := 0; n < steps; n++ {
		i := c.R.Intn(np)
		last[i] = 2*i + c.R.Intn(2)
		if txs := d.AddTransaction(u.fresh(last[i])); len(txs) != 0 {
			c.Fail("step %d: adding a transaction handed out %d although no codeword is pending", n, len(txs))
		}
		var idx []int
		for _, x := range last {
			if x >= 0 && c.R.Intn(3) != 0 {
				idx = append(idx, x)
			}
		}
		next := len(u.tx)
		u.add(lt.NewTransaction[vdat](kitV.mk(1<<50|c.R.Uint64()>>16)), true)
		idx = append(idx, next)
		cw := u.craft(idx)
		p, txs := d.AddCodeword(copyCW(cw))
		if !p.Decoded() || len(txs) != 1 || txs[0].Data() != u.tx[next].Data() {
			c.Fail("step %d: a codeword of the latest of %d transactions sharing short hashes and one more: decoded=%v, %d handed out", n, len(idx)-1, p.Decoded(), len(txs))
		}
		c.Seen("latest_of_colliding", len(idx)-1)
	}
	c.Distinct("latest pairs=%d steps=%d %v", np, steps, last)
}

// c13forget: a transaction that has taken the place of an older one with the
// same short hash is known until as many transactions as the decoder remembers
// came after it, however soon the older one is forgotten.
func c13forget(c *vC) {
	pairs := collisions([lt.SaltSize]byte{1, 2, 3}, 6)
	u := &universe[vdat]{k: kitV, byID: map[uint32]int{}, byKy: map[string]int{}, salt: [lt.SaltSize]byte{1, 2, 3}}
	np := 1 + c.R.Intn(len(pairs))
	var todo []int
	for _, p := range c.R.Perm(len(pairs))[:np] {
		u.add(lt.NewTransaction[vdat](kitV.mk(pairs[p][0])), true)
		u.add(lt.NewTransaction[vdat](kitV.mk(pairs[p][1])), true)
	}
	for i := 0; i < 2*np; i++ {
		todo = append(todo, i/2)
	}
	c.R.Shuffle(len(todo), func(i, j int) { todo[i], todo[j] = todo[j], todo[i] })
	mem := 2 + c.R.Intn(20)
	d := lt.NewDecoder[vdat](u.salt, mem)
	seen := make([]int, np)  // members of the pair added so far
	first := make([]int, np) // which of the two goes first
	for i := range first {
		first[i] = c.R.Intn(2)
	}
	at := map[int]int{} // transaction -> when it was stored
	now := 0
	store := func(x int) { at[x] = now; now++ }
	known := func(x int) bool { t, ok := at[x]; return ok && t >= now-mem }
	fresh := func() int {
		u.add(lt.NewTransaction[vdat](kitV.mk(1<<50|c.R.Uint64()>>16)), true)
		return len(u.tx) - 1
	}
	for n := 0; len(todo) > 0 || n%40 != 0; n++ {
		switch {
		case len(todo) > 0 && c.R.Intn(4) == 0:
			i := todo[0]
			todo = todo[1:]
			x := 2*i + (first[i]+seen[i])%2
			seen[i]++
			d.AddTransaction(u.fresh(x))
			store(x)
		case c.R.Intn(3) == 0:
			x := fresh()
			d.AddTransaction(u.fresh(x))
			store(x)
		default:
			// the transactions still known of pairs both of which were added, and a new one
			var idx []int
			for i := range seen {
				if seen[i] == 2 {
					if x := 2*i + (first[i]+1)%2; known(x) && c.R.Intn(3) != 0 {
						idx = append(idx, x)
						if !known(2*i + first[i]) {
							c.Seen("successor_of_forgotten", 1)
						}
					}
				}
			}
			x := fresh()
			p, txs := d.AddCodeword(copyCW(u.craft(append(idx, x))))
			if !p.Decoded() || len(txs) != 1 || txs[0].Data() != u.tx[x].Data() {
				c.Fail("step %d, memory %d: a codeword of %d known transactions, each successor of one with the same short hash, and one more: decoded=%v, %d handed out", n, mem, len(idx), p.Decoded(), len(txs))
			}
			store(x)
		}
	}
	c.Distinct("forget pairs=%d memory=%d stored=%d", np, mem, now)
}

// damage makes a codeword inconsistent.
func damage[T lt.TransactionData[T]](c *vC, u *universe[T], cw *lt.Codeword[T]) string {
	s, m := cwFields(cw)
	switch c.R.Intn(5) {
	case 0: // content garbled
		*s = (*s).XOR(u.k.mk(c.R.Uint64()))
		return "content"
	case 1: // an entry omitted
		if len(*m) > 0 {
			k := c.R.Intn(len(*m))
			*m = append(append([]uint32(nil), (*m)[:k]...), (*m)[k+1:]...)
		}
		return "omit"
	case 2: // an entry repeated
		if len(*m) > 0 {
			*m = append(*m, (*m)[c.R.Intn(len(*m))])
		}
		return "repeat"
	case 3: // an entry invented
		*m = append(*m, c.R.Uint32())
		return "invent"
	default: // an entry replaced by another transaction's
		if len(*m) > 0 {
			*m = append([]uint32(nil), *m...)
			(*m)[c.R.Intn(len(*m))] = u.id[c.R.Intn(len(u.id))]
		}
		return "replace"
	}
}

// c13damage: intact codewords mixed with damaged ones; recovery must equal
// what the intact ones determine.
func c13damage[T lt.TransactionData[T]](c *vC, k kit[T]) {
	ntx := 2 + c.R.Intn(40)
	s := newSession(c, k, ntx, 1, 1, 1<<30, false)
	steps := 40 + c.R.Intn(300)
	c.Budget(int64(steps)*4000 + 100000)
	maxdeg := 1 + c.R.Intn(vMin(6, ntx))
	rate := 2 + c.R.Intn(4)
	for n := 0; n < steps; n++ {
		if c.R.Intn(10) == 0 {
			s.local(0, fmt.Sprintf("step %d, local", n))
			continue
		}
		idx := c.R.Perm(ntx)[:1+c.R.Intn(maxdeg)]
		cw := s.u.craft(idx)
		if c.R.Intn(rate) != 0 {
			s.deliver(0, cw, fmt.Sprintf("step %d, intact codeword", n))
			continue
		}
		what := damage(c, s.u, &cw)
		if c.R.Intn(3) == 0 {
			what += "+" + damage(c, s.u, &cw)
		}
		if consistent(s.u, &cw) {
			s.c.Seen("damage_without_effect", 1)
			continue
		}
		_, txs := s.decs[0].AddCodeword(cw)
		if len(txs) != 0 {
			c.Fail("step %d: a damaged codeword (%s) of %v yielded transaction %s", n, what, idx, s.u.k.key(txs[0].Data()))
		}
		s.c.Seen("damaged_codewords", 1)
	}
	c.Distinct("damage %s tx=%d steps=%d deg=%d rate=%d handed=%d", k.name, ntx, steps, maxdeg, rate, len(s.handed[0]))
}

// consistent: content equals the XOR of the listed transactions.
func consistent[T lt.TransactionData[T]](u *universe[T], cw *lt.Codeword[T]) bool {
	s, m := cwFields(cw)
	var z T
	z = z.XOR(*s)
	for _, id := range *m {
		i, ok := u.byID[id]
		if !ok {
			return false // can never be resolved
		}
		z = z.XOR(u.tx[i].Data())
	}
	w := z
	w = w.XOR(u.k.mk(1)) // a value that differs from z
	a := u.k.key(w)
	return a == u.k.key(u.k.mk(1))
}

func TestVerifC13(t *testing.T) {
	vMain(t, "C13", func(h *vH) {
		for i := 0; i < h.N(500, 10000); i++ {
			h.Case(fmt.Sprintf("collide-%d", i), c13collide)
		}
		for i := 0; i < h.N(40, 1000); i++ {
			h.Case(fmt.Sprintf("latest-%d", i), c13latest)
			h.Case(fmt.Sprintf("forget-%d", i), c13forget)
		}
		for i := 0; i < h.N(300, 6000); i++ {
			h.Case(fmt.Sprintf("damage-%d", i), func(c *vC) {
				if i%2 == 0 {
					c13damage(c, kitP)
				} else {
					c13damage(c, kitV)
				}
			})
		}
	})
}

var _ = sort.Ints
