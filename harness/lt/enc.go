package VPKG

import (
	"fmt"
	"math"
	"math/rand"
	"testing"

	lt "github.com/yangl1996/rateless-set-reconcile/LTPKG"
)

// encModel drives a real encoder and the window model side by side.
type encModel[T lt.TransactionData[T]] struct {
	c    *vC
	u    *universe[T]
	e    *lt.Encoder[T]
	deg  uint64
	dist *scripted
	win  []int
	inW  map[int]bool
	ws   int
}

func newEncModel[T lt.TransactionData[T]](c *vC, k kit[T], ntx, ws int) *encModel[T] {
	m := &encModel[T]{c: c, u: mkUniverse(c, k, ntx), ws: ws, inW: map[int]bool{}}
	m.dist = &scripted{f: func() uint64 { return m.deg }}
	m.e = lt.NewEncoder[T](rand.New(rand.NewSource(c.R.Int63())), m.u.salt, m.dist, ws)
	return m
}

func (m *encModel[T]) add(i int) {
	in := m.inW[i]
	ok := m.e.AddTransaction(m.u.fresh(i))
	if ok == in {
		m.c.Fail("adding transaction %d, which is in the window: %v (window %s, size limit %d): accepted=%v", i, in, short(m.win), m.ws, ok)
	}
	if !in {
		m.win = append(m.win, i)
		m.inW[i] = true
		if len(m.win) > m.ws {
			for _, x := range m.win[:len(m.win)-m.ws] {
				delete(m.inW, x)
			}
			m.win = m.win[len(m.win)-m.ws:]
			m.c.Seen("displacements", 1)
		}
	} else {
		m.c.Seen("refusals", 1)
	}
	m.c.Seen("additions", 1)
}

// produce draws a codeword of the given degree and judges it.
func (m *encModel[T]) produce(deg uint64) []int {
	c := m.c
	m.deg = deg
	draws := m.dist.draws
	cw := m.e.ProduceCodeword()
	if m.dist.draws != draws+1 {
		c.Fail("producing one codeword drew %d degrees from the configured distribution", m.dist.draws-draws)
	}
	want := len(m.win)
	if deg < uint64(want) {
		want = int(deg)
	}
	s, mem := cwFields(&cw)
	if len(*mem) != want {
		c.Fail("degree %d, window of %d: codeword names %d members", deg, len(m.win), len(*mem))
	}
	inWin := map[int]int{}
	for p, x := range m.win {
		inWin[x] = p
	}
	var idx, pos []int
	seen := map[int]bool{}
	for _, id := range *mem {
		i, ok := m.u.byID[id]
		if !ok {
			c.Fail("codeword names short hash %x of no transaction", id)
		}
		p, there := inWin[i]
		if !there {
			c.Fail("codeword includes transaction %d, which is not in the window %s", i, short(m.win))
		}
		if seen[i] {
			c.Fail("codeword includes transaction %d twice", i)
		}
		seen[i] = true
		idx = append(idx, i)
		pos = append(pos, p)
	}
	if got, exp := m.u.k.key(*s), m.u.k.key(m.u.xorOf(idx)); got != exp {
		c.Fail("content of a degree-%d codeword is %s, the XOR of its members is %s", want, got, exp)
	}
	c.Seen("codewords_judged", 1)
	return pos
}

func (m *encModel[T]) reset(ws int) {
	old := m.dist
	m.dist = &scripted{f: func() uint64 { return m.deg }}
	m.e.Reset(m.dist, ws)
	m.ws = ws
	m.win, m.inW = nil, map[int]bool{}
	_ = old
	m.c.Seen("resets", 1)
}

func c10[T lt.TransactionData[T]](c *vC, k kit[T]) {
	ntx := 1 + c.R.Intn(80)
	m := newEncModel(c, k, ntx, 1+c.R.Intn(ntx+5))
	c.Budget(4000000)
	m.add(0)
	for n := 0; n < 150; n++ {
		if c.R.Intn(3) == 0 {
			m.add(c.R.Intn(ntx))
			continue
		}
		if c.R.Intn(40) == 0 { // the window and the degree distribution change, the window's size perhaps
			ws := m.ws
			if c.R.Intn(2) == 0 {
				ws = 1 + c.R.Intn(ntx+5)
			}
			m.reset(ws)
			for k := c.R.Intn(ws + 1); k >= 0; k-- {
				m.add(c.R.Intn(ntx))
			}
		}
		d := uint64(1 + c.R.Intn(len(m.win)+2))
		switch c.R.Intn(8) {
		case 0:
			d = bigDegree(c)
		case 1:
			d = uint64(len(m.win))
		case 2:
			d = 1
		}
		m.produce(d)
	}
	m.u.intact(c)
	c.Distinct("%s tx=%d ws=%d win=%d", k.name, ntx, m.ws, len(m.win))
}

func short(w []int) string {
	if len(w) > 300 {
		return fmt.Sprintf("%v...%v (%d)", w[:100], w[len(w)-100:], len(w))
	}
	return fmt.Sprint(w)
}

// bigDegree is more than any window holds: all of it is combined.
func bigDegree(c *vC) uint64 {
	d := []uint64{1 << 30, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 40, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 1, 1 << 63 / 3 * 4}[c.R.Intn(10)]
	if d >= 1<<63 {
		c.Seen("degrees_beyond_int", 1)
	}
	return d
}

// huge fills and slides a window of ws and judges codewords of all degrees;
// in 16 parts of the window, members must be equally frequent.
func huge(c *vC, ws, extra int, uni bool) {
	m := newEncModel(c, kitV, ws+extra, ws)
	for i := 0; i < ws+extra; i++ {
		m.add(i)
		if i%997 == 0 {
			m.add(c.R.Intn(i + 1))
			vTick()
		}
	}
	const parts = 16
	var cnt [parts]int
	tot := 0
	for _, d := range []uint64{1, 1, 2, 3, 17, 200, 200, 3000, 3000, 3000, uint64(ws / 3), uint64(ws - 1), uint64(ws), uint64(ws) + 1, bigDegree(c)} {
		for _, p := range m.produce(d) {
			if d <= 3000 {
				cnt[p*parts/ws]++
				tot++
			}
		}
		if d == 17 {
			m.add(0)
		}
	}
	for i, x := range cnt {
		exp := float64(tot) / parts
		if math.Abs(float64(x)-exp) > 6.5*math.Sqrt(exp) {
			c.Fail("window of %d: of %d members chosen, %d are in part %d of %d of the window", ws, tot, x, i, parts)
		}
	}
	if uni {
		spread(c, m)
	}
	// start over, with the same window size or another
	again := ws
	if c.R.Intn(3) == 0 {
		again = 1 + c.R.Intn(2*ws)
	}
	m.reset(again)
	for _, i := range c.R.Perm(ws + extra) {
		m.add(i)
		if i%997 == 0 {
			m.add(i)
			vTick()
		}
	}
	m.produce(1)
	m.produce(bigDegree(c))
	c.Seen("huge_windows", 1)
	c.Distinct("huge ws=%d extra=%d", ws, extra)
}

// spread: in a window of any size every member is as likely as any other, also
// beyond each power of two, for single members and for many at once.
func spread(c *vC, m *encModel[vdat]) {
	where := map[uint32]int{}
	for p, x := range m.win {
		where[m.u.id[x]] = p
	}
	ws := len(m.win)
	for _, g := range [][2]int{{1, 4000}, {2, 1500}, {40, 500}, {1000, 60}} {
		d, runs := g[0], g[1]
		if d > ws/4 {
			continue
		}
		m.deg = uint64(d)
		const parts = 64
		var cnt [parts]int
		pow := map[int]int{}
		for r := 0; r < runs; r++ {
			cw := m.e.ProduceCodeword()
			_, mem := cwFields(&cw)
			for _, id := range *mem {
				p := where[id]
				cnt[p*parts/ws]++
				for k := 1; k < ws; k *= 2 {
					if p >= k {
						pow[k]++
					}
				}
			}
		}
		tot := float64(d * runs)
		test := func(what string, got int, share float64) {
			dev := math.Abs(float64(got)-tot*share) / math.Sqrt(tot*share*(1-share)+1)
			c.Max("deviation_permille_sigma", int64(dev*1000))
			if dev > 6.5 && math.Abs(float64(got)-tot*share) > 12 {
				c.Fail("window of %d, degree %d: of %.0f members chosen, %d are %s, expected about %.0f", ws, d, tot, got, what, tot*share)
			}
		}
		for i, x := range cnt {
			lo, hi := (i*ws+parts-1)/parts, ((i+1)*ws+parts-1)/parts
			test(fmt.Sprintf("at positions %d to %d", lo, hi-1), x, float64(hi-lo)/float64(ws))
		}
		for k := 1; k < ws; k *= 2 {
			test(fmt.Sprintf("at positions from %d", k), pow[k], float64(ws-k)/float64(ws))
		}
	}
	c.Seen("spread_windows", 1)
}

// c10uniform: how often each window position (and pair) is chosen.
func c10uniform(c *vC, n, d, runs int) {
	m := newEncModel(c, kitV, n+7, n)
	for i := 0; i < n+7; i++ { // slide the window a bit
		m.add(i)
	}
	cnt := make([]int, n)
	pair := make([]int, n*n)
	for r := 0; r < runs; r++ {
		ps := m.produce(uint64(d))
		for _, p := range ps {
			cnt[p]++
		}
		if n <= 12 {
			for _, p := range ps {
				for _, q := range ps {
					if p < q {
						pair[p*n+q]++
					}
				}
			}
		}
	}
	test := func(what string, got int, p float64) {
		exp := float64(runs) * p
		dev := math.Abs(float64(got)-exp) / math.Sqrt(float64(runs)*p*(1-p)+1)
		c.Max("deviation_permille_sigma", int64(dev*1000))
		if dev > 6.5 {
			c.Fail("window of %d, degree %d: %s chosen %d times in %d codewords, expected about %.0f (%.1f standard deviations off)", n, d, what, got, runs, exp, dev)
		}
	}
	p := float64(d) / float64(n)
	for i, x := range cnt {
		test(fmt.Sprintf("position %d", i), x, p)
	}
	if n <= 12 && d >= 2 && d < n {
		pp := p * float64(d-1) / float64(n-1)
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				test(fmt.Sprintf("positions %d and %d together", i, j), pair[i*n+j], pp)
			}
		}
	}
	c.Seen("uniformity_samples", runs)
	c.Distinct("uniform n=%d d=%d", n, d)
}

func TestVerifC10(t *testing.T) {
	vMain(t, "C10", func(h *vH) {
		for i := 0; i < h.N(400, 6000); i++ {
			h.Case(fmt.Sprintf("mix-%d", i), func(c *vC) {
				if i%2 == 0 {
					c10(c, kitP)
				} else {
					c10(c, kitV)
				}
			})
		}
		for i := 0; i < h.N(8, 80); i++ { // large windows, any degree, sliding
			h.Case(fmt.Sprintf("large-%d", i), func(c *vC) {
				ws := 150 + c.R.Intn(1400)
				m := newEncModel(c, kitV, 2*ws, ws)
				for n := 0; n < 2*ws; n++ {
					m.add(n)
					if n > ws/2 && n%37 == 0 {
						m.produce([]uint64{uint64(1 + c.R.Intn(ws)), uint64(len(m.win)), 1 << 33, uint64(1 + c.R.Intn(9))}[c.R.Intn(4)])
					}
				}
				for n := 0; n < 40; n++ {
					m.produce(uint64(1 + c.R.Intn(ws+3)))
					m.add(c.R.Intn(2 * ws))
				}
				c.Distinct("large ws=%d", ws)
			})
		}
		for i := 0; i < h.N(4, 12); i++ { // windows of thousands, and past 65536
			h.Case(fmt.Sprintf("huge-%d", i), func(c *vC) {
				ws := 2000 + c.R.Intn(8000)
				if i%4 == 2 {
					ws = 30000 + c.R.Intn(30000)
				}
				if i%2 == 1 {
					ws = 66000 + c.R.Intn(3000)
				}
				huge(c, ws, c.R.Intn(5000), true)
			})
		}
		for _, x := range [][2]int{{1, 1}, {2, 1}, {3, 1}, {3, 2}, {5, 2}, {5, 4}, {8, 3}, {12, 5}, {50, 1}, {50, 3}, {50, 20}, {50, 49}, {300, 2}, {300, 100}} {
			h.Case(fmt.Sprintf("uniform-%d-%d", x[0], x[1]), func(c *vC) { c10uniform(c, x[0], x[1], h.N(12000, 150000)) })
		}
	})
}

func c11[T lt.TransactionData[T]](c *vC, k kit[T]) {
	ws := []int{0, 1, 2, 3, 7, 20, 60}[c.R.Intn(7)]
	ntx := 1 + c.R.Intn(2*ws+6)
	m := newEncModel(c, k, ntx, ws)
	c.Budget(10000000)
	prod := c.R.Intn(3) // 0: produce rarely, so additions must be judged over long stretches
	for n := 0; n < 300; n++ {
		switch x := c.R.Intn(40); {
		case x == 0:
			m.reset([]int{0, 1, 2, 5, 25, 100, m.ws, m.ws}[c.R.Intn(8)])
		case x < 8 && prod > 0 || x == 1:
			if len(m.win) > 0 {
				m.produce(uint64(1 + c.R.Intn(len(m.win))))
			}
		case x == 8 && len(m.win) > 0 && m.ws > 0: // re-add the oldest: refused, and must not refresh it
			m.add(m.win[0])
		default:
			m.add(c.R.Intn(ntx))
		}
		if len(m.win) > 0 && (prod == 2 || c.R.Intn(10) == 0) {
			m.produce(bigDegree(c)) // reveals the whole window
			c.Seen("window_inspections", 1)
		}
	}
	m.u.intact(c)
	c.Distinct("%s tx=%d ws=%d win=%v", k.name, ntx, ws, m.win)
}

func TestVerifC11(t *testing.T) {
	vMain(t, "C11", func(h *vH) {
		for i := 0; i < h.N(400, 6000); i++ {
			h.Case(fmt.Sprintf("hist-%d", i), func(c *vC) {
				if i%2 == 0 {
					c11(c, kitP)
				} else {
					c11(c, kitV)
				}
			})
		}
		for i := 0; i < h.N(2, 6); i++ { // windows of thousands, and past 65536
			h.Case(fmt.Sprintf("huge-%d", i), func(c *vC) {
				ws := 2000 + c.R.Intn(8000)
				if i%2 == 1 {
					ws = 66000 + c.R.Intn(3000)
				}
				huge(c, ws, c.R.Intn(5000), false)
			})
		}
		for i := 0; i < h.N(2, 10); i++ { // more additions than fit 16 bits
			h.Case(fmt.Sprintf("life-%d", i), func(c *vC) {
				ws := 1 + c.R.Intn(300)
				m := newEncModel(c, kitV, 2*ws+2+c.R.Intn(100), ws)
				for n := 0; n < 140000; n++ {
					m.add(n % len(m.u.tx))
					if n%5 == 0 {
						m.add(c.R.Intn(len(m.u.tx)))
					}
					if n%500 == 0 {
						m.produce(bigDegree(c))
						vTick()
						c.Seen("window_inspections", 1)
					}
				}
				c.Distinct("life %d", ws)
			})
		}
		for i := 0; i < h.N(4, 40); i++ { // long streams through a large window
			h.Case(fmt.Sprintf("long-%d", i), func(c *vC) {
				m := newEncModel(c, kitV, 3000, 50+c.R.Intn(900))
				for n := 0; n < 3000; n++ {
					m.add(n)
					if n%3 == 0 {
						m.produce(uint64(1 + c.R.Intn(40)))
					}
					if n%101 == 0 {
						m.produce(bigDegree(c))
						c.Seen("window_inspections", 1)
					}
				}
				c.Distinct("long %d", m.ws)
			})
		}
	})
}
