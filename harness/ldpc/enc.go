package VPKG

import (
	"fmt"
	"math"
	"math/rand"
	"testing"

	"github.com/yangl1996/rateless-set-reconcile/ldpc"
)

type encModel struct {
	c    *vC
	u    *universe
	e    *ldpc.Encoder
	deg  uint64
	dist *scripted
	win  []int
	inW  map[int]bool
	ws   int
	txs  []*ldpc.Transaction
}

func newEncModel(c *vC, ntx, ws int) *encModel {
	rand.Seed(c.R.Int63())
	m := &encModel{c: c, u: mkUniverse(c.R, ntx), ws: ws, inW: map[int]bool{}}
	m.dist = &scripted{f: func() uint64 { return m.deg }}
	m.e = ldpc.NewEncoder(m.u.salt, m.dist, ws)
	for i := range m.u.d {
		m.txs = append(m.txs, load(m.u.d[i]))
	}
	return m
}

func (m *encModel) add(i int) {
	in := m.inW[i]
	t := m.txs[i]
	if m.c.R.Intn(2) == 0 {
		t = load(m.u.d[i])
	}
	if ok := m.e.AddTransaction(t); ok == in {
		m.c.Fail("adding transaction %d, which is in the window: %v (window %s, size limit %d): accepted=%v", i, in, short(m.win), m.ws, ok)
	}
	if !in {
		m.win = append(m.win, i)
		m.inW[i] = true
		if len(m.win) > m.ws {
			for _, x := range m.win[:len(m.win)-m.ws] {
				delete(m.inW, x)
			}
			m.win = m.win[len(m.win)-m.ws:]
			m.c.Seen("displacements", 1)
		}
	} else {
		m.c.Seen("refusals", 1)
	}
}

func (m *encModel) produce(deg uint64) []int {
	c := m.c
	m.deg = deg
	draws := m.dist.draws
	cw := m.e.ProduceCodeword()
	if m.dist.draws != draws+1 {
		c.Fail("producing one codeword drew %d degrees from the configured distribution", m.dist.draws-draws)
	}
	want := len(m.win)
	if deg < uint64(want) {
		want = int(deg)
	}
	if len(cw.Members) != want {
		c.Fail("degree %d, window of %d: codeword names %d members", deg, len(m.win), len(cw.Members))
	}
	inWin := map[int]int{}
	for p, x := range m.win {
		inWin[x] = p
	}
	var pos []int
	var sum data
	seen := map[int]bool{}
	for _, id := range cw.Members {
		i, ok := m.u.byID[id]
		if !ok {
			c.Fail("codeword names short hash %x of no transaction", id)
		}
		p, there := inWin[i]
		if !there {
			c.Fail("codeword includes transaction %d, which is not in the window %s", i, short(m.win))
		}
		if seen[i] {
			c.Fail("codeword includes transaction %d twice", i)
		}
		seen[i] = true
		xorInto(&sum, &m.u.d[i])
		pos = append(pos, p)
	}
	if sum != cw.Symbol {
		c.Fail("content of a degree-%d codeword is not the XOR of its members", want)
	}
	c.Seen("codewords_judged", 1)
	if want == 0 {
		c.Seen("empty_codewords", 1)
	}
	return pos
}

func (m *encModel) reset(ws int) {
	m.dist = &scripted{f: func() uint64 { return m.deg }}
	m.e.Reset(m.dist, ws)
	m.ws = ws
	m.win, m.inW = nil, map[int]bool{}
	m.c.Seen("resets", 1)
}

func (m *encModel) intact() {
	for i, t := range m.txs {
		if string(t.Serialized()) != string(m.u.d[i][:]) {
			m.c.Fail("transaction %d was modified by coding", i)
		}
	}
}

func short(w []int) string {
	if len(w) > 300 {
		return fmt.Sprintf("%v...%v (%d)", w[:100], w[len(w)-100:], len(w))
	}
	return fmt.Sprint(w)
}

// bigDegree is more than any window holds: all of it is combined.
func bigDegree(c *vC) uint64 {
	d := []uint64{1 << 30, 1 << 31, 1 << 32, 1<<32 + 1, 1 << 40, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 1, 1 << 63 / 3 * 4}[c.R.Intn(10)]
	if d >= 1<<63 {
		c.Seen("degrees_beyond_int", 1)
	}
	return d
}

// huge fills and slides a window of ws and judges codewords of all degrees;
// in 16 parts of the window, members must be equally frequent.
func huge(c *vC, ws, extra int) {
	m := newEncModel(c, ws+extra, ws)
	for i := 0; i < ws+extra; i++ {
		m.add(i)
		if i%997 == 0 {
			m.add(c.R.Intn(i + 1))
			vTick()
		}
	}
	const parts = 16
	var cnt [parts]int
	tot := 0
	for _, d := range []uint64{1, 1, 2, 3, 17, 200, 200, 3000, 3000, 3000, uint64(ws / 3), uint64(ws - 1), uint64(ws), uint64(ws) + 1, bigDegree(c)} {
		for _, p := range m.produce(d) {
			if d <= 3000 {
				cnt[p*parts/ws]++
				tot++
			}
		}
		if d == 17 {
			m.add(0)
		}
	}
	for i, x := range cnt {
		exp := float64(tot) / parts
		if math.Abs(float64(x)-exp) > 6.5*math.Sqrt(exp) {
			c.Fail("window of %d: of %d members chosen, %d are in part %d of %d of the window", ws, tot, x, i, parts)
		}
	}
	spread(c, m)
	c.Seen("huge_windows", 1)
	c.Distinct("huge ws=%d extra=%d", ws, extra)
}

// spread: in a window of any size every member is as likely as any other, also
// beyond each power of two, for single members and for many at once.
func spread(c *vC, m *encModel) {
	where := map[uint32]int{}
	for p, x := range m.win {
		where[m.u.id[x]] = p
	}
	ws := len(m.win)
	for _, g := range [][2]int{{1, 4000}, {2, 1500}, {40, 500}, {1000, 60}} {
		d, runs := g[0], g[1]
		if d > ws/4 {
			continue
		}
		m.deg = uint64(d)
		const parts = 64
		var cnt [parts]int
		pow := map[int]int{}
		for r := 0; r < runs; r++ {
			cw := m.e.ProduceCodeword()
			for _, id := range cw.Members {
				p := where[id]
				cnt[p*parts/ws]++
				for k := 1; k < ws; k *= 2 {
					if p >= k {
						pow[k]++
					}
				}
			}
		}
		tot := float64(d * runs)
		test := func(what string, got int, share float64) {
			dev := math.Abs(float64(got)-tot*share) / math.Sqrt(tot*share*(1-share)+1)
			c.Max("deviation_permille_sigma", int64(dev*1000))
			if dev > 6.5 && math.Abs(float64(got)-tot*share) > 12 {
				c.Fail("window of %d, degree %d: of %.0f members chosen, %d are %s, expected about %.0f", ws, d, tot, got, what, tot*share)
			}
		}
		for i, x := range cnt {
			lo, hi := (i*ws+parts-1)/parts, ((i+1)*ws+parts-1)/parts
			test(fmt.Sprintf("at positions %d to %d", lo, hi-1), x, float64(hi-lo)/float64(ws))
		}
		for k := 1; k < ws; k *= 2 {
			test(fmt.Sprintf("at positions from %d", k), pow[k], float64(ws-k)/float64(ws))
		}
	}
	c.Seen("spread_windows", 1)
}

func uniform(c *vC, n, d, runs int) {
	m := newEncModel(c, n+7, n)
	for i := 0; i < n+7; i++ {
		m.add(i)
	}
	cnt := make([]int, n)
	pair := make([]int, n*n)
	for r := 0; r < runs; r++ {
		ps := m.produce(uint64(d))
		for _, p := range ps {
			cnt[p]++
		}
		if n <= 12 {
			for _, p := range ps {
				for _, q := range ps {
					if p < q {
						pair[p*n+q]++
					}
				}
			}
		}
	}
	test := func(what string, got int, p float64) {
		exp := float64(runs) * p
		dev := math.Abs(float64(got)-exp) / math.Sqrt(float64(runs)*p*(1-p)+1)
		c.Max("deviation_permille_sigma", int64(dev*1000))
		if dev > 6.5 {
			c.Fail("window of %d, degree %d: %s chosen %d times in %d codewords, expected about %.0f (%.1f standard deviations off)", n, d, what, got, runs, exp, dev)
		}
	}
	p := float64(d) / float64(n)
	for i, x := range cnt {
		test(fmt.Sprintf("position %d", i), x, p)
	}
	if n <= 12 && d >= 2 && d < n {
		pp := p * float64(d-1) / float64(n-1)
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				test(fmt.Sprintf("positions %d and %d together", i, j), pair[i*n+j], pp)
			}
		}
	}
	c.Seen("uniformity_samples", runs)
	c.Distinct("uniform n=%d d=%d", n, d)
}

func TestVerifC16(t *testing.T) {
	vMain(t, "C16", func(h *vH) {
		for i := 0; i < h.N(500, 8000); i++ {
			h.Case(fmt.Sprintf("hist-%d", i), func(c *vC) {
				ws := []int{0, 1, 2, 3, 7, 20, 60, 300}[c.R.Intn(8)]
				n := 1 + c.R.Intn(2*ws+6)
				m := newEncModel(c, n, ws)
				if i%5 == 0 {
					m.produce(3) // before anything was added
				}
				for k := 0; k < 200+2*ws; k++ {
					switch x := c.R.Intn(40); {
					case x == 0:
						m.reset([]int{0, 1, 2, 5, 25, 100}[c.R.Intn(6)])
						if c.R.Intn(2) == 0 {
							m.produce(uint64(c.R.Intn(4)))
						}
					case x < 12:
						m.produce([]uint64{1, 2, 3, uint64(c.R.Intn(len(m.win) + 1)), uint64(len(m.win)), bigDegree(c)}[c.R.Intn(6)])
					case x == 12 && len(m.win) > 0:
						m.add(m.win[0])
					default:
						m.add(c.R.Intn(n))
					}
				}
				m.produce(bigDegree(c))
				m.intact()
				c.Distinct("tx=%d ws=%d win=%v", n, m.ws, m.win)
			})
		}
		for i := 0; i < h.N(4, 12); i++ { // windows of thousands, and past 65536
			h.Case(fmt.Sprintf("huge-%d", i), func(c *vC) {
				ws := 2000 + c.R.Intn(8000)
				if i%4 == 2 {
					ws = 30000 + c.R.Intn(30000)
				}
				if i%2 == 1 {
					ws = 66000 + c.R.Intn(3000)
				}
				huge(c, ws, c.R.Intn(5000))
			})
		}
		for _, x := range [][2]int{{1, 1}, {2, 1}, {3, 1}, {3, 2}, {5, 2}, {5, 4}, {8, 3}, {12, 5}, {12, 1}, {50, 1}, {50, 3}, {50, 20}, {50, 49}, {300, 2}, {300, 100}, {1000, 5}} {
			h.Case(fmt.Sprintf("uniform-%d-%d", x[0], x[1]), func(c *vC) { uniform(c, x[0], x[1], h.N(12000, 150000)) })
		}
	})
}
