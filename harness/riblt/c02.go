package VPKG

import (
	"fmt"
	"testing"

	"github.com/yangl1996/rateless-set-reconcile/riblt"
)

// runC02 compares the decoder with the reference peeling decoder after every
// decoding attempt; it returns how many coded symbols completion took.
func runC02[T riblt.Symbol[T]](c *vC, k kit[T], nl, nr, nc, batch, over int, checkEach bool) int {
	in := mkInst(k, c.R, nl, nr, nc)
	d := nl + nr
	var enc riblt.Encoder[T]
	var dec riblt.Decoder[T]
	addTo(c.R, enc.AddSymbol, enc.AddHashedSymbol, shuffled(c.R, in.remote, in.common))
	addTo(c.R, dec.AddSymbol, dec.AddHashedSymbol, shuffled(c.R, in.local, in.common))
	var hashes []uint64
	for _, s := range in.local {
		hashes = append(hashes, s.Hash())
	}
	for _, s := range in.remote {
		hashes = append(hashes, s.Hash())
	}
	limit := 4*d + 60
	mkRef := newRefPeel
	if d > 2000 {
		limit, mkRef = 2*d, newRefPeelBag
	}
	ref := mkRef(hashes, limit)
	c.Budget(int64(300*(d+nc+10)) + int64(limit)*100)
	need := -1
	after := 0
	for n := 1; n <= limit; n++ {
		dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
		ref.add()
		c.Seen("coded_symbols", 1)
		do := n%batch == 0
		if batch < 0 {
			do = c.R.Intn(-batch) == 0
		}
		if !do && n != limit {
			continue
		}
		dec.TryDecode()
		ref.peel()
		c.Seen("attempts_compared", 1)
		R, L := dec.Remote(), dec.Local()
		if len(R)+len(L) != ref.nrec {
			c.Fail("after %d coded symbols (d=%d): reported %d remote + %d local symbols, peeling recovers %d", n, d, len(R), len(L), ref.nrec)
		}
		if dec.Decoded() != (ref.left == 0) {
			c.Fail("after %d coded symbols (d=%d, %d recovered): completion reported %v, but %d received coded symbols are unexplained", n, d, ref.nrec, dec.Decoded(), ref.left)
		}
		if checkEach || ref.left == 0 && need < 0 {
			wl, wr := map[string]uint64{}, map[string]uint64{}
			for i, s := range in.local {
				if ref.rec[i] {
					wl[k.key(s)] = hashes[i]
				}
			}
			for i, s := range in.remote {
				if ref.rec[nl+i] {
					wr[k.key(s)] = hashes[nl+i]
				}
			}
			in.checkSound(c, fmt.Sprintf("after %d coded symbols, remote (vs. peeling)", n), R, wr)
			in.checkSound(c, fmt.Sprintf("after %d coded symbols, local (vs. peeling)", n), L, wl)
		}
		if ref.nrec > 0 && ref.nrec < d {
			c.Seen("partial_states", 1)
		}
		if ref.left == 0 {
			if need < 0 {
				need = n
				c.Seen("completed", 1)
			}
			after++
			if after > over {
				break
			}
		}
	}
	return need
}

func TestVerifC02(t *testing.T) {
	vMain(t, "C02", func(h *vH) {
		for i := 0; i < h.N(350, 6000); i++ {
			h.Case(fmt.Sprintf("rand-%d", i), func(c *vC) {
				nl, nr, nc := sizes(c)
				b := []int{1, 1, 2, 7, -3, -10, 1 + nl + nr}[c.R.Intn(7)]
				var n int
				if i%3 == 0 {
					n = runC02(c, kitP, nl, nr, nc, b, c.R.Intn(30), true)
				} else {
					n = runC02(c, kitV, nl, nr, nc, b, c.R.Intn(30), true)
				}
				if nl+nr > 1 {
					c.Distinct("l=%d r=%d c=%d batch=%d need=%d", nl, nr, nc, b, n)
				}
			})
		}
		for i := 0; i < h.N(12, 100); i++ {
			h.Case(fmt.Sprintf("mid-%d", i), func(c *vC) {
				nl, nr := c.R.Intn(3000), c.R.Intn(3000)
				n := runC02(c, kitV, nl, nr, c.R.Intn(4000), []int{1, -20, 400}[i%3], 20, false)
				c.Distinct("l=%d r=%d need=%d", nl, nr, n)
			})
		}
		h.Case("big", func(c *vC) {
			n := runC02(c, kitV, 30000, 38000, 20000, -300, 5, false)
			c.Distinct("big need=%d", n)
		})
		// average overhead per difference size; the ceilings are the averages
		// measured over thousands of runs plus a generous margin
		for _, b := range []struct {
			d, runs int
			max     float64
		}{{1, 40, 1.0}, {2, 300, 1.75}, {4, 300, 1.90}, {10, 250, 1.90}, {30, 150, 1.75}, {100, 60, 1.62}, {300, 30, 1.55}, {1000, 15, 1.48}, {5000, 5, 1.45}} {
			for rep := 0; rep < h.N(1, 8); rep++ {
				h.Case(fmt.Sprintf("overhead-%d-%d", b.d, rep), func(c *vC) {
					tot := 0
					for r := 0; r < b.runs; r++ {
						nl := c.R.Intn(b.d + 1)
						n := runC02(c, kitV, nl, b.d-nl, []int{0, 50, 300}[r%3], 1, 0, false)
						if n < 0 {
							c.Fail("difference of %d not decoded in the coded symbols tried", b.d)
						}
						if n < b.d {
							c.Fail("difference of %d decoded from only %d coded symbols", b.d, n)
						}
						tot += n
					}
					avg := float64(tot) / float64(b.runs) / float64(b.d)
					c.Max(fmt.Sprintf("overhead_permille_d%d", b.d), int64(avg*1000))
					if avg > b.max {
						c.Fail("difference of %d symbols needs %.3f coded symbols per symbol on average over %d runs; at most %.2f expected", b.d, avg, b.runs, b.max)
					}
					c.Distinct("overhead d=%d avg=%.3f", b.d, avg)
				})
			}
		}
	})
}
