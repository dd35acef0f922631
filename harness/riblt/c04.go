package VPKG

import (
	"fmt"
	"strings"
	"testing"

	"github.com/yangl1996/rateless-set-reconcile/riblt"
)

// runC04: remote-side symbols are in the minuend only, local-side symbols in
// the subtrahend only.
func runC04[T riblt.Symbol[T]](c *vC, k kit[T], nl, nr, nc, m int) {
	judgeC04(c, mkInst(k, c.R, nl, nr, nc), m)
}

func judgeC04[T riblt.Symbol[T]](c *vC, in *inst[T], m int) {
	k, nl, nr, nc := in.k, len(in.local), len(in.remote), len(in.common)
	d := nl + nr
	c.Budget(int64(400*(d+2*nc+10)+400*m) * 4)
	a, b := make(riblt.Sketch[T], m), make(riblt.Sketch[T], m)
	addTo(c.R, a.AddSymbol, a.AddHashedSymbol, shuffled(c.R, in.remote, in.common))
	addTo(c.R, b.AddSymbol, b.AddHashedSymbol, shuffled(c.R, in.local, in.common))
	diff := a.Subtract(b)
	if len(diff) != m {
		c.Fail("subtracting %d-cell sketches gave %d cells", m, len(diff))
	}
	var hashes []uint64
	for _, s := range in.local {
		hashes = append(hashes, s.Hash())
	}
	for _, s := range in.remote {
		hashes = append(hashes, s.Hash())
	}
	mkRef := newRefPeel
	if d > 1500 {
		mkRef = newRefPeelBag
	}
	ref := mkRef(hashes, m)
	for i := 0; i < m; i++ {
		ref.add()
	}
	ref.peel()
	R, L, ok := diff.Decode()
	in.checkSound(c, "remote", R, in.wantR)
	in.checkSound(c, "local", L, in.wantL)
	if ok && (len(R) != nr || len(L) != nl) {
		c.Fail("%d cells: success reported with %d/%d symbols, the difference has %d/%d", m, len(R), len(L), nr, nl)
	}
	if ok != (ref.left == 0) {
		c.Fail("%d cells, difference %d: success=%v, peeling recovers %d symbols and leaves %d cells unexplained", m, d, ok, ref.nrec, ref.left)
	}
	if len(R)+len(L) != ref.nrec {
		c.Fail("%d cells, difference %d: returned %d symbols, peeling recovers %d", m, d, len(R)+len(L), ref.nrec)
	}
	// the rateless decoder on the same cells
	var e riblt.Encoder[T]
	var dec riblt.Decoder[T]
	addTo(c.R, e.AddSymbol, e.AddHashedSymbol, shuffled(c.R, in.remote, in.common))
	addTo(c.R, dec.AddSymbol, dec.AddHashedSymbol, shuffled(c.R, in.local, in.common))
	for i := 0; i < m; i++ {
		dec.AddCodedSymbol(e.ProduceNextCodedSymbol())
	}
	dec.TryDecode()
	if dec.Decoded() != ok || strings.Join(keysOf(k, dec.Remote()), " ") != strings.Join(keysOf(k, R), " ") || strings.Join(keysOf(k, dec.Local()), " ") != strings.Join(keysOf(k, L), " ") {
		c.Fail("%d cells: sketch decoding (ok=%v, %d/%d) and rateless decoding (ok=%v, %d/%d) disagree", m, ok, len(R), len(L), dec.Decoded(), len(dec.Remote()), len(dec.Local()))
	}
	// the subtrahend is still intact: a sketch of the common set minus it
	a2 := make(riblt.Sketch[T], m)
	addTo(c.R, a2.AddSymbol, a2.AddHashedSymbol, shuffled(c.R, in.common))
	R2, L2, ok2 := a2.Subtract(b).Decode()
	in.checkSound(c, "second subtraction, local", L2, in.wantL)
	if len(R2) != 0 || ok2 && len(L2) != nl {
		c.Fail("reusing the subtrahend: success=%v with %d/%d symbols, expected 0/%d", ok2, len(R2), len(L2), nl)
	}
	if ok {
		c.Seen("successes", 1)
	} else {
		c.Seen("failures_reported", 1)
	}
	c.Seen("symbols_returned", len(R)+len(L))
	if d > 0 {
		c.Distinct("type=%s m=%d l=%d r=%d c=%d ok=%v got=%d", k.name, m, nl, nr, nc, ok, len(R)+len(L))
	}
}

func TestVerifC04(t *testing.T) {
	vMain(t, "C04", func(h *vH) {
		for i := 0; i < h.N(600, 12000); i++ {
			h.Case(fmt.Sprintf("rand-%d", i), func(c *vC) {
				nl, nr, nc := sizes(c)
				d := nl + nr
				m := []int{1, 2, 1 + d, 1 + d*13/10, 1 + d*3/2, 2*d + 5, 4*d + 50, 1 + c.R.Intn(3*d+3)}[c.R.Intn(8)]
				switch i % 4 {
				case 0:
					runC04(c, kitP, nl, nr, nc, m)
				case 1:
					runC04(c, kitW, nl, nr, nc, m)
				case 2:
					runC04(c, kitO, nl, nr, nc, m)
				default:
					runC04(c, kitV, nl, nr, nc, m)
				}
			})
		}
		for i, s := range [][4]int{{2000, 1500, 9000, 6000}, {0, 5000, 1000, 6800}, {33000, 33000, 100, 91000}, {0, 34000, 50, 50000}, {34500, 3, 2000, 50000}, {2, 67000, 10, 93000}, {10, 10, 80000, 60}, {2000, 2000, 5000, 4000}} {
			h.Case(fmt.Sprintf("large-%d", i), func(c *vC) { runC04(c, kitV, s[0], s[1], s[2], s[3]) })
		}
		// symbols with extreme hashes (0, all ones, single bits, ...) among few others
		for i := 0; i < h.N(200, 5000); i++ {
			h.Case(fmt.Sprintf("advhash-%d", i), func(c *vC) {
				in := mkAdv(c, advIDs(c), c.R.Intn(1+c.R.Intn(30)))
				c.Seen("extreme_hash_sets", 1)
				judgeC04(c, in, 1+c.R.Intn(4*(len(in.local)+len(in.remote))+4))
			})
		}
	})
}
