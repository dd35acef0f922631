package VPKG

import (
	"fmt"
	"math"
	"testing"

	"github.com/yangl1996/rateless-set-reconcile/riblt"
)

// extremeHashes lists hash values that drive the pseudo-random draw to its
// extremes at one of the first few steps (the multiplier only steers the
// choice of inputs; the oracle does not depend on it).
func extremeHashes() []uint64 {
	const mult = 0xda942042e4dd58b5
	inv := uint64(1)
	for i := 0; i < 6; i++ { // Newton iteration for the inverse mod 2^64
		inv *= 2 - mult*inv
	}
	var o []uint64
	targets := []uint64{0, 1, 2, 3, 255, 1 << 9, 1<<10 - 1, 1 << 10, 1<<10 + 1, 1 << 11, 1<<11 + 1, 1 << 12, 1 << 20, 1 << 32, 1 << 52, 1 << 53,
		1 << 62, 1 << 63, 1<<63 + 1, 3 << 62}
	for k := uint(0); k <= 13; k++ {
		targets = append(targets, -(uint64(1) << k), -(uint64(1)<<k)-1)
	}
	for _, k := range []uint{20, 30, 40, 50, 60} {
		targets = append(targets, -(uint64(1) << k))
	}
	for _, t := range targets {
		h := t
		for s := 0; s < 5; s++ {
			h *= inv
			o = append(o, h)
		}
	}
	for k := uint(0); k < 64; k++ {
		o = append(o, uint64(1)<<k, -(uint64(1) << k))
	}
	o = append(o, 0, 1, 2, 3, math.MaxUint64)
	return o
}

// onehot counts how often each symbol is folded into the running sum.
var foldLog []uint64

type logged struct{ v uint64 }

func (a logged) XOR(b logged) logged {
	vTick()
	foldLog = append(foldLog, b.v)
	return logged{a.v ^ b.v}
}
func (a logged) Hash() uint64 { vTick(); return vMix(a.v) }

// stream checks a single-symbol stream and returns its positions.
func stream(c *vC, hash uint64, m int) []int {
	var enc riblt.Encoder[logged]
	enc.AddHashedSymbol(riblt.HashedSymbol[logged]{Symbol: logged{77}, Hash: hash})
	c.Budget(int64(8*m + 1000))
	var pos []int
	for i := 0; i < m; i++ {
		foldLog = foldLog[:0]
		cs := enc.ProduceNextCodedSymbol()
		n := 0
		for _, x := range foldLog {
			if x == 77 {
				n++
			}
		}
		v := viewCell(cs)
		if v.ok {
			if !(v.count == 0 && v.sum.v == 0 && v.check == 0 || v.count == 1 && v.sum.v == 77 && v.check == hash) {
				c.Fail("hash %x: coded symbol %d of the one-element set is {sum %d count %d check %x}: the symbol must be in it once or not at all", hash, i, v.sum.v, v.count, v.check)
			}
		}
		if n > 1 {
			c.Fail("hash %x: folded %d times into coded symbol %d", hash, n, i)
		}
		if !cellEmpty(cs) {
			pos = append(pos, i)
		}
	}
	if len(pos) == 0 || pos[0] != 0 {
		c.Fail("hash %x: does not contribute to the first coded symbol (positions %v)", hash, head(pos))
	}
	return pos
}

func head(a []int) []int {
	if len(a) > 20 {
		return a[:20]
	}
	return a
}

func samePos(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func checkHash(c *vC, hash uint64, m int) {
	pos := stream(c, hash, m)
	c.Seen("positions", len(pos))
	c.Seen("coded_symbols", m)
	// the sketch places it at the same positions, for several sizes
	for _, sz := range []int{m, 1, 2, 3, 17, m/2 + 1} {
		if sz > m {
			continue
		}
		sk := make(riblt.Sketch[logged], sz)
		c.Budget(int64(8*sz + 1000))
		foldLog = foldLog[:0]
		sk.AddHashedSymbol(riblt.HashedSymbol[logged]{Symbol: logged{77}, Hash: hash})
		if len(foldLog) > sz {
			c.Fail("hash %x: folded %d times into a sketch of %d cells", hash, len(foldLog), sz)
		}
		var sp []int
		for i := range sk {
			if !cellEmpty(sk[i]) {
				sp = append(sp, i)
			}
		}
		var want []int
		for _, x := range pos {
			if x < sz {
				want = append(want, x)
			}
		}
		if !samePos(sp, want) {
			c.Fail("hash %x: sketch of %d cells places it at %v, the stream at %v", hash, sz, head(sp), head(want))
		}
	}
	id := 1<<62 | vMix(hash)>>3
	force(id, hash)
	s := riblt.HashedSymbol[v64]{Symbol: v64{id}, Hash: hash}
	// a decoder that already has it peels it from every coded symbol
	c.Budget(int64(20*m + 5000))
	{
		var e riblt.Encoder[v64]
		var d riblt.Decoder[v64]
		e.AddHashedSymbol(s)
		d.AddHashedSymbol(s)
		for i := 0; i < m; i++ {
			d.AddCodedSymbol(e.ProduceNextCodedSymbol())
			d.TryDecode()
			if !d.Decoded() || len(d.Local()) != 0 || len(d.Remote()) != 0 {
				c.Fail("hash %x: equal one-element sets do not cancel at coded symbol %d", hash, i)
			}
		}
	}
	// remote-only and local-only, recovered after a varying prefix and peeled
	// from everything received before and after
	for _, side := range []string{"remote", "local"} {
		pre := 1 + c.R.Intn(40)
		if pre > m {
			pre = m
		}
		var e riblt.Encoder[v64]
		var d riblt.Decoder[v64]
		if side == "remote" {
			e.AddHashedSymbol(s)
		} else {
			d.AddHashedSymbol(s)
		}
		for i := 0; i < m; i++ {
			d.AddCodedSymbol(e.ProduceNextCodedSymbol())
			if i+1 < pre {
				continue
			}
			d.TryDecode()
			got := d.Remote()
			other := d.Local()
			if side == "local" {
				got, other = other, got
			}
			if !d.Decoded() || len(other) != 0 || len(got) != 1 || got[0].Symbol.v != id || got[0].Hash != hash {
				c.Fail("hash %x: single %s symbol: after %d coded symbols (first attempt at %d) decoded=%v reported %d/%d", hash, side, i+1, pre, d.Decoded(), len(got), len(other))
			}
		}
	}
	c.Distinct("hash=%x m=%d npos=%d", hash, m, len(pos))
}

func TestVerifC05(t *testing.T) {
	vMain(t, "C05", func(h *vH) {
		ext := extremeHashes()
		for i, x := range ext {
			h.Case(fmt.Sprintf("extreme-%d", i), func(c *vC) { checkHash(c, x, 400) })
		}
		for i := 0; i < h.N(150, 4000); i++ {
			h.Case(fmt.Sprintf("random-%d", i), func(c *vC) { checkHash(c, c.R.Uint64(), 200+c.R.Intn(600)) })
			h.Case(fmt.Sprintf("sparse-%d", i), func(c *vC) {
				x := uint64(1)<<uint(c.R.Intn(64)) ^ uint64(1)<<uint(c.R.Intn(64)) | uint64(c.R.Intn(4))
				checkHash(c, x, 200)
			})
		}
		// long streams: positions into the millions
		for i := 0; i < h.N(16, 120); i++ {
			h.Case(fmt.Sprintf("long-%d", i), func(c *vC) {
				x := c.R.Uint64()
				m := 1500000
				if c.R.Intn(2) == 0 {
					x = ext[c.R.Intn(len(ext))]
				}
				if x == 0 {
					m = 20000
				}
				checkHash(c, x, m)
			})
		}
		// positions do not depend on the company: extreme and ordinary
		// symbols together
		for i := 0; i < h.N(60, 1500); i++ {
			h.Case(fmt.Sprintf("mixed-%d", i), func(c *vC) {
				n := 2 + c.R.Intn(63)
				m := 600
				hashes := make([]uint64, n)
				var enc riblt.Encoder[v64]
				for j := range hashes {
					hashes[j] = c.R.Uint64()
					if c.R.Intn(3) == 0 {
						hashes[j] = ext[c.R.Intn(len(ext))]
					}
				}
				c.Budget(int64(20*m*n + 100000))
				want := make([]uint64, m)
				for j, x := range hashes {
					for _, p := range positions(x, m) {
						want[p] |= 1 << uint(j)
					}
				}
				c.Budget(int64(20*m*n + 100000))
				for _, j := range c.R.Perm(n) {
					enc.AddHashedSymbol(riblt.HashedSymbol[v64]{Symbol: v64{1 << uint(j)}, Hash: hashes[j]})
				}
				for p := 0; p < m; p++ {
					v := viewCell(enc.ProduceNextCodedSymbol())
					if v.ok && v.sum.v != want[p] {
						c.Fail("coded symbol %d of a %d-symbol set holds members %x, alone they would be %x (hashes %x)", p, n, v.sum.v, want[p], hashes)
					}
					c.Seen("mixed_cells", 1)
				}
				c.Distinct("mixed n=%d first=%x", n, hashes[0])
			})
		}
		// density 1/(1+i/2)
		for i := 0; i < h.N(6, 24); i++ {
			h.Case(fmt.Sprintf("density-%d", i), func(c *vC) {
				n, m := 100000, 8192
				cnt := make([]int, m)
				c.Budget(0)
				if viewCell(riblt.CodedSymbol[v64]{}).ok {
					sk := make(riblt.Sketch[v64], m)
					for j := 0; j < n; j++ {
						sk.AddHashedSymbol(riblt.HashedSymbol[v64]{Symbol: v64{1}, Hash: c.R.Uint64()})
					}
					for p := range sk {
						cnt[p] = int(viewCell(sk[p]).count)
					}
				} else { // cell layout unknown: count single-symbol streams
					n = 6000
					for j := 0; j < n; j++ {
						var e riblt.Encoder[v64]
						e.AddHashedSymbol(riblt.HashedSymbol[v64]{Symbol: v64{1}, Hash: c.R.Uint64()})
						for p := 0; p < m; p++ {
							if !cellEmpty(e.ProduceNextCodedSymbol()) {
								cnt[p]++
							}
						}
					}
				}
				lo := 0
				for lo < m {
					hi := lo + 1
					if lo >= 4 {
						hi = lo * 3 / 2
					}
					if hi > m {
						hi = m
					}
					got, want := 0, 0.0
					for p := lo; p < hi; p++ {
						got += cnt[p]
						want += float64(n) / (1 + float64(p)/2)
					}
					tol := 5*math.Sqrt(want) + densSlack(lo)*want
					if math.Abs(float64(got)-want) > tol {
						c.Fail("positions %d..%d: %d of %d random symbols contribute, expected about %.0f (tolerance %.0f)", lo, hi-1, got, n, want, tol)
					}
					c.Max(fmt.Sprintf("dens_dev_permille_at_%04d", lo), int64(1000*math.Abs(float64(got)-want)/want))
					lo = hi
				}
				c.Seen("density_symbols", n)
				c.Distinct("density %v", cnt[:8])
			})
		}
		// and far out
		for i := 0; i < h.N(2, 8); i++ {
			h.Case(fmt.Sprintf("density-far-%d", i), func(c *vC) {
				n, m := 100000, 1<<uint(23+h.N(0, 2))
				c.Budget(0)
				if !viewCell(riblt.CodedSymbol[nothing]{}).ok {
					return
				}
				sk := make(riblt.Sketch[nothing], m)
				for j := 0; j < n; j++ {
					sk.AddHashedSymbol(riblt.HashedSymbol[nothing]{Hash: c.R.Uint64()})
				}
				for lo := 1000; lo < m; {
					hi := lo * 5 / 4
					if hi > m*4/5 {
						hi = m
					}
					got, want := 0, 2*float64(n)*math.Log((float64(hi)+1.5)/(float64(lo)+1.5))
					for p := lo; p < hi; p++ {
						got += int(viewCell(sk[p]).count)
					}
					// symbols with several positions in the range make the count vary more
					if tol := 9*math.Sqrt(want) + 0.02*want; math.Abs(float64(got)-want) > tol {
						c.Fail("positions %d..%d: %d contributions of %d random symbols, expected about %.0f (tolerance %.0f)", lo, hi-1, got, n, want, tol)
					}
					c.Max(fmt.Sprintf("dens_dev_permille_at_%08d", lo), int64(1000*math.Abs(float64(got)-want)/want))
					lo = hi
				}
				c.Seen("far_density_symbols", n)
				c.Distinct("far %d", c.R.Int63())
			})
		}
	})
}

type nothing struct{}

func (nothing) XOR(nothing) nothing { return nothing{} }
func (nothing) Hash() uint64        { return 0 }

func densSlack(lo int) float64 {
	if lo < 4 {
		return 0.065
	}
	return 0.02
}
