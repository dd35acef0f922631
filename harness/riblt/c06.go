package VPKG

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/yangl1996/rateless-set-reconcile/riblt"
)

func runC06[T riblt.Symbol[T]](c *vC, k kit[T]) {
	var enc riblt.Encoder[T]
	var dec riblt.Decoder[T]
	rounds := 2 + c.R.Intn(6)
	sig := ""
	for round := 0; round < rounds; round++ {
		nl, nr, nc := c.R.Intn(40), c.R.Intn(40), c.R.Intn(60)
		if c.R.Intn(4) == 0 {
			nl, nr = c.R.Intn(4), c.R.Intn(4)
		}
		if c.R.Intn(10) == 0 {
			nl, nr, nc = 0, 0, 0
		}
		in := mkInst(k, c.R, nl, nr, nc)
		c.Budget(int64(3000 * (nl + nr + nc + 40)))
		judged := round > 0 // the instance has been reset before
		var fe riblt.Encoder[T]
		var fd riblt.Decoder[T]
		rem, loc := shuffled(c.R, in.remote, in.common), shuffled(c.R, in.local, in.common)
		for _, s := range rem {
			enc.AddSymbol(s)
			fe.AddSymbol(s)
		}
		for _, s := range loc {
			dec.AddSymbol(s)
			fd.AddSymbol(s)
		}
		if dec.Decoded() != fd.Decoded() || len(dec.Remote()) != len(fd.Remote()) || len(dec.Local()) != len(fd.Local()) {
			c.Fail("round %d: before any coded symbol the reused decoder reports decoded=%v %d/%d, a fresh one %v %d/%d", round, dec.Decoded(), len(dec.Remote()), len(dec.Local()), fd.Decoded(), len(fd.Remote()), len(fd.Local()))
		}
		steps := c.R.Intn(2*(nl+nr) + 20)
		every := 1 + c.R.Intn(6)
		src := c.R.Intn(3)
		sent := 0
		for i := 0; i < steps; i++ {
			a, b := enc.ProduceNextCodedSymbol(), fe.ProduceNextCodedSymbol()
			if !reflect.DeepEqual(a, b) {
				c.Fail("round %d: coded symbol %d of the reused encoder is %s, of a fresh one %s", round, i, cellStr(k, a), cellStr(k, b))
			}
			// pointer sums are consumed by the decoder: give each its own
			if src == 0 {
				dec.AddCodedSymbol(a)
				fd.AddCodedSymbol(b)
			} else {
				dec.AddCodedSymbol(b)
				fd.AddCodedSymbol(a)
			}
			sent++
			if i%every == 0 || i == steps-1 && c.R.Intn(2) == 0 {
				dec.TryDecode()
				fd.TryDecode()
				if dec.Decoded() != fd.Decoded() || strings.Join(keysOf(k, dec.Remote()), " ") != strings.Join(keysOf(k, fd.Remote()), " ") || strings.Join(keysOf(k, dec.Local()), " ") != strings.Join(keysOf(k, fd.Local()), " ") {
					c.Fail("round %d, after %d coded symbols: reused decoder decoded=%v %v/%v, fresh decoder %v %v/%v", round, i+1, dec.Decoded(), keysOf(k, dec.Remote()), keysOf(k, dec.Local()), fd.Decoded(), keysOf(k, fd.Remote()), keysOf(k, fd.Local()))
				}
				if judged {
					c.Seen("comparisons_after_reset", 1)
				}
			}
		}
		if !dec.Decoded() {
			c.Seen("reset_with_work_outstanding", 1)
		}
		if sent > 0 && c.R.Intn(3) == 0 { // leave undecoded arrivals behind
			dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
		}
		sig += fmt.Sprintf("%d/%d/%d:%d ", nl, nr, nc, steps)
		enc.Reset()
		dec.Reset()
		if c.R.Intn(8) == 0 {
			enc.Reset()
			dec.Reset()
		}
		c.Seen("resets", 2)
	}
	c.Distinct("%s %s", k.name, sig)
}

func TestVerifC06(t *testing.T) {
	vMain(t, "C06", func(h *vH) {
		for i := 0; i < h.N(700, 12000); i++ {
			h.Case(fmt.Sprintf("hist-%d", i), func(c *vC) {
				switch i % 3 {
				case 0:
					runC06(c, kitP)
				case 1:
					runC06(c, kitW)
				default:
					runC06(c, kitV)
				}
			})
		}
		// a big history followed by small ones
		for i := 0; i < h.N(8, 40); i++ {
			h.Case(fmt.Sprintf("big-%d", i), func(c *vC) {
				var enc, fe riblt.Encoder[v64]
				var dec, fd riblt.Decoder[v64]
				// up to tens of thousands of coded symbols, stopped before the end
				nl, nr, nc, most := 3000, 3000, 20000, 12000
				if i%4 >= 2 {
					nl, nr, nc, most = 25000*(i%2), 25000+c.R.Intn(10000), 5000, 70000
				}
				in := mkInst(kitV, c.R, nl, nr, nc)
				for _, s := range shuffled(c.R, in.remote, in.common) {
					enc.AddSymbol(s)
				}
				for _, s := range shuffled(c.R, in.local, in.common) {
					dec.AddSymbol(s)
				}
				n := c.R.Intn(most)
				if i%4 == 2 {
					n = 17000 + c.R.Intn(15000)
				}
				for j := 0; j < n; j++ {
					dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
					if j%500 == 0 {
						dec.TryDecode()
						vTick()
					}
				}
				if i%2 == 0 {
					dec.TryDecode()
				}
				c.Max("coded_symbols_before_reset", int64(n))
				if !dec.Decoded() {
					c.Seen("reset_with_work_outstanding", 1)
				}
				enc.Reset()
				dec.Reset()
				if dec.Decoded() != fd.Decoded() || len(dec.Remote())+len(dec.Local()) != 0 {
					c.Fail("after a history of %d coded symbols: just reset, decoded=%v with %d/%d symbols", n, dec.Decoded(), len(dec.Remote()), len(dec.Local()))
				}
				sm := mkInst(kitV, c.R, 30, 30, 100)
				for _, s := range shuffled(c.R, sm.remote, sm.common) {
					enc.AddSymbol(s)
					fe.AddSymbol(s)
				}
				for _, s := range shuffled(c.R, sm.local, sm.common) {
					dec.AddSymbol(s)
					fd.AddSymbol(s)
				}
				for j := 0; j < 300; j++ {
					a, b := enc.ProduceNextCodedSymbol(), fe.ProduceNextCodedSymbol()
					if a != b {
						c.Fail("after a history of %d coded symbols: coded symbol %d is %s, fresh %s", n, j, cellStr(kitV, a), cellStr(kitV, b))
					}
					dec.AddCodedSymbol(a)
					fd.AddCodedSymbol(b)
					dec.TryDecode()
					fd.TryDecode()
					if dec.Decoded() != fd.Decoded() || len(dec.Remote()) != len(fd.Remote()) || len(dec.Local()) != len(fd.Local()) {
						c.Fail("after a history of %d: at coded symbol %d reused decoder %v %d/%d, fresh %v %d/%d", n, j, dec.Decoded(), len(dec.Remote()), len(dec.Local()), fd.Decoded(), len(fd.Remote()), len(fd.Local()))
					}
					c.Seen("comparisons_after_reset", 1)
				}
				c.Distinct("big %d", n)
			})
		}
	})
}
