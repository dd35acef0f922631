package VPKG

import (
	"fmt"
	"strings"
	"sync"
	"testing"

	"github.com/yangl1996/rateless-set-reconcile/riblt"
)

type snap[T riblt.Symbol[T]] struct {
	k    kit[T]
	what []string
	obj  []T
	want []string
	cs   []riblt.CodedSymbol[T]
	cw   []string
	ls   [][]riblt.HashedSymbol[T]
	lw   [][]string
}

// holdList keeps a returned list.
func (s *snap[T]) holdList(l []riblt.HashedSymbol[T]) {
	s.ls = append(s.ls, l)
	s.lw = append(s.lw, s.listed(l))
}

func (s *snap[T]) listed(l []riblt.HashedSymbol[T]) (o []string) {
	for _, x := range l {
		o = append(o, fmt.Sprintf("%s/%x", s.k.key(x.Symbol), x.Hash))
	}
	return
}

func (s *snap[T]) hold(what string, o T) {
	s.what = append(s.what, what)
	s.obj = append(s.obj, o)
	s.want = append(s.want, s.k.key(o))
}
func (s *snap[T]) holdCell(c riblt.CodedSymbol[T]) {
	s.cs = append(s.cs, c)
	s.cw = append(s.cw, cellStr(s.k, c))
}
func (s *snap[T]) verify(c *vC, when string) {
	for i, o := range s.obj {
		if g := s.k.key(o); g != s.want[i] {
			c.Fail("%s: %s changed from %s to %s", when, s.what[i], s.want[i], g)
		}
	}
	for i, o := range s.cs {
		if g := cellStr(s.k, o); g != s.cw[i] {
			c.Fail("%s: coded symbol %d produced earlier changed from %s to %s", when, i, s.cw[i], g)
		}
	}
	for i, l := range s.ls {
		for j, g := range s.listed(l) {
			if g != s.lw[i][j] {
				c.Fail("%s: symbol %d of result %d changed from %s to %s", when, j, i, s.lw[i][j], g)
			}
		}
	}
	c.Seen("immutability_checks", len(s.obj)+len(s.cs))
}

func runC07[T riblt.Symbol[T]](c *vC, k kit[T]) {
	nl, nr, nc := c.R.Intn(30), c.R.Intn(30), c.R.Intn(40)
	in := mkInst(k, c.R, nl, nr, nc)
	c.Budget(int64(6000 * (nl + nr + nc + 40)))
	sn := &snap[T]{k: k}
	for _, g := range [][]T{in.local, in.remote, in.common} {
		for _, s := range g {
			sn.hold("an added symbol", s)
		}
	}
	var enc, enc2 riblt.Encoder[T]
	var dec riblt.Decoder[T]
	rs, ls := shuffled(c.R, in.remote, in.common), shuffled(c.R, in.local, in.common)
	addTo(c.R, enc.AddSymbol, enc.AddHashedSymbol, rs)
	addTo(c.R, enc2.AddSymbol, enc2.AddHashedSymbol, rs)
	addTo(c.R, dec.AddSymbol, dec.AddHashedSymbol, ls)
	m := 2*(nl+nr) + 10
	sk, sk2 := make(riblt.Sketch[T], m), make(riblt.Sketch[T], m)
	addTo(c.R, sk.AddSymbol, sk.AddHashedSymbol, rs)
	addTo(c.R, sk2.AddSymbol, sk2.AddHashedSymbol, ls)
	sn.verify(c, "after adding to encoders, a decoder and sketches")
	nL, nR := 0, 0
	for i := 0; i < m; i++ {
		sn.holdCell(enc2.ProduceNextCodedSymbol()) // kept by the caller
		dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
		if c.R.Intn(3) == 0 || i == m-1 {
			dec.TryDecode()
			R, L := dec.Remote(), dec.Local()
			for ; nR < len(R); nR++ {
				sn.hold("a reported remote symbol", R[nR].Symbol)
				c.Seen("reported_symbols_tracked", 1)
			}
			for ; nL < len(L); nL++ {
				sn.hold("a reported local symbol", L[nL].Symbol)
				c.Seen("reported_symbols_tracked", 1)
			}
		}
		if i%7 == 0 || i == m-1 {
			sn.verify(c, fmt.Sprintf("after %d coded symbols", i+1))
		}
	}
	R, L, _ := sk.Subtract(sk2).Decode()
	sn.holdList(R)
	sn.holdList(L)
	// other sketches, some of them large, decoded while the results are kept
	for r := 1 + c.R.Intn(4); r > 0; r-- {
		o, o2 := make(riblt.Sketch[T], 5+c.R.Intn(60)*(1+c.R.Intn(2)*60)), riblt.Sketch[T](nil)
		o2 = make(riblt.Sketch[T], len(o))
		if c.R.Intn(3) > 0 {
			addTo(c.R, o.AddSymbol, o.AddHashedSymbol, rs[:c.R.Intn(len(rs)+1)])
		}
		addTo(c.R, o2.AddSymbol, o2.AddHashedSymbol, ls[:c.R.Intn(len(ls)+1)])
		a, b, _ := o.Subtract(o2).Decode()
		sn.holdList(a)
		sn.holdList(b)
		c.Seen("results_kept", 2)
	}
	for _, x := range R {
		sn.hold("a symbol returned by sketch decoding", x.Symbol)
	}
	for _, x := range L {
		sn.hold("a symbol returned by sketch decoding", x.Symbol)
	}
	sn.verify(c, "after sketch decoding")
	// use the reported symbols as inputs of further coding and reset
	var e3 riblt.Encoder[T]
	for _, x := range dec.Remote() {
		e3.AddHashedSymbol(x)
	}
	for i := 0; i < 10; i++ {
		e3.ProduceNextCodedSymbol()
	}
	dec.Reset()
	enc.Reset()
	for i := 0; i < 10; i++ {
		dec.AddSymbol(k.mk(c.R.Uint64()))
	}
	for _, s := range in.remote {
		enc.AddSymbol(s)
	}
	for i := 0; i < 30; i++ {
		dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
		dec.TryDecode()
	}
	sn.verify(c, "after reset and reuse")
	c.Distinct("%s %d/%d/%d", k.name, nl, nr, nc)
}

// concurrent independent instances over shared symbol objects
func concC07[T riblt.Symbol[T]](c *vC, k kit[T], workers int) {
	nl, nr, nc := c.R.Intn(60), c.R.Intn(60), c.R.Intn(200)
	in := mkInst(k, c.R, nl, nr, nc)
	rs, ls := shuffled(c.R, in.remote, in.common), shuffled(c.R, in.local, in.common)
	m := 3*(nl+nr) + 40
	one := func() string {
		var enc riblt.Encoder[T]
		var dec riblt.Decoder[T]
		for _, s := range rs {
			enc.AddSymbol(s)
		}
		for _, s := range ls {
			dec.AddSymbol(s)
		}
		o := ""
		for i := 0; i < m; i++ {
			cs := enc.ProduceNextCodedSymbol()
			o += cellStr(k, cs)
			dec.AddCodedSymbol(cs)
			if i%3 == 0 {
				dec.TryDecode()
			}
		}
		dec.TryDecode()
		o += fmt.Sprint(dec.Decoded()) + strings.Join(keysOf(k, dec.Remote()), " ") + "/" + strings.Join(keysOf(k, dec.Local()), " ")
		a, b := make(riblt.Sketch[T], m), make(riblt.Sketch[T], m)
		for _, s := range rs {
			a.AddSymbol(s)
		}
		for _, s := range ls {
			b.AddSymbol(s)
		}
		R, L, ok := a.Subtract(b).Decode()
		return o + fmt.Sprint(ok) + strings.Join(keysOf(k, R), " ") + "/" + strings.Join(keysOf(k, L), " ")
	}
	alone := one()
	res := make([]string, workers)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) { defer wg.Done(); <-start; res[w] = one() }(w)
	}
	close(start)
	wg.Wait()
	for w := range res {
		if res[w] != alone {
			c.Fail("instance %d of %d running concurrently gave a different result than alone", w, workers)
		}
	}
	c.Seen("concurrent_instances", workers)
	c.Distinct("conc %s %d/%d/%d", k.name, nl, nr, nc)
}

func TestVerifC07(t *testing.T) {
	vMain(t, "C07", func(h *vH) {
		n := h.N(160, 3000)
		if vMode() == "race" {
			n = h.N(24, 300)
		}
		for i := 0; i < n; i++ {
			h.Case(fmt.Sprintf("mut-%d", i), func(c *vC) {
				if i%4 == 0 {
					runC07(c, kitW)
				} else {
					runC07(c, kitP)
				}
			})
		}
		m := h.N(24, 300)
		for i := 0; i < m; i++ {
			h.Case(fmt.Sprintf("conc-%d", i), func(c *vC) {
				if i%4 == 0 {
					concC07(c, kitV, 6)
				} else {
					concC07(c, kitP, 6)
				}
			})
		}
	})
}
