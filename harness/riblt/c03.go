package VPKG

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/yangl1996/rateless-set-reconcile/riblt"
)

func runC03[T riblt.Symbol[T]](c *vC, k kit[T], n, m int) {
	runC03set(c, k, mkInst(k, c.R, n, 0, 0).local, m)
}

func runC03set[T riblt.Symbol[T]](c *vC, k kit[T], set []T, m int) {
	n := len(set)
	c.Budget(int64(400*(n+10)+300*m) * 6)
	mkStream := func(s []T, mm int) []riblt.CodedSymbol[T] {
		var e riblt.Encoder[T]
		addTo(c.R, e.AddSymbol, e.AddHashedSymbol, s)
		o := make([]riblt.CodedSymbol[T], mm)
		for i := range o {
			o[i] = e.ProduceNextCodedSymbol()
		}
		return o
	}
	eq := func(what string, a, b []riblt.CodedSymbol[T]) {
		for i := range a {
			if !reflect.DeepEqual(a[i], b[i]) {
				// a never-touched pointer sum may be nil or zero
				x, y := viewCell(a[i]), viewCell(b[i])
				if x.ok && y.ok && x.count == y.count && x.check == y.check && x.count == 0 && x.check == 0 && zeroSum(x.sum) && zeroSum(y.sum) {
					continue
				}
				c.Fail("%s: cell %d of %d differs: %s versus %s (set of %d)", what, i, len(a), cellStr(k, a[i]), cellStr(k, b[i]), n)
			}
		}
		c.Seen("cells_compared", len(a))
	}
	base := mkStream(set, m)
	for r := 0; r < 2; r++ {
		eq("another insertion order", base, mkStream(shuffled(c.R, set), m))
	}
	// sketches of several sizes are prefixes of the stream
	for _, sz := range []int{m, 1 + c.R.Intn(m), 1} {
		sk := make(riblt.Sketch[T], sz)
		addTo(c.R, sk.AddSymbol, sk.AddHashedSymbol, shuffled(c.R, set))
		eq(fmt.Sprintf("sketch of %d cells", sz), sk, base[:sz])
	}
	// every cell is the fold of exactly the members mapped to it
	cnt := make([]int64, m)
	chk := make([]uint64, m)
	sum := make([]T, m)
	for _, s := range set {
		hh := s.Hash()
		for _, p := range positions(hh, m) {
			cnt[p]++
			chk[p] ^= hh
			sum[p] = sum[p].XOR(s)
		}
	}
	for i := range base {
		v := viewCell(base[i])
		if !v.ok {
			c.Seen("layout_unknown", 1)
			break
		}
		if v.count != cnt[i] || v.check != chk[i] || (cnt[i] != 0 && k.key(v.sum) != k.key(sum[i])) {
			c.Fail("cell %d of the stream of %d symbols is %s; its %d members fold to {%s h=%x}", i, n, cellStr(k, base[i]), cnt[i], k.key(sum[i]), chk[i])
		}
		c.Seen("cells_folded", 1)
	}
	// disjoint union adds up (through independent streams of the parts)
	cut := c.R.Intn(n + 1)
	A, B := mkStream(set[:cut], m), mkStream(set[cut:], m)
	for i := range base {
		v, a, b := viewCell(base[i]), viewCell(A[i]), viewCell(B[i])
		if !v.ok {
			break
		}
		ks := k.key(v.sum)
		var z T
		x := z
		if a.count != 0 {
			x = x.XOR(a.sum)
		}
		if b.count != 0 {
			x = x.XOR(b.sum)
		}
		if v.count != a.count+b.count || v.check != a.check^b.check || v.count != 0 && ks != k.key(x) {
			c.Fail("cell %d: stream of a union is %s, parts are %s and %s", i, cellStr(k, base[i]), cellStr(k, A[i]), cellStr(k, B[i]))
		}
	}
	c.Seen("streams", 3)
	if n > 0 {
		c.Distinct("type=%s n=%d m=%d cut=%d first=%x", k.name, n, m, cut, set[0].Hash())
	}
}

func zeroSum[T any](a T) bool {
	v := reflect.ValueOf(a)
	if v.Kind() == reflect.Pointer {
		return v.IsNil() || v.Elem().IsZero()
	}
	return v.IsZero()
}

func TestVerifC03(t *testing.T) {
	vMain(t, "C03", func(h *vH) {
		for i := 0; i < h.N(250, 4000); i++ {
			h.Case(fmt.Sprintf("rand-%d", i), func(c *vC) {
				n := []int{0, 1, 2, 3, 5, 17, 60, 400}[c.R.Intn(8)]
				m := []int{1, 2, 5, 30, 100, 700}[c.R.Intn(6)]
				switch i % 4 {
				case 0:
					runC03(c, kitP, n, m)
				case 1:
					runC03(c, kitW, n, m)
				case 2:
					runC03(c, kitO, n, m)
				default:
					runC03(c, kitV, n, m)
				}
			})
		}
		// different symbols may have the same hash
		for i := 0; i < h.N(60, 600); i++ {
			h.Case(fmt.Sprintf("collide-%d", i), func(c *vC) {
				n := []int{2, 3, 8, 40, 200}[c.R.Intn(5)]
				pool := []uint64{c.R.Uint64()}
				for len(pool) < 1+c.R.Intn(n) {
					pool = append(pool, []uint64{0, 1, 1 << 63, ^uint64(0), c.R.Uint64(), c.R.Uint64(), c.R.Uint64()}[c.R.Intn(7)])
				}
				set := make([]v64, n)
				for j := range set {
					set[j] = v64{c.R.Uint64()}
					force(set[j].v, pool[c.R.Intn(len(pool))])
				}
				runC03set(c, kitV, set, []int{1, 5, 30, 300}[c.R.Intn(4)])
				c.Seen("colliding_sets", 1)
			})
		}
		for i, s := range [][2]int{{3000, 4000}, {100, 60000}, {70000, 300}, {20000, 3000}, {1, 70000}} {
			h.Case(fmt.Sprintf("large-%d", i), func(c *vC) { runC03(c, kitV, s[0], s[1]) })
		}
	})
}
