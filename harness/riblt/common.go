package VPKG

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"sync"
	"unsafe"

	"github.com/yangl1996/rateless-set-reconcile/riblt"
)

// ---- symbol types -------------------------------------------------------

// forced maps symbol contents to prescribed hashes (adversarial hash values).
var forcedMu sync.RWMutex
var forced = map[uint64]uint64{}

func force(id, hash uint64) {
	forcedMu.Lock()
	forced[id] = hash
	forcedMu.Unlock()
}

// v64: one-word value symbol.
type v64 struct{ v uint64 }

func (a v64) XOR(b v64) v64 { vTick(); return v64{a.v ^ b.v} }
func (a v64) Hash() uint64 {
	vTick()
	forcedMu.RLock()
	h, ok := forced[a.v]
	forcedMu.RUnlock()
	if ok {
		return h
	}
	return vMix(a.v ^ 0x5bd1e995)
}

// wide: 40-byte value symbol, identity in every word.
type wide struct{ w [5]uint64 }

func (a wide) XOR(b wide) wide {
	vTick()
	for i := range a.w {
		a.w[i] ^= b.w[i]
	}
	return a
}
func (a wide) Hash() uint64 {
	vTick()
	h := uint64(14695981039346656037)
	for _, x := range a.w {
		h = vMix(h ^ x)
	}
	return h
}

// odd: 3-byte value symbol (sizes that are not a multiple of the word size).
type odd [3]byte

func (a odd) XOR(b odd) odd {
	vTick()
	for i := range a {
		a[i] ^= b[i]
	}
	return a
}
func (a odd) Hash() uint64 {
	vTick()
	return vMix(uint64(a[0])|uint64(a[1])<<8|uint64(a[2])<<16|0xabc<<40)
}

// ptr: pointer symbol whose XOR mutates its receiver in place; as the
// interface promises, only the receiver may be the default value.
type pdata [24]byte
type ptr = *pdata

func (a *pdata) XOR(b *pdata) *pdata {
	vTick()
	if a == nil {
		a = &pdata{}
	}
	for i := range a {
		a[i] ^= b[i]
	}
	return a
}
func (a *pdata) Hash() uint64 {
	vTick()
	h := uint64(99)
	for i := 0; i < 24; i += 8 {
		h = vMix(h ^ *(*uint64)(unsafe.Pointer(&a[i])))
	}
	return h
}

type kit[T riblt.Symbol[T]] struct {
	name string
	mk   func(id uint64) T
	key  func(T) string // full content
}

var kitV = kit[v64]{"v64", func(i uint64) v64 { return v64{i} }, func(a v64) string { return fmt.Sprint(a.v) }}
var kitW = kit[wide]{"wide", func(i uint64) wide {
	var w wide
	for k := range w.w {
		w.w[k] = vMix(i*7 + uint64(k))
	}
	return w
}, func(a wide) string { return fmt.Sprint(a.w) }}
var kitO = kit[odd]{"odd3", func(i uint64) odd { return odd{byte(i), byte(i >> 8), byte(i >> 16)} }, func(a odd) string { return fmt.Sprint([3]byte(a)) }}
var kitP = kit[ptr]{"ptr24", func(i uint64) ptr {
	p := &pdata{}
	for k := range p {
		p[k] = byte(vMix(i*31+uint64(k)) >> 17)
	}
	*(*uint64)(unsafe.Pointer(&p[0])) = i
	return p
}, func(a ptr) string {
	if a == nil {
		return "<nil>"
	}
	return fmt.Sprint([24]byte(*a))
}}

// ---- reading coded symbols without naming their fields ------------------

type cellView[T any] struct {
	sum   T
	count int64
	check uint64
	ok    bool
}

func viewCell[T riblt.Symbol[T]](c riblt.CodedSymbol[T]) (r cellView[T]) {
	v := reflect.ValueOf(&c).Elem()
	if v.Kind() != reflect.Struct {
		return
	}
	var nT, nI, nU int
	tt := reflect.TypeOf((*T)(nil)).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch {
		case f.Type() == tt:
			nT++
			r.sum = *(*T)(unsafe.Pointer(f.UnsafeAddr()))
		case f.CanInt():
			nI++
			r.count = f.Int()
		case f.Kind() == reflect.Uint64:
			nU++
			r.check = f.Uint()
		}
	}
	r.ok = nT == 1 && nI == 1 && nU == 1
	return
}

func cellEmpty[T riblt.Symbol[T]](c riblt.CodedSymbol[T]) bool { return reflect.ValueOf(c).IsZero() }

func cellStr[T riblt.Symbol[T]](k kit[T], c riblt.CodedSymbol[T]) string {
	if v := viewCell(c); v.ok {
		return fmt.Sprintf("{%s n=%d h=%x}", k.key(v.sum), v.count, v.check)
	}
	return fmt.Sprintf("%+v", c)
}

// ---- positions of a hash, learned from the real single-symbol stream ----

var posMu sync.Mutex
var posCache = map[[2]uint64][]int{}

// positions returns the coded-symbol positions < m of a symbol with the given
// hash, as the implementation's own single-symbol encoder places them.
func positions(hash uint64, m int) []int {
	key := [2]uint64{hash, uint64(m)}
	posMu.Lock()
	p, ok := posCache[key]
	posMu.Unlock()
	if ok {
		return p
	}
	e := riblt.Encoder[v64]{}
	e.AddHashedSymbol(riblt.HashedSymbol[v64]{Symbol: v64{^uint64(0)}, Hash: hash})
	p = []int{}
	for i := 0; i < m; i++ {
		if !cellEmpty(e.ProduceNextCodedSymbol()) {
			p = append(p, i)
		}
	}
	posMu.Lock()
	if len(posCache) > 200000 {
		posCache = map[[2]uint64][]int{}
	}
	posCache[key] = p
	posMu.Unlock()
	return p
}

// ---- instances ----------------------------------------------------------

type inst[T riblt.Symbol[T]] struct {
	k                     kit[T]
	local, remote, common []T
	wantL, wantR          map[string]uint64 // content -> hash
}

// mkInst draws sets with distinct contents.
func mkInst[T riblt.Symbol[T]](k kit[T], r *rand.Rand, nl, nr, nc int) *inst[T] {
	in := &inst[T]{k: k, wantL: map[string]uint64{}, wantR: map[string]uint64{}}
	used := map[uint64]bool{}
	base := uint64(r.Int63())
	seq := r.Intn(3) == 0 // sometimes consecutive ids
	gen := func() T {
		for {
			var id uint64
			if seq {
				id = base + uint64(len(used))
			} else {
				id = r.Uint64()
			}
			if k.name == "odd3" {
				id = id & 0xffffff
			}
			if used[id] {
				if seq && k.name == "odd3" {
					seq = false
				}
				continue
			}
			used[id] = true
			return k.mk(id)
		}
	}
	for i := 0; i < nl; i++ {
		s := gen()
		in.local = append(in.local, s)
		in.wantL[k.key(s)] = s.Hash()
	}
	for i := 0; i < nr; i++ {
		s := gen()
		in.remote = append(in.remote, s)
		in.wantR[k.key(s)] = s.Hash()
	}
	for i := 0; i < nc; i++ {
		in.common = append(in.common, gen())
	}
	return in
}

func shuffled[T any](r *rand.Rand, a ...[]T) []T {
	var o []T
	for _, x := range a {
		o = append(o, x...)
	}
	r.Shuffle(len(o), func(i, j int) { o[i], o[j] = o[j], o[i] })
	return o
}

func addTo[T riblt.Symbol[T]](r *rand.Rand, add func(T), addH func(riblt.HashedSymbol[T]), s []T) {
	mode := r.Intn(3)
	for _, x := range s {
		if mode == 0 || (mode == 2 && r.Intn(2) == 0) {
			add(x)
		} else {
			addH(riblt.HashedSymbol[T]{Symbol: x, Hash: x.Hash()})
		}
	}
}

// checkSound: everything reported is genuine, exact, and reported once.
func (in *inst[T]) checkSound(c *vC, what string, got []riblt.HashedSymbol[T], want map[string]uint64) {
	seen := make(map[string]bool, len(got))
	for _, g := range got {
		kk := in.k.key(g.Symbol)
		h, ok := want[kk]
		if !ok {
			c.Fail("%s: reported symbol %s (hash %x) is not in that half of the difference", what, kk, g.Hash)
		}
		if h != g.Hash {
			c.Fail("%s: symbol %s reported with hash %x, its hash is %x", what, kk, g.Hash, h)
		}
		if seen[kk] {
			c.Fail("%s: symbol %s reported twice", what, kk)
		}
		seen[kk] = true
	}
}

func keysOf[T riblt.Symbol[T]](k kit[T], a []riblt.HashedSymbol[T]) []string {
	o := make([]string, 0, len(a))
	for _, x := range a {
		o = append(o, fmt.Sprintf("%s#%x", k.key(x.Symbol), x.Hash))
	}
	sort.Strings(o)
	return o
}

// ---- reference peeling decoder -------------------------------------------

// refPeel knows the true difference and the positions, and peels cells that
// hold exactly one unrecovered symbol.
type refPeel struct {
	m     int // cells received
	pos   [][]int
	cells [][]int32 // symbol indices per cell (superset of remaining)
	rem   []int
	rec   []bool
	nrec  int
	left  int // non-empty cells among the received ones
	work  []int
}

// bag: a symbol whose sum is the list of the symbols folded in; one encoder
// over bags reveals the members of every coded symbol.
type bag []int32

func (a bag) XOR(b bag) bag { return append(a, b...) }
func (a bag) Hash() uint64  { return 0 }

// newRefPeelBag is newRefPeel for large inputs: linear in the number of
// (symbol, position) pairs.
func newRefPeelBag(hashes []uint64, max int) *refPeel {
	p := &refPeel{cells: make([][]int32, max), rem: make([]int, max), rec: make([]bool, len(hashes)), pos: make([][]int, len(hashes))}
	var e riblt.Encoder[bag]
	for i, h := range hashes {
		e.AddHashedSymbol(riblt.HashedSymbol[bag]{Symbol: bag{int32(i)}, Hash: h})
	}
	for x := 0; x < max; x++ {
		v := viewCell(e.ProduceNextCodedSymbol())
		p.cells[x] = v.sum
		p.rem[x] = len(v.sum)
		for _, s := range v.sum {
			p.pos[s] = append(p.pos[s], x)
		}
	}
	return p
}

func newRefPeel(hashes []uint64, max int) *refPeel {
	p := &refPeel{cells: make([][]int32, max), rem: make([]int, max), rec: make([]bool, len(hashes))}
	for i, h := range hashes {
		ps := positions(h, max)
		p.pos = append(p.pos, ps)
		for _, x := range ps {
			p.cells[x] = append(p.cells[x], int32(i))
			p.rem[x]++
		}
	}
	return p
}

func (p *refPeel) add() {
	if p.rem[p.m] > 0 {
		p.left++
	}
	if p.rem[p.m] == 1 {
		p.work = append(p.work, p.m)
	}
	p.m++
}

func (p *refPeel) peel() {
	for len(p.work) > 0 {
		x := p.work[len(p.work)-1]
		p.work = p.work[:len(p.work)-1]
		if p.rem[x] != 1 {
			continue
		}
		for _, s := range p.cells[x] {
			if p.rec[s] {
				continue
			}
			p.rec[s] = true
			p.nrec++
			for _, y := range p.pos[s] {
				p.rem[y]--
				if y < p.m {
					if p.rem[y] == 0 {
						p.left--
					} else if p.rem[y] == 1 {
						p.work = append(p.work, y)
					}
				}
			}
			break
		}
	}
}
