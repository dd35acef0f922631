package VPKG

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"reflect"
	"sync"
	"unsafe"

	lt "github.com/yangl1996/rateless-set-reconcile/LTPKG"
)

// ---- transaction data types ---------------------------------------------

// vdat: value-typed data; the hash is its content.
type vdat [2]uint64

func (a vdat) XOR(b vdat) vdat { vTick(); a[0] ^= b[0]; a[1] ^= b[1]; return a }
func (a vdat) Hash() []byte {
	vTick()
	var b [16]byte
	binary.LittleEndian.PutUint64(b[:], a[0])
	binary.LittleEndian.PutUint64(b[8:], a[1])
	return b[:]
}

// pdat: pointer-typed data whose XOR works in place; the hash is a digest.
type pdata [40]byte
type pdat = *pdata

func (a *pdata) XOR(b *pdata) *pdata {
	vTick()
	if a == nil {
		a = &pdata{}
	}
	for i := range a {
		a[i] ^= b[i]
	}
	return a
}
func (a *pdata) Hash() []byte {
	vTick()
	h := uint64(7)
	for i := 0; i < 40; i += 8 {
		h = vMix(h ^ binary.LittleEndian.Uint64(a[i:]))
	}
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], h)
	return b[:]
}

type kit[T lt.TransactionData[T]] struct {
	name string
	mk   func(id uint64) T // always a fresh object
	key  func(T) string
}

var kitV = kit[vdat]{"value16", func(i uint64) vdat { return vdat{i, vMix(i)} }, func(a vdat) string { return fmt.Sprintf("%x.%x", a[0], a[1]) }}
var kitP = kit[pdat]{"ptr40", func(i uint64) pdat {
	p := &pdata{}
	for k := range p {
		p[k] = byte(vMix(i*131+uint64(k)) >> 23)
	}
	binary.LittleEndian.PutUint64(p[:], i)
	return p
}, func(a pdat) string {
	if a == nil {
		return "<nil>"
	}
	return fmt.Sprintf("%x", a[:])
}}

// ---- codeword access without naming its fields ---------------------------

func cwFields[T lt.TransactionData[T]](c *lt.Codeword[T]) (sym *T, mem *[]uint32) {
	v := reflect.ValueOf(c).Elem()
	tt := reflect.TypeOf((*T)(nil)).Elem()
	tm := reflect.TypeOf([]uint32(nil))
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == tt {
			sym = (*T)(unsafe.Pointer(f.UnsafeAddr()))
		}
		if f.Type() == tm {
			mem = (*[]uint32)(unsafe.Pointer(f.UnsafeAddr()))
		}
	}
	return
}

// copyCW gives a decoder its own copy of a codeword.
func copyCW[T lt.TransactionData[T]](c lt.Codeword[T]) lt.Codeword[T] {
	d := c
	s, m := cwFields(&d)
	var z T
	cs, cm := cwFields(&c)
	*s = z.XOR(*cs)
	*m = append([]uint32(nil), *cm...)
	return d
}

func mkCW[T lt.TransactionData[T]](sym T, members []uint32) lt.Codeword[T] {
	var c lt.Codeword[T]
	s, m := cwFields(&c)
	*s, *m = sym, members
	return c
}

// ---- scripted degrees -----------------------------------------------------

type scripted struct {
	f     func() uint64
	draws int
	last  uint64
}

func (s *scripted) Uint64() uint64 { s.draws++; s.last = s.f(); return s.last }

func degrees(r *rand.Rand, max int) *scripted {
	kind := r.Intn(4)
	return &scripted{f: func() uint64 {
		switch kind {
		case 0: // soliton-like
			k := 1 + r.Intn(max)
			d := max / k
			if d < 1 {
				d = 1
			}
			return uint64(d)
		case 1:
			return uint64(1 + r.Intn(3))
		case 2:
			return uint64(1 + r.Intn(max+3))
		default:
			if r.Intn(5) == 0 {
				return uint64(1 + r.Intn(2))
			}
			return uint64(2 + r.Intn(6))
		}
	}}
}

// ---- universe of transactions --------------------------------------------

type universe[T lt.TransactionData[T]] struct {
	k    kit[T]
	salt [lt.SaltSize]byte
	tx   []lt.Transaction[T]
	key  []string
	hash []string
	id   []uint32
	byID map[uint32]int
	byKy map[string]int
}

// idOf learns the short hash of a transaction from the package's own encoder.
func idOf[T lt.TransactionData[T]](salt [lt.SaltSize]byte, tx lt.Transaction[T]) uint32 {
	e := lt.NewEncoder[T](rand.New(rand.NewSource(1)), salt, &scripted{f: func() uint64 { return 1 }}, 4)
	e.AddTransaction(tx)
	c := e.ProduceCodeword()
	_, m := cwFields(&c)
	return (*m)[0]
}

func mkUniverse[T lt.TransactionData[T]](c *vC, k kit[T], n int) *universe[T] {
	u := &universe[T]{k: k, byID: map[uint32]int{}, byKy: map[string]int{}}
	for i := range u.salt {
		u.salt[i] = byte(c.R.Intn(256))
	}
	base := c.R.Uint64()
	for len(u.tx) < n {
		base++
		u.add(lt.NewTransaction[T](k.mk(base)), false)
	}
	return u
}

func (u *universe[T]) add(tx lt.Transaction[T], allowCollision bool) {
	id := idOf(u.salt, tx)
	if _, dup := u.byID[id]; dup && !allowCollision {
		return
	}
	u.byID[id] = len(u.tx)
	u.byKy[u.k.key(tx.Data())] = len(u.tx)
	u.tx = append(u.tx, tx)
	u.key = append(u.key, u.k.key(tx.Data()))
	u.hash = append(u.hash, string(tx.Hash()))
	u.id = append(u.id, id)
}

// fresh returns a new transaction object equal to number i.
func (u *universe[T]) fresh(i int) lt.Transaction[T] {
	var z T
	return lt.NewTransaction[T](z.XOR(u.tx[i].Data()))
}

// ident: which universe member is this handed-out transaction?
func (u *universe[T]) ident(c *vC, when string, t lt.Transaction[T]) int {
	i, ok := u.byKy[u.k.key(t.Data())]
	if !ok {
		c.Fail("%s: handed out a transaction that nobody encoded: %s", when, u.k.key(t.Data()))
	}
	if string(t.Hash()) != u.hash[i] {
		c.Fail("%s: transaction %d handed out with hash %x, its hash is %x", when, i, t.Hash(), u.hash[i])
	}
	return i
}

func (u *universe[T]) intact(c *vC) {
	for i := range u.tx {
		if u.k.key(u.tx[i].Data()) != u.key[i] || string(u.tx[i].Hash()) != u.hash[i] {
			c.Fail("transaction %d was modified by coding", i)
		}
	}
}

// xorOf makes the codeword content for a list of transactions.
func (u *universe[T]) xorOf(idx []int) T {
	var z T
	for _, i := range idx {
		z = z.XOR(u.tx[i].Data())
	}
	return z
}
func (u *universe[T]) craft(idx []int) lt.Codeword[T] {
	m := make([]uint32, len(idx))
	for k, i := range idx {
		m[k] = u.id[i]
	}
	return mkCW(u.xorOf(idx), m)
}

// ---- reference decoder with bounded memory -------------------------------

type refCW struct {
	left map[int]bool
}

type refDec struct {
	mem     int
	recent  []int
	known   map[int]bool
	pending map[int]map[*refCW]bool // transaction -> codewords waiting for it
	lone    map[*refCW]bool // codewords waiting for one transaction
}

func newRef(mem int) *refDec {
	return &refDec{mem: mem, known: map[int]bool{}, pending: map[int]map[*refCW]bool{}, lone: map[*refCW]bool{}}
}

func (d *refDec) store(i int) {
	d.recent = append(d.recent, i)
	d.known[i] = true
	for len(d.recent) > d.mem {
		delete(d.known, d.recent[0])
		d.recent = d.recent[1:]
	}
}

// peel removes transaction i from everything waiting for it.
func (d *refDec) peel(i int) {
	for cw := range d.pending[i] {
		delete(cw.left, i)
		d.count(cw)
	}
	delete(d.pending, i)
}

func (d *refDec) count(cw *refCW) {
	if len(cw.left) == 1 {
		d.lone[cw] = true
	} else {
		delete(d.lone, cw)
	}
}

func (d *refDec) addCW(idx []int) *refCW {
	cw := &refCW{left: map[int]bool{}}
	for _, i := range idx {
		if !d.known[i] {
			cw.left[i] = true
		}
	}
	for i := range cw.left {
		if d.pending[i] == nil {
			d.pending[i] = map[*refCW]bool{}
		}
		d.pending[i][cw] = true
	}
	d.count(cw)
	return cw
}

func (d *refDec) ready(i int) bool {
	for cw := range d.pending[i] {
		if len(cw.left) == 1 {
			return true
		}
	}
	return false
}

// settle consumes the decoder's reported list: the transactions it says it
// obtained, in order. The model verifies that each was obtainable at that
// point, and afterwards that nothing obtainable is missing.
func (d *refDec) settle(c *vC, when string, got []int, extra *refCW) {
	for k, i := range got {
		for _, j := range got[:k] {
			if i == j {
				c.Fail("%s: transaction %d handed out twice in one batch", when, i)
			}
		}
	}
	// order-independent closure first
	for _, i := range got {
		if d.known[i] {
			c.Fail("%s: transaction %d handed out although it is already known", when, i)
		}
	}
	todo := append([]int(nil), got...)
	done := map[int]bool{}
	for len(done) < len(todo) {
		progress := false
		for _, i := range todo {
			if !done[i] && d.ready(i) {
				done[i] = true
				d.peel(i)
				progress = true
			}
		}
		if !progress {
			for _, i := range todo {
				if !done[i] {
					c.Fail("%s: transaction %d handed out although the codewords received so far do not determine it", when, i)
				}
			}
		}
	}
	for cw := range d.lone {
		for i := range cw.left {
			c.Fail("%s: transaction %d is determined by the codewords received but was not handed out (got %d)", when, i, len(got))
		}
	}
	for _, i := range got {
		d.store(i)
	}
}

// ---- colliding transactions ----------------------------------------------

var collMu sync.Mutex
var collCache = map[[lt.SaltSize]byte][][2]uint64{}

// collisions finds pairs of kitV ids whose transactions share a short hash.
func collisions(salt [lt.SaltSize]byte, want int) [][2]uint64 {
	collMu.Lock()
	defer collMu.Unlock()
	if p, ok := collCache[salt]; ok && len(p) >= want {
		return p
	}
	seen := map[uint32]uint64{}
	var out [][2]uint64
	e := lt.NewEncoder[vdat](rand.New(rand.NewSource(1)), salt, &scripted{f: func() uint64 { return 1 }}, 1)
	for i := uint64(1); len(out) < want && i < 2000000; i++ {
		if !e.AddTransaction(lt.NewTransaction[vdat](kitV.mk(i))) {
			continue // equal to the previous one's short hash
		}
		cw := e.ProduceCodeword()
		_, m := cwFields(&cw)
		if o, there := seen[(*m)[0]]; there {
			out = append(out, [2]uint64{o, i})
		} else {
			seen[(*m)[0]] = i
		}
	}
	collCache[salt] = out
	return out
}
