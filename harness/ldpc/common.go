package VPKG

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"reflect"
	"sync"

	"github.com/dchest/siphash"
	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	"golang.org/x/crypto/blake2b"
)

type data = ldpc.TransactionData

type scripted struct {
	f     func() uint64
	draws int
}

func (s *scripted) Uint64() uint64 { s.draws++; return s.f() }

func payload(id uint64) (d data) {
	for k := 0; k < len(d); k += 8 {
		binary.LittleEndian.PutUint64(d[k:], vMix(id*17+uint64(k)))
	}
	binary.LittleEndian.PutUint64(d[:], id)
	return
}

func load(d data) *ldpc.Transaction {
	t := &ldpc.Transaction{}
	if err := t.UnmarshalBinary(append([]byte(nil), d[:]...)); err != nil {
		panic(err)
	}
	return t
}

// shortID is the short hash of a payload, as every node must compute it.
func shortID(salt [ldpc.SaltSize]byte, d []byte) uint32 {
	h := blake2b.Sum512(d)
	s := siphash.New(salt[:])
	s.Write(h[:])
	return uint32(s.Sum64())
}

func xorInto(a *data, b *data) {
	for i := range a {
		a[i] ^= b[i]
	}
}

type universe struct {
	salt [ldpc.SaltSize]byte
	d    []data
	id   []uint32
	byID map[uint32]int
	byD  map[data]int
}

func mkUniverse(r *rand.Rand, n int) *universe {
	u := &universe{byID: map[uint32]int{}, byD: map[data]int{}}
	for i := range u.salt {
		u.salt[i] = byte(r.Intn(256))
	}
	base := r.Uint64()
	for len(u.d) < n {
		base++
		u.add(payload(base), false)
	}
	return u
}

func (u *universe) add(d data, coll bool) {
	id := shortID(u.salt, d[:])
	if _, dup := u.byID[id]; dup && !coll {
		return
	}
	u.byID[id] = len(u.d)
	u.byD[d] = len(u.d)
	u.d = append(u.d, d)
	u.id = append(u.id, id)
}

func (u *universe) craft(idx []int) *ldpc.Codeword {
	c := &ldpc.Codeword{}
	for _, i := range idx {
		xorInto(&c.Symbol, &u.d[i])
		c.Members = append(c.Members, u.id[i])
	}
	return c
}

// fails collects violations from any goroutine.
type failer func(f string, a ...any)

// ---- reference decoder with bounded memory -------------------------------

type refCW struct {
	left  map[int]bool
	freed bool
}

type refDec struct {
	mem     int
	recent  []int
	known   map[int]bool
	pending map[int]map[*refCW]bool
	total   int
	lone    map[*refCW]bool // codewords waiting for one transaction
}

func newRef(mem int) *refDec {
	return &refDec{mem: mem, known: map[int]bool{}, pending: map[int]map[*refCW]bool{}, lone: map[*refCW]bool{}}
}

func (d *refDec) store(i int) {
	d.total++
	d.recent = append(d.recent, i)
	d.known[i] = true
	for len(d.recent) > d.mem {
		delete(d.known, d.recent[0])
		d.recent = d.recent[1:]
	}
}

func (d *refDec) peel(i int) {
	for cw := range d.pending[i] {
		delete(cw.left, i)
		d.count(cw)
	}
	delete(d.pending, i)
}

func (d *refDec) count(cw *refCW) {
	if len(cw.left) == 1 {
		d.lone[cw] = true
	} else {
		delete(d.lone, cw)
	}
}

func (d *refDec) addCW(idx []int) *refCW {
	cw := &refCW{left: map[int]bool{}}
	for _, i := range idx {
		if !d.known[i] {
			cw.left[i] = true
		}
	}
	for i := range cw.left {
		if d.pending[i] == nil {
			d.pending[i] = map[*refCW]bool{}
		}
		d.pending[i][cw] = true
	}
	d.count(cw)
	return cw
}

func (d *refDec) ready(i int) bool {
	for cw := range d.pending[i] {
		if len(cw.left) == 1 {
			return true
		}
	}
	return false
}

// expiry gives, for each newly obtained transaction, whether some released
// and some unreleased codeword could have yielded it.
func (d *refDec) expiry(got []int) (byFreed, byLive map[int]bool) {
	byFreed, byLive = map[int]bool{}, map[int]bool{}
	in := map[int]bool{}
	for _, i := range got {
		in[i] = true
	}
	for _, i := range got {
		for cw := range d.pending[i] {
			ok := true
			for j := range cw.left {
				if ok = in[j]; !ok {
					break
				}
			}
			if ok && cw.freed {
				byFreed[i] = true
			} else if ok {
				byLive[i] = true
			}
		}
	}
	return
}

func (d *refDec) settle(fail failer, when string, got []int) {
	for k, i := range got {
		for _, j := range got[:k] {
			if i == j {
				fail("%s: transaction %d handed out twice in one batch", when, i)
				return
			}
		}
		if d.known[i] {
			fail("%s: transaction %d handed out although it is already known", when, i)
			return
		}
	}
	done := map[int]bool{}
	for len(done) < len(got) {
		progress := false
		for _, i := range got {
			if !done[i] && d.ready(i) {
				done[i] = true
				d.peel(i)
				progress = true
			}
		}
		if !progress {
			fail("%s: transactions %v handed out although the codewords received do not determine all of them", when, got)
			return
		}
	}
	for cw := range d.lone {
		for i := range cw.left {
			fail("%s: transaction %d is determined by the codewords received but was not handed out (got %d)", when, i, len(got))
			return
		}
	}
	for _, i := range got {
		d.store(i)
	}
}

// ---- one decoder session -------------------------------------------------

type rec struct {
	p     *ldpc.PendingCodeword
	ref   *refCW
	freed bool
}

type session struct {
	fail   failer
	r      *rand.Rand
	u      *universe
	dec    *ldpc.Decoder
	ref    *refDec
	recs   []*rec
	kept   []kept
	loc    []mine
	failed bool
	n      map[string]int
	free   float64 // probability of releasing a record at each opportunity
}

// kept: one result exactly as it was returned (the slice itself), and what it held.
type kept struct {
	idx []int
	txs []ldpc.DecodedTransaction
	cp  []ldpc.DecodedTransaction
}

// mine: an object given to the decoder, which still belongs to the caller.
type mine struct {
	i int
	t *ldpc.Transaction
}

func newSession(fail failer, r *rand.Rand, u *universe, mem int, free float64) *session {
	s := &session{r: r, u: u, dec: ldpc.NewDecoder(u.salt, mem), ref: newRef(mem), n: map[string]int{}, free: free}
	s.fail = func(f string, a ...any) { s.failed = true; fail(f, a...) }
	return s
}

func (s *session) judge(when string, txs []ldpc.DecodedTransaction) {
	var got []int
	for _, t := range txs {
		var d data
		if b := t.Serialized(); len(b) == len(d) {
			copy(d[:], b)
		}
		i, ok := s.u.byD[d]
		if !ok {
			s.fail("%s: handed out a transaction that nobody encoded: %x", when, t.Serialized())
			return
		}
		got = append(got, i)
	}
	s.kept = append(s.kept, kept{got, txs, append([]ldpc.DecodedTransaction(nil), txs...)})
	byFreed, byLive := s.ref.expiry(got)
	for k, t := range txs {
		i := got[k]
		if t.Expired && !byFreed[i] {
			s.fail("%s: transaction %d marked expired, but no released codeword could have yielded it", when, i)
			return
		}
		if !t.Expired && !byLive[i] && byFreed[i] {
			s.fail("%s: transaction %d not marked expired, but only released codewords could have yielded it", when, i)
			return
		}
		if t.Expired {
			s.n["expired_transactions"]++
		} else {
			s.n["unexpired_transactions"]++
		}
	}
	s.ref.settle(s.fail, when, got)
	if n := s.dec.NumTransactionsReceived(); n != s.ref.total && !s.failed {
		s.fail("%s: count of received transactions is %d, %d were obtained", when, n, s.ref.total)
	}
	s.n["transactions_handed_out"] += len(got)
	if len(got) > 1 {
		s.n["cascades"]++
	}
}

func (s *session) deliver(cw *ldpc.Codeword, when string) {
	idx := make([]int, 0, len(cw.Members))
	for _, m := range cw.Members {
		i, ok := s.u.byID[m]
		if !ok {
			s.fail("%s: codeword names short hash %x of no known transaction", when, m)
			return
		}
		idx = append(idx, i)
	}
	ref := s.ref.addCW(idx)
	p, txs := s.dec.AddCodeword(cw)
	s.recs = append(s.recs, &rec{p: p, ref: ref})
	s.judge(when, txs)
	s.n["codewords_delivered"]++
}

func (s *session) local(i int, when string) {
	if !s.ref.known[i] {
		s.ref.peel(i)
		s.ref.store(i)
	}
	t := load(s.u.d[i])
	s.loc = append(s.loc, mine{i, t})
	s.judge(when, s.dec.AddTransaction(t))
	s.n["local_additions"]++
}

// status compares decoded flags of records not yet released.
func (s *session) status(when string, all bool) {
	for k, r := range s.recs {
		if r.freed || !all && s.r.Intn(4) != 0 {
			continue
		}
		if r.p.Decoded() != (len(r.ref.left) == 0) {
			s.fail("%s: codeword %d reports decoded=%v with %d of its transactions unknown", when, k, r.p.Decoded(), len(r.ref.left))
			return
		}
		s.n["status_checks"]++
	}
}

// release frees some records, before or after they are decoded.
func (s *session) release() {
	for _, r := range s.recs {
		if !r.freed && s.r.Float64() < s.free {
			r.freed, r.ref.freed = true, true
			if len(r.ref.left) == 0 {
				s.n["released_after_decoding"]++
			} else {
				s.n["released_before_decoding"]++
			}
			r.p.Free()
		}
	}
	k := 0
	for _, r := range s.recs {
		if !r.freed {
			s.recs[k] = r
			k++
		}
	}
	s.recs = s.recs[:k]
}

func (s *session) end() {
	s.status("at the end", true)
	for _, k := range s.kept {
		for n, i := range k.idx {
			if k.txs[n] != k.cp[n] || string(k.txs[n].Serialized()) != string(s.u.d[i][:]) {
				s.fail("transaction %d changed after it was handed out", i)
				return
			}
			if m := checkTx(k.txs[n].Transaction, s.u.d[i], s.u.salt); m != "" {
				s.fail("transaction %d changed after it was handed out: %s", i, m)
				return
			}
			s.n["results_reread"]++
		}
	}
	for _, l := range s.loc {
		if m := checkTx(l.t, s.u.d[l.i], s.u.salt); m != "" {
			s.fail("transaction %d, added locally, was changed by the decoder: %s", l.i, m)
			return
		}
	}
}

// program is a reproducible list of operations for one or more decoders.
type op struct {
	cw    *ldpc.Codeword
	local int
}

func program(r *rand.Rand, u *universe, steps, maxdeg int, pLocal float64) (o []op) {
	n := len(u.d)
	lo, hi := 0, n
	for k := 0; k < steps; k++ {
		if r.Intn(40) == 0 { // another sender's window
			lo = r.Intn(n)
			hi = lo + 1 + r.Intn(n-lo)
		}
		if r.Float64() < pLocal {
			o = append(o, op{local: r.Intn(n)})
			continue
		}
		deg := 1 + r.Intn(maxdeg)
		if deg > hi-lo {
			deg = hi - lo
		}
		idx := r.Perm(hi - lo)[:deg]
		for x := range idx {
			idx[x] += lo
		}
		o = append(o, op{cw: u.craft(idx), local: -1})
	}
	return
}

func (s *session) run(prog []op, skip int) {
	for n, o := range prog {
		if skip > 0 && s.r.Intn(skip) == 0 {
			continue
		}
		var when string
		if o.cw == nil {
			when = fmt.Sprintf("step %d, adding transaction %d", n, o.local)
			s.local(o.local, when)
		} else {
			when = fmt.Sprintf("step %d, codeword", n)
			s.deliver(o.cw, when)
		}
		if s.failed {
			return
		}
		s.status(when, false)
		if s.free > 0 {
			s.release()
		}
		if s.failed {
			return
		}
	}
	s.end()
}

func (s *session) report(c *vC) {
	for k, v := range s.n {
		c.Seen(k, v)
	}
}

// storedHash reads the 64-byte identity kept in the object, if there is one.
func storedHash(t *ldpc.Transaction) ([]byte, bool) {
	v := reflect.ValueOf(t).Elem()
	for i := 0; i < v.NumField(); i++ {
		if f := v.Field(i); f.Kind() == reflect.Array && f.Len() == blake2b.Size && f.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, f.Len())
			for k := range b {
				b[k] = byte(f.Index(k).Uint())
			}
			return b, true
		}
	}
	return nil, false
}

// checkTx judges a loaded object against the bytes it was given.
func checkTx(t *ldpc.Transaction, want data, salt [ldpc.SaltSize]byte) string {
	if !bytes.Equal(t.Serialized(), want[:]) {
		return fmt.Sprintf("loaded %x..., serialized to %x...", want[:16], t.Serialized()[:16])
	}
	h := blake2b.Sum512(want[:])
	if g, ok := storedHash(t); ok && !bytes.Equal(g, h[:]) {
		return fmt.Sprintf("identity of %x... is %x..., BLAKE2b-512 is %x...", want[:16], g[:8], h[:8])
	}
	e := ldpc.NewEncoder(salt, &scripted{f: func() uint64 { return 1 }}, 1)
	e.AddTransaction(t)
	cw := e.ProduceCodeword()
	if len(cw.Members) != 1 || cw.Members[0] != shortID(salt, want[:]) || cw.Symbol != want {
		return fmt.Sprintf("payload %x... is encoded under short hash %x, expected %x", want[:16], cw.Members, shortID(salt, want[:]))
	}
	return ""
}

// ---- colliding payloads ----------------------------------------------------

var collMu sync.Mutex
var collCache [][2]uint64
var collSalt = [ldpc.SaltSize]byte{9, 8, 7}

func collisions(want int) [][2]uint64 {
	collMu.Lock()
	defer collMu.Unlock()
	if collCache == nil {
		seen := map[uint32]uint64{}
		for i := uint64(1); len(collCache) < want && i < 3000000; i++ {
			d := payload(i)
			id := shortID(collSalt, d[:])
			if o, there := seen[id]; there {
				collCache = append(collCache, [2]uint64{o, i})
			} else {
				seen[id] = i
			}
		}
	}
	return collCache
}
