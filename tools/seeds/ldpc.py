H = '''package ldpc

import (
	"encoding/binary"
	"math/rand"
	"sync"
	"testing"
)

func mk(i int) *Transaction {
	var d [TxSize]byte
	for k := 0; k < TxSize; k += 8 {
		binary.LittleEndian.PutUint64(d[k:], uint64(i+1)*0x9e3779b97f4a7c15+uint64(k))
	}
	t := &Transaction{}
	if err := t.UnmarshalBinary(d[:]); err != nil {
		panic(err)
	}
	return t
}

type deg struct{ d *uint64 }

func (d deg) Uint64() uint64 { return *d.d }

var salt = [SaltSize]byte{1, 2, 3}

func cwOf(txs ...int) *Codeword {
	n := uint64(len(txs))
	e := NewEncoder(salt, deg{&n}, len(txs))
	for _, i := range txs {
		e.AddTransaction(mk(i))
	}
	return e.ProduceCodeword()
}

var _ = rand.Int
var _ sync.Mutex
'''
D, E, T = "ldpc/decoder.go", "ldpc/encoder.go", "ldpc/transaction.go"
SEEDS = [
dict(id="c14-count-capped", prop="C14", pkg="ldpc",
 edits=[(D, "p.numTransactionsDecoded += 1\n", "p.numTransactionsDecoded = vmax(p.numTransactionsDecoded, len(p.receivedTransactions))\n"),
        (D, "func (p *Decoder) NumTransactionsReceived() int {", "func vmax(a, b int) int {\n\tif a > b {\n\t\treturn a\n\t}\n\treturn b\n}\n\nfunc (p *Decoder) NumTransactionsReceived() int {")],
 needs="a decoder whose memory is smaller than the number of transactions it has obtained",
 breaks="the running count stops growing once transactions are being forgotten",
 demo=H + '''
func TestDemo(t *testing.T) {
	d := NewDecoder(salt, 10)
	for i := 0; i < 50; i++ {
		d.AddTransaction(mk(i))
	}
	if d.NumTransactionsReceived() != 50 {
		t.Fatal(d.NumTransactionsReceived())
	}
}
'''),
dict(id="c14-known-not-decoded", prop="C14", pkg="ldpc",
 edits=[(D, "\tif len(cw.members) <= 1 {\n\t\tcw.queued", "\tif len(cw.members) == 1 {\n\t\tcw.queued")],
 needs="a codeword all of whose transactions are already known when it arrives",
 breaks="the codeword never reports itself decoded",
 demo=H + '''
func TestDemo(t *testing.T) {
	d := NewDecoder(salt, 100)
	d.AddTransaction(mk(1))
	d.AddTransaction(mk(2))
	cw, _ := d.AddCodeword(cwOf(1, 2))
	if !cw.Decoded() {
		t.Fatal("not decoded")
	}
}
'''),
dict(id="c14-content-from-header", prop="C14", pkg="ldpc",
 edits=[(D, "\t\t\t\t\t\tp.storeNewTransaction(tx.saltedHash, decodedTx)\n", "\t\t\t\t\t\tif len(tx.blocking) > 1 || len(queue) == 0 {\n\t\t\t\t\t\t\tp.storeNewTransaction(tx.saltedHash, decodedTx)\n\t\t\t\t\t\t}\n")],
 needs="a transaction decoded in the middle of a cascade and blocking only the codeword it is decoded from, then named again by a later codeword",
 breaks="a decoded transaction is not remembered: later codewords hand it out again and it is not counted",
 demo=H + '''
func TestDemo(t *testing.T) {
	d := NewDecoder(salt, 100)
	d.AddCodeword(cwOf(1, 2))
	d.AddCodeword(cwOf(1, 3))
	_, txs := d.AddCodeword(cwOf(1))
	if len(txs) != 3 || d.NumTransactionsReceived() != 3 {
		t.Fatal(len(txs), d.NumTransactionsReceived())
	}
	for i := 1; i <= 3; i++ {
		if _, txs = d.AddCodeword(cwOf(i)); len(txs) != 0 {
			t.Fatal("decoded again")
		}
	}
}
'''),
dict(id="c15-double-queue", prop="C15", pkg="ldpc",
 edits=[(D, "if len(peelable.members) <= 1 && !peelable.queued {", "if len(peelable.members) <= 1 {")],
 needs="a codeword released while undecoded, two of whose last unknown transactions become known in one cascade",
 breaks="the record is put into the pool twice and later shared by two codewords",
 demo=H + '''
func TestDemo(t *testing.T) {
	for round := 0; round < 200; round++ {
		d := NewDecoder(salt, 1000)
		p, _ := d.AddCodeword(cwOf(1, 2))
		p.Free()
		d.AddCodeword(cwOf(1, 3))
		d.AddCodeword(cwOf(2, 3))
		d.AddCodeword(cwOf(3))
		a, _ := d.AddCodeword(cwOf(11, 12))
		b, _ := d.AddCodeword(cwOf(13, 14))
		if a == b {
			t.Fatal("two codewords share one record")
		}
		a.Free()
		b.Free()
	}
}
'''),
dict(id="c15-reset-keeps-freed", prop="C15", pkg="ldpc",
 edits=[(D, "\tcw.decoded = false\n\tcw.freed = false\n", "\tcw.decoded = false\n")],
 needs="a record reused after it was released",
 breaks="transactions from a live codeword are marked expired and the record is recycled while in use",
 demo=H + '''
func TestDemo(t *testing.T) {
	for round := 0; round < 300; round++ {
		d := NewDecoder(salt, 1000)
		p, _ := d.AddCodeword(cwOf(1))
		p.Free()
		_, txs := d.AddCodeword(cwOf(2))
		if txs[0].Expired {
			t.Fatal("marked expired")
		}
	}
}
'''),
dict(id="c15-early-put", prop="C15", pkg="ldpc", flags="-race",
 edits=[(D, "\t// peel all codewords containing this transaction\n", "\tpendingTransactionPool.Put(tx)\n\t// peel all codewords containing this transaction\n"),
        (D, "\t\ttx.blocking[idx] = nil\n\t}\n\tpendingTransactionPool.Put(tx)\n", "\t\ttx.blocking[idx] = nil\n\t}\n")],
 needs="two decoders running concurrently, one taking the stub from the pool while the other still walks it",
 breaks="a stub is recycled while it is still in use: data race, corrupted decoding",
 demo=H + '''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	var cws []*Codeword
	for i := 0; i < 40; i++ {
		cws = append(cws, cwOf(i, i+1))
	}
	last := cwOf(0)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 300; k++ {
				d := NewDecoder(salt, 1000)
				for _, c := range cws {
					d.AddCodeword(c)
				}
				if _, txs := d.AddCodeword(last); len(txs) != 41 {
					t.Error(len(txs))
				}
			}
		}()
	}
	wg.Wait()
}
'''),
dict(id="c15-expired-per-cascade", prop="C15", pkg="ldpc",
 edits=[(D, "\tnewTx := []DecodedTransaction{}\n", "\tnewTx := []DecodedTransaction{}\n\texpired := false\n"),
        (D, "newTx = append(newTx, DecodedTransaction{decodedTx, c.freed})", "expired = expired || c.freed\n\t\t\t\t\t\tnewTx = append(newTx, DecodedTransaction{decodedTx, expired})")],
 needs="one cascade going through both released and unreleased codewords",
 breaks="transactions from unreleased codewords are marked expired when the cascade passed a released one",
 demo=H + '''
func TestDemo(t *testing.T) {
	d := NewDecoder(salt, 1000)
	p, _ := d.AddCodeword(cwOf(1, 2))
	p.Free()
	d.AddCodeword(cwOf(2, 3))
	_, txs := d.AddCodeword(cwOf(1))
	if len(txs) != 3 || txs[0].Expired || !txs[1].Expired || txs[2].Expired {
		t.Fatal(txs)
	}
}
'''),
dict(id="c15-free-decoded-twice", prop="C15", pkg="ldpc",
 edits=[(D, "\t\tif c.freed {\n\t\t\tpendingCodewordPool.Put(c)\n\t\t}\n", "\t\tif c.freed || len(newTx) == 0 && len(queue) == 0 {\n\t\t\tpendingCodewordPool.Put(c)\n\t\t}\n")],
 needs="a codeword that brings nothing new, whose record is kept and released by the user as usual",
 breaks="a record still held by the user is recycled, so two codewords share it",
 demo=H + '''
func TestDemo(t *testing.T) {
	for round := 0; round < 300; round++ {
		d := NewDecoder(salt, 1000)
		d.AddTransaction(mk(1))
		p, _ := d.AddCodeword(cwOf(1))
		q, _ := d.AddCodeword(cwOf(5, 6))
		if p == q || !p.Decoded() {
			t.Fatal("record reused while held")
		}
		p.Free()
		q.Free()
	}
}
'''),
dict(id="c16-reset-keeps-hashes", prop="C16", pkg="ldpc",
 edits=[(E, "\tfor k := range e.hashes {\n\t\tdelete(e.hashes, k)\n\t}\n", "\tif len(e.hashes) > ws {\n\t\te.hashes = make(map[uint32]struct{})\n\t}\n")],
 needs="a reset of an encoder whose window held no more transactions than the new window size",
 breaks="transactions of the old window are refused after the reset",
 demo=H + '''
func TestDemo(t *testing.T) {
	n := uint64(1)
	e := NewEncoder(salt, deg{&n}, 10)
	e.AddTransaction(mk(1))
	e.Reset(deg{&n}, 10)
	if !e.AddTransaction(mk(1)) {
		t.Fatal("refused")
	}
}
'''),
dict(id="c16-evict-wrong-hash", prop="C16", pkg="ldpc",
 edits=[(E, "\t\tdelete(e.hashes, e.window[0].saltedHash)\n\t\te.window = e.window[1:]\n", "\t\te.window = e.window[1:]\n\t\tif len(e.window) > 0 {\n\t\t\tdelete(e.hashes, e.window[0].saltedHash)\n\t\t}\n")],
 needs="a displaced transaction offered again, or the new oldest one offered while still in the window",
 breaks="a displaced transaction is refused for ever and the oldest one can be in the window twice",
 demo=H + '''
func TestDemo(t *testing.T) {
	n := uint64(1)
	e := NewEncoder(salt, deg{&n}, 2)
	for i := 0; i < 3; i++ {
		e.AddTransaction(mk(i))
	}
	if !e.AddTransaction(mk(0)) {
		t.Fatal("refused")
	}
}
'''),
dict(id="c16-weight-not-compounded", prop="C16", pkg="ldpc",
 edits=[(E, "\t\t\tW = W * math.Exp(math.Log(rand.Float64())/d)\n", "\t\t\tW = math.Exp(math.Log(rand.Float64()) / d)\n")],
 needs="windows clearly larger than the degree",
 breaks="later window positions are included too often",
 demo=H + '''
func TestDemo(t *testing.T) {
	n := uint64(2)
	e := NewEncoder(salt, deg{&n}, 100)
	for i := 0; i < 100; i++ {
		e.AddTransaction(mk(i))
	}
	first := map[uint32]bool{}
	for _, x := range e.window[:50] {
		first[x.saltedHash] = true
	}
	c := 0
	for k := 0; k < 20000; k++ {
		for _, m := range e.ProduceCodeword().Members {
			if first[m] {
				c++
			}
		}
	}
	if c < 19000 || c > 21000 {
		t.Fatal(c)
	}
}
'''),
dict(id="c16-slot-from-position", prop="C16", pkg="ldpc",
 edits=[(E, "(*selected)[rand.Intn(deg)] = e.window[midx]", "(*selected)[midx%deg] = e.window[midx]")],
 needs="degree 2 or more; visible only in which transactions occur together",
 breaks="some pairs of window positions are never combined",
 demo=H + '''
func TestDemo(t *testing.T) {
	n := uint64(2)
	e := NewEncoder(salt, deg{&n}, 6)
	for i := 0; i < 6; i++ {
		e.AddTransaction(mk(i))
	}
	c := map[[2]uint32]int{}
	for k := 0; k < 15000; k++ {
		m := e.ProduceCodeword().Members
		if m[0] > m[1] {
			m[0], m[1] = m[1], m[0]
		}
		c[[2]uint32{m[0], m[1]}]++
	}
	for k, x := range c {
		if x < 700 || x > 1300 {
			t.Fatal(k, x)
		}
	}
	if len(c) != 15 {
		t.Fatal(len(c))
	}
}
'''),
dict(id="c17-xor-tail", prop="C17", pkg="ldpc",
 edits=[(T, "for i := 0; i < TxSize/8; i++ {", "for i := 0; (i+1)*8 < TxSize; i++ {")],
 needs="payloads that differ in their last 8 bytes",
 breaks="the last 8 bytes are not combined",
 demo=H + '''
func TestDemo(t *testing.T) {
	a, b := mk(1).serialized, mk(2).serialized
	c := a
	c.XOR(&b)
	for i := range c {
		if c[i] != a[i]^b[i] {
			t.Fatal(i)
		}
	}
}
'''),
dict(id="c17-shared-hasher", prop="C17", pkg="ldpc",
 edits=[(T, "\th := hasherPool.Get().(hash.Hash)\n\tdefer hasherPool.Put(h)\n", "\thasherOnce.Do(func() { sharedHasher = hasherPool.Get().(hash.Hash) })\n\th := sharedHasher\n"),
        (T, "type Transaction struct {", "var hasherOnce sync.Once\nvar sharedHasher hash.Hash\n\ntype Transaction struct {")],
 needs="two goroutines loading transactions at the same moment",
 breaks="identities get mixed up between concurrent loads",
 flags="-race",
 demo=H + '''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 2000; k++ {
				if mk(g).hash != mk(g).hash {
					t.Error("identity differs")
					return
				}
			}
		}()
	}
	wg.Wait()
}
'''),
dict(id="c17-accepts-longer", prop="C17", pkg="ldpc",
 edits=[(T, "if len(data) != TxSize {", "if len(data) < TxSize || len(data)%TxSize != 0 {")],
 needs="input whose length is a larger multiple of 128",
 breaks="wrong-length input is accepted and silently truncated",
 demo=H + '''
func TestDemo(t *testing.T) {
	if (&Transaction{}).UnmarshalBinary(make([]byte, 256)) == nil {
		t.Fatal("accepted")
	}
}
'''),
dict(id="c13-first-of-colliding", prop="C13", pkg="ldpc",
 edits=[(D, "\t\t\t// adding a transaction that is a hash conflict with an existing one that we have not forgotten\n\t\t\tp.storeNewTransaction(hash, t)", "\t\t\t// adding a transaction that is a hash conflict with an existing one that we have not forgotten\n\t\t\tp.recentTransactions = append(p.recentTransactions, recentTransaction{t, hash})")],
 needs="two different transactions with the same short hash added one after the other",
 breaks="codewords of the one added last are garbled by the one added first, and never decode",
 demo=H + '''
func TestDemo(t *testing.T) {
	seen := map[uint32]int{}
	for i := 0; i < 1000000; i++ {
		id := cwOf(i).Members[0]
		o, there := seen[id]
		seen[id] = i
		if !there {
			continue
		}
		d := NewDecoder(salt, 1000)
		d.AddTransaction(mk(o))
		d.AddTransaction(mk(i))
		if _, n := d.AddCodeword(cwOf(i, i+1)); len(n) != 1 {
			t.Fatal("the codeword is not decoded")
		}
		return
	}
	t.Skip("no collision")
}
'''),
dict(id="c13-successor-forgotten", prop="C13", pkg="ldpc",
 edits=[(D, "if e := p.receivedTransactions[p.recentTransactions[0].hash]; e == p.recentTransactions[0].ptr {", "if _, there := p.receivedTransactions[p.recentTransactions[0].hash]; there {")],
 needs="a transaction that shares its short hash with a later one is forgotten, and the later one is used before its own turn to be forgotten",
 breaks="the later one is forgotten with the earlier one, so codewords containing it do not decode",
 demo=H + '''
func TestDemo(t *testing.T) {
	seen := map[uint32]int{}
	for i := 0; i < 1000000; i++ {
		id := cwOf(i).Members[0]
		o, there := seen[id]
		seen[id] = i
		if !there {
			continue
		}
		d := NewDecoder(salt, 10)
		d.AddTransaction(mk(o))
		for k := 0; k < 6; k++ {
			d.AddTransaction(mk(2000000 + k))
		}
		d.AddTransaction(mk(i))
		for k := 6; k < 10; k++ {
			d.AddTransaction(mk(2000000 + k))
		}
		if _, n := d.AddCodeword(cwOf(i, i+1)); len(n) != 1 {
			t.Fatal("the codeword is not decoded")
		}
		return
	}
	t.Skip("no collision")
}
'''),
]
