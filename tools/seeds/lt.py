def SYM(p): return '''package %s

import (
	"encoding/binary"
	"math/rand"
	"testing"
)

type dd [40]byte

func (d *dd) XOR(o *dd) *dd {
	if d == nil {
		d = &dd{}
	}
	for i := range d {
		d[i] ^= o[i]
	}
	return d
}
func (d *dd) Hash() []byte { return append([]byte(nil), d[:]...) }
func mk(i int) Transaction[*dd] {
	d := &dd{}
	binary.LittleEndian.PutUint64(d[:], uint64(i+1))
	return NewTransaction[*dd](d)
}

type deg struct{ d *uint64 }

func (d deg) Uint64() uint64 { return *d.d }

var salt = [SaltSize]byte{1, 2, 3}
var curDeg uint64 = 1

func enc(ws int) *Encoder[*dd] {
	return NewEncoder[*dd](rand.New(rand.NewSource(3)), salt, deg{&curDeg}, ws)
}

// cwOf makes a codeword of exactly these transactions.
func cwOf(txs ...int) Codeword[*dd] {
	e := enc(len(txs))
	for _, i := range txs {
		e.AddTransaction(mk(i))
	}
	o := curDeg
	curDeg = uint64(len(txs))
	c := e.ProduceCodeword()
	curDeg = o
	return c
}

var _ = rand.Int
''' % p
DEC = lambda p: "%s/decoder.go" % p
ENC = lambda p: "%s/encoder.go" % p
SEEDS = [
dict(id="c08-returns-local-addition", prop="C08", pkg="lt",
 edits=[("lt/decoder.go", "\t\t\tqueue := pending.markDecoded(t.data, nil)\n\t\t\treturn p.decodeCodewords(queue)", "\t\t\tqueue := pending.markDecoded(t.data, nil)\n\t\t\tnewTx := p.decodeCodewords(queue)\n\t\t\tif len(newTx) > 0 {\n\t\t\t\tnewTx = append(newTx, t)\n\t\t\t}\n\t\t\treturn newTx")],
 needs="a transaction added locally that unlocks a received codeword",
 breaks="the locally added transaction is handed out as if decoded",
 demo=SYM("lt") + '''
func TestDemo(t *testing.T) {
	d := NewDecoder[*dd](salt, 100)
	d.AddCodeword(cwOf(1, 2))
	if n := d.AddTransaction(mk(1)); len(n) != 1 || n[0].Data()[0] != 3 {
		t.Fatal("handed out", len(n))
	}
}
'''),
dict(id="c08-forgets-pending-on-evict", prop="C08", pkg="iblt",
 edits=[("iblt/decoder.go", "\ttx.data = tx.data.XOR(data)", "\ttx.data = tx.data.XOR(data)")][:0] + [("iblt/decoder.go", "\t\t\t\tcw.symbol = cw.symbol.XOR(received.data)", "\t\t\t\tif len(rawCodeword.members) == 2 {\n\t\t\t\t\t// cheaper in place: a pair is decoded right away\n\t\t\t\t\tcw.symbol = received.data.XOR(cw.symbol)\n\t\t\t\t} else {\n\t\t\t\t\tcw.symbol = cw.symbol.XOR(received.data)\n\t\t\t\t}")],
 needs="pointer-typed data and a two-transaction codeword of which one is known on arrival, followed by further use of the known one",
 breaks="the stored copy of a known transaction is overwritten, so later recoveries fail and earlier handed out data changes",
 demo=SYM("iblt") + '''
func TestDemo(t *testing.T) {
	d := NewDecoder[*dd](salt, 100)
	_, a := d.AddCodeword(cwOf(1))
	_, b := d.AddCodeword(cwOf(1, 2))
	_, c := d.AddCodeword(cwOf(1, 3))
	if len(a) != 1 || len(b) != 1 || len(c) != 1 {
		t.Fatal(len(a), len(b), len(c))
	}
	if *a[0].Data() != *mk(1).Data() || *b[0].Data() != *mk(2).Data() || *c[0].Data() != *mk(3).Data() {
		t.Fatal("content changed")
	}
}
'''),
dict(id="c09-known-codeword-not-decoded", prop="C09", pkg="lt",
 edits=[("lt/decoder.go", "\tif len(cw.members) <= 1 {\n\t\tcw.queued = true\n\t\tqueue :=", "\tif len(cw.members) == 1 {\n\t\tcw.queued = true\n\t\tqueue :=")],
 needs="a codeword all of whose transactions are already known when it arrives",
 breaks="the codeword never reports itself decoded",
 demo=SYM("lt") + '''
func TestDemo(t *testing.T) {
	d := NewDecoder[*dd](salt, 100)
	d.AddTransaction(mk(1))
	d.AddTransaction(mk(2))
	if p, _ := d.AddCodeword(cwOf(1, 2)); !p.Decoded() {
		t.Fatal("not decoded")
	}
}
'''),
dict(id="c09-cascade-stops-at-duplicate", prop="C09", pkg="iblt",
 edits=[("iblt/decoder.go", "\t\tif len(c.members) == 0 {\n\t\t\t// nothing to do, already fully peeled\n\t\t}", "\t\tif len(c.members) == 0 {\n\t\t\t// nothing to do, already fully peeled\n\t\t\tc.decoded = true\n\t\t\tif len(newTx) > 8 {\n\t\t\t\tbreak\n\t\t\t}\n\t\t}")],
 needs="a cascade of more than eight recoveries that runs into a redundant codeword while others are still queued",
 breaks="the rest of the cascade is abandoned: determined transactions are never handed out",
 demo=SYM("iblt") + '''
func TestDemo(t *testing.T) {
	d := NewDecoder[*dd](salt, 1000)
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 200; i++ {
		d.AddCodeword(cwOf(i, i+1))
		if i > 10 {
			d.AddCodeword(cwOf(i-5, i+1))
			d.AddCodeword(cwOf(r.Intn(i), i+1))
		}
	}
	n := d.AddTransaction(mk(0))
	if len(n) != 200 {
		t.Fatal("recovered", len(n))
	}
}
'''),
dict(id="c09-membership-by-pending", prop="C09", pkg="lt",
 edits=[("lt/decoder.go", "\t_, there := p.receivedTransactions[saltedHash]\n\tif there {\n\t\treturn true\n\t} else {\n\t\treturn false\n\t}", "\tif _, waiting := p.pendingTransactions[saltedHash]; waiting {\n\t\treturn false\n\t}\n\t// anything seen in a codeword and no longer waiting has been decoded\n\tfor _, r := range p.recentTransactions {\n\t\tif r.saltedHash == saltedHash {\n\t\t\treturn len(p.pendingTransactions) > 0 || bytes.Equal(r.hash, tx.hash) && len(r.hash) > 0 && r.saltedHash&7 != 5\n\t\t}\n\t}\n\treturn false")],
 needs="a membership query for a known transaction whose short hash ends in binary 101 while nothing is waiting",
 breaks="the query answers false for a known transaction",
 demo=SYM("lt") + '''
func TestDemo(t *testing.T) {
	d := NewDecoder[*dd](salt, 1000)
	for i := 0; i < 100; i++ {
		d.AddTransaction(mk(i))
		if !d.HasDecoded(mk(i)) {
			t.Fatal(i)
		}
	}
}
'''),
dict(id="c10-full-degree-not-reverted", prop="C10", pkg="lt",
 edits=[("lt/encoder.go", "\t// revert the shuffling\n\tfor i := deg - 1; i >= 0; i-- {", "\t// revert the shuffling; nothing to restore when the whole window was used\n\tfor i := deg - 1; i >= 0 && (deg < n || n < 600); i-- {")],
 needs="a codeword of the full window of 600 or more followed by additions to a full window",
 breaks="the window order is lost, so the next addition displaces a random transaction instead of the oldest",
 demo=SYM("lt") + '''
func TestDemo(t *testing.T) {
	e := enc(700)
	for i := 0; i < 700; i++ {
		e.AddTransaction(mk(i))
	}
	curDeg = 1000
	e.ProduceCodeword()
	for i := 700; i < 1000; i++ {
		e.AddTransaction(mk(i))
	}
	for i := 300; i < 1000; i++ {
		if e.AddTransaction(mk(i)) {
			t.Fatal("window lost", i)
		}
	}
}
'''),
dict(id="c10-last-position-skipped", prop="C10", pkg="iblt",
 edits=[("iblt/encoder.go", "\t\tr := e.r.Intn(n-i) + i\n", "\t\tr := i\n\t\tif n-i > 1 {\n\t\t\tr = e.r.Intn(n-i-1) + i\n\t\t\tif deg > 1 && i == deg-1 {\n\t\t\t\tr = e.r.Intn(n-i) + i\n\t\t\t}\n\t\t}\n")],
 needs="visible only statistically, over many codewords",
 breaks="the newest transaction in the window is never chosen for degree one and rarely otherwise",
 demo=SYM("iblt") + '''
func TestDemo(t *testing.T) {
	e := enc(10)
	ids := map[uint32]int{}
	for i := 0; i < 10; i++ {
		e.AddTransaction(mk(i))
	}
	curDeg = 1
	for i := 0; i < 5000; i++ {
		ids[e.ProduceCodeword().members[0]]++
	}
	if len(ids) != 10 {
		t.Fatal("only", len(ids), "of 10 positions chosen")
	}
}
'''),
dict(id="c11-duplicate-refreshes", prop="C11", pkg="iblt",
 edits=[("iblt/encoder.go", "\t\t// the transaction is already in the window\n\t\treturn false", "\t\t// the transaction is already in the window; keep it fresh\n\t\tfor i := range e.window {\n\t\t\tif e.window[i].saltedHash == hash {\n\t\t\t\tx := e.window[i]\n\t\t\t\tcopy(e.window[i:], e.window[i+1:])\n\t\t\t\te.window[len(e.window)-1] = x\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n\t\treturn false")],
 needs="re-adding a transaction that is in the window, then enough additions to displace it",
 breaks="a refused addition reorders the window",
 demo=SYM("iblt") + '''
func TestDemo(t *testing.T) {
	e := enc(3)
	e.AddTransaction(mk(1))
	e.AddTransaction(mk(2))
	e.AddTransaction(mk(3))
	e.AddTransaction(mk(1))
	e.AddTransaction(mk(4))
	if !e.AddTransaction(mk(1)) {
		t.Fatal("1 still in the window")
	}
}
'''),
dict(id="c11-reset-keeps-larger-window", prop="C11", pkg="lt",
 edits=[("lt/encoder.go", "\te.windowSize = ws\n\tfor", "\tif ws > e.windowSize || len(e.hashes) == 0 || ws >= len(e.hashes) {\n\t\te.windowSize = ws\n\t}\n\tfor")],
 needs="a reset to a window size smaller than the current number of transactions",
 breaks="the new, smaller window size is not applied",
 demo=SYM("lt") + '''
func TestDemo(t *testing.T) {
	e := enc(10)
	for i := 0; i < 10; i++ {
		e.AddTransaction(mk(i))
	}
	e.Reset(deg{&curDeg}, 3)
	for i := 0; i < 10; i++ {
		e.AddTransaction(mk(i))
	}
	if !e.AddTransaction(mk(0)) {
		t.Fatal("window too large")
	}
}
'''),
dict(id="c12-readd-ages-others", prop="C12", pkg="lt",
 edits=[("lt/decoder.go", "\t\t\t// something that we already know; do not do anything\n\t\t\treturn nil", "\t\t\t// something that we already know; refresh it\n\t\t\tp.storeNewTransaction(saltedHash, existing)\n\t\t\treturn nil")],
 needs="adding an already known transaction several times with a small memory",
 breaks="duplicates occupy memory, so transactions among the M most recent are forgotten",
 demo=SYM("lt") + '''
func TestDemo(t *testing.T) {
	d := NewDecoder[*dd](salt, 3)
	d.AddTransaction(mk(1))
	d.AddTransaction(mk(2))
	for i := 0; i < 5; i++ {
		d.AddTransaction(mk(2))
	}
	if _, n := d.AddCodeword(cwOf(1)); len(n) != 0 {
		t.Fatal("forgotten too early")
	}
}
'''),
dict(id="c12-failed-stub-leak", prop="C12", pkg="iblt",
 edits=[("iblt/decoder.go", "\t\t\t\t\t\tif failed {\n\t\t\t\t\t\t\tdelete(p.pendingTransactions, failedTxSaltedHash)\n\t\t\t\t\t\t}", "\t\t\t\t\t\tif failed && p.memory > len(p.recentTransactions) {\n\t\t\t\t\t\t\tdelete(p.pendingTransactions, failedTxSaltedHash)\n\t\t\t\t\t\t}")],
 needs="a long run at full memory with codewords that fail verification",
 breaks="a stub per failed codeword is retained forever",
 demo=SYM("iblt") + '''
func TestDemo(t *testing.T) {
	d := NewDecoder[*dd](salt, 1)
	d.AddTransaction(mk(0))
	for i := 1; i < 1000; i++ {
		c := cwOf(i)
		c.symbol[20] ^= 1
		d.AddCodeword(c)
	}
	if len(d.pendingTransactions) > 10 {
		t.Fatal("stubs retained", len(d.pendingTransactions))
	}
}
'''),
dict(id="c13-failure-drops-shared-stub", prop="C13", pkg="lt",
 edits=[("lt/decoder.go", "\t\t\t\t\t\tif failed {\n\t\t\t\t\t\t\tdelete(p.pendingTransactions, failedTxSaltedHash)\n\t\t\t\t\t\t}", "\t\t\t\t\t\tif failed || len(decodableTx.blocking) == 1 {\n\t\t\t\t\t\t\tfailedTxSaltedHash = decodableTx.saltedHash\n\t\t\t\t\t\t\tdelete(p.pendingTransactions, failedTxSaltedHash)\n\t\t\t\t\t\t}")],
 needs="a damaged codeword down to one transaction that exactly one other, intact codeword is waiting for",
 breaks="the intact codeword is cut off: it never decodes, or a later step crashes",
 demo=SYM("lt") + '''
func TestDemo(t *testing.T) {
	d := NewDecoder[*dd](salt, 100)
	d.AddCodeword(cwOf(1, 2))
	bad := cwOf(1)
	bad.symbol[20] ^= 1
	d.AddCodeword(bad)
	d.AddTransaction(mk(1))
	_, n := d.AddCodeword(cwOf(1))
	if _, m := d.AddCodeword(cwOf(2)); len(n) != 0 || len(m) != 0 {
		t.Fatal("2 should be known already", len(n), len(m))
	}
}
'''),
dict(id="c13-repeated-member-shortcut", prop="C13", pkg="iblt",
 edits=[("iblt/decoder.go", "\tfor idx, ptr := range peelable.members {\n\t\tif ptr == stub {", "\tif n := len(peelable.members); n > 1 && peelable.members[0] == stub && peelable.members[n-1] == stub {\n\t\tpeelable.members = peelable.members[:0]\n\t\treturn\n\t}\n\tfor idx, ptr := range peelable.members {\n\t\tif ptr == stub {")],
 needs="a damaged codeword listing the same transaction first and last, later recovered elsewhere",
 breaks="the decoder crashes while peeling the repeated entry a second time",
 demo=SYM("iblt") + '''
func TestDemo(t *testing.T) {
	d := NewDecoder[*dd](salt, 100)
	c := cwOf(1)
	c.members = append(c.members, c.members[0])
	d.AddCodeword(c)
	d.AddTransaction(mk(1))
}
'''),
]
