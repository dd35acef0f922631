# Second round for the codecs: sizes and histories far from ordinary use.
import os, runpy
_d = os.path.dirname(os.path.abspath(__file__))
RS = runpy.run_path(_d + "/riblt.py")["SYM"]
LS = runpy.run_path(_d + "/lt.py")["SYM"]
PS = runpy.run_path(_d + "/ldpc.py")["H"]
RD, RE, RK = "riblt/decoder.go", "riblt/encoder.go", "riblt/sketch.go"
SEEDS = [
dict(id="c02-attempt-bounded", prop="C02", pkg="riblt",
 edits=[(RD, "\tfor didx := 0; didx < len(d.dirty); didx += 1 {\n", "\tdidx := 0\n\tfor ; didx < len(d.dirty) && didx < 1<<14; didx += 1 {\n"),
        (RD, "\td.dirty = d.dirty[:0]\n}\n\nfunc (d *Decoder[T]) Reset", "\t// what is left is looked at in the next attempt\n\td.dirty = append(d.dirty[:0], d.dirty[didx:]...)\n}\n\nfunc (d *Decoder[T]) Reset")],
 needs="an attempt that has to look at more than 16384 coded symbols",
 breaks="an attempt stops before everything recoverable is recovered",
 demo=RS + '''
func TestDemo(t *testing.T) {
	var e Encoder[dsym]
	var d Decoder[dsym]
	for i := 0; i < 14000; i++ {
		e.AddSymbol(mk(i))
	}
	for i := 0; i < 24000; i++ {
		d.AddCodedSymbol(e.ProduceNextCodedSymbol())
	}
	d.TryDecode()
	if !d.Decoded() || len(d.Remote()) != 14000 {
		t.Fatal(d.Decoded(), len(d.Remote()))
	}
}
'''),
dict(id="c02-heap-depth", prop="C02", pkg="riblt",
 edits=[(RE, "\tcurr := len(m)-1\n\tfor {\n", "\tcurr := len(m)-1\n\tfor level := 0; level < 10; level++ {\n")],
 needs="a symbol recovered late by a decoder that has recovered more than 1024 already, whose next position must rise to the top of the heap",
 breaks="the symbol is not peeled from coded symbols that arrive later",
 demo=RS + '''
func TestDemo(t *testing.T) {
	var e Encoder[dsym]
	var d Decoder[dsym]
	const n = 20000
	for i := 0; i < n; i++ {
		e.AddSymbol(mk(i))
	}
	for i := 0; i < 4*n; i++ {
		d.AddCodedSymbol(e.ProduceNextCodedSymbol())
		if i > n && i%20 == 0 {
			d.TryDecode()
		}
		if len(d.Remote()) > n || len(d.Local()) > 0 || i > 2*n && !d.Decoded() {
			d.TryDecode()
			if !d.Decoded() {
				t.Fatal(i, len(d.Remote()), len(d.Local()))
			}
		}
	}
}
'''),
dict(id="c01-zero-by-half-checksum", prop="C01", pkg="riblt",
 edits=[(RD, "\t\tcase 0:\n\t\t\tif c.checksum == 0 {\n", "\t\tcase 0:\n\t\t\tif uint32(c.checksum) == 0 {\n")],
 needs="a remote and a local symbol whose hashes agree in the lower half",
 breaks="completion is reported while the pair is still unexplained",
 demo=RS + '''
func TestDemo(t *testing.T) {
	force[mk(1)] = 0x1111111122222222
	force[mk(2)] = 0x9999999922222222
	var e Encoder[dsym]
	var d Decoder[dsym]
	e.AddSymbol(mk(1))
	d.AddSymbol(mk(2))
	for i := 0; i < 100; i++ {
		d.AddCodedSymbol(e.ProduceNextCodedSymbol())
		d.TryDecode()
		if d.Decoded() && (len(d.Remote()) != 1 || len(d.Local()) != 1) {
			t.Fatal("done too early")
		}
	}
}
'''),
dict(id="c04-large-sketch", prop="C04", pkg="riblt",
 edits=[(RK, "\tfor _, c := range s {\n", "\tfor i, c := range s {\n\t\tif i >= 1<<16 {\n\t\t\tbreak\n\t\t}\n")],
 needs="a sketch of more than 65536 cells and a difference that needs them",
 breaks="fails although the cells determine the difference",
 demo=RS + '''
func TestDemo(t *testing.T) {
	a, b := make(Sketch[dsym], 90000), make(Sketch[dsym], 90000)
	for i := 0; i < 60000; i++ {
		a.AddSymbol(mk(i))
	}
	x, y, ok := a.Subtract(b).Decode()
	if !ok || len(x) != 60000 || len(y) != 0 {
		t.Fatal(ok, len(x), len(y))
	}
}
'''),
dict(id="c01-local-not-copied", prop="C01", pkg="riblt",
 edits=[(RD, "\t\t\t\tns := HashedSymbol[T]{}\n\t\t\t\tns.Symbol = ns.Symbol.XOR(c.sum)\t// force duplicate the symbol data\n\t\t\t\tns.Hash = h\n\t\t\t\tm := d.applyNewSymbol(ns, add)\n", "\t\t\t\tns := HashedSymbol[T]{c.sum, h}\n\t\t\t\tm := d.applyNewSymbol(ns, add)\n")],
 needs="symbols whose XOR works in place, and a symbol only the decoder has",
 breaks="the reported symbol is overwritten while it is peeled",
 demo=RS + '''
func TestDemo(t *testing.T) {
	var e Encoder[*psym]
	var d Decoder[*psym]
	e.AddSymbol(mkp(1))
	d.AddSymbol(mkp(1))
	d.AddSymbol(mkp(2))
	for i := 0; i < 20; i++ {
		d.AddCodedSymbol(e.ProduceNextCodedSymbol())
	}
	d.TryDecode()
	if len(d.Local()) != 1 || *d.Local()[0].Symbol != *mkp(2) {
		t.Fatal("content")
	}
}
'''),
dict(id="c11-reset-of-empty-ignored", prop="C11", pkg="lt",
 edits=[("lt/encoder.go", "\te.degreeDist = dist\n\te.window = e.window[:0]\n", "\tif len(e.window) == 0 {\n\t\t// nothing to do\n\t\treturn\n\t}\n\te.degreeDist = dist\n\te.window = e.window[:0]\n")],
 needs="a reset before anything was added (or right after another reset)",
 breaks="the new window size and degree distribution are not applied",
 demo=LS("lt") + '''
func TestDemo(t *testing.T) {
	e := enc(3)
	one := uint64(2)
	e.Reset(deg{&one}, 2)
	for i := 0; i < 10; i++ {
		e.AddTransaction(mk(i))
	}
	if n := len(e.ProduceCodeword().members); n != 2 {
		t.Fatal(n)
	}
	if !e.AddTransaction(mk(7)) {
		t.Fatal("displaced transaction refused")
	}
}
'''),
dict(id="c12-memory-aged-by-conflict", prop="C12", pkg="lt",
 edits=[("lt/decoder.go", "\tif existing, there := p.receivedTransactions[saltedHash]; !there {\n\t\tp.storeNewTransaction(saltedHash, t)\n\t\tif pending", "\tif existing, there := p.receivedTransactions[saltedHash]; !there {\n\t\tif len(p.recentTransactions) == p.memory && len(p.pendingTransactions) == 0 && p.memory > 1 {\n\t\t\t// make room for the answers to come\n\t\t\tdelete(p.receivedTransactions, p.recentTransactions[0].saltedHash)\n\t\t\tp.recentTransactions = p.recentTransactions[1:]\n\t\t}\n\t\tif len(p.recentTransactions) == p.memory-1 && p.memory > 1000 {\n\t\t\tdelete(p.receivedTransactions, p.recentTransactions[0].saltedHash)\n\t\t\tp.recentTransactions = p.recentTransactions[1:]\n\t\t}\n\t\tp.storeNewTransaction(saltedHash, t)\n\t\tif pending")],
 needs="a decoder remembering more than 1000 transactions, filled by adding",
 breaks="one transaction fewer than the memory is remembered",
 demo=LS("lt") + '''
func TestDemo(t *testing.T) {
	d := NewDecoder[*dd](salt, 1500)
	for i := 0; i < 1500; i++ {
		d.AddTransaction(mk(i))
	}
	if !d.HasDecoded(mk(0)) {
		t.Fatal("forgotten too early")
	}
}
'''),
dict(id="c10-degree-16bit", prop="C10", pkg="lt",
 edits=[("lt/encoder.go", "\tc.members = make([]uint32, deg)\n", "\tif deg >= 1<<16 {\n\t\tdeg = 1 + deg%(1<<16)\n\t}\n\tc.members = make([]uint32, deg)\n")],
 needs="a window and a degree of 65536 or more",
 breaks="the codeword combines the degree modulo 65536 transactions",
 demo=LS("lt") + '''
func TestDemo(t *testing.T) {
	e := enc(70000)
	for i := 0; i < 70000; i++ {
		e.AddTransaction(mk(i))
	}
	curDeg = 1 << 20
	if n := len(e.ProduceCodeword().members); n < 69000 {
		t.Fatal(n)
	}
}
'''),
dict(id="c09-stack-reversed-dropped", prop="C09", pkg="lt",
 edits=[("lt/decoder.go", "\t\tif len(peelable.members) <= 1 && !peelable.queued {\n", "\t\tif len(peelable.members) <= 1 && !peelable.queued && len(decodableCws) < 1<<12 {\n")],
 needs="one transaction that unlocks more than 4096 codewords",
 breaks="the codewords beyond are never decoded",
 demo=LS("lt") + '''
func TestDemo(t *testing.T) {
	d := NewDecoder[*dd](salt, 100000)
	for i := 1; i <= 5000; i++ {
		d.AddCodeword(cwOf(0, i))
	}
	if got := d.AddTransaction(mk(0)); len(got) != 5000 {
		t.Fatal(len(got))
	}
}
'''),
dict(id="c16-empty-not-reset", prop="C16", pkg="ldpc",
 edits=[("ldpc/encoder.go", "\te.windowSize = ws\n", "\tif ws < e.windowSize || len(e.hashes) > 0 {\n\t\te.windowSize = ws\n\t}\n")],
 needs="a reset to a larger window before anything was added",
 breaks="the window keeps the old size",
 demo=PS + '''
func TestDemo(t *testing.T) {
	five := uint64(5)
	e := NewEncoder(salt, deg{&five}, 3)
	e.Reset(deg{&five}, 5)
	for i := 0; i < 10; i++ {
		e.AddTransaction(mk(i))
	}
	if n := len(e.ProduceCodeword().Members); n != 5 {
		t.Fatal(n)
	}
}
'''),
dict(id="c15-plain-free-list", prop="C15", pkg="ldpc", flags="-race",
 edits=[("ldpc/decoder.go", "var pendingTransactionPool = sync.Pool{\n", "// stubs come and go far more often than codewords: a plain list is faster\ntype stubList struct {\n\tfree []*pendingTransaction\n\tNew  func() interface{}\n}\n\nfunc (l *stubList) Get() interface{} {\n\tn := len(l.free)\n\tif n < 1024 {\n\t\treturn l.New()\n\t}\n\tx := l.free[n-1]\n\tl.free = l.free[:n-1]\n\treturn x\n}\n\nfunc (l *stubList) Put(x interface{}) { l.free = append(l.free, x.(*pendingTransaction)) }\n\nvar pendingTransactionPool = stubList{\n")],
 needs="decoders on different goroutines",
 breaks="the free list of transaction stubs is shared without synchronisation",
 demo=PS + '''
func TestDemo(t *testing.T) {
	done := make(chan bool)
	for g := 0; g < 4; g++ {
		go func() {
			d := NewDecoder(salt, 100)
			for i := 0; i < 5000; i++ {
				d.AddCodeword(cwOf(i))
			}
			done <- true
		}()
	}
	for g := 0; g < 4; g++ {
		<-done
	}
}
'''),
]
SEEDS = [s for s in SEEDS if s["needs"] != "-"]
