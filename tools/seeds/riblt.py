SYM = '''package riblt

import "testing"

type dsym [2]uint64

func (d dsym) XOR(o dsym) dsym { d[0] ^= o[0]; d[1] ^= o[1]; return d }
func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

var force = map[dsym]uint64{}

func (d dsym) Hash() uint64 {
	if h, ok := force[d]; ok {
		return h
	}
	return mix(d[0] ^ mix(d[1]))
}
func mk(i int) dsym { return dsym{uint64(i), mix(uint64(i))} }

type psym [3]uint64

func (d *psym) XOR(o *psym) *psym {
	if d == nil {
		d = &psym{}
	}
	for i := range d {
		d[i] ^= o[i]
	}
	return d
}
func (d *psym) Hash() uint64 { return mix(d[0] ^ mix(d[1]^mix(d[2]))) }
func mkp(i int) *psym { return &psym{uint64(i), mix(uint64(i)), 5} }

'''
SEEDS = [
dict(id="c01-checksum-truncated", prop="C01", pkg="riblt",
 edits=[("riblt/decoder.go", "\t\tcase -1:\n\t\t\th := c.sum.Hash()\n\t\t\tif h == c.checksum {", "\t\tcase -1:\n\t\t\th := c.sum.Hash()\n\t\t\tif uint32(h) == uint32(c.checksum) {")],
 needs="three unrecovered symbols in one coded symbol (net count -1) whose XOR has a hash agreeing with the XOR of hashes in the low 32 bits",
 breaks="the decoder reports a fabricated local symbol and completes with a wrong difference",
 demo=SYM + '''
func TestDemo(t *testing.T) {
	a, b, x := mk(1), mk(2), mk(3)
	force[a.XOR(b).XOR(x)] = (a.Hash() ^ b.Hash() ^ x.Hash()) + 1<<40
	var e Encoder[dsym]
	var d Decoder[dsym]
	e.AddSymbol(x)
	d.AddSymbol(a)
	d.AddSymbol(b)
	for i := 0; i < 200; i++ {
		d.AddCodedSymbol(e.ProduceNextCodedSymbol())
		d.TryDecode()
		for _, l := range d.Local() {
			if l.Symbol != a && l.Symbol != b {
				t.Fatal("fabricated symbol", l)
			}
		}
	}
}
'''),
dict(id="c02-trydecode-one-generation", prop="C02", pkg="riblt",
 edits=[("riblt/decoder.go", "\tfor didx := 0; didx < len(d.dirty); didx += 1 {", "\tn := len(d.dirty)\n\tfor didx := 0; didx < n; didx += 1 {"),
        ("riblt/decoder.go", "\t\td.cs[cidx].dirty = false\n\t}\n\td.dirty = d.dirty[:0]", "\t\td.cs[cidx].dirty = false\n\t}\n\td.dirty = d.dirty[:copy(d.dirty, d.dirty[n:])]")],
 needs="a decoding attempt in which one recovery makes further coded symbols pure, and no later attempt before the result is read",
 breaks="an attempt stops after one generation of peeling and reports less than the received coded symbols determine",
 demo=SYM + '''
func TestDemo(t *testing.T) {
	var e Encoder[dsym]
	var d Decoder[dsym]
	for i := 0; i < 100; i++ {
		e.AddSymbol(mk(i))
	}
	for i := 0; i < 600; i++ {
		d.AddCodedSymbol(e.ProduceNextCodedSymbol())
	}
	d.TryDecode()
	if !d.Decoded() || len(d.Remote()) != 100 {
		t.Fatal("decoded", d.Decoded(), len(d.Remote()))
	}
}
'''),
dict(id="c05-density-shift", prop="C05", pkg="riblt",
 edits=[("riblt/random.go", "xm := float64(r) / (1 << 64)", "xm := float64(r>>1) / (1 << 63) * 0.85")],
 needs="only visible statistically, over thousands of symbols",
 breaks="early positions hold clearly more symbols than 1/(1+i/2), which raises the overhead",
 demo=SYM + '''
func TestDemo(t *testing.T) {
	n := 0
	for i := 0; i < 40000; i++ {
		x := randomMapping{mk(i).Hash(), 0}
		if x.nextIndex() == 1 {
			n++
		}
	}
	if f := float64(n) / 40000; f < 0.60 || f > 0.71 {
		t.Fatal("fraction at position 1", f)
	}
}
'''),
dict(id="c05-index-int32", prop="C05", pkg="riblt",
 edits=[("riblt/encoder.go", "e.queue[0].codedIdx = int(nextMap)", "e.queue[0].codedIdx = int(int32(nextMap))")],
 needs="a symbol whose next position exceeds 2^31 (a hash driving the generator close to its maximum)",
 breaks="the position wraps, the stream loses its ordering and every other symbol stops contributing",
 demo=SYM + '''
func inv(a uint64) uint64 {
	x := a
	for i := 0; i < 6; i++ {
		x *= 2 - a*x
	}
	return x
}
func TestDemo(t *testing.T) {
	mul := uint64(0xda942042e4dd58b5)
	for k := uint64(1); k < 60; k++ {
		h := inv(mul) * (^uint64(0) - (1<<(k%12)) + 1)
		var e, f Encoder[dsym]
		for i := 0; i < 50; i++ {
			e.AddSymbol(mk(i))
			f.AddSymbol(mk(i))
		}
		e.AddHashedSymbol(HashedSymbol[dsym]{mk(1000), h})
		f.AddHashedSymbol(HashedSymbol[dsym]{mk(1000), h})
		s := make(Sketch[dsym], 300)
		for i := 0; i < 50; i++ {
			s.AddSymbol(mk(i))
		}
		s.AddHashedSymbol(HashedSymbol[dsym]{mk(1000), h})
		for i := range s {
			if e.ProduceNextCodedSymbol() != s[i] {
				t.Fatalf("cell %d differs for hash %x", i, h)
			}
		}
	}
}
'''),
dict(id="c03-source-index-16bit", prop="C03", pkg="riblt",
 edits=[("riblt/encoder.go", "\tsourceIdx int\n", "\tsourceIdx uint16\n"),
        ("riblt/encoder.go", "symbolMapping{len(e.symbols)-1, int(m.lastIdx)}", "symbolMapping{uint16(len(e.symbols)-1), int(m.lastIdx)}")],
 needs="a set of more than 65536 symbols",
 breaks="coded symbols of large sets fold in the wrong symbols",
 demo=SYM + '''
func TestDemo(t *testing.T) {
	var e Encoder[dsym]
	s := make(Sketch[dsym], 5)
	for i := 0; i < 66000; i++ {
		e.AddSymbol(mk(i))
		s.AddSymbol(mk(i))
	}
	for i := range s {
		if e.ProduceNextCodedSymbol() != s[i] {
			t.Fatal("cell", i)
		}
	}
}
'''),
dict(id="c04-skip-empty-cells", prop="C04", pkg="riblt",
 edits=[("riblt/sketch.go", "\tfor _, c := range s {\n\t\tdec.AddCodedSymbol(c)", "\tfor _, c := range s {\n\t\tif c.count == 0 && c.checksum == 0 {\n\t\t\tcontinue\n\t\t}\n\t\tdec.AddCodedSymbol(c)")],
 needs="a difference sketch with an empty cell before a non-empty one",
 breaks="cells shift to wrong positions; decoding fails or corrupts although the sketch determines the difference",
 demo=SYM + '''
func TestDemo(t *testing.T) {
	for n := 1; n < 30; n++ {
		a, b := make(Sketch[dsym], 200), make(Sketch[dsym], 200)
		for i := 0; i < n; i++ {
			a.AddSymbol(mk(i))
		}
		for i := 10; i < 40; i++ {
			a.AddSymbol(mk(i + 1000))
			b.AddSymbol(mk(i + 1000))
		}
		r, l, ok := a.Subtract(b).Decode()
		if !ok || len(r) != n || len(l) != 0 {
			t.Fatal(n, ok, len(r), len(l))
		}
	}
}
'''),
dict(id="c04-success-by-count", prop="C04", pkg="riblt",
 edits=[("riblt/sketch.go", "return dec.Remote(), dec.Local(), dec.Decoded()", "return dec.Remote(), dec.Local(), len(s) == 0 || dec.Decoded() || (len(dec.Remote())+len(dec.Local()) > 0 && int64(len(dec.Remote())-len(dec.Local())) == s[0].count)")],
 needs="decoding that gets stuck with equally many symbols of both sides missing",
 breaks="a stuck decoding is reported as success with part of the difference missing",
 demo=SYM + '''
func TestDemo(t *testing.T) {
	for n := 0; n < 3000; n++ {
		a, b := make(Sketch[dsym], 9), make(Sketch[dsym], 9)
		for i := 0; i < 4; i++ {
			a.AddSymbol(mk(n*100 + i))
			b.AddSymbol(mk(n*100 + 50 + i))
		}
		r, l, ok := a.Subtract(b).Decode()
		if ok && (len(r) != 4 || len(l) != 4) {
			t.Fatal(n, ok, len(r), len(l))
		}
	}
}
'''),
dict(id="c06-reset-empty-window", prop="C06", pkg="riblt",
 edits=[("riblt/encoder.go", "func (e *codingWindow[T]) reset() {\n\tif len(e.symbols) != 0 {\n\t\te.symbols = e.symbols[:0]\n\t}", "func (e *codingWindow[T]) reset() {\n\tif len(e.symbols) == 0 {\n\t\treturn\n\t}\n\te.symbols = e.symbols[:0]")],
 needs="a reset after coded symbols were processed while one of the windows held no symbol",
 breaks="the position counter of the empty window survives the reset, so symbols of that side are peeled at shifted positions afterwards",
 demo=SYM + '''
func TestDemo(t *testing.T) {
	var e Encoder[dsym]
	var d Decoder[dsym]
	for round := 0; round < 3; round++ {
		e.Reset()
		d.Reset()
		if round == 0 { // nothing is recovered in the first round
			for i := 0; i < 5; i++ {
				d.AddCodedSymbol(e.ProduceNextCodedSymbol())
			}
			continue
		}
		for i := 0; i < 40; i++ {
			e.AddSymbol(mk(i))
			d.AddSymbol(mk(i + 20))
		}
		for i := 0; i < 300 && (i == 0 || !d.Decoded()); i++ {
			d.AddCodedSymbol(e.ProduceNextCodedSymbol())
			d.TryDecode()
		}
		if !d.Decoded() || len(d.Remote()) != 20 || len(d.Local()) != 20 {
			t.Fatal(round, d.Decoded(), len(d.Remote()), len(d.Local()))
		}
	}
}
'''),
dict(id="c06-dirty-survives-reset", prop="C06", pkg="riblt",
 edits=[("riblt/decoder.go", "\tif len(d.dirty) != 0 {\n\t\td.dirty = d.dirty[:0]\n\t}\n", "")],
 needs="a decoder reset while arrived coded symbols have not been through a decoding attempt",
 breaks="stale work items index into the new round's coded symbols: crash or miscounted completion",
 demo=SYM + '''
func TestDemo(t *testing.T) {
	var e Encoder[dsym]
	var d Decoder[dsym]
	e.AddSymbol(mk(1))
	for i := 0; i < 5; i++ {
		d.AddCodedSymbol(e.ProduceNextCodedSymbol())
	}
	d.Reset()
	d.TryDecode()
	if !d.Decoded() {
		t.Fatal("not decoded")
	}
}
'''),
dict(id="c07-sketch-aliases-first-symbol", prop="C07", pkg="riblt",
 edits=[("riblt/sketch.go", "\t\ts[idx].sum = s[idx].sum.XOR(t.Symbol)\n", "\t\tif s[idx].count == 0 {\n\t\t\ts[idx].sum = t.Symbol\n\t\t} else {\n\t\t\ts[idx].sum = s[idx].sum.XOR(t.Symbol)\n\t\t}\n")],
 needs="pointer-typed symbols with an in-place XOR and a sketch of two or more symbols",
 breaks="the first symbol of each cell, owned by the caller, is overwritten with the running sum",
 demo=SYM + '''
func TestDemo(t *testing.T) {
	s := make(Sketch[*psym], 10)
	x := []*psym{}
	for i := 0; i < 10; i++ {
		x = append(x, mkp(i))
		s.AddSymbol(x[i])
	}
	for i := range x {
		if *x[i] != *mkp(i) {
			t.Fatal("symbol changed", i)
		}
	}
}
'''),
dict(id="c07-shared-generator-memo", prop="C07", pkg="riblt", flags="-race",
 edits=[("riblt/random.go", "func (s *randomMapping) nextIndex() uint64 {\n", "var memoIn, memoOut uint64\n\nfunc (s *randomMapping) nextIndex() uint64 {\n"),
        ("riblt/random.go", "\ts.prng = r\n", "\tif s.prng == memoIn {\n\t\tr = memoOut\n\t} else {\n\t\tmemoIn, memoOut = s.prng, r\n\t}\n\ts.prng = r\n")],
 needs="two instances used from different goroutines at the same time",
 breaks="a shared memo is read and written without synchronisation; a torn pair sends a symbol to wrong positions",
 demo=SYM + '''
func TestDemo(t *testing.T) {
	done := make(chan bool)
	for g := 0; g < 4; g++ {
		go func(g int) {
			var e Encoder[dsym]
			for i := 0; i < 200; i++ {
				e.AddSymbol(mk(i + g))
			}
			for i := 0; i < 500; i++ {
				e.ProduceNextCodedSymbol()
			}
			done <- true
		}(g)
	}
	for g := 0; g < 4; g++ {
		<-done
	}
}
'''),
dict(id="c01-local-window-lag", prop="C01", pkg="riblt",
 edits=[("riblt/decoder.go", "\tc = d.local.applyWindow(c, add)\n\tif c.count == 0 && c.checksum == 0 {", "\tif c.count == 0 && c.checksum == 0 && len(d.local.symbols) == 0 {\n\t\td.cs = append(d.cs, receivedSymbol[T]{c, false})\n\t\treturn\n\t}\n\tc = d.local.applyWindow(c, add)\n\tif c.count == 0 && c.checksum == 0 {")],
 needs="an empty coded symbol arriving before the first local-only symbol is recovered, then a local-only symbol recovered and further coded symbols",
 breaks="the local window falls behind, so later coded symbols keep already recovered symbols: completion withdrawn, phantom symbols reported",
 demo=SYM + '''
func TestDemo(t *testing.T) {
	for n := 0; n < 200; n++ {
		var e Encoder[dsym]
		var d Decoder[dsym]
		d.AddSymbol(mk(n))
		d.AddSymbol(mk(n + 1000))
		for i := 0; i < 60; i++ {
			d.AddCodedSymbol(e.ProduceNextCodedSymbol())
			if i >= 25 {
				d.TryDecode()
			}
			if len(d.Local()) > 2 || len(d.Remote()) > 0 {
				t.Fatal("phantom symbols", len(d.Local()), len(d.Remote()))
			}
		}
		if !d.Decoded() || len(d.Local()) != 2 {
			t.Fatal(n, d.Decoded(), len(d.Local()), len(d.Remote()))
		}
	}
}
'''),
]
