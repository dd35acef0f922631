# Third round, for properties with few planted bugs.
import os, runpy
_d = os.path.dirname(os.path.abspath(__file__))
RS = runpy.run_path(_d + "/riblt.py")["SYM"]
LS = runpy.run_path(_d + "/lt.py")["SYM"]
PS = runpy.run_path(_d + "/ldpc.py")["H"]
RD, RE, RK, RR, RY = "riblt/decoder.go", "riblt/encoder.go", "riblt/sketch.go", "riblt/random.go", "riblt/symbol.go"
LD, LE = "lt/decoder.go", "lt/encoder.go"
PD, PE, PT = "ldpc/decoder.go", "ldpc/encoder.go", "ldpc/transaction.go"
SEEDS = [
dict(id="c03-count-16bit", prop="C03", pkg="riblt",
 edits=[(RY, "\tc.count += direction\n", "\tc.count = int64(int16(c.count + direction))\n")],
 needs="more than 32767 symbols in one coded symbol", breaks="the count wraps",
 demo=RS + '''
func TestDemo(t *testing.T) {
	var e Encoder[dsym]
	for i := 0; i < 40000; i++ {
		e.AddSymbol(mk(i))
	}
	if c := e.ProduceNextCodedSymbol(); c.count != 40000 {
		t.Fatal(c.count)
	}
}
'''),
dict(id="c03-same-hash-dropped", prop="C03", pkg="riblt",
 edits=[(RE, "\te.addHashedSymbolWithMapping(t, randomMapping{t.Hash , 0})\n", "\tif l := len(e.symbols); l > 0 && e.symbols[l-1].Hash == t.Hash {\n\t\t// the caller repeats itself\n\t\treturn\n\t}\n\te.addHashedSymbolWithMapping(t, randomMapping{t.Hash , 0})\n")],
 needs="two different symbols of the same hash added one after the other", breaks="the second is not in the stream",
 demo=RS + '''
func TestDemo(t *testing.T) {
	force[mk(1)], force[mk(2)] = 77, 77
	var e Encoder[dsym]
	e.AddSymbol(mk(1))
	e.AddSymbol(mk(2))
	if c := e.ProduceNextCodedSymbol(); c.count != 2 || c.sum != mk(1).XOR(mk(2)) {
		t.Fatal(c)
	}
}
'''),
dict(id="c03-last-of-many-unsorted", prop="C03", pkg="riblt",
 edits=[(RE, "\t\tif rc := child + 1; rc < len(m) &&", "\t\tif rc := child + 1; rc < len(m) && rc != 1<<14 &&")],
 needs="a set of more than 16384 symbols", breaks="a symbol misses positions it is mapped to",
 demo=RS + '''
func TestDemo(t *testing.T) {
	var e Encoder[dsym]
	const n, m = 30000, 60000
	s := make(Sketch[dsym], m)
	for i := 0; i < n; i++ {
		e.AddSymbol(mk(i))
		s.AddSymbol(mk(i))
	}
	for i := 0; i < m; i++ {
		if c := e.ProduceNextCodedSymbol(); c != s[i] {
			t.Fatal(i)
		}
	}
}
'''),
dict(id="c05-additive-generator", prop="C05", pkg="riblt",
 edits=[(RR, "\tr := s.prng * 0xda942042e4dd58b5", "\tr := s.prng + 0xda942042e4dd58b5")],
 needs="a count of how many symbols contribute to each position", breaks="successive steps depend on each other: the densities are off",
 demo=RS + '''
func TestDemo(t *testing.T) {
	const n, m = 200000, 40
	var cnt [m]int
	for i := 0; i < n; i++ {
		g := randomMapping{mk(i).Hash(), 0}
		for g.lastIdx < m {
			cnt[g.lastIdx]++
			g.nextIndex()
		}
	}
	for i := range cnt {
		f, want := float64(cnt[i])/n, 1/(1+float64(i)/2)
		if f > 1.15*want+0.003 || f < 0.85*want-0.003 {
			t.Fatal(i, f, want)
		}
	}
}
'''),
dict(id="c05-far-step-rounded", prop="C05", pkg="riblt",
 edits=[(RR, "\txm := float64(r) / (1 << 64)\n", "\txm := float64(r) / (1 << 64)\n\tif s.lastIdx > 1<<20 {\n\t\t// so far out, a coarse step will do\n\t\txm = float64(r>>60) / 16\n\t}\n")],
 needs="positions beyond a million", breaks="a symbol contributes to many positions in a row",
 demo=RS + '''
func TestDemo(t *testing.T) {
	n, k := 4000, 0
	for i := 0; i < n; i++ {
		g := randomMapping{mk(i).Hash(), 0}
		for g.lastIdx < 1<<24 {
			if g.lastIdx > 1<<22 {
				k++
			}
			g.nextIndex()
		}
	}
	// sum of 1/(1+i/2) from 2^22 to 2^24 is 2 ln 4 = 2.77
	if f := float64(k) / float64(n); f < 2.6 || f > 2.95 {
		t.Fatal(f)
	}
}
'''),
dict(id="c06-mapping-recycled", prop="C06", pkg="riblt",
 edits=[(RE, "\te.mappings = append(e.mappings, m)\n", "\tif l := len(e.mappings); l < cap(e.mappings) {\n\t\t// a recycled one starts from the first coded symbol already\n\t\te.mappings = e.mappings[:l+1]\n\t\te.mappings[l].prng = m.prng\n\t\tif m.lastIdx > 0 {\n\t\t\te.mappings[l].lastIdx = m.lastIdx\n\t\t}\n\t} else {\n\t\te.mappings = append(e.mappings, m)\n\t}\n")],
 needs="a reset of an encoder or decoder that has produced or received coded symbols", breaks="symbols go on from where those before the reset were",
 demo=RS + '''
func TestDemo(t *testing.T) {
	var e, f Encoder[dsym]
	e.AddSymbol(mk(1))
	for i := 0; i < 10; i++ {
		e.ProduceNextCodedSymbol()
	}
	e.Reset()
	e.AddSymbol(mk(2))
	f.AddSymbol(mk(2))
	for i := 0; i < 50; i++ {
		if e.ProduceNextCodedSymbol() != f.ProduceNextCodedSymbol() {
			t.Fatal(i)
		}
	}
}
'''),
dict(id="c06-local-kept-without-remote", prop="C06", pkg="riblt",
 edits=[(RD, "\td.local.reset()\n\td.remote.reset()\n\td.window.reset()\n", "\tif len(d.remote.symbols)+len(d.window.symbols) != 0 {\n\t\td.local.reset()\n\t\td.remote.reset()\n\t\td.window.reset()\n\t}\n")],
 needs="a reset of a decoder that has received coded symbols but recovered nothing and was given nothing", breaks="coded symbols received afterwards count from where those before the reset ended",
 demo=RS + '''
func TestDemo(t *testing.T) {
	var e Encoder[dsym]
	var d Decoder[dsym]
	for i := 0; i < 10; i++ {
		d.AddCodedSymbol(CodedSymbol[dsym]{})
	}
	d.Reset()
	for i := 0; i < 10; i++ {
		e.AddSymbol(mk(i))
		d.AddSymbol(mk(i))
	}
	e.AddSymbol(mk(99))
	for i := 0; i < 30; i++ {
		d.AddCodedSymbol(e.ProduceNextCodedSymbol())
	}
	d.TryDecode()
	if !d.Decoded() || len(d.Remote()) != 1 {
		t.Fatal(d.Decoded(), len(d.Remote()))
	}
}
'''),
dict(id="c07-lone-symbol-aliased", prop="C07", pkg="riblt",
 edits=[(RE, "\tfor e.queue[0].codedIdx == e.nextIdx {\n\t\tcw = cw.apply(e.symbols[e.queue[0].sourceIdx], direction)\n", "\tfor e.queue[0].codedIdx == e.nextIdx {\n\t\tif len(e.symbols) == 1 && cw.count == 0 && cw.checksum == 0 && direction == add {\n\t\t\t// nothing to combine it with\n\t\t\tcw.sum, cw.count, cw.checksum = e.symbols[0].Symbol, 1, e.symbols[0].Hash\n\t\t} else {\n\t\t\tcw = cw.apply(e.symbols[e.queue[0].sourceIdx], direction)\n\t\t}\n")],
 needs="a set of one symbol, whose XOR works in place, and a receiver which peels from the coded symbol", breaks="the caller's symbol is modified",
 demo=RS + '''
func TestDemo(t *testing.T) {
	var e Encoder[*psym]
	var d Decoder[*psym]
	s := mkp(1)
	e.AddSymbol(s)
	d.AddSymbol(mkp(2))
	for i := 0; i < 5; i++ {
		d.AddCodedSymbol(e.ProduceNextCodedSymbol())
		if *s != *mkp(1) {
			t.Fatal("modified")
		}
	}
}
'''),
dict(id="c07-shared-decoded-buffer", prop="C07", pkg="riblt",
 edits=[(RK, "\tdec := Decoder[T]{}\n", "\tdec := Decoder[T]{}\n\tif p, ok := spareDecoder.Load().(*Decoder[T]); ok {\n\t\tdec = *p\n\t\tdec.Reset()\n\t}\n\tdefer func() {\n\t\tif len(dec.remote.symbols)+len(dec.local.symbols) == 0 || len(s) > 1000 {\n\t\t\tspareDecoder = atomic.Value{}\n\t\t\tspareDecoder.Store(&dec)\n\t\t}\n\t}()\n"),
        (RK, "type Sketch[T", "import \"sync/atomic\"\n\n// spareDecoder is one whose memory can be used again.\nvar spareDecoder atomic.Value\n\ntype Sketch[T")],
 needs="two sketches of more than 1000 cells decoded one after the other", breaks="the differences reported for the first are overwritten by those of the second",
 demo=RS + '''
func TestDemo(t *testing.T) {
	sk := func(i int) Sketch[dsym] {
		s := make(Sketch[dsym], 1500)
		s.AddSymbol(mk(i))
		return s
	}
	x, _, _ := sk(1).Decode()
	sk(2).Decode()
	if len(x) != 1 || x[0].Symbol != mk(1) {
		t.Fatal(x)
	}
}
'''),
dict(id="c08-result-buffer-reused", prop="C08", pkg="lt",
 edits=[(LD, "\tnewTx := []Transaction[T]{}\n", "\tnewTx := p.decodedBuf[:0]\n"), (LD, "\treturn newTx\n}\n", "\tp.decodedBuf = newTx\n\treturn newTx\n}\n"),
        (LD, "\tmemory               int\n}", "\tmemory               int\n\tdecodedBuf           []Transaction[T]\n}")],
 needs="a caller that keeps what was handed out while it goes on", breaks="what was handed out earlier is replaced by what is handed out later",
 demo=LS("lt") + '''
func TestDemo(t *testing.T) {
	d := NewDecoder[*dd](salt, 100)
	_, a := d.AddCodeword(cwOf(1))
	_, b := d.AddCodeword(cwOf(2))
	if *a[0].Data() != *mk(1).Data() || *b[0].Data() != *mk(2).Data() {
		t.Fatal("content")
	}
}
'''),
dict(id="c14-forgotten-recycled", prop="C14", pkg="ldpc",
 edits=[(PD, "\t\t\tdelete(p.receivedTransactions, p.recentTransactions[0].hash)\n\t\t}\n", "\t\t\tdelete(p.receivedTransactions, p.recentTransactions[0].hash)\n\t\t\tp.spare = append(p.spare, e)\n\t\t}\n"),
        (PD, "\t\t\t\t\tdecodedTx := &Transaction{}\n", "\t\t\t\t\tdecodedTx := &Transaction{}\n\t\t\t\t\tif l := len(p.spare); l > 64 {\n\t\t\t\t\t\tdecodedTx = p.spare[0]\n\t\t\t\t\t\tp.spare = p.spare[1:]\n\t\t\t\t\t}\n"),
        (PD, "\tnumTransactionsMemorized int\n}", "\tnumTransactionsMemorized int\n\tspare []*Transaction // forgotten long ago\n}")],
 needs="a decoder that has forgotten more than 64 transactions and a look at what was handed out before", breaks="the content of a transaction handed out long ago changes",
 demo=PS + '''
func TestDemo(t *testing.T) {
	d := NewDecoder(salt, 10)
	var all []*Transaction
	for i := 0; i < 300; i++ {
		_, x := d.AddCodeword(cwOf(i))
		all = append(all, x[0].Transaction)
	}
	for i, x := range all {
		if *x != *mk(i) {
			t.Fatal(i)
		}
	}
}
'''),
dict(id="c10-position-16bit", prop="C10", pkg="lt",
 edits=[(LE, "\t\tr := e.r.Intn(n-i) + i\n", "\t\tr := int(e.r.Uint32()>>16)%(n-i) + i\n")],
 needs="a window of tens of thousands", breaks="some positions are chosen more often than others, or never",
 demo=LS("lt") + '''
func TestDemo(t *testing.T) {
	e := enc(90000)
	late := map[uint32]bool{}
	for i := 0; i < 90000; i++ {
		e.AddTransaction(mk(i))
		if i >= 66000 {
			late[e.window[len(e.window)-1].saltedHash] = true
		}
	}
	k := 0
	for i := 0; i < 2000; i++ {
		if late[e.ProduceCodeword().members[0]] {
			k++
		}
	}
	if k < 300 {
		t.Fatal(k)
	}
}
'''),
dict(id="c14-known-by-pointer", prop="C14", pkg="ldpc",
 edits=[(PD, "\t\tif existing.serialized == t.serialized {\n", "\t\tif existing == t {\n")],
 needs="a transaction decoded from a codeword (or unmarshalled twice) added by the user as another object", breaks="it is counted twice and takes two places of the memory",
 demo=PS + '''
func TestDemo(t *testing.T) {
	d := NewDecoder(salt, 100)
	d.AddCodeword(cwOf(1))
	d.AddTransaction(mk(1))
	if n := d.NumTransactionsReceived(); n != 1 {
		t.Fatal(n)
	}
}
'''),
dict(id="c17-reload-keeps-hash", prop="C17", pkg="ldpc",
 edits=[(PT, "\th := hasherPool.Get()", "\tif t.hash[0] != 0 {\n\t\t// hashed already\n\t\treturn nil\n\t}\n\th := hasherPool.Get()")],
 needs="an object loaded a second time with something else", breaks="it keeps the identity of the first",
 demo=PS + '''
func TestDemo(t *testing.T) {
	x := mk(1)
	x.UnmarshalBinary(mk(2).Serialized())
	if *x != *mk(2) {
		t.Fatal("identity")
	}
}
'''),
dict(id="c26-zero-seed-from-clock", prop="C26", pkg="simulator",
 edits=[("simulator/module.go", "\tres := []*server{}\n\tfor i := 0; i < n; i++ {\n", "\tres := []*server{}\n\tif startingSeed == 0 {\n\t\t// not given\n\t\tstartingSeed = time.Now().UnixNano()\n\t}\n\tfor i := 0; i < n; i++ {\n")],
 needs="the seed 0", breaks="two runs with it are different",
 demo='''package main

import (
	"testing"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
)

func TestDemo(t *testing.T) {
	run := func() int {
		txgen = newTransactionGenerator()
		sim := &des.Simulator{}
		srv := newServers(sim, 2, 0, serverConfig{blockArrivalIntv: 20 / float64(time.Second), blockArrivalBurst: 1, decoderMemory: 1000,
			senderConfig: senderConfig{detectThreshold: 5, controlOverhead: 0.5}, receiverConfig: receiverConfig{detectThreshold: 5}})
		connectServers(srv[0], srv[1], 20*time.Millisecond)
		sim.RunUntil(50 * time.Second)
		return sim.EventsDelivered()
	}
	a, b, c := run(), run(), run()
	if a != b || b != c {
		t.Fatal(a, b, c)
	}
}
'''),
dict(id="c19-delivered-counts-scheduled", prop="C19", pkg="des",
 edits=[("des/simulator.go", "\tm := heap.Pop(&s.mq).(queuedMessage)\n", "\tif cap(s.mq) > 4096 && len(s.mq) < cap(s.mq)/8 {\n\t\t// give memory back after a burst\n\t\ts.mq = append(make(priorityQueue, 0, len(s.mq)), s.mq...)\n\t\theap.Init(&s.mq)\n\t\ts.seq = len(s.mq)\n\t}\n\tm := heap.Pop(&s.mq).(queuedMessage)\n")],
 needs="a queue that has held thousands of messages and drains", breaks="the number of delivered messages is wrong, and messages due together change their order",
 demo='''package des

import (
	"testing"
	"time"
)

type sink struct{}

func (sink) HandleMessage(p any, f Module, ts time.Duration) []OutgoingMessage { return nil }
func TestDemo(t *testing.T) {
	s := &Simulator{}
	for i := 0; i < 20000; i++ {
		s.ScheduleMessage(OutgoingMessage{i, nil, time.Duration(i)}, sink{})
	}
	s.Run()
	if n := s.EventsDelivered(); n != 20000 {
		t.Fatal(n)
	}
}
'''),
]
