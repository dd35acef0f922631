package VPKG

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"io"
	"log"
	"math/rand"
	"regexp"
	"strconv"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/DataDog/sketches-go/ddsketch"
	"github.com/dchest/siphash"
	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	"golang.org/x/crypto/blake2b"
)

type data = ldpc.TransactionData
type key = [ldpc.SaltSize]byte

// bubble runs f with virtual time: time passes only when every goroutine of
// the world waits. The world stays behind, frozen.
func bubble(t *testing.T, f func()) {
	done := make(chan any, 1)
	never := make(chan struct{})
	go synctest.Test(t, func(*testing.T) {
		defer func() {
			done <- recover()
			<-never
		}()
		f()
	})
	if e := <-done; e != nil {
		panic(e)
	}
}

func payload(id uint64) (d data) {
	for k := 0; k < len(d); k += 8 {
		binary.LittleEndian.PutUint64(d[k:], vMix(id*17+uint64(k)))
	}
	binary.LittleEndian.PutUint64(d[:], uint64(time.Now().UnixMicro()))
	binary.LittleEndian.PutUint64(d[8:], id)
	return
}

func getStamp(d data) int64 { return int64(binary.LittleEndian.Uint64(d[:])) }

func load(d data) *ldpc.Transaction {
	t := &ldpc.Transaction{}
	if err := t.UnmarshalBinary(append([]byte(nil), d[:]...)); err != nil {
		panic(err)
	}
	return t
}

func body(t *ldpc.Transaction) (d data) {
	copy(d[:], t.Serialized())
	return
}

func short(salt key, d *data) uint32 {
	h := blake2b.Sum512(d[:])
	s := siphash.New(salt[:])
	s.Write(h[:])
	return uint32(s.Sum64())
}

// universe is the set of transactions of a run; their short ids under every
// key used are distinct.
type universe struct {
	keys []key
	ids  []map[uint32]int
	d    []data
	byD  map[data]int
	next uint64

	ageNext time.Duration // transactions added are stamped that long ago
}

func newUniverse(r *rand.Rand, keys ...key) *universe {
	u := &universe{keys: keys, byD: map[data]int{}, next: r.Uint64() >> 1}
	for range keys {
		u.ids = append(u.ids, map[uint32]int{})
	}
	return u
}

func (u *universe) add() int {
again:
	for {
		u.next++
		d := payload(u.next)
		binary.LittleEndian.PutUint64(d[:], uint64(time.Now().Add(-u.ageNext).UnixMicro()))
		for k := range u.keys {
			if _, dup := u.ids[k][short(u.keys[k], &d)]; dup {
				continue again
			}
		}
		i := len(u.d)
		for k := range u.keys {
			u.ids[k][short(u.keys[k], &d)] = i
		}
		u.d = append(u.d, d)
		u.byD[d] = i
		return i
	}
}

func (u *universe) craft(k int, idx ...int) *ldpc.Codeword {
	c := &ldpc.Codeword{}
	for _, i := range idx {
		for b := range c.Symbol {
			c.Symbol[b] ^= u.d[i][b]
		}
		c.Members = append(c.Members, short(u.keys[k], &u.d[i]))
	}
	return c
}

func randKey(r *rand.Rand) (k key) {
	r.Read(k[:])
	return
}

// ---- connections -------------------------------------------------------------

// conn is the byte stream given to a node.
type conn struct {
	in   chan []byte
	out  chan []byte
	rest []byte
}

func newConn() *conn { return &conn{in: make(chan []byte), out: make(chan []byte)} }

func (c *conn) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	for len(c.rest) == 0 {
		c.rest = <-c.in
	}
	n := copy(p, c.rest)
	c.rest = c.rest[n:]
	return n, nil
}

func (c *conn) Write(p []byte) (int, error) {
	if len(p) > 0 {
		c.out <- append([]byte(nil), p...)
	}
	return len(p), nil
}

// frag sends bytes in pieces.
type frag struct {
	mode  int // 0 whole, 1 random pieces, 2 single bytes
	delay time.Duration
	r     *rand.Rand
}

func (f frag) send(to chan<- []byte, b []byte) {
	for len(b) > 0 {
		n := len(b)
		switch f.mode {
		case 1:
			n = 1 + f.r.Intn(vMin(len(b), 40))
		case 2:
			n = 1
		}
		if f.delay > 0 {
			time.Sleep(time.Duration(f.r.Int63n(int64(f.delay))))
		}
		to <- append([]byte(nil), b[:n]...)
		b = b[n:]
	}
}

type heard struct {
	cw Codeword
	at time.Time
}

// endpoint is a scripted peer of a node under test.
type endpoint struct {
	conn    *conn
	key     key // our encoder's key
	w       chan []byte
	wbuf    bytes.Buffer
	enc     *gob.Encoder
	mu      sync.Mutex
	nodeKey key
	keyed   bool
	cws     []heard
	bad     error
	stalls  [][2]time.Time // we do not read in these
	rest    []byte
}

func newEndpoint(k key, f frag, stalls ...[2]time.Time) *endpoint {
	e := &endpoint{conn: newConn(), key: k, w: make(chan []byte, 1<<16), stalls: stalls}
	e.enc = gob.NewEncoder(&e.wbuf)
	go func() {
		for b := range e.w {
			f.send(e.conn.in, b)
		}
	}()
	go e.listen()
	return e
}

func (e *endpoint) Read(p []byte) (int, error) {
	for len(e.rest) == 0 {
		now := time.Now()
		for _, s := range e.stalls {
			if !now.Before(s[0]) && now.Before(s[1]) {
				time.Sleep(s[1].Sub(now))
			}
		}
		e.rest = <-e.conn.out
	}
	n := copy(p, e.rest)
	e.rest = e.rest[n:]
	return n, nil
}

func (e *endpoint) listen() {
	var k key
	io.ReadFull(e, k[:])
	e.mu.Lock()
	e.nodeKey, e.keyed = k, true
	e.mu.Unlock()
	d := gob.NewDecoder(e)
	for {
		var cw Codeword
		err := d.Decode(&cw)
		e.mu.Lock()
		if err != nil {
			e.bad = err
			e.mu.Unlock()
			return
		}
		if cw.Codeword == nil {
			cw.Codeword = &ldpc.Codeword{}
		}
		e.cws = append(e.cws, heard{cw, time.Now()})
		e.mu.Unlock()
	}
}

func (e *endpoint) heard() []heard {
	e.mu.Lock()
	defer e.mu.Unlock()
	return append([]heard(nil), e.cws...)
}

func (e *endpoint) hello() { e.w <- append([]byte(nil), e.key[:]...) }

func (e *endpoint) bytes(cw *ldpc.Codeword, loss int) []byte {
	return e.bytesAt(cw, loss, time.Now())
}

func (e *endpoint) bytesAt(cw *ldpc.Codeword, loss int, at time.Time) []byte {
	e.wbuf.Reset()
	if err := e.enc.Encode(Codeword{cw, loss, at.UnixMicro()}); err != nil {
		panic(err)
	}
	return append([]byte(nil), e.wbuf.Bytes()...)
}

func (e *endpoint) say(cw *ldpc.Codeword, loss int) { e.w <- e.bytes(cw, loss) }

// ---- the node ----------------------------------------------------------------

type params struct {
	K, M                                      uint64
	initRate, minRate, inc, targetLoss        float64
	timeout                                   time.Duration
	decCap, locCap                            int
}

func defaults() params {
	return params{K: 50, M: 262144, initRate: 200, minRate: 50, inc: 0.1, targetLoss: 0.02, timeout: time.Hour, decCap: 1000, locCap: 1000}
}

func newController(p params) *controller { return newControllerW(p, time.Second) }

func newControllerW(p params, warmup time.Duration) *controller {
	sk, err := ddsketch.NewDefaultDDSketchWithExactSummaryStatistics(0.001)
	if err != nil {
		panic(err)
	}
	c := &controller{
		newPeer:            make(chan *peer),
		decodedTransaction: make(chan ldpc.DecodedTransaction, p.decCap),
		localTransaction:   make(chan *ldpc.Transaction, p.locCap),
		K:                  p.K,
		M:                  p.M,
		solitonC:           0.03,
		solitonDelta:       0.5,
		initRate:           p.initRate,
		minRate:            p.minRate,
		incConstant:        p.inc,
		targetLoss:         p.targetLoss,
		decodeTimeout:      p.timeout,
		delaySketch:        sk,
		warmupTime:         warmup,
	}
	go c.loop()
	return c
}

// attach connects an endpoint and waits for the handshake.
func attach(c *vC, ctl *controller, e *endpoint, id string) {
	done := make(chan error, 1)
	go func() { done <- ctl.handleConn(id, e.conn) }()
	e.hello()
	select {
	case err := <-done:
		if err != nil {
			c.Fail("handshake failed: %v", err)
		}
	case <-time.After(10 * time.Minute):
		c.Fail("handshake does not complete")
	}
	synctest.Wait()
	e.mu.Lock()
	defer e.mu.Unlock()
	if !e.keyed {
		c.Fail("handshake completed without the node sending a 16-byte key")
	}
}

// tap is a registered peer whose channels the harness reads.
type tap struct {
	mu         sync.Mutex
	gotS, gotR []data
	objS, objR []*ldpc.Transaction
}

func newTap(ctl *controller, capS, capR int, slow time.Duration) *tap {
	t := &tap{}
	s, r := make(chan *ldpc.Transaction, capS), make(chan *ldpc.Transaction, capR)
	go func() {
		for tx := range s {
			t.mu.Lock()
			t.gotS = append(t.gotS, body(tx))
			t.objS = append(t.objS, tx)
			t.mu.Unlock()
			if slow > 0 {
				time.Sleep(slow)
			}
		}
	}()
	go func() {
		for tx := range r {
			t.mu.Lock()
			t.gotR = append(t.gotR, body(tx))
			t.objR = append(t.objR, tx)
			t.mu.Unlock()
			if slow > 0 {
				time.Sleep(slow)
			}
		}
	}()
	ctl.newPeer <- &peer{s, r}
	return t
}

func (t *tap) got() (s, r []data) {
	t.mu.Lock()
	defer t.mu.Unlock()
	return append([]data(nil), t.gotS...), append([]data(nil), t.gotR...)
}

// intact: what was passed on is still what it was (the world must be at rest).
func (t *tap) intact(c *vC, what string) {
	t.mu.Lock()
	defer t.mu.Unlock()
	for i, x := range t.objS {
		if body(x) != t.gotS[i] {
			c.Fail("%s: a transaction changed after it was passed on", what)
		}
	}
	for i, x := range t.objR {
		if body(x) != t.gotR[i] {
			c.Fail("%s: a transaction changed after it was passed on", what)
		}
	}
	c.Seen("passed_on_reread", len(t.objS)+len(t.objR))
}

// ---- log ---------------------------------------------------------------------

type report struct {
	at      time.Time
	rate    float64
	dropped int
}

type logSink struct {
	mu  sync.Mutex
	rep []report
}

var rateLine = regexp.MustCompile(`codeword rate ([-0-9.e+]+) dropped (\d+)`)

func (l *logSink) Write(p []byte) (int, error) {
	if m := rateLine.FindSubmatch(p); m != nil {
		r, _ := strconv.ParseFloat(string(m[1]), 64)
		d, _ := strconv.Atoi(string(m[2]))
		l.mu.Lock()
		l.rep = append(l.rep, report{time.Now(), r, d})
		l.mu.Unlock()
	}
	return len(p), nil
}

func (l *logSink) reports() []report {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]report(nil), l.rep...)
}

func newSink() *logSink {
	l := &logSink{}
	log.SetFlags(0)
	log.SetOutput(l)
	return l
}

var _ = fmt.Sprint

// ---- reference receiver --------------------------------------------------------

// recv mirrors one node-side receiver with an own decoder.
type recv struct {
	dec     *ldpc.Decoder
	timeout time.Duration
	win     []wcw
	lost    int
	in      []data // handed over in time
	late    []data // handed over after expiry
}

type wcw struct {
	cw *ldpc.PendingCodeword
	at time.Time
}

func newRecv(k key, M int, timeout time.Duration) *recv {
	return &recv{dec: ldpc.NewDecoder(k, M), timeout: timeout}
}

func (r *recv) codeword(cw *ldpc.Codeword, now time.Time) {
	for len(r.win) > 0 && now.Sub(r.win[0].at) >= r.timeout {
		if !r.win[0].cw.Decoded() {
			r.lost++
		}
		r.win[0].cw.Free()
		r.win = r.win[1:]
	}
	st, txs := r.dec.AddCodeword(cw)
	r.win = append(r.win, wcw{st, now})
	r.take(txs)
}

func (r *recv) local(t *ldpc.Transaction) { r.take(r.dec.AddTransaction(t)) }

func (r *recv) take(txs []ldpc.DecodedTransaction) {
	for _, t := range txs {
		if t.Expired {
			r.late = append(r.late, body(t.Transaction))
		} else {
			r.in = append(r.in, body(t.Transaction))
		}
	}
}
