CT, MN, MS, RC, SN = ("node/" + x + ".go" for x in ["controller", "main", "message", "receiver", "sender"])
H = '''package main

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"fmt"
	"io"
	"log"
	"math"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/DataDog/sketches-go/ddsketch"
	"github.com/dchest/siphash"
	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	"golang.org/x/crypto/blake2b"
)

var _ = fmt.Sprint
var _ = log.Println
var _ = math.Abs
var _ = rand.Intn
var _ = strings.Index
var _ = io.EOF
var _ sync.Mutex
var _ = blake2b.Sum512

type logBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *logBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *logBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

var logs = &logBuf{}

// bubble runs f on virtual time and leaves the world behind, frozen.
func bubble(t *testing.T, f func() string) {
	log.SetFlags(0)
	log.SetOutput(logs)
	done := make(chan string, 1)
	never := make(chan struct{})
	go synctest.Test(t, func(*testing.T) {
		done <- f()
		<-never
	})
	if m := <-done; m != "" {
		t.Fatal(m)
	}
}

type pipe struct {
	in, out chan []byte
	rest    []byte
}

func newPipe() *pipe { return &pipe{in: make(chan []byte), out: make(chan []byte)} }

func (c *pipe) Read(p []byte) (int, error) {
	for len(c.rest) == 0 {
		c.rest = <-c.in
	}
	n := copy(p, c.rest)
	c.rest = c.rest[n:]
	return n, nil
}

func (c *pipe) Write(p []byte) (int, error) {
	c.out <- append([]byte(nil), p...)
	return len(p), nil
}

type outSide struct {
	c    *pipe
	rest []byte
	gate func()
}

func (c *outSide) Read(p []byte) (int, error) {
	for len(c.rest) == 0 {
		if c.gate != nil {
			c.gate()
		}
		c.rest = <-c.c.out
	}
	n := copy(p, c.rest)
	c.rest = c.rest[n:]
	return n, nil
}

func controllerFor(rate, min, inc, loss float64, timeout time.Duration) *controller {
	sk, _ := ddsketch.NewDefaultDDSketchWithExactSummaryStatistics(0.001)
	c := &controller{
		newPeer: make(chan *peer), decodedTransaction: make(chan ldpc.DecodedTransaction, 1000), localTransaction: make(chan *ldpc.Transaction, 1000),
		K: 50, M: 262144, solitonC: 0.03, solitonDelta: 0.5, initRate: rate, minRate: min, incConstant: inc, targetLoss: loss,
		decodeTimeout: timeout, delaySketch: sk, warmupTime: 1500 * time.Millisecond,
	}
	go c.loop()
	return c
}

// friend is our end of a connection to the node.
type friend struct {
	c     *pipe
	key   [ldpc.SaltSize]byte
	theirs [ldpc.SaltSize]byte
	buf   bytes.Buffer
	enc   *gob.Encoder
	mu    sync.Mutex
	cws   []Codeword
	gate  func()
	bad   error
}

func connect(ctl *controller, id string, b byte) *friend {
	f := &friend{c: newPipe()}
	f.key[3] = b
	f.enc = gob.NewEncoder(&f.buf)
	go func() {
		o := &outSide{c: f.c, gate: func() {
			if f.gate != nil {
				f.gate()
			}
		}}
		io.ReadFull(o, f.theirs[:])
		d := gob.NewDecoder(o)
		for {
			var cw Codeword
			err := d.Decode(&cw)
			f.mu.Lock()
			if err != nil {
				f.bad = err
				f.mu.Unlock()
				return
			}
			f.cws = append(f.cws, cw)
			f.mu.Unlock()
		}
	}()
	done := make(chan error)
	go func() { done <- ctl.handleConn(id, f.c) }()
	f.c.in <- f.key[:]
	<-done
	synctest.Wait()
	return f
}

func (f *friend) heard() []Codeword {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]Codeword(nil), f.cws...)
}

func (f *friend) say(cw *ldpc.Codeword, loss int) { f.sayAt(cw, loss, time.Now()) }

func (f *friend) sayAt(cw *ldpc.Codeword, loss int, at time.Time) {
	f.buf.Reset()
	f.enc.Encode(Codeword{cw, loss, at.UnixMicro()})
	f.c.in <- append([]byte(nil), f.buf.Bytes()...)
	synctest.Wait()
}

func (f *friend) losses() int {
	n := 0
	for _, c := range f.heard() {
		n += c.Loss
	}
	return n
}

func mk(id uint64, stamp time.Time) *ldpc.Transaction {
	var d ldpc.TransactionData
	binary.LittleEndian.PutUint64(d[:], uint64(stamp.UnixMicro()))
	binary.LittleEndian.PutUint64(d[8:], id*0x9e3779b97f4a7c15)
	t := &ldpc.Transaction{}
	t.UnmarshalBinary(d[:])
	return t
}

func (f *friend) word(txs ...*ldpc.Transaction) *ldpc.Codeword {
	c := &ldpc.Codeword{}
	for _, t := range txs {
		for k, b := range t.Serialized() {
			c.Symbol[k] ^= b
		}
		h := blake2b.Sum512(t.Serialized())
		s := siphash.New(f.key[:])
		s.Write(h[:])
		c.Members = append(c.Members, uint32(s.Sum64()))
	}
	return c
}

type spy struct {
	mu   sync.Mutex
	s, r []string
}

func watch(ctl *controller, capS, capR int, slow time.Duration) *spy {
	y := &spy{}
	s, r := make(chan *ldpc.Transaction, capS), make(chan *ldpc.Transaction, capR)
	run := func(ch chan *ldpc.Transaction, to *[]string) {
		for t := range ch {
			y.mu.Lock()
			*to = append(*to, string(t.Serialized()))
			y.mu.Unlock()
			if slow > 0 {
				time.Sleep(slow)
			}
		}
	}
	go run(s, &y.s)
	go run(r, &y.r)
	ctl.newPeer <- &peer{s, r}
	return y
}

func (y *spy) count() (int, int) {
	y.mu.Lock()
	defer y.mu.Unlock()
	return len(y.s), len(y.r)
}

'''
S = []
def seed(id, prop, edits, body, needs, breaks, flags=""):
    S.append(dict(id=id, prop=prop, edits=edits, pkg="node", demo=H + "func TestDemo(t *testing.T) {\n" + body + "\n}\n", needs=needs, breaks=breaks, flags=flags))

seed("c27-codeword-struct-reused", "C27",
  [(RC, "	for {\n		newcw := Codeword{}\n		err := r.rx.Decode(&newcw)", "	newcw := Codeword{}\n	for {\n		err := r.rx.Decode(&newcw)")],
'''	bubble(t, func() string {
		ctl := controllerFor(10, 10, 0, 0, time.Hour)
		f := connect(ctl, "x", 7)
		y := watch(ctl, 100, 100, 0)
		a, b, c := mk(1, time.Now()), mk(2, time.Now()), mk(3, time.Now())
		// three codewords in one piece
		f.buf.Reset()
		for _, w := range []*ldpc.Codeword{f.word(a), f.word(b), f.word(c)} {
			f.enc.Encode(Codeword{w, 0, 1})
		}
		f.c.in <- append([]byte(nil), f.buf.Bytes()...)
		time.Sleep(time.Second)
		synctest.Wait()
		if s, _ := y.count(); s != 3 {
			return fmt.Sprintf("three single-transaction codewords arrived at once, %d transactions were decoded", s)
		}
		return ""
	})''',
  "codewords arriving faster than they are decoded (several in one segment)", "the receive loop reuses one Codeword, so codewords still queued are overwritten by later ones")

seed("c27-own-key-shared-buffer", "C27",
  [(CT, "	warmupTime time.Duration\n}", "	warmupTime time.Duration\n\n	sessionKey [ldpc.SaltSize]byte\n}"),
   (CT, "	var encoderKey [ldpc.SaltSize]byte\n	var decoderKey [ldpc.SaltSize]byte\n	rand.Read(encoderKey[:])\n", "	var decoderKey [ldpc.SaltSize]byte\n	rand.Read(c.sessionKey[:])\n"),
   (CT, "	_, err := conn.Write(encoderKey[:])", "	_, err := conn.Write(c.sessionKey[:])"),
   (CT, "key exchanged with peer %s, our key %x, peer key %x\\n\", id, encoderKey[:], decoderKey[:])", "key exchanged with peer %s, our key %x, peer key %x\\n\", id, c.sessionKey[:], decoderKey[:])"),
   (CT, "c.decodeTimeout, encoderKey, decoderKey)", "c.decodeTimeout, c.sessionKey, decoderKey)")],
'''	bubble(t, func() string {
		ctl := controllerFor(100, 100, 0, 0, time.Hour)
		// a slow peer has sent half its key when a second one connects
		f := &friend{c: newPipe()}
		got := make(chan []byte, 1000)
		go func() {
			for {
				got <- <-f.c.out
			}
		}()
		go ctl.handleConn("slow", f.c)
		f.c.in <- make([]byte, 8)
		synctest.Wait()
		connect(ctl, "quick", 9)
		f.c.in <- make([]byte, 8)
		synctest.Wait()
		ctl.localTransaction <- mk(5, time.Now())
		time.Sleep(2 * time.Second)
		synctest.Wait()
		var b bytes.Buffer
		for len(got) > 0 {
			b.Write(<-got)
		}
		f.key = [ldpc.SaltSize]byte(b.Next(ldpc.SaltSize))
		dec := ldpc.NewDecoder(f.key, 1000)
		g := gob.NewDecoder(&b)
		n := 0
		known := false
		for {
			var cw Codeword
			if g.Decode(&cw) != nil {
				break
			}
			if cw.Codeword == nil || len(cw.Members) == 0 {
				continue
			}
			_, txs := dec.AddCodeword(cw.Codeword)
			for _, x := range txs {
				h := blake2b.Sum512(x.Serialized())
				s := siphash.New(f.key[:])
				s.Write(h[:])
				known = uint32(s.Sum64()) == cw.Members[0]
			}
			n++
		}
		if n == 0 || !known {
			return fmt.Sprintf("%d codewords came, not made under the key that was sent first", n)
		}
		return ""
	})''',
  "two handshakes overlapping in time: another connection starts while a peer's key has not completely arrived", "the key sent to the first peer is overwritten before its sender is created")

seed("c28-skip-busy-sender", "C28",
  [(CT, "func (h *peer) notifyUnexpiredTransaction (t *ldpc.Transaction) {\n	h.newTxToSender <- t\n", "func (h *peer) notifyUnexpiredTransaction (t *ldpc.Transaction) {\n	select {\n	case h.newTxToSender <- t:\n	default:\n		log.Println(\"sender busy, skipping transaction\")\n	}\n")],
'''	bubble(t, func() string {
		ctl := controllerFor(10, 10, 0, 0, time.Hour)
		y := watch(ctl, 10, 10, time.Millisecond)
		for k := 0; k < 200; k++ {
			ctl.localTransaction <- mk(uint64(k), time.Now())
		}
		time.Sleep(10 * time.Second)
		synctest.Wait()
		if s, r := y.count(); s != 200 || r != 200 {
			return fmt.Sprintf("200 transactions, %d reached the sender and %d the receiver", s, r)
		}
		return ""
	})''',
  "a burst that fills a sender's channel", "transactions are skipped for senders whose channel is full")

seed("c28-same-microsecond-duplicate", "C28",
  [(CT, "	txcnt := 0\n	start := time.Now()", "	txcnt := 0\n	lastLocal := -1.0\n	start := time.Now()"),
   (CT, "		case tx := <-c.localTransaction:\n			for _, peer", "		case tx := <-c.localTransaction:\n			// generated twice by a timer firing again right away\n			created := float64(time.Now().UnixMicro()) - getDelayUs(tx)\n			if created == lastLocal {\n				break\n			}\n			lastLocal = created\n			for _, peer")],
'''	bubble(t, func() string {
		ctl := controllerFor(10, 10, 0, 0, time.Hour)
		y := watch(ctl, 10, 10, 0)
		at := time.Now()
		ctl.localTransaction <- mk(1, at)
		ctl.localTransaction <- mk(2, at)
		time.Sleep(time.Second)
		synctest.Wait()
		if s, r := y.count(); s != 2 || r != 2 {
			return fmt.Sprintf("two transactions, %d reached the sender and %d the receiver", s, r)
		}
		return ""
	})''',
  "two local transactions created in the same microsecond", "the second is taken for a duplicate and dropped")

seed("c28-late-to-nobody", "C28",
  [(CT, "				if tx.Expired {\n					peer.notifyExpiredTransaction(tx.Transaction)\n				} else {\n					peer.notifyUnexpiredTransaction(tx.Transaction)\n				}", "				if !tx.Expired {\n					peer.notifyUnexpiredTransaction(tx.Transaction)\n				} else if len(c.peers) < 3 {\n					peer.notifyExpiredTransaction(tx.Transaction)\n				}")],
'''	bubble(t, func() string {
		ctl := controllerFor(10, 10, 0, 0, time.Hour)
		var ys []*spy
		for k := 0; k < 3; k++ {
			ys = append(ys, watch(ctl, 10, 10, 0))
		}
		ctl.decodedTransaction <- ldpc.DecodedTransaction{mk(1, time.Now()), true}
		time.Sleep(time.Second)
		synctest.Wait()
		for k, y := range ys {
			if s, r := y.count(); s != 0 || r != 1 {
				return fmt.Sprintf("a late transaction reached sender %d %d times and receiver %d times", k, s, r)
			}
		}
		return ""
	})''',
  "three peers or more, and a transaction decoded after its codeword timed out", "late transactions no longer reach the receivers")

seed("c28-peers-appended-by-handshake", "C28",
  [(CT, "	c.newPeer <- p\n	return nil", "	c.peers = append(c.peers, p)\n	return nil")],
'''	bubble(t, func() string {
		ctl := controllerFor(10, 10, 0, 0, time.Hour)
		stop := make(chan bool)
		go func() {
			for k := uint64(0); ; k++ {
				select {
				case <-stop:
					return
				case ctl.localTransaction <- mk(k, time.Now()):
				}
				if k%50 == 0 {
					time.Sleep(time.Millisecond)
				}
			}
		}()
		var wg sync.WaitGroup
		for k := 0; k < 20; k++ {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				p := newPipe()
				go func() {
					for {
						<-p.out
					}
				}()
				go func() { p.in <- make([]byte, ldpc.SaltSize) }()
				ctl.handleConn(fmt.Sprint(k), p)
			}()
		}
		wg.Wait()
		time.Sleep(100 * time.Millisecond)
		close(stop)
		synctest.Wait()
		return ""
	})''',
  "a peer connecting while another does or while transactions are being distributed", "the list of peers is appended to without synchronisation: a data race that can lose a peer", "-race")

seed("c29-loss-cleared-when-dropped", "C29",
  [(SN, "				select {\n				case ch <- nc:\n					s.accumLoss = 0\n", "				s.accumLoss = 0\n				select {\n				case ch <- nc:\n")],
'''	bubble(t, func() string {
		ctl := controllerFor(500, 500, 0, 0, 10*time.Millisecond)
		f := connect(ctl, "x", 7)
		until := time.Now().Add(6 * time.Second)
		f.gate = func() { time.Sleep(time.Until(until)) }
		for k := uint64(0); k < 10; k++ {
			f.say(f.word(mk(2*k, time.Now()), mk(2*k+1, time.Now())), 0)
			time.Sleep(450 * time.Millisecond)
		}
		f.say(f.word(mk(1000, time.Now())), 0)
		time.Sleep(20 * time.Second)
		synctest.Wait()
		if n := f.losses(); n != 10 {
			return fmt.Sprintf("10 codewords expired undecoded, %d reported", n)
		}
		return ""
	})''',
  "losses counted while the outgoing queue is full because the peer does not read", "losses carried by a dropped codeword are never reported")

seed("c29-one-loss-per-scan", "C29",
  [(RC, "				if !head.Decoded() {\n					loss += 1\n				}", "				if !head.Decoded() {\n					loss = 1\n				}")],
'''	bubble(t, func() string {
		ctl := controllerFor(100, 100, 0, 0, 10*time.Millisecond)
		f := connect(ctl, "x", 7)
		for k := uint64(0); k < 5; k++ {
			f.say(f.word(mk(2*k, time.Now()), mk(2*k+1, time.Now())), 0)
		}
		time.Sleep(time.Second)
		f.say(f.word(mk(1000, time.Now())), 0)
		time.Sleep(2 * time.Second)
		synctest.Wait()
		if n := f.losses(); n != 5 {
			return fmt.Sprintf("5 codewords expired undecoded, %d reported", n)
		}
		return ""
	})''',
  "several codewords expiring between two arrivals", "all of them are counted as one loss")

seed("c29-first-report-ignored", "C29",
  [(RC, "			if cw.Loss > 0 {", "			if cw.Loss > 0 && len(r.rxWindow) > 0 {")],
'''	bubble(t, func() string {
		ctl := controllerFor(100, 100, 10, 0, 10*time.Millisecond)
		f := connect(ctl, "x", 7)
		f.say(f.word(mk(0, time.Now()), mk(1, time.Now())), 0)
		time.Sleep(time.Second)
		f.say(f.word(mk(2, time.Now()), mk(3, time.Now())), 20)
		time.Sleep(time.Second)
		synctest.Wait()
		a := len(f.heard())
		time.Sleep(10 * time.Second)
		synctest.Wait()
		if n := len(f.heard()) - a; n < 2900 {
			return fmt.Sprintf("20 losses reported should make 300 codewords per second, %d came in ten", n)
		}
		return ""
	})''',
  "a loss report arriving when no received codeword is within its timeout (a pause longer than the timeout)", "that report never reaches the rate controller")

seed("c29-freed-before-looked-at", "C29",
  [(RC, "				if !head.Decoded() {\n					loss += 1\n				}\n				head.Free()\n", "				head.Free()\n				if !head.Decoded() {\n					loss += 1\n				}\n")],
'''	bubble(t, func() string {
		ctl := controllerFor(10, 10, 0, 0, time.Millisecond)
		var fs []*friend
		for k := 0; k < 8; k++ {
			fs = append(fs, connect(ctl, fmt.Sprint(k), byte(k)))
		}
		var wg sync.WaitGroup
		for k := range fs {
			wg.Add(1)
			go func(f *friend, k int) {
				defer wg.Done()
				for round := 0; round < 40; round++ {
					f.buf.Reset()
					for j := 0; j < 200; j++ {
						f.enc.Encode(Codeword{f.word(mk(uint64(k), time.UnixMicro(1))), 0, 1})
					}
					f.c.in <- append([]byte(nil), f.buf.Bytes()...)
					time.Sleep(10 * time.Millisecond)
				}
			}(fs[k], k)
		}
		wg.Wait()
		time.Sleep(5 * time.Second)
		synctest.Wait()
		for k, f := range fs {
			if n := f.losses(); n != 0 {
				return fmt.Sprintf("every codeword to peer %d was decoded at once, %d losses reported", k, n)
			}
		}
		return ""
	})''',
  "two peers' receivers at once: a codeword returned to the shared pool by one and taken by another before it was looked at", "decoded codewords can be counted as lost (data race)", "-race")

seed("c30-drops-charged", "C30",
  [(SN, "				select {\n				case ch <- nc:\n					s.accumLoss = 0\n					s.cwRate -= s.rateDecreaseConstant\n					if s.cwRate < s.minRate {\n						s.cwRate = s.minRate\n					}\n", "				s.cwRate -= s.rateDecreaseConstant\n				if s.cwRate < s.minRate {\n					s.cwRate = s.minRate\n				}\n				select {\n				case ch <- nc:\n					s.accumLoss = 0\n")],
'''	bubble(t, func() string {
		ctl := controllerFor(1000, 1, 1, 0.05, time.Hour)
		f := connect(ctl, "x", 7)
		until := time.Now().Add(8 * time.Second)
		f.gate = func() { time.Sleep(time.Until(until)) }
		time.Sleep(7900 * time.Millisecond)
		synctest.Wait()
		i := strings.LastIndex(logs.String(), "codeword rate ")
		var rate float64
		fmt.Sscanf(logs.String()[i:], "codeword rate %f", &rate)
		// at most 1100 codewords were queued
		if rate < 1000-1100*0.05 {
			return fmt.Sprintf("rate %.2f after 8 seconds in which at most 1100 codewords were queued", rate)
		}
		return ""
	})''',
  "a full outgoing queue (peer not reading)", "the rate also falls for codewords that were dropped")

seed("c30-burst-after-stall", "C30",
  [(SN, "			for s.credit >= 1.0 {\n				s.credit -= 1.0\n", "			for blocked := false; s.credit >= 1.0 && !blocked; {\n"),
   (SN, "				case ch <- nc:\n					s.accumLoss = 0\n", "				case ch <- nc:\n					s.credit -= 1.0\n					s.accumLoss = 0\n"),
   (SN, "					s.droppedCodewords += 1\n", "					s.droppedCodewords += 1\n					blocked = true\n")],
'''	bubble(t, func() string {
		ctl := controllerFor(1000, 1000, 0, 0, time.Hour)
		f := connect(ctl, "x", 7)
		until := time.Now().Add(10 * time.Second)
		f.gate = func() { time.Sleep(time.Until(until)) }
		time.Sleep(11 * time.Second)
		synctest.Wait()
		if n := len(f.heard()); n > 2200 {
			return fmt.Sprintf("%d codewords after 1 second of 1000 per second and a stall with a queue of 1000", n)
		}
		return ""
	})''',
  "a full outgoing queue (peer not reading) followed by the peer reading again", "credit piles up while blocked and is sent as a burst afterwards")

seed("c30-floor-on-increase-only", "C30",
  [(SN, "			s.cwRate += s.rateIncreaseConstant * float64(l)\n", "			s.cwRate += s.rateIncreaseConstant * float64(l)\n			if s.cwRate < s.minRate {\n				s.cwRate = s.minRate\n			}\n"),
   (SN, "					if s.cwRate < s.minRate {\n						s.cwRate = s.minRate\n					}\n				default", "				default")],
'''	bubble(t, func() string {
		ctl := controllerFor(100, 90, 1, 0.1, time.Hour)
		f := connect(ctl, "x", 7)
		time.Sleep(60 * time.Second)
		synctest.Wait()
		if n := len(f.heard()); n < 60*89 {
			return fmt.Sprintf("%d codewords in 60 seconds, the minimum is 90 per second", n)
		}
		return ""
	})''',
  "a long time without loss reports", "the rate falls below the minimum")

seed("c30-report-capped", "C30",
  [(SN, "		case l := <-s.peerLoss:\n", "		case l := <-s.peerLoss:\n			if l > 255 {\n				l = 255\n			}\n")],
'''	bubble(t, func() string {
		ctl := controllerFor(10, 10, 1, 0, time.Hour)
		f := connect(ctl, "x", 7)
		f.say(f.word(mk(0, time.Now())), 390)
		time.Sleep(time.Second)
		synctest.Wait()
		a := len(f.heard())
		time.Sleep(10 * time.Second)
		synctest.Wait()
		if n := len(f.heard()) - a; n < 3950 {
			return fmt.Sprintf("390 losses at increment 1 make 400 per second, %d came in ten", n)
		}
		return ""
	})''',
  "a single report of more than 255 losses", "the rate rises by less than the losses reported")

seed("c35-late-latency-left-out", "C35",
  [(CT, "			if warmupFinished {\n				delay", "			if warmupFinished && !tx.Expired {\n				delay")],
'''	bubble(t, func() string {
		ctl := controllerFor(10, 10, 1, 0, time.Hour)
		time.Sleep(3500 * time.Millisecond)
		for k := uint64(0); k < 10; k++ {
			ctl.decodedTransaction <- ldpc.DecodedTransaction{mk(k, time.Now().Add(-time.Second)), k%2 == 1}
		}
		time.Sleep(time.Second)
		synctest.Wait()
		if !strings.Contains(logs.String(), "since warm up tx=10,") {
			return "10 transactions were decoded after the warm-up: " + logs.String()
		}
		return ""
	})''',
  "transactions decoded late, after the warm-up", "their latency is not part of the reported figures")

seed("c35-warmup-needs-traffic", "C35",
  [(CT, "				if time.Since(start) > c.warmupTime {", "				if txcnt > 0 && time.Since(start) > c.warmupTime {")],
'''	bubble(t, func() string {
		ctl := controllerFor(10, 10, 1, 0, time.Hour)
		time.Sleep(3500 * time.Millisecond)
		for k := uint64(0); k < 10; k++ {
			ctl.decodedTransaction <- ldpc.DecodedTransaction{mk(k, time.Now().Add(-time.Second)), false}
		}
		time.Sleep(3 * time.Second)
		synctest.Wait()
		if !strings.Contains(logs.String(), "since warm up tx=10,") {
			return "10 transactions were decoded after the warm-up: " + logs.String()
		}
		return ""
	})''',
  "no transaction decoded during the warm-up", "the first transactions after the warm-up are not measured")

seed("c35-delay-of-productive-codewords", "C35",
  [(RC, "			delayms := float64(time.Now().UnixMicro() - cw.UnixMicro) / 1000.0\n			r.delaySketch.Add(delayms)\n", "			delayms := float64(time.Now().UnixMicro() - cw.UnixMicro) / 1000.0\n			if len(cw.Members) > 0 && loss == 0 {\n				r.delaySketch.Add(delayms)\n			}\n")],
'''	bubble(t, func() string {
		ctl := controllerFor(10, 10, 1, 0, 10*time.Millisecond)
		f := connect(ctl, "x", 7)
		time.Sleep(100 * time.Millisecond)
		f.sayAt(f.word(mk(0, time.Now()), mk(1, time.Now())), 0, time.Now().Add(-10*time.Millisecond))
		time.Sleep(100 * time.Millisecond)
		f.sayAt(f.word(mk(3, time.Now())), 0, time.Now().Add(-30*time.Millisecond))
		time.Sleep(time.Second)
		synctest.Wait()
		if !strings.Contains(logs.String(), "received cws 2 last second delay ms median 10.0 p95 10.0 mean 20.0") {
			return "codewords delayed 10 ms and 30 ms: " + logs.String()
		}
		return ""
	})''',
  "a codeword whose arrival makes an earlier one count as lost", "its transmission delay is not part of the report")
SEEDS = S
