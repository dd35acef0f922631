package VPKG

import (
	"encoding/gob"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	"github.com/yangl1996/soliton"
)

// ---- C44: the program runs the links and parameters it was started with --------

type listened struct {
	at      time.Time
	members []uint32
	loss    int
}

// wire is one TCP link to the node program, dialled or accepted.
type wire struct {
	cn      net.Conn
	key     key // ours
	nodeKey key
	mu      sync.Mutex
	cws     []listened
	err     error
	enc     *gob.Encoder
	idx     int // in the universe
}

func (w *wire) shake(r *rand.Rand) error {
	w.cn.SetDeadline(time.Now().Add(60 * time.Second))
	w.key = randKey(r)
	rest := w.key[:]
	for len(rest) > 0 {
		n := 1 + r.Intn(len(rest))
		if _, err := w.cn.Write(rest[:n]); err != nil {
			return err
		}
		rest = rest[n:]
		time.Sleep(time.Duration(1+r.Intn(10)) * time.Millisecond)
	}
	if _, err := io.ReadFull(w.cn, w.nodeKey[:]); err != nil {
		return err
	}
	w.cn.SetDeadline(time.Time{})
	w.enc = gob.NewEncoder(w.cn)
	go func() {
		d := gob.NewDecoder(w.cn)
		for {
			var cw Codeword
			err := d.Decode(&cw)
			w.mu.Lock()
			if err != nil {
				w.err = err
				w.mu.Unlock()
				return
			}
			l := listened{at: time.Now(), loss: cw.Loss}
			if cw.Codeword != nil {
				l.members = cw.Members
			}
			w.cws = append(w.cws, l)
			w.mu.Unlock()
		}
	}()
	return nil
}

func (w *wire) heard() []listened {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.cws[:len(w.cws):len(w.cws)]
}

func (w *wire) say(cw *ldpc.Codeword, loss int) error {
	return w.enc.Encode(Codeword{cw, loss, time.Now().UnixMicro()})
}

// door is a listening peer; it counts the connections made to it.
type door struct {
	addr  string
	delay time.Duration
	l     net.Listener
	in    chan net.Conn
	mu    sync.Mutex
	n     int
}

// loopAddr picks an address nobody else is likely to use: all of 127/8 is local.
func loopAddr(r *rand.Rand) string {
	return fmt.Sprintf("127.%d.%d.%d:%d", 1+r.Intn(250), r.Intn(250), 1+r.Intn(250), 20000+r.Intn(10000))
}

func (d *door) open() error {
	l, err := net.Listen("tcp", d.addr)
	if err != nil {
		return err
	}
	d.l = l
	go func() {
		for {
			cn, err := l.Accept()
			if err != nil {
				return
			}
			d.mu.Lock()
			d.n++
			d.mu.Unlock()
			d.in <- cn
		}
	}()
	return nil
}

func (d *door) count() int {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.n
}

type conf struct {
	K, M         int
	c, delta     float64
	r0, rmin     float64
	inc, loss    float64
	timeout      time.Duration
	doors, dials int
}

func config(h *vH, i int, c *vC) {
	r := rand.New(rand.NewSource(c.R.Int63()))
	f := conf{K: 4 + r.Intn(40), c: []float64{0.03, 0.3, 0.1}[r.Intn(3)], delta: []float64{0.5, 0.05, 0.9}[r.Intn(3)], r0: 250 + float64(r.Intn(100)), rmin: 20, inc: 50, loss: 0, timeout: time.Duration([]int{1450, 2470, 3400}[r.Intn(3)]) * time.Millisecond,
		doors: r.Intn(5), dials: 1 + r.Intn(3)}
	f.M = 100 + r.Intn(60)
	chunk := 20
	if i%8 == 6 {
		f.K, f.r0 = 257+r.Intn(100), 2500
		f.M += f.K
	}
	if i%8 == 4 {
		f.M, chunk = 1<<16+r.Intn(5000), 2000
	}
	if f.doors+f.dials < 2 {
		f.dials = 2
	}
	if i%8 == 2 {
		f.doors, f.dials = 17+r.Intn(20), 1+r.Intn(12)
		f.r0 = 150
	}
	falls := i%2 == 1
	if falls { // falls to the floor
		f.r0, f.rmin, f.inc, f.loss = 700, 200+float64(r.Intn(50)), 2, 0.5
	}
	var doors []*door
	defer func() {
		for _, d := range doors {
			if d.l != nil {
				d.l.Close()
			}
		}
	}()
	var list []string
	for k := 0; k < f.doors; k++ {
		d := &door{addr: loopAddr(r), in: make(chan net.Conn, 100)}
		if r.Intn(2) == 0 {
			d.delay = time.Duration(r.Intn(4000)) * time.Millisecond
		}
		if r.Intn(4) == 0 || i%8 == 2 && k == 1 { // nobody ever listens there
			list = append(list, loopAddr(r))
			c.Seen("peers_absent", 1)
		}
		doors = append(doors, d)
		list = append(list, d.addr)
		if d.delay == 0 {
			if d.open() != nil {
				c.Seen("no_address", 1)
				return
			}
		}
	}
	args := []string{"-tx", "0", "-k", fmt.Sprint(f.K), "-m", fmt.Sprint(f.M), "-c", fmt.Sprint(f.c), "-delta", fmt.Sprint(f.delta),
		"-r0", fmt.Sprint(f.r0), "-rmin", fmt.Sprint(f.rmin), "-inc", fmt.Sprint(f.inc), "-loss", fmt.Sprint(f.loss), "-t", fmt.Sprint(f.timeout)}
	if len(list) > 0 {
		args = append(args, "-p", strings.Join(list, ","))
	}
	p := start(args...)
	if p == nil {
		c.Seen("program_not_started", 1)
		return
	}
	defer p.stop()
	began := time.Now()
	desc := fmt.Sprintf("node run with %s", strings.Join(args, " "))
	fail := func(fm string, a ...any) {
		c.Fail("%s: %s\nlog: %s", desc, fmt.Sprintf(fm, a...), tailOf(p.log.String()))
	}
	alive := func() {
		vTick()
		select {
		case err := <-p.done:
			p.done <- err
			fail("it exited: %v", err)
		default:
		}
	}
	// somebody hangs up before the keys are exchanged
	if r.Intn(2) == 0 {
		cn, err := net.Dial("tcp", p.addr)
		if err == nil {
			cn.Write(make([]byte, r.Intn(16)))
			time.Sleep(time.Duration(r.Intn(30)) * time.Millisecond)
			cn.Close()
			c.Seen("hung_up", 1)
		}
	}
	// links
	var ws []*wire
	defer func() {
		for _, w := range ws {
			w.cn.Close()
		}
	}()
	for k := 0; k < f.dials; k++ {
		cn, err := net.DialTimeout("tcp", p.addr, 30*time.Second)
		if err != nil {
			fail("connection %d refused: %v", k, err)
		}
		ws = append(ws, &wire{cn: cn})
		if err := ws[len(ws)-1].shake(r); err != nil {
			alive()
			fail("handshake of incoming connection %d: %v", k, err)
		}
		c.Seen("links_in", 1)
	}
	// the doors open at different times, latest first in some runs
	order := append([]*door(nil), doors...)
	sort.Slice(order, func(a, b int) bool { return order[a].delay < order[b].delay })
	for _, d := range order {
		if d.l == nil {
			if w := d.delay - time.Since(began); w > 0 {
				time.Sleep(w)
			}
			if d.open() != nil {
				c.Seen("no_address", 1)
				return
			}
			c.Seen("peers_late", 1)
		}
	}
	for n, k := range r.Perm(len(doors)) {
		d := doors[k]
		select {
		case cn := <-d.in:
			ws = append(ws, &wire{cn: cn})
			if err := ws[len(ws)-1].shake(r); err != nil {
				alive()
				fail("handshake with peer %s: %v", d.addr, err)
			}
			c.Seen("links_out", 1)
		case <-time.After(40 * time.Second):
			alive()
			fail("listed peer %s (up %v after the start) was not reached in 40 s, %d of %d others were", d.addr, d.delay, n, len(doors)-1)
		}
	}
	keys := make([]key, 0, len(ws))
	for k, w := range ws {
		w.idx = k
		keys = append(keys, w.key)
	}
	u := newUniverse(r, keys...)
	feeder := r.Intn(len(ws))
	send := func(w *wire, cw *ldpc.Codeword, loss int) {
		if err := w.say(cw, loss); err != nil {
			alive()
			fail("writing to link %d: %v", w.idx, err)
		}
	}
	// settle waits until each link's codewords name exactly the wanted transactions
	settle := func(what string, want []int) {
		since := make([]int, len(ws))
		for k, w := range ws {
			since[k] = len(w.heard())
		}
		need := 60 + 25*f.K
		for k, w := range ws {
			set := map[uint32]int{}
			for _, x := range want {
				set[short(w.nodeKey, &u.d[x])] = x
			}
			from, seen := since[k], 0
			deadline := time.Now().Add(60 * time.Second)
			why := "no codewords"
			for {
				alive()
				h := w.heard()
				if len(h)-from >= need && len(h)-seen >= 20 {
					seen = len(h)
					got := map[uint32]bool{}
					strange := 0
					for _, l := range h[len(h)-need:] {
						if len(l.members) > f.K {
							fail("%s: link %d sends a codeword of %d transactions", what, w.idx, len(l.members))
						}
						for _, m := range l.members {
							if _, ok := set[m]; !ok && !got[m] {
								strange++
							}
							got[m] = true
						}
					}
					if strange == 0 && len(got) == len(set) {
						break
					}
					why = fmt.Sprintf("the last %d codewords name %d transactions, of which %d not among the expected %d", need, len(got), strange, len(set))
				}
				if time.Now().After(deadline) {
					fail("%s: link %d (%d heard): %s", what, w.idx, len(h), why)
				}
				time.Sleep(20 * time.Millisecond)
			}
			c.Seen("windows_compared", 1)
		}
	}
	// feed more than the decoders remember, in order
	var fed []int
	other := ws[(feeder+1)%len(ws)]
	N := f.M + f.K + 20 + r.Intn(40)
	for n := 0; n < N; n++ {
		x := u.add()
		fed = append(fed, x)
		send(ws[feeder], u.craft(feeder, x), 0)
		if n%chunk == chunk-1 || n == N-1 {
			vTick()
			id := short(other.nodeKey, &u.d[x])
			from := len(other.heard())
			for s := 0; ; s++ {
				h := other.heard()
				ok := false
				for _, l := range h[from:] {
					for _, m := range l.members {
						ok = ok || m == id
					}
				}
				if ok {
					break
				}
				if s > 3000 {
					alive()
					fail("transaction %d given to link %d is not in the codewords of link %d after 60 s", n, feeder, other.idx)
				}
				time.Sleep(20 * time.Millisecond)
			}
		}
	}
	time.Sleep(300 * time.Millisecond)
	window := fed[len(fed)-f.K:]
	settle("after the feed", window)
	// degrees, on one link
	{
		w := ws[r.Intn(len(ws))]
		from := len(w.heard())
		need := 700
		if !h.Quick() {
			need = 3000
		}
		for s := 0; len(w.heard())-from < need; s++ {
			alive()
			if s > 3000 {
				fail("link %d sends %d codewords in 60 s", w.idx, len(w.heard())-from)
			}
			time.Sleep(20 * time.Millisecond)
		}
		obs := map[int]float64{}
		n := 0.0
		for _, l := range w.heard()[from:] {
			obs[len(l.members)]++
			n++
		}
		exp := map[int]float64{}
		dist := soliton.NewRobustSoliton(rand.New(rand.NewSource(r.Int63())), uint64(f.K), f.c, f.delta)
		const draws = 400000
		for k := 0; k < draws; k++ {
			exp[int(dist.Uint64())]++
		}
		chi, df := 0.0, 0.0
		ro, re := 0.0, 0.0
		for d := 0; d <= f.K; d++ {
			e := exp[d] * n / draws
			if e < 6 {
				ro += obs[d]
				re += e
				continue
			}
			chi += (obs[d] - e) * (obs[d] - e) / e
			df++
		}
		if re > 0 {
			chi += (ro - re) * (ro - re) / math.Max(re, 1)
			df++
		}
		if chi > df+8*math.Sqrt(2*df)+40 {
			fail("the degrees of %.0f codewords are not those of the robust soliton distribution with these parameters: chi-square %.0f with %.0f bins; degree 1: %.0f, expected %.1f", n, chi, df, obs[1], exp[1]*n/draws)
		}
		c.Seen("degrees_compared", int(n))
	}
	// memory
	last := len(fed) - 1
	send(ws[feeder], u.craft(feeder, fed[last-f.M+1]), 0) // the oldest one remembered
	time.Sleep(300 * time.Millisecond)
	settle("after the oldest remembered transaction was repeated", window)
	send(ws[feeder], u.craft(feeder, fed[last-f.M]), 0) // forgotten
	again := append(append([]int(nil), window[1:]...), fed[last-f.M])
	settle("after a forgotten transaction was repeated", again)
	c.Seen("memories", 1)
	known := again[len(again)-1]
	// timeout
	sum := func(w *wire) (s int) {
		for _, l := range w.heard() {
			s += l.loss
		}
		return
	}
	w := ws[r.Intn(len(ws))]
	a, b := u.add(), u.add()
	t0 := time.Now()
	send(w, u.craft(w.idx, a, b), 0)
	time.Sleep(f.timeout / 3)
	send(w, u.craft(w.idx, known), 0)
	for second := false; time.Since(t0) < f.timeout; {
		alive()
		s := sum(w)
		if el := time.Since(t0); s != 0 && el < f.timeout*98/100 {
			fail("a codeword is reported lost %v after it was sent", el)
		}
		if !second && time.Since(t0) > f.timeout*85/100 {
			second = true
			send(w, u.craft(w.idx, known), 0)
		}
		time.Sleep(5 * time.Millisecond)
	}
	time.Sleep(f.timeout * 3 / 10)
	for s := 0; sum(w) == 0; s++ {
		if s%50 == 0 {
			send(w, u.craft(w.idx, known), 0)
		}
		alive()
		if el := time.Since(t0); el > f.timeout*4+10*time.Second && s > 200 {
			fail("a codeword that cannot be decoded is not reported lost %v after it was sent", el)
		}
		time.Sleep(20 * time.Millisecond)
	}
	if s := sum(w); s != 1 {
		fail("one codeword could not be decoded, %d are reported lost", s)
	}
	c.Seen("timeouts", 1)
	c.Max("links", int64(len(ws)))
	c.Max("window", int64(f.K))
	c.Max("memory", int64(f.M))
	// rate, as reported by the program for this link
	name := w.cn.LocalAddr().String()
	rate := func() (v []float64) {
		for _, m := range namedRate.FindAllStringSubmatch(p.log.String(), -1) {
			if m[1] == name {
				v = append(v, fl(m[2]))
			}
		}
		return
	}
	expect := func(what string, want float64) {
		deadline := time.Now().Add(40 * time.Second)
		n := len(rate())
		for {
			alive()
			v := rate()
			if len(v) > n && math.Abs(v[len(v)-1]-want) < 0.011+1e-6*want {
				break
			}
			if time.Now().After(deadline) {
				if len(v) == 0 {
					c.Seen("rates_not_reported", 1)
					break
				}
				fail("%s, link %s reports a codeword rate of %.2f, not %.2f", what, name, v[len(v)-1], want)
			}
			time.Sleep(50 * time.Millisecond)
		}
		c.Seen("rates", 1)
	}
	if falls {
		expect("long after the start", f.rmin)
	} else {
		expect("without losses", f.r0)
		l := 1 + r.Intn(6)
		send(w, u.craft(w.idx, known), l)
		expect(fmt.Sprintf("after a report of %d losses", l), f.r0+f.inc*float64(l))
	}
	for k, d := range doors {
		if n := d.count(); n != 1 {
			fail("%d connections were made to listed peer %d", n, k)
		}
	}
	alive()
	c.Seen("configurations", 1)
	c.Distinct("K=%d M=%d c=%v delta=%v doors=%d dials=%d falls=%v", f.K, f.M, f.c, f.delta, f.doors, f.dials, falls)
}

func TestVerifC44(t *testing.T) {
	vMain(t, "C44", func(h *vH) {
		for i := 0; i < h.N(8, 48); i++ {
			h.Case(fmt.Sprintf("config-%d", i), func(c *vC) { config(h, i, c) })
		}
		for i := 0; i < h.N(3, 6); i++ {
			h.Case(fmt.Sprintf("taken-%d", i), func(c *vC) {
				var l net.Listener
				for k := 0; k < 20 && l == nil; k++ {
					l, _ = net.Listen("tcp", loopAddr(c.R))
				}
				if l == nil {
					c.Seen("no_address", 1)
					return
				}
				defer l.Close()
				addr := l.Addr().String()
				if i%3 == 1 {
					addr = "300.1.2.3:9000"
				}
				if i%3 == 2 {
					addr = "127.0.0.1:notaport"
				}
				var out lockedBuf
				cmd := exec.Command(os.Getenv("VERIF_BIN"), "-l", addr, "-tx", "0")
				cmd.Stdout, cmd.Stderr = &out, &out
				if cmd.Start() != nil {
					c.Seen("program_not_started", 1)
					return
				}
				done := make(chan error, 1)
				go func() { done <- cmd.Wait() }()
				for k := 0; ; k++ {
					vTick()
					select {
					case err := <-done:
						if err == nil {
							c.Fail("the node told to listen at %s, where it cannot, exits with success", addr)
						}
					case <-time.After(time.Second):
						if k > 60 {
							cmd.Process.Kill()
							c.Fail("the node told to listen at %s, where it cannot, goes on: %s", addr, tailOf(out.String()))
						}
						continue
					}
					break
				}
				c.Seen("unusable_addresses", 1)
				c.Distinct("taken %d", i%3)
			})
		}
	})
}
