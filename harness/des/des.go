package VPKG

import (
	"fmt"
	"math/rand"
	"sort"
	"testing"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
)

// A workload is a deterministic function from a message to the messages its
// handling sends, so that the real simulator and the reference produce the
// same tree whatever the delivery order is.
type workload struct {
	seed   uint64
	mods   int
	fan    int    // average children in percent
	max    int    // no children are sent once that many messages exist
	delays []time.Duration
	direct bool // some children are scheduled by calling the simulator
}

type msg struct{ id, depth uint64 }
type valmsg struct{ id, depth uint64 }

type send struct {
	id, depth uint64
	to        int // -1: back to the sender
	delay     time.Duration
	kind      int // payload representation; 3: no payload
	direct    bool
}

func (w *workload) children(id, depth uint64) (out []send) {
	x := vMix(id ^ w.seed)
	n := int(x % 100)
	k := 0
	switch {
	case depth > 40:
	case n < w.fan%100:
		k = w.fan/100 + 1
	default:
		k = w.fan / 100
	}
	for i := 0; i < k; i++ {
		y := vMix(x + uint64(i)*77)
		s := send{id: vMix(id*31+uint64(i)) | 1, depth: depth + 1, kind: int(y>>8) % 4}
		s.to = int(y>>16)%(w.mods+1) - 1
		s.delay = w.delays[(y>>32)%uint64(len(w.delays))]
		s.direct = w.direct && y>>60 == 0
		out = append(out, s)
	}
	if len(out) > 1 { // directly scheduled ones come first
		sort.SliceStable(out, func(a, b int) bool { return out[a].direct && !out[b].direct })
	}
	return
}

type delivery struct {
	id       uint64
	to, from int
	at       time.Duration
	kind     int
}

// ---- reference: an explicit sorted list ---------------------------------

type refEv struct {
	at       time.Duration
	seq      int
	s        send
	from, to int
}
type refSim struct {
	w     *workload
	q     []refEv // sorted by (at, seq)
	seq   int
	now   time.Duration
	trace []delivery
}

func (r *refSim) add(from int, s send) {
	to := s.to
	if to < 0 {
		to = from
	}
	e := refEv{r.now + s.delay, r.seq, s, from, to}
	r.seq++
	i := sort.Search(len(r.q), func(i int) bool { return r.q[i].at > e.at })
	r.q = append(r.q, refEv{})
	copy(r.q[i+1:], r.q[i:])
	r.q[i] = e
}

func (r *refSim) step() {
	e := r.q[0]
	r.q = r.q[1:]
	r.now = e.at
	d := delivery{e.s.id, e.to, e.from, e.at, e.s.kind}
	if e.s.kind == 3 {
		d.id = 0
	}
	r.trace = append(r.trace, d)
	if e.s.kind != 3 && r.seq < r.w.max {
		for _, s := range r.w.children(e.s.id, e.s.depth) {
			r.add(e.to, s)
		}
	}
}

// ---- real simulator -------------------------------------------------------

type module struct {
	n   *net
	idx int
}
type net struct {
	c     *vC
	w     *workload
	sim   *des.Simulator
	mods  []*module
	trace []delivery
	sched int
	what  string
}

func newNet(c *vC, w *workload) *net {
	n := &net{c: c, w: w, sim: &des.Simulator{}}
	for i := 0; i < w.mods; i++ {
		n.mods = append(n.mods, &module{n, i})
	}
	return n
}

func (n *net) outgoing(s send) des.OutgoingMessage {
	o := des.OutgoingMessage{Delay: s.delay}
	switch s.kind {
	case 0, 1:
		o.Payload = &msg{s.id, s.depth}
	case 2:
		o.Payload = valmsg{s.id, s.depth}
	}
	if s.to >= 0 {
		o.To = n.mods[s.to]
	}
	return o
}

func (n *net) schedule(from int, s send) {
	n.sim.ScheduleMessage(n.outgoing(s), n.mods[from])
	n.sched++
	n.counters("after scheduling")
}

func (n *net) counters(when string) {
	q, d := n.sim.EventsQueued(), n.sim.EventsDelivered()
	if q+d != n.sched || q < 0 || d != len(n.trace) {
		n.c.Fail("%s: %d scheduled, %d deliveries seen, but %d reported delivered and %d queued", when, n.sched, len(n.trace), d, q)
	}
	if n.sim.Drained() != (q == 0) {
		n.c.Fail("%s: drained=%v with %d queued", when, n.sim.Drained(), q)
	}
	if len(n.trace) > 0 && n.sim.Time() != n.trace[len(n.trace)-1].at {
		n.c.Fail("%s: clock is %d, last delivery was at %d", when, n.sim.Time(), n.trace[len(n.trace)-1].at)
	}
}

func (m *module) HandleMessage(payload any, from des.Module, at time.Duration) (out []des.OutgoingMessage) {
	n := m.n
	vTick()
	d := delivery{to: m.idx, at: at, from: -1, kind: 3}
	if f, ok := from.(*module); ok && f != nil {
		d.from = f.idx
	}
	depth := uint64(0)
	switch p := payload.(type) {
	case *msg:
		d.id, depth, d.kind = p.id, p.depth, 0
		p.id ^= 1 << 63 // a second delivery of the same object is visible
	case valmsg:
		d.id, depth, d.kind = p.id, p.depth, 2
	case nil:
	default:
		n.c.Fail("delivery %d: payload of type %T that nobody sent", len(n.trace), payload)
	}
	n.trace = append(n.trace, d)
	n.counters("inside a delivery")
	if d.kind == 3 || n.sched >= n.w.max {
		return nil
	}
	for _, s := range n.w.children(d.id, depth) {
		if s.direct {
			n.schedule(m.idx, s)
		} else {
			out = append(out, n.outgoing(s))
		}
	}
	n.sched += len(out)
	// the simulator schedules these after the handler returns
	return
}

func (n *net) compare(want []delivery, from int) {
	got := n.trace
	for i := from; i < len(got) && i < len(want); i++ {
		w := want[i]
		if w.kind == 1 {
			w.kind = 0
		}
		if got[i] != w {
			n.c.Fail("delivery %d is {message %x to %d from %d at %d kind %d}, expected {message %x to %d from %d at %d kind %d}", i, got[i].id, got[i].to, got[i].from, got[i].at, got[i].kind, w.id, w.to, w.from, w.at, w.kind)
		}
	}
	if len(got) > len(want) {
		n.c.Fail("%d deliveries, but only %d messages were scheduled", len(got), len(want))
	}
}

func someWorkload(r *rand.Rand, max int) (*workload, []send, []int) {
	w := &workload{seed: r.Uint64(), mods: 1 + r.Intn(6), max: 20 + r.Intn(max), fan: 60 + r.Intn(120), direct: r.Intn(3) == 0}
	switch r.Intn(6) {
	case 0: // everything at one instant
		w.delays = []time.Duration{0}
	case 1: // heavy ties
		w.delays = []time.Duration{0, 5, 5, 10}
	case 2:
		for i := 0; i < 40; i++ {
			w.delays = append(w.delays, time.Duration(r.Intn(1000)))
		}
	case 3: // huge next to tiny
		w.delays = []time.Duration{0, 1, 1 << 40, 1 << 53, 1 << 54}
	case 4:
		w.delays = []time.Duration{7}
	default:
		for i := 0; i < 10; i++ {
			w.delays = append(w.delays, time.Duration(r.Int63n(1<<30)))
		}
		w.delays = append(w.delays, 0, 0)
	}
	var init []send
	var from []int
	for i := 1 + r.Intn(60); i > 0; i-- {
		init = append(init, send{id: r.Uint64() | 1, to: r.Intn(w.mods+1) - 1, kind: r.Intn(3), delay: w.delays[r.Intn(len(w.delays))]})
		from = append(from, r.Intn(w.mods))
	}
	return w, init, from
}

func ties(tr []delivery) (t int) {
	for i := 1; i < len(tr); i++ {
		if tr[i].at == tr[i-1].at {
			t++
		}
	}
	return
}

// burst: tens of thousands of messages wait at once, drain (in one go or in
// segments), and more bursts of all sizes follow.
func burst(c *vC, size int, segs bool) {
	w, _, _ := someWorkload(c.R, 100)
	w.max, w.fan, w.direct = 1<<40, c.R.Intn(6), false
	c.Budget(1 << 40)
	n := newNet(c, w)
	ref := &refSim{w: w}
	for b := 0; b < 6; b++ {
		k := []int{size, 1 + c.R.Intn(20), 1 + c.R.Intn(size/4+1), size / 2, 3, 1 + c.R.Intn(size)}[b]
		spread := []int64{0, 3, 1000, 1 << 20, 1 << 50}[c.R.Intn(5)]
		for i := 0; i < k; i++ {
			s := send{id: c.R.Uint64() | 1, to: c.R.Intn(w.mods+1) - 1, kind: c.R.Intn(3), delay: time.Duration(c.R.Int63n(spread + 1))}
			f := c.R.Intn(w.mods)
			n.schedule(f, s)
			to := s.to
			if to < 0 {
				to = f
			}
			ref.q = append(ref.q, refEv{ref.now + s.delay, ref.seq, s, f, to})
			ref.seq++
		}
		sort.SliceStable(ref.q, func(a, b int) bool { return ref.q[a].at < ref.q[b].at })
		c.Max("waiting_at_once", int64(n.sim.EventsQueued()))
		leave := 0
		if segs {
			leave = c.R.Intn(40)
		}
		for len(ref.q) > leave {
			pos := len(n.trace)
			if !segs {
				n.sim.Run()
			} else {
				t := ref.q[c.R.Intn(len(ref.q))].at - time.Duration(c.R.Intn(2))
				n.sim.RunUntil(t)
				c.Seen("segments", 1)
				for len(ref.trace) < len(n.trace) && len(ref.q) > 0 {
					ref.step()
				}
				if len(ref.q) > 0 && ref.q[0].at <= t {
					c.Fail("run-until(%d) left undelivered a message due at %d", t, ref.q[0].at)
				}
			}
			for len(ref.q) > 0 && (!segs || len(ref.trace) < len(n.trace)) {
				ref.step()
			}
			n.compare(ref.trace, pos)
			if len(n.trace) != len(ref.trace) {
				c.Fail("burst %d: %d of %d messages delivered", b, len(n.trace), len(ref.trace))
			}
			n.counters(fmt.Sprintf("after burst %d", b))
		}
	}
	c.Seen("bursts", 6)
	c.Distinct("burst %d deliveries %d end %d", size, len(n.trace), n.sim.Time())
}

func TestVerifC18(t *testing.T) {
	vMain(t, "C18", func(h *vH) {
		for i := 0; i < h.N(8, 40); i++ {
			h.Case(fmt.Sprintf("burst-%d", i), func(c *vC) {
				burst(c, []int{3000, 9000, 20000, 70000}[i%4]+c.R.Intn(1000), false)
			})
		}
		for i := 0; i < h.N(700, 12000); i++ {
			h.Case(fmt.Sprintf("run-%d", i), func(c *vC) {
				max := 600
				if i%20 == 0 {
					max = 12000
				}
				w, init, from := someWorkload(c.R, max)
				ref := &refSim{w: w}
				n := newNet(c, w)
				c.Budget(int64(10*w.max) + 10000)
				for k := range init {
					ref.add(from[k], init[k])
					n.schedule(from[k], init[k])
				}
				extra := c.R.Intn(4) // more arrivals once the first wave is over
				for {
					for len(ref.q) > 0 {
						ref.step()
					}
					n.sim.Run()
					n.compare(ref.trace, 0)
					if len(n.trace) != len(ref.trace) {
						c.Fail("%d of %d messages delivered", len(n.trace), len(ref.trace))
					}
					n.counters("after the run")
					if extra == 0 {
						break
					}
					extra--
					for k := 1 + c.R.Intn(5); k > 0; k-- {
						s, f := init[c.R.Intn(len(init))], c.R.Intn(w.mods)
						s.id = c.R.Uint64() | 1
						ref.add(f, s)
						n.schedule(f, s)
					}
				}
				c.Seen("deliveries", len(n.trace))
				c.Seen("simultaneous_deliveries", ties(n.trace))
				for _, d := range n.trace {
					if d.from == d.to {
						c.Seen("loopback_deliveries", 1)
					}
				}
				c.Max("queue_sched", int64(n.sched))
				c.Distinct("%d modules %d deliveries %d ties end %d", w.mods, len(n.trace), ties(n.trace), n.sim.Time())
			})
		}
	})
}

func TestVerifC19(t *testing.T) {
	vMain(t, "C19", func(h *vH) {
		for i := 0; i < h.N(8, 40); i++ {
			h.Case(fmt.Sprintf("burst-%d", i), func(c *vC) {
				burst(c, []int{3000, 9000, 20000, 70000}[i%4]+c.R.Intn(1000), true)
			})
		}
		for i := 0; i < h.N(700, 12000); i++ {
			h.Case(fmt.Sprintf("seg-%d", i), func(c *vC) {
				max := 500
				if i%20 == 0 {
					max = 6000
				}
				w, init, from := someWorkload(c.R, max)
				c.Budget(int64(20*w.max) + 20000)
				whole := newNet(c, w)
				n := newNet(c, w)
				ref := &refSim{w: w}
				for k := range init {
					whole.schedule(from[k], init[k])
					n.schedule(from[k], init[k])
					ref.add(from[k], init[k])
				}
				whole.sim.Run()
				for len(ref.q) > 0 {
					ref.step()
				}
				whole.compare(ref.trace, 0)
				tr := whole.trace
				if len(tr) != len(ref.trace) {
					c.Fail("uninterrupted run delivered %d of %d", len(tr), len(ref.trace))
				}
				segs, over := 0, 0
				for segs < 3*len(tr)+50 && !n.sim.Drained() {
					// pick the next stopping time
					var t time.Duration
					pos := len(n.trace)
					switch c.R.Intn(7) {
					case 0: // before now
						t = n.sim.Time() - time.Duration(c.R.Intn(5))
					case 1: // exactly a due time
						t = tr[pos+c.R.Intn(len(tr)-pos)].at
					case 2:
						t = tr[pos].at - 1
					case 3:
						t = tr[pos].at
					case 4:
						t = tr[pos+c.R.Intn(vMin(20, len(tr)-pos))].at + 1
					case 5:
						t = n.sim.Time()
					default:
						t = n.sim.Time() + time.Duration(c.R.Int63n(int64(tr[len(tr)-1].at-n.sim.Time())+2))
					}
					n.sim.RunUntil(t)
					segs++
					n.counters(fmt.Sprintf("after run-until(%d)", t))
					n.compare(tr, pos)
					late := 0
					for _, d := range n.trace[pos:] {
						if d.at > t {
							late++
						}
					}
					if late > 1 {
						c.Fail("run-until(%d) delivered %d messages due later", t, late)
					}
					over += late
					if len(n.trace) < len(tr) && tr[len(n.trace)].at <= t {
						c.Fail("run-until(%d) left undelivered a message due at %d", t, tr[len(n.trace)].at)
					}
					if c.R.Intn(400) == 0 {
						break
					}
				}
				n.sim.Run()
				n.counters("at the end")
				n.compare(tr, 0)
				if len(n.trace) != len(tr) || !n.sim.Drained() {
					c.Fail("segmented run delivered %d of %d", len(n.trace), len(tr))
				}
				n.sim.RunUntil(n.sim.Time() + 1)
				n.sim.Run()
				n.counters("after running an empty simulator")
				c.Seen("segments", segs)
				c.Seen("overshoots", over)
				c.Seen("deliveries", len(tr))
				c.Distinct("%d deliveries %d segments %d overshoots", len(tr), segs, over)
			})
		}
		// messages added between segments: due times are relative to the clock
		for i := 0; i < h.N(300, 5000); i++ {
			h.Case(fmt.Sprintf("inject-%d", i), func(c *vC) {
				w, init, from := someWorkload(c.R, 400)
				c.Budget(int64(20*w.max) + 20000)
				n := newNet(c, w)
				ref := &refSim{w: w}
				if n.sim.Run(); !n.sim.Drained() || n.sim.Time() != 0 {
					c.Fail("a new simulator is not drained at time zero")
				}
				for k := range init {
					n.schedule(from[k], init[k])
					ref.add(from[k], init[k])
					if c.R.Intn(3) == 0 {
						t := n.sim.Time() + w.delays[c.R.Intn(len(w.delays))] + time.Duration(c.R.Intn(3))
						pos := len(n.trace)
						n.sim.RunUntil(t)
						for len(ref.trace) < len(n.trace) && len(ref.q) > 0 {
							ref.step()
						}
						n.compare(ref.trace, pos)
						if len(ref.q) > 0 && ref.q[0].at <= t {
							c.Fail("run-until(%d) left undelivered a message due at %d", t, ref.q[0].at)
						}
						n.counters("after a segment")
						c.Seen("segments", 1)
					}
				}
				for len(ref.q) > 0 {
					ref.step()
				}
				n.sim.Run()
				n.compare(ref.trace, 0)
				if len(n.trace) != len(ref.trace) {
					c.Fail("%d of %d messages delivered", len(n.trace), len(ref.trace))
				}
				n.counters("at the end")
				c.Seen("injections", len(init))
				c.Distinct("inject %d deliveries", len(n.trace))
			})
		}
	})
}
