package VPKG

import (
	"fmt"
	"testing"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
)

// ---- C43: flow control of coded links ----------------------------------------

// flow is what the messages seen so far make of one coded link.
type flow struct {
	// sending end
	active bool    // a block is in progress
	win    float64 // send window
	infl   int     // codewords of the block that are not acknowledged
	n      int     // acknowledgements of the latest block that count
	count  bool    // the block in progress has been acknowledged as started
	sent   int     // codewords of the block
	// receiving end
	closed bool // the block was acknowledged as completed, or none started
}

// flowIn accounts for the message about to be handled by node.
func (m *mon) flowIn(node, from int, payload any) {
	a, ok := payload.(ack)
	if !ok || !m.flowOn {
		return
	}
	l := m.links[[2]int{node, from}]
	f := &l.flow
	if a.ackBlock {
		f.active, f.count = false, false
	}
	if a.ackStart {
		f.n, f.count = 0, true
	}
	if f.count {
		f.n++
		f.infl--
		f.win += m.overhead
		if f.win < 1 {
			f.win = 1
		}
	}
	m.c.Seen("acknowledgements", 1)
}

// flowOut judges what node sends in reaction to a message from cause (-1: to
// an arrival of its own).
func (m *mon) flowOut(node, cause int, payload any, out []des.OutgoingMessage) {
	if !m.flowOn {
		return
	}
	const eps = 1e-6
	cws := map[int][]codeword{}
	acks := map[int][]ack{}
	for _, o := range out {
		if o.To == nil || m.idx[o.To] < 0 {
			continue
		}
		switch p := o.Payload.(type) {
		case codeword:
			cws[m.idx[o.To]] = append(cws[m.idx[o.To]], p)
		case ack:
			acks[m.idx[o.To]] = append(acks[m.idx[o.To]], p)
		}
	}
	for peer := range m.adj[node] {
		where := func() string { return fmt.Sprintf("t=%d link %d-%d (overhead %v)", m.now, node, peer, m.overhead) }
		if l := m.links[[2]int{node, peer}]; l != nil {
			f := &l.flow
			got := cws[peer]
			if !f.active && l.offered {
				if len(got) == 0 || !got[0].newBlock {
					m.c.Fail("%s: no block is in progress, and the sending end does not start one", where())
				}
				burst := f.n * 2 / 3
				f.win = float64(f.n) * m.overhead
				if f.win < 1 {
					f.win = 1
				}
				if len(got) < 1+burst {
					m.c.Fail("%s: a block starts with %d codewords, its predecessor had %d acknowledged: 1+%d expected", where(), len(got), f.n, burst)
				}
				f.active, f.n, f.infl, f.sent = true, 0, 1+burst, 1+burst
				for _, cw := range got[1 : 1+burst] {
					if cw.newBlock {
						m.c.Fail("%s: a second block is started", where())
					}
				}
				got = got[1+burst:]
				m.c.Seen("blocks", 1)
				m.c.Seen("burst_codewords", burst)
				m.c.Max("burst", int64(burst))
			} else if !f.active && len(got) > 0 {
				m.c.Fail("%s: codewords are sent although nothing was ever offered to the sending end", where())
			}
			for i, cw := range got {
				if cw.newBlock {
					m.c.Fail("%s: a block is started while another is in progress", where())
				}
				if float64(f.infl) >= f.win+eps {
					m.c.Fail("%s: codeword %d of %d in this step is sent with %d unacknowledged and a window of %v", where(), i+1, len(got), f.infl, f.win)
				}
				f.infl++
				f.sent++
			}
			if f.active && float64(f.infl) < f.win-eps {
				m.c.Fail("%s: %d codewords unacknowledged, the window is %v, and nothing more is sent", where(), f.infl, f.win)
			}
			m.c.Seen("codewords", len(got))
			if f.win > 1 {
				m.c.Seen("codewords_with_open_window", len(got))
			}
			m.c.Max("block", int64(f.sent))
		}
		if l := m.links[[2]int{peer, node}]; l != nil {
			f := &l.flow
			got := acks[peer]
			cw, is := payload.(codeword)
			want := 0
			if is && cause == peer {
				if cw.newBlock {
					f.closed = false
				}
				if !f.closed {
					want = 1
				} else {
					m.c.Seen("late_codewords", 1)
				}
			}
			if len(got) != want {
				m.c.Fail("%s: %d acknowledgements in reaction to a %T from %d, expected %d", where(), len(got), payload, cause, want)
			}
			if want == 1 {
				if got[0].ackStart != cw.newBlock {
					m.c.Fail("%s: a codeword with newBlock=%v is acknowledged with ackStart=%v", where(), cw.newBlock, got[0].ackStart)
				}
				f.closed = got[0].ackBlock
			}
		}
	}
}

func TestVerifC43(t *testing.T) {
	vMain(t, "C43", func(h *vH) {
		for i := 0; i < h.N(700, 10000); i++ {
			h.Case(fmt.Sprintf("flow-%d", i), func(c *vC) {
				n := 2 + c.R.Intn(6)
				if i%3 == 0 {
					n = 2
				}
				es := graph(c.R, n, 1)
				shards := []int{1, 1, 2, 3, 5, 8}[c.R.Intn(6)]
				ov := []float64{0, 0.02, 0.1, 0.1, 0.3, 0.5, 0.73, 1, 1.5, 3.2}[c.R.Intn(10)]
				m := newMon(c, n, es, true, n > 2 && c.R.Intn(3) == 0, senderConfig{ov, shards}, c.R.Int63())
				m.model, m.flowOn, m.overhead = false, true, ov
				if c.R.Intn(3) > 0 {
					m.jitter = time.Duration(1 + c.R.Intn(20000))
				}
				span := time.Duration(c.R.Intn(300000))
				for _, a := range arrivals(c.R, n, span, c.R.Intn(400)) {
					if c.R.Intn(6) == 0 {
						a.n += c.R.Intn(150)
					}
					m.arrive(a.at, a.node, a.n)
				}
				c.Budget(60_000_000)
				for k := 2000 + c.R.Intn(6000); k > 0 && len(m.q) > 0; k-- {
					m.step()
				}
				c.Seen("messages", m.seq)
				c.Distinct("flow n=%d links=%d shards=%d overhead=%v tx=%d msgs=%d", n, len(es), shards, ov, len(m.gens), m.seq)
			})
		}
	})
}
