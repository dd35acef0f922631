package VPKG

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/ldpc"
	"github.com/yangl1996/soliton"
)

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *lockedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

type prog struct {
	cmd  *exec.Cmd
	log  lockedBuf
	addr string
	done chan error
}

// start runs the node program on a free loopback port.
func start(args ...string) *prog {
	for try := 0; try < 20; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			continue
		}
		addr := l.Addr().String()
		l.Close()
		p := &prog{addr: addr, done: make(chan error, 1)}
		p.cmd = exec.Command(os.Getenv("VERIF_BIN"), append([]string{"-l", addr}, args...)...)
		p.cmd.Stdout, p.cmd.Stderr = &p.log, &p.log
		if p.cmd.Start() != nil {
			continue
		}
		go func() { p.done <- p.cmd.Wait() }()
		for k := 0; k < 600; k++ {
			if strings.Contains(p.log.String(), "running") || strings.Contains(p.log.String(), "start listening") {
				return p
			}
			if strings.Contains(p.log.String(), "failed to listen") {
				break
			}
			time.Sleep(20 * time.Millisecond)
		}
		p.stop()
	}
	return nil
}

func (p *prog) stop() {
	p.cmd.Process.Kill()
	<-p.done
}

// client is a scripted peer over TCP.
type client struct {
	cn      net.Conn
	key     key
	nodeKey key
	mu      sync.Mutex
	dec     *ldpc.Decoder
	got     map[data]bool
	cws     int
	shaken  time.Time
	first   int64 // when the first codeword was made
	err     error
}

func dial(addr string, r *rand.Rand) (*client, error) {
	var cn net.Conn
	var err error
	for k := 0; k < 200; k++ {
		cn, err = net.Dial("tcp", addr)
		if err == nil {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	if err != nil {
		return nil, err
	}
	cn.(*net.TCPConn).SetNoDelay(true)
	cl := &client{cn: cn, key: randKey(r), got: map[data]bool{}}
	rest := cl.key[:]
	for len(rest) > 0 { // a slow, fragmented key
		n := 1 + r.Intn(len(rest))
		if _, err := cn.Write(rest[:n]); err != nil {
			return nil, err
		}
		rest = rest[n:]
		time.Sleep(time.Duration(5+r.Intn(20)) * time.Millisecond)
	}
	if _, err := io.ReadFull(cn, cl.nodeKey[:]); err != nil {
		return nil, err
	}
	cl.shaken = time.Now()
	cl.dec = ldpc.NewDecoder(cl.nodeKey, 1<<20)
	go func() {
		d := gob.NewDecoder(cn)
		for {
			var cw Codeword
			err := d.Decode(&cw)
			cl.mu.Lock()
			if err != nil {
				cl.err = err
				cl.mu.Unlock()
				return
			}
			if cw.Codeword == nil {
				cw.Codeword = &ldpc.Codeword{}
			}
			_, txs := cl.dec.AddCodeword(cw.Codeword)
			for _, t := range txs {
				cl.got[body(t.Transaction)] = true
			}
			if cl.cws == 0 {
				cl.first = cw.UnixMicro
			}
			cl.cws++
			cl.mu.Unlock()
		}
	}()
	return cl, nil
}

// write sends the stream in pieces.
type pieces struct {
	cn net.Conn
	r  *rand.Rand
}

func (p pieces) Write(b []byte) (int, error) {
	n := len(b)
	for len(b) > 0 {
		k := 1 + p.r.Intn(len(b))
		if _, err := p.cn.Write(b[:k]); err != nil {
			return 0, err
		}
		b = b[k:]
	}
	return n, nil
}

// programs runs the real program: a chain of nodes on loopback between two
// scripted clients.
func programs(h *vH) {
	if os.Getenv("VERIF_BIN") == "" {
		return
	}
	for i := 0; i < h.N(4, 12); i++ {
		h.Case(fmt.Sprintf("program-%d", i), func(c *vC) {
			hops := 1 + i%3
			var ps []*prog
			fail := func(f string, a ...any) {
				logs := ""
				for k, p := range ps {
					s := p.log.String()
					if j := strings.Index(s, "WARNING: DATA RACE"); j >= 0 {
						s = s[j:]
					} else if j := strings.Index(s, "panic"); j >= 0 {
						s = s[j:]
					} else if len(s) > 600 {
						s = s[len(s)-600:]
					}
					logs += fmt.Sprintf("\nnode %d: %.1800s", k, s)
				}
				c.Fail(f+"%s", append(a, logs)...)
			}
			defer func() {
				for _, p := range ps {
					p.stop()
				}
			}()
			for k := 0; k < hops; k++ {
				args := []string{"-tx", "0", "-r0", "300", "-rmin", "100", "-k", "50", "-t", "30s"}
				if i%2 == 1 {
					args[1] = "3"
				}
				if k > 0 {
					args = append(args, "-p", ps[k-1].addr)
				}
				p := start(args...)
				if p == nil {
					c.Seen("program_not_started", 1)
					return
				}
				ps = append(ps, p)
			}
			r := rand.New(rand.NewSource(c.R.Int63()))
			a, err := dial(ps[0].addr, r)
			if err != nil {
				fail("client could not connect: %v", err)
			}
			b, err := dial(ps[hops-1].addr, r)
			if err != nil {
				fail("client could not connect: %v", err)
			}
			// both directions
			want := [2][]data{}
			stop := make(chan struct{})
			var wg sync.WaitGroup
			for side, cl := range []*client{a, b} {
				seed := r.Int63()
				n := 3 + r.Intn(10)
				var txs []*ldpc.Transaction
				for j := 0; j < n; j++ {
					d := payload(r.Uint64())
					want[side] = append(want[side], d)
					txs = append(txs, load(d))
				}
				wg.Add(1)
				go func(cl *client) {
					defer wg.Done()
					rr := rand.New(rand.NewSource(seed))
					enc := ldpc.NewEncoder(cl.key, soliton.NewRobustSoliton(rr, uint64(n+1), 0.03, 0.5), n)
					for _, t := range txs {
						enc.AddTransaction(t)
					}
					g := gob.NewEncoder(pieces{cl.cn, rr})
					for {
						select {
						case <-stop:
							return
						default:
						}
						if g.Encode(Codeword{enc.ProduceCodeword(), 0, time.Now().UnixMicro()}) != nil {
							return
						}
						time.Sleep(3 * time.Millisecond)
					}
				}(cl)
			}
			defer func() { close(stop); a.cn.Close(); b.cn.Close(); wg.Wait() }()
			miss := ""
			for k := 0; k < 900; k++ {
				time.Sleep(100 * time.Millisecond)
				vTick()
				miss = ""
				for side, cl := range []*client{b, a} {
					cl.mu.Lock()
					for _, d := range want[side] {
						if !cl.got[d] {
							miss = fmt.Sprintf("client %d did not get all %d transactions of the other (%d codewords heard, %d transactions decoded, stream error %v)", 1-side, len(want[side]), cl.cws, len(cl.got), cl.err)
						}
					}
					cl.mu.Unlock()
				}
				if miss == "" {
					break
				}
				for n, p := range ps {
					select {
					case err := <-p.done:
						p.done <- err
						fail("node %d exited: %v", n, err)
					default:
					}
				}
			}
			if miss != "" {
				fail("%d nodes in a row, 90 s: %s", hops, miss)
			}
			for n, p := range ps {
				select {
				case err := <-p.done:
					p.done <- err
					fail("node %d exited: %v", n, err)
				default:
				}
			}
			c.Seen("program_runs", 1)
			for _, cl := range []*client{a, b} {
				cl.mu.Lock()
				c.Seen("program_codewords", cl.cws)
				cl.mu.Unlock()
			}
			c.Distinct("program hops=%d tx=%d,%d", hops, len(want[0]), len(want[1]))
		})
	}
}
