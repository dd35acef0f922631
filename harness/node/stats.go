package VPKG

import (
	"fmt"
	"log"
	"math"
	"math/rand"
	"os"
	"regexp"
	"sort"
	"strconv"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/ldpc"
)

type stamped struct {
	at   time.Time
	text string
}

type lineSink struct {
	mu sync.Mutex
	l  []stamped
}

func (s *lineSink) Write(p []byte) (int, error) {
	s.mu.Lock()
	s.l = append(s.l, stamped{time.Now(), string(p)})
	s.mu.Unlock()
	return len(p), nil
}

func (s *lineSink) lines() []stamped {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]stamped(nil), s.l...)
}

const num = `(-?[0-9.]+|NaN|[-+]Inf)`

var (
	totalLine = regexp.MustCompile(`^total tx (\d+)`)
	warmLine  = regexp.MustCompile(`since warm up tx=(\d+), p5_latency_ms=` + num + `, p95_latency_ms=` + num + `, p50_latency_ms=` + num + `, mean_latency_ms=` + num)
	recvLine  = regexp.MustCompile(`peer (\S+) received cws (\d+) last second delay ms median ` + num + ` p95 ` + num + ` mean ` + num)
)

func fl(s string) float64 {
	v, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic(err)
	}
	return v
}

// quantile checks a reported quantile: within 0.1% (and rounding) of a sample
// at the rank, given as sorted samples.
func quantile(c *vC, what string, got, q, round float64, sorted []float64) {
	rank := q * float64(len(sorted)-1)
	lo, hi := sorted[int(math.Floor(rank))], sorted[int(math.Ceil(rank))]
	if math.IsNaN(got) || got < lo-math.Abs(lo)*0.002-round || got > hi+math.Abs(hi)*0.002+round {
		c.Fail("%s: %.2f reported, the %d samples have %.3f..%.3f", what, got, len(sorted), lo, hi)
	}
}

func meanOf(s []float64) float64 {
	t := 0.0
	for _, x := range s {
		t += x
	}
	return t / float64(len(s))
}

func TestVerifC35(t *testing.T) {
	vMain(t, "C35", func(h *vH) {
		for i := 0; i < h.N(300, 3000); i++ {
			h.Case(fmt.Sprintf("stats-%d", i), func(c *vC) {
				sink := &lineSink{}
				log.SetFlags(0)
				log.SetOutput(sink)
				bubble(t, func() {
					p := defaults()
					p.minRate, p.initRate = 5, 5
					p.timeout = time.Duration(1+c.R.Intn(3000)) * time.Millisecond
					warm := time.Duration(c.R.Intn(6000))*time.Millisecond + 123456
					begin := time.Now()
					ctl := newControllerW(p, warm)
					var ends []*endpoint
					var keys []key
					np := c.R.Intn(4)
					for k := 0; k < np; k++ {
						keys = append(keys, randKey(c.R))
					}
					u := newUniverse(c.R, keys...)
					var refs []*recv
					for k := 0; k < np; k++ {
						e := newEndpoint(keys[k], frag{})
						attach(c, ctl, e, fmt.Sprint("p", k))
						ends = append(ends, e)
						refs = append(refs, newRecv(keys[k], int(p.M), p.timeout))
					}
					if time.Now() != begin {
						c.Fail("harness: set-up took virtual time")
					}
					type dec struct {
						at time.Duration
						ms float64
					}
					var decs []dec
					type rx struct {
						at time.Duration
						ms float64
					}
					rxs := make([][]rx, np)
					skew := time.Duration(0) // by how much the clocks of others are ahead
					if i%5 == 2 {
						skew = time.Duration(1+c.R.Intn(3000000)) * time.Microsecond
						c.Seen("clocks_ahead", 1)
					}
					old := func() time.Duration { // age of a transaction or codeword
						if skew > 0 && c.R.Intn(2) == 0 {
							return -time.Duration(c.R.Int63n(int64(skew/time.Microsecond))+1) * time.Microsecond
						}
						switch c.R.Intn(5) {
						case 0:
							return 0
						case 1:
							return time.Duration(1+c.R.Intn(50)) * time.Microsecond
						case 2:
							return time.Duration(1+c.R.Intn(20000)) * time.Millisecond
						}
						return time.Duration(1+c.R.Intn(400000)) * time.Microsecond
					}
					fresh := func() data {
						d := u.d[u.add()]
						return d
					}
					aged := func(age time.Duration) data {
						u.ageNext = age
						d := fresh()
						u.ageNext = 0
						return d
					}
					gap := []int{3, 30, 300}[c.R.Intn(3)]
					busy := 1 // how much happens at once
					if i%15 == 0 {
						busy, gap = 90, 300
					}
					if c.R.Intn(3) == 0 { // nothing happens at first
						time.Sleep(time.Duration(c.R.Intn(9000))*time.Millisecond + 5500*time.Microsecond)
					}
					for s := 20 + c.R.Intn(300); s > 0; s-- {
						time.Sleep(time.Duration(1+c.R.Intn(1000*gap)) * time.Microsecond)
						// away from whole seconds
						if off := time.Since(begin) % time.Second; off < 5*time.Millisecond || off > 995*time.Millisecond {
							time.Sleep(11 * time.Millisecond)
						}
						at := time.Since(begin)
						for rep := 1 + c.R.Intn(busy); rep > 0; rep-- {
							switch k := c.R.Intn(3); {
							case k == 0 || np == 0:
								age := old()
								d := aged(age)
								ctl.decodedTransaction <- ldpc.DecodedTransaction{load(d), c.R.Intn(3) == 0}
								for _, r := range refs {
									r.local(load(d))
								}
								decs = append(decs, dec{at, float64(age.Microseconds()) / 1000})
							case k == 1 && c.R.Intn(3) == 0:
								d := fresh()
								ctl.localTransaction <- load(d)
								for _, r := range refs {
									r.local(load(d))
								}
							default:
								j := c.R.Intn(np)
								age := old()
								var cw *ldpc.Codeword
								var d *data
								tage := old()
								if c.R.Intn(2) == 0 {
									x := aged(tage)
									d = &x
									cw = u.craft(j, len(u.d)-1)
								} else {
									cw = u.craft(j, u.add(), u.add())
								}
								ends[j].w <- ends[j].bytesAt(cw, 0, time.Now().Add(-age))
								rxs[j] = append(rxs[j], rx{at, float64(age.Microseconds()) / 1000})
								if d != nil {
									decs = append(decs, dec{at, float64(tage.Microseconds()) / 1000})
								}
							}
						}
						synctest.Wait()
					}
					time.Sleep(time.Duration(2+c.R.Intn(3)) * time.Second)
					synctest.Wait()
					// check the reports
					warmTick := time.Duration(math.MaxInt64)
					for s := time.Second; ; s += time.Second {
						if s > warm {
							warmTick = s
							break
						}
					}
					seconds := int(time.Since(begin) / time.Second)
					if time.Since(begin)%time.Second == 0 {
						seconds--
					}
					totals, warms := 0, 0
					recvs := map[string]int{}
					for _, l := range sink.lines() {
						at := l.at.Sub(begin)
						if m := totalLine.FindStringSubmatch(l.text); m != nil {
							n := 0
							for _, d := range decs {
								if d.at < at {
									n++
								}
							}
							if fl(m[1]) != float64(n) {
								c.Fail("after %v the node reports %s decoded transactions in total, there were %d", at, m[1], n)
							}
							totals++
						}
						if m := warmLine.FindStringSubmatch(l.text); m != nil {
							var s []float64
							for _, d := range decs {
								if d.at < at && d.at > warmTick {
									s = append(s, d.ms)
								}
							}
							if at < warmTick {
								c.Fail("latency reported after %v, the warm-up takes %v", at, warm)
							}
							if fl(m[1]) != float64(len(s)) {
								c.Fail("after %v (warm-up %v) the node reports %s transactions since warm-up, there were %d", at, warm, m[1], len(s))
							}
							sort.Float64s(s)
							quantile(c, fmt.Sprintf("5th percentile latency after %v", at), fl(m[2]), 0.05, 0.0051, s)
							quantile(c, fmt.Sprintf("95th percentile latency after %v", at), fl(m[3]), 0.95, 0.0051, s)
							quantile(c, fmt.Sprintf("median latency after %v", at), fl(m[4]), 0.5, 0.0051, s)
							if w := meanOf(s); math.IsNaN(fl(m[5])) || math.Abs(w-fl(m[5])) > 0.0051+math.Abs(w)*1e-6 {
								c.Fail("mean latency after %v: %s reported, it is %.3f", at, m[5], w)
							}
							warms++
						}
						if m := recvLine.FindStringSubmatch(l.text); m != nil {
							j := -1
							for k := range ends {
								if fmt.Sprint("p", k) == m[1] {
									j = k
								}
							}
							if j < 0 {
								c.Fail("a report names a peer %q that does not exist", m[1])
							}
							n := 0
							var s []float64
							for _, x := range rxs[j] {
								if x.at < at {
									n++
									if x.at > at-time.Second {
										s = append(s, x.ms)
									}
								}
							}
							if fl(m[2]) != float64(n) {
								c.Fail("after %v the node reports %s codewords received from peer %d, it was sent %d", at, m[2], j, n)
							}
							recvs[m[1]]++
							if len(s) == 0 {
								continue
							}
							sort.Float64s(s)
							quantile(c, fmt.Sprintf("median codeword delay after %v", at), fl(m[3]), 0.5, 0.051, s)
							quantile(c, fmt.Sprintf("95th percentile codeword delay after %v", at), fl(m[4]), 0.95, 0.051, s)
							if w := meanOf(s); math.IsNaN(fl(m[5])) || math.Abs(w-fl(m[5])) > 0.051+math.Abs(w)*1e-6 {
								c.Fail("mean codeword delay after %v: %s reported, it is %.3f", at, m[5], w)
							}
							c.Seen("link_reports", 1)
						}
					}
					if totals < seconds {
						c.Fail("%d reports of the total in %d seconds", totals, seconds)
					}
					for k := range ends {
						if recvs[fmt.Sprint("p", k)] < seconds {
							c.Fail("%d reports about peer %d in %d seconds", recvs[fmt.Sprint("p", k)], k, seconds)
						}
					}
					after := 0
					for s := 1; s <= seconds; s++ {
						at := time.Duration(s) * time.Second
						any := false
						for _, d := range decs {
							any = any || d.at > warmTick && d.at < at
						}
						if any {
							after++
						}
					}
					if warms < after {
						c.Fail("%d latency reports, the node had measurements to report %d times", warms, after)
					}
					c.Seen("total_reports", totals)
					c.Seen("latency_reports", warms)
					c.Max("transactions_in_one_run", int64(len(decs)))
					c.Seen("transactions_measured", len(decs))
					c.Distinct("warm=%v peers=%d tx=%d", warm, np, len(decs))
				})
			})
		}
		programStats(h)
	})
}

var (
	genLine   = regexp.MustCompile(`generated tx (\d+)`)
	namedRate = regexp.MustCompile(`peer (\S+) codeword rate ([-0-9.e+]+) dropped`)
	progRate  = regexp.MustCompile(`codeword rate ([-0-9.e+]+) dropped (\d+)`)
	progTot   = regexp.MustCompile(`total tx (\d+)`)
)

// programStats runs two connected node programs: what one generates the other
// decodes, and reports.
func programStats(h *vH) {
	if os.Getenv("VERIF_BIN") == "" {
		return
	}
	for i := 0; i < h.N(3, 10); i++ {
		h.Case(fmt.Sprintf("program-%d", i), func(c *vC) {
			rate := []float64{20, 60, 150}[i%3]
			a := start("-tx", fmt.Sprint(rate), "-r0", fmt.Sprint(rate*3), "-rmin", fmt.Sprint(rate*3), "-t", "30s", "-warmup", "1s")
			if a == nil {
				c.Seen("program_not_started", 1)
				return
			}
			defer a.stop()
			cl, err := dial(a.addr, rand.New(rand.NewSource(c.R.Int63())))
			if err != nil {
				c.Fail("client could not connect: %v", err)
			}
			defer cl.cn.Close()
			t0 := time.Now()
			n := 0
			for k := 0; k < 150; k++ {
				time.Sleep(200 * time.Millisecond)
				vTick()
				if m := genLine.FindAllStringSubmatch(a.log.String(), -1); len(m) >= 5 {
					n, _ = strconv.Atoi(m[len(m)-1][1])
					break
				}
			}
			el := time.Since(t0).Seconds()
			if n == 0 {
				c.Fail("the node was asked to generate %.0f transactions per second and reports none after %.0f s: %s", rate, el, tailOf(a.log.String()))
			}
			// at least a tenth, at most twice what was asked for (the machine may be slow)
			if w := rate * 5; float64(n) > 2*w+30 || float64(n) < w/10-5 {
				c.Fail("the node was asked to generate %.0f transactions per second and reports %d in its fifth report", rate, n)
			}
			cl.mu.Lock()
			got := len(cl.got)
			ids := map[string]bool{}
			now := time.Now().UnixMicro()
			for d := range cl.got {
				tx := load(d)
				if us := getStamp(d); us > now || us < t0.UnixMicro()-60e6 {
					cl.mu.Unlock()
					c.Fail("a generated transaction is stamped %d, now is %d", us, now)
				}
				if ids[string(tx.Serialized()[8:])] {
					cl.mu.Unlock()
					c.Fail("two generated transactions have the same content")
				}
				ids[string(tx.Serialized()[8:])] = true
			}
			cl.mu.Unlock()
			c.Seen("program_stats", 1)
			c.Seen("generated_transactions_seen", got)
			c.Distinct("program rate=%v n=%d", rate, n)
		})
	}
}

func tailOf(s string) string {
	if len(s) > 1500 {
		s = s[len(s)-1500:]
	}
	return s
}

func min2(a, b time.Duration) time.Duration {
	if a < b {
		return a
	}
	return b
}

// programRates runs the program with an initial rate below the minimum and with none.
func programRates(h *vH) {
	if os.Getenv("VERIF_BIN") == "" {
		return
	}
	for i := 0; i < h.N(6, 18); i++ {
		h.Case(fmt.Sprintf("program-%d", i), func(c *vC) {
			floor := 20 + c.R.Float64()*50
			slow := 1 + c.R.Float64()*0.3
			first := time.Duration(float64(time.Second) / slow) // at that rate
			args := [][]string{
				{"-tx", "0", "-r0", "0.2"},
				{"-tx", "0"},
				{"-tx", "0.01"},
				{"-tx", fmt.Sprint(floor * 2), "-loss", "0"},
				{"-tx", "1.5", "-r0", fmt.Sprint(slow)},
				{"-tx", fmt.Sprint(floor * (0.2 + 0.7*c.R.Float64()))},
			}[i%6]
			want := floor
			if i%6 == 3 {
				want = floor * 2
			}
			a := start(append(args, "-rmin", fmt.Sprint(floor), "-inc", "0")...)
			if a == nil {
				c.Seen("program_not_started", 1)
				return
			}
			defer a.stop()
			cl, err := dial(a.addr, rand.New(rand.NewSource(c.R.Int63())))
			if err != nil {
				c.Fail("client could not connect: %v", err)
			}
			defer cl.cn.Close()
			var m [][]string
			for k := 0; k < 150 && len(m) < 3; k++ {
				time.Sleep(200 * time.Millisecond)
				vTick()
				m = progRate.FindAllStringSubmatch(a.log.String(), -1)
			}
			if len(m) == 0 {
				c.Fail("no rate reported: %s", tailOf(a.log.String()))
			}
			for _, x := range m {
				if r := fl(x[1]); math.Abs(r-want) > 0.01+want*1e-6 {
					c.Fail("the program run with %v -rmin %.3f reports a codeword rate of %s", args, floor, x[1])
				}
			}
			c.Seen("program_rates", len(m))
			if i%6 == 4 { // a link starts no slower than the floor
				best := time.Hour
				for k := 0; k < 6 && best > first/2; k++ {
					if k > 0 {
						time.Sleep(time.Duration(k) * time.Second)
					}
					vTick()
					x, err := dial(a.addr, rand.New(rand.NewSource(c.R.Int63())))
					if err != nil {
						c.Fail("client could not connect: %v", err)
					}
					defer x.cn.Close() // the program ends with its peers
					for j := 0; j < 500; j++ {
						time.Sleep(10 * time.Millisecond)
						x.mu.Lock()
						n, f := x.cws, x.first
						x.mu.Unlock()
						if n > 0 {
							best = min2(best, time.UnixMicro(f).Sub(x.shaken))
							break
						}
					}
				}
				if best > first/2 {
					c.Fail("the program run with %v -rmin %.3f makes the first codeword of a connection %v after it began, each time", args, floor, best)
				}
				c.Seen("prompt_first_codewords", 1)
			}
			c.Distinct("program %v", args)
		})
	}
}
