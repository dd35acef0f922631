package VPKG

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
)

func TestVerifC38(t *testing.T) {
	vMain(t, "C38", func(h *vH) {
		for i := 0; i < h.N(150, 2500); i++ {
			h.Case(fmt.Sprintf("newsim-latency-%d", i), func(c *vC) {
				r := c.R
				rc := runCfg{n: 2 + r.Intn(7), coding: i%3 != 2, flood: r.Intn(2) == 0, shards: 1 + r.Intn(8), over: 0.1, seed: r.Int63()}
				rc.es = graph(r, rc.n, 1)
				for k := range rc.es {
					rc.es[k].delay = time.Duration(1+r.Intn(30)) * time.Millisecond
				}
				warm := time.Duration(r.Intn(3000)) * time.Millisecond
				m := newMon(c, rc.n, rc.es, rc.coding, rc.flood, senderConfig{rc.over, rc.shards}, rc.seed)
				for _, s := range m.srv {
					s.latencySketch = newDistributionSketch(warm)
				}
				for k := 10 + r.Intn(60); k > 0; k-- {
					m.arrive(time.Duration(r.Int63n(int64(4*time.Second))), r.Intn(rc.n), 1+r.Intn(3))
				}
				c.Budget(20_000_000)
				for len(m.q) > 0 && m.q[0].at <= 6*time.Second && m.seq < 40000 {
					m.step()
				}
				for node, s := range m.srv {
					var lat []float64
					for id, at := range m.reg[node] {
						if g := m.gens[id]; g.origin != node && at >= warm {
							lat = append(lat, (at - g.at).Seconds())
						}
					}
					if len(lat) == 0 {
						continue
					}
					sort.Float64s(lat)
					for _, q := range []float64{0, 0.05, 0.5, 0.95, 1} {
						got := s.latencySketch.getQuantiles([]float64{q})[0]
						lo := lat[int(math.Floor(q*float64(len(lat)-1)))]
						hi := lat[int(math.Ceil(q*float64(len(lat)-1)))]
						if got < lo*0.985-1e-9 || got > hi*1.015+1e-9 {
							c.Fail("node %d reports a latency percentile %v of %v; the %d transactions it obtained since %v have %v..%v", node, q, got, len(lat), warm, lo, hi)
						}
					}
					c.Seen("latency_quantiles", 5)
				}
				c.Distinct("latency coding=%v flood=%v n=%d warm=%v tx=%d", rc.coding, rc.flood, rc.n, warm, len(m.gens))
			})
		}
		bin := os.Getenv("VERIF_BIN")
		if bin == "" {
			return
		}
		for i := 0; i < h.N(16, 160); i++ {
			h.Case(fmt.Sprintf("newsim-program-%d", i), func(c *vC) { newsimProgram(c, bin, i) })
		}
		h.Case("newsim-bad-topology", func(c *vC) { badTopologies(c, bin) })
	})
}

func newsimProgram(c *vC, bin string, i int) {
	r := c.R
	n := 3 + r.Intn(8)
	ls := plinks(r, n, graph(r, n, 2), 150)
	coding, flood := i%2 == 0, i/2%2 == 1
	burst := 1 + r.Intn(4)
	rate := []float64{2, 5, 20}[r.Intn(3)]
	size := []int{1, 100, 256, 1000}[r.Intn(4)]
	over := []float64{0.05, 0.1, 0.3}[r.Intn(3)]
	shards := []int{1, 4, 16, 64}[r.Intn(4)]
	warm := time.Duration([]int{2000, 2500, 3000, 5300}[r.Intn(4)]) * time.Millisecond
	dur := warm + time.Duration(4000+r.Intn(5000))*time.Millisecond
	if shards == 64 {
		dur += 20 * time.Second
	}
	f := topoFile(c, fmt.Sprintf("n%d.csv", i), ls)
	args := []string{"-topo", f, "-b", fmt.Sprint(burst), "-txgen", fmt.Sprint(rate), "-txsize", fmt.Sprint(size),
		"-dur", secs(dur), "-w", secs(warm), "-c", fmt.Sprint(over), "-s", fmt.Sprint(shards)}
	if !coding || r.Intn(2) == 0 {
		args = append(args, "-a", map[bool]string{true: "coding", false: "pull"}[coding])
	}
	if flood {
		args = append(args, "-flood")
	}
	// the same network, in this process
	txgen = &transactionGenerator{}
	TXSIZE = size
	RNG = rand.New(rand.NewSource(1))
	sim := &des.Simulator{}
	srv := newServers(sim, n, serverConfig{blockArrivalIntv: rate / float64(burst) / float64(time.Second), blockArrivalBurst: burst, initialFlood: flood})
	for _, s := range srv {
		s.latencySketch = newDistributionSketch(warm)
	}
	deg0 := 0
	for _, l := range ls {
		d := time.Duration(l.ms) * time.Millisecond
		if coding {
			connectCodingServers(srv[l.a], srv[l.b], d, senderConfig{controlOverhead: over, numShards: shards})
		} else {
			connectPullServers(srv[l.a], srv[l.b], d)
		}
		if l.a == 0 || l.b == 0 {
			deg0++
		}
	}
	base := make([]serverMetric, n)
	warmed := false
	for cur := time.Duration(0); cur < dur; cur += time.Second {
		sim.RunUntil(cur)
		if cur > warm && !warmed {
			warmed = true
			for k, s := range srv {
				base[k] = s.serverMetric
			}
		}
	}
	var recv, dup, ovh []float64
	span := (sim.Time() - warm).Seconds()
	lat := map[float64][]float64{}
	for k, s := range srv {
		if s.decodedTransactions == base[k].decodedTransactions {
			c.Seen("nodes_without_figures", 1) // figures undefined
			return
		}
		recv = append(recv, float64(s.receivedTransactions-base[k].receivedTransactions)/span)
		dup = append(dup, float64(s.duplicateTransactions-base[k].duplicateTransactions)/span)
		ovh = append(ovh, float64(s.receivedBytes-base[k].receivedBytes)/float64(size*(s.decodedTransactions-base[k].decodedTransactions)))
		for _, q := range []float64{0.05, 0.5, 0.95} {
			lat[q] = append(lat[q], s.latencySketch.getQuantiles([]float64{q})[0])
		}
	}
	b, err := exec.Command(bin, args...).Output()
	out := string(b)
	if err != nil {
		c.Fail("newsim %v: %v %s", args, err, out)
	}
	if w := fmt.Sprintf("# %d nodes, node 0 num peers %d\n", n, deg0); !strings.HasPrefix(out, w) {
		c.Fail("newsim %v on %d nodes with %d links at node 0 starts with %.50q", args, n, deg0, out)
	}
	checkMoments(c, out, "received transaction rate", recv)
	checkMoments(c, out, "duplicate transaction rate", dup)
	checkMoments(c, out, "overhead", ovh)
	checkMoments(c, out, "latency p5", lat[0.05])
	checkMoments(c, out, "latency p50", lat[0.5])
	checkMoments(c, out, "latency p95", lat[0.95])
	c.Seen("programs_compared", 1)
	c.Distinct("newsim %v %v", args[2:], recv[0])
}
