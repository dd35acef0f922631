package VPKG

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
)

func TestVerifC38(t *testing.T) {
	vMain(t, "C38", func(h *vH) {
		bin := os.Getenv("VERIF_BIN")
		if bin == "" {
			return
		}
		for i := 0; i < h.N(16, 160); i++ {
			h.Case(fmt.Sprintf("simulator-program-%d", i), func(c *vC) { simProgram(c, bin, i) })
		}
		h.Case("simulator-bad-topology", func(c *vC) { badTopologies(c, bin) })
	})
}

func simProgram(c *vC, bin string, i int) {
	r := c.R
	n := 3 + r.Intn(6)
	if i%8 == 7 {
		n = 11 + r.Intn(3)
	}
	ls := plinks(r, n, graph(r, n, 2), 80)
	if i%3 == 2 { // some links without delay
		for k := range ls {
			if i%2 == 0 || r.Intn(2) == 0 {
				ls[k].ms = 0
			}
		}
	}
	burst := 1 + r.Intn(4)
	rate := []float64{10, 30, 60}[r.Intn(3)]
	th := []int{2, 5, 8}[r.Intn(3)]
	over := []float64{0.1, 0.25, 0.5}[r.Intn(3)]
	warm := time.Duration([]int{2000, 2500, 3000, 5300}[r.Intn(4)]) * time.Millisecond
	dur := warm + time.Duration(6000+r.Intn(5000))*time.Millisecond
	rep := time.Duration([]int{1000, 500, 700, 250}[r.Intn(4)]) * time.Millisecond
	smooth := []float64{100000, 1000, 2500}[r.Intn(3)]
	var sync time.Duration
	if i%3 == 1 {
		sync = time.Duration(100+r.Intn(400)) * time.Millisecond
	}
	loss := 0.0
	if i%4 == 2 {
		loss = 0.04
	}
	seed := 1 + r.Int63n(1<<40)
	pre := filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("p%d", i))
	f := topoFile(c, fmt.Sprintf("s%d.csv", i), ls)
	args := []string{"-topo", f, "-b", fmt.Sprint(burst), "-txgen", fmt.Sprint(rate), "-mem", "40000", "-th", fmt.Sprint(th),
		"-dur", dur.String(), "-w", warm.String(), "-c", fmt.Sprint(over), "-r", rep.String(), "-smooth", fmt.Sprint(smooth),
		"-seed", fmt.Sprint(seed), "-sync", sync.String(), "-l", fmt.Sprint(loss), "-prefix", pre}
	txgen = newTransactionGenerator()
	sim := &des.Simulator{}
	srv := newServers(sim, n, seed, serverConfig{
		blockArrivalIntv: rate / float64(burst) / float64(time.Second), blockArrivalBurst: burst, decoderMemory: 40000,
		senderConfig: senderConfig{detectThreshold: th, controlOverhead: over}, receiverConfig: receiverConfig{detectThreshold: th, targetCodewordLoss: loss},
		forceSynchronize: sync})
	for _, s := range srv {
		s.latencySketch, s.overlapSketch = newDistributionSketch(warm), newDistributionSketch(warm)
		s.forwardRateLimiter.minInterval = time.Duration(int(1.0 / smooth * 1000000000))
	}
	deg0 := 0
	for _, l := range ls {
		connectServers(srv[l.a], srv[l.b], time.Duration(l.ms)*time.Millisecond)
		if l.a == 0 || l.b == 0 {
			deg0++
		}
	}
	base := make([]serverMetric, n)
	warmed := false
	last := 0
	var lines [][2]float64
	for cur := time.Duration(0); cur < dur; cur += rep {
		sim.RunUntil(cur)
		if cur <= warm {
			continue
		}
		if !warmed {
			warmed = true
			for k, s := range srv {
				base[k] = s.serverMetric
			}
		} else {
			lines = append(lines, [2]float64{sim.Time().Seconds(), float64(srv[0].receivedCodewords-last) / rep.Seconds()})
		}
		last = srv[0].receivedCodewords
	}
	var dec, ovh []float64
	span := (sim.Time() - warm).Seconds()
	lat := map[float64][]float64{}
	var over100 [][]float64
	for k, s := range srv {
		if s.decodedTransactions == base[k].decodedTransactions || s.overlapSketch.sketch.GetCount() == 0 || s.latencySketch.sketch.GetCount() == 0 {
			c.Seen("nodes_without_figures", 1)
			return
		}
		dec = append(dec, float64(s.decodedTransactions-base[k].decodedTransactions)/span)
		ovh = append(ovh, float64(s.receivedCodewords-base[k].receivedCodewords)/float64(s.decodedTransactions-base[k].decodedTransactions))
		for _, q := range []float64{0.05, 0.5, 0.95} {
			lat[q] = append(lat[q], s.latencySketch.getQuantiles([]float64{q})[0])
		}
		var qs []float64
		for q := 0; q < 100; q++ {
			qs = append(qs, float64(q)*0.01)
		}
		over100 = append(over100, s.overlapSketch.getQuantiles(qs))
	}
	b, err := exec.Command(bin, args...).Output()
	out := string(b)
	if err != nil {
		c.Fail("simulator %v: %v %s", args, err, out)
	}
	if w := fmt.Sprintf("# node 0 num peers %d\n", deg0); !strings.HasPrefix(out, w) {
		c.Fail("simulator %v with %d links at node 0 starts with %.50q", args, deg0, out)
	}
	checkMoments(c, out, "decoded transaction rate", dec)
	checkMoments(c, out, "overhead", ovh)
	checkMoments(c, out, "latency p5", lat[0.05])
	checkMoments(c, out, "latency p50", lat[0.5])
	checkMoments(c, out, "latency p95", lat[0.95])
	var got [][2]float64
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "#") || strings.HasPrefix(l, "Warning") || l == "" {
			continue
		}
		var p [2]float64
		if _, err := fmt.Sscan(l, &p[0], &p[1]); err != nil {
			c.Fail("simulator %v prints %q", args, l)
		}
		got = append(got, p)
	}
	if len(got) != len(lines) {
		c.Fail("simulator %v prints %d reports, %d are due", args, len(got), len(lines))
	}
	for k := range got {
		if !near(got[k][0], lines[k][0]) || !near(got[k][1], lines[k][1]) {
			c.Fail("simulator %v reports %v for node 0, which received codewords at %v", args, got[k], lines[k])
		}
	}
	c.Seen("reports_compared", len(got))
	for k := range srv {
		f := fmt.Sprintf("%s-overlap-%d.csv", pre, k)
		b, err := os.ReadFile(f)
		if err != nil {
			c.Fail("simulator %v: no overlap file of node %d: %v", args, k, err)
		}
		os.Remove(f)
		ls := strings.Split(strings.TrimSpace(string(b)), "\n")
		if len(ls) < 100 || len(ls) > 101 {
			c.Fail("the overlap file of node %d has %d lines", k, len(ls))
		}
		for q, l := range ls[:100] {
			x := strings.Fields(l)
			if len(x) != 2 {
				c.Fail("overlap file of node %d: line %q", k, l)
			}
			a, _ := strconv.ParseFloat(x[0], 64)
			v, _ := strconv.ParseFloat(x[1], 64)
			// quantiles within a step's rounding: adjacent values are accepted
			lo, hi := over100[k][vMax2(0, q-1)], over100[k][vMin(99, q+1)]
			if !near(a, float64(q)*0.01) || v < lo*0.999999-1e-9 || v > hi*1.000001+1e-9 {
				c.Fail("overlap file of node %d: line %q, the %d %% quantile is %v", k, l, q, over100[k][q])
			}
		}
		c.Seen("overlap_files", 1)
	}
	c.Seen("programs_compared", 1)
	c.Distinct("simulator %v %v", args[2:], dec[0])
}

func vMax2(a, b int) int {
	if a > b {
		return a
	}
	return b
}
