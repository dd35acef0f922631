package VPKG

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"
)

func py(script string, args ...string) (string, string, error) {
	repo := os.Getenv("VERIF_REPODIR")
	cmd := exec.Command("python3-vt", append([]string{"-B", filepath.Join(repo, script)}, args...)...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	cmd.Env = append(os.Environ(), "OPENBLAS_NUM_THREADS=1")
	err := cmd.Run()
	vTick()
	return o.String(), e.String(), err
}

func scratch(name string) string { return filepath.Join(os.Getenv("VERIF_SCRATCH"), name) }

// ---- C40: topology generators ----------------------------------------------

type table map[[2]int]float64

func readTable(f string) table {
	b, err := os.ReadFile(f)
	if err != nil {
		panic(err)
	}
	t := table{}
	for _, l := range strings.Split(string(b), "\n") {
		x := strings.Split(l, ",")
		if len(x) < 3 {
			continue
		}
		i, _ := strconv.Atoi(x[0])
		j, _ := strconv.Atoi(x[1])
		t[[2]int{i, j}], _ = strconv.ParseFloat(strings.TrimSpace(x[2]), 64)
	}
	return t
}

// graphOf judges the shape of a generated graph: simple, nodes 0..n-1, and
// regular (or with the given number of links). It returns the distances.
func graphOf(c *vC, what string, n, d int, regular, connected bool, links [][2]int) (diameter int) {
	adj := make([]map[int]bool, n)
	for i := range adj {
		adj[i] = map[int]bool{}
	}
	for _, l := range links {
		if l[0] < 0 || l[0] >= n || l[1] < 0 || l[1] >= n || l[0] == l[1] || adj[l[0]][l[1]] {
			c.Fail("%s: link %v (of %d nodes), given twice, to itself or to no node", what, l, n)
		}
		adj[l[0]][l[1]], adj[l[1]][l[0]] = true, true
	}
	if regular {
		for i := range adj {
			if len(adj[i]) != d {
				c.Fail("%s: node %d has %d links, not %d", what, i, len(adj[i]), d)
			}
		}
	} else if len(links) != (n*d+1)/2 && len(links) != n*d/2 {
		c.Fail("%s: %d links for %d nodes of average degree %d", what, len(links), n, d)
	}
	for s := 0; s < n; s++ {
		dist := map[int]int{s: 0}
		q := []int{s}
		for len(q) > 0 {
			u := q[0]
			q = q[1:]
			for v := range adj[u] {
				if _, ok := dist[v]; !ok {
					dist[v] = dist[u] + 1
					q = append(q, v)
				}
			}
		}
		if len(dist) != n {
			if connected {
				c.Fail("%s: only %d of %d nodes can be reached from node %d", what, len(dist), n, s)
			}
			return -1
		}
		for _, x := range dist {
			if x > diameter {
				diameter = x
			}
		}
	}
	return
}

func TestVerifC40(t *testing.T) {
	vMain(t, "C40", func(h *vH) {
		for i := 0; i < h.N(72, 900); i++ {
			h.Case(fmt.Sprintf("simulation-%d", i), func(c *vC) {
				r := c.R
				prog := []string{"newsim", "simulator"}[i%2]
				regular := i/2%2 == 0
				d := 2 + r.Intn(4)
				n := d + 2 + r.Intn(30)
				if i%4 == 1 {
					n = d + 1 + r.Intn(4)
				}
				if i%9 == 8 {
					n = 60 + r.Intn(180)
				}
				if regular && n*d%2 == 1 {
					n++
				}
				if !regular {
					d = 3 + r.Intn(3) // often not connected at first
					n = 16 + r.Intn(vMin(n+1, 30))
				}
				lat := filepath.Join(os.Getenv("VERIF_REPODIR"), prog, "city-prop-delay.csv")
				custom := i/4%3 != 0
				if custom { // a table of our own: not symmetric, fractions, below 1 ms, incomplete
					lat = scratch(fmt.Sprintf("lat%d.csv", i))
					var b bytes.Buffer
					oneWay := i%8 == 1 || r.Intn(2) == 0 // nothing but what links need
					if i%8 != 1 && r.Intn(2) == 0 {
						fmt.Fprintf(&b, "# num cities: %d\n", n)
					}
					for x := 0; x < n; x++ {
						for y := 0; y < n; y++ {
							v := r.Float64() * 300
							if r.Intn(6) == 0 && prog == "newsim" {
								v = r.Float64() * 2
							}
							if oneWay && x >= y || x > y && r.Intn(2) == 0 || prog == "newsim" && r.Intn(10) == 0 {
								continue
							}
							if prog == "simulator" {
								v++
							}
							fmt.Fprintf(&b, "%d,%d,%v\n", x, y, v)
						}
					}
					os.WriteFile(lat, b.Bytes(), 0644)
				}
				tab := readTable(lat)
				args := []string{fmt.Sprint(n), fmt.Sprint(d), "--latency", lat}
				if !regular {
					args = append(args, "--topo", "random")
				} else if r.Intn(2) == 0 {
					args = append(args, "--topo", "random-regular")
				}
				what := fmt.Sprintf("%s/gen_topo.py %v", prog, args)
				out, e, err := py(prog+"/gen_topo.py", args...)
				if err != nil {
					c.Fail("%s: %v %s", what, err, e)
				}
				var links [][2]int
				for _, l := range strings.Split(strings.TrimSpace(out), "\n") {
					var a, b, ms int
					if k, err := fmt.Sscanf(l, "%d,%d,%d", &a, &b, &ms); k != 3 || err != nil || fmt.Sprintf("%d,%d,%d", a, b, ms) != l {
						c.Fail("%s: line %q", what, l)
					}
					lo, hi := a, b
					if lo > hi {
						lo, hi = hi, lo
					}
					want := 80
					if v, ok := tab[[2]int{lo, hi}]; ok {
						if want = int(v); want < 1 && prog == "newsim" {
							want = 1
							c.Seen("delays_at_the_floor", 1)
						}
						c.Seen("delays_from_table", 1)
					} else {
						c.Seen("delays_by_default", 1)
					}
					if ms != want {
						c.Fail("%s: link %d-%d has delay %d, the table says %v (%d)", what, a, b, ms, tab[[2]int{lo, hi}], want)
					}
					links = append(links, [2]int{a, b})
				}
				graphOf(c, what, n, d, regular, true, links)
				c.Seen("topologies", 1)
				c.Distinct("%s n=%d d=%d %v %v", prog, n, d, regular, vHash64(out))
			})
		}
		for i := 0; i < h.N(24, 300); i++ {
			h.Case(fmt.Sprintf("testbed-%d", i), func(c *vC) {
				d := 3 + c.R.Intn(3)
				n := d + 1 + c.R.Intn(30)
				if i%2 == 1 {
					d = 2 // often in several pieces
					n += 20
				}
				if n*d%2 == 1 {
					n++
				}
				what := fmt.Sprintf("gentopo.py %d %d", n, d)
				out, e, err := py("testbed/gentopo.py", fmt.Sprint(n), fmt.Sprint(d))
				var cfg struct {
					Topology []struct{ From, To *int }
				}
				if err != nil && d == 2 && strings.TrimSpace(out) == "" {
					// failing before printing is as good, if the graph was in pieces
					// (with degree 2 that is likely, and cannot be told)
					c.Seen("disconnected", 1)
					return
				}
				if jerr := json.Unmarshal([]byte(out), &cfg); jerr != nil {
					c.Fail("%s: %v (%v) %s", what, jerr, out, e)
				}
				var links [][2]int
				for _, l := range cfg.Topology {
					if l.From == nil || l.To == nil {
						c.Fail("%s: a link lacks an end: %s", what, out)
					}
					links = append(links, [2]int{*l.From, *l.To})
				}
				dia := graphOf(c, what, n, d, true, false, links)
				if dia < 0 {
					if err == nil {
						c.Fail("%s: the graph is not connected and nothing is said: %s", what, e)
					}
					c.Seen("disconnected", 1)
				} else if err != nil || !strings.Contains(e, fmt.Sprintf("diameter: %d\n", dia)) {
					c.Fail("%s: the diameter is %d, reported: %s %v", what, dia, e, err)
				}
				c.Seen("testbed_topologies", 1)
				c.Distinct("testbed n=%d d=%d %v", n, d, vHash64(out))
			})
		}
	})
}

// ---- C41: log analysis -------------------------------------------------------

// logData is what a log says, read by this harness.
type logData struct {
	peers   []string
	cw      map[string][]int // codewords received, per report
	tx, gen []int            // since warm-up / generated
	total   []int
	lat     [4]float64 // 5, 50, 95, mean
	rate    map[string]float64
	allCW   map[string][]int
	started bool
}

var (
	reKey  = regexp.MustCompile(`key exchanged with peer ([^,]*), our`)
	reCW   = regexp.MustCompile(`peer (\S+) received cws (\d+) last`)
	reTot  = regexp.MustCompile(`total tx (\d+)$`)
	reTx   = regexp.MustCompile(`since warm up tx=(\d+), p5_latency_ms=(\S+), p95_latency_ms=(\S+), p50_latency_ms=(\S+), mean_latency_ms=(\S+)$`)
	reGen  = regexp.MustCompile(`generated tx (\d+)$`)
	reRate = regexp.MustCompile(`peer (\S+) codeword rate (\S+) dropped`)
)

func num(s string) float64 { v, _ := strconv.ParseFloat(s, 64); return v }
func inum(s string) int    { v, _ := strconv.Atoi(s); return v }

func readLog(f string) *logData {
	b, err := os.ReadFile(f)
	if err != nil {
		panic(err)
	}
	d := &logData{cw: map[string][]int{}, allCW: map[string][]int{}, rate: map[string]float64{}}
	for s := bufio.NewScanner(bytes.NewReader(b)); s.Scan(); {
		l := s.Text()
		if strings.Contains(l, "data logging warmup completed") {
			d.started = true
		}
		if m := reKey.FindStringSubmatch(l); m != nil {
			d.peers = append(d.peers, m[1])
		}
		if m := reTot.FindStringSubmatch(l); m != nil {
			d.total = append(d.total, inum(m[1]))
		}
		if m := reCW.FindStringSubmatch(l); m != nil {
			d.allCW[m[1]] = append(d.allCW[m[1]], inum(m[2]))
			if d.started {
				d.cw[m[1]] = append(d.cw[m[1]], inum(m[2]))
			}
		}
		if !d.started {
			continue
		}
		if m := reTx.FindStringSubmatch(l); m != nil {
			d.tx = append(d.tx, inum(m[1]))
			d.lat = [4]float64{num(m[2]), num(m[4]), num(m[3]), num(m[5])}
		}
		if m := reGen.FindStringSubmatch(l); m != nil {
			d.gen = append(d.gen, inum(m[1]))
		}
		if m := reRate.FindStringSubmatch(l); m != nil {
			d.rate[m[1]] = num(m[2])
		}
	}
	return d
}

// usable: every series has a value, and something was obtained.
func (d *logData) span() int {
	n := len(d.tx)
	if len(d.gen) < n {
		n = len(d.gen)
	}
	for _, p := range d.peers {
		if len(d.cw[p]) < n {
			n = len(d.cw[p])
		}
	}
	return n
}

func (d *logData) usable() bool {
	n := d.span()
	return n >= 2 && len(d.peers) > 0 && d.tx[n-1]-d.tx[0]+d.gen[n-1]-d.gen[0] > 0
}

func wantNums(c *vC, what, line string, want ...float64) {
	f := strings.Fields(line[strings.LastIndex(line, ":")+1:])
	ok := len(f) == len(want)
	for i := 0; ok && i < len(want); i++ {
		v, err := strconv.ParseFloat(f[i], 64)
		ok = err == nil && math.Abs(v-want[i]) <= 1e-9+1e-9*math.Abs(want[i])
	}
	if !ok {
		c.Fail("%s prints\n%s\nThe logs say %v", what, line, want)
	}
	c.Seen("figures_compared", len(want))
}

func quantile(xs []float64, q float64) float64 {
	s := append([]float64(nil), xs...)
	sort.Float64s(s)
	p := q * float64(len(s)-1)
	k := int(p)
	if k+1 >= len(s) {
		return s[len(s)-1]
	}
	return s[k] + (p-float64(k))*(s[k+1]-s[k])
}

func mean(xs []float64) (m float64) {
	for _, x := range xs {
		m += x / float64(len(xs))
	}
	return
}

// analyse runs the three scripts on the logs prefix-0.. and compares.
func analyse(c *vC, prefix string, n int, ips []string) {
	var logs []*logData
	usable := true
	for i := 0; i < n; i++ {
		d := readLog(fmt.Sprintf("%s-%d", prefix, i))
		usable = usable && d.usable()
		logs = append(logs, d)
	}
	if usable {
		process(c, prefix, n, logs)
	} else {
		c.Seen("logs_too_short_for_process", 1)
	}
	// traces
	for i, d := range logs {
		out, e, err := py("testbed/trace.py", prefix, fmt.Sprint(i), "--tx-trace")
		if err != nil {
			c.Fail("trace.py: %v %s", err, e)
		}
		series(c, fmt.Sprintf("trace.py --tx-trace for node %d", i), out, d.total)
		min := math.MaxInt32
		for _, p := range d.peers {
			min = vMin(min, len(d.allCW[p]))
		}
		sum := make([]int, min)
		for _, p := range d.peers {
			for k := range sum {
				sum[k] += d.allCW[p][k]
			}
		}
		if out, e, err = py("testbed/trace.py", prefix, fmt.Sprint(i), "--cw-trace"); err != nil {
			c.Fail("trace.py: %v %s", err, e)
		}
		series(c, fmt.Sprintf("trace.py --cw-trace for node %d", i), out, sum)
		if i == 1 {
			break
		}
	}
	// edges
	if ips != nil {
		f := prefix + "-servers.json"
		var srv []map[string]any
		idx := map[string]int{}
		for i, ip := range ips {
			srv = append(srv, map[string]any{"PublicIP": ip, "ID": fmt.Sprint(i)})
			idx[ip] = i
		}
		b, _ := json.Marshal(srv)
		os.WriteFile(f, b, 0644)
		out, e, err := py("testbed/edges.py", prefix, "-n", fmt.Sprint(n), "-s", f)
		if err != nil {
			c.Fail("edges.py: %v %s", err, e)
		}
		var want []string
		for i, d := range logs {
			by := map[int]float64{}
			var ks []int
			for p, v := range d.rate {
				k := idx[strings.Split(p, ":")[0]]
				by[k] = v
				ks = append(ks, k)
			}
			sort.Ints(ks)
			for _, k := range ks {
				want = append(want, fmt.Sprintf("%d %d %v", i, k, by[k]))
			}
		}
		got := strings.Split(strings.TrimSpace(out), "\n")
		if len(got) != len(want) {
			c.Fail("edges.py prints %d links, the logs have %d:\n%s", len(got), len(want), out)
		}
		for i := range got {
			g, w := strings.Fields(got[i]), strings.Fields(want[i])
			if len(g) != 3 || g[0] != w[0] || g[1] != w[1] || num(g[2]) != num(w[2]) {
				c.Fail("edges.py prints %q where the logs say %q", got[i], want[i])
			}
		}
		c.Seen("edges_compared", len(got))
	}
	c.Seen("analyses", 1)
}

func process(c *vC, prefix string, n int, logs []*logData) {
	what := "process.py"
	out, e, err := py("testbed/process.py", prefix, "-n", fmt.Sprint(n))
	if err != nil {
		c.Fail("process.py: %v %s", err, e)
	}
	ls := strings.Split(strings.TrimSpace(out), "\n")
	if len(ls) != n+5 {
		c.Fail("process.py prints %d lines for %d nodes:\n%s", len(ls), n, out)
	}
	gen, secs := 0, 0
	var got, over, delay []float64
	for i, d := range logs {
		k := d.span() - 1
		cw := 0
		for _, p := range d.peers {
			cw += d.cw[p][k] - d.cw[p][0]
		}
		own, dec := d.gen[k]-d.gen[0], d.tx[k]-d.tx[0]
		o := float64(cw) / float64(own+dec)
		wantNums(c, fmt.Sprintf("%s for node %d", what, i), ls[i], o, float64(own+dec)/float64(k+1), d.lat[0], d.lat[1], d.lat[2], d.lat[3])
		gen += own
		secs += k + 1
		got = append(got, float64(own+dec))
		over = append(over, o)
		delay = append(delay, d.lat[3]*float64(dec)/float64(own+dec)/1000)
	}
	if gen > 0 {
		for i := range got {
			got[i] /= float64(gen)
		}
		rate := float64(gen) / float64(secs)
		three := func(xs []float64) []float64 { return []float64{quantile(xs, 0.05), mean(xs), quantile(xs, 0.95)} }
		wantNums(c, what, ls[n], rate)
		wantNums(c, what, ls[n+1], three(got)...)
		wantNums(c, what, ls[n+2], three(over)...)
		wantNums(c, what, ls[n+3], three(delay)...)
		wantNums(c, what, ls[n+4], append(append(append([]float64{rate * float64(n)}, three(got)...), three(over)...), three(delay)...)...)
	}
	c.Seen("processed", 1)
}

func series(c *vC, what, out string, v []int) {
	var want bytes.Buffer
	for k := 1; k < len(v); k++ {
		fmt.Fprintf(&want, "%d %d\n", k, v[k]-v[k-1])
	}
	if strings.TrimSpace(out) != strings.TrimSpace(want.String()) {
		c.Fail("%s prints\n%.1500s\nThe log says\n%.1500s", what, out, want.String())
	}
	c.Seen("trace_lines", len(v))
}

// writeLogs makes up logs in the format of the nodes.
func writeLogs(r *rand.Rand, prefix string, n int, ips []string, late bool) {
	for i := 0; i < n; i++ {
		var b bytes.Buffer
		at := time.Date(2022, 3, 1, 10, 59, 50, 0, time.UTC)
		line := func(f string, a ...any) {
			fmt.Fprintf(&b, "%s "+f+"\n", append([]any{at.Format("2006/01/02 15:04:05")}, a...)...)
		}
		for _, s := range []string{"tx value 600", "k value 50", "p value " + ips[0] + ":20000"} {
			line("config name %s", s)
		}
		line("controller started")
		line("start listening at [::]:20000")
		line("running")
		var peers []string
		np := 1 + r.Intn(vMin(n-1, 6))
		for _, j := range r.Perm(n) {
			if j != i && len(peers) < np {
				p := fmt.Sprintf("%s:%d", ips[j], 10000+r.Intn(50000))
				peers = append(peers, p)
			}
		}
		cw := make([]int, len(peers))
		tx, gen, since := 0, 0, 0
		joined := 0
		warm, end := 2+r.Intn(6), 10+r.Intn(50)
		last := end - 1 - r.Intn(4)
		for t := 0; t < end; t++ {
			at = at.Add(time.Second)
			for joined < len(peers) && (t >= warm-1 && !(late && joined == len(peers)-1) || t == last || r.Intn(2) == 0 && !late) {
				line("key exchanged with peer %s, our key %032x, peer key %032x", peers[joined], r.Uint64(), r.Uint64())
				line("new peer")
				line("sender started")
				joined++
			}
			gen += r.Intn(900)
			tx += r.Intn(5000)
			var ev []func()
			ev = append(ev, func() { line("generated tx %d", gen) }, func() {
				line("total tx %d", tx)
				if t < warm {
					return
				}
				if t == warm {
					line("data logging warmup completed")
				}
				if t == warm && r.Intn(4) == 0 {
					line("error getting quantiles: no such element exists")
					return
				}
				since += r.Intn(5000)
				p := 50 + r.Float64()*100
				line("since warm up tx=%d, p5_latency_ms=%.2f, p95_latency_ms=%.2f, p50_latency_ms=%.2f, mean_latency_ms=%.2f", since, p, p*3, p*1.7, p*1.9)
			}, func() { line("Heap=%v MB, Sys=%v MB, GCCycles=%v", r.Intn(100), r.Intn(300), t) })
			for k := 0; k < joined; k++ {
				k := k
				cw[k] += r.Intn(3000)
				ev = append(ev, func() {
					if r.Intn(30) > 0 {
						line("peer %s received cws %d last second delay ms median %.1f p95 %.1f mean %.1f", peers[k], cw[k], 50.0, 90.0, 60.0)
					}
				}, func() { line("peer %s codeword rate %.2f dropped %d", peers[k], r.Float64()*2000, r.Intn(3)) })
			}
			for _, k := range r.Perm(len(ev)) {
				ev[k]()
			}
		}
		os.WriteFile(fmt.Sprintf("%s-%d", prefix, i), b.Bytes(), 0644)
	}
}

func TestVerifC41(t *testing.T) {
	vMain(t, "C41", func(h *vH) {
		for i := 0; i < h.N(40, 500); i++ {
			h.Case(fmt.Sprintf("logs-%d", i), func(c *vC) {
				n := 2 + c.R.Intn(8)
				if i%10 == 9 {
					n = 19
				}
				var ips []string
				for k := 0; k < n; k++ {
					ips = append(ips, fmt.Sprintf("10.%d.%d.%d", c.R.Intn(256), i%256, k))
				}
				p := scratch(fmt.Sprintf("log%d", i))
				writeLogs(c.R, p, n, ips, i%5 == 3)
				analyse(c, p, n, ips)
				c.Distinct("logs n=%d %v", n, ips[0])
			})
		}
		bin := os.Getenv("VERIF_BIN")
		for i := 0; i < h.N(2, 8); i++ {
			h.Case(fmt.Sprintf("nodes-%d", i), func(c *vC) { // logs of real nodes
				n := 2 + c.R.Intn(3)
				var ips, addrs []string
				for k := 0; k < n; k++ {
					ip := fmt.Sprintf("127.%d.%d.%d", 10+c.R.Intn(200), 1+c.R.Intn(250), 2+k)
					l, err := net.Listen("tcp", ip+":0")
					if err != nil {
						panic(err)
					}
					ips, addrs = append(ips, ip), append(addrs, l.Addr().String())
					l.Close()
				}
				p := scratch(fmt.Sprintf("real%d", i))
				var ps []*exec.Cmd
				defer func() {
					for _, p := range ps {
						p.Process.Kill()
						p.Wait()
					}
				}()
				for k := 0; k < n; k++ {
					f, _ := os.Create(fmt.Sprintf("%s-%d", p, k))
					cmd := exec.Command(bin, "-l", addrs[k], "-p", strings.Join(addrs[:k], ","), "-tx", "200", "-warmup", "2s", "-rmin", "50")
					cmd.Stdout, cmd.Stderr = f, f
					if err := cmd.Start(); err != nil {
						panic(err)
					}
					f.Close()
					ps = append(ps, cmd)
					time.Sleep(100 * time.Millisecond)
				}
				for s := 0; s < 60; s++ {
					time.Sleep(time.Second)
					vTick()
					ok := s >= 8
					for k := 0; k < n; k++ {
						d := readLog(fmt.Sprintf("%s-%d", p, k))
						ok = ok && len(d.peers) == n-1 && d.usable() && len(d.rate) == n-1
					}
					if ok {
						break
					}
				}
				for _, p := range ps {
					p.Process.Kill()
					p.Wait()
				}
				ps = nil
				for k := 0; k < n; k++ { // whole lines only
					f := fmt.Sprintf("%s-%d", p, k)
					b, _ := os.ReadFile(f)
					os.WriteFile(f, b[:bytes.LastIndexByte(b, '\n')+1], 0644)
					if d := readLog(f); len(d.peers) != n-1 || !d.usable() {
						c.Fail("after up to a minute, the log of node %d of %d names %d peers and has %d complete reports: it cannot be analysed\n%.3000s", k, n, len(d.peers), d.span(), b)
					}
				}
				analyse(c, p, n, nil)
				c.Seen("real_logs", n)
				c.Distinct("nodes n=%d %v", n, ips[0])
			})
		}
	})
}
