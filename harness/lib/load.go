package VPKG

import (
	"math"
	"math/rand"
	"sort"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
)

// loadRun is what the monitor saw of one run: per node, when it generated.
type loadRun struct {
	at    [][]time.Duration // at the latest
	from  [][]time.Duration // and at the earliest: the same, but for events of one instant
	ties  int               // events in the instant of the one before
	burst int
	mean  float64 // of the intervals, in seconds
	end   time.Duration
}

// watchLoad steps a simulation delivery by delivery and reads how many
// transactions each node has generated after each.
func watchLoad(c *vC, sim *des.Simulator, n, burst int, rate float64, until time.Duration, generated func(node int) int) *loadRun {
	l := &loadRun{at: make([][]time.Duration, n), from: make([][]time.Duration, n), burst: burst, mean: float64(burst) / rate}
	cnt := make([]int, n)
	for steps := 0; sim.Time() < until; steps++ {
		if sim.Drained() {
			c.Fail("the simulation has nothing to do at %v: nodes stopped generating", sim.Time())
		}
		// those left of this instant, and the first of a later one
		was, done := sim.Time(), sim.EventsDelivered()
		sim.RunUntil(was)
		vTick()
		if done = sim.EventsDelivered() - done; done <= 1 {
			was = sim.Time()
		} else {
			l.ties += done - 1
		}
		for k := range cnt {
			g := generated(k)
			if g == cnt[k] {
				continue
			}
			if g < cnt[k] || (g-cnt[k])%burst != 0 {
				c.Fail("at %v node %d has generated %d transactions, %d before: bursts are of %d", sim.Time(), k, g, cnt[k], burst)
			}
			for ; cnt[k] < g; cnt[k] += burst {
				l.at[k] = append(l.at[k], sim.Time())
				l.from[k] = append(l.from[k], was)
			}
		}
	}
	l.end = sim.Time()
	return l
}

func (l *loadRun) intervals(k int) (iv []float64) {
	last := time.Duration(0)
	for _, t := range l.at[k] {
		iv = append(iv, (t - last).Seconds())
		last = t
	}
	return
}

// judge compares the intervals with the exponential distribution. Thresholds
// are those of one false alarm in about 10^9 comparisons.
func (l *loadRun) judge(c *vC) {
	var all, firsts []float64
	for k := range l.at {
		iv := l.intervals(k)
		l.counts(c, k)
		// those that end before the run does, whatever their length
		if m := int(l.end.Seconds() / l.mean / 2); m < len(iv) {
			iv = iv[:m]
		}
		l.fit(c, iv, "intervals of one node")
		// successive intervals are independent
		var xy, n float64
		for i := 1; i < len(iv); i++ {
			xy += (iv[i]/l.mean - 1) * (iv[i-1]/l.mean - 1)
			n++
		}
		if n > 200 && math.Abs(xy)/math.Sqrt(n) > 12 {
			c.Fail("node %d: successive intervals are correlated (%.1f sigma)", k, xy/math.Sqrt(n))
		}
		all = append(all, iv...)
		if len(iv) > 0 {
			firsts = append(firsts, iv[0])
		}
		c.Seen("intervals", len(iv))
	}
	l.fit(c, all, "intervals of all nodes")
	l.fit(c, firsts, "first arrivals of all nodes")
	// nodes do not share their intervals: two in succession
	seen := map[[2]time.Duration]int{}
	for _, at := range l.at {
		for i := range at {
			x := [2]time.Duration{at[i]}
			if i > 0 {
				x[0] -= at[i-1]
			}
			if i > 1 {
				x[1] = at[i-1] - at[i-2]
			} else if i == 1 {
				x[1] = at[0]
			} else {
				x[1] = -1 // the first of a node
			}
			seen[x]++
		}
	}
	dup := 0
	for _, n := range seen {
		dup += n - 1
	}
	// firsts can be the same by chance
	firstsSame := float64(len(l.at)*len(l.at)) * 1e-9 / l.mean
	if float64(dup) > 12+5*firstsSame+0.002*float64(len(all)) {
		c.Fail("%d of %d intervals are repeated: the nodes' arrivals are not independent", dup, len(all))
	}
}

// alone judges a run in which nothing but arrivals happens.
func (l *loadRun) alone(c *vC) {
	n := 0.0
	for _, at := range l.at {
		n += float64(len(at))
	}
	if float64(l.ties) > 20+5*n*n/l.end.Seconds()*1e-9 {
		c.Fail("%d of %.0f arrivals are in the same instant as another: the nodes' arrivals are not independent", l.ties, n)
	}
}

func (l *loadRun) counts(c *vC, k int) {
	const parts = 5
	w := l.end.Seconds() / parts
	e := w / l.mean
	for p := 0; p < parts; p++ {
		n := 0.0
		for _, t := range l.at[k] {
			if s := t.Seconds(); s >= float64(p)*w && s < float64(p+1)*w {
				n++
			}
		}
		if math.Abs(n-e) > 7*math.Sqrt(e)+12 {
			c.Fail("node %d generates %.0f bursts between %.1f s and %.1f s, the rate makes %.1f", k, n, float64(p)*w, float64(p+1)*w, e)
		}
	}
}

func (l *loadRun) fit(c *vC, x []float64, what string) {
	if len(x) < 100 {
		return
	}
	x = append([]float64(nil), x...)
	sort.Float64s(x)
	d := 0.0
	n := float64(len(x))
	for i, v := range x {
		f := 1 - math.Exp(-v/l.mean)
		d = math.Max(d, math.Max(math.Abs(f-float64(i)/n), math.Abs(f-float64(i+1)/n)))
	}
	if d > 3.4/math.Sqrt(n)+1e-3 {
		c.Fail("%s: not exponential with mean %.3g s (Kolmogorov-Smirnov distance %.4f over %.0f)", what, l.mean, d, n)
	}
	c.Seen("distributions", 1)
}

// same says whether two runs have the same arrivals at node k, up to the end of the shorter.
func (l *loadRun) same(c *vC, o *loadRun, what string) {
	for k := range l.at {
		for i := range l.at[k] {
			if i >= len(o.at[k]) || l.at[k][i] < o.from[k][i] || o.at[k][i] < l.from[k][i] {
				t := l.at[k][i]
				if t >= o.end || t >= l.end {
					break
				}
				u := time.Duration(-1)
				if i < len(o.at[k]) {
					u = o.at[k][i]
				}
				c.Fail("%s: arrival %d of node %d is at %v in one run and at %v in the other", what, i, k, t, u)
			}
			c.Seen("arrivals_compared", 1)
		}
	}
}

func loadShape(r *rand.Rand, n int) (es [][3]int) {
	for i := 1; i < n; i++ {
		es = append(es, [3]int{r.Intn(i), i, 1 + r.Intn(80)})
	}
	if n > 2 && r.Intn(2) == 0 {
		es = append(es, [3]int{0, n - 1, 1 + r.Intn(80)})
		if es[0][0] == 0 && es[0][1] == n-1 || es[n-2][0] == 0 {
			es = es[:len(es)-1]
		}
	}
	return
}
