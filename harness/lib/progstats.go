package VPKG

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Shared by the checks of the two simulation programs (C38).

type plink struct {
	a, b int
	ms   int
}

// topoFile writes the links as a topology file, in one of the shapes such
// files come in (order of the ends and of the lines, last line unterminated).
func topoFile(c *vC, name string, ls []plink) string {
	var b bytes.Buffer
	for i, l := range ls {
		fmt.Fprintf(&b, "%d,%d,%d", l.a, l.b, l.ms)
		if i < len(ls)-1 || c.R.Intn(2) == 0 {
			b.WriteByte('\n')
		}
	}
	f := filepath.Join(os.Getenv("VERIF_SCRATCH"), name)
	if err := os.WriteFile(f, b.Bytes(), 0644); err != nil {
		panic(err)
	}
	return f
}

// plinks turns a random connected graph into links with delays of 1-maxMs ms,
// listed in random order and direction, node indices permuted.
func plinks(r *rand.Rand, n int, es []edge, maxMs int) (ls []plink) {
	perm := r.Perm(n)
	for _, e := range es {
		l := plink{perm[e.a], perm[e.b], 1 + r.Intn(maxMs)}
		if r.Intn(2) == 0 {
			l.a, l.b = l.b, l.a
		}
		ls = append(ls, l)
	}
	r.Shuffle(len(ls), func(i, j int) { ls[i], ls[j] = ls[j], ls[i] })
	return
}

func quant(s []float64, q float64) float64 { // Hyndman-Fan type 8, of sorted values
	n := 1/3.0 + q*(float64(len(s))+1/3.0)
	k := int(math.Floor(n))
	if k <= 0 {
		return s[0]
	}
	if k >= len(s) {
		return s[len(s)-1]
	}
	return s[k-1] + (n-float64(k))*(s[k]-s[k-1])
}

func moments(xs []float64) []float64 {
	s := append([]float64(nil), xs...)
	sort.Float64s(s)
	mean, v := 0.0, 0.0
	for _, x := range s {
		mean += x
	}
	mean /= float64(len(s))
	for _, x := range s {
		v += (x - mean) * (x - mean)
	}
	res := []float64{mean, math.Sqrt(v / float64(len(s)-1))}
	for _, q := range []float64{0.05, 0.25, 0.5, 0.75, 0.95} {
		res = append(res, quant(s, q))
	}
	return res
}

func near(a, b float64) bool {
	return a == b || math.IsNaN(a) && math.IsNaN(b) || math.Abs(a-b) <= 1e-6*(math.Abs(a)+math.Abs(b))+1e-9
}

// checkMoments finds the line of a figure in the output and compares it.
func checkMoments(c *vC, out, what string, xs []float64) {
	for _, l := range strings.Split(out, "\n") {
		rest, ok := strings.CutPrefix(l, "# "+what+" [")
		if !ok {
			continue
		}
		f := strings.Fields(strings.TrimSuffix(rest, "]"))
		want := moments(xs)
		if len(f) != len(want) {
			c.Fail("%q has %d figures", l, len(f))
		}
		for i, x := range f {
			v, err := strconv.ParseFloat(x, 64)
			if err != nil || !near(v, want[i]) {
				c.Fail("the program prints\n%s\nThe nodes of that network have %v, so mean, standard deviation and percentiles 5, 25, 50, 75, 95 are\n%v", l, xs, want)
			}
		}
		c.Seen("figures_compared", len(f))
		return
	}
	c.Fail("the program prints no %q:\n%.2000s", what, out)
}

// badTopologies: a file that cannot be read or parsed is an error.
func badTopologies(c *vC, bin string, args ...string) {
	bad := []string{"0,1,10\n1,x,5\n", "0,1\n", "0;1;10\n", "hello\n0,1,5\n"}
	for i := -1; i < len(bad); i++ {
		f := filepath.Join(os.Getenv("VERIF_SCRATCH"), "bad.csv")
		os.Remove(f)
		txt := "(missing)"
		if i >= 0 {
			txt = bad[i]
			os.WriteFile(f, []byte(txt), 0644)
		}
		cmd := exec.Command(bin, append(append([]string{}, args...), "-topo", f, "-dur", "3s", "-w", "1s")...)
		cmd.Dir = os.Getenv("VERIF_SCRATCH")
		out, err := cmd.CombinedOutput()
		if err == nil {
			c.Fail("the program ran on a topology file %q:\n%.500s", txt, out)
		}
		if strings.Contains(string(out), "# moments") {
			c.Fail("the program printed measurements for a topology file %q:\n%.500s", txt, out)
		}
		c.Seen("bad_topologies", 1)
	}
}

func secs(d time.Duration) string { return d.String() }
