package VPKG

import (
	"bufio"
	"fmt"
	"math"
	"os"
	"os/exec"
	"strings"
	"testing"

	"github.com/yangl1996/rateless-set-reconcile/lt"
)

// rows runs a program and hands over its rows (no comments) until stop says so.
func rows(c *vC, bin string, take func(row []string) (more bool)) {
	cmd := exec.Command(bin)
	out, err := cmd.StdoutPipe()
	if err == nil {
		err = cmd.Start()
	}
	if err != nil {
		panic(err)
	}
	more := true
	for s := bufio.NewScanner(out); more && s.Scan(); {
		if l := s.Text(); l != "" && !strings.HasPrefix(l, "#") {
			more = take(strings.Fields(l))
		}
	}
	if !more { // seen enough
		cmd.Process.Kill()
		cmd.Wait()
	} else if err := cmd.Wait(); err != nil {
		c.Fail("the program ended with %v", err)
	}
}

func row(c *vC, got []string, want ...float64) {
	ok := len(got) == len(want)
	for i := 0; ok && i < len(want); i++ {
		var v float64
		_, err := fmt.Sscan(got[i], &v)
		ok = err == nil && (v == want[i] || math.IsNaN(v) && math.IsNaN(want[i]) || math.Abs(v-want[i]) < 1e-9*math.Abs(want[i]))
	}
	if !ok {
		c.Fail("the program prints the row %v, the simulation gives %v", got, want)
	}
	c.Seen("rows_compared", 1)
	c.Distinct("%v", got)
}

// lossyRun is one run of the simulation of a receiver that is content once
// more than half of its codewords (of more than five) are decoded.
func lossyRun(seed int64, N, common int) (atTh, total, left int) {
	e := refEncoder(seed, N)
	d := lt.NewDecoder[Transaction](TestKey, 2147483647)
	next := uint64(0)
	fill(common, &next, func(t lt.Transaction[Transaction]) bool {
		ok := e.AddTransaction(t)
		if ok {
			d.AddTransaction(t)
		}
		return ok
	})
	todo := map[uint64]bool{}
	for _, i := range fill(N-common, &next, e.AddTransaction) {
		todo[i] = true
	}
	var stubs []*lt.PendingCodeword[Transaction]
	for len(todo) > 0 {
		s, txs := d.AddCodeword(e.ProduceCodeword())
		for _, t := range txs {
			delete(todo, t.Data().Idx)
		}
		stubs = append(stubs, s)
		if atTh == 0 && len(stubs) > 5 {
			n := 0
			for _, s := range stubs {
				if s.Decoded() {
					n++
				}
			}
			if n > len(stubs)/2 {
				atTh, left = len(stubs), len(todo)
			}
		}
	}
	return atTh, len(stubs), left
}

func TestVerifC39(t *testing.T) {
	vMain(t, "C39", func(h *vH) {
		bin := os.Getenv("VERIF_BIN")
		h.Case(PROG, func(c *vC) {
			n := 0
			switch PROG {
			case "overlap":
				rows(c, bin, func(r []string) bool {
					v := float64(SimulateOneSenderOverlap(100, 200, 200-n))
					row(c, r, float64(n), float64(n)/200, v, v/float64(n))
					n++
					return true
				})
				if n != 200 {
					c.Fail("the program prints %d rows", n)
				}
			case "calc":
				rows(c, bin, func(r []string) bool {
					nodes := n + 2
					v := float64(SimulateOneSenderOverlap(50, 5000, 5000-5000/nodes)) / float64(5000/nodes)
					if w := fmt.Sprintf("%d & $%.2f$ \\\\", nodes, v); strings.Join(r, " ") != w {
						c.Fail("the program prints %v, the simulation gives %q", r, w)
					}
					c.Seen("rows_compared", 1)
					c.Distinct("%v", r)
					n++
					return true
				})
				if n != 19 {
					c.Fail("the program prints %d rows", n)
				}
			case "twosenders":
				// rows are left out where too few runs succeed
				shown := map[int]bool{}
				rows(c, bin, func(r []string) bool {
					var s int
					if _, err := fmt.Sscan(r[0], &s); err != nil || s < 0 || s > 399 || shown[s] {
						c.Fail("the program prints the row %v", r)
					}
					shown[s] = true
					if n++; !h.Quick() || n < 6 || c.R.Intn(6) == 0 || s > 397 {
						v := float64(SimulateTwoSendersOverlap(100, 200, 100, s))
						row(c, r, float64(s), v, v/300)
					}
					return true
				})
				left := 0
				for s := 399; s >= 0; s-- {
					if !shown[s] {
						if left++; (!h.Quick() || left < 6 || left%20 == 0) && SimulateTwoSendersOverlap(100, 200, 100, s) != -1 {
							c.Fail("the program prints no row for %d codewords of the first sender", s)
						}
					}
				}
			case "lossy":
				rows(c, bin, func(r []string) bool {
					if n < 3 || n > 96 || n%4 == c.R.Intn(4) {
						var a, b, l int
						for s := int64(0); s < 100; s++ {
							x, y, z := lossyRun(s, 100, n)
							a, b, l = a+x, b+y, l+z
						}
						row(c, r, float64(n), float64(a/100), float64(b/100), float64(l/100))
					}
					n++
					return true
				})
				if n != 100 {
					c.Fail("the program prints %d rows", n)
				}
			}
			c.Seen("programs", 1)
		})
	})
}
