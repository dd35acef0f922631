package VPKG

import (
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"testing"
	"time"

	"github.com/dchest/siphash"
	"github.com/yangl1996/rateless-set-reconcile/riblt"
)

type benchSym [8]byte

func (d benchSym) XOR(o benchSym) benchSym {
	for i := range d {
		d[i] ^= o[i]
	}
	return d
}

func (d benchSym) Hash() uint64 { return siphash.Hash(99, 12345, d[:]) }

var benchLine = regexp.MustCompile(`^coded symbols (\S+), overhead (\S+), enc (\S+) diff/s, dec (\S+) diff/s\n$`)

func TestVerifC37(t *testing.T) {
	vMain(t, "C37", func(h *vH) {
		bin := os.Getenv("VERIF_BIN")
		ds := []int{2, 4, 10, 24, 50, 100, 200, 400, 700, 1000, 1500}
		for i := 0; i < h.N(24, 240); i++ {
			h.Case(fmt.Sprintf("bench-%d", i), func(c *vC) {
				r := c.R
				d := ds[i%len(ds)]
				n := 2000000 / (d + 8)
				s := d/2 + []int{0, 1, 20}[r.Intn(3)]
				if r.Intn(3) == 0 {
					n, s = 20+r.Intn(80), s+r.Intn(5000)
				}
				// reference: how many coded symbols such differences need
				var sum, sq float64
				ref := 2000000 / (d + 8)
				for k := 0; k < ref; k++ {
					enc, dec := riblt.Encoder[benchSym]{}, riblt.Decoder[benchSym]{}
					base := r.Uint64() >> 1
					for j := 0; j < d; j++ {
						var x benchSym
						binary.LittleEndian.PutUint64(x[:], base+uint64(j))
						if j%2 == 0 {
							enc.AddSymbol(x)
						} else {
							dec.AddSymbol(x)
						}
					}
					cw := 0
					for cw == 0 || !dec.Decoded() {
						dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
						cw++
						dec.TryDecode()
					}
					sum += float64(cw)
					sq += float64(cw) * float64(cw)
				}
				mean := sum / float64(ref)
				sd := math.Sqrt((sq - sum*mean) / float64(ref-1))
				args := []string{"-d", fmt.Sprint(d), "-s", fmt.Sprint(s), "-n", fmt.Sprint(n)}
				if r.Intn(5) == 0 {
					args, n = args[:4], 100
				}
				began := time.Now()
				out, err := exec.Command(bin, args...).CombinedOutput()
				wall := time.Since(began).Seconds()
				if err != nil {
					c.Fail("benchmark %v: %v %.2000s", args, err, out)
				}
				m := benchLine.FindSubmatch(out)
				if m == nil {
					c.Fail("benchmark %v prints %q", args, out)
				}
				var v [4]float64
				for k := range v {
					if v[k], err = strconv.ParseFloat(string(m[k+1]), 64); err != nil {
						c.Fail("benchmark %v prints %q", args, out)
					}
				}
				tol := 6.5*sd*math.Sqrt(1/float64(n)+1/float64(ref)) + 0.006
				if v[0] < mean-tol || v[0] > mean+tol || v[0] < float64(d)-0.006 {
					c.Fail("benchmark %v reports %v coded symbols on average; differences of %d need %.2f (standard deviation %.2f)", args, v[0], d, mean, sd)
				}
				if math.Abs(v[1]-v[0]/float64(d)) > 0.006+0.006/float64(d) {
					c.Fail("benchmark %v reports overhead %v for %v coded symbols and %d differences", args, v[1], v[0], d)
				}
				if !(v[2] > 0) || !(v[3] > 0) || v[2] > 1e11 || v[3] > 1e11 {
					c.Fail("benchmark %v reports rates %v and %v", args, v[2], v[3])
				}
				if least := float64(d*n) / wall * 0.99; v[2] < least || v[3] < least {
					c.Fail("benchmark %v took %v s altogether for %d tests and reports %v and %v differences per second", args, wall, n, v[2], v[3])
				}
				c.Seen("benchmarks", 1)
				c.Seen("tests_averaged", n)
				c.Distinct("d=%d s=%d n=%d %s", d, s, n, m[1])
			})
		}
		for _, d := range []int{60, 400, 1200} {
			d := d
			h.Case(fmt.Sprintf("single-%d", d), func(c *vC) { // single tests take any number of coded symbols
				gcd := 0
				for k := 0; k < 40; k++ {
					out, err := exec.Command(bin, "-d", fmt.Sprint(d), "-s", fmt.Sprint(d), "-n", "1").CombinedOutput()
					m := benchLine.FindSubmatch(out)
					if err != nil || m == nil {
						c.Fail("benchmark -d %d -s %d -n 1: %v %.2000s", d, d, err, out)
					}
					v, _ := strconv.ParseFloat(string(m[1]), 64)
					if v != math.Floor(v) || v < float64(d) {
						c.Fail("benchmark -d %d -n 1 reports %v coded symbols", d, v)
					}
					for a := int(v); a != 0; {
						gcd, a = a, gcd%a
					}
				}
				if gcd != 1 {
					c.Fail("benchmark -d %d -n 1 forty times reports multiples of %d coded symbols only", d, gcd)
				}
				c.Seen("single_tests", 40)
			})
		}
		h.Case("set-size", func(c *vC) { // encoding covers the whole set, so its rate falls with the set size
			rate := func(s, runs int) (best float64) {
				for k := 0; k < runs; k++ {
					out, err := exec.Command(bin, "-d", "40", "-s", fmt.Sprint(s), "-n", "20").CombinedOutput()
					m := benchLine.FindSubmatch(out)
					if err != nil || m == nil {
						c.Fail("benchmark -d 40 -s %d -n 20: %v %.2000s", s, err, out)
					}
					v, _ := strconv.ParseFloat(string(m[3]), 64)
					best = math.Max(best, v)
				}
				return
			}
			sizes := []int{200, 1600, 12800, 102400}
			last := rate(sizes[0], 8)
			for k := 1; k < len(sizes); k++ {
				v := rate(sizes[k], vMin(6, 12/k/k))
				if v > last/3 {
					c.Fail("benchmark reports an encoding rate of %v for sets of %d and of %v for sets of %d", last, sizes[k-1], v, sizes[k])
				}
				last = v
			}
			c.Seen("set_sizes", 1)
		})
		h.Case("odd", func(c *vC) {
			if out, err := exec.Command(bin, "-d", "7", "-s", "100").CombinedOutput(); err == nil {
				c.Fail("benchmark -d 7 (odd) ran: %s", out)
			}
			c.Seen("refused", 1)
		})
	})
}
