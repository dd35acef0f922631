package VPKG

import (
	"bufio"
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"testing"

	"github.com/yangl1996/soliton"
)

// ---- an ideal LT decoder over transaction numbers --------------------------------

type rcw struct {
	left, xor int
	age       int
}

type ideal struct {
	known map[int]bool
	on    map[int][]*rcw // codewords waiting for a transaction
}

func newIdeal() *ideal { return &ideal{map[int]bool{}, map[int][]*rcw{}} }

// learn makes x known, and hands over what became known (x included).
func (s *ideal) learn(x int) (got []int) {
	if s.known[x] {
		return
	}
	s.known[x] = true
	got = []int{x}
	for i := 0; i < len(got); i++ {
		for _, c := range s.on[got[i]] {
			c.left--
			c.xor ^= got[i]
			if c.left == 1 && !s.known[c.xor] {
				s.known[c.xor] = true
				got = append(got, c.xor)
			}
		}
		delete(s.on, got[i])
	}
	return
}

func (s *ideal) add(members []int) (c *rcw, got []int) {
	c = &rcw{}
	for _, x := range members {
		if !s.known[x] {
			c.left++
			c.xor ^= x
		}
	}
	if c.left == 1 {
		x := c.xor
		c.left = 0
		return c, s.learn(x)
	}
	if c.left > 0 {
		for _, x := range members {
			if !s.known[x] {
				s.on[x] = append(s.on[x], c)
			}
		}
	}
	return
}

func (c *rcw) decoded() bool { return c.left == 0 }

type ienc struct {
	dist *soliton.Soliton
	win  []int
	size int
	r    *rand.Rand
}

func (e *ienc) add(x int) {
	e.win = append(e.win, x)
	if len(e.win) > e.size {
		e.win = e.win[1:]
	}
}

// codeword picks the given number of distinct window members (Floyd).
func (e *ienc) codeword() []int {
	d, n := int(e.dist.Uint64()), len(e.win)
	if d > n {
		d = n
	}
	in := map[int]bool{}
	out := make([]int, 0, d)
	for j := n - d; j < n; j++ {
		t := e.r.Intn(j + 1)
		if in[t] {
			t = j
		}
		in[t] = true
		out = append(out, e.win[t])
	}
	return out
}

func robust(seed int64, k int) *soliton.Soliton {
	return soliton.NewRobustSoliton(rand.New(rand.NewSource(seed)), uint64(k), 0.03, 0.5)
}

func block(r *rand.Rand, t, k int) *ienc {
	e := &ienc{dist: robust(r.Int63(), k), size: t, r: r}
	for i := 0; i < t; i++ {
		e.add(i)
	}
	return e
}

// ---- statistics ------------------------------------------------------------------

type acc struct{ n, s, q float64 }

func (a *acc) put(x float64) { a.n++; a.s += x; a.q += x * x }
func (a *acc) mean() float64 { return a.s / a.n }
func (a *acc) sd() float64   { return math.Sqrt(math.Max(0, a.q-a.s*a.s/a.n) / math.Max(1, a.n-1)) }

// near fails unless got may be the mean of n samples of what a holds samples of.
func (a *acc) near(c *vC, what string, got float64, n int, round float64) {
	tol := 7*a.sd()*math.Sqrt(1/float64(n)+1/a.n) + round
	if !(math.Abs(got-a.mean()) <= tol) {
		c.Fail("%s: %v reported, %.4f expected (within %.4f; %v samples, standard deviation %.4f)", what, got, a.mean(), tol, a.n, a.sd())
	}
	c.Seen("figures_compared", 1)
}

func share(c *vC, what string, got float64, n int, hits, of int, round float64) {
	p := (float64(hits) + 1) / (float64(of) + 2)
	tol := 7*math.Sqrt(p*(1-p)*(1/float64(n)+1/float64(of))) + round + 7/float64(n)
	if !(math.Abs(got-float64(hits)/float64(of)) <= tol) {
		c.Fail("%s: a share of %v reported for %d tests, %d of %d expected (within %.4f)", what, got, n, hits, of, tol)
	}
	c.Seen("figures_compared", 1)
}

func run(c *vC, args ...string) string {
	o, err := exec.Command(os.Getenv("VERIF_BIN"), args...).Output()
	if err != nil {
		c.Fail("the program with %v: %v %.2000s", args, err, o)
	}
	c.Seen("programs_run", 1)
	return string(o)
}

func nums(c *vC, l string, n int) (v []float64) {
	for _, f := range strings.Fields(l) {
		x, err := strconv.ParseFloat(f, 64)
		if err != nil {
			c.Fail("the program prints %q", l)
		}
		v = append(v, x)
	}
	if len(v) != n {
		c.Fail("the program prints %q, %d numbers expected", l, n)
	}
	return
}

func a(kv ...interface{}) (o []string) {
	for i := 0; i < len(kv); i += 2 {
		o = append(o, fmt.Sprint(kv[i]), fmt.Sprint(kv[i+1]))
	}
	return
}

// fixed runs the program with parameters that leave nothing to chance.
func fixed(c *vC, want string, kv ...interface{}) {
	var args []string
	for _, x := range kv {
		args = append(args, fmt.Sprint(x))
	}
	if got := strings.Join(strings.Fields(run(c, args...)), " "); got != want {
		c.Fail("with %v the program prints %q, expected %q", args, got, want)
	}
	c.Seen("figures_compared", 1)
}

// ---- the programs ----------------------------------------------------------------

var progs = map[string]func(h *vH){
	"simple": func(h *vH) {
		h.Case("nothing-sent", func(c *vC) {
			for _, m := range []int{0, 6, 7, 8} {
				fixed(c, fmt.Sprintf("fail rate %d.00", map[bool]int{true: 1}[m < 7]), "-t", 7, "-k", 7, "-n", 0, "-m", m, "-ntest", 9)
			}
			fixed(c, "fail rate 0.00", "-t", 1, "-k", 1, "-n", 1, "-ntest", 9)
		})
		for i := 0; i < h.N(5, 40); i++ {
			h.Case(fmt.Sprintf("simple-%d", i), func(c *vC) {
				t := 20 + c.R.Intn(50)
				k := t
				if c.R.Intn(3) == 0 {
					k = t/2 + c.R.Intn(t)
				}
				n := t + c.R.Intn(t)
				m := c.R.Intn(4)
				if i%2 == 1 {
					n = t
					m = t/3 + c.R.Intn(t/3)
				}
				const tests, ref = 3000, 6000
				bad := 0
				for j := 0; j < ref; j++ {
					e, d := block(c.R, t, k), newIdeal()
					for x := 0; x < n; x++ {
						d.add(e.codeword())
					}
					if t-len(d.known) > m {
						bad++
					}
					vTick()
				}
				args := a("-t", t, "-k", k, "-n", n, "-m", m, "-ntest", tests)
				o := run(c, args...)
				var got float64
				if _, err := fmt.Sscanf(o, "fail rate %f\n", &got); err != nil {
					c.Fail("simple %v prints %q", args, o)
				}
				share(c, fmt.Sprintf("simple %v", args), got, tests, bad, ref, 0.005)
				c.Distinct("simple %v %v", args, got)
			})
		}
	},
	"decoding": func(h *vH) {
		h.Case("one", func(c *vC) { fixed(c, "1 1", "-t", 1, "-k", 1) })
		for i := 0; i < h.N(5, 40); i++ {
			h.Case(fmt.Sprintf("decoding-%d", i), func(c *vC) {
				t := 20 + c.R.Intn(100)
				k := t
				if c.R.Intn(3) == 0 {
					k = t/2 + c.R.Intn(t)
				}
				var end, half acc
				for j := 0; j < 400; j++ {
					e, d := block(c.R, t, k), newIdeal()
					n, at := 0, 0
					for len(d.known) < t {
						d.add(e.codeword())
						n++
						if at == 0 && len(d.known) >= t/2 {
							at = n
						}
					}
					end.put(float64(n))
					half.put(float64(at))
					vTick()
				}
				var ends, halves acc
				const runs = 30
				for j := 0; j < runs; j++ {
					last, n, at := 0.0, 0, 0
					for _, l := range strings.Split(strings.TrimSpace(run(c, a("-t", t, "-k", k)...)), "\n") {
						v := nums(c, l, 2)
						n++
						if v[0] != float64(n) || v[1] < last || v[1] > float64(t) || last == float64(t) {
							c.Fail("decoding of %d transactions: line %d reads %q after %v decoded", t, n, l, last)
						}
						last = v[1]
						if at == 0 && v[1] >= float64(t/2) {
							at = n
						}
					}
					if last != float64(t) || n < t {
						c.Fail("decoding of %d transactions ends after %d codewords with %v decoded", t, n, last)
					}
					ends.put(float64(n))
					halves.put(float64(at))
				}
				// the program seeds its degrees, so that runs are alike in them
				sd := end.sd() * 7
				if math.Abs(ends.mean()-end.mean()) > sd || math.Abs(halves.mean()-half.mean()) > 7*half.sd() {
					c.Fail("decoding -t %d -k %d: half after %.1f, all after %.1f codewords; expected %.1f and %.1f", t, k, halves.mean(), ends.mean(), half.mean(), end.mean())
				}
				c.Seen("figures_compared", 2)
				c.Distinct("decoding %d %d %v", t, k, ends.mean())
			})
		}
	},
	"detect-loss": func(h *vH) {
		h.Case("one", func(c *vC) { // of one transaction every codeword is decoded
			for n := 1; n < 8; n++ {
				fixed(c, fmt.Sprint(n, 0, n+1), "-t", 1, "-k", 1, "-n", n, "-ntest", 5)
				fixed(c, fmt.Sprint(n, 0, n), "-t", 1, "-k", 1, "-n", n, "-ntest", 5, "-last")
			}
		})
		for i := 0; i < h.N(6, 40); i++ {
			h.Case(fmt.Sprintf("detect-%d", i), func(c *vC) {
				t := 30 + c.R.Intn(40)
				n, m, last := 5+c.R.Intn(60), c.R.Intn(3), i%2 == 0
				if last {
					n = 3 + c.R.Intn(20)
				}
				const tests, ref = 1500, 3000
				bad := 0
				var cnt acc
				for j := 0; j < ref; j++ {
					e, d := block(c.R, t, t), newIdeal()
					var first []*rcw
					row, used := 0, 0
					for {
						cw, _ := d.add(e.codeword())
						used++
						if last {
							row++
							if !cw.decoded() {
								row = 0
							}
							if row >= n {
								break
							}
						} else if len(first) < n {
							first = append(first, cw)
						} else if allDecoded(first) {
							break
						}
					}
					cnt.put(float64(used))
					if t-len(d.known) > m {
						bad++
					}
					vTick()
				}
				args := a("-t", t, "-k", t, "-n", n, "-m", m, "-ntest", tests)
				if last {
					args = append(args, "-last")
				}
				v := nums(c, strings.TrimSpace(run(c, args...)), 3)
				if v[0] != float64(n) {
					c.Fail("detect-loss %v prints %v", args, v)
				}
				share(c, fmt.Sprintf("detect-loss %v", args), v[1], tests, bad, ref, 0)
				cnt.near(c, fmt.Sprintf("codewords of detect-loss %v", args), v[2], tests, 0)
				c.Distinct("detect-loss %v %v", args, v)
			})
		}
	},
	"detect-loss-overlap": func(h *vH) {
		h.Case("all-known", func(c *vC) {
			for n := 1; n < 8; n++ {
				fixed(c, fmt.Sprint(9, n, 0, n+1), "-t", 9, "-k", 9, "-p", 9, "-n", n, "-m", 0, "-ntest", 5)
				fixed(c, fmt.Sprint(0, n, 0, n+1), "-t", 1, "-k", 1, "-n", n, "-m", 0, "-ntest", 5)
			}
		})
		for i := 0; i < h.N(4, 30); i++ {
			h.Case(fmt.Sprintf("detect-overlap-%d", i), func(c *vC) {
				t := 30 + c.R.Intn(60)
				n, m, p := 1+c.R.Intn(t), c.R.Intn(4), c.R.Intn(t)
				const tests, ref = 1000, 2000
				bad := 0
				var cnt acc
				for j := 0; j < ref; j++ {
					e, d := block(c.R, t, t), newIdeal()
					for x := t - p; x < t; x++ {
						d.learn(x)
					}
					var all []*rcw
					for {
						cw, _ := d.add(e.codeword())
						all = append(all, cw)
						if len(all) > n && allDecoded(all) {
							break
						}
					}
					cnt.put(float64(len(all)))
					if t-len(d.known) > m {
						bad++
					}
					vTick()
				}
				args := a("-t", t, "-k", t, "-n", n, "-m", m, "-p", p, "-ntest", tests)
				v := nums(c, strings.TrimSpace(run(c, args...)), 4)
				if v[0] != float64(p) || v[1] != float64(n) {
					c.Fail("detect-loss-overlap %v prints %v", args, v)
				}
				share(c, fmt.Sprintf("detect-loss-overlap %v", args), v[2], tests, bad, ref, 0)
				cnt.near(c, fmt.Sprintf("codewords of detect-loss-overlap %v", args), v[3], tests, 0)
				c.Distinct("detect-loss-overlap %v %v", args, v)
			})
		}
	},
	"soliton-sample": func(h *vH) {
		h.Case("tables", func(c *vC) {
			const k = 50
			R := 0.03 * math.Log(k/0.5) * math.Sqrt(k)
			var sol, rob [k + 1]float64
			tot, spike := 0.0, int(math.Round(k/R))
			for i := 1; i <= k; i++ {
				sol[i] = 1 / float64(k)
				if i > 1 {
					sol[i] = 1 / float64(i*(i-1))
				}
				rob[i] = sol[i]
				if i < spike {
					rob[i] += R / float64(i*k)
				} else if i == spike {
					rob[i] += R * math.Log(R/0.5) / k
				}
				tot += rob[i]
			}
			parts := strings.Split(run(c), "\n\n\n")
			if len(parts) != 2 {
				c.Fail("%d tables are printed", len(parts))
			}
			for p, name := range []string{`"Soliton"`, `"Robust Soliton"`} {
				ls := strings.Split(strings.TrimSpace(parts[p]), "\n")
				if ls[0] != name || len(ls) != k+1 {
					c.Fail("table %d is headed %s and has %d rows", p, ls[0], len(ls)-1)
				}
				for i := 1; i <= k; i++ {
					want := sol[i]
					if p == 1 {
						want = rob[i] / tot
					}
					v := nums(c, ls[i], 2)
					if v[0] != float64(i) || math.Abs(v[1]-want) > 1e-9 {
						c.Fail("row %d of table %s is %v, expected %v", i, name, v, want)
					}
					c.Seen("figures_compared", 1)
				}
			}
			c.Distinct("tables")
		})
	},
	"windowed-lt": func(h *vH) {
		h.Case("rows", func(c *vC) {
			Ks := []int{20, 50, 75}[:h.N(2, 3)]
			i := 0
			lines(c, nil, func(l string) bool {
				v := nums(c, l, 5)
				if i >= len(Ks) || v[0] != float64(Ks[i]) {
					c.Fail("row %d is for a window of %v", i+1, v[0])
				}
				k := Ks[i]
				var blk, win acc
				for j := 0; j < 300; j++ {
					vTick()
					b, w := windowed(c.R, k)
					blk.put(b)
					win.put(w)
				}
				blk.near(c, fmt.Sprintf("rate for blocks of %d", k), v[1], 100, 0.005)
				win.near(c, fmt.Sprintf("rate for windows of %d", k), v[3], 100, 0.005)
				for q, s := range map[int]acc{2: blk, 4: win} {
					if v[q] > 4*s.sd()+0.03 || v[q] < s.sd()/4-0.03 {
						c.Fail("window %d: standard deviation %v reported, %.3f expected", k, v[q], s.sd())
					}
				}
				c.Distinct("windowed %v", v)
				i++
				return i < len(Ks)
			})
			c.Seen("programs_run", 1)
		})
	},
	"analysis-exp": func(h *vH) {
		h.Case("one", func(c *vC) {
			fixed(c, "snd1 snd2 overall 1.00 1.00 2.00 1.00 1.00 2.00 avg 1.00 1.00 2.00", "-t1", 0, "-t2", 0, "-tc", 1, "-k", 1, "-run", 2)
			fixed(c, "snd1 snd2 overall 1.00 1.00 1.00 avg 1.00 1.00 1.00", "-t1", 1, "-t2", 1, "-tc", 0, "-k", 1, "-run", 1)
		})
		for i := 0; i < h.N(5, 40); i++ {
			h.Case(fmt.Sprintf("overlap-%d", i), func(c *vC) {
				t1, t2, tc := 50+c.R.Intn(150), 50+c.R.Intn(150), 50+c.R.Intn(150)
				switch c.R.Intn(4) {
				case 0:
					tc = 0
				case 1:
					t1 = 0
				}
				switch i % 5 {
				case 3: // one block is much larger than the other
					t1, t2, tc = t1+800, 20+t2/10, 10
				case 4:
					t1, t2, tc = 20+t1/10, t2+800, 10
				}
				k := 40 + c.R.Intn(60)
				runs := 100
				var A, B, O acc
				for j := 0; j < 200; j++ {
					vTick()
					e1, e2 := &ienc{dist: robust(1, k), size: t1 + tc, r: c.R}, &ienc{dist: robust(2, k), size: t2 + tc, r: c.R}
					for x := 0; x < t1+t2+tc; x++ {
						if x < t1+tc {
							e1.add(x)
						}
						if x >= t1 {
							e2.add(x)
						}
					}
					d := newIdeal()
					m1, m2 := t1+tc, t2+tc
					take := func(l []int) {
						_, got := d.add(l)
						for _, x := range got {
							if x < t1+tc {
								m1--
							}
							if x >= t1 {
								m2--
							}
						}
					}
					n := 0
					for m1 > (t1+tc)*2/100 || m2 > (t2+tc)*2/100 {
						take(e1.codeword())
						take(e2.codeword())
						n++
					}
					A.put(float64(n) / float64(t1+tc))
					B.put(float64(n) / float64(t2+tc))
					O.put(float64(2*n) / float64(t1+t2+tc))
				}
				args := a("-t1", t1, "-t2", t2, "-tc", tc, "-k", k, "-run", runs)
				ls := strings.Split(strings.TrimSpace(run(c, args...)), "\n")
				if len(ls) != runs+2 {
					c.Fail("analysis-exp %v prints %d lines", args, len(ls))
				}
				var s [3]float64
				for _, l := range ls[1 : runs+1] {
					v := nums(c, l, 3)
					// both senders send the same number, which is an integer
					n := math.Round(v[2] * float64(t1+t2+tc) / 2)
					if w := 1 + 0.0051*float64(t1+t2+tc)/2; math.Abs(v[0]*float64(t1+tc)-n) > w+0.0051*float64(t1+tc) || math.Abs(v[1]*float64(t2+tc)-n) > w+0.0051*float64(t2+tc) {
						c.Fail("analysis-exp %v: %q cannot be of the same number of codewords", args, l)
					}
					for q := range s {
						s[q] += v[q] / float64(runs)
					}
				}
				avg := nums(c, strings.TrimPrefix(ls[runs+1], "avg"), 3)
				for q := range s {
					if math.Abs(avg[q]-s[q]) > 0.0101 {
						c.Fail("analysis-exp %v: the averages %v differ from those of the rows %v", args, avg, s)
					}
				}
				A.near(c, fmt.Sprintf("first sender of analysis-exp %v", args), avg[0], runs, 0.005)
				B.near(c, fmt.Sprintf("second sender of analysis-exp %v", args), avg[1], runs, 0.005)
				O.near(c, fmt.Sprintf("both senders of analysis-exp %v", args), avg[2], runs, 0.005)
				c.Distinct("analysis %v %v", args, avg)
			})
		}
	},
	"controller": func(h *vH) {
		for i := 0; i < h.N(3, 20); i++ {
			h.Case(fmt.Sprintf("controller-%d", i), func(c *vC) {
				g, al, dr := 0.01+0.04*c.R.Float64(), 0.05+0.1*c.R.Float64(), 0.0
				switch i % 3 {
				case 1:
					dr = 0.02 + 0.1*c.R.Float64()
				case 2:
					dr = 0.55 + 0.2*c.R.Float64()
				}
				g, al, dr = math.Round(g*1000)/1000, math.Round(al*1000)/1000, math.Round(dr*1000)/1000
				args := a("-g", g, "-a", al, "-d", dr)
				prev, n := 0.1, 0.0
				var sumCW, sumL, sumR float64
				var lossRate, cwRate = -1.0, -1.0
				for _, l := range strings.Split(strings.TrimSpace(run(c, args...)), "\n") {
					if strings.HasPrefix(l, "#") {
						fmt.Sscanf(l, "# loss rate: %f", &lossRate)
						fmt.Sscanf(l, "# codeword rate: %f", &cwRate)
						continue
					}
					v := nums(c, l, 3)
					n++
					if v[0] != 1000*n {
						c.Fail("controller %v: report %v is for %v ms", args, n, v[0])
					}
					if v[2] < 0 || v[2] > 1 && n > 3 {
						c.Fail("controller %v: a loss of %v is reported", args, v[2])
					}
					cw := 1000 * (prev + v[1]) / 2
					if dr == 0 {
						// the rate moves by a/1000 for each loss, and by -g*a/1000 for each codeword
						cw = integerCW(c, args, l, (v[1]-prev)*1000/al, v[2], g, cw, 1000*math.Abs(v[1]-prev))
					}
					if n > 100 {
						sumCW += cw
						sumL += cw * v[2]
						sumR += v[1]
					}
					prev = v[1]
				}
				if n != 500 {
					c.Fail("controller %v prints %v reports", args, n)
				}
				if math.Abs(lossRate-sumL/sumCW) > 0.02*lossRate+2e-5 || math.Abs(cwRate-sumCW/400/0.6/1000) > 0.01*cwRate {
					c.Fail("controller %v: loss rate %v and codeword rate %v at the end, %v and %v by the reports", args, lossRate, cwRate, sumL/sumCW, sumCW/400/0.6/1000)
				}
				var ref acc
				var refL acc
				for j := 0; j < 3; j++ {
					r, l := refController(c, g, al, dr)
					ref.put(r)
					refL.put(l)
				}
				if r := sumR / 400; math.Abs(r-ref.mean()) > 0.03*ref.mean()+8*ref.sd() {
					c.Fail("controller %v settles at %.4f codewords per ms, expected %.4f", args, r, ref.mean())
				}
				if math.Abs(lossRate-refL.mean()) > 0.15*refL.mean()+8*refL.sd()+0.0003 {
					c.Fail("controller %v settles at a loss of %.5f, expected %.5f", args, lossRate, refL.mean())
				}
				c.Seen("figures_compared", 504)
				c.Distinct("controller %v %v %v", args, lossRate, cwRate)
			})
		}
	},
	"new-controller": func(h *vH) {
		for i := 0; i < h.N(5, 40); i++ {
			h.Case(fmt.Sprintf("new-controller-%d", i), func(c *vC) {
				g, al := 0.01+0.04*c.R.Float64(), 0.05+0.3*c.R.Float64()
				g, al = math.Round(g*1000)/1000, math.Round(al*1000)/1000
				args := a("-g", g, "-a", al)
				n, moved, queue, losses := 0.0, 0.0, 0.0, 0.0
				prev := []float64{0, 0.1, 0, 0, 0, 500}
				for _, l := range strings.Split(strings.TrimSpace(run(c, args...)), "\n") {
					var step, k, q float64
					if got, _ := fmt.Sscanf(l, "# %f adding %f transactions to coding window, queue length %f", &step, &k, &q); got == 3 {
						// the window takes up to 500 of the transactions waiting
						if moved += k; k > 500 || k < 500 && q != 0 || k < 0 || q < 0 {
							c.Fail("new-controller %v: %s", args, l)
						}
						queue = q
						c.Seen("window_moves", 1)
					}
					if strings.HasPrefix(l, "#") {
						continue
					}
					v := nums(c, l, 6)
					if v[0] != 1000*n {
						c.Fail("new-controller %v: report %v is for %v ms", args, n, v[0])
					}
					cw := v[3] - prev[3]
					steps := v[0] - prev[0]
					if cw < 0 || v[4] < prev[4] || v[5] < prev[5] || v[5] > prev[5]+steps+1 || v[4] > v[5] {
						c.Fail("new-controller %v: report %v after %v", args, v, prev)
					}
					if v[5] < 500+moved || queue > 0 && v[5] < 500+moved+queue {
						c.Fail("new-controller %v: %v transactions generated, %v were in the window and %v are waiting", args, v[5], 500+moved, queue)
					}
					if cw > 0 {
						lost := v[2] * cw
						losses += lost
						if math.Abs(lost-math.Round(lost)) > 1e-6 || math.Abs(v[1]-prev[1]-al/1000*(lost-g*cw)) > 1e-7 {
							c.Fail("new-controller %v: a loss of %v of %v codewords is reported, and the rate goes from %v to %v", args, v[2], cw, prev[1], v[1])
						}
						if est := steps * (prev[1] + v[1]) / 2; math.Abs(cw-est) > 2+steps*math.Abs(v[1]-prev[1]) {
							c.Fail("new-controller %v: %v codewords in %v ms at rates of %v to %v", args, cw, steps, prev[1], v[1])
						}
					}
					if n == 400 {
						if d := v[5] - 500 - 0.6*v[0]; math.Abs(d) > 8*math.Sqrt(v[0]*0.24) {
							c.Fail("new-controller %v: %v transactions generated in %v ms", args, v[5], v[0])
						}
						if moved > 0 && v[4] < 0.9*500 {
							c.Fail("new-controller %v: %v transactions decoded and the window moved %v further", args, v[4], moved)
						}
					}
					prev = v
					n++
				}
				if n != 500 {
					c.Fail("new-controller %v prints %v reports", args, n)
				}
				c.Seen("figures_compared", 2500)
				c.Seen("losses", int(losses))
				c.Distinct("new-controller %v %v", args, prev)
			})
		}
	},
	"streams": func(h *vH) {
		h.Case("streams", func(c *vC) {
			var prev = [2]float64{0.1, 0.1}
			var sum [2]float64
			n := 0
			until := h.N(40, 120)
			lines(c, nil, func(l string) bool {
				v := nums(c, l, 5)
				n++
				if v[0] != float64(10000*n) {
					c.Fail("report %d is for %v ms", n, v[0])
				}
				for q := 0; q < 2; q++ {
					r, loss := v[1+q], v[3+q]
					integerCW(c, nil, l, (r-prev[q])*1e4, loss, 0.02, 10000*(r+prev[q])/2, 10000*math.Abs(r-prev[q]))
					prev[q] = r
					if n > 20 {
						sum[q] += r
					}
				}
				c.Seen("figures_compared", 4)
				c.Distinct("%s", l)
				return n < until
			})
			c.Seen("programs_run", 1)
			var ref [2]acc
			for j := 0; j < 3; j++ {
				r := refStreams(c, until)
				ref[0].put(r[0])
				ref[1].put(r[1])
			}
			for q := range sum {
				if r := sum[q] / float64(until-20); math.Abs(r-ref[q].mean()) > 0.04*ref[q].mean()+8*ref[q].sd() {
					c.Fail("the rate of sender %d settles at %.4f codewords per ms, expected %.4f", q+1, r, ref[q].mean())
				}
			}
		})
	},
}

// integerCW judges one report: the rate moved by move (in units of one loss),
// loss*CW codewords were lost of about est, each codeword costing g.
func integerCW(c *vC, args []string, l string, move, loss, g, est, slack float64) float64 {
	if math.Abs(loss-g) > 0.004 {
		cw := move / (loss - g)
		if math.Abs(cw-est) > 0.05*est+10+slack {
			c.Fail("%v: at report %q the rate moved by %.4f losses' worth; with that loss it takes %.1f codewords, there were about %.0f", args, l, move, cw, est)
		}
		lost := loss * cw
		if math.Abs(lost-math.Round(lost)) > 0.01 || math.Abs(cw-math.Round(cw)) > 0.05 {
			c.Fail("%v: at report %q the rate moved by %.4f losses' worth, which no whole number of codewords and losses gives (%v, %v)", args, l, move, cw, lost)
		}
		c.Seen("reports_balanced", 1)
		return math.Round(cw)
	}
	if math.Abs(move-est*(loss-g)) > 0.1+math.Abs(loss-g)*(0.05*est+slack) {
		c.Fail("%v: at report %q the rate moved by %.4f losses' worth", args, l, move)
	}
	return est
}

func allDecoded(l []*rcw) bool {
	for _, x := range l {
		if !x.decoded() {
			return false
		}
	}
	return true
}

// lines hands over the lines a program prints (no comments) until take has enough.
func lines(c *vC, args []string, take func(l string) (more bool)) {
	cmd := exec.Command(os.Getenv("VERIF_BIN"), args...)
	out, err := cmd.StdoutPipe()
	if err == nil {
		err = cmd.Start()
	}
	if err != nil {
		panic(err)
	}
	stop := make(chan bool)
	defer func() {
		close(stop)
		cmd.Process.Kill()
		cmd.Wait()
	}()
	more := true
	for s := bufio.NewScanner(out); more && s.Scan(); {
		vTick()
		if l := s.Text(); l != "" && !strings.HasPrefix(l, "#") {
			more = take(l)
		}
	}
	if more {
		c.Fail("the program ended early")
	}
}

// windowed is one test: codewords per transaction for a block of k, and the
// least rate at which a stream of 5000 is decoded through a window of k.
func windowed(r *rand.Rand, k int) (float64, float64) {
	e := &ienc{dist: robust(1, k), size: k, r: r}
	d := newIdeal()
	for i := 0; i < k; i++ {
		e.add(i)
	}
	n := 0
	for len(d.known) < k {
		d.add(e.codeword())
		n++
	}
	const nc = 5000
	test := func(rate float64) bool {
		s := &ienc{dist: e.dist, size: k, r: r}
		d := newIdeal()
		for i := 0; i < k; i++ {
			d.learn(i)
			d.learn(i + k + nc)
		}
		credit := 0.0
		for i := 0; i < nc+2*k; i++ {
			s.add(i)
			if i < k {
				continue
			}
			for credit += rate; credit > 1; credit-- {
				d.add(s.codeword())
				if len(d.known) == nc+2*k {
					return true
				}
			}
		}
		return false
	}
	lo, hi := 1.0, 2.0
	for hi-lo > 0.01 {
		if m := (lo + hi) / 2; test(m) {
			hi = m
		} else {
			lo = m
		}
	}
	return float64(n) / float64(k), hi
}

// expire counts the codewords at the head of the list that are old enough and not decoded.
func expire(l *[]*rcw, step, timeout int) (lost int) {
	for len(*l) > 0 && step-(*l)[0].age >= timeout {
		if !(*l)[0].decoded() {
			lost++
		}
		*l = (*l)[1:]
	}
	return
}

func refController(c *vC, g, alpha, drop float64) (rate, loss float64) {
	e := &ienc{dist: robust(1, 50), size: 50, r: c.R}
	d, v := newIdeal(), newIdeal()
	var dl, vl []*rcw
	tx, r, credit, dropped := 0, 0.1, 0.0, 0.0
	var sum, cws, lost float64
	for step := 1; step <= 500000; step++ {
		if c.R.Float64() < 0.6 {
			e.add(tx)
			tx++
		}
		for credit += r; credit >= 1; credit-- {
			m := e.codeword()
			x, _ := d.add(m)
			x.age = step
			dl = append(dl, x)
			if step > 100000 {
				cws++
			}
			if dropped += drop; dropped < 1 {
				x, _ := v.add(m)
				x.age = step
				vl = append(vl, x)
				r -= g * alpha / 1000
			} else {
				dropped--
			}
		}
		r += alpha / 1000 * float64(expire(&vl, step, 500))
		n := expire(&dl, step, 500)
		if step > 100000 {
			lost += float64(n)
			if step%1000 == 0 {
				sum += r
			}
		}
		if step%1000 == 0 {
			vTick()
		}
		if step%20000 == 0 { // codewords and transactions this old matter no more
			forget(d, tx)
			forget(v, tx)
		}
	}
	return sum / 400, lost / cws
}

func forget(d *ideal, tx int) {
	for x := range d.known {
		if x < tx-20000 {
			delete(d.known, x)
		}
	}
	for x := range d.on {
		if x < tx-20000 {
			delete(d.on, x)
		}
	}
}

func refStreams(c *vC, until int) (rates [2]float64) {
	var e [2]*ienc
	d := [2]*ideal{newIdeal(), newIdeal()}
	dist := robust(1, 50)
	for i := range e {
		e[i] = &ienc{dist: dist, size: 50, r: c.R}
	}
	var l [2][]*rcw
	r, credit := [2]float64{0.1, 0.1}, [2]float64{}
	tx := 0
	for step := 1; step <= until*10000; step++ {
		for k, p := range []float64{0.6, 0.1, 0.4} {
			if c.R.Float64() < p {
				if k != 1 {
					e[0].add(tx)
				}
				if k != 0 {
					e[1].add(tx)
				}
				tx++
			}
		}
		for i := range e {
			credit[i] += r[i]
		}
		for i := range e {
			for ; credit[i] >= 1; credit[i]-- {
				r[i] -= 2e-6
				x, got := d[i].add(e[i].codeword())
				x.age = step
				l[i] = append(l[i], x)
				for to := 1 - i; len(got) > 0; to = 1 - to {
					var next []int
					for _, y := range got {
						for _, z := range d[to].learn(y) {
							if z != y {
								next = append(next, z)
							}
						}
					}
					got = next
				}
			}
		}
		for i := range e {
			r[i] += 1e-4 * float64(expire(&l[i], step, 500))
			if step%10000 == 0 && step > 200000 {
				rates[i] += r[i] / float64(until-20)
			}
		}
		if step%1000 == 0 {
			vTick()
		}
		if step%20000 == 0 {
			forget(d[0], tx)
			forget(d[1], tx)
		}
	}
	return
}

func TestVerifC42(t *testing.T) {
	vMain(t, "C42", func(h *vH) {
		progs[PROG](h)
	})
}
