package VPKG

import (
	"fmt"
	"math/rand"
	"sync"
	"testing"

	"github.com/yangl1996/rateless-set-reconcile/lt"
	"github.com/yangl1996/soliton"
)

// fill adds to each encoder given the next n transactions it accepts.
func fill(n int, next *uint64, add func(lt.Transaction[Transaction]) bool) (ids []uint64) {
	for len(ids) < n {
		if add(GetTransaction(*next)) {
			ids = append(ids, *next)
		}
		*next++
	}
	return
}

func refEncoder(seed int64, N int) *lt.Encoder[Transaction] {
	return lt.NewEncoder[Transaction](rand.New(rand.NewSource(seed)), TestKey, soliton.NewRobustSoliton(rand.New(rand.NewSource(seed)), uint64(N), 0.03, 0.5), N)
}

type left map[uint64]bool

func (l left) take(c lt.Codeword[Transaction], d *lt.Decoder[Transaction]) {
	_, txs := d.AddCodeword(c)
	for _, t := range txs {
		delete(l, t.Data().Idx)
	}
}

// oneRun is one run, one after another, nothing shared.
func oneRun(seed int64, N, common int) int {
	e := refEncoder(seed, N)
	d := lt.NewDecoder[Transaction](TestKey, 2147483647)
	next := uint64(0)
	fill(common, &next, func(t lt.Transaction[Transaction]) bool {
		ok := e.AddTransaction(t)
		if ok {
			d.AddTransaction(t)
		}
		return ok
	})
	todo := left{}
	for _, i := range fill(N-common, &next, e.AddTransaction) {
		todo[i] = true
	}
	n := 0
	for len(todo) > 0 {
		todo.take(e.ProduceCodeword(), d)
		n++
	}
	return n
}

func twoRun(seed int64, N, common, first int) int {
	e1, e2 := refEncoder(seed, N), refEncoder(seed, N)
	d := lt.NewDecoder[Transaction](TestKey, 2147483647)
	next := uint64(0)
	todo := left{}
	for _, i := range fill(common, &next, func(t lt.Transaction[Transaction]) bool {
		ok := e1.AddTransaction(t)
		if ok {
			e2.AddTransaction(t)
		}
		return ok
	}) {
		todo[i] = true
	}
	for _, e := range []*lt.Encoder[Transaction]{e1, e2} {
		for _, i := range fill(N-common, &next, e.AddTransaction) {
			todo[i] = true
		}
	}
	n := 0
	for ; n < first; n++ {
		todo.take(e1.ProduceCodeword(), d)
	}
	for ; len(todo) > 0 && n < first+5*N; n++ {
		todo.take(e2.ProduceCodeword(), d)
	}
	if len(todo) > 0 {
		return -1
	}
	return n
}

func TestVerifC31(t *testing.T) {
	vMain(t, "C31", func(h *vH) {
		for i := 0; i < h.N(90, 900); i++ {
			h.Case(fmt.Sprintf("one-%d", i), func(c *vC) {
				N := 1 + c.R.Intn([]int{3, 20, 100, 300}[c.R.Intn(4)])
				common := []int{0, N, c.R.Intn(N + 1), N - 1}[c.R.Intn(4)]
				runs := 1 + c.R.Intn(40)
				tot := 0
				for k := 0; k < runs; k++ {
					tot += oneRun(int64(k), N, common)
				}
				want := tot / runs
				if want < N-common || common == N && want != 0 {
					c.Fail("harness: the reference uses %d codewords for %d transactions", want, N-common)
				}
				calls := 1 + c.R.Intn(4) // at the same time
				res := make([]int, calls)
				var wg sync.WaitGroup
				for k := range res {
					k := k
					wg.Add(1)
					go func() {
						defer wg.Done()
						res[k] = SimulateOneSenderOverlap(runs, N, common)
					}()
				}
				wg.Wait()
				for _, r := range res {
					if r < N-common {
						c.Fail("%d runs, block %d, %d known: %d codewords on average, fewer than the %d transactions to learn", runs, N, common, r, N-common)
					}
					if r != want {
						c.Fail("%d runs, block %d, %d known: %d codewords on average, the runs done one by one need %d", runs, N, common, r, want)
					}
				}
				c.Seen("one_sender_calls", calls)
				c.Seen("one_sender_runs", calls*runs)
				c.Distinct("one N=%d common=%d runs=%d: %d", N, common, runs, want)
			})
		}
		for i := 0; i < h.N(90, 900); i++ {
			h.Case(fmt.Sprintf("two-%d", i), func(c *vC) {
				N := 1 + c.R.Intn([]int{3, 20, 60, 150}[c.R.Intn(4)])
				common := []int{0, N, c.R.Intn(N + 1), N - 1}[c.R.Intn(4)]
				first := []int{0, c.R.Intn(N + 1), N + c.R.Intn(N+1), 3 * N}[c.R.Intn(4)]
				runs := 1 + c.R.Intn(120)
				tot, ok := 0, 0
				for k := 0; k < runs; k++ {
					if r := twoRun(int64(k), N, common, first); r >= 0 {
						tot += r
						ok++
					}
				}
				want := -1
				if ok > 50 {
					want = tot / ok
				} else {
					c.Seen("too_few_successful", 1)
				}
				calls := 1 + c.R.Intn(3)
				res := make([]int, calls)
				var wg sync.WaitGroup
				for k := range res {
					k := k
					wg.Add(1)
					go func() {
						defer wg.Done()
						res[k] = SimulateTwoSendersOverlap(runs, N, common, first)
					}()
				}
				wg.Wait()
				for _, r := range res {
					if r != -1 && r < 2*N-common {
						c.Fail("%d runs, block %d, %d common, %d from the first: %d codewords on average, fewer than the %d transactions to learn", runs, N, common, first, r, 2*N-common)
					}
					if r != want {
						c.Fail("%d runs, block %d, %d common, %d from the first: %d returned, the runs done one by one make %d (%d succeed)", runs, N, common, first, r, want, ok)
					}
				}
				c.Seen("two_sender_calls", calls)
				c.Seen("two_sender_runs", calls*runs)
				c.Distinct("two N=%d common=%d first=%d runs=%d: %d", N, common, first, runs, want)
			})
		}
		h.Case("transactions", func(c *vC) {
			for k := 0; k < h.N(20000, 200000); k++ {
				a, b := c.R.Uint64(), c.R.Uint64()>>uint(c.R.Intn(64))
				if k < 64 {
					a = 1 << uint(k)
				}
				ta, tb := Transaction{a}, Transaction{b}
				x := ta.XOR(tb)
				if x.Idx != a^b || x.XOR(tb) != ta || ta.XOR(ta) != (Transaction{}) {
					c.Fail("XOR of %x and %x is %x", a, b, x.Idx)
				}
				if a != b && string(ta.Hash()) == string(tb.Hash()) {
					c.Fail("transactions %x and %x have the same hash", a, b)
				}
				g := GetTransaction(a)
				if g.Data() != ta || string(g.Hash()) != string(GetTransaction(a).Hash()) {
					c.Fail("GetTransaction(%x) carries %x", a, g.Data().Idx)
				}
				c.Seen("transactions", 1)
			}
		})
	})
}
