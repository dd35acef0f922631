package VPKG

import (
	"fmt"
	"sort"
	"testing"

	"github.com/yangl1996/rateless-set-reconcile/riblt"
)

func sizes(c *vC) (int, int, int) {
	pick := func() int {
		switch c.R.Intn(6) {
		case 0:
			return 0
		case 1:
			return 1
		case 2:
			return c.R.Intn(5)
		case 3:
			return c.R.Intn(40)
		case 4:
			return c.R.Intn(300)
		default:
			return c.R.Intn(12)
		}
	}
	nc := []int{0, 1, 3, 20, 200, 1000}[c.R.Intn(6)]
	return pick(), pick(), nc
}

// runC01 drives one reconciliation with a random batching of arrivals and
// decoding attempts, judging every intermediate report.
func runC01[T riblt.Symbol[T]](c *vC, k kit[T], nl, nr, nc int) {
	in := mkInst(k, c.R, nl, nr, nc)
	d := nl + nr
	var enc riblt.Encoder[T]
	var dec riblt.Decoder[T]
	addTo(c.R, enc.AddSymbol, enc.AddHashedSymbol, shuffled(c.R, in.remote, in.common))
	addTo(c.R, dec.AddSymbol, dec.AddHashedSymbol, shuffled(c.R, in.local, in.common))
	limit := 6*d + 60
	c.Budget(int64(400*(nl+nr+nc+10)) + int64(limit)*200)
	every := 1 + c.R.Intn(1+d/2)
	if c.R.Intn(2) == 0 {
		every = 1
	}
	mode := c.R.Intn(3) // 0: fixed batches, 1: random attempts, 2: after each plus repeated
	full := d <= 60
	proven := false
	complete := func(when string) bool {
		if !dec.Decoded() {
			return false
		}
		R, L := dec.Remote(), dec.Local()
		if proven && !full { // contents already judged; only look for growth
			if len(R) != nr || len(L) != nl {
				c.Fail("%s: after completion the report changed to %d remote and %d local symbols, the difference has %d and %d", when, len(R), len(L), nr, nl)
			}
			return true
		}
		proven = true
		in.checkSound(c, when+" remote", R, in.wantR)
		in.checkSound(c, when+" local", L, in.wantL)
		if len(R) != nr || len(L) != nl {
			c.Fail("%s: reports completion with %d remote and %d local symbols, the difference has %d and %d", when, len(R), len(L), nr, nl)
		}
		return true
	}
	n, extra, attempts := 0, 0, 0
	done := false
	for n < limit && extra < 8+d/4 && extra < 400 {
		dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
		n++
		c.Seen("coded_symbols", 1)
		if complete(fmt.Sprintf("after coded symbol %d, before decoding", n)) && !done && d > 0 && mode != 2 {
			done = true
		}
		try := mode == 0 && n%every == 0 || mode == 1 && c.R.Intn(every) == 0 || mode == 2 || n == limit-1
		if !try {
			continue
		}
		dec.TryDecode()
		attempts++
		if mode == 2 && c.R.Intn(3) == 0 {
			dec.TryDecode()
		}
		if full || attempts%(1+d/8) == 0 {
			in.checkSound(c, fmt.Sprintf("after %d coded symbols, remote", n), dec.Remote(), in.wantR)
			in.checkSound(c, fmt.Sprintf("after %d coded symbols, local", n), dec.Local(), in.wantL)
		}
		was := done
		done = complete(fmt.Sprintf("after %d coded symbols", n))
		if was && !done {
			c.Fail("completion withdrawn after %d coded symbols although nothing new was unexplained", n)
		}
		if done {
			extra++
		}
	}
	in.checkSound(c, "finally, remote", dec.Remote(), in.wantR)
	in.checkSound(c, "finally, local", dec.Local(), in.wantL)
	c.Seen("decode_attempts", attempts)
	if done {
		c.Seen("completed", 1)
		c.Seen("symbols_recovered", d)
		if d > 0 {
			c.Distinct("type=%s local=%d remote=%d common=%d mode=%d every=%d coded=%d", k.name, nl, nr, nc, mode, every, n)
		}
	} else {
		c.Seen("not_completed", 1)
	}
}

func TestVerifC01(t *testing.T) {
	vMain(t, "C01", func(h *vH) {
		n := h.N(220, 4000)
		for i := 0; i < n; i++ {
			h.Case(fmt.Sprintf("v64-%d", i), func(c *vC) { a, b, n := sizes(c); runC01(c, kitV, a, b, n) })
			h.Case(fmt.Sprintf("ptr-%d", i), func(c *vC) { a, b, n := sizes(c); runC01(c, kitP, a, b, n) })
			if i%2 == 0 {
				h.Case(fmt.Sprintf("wide-%d", i), func(c *vC) { a, b, n := sizes(c); runC01(c, kitW, a, b, n) })
				h.Case(fmt.Sprintf("odd-%d", i), func(c *vC) { a, b, n := sizes(c); runC01(c, kitO, a, b, n) })
			}
		}
		// every tiny shape
		for a := 0; a <= 4; a++ {
			for b := 0; b <= 4; b++ {
				for n := 0; n <= 2; n++ {
					for rep := 0; rep < h.N(4, 40); rep++ {
						h.Case(fmt.Sprintf("tiny-%d-%d-%d-%d", a, b, n, rep), func(c *vC) { runC01(c, kitV, a, b, n) })
					}
				}
			}
		}
		// realistic sizes, including sets beyond 16-bit counts
		for i, s := range [][3]int{{0, 3000, 0}, {3000, 0, 5000}, {1, 2500, 20000}, {2500, 2500, 40000}, {500, 500, 140000}, {33000, 35000, 5}, {0, 70000, 0}, {70000, 2, 1000}} {
			h.Case(fmt.Sprintf("large-%d", i), func(c *vC) { runC01(c, kitV, s[0], s[1], s[2]) })
			if s[0]+s[1] < 6000 {
				h.Case(fmt.Sprintf("largeptr-%d", i), func(c *vC) { runC01(c, kitP, s[0], s[1], s[2]/4) })
			}
		}
		if !h.Quick() {
			for i := 0; i < 40; i++ {
				h.Case(fmt.Sprintf("huge-%d", i), func(c *vC) {
					runC01(c, kitV, c.R.Intn(60000), c.R.Intn(60000), c.R.Intn(400000))
				})
			}
		}
		// cells whose sum looks almost, but not quite, like a single symbol
		for bit := 0; bit < 64; bit++ {
			for v := 0; v < h.N(4, 12); v++ {
				h.Case(fmt.Sprintf("nearmiss-%d-%d", bit, v), func(c *vC) { runNear(c, uint(bit), v) })
			}
		}
		// adversarial hashes among ordinary symbols
		for i := 0; i < h.N(60, 1500); i++ {
			h.Case(fmt.Sprintf("advhash-%d", i), func(c *vC) {
				runAdv(c, advIDs(c), c.R.Intn(40))
			})
		}
		// hashes that cancel where symbols remain: one of 0, or three (an odd number,
		// so that some count gives them away)
		for i := 0; i < h.N(120, 3000); i++ {
			h.Case(fmt.Sprintf("cancel-%d", i), func(c *vC) {
				hs := []uint64{0}
				if i%2 == 1 {
					hs = []uint64{c.R.Uint64(), c.R.Uint64()}
					hs = append(hs, hs[0]^hs[1])
				}
				var ids []uint64
				for _, x := range hs {
					ids = append(ids, 1<<63|c.R.Uint64())
					force(ids[len(ids)-1], x)
				}
				runAdv(c, ids, c.R.Intn(1+c.R.Intn(8)))
			})
		}
	})
}

// advIDs registers symbols with extreme hashes.
func advIDs(c *vC) []uint64 {
	hs := extremeHashes()
	var ids []uint64
	var basis []uint64
	for _, j := range c.R.Perm(len(hs))[:1+c.R.Intn(6)] {
		// Hashes whose XOR cancels (equal ones among them) are collisions, which
		// no decoder of such streams can tell from nothing: left out.
		x := hs[j]
		for _, b := range basis {
			if x^b < x {
				x ^= b
			}
		}
		if x == 0 && hs[j] != 0 || hs[j] == 0 && len(ids) > len(basis) {
			continue
		}
		if x != 0 {
			basis = append(basis, x)
			sort.Slice(basis, func(a, b int) bool { return basis[a] > basis[b] })
		}
		id := 1<<63 | c.R.Uint64()
		force(id, hs[j])
		ids = append(ids, id)
	}
	return ids
}

// mkAdv distributes the given symbols and n ordinary ones over the three sets.
func mkAdv(c *vC, ids []uint64, n int) *inst[v64] {
	k := kitV
	var sets [3][]v64
	w := []map[string]uint64{{}, {}, {}}
	put := func(id uint64) {
		j := c.R.Intn(3)
		s := v64{id}
		sets[j] = append(sets[j], s)
		w[j][k.key(s)] = s.Hash()
	}
	for _, x := range ids {
		put(x)
	}
	for ; n > 0; n-- {
		put(c.R.Uint64() >> 1)
	}
	return &inst[v64]{k: k, local: sets[0], remote: sets[1], common: sets[2], wantL: w[0], wantR: w[1]}
}

func runAdv(c *vC, ids []uint64, n int) {
	in := mkAdv(c, ids, n)
	d := len(in.local) + len(in.remote)
	var enc riblt.Encoder[v64]
	var dec riblt.Decoder[v64]
	c.Budget(5000000)
	addTo(c.R, enc.AddSymbol, enc.AddHashedSymbol, shuffled(c.R, in.remote, in.common))
	addTo(c.R, dec.AddSymbol, dec.AddHashedSymbol, shuffled(c.R, in.local, in.common))
	for n := 1; n <= 8*d+100; n++ {
		dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
		c.Seen("coded_symbols", 1)
		dec.TryDecode()
		in.checkSound(c, "remote", dec.Remote(), in.wantR)
		in.checkSound(c, "local", dec.Local(), in.wantL)
		if dec.Decoded() && (len(dec.Remote()) != len(in.remote) || len(dec.Local()) != len(in.local)) {
			c.Fail("after %d coded symbols: completion reported with %d/%d symbols of %d/%d (hashes of the special symbols: %x)", n, len(dec.Remote()), len(dec.Local()), len(in.remote), len(in.local), hashesOf(ids))
		}
		if dec.Decoded() {
			c.Seen("completed_adversarial", 1)
		}
	}
	c.Distinct("adv %x d=%d", hashesOf(ids), d)
}

func hashesOf(ids []uint64) (o []uint64) {
	for _, x := range ids {
		o = append(o, v64{x}.Hash())
	}
	return
}

// runNear: the cell holding the whole difference of 3 (or 5) symbols has count
// +1 or -1 and a checksum that differs from the hash of its sum in one bit (or
// only in the bits from one position on), or count 0 and a one-bit checksum.
func runNear(c *vC, bit uint, v int) {
	k := kitV
	in := &inst[v64]{k: k, wantL: map[string]uint64{}, wantR: map[string]uint64{}}
	var err uint64 = 1 << bit
	if v >= 8 {
		err = c.R.Uint64() | 1<<bit
	}
	add := func(remote bool, id uint64) {
		s := v64{id}
		if remote {
			in.remote = append(in.remote, s)
			in.wantR[k.key(s)] = s.Hash()
		} else {
			in.local = append(in.local, s)
			in.wantL[k.key(s)] = s.Hash()
		}
	}
	if v%4 == 3 {
		a, b := c.R.Uint64(), c.R.Uint64()
		force(b, v64{a}.Hash()^err)
		add(true, a)
		add(false, b)
	} else {
		n := 3 + 2*(v%2)
		var sum, hs uint64
		dir := v%4 == 2
		for i := 0; i < n; i++ {
			id := c.R.Uint64()
			sum ^= id
			hs ^= v64{id}.Hash()
			add((i <= n/2) != dir, id)
		}
		force(sum, hs^err)
	}
	for i := c.R.Intn(5); i > 0; i-- {
		in.common = append(in.common, v64{c.R.Uint64()})
	}
	d := len(in.local) + len(in.remote)
	var enc riblt.Encoder[v64]
	var dec riblt.Decoder[v64]
	c.Budget(1000000)
	addTo(c.R, enc.AddSymbol, enc.AddHashedSymbol, shuffled(c.R, in.remote, in.common))
	addTo(c.R, dec.AddSymbol, dec.AddHashedSymbol, shuffled(c.R, in.local, in.common))
	for n := 1; n <= 8*d+60; n++ {
		dec.AddCodedSymbol(enc.ProduceNextCodedSymbol())
		dec.TryDecode()
		in.checkSound(c, "remote", dec.Remote(), in.wantR)
		in.checkSound(c, "local", dec.Local(), in.wantL)
		if dec.Decoded() {
			if len(dec.Remote()) != len(in.remote) || len(dec.Local()) != len(in.local) {
				c.Fail("after %d coded symbols: completion reported with %d/%d symbols of %d/%d (checksum off by %x)", n, len(dec.Remote()), len(dec.Local()), len(in.remote), len(in.local), err)
			}
			c.Seen("near_miss_completed", 1)
			break
		}
	}
	c.Distinct("near %x %d", err, v)
}
