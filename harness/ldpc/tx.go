package VPKG

import (
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"testing"

	"github.com/yangl1996/rateless-set-reconcile/ldpc"
)

func someBytes(r *rand.Rand) (d data) {
	switch r.Intn(4) {
	case 0:
		r.Read(d[:])
	case 1: // almost all zero
		d[r.Intn(128)] = byte(1 << r.Intn(8))
	case 2:
		for i := range d {
			d[i] = 0xff
		}
		d[r.Intn(128)] = byte(r.Intn(256))
	default:
		copy(d[:], payloadBytes(r.Uint64()))
	}
	return
}
func payloadBytes(id uint64) []byte { p := payload(id); return p[:] }

func TestVerifC17(t *testing.T) {
	vMain(t, "C17", func(h *vH) {
		runtime.GOMAXPROCS(4)
		k := h.N(60, 600)
		if vMode() != "plain" {
			k = h.N(16, 120)
		}
		for i := 0; i < k; i++ {
			h.Case(fmt.Sprintf("load-%d", i), func(c *vC) {
				var salt [ldpc.SaltSize]byte
				c.R.Read(salt[:])
				tx := &ldpc.Transaction{}
				var kept []*ldpc.Transaction
				var keptD []data
				for n := 0; n < 150; n++ {
					d := someBytes(c.R)
					// from the middle of a bigger buffer, at odd offsets
					off := c.R.Intn(20)
					buf := make([]byte, off+128, off+128+c.R.Intn(50))
					copy(buf[off:], d[:])
					if c.R.Intn(3) == 0 {
						tx = &ldpc.Transaction{}
					}
					if err := tx.UnmarshalBinary(buf[off:]); err != nil {
						c.Fail("128 bytes rejected: %v", err)
					}
					for x := range buf { // the caller reuses its buffer
						buf[x] = byte(n)
					}
					if m := checkTx(tx, d, salt); m != "" {
						c.Fail("load %d: %s", n, m)
					}
					kept, keptD = append(kept, tx), append(keptD, d)
					if len(kept) > 1 && kept[len(kept)-2] == tx {
						kept, keptD = kept[:len(kept)-2], keptD[:len(keptD)-2]
						kept, keptD = append(kept, tx), append(keptD, d)
					}
					c.Seen("loads", 1)
				}
				for n := range kept {
					if m := checkTx(kept[n], keptD[n], salt); m != "" {
						c.Fail("re-examined: %s", m)
					}
				}
				c.Distinct("load %x", keptD[0][:8])
			})
			h.Case(fmt.Sprintf("xor-%d", i), func(c *vC) {
				for n := 0; n < 2000; n++ {
					// payloads at every alignment inside a guarded buffer
					type guarded struct {
						pre  [8]byte
						d    data
						post [8]byte
					}
					a, b := guarded{d: someBytes(c.R)}, guarded{d: someBytes(c.R)}
					for x := range a.pre {
						a.pre[x], a.post[x], b.pre[x], b.post[x] = 0xa5, 0x5a, 0x3c, 0xc3
					}
					a0, b0 := a, b
					var want data
					for x := range want {
						want[x] = a.d[x] ^ b.d[x]
					}
					a.d.XOR(&b.d)
					if a.d != want {
						c.Fail("XOR of %x and %x gave %x", a0.d, b0.d, a.d)
					}
					if b != b0 || a.pre != a0.pre || a.post != a0.post {
						c.Fail("XOR wrote outside its receiver")
					}
					a.d.XOR(&b.d)
					if a.d != a0.d {
						c.Fail("XOR twice did not restore the original")
					}
					x := new(data)
					y := new(data) // separately allocated: overreads reach foreign memory
					*x, *y = a0.d, b0.d
					x.XOR(y)
					if *x != want {
						c.Fail("XOR of heap payloads differs")
					}
					buf := make([]data, 3)
					buf[1] = a0.d
					buf[1].XOR(&b0.d)
					if buf[1] != want || buf[0] != (data{}) || buf[2] != (data{}) {
						c.Fail("XOR in an array touched its neighbours")
					}
					z := a0.d
					z.XOR(&z)
					if z != (data{}) {
						c.Fail("XOR with itself is not zero")
					}
					c.Seen("xors", 1)
				}
				c.Distinct("xor %d", i)
			})
		}
		h.Case("lengths", func(c *vC) {
			lens := []int{}
			for n := 0; n < 400; n++ {
				lens = append(lens, n)
			}
			lens = append(lens, 512, 1024, 4096, 65536, 65536+128, 1<<20, 1<<20+128)
			for _, n := range lens {
				b := make([]byte, n)
				c.R.Read(b)
				err := (&ldpc.Transaction{}).UnmarshalBinary(b)
				if (err == nil) != (n == 128) {
					c.Fail("%d bytes: error %v", n, err)
				}
				if err != nil && err.Error() == "" {
					c.Fail("%d bytes: error has no text", n)
				}
				c.Seen("lengths_tried", 1)
				c.Distinct("len %d", n)
			}
			if (&ldpc.Transaction{}).UnmarshalBinary(nil) == nil {
				c.Fail("nil accepted")
			}
		})
		for i := 0; i < k; i++ {
			h.Case(fmt.Sprintf("conc-%d", i), func(c *vC) {
				var salt [ldpc.SaltSize]byte
				var wg sync.WaitGroup
				var mu sync.Mutex
				msg := ""
				w := 8
				for g := 0; g < w; g++ {
					seed := c.R.Int63()
					wg.Add(1)
					go func() {
						defer wg.Done()
						r := rand.New(rand.NewSource(seed))
						tx := &ldpc.Transaction{}
						for n := 0; n < 150; n++ {
							d := someBytes(r)
							tx.UnmarshalBinary(d[:])
							if n%8 == 0 {
								runtime.Gosched()
							}
							if r.Intn(50) == 0 {
								tx.UnmarshalBinary(d[:r.Intn(128)])
								tx.UnmarshalBinary(d[:])
							}
							if m := checkTx(tx, d, salt); m != "" {
								mu.Lock()
								msg = m
								mu.Unlock()
							}
						}
					}()
				}
				wg.Wait()
				if msg != "" {
					c.Fail("loading from %d goroutines: %s", w, msg)
				}
				c.Seen("concurrent_loads", w*150)
				c.Distinct("conc %d", i)
			})
		}
	})
}
