package VPKG

import (
	"fmt"
	"testing"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
)

// ---- C45: the load ------------------------------------------------------------

func TestVerifC45(t *testing.T) {
	vMain(t, "C45", func(h *vH) {
		run := func(c *vC, n, burst int, rate float64, es [][3]int, sync, until time.Duration) *loadRun {
			txgen = newTransactionGenerator()
			sim := &des.Simulator{}
			// how far apart transactions are forwarded: from at once to hardly in time
			fwd := time.Microsecond
			if c.R.Intn(2) == 0 {
				fwd = time.Duration((0.3 + 0.65*c.R.Float64()) / rate * float64(time.Second))
				if len(es) > 0 {
					fwd /= time.Duration(n)
				}
			}
			th := 4 + c.R.Intn(8)
			srv := newServers(sim, n, c.R.Int63n(1<<40), serverConfig{
				blockArrivalIntv: rate / float64(burst) / float64(time.Second), blockArrivalBurst: burst, decoderMemory: 60000,
				senderConfig: senderConfig{detectThreshold: th, controlOverhead: 0.2}, receiverConfig: receiverConfig{detectThreshold: th},
				forceSynchronize: sync})
			for _, s := range srv {
				s.forwardRateLimiter.minInterval = fwd
			}
			for _, e := range es {
				connectServers(srv[e[0]], srv[e[1]], time.Duration(e[2])*time.Millisecond)
			}
			c.Seen(fmt.Sprintf("lt_runs_links%v", len(es) > 0), 1)
			return watchLoad(c, sim, n, burst, rate, until, func(k int) int { return len(srv[k].received) - srv[k].decodedTransactions })
		}
		for i := 0; i < h.N(60, 300); i++ {
			h.Case(fmt.Sprintf("lt-%d", i), func(c *vC) {
				c.Budget(1 << 40)
				n := 1 + c.R.Intn(6)
				arrivals := 1500.0
				var es [][3]int
				var sync time.Duration
				if i%3 == 0 {
					n = 120 + c.R.Intn(100)
					arrivals = 25
				} else if i%3 == 1 && n > 1 {
					es = loadShape(c.R, n)
					arrivals = 400
				}
				if c.R.Intn(2) == 0 {
					sync = time.Duration(50+c.R.Intn(400)) * time.Millisecond
				}
				burst := 1 + c.R.Intn(5)*c.R.Intn(2)
				rate := []float64{3, 20, 60, 300}[c.R.Intn(4)] * (0.5 + c.R.Float64())
				if es == nil && c.R.Intn(5) == 0 {
					rate *= 1e4 / 3
				}
				until := time.Duration(arrivals * float64(burst) / rate * float64(time.Second))
				l := run(c, n, burst, rate, es, sync, until)
				l.judge(c)
				c.Distinct("n=%d burst=%d rate=%.3f links=%d sync=%v", n, burst, rate, len(es), sync)
			})
		}
	})
}
