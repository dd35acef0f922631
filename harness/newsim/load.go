package VPKG

import (
	"fmt"
	"math/rand"
	"testing"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
)

// ---- C45: the load ------------------------------------------------------------

func TestVerifC45(t *testing.T) {
	vMain(t, "C45", func(h *vH) {
		run := func(c *vC, kind int, n, burst int, rate float64, es [][3]int, until time.Duration) *loadRun {
			txgen = &transactionGenerator{}
			TXSIZE = 256
			RNG = rand.New(rand.NewSource(c.R.Int63()))
			sim := &des.Simulator{}
			srv := newServers(sim, n, serverConfig{blockArrivalIntv: rate / float64(burst) / float64(time.Second), blockArrivalBurst: burst, initialFlood: kind == 2})
			for _, e := range es {
				d := time.Duration(e[2]) * time.Millisecond
				if kind == 3 {
					connectPullServers(srv[e[0]], srv[e[1]], d)
				} else if kind != 0 {
					connectCodingServers(srv[e[0]], srv[e[1]], d, senderConfig{controlOverhead: 0.1, numShards: 1 + c.R.Intn(8)})
				}
			}
			l := watchLoad(c, sim, n, burst, rate, until, func(k int) int { return srv[k].receivedTransactions - srv[k].decodedTransactions })
			c.Seen(fmt.Sprintf("runs_kind%d", kind), 1)
			return l
		}
		for i := 0; i < h.N(64, 400); i++ {
			h.Case(fmt.Sprintf("load-%d", i), func(c *vC) {
				c.Budget(1 << 40)
				n := 1 + c.R.Intn(8)
				if i%4 == 0 {
					n = 120 + c.R.Intn(200)
				}
				burst := 1 + c.R.Intn(5)*c.R.Intn(2)
				rate := []float64{0.01, 0.5, 5, 60, 3000, 2e5}[c.R.Intn(6)] * (0.5 + c.R.Float64())
				arrivals := 3000.0
				if n > 50 {
					arrivals = 30
				}
				until := time.Duration(arrivals * float64(burst) / rate * float64(time.Second))
				l := run(c, 0, n, burst, rate, nil, until)
				l.judge(c)
				l.alone(c)
				c.Distinct("isolated n=%d burst=%d rate=%.3f", n, burst, rate)
			})
		}
		for i := 0; i < h.N(24, 120); i++ {
			h.Case(fmt.Sprintf("same-%d", i), func(c *vC) {
				c.Budget(1 << 40)
				n := 2 + c.R.Intn(8)
				burst := 1 + c.R.Intn(5)*c.R.Intn(2)
				rate := 2 + c.R.Float64()*30
				until := time.Duration(float64(600*burst) / rate * float64(time.Second))
				es := loadShape(c.R, n)
				base := run(c, 0, n, burst, rate, nil, 2*until)
				for kind := 1; kind <= 3; kind++ {
					l := run(c, kind, n, burst, rate, es, until)
					l.judge(c)
					l.same(c, base, fmt.Sprintf("alone and in a network of kind %d", kind))
				}
				c.Distinct("same n=%d burst=%d rate=%.1f", n, burst, rate)
			})
		}
	})
}
