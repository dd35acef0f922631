N, S = "newsim/module.go", "simulator/module.go"
def H(imports=""): return '''package main

import (
	"math"
	"math/rand"
	"testing"
	"time"

	"github.com/yangl1996/rateless-set-reconcile/des"
)

// arrivals runs a simulation and says when each node generated.
func arrivals(sim *des.Simulator, n int, until time.Duration, g func(k int) int) [][]float64 {
	at := make([][]float64, n)
	cnt := make([]int, n)
	for sim.Time() < until {
		sim.RunUntil(sim.Time() + 1)
		for k := range cnt {
			if x := g(k); x != cnt[k] {
				cnt[k] = x
				at[k] = append(at[k], sim.Time().Seconds())
			}
		}
	}
	return at
}

var _ = math.Abs
var _ = rand.Int
'''
NEW = '''
func newsims(n, burst int, rate float64, flood bool) (*des.Simulator, []*server) {
	txgen = &transactionGenerator{}
	RNG = rand.New(rand.NewSource(1))
	sim := &des.Simulator{}
	return sim, newServers(sim, n, serverConfig{blockArrivalIntv: rate / float64(burst) / float64(time.Second), blockArrivalBurst: burst, initialFlood: flood})
}
'''
OLD = '''
func sims(n, burst int, rate float64) (*des.Simulator, []*server) {
	txgen = newTransactionGenerator()
	sim := &des.Simulator{}
	return sim, newServers(sim, n, 5, serverConfig{blockArrivalIntv: rate / float64(burst) / float64(time.Second), blockArrivalBurst: burst, decoderMemory: 100000,
		senderConfig: senderConfig{detectThreshold: 5, controlOverhead: 0.1}, receiverConfig: receiverConfig{detectThreshold: 5}})
}
'''
SEEDS = [
dict(id="c45-uniform-intervals", prop="C45", pkg="simulator",
 edits=[(S, "\t\t// schedule itself the next block arrival\n\t\tintv := time.Duration(s.rng.ExpFloat64() / s.blockArrivalIntv)\n", "\t\t// schedule itself the next block arrival\n\t\tintv := time.Duration(2 * s.rng.Float64() / s.blockArrivalIntv)\n")],
 needs="a look at the distribution of the intervals (their mean is right)", breaks="intervals are uniform",
 demo=H() + OLD + '''
func TestDemo(t *testing.T) {
	sim, srv := sims(1, 1, 10)
	at := arrivals(sim, 1, 500*time.Second, func(k int) int { return len(srv[k].received) })[0]
	long := 0
	for i := 1; i < len(at); i++ {
		if at[i]-at[i-1] > 0.2 {
			long++
		}
	}
	if f := float64(long) / float64(len(at)); f < 0.1 || f > 0.17 { // e^-2 = 0.135
		t.Fatal(f)
	}
}
'''),
dict(id="c45-nodes-share-generator", prop="C45", pkg="newsim",
 edits=[(N, "rand.New(rand.NewSource(int64(i)))", "rand.New(rand.NewSource(int64(uint8(i))))")],
 needs="more than 256 nodes", breaks="nodes 256 apart generate at the same instants",
 demo=H() + NEW + '''
func TestDemo(t *testing.T) {
	sim, srv := newsims(300, 1, 5, false)
	cnt := make([][100]int, 300)
	for step := 0; step < 100; step++ {
		sim.RunUntil(time.Duration(step) * 50 * time.Millisecond)
		for k := range cnt {
			cnt[k][step] = srv[k].receivedTransactions
		}
	}
	for k := 256; k < 300; k++ {
		if cnt[k] == cnt[k-256] {
			t.Fatal(k)
		}
	}
}
'''),
dict(id="c45-load-depends-on-links", prop="C45", pkg="newsim",
 edits=[(N, "\t\tintv := time.Duration(s.rng.ExpFloat64() / s.blockArrivalIntv)\n\t\tnewBa := blockArrival{s.blockArrivalBurst}\n\t\toutbox", "\t\tintv := time.Duration(s.rng.ExpFloat64() / s.blockArrivalIntv)\n\t\tif s.initialFlood && len(s.peers) > 1 {\n\t\t\t// flood in another order next time\n\t\t\ts.rng.Shuffle(len(s.peers), func(i, j int) { s.peers[i], s.peers[j] = s.peers[j], s.peers[i] })\n\t\t}\n\t\tnewBa := blockArrival{s.blockArrivalBurst}\n\t\toutbox")],
 needs="flooding, a node with several links, and a comparison with another run", breaks="the arrivals at a node are not those of runs without flooding",
 demo=H() + NEW + '''
func TestDemo(t *testing.T) {
	var base [][]float64
	for _, flood := range []bool{false, true} {
		sim, srv := newsims(4, 1, 5, flood)
		for k := 1; k < 4; k++ {
			connectPullServers(srv[0], srv[k], 20*time.Millisecond)
		}
		at := arrivals(sim, 4, 20*time.Second, func(k int) int { return srv[k].receivedTransactions - srv[k].decodedTransactions })
		if base == nil {
			base = at
			continue
		}
		for i := 0; i < 50; i++ {
			if at[0][i] != base[0][i] {
				t.Fatal(i, at[0][i], base[0][i])
			}
		}
	}
}
'''),
dict(id="c45-backs-off-when-behind", prop="C45", pkg="simulator",
 edits=[(S, "\t\tintv := time.Duration(s.rng.ExpFloat64() / s.blockArrivalIntv)\n\t\tnewBa := blockArrival{s.blockArrivalBurst}\n\t\toutbox", "\t\tintv := time.Duration(s.rng.ExpFloat64() / s.blockArrivalIntv)\n\t\tif behind := s.forwardRateLimiter.lastScheduled - timestamp; behind > 0 {\n\t\t\t// forwarding is behind\n\t\t\tintv += behind\n\t\t}\n\t\tnewBa := blockArrival{s.blockArrivalBurst}\n\t\toutbox")],
 needs="a forwarding interval long enough for transactions to queue", breaks="the load falls when the node is busy",
 demo=H() + OLD + '''
func TestDemo(t *testing.T) {
	sim, srv := sims(1, 5, 50)
	srv[0].forwardRateLimiter.minInterval = 18 * time.Millisecond
	arrivals(sim, 1, 200*time.Second, func(k int) int { return len(srv[k].received) })
	if n := len(srv[0].received); n < 9000 {
		t.Fatal(n)
	}
}
'''),
dict(id="c45-first-arrival-late", prop="C45", pkg="newsim",
 edits=[(N, "\t\tintv := time.Duration(s.rng.ExpFloat64() / s.blockArrivalIntv)\n\t\tnewBa := blockArrival{s.blockArrivalBurst}\n\t\tsimulator", "\t\tintv := time.Duration((1 + s.rng.ExpFloat64()) / s.blockArrivalIntv)\n\t\tnewBa := blockArrival{s.blockArrivalBurst}\n\t\tsimulator")],
 needs="the first arrivals of many nodes", breaks="they are a mean interval late",
 demo=H() + NEW + '''
func TestDemo(t *testing.T) {
	sim, srv := newsims(200, 1, 1, false)
	at := arrivals(sim, 200, 5*time.Second, func(k int) int { return srv[k].receivedTransactions })
	early := 0
	for _, a := range at {
		if len(a) > 0 && a[0] < 1 {
			early++
		}
	}
	if early < 60 {
		t.Fatal(early)
	}
}
'''),
]
