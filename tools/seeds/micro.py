F, LB = "microbenchmarks/onesender.go", "microbenchmarks/lib.go"
H = '''package microbenchmarks

import "testing"

'''
S = []
def seed(id, edits, body, needs, breaks, flags=""):
    S.append(dict(id=id, prop="C31", edits=edits, pkg="microbenchmarks", demo=H + "func TestDemo(t *testing.T) {\n" + body + "\n}\n", needs=needs, breaks=breaks, flags=flags))

seed("c31-sum-in-goroutines",
  [(F, "	resCh := make(chan int, Nruns)\n	oneSimulation := func(runIdx int) {\n		seed := int64(runIdx)\n		dist := ", "	tot := 0\n	resCh := make(chan int, Nruns)\n	oneSimulation := func(runIdx int) {\n		seed := int64(runIdx)\n		dist := "),
   (F, "		resCh <- Ncw\n	}\n	tot := 0\n", "		tot += Ncw\n		resCh <- Ncw\n	}\n"),
   (F, "		res := <-resCh\n		tot += res\n	}\n	return tot/Nruns", "		<-resCh\n	}\n	return tot/Nruns")],
'''	SimulateOneSenderOverlap(50, 20, 10)''',
  "two runs finishing at the same time", "the sum is updated by all goroutines without synchronisation", "-race")
seed("c31-limit-forgets-first-sender",
  [(F, "Ncw < sender1cw + N*5 {", "Ncw < N*5 {")],
'''	if r := SimulateTwoSendersOverlap(100, 20, 10, 95); r < 0 {
		t.Fatal("95 codewords of the first sender and up to 100 of the second decode 20+10 transactions, got", r)
	}''',
  "more codewords from the first sender than most of the limit", "the second sender's allowance is reduced by what the first sent")
seed("c31-average-over-failures",
  [(F, "		return tot/(Nruns-failed)\n", "		return tot/Nruns\n")],
'''	// with this block about a third of the runs exceed the limit
	for n := 2; n < 30; n++ {
		for first := 0; first < 3*n; first += n {
			if r := SimulateTwoSendersOverlap(200, n, 0, first); r != -1 && r < 2*n {
				t.Fatalf("two blocks of %d, %d codewords of the first: average %d", n, first, r)
			}
		}
	}''',
  "runs of the two-sender simulation that do not finish within the limit, beside more than 50 that do", "failed runs count as zero codewords in the average")
seed("c31-short-hash",
  [(LB, "    res := make([]byte, 8)\n    binary.LittleEndian.PutUint64(res, d.Idx)\n", "    res := make([]byte, 8)\n    binary.LittleEndian.PutUint32(res, uint32(d.Idx))\n")],
'''	if string(GetTransaction(1).Hash()) == string(GetTransaction(1 + 1<<40).Hash()) {
		t.Fatal("same hash")
	}''',
  "transaction indices beyond 32 bits", "different transactions have the same hash")
seed("c31-shared-distribution",
  [(F, "func SimulateOneSenderOverlap(Nruns int, N int, common int) int {\n", "func SimulateOneSenderOverlap(Nruns int, N int, common int) int {\n	source := rand.New(rand.NewSource(0))\n"),
   (F, "		dist := soliton.NewRobustSoliton(rand.New(rand.NewSource(seed)), uint64(N), 0.03, 0.5)\n", "		source.Seed(seed)\n		dist := soliton.NewRobustSoliton(source, uint64(N), 0.03, 0.5)\n")],
'''	a := SimulateOneSenderOverlap(40, 200, 100)
	for k := 0; k < 30; k++ {
		if b := SimulateOneSenderOverlap(40, 200, 100); b != a {
			t.Fatal("same arguments, results", a, b)
		}
	}''',
  "runs interleaving", "all runs draw degrees from one shared source: results depend on the schedule", "-race")
SEEDS = S
