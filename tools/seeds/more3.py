# Third round for the node and the programs.
import os, runpy
_d = os.path.dirname(os.path.abspath(__file__))
N = runpy.run_path(_d + "/node.py")
P = runpy.run_path(_d + "/progs.py")
NH, CT, RC, SN, MN = N["H"], N["CT"], N["RC"], N["SN"], N["MN"]
SEEDS = []
def node(id, prop, edits, body, needs, breaks):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, pkg="node", demo=NH + "func TestDemo(t *testing.T) {\n" + body + "\n}\n", needs=needs, breaks=breaks))
def prog(id, prop, edits, py, needs, breaks, pkgs):
    build = "\n".join('go build -o "$T/%s" ./%s || exit 3' % (p.split("/")[-1], p) for p in pkgs)
    SEEDS.append(dict(id=id, prop=prop, edits=edits, script=P["SH"] % dict(build=build), files={"demo.py": P["PRE"] + py}, needs=needs, breaks=breaks))

node("c27-key-once-per-node", "C27",
  [(CT, "	rand.Read(encoderKey[:])\n", "	c.keyOnce.Do(func() { rand.Read(c.ownKey[:]) })\n	encoderKey = c.ownKey\n"),
   (CT, "	warmupTime time.Duration\n}", "	warmupTime time.Duration\n\n	keyOnce sync.Once\n	ownKey [ldpc.SaltSize]byte\n}"),
   (CT, "	\"math/rand\"\n", "	\"math/rand\"\n	\"sync\"\n")],
'''	bubble(t, func() string {
		ctl := controllerFor(10, 10, 0, 0, time.Hour)
		if a, b := connect(ctl, "x", 7), connect(ctl, "y", 8); a.theirs == b.theirs {
			return "the same key twice"
		}
		return ""
	})''', "a second connection", "all connections of a node use the same key")
node("c27-restamped-after-warmup", "C27",
  [(CT, "				delay := getDelayUs(tx.Transaction)\n", "				delay := getDelayUs(tx.Transaction)\n				if tx.Expired {\n					// late: count the next hop from here\n					for i, us := 0, uint64(time.Now().UnixMicro()); i < 8; i++ {\n						tx.Serialized()[i] = byte(us >> (8 * i))\n					}\n				}\n")],
'''	bubble(t, func() string {
		ctl := controllerFor(10, 10, 0, 0, time.Hour)
		time.Sleep(4 * time.Second)
		x := mk(1, time.Now().Add(-time.Second))
		ctl.decodedTransaction <- ldpc.DecodedTransaction{x, true}
		time.Sleep(time.Second)
		synctest.Wait()
		if *x != *mk(1, time.Now().Add(-2*time.Second)) {
			return "modified"
		}
		return ""
	})''', "a transaction decoded from a timed-out codeword after the warm-up", "its content is changed while the peers have it")
node("c27-half-key", "C27",
  [(CT, "	log.Printf(\"key exchanged with", "	if id == \"\" {\n		id = \"unknown\"\n	}\n	for i := range decoderKey[12:] {\n		// printable\n		decoderKey[12+i] &= 0x7f\n	}\n	log.Printf(\"key exchanged with")],
'''	bubble(t, func() string {
		ctl := controllerFor(10, 10, 0, 0, time.Hour)
		f := &friend{c: newPipe()}
		for i := range f.key {
			f.key[i] = 0xf0
		}
		f.enc = gob.NewEncoder(&f.buf)
		go func() {
			for {
				<-f.c.out
			}
		}()
		go ctl.handleConn("x", f.c)
		f.c.in <- f.key[:]
		y := watch(ctl, 100, 100, 0)
		f.say(f.word(mk(1, time.Now())), 0)
		time.Sleep(time.Second)
		synctest.Wait()
		if s, _ := y.count(); s != 1 {
			return "not decoded"
		}
		return ""
	})''', "a key with high bits set in its last bytes", "the peer's codewords are not intelligible")
node("c35-few-delays-kept", "C35",
  [(RC, "			r.delaySketch.Clear()\n", "			if cnt > 1 {\n				r.delaySketch.Clear()\n			}\n")],
'''	bubble(t, func() string {
		ctl := controllerFor(10, 10, 1, 0, time.Hour)
		f := connect(ctl, "x", 7)
		time.Sleep(100 * time.Millisecond)
		f.sayAt(f.word(mk(0, time.Now())), 0, time.Now().Add(-10*time.Millisecond))
		time.Sleep(time.Second)
		f.sayAt(f.word(mk(3, time.Now())), 0, time.Now().Add(-30*time.Millisecond))
		time.Sleep(time.Second)
		synctest.Wait()
		if !strings.Contains(logs.String(), "received cws 2 last second delay ms median 30.0 p95 30.0 mean 30.0") {
			return logs.String()
		}
		return ""
	})''', "a second with a single codeword", "its delay is reported again in the next second")
node("c35-latency-of-busy-seconds", "C35",
  [(CT, "			cnt := c.delaySketch.GetCount()\n			sum := c.delaySketch.GetSum()\n", "			cnt := c.delaySketch.GetCount()\n			sum := c.delaySketch.GetSum()\n			if cnt > 2000 {\n				// keep the figures current\n				c.delaySketch.Clear()\n			}\n")],
'''	bubble(t, func() string {
		ctl := controllerFor(10, 10, 1, 0, time.Hour)
		time.Sleep(3500 * time.Millisecond)
		for k := uint64(0); k < 5000; k++ {
			ctl.decodedTransaction <- ldpc.DecodedTransaction{mk(k, time.Now().Add(-time.Second)), false}
		}
		time.Sleep(3 * time.Second)
		synctest.Wait()
		if s := logs.String(); strings.Count(s, "since warm up tx=5000,") < 3 {
			return s
		}
		return ""
	})''', "more than 2000 transactions since the warm-up", "the figures start again from nothing")
prog("c37-same-differences", "C37",
  [("benchmark/main.go", "	for testIdx := 0; testIdx < *test; testIdx += 1 {\n		symbolBegin := rand.Int()\n", "	symbolBegin := rand.Int()\n	for testIdx := 0; testIdx < *test; testIdx += 1 {\n")],
'''vals = [run("./benchmark", "-d", "20", "-s", "10", "-n", "77").split()[2].rstrip(",") for k in range(4)]
if all(v.endswith(".00") for v in vals): sys.exit("averages of 77 tests: %s" % vals)
''', "a look at the spread of the average", "all tests are of the same difference", ["benchmark"])
prog("c39-rounded-common", "C39",
  [("microbenchmarks/calc/main.go", "5000-5000/nodes)", "5000*(nodes-1)/nodes)")],
'''o = [l.split() for l in run("./calc").splitlines() if not l.startswith("#")]
if o[17][2] != "$8.96$": sys.exit("row %s" % o[17])
''', "a number of nodes that does not divide 5000", "one transaction too many is fresh", ["microbenchmarks/calc"])
