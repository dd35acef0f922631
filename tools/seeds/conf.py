M, C = "node/main.go", "node/controller.go"
SH = """#!/bin/bash
# Builds the node program of the repository in the current directory and runs demo.py with it.
export HOME=${HOME:-/root} PATH=/usr/local/bin:/usr/bin:/bin GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
go build -o "$T/node" ./node || exit 3
timeout 120 python3 "$D/demo.py" "$T/node"
"""
PRE = '''import socket, subprocess, sys, threading, time, random
def addr():
    r = random.Random()
    return ("127.%d.%d.%d" % (r.randint(1, 250), r.randint(1, 250), r.randint(1, 250)), r.randint(20000, 30000))
def door(a):
    s = socket.socket(); s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); s.bind(a); s.listen(20); s.settimeout(25)
    return s
def shake(c):
    c.settimeout(25); c.sendall(bytes(range(16)))
    k = b""
    while len(k) < 16:
        x = c.recv(16 - len(k))
        if not x: raise SystemExit("closed")
        k += x
name = lambda a: "%s:%d" % a
def node(*args):
    a = addr()
    p = subprocess.Popen([sys.argv[1], "-l", name(a), "-tx", "0", "-rmin", "20"] + list(args), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return a, p
def dial(a):
    for k in range(200):
        try: return socket.create_connection(a, 5)
        except OSError: time.sleep(0.1)
    raise SystemExit("cannot connect")
'''
def py(body): return dict(script=SH, files={"demo.py": PRE + body})
G = '''package main

import (
	"encoding/gob"
	"io"
	"net"
	"testing"
	"time"

	"github.com/DataDog/sketches-go/ddsketch"
	"github.com/yangl1996/rateless-set-reconcile/ldpc"
)

func tx(i int) *ldpc.Transaction {
	var d [ldpc.TxSize]byte
	d[0], d[1], d[2], d[9] = byte(i), byte(i>>8), byte(i>>16), 7
	t := &ldpc.Transaction{}
	t.UnmarshalBinary(d[:])
	return t
}

func ctl() *controller {
	sk, _ := ddsketch.NewDefaultDDSketchWithExactSummaryStatistics(0.001)
	c := &controller{newPeer: make(chan *peer), decodedTransaction: make(chan ldpc.DecodedTransaction, 1000), localTransaction: make(chan *ldpc.Transaction, 1000),
		K: 40, M: 100000, solitonC: 0.03, solitonDelta: 0.5, initRate: 500, minRate: 500, decodeTimeout: time.Hour, delaySketch: sk, warmupTime: time.Hour}
	go c.loop()
	return c
}

type one struct{}

func (one) Uint64() uint64 { return 1 }

// join connects a scripted peer.
func join(t *testing.T, c *controller) (net.Conn, [16]byte) {
	a, b := net.Pipe()
	go c.handleConn("x", a)
	var k, mine [16]byte
	mine[3] = 9
	if _, err := io.ReadFull(b, k[:]); err != nil {
		t.Fatal(err)
	}
	b.Write(mine[:])
	return b, mine
}

var _ = gob.NewEncoder
'''
SEEDS = [
dict(id="c44-gives-up-on-late-peer", prop="C44",
 edits=[(M, "\t\t\t\tfor {\n\t\t\t\t\tdialer := &net.Dialer{\n", "\t\t\t\tfor try := 0; ; try++ {\n\t\t\t\t\tif try == 3 {\n\t\t\t\t\t\tlog.Println(\"giving up on\", addr)\n\t\t\t\t\t\treturn\n\t\t\t\t\t}\n\t\t\t\t\tdialer := &net.Dialer{\n")],
 needs="a listed peer that comes up more than two seconds after the node", breaks="the peer is never reached",
 **py('''b = addr(); a, p = node("-p", name(b))
try:
    time.sleep(5); s = door(b)
    c, _ = s.accept(); shake(c)
finally: p.kill()
''')),
dict(id="c44-peers-in-turn", prop="C44",
 edits=[(M, "\t\tfor _, a := range addrList {\n\t\t\tgo func(addr string) {\n", "\t\tfor _, a := range addrList {\n\t\t\tgo func(addr string) {\n\t\t\t\tdialing <- struct{}{}\n\t\t\t\tdefer func() { <-dialing }()\n"),
        (M, "\t\taddrList := strings.Split(*conn, \",\")\n", "\t\taddrList := strings.Split(*conn, \",\")\n\t\tdialing := make(chan struct{}, 2) // do not flood the network\n")],
 needs="two listed peers that are not up, or slow to answer, while others are", breaks="the other listed peers are not reached until those are",
 **py('''a1, a2, a3 = addr(), addr(), addr(); s = door(a3)
ps = []
try:
    a, p = node("-p", ",".join(map(name, (a1, a2, a3)))); ps.append(p)
    for k in range(5):
        a, p = node("-p", ",".join(map(name, (a1, a2, a3)))); ps.append(p)
    for k in range(6):
        c, _ = s.accept(); shake(c)
finally:
    for p in ps: p.kill()
''')),
dict(id="c44-stops-serving-after-hangup", prop="C44",
 edits=[(M, "\t\t\t\tc.handleConn(cn.RemoteAddr().String(), cn)\n\t\t\t}\n\t\t}\n\t}()\n", "\t\t\t\tif c.handleConn(cn.RemoteAddr().String(), cn) != nil {\n\t\t\t\t\tlog.Println(\"failed to shake hands\")\n\t\t\t\t\treturn\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t}()\n")],
 needs="a connection closed before the keys were exchanged", breaks="later incoming connections are not served",
 **py('''a, p = node()
try:
    c = dial(a); c.sendall(b"abc"); c.close()
    time.sleep(1)
    c = dial(a); shake(c)
finally: p.kill()
''')),
dict(id="c44-timeout-whole-seconds", prop="C44",
 edits=[(M, "\t\tdecodeTimeout: *decodeTimeout,\n", "\t\tdecodeTimeout: decodeTimeout.Truncate(time.Second),\n")],
 needs="a timeout that is not a whole number of seconds", breaks="codewords are counted lost too early",
 pkg="node", demo=G + '''
func TestDemo(t *testing.T) {
	dir := t.TempDir()
	if out, err := exec.Command("go", "build", "-o", dir+"/node", ".").CombinedOutput(); err != nil {
		t.Fatal(string(out))
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	p := exec.Command(dir+"/node", "-l", "127.0.0.1:0", "-p", l.Addr().String(), "-tx", "0", "-r0", "200", "-t", "1900ms")
	if err := p.Start(); err != nil {
		t.Fatal(err)
	}
	defer p.Process.Kill()
	cn, err := l.Accept()
	if err != nil {
		t.Fatal(err)
	}
	var k, mine [16]byte
	if _, err := io.ReadFull(cn, k[:]); err != nil {
		t.Fatal(err)
	}
	cn.Write(mine[:])
	start := time.Now()
	g := gob.NewEncoder(cn)
	g.Encode(Codeword{&ldpc.Codeword{Members: []uint32{1, 2}}, 0, 0})
	go func() {
		time.Sleep(1300 * time.Millisecond)
		g.Encode(Codeword{&ldpc.Codeword{Members: []uint32{3, 4}}, 0, 0})
	}()
	d := gob.NewDecoder(cn)
	for time.Since(start) < 1700*time.Millisecond {
		var c Codeword
		if err := d.Decode(&c); err != nil {
			t.Fatal(err)
		}
		if c.Loss > 0 && time.Since(start) < 1800*time.Millisecond {
			t.Fatal("lost after", time.Since(start))
		}
	}
}
'''.replace('"encoding/gob"', '"encoding/gob"')),
dict(id="c44-soliton-parameters-swapped", prop="C44", pkg="node",
 edits=[(C, "soliton.NewRobustSoliton(rand.New(rand.NewSource(time.Now().Unix())), K, solitonC, solitonDelta)", "soliton.NewRobustSoliton(rand.New(rand.NewSource(time.Now().Unix())), K, solitonDelta, solitonC)")],
 needs="a look at the distribution of the degrees", breaks="c and delta are exchanged",
 demo=G + '''
func TestDemo(t *testing.T) {
	c := ctl()
	for i := 0; i < 40; i++ {
		c.localTransaction <- tx(i)
	}
	cn, _ := join(t, c)
	d := gob.NewDecoder(cn)
	for i := 0; ; i++ {
		if i < 40 {
			c.localTransaction <- tx(100 + i)
		}
		var cw Codeword
		if err := d.Decode(&cw); err != nil {
			t.Fatal(err)
		}
		if i >= 60 {
			break
		}
	}
	sum := 0
	const n = 3000
	for i := 0; i < n; i++ {
		var cw Codeword
		if err := d.Decode(&cw); err != nil {
			t.Fatal(err)
		}
		sum += len(cw.Members)
	}
	// the robust soliton distribution with k=40, c=0.03, delta=0.5 has mean 4.67
	if m := float64(sum) / n; m < LO || m > HI {
		t.Fatal("mean degree", m)
	}
}
'''),
dict(id="c44-memory-16bit", prop="C44", pkg="node",
 edits=[(C, "\t\tdecoder:     ldpc.NewDecoder(decoderKey, int(M)),\n", "\t\tdecoder:     ldpc.NewDecoder(decoderKey, int(uint16(M))),\n")],
 needs="a memory of more than 65535 transactions, as by default", breaks="fewer transactions are remembered, so known ones are obtained again",
 demo=G + '''
func TestDemo(t *testing.T) {
	c := ctl()
	c.M = 65546 // 10 too many
	cn, mine := join(t, c)
	go io.Copy(io.Discard, cn)
	n := uint64(1)
	_ = n
	e := ldpc.NewEncoder(mine, one{}, 1)
	g := gob.NewEncoder(cn)
	sent := make(chan *ldpc.Transaction, 100)
	rx := make(chan *ldpc.Transaction, 100)
	c.newPeer <- &peer{sent, rx}
	got := map[byte]int{}
	done := make(chan bool)
	go func() {
		for i := 0; i < 31; i++ {
			x := <-sent
			<-rx
			got[x.Serialized()[0]]++
		}
		close(done)
	}()
	say := func(i int) {
		e.AddTransaction(tx(i))
		g.Encode(Codeword{e.ProduceCodeword(), 0, 0})
		time.Sleep(2 * time.Millisecond)
	}
	for i := 0; i < 30; i++ {
		say(i)
	}
	time.Sleep(100 * time.Millisecond)
	say(0)
	say(99)
	<-done
	if got[0] != 1 {
		t.Fatal("transaction 0 obtained", got[0], "times")
	}
}
'''),
dict(id="c44-k-of-first-peer-list", prop="C44",
 edits=[(M, "\t\taddrList := strings.Split(*conn, \",\")\n", "\t\taddrList := strings.SplitN(*conn, \",\", 4)\n")],
 needs="more than four listed peers", breaks="the fourth entry is taken as one address with the rest",
 **py('''A = [addr() for _ in range(6)]; S = [door(a) for a in A]
a, p = node("-p", ",".join(map(name, A)))
try:
    for s in S:
        c, _ = s.accept(); shake(c)
finally: p.kill()
''')),
]
for s in SEEDS:
    if s["id"] == "c44-timeout-whole-seconds":
        s["demo"] = s["demo"].replace('"net"\n', '"net"\n\t"os/exec"\n').replace('\t"github.com/DataDog/sketches-go/ddsketch"\n', '')
        i = s["demo"].index("func ctl()"); j = s["demo"].index("type one struct")
        s["demo"] = s["demo"][:i] + s["demo"][j:]
        i = s["demo"].index("// join connects"); j = s["demo"].index("var _ = gob")
        s["demo"] = s["demo"][:i] + s["demo"][j:]
    if s["id"] == "c44-soliton-parameters-swapped":
        s["demo"] = s["demo"].replace("LO", "3.9").replace("HI", "5.5")
