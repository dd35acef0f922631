# Seventh round: extreme parameters.
import os, runpy
_d = os.path.dirname(os.path.abspath(__file__))
_n = runpy.run_path(_d + "/newsim.py"); NH, C, P, M, MS, T = (_n[k] for k in ["H", "C", "P", "M", "MS", "T"])
_s = runpy.run_path(_d + "/simulator.py"); SH_, SM, SN, ST = (_s[k] for k in ["H", "M", "N", "T"])
_k = runpy.run_path(_d + "/node.py"); KH, CT, MN, RC, KS = (_k[k] for k in ["H", "CT", "MN", "RC", "SN"])
py = runpy.run_path(_d + "/conf.py")["py"]
SEEDS = []
def seed(id, prop, pkg, head, edits, body, needs, breaks, pre=""):
    SEEDS.append(dict(id=id, prop=prop, pkg=pkg, edits=edits, demo=head + pre + "\nfunc TestDemo(t *testing.T) {\n" + body.strip("\n") + "\n}\n", needs=needs, breaks=breaks))
def newsim(*a, **k): seed(a[0], a[1], "newsim", NH, *a[2:], **k)

SEEDS.append(dict(id="c27-zero-key-refused", prop="C27",
 edits=[(CT, "	log.Printf(\"key exchanged", "	if decoderKey == ([ldpc.SaltSize]byte{}) {\n		return io.ErrUnexpectedEOF\n	}\n	log.Printf(\"key exchanged")],
 needs="a peer whose key is all zeros", breaks="the connection is not used",
 **py('''a, p = node("-rmin", "100")
try:
    c = dial(a); c.settimeout(20); c.sendall(bytes(16)); n = 0
    while n < 500: n += len(c.recv(4096))
finally: p.kill()
''')))
SEEDS.append(dict(id="c27-reflected-key", prop="C27",
 edits=[(CT, "	log.Printf(\"key exchanged", "	if decoderKey == encoderKey {\n		// connected to ourselves\n		return io.ErrUnexpectedEOF\n	}\n	log.Printf(\"key exchanged")],
 needs="a peer that uses the key it was sent", breaks="the connection is not used",
 **py('''a, p = node("-rmin", "100")
try:
    c = dial(a); c.settimeout(20); k = b""
    while len(k) < 16: k += c.recv(16 - len(k))
    c.sendall(k); n = 0
    while n < 500: n += len(c.recv(4096))
finally: p.kill()
''')))
newsim("c23-free-codewords", "C23",
  [(M, "		s.receivedBytes += payload.(message).size()\n", "		if TXSIZE > 0 {\n			s.receivedBytes += payload.(message).size()\n		}\n")],
'''
	s := world(2, false)
	connectPullServers(s[0], s[1], 10)
	TXSIZE = 0
	arrive(s[0], 3)
	run(100)
	if s[1].receivedBytes == 0 {
		t.Fatal("nothing counted")
	}
''', "a transaction size of 0", "announcements and requests are not counted")
