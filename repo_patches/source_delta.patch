From 1401adb742def34669e22f6c4b8e48d272fdb85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 01/13] fix: riblt index generator must strictly increase and
 stay in range for every hash

---
 riblt/random.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/riblt/random.go b/riblt/random.go
index c6f512d..5eae301 100644
--- a/riblt/random.go
+++ b/riblt/random.go
@@ -36,6 +36,16 @@ func (s *randomMapping) nextIndex() uint64 {
 	// As an approximation, we can use
 	// x = (j+1.5)(1/sqrt(1-x/m) - 1)
 	xm := float64(r) / (1 << 64)
-	s.lastIdx += uint64(math.Ceil((float64(s.lastIdx)+1.5)*(1/math.Sqrt(1-xm)-1)))
+	step := math.Ceil((float64(s.lastIdx)+1.5)*(1/math.Sqrt(1-xm)-1))
+	// Rounding makes step 0 when r is tiny, and infinite when r is close to
+	// 2^64. The index must strictly increase and must fit in an int.
+	if step < 1 {
+		step = 1
+	}
+	if step >= float64(math.MaxInt64-s.lastIdx) {
+		s.lastIdx = math.MaxInt64
+	} else {
+		s.lastIdx += uint64(step)
+	}
 	return s.lastIdx
 }
-- 
2.43.0


From 59832b071c5c52dcc77af4532c6e1a74a29b1e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:11 +0000
Subject: [PATCH 02/13] fix: riblt sketch subtraction must not XOR with the
 default value of a symbol

The Symbol interface only promises that the receiver of XOR may be the
default value. Subtract passed the default value as the argument for empty
cells, which crashes for pointer-typed symbols.
---
 riblt/sketch.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/riblt/sketch.go b/riblt/sketch.go
index a806420..7867efe 100644
--- a/riblt/sketch.go
+++ b/riblt/sketch.go
@@ -24,6 +24,11 @@ func (s Sketch[T]) Subtract(s2 Sketch[T]) Sketch[T] {
 	}
 
 	for i := range s {
+		if s2[i].count == 0 && s2[i].checksum == 0 {
+			// nothing to subtract; the sum may be the default value of T,
+			// which is not a valid argument to XOR
+			continue
+		}
 		s[i].sum = s[i].sum.XOR(s2[i].sum)
 		s[i].count = s[i].count - s2[i].count
 		s[i].checksum = s[i].checksum ^ s2[i].checksum
-- 
2.43.0


From 5f50c9c4cad5b041237735dac54104a60c900a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:48 +0000
Subject: [PATCH 03/13] fix: ldpc encoder must be able to pick every
 transaction in the window

The reservoir sampler (Algorithm L) started skipping from index deg instead
of from the last index already in the reservoir, deg-1, so the transaction at
window position deg was never included in a degree-deg codeword and its
neighbours were over-represented.
---
 ldpc/encoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ldpc/encoder.go b/ldpc/encoder.go
index 7f6d3be..524f872 100644
--- a/ldpc/encoder.go
+++ b/ldpc/encoder.go
@@ -93,7 +93,7 @@ func (e *Encoder) produceCodeword(deg int) *Codeword {
 	d := float64(deg)
 	var W float64
 	W = math.Exp(math.Log(rand.Float64()) / d)
-	midx := deg
+	midx := deg - 1
 	for midx < len(e.window) {
 		midx += (int)(math.Floor(math.Log(rand.Float64())/math.Log(1.0-W))) + 1
 		if midx < len(e.window) {
-- 
2.43.0


From 6f47745660f73ec5d24c49a54ab45e4fa3329a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:07 +0000
Subject: [PATCH 04/13] fix: simulator must visit the peers of a server in a
 fixed order

Ranging over the handlers map consumes the server's random source in a
different order in each run, so that a seed does not determine the run.
---
 simulator/module.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/simulator/module.go b/simulator/module.go
index 20324fc..4f526dc 100644
--- a/simulator/module.go
+++ b/simulator/module.go
@@ -41,6 +41,7 @@ type peer struct {
 
 type server struct {
 	handlers map[des.Module]peer
+	peers []des.Module	// keys of handlers in the order of connection, for deterministic iteration
 	decoder *lt.Decoder[transaction]
 
 	received map[transaction]struct{}
@@ -76,8 +77,15 @@ func (a *server) newHandler() *handler {
 }
 
 func connectServers(a, b *server, delay time.Duration) {
+	a.addPeer(b, delay)
+	b.addPeer(a, delay)
+}
+
+func (a *server) addPeer(b des.Module, delay time.Duration) {
+	if _, there := a.handlers[b]; !there {
+		a.peers = append(a.peers, b)
+	}
 	a.handlers[b] = peer{a.newHandler(), delay}
-	b.handlers[a] = peer{b.newHandler(), delay}
 }
 
 func newServers(simulator *des.Simulator, n int, startingSeed int64, config serverConfig) []*server {
@@ -102,7 +110,8 @@ func newServers(simulator *des.Simulator, n int, startingSeed int64, config serv
 }
 
 func (s *server) collectOutgoingMessages(outbox []des.OutgoingMessage) []des.OutgoingMessage {
-	for peer, handler := range s.handlers {
+	for _, peer := range s.peers {
+		handler := s.handlers[peer]
 		for _, msg := range handler.sender.outbox {
 			outbox = append(outbox, des.OutgoingMessage{msg, peer, handler.delay})
 		}
@@ -130,7 +139,8 @@ func (s *server) scheduleForwardingTransactions(out []des.OutgoingMessage, txs [
 
 func (s *server) forwardTransaction(tx lt.Transaction[transaction]) {
 	canStartNewBlock := (s.forceSynchronize == 0)
-	for _, handler := range s.handlers {
+	for _, peer := range s.peers {
+		handler := s.handlers[peer]
 		handler.sender.onTransaction(tx, canStartNewBlock)
 	}
 }
@@ -166,7 +176,8 @@ func (s *server) HandleMessage(payload any, from des.Module, timestamp time.Dura
 	} else if lp, isLp := payload.(loopback); isLp {
 		s.forwardTransaction(lp.tx)
 	} else if _, isNb := payload.(createNewBlock); isNb {
-		for _, handler := range s.handlers {
+		for _, peer := range s.peers {
+			handler := s.handlers[peer]
 			handler.sender.tryFillSendWindow(true)
 		}
 		outbox = append(outbox, des.OutgoingMessage{createNewBlock{}, nil, s.forceSynchronize})
-- 
2.43.0


From 3d7509dc35f86ffbbfedb524eee2dc36369a46c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:31 +0000
Subject: [PATCH 05/13] fix: node must read the peer's whole key before using
 it

A single Read may return fewer bytes than the key has.
---
 node/controller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/node/controller.go b/node/controller.go
index 05b7b47..0240719 100644
--- a/node/controller.go
+++ b/node/controller.go
@@ -177,7 +177,7 @@ func (c *controller) handleConn(id string, conn io.ReadWriter) error {
 	if err != nil {
 		return err
 	}
-	_, err = conn.Read(decoderKey[:])
+	_, err = io.ReadFull(conn, decoderKey[:])
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 3af6aba1addeaee8b44f80a63f9b19c4c5bc51b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:08 +0000
Subject: [PATCH 06/13] fix: node receiver must keep accepting transactions
 while handing over decoded ones

---
 node/receiver.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/node/receiver.go b/node/receiver.go
index 7a1a888..d7170bd 100644
--- a/node/receiver.go
+++ b/node/receiver.go
@@ -41,9 +41,24 @@ func (r *receiver) receive(cw chan<- Codeword) error {
 func (r *receiver) decode(cwChan <-chan Codeword) error {
 	ticker := time.NewTicker(1 * time.Second)
 	cwcnt := 0
+	// Decoded transactions yet to be handed over. We must keep accepting new
+	// transactions while handing them over, because the recipient may itself be
+	// blocked sending to us. Taking codewords can wait.
+	backlog := []ldpc.DecodedTransaction{}
 	for {
+		var next ldpc.DecodedTransaction
+		var handover chan<- ldpc.DecodedTransaction
+		incoming := cwChan
+		if len(backlog) > 0 {
+			next = backlog[0]
+			handover = r.decodedTransaction
+			incoming = nil
+		}
 		select {
-		case cw := <-cwChan:
+		case handover <- next:
+			backlog[0] = ldpc.DecodedTransaction{}
+			backlog = backlog[1:]
+		case cw := <-incoming:
 			cwcnt += 1
 			now := time.Now()
 			// clean up the pending codewords
@@ -71,14 +86,10 @@ func (r *receiver) decode(cwChan <-chan Codeword) error {
 			// try to decode the new codeword
 			stub, buf := r.decoder.AddCodeword(cw.Codeword)
 			r.rxWindow = append(r.rxWindow, receivedCodeword{stub, now})
-			for _, ntx := range buf {
-				r.decodedTransaction <- ntx
-			}
+			backlog = append(backlog, buf...)
 		case tx := <-r.newTransaction:
 			buf := r.decoder.AddTransaction(tx)
-			for _, ntx := range buf {
-				r.decodedTransaction <- ntx
-			}
+			backlog = append(backlog, buf...)
 		case <-ticker.C:
 			qts, err := r.delaySketch.GetValuesAtQuantiles([]float64{0.50, 0.95})
 			if err != nil {
-- 
2.43.0


From b8787d21ad104c07c9fd43b68a031da3d792618c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 07/13] fix: testbed must not crash on a running AWS instance
 without a public address

---
 testbed/aws.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/testbed/aws.go b/testbed/aws.go
index 3258c5b..1047dcf 100644
--- a/testbed/aws.go
+++ b/testbed/aws.go
@@ -519,8 +519,8 @@ func AWSListServersAtRegion(region string, tag string) ([]AWSServer, error) {
 					ID: *instance.InstanceId,
 					Region: region,
 					Tag: tag,
-					PrivateIP: *instance.PrivateIpAddress,
-					PublicIP: *instance.PublicIpAddress,
+					PrivateIP: aws.StringValue(instance.PrivateIpAddress),
+					PublicIP: aws.StringValue(instance.PublicIpAddress),
 				}
 				output = append(output, out)
 			}
-- 
2.43.0


From 13bc46e010022fd8d752f9ef707de14a0e8e1b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 08/13] fix: testbed must not share one error variable between
 concurrent server restarts

---
 testbed/vultr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/testbed/vultr.go b/testbed/vultr.go
index 427debb..c94346c 100644
--- a/testbed/vultr.go
+++ b/testbed/vultr.go
@@ -295,7 +295,7 @@ func RestartServers(tag string) {
 				return
 			}
 			fmt.Println("Rebooting ", s.InstanceID)
-			err = c.Server.Reboot(context.Background(), s.InstanceID)
+			err := c.Server.Reboot(context.Background(), s.InstanceID)
 			if err != nil {
 				fmt.Println("error rebooting server: ", err)
 				os.Exit(1)
-- 
2.43.0


From 43058d68a5ba65e95fe69434b93dde2f80e90a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:03 +0000
Subject: [PATCH 09/13] fix: testbed must release the image list lock, and not
 keep an error page, when fetching fails

---
 testbed/aws.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/testbed/aws.go b/testbed/aws.go
index 1047dcf..a90bde3 100644
--- a/testbed/aws.go
+++ b/testbed/aws.go
@@ -25,19 +25,22 @@ var AWSImageList string
 
 func AWSGetImageID(region string) (string, error) {
 	AWSImageListLock.Lock()
+	defer AWSImageListLock.Unlock()
 	if AWSImageList == "" {
 		resp, err := http.Get("https://cloud-images.ubuntu.com/locator/ec2/releasesTable")
 		if err != nil {
 			return "", err
 		}
+		defer resp.Body.Close()
+		if resp.StatusCode != http.StatusOK {
+			return "", fmt.Errorf("error fetching image list: %s", resp.Status)
+		}
 		body, err := ioutil.ReadAll(resp.Body)
 		if err != nil {
 			return "", err
 		}
 		AWSImageList = string(body)
-		defer resp.Body.Close()
 	}
-	AWSImageListLock.Unlock()
 
 	escaped := strings.ReplaceAll(region, "-", `\-`)
 	tr := escaped + `","focal","20\.04 LTS","amd64",".+","\d+","<.+>(ami\-.+)</a>`
-- 
2.43.0


From 652dba780c17bad368dac484cdcd0b58aadb863f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 10/13] fix: testbed must report an unusable key file instead
 of crashing

---
 testbed/sshutil.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/testbed/sshutil.go b/testbed/sshutil.go
index 5761257..1b7af15 100644
--- a/testbed/sshutil.go
+++ b/testbed/sshutil.go
@@ -13,7 +13,10 @@ func getPublicKey(path string) ([]byte, error) {
 	}
 
 	signer, err := ssh.ParsePrivateKey(key)
-	return ssh.MarshalAuthorizedKey(signer.PublicKey()), err
+	if err != nil {
+		return nil, err
+	}
+	return ssh.MarshalAuthorizedKey(signer.PublicKey()), nil
 }
 
 func loadSSHKey(path string) (ssh.AuthMethod, error) {
-- 
2.43.0


From fcc149b92f3b9a1d8aff2465c2d9452b31b8f4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 11/13] fix: analysis-exp gave the second sender as many own
 transactions as the first

With -t1 and -t2 different, the second block had t1 transactions instead of
t2, while the ratios were computed for t2.
---
 experiments/overlap/analysis-exp/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiments/overlap/analysis-exp/main.go b/experiments/overlap/analysis-exp/main.go
index 59eb633..90c1132 100644
--- a/experiments/overlap/analysis-exp/main.go
+++ b/experiments/overlap/analysis-exp/main.go
@@ -38,7 +38,7 @@ func testOverlap(T1, T2, Tc, K int) (c1, c2 int) {
 		}
 	}
 	cnt = 0
-	for cnt < T1 {
+	for cnt < T2 {
 		tx := experiments.RandomTransaction()
 		if e2.AddTransaction(tx) {
 			txset2[*tx] = struct{}{}
-- 
2.43.0


From 2ddd2bcb13ac35f15242006d06e4a443bc8a0b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 12/13] fix: new-controller never counted the losses it reports

The loss printed every second was always zero.
---
 experiments/new-controller/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/experiments/new-controller/main.go b/experiments/new-controller/main.go
index cf4b9d2..8246c53 100644
--- a/experiments/new-controller/main.go
+++ b/experiments/new-controller/main.go
@@ -109,6 +109,7 @@ func testController(K int, s, rinit float64, timeout int, alpha, loss float64) {
 			r -= (loss*alpha/1000.0)
 		}
 		realLoss := scan(d, step)
+		l += realLoss
 		r += (alpha/1000.0)*float64(realLoss)
 		if step%1000 == 0 {
 			fmt.Println(step, r, float64(l)/float64(windowCw), cw, dec, gen)
-- 
2.43.0


From 2520449646561b2d7a0e72a727840ca204cbaea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:56 +0000
Subject: [PATCH 13/13] fix: encoders must not convert a degree too large for
 an int

---
 iblt/encoder.go | 8 ++++++--
 ldpc/encoder.go | 8 ++++++--
 lt/encoder.go   | 8 ++++++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/iblt/encoder.go b/iblt/encoder.go
index 750ad40..f3b547a 100644
--- a/iblt/encoder.go
+++ b/iblt/encoder.go
@@ -72,8 +72,12 @@ func (e *Encoder[T]) AddTransaction(t Transaction[T]) bool {
 }
 
 func (e *Encoder[T]) ProduceCodeword() Codeword[T] {
-	deg := int(e.degreeDist.Uint64())
-	return e.produceCodeword(deg)
+	deg := e.degreeDist.Uint64()
+	// limit the degree before converting it, for it may not fit in an int
+	if deg > uint64(len(e.window)) {
+		deg = uint64(len(e.window))
+	}
+	return e.produceCodeword(int(deg))
 }
 
 func (e *Encoder[T]) produceCodeword(deg int) Codeword[T] {
diff --git a/ldpc/encoder.go b/ldpc/encoder.go
index 524f872..9433b18 100644
--- a/ldpc/encoder.go
+++ b/ldpc/encoder.go
@@ -63,8 +63,12 @@ func (e *Encoder) AddTransaction(t *Transaction) bool {
 }
 
 func (e *Encoder) ProduceCodeword() *Codeword {
-	deg := int(e.degreeDist.Uint64())
-	return e.produceCodeword(deg)
+	deg := e.degreeDist.Uint64()
+	// limit the degree before converting it, for it may not fit in an int
+	if deg > uint64(len(e.window)) {
+		deg = uint64(len(e.window))
+	}
+	return e.produceCodeword(int(deg))
 }
 
 type codewordBuilder []saltedTransaction
diff --git a/lt/encoder.go b/lt/encoder.go
index bd92512..f73e7d1 100644
--- a/lt/encoder.go
+++ b/lt/encoder.go
@@ -72,8 +72,12 @@ func (e *Encoder[T]) AddTransaction(t Transaction[T]) bool {
 }
 
 func (e *Encoder[T]) ProduceCodeword() Codeword[T] {
-	deg := int(e.degreeDist.Uint64())
-	return e.produceCodeword(deg)
+	deg := e.degreeDist.Uint64()
+	// limit the degree before converting it, for it may not fit in an int
+	if deg > uint64(len(e.window)) {
+		deg = uint64(len(e.window))
+	}
+	return e.produceCodeword(int(deg))
 }
 
 func (e *Encoder[T]) produceCodeword(deg int) Codeword[T] {
-- 
2.43.0

