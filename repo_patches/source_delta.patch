From f158edaf51198eca2d6dc64af9908e3caeafb4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 01/37] fix: sign with fresh randomness instead of a constant
 nonce stream

Every signature took its nonce from Suite.Cipher([]byte("example")), a
stream with a public, constant seed, so anybody who saw one signature could
compute the signer's private key.
---
 cmd/client/ClientLauncher.go    | 9 +++------
 cmd/coordinator/Coordinator.go  | 4 ++--
 cmd/server/AnonServerHandler.go | 3 +--
 3 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/cmd/client/ClientLauncher.go b/cmd/client/ClientLauncher.go
index 35e1023..335a2e4 100644
--- a/cmd/client/ClientLauncher.go
+++ b/cmd/client/ClientLauncher.go
@@ -76,8 +76,7 @@ func postBridge(bridgeAddr string) {
 	// sign bridge address and nym
 	byteMsg := bridge.MessageOfPostBridge(params)
 	byteMsg = append([]byte(bridgeAddr), byteNym...)
-	rand := dissentClient.Suite.Cipher([]byte("example"))
-	sig := util.ElGamalSign(dissentClient.Suite, rand, byteMsg, dissentClient.PrivateKey, dissentClient.G)
+	sig := util.ElGamalSign(dissentClient.Suite, random.Stream, byteMsg, dissentClient.PrivateKey, dissentClient.G)
 	params["signature"] = sig
 
 	event := &proto.Event{EventType:proto.POST_BRIDGE, Params:params}
@@ -136,8 +135,7 @@ func requestBridges(ind int) {
 
 	// sign message
 	byteMsg := bridge.MessageOfRequestBridges(params)
-	rand := dissentClient.Suite.Cipher([]byte("example"))
-	sig := util.ElGamalSign(dissentClient.Suite, rand, byteMsg, dissentClient.PrivateKey, dissentClient.G)
+	sig := util.ElGamalSign(dissentClient.Suite, random.Stream, byteMsg, dissentClient.PrivateKey, dissentClient.G)
 	params["signature"] = sig
 
 	// send to coordinator
@@ -224,8 +222,7 @@ func sendVote(msgID, feedback int) {
 	}
 	msg := bridge.MessageOfVote(params)
 	// sign this message
-	rand := dissentClient.Suite.Cipher([]byte("example"))
-	sig := util.ElGamalSign(dissentClient.Suite, rand, msg, dissentClient.PrivateKey, dissentClient.G)
+	sig := util.ElGamalSign(dissentClient.Suite, random.Stream, msg, dissentClient.PrivateKey, dissentClient.G)
 
 	// send to coordinator
 	params["signature"] = sig
diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index aea060a..d89db6f 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -10,6 +10,7 @@ import (
 	"zRep/util"
 
 	"github.com/dedis/crypto/abstract"
+	"github.com/dedis/crypto/random"
 )
 
 type ClientTuple struct {
@@ -131,8 +132,7 @@ func (c *Coordinator) GetServerIndex(serverAddr *net.TCPAddr) int {
 }
 
 func (c *Coordinator) SignMessage(msg []byte) []byte {
-	rand := c.Suite.Cipher([]byte("example"))
-	sig := util.ElGamalSign(c.Suite, rand, msg, c.PrivateKey, c.Suite.Point())
+	sig := util.ElGamalSign(c.Suite, random.Stream, msg, c.PrivateKey, c.Suite.Point())
 	return sig
 }
 
diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index 5411241..9ce8d6b 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -385,8 +385,7 @@ func handleSignAssignments(params map[string]interface{}, senderAddr *net.TCPAdd
 	sigs := [][]byte{}
 	for _,assignment := range assignments {
 		byteAssignment := bridge.EncodeAssignment(&assignment)
-		rand := anonServer.Suite.Cipher([]byte("example"))
-		sig := util.ElGamalSign(anonServer.Suite, rand, byteAssignment, anonServer.PrivateKey, anonServer.Suite.Point())
+		sig := util.ElGamalSign(anonServer.Suite, random.Stream, byteAssignment, anonServer.PrivateKey, anonServer.Suite.Point())
 		sigs = append(sigs, sig)
 	}
 
-- 
2.43.0


From af4a9dbca909f42ba35a3a90d1546a5a12377612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 02/37] fix: sign and verify server signatures over the group
 generator

Suite.Point() is the element 0, so T was always 0 and a signature did not
depend on the key: anyone could forge the servers' and the coordinator's
signatures. A nil base is the standard generator, which is what the public
keys are built on.
---
 cmd/client/ClientHandler.go           | 2 +-
 cmd/coordinator/Coordinator.go        | 2 +-
 cmd/coordinator/CoordinatorHandler.go | 4 ++--
 cmd/server/AnonServerHandler.go       | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmd/client/ClientHandler.go b/cmd/client/ClientHandler.go
index 80fb69c..deef8e6 100644
--- a/cmd/client/ClientHandler.go
+++ b/cmd/client/ClientHandler.go
@@ -247,7 +247,7 @@ func handleGotSignatures(params map[string]interface{}, dissentClient *DissentCl
 	// verify signature
 	byteSig := params["signature"].([]byte)
 	msg := bridge.MessageOfGotSignatures(params)
-	err := util.ElGamalVerify(dissentClient.Suite, msg, dissentClient.ControllerPublicKey, byteSig, dissentClient.Suite.Point())
+	err := util.ElGamalVerify(dissentClient.Suite, msg, dissentClient.ControllerPublicKey, byteSig, nil)
 	if err != nil {
 		fmt.Println("[note]** Fails to verify the signatures")
 		return
diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index d89db6f..eb68874 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -132,7 +132,7 @@ func (c *Coordinator) GetServerIndex(serverAddr *net.TCPAddr) int {
 }
 
 func (c *Coordinator) SignMessage(msg []byte) []byte {
-	sig := util.ElGamalSign(c.Suite, random.Stream, msg, c.PrivateKey, c.Suite.Point())
+	sig := util.ElGamalSign(c.Suite, random.Stream, msg, c.PrivateKey, nil)
 	return sig
 }
 
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 417577c..384f8a7 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -523,14 +523,14 @@ func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	for i := 0; i < numServers; i++ {
 		signature := signatures[i]
 		serverPublicKey := anonCoordinator.GetServerPublicKey(i)
-		err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, serverPublicKey, signature, anonCoordinator.Suite.Point())
+		err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, serverPublicKey, signature, nil)
 		if err != nil {
 			fmt.Println("[note] Fails to verify server's signature")
 			return
 		}
 	}
 	// verify coordinator's own signature
-	err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, anonCoordinator.PublicKey, signatures[numServers], anonCoordinator.Suite.Point())
+	err = util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, anonCoordinator.PublicKey, signatures[numServers], nil)
 	if err != nil {
 		fmt.Println("[note] Fails to verify coordinator's signature")
 		return
diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index 9ce8d6b..cb49568 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -385,7 +385,7 @@ func handleSignAssignments(params map[string]interface{}, senderAddr *net.TCPAdd
 	sigs := [][]byte{}
 	for _,assignment := range assignments {
 		byteAssignment := bridge.EncodeAssignment(&assignment)
-		sig := util.ElGamalSign(anonServer.Suite, random.Stream, byteAssignment, anonServer.PrivateKey, anonServer.Suite.Point())
+		sig := util.ElGamalSign(anonServer.Suite, random.Stream, byteAssignment, anonServer.PrivateKey, nil)
 		sigs = append(sigs, sig)
 	}
 
-- 
2.43.0


From 6bb40b27e839dbdf9ba9a55618ba8b6f5f8f3f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:48 +0000
Subject: [PATCH 03/37] fix: hash commitrx into the challenge of the
 non-negative argument

The prover could pick commitrx after seeing the challenge and so prove that
a commitment to any value, negative ones included, is non-negative.
---
 primitive/fujiokam/FujiOkamCommitment.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/primitive/fujiokam/FujiOkamCommitment.go b/primitive/fujiokam/FujiOkamCommitment.go
index 6e3a3cb..7798ebb 100644
--- a/primitive/fujiokam/FujiOkamCommitment.go
+++ b/primitive/fujiokam/FujiOkamCommitment.go
@@ -458,11 +458,12 @@ func (base *FujiOkamBase) ProveNonnegHelper(x *big.Int, commitx *Point, rc *big.
 	tp.Exp(base.G6, ti)
 	// commitrx = g^rx * h^rrx (mod n)
 	commitrx, rrx := base.Commit(rx)
-	// e = hash(commitx, C, Cr)
+	// e = hash(commitx, C, Cr, commitrx)
 	h := sha256.New()
 	h.Write(commitx.V.Bytes())
 	h.Write(C.V.Bytes())
 	h.Write(Cr.V.Bytes())
+	h.Write(commitrx.V.Bytes())
 	eBuf := h.Sum(nil)
 	e := new(big.Int)
 	e.SetBytes(eBuf)
@@ -496,11 +497,12 @@ func (base *FujiOkamBase) VerifyNonneg(commitx *Point, arg *ARGnonneg) bool {
 }
 
 func (base *FujiOkamBase) VerifyNonnegHelper(commitx, commitrx, C, Cr *Point, R, x_, a_, b_, d_, r_ *big.Int) bool {
-	// e := hash(commitx, C, Cr)
+	// e := hash(commitx, C, Cr, commitrx)
 	h := sha256.New()
 	h.Write(commitx.V.Bytes())
 	h.Write(C.V.Bytes())
 	h.Write(Cr.V.Bytes())
+	h.Write(commitrx.V.Bytes())
 	eBuf := h.Sum(nil)
 	e := new(big.Int)
 	e.SetBytes(eBuf)
-- 
2.43.0


From 349f5226c9b484a98d2e9cb6cd8f910328069034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:44 +0000
Subject: [PATCH 04/37] fix: make the equality argument sound

The challenge did not cover the two commitments, the verifier put no bound on
S1, and a Fujisaki-Okamoto commitment that is not a unit was accepted. A
client could pass off d mod q (for a negative d) as a non-negative integer,
or prove equality for a commitment it knows nothing about.
---
 primitive/pedersen_fujiokam/equality.go | 53 +++++++++++++++----------
 1 file changed, 32 insertions(+), 21 deletions(-)

diff --git a/primitive/pedersen_fujiokam/equality.go b/primitive/pedersen_fujiokam/equality.go
index c20c8a6..1473d2b 100644
--- a/primitive/pedersen_fujiokam/equality.go
+++ b/primitive/pedersen_fujiokam/equality.go
@@ -32,32 +32,43 @@ func BigIntToSecret(suite abstract.Suite, i *big.Int) abstract.Secret {
 	return s
 }
 
+// x is a small integer, far below 2^(t1Bits-256). S1 = x*c + t1 is then below
+// 2^(t1Bits+1), while t1 still hides x. VerifyEqual relies on that bound: it makes the
+// integer in the Fujisaki-Okamoto commitment smaller than the order of the Pedersen
+// group, so that the two commitments agree as integers and not only modulo that order.
+const t1Bits = 400
+
+// c := hash(PComm || FOComm || T1 || T2)
+func challenge(suite abstract.Suite, PComm abstract.Point, FOComm *fujiokam.Point,
+	T1 abstract.Point, T2 *fujiokam.Point) *big.Int {
+	bytePComm, _ := PComm.MarshalBinary()
+	byteT1, _ := T1.MarshalBinary()
+	hash := suite.Hash()
+	hash.Write(bytePComm)
+	hash.Write(FOComm.ToBinary())
+	hash.Write(byteT1)
+	hash.Write(T2.ToBinary())
+	return new(big.Int).SetBytes(hash.Sum(nil))
+}
+
 func ProveEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.FujiOkamBase,
 	x abstract.Secret,
 	PComm abstract.Point, rPComm abstract.Secret,
 	FOComm *fujiokam.Point, rFOComm *big.Int) *ARGequal {
 	suite := pedersenBase.Suite
-	t1 := suite.Secret().Pick(random.Stream)
-	t1Raw := SecretToBigInt(t1)
+	t1Raw := random.Int(new(big.Int).Lsh(big.NewInt(1), t1Bits), random.Stream)
+	t1 := BigIntToSecret(suite, t1Raw)
 	t2 := suite.Secret().Pick(random.Stream)
 	t2Raw := SecretToBigInt(t2)
 	t3 := suite.Secret().Pick(random.Stream)
 	t3Raw := SecretToBigInt(t3)
 	// T1 := GT^t1 * HT^t2 (mod p)
 	T1 := pedersenBase.CommitWithR(t1, t2)
-	byteT1, _ := T1.MarshalBinary()
 
 	// T2 := g1^t1 * h1^t3 (mod n)
 	T2 := fujiokamBase.CommitWithR(t1Raw, t3Raw)
-	byteT2 := T2.ToBinary()
 
-	// c := hash(T1 || T2)
-	hash := suite.Hash()
-	hash.Write(byteT1)
-	hash.Write(byteT2)
-	cBuf := hash.Sum(nil)
-	cRaw := new(big.Int)
-	cRaw.SetBytes(cBuf)
+	cRaw := challenge(suite, PComm, FOComm, T1, T2)
 
 	xRaw := SecretToBigInt(x)
 	rPCommRaw := SecretToBigInt(rPComm)
@@ -81,6 +92,15 @@ func ProveEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.Fuji
 
 func VerifyEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.FujiOkamBase,
 	PComm abstract.Point, FOComm *fujiokam.Point, arg *ARGequal) bool {
+	// see t1Bits
+	if arg.S1.Sign() < 0 || arg.S1.BitLen() > t1Bits+1 {
+		return false
+	}
+	// FOComm has to be a unit, otherwise T2 does not depend on S1 and S3
+	if new(big.Int).GCD(nil, nil, FOComm.ToBigInt(), fujiokamBase.N).Cmp(big.NewInt(1)) != 0 {
+		return false
+	}
+
 	s1 := BigIntToSecret(pedersenBase.Suite, arg.S1)
 	s2 := BigIntToSecret(pedersenBase.Suite, arg.S2)
 	c := BigIntToSecret(pedersenBase.Suite, arg.C)
@@ -91,21 +111,12 @@ func VerifyEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.Fuj
 	T1 := pedersenBase.CommitWithR(s1, s2)
 	tmp := pedersenBase.Suite.Point().Mul(PComm, negC)
 	T1.Add(T1, tmp)
-	byteT1, _ := T1.MarshalBinary()
 
 	// T2 := g1^s1 * h1^s3 * FOComm^(-c) mod n
 	T2 := fujiokamBase.CommitWithR(arg.S1, arg.S3)
 	tmp2 := fujiokamBase.Point().Exp(FOComm, negCRaw)
 	T2.Mul(T2, tmp2)
-	byteT2 := T2.ToBinary()
-
-	// c := hash(T1 || T2)
-	hash := pedersenBase.Suite.Hash()
-	hash.Write(byteT1)
-	hash.Write(byteT2)
-	RSideBuf := hash.Sum(nil)
-	RSide := new(big.Int)
-	RSide.SetBytes(RSideBuf)
 
+	RSide := challenge(pedersenBase.Suite, PComm, FOComm, T1, T2)
 	return arg.C.Cmp(RSide) == 0
 }
\ No newline at end of file
-- 
2.43.0


From 2fcabeb8728b1cb03aa6a1d88f5e26a194e0ef87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 05/37] fix: let the equality argument hide the commitment
 randomness

t3 was about 850 bits shorter than rFOComm*c, so S3 / C is rFOComm, which
opens FOComm and with it the requester's reputation. S2 likewise gave away
the top half of rPComm; it only matters modulo the group order.
---
 primitive/pedersen_fujiokam/equality.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/primitive/pedersen_fujiokam/equality.go b/primitive/pedersen_fujiokam/equality.go
index 1473d2b..a28c363 100644
--- a/primitive/pedersen_fujiokam/equality.go
+++ b/primitive/pedersen_fujiokam/equality.go
@@ -60,8 +60,8 @@ func ProveEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.Fuji
 	t1 := BigIntToSecret(suite, t1Raw)
 	t2 := suite.Secret().Pick(random.Stream)
 	t2Raw := SecretToBigInt(t2)
-	t3 := suite.Secret().Pick(random.Stream)
-	t3Raw := SecretToBigInt(t3)
+	// t3 has to hide rFOComm*c: at most RandomRadius * 2^256, and 80 bits more
+	t3Raw := random.Int(new(big.Int).Lsh(fujiokamBase.RandomRadius, 256+80), random.Stream)
 	// T1 := GT^t1 * HT^t2 (mod p)
 	T1 := pedersenBase.CommitWithR(t1, t2)
 
@@ -78,6 +78,7 @@ func ProveEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.Fuji
 	// s2 := rPComm*c + t2
 	s2 := new(big.Int)
 	s2.Mul(rPCommRaw, cRaw).Add(s2, t2Raw)
+	s2 = SecretToBigInt(BigIntToSecret(suite, s2))
 	// s3 := rFOComm*c + t3
 	s3 := new(big.Int)
 	s3.Mul(rFOComm, cRaw).Add(s3, t3Raw)
-- 
2.43.0


From 06bdb348ca880c432bd5717a4c573fe451926c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 06/37] fix: check the shape of a linkable ring signature

Extra entries in C allowed forging a signature without any key, missing ones
crashed the verifier, and y0+p or -y0 in place of y0 made a second signature
of the same signer unlinkable.
---
 primitive/lrs/LinkableRingSignature.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/primitive/lrs/LinkableRingSignature.go b/primitive/lrs/LinkableRingSignature.go
index 86397b6..35965b7 100644
--- a/primitive/lrs/LinkableRingSignature.go
+++ b/primitive/lrs/LinkableRingSignature.go
@@ -189,6 +189,16 @@ func (base *LRSBase) Verify(m []byte, n int, pi int, sig *Signature, y []abstrac
 }
 
 func (base *LRSBase) VerifyHelper(m []byte, n int, pi int, sig *Signature, y []*big.Int) bool {
+	// every member of the ring has exactly one s and one c
+	if len(y) != n || len(sig.S) != n || len(sig.C) != n {
+		return false
+	}
+	// y0 has to be the canonical representation of an element of the group of quadratic
+	// residues, as h is; otherwise -y0 or y0+p give unlinkable signatures of the same signer
+	if sig.Y0.Sign() <= 0 || sig.Y0.Cmp(base.P) >= 0 || big.Jacobi(sig.Y0, base.P) != 1 {
+		return false
+	}
+
 	L := computeL(y)
 	h := base.computeh(m, L)
 
-- 
2.43.0


From d7a970c21caf40d67fde3fba72fb0f3e6b2aef75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:13 +0000
Subject: [PATCH 07/37] fix: tie the simple shuffle proof to the pair shuffle
 it belongs to

The verifier never compared the inputs of the embedded simple k-shuffle with
the vectors of the pair shuffle, so a server could prove an output that is
not a permutation of its input (say Y0+Y1, Y1).
---
 util/shuffle/pair.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/util/shuffle/pair.go b/util/shuffle/pair.go
index e2355bf..a970c06 100644
--- a/util/shuffle/pair.go
+++ b/util/shuffle/pair.go
@@ -275,6 +275,17 @@ func (ps *PairShuffle) Verify(
 		return err
 	}
 
+	// The simple k-shuffle has to be about the vectors of this pair shuffle:
+	// X[i] = A[i] + lambda*B[i] and Y[i] = C[i] + lambda*D[i]
+	for i := 0; i < k; i++ {
+		R := grp.Point().Mul(B[i], v4.Zlambda)
+		S := grp.Point().Mul(p3.D[i], v4.Zlambda)
+		if !ps.pv6.p0.X[i].Equal(R.Add(R, p1.A[i])) ||
+			!ps.pv6.p0.Y[i].Equal(S.Add(S, p1.C[i])) {
+			return errors.New("invalid PairShuffleProof")
+		}
+	}
+
 	// V step 7
 	Phi1 := grp.Point().Null()
 	Phi2 := grp.Point().Null()
-- 
2.43.0


From 54959c5450567744fa1acdfc75b375ea21a6402d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 08/37] fix: accept posts and requests only from the nyms of
 this round

A nym that is not in the table has no commitment: a request from it crashed
the coordinator (and a server), and its bridges could be assigned but never
voted on. The encoding has to be the canonical one, or a zero byte can move
between the bridge address and the nym under the same signature.
---
 cmd/coordinator/Coordinator.go        | 7 +++++++
 cmd/coordinator/CoordinatorHandler.go | 9 +++++++++
 cmd/server/AnonServerHandler.go       | 4 ++--
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index eb68874..85b6aa7 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -1,6 +1,7 @@
 package coordinator
 
 import (
+	"bytes"
 	"math/big"
 	"net"
 	"zRep/primitive/fujiokam"
@@ -232,6 +233,12 @@ func (c *Coordinator) AddIntoRepMap(key abstract.Point, val abstract.Point) {
 	c.BeginningCommMap[keyStr] = val
 }
 
+// return true if nym belongs to this round's table and byteNym is its encoding
+func (c *Coordinator) IsCurrentNym(nym abstract.Point, byteNym []byte) bool {
+	key, ok := c.EndingKeyMap[nym.String()]
+	return ok && bytes.Equal(util.EncodePoint(key), byteNym)
+}
+
 func (c *Coordinator) ClearVoteRecords() {
 	c.VoteRecords = []*big.Int{}
 }
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 384f8a7..0d74287 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -275,6 +275,11 @@ func handlePostBridge(params map[string]interface{}, senderAddr *net.TCPAddr) {
 
 	fmt.Println("[debug] Receiving post from " + senderAddr.String() + ": " + bridgeAddr)
 
+	if !anonCoordinator.IsCurrentNym(nym, byteNym) {
+		fmt.Println("[note]** Unknown nym")
+		return
+	}
+
 	// verify the signature
 	byteMsg := bridge.MessageOfPostBridge(params)
 	err = util.ElGamalVerify(anonCoordinator.Suite, byteMsg, nym, byteSig, anonCoordinator.G)
@@ -298,6 +303,10 @@ func handleRequestBridges(params map[string]interface{}, senderAddr *net.TCPAddr
 	byteNymR := params["nym"].([]byte)
 	err := nymR.UnmarshalBinary(byteNymR)
 	util.CheckErr(err)
+	if !anonCoordinator.IsCurrentNym(nymR, byteNymR) {
+		fmt.Println("[note]** Unknown nym")
+		return
+	}
 	PCommr := anonCoordinator.EndingCommMap[nymR.String()]
 
 	fmt.Println("[debug] Receiving reqeust from " + senderAddr.String() + ": " + strconv.Itoa(ind))
diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index cb49568..fdc39e2 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -367,10 +367,10 @@ func handleSignAssignments(params map[string]interface{}, senderAddr *net.TCPAdd
 	byteNymR := params["nym"].([]byte)
 	err := nymR.UnmarshalBinary(byteNymR)
 	util.CheckErr(err)
-	PCommr := anonServer.EndingCommMap[nymR.String()]
+	PCommr, known := anonServer.EndingCommMap[nymR.String()]
 
 	// verify the proof
-	if !bridge.VerifyInd(params, PCommr, anonServer.Suite, anonServer.PedersenBase, anonServer.FujiOkamBase) {
+	if !known || !bridge.VerifyInd(params, PCommr, anonServer.Suite, anonServer.PedersenBase, anonServer.FujiOkamBase) {
 		fmt.Print("[note]** Fails to verify the proof...")
 		pm := map[string]interface{}{
 			"success": false,
-- 
2.43.0


From 945e9fc04c348fe49eec06327f54fa68547decbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 09/37] fix: refuse public keys that are not group elements

The decoding error was ignored, so a client could register the element 0 or a
non-residue; it entered the table and stopped every later round.
---
 cmd/coordinator/CoordinatorHandler.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 0d74287..5a68b89 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -130,8 +130,7 @@ func handleAnnouncement(params map[string]interface{}) {
 func handleServerRegister(params map[string]interface{}, addr *net.TCPAddr) {
 	fmt.Println("[debug] Receive the registration info from server " + addr.String());
 	// fetch server's public key
-	publicKey := anonCoordinator.Suite.Point()
-	publicKey.UnmarshalBinary(params["public_key"].([]byte))
+	publicKey := util.DecodePoint(anonCoordinator.Suite, params["public_key"].([]byte))
 
 	lastServer := anonCoordinator.GetLastServerAddr()
 
@@ -180,8 +179,7 @@ func handleUpdatePedersenH(params map[string]interface{}) {
 // send the register request to server to do encryption
 func handleClientRegisterControllerSide(params map[string]interface{}, addr *net.TCPAddr) {
 	// get client's public key
-	publicKey := anonCoordinator.Suite.Point()
-	publicKey.UnmarshalBinary(params["public_key"].([]byte))
+	publicKey := util.DecodePoint(anonCoordinator.Suite, params["public_key"].([]byte))
 	anonCoordinator.AddClient(publicKey, addr)
 
 	// compute Pedersen commitment
@@ -212,9 +210,7 @@ func handleClientRegisterControllerSide(params map[string]interface{}, addr *net
 // handle client register successful event
 func handleClientRegisterServerSide(params map[string]interface{}) {
 	// get public key from params (it's one-time nym actually)
-	var nym = anonCoordinator.Suite.Point()
-	byteNym := params["public_key"].([]byte)
-	nym.UnmarshalBinary(byteNym)
+	nym := util.DecodePoint(anonCoordinator.Suite, params["public_key"].([]byte))
 
 	// get PComm
 	var PComm = anonCoordinator.Suite.Point()
-- 
2.43.0


From ff88d886b4dda79595c4539b3c3c6d98f287a33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 10/37] fix: count a vote only once, for its requester, and as
 +1 or -1

Any member could vote with somebody else's certificate, any number of times
and with any weight, and the signature did not cover the sign of the
feedback, so a captured vote could be turned into its opposite.
---
 cmd/bridge/bridge.go                   |  3 +--
 cmd/coordinator/Coordinator.go         | 10 ++++++++++
 cmd/coordinator/CoordinatorHandler.go  | 21 ++++++++++++++++++++-
 cmd/coordinator/CoordinatorLauncher.go |  1 +
 4 files changed, 32 insertions(+), 3 deletions(-)

diff --git a/cmd/bridge/bridge.go b/cmd/bridge/bridge.go
index 7cb0553..f38531c 100644
--- a/cmd/bridge/bridge.go
+++ b/cmd/bridge/bridge.go
@@ -119,8 +119,7 @@ func MessageOfVote(params map[string]interface{}) (msg []byte) {
 	msg = append(msg, params["assignment"].([]byte)...)
 	msg = append(msg, params["signatures"].([]byte)...)
 	feedback := params["feedback"].(int)
-	byteFeedback := big.NewInt(int64(feedback)).Bytes()
-	msg = append(msg, byteFeedback...)
+	msg = append(msg, util.IntToByte(feedback)...)
 	return
 }
 
diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 85b6aa7..220c0f1 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -68,6 +68,8 @@ type Coordinator struct {
 	// record each vote signature's y0
 	RequesterAddrs map[string]*net.TCPAddr
 	VoteRecords []*big.Int
+	// assignments that have been voted on in this round
+	VotedAssignments map[string]bool
 
 	Bridges map[string]BridgeInfo
 
@@ -243,6 +245,14 @@ func (c *Coordinator) ClearVoteRecords() {
 	c.VoteRecords = []*big.Int{}
 }
 
+func (c *Coordinator) IsVoted(byteAssignment []byte) bool {
+	return c.VotedAssignments[string(byteAssignment)]
+}
+
+func (c *Coordinator) AddToVotedAssignments(byteAssignment []byte) {
+	c.VotedAssignments[string(byteAssignment)] = true
+}
+
 func (c *Coordinator) IsLinkableRecord(y0 *big.Int) bool {
 	for _, r := range c.VoteRecords {
 		if r.Cmp(y0) == 0 {
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 5a68b89..1d1f24d 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -525,6 +525,10 @@ func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	byteAssignment := params["assignment"].([]byte)
 	assignment := bridge.DecodeAssignment(byteAssignment)
 	numServers := len(anonCoordinator.ServerList)
+	if len(signatures) != numServers+1 {
+		fmt.Println("[note] Wrong number of signatures")
+		return
+	}
 	for i := 0; i < numServers; i++ {
 		signature := signatures[i]
 		serverPublicKey := anonCoordinator.GetServerPublicKey(i)
@@ -542,9 +546,24 @@ func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	}
 	fmt.Println("[debug] All servers' signatures check passed")
 
+	// only the requester may vote, once, and only with +1 or -1
+	if !assignment.NymR.Equal(nym) {
+		fmt.Println("[note] The voter is not the requester of this bridge")
+		return
+	}
+	feedback := params["feedback"].(int)
+	if feedback != 1 && feedback != -1 {
+		fmt.Println("[note] Feedback is neither +1 nor -1")
+		return
+	}
+	if anonCoordinator.IsVoted(byteAssignment) {
+		fmt.Println("[note] Duplicate vote")
+		return
+	}
+	anonCoordinator.AddToVotedAssignments(byteAssignment)
+
 	// record feedback
 	targetNym := assignment.Nym
-	feedback := params["feedback"].(int)
 	anonCoordinator.ReputationDiffMap[targetNym.String()] += feedback
 }
 
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index ef4da89..ca33c07 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -103,6 +103,7 @@ func clearBuffer() {
 	// msg sender's record nym
 	anonCoordinator.MsgLog = nil
 	anonCoordinator.RequesterAddrs = make(map[string]*net.TCPAddr)
+	anonCoordinator.VotedAssignments = make(map[string]bool)
 }
 
 /**
-- 
2.43.0


From 578fc59e501a6e3d066c9edac0371be651bc014f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 11/37] fix: collect exactly one valid signature per server for
 an assignment

Repeated replies of one server counted as several servers', so an incomplete
certificate was delivered; a reply about an unknown bridge crashed the
coordinator; and the signatures were never verified.
---
 cmd/coordinator/Coordinator.go        | 16 ++++++++++++----
 cmd/coordinator/CoordinatorHandler.go | 20 +++++++++++++++++---
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 220c0f1..e635253 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -25,6 +25,7 @@ type BridgeInfo struct {
 }
 
 type AssignmentSignatures struct {
+	ByteAssignment []byte
 	Signatures [][]byte
 	Count int
 }
@@ -146,11 +147,18 @@ func (c *Coordinator) AddMsgLog(log abstract.Point) int{
 }
 
 // create an empty entry to store all servers' signatures for a bridge
-func (c *Coordinator) InitAssignmentSignatures(brdgAddr string) {
+func (c *Coordinator) InitAssignmentSignatures(brdgAddr string, byteAssignment []byte) {
 	nServers := len(c.ServerList)
 	assignmentSigs := make([][]byte, nServers+1)
-	entry := AssignmentSignatures{Signatures: assignmentSigs, Count: 0}
-	anonCoordinator.AssignmentSignaturesLog[brdgAddr] = entry
+	entry := AssignmentSignatures{ByteAssignment: byteAssignment, Signatures: assignmentSigs, Count: 0}
+	c.AssignmentSignaturesLog[brdgAddr] = entry
+}
+
+// return true if this assignment is the one recorded for the bridge and still lacks this server's signature
+func (c *Coordinator) IsWaitingForSignature(brdgAddr string, byteAssignment []byte, serverIndex int) bool {
+	entry, ok := c.AssignmentSignaturesLog[brdgAddr]
+	return ok && bytes.Equal(entry.ByteAssignment, byteAssignment) &&
+		serverIndex < len(entry.Signatures) && entry.Signatures[serverIndex] == nil
 }
 
 // insert a server's signature for a bridge into the log
@@ -158,7 +166,7 @@ func (c *Coordinator) AddAssignmentSignature(brdgAddr string, serverIndex int, s
 	oldEntry := c.AssignmentSignaturesLog[brdgAddr]
 	assignmentSigs := oldEntry.Signatures
 	assignmentSigs[serverIndex] = sig
-	newEntry := AssignmentSignatures{Signatures: assignmentSigs, Count: oldEntry.Count + 1}
+	newEntry := AssignmentSignatures{ByteAssignment: oldEntry.ByteAssignment, Signatures: assignmentSigs, Count: oldEntry.Count + 1}
 	c.AssignmentSignaturesLog[brdgAddr] = newEntry
 }
 
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 1d1f24d..39c4b9e 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -343,7 +343,7 @@ func handleRequestBridges(params map[string]interface{}, senderAddr *net.TCPAddr
 	nServers := len(anonCoordinator.ServerList)
 	for i,assignment := range assignments {
 		brdgAddr := assignment.Addr
-		anonCoordinator.InitAssignmentSignatures(brdgAddr)
+		anonCoordinator.InitAssignmentSignatures(brdgAddr, bridge.EncodeAssignment(&assignment))
 		// append coordinator's own signature to the end
 		anonCoordinator.AddAssignmentSignature(brdgAddr, nServers, sigs[i])
 	}
@@ -380,12 +380,26 @@ func handleGotSignatures(params map[string]interface{}, senderAddr *net.TCPAddr)
 
 	assignments := bridge.DecodeAssignmentList(params["assignments"].([]byte))
 	sigs := util.Decode2DByteArray(params["signatures"].([]byte))
-	nymR := assignments[0].NymR
-	requesterIP := anonCoordinator.RequesterAddrs[nymR.String()]
+	if len(sigs) != len(assignments) {
+		fmt.Println("[note]** Wrong number of signatures from server", senderAddr)
+		return
+	}
 
 	for i,assignment := range assignments {
 		sig := sigs[i]
 		brdgAddr := assignment.Addr
+		requesterIP := anonCoordinator.RequesterAddrs[assignment.NymR.String()]
+		byteAssignment := bridge.EncodeAssignment(&assignment)
+		// only accept a server's valid signature for an assignment we have made, once
+		if !anonCoordinator.IsWaitingForSignature(brdgAddr, byteAssignment, serverIndex) {
+			fmt.Println("[note]** Unexpected signature from server", senderAddr)
+			continue
+		}
+		err := util.ElGamalVerify(anonCoordinator.Suite, byteAssignment, anonCoordinator.GetServerPublicKey(serverIndex), sig, nil)
+		if err != nil {
+			fmt.Println("[note]** Invalid signature from server", senderAddr)
+			continue
+		}
 		// update each assignment's log entry by inserting the signature and increase count
 		anonCoordinator.AddAssignmentSignature(brdgAddr, serverIndex, sig)
 
-- 
2.43.0


From 05bb9132773a20c8ea1ee43f164f618555e29c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 12/37] fix: let servers sign only the assignments that the
 request covers

A server checked the proof that a requester may have ind bridges and then
signed whatever assignments came with it, for any requester and in any
number.
---
 cmd/server/AnonServerHandler.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index fdc39e2..cc069d4 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -361,6 +361,16 @@ func handleAnnouncementFinalize(params map[string]interface{}) {
 	anonServer.G = g
 }
 
+// return true if these are at most ind assignments, all of them for the requester nymR
+func coversAssignments(ind int, nymR abstract.Point, assignments []bridge.Assignment) bool {
+	for _,assignment := range assignments {
+		if !assignment.NymR.Equal(nymR) {
+			return false
+		}
+	}
+	return len(assignments) <= ind
+}
+
 func handleSignAssignments(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	// extract info from params
 	nymR := anonServer.Suite.Point()
@@ -369,8 +379,10 @@ func handleSignAssignments(params map[string]interface{}, senderAddr *net.TCPAdd
 	util.CheckErr(err)
 	PCommr, known := anonServer.EndingCommMap[nymR.String()]
 
-	// verify the proof
-	if !known || !bridge.VerifyInd(params, PCommr, anonServer.Suite, anonServer.PedersenBase, anonServer.FujiOkamBase) {
+	// verify the proof, and that it covers the assignments
+	assignments := bridge.DecodeAssignmentList(params["assignments"].([]byte))
+	if !known || !bridge.VerifyInd(params, PCommr, anonServer.Suite, anonServer.PedersenBase, anonServer.FujiOkamBase) ||
+		!coversAssignments(params["ind"].(int), nymR, assignments) {
 		fmt.Print("[note]** Fails to verify the proof...")
 		pm := map[string]interface{}{
 			"success": false,
@@ -381,7 +393,6 @@ func handleSignAssignments(params map[string]interface{}, senderAddr *net.TCPAdd
 	}
 
 	// sign assignments
-	assignments := bridge.DecodeAssignmentList(params["assignments"].([]byte))
 	sigs := [][]byte{}
 	for _,assignment := range assignments {
 		byteAssignment := bridge.EncodeAssignment(&assignment)
-- 
2.43.0


From 501829b96791941636a2ebf559b69496b0403e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:13 +0000
Subject: [PATCH 13/37] fix: use a fresh honesty proof of g1~g6 for every
 client

All clients challenged the same commitments, any number of times. The answers
to two different challenges differ by alpha1~alpha6, the trapdoors that make
Fujisaki-Okamoto commitments forgeable.
---
 cmd/coordinator/Coordinator.go         |  9 +++++++--
 cmd/coordinator/CoordinatorHandler.go  | 13 +++++++++++--
 cmd/coordinator/CoordinatorLauncher.go |  4 +---
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index e635253..883bb87 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -30,6 +30,11 @@ type AssignmentSignatures struct {
 	Count int
 }
 
+type GnHonestyProof struct {
+	Secret []*big.Int
+	Public []*big.Int
+}
+
 type ServerInfo struct {
 	Addr *net.TCPAddr
 	PublicKey abstract.Point
@@ -84,8 +89,8 @@ type Coordinator struct {
 	FujiOkamBase *fujiokam.FujiOkamBase
 	LRSBase *lrs.LRSBase
 
-	AllGnHonestyProofSecret []*big.Int
-	AllGnHonestyProofPublic []*big.Int
+	// map a new client's address to the proof of g1~g6's honesty it may challenge
+	GnHonestyProofs map[string]GnHonestyProof
 }
 
 // get last server in topology
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 39c4b9e..4c270c6 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -227,6 +227,8 @@ func handleClientRegisterServerSide(params map[string]interface{}) {
 	util.CheckErr(err)
 	bytePublicKey, _ := anonCoordinator.PublicKey.MarshalBinary()
 	fujiokamBase := anonCoordinator.FujiOkamBase
+	prfSecret, prfPublic := fujiokamBase.GenerateAllGnHonestyProof()
+	anonCoordinator.GnHonestyProofs[addr.String()] = GnHonestyProof{Secret:prfSecret, Public:prfPublic}
 	pm := map[string]interface{}{
 		"n": fujiokamBase.N.Bytes(),
 		"g1": fujiokamBase.G1.ToBinary(),
@@ -236,7 +238,7 @@ func handleClientRegisterServerSide(params map[string]interface{}) {
 		"g5": fujiokamBase.G5.ToBinary(),
 		"g6": fujiokamBase.G6.ToBinary(),
 		"h1": fujiokamBase.H1.ToBinary(),
-		"honesty_prf": util.ProtobufEncodeBigIntList(anonCoordinator.AllGnHonestyProofPublic),
+		"honesty_prf": util.ProtobufEncodeBigIntList(prfPublic),
 		// "h": byteHT,
 		"public_key": bytePublicKey,
 	}
@@ -250,8 +252,15 @@ func handleClientRegisterServerSide(params map[string]interface{}) {
 func handleGnHonestyChallenge(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	challenge := util.ProtobufDecodeBoolList(params["honesty_chal"].([]byte))
 	fmt.Println("[debug] Received challenge, start answering...")
+	// a proof answers one challenge only, two answers would reveal how g1~g6 were generated
+	prf, ok := anonCoordinator.GnHonestyProofs[senderAddr.String()]
+	if !ok {
+		fmt.Println("[note]** No honesty proof waiting for", senderAddr)
+		return
+	}
+	delete(anonCoordinator.GnHonestyProofs, senderAddr.String())
 	base := anonCoordinator.FujiOkamBase
-	answer := base.AnswerAllGnHonesty(challenge, anonCoordinator.AllGnHonestyProofSecret, anonCoordinator.AllGnHonestyProofPublic)
+	answer := base.AnswerAllGnHonesty(challenge, prf.Secret, prf.Public)
 
 	pm := map[string]interface{}{
 		"honesty_ans": util.ProtobufEncodeBigIntList(answer),
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index ca33c07..f452177 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -51,7 +51,6 @@ func initCoordinator() {
 	A := suite.Point().Mul(nil, a)
 	pedersenBase := pedersen.CreateMinimalBaseFromSuite(suite)
 	fujiokamBase := fujiokam.CreateBaseFromSuite(suite)
-	prfSecret, prfPublic := fujiokamBase.GenerateAllGnHonestyProof()
 
 	anonCoordinator = &Coordinator{
 		LocalAddr: CoordinatorAddr,
@@ -73,8 +72,7 @@ func initCoordinator() {
 		ReputationDiffMap: make(map[string]int),
 		PedersenBase: pedersenBase,
 		FujiOkamBase: fujiokamBase,
-		AllGnHonestyProofSecret: prfSecret,
-		AllGnHonestyProofPublic: prfPublic,
+		GnHonestyProofs: make(map[string]GnHonestyProof),
 	}
 }
 
-- 
2.43.0


From a4075ad1d9048549e6781f95aa92c3be2c39d171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 14/37] fix: make no request before the coordinator's
 parameters are proved honest

A coordinator that never answered the challenge was as good as one that
answered it correctly.
---
 cmd/client/ClientHandler.go  | 2 ++
 cmd/client/ClientLauncher.go | 4 ++++
 cmd/client/DissentClient.go  | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/cmd/client/ClientHandler.go b/cmd/client/ClientHandler.go
index deef8e6..dfb078b 100644
--- a/cmd/client/ClientHandler.go
+++ b/cmd/client/ClientHandler.go
@@ -70,6 +70,7 @@ func handleRegisterConfirmation(params map[string]interface{}, dissentClient *Di
 	base.G6 = base.Point().FromBinary(params["g6"].([]byte))
 	base.H1 = base.Point().FromBinary(params["h1"].([]byte))
 	dissentClient.FujiOkamBase = base
+	dissentClient.GnHonestyChecked = false
 	dissentClient.AllGnHonestyProofPublic = util.ProtobufDecodeBigIntList(params["honesty_prf"].([]byte))
 
 	// Controller's public key
@@ -108,6 +109,7 @@ func handleGnHonestyAnswer(params map[string]interface{}, dissentClient *Dissent
 	if res != 0 {
 		panic("Honesty checking failed")
 	}
+	dissentClient.GnHonestyChecked = true
 	fmt.Println("[debug] Parameters g1~g6 passed honesty test.")
 }
 
diff --git a/cmd/client/ClientLauncher.go b/cmd/client/ClientLauncher.go
index 335a2e4..f4fbe03 100644
--- a/cmd/client/ClientLauncher.go
+++ b/cmd/client/ClientLauncher.go
@@ -92,6 +92,10 @@ func requestBridges(ind int) {
 		fmt.Println("indicator should be less or equal than reputation")
 		return
 	}
+	if !dissentClient.GnHonestyChecked {
+		fmt.Println("the coordinator has not proved its parameters g1~g6 yet")
+		return
+	}
 	d := dissentClient.Reputation - ind
 	bigD := new(big.Int).SetInt64(int64(d))
 	xD := dissentClient.Suite.Secret().SetInt64(int64(d))
diff --git a/cmd/client/DissentClient.go b/cmd/client/DissentClient.go
index 113dce1..ea0f1f9 100644
--- a/cmd/client/DissentClient.go
+++ b/cmd/client/DissentClient.go
@@ -41,6 +41,8 @@ type DissentClient struct {
 	PedersenBase *pedersen.PedersenBase
 	AllGnHonestyProofPublic []*big.Int
 	AllGnHonestyChallenge []bool
+	// g1~g6 passed the honesty check
+	GnHonestyChecked bool
 }
 
 func (dissentClient *DissentClient) ClearBuffer() {
-- 
2.43.0


From 00b19b3f2e2c5df5ca73f688c19185aebeea4179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 15/37] fix: register a public key only once

Registering a member's public key again redirected the member's messages to
the new address and replaced the member's reputation by the starting credit.
---
 cmd/coordinator/CoordinatorHandler.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 4c270c6..81daf23 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -180,6 +180,10 @@ func handleUpdatePedersenH(params map[string]interface{}) {
 func handleClientRegisterControllerSide(params map[string]interface{}, addr *net.TCPAddr) {
 	// get client's public key
 	publicKey := util.DecodePoint(anonCoordinator.Suite, params["public_key"].([]byte))
+	if _, ok := anonCoordinator.Clients[publicKey.String()]; ok {
+		fmt.Println("[note]** This public key has been registered already")
+		return
+	}
 	anonCoordinator.AddClient(publicKey, addr)
 
 	// compute Pedersen commitment
-- 
2.43.0


From 9959c25d0f6540fed1d981fdaba703bcc282b7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 16/37] fix: do not let a repeated post make a bridge
 assignable again

A post replayed by anyone reset the bridge to unused, and a second provider of
the same address took it over from the first.
---
 cmd/coordinator/CoordinatorHandler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 81daf23..44765ee 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -298,7 +298,10 @@ func handlePostBridge(params map[string]interface{}, senderAddr *net.TCPAddr) {
 	}
 
 	// record the bridge
-	// Note: we assume the client does not provide duplicated bridges
+	if _, ok := anonCoordinator.Bridges[bridgeAddr]; ok {
+		fmt.Println("[note]** This bridge has been posted already")
+		return
+	}
 	anonCoordinator.AddBridge(bridgeAddr, nym)
 	fmt.Println("[debug] Finished adding bridge " + bridgeAddr)
 }
-- 
2.43.0


From 2ca92c77f21815797211efc4f7194a16389e8f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 17/37] fix: answer a request for bridges only once

Anyone could replay a request from another address: it consumed further
bridges and redirected the requester's assignments to that address.
---
 cmd/coordinator/Coordinator.go         | 11 +++++++++++
 cmd/coordinator/CoordinatorHandler.go  |  6 ++++++
 cmd/coordinator/CoordinatorLauncher.go |  1 +
 3 files changed, 18 insertions(+)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 883bb87..1a9b20b 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -74,6 +74,8 @@ type Coordinator struct {
 	// record each vote signature's y0
 	RequesterAddrs map[string]*net.TCPAddr
 	VoteRecords []*big.Int
+	// requests that have been answered in this round
+	SeenRequests map[string]bool
 	// assignments that have been voted on in this round
 	VotedAssignments map[string]bool
 
@@ -254,6 +256,15 @@ func (c *Coordinator) IsCurrentNym(nym abstract.Point, byteNym []byte) bool {
 	return ok && bytes.Equal(util.EncodePoint(key), byteNym)
 }
 
+// record a request, return true if it has been seen in this round
+func (c *Coordinator) IsRepeatedRequest(byteMsg []byte) bool {
+	if c.SeenRequests[string(byteMsg)] {
+		return true
+	}
+	c.SeenRequests[string(byteMsg)] = true
+	return false
+}
+
 func (c *Coordinator) ClearVoteRecords() {
 	c.VoteRecords = []*big.Int{}
 }
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 44765ee..86056a3 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -337,6 +337,12 @@ func handleRequestBridges(params map[string]interface{}, senderAddr *net.TCPAddr
 		return
 	}
 
+	// a request is good for one assignment
+	if anonCoordinator.IsRepeatedRequest(byteMsg) {
+		fmt.Println("[note]** Repeated request")
+		return
+	}
+
 	// record requester's IP
 	anonCoordinator.RequesterAddrs[nymR.String()] = senderAddr
 
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index f452177..10a6c0d 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -101,6 +101,7 @@ func clearBuffer() {
 	// msg sender's record nym
 	anonCoordinator.MsgLog = nil
 	anonCoordinator.RequesterAddrs = make(map[string]*net.TCPAddr)
+	anonCoordinator.SeenRequests = make(map[string]bool)
 	anonCoordinator.VotedAssignments = make(map[string]bool)
 }
 
-- 
2.43.0


From 2e6800989d8e81f9d18f70bfd9bba944c766fe64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 18/37] fix: drop a malformed message instead of crashing

Any undecodable message, or a missing or mistyped parameter, ended the
coordinator or server process that received it.
---
 cmd/coordinator/CoordinatorHandler.go |  6 ++++++
 cmd/server/AnonServerHandler.go       |  6 ++++++
 util/Util.go                          | 13 ++++++-------
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 86056a3..7f4664d 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -25,6 +25,12 @@ var anonCoordinator *Coordinator
 func Handle(buf []byte, tmpCoordinator *Coordinator) {
 	// decode the whole message
 	anonCoordinator = tmpCoordinator
+	// a message that cannot be decoded or handled must not take the others down
+	defer func() {
+		if err := recover(); err != nil {
+			fmt.Println("[note]** Dropped a message:", err)
+		}
+	}()
 	event, addr := util.DecodeEvent(buf)
 
 	switch event.EventType {
diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index cc069d4..5f9081d 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -25,6 +25,12 @@ func Handle(buf []byte, tmpServer *AnonServer) {
 	gob.Register(byteArr)
 
 	anonServer = tmpServer
+	// a message that cannot be decoded or handled must not take the others down
+	defer func() {
+		if err := recover(); err != nil {
+			fmt.Println("[note]** Dropped a message:", err)
+		}
+	}()
 	event, addr := util.DecodeEvent(buf)
 	switch event.EventType {
 	case proto.SERVER_REGISTER_REPLY:
diff --git a/util/Util.go b/util/Util.go
index b57f098..45e62c5 100644
--- a/util/Util.go
+++ b/util/Util.go
@@ -5,7 +5,6 @@ import (
 	"crypto/cipher"
 	"encoding/binary"
 	"errors"
-	"log"
 
 	"github.com/dedis/crypto/abstract"
 
@@ -148,7 +147,7 @@ func ProtobufDecodeBigIntList(data []byte) []*big.Int {
 	decoder := gob.NewDecoder(buf)
 	err := decoder.Decode(&arg)
 	if err != nil {
-		log.Fatal(err)
+		panic(err)
 	}
 	return arg
 }
@@ -173,7 +172,7 @@ func DecodeARGnonneg(data []byte) *fujiokam.ARGnonneg {
 	decoder := gob.NewDecoder(buf)
 	err := decoder.Decode(arg)
 	if err != nil {
-		log.Fatal(err)
+		panic(err)
 	}
 	return arg
 }
@@ -198,7 +197,7 @@ func DecodeARGequal(data []byte) *pedersen_fujiokam.ARGequal {
 	decoder := gob.NewDecoder(buf)
 	err := decoder.Decode(arg)
 	if err != nil {
-		log.Fatal(err)
+		panic(err)
 	}
 	return arg
 }
@@ -249,7 +248,7 @@ func DecodeIntArray(data []byte) []int {
 	decoder := gob.NewDecoder(buf)
 	err := decoder.Decode(&arr)
 	if err != nil {
-		log.Fatal(err)
+		panic(err)
 	}
 	return arr
 }
@@ -272,7 +271,7 @@ func ProtobufDecodePointList(bytes []byte) []abstract.Point {
 
 	var msg PointList
 	if err := protobuf.DecodeWithConstructors(bytes, &msg, cons); err != nil {
-		log.Fatal(err)
+		panic(err)
 	}
 	return msg.Points
 }
@@ -295,7 +294,7 @@ func ProtobufDecodeSecretList(bytes []byte) []abstract.Secret {
 
 	var msg SecretList
 	if err := protobuf.DecodeWithConstructors(bytes, &msg, cons); err != nil {
-		log.Fatal(err)
+		panic(err)
 	}
 	return msg.Secrets
 }
-- 
2.43.0


From f83515c908eacdfbce0b549fc559493605e1b14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 19/37] fix: keep listening when a peer resets or stalls its
 connection

A connection reset ended the process, a connection that was never closed
blocked it for good, and accepted connections were never closed.
---
 cmd/coordinator/CoordinatorLauncher.go | 8 +++++++-
 cmd/server/ServerLauncher.go           | 8 +++++++-
 util/Util.go                           | 4 ++++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 10a6c0d..6f02196 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -33,8 +33,14 @@ func startServerListener(listener *net.TCPListener) {
 		buf.Reset()
 		conn, err := listener.AcceptTCP()
 		util.CheckErr(err)
+		// a peer that breaks off or stalls only loses its own message
+		conn.SetReadDeadline(time.Now().Add(util.ReadTimeout))
 		_, err = io.Copy(buf, conn)
-		util.CheckErr(err)
+		conn.Close()
+		if err != nil {
+			fmt.Println("[note]** Failed to read a message:", err)
+			continue
+		}
 		Handle(buf.Bytes(), anonCoordinator)
 	}
 }
diff --git a/cmd/server/ServerLauncher.go b/cmd/server/ServerLauncher.go
index 83ce05c..2a4fbb0 100644
--- a/cmd/server/ServerLauncher.go
+++ b/cmd/server/ServerLauncher.go
@@ -45,8 +45,14 @@ func startAnonServerListener(listener *net.TCPListener) {
 		buf.Reset()
 		conn, err := listener.AcceptTCP()
 		util.CheckErr(err)
+		// a peer that breaks off or stalls only loses its own message
+		conn.SetReadDeadline(time.Now().Add(util.ReadTimeout))
 		_, err = io.Copy(buf, conn)
-		util.CheckErr(err)
+		conn.Close()
+		if err != nil {
+			fmt.Println("[note]** Failed to read a message:", err)
+			continue
+		}
 		Handle(buf.Bytes(), anonServer)
 	}
 }
diff --git a/util/Util.go b/util/Util.go
index 45e62c5..e321bf1 100644
--- a/util/Util.go
+++ b/util/Util.go
@@ -12,6 +12,7 @@ import (
 	"encoding/gob"
 	"net"
 	"reflect"
+	"time"
 
 	"github.com/dedis/crypto/nist"
 	"go.dedis.ch/protobuf"
@@ -57,6 +58,9 @@ func Encode(event interface{}) []byte {
 	return network.Bytes()
 }
 
+// ReadTimeout is the time a peer has to deliver a message once it is connected
+const ReadTimeout = 5 * time.Second
+
 func SendEvent(laddr, raddr *net.TCPAddr, event *proto.Event) {
 	event.SrcAddr = laddr.String()
 	content := Encode(event)
-- 
2.43.0


From 68a17a972adaf213f49b05487daaf3b96158637b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 20/37] fix: keep the round going for the others when a client
 has left

Sending to a client that is no longer there ended the coordinator, whatever
the round it was in; the client's exit command does not unregister it.
---
 cmd/coordinator/CoordinatorHandler.go  | 19 +++++++++++++------
 cmd/coordinator/CoordinatorLauncher.go |  6 +++---
 cmd/server/ServerLauncher.go           |  2 +-
 util/Util.go                           | 20 ++++++++++++++------
 4 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 7f4664d..df97d4b 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -77,6 +77,13 @@ func Handle(buf []byte, tmpCoordinator *Coordinator) {
 }
 
 
+// send an event to a client, which may have left without telling us
+func sendToClient(addr *net.TCPAddr, event *proto.Event) {
+	if err := util.TrySendEvent(anonCoordinator.LocalAddr, addr, event); err != nil {
+		fmt.Println("[note]** Failed to reach client:", err)
+	}
+}
+
 // Handler for ANNOUNCEMENT event
 // finish announcement and send start message signal to the clients
 func handleAnnouncement(params map[string]interface{}) {
@@ -118,7 +125,7 @@ func handleAnnouncement(params map[string]interface{}) {
 	}
 	event := &proto.Event{EventType:proto.ANNOUNCEMENT_FINALIZE, Params:pm}
 	for _,addr := range anonCoordinator.Clients {
-		util.SendEvent(anonCoordinator.LocalAddr, addr, event)
+		sendToClient(addr, event)
 	}
 
 	// distribute g adn table to servers
@@ -214,7 +221,7 @@ func handleClientRegisterControllerSide(params map[string]interface{}, addr *net
 		"g": util.EncodePoint(anonCoordinator.G),
 	}
 	event = &proto.Event{EventType:proto.INIT_PEDERSEN_R, Params:pm}
-	util.SendEvent(anonCoordinator.LocalAddr, addr, event)
+	sendToClient(addr, event)
 }
 
 // handle client register successful event
@@ -253,7 +260,7 @@ func handleClientRegisterServerSide(params map[string]interface{}) {
 		"public_key": bytePublicKey,
 	}
 	event := &proto.Event{EventType:proto.CLIENT_REGISTER_CONFIRMATION, Params:pm}
-	util.SendEvent(anonCoordinator.LocalAddr, addr, event)
+	sendToClient(addr, event)
 
 	// instead of sending new client to server, we will send it when finishing this round. Currently we just add it into buffer
 	anonCoordinator.AddClientInBuffer(nym, PComm)
@@ -276,7 +283,7 @@ func handleGnHonestyChallenge(params map[string]interface{}, senderAddr *net.TCP
 		"honesty_ans": util.ProtobufEncodeBigIntList(answer),
 	}
 	event := &proto.Event{EventType:proto.GN_HONESTY_ANSWER, Params:pm}
-	util.SendEvent(anonCoordinator.LocalAddr, senderAddr, event)
+	sendToClient(senderAddr, event)
 }
 // verify the posting message and record the bridge
 func handlePostBridge(params map[string]interface{}, senderAddr *net.TCPAddr) {
@@ -451,7 +458,7 @@ func handleGotSignatures(params map[string]interface{}, senderAddr *net.TCPAddr)
 			pm["signature"] = byteSig
 			// send
 			event := &proto.Event{EventType:proto.GOT_SIGNS, Params:pm}
-			util.SendEvent(anonCoordinator.LocalAddr, requesterIP, event)
+			sendToClient(requesterIP, event)
 		}
 	}
 }
@@ -702,7 +709,7 @@ func handleRoundEnd(params map[string]interface{}) {
 	}
 	event := &proto.Event{EventType:proto.ROUND_END, Params:pm}
 	for _, addr := range anonCoordinator.Clients {
-		util.SendEvent(anonCoordinator.LocalAddr, addr, event)
+		sendToClient(addr, event)
 	}
 	time.Sleep(500 * time.Millisecond)
 	anonCoordinator.Status = READY_FOR_NEW_ROUND
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 6f02196..7bc416f 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -34,7 +34,7 @@ func startServerListener(listener *net.TCPListener) {
 		conn, err := listener.AcceptTCP()
 		util.CheckErr(err)
 		// a peer that breaks off or stalls only loses its own message
-		conn.SetReadDeadline(time.Now().Add(util.ReadTimeout))
+		conn.SetReadDeadline(time.Now().Add(util.PeerTimeout))
 		_, err = io.Copy(buf, conn)
 		conn.Close()
 		if err != nil {
@@ -194,7 +194,7 @@ func roundEnd() {
 	}
 	event = &proto.Event{EventType:proto.BCAST_PEDERSEN_RDIFF, Params:pm}
 	for _, addr := range anonCoordinator.Clients {
-		util.SendEvent(anonCoordinator.LocalAddr, addr, event)
+		sendToClient(addr, event)
 	}
 
 	// clear bridges
@@ -211,7 +211,7 @@ func vote() {
 	pm := map[string]interface{} {}
 	event := &proto.Event{EventType:proto.VOTE, Params:pm}
 	for _, addr :=  range anonCoordinator.Clients {
-		util.SendEvent(anonCoordinator.LocalAddr, addr, event)
+		sendToClient(addr, event)
 	}
 }
 
diff --git a/cmd/server/ServerLauncher.go b/cmd/server/ServerLauncher.go
index 2a4fbb0..cca18a8 100644
--- a/cmd/server/ServerLauncher.go
+++ b/cmd/server/ServerLauncher.go
@@ -46,7 +46,7 @@ func startAnonServerListener(listener *net.TCPListener) {
 		conn, err := listener.AcceptTCP()
 		util.CheckErr(err)
 		// a peer that breaks off or stalls only loses its own message
-		conn.SetReadDeadline(time.Now().Add(util.ReadTimeout))
+		conn.SetReadDeadline(time.Now().Add(util.PeerTimeout))
 		_, err = io.Copy(buf, conn)
 		conn.Close()
 		if err != nil {
diff --git a/util/Util.go b/util/Util.go
index e321bf1..0f9b355 100644
--- a/util/Util.go
+++ b/util/Util.go
@@ -58,18 +58,26 @@ func Encode(event interface{}) []byte {
 	return network.Bytes()
 }
 
-// ReadTimeout is the time a peer has to deliver a message once it is connected
-const ReadTimeout = 5 * time.Second
+// PeerTimeout is the time a peer has to deliver a message once it is connected, or to take one
+const PeerTimeout = 5 * time.Second
 
 func SendEvent(laddr, raddr *net.TCPAddr, event *proto.Event) {
+	CheckErr(TrySendEvent(laddr, raddr, event))
+}
+
+// TrySendEvent is SendEvent for a receiver that may have left
+func TrySendEvent(laddr, raddr *net.TCPAddr, event *proto.Event) error {
 	event.SrcAddr = laddr.String()
 	content := Encode(event)
 	// fmt.Fprintln(os.Stderr, "send size=", len(content))
-	conn, err := net.DialTCP("tcp", nil, raddr)
-	CheckErr(err)
+	conn, err := net.DialTimeout("tcp", raddr.String(), PeerTimeout)
+	if err != nil {
+		return err
+	}
+	defer conn.Close()
+	conn.SetWriteDeadline(time.Now().Add(PeerTimeout))
 	_, err = conn.Write(content)
-	CheckErr(err)
-	conn.Close()
+	return err
 }
 
 func DecodeEvent(content []byte) (*proto.Event, *net.TCPAddr) {
-- 
2.43.0


From ca8fc0f0fc6552620458a6b92de7c37952f92560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 21/37] fix: guard the state that the listener shares with the
 main goroutine

In all three roles the listener goroutine and the main goroutine read and
wrote the same maps and fields without synchronisation (for the coordinator
this includes concurrent map access, which ends the process).
---
 cmd/client/ClientHandler.go            |  6 +++++
 cmd/client/ClientLauncher.go           | 14 ++++++++++-
 cmd/coordinator/CoordinatorHandler.go  |  5 ++++
 cmd/coordinator/CoordinatorLauncher.go | 35 +++++++++++++++++---------
 cmd/server/AnonServerHandler.go        |  6 +++++
 cmd/server/ServerLauncher.go           |  5 +++-
 6 files changed, 57 insertions(+), 14 deletions(-)

diff --git a/cmd/client/ClientHandler.go b/cmd/client/ClientHandler.go
index dfb078b..b52747a 100644
--- a/cmd/client/ClientHandler.go
+++ b/cmd/client/ClientHandler.go
@@ -3,6 +3,7 @@ package client
 import (
 	"fmt"
 	"math/big"
+	"sync"
 	// "strconv"
 	"zRep/cmd/bridge"
 	"zRep/primitive/fujiokam"
@@ -11,7 +12,12 @@ import (
 	// "github.com/dedis/crypto/abstract"
 )
 
+// mu guards the client, which the listener and the user's commands in Launch share
+var mu sync.Mutex
+
 func Handle(buf []byte, dissentClient *DissentClient) {
+	mu.Lock()
+	defer mu.Unlock()
 	// decode the whole message
 	event, _ := util.DecodeEvent(buf)
 	switch event.EventType {
diff --git a/cmd/client/ClientLauncher.go b/cmd/client/ClientLauncher.go
index f4fbe03..f6054e7 100644
--- a/cmd/client/ClientLauncher.go
+++ b/cmd/client/ClientLauncher.go
@@ -311,7 +311,13 @@ func Launch() {
 	register()
 
 	// wait until register successful
-	for ; dissentClient.Status != MESSAGE ; {
+	for {
+		mu.Lock()
+		isReady := dissentClient.Status == MESSAGE
+		mu.Unlock()
+		if isReady {
+			break
+		}
 		time.Sleep(500 * time.Millisecond)
 	}
 
@@ -330,15 +336,21 @@ func Launch() {
 		case "vote":
 			msgID,_ := strconv.Atoi(commands[1])
 			vote, _ := strconv.Atoi(commands[2])
+			mu.Lock()
 			sendVote(msgID, vote)
+			mu.Unlock()
 			break
 		case "post":
 			bridgeAddr := commands[1]
+			mu.Lock()
 			postBridge(bridgeAddr)
+			mu.Unlock()
 			break
 		case "get":
 			ind,_ := strconv.Atoi(commands[1])
+			mu.Lock()
 			requestBridges(ind)
+			mu.Unlock()
 			break
 		case "exit":
 			break Loop
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index df97d4b..abc9996 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -6,6 +6,7 @@ import (
 	"net"
 	"strconv"
 	// "strings"
+	"sync"
 	"time"
 
 	"zRep/primitive/lrs"
@@ -19,10 +20,14 @@ import (
 
 var anonCoordinator *Coordinator
 
+// mu guards anonCoordinator, which the listener and the life cycle in Launch share
+var mu sync.Mutex
 
 // Handle Use tmpCoordinator to handle data sent from addr.
 // The data is stored at buf
 func Handle(buf []byte, tmpCoordinator *Coordinator) {
+	mu.Lock()
+	defer mu.Unlock()
 	// decode the whole message
 	anonCoordinator = tmpCoordinator
 	// a message that cannot be decoded or handled must not take the others down
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 7bc416f..3ae69ac 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -235,6 +235,19 @@ func waitKeypress(prompt string) {
 	reader.ReadLine()
 }
 
+// wait until the listener or the life cycle has changed the status
+func waitStatus(status int, interval time.Duration) {
+	for {
+		mu.Lock()
+		reached := anonCoordinator.Status == status
+		mu.Unlock()
+		if reached {
+			return
+		}
+		time.Sleep(interval)
+	}
+}
+
 var isFirstRound bool = true
 func Launch() {
 	// init coordinator
@@ -247,6 +260,7 @@ func Launch() {
 	fmt.Println("** Note: Type ok to finish the server configuration. **")
 	// wait keypress to start life cycle
 	waitKeypress("Press ENTER to start:\n")
+	mu.Lock()
 	fmt.Println("[debug] Servers in the current network:")
 	for _,info := range anonCoordinator.ServerList {
 		fmt.Println("[debug] *", info.Addr)
@@ -254,14 +268,11 @@ func Launch() {
 	fmt.Println("[debug] Configuring parameters of commitments.")
 	configCommParams()
 	anonCoordinator.Status = READY_FOR_NEW_ROUND
+	mu.Unlock()
 	for {
 		// wait for the status changed to READY_FOR_NEW_ROUND
-		for {
-			if anonCoordinator.Status == READY_FOR_NEW_ROUND {
-				break
-			}
-			time.Sleep(10 * time.Millisecond)
-		}
+		waitStatus(READY_FOR_NEW_ROUND, 10 * time.Millisecond)
+		mu.Lock()
 		// add fake clients in the first round
 		if isFirstRound {
 			addFakeClients(10)
@@ -278,20 +289,20 @@ func Launch() {
 		anonCoordinator.Status = ANNOUNCE
 		fmt.Println("[coordinator] Announcement phase started...")
 		announce()
-		for {
-			if anonCoordinator.Status == MESSAGE {
-				break
-			}
-			time.Sleep(1000 * time.Millisecond)
-		}
+		mu.Unlock()
+		waitStatus(MESSAGE, 1000 * time.Millisecond)
 		// posting phase
 		fmt.Println("[coordinator] Posting phase started...")
 		waitKeypress("Press ENTER to end posting:\n")
 		// voting phase
+		mu.Lock()
 		vote()
+		mu.Unlock()
 		fmt.Println("[coordinator] Voting phase started...")
 		waitKeypress("Press ENTER to finish voting:\n")
 		// ending phase
+		mu.Lock()
 		roundEnd()
+		mu.Unlock()
 	}
 }
diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index 5f9081d..b9da4b2 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"math/big"
 	"net"
+	"sync"
 	"zRep/cmd/bridge"
 	"zRep/proto"
 	"zRep/util"
@@ -19,7 +20,12 @@ import (
 
 var anonServer *AnonServer
 
+// mu guards anonServer, which the listener and Launch share
+var mu sync.Mutex
+
 func Handle(buf []byte, tmpServer *AnonServer) {
+	mu.Lock()
+	defer mu.Unlock()
 	// decode the whole message
 	byteArr := make([]util.ByteArray, 2)
 	gob.Register(byteArr)
diff --git a/cmd/server/ServerLauncher.go b/cmd/server/ServerLauncher.go
index cca18a8..b94288c 100644
--- a/cmd/server/ServerLauncher.go
+++ b/cmd/server/ServerLauncher.go
@@ -117,7 +117,10 @@ func Launch() {
 
 	// wait until register successful
 	for {
-		if anonServer.IsConnected {
+		mu.Lock()
+		isConnected := anonServer.IsConnected
+		mu.Unlock()
+		if isConnected {
 			break
 		}
 		time.Sleep(1000 * time.Millisecond)
-- 
2.43.0


From 8b8f8550bc32df8170a08c9235e34f0ab4384377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 22/37] fix: take the events of a round only in their phase

A vote between the end of the round and the servers' answer changed the
voted client's reputation but not its commitment, and a post or a signature
that came late carried a nym of the last round into the next one.
---
 cmd/coordinator/CoordinatorHandler.go  | 15 +++++++++++++++
 cmd/coordinator/CoordinatorLauncher.go |  2 ++
 cmd/coordinator/CoordinatorStatus.go   |  2 ++
 3 files changed, 19 insertions(+)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index abc9996..ca342e9 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -23,6 +23,16 @@ var anonCoordinator *Coordinator
 // mu guards anonCoordinator, which the listener and the life cycle in Launch share
 var mu sync.Mutex
 
+// the events that belong to one phase of a round, they are dropped outside of it
+var phaseOfEvent = map[int]int{
+	proto.ANNOUNCEMENT: ANNOUNCE,
+	proto.POST_BRIDGE: MESSAGE,
+	proto.REQUEST_BRIDGES: MESSAGE,
+	proto.GOT_SIGNS: MESSAGE,
+	proto.VOTE: MESSAGE,
+	proto.ROUND_END: ENDING,
+}
+
 // Handle Use tmpCoordinator to handle data sent from addr.
 // The data is stored at buf
 func Handle(buf []byte, tmpCoordinator *Coordinator) {
@@ -38,6 +48,11 @@ func Handle(buf []byte, tmpCoordinator *Coordinator) {
 	}()
 	event, addr := util.DecodeEvent(buf)
 
+	if phase, ok := phaseOfEvent[event.EventType]; ok && phase != anonCoordinator.Status {
+		fmt.Println("[note]** Dropped an event of another phase:", event.EventType)
+		return
+	}
+
 	switch event.EventType {
 	case proto.SERVER_REGISTER:
 		handleServerRegister(event.Params, addr)
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 3ae69ac..31fce9b 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -107,6 +107,7 @@ func clearBuffer() {
 	// msg sender's record nym
 	anonCoordinator.MsgLog = nil
 	anonCoordinator.RequesterAddrs = make(map[string]*net.TCPAddr)
+	anonCoordinator.AssignmentSignaturesLog = make(map[string]AssignmentSignatures)
 	anonCoordinator.SeenRequests = make(map[string]bool)
 	anonCoordinator.VotedAssignments = make(map[string]bool)
 }
@@ -148,6 +149,7 @@ func announce() {
  * add new clients into the reputation map
  */
 func roundEnd() {
+	anonCoordinator.Status = ENDING
 	lastServer := anonCoordinator.GetLastServerAddr()
 	if lastServer == nil {
 		anonCoordinator.Status = READY_FOR_NEW_ROUND
diff --git a/cmd/coordinator/CoordinatorStatus.go b/cmd/coordinator/CoordinatorStatus.go
index a8b34ab..f4f4ce6 100644
--- a/cmd/coordinator/CoordinatorStatus.go
+++ b/cmd/coordinator/CoordinatorStatus.go
@@ -8,3 +8,5 @@ const ANNOUNCE = 2;
 const MESSAGE = 3;
 const VOTE = 4;
 const SERVER_CONFIGURATION = 5;
+const ENDING = 6;
+
-- 
2.43.0


From 0015ef11c43578d56a6612613bed135cfa76a04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 23/37] fix: register a client whenever it comes

A registration before the first announcement crashed the coordinator (no g
yet), one during the announcement gave the client the previous round's g, and
one that crossed the end of the round lost or mixed up the new client's nym.
---
 cmd/coordinator/Coordinator.go         |  9 +++++++++
 cmd/coordinator/CoordinatorHandler.go  | 27 ++++++++++++++++++++++++++
 cmd/coordinator/CoordinatorLauncher.go | 14 +++++++++++--
 3 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 1a9b20b..cd573b7 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -35,6 +35,11 @@ type GnHonestyProof struct {
 	Public []*big.Int
 }
 
+type PendingClient struct {
+	Params map[string]interface{}
+	Addr *net.TCPAddr
+}
+
 type ServerInfo struct {
 	Addr *net.TCPAddr
 	PublicKey abstract.Point
@@ -64,6 +69,10 @@ type Coordinator struct {
 	// store reputation map
 	BeginningKeyMap map[string]abstract.Point
 	BeginningCommMap map[string]abstract.Point
+	// registrations that wait for the next round to open
+	PendingClients []PendingClient
+	// map a new client's address to its commitment while the servers compute its nym
+	Registering map[string][]byte
 	// we only add new clients at the beginning of each round
 	// store the new clients's one-time pseudo nym
 	NewClientsBuffer []ClientTuple
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index ca342e9..a4115d8 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -1,6 +1,7 @@
 package coordinator
 
 import (
+	"bytes"
 	"fmt"
 	// "math/big"
 	"net"
@@ -157,6 +158,13 @@ func handleAnnouncement(params map[string]interface{}) {
 	// set controller's new g
 	anonCoordinator.G = g
 	anonCoordinator.Status = MESSAGE
+
+	// register the clients that came before
+	pending := anonCoordinator.PendingClients
+	anonCoordinator.PendingClients = nil
+	for _,client := range pending {
+		handleClientRegisterControllerSide(client.Params, client.Addr)
+	}
 }
 
 // handle server register request
@@ -213,6 +221,11 @@ func handleUpdatePedersenH(params map[string]interface{}) {
 func handleClientRegisterControllerSide(params map[string]interface{}, addr *net.TCPAddr) {
 	// get client's public key
 	publicKey := util.DecodePoint(anonCoordinator.Suite, params["public_key"].([]byte))
+	// g and the servers' round keys only stay the same while a round is open
+	if anonCoordinator.Status != MESSAGE {
+		anonCoordinator.PendingClients = append(anonCoordinator.PendingClients, PendingClient{Params:params, Addr:addr})
+		return
+	}
 	if _, ok := anonCoordinator.Clients[publicKey.String()]; ok {
 		fmt.Println("[note]** This public key has been registered already")
 		return
@@ -233,6 +246,7 @@ func handleClientRegisterControllerSide(params map[string]interface{}, addr *net
 		"pcomm": util.EncodePoint(PComm),
 	}
 	event := &proto.Event{EventType:proto.CLIENT_REGISTER_SERVERSIDE, Params:pm}
+	anonCoordinator.Registering[addr.String()] = pm["pcomm"].([]byte)
 	util.SendEvent(anonCoordinator.LocalAddr, firstServer, event)
 
 	// send initial r to client
@@ -254,6 +268,14 @@ func handleClientRegisterServerSide(params map[string]interface{}) {
 	err := PComm.UnmarshalBinary(params["pcomm"].([]byte))
 	util.CheckErr(err)
 
+	// it has to be a registration we have sent to the servers
+	bytePComm, ok := anonCoordinator.Registering[params["addr"].(string)]
+	if !ok || !bytes.Equal(bytePComm, params["pcomm"].([]byte)) {
+		fmt.Println("[note]** Unexpected registration")
+		return
+	}
+	delete(anonCoordinator.Registering, params["addr"].(string))
+
 	// encode h from Pedersen Commitment base
 	// byteHT, err := anonCoordinator.PedersenBase.HT.MarshalBinary()
 	// util.CheckErr(err)
@@ -284,6 +306,11 @@ func handleClientRegisterServerSide(params map[string]interface{}) {
 
 	// instead of sending new client to server, we will send it when finishing this round. Currently we just add it into buffer
 	anonCoordinator.AddClientInBuffer(nym, PComm)
+
+	// the end of the round may have waited for it
+	if anonCoordinator.Status == ENDING && len(anonCoordinator.Registering) == 0 {
+		closeRound()
+	}
 }
 
 func handleGnHonestyChallenge(params map[string]interface{}, senderAddr *net.TCPAddr) {
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 31fce9b..684e75b 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -69,6 +69,7 @@ func initCoordinator() {
 		Clients: make(map[string]*net.TCPAddr),
 		BeginningKeyMap: make(map[string]abstract.Point),
 		BeginningCommMap: make(map[string]abstract.Point),
+		Registering: make(map[string][]byte),
 		NewClientsBuffer: nil,
 		MsgLog: nil,
 		AssignmentSignaturesLog: make(map[string]AssignmentSignatures),
@@ -145,11 +146,20 @@ func announce() {
 }
 
 /**
- * send round-end signal to last server in topology
- * add new clients into the reputation map
+ * end the round, as soon as no registration is on its way through the servers
  */
 func roundEnd() {
 	anonCoordinator.Status = ENDING
+	if len(anonCoordinator.Registering) == 0 {
+		closeRound()
+	}
+}
+
+/**
+ * send round-end signal to last server in topology
+ * add new clients into the reputation map
+ */
+func closeRound() {
 	lastServer := anonCoordinator.GetLastServerAddr()
 	if lastServer == nil {
 		anonCoordinator.Status = READY_FOR_NEW_ROUND
-- 
2.43.0


From 420901866ec2ea751cc12f560ac5db9a00798469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 24/37] fix: register servers one after another, and only
 before the first round

Two servers that registered at once both built on the same h, so that one
contribution was lost (and the coordinator could start before the last one had
arrived); a late server broke the running round's chain; and an update of h was
taken from anyone at any time, even when it did not decode.
---
 cmd/coordinator/Coordinator.go         | 15 ++++++
 cmd/coordinator/CoordinatorHandler.go  | 65 ++++++++++++++++++--------
 cmd/coordinator/CoordinatorLauncher.go | 22 +++++----
 3 files changed, 74 insertions(+), 28 deletions(-)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index cd573b7..057ac3d 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -40,6 +40,11 @@ type PendingClient struct {
 	Addr *net.TCPAddr
 }
 
+type PendingServer struct {
+	Params map[string]interface{}
+	Addr *net.TCPAddr
+}
+
 type ServerInfo struct {
 	Addr *net.TCPAddr
 	PublicKey abstract.Point
@@ -50,6 +55,10 @@ type Coordinator struct {
 	LocalAddr *net.TCPAddr
 	// network topology for server cluster
 	ServerList []ServerInfo
+	// the server that has been told h, but has not sent its update of h yet
+	RegisteringServer *net.TCPAddr
+	// registrations that wait for that server
+	PendingServers []PendingServer
 	// initialize the controller status
 	Status int
 
@@ -151,6 +160,12 @@ func (c *Coordinator) GetServerIndex(serverAddr *net.TCPAddr) int {
 	return -1
 }
 
+// return true if addr is the address of the server whose update of h we wait for
+func (c *Coordinator) IsRegisteringServer(addr *net.TCPAddr) bool {
+	waiting := c.RegisteringServer
+	return waiting != nil && waiting.IP.Equal(addr.IP) && waiting.Port == addr.Port
+}
+
 func (c *Coordinator) SignMessage(msg []byte) []byte {
 	sig := util.ElGamalSign(c.Suite, random.Stream, msg, c.PrivateKey, nil)
 	return sig
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index a4115d8..8d2b487 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -24,8 +24,10 @@ var anonCoordinator *Coordinator
 // mu guards anonCoordinator, which the listener and the life cycle in Launch share
 var mu sync.Mutex
 
-// the events that belong to one phase of a round, they are dropped outside of it
+// the events that belong to one phase, they are dropped outside of it
 var phaseOfEvent = map[int]int{
+	proto.SERVER_REGISTER: CONFIGURATION,
+	proto.UPDATE_PEDERSEN_H: CONFIGURATION,
 	proto.ANNOUNCEMENT: ANNOUNCE,
 	proto.POST_BRIDGE: MESSAGE,
 	proto.REQUEST_BRIDGES: MESSAGE,
@@ -59,7 +61,7 @@ func Handle(buf []byte, tmpCoordinator *Coordinator) {
 		handleServerRegister(event.Params, addr)
 		break
 	case proto.UPDATE_PEDERSEN_H:
-		handleUpdatePedersenH(event.Params)
+		handleUpdatePedersenH(event.Params, addr)
 		break
 	case proto.CLIENT_REGISTER_CONTROLLERSIDE:
 		handleClientRegisterControllerSide(event.Params, addr)
@@ -173,20 +175,20 @@ func handleServerRegister(params map[string]interface{}, addr *net.TCPAddr) {
 	// fetch server's public key
 	publicKey := util.DecodePoint(anonCoordinator.Suite, params["public_key"].([]byte))
 
-	lastServer := anonCoordinator.GetLastServerAddr()
-
-	// link new server to the next_hop of last server
-	if lastServer != nil {
-		pm2 := map[string]interface{}{
-			"reply": true,
-			"next_hop": addr.String(),
-		}
-		event2 := &proto.Event{EventType:proto.UPDATE_NEXT_HOP, Params:pm2}
-		util.SendEvent(anonCoordinator.LocalAddr, lastServer, event2)
+	// every server builds on the previous one's h
+	if anonCoordinator.RegisteringServer != nil {
+		anonCoordinator.PendingServers = append(anonCoordinator.PendingServers, PendingServer{Params:params, Addr:addr})
+		return
+	}
+	if anonCoordinator.GetServerIndex(addr) >= 0 {
+		fmt.Println("[note]** This server has been registered already")
+		return
 	}
 
-	if lastServer == nil {
-		lastServer = anonCoordinator.LocalAddr
+	lastServer := anonCoordinator.GetLastServerAddr()
+	prevServer := lastServer
+	if prevServer == nil {
+		prevServer = anonCoordinator.LocalAddr
 	}
 	byteH, err := anonCoordinator.PedersenBase.HT.MarshalBinary()
 	util.CheckErr(err)
@@ -194,7 +196,7 @@ func handleServerRegister(params map[string]interface{}, addr *net.TCPAddr) {
 	fujiokamBase := anonCoordinator.FujiOkamBase
 	pm1 := map[string]interface{}{
 		"reply": true,
-		"prev_server": lastServer.String(),
+		"prev_server": prevServer.String(),
 		"h": byteH,
 		"n": fujiokamBase.N.Bytes(),
 		"g1": fujiokamBase.G1.ToBinary(),
@@ -206,14 +208,39 @@ func handleServerRegister(params map[string]interface{}, addr *net.TCPAddr) {
 		"h1": fujiokamBase.H1.ToBinary(),
 	}
 	event1 := &proto.Event{EventType:proto.SERVER_REGISTER_REPLY, Params:pm1}
-	util.SendEvent(anonCoordinator.LocalAddr, addr, event1)
+	if err := util.TrySendEvent(anonCoordinator.LocalAddr, addr, event1); err != nil {
+		fmt.Println("[note]** Failed to reach server:", err)
+		return
+	}
+
+	// link new server to the next_hop of last server
+	if lastServer != nil {
+		pm2 := map[string]interface{}{
+			"reply": true,
+			"next_hop": addr.String(),
+		}
+		event2 := &proto.Event{EventType:proto.UPDATE_NEXT_HOP, Params:pm2}
+		util.SendEvent(anonCoordinator.LocalAddr, lastServer, event2)
+	}
 
 	anonCoordinator.AddServer(addr, publicKey)
+	anonCoordinator.RegisteringServer = addr
 }
 
-func handleUpdatePedersenH(params map[string]interface{}) {
-	err := anonCoordinator.PedersenBase.HT.UnmarshalBinary(params["h"].([]byte))
-	util.CheckErr(err)
+func handleUpdatePedersenH(params map[string]interface{}, senderAddr *net.TCPAddr) {
+	if !anonCoordinator.IsRegisteringServer(senderAddr) {
+		fmt.Println("[note]** Unexpected update of h")
+		return
+	}
+	anonCoordinator.PedersenBase.HT = util.DecodePoint(anonCoordinator.Suite, params["h"].([]byte))
+	anonCoordinator.RegisteringServer = nil
+
+	// register the servers that came in between
+	pending := anonCoordinator.PendingServers
+	anonCoordinator.PendingServers = nil
+	for _,server := range pending {
+		handleServerRegister(server.Params, server.Addr)
+	}
 }
 
 // Handler for REGISTER event
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 684e75b..eec441b 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -247,19 +247,22 @@ func waitKeypress(prompt string) {
 	reader.ReadLine()
 }
 
-// wait until the listener or the life cycle has changed the status
-func waitStatus(status int, interval time.Duration) {
+// wait until the listener or the life cycle has established the condition, and return with mu locked
+func lockWhen(condition func() bool, interval time.Duration) {
 	for {
 		mu.Lock()
-		reached := anonCoordinator.Status == status
-		mu.Unlock()
-		if reached {
+		if condition() {
 			return
 		}
+		mu.Unlock()
 		time.Sleep(interval)
 	}
 }
 
+func lockWhenStatus(status int, interval time.Duration) {
+	lockWhen(func() bool { return anonCoordinator.Status == status }, interval)
+}
+
 var isFirstRound bool = true
 func Launch() {
 	// init coordinator
@@ -272,7 +275,8 @@ func Launch() {
 	fmt.Println("** Note: Type ok to finish the server configuration. **")
 	// wait keypress to start life cycle
 	waitKeypress("Press ENTER to start:\n")
-	mu.Lock()
+	// the last server may still be updating h
+	lockWhen(func() bool { return anonCoordinator.RegisteringServer == nil }, 10 * time.Millisecond)
 	fmt.Println("[debug] Servers in the current network:")
 	for _,info := range anonCoordinator.ServerList {
 		fmt.Println("[debug] *", info.Addr)
@@ -283,8 +287,7 @@ func Launch() {
 	mu.Unlock()
 	for {
 		// wait for the status changed to READY_FOR_NEW_ROUND
-		waitStatus(READY_FOR_NEW_ROUND, 10 * time.Millisecond)
-		mu.Lock()
+		lockWhenStatus(READY_FOR_NEW_ROUND, 10 * time.Millisecond)
 		// add fake clients in the first round
 		if isFirstRound {
 			addFakeClients(10)
@@ -302,7 +305,8 @@ func Launch() {
 		fmt.Println("[coordinator] Announcement phase started...")
 		announce()
 		mu.Unlock()
-		waitStatus(MESSAGE, 1000 * time.Millisecond)
+		lockWhenStatus(MESSAGE, 1000 * time.Millisecond)
+		mu.Unlock()
 		// posting phase
 		fmt.Println("[coordinator] Posting phase started...")
 		waitKeypress("Press ENTER to end posting:\n")
-- 
2.43.0


From e705f45c3c5a03e6434584d3d3fbba5bc9063ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:29 +0000
Subject: [PATCH 25/37] fix: refuse bytes after a signature

---
 util/Util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/Util.go b/util/Util.go
index 0f9b355..523f31c 100644
--- a/util/Util.go
+++ b/util/Util.go
@@ -432,6 +432,9 @@ signatureBuffer []byte, g abstract.Point) error {
 	if err := abstract.Read(buf, &sig, suite); err != nil {
 		return err
 	}
+	if buf.Len() != 0 {
+		return errors.New("malformed signature")
+	}
 	r := sig.R
 	c := sig.C
 
-- 
2.43.0


From 9f9074e39693f661e77fa9a0631a208b495fa84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:33 +0000
Subject: [PATCH 26/37] fix: refuse numbers outside of the group in the
 non-negative argument

---
 primitive/fujiokam/FujiOkamCommitment.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/primitive/fujiokam/FujiOkamCommitment.go b/primitive/fujiokam/FujiOkamCommitment.go
index 7798ebb..c26fb27 100644
--- a/primitive/fujiokam/FujiOkamCommitment.go
+++ b/primitive/fujiokam/FujiOkamCommitment.go
@@ -490,6 +490,12 @@ func (base *FujiOkamBase) ProveNonnegHelper(x *big.Int, commitx *Point, rc *big.
 }
 
 func (base *FujiOkamBase) VerifyNonneg(commitx *Point, arg *ARGnonneg) bool {
+	// the hash does not see the sign of a number
+	for _, v := range []*big.Int{commitx.ToBigInt(), arg.Commitrx, arg.C, arg.Cr} {
+		if v.Sign() <= 0 || v.Cmp(base.N) >= 0 {
+			return false
+		}
+	}
 	commitrx := base.Point().SetBigInt(arg.Commitrx)
 	C := base.Point().SetBigInt(arg.C)
 	Cr := base.Point().SetBigInt(arg.Cr)
-- 
2.43.0


From db5d38a3fea0121fd4d4f58d9e34b665496ce634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 27/37] fix: make the challenges of the shuffle proofs depend
 on the statement

The lists, keys and factors were not part of the transcript that the challenges
are hashed from, so they could be fitted to a finished proof, and a shuffle that
moves something from one plaintext to another verified.
---
 util/shuffle/biffle.go | 18 +++++++++++--
 util/shuffle/pair.go   | 61 ++++++++++++++++++++++++++++++++++++++++++
 util/shuffle/simple.go | 13 ++++++---
 3 files changed, 87 insertions(+), 5 deletions(-)

diff --git a/util/shuffle/biffle.go b/util/shuffle/biffle.go
index 50781ba..d5a7410 100644
--- a/util/shuffle/biffle.go
+++ b/util/shuffle/biffle.go
@@ -72,7 +72,14 @@ func Biffle(suite abstract.Suite, G, H abstract.Point,
 		"beta1": beta[1]}
 	points := bifflePoints(suite, G, H, X, Y, Xbar, Ybar)
 	choice := map[proof.Predicate]int{or: bit}
-	prover = or.Prover(suite, secrets, points, choice)
+	p0 := statement(suite, G, H, X[:], Y[:], Xbar[:], Ybar[:])
+	or_prover := or.Prover(suite, secrets, points, choice)
+	prover = func(ctx proof.ProverContext) error {
+		if err := p0.put(ctx); err != nil {
+			return err
+		}
+		return or_prover(ctx)
+	}
 	return
 }
 
@@ -82,7 +89,14 @@ func BiffleVerifier(suite abstract.Suite, G, H abstract.Point,
 
 	or := bifflePred()
 	points := bifflePoints(suite, G, H, X, Y, Xbar, Ybar)
-	return or.Verifier(suite, points)
+	p0 := statement(suite, G, H, X[:], Y[:], Xbar[:], Ybar[:])
+	or_verifier := or.Verifier(suite, points)
+	return func(ctx proof.VerifierContext) error {
+		if err := p0.get(suite, ctx); err != nil {
+			return err
+		}
+		return or_verifier(ctx)
+	}
 }
 
 func BiffleTest(suite abstract.Suite, N int) {
diff --git a/util/shuffle/pair.go b/util/shuffle/pair.go
index a970c06..40b1783 100644
--- a/util/shuffle/pair.go
+++ b/util/shuffle/pair.go
@@ -33,6 +33,12 @@ import (
 // accessible via the reflection API,
 // which refuses to touch unexported fields in a struct.
 
+// P (Prover) step 0: the statement that is proved
+type ega0 struct {
+	G, H             abstract.Point
+	X, Y, Xbar, Ybar []abstract.Point
+}
+
 // P (Prover) step 1: public commitments
 type ega1 struct {
 	Gamma            abstract.Point
@@ -40,6 +46,43 @@ type ega1 struct {
 	Lambda1, Lambda2 abstract.Point
 }
 
+// Write the statement into the transcript, so that all challenges depend on it.
+func (p0 *ega0) put(ctx proof.ProverContext) error {
+	return ctx.Put(p0)
+}
+
+// Read the statement from the transcript, which has to be about this one.
+func (p0 *ega0) get(grp abstract.Group, ctx proof.VerifierContext) error {
+	k := len(p0.X)
+	q := ega0{grp.Point(), grp.Point(), make([]abstract.Point, k), make([]abstract.Point, k),
+		make([]abstract.Point, k), make([]abstract.Point, k)}
+	if err := ctx.Get(&q); err != nil {
+		return err
+	}
+	good := q.G.Equal(p0.G) && q.H.Equal(p0.H)
+	for i := 0; i < k; i++ {
+		good = good && q.X[i].Equal(p0.X[i]) && q.Y[i].Equal(p0.Y[i]) &&
+			q.Xbar[i].Equal(p0.Xbar[i]) && q.Ybar[i].Equal(p0.Ybar[i])
+	}
+	if !good {
+		return errors.New("proof of another statement")
+	}
+	return nil
+}
+
+// The statement about these lists. If g or h is nil, the standard base point is used.
+func statement(grp abstract.Group, g, h abstract.Point,
+	X, Y, Xbar, Ybar []abstract.Point) *ega0 {
+	return &ega0{orBase(grp, g), orBase(grp, h), X, Y, Xbar, Ybar}
+}
+
+func orBase(grp abstract.Group, g abstract.Point) abstract.Point {
+	if g == nil {
+		return grp.Point().Base()
+	}
+	return g
+}
+
 // V (Verifier) step 2: random challenge t
 type ega2 struct {
 	Zrho []abstract.Secret
@@ -126,6 +169,19 @@ func (ps *PairShuffle) Prove(
 		panic("mismatched vector lengths")
 	}
 
+	// P step 0
+	Xbar := make([]abstract.Point, k)
+	Ybar := make([]abstract.Point, k)
+	for i := 0; i < k; i++ {
+		Xbar[i] = grp.Point().Mul(g, beta[pi[i]])
+		Xbar[i].Add(Xbar[i], X[pi[i]])
+		Ybar[i] = grp.Point().Mul(h, beta[pi[i]])
+		Ybar[i].Add(Ybar[i], Y[pi[i]])
+	}
+	if err := statement(grp, g, h, X, Y, Xbar, Ybar).put(ctx); err != nil {
+		return err
+	}
+
 	// Compute pi^-1 inverse permutation
 	piinv := make([]int, k)
 	for i := 0; i < k; i++ {
@@ -235,6 +291,11 @@ func (ps *PairShuffle) Verify(
 		panic("mismatched vector lengths")
 	}
 
+	// P step 0
+	if err := statement(grp, g, h, X, Y, Xbar, Ybar).get(grp, ctx); err != nil {
+		return err
+	}
+
 	// P step 1
 	p1 := &ps.p1
 	if err := ctx.Get(p1); err != nil {
diff --git a/util/shuffle/simple.go b/util/shuffle/simple.go
index 273f096..a687796 100644
--- a/util/shuffle/simple.go
+++ b/util/shuffle/simple.go
@@ -13,8 +13,9 @@ import (
 
 // P (Prover) step 0: public inputs to the simple k-shuffle.
 type ssa0 struct {
-	X []abstract.Point
-	Y []abstract.Point
+	G, Gamma abstract.Point
+	X        []abstract.Point
+	Y        []abstract.Point
 }
 
 // V (Verifier) step 1: random challenge t
@@ -104,6 +105,8 @@ func (ss *SimpleShuffle) Prove(G abstract.Point, gamma abstract.Secret,
 	//	}
 
 	// Step 0: inputs
+	ss.p0.G = orBase(grp, G)
+	ss.p0.Gamma = grp.Point().Mul(G, gamma)
 	for i := 0; i < k; i++ { // (4)
 		ss.p0.X[i] = grp.Point().Mul(G, x[i])
 		ss.p0.Y[i] = grp.Point().Mul(G, y[i])
@@ -204,9 +207,13 @@ func (ss *SimpleShuffle) Verify(G, Gamma abstract.Point,
 	}
 
 	// check verifiable challenges (usually by reproducing a hash)
-	if err := ctx.Get(ss.p0); err != nil {
+	ss.p0.G, ss.p0.Gamma = grp.Point(), grp.Point()
+	if err := ctx.Get(&ss.p0); err != nil {
 		return err
 	}
+	if !ss.p0.G.Equal(orBase(grp, G)) || !ss.p0.Gamma.Equal(orBase(grp, Gamma)) {
+		return errors.New("proof of another statement")
+	}
 	if err := ctx.PubRand(&ss.v1); err != nil { // fills in v1
 		return err
 	}
-- 
2.43.0


From d34eecc53e9197cbc7ab715aae73e5c5bb9349f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:51 +0000
Subject: [PATCH 28/37] fix: refuse a table that is not the one that was
 shuffled

A server verified a proof only when the previous one said that there was one, and
then went on with whatever keys came along with it.
---
 cmd/server/AnonServerHandler.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index b9da4b2..2809956 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -69,7 +69,28 @@ func Handle(buf []byte, tmpServer *AnonServer) {
 	}
 }
 
+// return true if both lists have the same points, in any order
+func samePoints(list1, list2 []abstract.Point) bool {
+	count := make(map[string]int)
+	for _,point := range list1 {
+		count[point.String()]++
+	}
+	for _,point := range list2 {
+		count[point.String()]--
+	}
+	for _,n := range count {
+		if n != 0 {
+			return false
+		}
+	}
+	return true
+}
+
 func verifyNeffShuffle(params map[string]interface{}) {
+	keyList := util.ProtobufDecodePointList(params["keys"].([]byte))
+	if _, shuffled := params["shuffled"]; !shuffled && len(keyList) > 1 {
+		panic("The table is not shuffled")
+	}
 	if _, shuffled := params["shuffled"]; shuffled {
 		// get all the necessary parameters
 		xbarList := util.ProtobufDecodePointList(params["xbar"].([]byte))
@@ -86,6 +107,10 @@ func verifyNeffShuffle(params map[string]interface{}) {
 		if err != nil {
 			panic("Shuffle verify failed: " + err.Error())
 		}
+		// the proof is about the keys of the table
+		if !samePoints(keyList, prevValList) {
+			panic("Shuffle verify failed: proof for another table")
+		}
 	}
 }
 
-- 
2.43.0


From 4047baf800ccf990268702aaf1fa28a5ef0fc443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:14 +0000
Subject: [PATCH 29/37] fix: refuse a table that the servers have sent before

A table of an earlier round that reached the coordinator again, in the phase in which it
waits for a new one, was taken for the new one.
---
 cmd/coordinator/Coordinator.go         | 11 +++++++++++
 cmd/coordinator/CoordinatorHandler.go  | 15 +++++++++++++++
 cmd/coordinator/CoordinatorLauncher.go |  1 +
 3 files changed, 27 insertions(+)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index 057ac3d..cfe0e1d 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -96,6 +96,8 @@ type Coordinator struct {
 	SeenRequests map[string]bool
 	// assignments that have been voted on in this round
 	VotedAssignments map[string]bool
+	// tables that the servers have sent, in any round
+	SeenTables map[string]bool
 
 	Bridges map[string]BridgeInfo
 
@@ -289,6 +291,15 @@ func (c *Coordinator) IsRepeatedRequest(byteMsg []byte) bool {
 	return false
 }
 
+// return true if a table of these keys and commitments has been accepted before, in whatever round
+func (c *Coordinator) IsSeenTable(byteKeys, byteVals []byte) bool {
+	return c.SeenTables[string(byteKeys)+string(byteVals)]
+}
+
+func (c *Coordinator) AddToSeenTables(byteKeys, byteVals []byte) {
+	c.SeenTables[string(byteKeys)+string(byteVals)] = true
+}
+
 func (c *Coordinator) ClearVoteRecords() {
 	c.VoteRecords = []*big.Int{}
 }
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 8d2b487..98288b4 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -117,6 +117,12 @@ func handleAnnouncement(params map[string]interface{}) {
 	// 	anonCoordinator.Status = MESSAGE
 	// 	return
 	// }
+	byteKeys := params["keys"].([]byte)
+	byteVals := params["vals"].([]byte)
+	if anonCoordinator.IsSeenTable(byteKeys, byteVals) {
+		fmt.Println("[note]** Repeated table")
+		return
+	}
 	g := util.DecodePoint(anonCoordinator.Suite, params["g"].([]byte))
 	anonCoordinator.LRSBase = lrs.CreateBase(util.PointToBigInt(g))
 
@@ -157,6 +163,8 @@ func handleAnnouncement(params map[string]interface{}) {
 		util.SendEvent(anonCoordinator.LocalAddr, server.Addr, event)
 	}
 
+	anonCoordinator.AddToSeenTables(byteKeys, byteVals)
+
 	// set controller's new g
 	anonCoordinator.G = g
 	anonCoordinator.Status = MESSAGE
@@ -748,6 +756,12 @@ func handleVote(params map[string]interface{}, senderAddr *net.TCPAddr) {
 // Handler for ROUND_END event
 // send user round end notification
 func handleRoundEnd(params map[string]interface{}) {
+	byteNewKeys := params["keys"].([]byte)
+	byteNewVals := params["vals"].([]byte)
+	if anonCoordinator.IsSeenTable(byteNewKeys, byteNewVals) {
+		fmt.Println("[note]** Repeated table")
+		return
+	}
 	// review reputation map
 	keyList := util.ProtobufDecodePointList(params["keys"].([]byte))
 	valList := util.ProtobufDecodePointList(params["vals"].([]byte))
@@ -785,6 +799,7 @@ func handleRoundEnd(params map[string]interface{}) {
 	for _, addr := range anonCoordinator.Clients {
 		sendToClient(addr, event)
 	}
+	anonCoordinator.AddToSeenTables(byteNewKeys, byteNewVals)
 	time.Sleep(500 * time.Millisecond)
 	anonCoordinator.Status = READY_FOR_NEW_ROUND
 }
\ No newline at end of file
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index eec441b..285b3ba 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -80,6 +80,7 @@ func initCoordinator() {
 		PedersenBase: pedersenBase,
 		FujiOkamBase: fujiokamBase,
 		GnHonestyProofs: make(map[string]GnHonestyProof),
+		SeenTables: make(map[string]bool),
 	}
 }
 
-- 
2.43.0


From aaf343b7b7695b46f97a3d33d62685dfd4986f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:11 +0000
Subject: [PATCH 30/37] fix: only the ends of the chain take a table without a
 shuffle proof

A server in the middle skipped the verification of the previous server's shuffle when the
message had no generator, or claimed to come from the coordinator.
---
 cmd/server/AnonServerHandler.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index 2809956..52218e3 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -86,6 +86,10 @@ func samePoints(list1, list2 []abstract.Point) bool {
 	return true
 }
 
+func sameAddr(addr1, addr2 *net.TCPAddr) bool {
+	return addr1.IP.Equal(addr2.IP) && addr1.Port == addr2.Port
+}
+
 func verifyNeffShuffle(params map[string]interface{}) {
 	keyList := util.ProtobufDecodePointList(params["keys"].([]byte))
 	if _, shuffled := params["shuffled"]; !shuffled && len(keyList) > 1 {
@@ -118,8 +122,8 @@ func handleRoundEnd(params map[string]interface{}) {
 	keyList := util.ProtobufDecodePointList(params["keys"].([]byte))
 	size := len(keyList)
 	valList := util.ProtobufDecodePointList(params["vals"].([]byte))
-	if _, ok := params["is_start"]; ok {
-		// The request is sent by coordinator
+	if _, ok := params["is_start"]; ok && sameAddr(anonServer.NextHop, anonServer.CoordinatorAddr) {
+		// The request is sent by coordinator, which starts with the last server
 	} else {
 		// verify neff shuffle if needed
 		verifyNeffShuffle(params)
@@ -297,6 +301,10 @@ func handleAnnouncement(params map[string]interface{}) {
 		// verify the previous shuffle
 		verifyNeffShuffle(params)
 	}else {
+		// the coordinator starts with the first server
+		if !sameAddr(anonServer.PreviousHop, anonServer.CoordinatorAddr) {
+			panic("The table is not shuffled")
+		}
 		g = anonServer.Suite.Point().Mul(nil, anonServer.Roundkey)
 	}
 
-- 
2.43.0


From c1bdd12eb966b2c30e05f053d33ada5ca3f25843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:31 +0000
Subject: [PATCH 31/37] fix: let a message take effect only once all of it is
 decoded

---
 cmd/coordinator/CoordinatorHandler.go |  6 ++++
 cmd/server/AnonServerHandler.go       | 41 ++++++++++++++++++---------
 2 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 98288b4..9bacbd3 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -135,6 +135,9 @@ func handleAnnouncement(params map[string]interface{}) {
 	//construct Decrypted reputation map
 	keyList := util.ProtobufDecodePointList(params["keys"].([]byte))
 	valList := util.ProtobufDecodePointList(params["vals"].([]byte))
+	if len(keyList) != len(valList) {
+		panic("The table is incomplete")
+	}
 	anonCoordinator.EndingCommMap = make(map[string]abstract.Point)
 	anonCoordinator.EndingKeyMap = make(map[string]abstract.Point)
 	anonCoordinator.ReputationDiffMap = make(map[string]int)
@@ -765,6 +768,9 @@ func handleRoundEnd(params map[string]interface{}) {
 	// review reputation map
 	keyList := util.ProtobufDecodePointList(params["keys"].([]byte))
 	valList := util.ProtobufDecodePointList(params["vals"].([]byte))
+	if len(keyList) != len(valList) {
+		panic("The table is incomplete")
+	}
 	anonCoordinator.BeginningCommMap = make(map[string]abstract.Point)
 	anonCoordinator.BeginningKeyMap = make(map[string]abstract.Point)
 	for i := 0; i < len(keyList); i++ {
diff --git a/cmd/server/AnonServerHandler.go b/cmd/server/AnonServerHandler.go
index 52218e3..085da41 100644
--- a/cmd/server/AnonServerHandler.go
+++ b/cmd/server/AnonServerHandler.go
@@ -122,6 +122,9 @@ func handleRoundEnd(params map[string]interface{}) {
 	keyList := util.ProtobufDecodePointList(params["keys"].([]byte))
 	size := len(keyList)
 	valList := util.ProtobufDecodePointList(params["vals"].([]byte))
+	if len(keyList) != len(valList) {
+		panic("The table is incomplete")
+	}
 	if _, ok := params["is_start"]; ok && sameAddr(anonServer.NextHop, anonServer.CoordinatorAddr) {
 		// The request is sent by coordinator, which starts with the last server
 	} else {
@@ -282,6 +285,9 @@ func handleAnnouncement(params map[string]interface{}) {
 	var g abstract.Point = nil
 	keyList := util.ProtobufDecodePointList(params["keys"].([]byte))
 	valList := util.ProtobufDecodePointList(params["vals"].([]byte))
+	if len(keyList) != len(valList) {
+		panic("The table is incomplete")
+	}
 	size := len(keyList)
 	GT := util.DecodePoint(anonServer.Suite, params["GT"].([]byte))
 	HT := util.DecodePoint(anonServer.Suite, params["HT"].([]byte))
@@ -382,17 +388,21 @@ func handleAnnouncement(params map[string]interface{}) {
 
 // handle announcement finalize, which receives parameters from coordinator
 func handleAnnouncementFinalize(params map[string]interface{}) {
+	// nothing takes effect before the whole message is decoded
 	g := util.DecodePoint(anonServer.Suite, params["g"].([]byte))
-	
-	// update GT & HT
 	GT := util.DecodePoint(anonServer.Suite, params["GT"].([]byte))
 	HT := util.DecodePoint(anonServer.Suite, params["HT"].([]byte))
+	keyList := util.ProtobufDecodePointList(params["keys"].([]byte))
+	valList := util.ProtobufDecodePointList(params["vals"].([]byte))
+	if len(keyList) != len(valList) {
+		panic("The table is incomplete")
+	}
+
+	// update GT & HT
 	anonServer.PedersenBase.GT = GT
 	anonServer.PedersenBase.HT = HT
 
 	//construct Decrypted reputation map
-	keyList := util.ProtobufDecodePointList(params["keys"].([]byte))
-	valList := util.ProtobufDecodePointList(params["vals"].([]byte))
 	anonServer.EndingCommMap = make(map[string]abstract.Point)
 	anonServer.EndingKeyMap = make(map[string]abstract.Point)
 	// anonServer.ReputationDiffMap = make(map[string]int)
@@ -458,15 +468,13 @@ func handleSignAssignments(params map[string]interface{}, senderAddr *net.TCPAdd
 
 // handle server register reply
 func handleServerRegisterReply(params map[string]interface{}, addr *net.TCPAddr) {
+	// nothing takes effect before the whole message is decoded
 	reply := params["reply"].(bool)
-	// store the address of previous hop
+	previousHop := anonServer.PreviousHop
 	if val, ok := params["prev_server"]; ok {
-		ServerAddr, _ := net.ResolveTCPAddr("tcp",val.(string))
-		// we assume resolving TCP address never fails
-		anonServer.PreviousHop = ServerAddr
-	}
-	if reply {
-		anonServer.IsConnected = true
+		ServerAddr, err := net.ResolveTCPAddr("tcp",val.(string))
+		util.CheckErr(err)
+		previousHop = ServerAddr
 	}
 
 	// setup fujiokam
@@ -479,7 +487,6 @@ func handleServerRegisterReply(params map[string]interface{}, addr *net.TCPAddr)
 	fujiokamBase.G5 = fujiokamBase.Point().FromBinary(params["g5"].([]byte))
 	fujiokamBase.G6 = fujiokamBase.Point().FromBinary(params["g6"].([]byte))
 	fujiokamBase.H1 = fujiokamBase.Point().FromBinary(params["h1"].([]byte))
-	anonServer.FujiOkamBase = fujiokamBase
 
 	// update h
 	h := anonServer.Suite.Point()
@@ -493,7 +500,15 @@ func handleServerRegisterReply(params map[string]interface{}, addr *net.TCPAddr)
 	pm := map[string]interface{}{
 		"h": byteH,
 	}
+
+	// store the address of previous hop
+	anonServer.PreviousHop = previousHop
+	if reply {
+		anonServer.IsConnected = true
+	}
+	anonServer.FujiOkamBase = fujiokamBase
+
 	// tell coordinator updated h
 	event := &proto.Event{EventType:proto.UPDATE_PEDERSEN_H, Params:pm}
 	util.SendEvent(anonServer.LocalAddr, addr, event)
-}
\ No newline at end of file
+}
-- 
2.43.0


From 06f47e92796cdcc9c13ddab82920666812c2032b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:31 +0000
Subject: [PATCH 32/37] fix: refuse arguments with numbers that take minutes to
 verify

---
 primitive/fujiokam/FujiOkamCommitment.go | 12 ++++++++++++
 primitive/pedersen_fujiokam/equality.go  |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/primitive/fujiokam/FujiOkamCommitment.go b/primitive/fujiokam/FujiOkamCommitment.go
index c26fb27..ea5bf04 100644
--- a/primitive/fujiokam/FujiOkamCommitment.go
+++ b/primitive/fujiokam/FujiOkamCommitment.go
@@ -70,6 +70,13 @@ func (base *FujiOkamBase) genRandomSecret() *big.Int {
 	return s
 }
 
+// IsExponent tells whether a number is of a size that an honest prover can come to.
+// Exponentiation takes time in proportion to the size of the exponent.
+func (base *FujiOkamBase) IsExponent(s *big.Int) bool {
+	// a secret times a 256-bit hash, hidden with 80 bits more, and some room
+	return s.BitLen() <= base.RandomRadius.BitLen() + 512
+}
+
 // genGn returns a random gn from <H1>
 func (base *FujiOkamBase) genGn() (*Point, *big.Int) {
 	alpha := base.genRandomSecret()
@@ -496,6 +503,11 @@ func (base *FujiOkamBase) VerifyNonneg(commitx *Point, arg *ARGnonneg) bool {
 			return false
 		}
 	}
+	for _, v := range []*big.Int{arg.R, arg.X_, arg.A_, arg.B_, arg.D_, arg.R_} {
+		if !base.IsExponent(v) {
+			return false
+		}
+	}
 	commitrx := base.Point().SetBigInt(arg.Commitrx)
 	C := base.Point().SetBigInt(arg.C)
 	Cr := base.Point().SetBigInt(arg.Cr)
diff --git a/primitive/pedersen_fujiokam/equality.go b/primitive/pedersen_fujiokam/equality.go
index a28c363..1f2a86e 100644
--- a/primitive/pedersen_fujiokam/equality.go
+++ b/primitive/pedersen_fujiokam/equality.go
@@ -97,6 +97,9 @@ func VerifyEqual(pedersenBase *pedersen.PedersenBase, fujiokamBase *fujiokam.Fuj
 	if arg.S1.Sign() < 0 || arg.S1.BitLen() > t1Bits+1 {
 		return false
 	}
+	if !fujiokamBase.IsExponent(arg.C) || !fujiokamBase.IsExponent(arg.S3) {
+		return false
+	}
 	// FOComm has to be a unit, otherwise T2 does not depend on S1 and S3
 	if new(big.Int).GCD(nil, nil, FOComm.ToBigInt(), fujiokamBase.N).Cmp(big.NewInt(1)) != 0 {
 		return false
-- 
2.43.0


From 5093c917d063d3781200114cb74f99fde032edf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:27 +0000
Subject: [PATCH 33/37] fix: limit the size of a message

---
 cmd/coordinator/CoordinatorLauncher.go |  5 +----
 cmd/server/ServerLauncher.go           |  5 +----
 util/Util.go                           | 15 +++++++++++++++
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 285b3ba..22b3f08 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -4,7 +4,6 @@ import (
 	"bufio"
 	"bytes"
 	"fmt"
-	"io"
 	"log"
 	"net"
 	"os"
@@ -33,9 +32,7 @@ func startServerListener(listener *net.TCPListener) {
 		buf.Reset()
 		conn, err := listener.AcceptTCP()
 		util.CheckErr(err)
-		// a peer that breaks off or stalls only loses its own message
-		conn.SetReadDeadline(time.Now().Add(util.PeerTimeout))
-		_, err = io.Copy(buf, conn)
+		err = util.ReadMessage(buf, conn)
 		conn.Close()
 		if err != nil {
 			fmt.Println("[note]** Failed to read a message:", err)
diff --git a/cmd/server/ServerLauncher.go b/cmd/server/ServerLauncher.go
index b94288c..dcf7c8a 100644
--- a/cmd/server/ServerLauncher.go
+++ b/cmd/server/ServerLauncher.go
@@ -7,7 +7,6 @@ import (
 
 	// "log"
 	"bytes"
-	"io"
 	"strconv"
 	"zRep/primitive/pedersen"
 	"zRep/proto"
@@ -45,9 +44,7 @@ func startAnonServerListener(listener *net.TCPListener) {
 		buf.Reset()
 		conn, err := listener.AcceptTCP()
 		util.CheckErr(err)
-		// a peer that breaks off or stalls only loses its own message
-		conn.SetReadDeadline(time.Now().Add(util.PeerTimeout))
-		_, err = io.Copy(buf, conn)
+		err = util.ReadMessage(buf, conn)
 		conn.Close()
 		if err != nil {
 			fmt.Println("[note]** Failed to read a message:", err)
diff --git a/util/Util.go b/util/Util.go
index 523f31c..f8cc207 100644
--- a/util/Util.go
+++ b/util/Util.go
@@ -5,6 +5,7 @@ import (
 	"crypto/cipher"
 	"encoding/binary"
 	"errors"
+	"io"
 
 	"github.com/dedis/crypto/abstract"
 
@@ -61,6 +62,20 @@ func Encode(event interface{}) []byte {
 // PeerTimeout is the time a peer has to deliver a message once it is connected, or to take one
 const PeerTimeout = 5 * time.Second
 
+// MaxMessageSize is the number of bytes that a message can have
+const MaxMessageSize = 64 << 20
+
+// ReadMessage reads a message from a peer, which ends it by closing the connection
+func ReadMessage(buf *bytes.Buffer, conn *net.TCPConn) error {
+	// a peer that breaks off or stalls only loses its own message
+	conn.SetReadDeadline(time.Now().Add(PeerTimeout))
+	n, err := io.Copy(buf, io.LimitReader(conn, MaxMessageSize + 1))
+	if err == nil && n > MaxMessageSize {
+		err = errors.New("the message is too long")
+	}
+	return err
+}
+
 func SendEvent(laddr, raddr *net.TCPAddr, event *proto.Event) {
 	CheckErr(TrySendEvent(laddr, raddr, event))
 }
-- 
2.43.0


From 3083371c5a3db730c4a8a275309059cb4ae76adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:10 +0000
Subject: [PATCH 34/37] fix: refuse parameters with which the honesty proof
 proves nothing

---
 primitive/fujiokam/FujiOkamCommitment.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/primitive/fujiokam/FujiOkamCommitment.go b/primitive/fujiokam/FujiOkamCommitment.go
index ea5bf04..72ee242 100644
--- a/primitive/fujiokam/FujiOkamCommitment.go
+++ b/primitive/fujiokam/FujiOkamCommitment.go
@@ -295,8 +295,20 @@ func (base *FujiOkamBase) AnswerAllGnHonesty(bits []bool, secrets []*big.Int, pu
 	return answers
 }
 
+// MIN_MODULUS_BITS is the size of a product of two 512-bit primes, at least
+const MIN_MODULUS_BITS = 1023
+
+// CheckAllGnHonesty returns 0 if the proof is right, n if it is wrong for Gn, and 7 if it could not prove anything
 func (base *FujiOkamBase) CheckAllGnHonesty(answers []*big.Int, bits []bool, publics []*big.Int) int {
 	W := GN_HONESTY_PROOF_SIZE
+	// the secrets are chosen to be large in comparison with N, they hide nothing if it is small
+	if base.N.BitLen() < MIN_MODULUS_BITS {
+		return 7
+	}
+	// if h has no inverse, any Gn passes
+	if new(big.Int).GCD(nil, nil, base.H1.ToBigInt(), base.N).Cmp(bigOne) != 0 {
+		return 7
+	}
 	points := base.BigIntArrayToPointArray(publics)
 	
 	if base.CheckGnHonesty(answers[0*W:1*W], bits[0*W:1*W], points[0*W:1*W], base.G1) == false {
-- 
2.43.0


From f1b75521bd88b959f0708d9a255cc14ce467988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:05 +0000
Subject: [PATCH 35/37] fix: refuse a key that was registered before, also
 after its client was replaced

---
 cmd/coordinator/Coordinator.go         | 2 ++
 cmd/coordinator/CoordinatorHandler.go  | 3 ++-
 cmd/coordinator/CoordinatorLauncher.go | 1 +
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/coordinator/Coordinator.go b/cmd/coordinator/Coordinator.go
index cfe0e1d..1f58f6a 100644
--- a/cmd/coordinator/Coordinator.go
+++ b/cmd/coordinator/Coordinator.go
@@ -75,6 +75,8 @@ type Coordinator struct {
 
 	// store client address
 	Clients map[string]*net.TCPAddr
+	// public keys that have ever been registered, also those of clients that have been replaced since
+	RegisteredKeys map[string]bool
 	// store reputation map
 	BeginningKeyMap map[string]abstract.Point
 	BeginningCommMap map[string]abstract.Point
diff --git a/cmd/coordinator/CoordinatorHandler.go b/cmd/coordinator/CoordinatorHandler.go
index 9bacbd3..a72b806 100644
--- a/cmd/coordinator/CoordinatorHandler.go
+++ b/cmd/coordinator/CoordinatorHandler.go
@@ -264,10 +264,11 @@ func handleClientRegisterControllerSide(params map[string]interface{}, addr *net
 		anonCoordinator.PendingClients = append(anonCoordinator.PendingClients, PendingClient{Params:params, Addr:addr})
 		return
 	}
-	if _, ok := anonCoordinator.Clients[publicKey.String()]; ok {
+	if anonCoordinator.RegisteredKeys[publicKey.String()] {
 		fmt.Println("[note]** This public key has been registered already")
 		return
 	}
+	anonCoordinator.RegisteredKeys[publicKey.String()] = true
 	anonCoordinator.AddClient(publicKey, addr)
 
 	// compute Pedersen commitment
diff --git a/cmd/coordinator/CoordinatorLauncher.go b/cmd/coordinator/CoordinatorLauncher.go
index 22b3f08..31c66fe 100644
--- a/cmd/coordinator/CoordinatorLauncher.go
+++ b/cmd/coordinator/CoordinatorLauncher.go
@@ -64,6 +64,7 @@ func initCoordinator() {
 		PublicKey: A,
 		G: nil,
 		Clients: make(map[string]*net.TCPAddr),
+		RegisteredKeys: make(map[string]bool),
 		BeginningKeyMap: make(map[string]abstract.Point),
 		BeginningCommMap: make(map[string]abstract.Point),
 		Registering: make(map[string][]byte),
-- 
2.43.0


From 3beb9144e78acfaf12e3e7f89e65efa7e0aedfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:06 +0000
Subject: [PATCH 36/37] fix: let a client that starts again wait for its own
 round when it gets the table of its predecessor

---
 cmd/client/ClientHandler.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/client/ClientHandler.go b/cmd/client/ClientHandler.go
index b52747a..36fd7f8 100644
--- a/cmd/client/ClientHandler.go
+++ b/cmd/client/ClientHandler.go
@@ -196,7 +196,8 @@ func handleAnnouncementFinalize(params map[string]interface{}, dissentClient *Di
 	valList := util.ProtobufDecodePointList(params["vals"].([]byte))
 	index := util.FindIndexWithinKeyList(keyList, nym)
 	if index < 0 {
-		panic("Can not find my nym from keyList")
+		// a table for the client that had our address before us, we join a later round
+		return
 	}
 	dissentClient.Index = index
 	dissentClient.PCommr = valList[index]
-- 
2.43.0


From 08facd0318d4016aa396f8f7de652e397696b37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:06 +0000
Subject: [PATCH 37/37] fix: hide the products in the responses of the
 nonnegativity argument

---
 primitive/fujiokam/FujiOkamCommitment.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/primitive/fujiokam/FujiOkamCommitment.go b/primitive/fujiokam/FujiOkamCommitment.go
index 72ee242..6faf548 100644
--- a/primitive/fujiokam/FujiOkamCommitment.go
+++ b/primitive/fujiokam/FujiOkamCommitment.go
@@ -70,6 +70,13 @@ func (base *FujiOkamBase) genRandomSecret() *big.Int {
 	return s
 }
 
+// genBlinding returns a random int that hides a random secret times a 256-bit hash with 80 bits more.
+func (base *FujiOkamBase) genBlinding() *big.Int {
+	radius := new(big.Int).Lsh(base.RandomRadius, 256+80)
+	s := random.Int(new(big.Int).Lsh(radius, 1), random.Stream)
+	return s.Sub(s, radius)
+}
+
 // IsExponent tells whether a number is of a size that an honest prover can come to.
 // Exponentiation takes time in proportion to the size of the exponent.
 func (base *FujiOkamBase) IsExponent(s *big.Int) bool {
@@ -452,7 +459,7 @@ func (base *FujiOkamBase) ProveNonnegHelper(x *big.Int, commitx *Point, rc *big.
 	tp.Exp(base.H1, r)
 	C.Mul(C, tp)
 	// rr := random
-	rr := base.genRandomSecret()
+	rr := base.genBlinding()
 	// Cr := g2^rx * g3^rx * g3^ra * g4^rb * g5^rd * g6^(-ra^2-rb^2-rd^2) * h^rr (mod n)
 	Cr := base.Point()
 	Cr.Exp(base.G2, rx)
@@ -476,7 +483,8 @@ func (base *FujiOkamBase) ProveNonnegHelper(x *big.Int, commitx *Point, rc *big.
 	ti.SetInt64(-1)
 	tp.Exp(base.G6, ti)
 	// commitrx = g^rx * h^rrx (mod n)
-	commitrx, rrx := base.Commit(rx)
+	rrx := base.genBlinding()
+	commitrx := base.CommitWithR(rx, rrx)
 	// e = hash(commitx, C, Cr, commitrx)
 	h := sha256.New()
 	h.Write(commitx.V.Bytes())
-- 
2.43.0

