From 0124b8b22e5d234ee64c452f5ed4cc6cd54e72db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:32 +0000
Subject: [PATCH 01/46] fix: ComputeProofMulti computes x^n instead of always 0
 in the divisor

---
 internal/polycommit/kzg_multi_proofs.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/polycommit/kzg_multi_proofs.go b/internal/polycommit/kzg_multi_proofs.go
index dca9c9c..7aa705b 100755
--- a/internal/polycommit/kzg_multi_proofs.go
+++ b/internal/polycommit/kzg_multi_proofs.go
@@ -22,6 +22,7 @@ func (ks *KZGSettings) ComputeProofMulti(poly []bls.Fr, x uint64, n uint64) *bls
 	// TODO: inefficient, could use squaring, or maybe BLS lib offers a power method?
 	// TODO: for small ranges, maybe compute pow(x, n, mod) in uint64?
 	var xPowN, tmp bls.Fr
+	bls.CopyFr(&xPowN, &bls.ONE)
 	for i := uint64(0); i < n; i++ {
 		bls.MulModFr(&tmp, &xPowN, &xFr)
 		bls.CopyFr(&xPowN, &tmp)
-- 
2.43.0


From ec750770606c0084e3a0d1e8f1fafdcbc1566562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:32 +0000
Subject: [PATCH 02/46] fix: EvaluatePolyInEvaluationForm returns the value at
 points of the domain

---
 internal/bls/globals.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/bls/globals.go b/internal/bls/globals.go
index 79d5d99..c3289c2 100755
--- a/internal/bls/globals.go
+++ b/internal/bls/globals.go
@@ -122,6 +122,11 @@ func EvaluatePolyInEvaluationForm(yFr *Fr, poly []Fr, x *Fr, rootsOfUnity []Fr,
 	for i := range invDenom {
 		// (x - DOMAIN[i])
 		SubModFr(&invDenom[i], x, &rootsOfUnity[i<<scale])
+		if EqualZero(&invDenom[i]) {
+			// x is in the domain, where the formula does not apply: the value is in the input
+			CopyFr(yFr, &poly[i])
+			return
+		}
 	}
 	// now each value becomes 1 / (x - DOMAIN[i])
 	BatchInvModFr(invDenom)
-- 
2.43.0


From 93912ca6bc8250b037c8fa2252b990d101a7ca52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:39 +0000
Subject: [PATCH 03/46] fix: FK20Multi sums as many values as each chunk
 transform has

---
 internal/polycommit/fk20_multi.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/polycommit/fk20_multi.go b/internal/polycommit/fk20_multi.go
index b29c7ef..708f7d6 100755
--- a/internal/polycommit/fk20_multi.go
+++ b/internal/polycommit/fk20_multi.go
@@ -33,8 +33,9 @@ func (ks *FK20MultiSettings) FK20Multi(polynomial []bls.Fr) []bls.G1Point {
 			ks.MaxWidth, n))
 	}
 
-	hExtFFT := make([]bls.G1Point, n2, n2)
-	for i := uint64(0); i < n2; i++ {
+	k2 := n / ks.chunkLen * 2
+	hExtFFT := make([]bls.G1Point, k2, k2)
+	for i := uint64(0); i < k2; i++ {
 		bls.CopyG1(&hExtFFT[i], &bls.ZeroG1)
 	}
 
@@ -42,7 +43,7 @@ func (ks *FK20MultiSettings) FK20Multi(polynomial []bls.Fr) []bls.G1Point {
 	for i := uint64(0); i < ks.chunkLen; i++ {
 		toeplitzCoeffs := ks.toeplitzCoeffsStepStrided(polynomial, i, ks.chunkLen)
 		hExtFFTFile := ks.ToeplitzPart2(toeplitzCoeffs, ks.xExtFFTFiles[i])
-		for j := uint64(0); j < n2; j++ {
+		for j := uint64(0); j < k2; j++ {
 			bls.AddG1(&tmp, &hExtFFT[j], &hExtFFTFile[j])
 			bls.CopyG1(&hExtFFT[j], &tmp)
 		}
-- 
2.43.0


From 9fe804214b2ae5e41a4fa8c81ac4429f8394b313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:39 +0000
Subject: [PATCH 04/46] fix: toeplitz coefficients of a single item do not run
 past the vector

---
 internal/polycommit/fk20_single.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/polycommit/fk20_single.go b/internal/polycommit/fk20_single.go
index aca81ed..61f54de 100755
--- a/internal/polycommit/fk20_single.go
+++ b/internal/polycommit/fk20_single.go
@@ -97,7 +97,7 @@ func (ks *KZGSettings) toeplitzCoeffsStepStrided(polynomial []bls.Fr, offset uin
 	// [last poly item] + [0]*(n+1) + [poly items except first and last]
 	toeplitzCoeffs := make([]bls.Fr, k2, k2)
 	bls.CopyFr(&toeplitzCoeffs[0], &polynomial[n-1-offset])
-	for i := uint64(1); i <= k+1; i++ {
+	for i := uint64(1); i <= k+1 && i < k2; i++ {
 		bls.CopyFr(&toeplitzCoeffs[i], &bls.ZERO)
 	}
 	for i, j := k+2, 2*stride-offset-1; i < k2; i, j = i+1, j+stride {
@@ -113,7 +113,7 @@ func (ks *KZGSettings) toeplitzCoeffsStep(polynomial []bls.Fr) []bls.Fr {
 	// [last poly item] + [0]*(n+1) + [poly items except first and last]
 	toeplitzCoeffs := make([]bls.Fr, n2, n2)
 	bls.CopyFr(&toeplitzCoeffs[0], &polynomial[n-1])
-	for i := uint64(1); i <= n+1; i++ {
+	for i := uint64(1); i <= n+1 && i < n2; i++ {
 		bls.CopyFr(&toeplitzCoeffs[i], &bls.ZERO)
 	}
 	for i, j := n+2, 1; i < n2; i, j = i+1, j+1 {
-- 
2.43.0


From fd00dcc0b8564ca4373ff18317e17e9d704ba4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:39 +0000
Subject: [PATCH 05/46] fix: DASFFTExtension uses the domain of the values when
 the settings are larger

---
 internal/polycommit/das_extension.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/polycommit/das_extension.go b/internal/polycommit/das_extension.go
index c493a48..5ad0334 100755
--- a/internal/polycommit/das_extension.go
+++ b/internal/polycommit/das_extension.go
@@ -75,7 +75,7 @@ func (fs *FFTSettings) DASFFTExtension(vals []bls.Fr) {
 	if uint64(len(vals))*2 > fs.MaxWidth {
 		panic("domain too small for extending requested values")
 	}
-	fs.dASFFTExtension(vals, 1)
+	fs.dASFFTExtension(vals, fs.MaxWidth/(uint64(len(vals))*2))
 	// The above function didn't perform the divide by 2 on every layer.
 	// So now do it all at once, by dividing by 2**depth (=length).
 	var invLen bls.Fr
-- 
2.43.0


From 426acfeeab4e41654a99ebf4d85509195b85ce2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:39 +0000
Subject: [PATCH 06/46] fix: the zero polynomial of no missing indices is 1

---
 internal/polycommit/zero_poly.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/polycommit/zero_poly.go b/internal/polycommit/zero_poly.go
index 3cc4ab7..1939aa0 100755
--- a/internal/polycommit/zero_poly.go
+++ b/internal/polycommit/zero_poly.go
@@ -119,7 +119,16 @@ func (fs *FFTSettings) reduceLeaves(scratch []bls.Fr, dst []bls.Fr, ps [][]bls.F
 // Also calculates the FFT (the "evaluation polynomial").
 func (fs *FFTSettings) ZeroPolyViaMultiplication(missingIndices []uint64, length uint64) ([]bls.Fr, []bls.Fr) {
 	if len(missingIndices) == 0 {
-		return make([]bls.Fr, length, length), make([]bls.Fr, length, length)
+		// the empty product: the constant polynomial 1
+		zeroEval, zeroPoly := make([]bls.Fr, length, length), make([]bls.Fr, length, length)
+		for i := range zeroEval {
+			bls.CopyFr(&zeroEval[i], &bls.ONE)
+			bls.CopyFr(&zeroPoly[i], &bls.ZERO)
+		}
+		if length > 0 {
+			bls.CopyFr(&zeroPoly[0], &bls.ONE)
+		}
+		return zeroEval, zeroPoly
 	}
 	if length > fs.MaxWidth {
 		panic("domain too small for requested length")
-- 
2.43.0


From 5e95c95cc3af0eea869f2c82d1421f37cb11eefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:39 +0000
Subject: [PATCH 07/46] fix: the zero polynomial of almost all indices fits the
 requested length

---
 internal/polycommit/zero_poly.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/polycommit/zero_poly.go b/internal/polycommit/zero_poly.go
index 1939aa0..bd81948 100755
--- a/internal/polycommit/zero_poly.go
+++ b/internal/polycommit/zero_poly.go
@@ -175,7 +175,7 @@ func (fs *FFTSettings) ZeroPolyViaMultiplication(missingIndices []uint64, length
 		if end > max {
 			end = max
 		}
-		leaves[i] = out[outOffset : outOffset+perLeafPoly]
+		leaves[i] = out[outOffset : outOffset+end-offset+1]
 		fs.makeZeroPolyMulLeaf(leaves[i], missingIndices[offset:end], domainStride)
 		offset += perLeaf
 		outOffset += perLeafPoly
@@ -201,6 +201,10 @@ func (fs *FFTSettings) ZeroPolyViaMultiplication(missingIndices []uint64, length
 			if outEnd > uint64(len(out)) {
 				outEnd = uint64(len(out))
 			}
+			// the product is smaller than the requested length: it needs no larger domain
+			if outEnd > start*leafSize+length {
+				outEnd = start*leafSize + length
+			}
 			reduced := out[start*leafSize : outEnd]
 			// unlike reduced output, input may be smaller than the amount that aligns with powers of two
 			if end > uint64(len(leaves)) {
@@ -209,6 +213,8 @@ func (fs *FFTSettings) ZeroPolyViaMultiplication(missingIndices []uint64, length
 			leavesSlice := leaves[start:end]
 			if end > start+1 {
 				reduced = fs.reduceLeaves(scratch, reduced, leavesSlice)
+			} else {
+				reduced = leavesSlice[0]
 			}
 			leaves[i] = reduced
 		}
-- 
2.43.0


From 28d07256bbaeedb69dd597dd8b0febea41ad52eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:39 +0000
Subject: [PATCH 08/46] fix: ErasureCodeRecover evaluates a short zero
 polynomial on the whole domain

---
 internal/polycommit/legacy_recovery.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/polycommit/legacy_recovery.go b/internal/polycommit/legacy_recovery.go
index 6e6dec6..68a9156 100755
--- a/internal/polycommit/legacy_recovery.go
+++ b/internal/polycommit/legacy_recovery.go
@@ -172,8 +172,11 @@ func (fs *FFTSettings) ErasureCodeRecover(vals []*bls.Fr) ([]bls.Fr, error) {
 			positions = append(positions, i)
 		}
 	}
-	// TODO: handle len(positions)==0 case
 	z := fs._zPoly(positions, fs.MaxWidth/uint64(len(vals)))
+	// a product of few positions is shorter than the domain: evaluate it on all of it
+	for len(z) < len(vals) {
+		z = append(z, bls.ZERO)
+	}
 	//DebugFrs("z", z)
 	zVals, err := fs.FFT(z, false)
 	if err != nil {
-- 
2.43.0


From 3db39626de55b487ed97dd1084e4157357cf1378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:39 +0000
Subject: [PATCH 09/46] fix: reverseBitOrder refuses lengths that are not a
 power of two

---
 internal/polycommit/reverse_bit_order.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/polycommit/reverse_bit_order.go b/internal/polycommit/reverse_bit_order.go
index cfbccea..972ab2c 100755
--- a/internal/polycommit/reverse_bit_order.go
+++ b/internal/polycommit/reverse_bit_order.go
@@ -88,7 +88,7 @@ func reverseBitsLimited(length uint32, value uint32) uint32 {
 }
 
 func reverseBitOrder(length uint32, swap func(i, j uint32)) {
-	if !(length > 0 || (length&(length-1) == 0)) {
+	if length&(length-1) != 0 {
 		panic("length is not a power of 2")
 	}
 	// swap bits:
-- 
2.43.0


From b5fb5b7f46b5c9c7725c45b9bba11cb15b1695e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:56 +0000
Subject: [PATCH 10/46] fix: VerifyVSSSendReceived rejects a sharing whose g^s
 does not match

---
 internal/party/VSS.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/party/VSS.go b/internal/party/VSS.go
index d3b78a6..50e1d03 100644
--- a/internal/party/VSS.go
+++ b/internal/party/VSS.go
@@ -88,6 +88,7 @@ func (p *HonestParty) VerifyVSSSendReceived(polyValue []bls.Fr, witness []bls.G1
 
 	if !bls.EqualG1(&piReceived.Gs, &tmpGs) {
 		log.Printf("[VSSEcho][Party %v] VSSSend Verify FAIL, g_s=%v, but prod(g^F(index))=%v \n", p.PID, piReceived.Gs.String(), tmpGs.String())
+		return false
 	}
 
 	//Verify KZG.VerifyEval(CZjk,0,0,WZjk0) == 1 && CBjk == CZjk * g^Fj(k) for k in [1,2t+1]
-- 
2.43.0


From 2528fef52ff4d79af17c68576122ed64c3776c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:03 +0000
Subject: [PATCH 11/46] fix: PrepareReceive counts each old member once

---
 internal/party/ShareReduce.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/party/ShareReduce.go b/internal/party/ShareReduce.go
index 249a37c..eaeefd0 100644
--- a/internal/party/ShareReduce.go
+++ b/internal/party/ShareReduce.go
@@ -171,6 +171,7 @@ func (p *HonestParty) PrepareSend(ID []byte) {
 func (p *HonestParty) PrepareReceive(ID []byte) {
 
 	ProofMap := make(map[string]int)
+	received := make(map[uint32]bool) //each old member is counted at most once
 
 	var cnt = 0 //used to judge whether to execute p.PrepareStart_new = time.Now()
 
@@ -179,6 +180,10 @@ func (p *HonestParty) PrepareReceive(ID []byte) {
 		if cnt == 0 {
 			p.PrepareStart_new = time.Now()
 		}
+		if received[msg.Sender] {
+			continue
+		}
+		received[msg.Sender] = true
 		hash := sha256.New()
 		hash.Write(msg.Data)
 		hashToString := string(hash.Sum(nil))
-- 
2.43.0


From 43cc596e7e55bebfc2b8da797935d9d53034afa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:52 +0000
Subject: [PATCH 12/46] fix: ShareReduceReceive counts each old member once

---
 internal/party/ShareReduce.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/party/ShareReduce.go b/internal/party/ShareReduce.go
index eaeefd0..9ec4364 100644
--- a/internal/party/ShareReduce.go
+++ b/internal/party/ShareReduce.go
@@ -63,6 +63,7 @@ func (p *HonestParty) ShareReduceReceive(ID []byte) {
 	var ShareReduceMap = make(map[string][]polyring.PolyPoint) //map a commitment string to a poly point set
 	var ComMap = make(map[string]uint32)                       //count the number of C
 	var MostCountedCom string                                  //C_B(x,i)
+	var accepted = make(map[uint32]bool)                       //old members whose contribution is already counted
 
 	var vJ = bls.ZERO
 	var polyX, polyY []bls.Fr
@@ -95,7 +96,8 @@ func (p *HonestParty) ShareReduceReceive(ID []byte) {
 		verified := p.KZG.CheckProofSingle(&C, &wJ, &tmpPosition, &vJ)
 		p.mutexKZG.Unlock()
 
-		if verified {
+		if verified && !accepted[m.Sender] {
+			accepted[m.Sender] = true
 			cStr := string(ShareReduceData.C)
 			_, ok2 := ShareReduceMap[cStr]
 			if ok2 {
@@ -121,7 +123,7 @@ func (p *HonestParty) ShareReduceReceive(ID []byte) {
 				log.Printf("[ShareReduce][New party %v]ShareReduce done\n", p.PID)
 				break
 			}
-		} else {
+		} else if !verified {
 			log.Printf("[ShareReduce][New party %v] Verify Reduce message from old party %v FAIL. C: %s, v: %v, w: %s\n", p.PID, m.Sender, C.String(), vJ, wJ.String())
 		}
 		cnt++
-- 
2.43.0


From b8cb6243f1c54d4449e0fcc94de669662e884a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 13/46] fix: sending before the send channels are initialised
 returns the intended error

---
 internal/party/party_utils.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/party/party_utils.go b/internal/party/party_utils.go
index d676632..bbbb6fd 100644
--- a/internal/party/party_utils.go
+++ b/internal/party/party_utils.go
@@ -113,11 +113,21 @@ func (p *HonestParty) GetMessage(messageType string, ID []byte) chan *protobuf.M
 }
 
 func (p *HonestParty) checkSendChannelsInit() bool {
-	return p.sendToNextChannels != nil
+	return channelsInit(p.sendChannels)
 }
 
 func (p *HonestParty) checkInitSendChannelsToNext() bool {
-	return p.sendToNextChannels != nil
+	return channelsInit(p.sendToNextChannels)
+}
+
+//channelsInit tells whether all channels have been made
+func channelsInit(channels []chan *protobuf.Message) bool {
+	for _, c := range channels {
+		if c == nil {
+			return false
+		}
+	}
+	return channels != nil
 }
 
 //w_0,w_1,...,w^(3f+1) will be used to represent values of a polynomial.
-- 
2.43.0


From 297f03e38f7ced08826e06e58a42792e8338380c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:55 +0000
Subject: [PATCH 14/46] fix: the provable broadcast sender counts each endorser
 once

---
 internal/party/pb.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/party/pb.go b/internal/party/pb.go
index 6e3fff6..5772fd2 100644
--- a/internal/party/pb.go
+++ b/internal/party/pb.go
@@ -23,6 +23,7 @@ func Sender(ctx context.Context, p *HonestParty, ID []byte, value []byte, valida
 	p.Broadcast(valueMessage)
 
 	sigs := [][]byte{}
+	endorsers := make(map[int]bool) //each party's endorsement counts once
 	h := sha3.Sum512(value)
 	var buf bytes.Buffer
 	buf.Write([]byte("Echo"))
@@ -39,7 +40,10 @@ func Sender(ctx context.Context, p *HonestParty, ID []byte, value []byte, valida
 			payload := core.Decapsulation("Echo", m).(*protobuf.Echo)
 			err := tblsScheme.VerifyPartial(p.SigPK, sm, payload.Sigshare) //verifyshare("Echo"||ID||h)
 
-			if err == nil {
+			index, errIndex := tblsScheme.IndexOf(payload.Sigshare)
+
+			if err == nil && errIndex == nil && !endorsers[index] {
+				endorsers[index] = true
 				sigs = append(sigs, payload.Sigshare)
 				if len(sigs) > int(2*p.F) {
 					signature, _ := tblsScheme.Recover(p.SigPK, sm, sigs, int(2*p.F+1), int(p.N))
-- 
2.43.0


From ee97bc38bfd0f35d2549ff32e8ecc49349601c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:55 +0000
Subject: [PATCH 15/46] fix: an invalid proposal does not end the process of
 the receiver

---
 internal/party/pb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/party/pb.go b/internal/party/pb.go
index 5772fd2..72aac58 100644
--- a/internal/party/pb.go
+++ b/internal/party/pb.go
@@ -67,7 +67,7 @@ func Receiver(ctx context.Context, p *HonestParty, sender uint32, ID []byte, val
 		if validator != nil {
 			err2 := validator(p, ID, sender, payload.Value, payload.Validation)
 			if err2 != nil {
-				log.Fatalln(err2)
+				log.Println(err2)
 				return nil, nil, false //sender is dishonest
 			}
 		}
-- 
2.43.0


From 5b5812586d376db580eec5d4b8aab9dbc9bb0604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 16/46] fix: the provable broadcast receiver accepts values of
 the instance's sender only

---
 internal/party/pb.go | 54 ++++++++++++++++++++++++--------------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/internal/party/pb.go b/internal/party/pb.go
index 72aac58..bff866a 100644
--- a/internal/party/pb.go
+++ b/internal/party/pb.go
@@ -57,36 +57,40 @@ func Sender(ctx context.Context, p *HonestParty, ID []byte, value []byte, valida
 
 //Receiver is run by the receiver of a instance of provable broadcast
 func Receiver(ctx context.Context, p *HonestParty, sender uint32, ID []byte, validator func(*HonestParty, []byte, uint32, []byte, []byte) error) ([]byte, []byte, bool) {
-	select {
-	case <-ctx.Done():
-		return nil, nil, false
-	case m := <-p.GetMessage("Value", ID):
-		//TODO:check sender == m.Sender
-
-		payload := (core.Decapsulation("Value", m)).(*protobuf.Value)
-		if validator != nil {
-			err2 := validator(p, ID, sender, payload.Value, payload.Validation)
-			if err2 != nil {
-				log.Println(err2)
-				return nil, nil, false //sender is dishonest
+	for {
+		select {
+		case <-ctx.Done():
+			return nil, nil, false
+		case m := <-p.GetMessage("Value", ID):
+			if m.Sender != sender {
+				continue //only the instance's sender can propose
 			}
-		}
 
-		h := sha3.Sum512(payload.Value)
-		var buf bytes.Buffer
-		buf.Write([]byte("Echo"))
-		buf.Write(ID)
-		buf.Write(h[:])
-		sm := buf.Bytes()
-		sigShare, _ := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite()).Sign(p.SigSK, sm) //sign("Echo"||ID||h)
+			payload := (core.Decapsulation("Value", m)).(*protobuf.Value)
+			if validator != nil {
+				err2 := validator(p, ID, sender, payload.Value, payload.Validation)
+				if err2 != nil {
+					log.Println(err2)
+					return nil, nil, false //sender is dishonest
+				}
+			}
 
-		echoMessage := core.Encapsulation("Echo", ID, p.PID, &protobuf.Echo{
-			Sigshare: sigShare,
-		})
-		p.Send(echoMessage, sender)
+			h := sha3.Sum512(payload.Value)
+			var buf bytes.Buffer
+			buf.Write([]byte("Echo"))
+			buf.Write(ID)
+			buf.Write(h[:])
+			sm := buf.Bytes()
+			sigShare, _ := tbls.NewThresholdSchemeOnG1(kyberbls.NewBLS12381Suite()).Sign(p.SigSK, sm) //sign("Echo"||ID||h)
 
-		return payload.Value, payload.Validation, true
+			echoMessage := core.Encapsulation("Echo", ID, p.PID, &protobuf.Echo{
+				Sigshare: sigShare,
+			})
+			p.Send(echoMessage, sender)
 
+			return payload.Value, payload.Validation, true
+
+		}
 	}
 
 }
-- 
2.43.0


From 629e3e0149304dafd0942d8d70e92cb9e682e982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 17/46] fix: the agreement counts each finished party once

---
 internal/party/message_handler.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/party/message_handler.go b/internal/party/message_handler.go
index 0333d5a..dee673f 100644
--- a/internal/party/message_handler.go
+++ b/internal/party/message_handler.go
@@ -44,7 +44,9 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 				sm := buf.Bytes()
 				err := blsScheme.Verify(p.SigPK.Commit(), sm, payload.Sig) //verify("Echo"||ID||r||index||2||h)
 				if err == nil {
-					Fr.Store(m.Sender, payload)
+					if _, counted := Fr.LoadOrStore(m.Sender, payload); counted {
+						continue //each party finishes once
+					}
 					FrLength++
 					if FrLength == int(2*p.F+1) {
 						doneFlagChannel <- true
-- 
2.43.0


From 2397b68e17b5ef6ea4900938cb92b8cd5980b341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 18/46] fix: the agreement counts each party's coin share once

---
 internal/party/message_handler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/party/message_handler.go b/internal/party/message_handler.go
index dee673f..a138abb 100644
--- a/internal/party/message_handler.go
+++ b/internal/party/message_handler.go
@@ -64,6 +64,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 		buf.Write(IDr)
 		coinName := buf.Bytes()
 		coins := [][]byte{}
+		holders := make(map[int]bool) //each party's coin share counts once
 		for {
 			select {
 			case <-ctx.Done():
@@ -71,8 +72,10 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 			case m := <-p.GetMessage("Done", IDr):
 				payload := core.Decapsulation("Done", m).(*protobuf.Done)
 				err := tblsScheme.VerifyPartial(p.SigPK, coinName, payload.CoinShare) //verifyshare("Done"||ID||r)
+				index, errIndex := tblsScheme.IndexOf(payload.CoinShare)
 
-				if err == nil {
+				if err == nil && errIndex == nil && !holders[index] {
+					holders[index] = true
 					coins = append(coins, payload.CoinShare)
 					if len(coins) == int(p.F+1) {
 
-- 
2.43.0


From ef17c2e476487b29a113003e3313ea64307b6395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 19/46] fix: the agreement counts each party's No pre-vote once

---
 internal/party/message_handler.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/party/message_handler.go b/internal/party/message_handler.go
index a138abb..d0c324c 100644
--- a/internal/party/message_handler.go
+++ b/internal/party/message_handler.go
@@ -127,6 +127,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 	//PreVoteMessage Handler
 	go func() {
 		PNr := [][]byte{}
+		noVoters := make(map[int]bool) //each party's No counts once
 		for {
 			select {
 			case <-ctx.Done():
@@ -160,7 +161,9 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 					buf.Write(IDr)
 					sm := buf.Bytes()
 					err := tblsScheme.VerifyPartial(p.SigPK, sm, payload.Sig) //verifyShare(false||ID||r)
-					if err == nil {
+					index, errIndex := tblsScheme.IndexOf(payload.Sig)
+					if err == nil && errIndex == nil && !noVoters[index] {
+						noVoters[index] = true
 						PNr = append(PNr, payload.Sig)
 						if len(PNr) > int(2*p.F) {
 							noSignature, _ := tblsScheme.Recover(p.SigPK, sm, PNr, int(2*p.F+1), int(p.N))
-- 
2.43.0


From b8440ad523750012e84e0629545e48c1826c9d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 20/46] fix: the agreement counts each party's vote once

---
 internal/party/message_handler.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/party/message_handler.go b/internal/party/message_handler.go
index d0c324c..3820cf9 100644
--- a/internal/party/message_handler.go
+++ b/internal/party/message_handler.go
@@ -186,6 +186,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 	go func() {
 		VYr := [][]byte{}
 		VNr := [][]byte{}
+		voters := make(map[int]bool) //each party's vote counts once
 		for {
 			select {
 			case <-ctx.Done():
@@ -204,7 +205,9 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 					err1 := blsScheme.Verify(p.SigPK.Commit(), sm, payload.Sig) //verify("Echo"||ID||r||l||1||h)
 					sm[len([]byte("Echo"))+len(IDrj[l])] = 2
 					err2 := tblsScheme.VerifyPartial(p.SigPK, sm, payload.Sigshare) //verifyShare("Echo"||ID||r||l||2||h)
-					if err1 == nil && err2 == nil {
+					index, errIndex := tblsScheme.IndexOf(payload.Sigshare)
+					if err1 == nil && err2 == nil && errIndex == nil && !voters[index] {
+						voters[index] = true
 						VYr = append(VYr, payload.Sigshare)
 						if len(VYr) > int(2*p.F) {
 							sig, _ := tblsScheme.Recover(p.SigPK, sm, VYr, int(2*p.F+1), int(p.N))
@@ -230,7 +233,9 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 					buf2.Write(IDr)
 					sm2 := buf2.Bytes()
 					err2 := tblsScheme.VerifyPartial(p.SigPK, sm2, payload.Sigshare) //verifyShare("Unlock"||ID||r)
-					if err1 == nil && err2 == nil {
+					index, errIndex := tblsScheme.IndexOf(payload.Sigshare)
+					if err1 == nil && err2 == nil && errIndex == nil && !voters[index] {
+						voters[index] = true
 						VNr = append(VNr, payload.Sigshare)
 						if len(VNr) > int(2*p.F) {
 							sig, _ := tblsScheme.Recover(p.SigPK, sm2, VYr, int(2*p.F+1), int(p.N))
-- 
2.43.0


From 8cdf88c52dfec51eb712916f67a4b96b0d885f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 21/46] fix: the unlocking certificate is recovered from the No
 votes

---
 internal/party/message_handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/party/message_handler.go b/internal/party/message_handler.go
index 3820cf9..526efa4 100644
--- a/internal/party/message_handler.go
+++ b/internal/party/message_handler.go
@@ -238,7 +238,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 						voters[index] = true
 						VNr = append(VNr, payload.Sigshare)
 						if len(VNr) > int(2*p.F) {
-							sig, _ := tblsScheme.Recover(p.SigPK, sm2, VYr, int(2*p.F+1), int(p.N))
+							sig, _ := tblsScheme.Recover(p.SigPK, sm2, VNr, int(2*p.F+1), int(p.N))
 							voteFlagChannel <- 1
 							voteNoChannel <- sig
 						}
-- 
2.43.0


From 66f4cc39554702137188b7448ebbcb6ae878f480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 22/46] fix: a mixture of votes that ends with a No also
 completes the round

---
 internal/party/message_handler.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/party/message_handler.go b/internal/party/message_handler.go
index 526efa4..1323cd3 100644
--- a/internal/party/message_handler.go
+++ b/internal/party/message_handler.go
@@ -187,6 +187,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 		VYr := [][]byte{}
 		VNr := [][]byte{}
 		voters := make(map[int]bool) //each party's vote counts once
+		var lockedValue, lockedSig []byte //the leader's value and its certificate, from a Yes vote
 		for {
 			select {
 			case <-ctx.Done():
@@ -209,6 +210,7 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 					if err1 == nil && err2 == nil && errIndex == nil && !voters[index] {
 						voters[index] = true
 						VYr = append(VYr, payload.Sigshare)
+						lockedValue, lockedSig = payload.Value, payload.Sig
 						if len(VYr) > int(2*p.F) {
 							sig, _ := tblsScheme.Recover(p.SigPK, sm, VYr, int(2*p.F+1), int(p.N))
 							voteFlagChannel <- 0
@@ -241,6 +243,10 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 							sig, _ := tblsScheme.Recover(p.SigPK, sm2, VNr, int(2*p.F+1), int(p.N))
 							voteFlagChannel <- 1
 							voteNoChannel <- sig
+						} else if len(VYr) > 0 && len(VYr)+len(VNr) > int(2*p.F) {
+							voteFlagChannel <- 2
+							voteOtherChannel <- lockedValue
+							voteOtherChannel <- lockedSig
 						}
 					}
 				}
-- 
2.43.0


From a867c88a20f1cf83873d35f37f994c60e03fb1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 23/46] fix: an agreement proposal of a later round must be
 justified by the earlier rounds

---
 internal/party/main_process.go | 55 ++++++++++++++++++++++++++++++++--
 internal/party/spb.go          |  8 +++--
 2 files changed, 59 insertions(+), 4 deletions(-)

diff --git a/internal/party/main_process.go b/internal/party/main_process.go
index 67feb09..3a7d8bc 100644
--- a/internal/party/main_process.go
+++ b/internal/party/main_process.go
@@ -7,13 +7,16 @@ forked from https://github.com/xygdys/Buada_BFT
 import (
 	"bytes"
 	"context"
+	"errors"
 	"sync"
 
 	"github.com/DyCAPSTeam/DyCAPS/pkg/core"
 	"github.com/DyCAPSTeam/DyCAPS/pkg/protobuf"
 	"github.com/DyCAPSTeam/DyCAPS/pkg/utils"
 	kyberbls "github.com/drand/kyber-bls12381"
+	"github.com/drand/kyber/sign/bls"
 	"github.com/drand/kyber/sign/tbls"
+	"golang.org/x/crypto/sha3"
 )
 
 //MainProcess is the main process of smvba instances
@@ -21,6 +24,8 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []b
 	haltChannel := make(chan []byte, 1) //control all round
 	ctx, cancel := context.WithCancel(context.Background())
 
+	leaders := []uint32{} //leaders of the previous rounds
+
 	for r := uint32(0); ; r++ {
 		//fmt.Println("party", p.PID, ":round", r, "start", "value=", value, ID)
 		spbCtx, spbCancel := context.WithCancel(ctx) //son of ctx
@@ -39,7 +44,12 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []b
 		voteNoChannel := make(chan []byte, 1)
 		voteOtherChannel := make(chan []byte, 1)
 
-		//TODO: CheckValue
+		//CheckValue
+		//TODO: check the external validity of the values proposed in round 0
+		previous := leaders
+		checkValue := func(p *HonestParty, _ []byte, _ uint32, value []byte, validation []byte) error {
+			return checkProposal(p, ID, previous, value, validation)
+		}
 
 		//Initialize SPB instances
 		var buf bytes.Buffer
@@ -57,7 +67,7 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []b
 
 		for i := uint32(0); i < p.N; i++ {
 			go func(j uint32) {
-				value, sig, ok := SPBReceiver(spbCtx, p, j, IDrj[j])
+				value, sig, ok := SPBReceiver(spbCtx, p, j, IDrj[j], checkValue)
 				if ok { //save Lock
 					Lr.Store(j, &protobuf.Lock{
 						Value: value,
@@ -101,6 +111,7 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []b
 		case l := <-leaderChannel:
 			spbCancel()
 			wg.Wait()
+			leaders = append(leaders, l)
 
 			//short-cut
 			value1, ok1 := Fr.Load(l)
@@ -151,6 +162,46 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []b
 	}
 }
 
+//checkProposal checks that a value may be proposed after rounds with the given leaders: it is a value
+//certified for the leader of one of them, or nothing was locked in any of them. The validation of a
+//proposal ends with an unlocking certificate for every round since.
+func checkProposal(p *HonestParty, ID []byte, leaders []uint32, value []byte, validation []byte) error {
+	suite := kyberbls.NewBLS12381Suite()
+	blsScheme := bls.NewSchemeOnG1(suite)
+	sigLen := suite.G1().PointLen()
+	h := sha3.Sum512(value)
+
+	for r := len(leaders) - 1; r >= 0; r-- {
+		if len(validation) < sigLen {
+			return errors.New("the proposal is not justified")
+		}
+		var buf bytes.Buffer
+		buf.Write(ID)
+		buf.Write(utils.Uint32ToBytes(uint32(r)))
+		IDr := buf.Bytes()
+
+		if len(validation) == sigLen {
+			var buf bytes.Buffer
+			buf.Write([]byte("Echo"))
+			buf.Write(IDr)
+			buf.Write(utils.Uint32ToBytes(leaders[r]))
+			buf.WriteByte(1)
+			buf.Write(h[:])
+			if blsScheme.Verify(p.SigPK.Commit(), buf.Bytes(), validation) == nil { //verify("Echo"||ID||r||l||1||h)
+				return nil
+			}
+		}
+
+		sm := append([]byte("Unlock"), IDr...)
+		err := blsScheme.Verify(p.SigPK.Commit(), sm, validation[len(validation)-sigLen:]) //verify("Unlock"||ID||r)
+		if err != nil {
+			return err
+		}
+		validation = validation[:len(validation)-sigLen]
+	}
+	return nil
+}
+
 func election(ctx context.Context, p *HonestParty, IDr []byte, doneFlageChannel chan bool) {
 	select {
 	case <-ctx.Done():
diff --git a/internal/party/spb.go b/internal/party/spb.go
index 7d8ac93..5cd52a2 100644
--- a/internal/party/spb.go
+++ b/internal/party/spb.go
@@ -35,7 +35,8 @@ func SPBSender(ctx context.Context, p *HonestParty, ID []byte, value []byte, val
 }
 
 //SPBReceiver is run by the receiver of a instance of strong provable broadcast
-func SPBReceiver(ctx context.Context, p *HonestParty, sender uint32, ID []byte) ([]byte, []byte, bool) {
+//check decides whether a proposed value may be endorsed in the first stage
+func SPBReceiver(ctx context.Context, p *HonestParty, sender uint32, ID []byte, check func(*HonestParty, []byte, uint32, []byte, []byte) error) ([]byte, []byte, bool) {
 	var buf1, buf2 bytes.Buffer
 	buf1.Write(ID)
 	buf1.WriteByte(1)
@@ -44,7 +45,10 @@ func SPBReceiver(ctx context.Context, p *HonestParty, sender uint32, ID []byte)
 	ID1 := buf1.Bytes()
 	ID2 := buf2.Bytes()
 
-	Receiver(ctx, p, sender, ID1, nil)
+	_, _, ok := Receiver(ctx, p, sender, ID1, check)
+	if !ok {
+		return nil, nil, false
+	}
 	value, sig, ok := Receiver(ctx, p, sender, ID2, validator)
 	if !ok {
 		return nil, nil, false
-- 
2.43.0


From ad4291fca46e16aa8f4309026f1b266ceecee88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:07 +0000
Subject: [PATCH 24/46] fix: a party's echo counts once in the reliable
 broadcast

---
 internal/party/RBC.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index d4c58ff..d686539 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -67,6 +67,7 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 	for i := uint32(0); i < p.N; i++ {
 		hasReceivedReady[i] = false
 	}
+	var hasReceivedEcho = make(map[uint32]bool) //each party echoes once
 
 	//handle RBCPropose message
 	go func() {
@@ -109,6 +110,10 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 	go func() {
 		for {
 			m := <-p.GetMessage("RBCEcho", ID)
+			if hasReceivedEcho[m.Sender] {
+				continue
+			}
+			hasReceivedEcho[m.Sender] = true
 			// log.Printf("[party %v] receive RBCEcho message from [party %v], RBC instance ID: %s", p.PID, m.Sender, ID)
 			var payloadMessage protobuf.RBCEcho
 			proto.Unmarshal(m.Data, &payloadMessage)
-- 
2.43.0


From a752c7ec8ea17d3eb312d2a38118fda140101b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 25/46] fix: a reliable broadcast party votes once, for the
 digest that has the quorum

---
 internal/party/RBC.go | 90 ++++++++++++++-----------------------------
 1 file changed, 28 insertions(+), 62 deletions(-)

diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index d686539..8950b56 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -18,11 +18,6 @@ type mReceived struct {
 	mj []byte
 }
 
-type hm struct {
-	h string
-	m string
-}
-
 //RBC propose
 func (p *HonestParty) RBCSend(M *protobuf.Message, ID []byte) {
 	//encapsulate
@@ -55,11 +50,8 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 	var MaxReadyHash []byte
 
 	var isReadySent = false
-	var mutex sync.Mutex // isReadySent will be written by two goroutines. (line 11 and 13, Algo 4)
-	var mutexEchoMap sync.Mutex
-	var mutexReadyMap sync.Mutex
+	var mutex sync.Mutex // isReadySent and the maps are used by several goroutines. (line 11 and 13, Algo 4)
 
-	var readyChan = make(chan hm, p.N)
 	var RSDecStartChan = make(chan bool, 1)
 	var RSDecStart = false
 
@@ -69,6 +61,23 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 	}
 	var hasReceivedEcho = make(map[uint32]bool) //each party echoes once
 
+	//send RBCReady once, upon n-t=2f+1 matching RBCEcho messages (line 11-12, Algo 4), or
+	//t+1 RBCReady messages and t+1 matching RBCEcho messages (line 13-15, Algo 4). The caller holds the mutex.
+	sendReady := func(hash string) {
+		for mi, counter := range EchoMessageMap[hash] {
+			enough := uint32(counter) >= p.N-p.F || uint32(len(T[hash])) >= p.F+1 && uint32(counter) >= p.F+1
+			if isReadySent || !enough {
+				continue
+			}
+			isReadySent = true
+			readyData, _ := proto.Marshal(&protobuf.RBCReady{Hash: []byte(hash), M: []byte(mi)})
+			err := p.Broadcast(&protobuf.Message{Type: "RBCReady", Sender: p.PID, Id: ID, Data: readyData})
+			if err != nil {
+				log.Printf("[party %v] multicast RBCReady message error: %v, RBC instance ID: %s", p.PID, err, ID)
+			}
+		}
+	}
+
 	//handle RBCPropose message
 	go func() {
 		m := <-p.GetMessage("RBCPropose", ID)
@@ -120,7 +129,7 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 			hash := string(payloadMessage.Hash)
 			mi := string(payloadMessage.M)
 
-			mutexEchoMap.Lock()
+			mutex.Lock()
 			_, ok1 := EchoMessageMap[hash]
 			if ok1 {
 				//ok1 denotes that the map of hash exists
@@ -139,26 +148,11 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 			}
 
 			//send RBCReady, upon receiving n-t=2f+1 matching RBCEcho messages and not having sent RBCReady (line 11-12, Algo 4)
-			mutex.Lock()
-			if !isReadySent && uint32(EchoMessageMap[hash][mi]) >= p.N-p.F {
-				isReadySent = true
-				readyData, _ := proto.Marshal(&protobuf.RBCReady{Hash: []byte(hash), M: []byte(mi)})
-				err := p.Broadcast(&protobuf.Message{Type: "RBCReady", Sender: p.PID, Id: ID, Data: readyData})
-				if err != nil {
-					log.Printf("[party %v] multicast RBCReady message error: %v, RBC instance ID: %s", p.PID, err, ID)
-				}
-				// log.Printf("[party %v] multicast RBCReady in the 2t+1 Echo case, RBC instance ID: %s", p.PID, ID)
-			}
-
-			if uint32(EchoMessageMap[hash][mi]) >= p.F+1 {
-				//ready to send RBCReady when receive t+1 RBCReady messages from the others
-				// log.Printf("[party %v] has received t+1 RBCEcho messages, send to readyChan, RBC instance ID:%s", p.PID, ID)
-				readyChan <- hm{hash, mi}
-			}
-			mutex.Unlock() //TODO: move this unlock into if statement
-			mutexEchoMap.Unlock()
+			sendReady(hash)
+			finished := isReadySent
+			mutex.Unlock()
 			//finish this goroutine when RBCReady is sent
-			if isReadySent {
+			if finished {
 				break
 			}
 		}
@@ -181,7 +175,7 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 			mJ := payloadMessage.M
 			j := m.Sender //sender's pid, i.e., the index of the sender
 
-			mutexReadyMap.Lock()
+			mutex.Lock()
 			//avoid the replay attack
 
 			//
@@ -199,42 +193,14 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 			}
 
 			//send RBCReady messages, line 13-15, Algo 4 in RBC paper
-			mutex.Lock()
-			if !isReadySent && uint32(len(T[hashString])) >= p.F+1 {
-				mutex.Unlock()
-				// log.Printf("[party %v] receive t+1 RBCReady message, RBC instance ID: %s\n", p.label, ID)
-				//wait for t+1 matching RBCEcho messages
-				var res hm
-				for {
-					res = <-readyChan
-					// log.Printf("[party %v] waiting for t+1 matching RBCEcho messages, RBC instance ID: %s", p.label, ID)
-					mutexEchoMap.Lock()
-					if uint32(EchoMessageMap[res.h][res.m]) >= p.F+1 {
-						mutexEchoMap.Unlock()
-						// log.Printf("[party %v] finish waiting for t+1 matching RBCEcho messages, RBC instance ID: %s", p.label, ID)
-						mutex.Lock()
-						isReadySent = true
-						mutex.Unlock()
-						readyData, _ := proto.Marshal(&protobuf.RBCReady{Hash: hash, M: []byte(res.m)})
-						err := p.Broadcast(&protobuf.Message{Type: "RBCReady", Sender: p.PID, Id: ID, Data: readyData})
-						if err != nil {
-							log.Printf("[party %v] multicast RBCReady error: %v, RBC instance ID: %s", p.PID, err, ID)
-						}
-						// log.Printf("[party %v] multicast RBCReady in the t+1 Ready case, RBC instance ID: %s\n", p.label, ID)
-						break
-					}
-					mutexEchoMap.Unlock()
-				}
-			} else {
-				mutex.Unlock()
-			}
+			sendReady(hashString)
 
 			// upon receiving |T| >= 2t+1 = n-t
 			if !RSDecStart && uint32(len(T[string(hash)])) >= p.N-p.F {
 				RSDecStart = true
 				RSDecStartChan <- true
 			}
-			mutexReadyMap.Unlock()
+			mutex.Unlock()
 
 			//FIXME: kill this for loop when the RBC message is reconstructed
 			// isRec := <-RecDone
@@ -255,9 +221,9 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 		}
 
 		var mReceivedTemp = make([]mReceived, p.N-p.F+r)
-		mutexReadyMap.Lock()
+		mutex.Lock()
 		copy(mReceivedTemp, T[string(MaxReadyHash)])
-		mutexReadyMap.Unlock()
+		mutex.Unlock()
 
 		var M = make([][]byte, p.N)
 		for i := uint32(0); i < p.N-p.F+r; i++ {
-- 
2.43.0


From 348748f67fc7ab816ceeade8ef828a4c775f2473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:20 +0000
Subject: [PATCH 26/46] fix: the reliable broadcast reconstructs the message in
 the presence of wrong shards

---
 internal/party/RBC.go | 91 ++++++++++++++++++++++++-------------------
 1 file changed, 52 insertions(+), 39 deletions(-)

diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index 8950b56..e43a1cd 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -52,8 +52,7 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 	var isReadySent = false
 	var mutex sync.Mutex // isReadySent and the maps are used by several goroutines. (line 11 and 13, Algo 4)
 
-	var RSDecStartChan = make(chan bool, 1)
-	var RSDecStart = false
+	var RSDecStartChan = make(chan bool, p.N)
 
 	var hasReceivedReady = make(map[uint32]bool) //avoid replay attack
 	for i := uint32(0); i < p.N; i++ {
@@ -196,8 +195,7 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 			sendReady(hashString)
 
 			// upon receiving |T| >= 2t+1 = n-t
-			if !RSDecStart && uint32(len(T[string(hash)])) >= p.N-p.F {
-				RSDecStart = true
+			if uint32(len(T[string(hash)])) >= p.N-p.F {
 				RSDecStartChan <- true
 			}
 			mutex.Unlock()
@@ -210,48 +208,19 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 		}
 	}()
 
-	// wait for at least 2t+1 = n-t RS shards in T_h, i.e., T[string(hash)]
-	<-RSDecStartChan
 	//log.Printf("[party %v] start reconstruction, RBC instance ID: %s\n", p.PID, ID)
 	for r := uint32(0); r <= p.F; r++ {
-		for {
-			if uint32(MaxReadyNumber) >= p.N-p.F+r {
-				break
-			}
-		}
+		// wait for at least 2t+1+r = n-t+r RS shards in T_h, i.e., T[string(hash)]
+		<-RSDecStartChan
 
 		var mReceivedTemp = make([]mReceived, p.N-p.F+r)
 		mutex.Lock()
-		copy(mReceivedTemp, T[string(MaxReadyHash)])
+		digest := MaxReadyHash
+		copy(mReceivedTemp, T[string(digest)])
 		mutex.Unlock()
 
-		var M = make([][]byte, p.N)
-		for i := uint32(0); i < p.N-p.F+r; i++ {
-			M[mReceivedTemp[i].j] = mReceivedTemp[i].mj
-		}
-
-		RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
-		ok, _ := RSEncoder.Verify(M)
-		if !ok {
-			RSEncoder.Reconstruct(M)
-		}
-
-		//parse M and remove the padding zeros
-		var mReconstructed = make([]byte, 0)
-		for i := uint32(0); i < p.N-(p.F+1); i++ {
-			mReconstructed = append(mReconstructed, M[i]...)
-		}
-
-		//the last several bytes in MaxReadyHash are the lenth of M' (see line 9, Algo 4 in RBC paper)
-		mLenNew := utils.BytesToInt(MaxReadyHash[256/8:])
-		//the first 256/8 bytes in MaxReadyHash are the hash value
-		MaxReadyHash = MaxReadyHash[:256/8]
-		mReconstructed = mReconstructed[0:mLenNew]
-
-		hNew := sha256.New()
-		hNew.Write(mReconstructed)
-
-		if bytes.Equal(hNew.Sum(nil), MaxReadyHash) {
+		mReconstructed, ok := p.reconstruct(digest, mReceivedTemp, make([][]byte, p.N), 0)
+		if ok {
 			var replyMessage protobuf.Message
 			proto.Unmarshal(mReconstructed, &replyMessage)
 			// log.Printf("[party %v] have reconstructed message, RBC instance ID: %s\n", p.PID, ID)
@@ -261,3 +230,47 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 	log.Printf("ERROR: [party %v] cannot reconstruct the message, RBC instance ID: %s", p.PID, ID)
 	return nil
 }
+
+// reconstruct looks for the message with the given digest, using the shards chosen and some of those received,
+// of which several may be wrong. Any n-(t+1) correct shards determine the message.
+func (p *HonestParty) reconstruct(digest []byte, received []mReceived, chosen [][]byte, number uint32) ([]byte, bool) {
+	if number < p.N-(p.F+1) {
+		for i := range received {
+			if received[i].j >= len(chosen) || len(received[i].mj) == 0 {
+				continue
+			}
+			chosen[received[i].j] = received[i].mj
+			mReconstructed, ok := p.reconstruct(digest, received[i+1:], chosen, number+1)
+			if ok {
+				return mReconstructed, true
+			}
+			chosen[received[i].j] = nil
+		}
+		return nil, false
+	}
+
+	var M = make([][]byte, p.N)
+	copy(M, chosen)
+	RSEncoder, _ := reedsolomon.New(int(p.N-(p.F+1)), int(p.F+1))
+	if RSEncoder.Reconstruct(M) != nil || len(digest) < 256/8 {
+		return nil, false
+	}
+
+	//parse M and remove the padding zeros
+	var mReconstructed = make([]byte, 0)
+	for i := uint32(0); i < p.N-(p.F+1); i++ {
+		mReconstructed = append(mReconstructed, M[i]...)
+	}
+
+	//the last several bytes in the digest are the lenth of M' (see line 9, Algo 4 in RBC paper)
+	mLenNew := utils.BytesToInt(digest[256/8:])
+	if mLenNew > len(mReconstructed) {
+		return nil, false
+	}
+	mReconstructed = mReconstructed[0:mLenNew]
+
+	//the first 256/8 bytes in the digest are the hash value
+	hNew := sha256.New()
+	hNew.Write(mReconstructed)
+	return mReconstructed, bytes.Equal(hNew.Sum(nil), digest[:256/8])
+}
-- 
2.43.0


From 88123f6cfa78f15bf84474de2f09cd073dd4e2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 27/46] fix: only the sender of a reliable broadcast instance
 may propose

---
 internal/party/ProactivizeAndShareDist.go |  4 ++--
 internal/party/RBC.go                     | 13 +++++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index a77084e..48a7e71 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -142,7 +142,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	//Verify
 	for j := uint32(1); j <= p.N; j++ {
 		go func(j uint32) {
-			m := p.RBCReceive([]byte(string(ID) + "_1," + strconv.FormatUint(uint64(j), 10)))
+			m := p.RBCReceiveFrom([]byte(string(ID) + "_1," + strconv.FormatUint(uint64(j), 10)), j-1)
 			//log.Printf("[Proactivize Verify][New party %v] Have received the COM message from new party %v, RBCID: %s\n", p.PID, m.Sender, string(ID)+strconv.FormatUint(uint64(j), 10))
 			var ReceivedData protobuf.Commit
 			proto.Unmarshal(m.Data, &ReceivedData)
@@ -570,7 +570,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	//Verify
 	for j := uint32(1); j <= p.N; j++ {
 		go func(j uint32) {
-			m := p.RBCReceive([]byte(string(ID) + "_2," + strconv.FormatUint(uint64(j), 10)))
+			m := p.RBCReceiveFrom([]byte(string(ID) + "_2," + strconv.FormatUint(uint64(j), 10)), j-1)
 			NewCommitData := m.Data
 			ReceivedCB, _ := bls.FromCompressedG1(NewCommitData)
 			var oldCB bls.G1Point
diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index e43a1cd..0ccf6c4 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -36,7 +36,17 @@ func (p *HonestParty) RBCSendExclude(M *protobuf.Message, ID []byte, pid uint32)
 	log.Printf("[RBC][Party %v] broadcast RBCPropose message (excluding party %v), instance ID: %s\n", p.PID, pid, string(ID))
 }
 
+//RBCReceive delivers the message of an instance, whoever proposes it
 func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
+	return p.rbcReceive(ID, func(sender uint32) bool { return true })
+}
+
+//RBCReceiveFrom delivers the message of an instance in which only the given party may propose
+func (p *HonestParty) RBCReceiveFrom(ID []byte, proposer uint32) *protobuf.Message {
+	return p.rbcReceive(ID, func(sender uint32) bool { return sender == proposer })
+}
+
+func (p *HonestParty) rbcReceive(ID []byte, mayPropose func(sender uint32) bool) *protobuf.Message {
 	var M1 = make([][]byte, p.N) //  M' in the RBC paper (line 9, Algo 4). Must assign length (or copy will fail)
 	var mLen int                 // the length of M_i
 	//here we ignore the validator function P(.)
@@ -80,6 +90,9 @@ func (p *HonestParty) RBCReceive(ID []byte) *protobuf.Message {
 	//handle RBCPropose message
 	go func() {
 		m := <-p.GetMessage("RBCPropose", ID)
+		for !mayPropose(m.Sender) {
+			m = <-p.GetMessage("RBCPropose", ID)
+		}
 		// log.Printf("[party %v] receive RBCPropose message from [party %v], RBC instance ID: %s", p.PID, m.Sender+1, ID)
 		M := m.Data
 		mLen = len(M) // the length of M is used to remove the padding zeros after RS decoding
-- 
2.43.0


From a204ad4a85bec78f2fa92e58b4c6a01aebe124de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:52 +0000
Subject: [PATCH 28/46] fix: a refresh contribution is endorsed only if all its
 values verify

---
 internal/party/ProactivizeAndShareDist.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 48a7e71..7deedd9 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -275,7 +275,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 			var vjki = make([]bls.Fr, 2*p.F+2)
 			var wjki = make([]bls.G1Point, 2*p.F+2)
-			var verifyReshareOK = false
+			var verifyReshareOK = true //every value must open its commitment
 
 			for k := uint32(1); k <= 2*p.F+1; k++ {
 				vjki_bytes := [32]byte{}
@@ -288,9 +288,10 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				var position_vjki bls.Fr
 				bls.AsFr(&position_vjki, uint64(p.PID+1))
 				p.mutexKZG.Lock()
-				verifyReshareOK = p.KZG.CheckProofSingle(&C, &wjki[k], &position_vjki, &vjki[k])
+				verifyOK := p.KZG.CheckProofSingle(&C, &wjki[k], &position_vjki, &vjki[k])
 				p.mutexKZG.Unlock()
-				if !verifyReshareOK {
+				if !verifyOK {
+					verifyReshareOK = false
 					log.Printf("[Proactivize Vote][New party %v] Verify Reshare message from party %v FAIL, CQ[%v][%v]: %s, vjki:%v, wjki:%s\n", p.PID, m.Sender, indexJ, k, CQ[indexJ][k].String(), vjki[k].String(), wjki[k].String())
 					// break
 				}
-- 
2.43.0


From d7d0aff9ab66a414c82e7aa766566726c9ac9ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 29/46] fix: repeated refresh values of one party do not
 displace those of others

---
 internal/party/ProactivizeAndShareDist.go | 30 ++++++++++++++++-------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 7deedd9..3a9793b 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -258,20 +258,32 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	// 	SigShare[i] = make(map[uint32][]byte)
 	// }
 
-	for ctr := uint32(1); ctr <= p.N; ctr++ {
-		//ctr is not used here
-		go func(ctr uint32) {
+	//Vote - receiving messages, one from each party
+	var reshareMsgChan = make([]chan *protobuf.Message, p.N+1) // index 0 is not used
+	for j := uint32(0); j <= p.N; j++ {
+		reshareMsgChan[j] = make(chan *protobuf.Message, 1)
+	}
+	go func() {
+		var received = make(map[uint32]bool)
+		for uint32(len(received)) < p.N {
 			m := <-p.GetMessage("Reshare", ID)
+			if m.Sender >= p.N || received[m.Sender] {
+				continue
+			}
+			received[m.Sender] = true
+			reshareMsgChan[m.Sender+1] <- m
+		}
+	}()
+
+	for j := uint32(1); j <= p.N; j++ {
+		go func(indexJ uint32) {
+			m := <-reshareMsgChan[indexJ]
 			var ReceivedReshareData protobuf.Reshare
 			proto.Unmarshal(m.Data, &ReceivedReshareData)
 			// fmt.Printf("[Proactivize Vote][New party %v] Have received Reshare message from party %v\n", p.PID, m.Sender)
 
-			indexJ := m.Sender + 1
 			//wait until flgCom[indexJ]=1
-			if !flgCom[indexJ] {
-				// fmt.Printf("[Proactivize Vote][New party %v] Waiting for flgCom[%v]=1\n", p.PID, indexJ)
-				<-startVote[indexJ]
-			}
+			<-startVote[indexJ]
 
 			var vjki = make([]bls.Fr, 2*p.F+2)
 			var wjki = make([]bls.G1Point, 2*p.F+2)
@@ -329,7 +341,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				VoteSent[indexJ] <- true
 				//log.Printf("[Proactivize Vote][New party %v] Have sent the Recover message, derived from Reshare from party %v\n", p.PID, m.Sender)
 			}
-		}(ctr)
+		}(j)
 	}
 
 	//Recover
-- 
2.43.0


From 1623d24d4edcfc625038e8a8551e398625da2fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:31 +0000
Subject: [PATCH 30/46] fix: agreed refresh contributions are recovered even if
 their pieces come late

---
 internal/party/ProactivizeAndShareDist.go | 34 +++++++++++------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 3a9793b..9f984ea 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -362,17 +362,25 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 	RecoverMsgChan := make([]chan RecoverMsg, p.N+1) // index 0 is not used
 	for i := uint32(0); i <= p.N; i++ {
-		RecoverMsgChan[i] = make(chan RecoverMsg)
+		RecoverMsgChan[i] = make(chan RecoverMsg, p.N) //one message of each party: the receiver never blocks
 	}
 
 	//Recover - receiving messages
 	go func() {
+		var received = make([]map[uint32]bool, p.N+1) //index 0 is not used
+		for i := range received {
+			received[i] = make(map[uint32]bool)
+		}
 		for {
 			m := <-p.GetMessage("Recover", ID)
 
 			var ReceivedRecoverData protobuf.Recover
 			proto.Unmarshal(m.Data, &ReceivedRecoverData)
 			k := ReceivedRecoverData.Index
+			if m.Sender >= p.N || k < 1 || k > p.N || received[k][m.Sender] {
+				continue
+			}
+			received[k][m.Sender] = true
 			//log.Printf("[Proactivize Recover][New party %v] Have received Recover message from party %v, k=%v\n", p.PID, m.Sender, k)
 			var tmpV_Array [32]byte
 			copy(tmpV_Array[:], ReceivedRecoverData.V)
@@ -392,11 +400,8 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	MVBAResChan := make(chan []byte, 1)
 	for k := uint32(1); k <= p.N; k++ {
 		go func(k uint32) {
-			if !flgCom[k] {
-				//wait until flgCom[k]=1
-				// log.Printf("[Proactivize Recover][New party %v] Waiting for flgCom[%v]=1\n", p.PID, k)
-				<-startRecover[k]
-			}
+			//wait until flgCom[k]=1
+			<-startRecover[k]
 			for {
 				ReceivedRecoverMsg := <-RecoverMsgChan[k]
 				var mSender = ReceivedRecoverMsg.sender
@@ -447,7 +452,9 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 							log.Printf("[Proactivize MVBA][New party %v] Call MVBA with input length %v\n", p.PID, len(MVBAIn.J))
 							MVBAInData, _ := proto.Marshal(MVBAIn)
 							MVBASent = true
-							MVBAResChan <- MainProcess(p, ID, MVBAInData, []byte{}) //temporary solution (MainProcess means smvba.MainProcess)
+							go func() { //the contributions are still being recovered meanwhile
+								MVBAResChan <- MainProcess(p, ID, MVBAInData, []byte{}) //temporary solution (MainProcess means smvba.MainProcess)
+							}()
 						}
 						mutexMVBAIn.Unlock()
 					}
@@ -455,10 +462,6 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				} else {
 					log.Printf("[Proactivize Recover][New party %v] Verify Recover message from party %v FAIL, k=%v. Current Srec[%v] lenth: %v\\n", p.PID, mSender, k, k, len(SRec[k]))
 				}
-				if MVBASent {
-					//log.Printf("[Proactivize Recover][New party %v] Recover done\n", p.PID)
-					break
-				}
 			}
 		}(k)
 	}
@@ -476,13 +479,8 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 	for _, j := range MVBARes.J {
 
-		//wait until all related flgCom = 1
-		if !flgCom[j] {
-			<-RecDone[j]
-			p.mutexKZG.Lock()
-			CQ[j][p.PID+1] = *p.KZG.CommitToPoly(Q[j][p.PID+1])
-			p.mutexKZG.Unlock()
-		}
+		//wait until the contribution is recovered (and its commitments have been received)
+		<-RecDone[j]
 
 		for i := 0; uint32(i) < p.F+1; i++ {
 			var tmpCoeff bls.Fr
-- 
2.43.0


From 58776cd48421d5c1889abefeb8c86b1dad82310d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 31/46] fix: the endorsements of a refresh contribution are
 combined with the committee's threshold

---
 internal/party/ProactivizeAndShareDist.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 9f984ea..b2dea43 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -417,8 +417,9 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				p.mutexKZG.Unlock()
 
 				SigShareVerifyOk := p.tblsScheme.VerifyPartial(p.SigPK, []byte(strconv.FormatUint(uint64(k), 10)), ReceivedSigShare)
+				signer, errSigner := p.tblsScheme.IndexOf(ReceivedSigShare)
 
-				if KZGVerifyOk && (SigShareVerifyOk == nil) {
+				if KZGVerifyOk && (SigShareVerifyOk == nil) && errSigner == nil && uint32(signer) == mSender {
 					mutexSRec.Lock()
 					SRec[k] = append(SRec[k], SRecElement{mSender + 1, vkij})
 					//log.Printf("[Proactivize Recover][New party %v] Verify Recover message from party %v SUCCESS, k=%v. Current Srec[%v] lenth: %v\n", p.PID, mSender, k, k, len(SRec[k]))
@@ -435,12 +436,12 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 					SSig[k] = append(SSig[k], SSigElement{mSender + 1, ReceivedSigShare})
 					if !CombinedFlag[k] && uint32(len(SSig[k])) >= 2*p.F+1 {
-						var tmpSig = make([][]byte, len(SSig))
+						var tmpSig = make([][]byte, len(SSig[k]))
 						for i := 0; i < len(SSig[k]); i++ {
 							tmpSig[i] = SSig[k][i].Sig
 						}
 						//converting uint32 to int is dangerous
-						CombinedSig[k], _ = p.tblsScheme.Recover(p.SigPK, []byte(strconv.FormatUint(uint64(k), 10)), tmpSig, int(2*p.F), int(p.N))
+						CombinedSig[k], _ = p.tblsScheme.Recover(p.SigPK, []byte(strconv.FormatUint(uint64(k), 10)), tmpSig, int(2*p.F+1), int(p.N))
 						CombinedFlag[k] = true
 						//log.Printf("[Proactivize Recover][New party %v] Have combined a full signature for party %v, holding %v signatures now\n", p.PID, k, len(MVBAIn.Sig)+1)
 
-- 
2.43.0


From 4932eac5c29c6367e4afa3b69922d6cc2205d435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:48 +0000
Subject: [PATCH 32/46] fix: only certified sets of refresh contributions are
 agreed on

---
 internal/party/ProactivizeAndShareDist.go | 22 ++++++++++++++++++++--
 internal/party/main_process.go            |  9 ++++++++-
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index b2dea43..19c7012 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -12,6 +12,25 @@ import (
 	"google.golang.org/protobuf/proto"
 )
 
+//checkMVBAIn is the external validity of MVBA's values: a set of at least F+1 contributions, each with a full signature
+func (p *HonestParty) checkMVBAIn(value []byte) bool {
+	var in protobuf.MVBAIN
+	if proto.Unmarshal(value, &in) != nil || uint32(len(in.J)) < p.F+1 || len(in.Sig) != len(in.J) {
+		return false
+	}
+	var included = make(map[uint32]bool)
+	for i, j := range in.J {
+		if j < 1 || j > p.N || included[j] {
+			return false
+		}
+		included[j] = true
+		if p.tblsScheme.VerifyRecovered(p.SigPK.Commit(), []byte(strconv.FormatUint(uint64(j), 10)), in.Sig[i]) != nil {
+			return false
+		}
+	}
+	return true
+}
+
 func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 	p.ProactivizeStart = time.Now()
@@ -454,7 +473,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 							MVBAInData, _ := proto.Marshal(MVBAIn)
 							MVBASent = true
 							go func() { //the contributions are still being recovered meanwhile
-								MVBAResChan <- MainProcess(p, ID, MVBAInData, []byte{}) //temporary solution (MainProcess means smvba.MainProcess)
+								MVBAResChan <- MainProcessWithPredicate(p, ID, MVBAInData, []byte{}, p.checkMVBAIn) //temporary solution (MainProcess means smvba.MainProcess)
 							}()
 						}
 						mutexMVBAIn.Unlock()
@@ -468,7 +487,6 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	}
 
 	//Refresh
-	//TODO: implement MVBA's verification
 	MVBAResData := <-MVBAResChan
 	var MVBARes protobuf.MVBAIN
 	proto.Unmarshal(MVBAResData, &MVBARes)
diff --git a/internal/party/main_process.go b/internal/party/main_process.go
index 3a7d8bc..324b37e 100644
--- a/internal/party/main_process.go
+++ b/internal/party/main_process.go
@@ -21,6 +21,11 @@ import (
 
 //MainProcess is the main process of smvba instances
 func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []byte {
+	return MainProcessWithPredicate(p, ID, value, validation, nil)
+}
+
+//MainProcessWithPredicate is the main process of smvba instances that only output values with the predicate
+func MainProcessWithPredicate(p *HonestParty, ID []byte, value []byte, validation []byte, predicate func(value []byte) bool) []byte {
 	haltChannel := make(chan []byte, 1) //control all round
 	ctx, cancel := context.WithCancel(context.Background())
 
@@ -45,9 +50,11 @@ func MainProcess(p *HonestParty, ID []byte, value []byte, validation []byte) []b
 		voteOtherChannel := make(chan []byte, 1)
 
 		//CheckValue
-		//TODO: check the external validity of the values proposed in round 0
 		previous := leaders
 		checkValue := func(p *HonestParty, _ []byte, _ uint32, value []byte, validation []byte) error {
+			if predicate != nil && !predicate(value) {
+				return errors.New("the proposal is not valid")
+			}
 			return checkProposal(p, ID, previous, value, validation)
 		}
 
-- 
2.43.0


From a3cb6b31dc75e9a8737f1d9de53360c21af63c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:54 +0000
Subject: [PATCH 33/46] fix: repeated share messages of one party do not
 displace those of others

---
 internal/party/ProactivizeAndShareDist.go | 28 +++++++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 19c7012..27eeadf 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -641,16 +641,32 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	var SuccessSent = false
 	var SuccessSentChan = make(chan bool, 1)
 
-	for index := uint32(0); index < p.N; index++ {
-		//index is not used here
-		go func(index uint32) {
+	//receiving messages, one from each party
+	var shareDistMsgChan = make([]chan *protobuf.Message, p.N+1) // index 0 is not used
+	for j := uint32(0); j <= p.N; j++ {
+		shareDistMsgChan[j] = make(chan *protobuf.Message, 1)
+	}
+	go func() {
+		var received = make(map[uint32]bool)
+		for uint32(len(received)) < p.N {
 			m := <-p.GetMessage("ShareDist", ID)
+			if m.Sender >= p.N || received[m.Sender] {
+				continue
+			}
+			received[m.Sender] = true
+			shareDistMsgChan[m.Sender+1] <- m
+		}
+	}()
+
+	var mutexSB sync.Mutex
+	for j := uint32(1); j <= p.N; j++ {
+		go func(j uint32) {
+			m := <-shareDistMsgChan[j]
 
 			var ReceivedShareDistData protobuf.ShareDist
 			proto.Unmarshal(m.Data, &ReceivedShareDistData)
 			// fmt.Printf("[ShareDist][New party %v] Have received ShareDist message from party %v\n", p.PID, m.Sender)
 
-			j := m.Sender + 1
 			//wait until the commitment of B'(x,j) is included in SCom
 			<-SComChan[j]
 
@@ -673,6 +689,8 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 			if verifyKZGOk {
 				//log.Printf("[ShareDist Interpolate][New party %v] Verify ShareDist message from new party %v SUCCESS\n", p.PID, j)
+				mutexSB.Lock()
+				defer mutexSB.Unlock()
 				SB = append(SB, SBElement{
 					index: j,
 					CB:    currentCB,
@@ -704,7 +722,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			} else {
 				log.Printf("[ShareDist Interpolate][New party %v] Verify ShareDist message from new party %v FAIL\n", p.PID, j)
 			}
-		}(index)
+		}(j)
 	}
 
 	// Receive Success Message
-- 
2.43.0


From 7fa394bbe9de46d5035473ce5ea9c5218cfeb8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:55 +0000
Subject: [PATCH 34/46] fix: a party's success counts once

---
 internal/party/ProactivizeAndShareDist.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 27eeadf..69cd234 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -732,10 +732,15 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 
 	go func() {
 		<-SuccessSentChan
+		var succeeded = make(map[uint32]bool) //each party's success counts once
 		for {
-			<-p.GetMessage("Success", ID)
+			m := <-p.GetMessage("Success", ID)
 			// the content is useless here
 			// proto.Unmarshal(m.Data, &ReceivedSuccessData)
+			if m.Sender >= p.N || succeeded[m.Sender] {
+				continue
+			}
+			succeeded[m.Sender] = true
 			SuccessCount++
 
 			if SuccessCount >= 2*p.F+1 {
-- 
2.43.0


From 86b36282d03a85b72927e86941b8b0be7a0e30d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:23 +0000
Subject: [PATCH 35/46] fix: after a handoff a member holds the new commitments
 and its witnesses

---
 internal/party/ProactivizeAndShareDist.go | 48 +++++++++++++----------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index 69cd234..e09daf3 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -597,31 +597,33 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 		//log.Printf("[ShareDist Commit][New party %v] Commit done\n", p.PID)
 	}()
 
+	//the commitments of B'(x,j), which replace those of B(x,j) when the handoff is complete
+	var newCB = make([]bls.G1Point, p.N+1) //newCB[0] is not used
+	for j := uint32(1); j <= p.N; j++ {
+		var oldCB bls.G1Point
+		if j <= 2*p.F+1 {
+			bls.CopyG1(&oldCB, &p.Proof.PiContents[j].CBj)
+		} else {
+			CBList := make([]bls.G1Point, 2*p.F+2)
+			for i := uint32(1); i <= 2*p.F+1; i++ {
+				bls.CopyG1(&CBList[i], &p.Proof.PiContents[i].CBj)
+			}
+			p.mutexKZG.Lock()
+			oldCB = p.InterpolateComOrWit(2*p.F, j, CBList[1:])
+			p.mutexKZG.Unlock()
+		}
+		p.mutexKZG.Lock()
+		bls.AddG1(&newCB[j], &oldCB, &CQsum[j])
+		p.mutexKZG.Unlock()
+	}
+
 	//Verify
 	for j := uint32(1); j <= p.N; j++ {
 		go func(j uint32) {
 			m := p.RBCReceiveFrom([]byte(string(ID) + "_2," + strconv.FormatUint(uint64(j), 10)), j-1)
 			NewCommitData := m.Data
 			ReceivedCB, _ := bls.FromCompressedG1(NewCommitData)
-			var oldCB bls.G1Point
-			if j <= 2*p.F+1 {
-				bls.CopyG1(&oldCB, &p.Proof.PiContents[j].CBj)
-			} else {
-				CBList := make([]bls.G1Point, 2*p.F+2)
-				for i := uint32(1); i <= 2*p.F+1; i++ {
-					bls.CopyG1(&CBList[i], &p.Proof.PiContents[i].CBj)
-				}
-				p.mutexKZG.Lock()
-				oldCB = p.InterpolateComOrWit(2*p.F, j, CBList[1:])
-				p.mutexKZG.Unlock()
-			}
-
-			var addResult bls.G1Point
-			p.mutexKZG.Lock()
-			bls.AddG1(&addResult, &oldCB, &CQsum[j])
-			p.mutexKZG.Unlock()
-
-			if bls.EqualG1(ReceivedCB, &addResult) {
+			if bls.EqualG1(ReceivedCB, &newCB[j]) {
 				// log.Printf("[ShareDist][New party %v] Verify NEWCOM from RBC_2j SUCCESS, j=%v\n", p.PID, j)
 				SComMutex.Lock()
 				SCom[j] = SComElement{
@@ -632,7 +634,7 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				SComChan[j] <- true
 				//log.Printf("[ShareDist Verify][New party %v] %v-th Verify NewCom done\n", p.PID, j)
 			} else {
-				log.Printf("[ShareDist Verify][New party %v] Verify NewCom from RBC_2j FAIL, j=%v, receivedCB:%s, addResult:%s\n", p.PID, j, ReceivedCB.String(), addResult.String())
+				log.Printf("[ShareDist Verify][New party %v] Verify NewCom from RBC_2j FAIL, j=%v, receivedCB:%s, newCB:%s\n", p.PID, j, ReceivedCB.String(), newCB[j].String())
 			}
 		}(j)
 	}
@@ -705,6 +707,9 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 					for t := uint32(0); t < 2*p.F+1; t++ {
 						bls.AsFr(&DistX[t], uint64(SB[t].index))
 						bls.CopyFr(&DistY[t], &SB[t].v)
+						//keep the witnesses for the next handoff
+						bls.CopyFr(&p.witnessIndexes[t], &DistX[t])
+						bls.CopyG1(&p.witness[t], &SB[t].w)
 					}
 
 					p.fullShare = polyring.LagrangeInterpolate(2*int(p.F), DistX, DistY)
@@ -765,5 +770,8 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	// log.Printf("[New party %v] Waiting for DistributeSent", p.PID)
 	// <-DistributeSent
 	<-EnterNormalChan
+	for j := uint32(1); j <= 2*p.F+1; j++ {
+		bls.CopyG1(&p.Proof.PiContents[j].CBj, &newCB[j])
+	}
 	log.Printf("[ShareDist][New party %v] Exit Handoff\n", p.PID)
 }
-- 
2.43.0


From a83b1a01108ee5c612c72631687eec92d6bb7ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:34 +0000
Subject: [PATCH 36/46] fix: a finish message of a party that does not exist is
 ignored

---
 internal/party/message_handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/party/message_handler.go b/internal/party/message_handler.go
index 1323cd3..c1fc1fe 100644
--- a/internal/party/message_handler.go
+++ b/internal/party/message_handler.go
@@ -34,6 +34,9 @@ func messageHandler(ctx context.Context, p *HonestParty, IDr []byte, IDrj [][]by
 			case <-ctx.Done():
 				return
 			case m := <-p.GetMessage("Finish", IDr):
+				if m.Sender >= p.N {
+					continue
+				}
 				payload := core.Decapsulation("Finish", m).(*protobuf.Finish)
 				h := sha3.Sum512(payload.Value)
 				var buf bytes.Buffer
-- 
2.43.0


From ebc24d39e04f744eee0edb6c7b185bb1495eec2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:34 +0000
Subject: [PATCH 37/46] fix: RBC ignores empty proposals and parties that do
 not exist

---
 internal/party/RBC.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/internal/party/RBC.go b/internal/party/RBC.go
index 0ccf6c4..bd32ab9 100644
--- a/internal/party/RBC.go
+++ b/internal/party/RBC.go
@@ -90,7 +90,7 @@ func (p *HonestParty) rbcReceive(ID []byte, mayPropose func(sender uint32) bool)
 	//handle RBCPropose message
 	go func() {
 		m := <-p.GetMessage("RBCPropose", ID)
-		for !mayPropose(m.Sender) {
+		for !mayPropose(m.Sender) || len(m.Data) == 0 {
 			m = <-p.GetMessage("RBCPropose", ID)
 		}
 		// log.Printf("[party %v] receive RBCPropose message from [party %v], RBC instance ID: %s", p.PID, m.Sender+1, ID)
@@ -131,7 +131,7 @@ func (p *HonestParty) rbcReceive(ID []byte, mayPropose func(sender uint32) bool)
 	go func() {
 		for {
 			m := <-p.GetMessage("RBCEcho", ID)
-			if hasReceivedEcho[m.Sender] {
+			if m.Sender >= p.N || hasReceivedEcho[m.Sender] {
 				continue
 			}
 			hasReceivedEcho[m.Sender] = true
@@ -174,7 +174,7 @@ func (p *HonestParty) rbcReceive(ID []byte, mayPropose func(sender uint32) bool)
 	go func() {
 		for {
 			m := <-p.GetMessage("RBCReady", ID)
-			if hasReceivedReady[m.Sender] {
+			if m.Sender >= p.N || hasReceivedReady[m.Sender] {
 				continue
 			} else {
 				hasReceivedReady[m.Sender] = true
-- 
2.43.0


From b15d48e21b6ae2416a12388f9906cfd804b0097d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:34 +0000
Subject: [PATCH 38/46] fix: malformed messages in a refresh are ignored

---
 internal/party/ProactivizeAndShareDist.go | 45 ++++++++++++++++++++---
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/internal/party/ProactivizeAndShareDist.go b/internal/party/ProactivizeAndShareDist.go
index e09daf3..3a172cf 100644
--- a/internal/party/ProactivizeAndShareDist.go
+++ b/internal/party/ProactivizeAndShareDist.go
@@ -164,7 +164,18 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			m := p.RBCReceiveFrom([]byte(string(ID) + "_1," + strconv.FormatUint(uint64(j), 10)), j-1)
 			//log.Printf("[Proactivize Verify][New party %v] Have received the COM message from new party %v, RBCID: %s\n", p.PID, m.Sender, string(ID)+strconv.FormatUint(uint64(j), 10))
 			var ReceivedData protobuf.Commit
-			proto.Unmarshal(m.Data, &ReceivedData)
+			if m == nil || proto.Unmarshal(m.Data, &ReceivedData) != nil || uint32(len(ReceivedData.Pi)) < 2*p.F+1 {
+				log.Printf("[Proactivize Verify][New party %v] the Commit message from new party %v is malformed\n", p.PID, j)
+				return
+			}
+			for _, pi := range ReceivedData.Pi {
+				for _, point := range [][]byte{pi.CBj, pi.CZj, pi.WZ0, pi.GFj} {
+					if _, err := bls.FromCompressedG1(point); err != nil {
+						log.Printf("[Proactivize Verify][New party %v] the Commit message from new party %v is malformed\n", p.PID, j)
+						return
+					}
+				}
+			}
 
 			//TODO: This part can be replaced by verifying the commitment of KZG (reducing the communication cost from O(2t+1) to O(1))
 			GFjList := make([]bls.G1Point, 2*p.F+1)
@@ -299,6 +310,10 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			m := <-reshareMsgChan[indexJ]
 			var ReceivedReshareData protobuf.Reshare
 			proto.Unmarshal(m.Data, &ReceivedReshareData)
+			if uint32(len(ReceivedReshareData.Qk)) < 2*p.F+1 || uint32(len(ReceivedReshareData.WQk)) < 2*p.F+1 {
+				log.Printf("[Proactivize Vote][New party %v] the Reshare message from party %v is malformed\n", p.PID, m.Sender)
+				return
+			}
 			// fmt.Printf("[Proactivize Vote][New party %v] Have received Reshare message from party %v\n", p.PID, m.Sender)
 
 			//wait until flgCom[indexJ]=1
@@ -312,7 +327,11 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 				vjki_bytes := [32]byte{}
 				copy(vjki_bytes[:], ReceivedReshareData.Qk[k-1])
 				bls.FrFrom32(&vjki[k], vjki_bytes)
-				tmpWjki, _ := bls.FromCompressedG1(ReceivedReshareData.WQk[k-1])
+				tmpWjki, err := bls.FromCompressedG1(ReceivedReshareData.WQk[k-1])
+				if err != nil {
+					log.Printf("[Proactivize Vote][New party %v] the Reshare message from party %v is malformed\n", p.PID, m.Sender)
+					return
+				}
 				wjki[k] = *tmpWjki
 
 				C := CQ[indexJ][k]
@@ -405,7 +424,11 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			copy(tmpV_Array[:], ReceivedRecoverData.V)
 			var v bls.Fr
 			bls.FrFrom32(&v, tmpV_Array)
-			w, _ := bls.FromCompressedG1(ReceivedRecoverData.W)
+			w, err := bls.FromCompressedG1(ReceivedRecoverData.W)
+			if err != nil {
+				log.Printf("[Proactivize Recover][New party %v] the Recover message from party %v is malformed\n", p.PID, m.Sender)
+				continue
+			}
 			RecoverMsgChan[k] <- RecoverMsg{m.Sender, k, v, *w, ReceivedRecoverData.SigShare}
 		}
 	}()
@@ -621,8 +644,15 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 	for j := uint32(1); j <= p.N; j++ {
 		go func(j uint32) {
 			m := p.RBCReceiveFrom([]byte(string(ID) + "_2," + strconv.FormatUint(uint64(j), 10)), j-1)
+			if m == nil {
+				return
+			}
 			NewCommitData := m.Data
-			ReceivedCB, _ := bls.FromCompressedG1(NewCommitData)
+			ReceivedCB, err := bls.FromCompressedG1(NewCommitData)
+			if err != nil {
+				log.Printf("[ShareDist Verify][New party %v] the NewCommit message from party %v is malformed\n", p.PID, j)
+				return
+			}
 			if bls.EqualG1(ReceivedCB, &newCB[j]) {
 				// log.Printf("[ShareDist][New party %v] Verify NEWCOM from RBC_2j SUCCESS, j=%v\n", p.PID, j)
 				SComMutex.Lock()
@@ -676,13 +706,16 @@ func (p *HonestParty) ProactivizeAndShareDist(ID []byte) {
 			currentCB := SCom[j].CB
 			SComMutex.Unlock()
 			var vjShareDist bls.Fr
-			var wjShareDist *bls.G1Point
 			var i bls.Fr
 
 			var vjShareDist_Array [32]byte
 			copy(vjShareDist_Array[:], ReceivedShareDistData.B)
 			bls.FrFrom32(&vjShareDist, vjShareDist_Array)
-			wjShareDist, _ = bls.FromCompressedG1(ReceivedShareDistData.WB)
+			wjShareDist, err := bls.FromCompressedG1(ReceivedShareDistData.WB)
+			if err != nil {
+				log.Printf("[ShareDist Interpolate][New party %v] the ShareDist message from new party %v is malformed\n", p.PID, j)
+				return
+			}
 			bls.AsFr(&i, uint64(p.PID+1))
 
 			p.mutexKZG.Lock()
-- 
2.43.0


From 6342f05aa1e5edf780274651351a64157e4579d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:34 +0000
Subject: [PATCH 39/46] fix: malformed messages of the old committee are
 ignored

---
 internal/party/ShareReduce.go | 42 +++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/internal/party/ShareReduce.go b/internal/party/ShareReduce.go
index 9ec4364..99e174b 100644
--- a/internal/party/ShareReduce.go
+++ b/internal/party/ShareReduce.go
@@ -74,6 +74,9 @@ func (p *HonestParty) ShareReduceReceive(ID []byte) {
 
 	for {
 		m := <-p.GetMessage("ShareReduce", ID)
+		if m.Sender >= p.N {
+			continue
+		}
 		if cnt == 0 {
 			p.ShareReduceStart_new = time.Now()
 		}
@@ -81,8 +84,12 @@ func (p *HonestParty) ShareReduceReceive(ID []byte) {
 		var ShareReduceData protobuf.ShareReduce
 		proto.Unmarshal(m.Data, &ShareReduceData)
 
-		tmpC, _ := bls.FromCompressedG1(ShareReduceData.C)
-		tmpwJ, _ := bls.FromCompressedG1(ShareReduceData.W)
+		tmpC, errC := bls.FromCompressedG1(ShareReduceData.C)
+		tmpwJ, errW := bls.FromCompressedG1(ShareReduceData.W)
+		if errC != nil || errW != nil {
+			log.Printf("[ShareReduce][New party %v] the ShareReduce message from old party %v is malformed\n", p.PID, m.Sender)
+			continue
+		}
 		tmpvJ_bytes := [32]byte{}
 		copy(tmpvJ_bytes[:], ShareReduceData.V)
 		bls.CopyG1(&C, tmpC)
@@ -182,7 +189,12 @@ func (p *HonestParty) PrepareReceive(ID []byte) {
 		if cnt == 0 {
 			p.PrepareStart_new = time.Now()
 		}
-		if received[msg.Sender] {
+		if msg.Sender >= p.N || received[msg.Sender] {
+			continue
+		}
+		commitments, ok := p.parsePrepare(msg.Data)
+		if !ok {
+			log.Printf("[Prepare][New party %v] the Prepare message from old party %v is malformed\n", p.PID, msg.Sender)
 			continue
 		}
 		received[msg.Sender] = true
@@ -196,13 +208,8 @@ func (p *HonestParty) PrepareReceive(ID []byte) {
 			ProofMap[hashToString] = 1
 		}
 		if uint32(counter+1) == p.F+1 {
-			ProofMsg := new(protobuf.Prepare)
-
-			proto.Unmarshal(msg.Data, ProofMsg)
-
 			for i := 1; uint32(i) < 2*p.F+2; i++ {
-				tmp, _ := bls.FromCompressedG1(ProofMsg.Commitments[i])
-				bls.CopyG1(&p.Proof.PiContents[i].CBj, tmp)
+				bls.CopyG1(&p.Proof.PiContents[i].CBj, &commitments[i])
 			}
 
 			p.PrepareEnd_new = time.Now()
@@ -211,3 +218,20 @@ func (p *HonestParty) PrepareReceive(ID []byte) {
 		cnt++
 	}
 }
+
+//parsePrepare decodes the commitments in a Prepare message, whose indices start from 1
+func (p *HonestParty) parsePrepare(data []byte) ([]bls.G1Point, bool) {
+	var ProofMsg protobuf.Prepare
+	if proto.Unmarshal(data, &ProofMsg) != nil || uint32(len(ProofMsg.Commitments)) < 2*p.F+2 {
+		return nil, false
+	}
+	var commitments = make([]bls.G1Point, 2*p.F+2)
+	for i := 1; uint32(i) < 2*p.F+2; i++ {
+		tmp, err := bls.FromCompressedG1(ProofMsg.Commitments[i])
+		if err != nil {
+			return nil, false
+		}
+		bls.CopyG1(&commitments[i], tmp)
+	}
+	return commitments, true
+}
-- 
2.43.0


From c7d60b8a19c488a577834d941cb8cee63ceffd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:34 +0000
Subject: [PATCH 40/46] fix: a malformed dealing is ignored

---
 internal/party/VSS.go         | 17 +++++++++++++++--
 internal/party/party_utils.go | 24 ++++++++++++++++++------
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/internal/party/VSS.go b/internal/party/VSS.go
index 50e1d03..4f91415 100644
--- a/internal/party/VSS.go
+++ b/internal/party/VSS.go
@@ -27,8 +27,17 @@ func (p *HonestParty) VSSShareReceive(ID []byte) {
 	err := proto.Unmarshal(m.Data, &payloadMessage)
 	if err != nil {
 		log.Printf("[VSSEcho][Party %v] Unmarshal err: %v\n", p.PID, err)
+		return
+	}
+	if uint32(len(payloadMessage.BijList)) < 2*p.F+2 || uint32(len(payloadMessage.WBijList)) < 2*p.F+2 {
+		log.Printf("[VSSEcho][Party %v] the VSSSend message is malformed\n", p.PID)
+		return
+	}
+	err = piFromSend.SetFromVSSMessage(payloadMessage.Pi, p.F)
+	if err != nil {
+		log.Printf("[VSSEcho][Party %v] the VSSSend message is malformed: %v\n", p.PID, err)
+		return
 	}
-	piFromSend.SetFromVSSMessage(payloadMessage.Pi, p.F)
 
 	for j := uint32(1); j < 2*p.F+2; j++ {
 
@@ -36,7 +45,11 @@ func (p *HonestParty) VSSShareReceive(ID []byte) {
 		copy(value_byte[:], payloadMessage.BijList[j])
 		bls.FrFrom32(&polyValueFromSend[j], value_byte)
 
-		wit_raw, _ := bls.FromCompressedG1(payloadMessage.WBijList[j])
+		wit_raw, err := bls.FromCompressedG1(payloadMessage.WBijList[j])
+		if err != nil {
+			log.Printf("[VSSEcho][Party %v] the VSSSend message is malformed: %v\n", p.PID, err)
+			return
+		}
 		bls.CopyG1(&witnessFromSend[j], wit_raw)
 	}
 
diff --git a/internal/party/party_utils.go b/internal/party/party_utils.go
index bbbb6fd..9adb69b 100644
--- a/internal/party/party_utils.go
+++ b/internal/party/party_utils.go
@@ -247,17 +247,28 @@ func EncapsulateVSSSend(pi *Pi, BijList []bls.Fr, WBijList []bls.G1Point, F uint
 	return data
 }
 
-func (pi *Pi) SetFromVSSMessage(m *protobuf.Pi, F uint32) {
+func (pi *Pi) SetFromVSSMessage(m *protobuf.Pi, F uint32) error {
+	if uint32(len(m.GetPiContents())) < 2*F+2 {
+		return errors.New("the proof is too short")
+	}
 
-	Gs_raw, _ := bls.FromCompressedG1(m.Gs)
+	Gs_raw, err := bls.FromCompressedG1(m.Gs)
+	if err != nil {
+		return err
+	}
 	bls.CopyG1(&pi.Gs, Gs_raw)
 
 	for j := uint32(1); j <= 2*F+1; j++ {
 
-		CBj_raw, _ := bls.FromCompressedG1(m.PiContents[j].CBj)
-		CZj_raw, _ := bls.FromCompressedG1(m.PiContents[j].CZj)
-		WZ0_raw, _ := bls.FromCompressedG1(m.PiContents[j].WZ0)
-		gFj_raw, _ := bls.FromCompressedG1(m.PiContents[j].GFj)
+		CBj_raw, err1 := bls.FromCompressedG1(m.PiContents[j].CBj)
+		CZj_raw, err2 := bls.FromCompressedG1(m.PiContents[j].CZj)
+		WZ0_raw, err3 := bls.FromCompressedG1(m.PiContents[j].WZ0)
+		gFj_raw, err4 := bls.FromCompressedG1(m.PiContents[j].GFj)
+		for _, err := range []error{err1, err2, err3, err4} {
+			if err != nil {
+				return err
+			}
+		}
 
 		bls.CopyG1(&pi.PiContents[j].CBj, CBj_raw)
 		bls.CopyG1(&pi.PiContents[j].CZj, CZj_raw)
@@ -266,6 +277,7 @@ func (pi *Pi) SetFromVSSMessage(m *protobuf.Pi, F uint32) {
 
 		pi.PiContents[j].j = j
 	}
+	return nil
 }
 
 func (pi *Pi) Set(src *Pi, F uint32) {
-- 
2.43.0


From 81e13b2c63989355c9ce7ce6a7bf72483997311a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:58 +0000
Subject: [PATCH 41/46] fix: a peer that disconnects or sends garbage does not
 end the receiving party

---
 pkg/core/receive.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pkg/core/receive.go b/pkg/core/receive.go
index 67e775a..ceb5ac2 100644
--- a/pkg/core/receive.go
+++ b/pkg/core/receive.go
@@ -50,18 +50,18 @@ func MakeReceiveChannel(port string) chan *protobuf.Message {
 					lengthBuf := make([]byte, 4)
 					_, err1 := io.ReadFull(conn, lengthBuf)
 					length := utils.BytesToInt(lengthBuf)
-					buf := make([]byte, length)
-					_, err2 := io.ReadFull(conn, buf)
-					if err1 != nil || err2 != nil {
-						fmt.Printf("The receive channel has broken down, err1: %v, err2:%v\n", err1, err2)
-						log.Fatalln("The receive channel has broken down", err1, err2)
+					buf, err2 := io.ReadAll(io.LimitReader(conn, int64(length))) //the peer may claim any length
+					if err1 != nil || err2 != nil || len(buf) != length {
+						log.Printf("The receive channel has broken down, err1: %v, err2: %v\n", err1, err2)
+						conn.Close()
+						return
 					}
 					//Do Unmarshal
 					var m protobuf.Message
 					err3 := proto.Unmarshal(buf, &m)
 					if err3 != nil {
-						fmt.Printf("Unmarshal error: %v\n", err3)
-						log.Fatalln(err3)
+						log.Printf("Unmarshal error: %v\n", err3)
+						continue
 					}
 					//Push protobuf.Message to receivechannel
 					(channel) <- &m
-- 
2.43.0


From 823b34e55f279f863b251d0cd5b631e675764cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:58 +0000
Subject: [PATCH 42/46] fix: a peer that disconnects does not end the sending
 party

---
 pkg/core/send.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pkg/core/send.go b/pkg/core/send.go
index e31d3e7..1ac5eb6 100644
--- a/pkg/core/send.go
+++ b/pkg/core/send.go
@@ -36,9 +36,13 @@ func MakeSendChannel(hostIP string, hostPort string) chan *protobuf.Message {
 	//Make the send channel and the handle func
 	sendChannel := make(chan *protobuf.Message, MAXMESSAGE)
 	go func(conn *net.TCPConn, channel chan *protobuf.Message) {
+		broken := false
 		for {
 			//Pop protobuf.Message form sendchannel
 			m := <-(channel)
+			if broken {
+				continue //nobody receives this message, but the other parties still receive theirs
+			}
 			//Do Marshal
 			byt, err1 := proto.Marshal(m)
 			if err1 != nil {
@@ -49,13 +53,10 @@ func MakeSendChannel(hostIP string, hostPort string) chan *protobuf.Message {
 			length := len(byt)
 			_, err2 := conn.Write(utils.IntToBytes(length))
 			_, err3 := conn.Write(byt)
-			if err2 != nil {
-				fmt.Printf("Send message ERROR:%v\n", err2)
-				log.Fatalln("The send channel has broken down!", err2)
-			}
-			if err3 != nil {
-				fmt.Printf("Send message ERROR:%v\n", err3)
-				log.Fatalln("The send channel has broken down!", err3)
+			if err2 != nil || err3 != nil {
+				log.Printf("The send channel has broken down, err2: %v, err3: %v\n", err2, err3)
+				conn.Close()
+				broken = true
 			}
 		}
 	}(conn, sendChannel)
-- 
2.43.0


From 5b3b72fda958f3bbd12673187b7a017771403455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:29 +0000
Subject: [PATCH 43/46] fix: the pure scalar backend encodes numbers with
 leading zero bytes

---
 internal/bls/bignum_pure.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/internal/bls/bignum_pure.go b/internal/bls/bignum_pure.go
index 40c74c8..dce39b3 100755
--- a/internal/bls/bignum_pure.go
+++ b/internal/bls/bignum_pure.go
@@ -36,13 +36,11 @@ func FrFrom32(dst *Fr, v [32]byte) (ok bool) {
 
 // FrTo32 serializes a fr number to 32 bytes. Encoded little-endian.
 func FrTo32(src *Fr) (v [32]byte) {
-	b := (*big.Int)(src).Bytes()
-	last := len(b) - 1
-	// reverse endianness, u256.Int outputs big-endian bytes
+	(*big.Int)(src).FillBytes(v[:])
+	// reverse endianness, big.Int outputs big-endian bytes
 	for i := 0; i < 16; i++ {
-		b[i], b[last-i] = b[last-i], b[i]
+		v[i], v[31-i] = v[31-i], v[i]
 	}
-	copy(v[:], b)
 	return
 }
 
-- 
2.43.0


From 11e6053473ac13655b949d74b9d2a77e30b4fe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:29 +0000
Subject: [PATCH 44/46] fix: the hol256 scalar backend encodes numbers with
 leading zero bytes

---
 internal/bls/bignum_hol256.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/bls/bignum_hol256.go b/internal/bls/bignum_hol256.go
index 6873c39..8ce5f0d 100755
--- a/internal/bls/bignum_hol256.go
+++ b/internal/bls/bignum_hol256.go
@@ -48,13 +48,11 @@ func FrFrom32(dst *Fr, v [32]byte) (ok bool) {
 
 // FrTo32 serializes a fr number to 32 bytes. Encoded little-endian.
 func FrTo32(src *Fr) (v [32]byte) {
-	b := (*u256.Int)(src).Bytes()
-	last := len(b) - 1
+	v = (*u256.Int)(src).Bytes32()
 	// reverse endianness, u256.Int outputs big-endian bytes
 	for i := 0; i < 16; i++ {
-		b[i], b[last-i] = b[last-i], b[i]
+		v[i], v[31-i] = v[31-i], v[i]
 	}
-	copy(v[:], b)
 	return
 }
 
-- 
2.43.0


From fb0ab0d77531a8055cc0424a94055ee690ef2e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:29 +0000
Subject: [PATCH 45/46] fix: AsFr of the hbls backend takes numbers from 2^63
 on

---
 internal/bls/bignum_hbls.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/bls/bignum_hbls.go b/internal/bls/bignum_hbls.go
index 30a72a1..370ed1c 100755
--- a/internal/bls/bignum_hbls.go
+++ b/internal/bls/bignum_hbls.go
@@ -7,6 +7,7 @@ forked from https://github.com/protolambda/go-kzg at Feb 2,2023
 package bls
 
 import (
+	"encoding/binary"
 	"math/big"
 	"unsafe"
 
@@ -60,7 +61,10 @@ func CopyFr(dst *Fr, v *Fr) {
 }
 
 func AsFr(dst *Fr, i uint64) {
-	(*hbls.Fr)(dst).SetInt64(int64(i))
+	// SetInt64 would take the numbers from 2**63 on for negative ones
+	var b [8]byte
+	binary.LittleEndian.PutUint64(b[:], i)
+	(*hbls.Fr)(dst).SetLittleEndian(b[:])
 }
 
 func FrStr(b *Fr) string {
-- 
2.43.0


From 63521336d2e54f165a1e7119c188b229298f12c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:29 +0000
Subject: [PATCH 46/46] fix: the inverse of zero in the pure scalar backend is
 zero

---
 internal/bls/bignum_pure.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/bls/bignum_pure.go b/internal/bls/bignum_pure.go
index dce39b3..c7aaf34 100755
--- a/internal/bls/bignum_pure.go
+++ b/internal/bls/bignum_pure.go
@@ -109,7 +109,9 @@ func PowModFr(dst *Fr, a, b *Fr) {
 }
 
 func InvModFr(dst *Fr, v *Fr) {
-	(*big.Int)(dst).ModInverse((*big.Int)(v), &_modulus)
+	if (*big.Int)(dst).ModInverse((*big.Int)(v), &_modulus) == nil {
+		(*big.Int)(dst).SetInt64(0) // zero has no inverse: 0, as in the other backends
+	}
 }
 
 // BatchInvModFr computes the inverse for each input.
-- 
2.43.0

