From fb5c655a55f65121ff690be337fdd7d8386b33f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:15 +0000
Subject: [PATCH 01/26] fix: check the ratio of the TauG2 powers in the right
 direction

e([tau]_1, L1) must equal e(g1, L2): the generators' side was swapped, so
every honest file would fail (it was hidden by L1 = L2 = infinity).
---
 phase1/phase1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index 09fcb70..9ce4835 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -360,7 +360,7 @@ func Verify(inputPath, transformedPath string) error {
 
 	// Read and verify TauG2
 	fmt.Println("Verifying powers of TauG2")
-	if !common.SameRatio(g1, current.G1.Tau, tau2L1, tau2L2) {
+	if !common.SameRatio(current.G1.Tau, g1, tau2L1, tau2L2) {
 		return errors.New("failed pairing check")
 	}
 
-- 
2.43.0


From c239c6addd4e601391b2e591abbce9c207b0cda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:15 +0000
Subject: [PATCH 02/26] fix: aggregate the phase 1 parameters that are being
 verified

MultiExp was called with one scalar more than points; it failed, its error was
dropped, both aggregates stayed at infinity and every pairing check on the
parameters of a *.ph1 file passed whatever the file contained.
---
 phase1/utils.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/phase1/utils.go b/phase1/utils.go
index f575206..0fa9b2f 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -182,8 +182,13 @@ func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Aff
 		randomize(r)
 
 		// Process the batch
-		tmpL1.MultiExp(buff[:readCount-1], r, ecc.MultiExpConfig{})
-		tmpL2.MultiExp(buff[1:readCount], r, ecc.MultiExpConfig{})
+		// MultiExp requires exactly one scalar per point
+		if _, err := tmpL1.MultiExp(buff[:readCount-1], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
+			return L1, L2, err
+		}
+		if _, err := tmpL2.MultiExp(buff[1:readCount], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
+			return L1, L2, err
+		}
 		L1.Add(&L1, &tmpL1)
 		L2.Add(&L2, &tmpL2)
 
@@ -214,8 +219,13 @@ func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Aff
 		randomize(r)
 
 		// Process the batch
-		tmpL1.MultiExp(buff[:readCount-1], r, ecc.MultiExpConfig{})
-		tmpL2.MultiExp(buff[1:readCount], r, ecc.MultiExpConfig{})
+		// MultiExp requires exactly one scalar per point
+		if _, err := tmpL1.MultiExp(buff[:readCount-1], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
+			return L1, L2, err
+		}
+		if _, err := tmpL2.MultiExp(buff[1:readCount], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
+			return L1, L2, err
+		}
 		L1.Add(&L1, &tmpL1)
 		L2.Add(&L2, &tmpL2)
 
-- 
2.43.0


From e98307e7bd602de8b8bb3fae2210b9f330aebf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:01 +0000
Subject: [PATCH 03/26] fix: bind the phase 1 parameters to the last
 contribution

The pairing checks verify only the ratio of consecutive points, so a section
scaled by any constant (or all at infinity) was accepted: check that each
section starts with the generator or the point of the last contribution.
---
 phase1/phase1.go | 27 +++++++++++++++++++++++----
 phase1/utils.go  | 22 ++++++++++++++++++++--
 2 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index 9ce4835..6950f89 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -293,26 +293,30 @@ func Verify(inputPath, transformedPath string) error {
 	reader := bufio.NewReaderSize(inputFile, buffSize)
 	dec := bn254.NewDecoder(reader)
 
+	// First points of the sections
+	var tauG1, alphaTauG1, betaTauG1 [2]bn254.G1Affine
+	var tauG2 [2]bn254.G2Affine
+
 	fmt.Println("Processing TauG1")
-	tau1L1, tau1L2, err := linearCombinationG1(dec, 2*N-1)
+	tau1L1, tau1L2, err := linearCombinationG1(dec, 2*N-1, &tauG1[0], &tauG1[1])
 	if err != nil {
 		return err
 	}
 
 	fmt.Println("Processing AlphaTauG1")
-	alphaTau1L1, alphaTau1L2, err := linearCombinationG1(dec, N)
+	alphaTau1L1, alphaTau1L2, err := linearCombinationG1(dec, N, &alphaTauG1[0])
 	if err != nil {
 		return err
 	}
 
 	fmt.Println("Processing BetaTauG1")
-	betaTau1L1, betaTau1L2, err := linearCombinationG1(dec, N)
+	betaTau1L1, betaTau1L2, err := linearCombinationG1(dec, N, &betaTauG1[0])
 	if err != nil {
 		return err
 	}
 
 	fmt.Println("Processing TauG2")
-	tau2L1, tau2L2, err := linearCombinationG2(dec, N)
+	tau2L1, tau2L2, err := linearCombinationG2(dec, N, &tauG2[0], &tauG2[1])
 	if err != nil {
 		return err
 	}
@@ -340,6 +344,21 @@ func Verify(inputPath, transformedPath string) error {
 
 	// Verify consistency of parameters update
 	_, _, g1, g2 := bn254.Generators()
+	// Verify that the sections start from the last contribution, the pairing checks
+	// below only verify the ratio of their consecutive points
+	if !tauG1[0].Equal(&g1) || !tauG1[1].Equal(&current.G1.Tau) {
+		return errors.New("TauG1 doesn't start from the last contribution")
+	}
+	if !alphaTauG1[0].Equal(&current.G1.Alpha) {
+		return errors.New("AlphaTauG1 doesn't start from the last contribution")
+	}
+	if !betaTauG1[0].Equal(&current.G1.Beta) {
+		return errors.New("BetaTauG1 doesn't start from the last contribution")
+	}
+	if !tauG2[0].Equal(&g2) || !tauG2[1].Equal(&current.G2.Tau) {
+		return errors.New("TauG2 doesn't start from the last contribution")
+	}
+
 	// Read and verify TauG1
 	fmt.Println("Verifying powers of TauG1")
 	if !common.SameRatio(tau1L1, tau1L2, current.G2.Tau, g2) {
diff --git a/phase1/utils.go b/phase1/utils.go
index 0fa9b2f..c5ec8af 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -161,7 +161,9 @@ func randomize(r []fr.Element) {
 	})
 }
 
-func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Affine, error) {
+// linearCombinationG1 aggregates the N points of a section into L1 = Σ rᵢPᵢ and L2 = Σ rᵢPᵢ₊₁,
+// and sets leading to the first points of the section
+func linearCombinationG1(dec *bn254.Decoder, N int, leading ...*bn254.G1Affine) (bn254.G1Affine, bn254.G1Affine, error) {
 	// Allocate batch with smallest of (N, batchSize)
 	var initialSize = int(math.Min(float64(N), float64(batchSize)))
 	buff := make([]bn254.G1Affine, initialSize)
@@ -178,6 +180,13 @@ func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Aff
 			}
 		}
 
+		// Keep the leading points, should be done in first batch only
+		if remaining == N {
+			for i := 0; i < len(leading) && i < readCount; i++ {
+				leading[i].Set(&buff[i])
+			}
+		}
+
 		// Generate randomness
 		randomize(r)
 
@@ -198,7 +207,9 @@ func linearCombinationG1(dec *bn254.Decoder, N int) (bn254.G1Affine, bn254.G1Aff
 	return L1, L2, nil
 }
 
-func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Affine, error) {
+// linearCombinationG2 aggregates the N points of a section into L1 = Σ rᵢPᵢ and L2 = Σ rᵢPᵢ₊₁,
+// and sets leading to the first points of the section
+func linearCombinationG2(dec *bn254.Decoder, N int, leading ...*bn254.G2Affine) (bn254.G2Affine, bn254.G2Affine, error) {
 	// Allocate batch with smallest of (N, batchSize)
 	var initialSize = int(math.Min(float64(N), float64(batchSize)))
 	buff := make([]bn254.G2Affine, initialSize)
@@ -215,6 +226,13 @@ func linearCombinationG2(dec *bn254.Decoder, N int) (bn254.G2Affine, bn254.G2Aff
 			}
 		}
 
+		// Keep the leading points, should be done in first batch only
+		if remaining == N {
+			for i := 0; i < len(leading) && i < readCount; i++ {
+				leading[i].Set(&buff[i])
+			}
+		}
+
 		// Generate randomness
 		randomize(r)
 
-- 
2.43.0


From e3f3d95366842bed6a2f3d4f02a3b73cd6100e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:30 +0000
Subject: [PATCH 04/26] fix: verify the phase 1 parameters across batch
 boundaries

The ratio between the last point of a batch and the first one of the next was
never checked, so from 2^20 points on, each batch could be scaled separately.
---
 phase1/utils.go | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/phase1/utils.go b/phase1/utils.go
index c5ec8af..f477b30 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -170,6 +170,9 @@ func linearCombinationG1(dec *bn254.Decoder, N int, leading ...*bn254.G1Affine)
 	r := make([]fr.Element, initialSize)
 	var L1, L2, tmpL1, tmpL2 bn254.G1Affine
 
+	// Last point of the previous batch
+	var last bn254.G1Affine
+
 	remaining := N
 	for remaining > 0 {
 		// Read batch
@@ -201,6 +204,21 @@ func linearCombinationG1(dec *bn254.Decoder, N int, leading ...*bn254.G1Affine)
 		L1.Add(&L1, &tmpL1)
 		L2.Add(&L2, &tmpL2)
 
+		// Link the batch to the previous one
+		if remaining < N {
+			var link fr.Element
+			var linkBi big.Int
+			if _, err := link.SetRandom(); err != nil {
+				return L1, L2, err
+			}
+			link.BigInt(&linkBi)
+			tmpL1.ScalarMultiplication(&last, &linkBi)
+			tmpL2.ScalarMultiplication(&buff[0], &linkBi)
+			L1.Add(&L1, &tmpL1)
+			L2.Add(&L2, &tmpL2)
+		}
+		last.Set(&buff[readCount-1])
+
 		// Update remaining
 		remaining -= readCount
 	}
@@ -216,6 +234,9 @@ func linearCombinationG2(dec *bn254.Decoder, N int, leading ...*bn254.G2Affine)
 	r := make([]fr.Element, initialSize)
 	var L1, L2, tmpL1, tmpL2 bn254.G2Affine
 
+	// Last point of the previous batch
+	var last bn254.G2Affine
+
 	remaining := N
 	for remaining > 0 {
 		// Read batch
@@ -247,6 +268,21 @@ func linearCombinationG2(dec *bn254.Decoder, N int, leading ...*bn254.G2Affine)
 		L1.Add(&L1, &tmpL1)
 		L2.Add(&L2, &tmpL2)
 
+		// Link the batch to the previous one
+		if remaining < N {
+			var link fr.Element
+			var linkBi big.Int
+			if _, err := link.SetRandom(); err != nil {
+				return L1, L2, err
+			}
+			link.BigInt(&linkBi)
+			tmpL1.ScalarMultiplication(&last, &linkBi)
+			tmpL2.ScalarMultiplication(&buff[0], &linkBi)
+			L1.Add(&L1, &tmpL1)
+			L2.Add(&L2, &tmpL2)
+		}
+		last.Set(&buff[readCount-1])
+
 		// Update remaining
 		remaining -= readCount
 	}
-- 
2.43.0


From 4a88c9b69525ecdd49ecc2947be2823d2f3a2427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 05/26] fix: report an unreadable contribution in phase 1
 verification

The error of ReadFrom was dropped: a missing or malformed contribution left the
previous one in place instead of failing with its cause.
---
 phase1/phase1.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index 6950f89..07852c7 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -334,7 +334,9 @@ func Verify(inputPath, transformedPath string) error {
 		return err
 	}
 	for i := 0; i < int(header.Contributions); i++ {
-		current.ReadFrom(reader)
+		if _, err := current.ReadFrom(reader); err != nil {
+			return err
+		}
 		fmt.Printf("Verifying contribution %d with Hash := %s\n", i+1, hex.EncodeToString(current.Hash))
 		if err := verifyContribution(current, prev); err != nil {
 			return err
-- 
2.43.0


From f4fd4a675ef7616664453dfe4f3fd570a3462733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 06/26] fix: reject a phase 1 file without contributions

With no contribution the last contribution is the zero value, and a file whose
points are all at infinity was verified. Phase 2 rejects this already.
---
 phase1/phase1.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index 07852c7..7722815 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -286,6 +286,9 @@ func Verify(inputPath, transformedPath string) error {
 		return err
 	}
 	fmt.Printf("Power := %d and  #Contributions := %d\n", header.Power, header.Contributions)
+	if header.Contributions == 0 {
+		return errors.New("there are no contributions to verify")
+	}
 	N := int(math.Pow(2, float64(header.Power)))
 
 	// Use buffered IO to write parameters efficiently
-- 
2.43.0


From e9b950160f7e8308545b6506d09504a66b0891ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:38 +0000
Subject: [PATCH 07/26] fix: report unreadable parameters in phase 2
 verification

verifyParameter returned nil when the points couldn't be decoded, which skipped
the check of Z or PKK (and of the rest of the section).
---
 phase2/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/phase2/utils.go b/phase2/utils.go
index 3e3a312..9aee4bf 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -474,7 +474,7 @@ func verifyContribution(c *Contribution, prevDelta bn254.G1Affine, prevHash []by
 func verifyParameter(delta, g *bn254.G2Affine, inputDecoder, originDecoder *bn254.Decoder, size int, field string) error {
 	// aggregate points
 	if in, or, err := aggregate(inputDecoder, originDecoder, size); err != nil {
-		return nil
+		return err
 	} else {
 		if !common.SameRatio(*in, *or, *delta, *g) {
 			return fmt.Errorf("inconsistent update to %s", field)
-- 
2.43.0


From b88a991315c943f6dc59744798d78904eb8d6c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:39 +0000
Subject: [PATCH 08/26] fix: read headers and contribution hashes completely

Read returns what the buffer of the bufio.Reader holds: a hash lying across a
buffer boundary was cut short, so honest phase 2 files of some sizes were
corrupted by p2c and rejected by p2v, and a truncated hash went unnoticed.
---
 phase1/contribution.go | 2 +-
 phase1/header.go       | 4 ++--
 phase2/contribution.go | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/phase1/contribution.go b/phase1/contribution.go
index bcc7d7c..ffaabe3 100644
--- a/phase1/contribution.go
+++ b/phase1/contribution.go
@@ -78,7 +78,7 @@ func (c *Contribution) ReadFrom(reader io.Reader) (int64, error) {
 		}
 	}
 	c.Hash = make([]byte, 32)
-	nBytes, err := reader.Read(c.Hash)
+	nBytes, err := io.ReadFull(reader, c.Hash)
 	return int64(nBytes), err
 }
 
diff --git a/phase1/header.go b/phase1/header.go
index 88eb1b3..7fe661a 100644
--- a/phase1/header.go
+++ b/phase1/header.go
@@ -13,14 +13,14 @@ type Header struct {
 func (p *Header) ReadFrom(reader io.Reader) error {
 	buffPower := make([]byte, 1)
 	// Read NConstraints
-	if _, err := reader.Read(buffPower); err != nil {
+	if _, err := io.ReadFull(reader, buffPower); err != nil {
 		return err
 	}
 	p.Power = buffPower[0]
 
 	// Read NContribution
 	buffContributions := make([]byte, 2)
-	if _, err := reader.Read(buffContributions); err != nil {
+	if _, err := io.ReadFull(reader, buffContributions); err != nil {
 		return err
 	}
 	p.Contributions = binary.BigEndian.Uint16(buffContributions)
diff --git a/phase2/contribution.go b/phase2/contribution.go
index 0ca5d89..c54bbd3 100644
--- a/phase2/contribution.go
+++ b/phase2/contribution.go
@@ -47,7 +47,7 @@ func (c *Contribution) readFrom(reader io.Reader) (int64, error) {
 		}
 	}
 	c.Hash = make([]byte, 32)
-	nBytes, err := reader.Read(c.Hash)
+	nBytes, err := io.ReadFull(reader, c.Hash)
 	return int64(nBytes), err
 }
 
-- 
2.43.0


From 982cbe3cff12834ee7ab955cf3d4bfcb7a0e3bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 09/26] fix: reject contributions with points at infinity

With s = 0 or x = 0 all the pairing checks of a contribution hold trivially: a
contribution could set the toxic parameters to zero, or prove the knowledge of a
secret without having one.
---
 common/keypair.go | 5 +++++
 phase1/utils.go   | 5 +++++
 phase2/phase2.go  | 2 +-
 phase2/utils.go   | 5 +++++
 4 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/common/keypair.go b/common/keypair.go
index a3aa375..5c758aa 100644
--- a/common/keypair.go
+++ b/common/keypair.go
@@ -36,6 +36,11 @@ func GenPublicKey(x fr.Element, challenge []byte, dst byte) PublicKey {
 	return pk
 }
 
+// IsDegenerate returns true if s or x is zero, in which case the key proves no knowledge of x
+func (pk *PublicKey) IsDegenerate() bool {
+	return pk.S.IsInfinity() || pk.SX.IsInfinity() || pk.SPX.IsInfinity()
+}
+
 // Generate SP in G₂ as Hash(gˢ, gˢˣ, challenge, dst)
 func GenSP(sG1, sxG1 bn254.G1Affine, challenge []byte, dst byte) bn254.G2Affine {
 	buffer := append(sG1.Marshal()[:], sxG1.Marshal()...)
diff --git a/phase1/utils.go b/phase1/utils.go
index f477b30..cf46a54 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -290,6 +290,11 @@ func linearCombinationG2(dec *bn254.Decoder, N int, leading ...*bn254.G2Affine)
 }
 
 func verifyContribution(current, prev Contribution) error {
+	// Check that the toxic parameters and their proofs of knowledge aren't zero
+	if current.PublicKeys.Tau.IsDegenerate() || current.PublicKeys.Alpha.IsDegenerate() || current.PublicKeys.Beta.IsDegenerate() {
+		return errors.New("contribution has a degenerate public key")
+	}
+
 	// Compute SP for τ, α, β
 	tauSP := common.GenSP(current.PublicKeys.Tau.S, current.PublicKeys.Tau.SX, prev.Hash[:], 1)
 	alphaSP := common.GenSP(current.PublicKeys.Alpha.S, current.PublicKeys.Alpha.SX, prev.Hash[:], 2)
diff --git a/phase2/phase2.go b/phase2/phase2.go
index af219a7..c93b934 100644
--- a/phase2/phase2.go
+++ b/phase2/phase2.go
@@ -191,7 +191,7 @@ func Verify(inputPath, originPath string) error {
 	if err := orgHeader.Read(originReader); err != nil {
 		return err
 	}
-	if curHeader.Contributions == 0 {
+	if curHeader.Contributions <= 0 {
 		return fmt.Errorf("there are no contributions to verify")
 	}
 	if !curHeader.Equal(&orgHeader) {
diff --git a/phase2/utils.go b/phase2/utils.go
index 9aee4bf..a28632d 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -450,6 +450,11 @@ func scale(dec *bn254.Decoder, enc *bn254.Encoder, N int, delta *big.Int) error
 }
 
 func verifyContribution(c *Contribution, prevDelta bn254.G1Affine, prevHash []byte) error {
+	// Check that δ and its proof of knowledge aren't zero
+	if c.PublicKey.IsDegenerate() {
+		return errors.New("contribution has a degenerate public key")
+	}
+
 	// Compute SP for δ
 	deltaSP := common.GenSP(c.PublicKey.S, c.PublicKey.SX, prevHash, 1)
 
-- 
2.43.0


From e889fc329bf18a11b5a082e6c62c93d2b9b1b067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:23 +0000
Subject: [PATCH 10/26] fix: reject phase 1 parameters in uncompressed
 representation

Verify decodes the points as a stream in either representation, but phase 2
seeks to fixed positions: with some points uncompressed it would read other
points than the verified ones.
---
 phase1/phase1.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index 7722815..06df37d 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -330,6 +330,11 @@ func Verify(inputPath, transformedPath string) error {
 		return err
 	}
 
+	// The parameters are read at fixed positions later on, so they can't be in uncompressed representation
+	if dec.BytesRead() != 192*int64(N)+32 {
+		return errors.New("parameters aren't in compressed representation")
+	}
+
 	// Verify contributions
 	var current Contribution
 	prev, err := defaultContribution(transformedPath)
-- 
2.43.0


From ac1f1f3741f8f94f1c0e996b01dc810d6b0050c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 11/26] fix: split L properly for circuits with commitments

filterL indexed the committed wires by wire (out of range), and took the first
secret wire as public since #Public includes the commitment.
---
 phase2/utils.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/phase2/utils.go b/phase2/utils.go
index a28632d..815fb6c 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -545,10 +545,15 @@ func filterL(L []bn254.G1Affine, header2 *Header, cmtInfo *constraint.Commitment
 	vkk := make([]bn254.G1Affine, header2.Public)
 	ckk := make([]bn254.G1Affine, header2.PrivateCommitted)
 	vI, cI := 0, 0
+	// The commitment is counted in #Public, but it isn't one of the first wires
+	nbPublic := header2.Public
+	if cmtInfo.Is() {
+		nbPublic--
+	}
 	for i := range L {
-		isCommittedPrivate := cI < cmtInfo.NbPrivateCommitted && i == cmtInfo.PrivateCommitted()[i]
+		isCommittedPrivate := cI < cmtInfo.NbPrivateCommitted && i == cmtInfo.PrivateCommitted()[cI]
 		isCommitment := cmtInfo.Is() && i == cmtInfo.CommitmentIndex
-		isPublic := i < header2.Public
+		isPublic := i < nbPublic
 		if isCommittedPrivate {
 			ckk[cI].Set(&L[i])
 			cI++
-- 
2.43.0


From 0b2d51dbdee8a9f3333de67a1280eb5f01d6dc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:02 +0000
Subject: [PATCH 12/26] fix: write the commitment info in the verifying keys

It is in evals, but the keys always had an empty one, so proofs of circuits with
commitments could not be verified.
---
 keys/keys.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/keys/keys.go b/keys/keys.go
index 47bdb44..1bc4b2a 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -545,6 +545,11 @@ func extractVK(phase2Path string) error {
 	if err != nil {
 		return err
 	}
+
+	// 9. Read CommitmentInfo
+	if err := gob.NewDecoder(evalsReader).Decode(&vk.CommitmentInfo); err != nil {
+		return err
+	}
 	if _, err := vk.writeTo(vkWriter); err != nil {
 		return err
 	}
@@ -636,6 +641,11 @@ func extractSplitVK(phase2Path, session string) error {
 	if err != nil {
 		return err
 	}
+
+	// 9. Read CommitmentInfo
+	if err := gob.NewDecoder(evalsReader).Decode(&vk.CommitmentInfo); err != nil {
+		return err
+	}
 	if _, err := vk.writeTo(vkWriter); err != nil {
 		return err
 	}
-- 
2.43.0


From 588b2dcfd4e048d742e1b56a1df0e257cf869206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:33 +0000
Subject: [PATCH 13/26] fix: report the failure of the last writes of output
 files

The buffered writers were flushed by a defer that drops the error (and a few
writes were unchecked), so a full disk left a truncated file behind a success.
---
 keys/keys.go       | 22 ++++++++++++++++++++--
 phase1/phase1.go   | 18 +++++++++++++++---
 phase1/utils.go    |  6 ++++++
 phase2/lagrange.go |  6 ++++++
 phase2/parted.go   |  6 ++++++
 phase2/phase2.go   |  7 ++++++-
 phase2/utils.go    |  9 +++++++++
 7 files changed, 68 insertions(+), 6 deletions(-)

diff --git a/keys/keys.go b/keys/keys.go
index 1bc4b2a..f04ef1e 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -111,7 +111,9 @@ func extractPK(phase2Path string) error {
 
 	// 0. Write domain
 	domain := fft.NewDomain(uint64(header.Domain))
-	domain.WriteTo(pkWriter)
+	if _, err := domain.WriteTo(pkWriter); err != nil {
+		return err
+	}
 
 	// 1. Read/Write [α]₁
 	if err := decEvals.Decode(&alphaG1); err != nil {
@@ -234,6 +236,9 @@ func extractPK(phase2Path string) error {
 		return err
 	}
 
+	if err := pkWriter.Flush(); err != nil {
+		return err
+	}
 	return nil
 }
 
@@ -458,6 +463,11 @@ func extractSplitPK(phase2Path, session string) error {
 		return err
 	}
 
+	for _, writer := range []*bufio.Writer{pkEWriter, pkAWriter, pkB1Writer, pkZWriter, pkKWriter, pkB2Writer} {
+		if err := writer.Flush(); err != nil {
+			return err
+		}
+	}
 	return nil
 }
 
@@ -553,6 +563,9 @@ func extractVK(phase2Path string) error {
 	if _, err := vk.writeTo(vkWriter); err != nil {
 		return err
 	}
+	if err := vkWriter.Flush(); err != nil {
+		return err
+	}
 	return nil
 }
 
@@ -649,6 +662,9 @@ func extractSplitVK(phase2Path, session string) error {
 	if _, err := vk.writeTo(vkWriter); err != nil {
 		return err
 	}
+	if err := vkWriter.Flush(); err != nil {
+		return err
+	}
 
 	// Write the commitment key so that it can be read in pk separately
 	name = fmt.Sprintf("%s.pk.CommitmentKey.save", session)
@@ -657,7 +673,9 @@ func extractSplitVK(phase2Path, session string) error {
 		return err
 	}
 	defer commitmentKeyFile.Close()
-	vk.CommitmentKey.WriteTo(commitmentKeyFile)
+	if _, err := vk.CommitmentKey.WriteTo(commitmentKeyFile); err != nil {
+		return err
+	}
 	_, err = vk.CommitmentKey.WriteTo(commitmentKeyFile)
 	if err != nil {
 		return err
diff --git a/phase1/phase1.go b/phase1/phase1.go
index 06df37d..b03cd5e 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -97,7 +97,9 @@ func Initialize(power byte, outputPath string) error {
 	fmt.Printf("Power %d supports up to %d constraints\n", power, N)
 
 	// Write the header
-	header.writeTo(outputFile)
+	if err := header.writeTo(outputFile); err != nil {
+		return err
+	}
 
 	// Use buffered IO to write parameters efficiently
 	buffSize := int(math.Pow(2, 20))
@@ -142,7 +144,12 @@ func Initialize(power byte, outputPath string) error {
 
 	// Write [β]₂
 	fmt.Println("5. Writing BetaG2")
-	enc.Encode(&g2)
+	if err := enc.Encode(&g2); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
 
 	fmt.Println("Initialization has been completed successfully")
 	return nil
@@ -264,7 +271,12 @@ func Contribute(inputPath, outputPath string) error {
 	contribution.Hash = computeHash(&contribution)
 
 	// Write the contribution
-	contribution.writeTo(writer)
+	if _, err := contribution.writeTo(writer); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
 
 	fmt.Println("Contirbution has been successful!")
 	fmt.Println("Contribution Hash := ", hex.EncodeToString(contribution.Hash))
diff --git a/phase1/utils.go b/phase1/utils.go
index cf46a54..e40245c 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -357,6 +357,9 @@ func transformG1(inputFile, outputFile *os.File, position int64, size int) error
 			return err
 		}
 	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
 	return nil
 }
 
@@ -380,5 +383,8 @@ func transformG2(inputFile, outputFile *os.File, position int64, size int) error
 			return err
 		}
 	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
 	return nil
 }
diff --git a/phase2/lagrange.go b/phase2/lagrange.go
index ea5dd0a..255642f 100644
--- a/phase2/lagrange.go
+++ b/phase2/lagrange.go
@@ -34,6 +34,9 @@ func lagrangeG1(phase1File, lagFile *os.File, position int64, domain *fft.Domain
 	if err := enc.Encode(buff); err != nil {
 		return err
 	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
 	return nil
 }
 
@@ -62,5 +65,8 @@ func lagrangeG2(phase1File, lagFile *os.File, position int64, domain *fft.Domain
 	if err := enc.Encode(buff); err != nil {
 		return err
 	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
 	return nil
 }
diff --git a/phase2/parted.go b/phase2/parted.go
index a19446e..09bbc3f 100644
--- a/phase2/parted.go
+++ b/phase2/parted.go
@@ -286,5 +286,11 @@ func processPVCKKParted(r1cs *cs_bn254.R1CS, r1csPrefix string, nbCons, batchSiz
 		return err
 	}
 
+	if err := evalWriter.Flush(); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
 	return nil
 }
diff --git a/phase2/phase2.go b/phase2/phase2.go
index c93b934..1471f28 100644
--- a/phase2/phase2.go
+++ b/phase2/phase2.go
@@ -154,7 +154,12 @@ func Contribute(inputPath, outputPath string) error {
 	contribution.Hash = computeHash(&contribution)
 
 	// Write the contribution
-	contribution.writeTo(writer)
+	if _, err := contribution.writeTo(writer); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
 
 	fmt.Println("Contirbution has been successful!")
 	fmt.Println("Contribution Hash := ", hex.EncodeToString(contribution.Hash))
diff --git a/phase2/utils.go b/phase2/utils.go
index 815fb6c..fef49b2 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -271,6 +271,9 @@ func processDeltaAndZ(header1 *phase1.Header, header2 *Header, phase1File, phase
 			return err
 		}
 	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
 	return nil
 }
 
@@ -369,6 +372,12 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 		return err
 	}
 
+	if err := evalWriter.Flush(); err != nil {
+		return err
+	}
+	if err := writer.Flush(); err != nil {
+		return err
+	}
 	return nil
 }
 
-- 
2.43.0


From 9a464d7883b15b770c6562d706d5d6fc0c99b387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:34 +0000
Subject: [PATCH 14/26] fix: refuse to overwrite an input file

The output file was created (so truncated) before the input was read: p1c, p2c,
p2n... with the same path twice destroyed the ceremony file, and p2n to a file
named evals or srs.lag mixed the outputs up.
---
 common/outputs.go | 36 ++++++++++++++++++++++++++++++++++++
 keys/keys.go      | 11 +++++++++++
 phase1/phase1.go  |  6 ++++++
 phase2/parted.go  |  4 ++++
 phase2/phase2.go  |  6 ++++++
 5 files changed, 63 insertions(+)
 create mode 100644 common/outputs.go

diff --git a/common/outputs.go b/common/outputs.go
new file mode 100644
index 0000000..be62a1a
--- /dev/null
+++ b/common/outputs.go
@@ -0,0 +1,36 @@
+package common
+
+import (
+	"fmt"
+	"os"
+	"path/filepath"
+)
+
+// CheckOutputs returns an error if one of the files to be written is also one of the inputs,
+// or is the same as another file to be written, since creating it would destroy the other
+func CheckOutputs(inputs, outputs []string) error {
+	for i, output := range outputs {
+		others := append(append([]string{}, inputs...), outputs[:i]...)
+		for _, other := range others {
+			if sameFile(output, other) {
+				return fmt.Errorf("output file %s is the same as %s", output, other)
+			}
+		}
+	}
+	return nil
+}
+
+func sameFile(a, b string) bool {
+	if filepath.Clean(a) == filepath.Clean(b) {
+		return true
+	}
+	infoA, err := os.Stat(a)
+	if err != nil {
+		return false
+	}
+	infoB, err := os.Stat(b)
+	if err != nil {
+		return false
+	}
+	return infoA.Mode().IsRegular() && os.SameFile(infoA, infoB)
+}
diff --git a/keys/keys.go b/keys/keys.go
index f04ef1e..05373b2 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"os"
 
+	"github.com/bnb-chain/zkbnb-setup/common"
 	"github.com/bnb-chain/zkbnb-setup/phase2"
 	"github.com/consensys/gnark-crypto/ecc"
 	"github.com/consensys/gnark-crypto/ecc/bn254"
@@ -684,6 +685,9 @@ func extractSplitVK(phase2Path, session string) error {
 }
 
 func ExtractKeys(phase2Path string) error {
+	if err := common.CheckOutputs([]string{phase2Path, "evals"}, []string{"pk", "vk"}); err != nil {
+		return err
+	}
 	fmt.Println("Extracting proving key")
 	if err := extractPK(phase2Path); err != nil {
 		return err
@@ -697,6 +701,13 @@ func ExtractKeys(phase2Path string) error {
 }
 
 func ExtractSplitKeys(phase2Path, session string) error {
+	outputs := []string{session + ".vk.save"}
+	for _, part := range []string{"E", "A", "B1", "Z", "K", "B2", "CommitmentKey"} {
+		outputs = append(outputs, session+".pk."+part+".save")
+	}
+	if err := common.CheckOutputs([]string{phase2Path, "evals"}, outputs); err != nil {
+		return err
+	}
 	fmt.Println("Extracting proving key")
 	if err := extractSplitPK(phase2Path, session); err != nil {
 		return err
diff --git a/phase1/phase1.go b/phase1/phase1.go
index b03cd5e..9991001 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -15,6 +15,9 @@ import (
 )
 
 func Transform(inputPath, outputPath string, inPower, outPower byte) error {
+	if err := common.CheckOutputs([]string{inputPath}, []string{outputPath}); err != nil {
+		return err
+	}
 	// Input file is in uncompressed representation
 	const G1Size = 64
 	const G2Size = 128
@@ -156,6 +159,9 @@ func Initialize(power byte, outputPath string) error {
 }
 
 func Contribute(inputPath, outputPath string) error {
+	if err := common.CheckOutputs([]string{inputPath}, []string{outputPath}); err != nil {
+		return err
+	}
 	// Input file
 	inputFile, err := os.Open(inputPath)
 	if err != nil {
diff --git a/phase2/parted.go b/phase2/parted.go
index 09bbc3f..c78e1e5 100644
--- a/phase2/parted.go
+++ b/phase2/parted.go
@@ -9,12 +9,16 @@ import (
 	"os"
 	"runtime"
 
+	"github.com/bnb-chain/zkbnb-setup/common"
 	"github.com/bnb-chain/zkbnb-setup/phase1"
 	"github.com/consensys/gnark-crypto/ecc/bn254"
 	cs_bn254 "github.com/consensys/gnark/constraint/bn254"
 )
 
 func InitializeFromPartedR1CS(phase1Path, session, phase2Path string, nbCons, nbR1C, batchSize int) error {
+	if err := common.CheckOutputs([]string{phase1Path}, []string{phase2Path, "srs.lag", "evals"}); err != nil {
+		return err
+	}
 	phase1File, err := os.Open(phase1Path)
 	if err != nil {
 		return err
diff --git a/phase2/phase2.go b/phase2/phase2.go
index 1471f28..c017e59 100644
--- a/phase2/phase2.go
+++ b/phase2/phase2.go
@@ -13,6 +13,9 @@ import (
 )
 
 func Initialize(phase1Path, r1csPath, phase2Path string) error {
+	if err := common.CheckOutputs([]string{phase1Path, r1csPath}, []string{phase2Path, "srs.lag", "evals"}); err != nil {
+		return err
+	}
 	phase1File, err := os.Open(phase1Path)
 	if err != nil {
 		return err
@@ -56,6 +59,9 @@ func Initialize(phase1Path, r1csPath, phase2Path string) error {
 }
 
 func Contribute(inputPath, outputPath string) error {
+	if err := common.CheckOutputs([]string{inputPath}, []string{outputPath}); err != nil {
+		return err
+	}
 	// Input file
 	inputFile, err := os.Open(inputPath)
 	if err != nil {
-- 
2.43.0


From 2296c0f41578c7b04fcc0983dd09693587a221ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 15/26] fix: fail when no randomness can be sampled

The errors of SetRandom were dropped: without entropy the toxic parameters, or
the coefficients of the checks (then vacuous), stayed zero.
---
 common/keypair.go |  4 +++-
 phase1/phase1.go  | 12 +++++++++---
 phase1/utils.go   | 22 ++++++++++++++++++----
 phase2/phase2.go  |  4 +++-
 phase2/utils.go   | 10 +++++++++-
 5 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/common/keypair.go b/common/keypair.go
index 5c758aa..13f2317 100644
--- a/common/keypair.go
+++ b/common/keypair.go
@@ -19,7 +19,9 @@ func GenPublicKey(x fr.Element, challenge []byte, dst byte) PublicKey {
 
 	var s fr.Element
 	var sBi big.Int
-	s.SetRandom()
+	if _, err := s.SetRandom(); err != nil {
+		panic(err)
+	}
 	s.BigInt(&sBi)
 	pk.S.ScalarMultiplication(&g1, &sBi)
 
diff --git a/phase1/phase1.go b/phase1/phase1.go
index 9991001..c21bfb4 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -199,9 +199,15 @@ func Contribute(inputPath, outputPath string) error {
 	// Sample toxic parameters
 	fmt.Println("Sampling toxic parameters Tau, Alpha, and Beta")
 	var tau, alpha, beta, one fr.Element
-	tau.SetRandom()
-	alpha.SetRandom()
-	beta.SetRandom()
+	if _, err := tau.SetRandom(); err != nil {
+		return err
+	}
+	if _, err := alpha.SetRandom(); err != nil {
+		return err
+	}
+	if _, err := beta.SetRandom(); err != nil {
+		return err
+	}
 	one.SetOne()
 
 	var contribution Contribution
diff --git a/phase1/utils.go b/phase1/utils.go
index e40245c..dd5af78 100644
--- a/phase1/utils.go
+++ b/phase1/utils.go
@@ -4,10 +4,12 @@ import (
 	"bufio"
 	"bytes"
 	"errors"
+	"fmt"
 	"io"
 	"math"
 	"math/big"
 	"os"
+	"sync/atomic"
 
 	"github.com/bnb-chain/zkbnb-setup/common"
 	"github.com/consensys/gnark-crypto/ecc"
@@ -153,12 +155,20 @@ func scaleG2(dec *bn254.Decoder, enc *bn254.Encoder, N int, tau *fr.Element) (*b
 	return &firstPoint, nil
 }
 
-func randomize(r []fr.Element) {
+func randomize(r []fr.Element) error {
+	var failure atomic.Value
 	common.Parallelize(len(r), func(start, end int) {
 		for i := start; i < end; i++ {
-			r[i].SetRandom()
+			if _, err := r[i].SetRandom(); err != nil {
+				failure.Store(fmt.Errorf("couldn't sample randomness: %w", err))
+				return
+			}
 		}
 	})
+	if err, ok := failure.Load().(error); ok {
+		return err
+	}
+	return nil
 }
 
 // linearCombinationG1 aggregates the N points of a section into L1 = Σ rᵢPᵢ and L2 = Σ rᵢPᵢ₊₁,
@@ -191,7 +201,9 @@ func linearCombinationG1(dec *bn254.Decoder, N int, leading ...*bn254.G1Affine)
 		}
 
 		// Generate randomness
-		randomize(r)
+		if err := randomize(r); err != nil {
+			return L1, L2, err
+		}
 
 		// Process the batch
 		// MultiExp requires exactly one scalar per point
@@ -255,7 +267,9 @@ func linearCombinationG2(dec *bn254.Decoder, N int, leading ...*bn254.G2Affine)
 		}
 
 		// Generate randomness
-		randomize(r)
+		if err := randomize(r); err != nil {
+			return L1, L2, err
+		}
 
 		// Process the batch
 		// MultiExp requires exactly one scalar per point
diff --git a/phase2/phase2.go b/phase2/phase2.go
index c017e59..093f4b0 100644
--- a/phase2/phase2.go
+++ b/phase2/phase2.go
@@ -97,7 +97,9 @@ func Contribute(inputPath, outputPath string) error {
 	// Sample toxic δ
 	var delta, deltaInv fr.Element
 	var deltaBI, deltaInvBI big.Int
-	delta.SetRandom()
+	if _, err := delta.SetRandom(); err != nil {
+		return err
+	}
 	deltaInv.Inverse(&delta)
 
 	delta.BigInt(&deltaBI)
diff --git a/phase2/utils.go b/phase2/utils.go
index fef49b2..c905eff 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -10,6 +10,7 @@ import (
 	"math"
 	"math/big"
 	"os"
+	"sync/atomic"
 
 	"github.com/bnb-chain/zkbnb-setup/common"
 	"github.com/bnb-chain/zkbnb-setup/phase1"
@@ -509,11 +510,18 @@ func aggregate(inputDecoder, originDecoder *bn254.Decoder, size int) (*bn254.G1A
 	for remaining > 0 {
 
 		// generate randomness
+		var failure atomic.Value
 		common.Parallelize(len(r), func(start, end int) {
 			for i := start; i < end; i++ {
-				r[i].SetRandom()
+				if _, err := r[i].SetRandom(); err != nil {
+					failure.Store(fmt.Errorf("couldn't sample randomness: %w", err))
+					return
+				}
 			}
 		})
+		if err, ok := failure.Load().(error); ok {
+			return nil, nil, err
+		}
 
 		// Read from input
 		readCount := int(math.Min(float64(remaining), float64(batchSize)))
-- 
2.43.0


From 9e6230ccce47bccace862c44c6f281f654058695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 16/26] fix: reject powers out of range in p1n and p1t

The powers are converted to a byte: a negative power or one above 255 wrapped
around to another power, and a file of power 0 can't be contributed to.
---
 actions.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/actions.go b/actions.go
index 52eb39c..e77e3be 100644
--- a/actions.go
+++ b/actions.go
@@ -29,6 +29,9 @@ func p1t(cCtx *cli.Context) error {
 	if inPower < outPower {
 		return errors.New("cannot transform to a higher power")
 	}
+	if outPower < 1 || inPower > 28 {
+		return errors.New("can't support powers smaller than 1 or larger than 28")
+	}
 	err = phase1.Transform(inputPath, outputPath, byte(inPower), byte(outPower))
 	return err
 }
@@ -43,6 +46,9 @@ func p1n(cCtx *cli.Context) error {
 	if err != nil {
 		return err
 	}
+	if power < 1 {
+		return errors.New("can't support powers smaller than 1")
+	}
 	if power > 26 {
 		return errors.New("can't support powers larger than 26")
 	}
-- 
2.43.0


From 9a2157cfaf5654f599dc49ccbf982d9a90a1b6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 17/26] fix: check the numbers given to p2np against the
 circuit

A batch size below 1 looped forever, and with a wrong number of constraints
phase 2 was initialized silently for another circuit (or panicked).
---
 phase2/parted.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/phase2/parted.go b/phase2/parted.go
index c78e1e5..7518ec4 100644
--- a/phase2/parted.go
+++ b/phase2/parted.go
@@ -16,6 +16,9 @@ import (
 )
 
 func InitializeFromPartedR1CS(phase1Path, session, phase2Path string, nbCons, nbR1C, batchSize int) error {
+	if batchSize < 1 {
+		return fmt.Errorf("the batch size must be positive, but it is %d", batchSize)
+	}
 	if err := common.CheckOutputs([]string{phase1Path}, []string{phase2Path, "srs.lag", "evals"}); err != nil {
 		return err
 	}
@@ -37,6 +40,10 @@ func InitializeFromPartedR1CS(phase1Path, session, phase2Path string, nbCons, nb
 	// support nbR1C is small
 	cs.LoadFromSplitBinaryConcurrent(session, nbR1C, batchSize, runtime.NumCPU())
 
+	if cs.GetNbConstraints() != nbCons {
+		return fmt.Errorf("the circuit #Constraints are %d, but %d were expected", cs.GetNbConstraints(), nbCons)
+	}
+
 	// 1. Process Headers
 	header1, header2, err := processHeaderParted(cs, nbCons, phase1File, phase2File)
 	if err != nil {
-- 
2.43.0


From be2e1f8604f33c1f43d1219ab539f9713fc4f5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:21 +0000
Subject: [PATCH 18/26] fix: don't let the number of phase 1 contributions wrap
 around

The counter has 16 bits: contributing to a file with 65535 contributions wrote
one that claims to have none.
---
 phase1/phase1.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/phase1/phase1.go b/phase1/phase1.go
index c21bfb4..f9a4b9c 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -183,6 +183,9 @@ func Contribute(inputPath, outputPath string) error {
 	}
 	fmt.Printf("Power := %d and  #Contributions := %d\n", header.Power, header.Contributions)
 	N := int(math.Pow(2, float64(header.Power)))
+	if header.Contributions == math.MaxUint16 {
+		return errors.New("can't support more contributions")
+	}
 	header.Contributions++
 	if err := header.writeTo(outputFile); err != nil {
 		return err
-- 
2.43.0


From 01ab72ed6d61eaaa8e8745fd434c3f3c56ec0720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 19/26] fix: check that phase 1 supports the domain of the
 circuit

The smallest domain is 2, so for a circuit of one constraint and phase 1
parameters of power 0, points of the wrong sections were read.
---
 phase2/parted.go | 3 +++
 phase2/utils.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/phase2/parted.go b/phase2/parted.go
index 7518ec4..b18c80f 100644
--- a/phase2/parted.go
+++ b/phase2/parted.go
@@ -92,6 +92,9 @@ func processHeaderParted(r1cs *cs_bn254.R1CS, nbCons int, phase1File, phase2File
 	if N < header2.Constraints {
 		return nil, nil, fmt.Errorf("phase 1 parameters can support up to %d, but the circuit #Constraints are %d", N, header2.Constraints)
 	}
+	if N < header2.Domain {
+		return nil, nil, fmt.Errorf("phase 1 parameters can support a domain up to %d, but the circuit domain is %d", N, header2.Domain)
+	}
 
 	// Initialize Domain, #Wires, #Witness, #Public, #PrivateCommitted
 	header2.Wires = r1cs.NbInternalVariables + r1cs.GetNbPublicVariables() + r1cs.GetNbSecretVariables()
diff --git a/phase2/utils.go b/phase2/utils.go
index c905eff..31cef99 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -62,6 +62,9 @@ func processHeader(r1csPath string, phase1File, phase2File *os.File) (*phase1.He
 	if N < header2.Constraints {
 		return nil, nil, fmt.Errorf("phase 1 parameters can support up to %d, but the circuit #Constraints are %d", N, header2.Constraints)
 	}
+	if N < header2.Domain {
+		return nil, nil, fmt.Errorf("phase 1 parameters can support a domain up to %d, but the circuit domain is %d", N, header2.Domain)
+	}
 	// Initialize Domain, #Wires, #Witness, #Public, #PrivateCommitted
 	header2.Wires = r1cs.NbInternalVariables + r1cs.GetNbPublicVariables() + r1cs.GetNbSecretVariables()
 	header2.PrivateCommitted = r1cs.CommitmentInfo.NbPrivateCommitted
-- 
2.43.0


From 8a219d89e5a9df32a8d3b9aa1dc63b79ba22b766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 20/26] fix: initialize phase 2 with the lazy constraints of
 the R1CS

p2n counted the lazy constraints but evaluated only the others, so a lazified
R1CS silently got keys which enforce a part of the circuit only.
---
 phase2/utils.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/phase2/utils.go b/phase2/utils.go
index 31cef99..782dcc7 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -180,7 +180,8 @@ func processEvaluations(header1 *phase1.Header, header2 *Header, r1csPath string
 
 	// Accumlate {[A]₁}
 	buff := make([]bn254.G1Affine, header2.Wires)
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < header2.Constraints; i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		for _, t := range c.L {
 			accumulateG1(&r1cs, &buff[t.WireID()], t, &tauG1[i])
 		}
@@ -193,7 +194,8 @@ func processEvaluations(header1 *phase1.Header, header2 *Header, r1csPath string
 	// Reset buff
 	buff = make([]bn254.G1Affine, header2.Wires)
 	// Accumlate {[B]₁}
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < header2.Constraints; i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		for _, t := range c.R {
 			accumulateG1(&r1cs, &buff[t.WireID()], t, &tauG1[i])
 		}
@@ -217,7 +219,8 @@ func processEvaluations(header1 *phase1.Header, header2 *Header, r1csPath string
 		return err
 	}
 	// Accumlate {[B]₂}
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < header2.Constraints; i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		for _, t := range c.R {
 			accumulateG2(&r1cs, &buff2[t.WireID()], t, &tauG2[i])
 		}
@@ -315,7 +318,8 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 		return err
 	}
 
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < header2.Constraints; i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		// Output(Tau)
 		for _, t := range c.O {
 			accumulateG1(&r1cs, &L[t.WireID()], t, &buffSRS[i])
@@ -326,7 +330,8 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 	if err := dec.Decode(&buffSRS); err != nil {
 		return err
 	}
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < header2.Constraints; i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		// Right(AlphaTauG1)
 		for _, t := range c.R {
 			accumulateG1(&r1cs, &L[t.WireID()], t, &buffSRS[i])
@@ -337,7 +342,8 @@ func processPVCKK(header1 *phase1.Header, header2 *Header, r1csPath string, phas
 	if err := dec.Decode(&buffSRS); err != nil {
 		return err
 	}
-	for i, c := range r1cs.Constraints {
+	for i := 0; i < header2.Constraints; i++ {
+		c := r1cs.GetConstraintToSolve(i)
 		// Left(BetaTauG1)
 		for _, t := range c.L {
 			accumulateG1(&r1cs, &L[t.WireID()], t, &buffSRS[i])
-- 
2.43.0


From cadeb1f0bfbe6ff3f2e9cd965efb6fe920128995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 21/26] fix: reject evals of a circuit with other dimensions in
 key extraction

The evals file is looked up in the working directory and may be that of another
circuit, in which case the extracted keys mixed the two.
---
 keys/keys.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/keys/keys.go b/keys/keys.go
index 05373b2..7288f6f 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -3,6 +3,7 @@ package keys
 import (
 	"bufio"
 	"encoding/gob"
+	"errors"
 	"fmt"
 	"io"
 	"os"
@@ -154,6 +155,9 @@ func extractPK(phase2Path string) error {
 	if err := decEvals.Decode(&buffG1); err != nil {
 		return err
 	}
+	if len(buffG1) != header.Wires {
+		return errors.New("evals doesn't belong to the circuit of the phase 2 file")
+	}
 	buffG1, infinityA, nbInfinityA := filterInfinityG1(buffG1)
 	if err := encPk.Encode(buffG1); err != nil {
 		return err
@@ -381,6 +385,9 @@ func extractSplitPK(phase2Path, session string) error {
 	if err := decEvals.Decode(&buffG1); err != nil {
 		return err
 	}
+	if len(buffG1) != header.Wires {
+		return errors.New("evals doesn't belong to the circuit of the phase 2 file")
+	}
 	buffG1, infinityA, nbInfinityA := filterInfinityG1(buffG1)
 	if err := encPkA.Encode(buffG1); err != nil {
 		return err
@@ -546,12 +553,18 @@ func extractVK(phase2Path string) error {
 	if err := decEvals.Decode(&vk.G1.K); err != nil {
 		return err
 	}
+	if len(vk.G1.K) != header.Public {
+		return errors.New("evals doesn't belong to the circuit of the phase 2 file")
+	}
 
 	// 8. Setup commitment key
 	var ckk []bn254.G1Affine
 	if err := decEvals.Decode(&ckk); err != nil {
 		return err
 	}
+	if len(ckk) != header.PrivateCommitted {
+		return errors.New("evals doesn't belong to the circuit of the phase 2 file")
+	}
 	vk.CommitmentKey, err = pedersen.Setup(ckk)
 	if err != nil {
 		return err
@@ -645,12 +658,18 @@ func extractSplitVK(phase2Path, session string) error {
 	if err := decEvals.Decode(&vk.G1.K); err != nil {
 		return err
 	}
+	if len(vk.G1.K) != header.Public {
+		return errors.New("evals doesn't belong to the circuit of the phase 2 file")
+	}
 
 	// 8. Setup commitment key
 	var ckk []bn254.G1Affine
 	if err := decEvals.Decode(&ckk); err != nil {
 		return err
 	}
+	if len(ckk) != header.PrivateCommitted {
+		return errors.New("evals doesn't belong to the circuit of the phase 2 file")
+	}
 	vk.CommitmentKey, err = pedersen.Setup(ckk)
 	if err != nil {
 		return err
-- 
2.43.0


From 57f00368d18bff34779b95db1f3e4d258657c11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:22 +0000
Subject: [PATCH 22/26] fix: write the commitment key of split keys once

---
 keys/keys.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/keys/keys.go b/keys/keys.go
index 7288f6f..26b0445 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -693,9 +693,6 @@ func extractSplitVK(phase2Path, session string) error {
 		return err
 	}
 	defer commitmentKeyFile.Close()
-	if _, err := vk.CommitmentKey.WriteTo(commitmentKeyFile); err != nil {
-		return err
-	}
 	_, err = vk.CommitmentKey.WriteTo(commitmentKeyFile)
 	if err != nil {
 		return err
-- 
2.43.0


From 5716711352dfa168d5fec9f12551b83a98e9a433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:29 +0000
Subject: [PATCH 23/26] fix: recognize the same output file behind links that
 don't exist yet

---
 common/outputs.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/common/outputs.go b/common/outputs.go
index be62a1a..0534392 100644
--- a/common/outputs.go
+++ b/common/outputs.go
@@ -21,7 +21,7 @@ func CheckOutputs(inputs, outputs []string) error {
 }
 
 func sameFile(a, b string) bool {
-	if filepath.Clean(a) == filepath.Clean(b) {
+	if target(a) == target(b) {
 		return true
 	}
 	infoA, err := os.Stat(a)
@@ -34,3 +34,26 @@ func sameFile(a, b string) bool {
 	}
 	return infoA.Mode().IsRegular() && os.SameFile(infoA, infoB)
 }
+
+// target returns the name of the file that would be opened or created as path, after following links
+func target(path string) string {
+	const maxLinks = 40
+	path = filepath.Clean(path)
+	if abs, err := filepath.Abs(path); err == nil {
+		path = abs
+	}
+	for i := 0; i < maxLinks; i++ {
+		if dir, err := filepath.EvalSymlinks(filepath.Dir(path)); err == nil {
+			path = filepath.Join(dir, filepath.Base(path))
+		}
+		link, err := os.Readlink(path)
+		if err != nil {
+			break
+		}
+		if !filepath.IsAbs(link) {
+			link = filepath.Join(filepath.Dir(path), link)
+		}
+		path = link
+	}
+	return path
+}
-- 
2.43.0


From 22f2d6b30f382481cfbb72319833ae8aade832f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:29 +0000
Subject: [PATCH 24/26] fix: refuse to overwrite the parts of a split circuit
 and the verifying key

---
 keys/keys.go     |  3 +++
 phase2/parted.go | 27 ++++++++++++++++++++++++++-
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/keys/keys.go b/keys/keys.go
index 26b0445..72e42b0 100644
--- a/keys/keys.go
+++ b/keys/keys.go
@@ -738,6 +738,9 @@ func ExtractSplitKeys(phase2Path, session string) error {
 
 func ExportSol(session string) error {
 	filename := session + ".sol"
+	if err := common.CheckOutputs([]string{session + ".vk.save"}, []string{filename}); err != nil {
+		return err
+	}
 	fmt.Printf("Exporting %s\n", filename)
 	f, _ := os.Open(session + ".vk.save")
 	verifyingKey := groth16.NewVerifyingKey(ecc.BN254)
diff --git a/phase2/parted.go b/phase2/parted.go
index b18c80f..461b67a 100644
--- a/phase2/parted.go
+++ b/phase2/parted.go
@@ -7,7 +7,9 @@ import (
 	"io"
 	"math"
 	"os"
+	"path/filepath"
 	"runtime"
+	"strings"
 
 	"github.com/bnb-chain/zkbnb-setup/common"
 	"github.com/bnb-chain/zkbnb-setup/phase1"
@@ -19,7 +21,11 @@ func InitializeFromPartedR1CS(phase1Path, session, phase2Path string, nbCons, nb
 	if batchSize < 1 {
 		return fmt.Errorf("the batch size must be positive, but it is %d", batchSize)
 	}
-	if err := common.CheckOutputs([]string{phase1Path}, []string{phase2Path, "srs.lag", "evals"}); err != nil {
+	parts, err := partsOf(session)
+	if err != nil {
+		return err
+	}
+	if err := common.CheckOutputs(append(parts, phase1Path), []string{phase2Path, "srs.lag", "evals"}); err != nil {
 		return err
 	}
 	phase1File, err := os.Open(phase1Path)
@@ -74,6 +80,25 @@ func InitializeFromPartedR1CS(phase1Path, session, phase2Path string, nbCons, nb
 	return nil
 }
 
+// partsOf returns the names of the files of the parted R1CS
+func partsOf(session string) ([]string, error) {
+	dir, prefix := filepath.Split(session)
+	if dir == "" {
+		dir = "."
+	}
+	entries, err := os.ReadDir(dir)
+	if err != nil {
+		return nil, err
+	}
+	var parts []string
+	for _, entry := range entries {
+		if strings.HasPrefix(entry.Name(), prefix+".r1cs.") {
+			parts = append(parts, filepath.Join(dir, entry.Name()))
+		}
+	}
+	return parts, nil
+}
+
 // processHeaderParted r1cs has no R1CCore.Constraints included
 func processHeaderParted(r1cs *cs_bn254.R1CS, nbCons int, phase1File, phase2File *os.File) (*phase1.Header, *Header, error) {
 	fmt.Println("Processing the headers ...")
-- 
2.43.0


From 75bc80f7dff563c1ba5e7ac1408b0bc44f8441d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 25/26] fix: refuse a circuit without constraints

---
 phase2/parted.go | 4 ++++
 phase2/utils.go  | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/phase2/parted.go b/phase2/parted.go
index 461b67a..ed1b627 100644
--- a/phase2/parted.go
+++ b/phase2/parted.go
@@ -3,6 +3,7 @@ package phase2
 import (
 	"bufio"
 	"encoding/gob"
+	"errors"
 	"fmt"
 	"io"
 	"math"
@@ -107,6 +108,9 @@ func processHeaderParted(r1cs *cs_bn254.R1CS, nbCons int, phase1File, phase2File
 	var header1 phase1.Header
 
 	header2.Constraints = nbCons
+	if header2.Constraints < 1 {
+		return nil, nil, errors.New("the circuit has no constraints")
+	}
 	header2.Domain = nextPowerofTwo(header2.Constraints)
 
 	// Check if phase 1 power can support the current #Constraints
diff --git a/phase2/utils.go b/phase2/utils.go
index 782dcc7..a6062e5 100644
--- a/phase2/utils.go
+++ b/phase2/utils.go
@@ -52,6 +52,9 @@ func processHeader(r1csPath string, phase1File, phase2File *os.File) (*phase1.He
 		return nil, nil, err
 	}
 	header2.Constraints = r1cs.GetNbConstraints()
+	if header2.Constraints < 1 {
+		return nil, nil, errors.New("the circuit has no constraints")
+	}
 	header2.Domain = nextPowerofTwo(header2.Constraints)
 
 	// Check if phase 1 power can support the current #Constraints
-- 
2.43.0


From 650b8eef034d15a9b74c38ec648cca1a89ae89d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:52 +0000
Subject: [PATCH 26/26] fix: keep a contributor's secrets out of the trace of a
 panic

GenPublicKey was given the secret by value and panicked when the source of
randomness failed: the trace that Go prints has the arguments, so that it
showed the toxic parameter.
---
 common/keypair.go |  7 ++++---
 phase1/phase1.go  | 12 +++++++++---
 phase2/phase2.go  |  4 +++-
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/common/keypair.go b/common/keypair.go
index 13f2317..012c975 100644
--- a/common/keypair.go
+++ b/common/keypair.go
@@ -13,14 +13,15 @@ type PublicKey struct {
 	SPX bn254.G2Affine
 }
 
-func GenPublicKey(x fr.Element, challenge []byte, dst byte) PublicKey {
+// GenPublicKey takes x by reference and returns errors, as the stack trace of a panic would reveal x otherwise
+func GenPublicKey(x *fr.Element, challenge []byte, dst byte) (PublicKey, error) {
 	var pk PublicKey
 	_, _, g1, _ := bn254.Generators()
 
 	var s fr.Element
 	var sBi big.Int
 	if _, err := s.SetRandom(); err != nil {
-		panic(err)
+		return pk, err
 	}
 	s.BigInt(&sBi)
 	pk.S.ScalarMultiplication(&g1, &sBi)
@@ -35,7 +36,7 @@ func GenPublicKey(x fr.Element, challenge []byte, dst byte) PublicKey {
 
 	// compute x*spG2
 	pk.SPX.ScalarMultiplication(&SP, &xBi)
-	return pk
+	return pk, nil
 }
 
 // IsDegenerate returns true if s or x is zero, in which case the key proves no knowledge of x
diff --git a/phase1/phase1.go b/phase1/phase1.go
index f9a4b9c..7d33d54 100644
--- a/phase1/phase1.go
+++ b/phase1/phase1.go
@@ -280,9 +280,15 @@ func Contribute(inputPath, outputPath string) error {
 	}
 
 	// Generate public keys
-	contribution.PublicKeys.Tau = common.GenPublicKey(tau, prevHash, 1)
-	contribution.PublicKeys.Alpha = common.GenPublicKey(alpha, prevHash, 2)
-	contribution.PublicKeys.Beta = common.GenPublicKey(beta, prevHash, 3)
+	if contribution.PublicKeys.Tau, err = common.GenPublicKey(&tau, prevHash, 1); err != nil {
+		return err
+	}
+	if contribution.PublicKeys.Alpha, err = common.GenPublicKey(&alpha, prevHash, 2); err != nil {
+		return err
+	}
+	if contribution.PublicKeys.Beta, err = common.GenPublicKey(&beta, prevHash, 3); err != nil {
+		return err
+	}
 	contribution.Hash = computeHash(&contribution)
 
 	// Write the contribution
diff --git a/phase2/phase2.go b/phase2/phase2.go
index 093f4b0..43ba401 100644
--- a/phase2/phase2.go
+++ b/phase2/phase2.go
@@ -158,7 +158,9 @@ func Contribute(inputPath, outputPath string) error {
 
 	var contribution Contribution
 	contribution.Delta.Set(&delta1)
-	contribution.PublicKey = common.GenPublicKey(delta, prevHash, 1)
+	if contribution.PublicKey, err = common.GenPublicKey(&delta, prevHash, 1); err != nil {
+		return err
+	}
 	contribution.Hash = computeHash(&contribution)
 
 	// Write the contribution
-- 
2.43.0

