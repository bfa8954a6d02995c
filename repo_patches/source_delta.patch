From 0c66d977895a91691f29cf32e887a1a3cb8b05f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:10 +0000
Subject: [PATCH 1/8] fix: BatchXNOR computed XOR

XNOR is encoded as a - 2b + 1/4, as in the single XNOR gate. BatchXNOR
subtracted the quarter instead, which inverts the gate.
---
 gates/gates.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gates/gates.go b/gates/gates.go
index 0ebd29f..5a34629 100644
--- a/gates/gates.go
+++ b/gates/gates.go
@@ -290,7 +290,7 @@ func BatchXNOR(inputs [][2]*Ciphertext, ck *cloudkey.CloudKey) []*Ciphertext {
 	prepared := make([]*Ciphertext, len(inputs))
 	for i, pair := range inputs {
 		tlweXNOR := pair[0].SubMul(pair[1], 2)
-		tlweXNOR.SetB(tlweXNOR.B() + utils.F64ToTorus(-0.25))
+		tlweXNOR.SetB(tlweXNOR.B() + utils.F64ToTorus(0.25))
 		prepared[i] = tlweXNOR
 	}
 
-- 
2.43.0


From b685a59f95069db7cb09b59ce25709bda94bd2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:10 +0000
Subject: [PATCH 2/8] fix: BatchBlindRotate results were overwritten by later
 batch items

The result aliased the pooled evaluator's buffers, so an item that started
after another had finished could reuse the evaluator and overwrite its result.
---
 trgsw/trgsw.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/trgsw/trgsw.go b/trgsw/trgsw.go
index 5f5a2a9..86493a4 100644
--- a/trgsw/trgsw.go
+++ b/trgsw/trgsw.go
@@ -243,7 +243,12 @@ func BatchBlindRotate(srcs []*tlwe.TLWELv0, blindRotateTestvec *trlwe.TRLWELv1,
 			polyEval := evaluatorPool.Get().(*poly.Evaluator)
 			defer evaluatorPool.Put(polyEval)
 
-			results[idx] = BlindRotate(s, blindRotateTestvec, bootstrappingKey, decompositionOffset, polyEval)
+			// BlindRotate returns buffers owned by polyEval: copy them out before
+			// the evaluator goes back to the pool and another goroutine reuses it
+			rotated := BlindRotate(s, blindRotateTestvec, bootstrappingKey, decompositionOffset, polyEval)
+			results[idx] = trlwe.NewTRLWELv1()
+			copy(results[idx].A, rotated.A)
+			copy(results[idx].B, rotated.B)
 		}(i, src)
 	}
 
-- 
2.43.0


From c7c48fb453e3487ba4a10369ab65d375f607af86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:10 +0000
Subject: [PATCH 3/8] fix: BatchBlindRotate reused evaluators of another
 security level

After params.CurrentSecurityLevel changes to a level with another polynomial
degree, evaluators pooled earlier have buffers and twiddles of the wrong size.
---
 trgsw/trgsw.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trgsw/trgsw.go b/trgsw/trgsw.go
index 86493a4..86c9651 100644
--- a/trgsw/trgsw.go
+++ b/trgsw/trgsw.go
@@ -241,6 +241,10 @@ func BatchBlindRotate(srcs []*tlwe.TLWELv0, blindRotateTestvec *trlwe.TRLWELv1,
 			defer wg.Done()
 			// Get evaluator from pool (reuse instead of allocate)
 			polyEval := evaluatorPool.Get().(*poly.Evaluator)
+			if n := params.GetTRGSWLv1().N; polyEval.Degree() != n {
+				// Pooled under another security level: not usable for this ring
+				polyEval = poly.NewEvaluator(n)
+			}
 			defer evaluatorPool.Put(polyEval)
 
 			// BlindRotate returns buffers owned by polyEval: copy them out before
-- 
2.43.0


From 3bbe6485787a6204495fc5b110e114956259559f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:10 +0000
Subject: [PATCH 4/8] fix: Evaluator.ShallowCopy could not evaluate anything

The copy's decomposer was sized with len of a one-level slice (always 1), so
its first external product panicked. Size it as NewEvaluator does.
---
 evaluator/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index bce7796..e6f7fb4 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -40,7 +40,7 @@ func NewEvaluator(n int) *Evaluator {
 func (e *Evaluator) ShallowCopy() *Evaluator {
 	return &Evaluator{
 		PolyEvaluator: e.PolyEvaluator.ShallowCopy(),
-		Decomposer:    poly.NewDecomposer(e.PolyEvaluator.Degree(), len(e.Decomposer.GetPolyDecomposedBuffer(1))),
+		Decomposer:    poly.NewDecomposer(e.PolyEvaluator.Degree(), params.GetTRGSWLv1().L*2),
 		Buffers:       NewBufferPool(e.PolyEvaluator.Degree()),
 	}
 }
-- 
2.43.0


From 8c5cf2011de6d4c32a29ec8eed85e919e50ead62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:32 +0000
Subject: [PATCH 5/8] fix: gates panicked at every security level but the one
 at package init

globalEval was sized once, for the level in force when the package was
initialised; after switching params.CurrentSecurityLevel every gate indexed
out of range. Rebuild it when the level has changed.
---
 gates/gates.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/gates/gates.go b/gates/gates.go
index 5a34629..6b197f3 100644
--- a/gates/gates.go
+++ b/gates/gates.go
@@ -22,6 +22,19 @@ func init() {
 	globalEval = evaluator.NewEvaluator(params.GetTRGSWLv1().N)
 }
 
+// globalEvalLevel is the security level globalEval's buffers were sized for
+var globalEvalLevel = params.CurrentSecurityLevel
+
+// currentEval returns the global evaluator, rebuilt if params.CurrentSecurityLevel
+// has changed since it was created
+func currentEval() *evaluator.Evaluator {
+	if globalEvalLevel != params.CurrentSecurityLevel {
+		globalEval = evaluator.NewEvaluator(params.GetTRGSWLv1().N)
+		globalEvalLevel = params.CurrentSecurityLevel
+	}
+	return globalEval
+}
+
 // NAND performs homomorphic NAND operation (zero-allocation)
 func NAND(tlweA, tlweB *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
 	prepared := globalEval.PrepareNAND(tlweA, tlweB)
@@ -128,14 +141,14 @@ func Copy(tlweA *Ciphertext) *Ciphertext {
 // bootstrap performs full bootstrapping with key switching (TRUE zero-allocation)
 // Returns pointer to internal buffer - result is only valid until next bootstrap call
 func bootstrapTemp(ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
-	return globalEval.Bootstrap(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
+	return currentEval().Bootstrap(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
 }
 
 // bootstrap2 performs full bootstrapping with key switching (zero-allocation)
 // copies the prepared buffer to the result
 func bootstrap(ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
 	result := tlwe.NewTLWELv0()
-	bootstrapped := globalEval.Bootstrap(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
+	bootstrapped := currentEval().Bootstrap(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
 	copy(result.P, bootstrapped.P)
 	result.SetB(bootstrapped.B())
 	return result
@@ -144,7 +157,7 @@ func bootstrap(ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
 // bootstrapWithoutKeySwitch performs bootstrapping without key switching (uses global eval)
 func bootstrapWithoutKeySwitch(ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
 	trlweResult := trlwe.NewTRLWELv1()
-	globalEval.BlindRotateAssign(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.DecompositionOffset, trlweResult)
+	currentEval().BlindRotateAssign(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.DecompositionOffset, trlweResult)
 	return trlwe.SampleExtractIndex2(trlweResult, 0)
 }
 
-- 
2.43.0


From e102ed1c6c6b61f595faf951e4866c438b9ca2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:34 +0000
Subject: [PATCH 6/8] fix: keys, masks and noise came from only 2^31-1 streams

Every key and every ciphertext was drawn from a rand.NewSource of its own, which reduces its seed modulo
2^31-1: there were only 2^31-1 secret keys, and within one evaluation key some entries shared their whole mask
and noise, so that the difference of their bodies was a combination of secret key bits.
---
 key/key.go               |  5 ++---
 proxyreenc/proxyreenc.go |  4 +---
 tlwe/tlwe.go             |  6 ++----
 trlwe/trlwe.go           |  4 +---
 utils/utils.go           | 15 +++++++++++++++
 5 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/key/key.go b/key/key.go
index 7606bcd..6a23cfe 100644
--- a/key/key.go
+++ b/key/key.go
@@ -1,9 +1,8 @@
 package key
 
 import (
-	"math/rand"
-
 	"github.com/thedonutfactory/go-tfhe/params"
+	"github.com/thedonutfactory/go-tfhe/utils"
 )
 
 // SecretKey contains the secret keys for both levels
@@ -14,7 +13,7 @@ type SecretKey struct {
 
 // NewSecretKey generates a new secret key
 func NewSecretKey() *SecretKey {
-	rng := rand.New(rand.NewSource(rand.Int63()))
+	rng := utils.NewRand()
 
 	lv0N := params.GetTLWELv0().N
 	lv1N := params.GetTLWELv1().N
diff --git a/proxyreenc/proxyreenc.go b/proxyreenc/proxyreenc.go
index 79c7e59..c48c69c 100644
--- a/proxyreenc/proxyreenc.go
+++ b/proxyreenc/proxyreenc.go
@@ -39,8 +39,6 @@
 package proxyreenc
 
 import (
-	"math/rand"
-
 	"github.com/thedonutfactory/go-tfhe/params"
 	"github.com/thedonutfactory/go-tfhe/tlwe"
 	"github.com/thedonutfactory/go-tfhe/utils"
@@ -102,7 +100,7 @@ func NewPublicKeyLv0WithParams(secretKey []params.Torus, size int, alpha float64
 //
 // Returns a TLWELv0 ciphertext encrypting the plaintext.
 func (pk *PublicKeyLv0) EncryptF64(plaintext float64, alpha float64) *tlwe.TLWELv0 {
-	rng := rand.New(rand.NewSource(rand.Int63()))
+	rng := utils.NewRand()
 	result := tlwe.NewTLWELv0()
 
 	// Add the plaintext to b
diff --git a/tlwe/tlwe.go b/tlwe/tlwe.go
index 41e534b..fa0eab4 100644
--- a/tlwe/tlwe.go
+++ b/tlwe/tlwe.go
@@ -1,8 +1,6 @@
 package tlwe
 
 import (
-	"math/rand"
-
 	"github.com/thedonutfactory/go-tfhe/params"
 	"github.com/thedonutfactory/go-tfhe/utils"
 )
@@ -34,7 +32,7 @@ func (t *TLWELv0) SetB(val params.Torus) {
 
 // EncryptF64 encrypts a float64 value with TLWE Level 0
 func (t *TLWELv0) EncryptF64(p float64, alpha float64, key []params.Torus) *TLWELv0 {
-	rng := rand.New(rand.NewSource(rand.Int63()))
+	rng := utils.NewRand()
 	n := params.GetTLWELv0().N
 
 	var innerProduct params.Torus
@@ -154,7 +152,7 @@ func (t *TLWELv1) SetB(val params.Torus) {
 
 // EncryptF64 encrypts a float64 value with TLWE Level 1
 func (t *TLWELv1) EncryptF64(p float64, alpha float64, key []params.Torus) *TLWELv1 {
-	rng := rand.New(rand.NewSource(rand.Int63()))
+	rng := utils.NewRand()
 	n := params.GetTLWELv1().N
 
 	var innerProduct params.Torus
diff --git a/trlwe/trlwe.go b/trlwe/trlwe.go
index 0dcae51..8d0f9ea 100644
--- a/trlwe/trlwe.go
+++ b/trlwe/trlwe.go
@@ -1,8 +1,6 @@
 package trlwe
 
 import (
-	"math/rand"
-
 	"github.com/thedonutfactory/go-tfhe/params"
 	"github.com/thedonutfactory/go-tfhe/poly"
 	"github.com/thedonutfactory/go-tfhe/tlwe"
@@ -26,7 +24,7 @@ func NewTRLWELv1() *TRLWELv1 {
 
 // EncryptF64 encrypts a vector of float64 values with TRLWE Level 1
 func (t *TRLWELv1) EncryptF64(p []float64, alpha float64, key []params.Torus, polyEval *poly.Evaluator) *TRLWELv1 {
-	rng := rand.New(rand.NewSource(rand.Int63()))
+	rng := utils.NewRand()
 	n := params.GetTRLWELv1().N
 
 	// Generate random a
diff --git a/utils/utils.go b/utils/utils.go
index f3f7351..982e909 100644
--- a/utils/utils.go
+++ b/utils/utils.go
@@ -7,6 +7,21 @@ import (
 	"github.com/thedonutfactory/go-tfhe/params"
 )
 
+// globalSource draws every word from math/rand's process-wide source.
+type globalSource struct{}
+
+func (globalSource) Int63() int64   { return rand.Int63() }
+func (globalSource) Uint64() uint64 { return rand.Uint64() }
+func (globalSource) Seed(int64)     {}
+
+// NewRand returns a generator for keys, masks and noise.
+//
+// It must not be a rand.NewSource of its own: that one reduces its seed modulo 2^31-1, so there would be only
+// 2^31 secret keys, and ciphertexts of one evaluation key would share mask and noise.
+func NewRand() *rand.Rand {
+	return rand.New(globalSource{})
+}
+
 // F64ToTorus converts a float64 to a Torus value
 func F64ToTorus(d float64) params.Torus {
 	torus := math.Mod(d, 1.0) * float64(uint64(1)<<32)
-- 
2.43.0


From f18e75ac369df31bf548809befc76209a79e9abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:28 +0000
Subject: [PATCH 7/8] fix: proxy re-encryption with base/levels that cover all
 32 bits

With basebit*t = 32 key generation divided by uint32(1)<<32 = 0 and
ReencryptTLWELv0 panicked with a negative shift amount.
---
 proxyreenc/proxyreenc.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/proxyreenc/proxyreenc.go b/proxyreenc/proxyreenc.go
index c48c69c..28477d1 100644
--- a/proxyreenc/proxyreenc.go
+++ b/proxyreenc/proxyreenc.go
@@ -213,7 +213,7 @@ func NewProxyReencryptionKeyAsymmetricWithParams(
 
 				// Encrypt k * keyFrom[i] / 2^((j+1)*basebit) using Bob's PUBLIC key
 				shiftAmount := (j + 1) * basebit
-				p := (float64(k) * float64(keyFrom[i])) / float64(uint32(1)<<shiftAmount)
+				p := (float64(k) * float64(keyFrom[i])) / float64(uint64(1)<<shiftAmount)
 				idx := (base * t * i) + (base * j) + k
 
 				// Use public key encryption instead of secret key
@@ -282,7 +282,7 @@ func NewProxyReencryptionKeySymmetricWithParams(
 
 				// Encrypt k * keyFrom[i] / 2^((j+1)*basebit)
 				shiftAmount := (j + 1) * basebit
-				p := (float64(k) * float64(keyFrom[i])) / float64(uint32(1)<<shiftAmount)
+				p := (float64(k) * float64(keyFrom[i])) / float64(uint64(1)<<shiftAmount)
 				idx := (base * t * i) + (base * j) + k
 
 				keyEncryptions[idx].EncryptF64(p, alpha, keyTo)
@@ -334,7 +334,11 @@ func ReencryptTLWELv0(ctFrom *tlwe.TLWELv0, reencKey *ProxyReencryptionKey) *tlw
 	result.SetB(ctFrom.B())
 
 	// Precision offset for rounding (similar to identity key switching)
-	precOffset := params.Torus(1) << (32 - (1 + basebit*t))
+	// (nothing is rounded away when the digits cover the whole torus element)
+	precOffset := params.Torus(0)
+	if basebit*t < 32 {
+		precOffset = params.Torus(1) << (32 - (1 + basebit*t))
+	}
 
 	// Process each coefficient of the source ciphertext
 	for i := 0; i < n; i++ {
-- 
2.43.0


From 8a47be4d8ce7c9687ebeda3b345e4026f466a416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:15 +0000
Subject: [PATCH 8/8] fix: GenLookUpTableCustom must not touch the generator

The custom encoder was installed in the generator for the duration of the
call: a panic in f (recovered by the caller) left the generator with the
custom modulus and scale, and every later table was wrong.
---
 lut/generator.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lut/generator.go b/lut/generator.go
index e215b66..f1a0d26 100644
--- a/lut/generator.go
+++ b/lut/generator.go
@@ -144,12 +144,10 @@ func (g *Generator) GenLookUpTableFullAssign(f func(int) params.Torus, lutOut *L
 func (g *Generator) GenLookUpTableCustom(f func(int) int, messageModulus int, scale float64) *LookUpTable {
 	lut := NewLookUpTable()
 
-	oldEncoder := g.Encoder
-	g.Encoder = NewEncoderWithScale(messageModulus, scale)
-
-	g.GenLookUpTableAssign(f, lut)
-
-	g.Encoder = oldEncoder
+	// Work on a copy: g must keep its encoder even if f panics
+	custom := *g
+	custom.Encoder = NewEncoderWithScale(messageModulus, scale)
+	custom.GenLookUpTableAssign(f, lut)
 
 	return lut
 }
-- 
2.43.0

