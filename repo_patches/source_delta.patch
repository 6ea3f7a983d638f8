From 273779aa702489bd687e3a6afe893c741f5be255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:43 +0000
Subject: [PATCH 1/8] fix: BatchXNOR computed XOR (wrong sign of the gate
 offset)

---
 gates/gates.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gates/gates.go b/gates/gates.go
index 0ebd29f..5a34629 100644
--- a/gates/gates.go
+++ b/gates/gates.go
@@ -290,7 +290,7 @@ func BatchXNOR(inputs [][2]*Ciphertext, ck *cloudkey.CloudKey) []*Ciphertext {
 	prepared := make([]*Ciphertext, len(inputs))
 	for i, pair := range inputs {
 		tlweXNOR := pair[0].SubMul(pair[1], 2)
-		tlweXNOR.SetB(tlweXNOR.B() + utils.F64ToTorus(-0.25))
+		tlweXNOR.SetB(tlweXNOR.B() + utils.F64ToTorus(0.25))
 		prepared[i] = tlweXNOR
 	}
 
-- 
2.43.0


From 6d917a4d51603b1fcbd0a7d088dc9af927b5b0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:44 +0000
Subject: [PATCH 2/8] fix: BatchBlindRotate returned buffers owned by pooled
 evaluators

Results aliased the buffers of an evaluator that had already gone back to the
pool, so a later (or concurrent) rotation overwrote them. Evaluators pooled
under another polynomial degree are no longer reused either.
---
 trgsw/trgsw.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/trgsw/trgsw.go b/trgsw/trgsw.go
index 5f5a2a9..e244a15 100644
--- a/trgsw/trgsw.go
+++ b/trgsw/trgsw.go
@@ -241,9 +241,20 @@ func BatchBlindRotate(srcs []*tlwe.TLWELv0, blindRotateTestvec *trlwe.TRLWELv1,
 			defer wg.Done()
 			// Get evaluator from pool (reuse instead of allocate)
 			polyEval := evaluatorPool.Get().(*poly.Evaluator)
-			defer evaluatorPool.Put(polyEval)
+			if n := params.GetTRGSWLv1().N; polyEval.Degree() != n {
+				// Pooled under another security level: its buffers have the wrong size
+				polyEval = poly.NewEvaluator(n)
+			}
+
+			// BlindRotate returns evaluator-owned buffers: copy them out before
+			// the evaluator goes back to the pool and is reused
+			rotated := BlindRotate(s, blindRotateTestvec, bootstrappingKey, decompositionOffset, polyEval)
+			result := trlwe.NewTRLWELv1()
+			copy(result.A, rotated.A)
+			copy(result.B, rotated.B)
+			results[idx] = result
 
-			results[idx] = BlindRotate(s, blindRotateTestvec, bootstrappingKey, decompositionOffset, polyEval)
+			evaluatorPool.Put(polyEval)
 		}(i, src)
 	}
 
-- 
2.43.0


From 5d74609d86b6701e31ffd47a30d643b03890152c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:44 +0000
Subject: [PATCH 3/8] fix: Evaluator.ShallowCopy allocated a single
 decomposition level

Every bootstrap on a copy panicked with 'decomposition level exceeds buffer size'.
---
 evaluator/evaluator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evaluator/evaluator.go b/evaluator/evaluator.go
index bce7796..e6f7fb4 100644
--- a/evaluator/evaluator.go
+++ b/evaluator/evaluator.go
@@ -40,7 +40,7 @@ func NewEvaluator(n int) *Evaluator {
 func (e *Evaluator) ShallowCopy() *Evaluator {
 	return &Evaluator{
 		PolyEvaluator: e.PolyEvaluator.ShallowCopy(),
-		Decomposer:    poly.NewDecomposer(e.PolyEvaluator.Degree(), len(e.Decomposer.GetPolyDecomposedBuffer(1))),
+		Decomposer:    poly.NewDecomposer(e.PolyEvaluator.Degree(), params.GetTRGSWLv1().L*2),
 		Buffers:       NewBufferPool(e.PolyEvaluator.Degree()),
 	}
 }
-- 
2.43.0


From 11520328cf957762d5fdda93a90ea2ca797cd2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:44 +0000
Subject: [PATCH 4/8] fix: gates shared one evaluator, sized once for the
 128-bit level

Gates panicked (index out of range) once params.CurrentSecurityLevel was set to
any other level, and corrupted each other's results when called concurrently.
Gates now take an evaluator of the current level from a pool.
---
 gates/gates.go | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/gates/gates.go b/gates/gates.go
index 5a34629..7fd678a 100644
--- a/gates/gates.go
+++ b/gates/gates.go
@@ -15,11 +15,26 @@ import (
 // Ciphertext is an alias for TLWELv0
 type Ciphertext = tlwe.TLWELv0
 
-// Global evaluator for single-threaded operations (zero-allocation)
-var globalEval *evaluator.Evaluator
-
-func init() {
-	globalEval = evaluator.NewEvaluator(params.GetTRGSWLv1().N)
+// globalEval prepares gate inputs; preparation uses no evaluator state
+var globalEval = &evaluator.Evaluator{}
+
+// evalPools holds one *sync.Pool of evaluators per security level: evaluator
+// buffers are sized for the level they were created under, and an evaluator
+// serves one goroutine at a time.
+var evalPools sync.Map
+
+// evalPool returns the evaluator pool of the current security level
+func evalPool() *sync.Pool {
+	level := params.CurrentSecurityLevel
+	if pool, ok := evalPools.Load(level); ok {
+		return pool.(*sync.Pool)
+	}
+	pool, _ := evalPools.LoadOrStore(level, &sync.Pool{
+		New: func() interface{} {
+			return evaluator.NewEvaluator(params.GetTRGSWLv1().N)
+		},
+	})
+	return pool.(*sync.Pool)
 }
 
 // NAND performs homomorphic NAND operation (zero-allocation)
@@ -125,26 +140,26 @@ func Copy(tlweA *Ciphertext) *Ciphertext {
 	return result
 }
 
-// bootstrap performs full bootstrapping with key switching (TRUE zero-allocation)
-// Returns pointer to internal buffer - result is only valid until next bootstrap call
-func bootstrapTemp(ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
-	return globalEval.Bootstrap(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
-}
-
 // bootstrap2 performs full bootstrapping with key switching (zero-allocation)
 // copies the prepared buffer to the result
 func bootstrap(ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
 	result := tlwe.NewTLWELv0()
-	bootstrapped := globalEval.Bootstrap(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
+	pool := evalPool()
+	eval := pool.Get().(*evaluator.Evaluator)
+	bootstrapped := eval.Bootstrap(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.KeySwitchingKey, ck.DecompositionOffset)
 	copy(result.P, bootstrapped.P)
 	result.SetB(bootstrapped.B())
+	pool.Put(eval)
 	return result
 }
 
-// bootstrapWithoutKeySwitch performs bootstrapping without key switching (uses global eval)
+// bootstrapWithoutKeySwitch performs bootstrapping without key switching
 func bootstrapWithoutKeySwitch(ctxt *Ciphertext, ck *cloudkey.CloudKey) *Ciphertext {
 	trlweResult := trlwe.NewTRLWELv1()
-	globalEval.BlindRotateAssign(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.DecompositionOffset, trlweResult)
+	pool := evalPool()
+	eval := pool.Get().(*evaluator.Evaluator)
+	eval.BlindRotateAssign(ctxt, ck.BlindRotateTestvec, ck.BootstrappingKey, ck.DecompositionOffset, trlweResult)
+	pool.Put(eval)
 	return trlwe.SampleExtractIndex2(trlweResult, 0)
 }
 
-- 
2.43.0


From bccfde219489d8b6f7e950e44562e7f55fa22367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:09 +0000
Subject: [PATCH 5/8] fix: negation in X^k multiplication and sample extraction
 was off by one

^0 - a is -a-1, so multiplying by X^k was not the exact ring operation and
extracted samples had a phase differing from the polynomial's coefficient.
---
 poly/buffer_methods.go | 4 ++--
 trgsw/trgsw.go         | 4 ++--
 trlwe/trlwe.go         | 4 ++--
 trlwe/trlwe_ops.go     | 2 +-
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/poly/buffer_methods.go b/poly/buffer_methods.go
index a4e106a..29ae5b2 100644
--- a/poly/buffer_methods.go
+++ b/poly/buffer_methods.go
@@ -149,13 +149,13 @@ func PolyMulWithXKInPlace(a []params.Torus, k int, result []params.Torus) {
 			result[i+k] = a[i]
 		}
 		for i := n - k; i < n; i++ {
-			result[i+k-n] = ^params.Torus(0) - a[i]
+			result[i+k-n] = -a[i]
 		}
 	} else {
 		// Rotation >= n: all coefficients get negated
 		k -= n
 		for i := 0; i < n-k; i++ {
-			result[i+k] = ^params.Torus(0) - a[i]
+			result[i+k] = -a[i]
 		}
 		for i := n - k; i < n; i++ {
 			result[i+k-n] = a[i]
diff --git a/trgsw/trgsw.go b/trgsw/trgsw.go
index e244a15..e8c6ccf 100644
--- a/trgsw/trgsw.go
+++ b/trgsw/trgsw.go
@@ -278,13 +278,13 @@ func polyMulWithXKInPlace(a []params.Torus, k int, result []params.Torus) {
 			result[i+k] = a[i]
 		}
 		for i := n - k; i < n; i++ {
-			result[i+k-n] = ^params.Torus(0) - a[i]
+			result[i+k-n] = -a[i]
 		}
 	} else {
 		// Rotation >= n: all coefficients get negated
 		k -= n
 		for i := 0; i < n-k; i++ {
-			result[i+k] = ^params.Torus(0) - a[i]
+			result[i+k] = -a[i]
 		}
 		for i := n - k; i < n; i++ {
 			result[i+k-n] = a[i]
diff --git a/trlwe/trlwe.go b/trlwe/trlwe.go
index 0dcae51..f13e144 100644
--- a/trlwe/trlwe.go
+++ b/trlwe/trlwe.go
@@ -119,7 +119,7 @@ func SampleExtractIndex(trlwe *TRLWELv1, k int) *tlwe.TLWELv1 {
 		if i <= k {
 			result.P[i] = trlwe.A[k-i]
 		} else {
-			result.P[i] = ^params.Torus(0) - trlwe.A[n+k-i]
+			result.P[i] = -trlwe.A[n+k-i]
 		}
 	}
 	result.SetB(trlwe.B[k])
@@ -145,7 +145,7 @@ func SampleExtractIndex2(trlwe *TRLWELv1, k int) *tlwe.TLWELv0 {
 		if i <= k {
 			result.P[i] = trlwe.A[k-i]
 		} else {
-			result.P[i] = ^params.Torus(0) - trlwe.A[n+k-i]
+			result.P[i] = -trlwe.A[n+k-i]
 		}
 	}
 	result.SetB(trlwe.B[k])
diff --git a/trlwe/trlwe_ops.go b/trlwe/trlwe_ops.go
index 131d350..69b43e1 100644
--- a/trlwe/trlwe_ops.go
+++ b/trlwe/trlwe_ops.go
@@ -14,7 +14,7 @@ func SampleExtractIndexAssign(trlwe *TRLWELv1, k int, output *tlwe.TLWELv1) {
 		if i <= k {
 			output.P[i] = trlwe.A[k-i]
 		} else {
-			output.P[i] = ^params.Torus(0) - trlwe.A[n+k-i]
+			output.P[i] = -trlwe.A[n+k-i]
 		}
 	}
 	output.SetB(trlwe.B[k])
-- 
2.43.0


From 87278233644d30f636ff66fbd40f84486addd036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:11 +0000
Subject: [PATCH 6/8] fix: keys, masks and noise came from math/rand seeded
 with 31 bits

rand.NewSource keeps only 2^31 distinct seeds, so a cloud key with hundreds of
thousands of ciphertexts regularly contained two with the same mask and the same
noise, and everything was reproducible from the global math/rand state.
---
 key/key.go               |  5 ++---
 proxyreenc/proxyreenc.go |  4 +---
 tlwe/tlwe.go             |  6 ++----
 trlwe/trlwe.go           |  4 +---
 utils/rand.go            | 44 ++++++++++++++++++++++++++++++++++++++++
 5 files changed, 50 insertions(+), 13 deletions(-)
 create mode 100644 utils/rand.go

diff --git a/key/key.go b/key/key.go
index 7606bcd..6a23cfe 100644
--- a/key/key.go
+++ b/key/key.go
@@ -1,9 +1,8 @@
 package key
 
 import (
-	"math/rand"
-
 	"github.com/thedonutfactory/go-tfhe/params"
+	"github.com/thedonutfactory/go-tfhe/utils"
 )
 
 // SecretKey contains the secret keys for both levels
@@ -14,7 +13,7 @@ type SecretKey struct {
 
 // NewSecretKey generates a new secret key
 func NewSecretKey() *SecretKey {
-	rng := rand.New(rand.NewSource(rand.Int63()))
+	rng := utils.NewRand()
 
 	lv0N := params.GetTLWELv0().N
 	lv1N := params.GetTLWELv1().N
diff --git a/proxyreenc/proxyreenc.go b/proxyreenc/proxyreenc.go
index 79c7e59..c48c69c 100644
--- a/proxyreenc/proxyreenc.go
+++ b/proxyreenc/proxyreenc.go
@@ -39,8 +39,6 @@
 package proxyreenc
 
 import (
-	"math/rand"
-
 	"github.com/thedonutfactory/go-tfhe/params"
 	"github.com/thedonutfactory/go-tfhe/tlwe"
 	"github.com/thedonutfactory/go-tfhe/utils"
@@ -102,7 +100,7 @@ func NewPublicKeyLv0WithParams(secretKey []params.Torus, size int, alpha float64
 //
 // Returns a TLWELv0 ciphertext encrypting the plaintext.
 func (pk *PublicKeyLv0) EncryptF64(plaintext float64, alpha float64) *tlwe.TLWELv0 {
-	rng := rand.New(rand.NewSource(rand.Int63()))
+	rng := utils.NewRand()
 	result := tlwe.NewTLWELv0()
 
 	// Add the plaintext to b
diff --git a/tlwe/tlwe.go b/tlwe/tlwe.go
index 41e534b..fa0eab4 100644
--- a/tlwe/tlwe.go
+++ b/tlwe/tlwe.go
@@ -1,8 +1,6 @@
 package tlwe
 
 import (
-	"math/rand"
-
 	"github.com/thedonutfactory/go-tfhe/params"
 	"github.com/thedonutfactory/go-tfhe/utils"
 )
@@ -34,7 +32,7 @@ func (t *TLWELv0) SetB(val params.Torus) {
 
 // EncryptF64 encrypts a float64 value with TLWE Level 0
 func (t *TLWELv0) EncryptF64(p float64, alpha float64, key []params.Torus) *TLWELv0 {
-	rng := rand.New(rand.NewSource(rand.Int63()))
+	rng := utils.NewRand()
 	n := params.GetTLWELv0().N
 
 	var innerProduct params.Torus
@@ -154,7 +152,7 @@ func (t *TLWELv1) SetB(val params.Torus) {
 
 // EncryptF64 encrypts a float64 value with TLWE Level 1
 func (t *TLWELv1) EncryptF64(p float64, alpha float64, key []params.Torus) *TLWELv1 {
-	rng := rand.New(rand.NewSource(rand.Int63()))
+	rng := utils.NewRand()
 	n := params.GetTLWELv1().N
 
 	var innerProduct params.Torus
diff --git a/trlwe/trlwe.go b/trlwe/trlwe.go
index f13e144..bd92552 100644
--- a/trlwe/trlwe.go
+++ b/trlwe/trlwe.go
@@ -1,8 +1,6 @@
 package trlwe
 
 import (
-	"math/rand"
-
 	"github.com/thedonutfactory/go-tfhe/params"
 	"github.com/thedonutfactory/go-tfhe/poly"
 	"github.com/thedonutfactory/go-tfhe/tlwe"
@@ -26,7 +24,7 @@ func NewTRLWELv1() *TRLWELv1 {
 
 // EncryptF64 encrypts a vector of float64 values with TRLWE Level 1
 func (t *TRLWELv1) EncryptF64(p []float64, alpha float64, key []params.Torus, polyEval *poly.Evaluator) *TRLWELv1 {
-	rng := rand.New(rand.NewSource(rand.Int63()))
+	rng := utils.NewRand()
 	n := params.GetTRLWELv1().N
 
 	// Generate random a
diff --git a/utils/rand.go b/utils/rand.go
new file mode 100644
index 0000000..72c1d55
--- /dev/null
+++ b/utils/rand.go
@@ -0,0 +1,44 @@
+package utils
+
+import (
+	crand "crypto/rand"
+	"encoding/binary"
+	"math/rand"
+)
+
+// NewRand returns a random generator for keys, masks and noise.
+// It draws from the operating system's cryptographic generator: math/rand's own
+// source is predictable and has only 2^31 distinct seeds, so masks would repeat.
+// The returned generator is not safe for concurrent use.
+func NewRand() *rand.Rand {
+	src := &cryptoSource{}
+	src.pos = len(src.buf)
+	return rand.New(src)
+}
+
+// cryptoSource is a rand.Source64 reading crypto/rand in blocks
+type cryptoSource struct {
+	buf [1024]byte
+	pos int
+}
+
+// Uint64 implements rand.Source64
+func (s *cryptoSource) Uint64() uint64 {
+	if s.pos == len(s.buf) {
+		if _, err := crand.Read(s.buf[:]); err != nil {
+			panic("utils: cannot read random bytes: " + err.Error())
+		}
+		s.pos = 0
+	}
+	v := binary.LittleEndian.Uint64(s.buf[s.pos:])
+	s.pos += 8
+	return v
+}
+
+// Int63 implements rand.Source
+func (s *cryptoSource) Int63() int64 {
+	return int64(s.Uint64() >> 1)
+}
+
+// Seed implements rand.Source; the source cannot be seeded
+func (s *cryptoSource) Seed(int64) {}
-- 
2.43.0


From 96ed0994cc330790d9c354fa16ed591109d58913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:11 +0000
Subject: [PATCH 7/8] fix: proxy re-encryption failed when the digits cover all
 32 bits

With basebit*t == 32 key generation divided by zero (uint32(1)<<32) and
ReencryptTLWELv0 panicked on a negative shift amount.
---
 proxyreenc/proxyreenc.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/proxyreenc/proxyreenc.go b/proxyreenc/proxyreenc.go
index c48c69c..78aa250 100644
--- a/proxyreenc/proxyreenc.go
+++ b/proxyreenc/proxyreenc.go
@@ -213,7 +213,7 @@ func NewProxyReencryptionKeyAsymmetricWithParams(
 
 				// Encrypt k * keyFrom[i] / 2^((j+1)*basebit) using Bob's PUBLIC key
 				shiftAmount := (j + 1) * basebit
-				p := (float64(k) * float64(keyFrom[i])) / float64(uint32(1)<<shiftAmount)
+				p := (float64(k) * float64(keyFrom[i])) / float64(uint64(1)<<shiftAmount)
 				idx := (base * t * i) + (base * j) + k
 
 				// Use public key encryption instead of secret key
@@ -282,7 +282,7 @@ func NewProxyReencryptionKeySymmetricWithParams(
 
 				// Encrypt k * keyFrom[i] / 2^((j+1)*basebit)
 				shiftAmount := (j + 1) * basebit
-				p := (float64(k) * float64(keyFrom[i])) / float64(uint32(1)<<shiftAmount)
+				p := (float64(k) * float64(keyFrom[i])) / float64(uint64(1)<<shiftAmount)
 				idx := (base * t * i) + (base * j) + k
 
 				keyEncryptions[idx].EncryptF64(p, alpha, keyTo)
@@ -334,7 +334,11 @@ func ReencryptTLWELv0(ctFrom *tlwe.TLWELv0, reencKey *ProxyReencryptionKey) *tlw
 	result.SetB(ctFrom.B())
 
 	// Precision offset for rounding (similar to identity key switching)
-	precOffset := params.Torus(1) << (32 - (1 + basebit*t))
+	// (none needed when the digits cover all 32 bits)
+	var precOffset params.Torus
+	if basebit*t < 32 {
+		precOffset = params.Torus(1) << (32 - (1 + basebit*t))
+	}
 
 	// Process each coefficient of the source ciphertext
 	for i := 0; i < n; i++ {
-- 
2.43.0


From 0a15e7e603e41e798546250f201c1f9fabf76b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:13 +0000
Subject: [PATCH 8/8] fix: decode messages with the exact scale, not an integer
 one

DecryptLWEMessage divided by the truncated integer 2^31/messageModulus. For a
modulus that does not divide 2^31 the quotient drifts away from the encoding
with growing messages: the margin shrinks, and from about 2^15.5 on messages
decrypt wrongly without any noise.
---
 tlwe/programmable_encrypt.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/tlwe/programmable_encrypt.go b/tlwe/programmable_encrypt.go
index d5da8a8..432dadb 100644
--- a/tlwe/programmable_encrypt.go
+++ b/tlwe/programmable_encrypt.go
@@ -30,9 +30,6 @@ func (t *TLWELv0) EncryptLWEMessage(message int, messageModulus int, alpha float
 // Following the reference implementation: num.DivRound(phase, scale) % messageModulus
 // DivRound(a, b) rounds a/b to nearest integer
 func (t *TLWELv0) DecryptLWEMessage(messageModulus int, key []params.Torus) int {
-	// Calculate scale: 2^31 / messageModulus
-	scale := params.Torus(uint64(1)<<31) / params.Torus(messageModulus)
-
 	// Get phase (decrypted value with noise)
 	n := params.GetTLWELv0().N
 	var innerProduct params.Torus
@@ -41,9 +38,9 @@ func (t *TLWELv0) DecryptLWEMessage(messageModulus int, key []params.Torus) int
 	}
 	phase := t.P[n] - innerProduct
 
-	// DivRound: (a + b/2) / b
-	// For unsigned: (phase + scale/2) / scale
-	decoded := int((phase + scale/2) / scale)
+	// DivRound(phase, scale) with the exact scale 2^31/messageModulus: an integer
+	// scale would drift away from the encoding when messageModulus does not divide 2^31
+	decoded := int((uint64(phase)*2*uint64(messageModulus) + 1<<31) >> 32)
 
 	message := decoded % messageModulus
 	if message < 0 {
-- 
2.43.0

