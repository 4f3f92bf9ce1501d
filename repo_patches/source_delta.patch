From 0b227c626276592b3001c907483f280240713bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:23 +0000
Subject: [PATCH 01/20] fix: sm3: Write reports the number of bytes it consumed

---
 hash/sm3/sm3.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hash/sm3/sm3.go b/hash/sm3/sm3.go
index 90c6eeb..79cafb2 100644
--- a/hash/sm3/sm3.go
+++ b/hash/sm3/sm3.go
@@ -57,6 +57,7 @@ func (d *digest) Reset() {
 
 func (d *digest) Write(input []byte) (nn int, err error) {
 
+	nn = len(input)
 	// current possition in the buffer
 	idx := int(d.len & uint64((d.BlockSize() - 1)))
 	d.len += uint64(len(input))
@@ -76,7 +77,7 @@ func (d *digest) Write(input []byte) (nn int, err error) {
 
 	// this eventually could be done in d.compress
 	copy(d.b[:], input[nblocks*d.BlockSize():])
-	return len(input), nil
+	return nn, nil
 }
 
 func (d *digest) Sum(in []byte) []byte {
-- 
2.43.0


From f291fe0d624cebd5d6fe3db5e11073d7784397c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:23 +0000
Subject: [PATCH 02/20] fix: sha3: Sum does not change the state of the hash

---
 hash/sha3/sha3.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hash/sha3/sha3.go b/hash/sha3/sha3.go
index d08dff8..a25ec79 100644
--- a/hash/sha3/sha3.go
+++ b/hash/sha3/sha3.go
@@ -206,7 +206,9 @@ func (c *state) Sum(in []byte) []byte {
 	}
 
 	in = in[:l+c.Size()]
-	c.Read(in[l:])
+	// work on a copy, so that caller can keep writing and summing
+	dup := *c
+	dup.Read(in[l:])
 	return in
 }
 
-- 
2.43.0


From 4bad3c268d09dad1820a73cc66764b2db58cd33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:23 +0000
Subject: [PATCH 03/20] fix: sha3: cSHAKE bytepad adds no extra block to
 aligned input

---
 hash/sha3/shake.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/sha3/shake.go b/hash/sha3/shake.go
index 16f2634..c484d75 100644
--- a/hash/sha3/shake.go
+++ b/hash/sha3/shake.go
@@ -54,7 +54,7 @@ func bytepad(input []byte, w int) []byte {
 	buf := make([]byte, 0, 9+len(input)+w)
 	buf = append(buf, leftEncode(uint64(w))...)
 	buf = append(buf, input...)
-	padlen := w - (len(buf) % w)
+	padlen := (w - len(buf)%w) % w
 	return append(buf, make([]byte, padlen)...)
 }
 
-- 
2.43.0


From cc5da13445e0523fca57d32d8f44b96c1142c31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:23 +0000
Subject: [PATCH 04/20] fix: drbg: last partial block uses a fresh counter
 value

---
 drbg/ctr_drbg.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/drbg/ctr_drbg.go b/drbg/ctr_drbg.go
index 10ad81d..86b55a8 100644
--- a/drbg/ctr_drbg.go
+++ b/drbg/ctr_drbg.go
@@ -147,8 +147,12 @@ func (c *CtrDrbg) ReadWithAdditionalData(out, ad []byte) (n int, err error) {
 	}
 
 	// Copy remainder - case for out being not block aligned
-	c.blockEnc.Encrypt(c.tmpBlk[:], c.v[:])
-	copy(out[blocks*BlockLen:], c.tmpBlk[:len(out)%BlockLen])
+	if rem := len(out) % BlockLen; rem > 0 {
+		c.inc()
+		c.blockEnc.SetKey(c.key[:])
+		c.blockEnc.Encrypt(c.tmpBlk[:], c.v[:])
+		copy(out[blocks*BlockLen:], c.tmpBlk[:rem])
+	}
 
 	c.update(seedBuf[:])
 	c.counter += 1
-- 
2.43.0


From ef234d40411b9b700d14d34f78fdfdf00ef274c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:23 +0000
Subject: [PATCH 05/20] fix: drbg: Init erases the previous state

---
 drbg/ctr_drbg.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/drbg/ctr_drbg.go b/drbg/ctr_drbg.go
index 86b55a8..b127c30 100644
--- a/drbg/ctr_drbg.go
+++ b/drbg/ctr_drbg.go
@@ -79,6 +79,9 @@ func (c *CtrDrbg) Init(entropy, personalization []byte) bool {
 		seedBuf[i] ^= personalization[i]
 	}
 
+	// Instantiation starts from zero Key and V (SP800-90A, 10.2.1.3.1)
+	c.key = [KeyLen]byte{}
+	c.v = [BlockLen]byte{}
 	c.blockEnc.SetKey(c.key[:])
 	c.update(seedBuf[:])
 	c.counter = 1
-- 
2.43.0


From caa9d4f435a5af49664c4b626116c237ebd9e8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:23 +0000
Subject: [PATCH 06/20] fix: utils: AES flag is bit 25 of ECX, not of EBX

---
 utils/cpuid_amd64.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/utils/cpuid_amd64.go b/utils/cpuid_amd64.go
index 3f20c01..e5a3137 100644
--- a/utils/cpuid_amd64.go
+++ b/utils/cpuid_amd64.go
@@ -23,11 +23,11 @@ func init() {
 		return
 	}
 
-	_, ecx, _, _ := cpuid(1, 0)
+	_, _, ecx, _ := cpuid(1, 0)
 	X86.HasAES = bitn(ecx, 25)
 
-	_, ecx, _, _ = cpuid(7, 0)
-	X86.HasBMI2 = bitn(ecx, 8)
-	X86.HasADX = bitn(ecx, 19)
-	X86.HasRDSEED = bitn(ecx, 18)
+	_, ebx, _, _ := cpuid(7, 0)
+	X86.HasBMI2 = bitn(ebx, 8)
+	X86.HasADX = bitn(ebx, 19)
+	X86.HasRDSEED = bitn(ebx, 18)
 }
-- 
2.43.0


From 7411474c12012e25841d34d5fcaa523fd8e55ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:23 +0000
Subject: [PATCH 07/20] fix: sidh: importing a public key clears the old one

---
 dh/sidh/common/utils.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dh/sidh/common/utils.go b/dh/sidh/common/utils.go
index e5ff4b3..988a204 100644
--- a/dh/sidh/common/utils.go
+++ b/dh/sidh/common/utils.go
@@ -19,6 +19,7 @@ func BytesToFp2(fp2 *Fp2, input []byte, bytelen int) {
 		panic("input byte slice too short")
 	}
 
+	*fp2 = Fp2{}
 	for i := 0; i < bytelen; i++ {
 		j := i / 8
 		k := uint64(i % 8)
-- 
2.43.0


From 39ebfc5eb1f2e163c6f171d40b1828808737094d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:23 +0000
Subject: [PATCH 08/20] fix: csidh: importing a public key clears the old one

---
 dh/csidh/csidh.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dh/csidh/csidh.go b/dh/csidh/csidh.go
index d8f9c21..0844b3b 100644
--- a/dh/csidh/csidh.go
+++ b/dh/csidh/csidh.go
@@ -247,6 +247,7 @@ func (c *PublicKey) Import(key []byte) bool {
 	if len(key) != numWords*limbByteSize {
 		return false
 	}
+	c.a = fp{}
 	for i := 0; i < len(key); i++ {
 		j := i / limbByteSize
 		k := uint64(i % 8)
-- 
2.43.0


From 4c8265c8c6d8ff57aa2bafea0ad4daf2490fbe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:23 +0000
Subject: [PATCH 09/20] fix: csidh: refuse private keys that are too long
 instead of panicking

---
 dh/csidh/csidh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dh/csidh/csidh.go b/dh/csidh/csidh.go
index 0844b3b..21a7b6d 100644
--- a/dh/csidh/csidh.go
+++ b/dh/csidh/csidh.go
@@ -197,7 +197,7 @@ func groupAction(pub *PublicKey, prv *PrivateKey, rng io.Reader) {
 // PrivateKey operations
 
 func (c *PrivateKey) Import(key []byte) bool {
-	if len(key) < len(c.e) {
+	if len(key) != len(c.e) {
 		return false
 	}
 	for i, v := range key {
-- 
2.43.0


From 72bdf2eb00c499d1b6c5bf51f18aefcd50ce36e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:23 +0000
Subject: [PATCH 10/20] fix: sike: secret does not depend on bytes beyond the
 ciphertext

---
 dh/sidh/sike.go  | 2 +-
 kem/mkem/sike.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dh/sidh/sike.go b/dh/sidh/sike.go
index 611b68b..bb8a65f 100644
--- a/dh/sidh/sike.go
+++ b/dh/sidh/sike.go
@@ -100,7 +100,7 @@ func (c *KEM) Encapsulate(ciphertext, secret []byte, pub *PublicKey) error {
 	// K = H(msg||(c0||c1))
 	c.shake.Reset()
 	_, _ = c.shake.Write(c.msg)
-	_, _ = c.shake.Write(ciphertext)
+	_, _ = c.shake.Write(ciphertext[:c.CiphertextSize()])
 	_, _ = c.shake.Read(secret[:c.SharedSecretSize()])
 	return nil
 }
diff --git a/kem/mkem/sike.go b/kem/mkem/sike.go
index 150ebab..ef26a4c 100644
--- a/kem/mkem/sike.go
+++ b/kem/mkem/sike.go
@@ -144,7 +144,7 @@ func (c *KEM) Encapsulate(ciphertext, secret []byte, pub *sidh.PublicKey) error
 	// K = H(msg||(c0||c1))
 	c.shake.Reset()
 	_, _ = c.shake.Write(c.msg)
-	_, _ = c.shake.Write(ciphertext)
+	_, _ = c.shake.Write(ciphertext[:c.CiphertextSize()])
 	_, _ = c.shake.Read(secret[:c.SharedSecretSize()])
 	return nil
 }
-- 
2.43.0


From 2b4dd46501f390bcb0a2468346e38397e5070f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:23 +0000
Subject: [PATCH 11/20] fix: sidh: GeneratePrivateKey reports failure of the
 RNG

---
 dh/sidh/sidh.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dh/sidh/sidh.go b/dh/sidh/sidh.go
index b3e923b..3988910 100644
--- a/dh/sidh/sidh.go
+++ b/dh/sidh/sidh.go
@@ -310,8 +310,8 @@ func (c *PrivateKey) Init(fieldId uint8, v KeyVariant) {
 	}
 }
 
-func GeneratePrivateKey(prv *PrivateKey, rng io.Reader) {
-	prv.Generate(rng)
+func GeneratePrivateKey(prv *PrivateKey, rng io.Reader) error {
+	return prv.Generate(rng)
 }
 
 func GeneratePublicKey(pub *PublicKey, prv *PrivateKey) {
-- 
2.43.0


From 047ecc02aea6b2d280985af31a569d3e4feb7071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:23 +0000
Subject: [PATCH 12/20] fix: sidh: private keys have SecretBitLen bits also
 when that is a multiple of 8

---
 dh/sidh/sidh.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dh/sidh/sidh.go b/dh/sidh/sidh.go
index 3988910..2bb05f2 100644
--- a/dh/sidh/sidh.go
+++ b/dh/sidh/sidh.go
@@ -210,12 +210,16 @@ func (prv *PrivateKey) Generate(rand io.Reader) error {
 		return err
 	}
 
-	prv.Scalar[len(prv.Scalar)-1] &= (1 << (dp.SecretBitLen % 8)) - 1
+	last, msb := (dp.SecretBitLen-1)/8, (dp.SecretBitLen-1)%8
+	for i := last + 1; i < uint(len(prv.Scalar)); i++ {
+		prv.Scalar[i] = 0
+	}
+	prv.Scalar[last] &= 0xff >> (7 - msb)
 	// Make sure scalar is SecretBitLen long. SIKE spec says that key
 	// space starts from 0, but I'm not comfortable with having low
 	// value scalars used for private keys. It is still secrure as per
 	// table 5.1 in [SIKE].
-	prv.Scalar[len(prv.Scalar)-1] |= 1 << ((dp.SecretBitLen % 8) - 1)
+	prv.Scalar[last] |= 1 << msb
 
 	return nil
 }
-- 
2.43.0


From 54fd0c8b670f9ddb56ecd2027a967313bf0da36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:23 +0000
Subject: [PATCH 13/20] fix: mkem: MultiPKE.Encrypt resets the hash before
 using it

---
 kem/mkem/csidh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kem/mkem/csidh.go b/kem/mkem/csidh.go
index 8927754..58d98f4 100644
--- a/kem/mkem/csidh.go
+++ b/kem/mkem/csidh.go
@@ -94,9 +94,9 @@ func (c *MultiPKE) Encrypt(keys []csidh.PublicKey, pt *[16]byte) {
 	for i, pk := range keys {
 		csidh.DeriveSecret(&ss, &pk, &skA, c.Rng)
 
+		c.H.Reset()
 		c.H.Write(ss[:])
 		c.H.Read(ss[:16])
-		c.H.Reset()
 		for j := 0; j < 16; j++ {
 			c.Cts[i][j] = pt[j] ^ ss[j]
 		}
-- 
2.43.0


From 904df9f0179c590c4804e99001e8d9de0bc53e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:23 +0000
Subject: [PATCH 14/20] fix: mkem: refuse to encrypt to an invalid CSIDH public
 key

---
 kem/mkem/csidh.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kem/mkem/csidh.go b/kem/mkem/csidh.go
index 58d98f4..a6523e8 100644
--- a/kem/mkem/csidh.go
+++ b/kem/mkem/csidh.go
@@ -53,7 +53,9 @@ func (c *PKE) Enc(pk *csidh.PublicKey, pt *[16]byte) (ct ciphertext) {
 	var skA csidh.PrivateKey
 
 	csidh.GeneratePrivateKey(&skA, c.Rng)
-	csidh.DeriveSecret(&ss, pk, &skA, c.Rng)
+	if !csidh.DeriveSecret(&ss, pk, &skA, c.Rng) {
+		panic("mkem: invalid public key")
+	}
 
 	c.H.Reset()
 	c.H.Write(ss[:])
@@ -92,7 +94,9 @@ func (c *MultiPKE) Encrypt(keys []csidh.PublicKey, pt *[16]byte) {
 
 	csidh.GeneratePrivateKey(&skA, c.Rng)
 	for i, pk := range keys {
-		csidh.DeriveSecret(&ss, &pk, &skA, c.Rng)
+		if !csidh.DeriveSecret(&ss, &pk, &skA, c.Rng) {
+			panic("mkem: invalid public key")
+		}
 
 		c.H.Reset()
 		c.H.Write(ss[:])
-- 
2.43.0


From bf7d9bd66482449c57ca64b1facf60f19c2ca562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:23 +0000
Subject: [PATCH 15/20] fix: mkem: MultiKEM.Decapsulate re-encrypts the
 decrypted message

---
 kem/mkem/sike.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kem/mkem/sike.go b/kem/mkem/sike.go
index ef26a4c..8a2635b 100644
--- a/kem/mkem/sike.go
+++ b/kem/mkem/sike.go
@@ -351,7 +351,7 @@ func (c *MultiKEM) Decapsulate(secret []byte, prv *sidh.PrivateKey, pub *sidh.Pu
 	_, _ = c.shake.Write(c.j[:skA.Params.SharedSecretSize])
 	_, _ = c.shake.Read(cti[:skA.Params.MsgLen])
 	for i := 0; i < skA.Params.MsgLen; i++ {
-		cti[i] ^= c.msg[i]
+		cti[i] ^= m[i]
 	}
 
 	// S is chosen at random when generating a key and unknown to other party. It is
-- 
2.43.0


From bb6b1885749f71823447e9d10f81f310653cf8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:22 +0000
Subject: [PATCH 16/20] fix: sike: Decapsulate refuses keys of another field

---
 dh/sidh/sike.go  | 4 ++++
 kem/mkem/sike.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/dh/sidh/sike.go b/dh/sidh/sike.go
index bb8a65f..69f6f31 100644
--- a/dh/sidh/sike.go
+++ b/dh/sidh/sike.go
@@ -122,6 +122,10 @@ func (c *KEM) Decapsulate(secret []byte, prv *PrivateKey, pub *PublicKey, cipher
 		panic("Public and private key are of different type")
 	}
 
+	if pub.Params.ID != c.params.ID || prv.Params.ID != c.params.ID {
+		panic("Key is defined over different field")
+	}
+
 	if len(secret) < c.SharedSecretSize() {
 		panic("shared secret buffer to small")
 	}
diff --git a/kem/mkem/sike.go b/kem/mkem/sike.go
index 8a2635b..fc37def 100644
--- a/kem/mkem/sike.go
+++ b/kem/mkem/sike.go
@@ -166,6 +166,10 @@ func (c *KEM) Decapsulate(secret []byte, prv *sidh.PrivateKey, pub *sidh.PublicK
 		panic("Public and private key are of different type")
 	}
 
+	if pub.Params.ID != c.params.ID || prv.Params.ID != c.params.ID {
+		panic("Key is defined over different field")
+	}
+
 	if len(secret) < c.SharedSecretSize() {
 		panic("shared secret buffer to small")
 	}
-- 
2.43.0


From f007dfad6b990d2bcab90b4f4d9e9a43fbe52635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:41 +0000
Subject: [PATCH 17/20] fix: mkem: MultiKEM.Encapsulate checks all recipient
 keys before changing state

---
 kem/mkem/sike.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/kem/mkem/sike.go b/kem/mkem/sike.go
index fc37def..65d76fc 100644
--- a/kem/mkem/sike.go
+++ b/kem/mkem/sike.go
@@ -237,6 +237,19 @@ func (c *MultiKEM) Encapsulate(secret []byte, pub []*sidh.PublicKey) error {
 		panic("shared secret buffer to small")
 	}
 
+	if len(pub) > len(c.cts) {
+		panic("Too many recipients")
+	}
+
+	for _, pkB := range pub {
+		if sidh.KeyVariantSike != pkB.KeyVariant {
+			panic("Wrong type of public key")
+		}
+		if pkB.Params.ID != c.params.ID {
+			panic("Key is defined over different field")
+		}
+	}
+
 	// Generate ephemeral value M
 	_, err := io.ReadFull(c.rng, c.msg[:])
 	if err != nil {
@@ -263,9 +276,6 @@ func (c *MultiKEM) Encapsulate(secret []byte, pub []*sidh.PublicKey) error {
 	// pkA -> ct0
 	pkA.Export(c.ct0[:])
 	for ct_i, pkB := range pub {
-		if sidh.KeyVariantSike != pkB.KeyVariant {
-			panic("Wrong type of public key")
-		}
 		skA.DeriveSecret(c.j[:], pkB)
 		// H(j)
 		c.shake.Reset()
-- 
2.43.0


From b8f0962c5a211fff472b97538115f93806e40c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:23 +0000
Subject: [PATCH 18/20] fix: sidh: PrivateKey.Init drops S of the key kind held
 before

---
 dh/sidh/sidh.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dh/sidh/sidh.go b/dh/sidh/sidh.go
index 2bb05f2..7757f2d 100644
--- a/dh/sidh/sidh.go
+++ b/dh/sidh/sidh.go
@@ -309,6 +309,7 @@ func (c *PrivateKey) Init(fieldId uint8, v KeyVariant) {
 	} else {
 		c.Scalar = make([]byte, c.Params.B.SecretByteLen)
 	}
+	c.S = nil
 	if v == KeyVariantSike {
 		c.S = make([]byte, c.Params.MsgLen)
 	}
-- 
2.43.0


From 1d254108579517648b910a48248b84bd22f5dc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:40 +0000
Subject: [PATCH 19/20] fix: refuse too many recipients in MultiPKE.Encrypt
 before writing

Encrypt overwrote every entry of the ciphertext the object held before it
ran past the end of Cts and panicked with an index out of range.
---
 kem/mkem/csidh.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kem/mkem/csidh.go b/kem/mkem/csidh.go
index a6523e8..d336f21 100644
--- a/kem/mkem/csidh.go
+++ b/kem/mkem/csidh.go
@@ -92,6 +92,10 @@ func (c *MultiPKE) Encrypt(keys []csidh.PublicKey, pt *[16]byte) {
 	var pkA csidh.PublicKey
 	var skA csidh.PrivateKey
 
+	if len(keys) > len(c.Cts) {
+		panic("mkem: too many recipients")
+	}
+
 	csidh.GeneratePrivateKey(&skA, c.Rng)
 	for i, pk := range keys {
 		if !csidh.DeriveSecret(&ss, &pk, &skA, c.Rng) {
-- 
2.43.0


From 8402166cd74f7eb20058f4936c1071915caaa6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:20 +0000
Subject: [PATCH 20/20] fix: sidh, mkem: KEM.Encapsulate refuses a key of
 another field before drawing randomness

---
 dh/sidh/sike.go  | 4 ++++
 kem/mkem/sike.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/dh/sidh/sike.go b/dh/sidh/sike.go
index 69f6f31..aabba71 100644
--- a/dh/sidh/sike.go
+++ b/dh/sidh/sike.go
@@ -64,6 +64,10 @@ func (c *KEM) Encapsulate(ciphertext, secret []byte, pub *PublicKey) error {
 		panic("Wrong type of public key")
 	}
 
+	if pub.Params.ID != c.params.ID {
+		panic("Key is defined over different field")
+	}
+
 	if len(secret) < c.SharedSecretSize() {
 		panic("shared secret buffer to small")
 	}
diff --git a/kem/mkem/sike.go b/kem/mkem/sike.go
index 65d76fc..1a3f205 100644
--- a/kem/mkem/sike.go
+++ b/kem/mkem/sike.go
@@ -108,6 +108,10 @@ func (c *KEM) Encapsulate(ciphertext, secret []byte, pub *sidh.PublicKey) error
 		panic("Wrong type of public key")
 	}
 
+	if pub.Params.ID != c.params.ID {
+		panic("Key is defined over different field")
+	}
+
 	if len(secret) < c.SharedSecretSize() {
 		panic("shared secret buffer to small")
 	}
-- 
2.43.0

