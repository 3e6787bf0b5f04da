From 867c9121bc9675e5c98f6583670e5be62a11e7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:55 +0000
Subject: [PATCH 01/20] fix: sm3: Write reports the number of bytes it consumed

---
 hash/sm3/sm3.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hash/sm3/sm3.go b/hash/sm3/sm3.go
index 90c6eeb..8cb2bc8 100644
--- a/hash/sm3/sm3.go
+++ b/hash/sm3/sm3.go
@@ -57,13 +57,15 @@ func (d *digest) Reset() {
 
 func (d *digest) Write(input []byte) (nn int, err error) {
 
+	nn = len(input)
+
 	// current possition in the buffer
 	idx := int(d.len & uint64((d.BlockSize() - 1)))
 	d.len += uint64(len(input))
 
 	if len(input)+idx < d.BlockSize() {
 		copy(d.b[idx:], input)
-		return
+		return nn, nil
 	}
 
 	c := d.BlockSize() - idx
@@ -76,7 +78,7 @@ func (d *digest) Write(input []byte) (nn int, err error) {
 
 	// this eventually could be done in d.compress
 	copy(d.b[:], input[nblocks*d.BlockSize():])
-	return len(input), nil
+	return nn, nil
 }
 
 func (d *digest) Sum(in []byte) []byte {
-- 
2.43.0


From dbc0607bd8ce7664e4a50e98a7bb4a3ec333f9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:55 +0000
Subject: [PATCH 02/20] fix: sha3: Sum does not change the underlying hash
 state

---
 hash/sha3/sha3.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hash/sha3/sha3.go b/hash/sha3/sha3.go
index d08dff8..e4b97f7 100644
--- a/hash/sha3/sha3.go
+++ b/hash/sha3/sha3.go
@@ -206,7 +206,9 @@ func (c *state) Sum(in []byte) []byte {
 	}
 
 	in = in[:l+c.Size()]
-	c.Read(in[l:])
+	// Squeeze from a copy so that caller can keep writing and summing.
+	dup := *c
+	dup.Read(in[l:])
 	return in
 }
 
-- 
2.43.0


From 3e5f233c90450221e5803c0451a44709244eabeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:55 +0000
Subject: [PATCH 03/20] fix: sha3: bytepad adds no padding to a block-aligned
 string

---
 hash/sha3/shake.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hash/sha3/shake.go b/hash/sha3/shake.go
index 16f2634..60bd26e 100644
--- a/hash/sha3/shake.go
+++ b/hash/sha3/shake.go
@@ -54,8 +54,10 @@ func bytepad(input []byte, w int) []byte {
 	buf := make([]byte, 0, 9+len(input)+w)
 	buf = append(buf, leftEncode(uint64(w))...)
 	buf = append(buf, input...)
-	padlen := w - (len(buf) % w)
-	return append(buf, make([]byte, padlen)...)
+	if rem := len(buf) % w; rem != 0 {
+		buf = append(buf, make([]byte, w-rem)...)
+	}
+	return buf
 }
 
 func leftEncode(value uint64) []byte {
-- 
2.43.0


From e596b16d06b397e52f4987663c185925086328e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:55 +0000
Subject: [PATCH 04/20] fix: csidh: PrivateKey.Import rejects over-long input
 instead of panicking

---
 dh/csidh/csidh.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dh/csidh/csidh.go b/dh/csidh/csidh.go
index d8f9c21..afa84a0 100644
--- a/dh/csidh/csidh.go
+++ b/dh/csidh/csidh.go
@@ -197,7 +197,7 @@ func groupAction(pub *PublicKey, prv *PrivateKey, rng io.Reader) {
 // PrivateKey operations
 
 func (c *PrivateKey) Import(key []byte) bool {
-	if len(key) < len(c.e) {
+	if len(key) != len(c.e) {
 		return false
 	}
 	for i, v := range key {
-- 
2.43.0


From dc138dceb6436456c5dd2e5baa1b2b7499027e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:55 +0000
Subject: [PATCH 05/20] fix: csidh: PublicKey.Import replaces the previously
 stored key

---
 dh/csidh/csidh.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dh/csidh/csidh.go b/dh/csidh/csidh.go
index afa84a0..21a7b6d 100644
--- a/dh/csidh/csidh.go
+++ b/dh/csidh/csidh.go
@@ -247,6 +247,7 @@ func (c *PublicKey) Import(key []byte) bool {
 	if len(key) != numWords*limbByteSize {
 		return false
 	}
+	c.a = fp{}
 	for i := 0; i < len(key); i++ {
 		j := i / limbByteSize
 		k := uint64(i % 8)
-- 
2.43.0


From 1235049b88ae41d2723ef673ec774b9d3d63ac64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:55 +0000
Subject: [PATCH 06/20] fix: sidh: PublicKey.Import clears the previously
 stored key

---
 dh/sidh/common/utils.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dh/sidh/common/utils.go b/dh/sidh/common/utils.go
index e5ff4b3..988a204 100644
--- a/dh/sidh/common/utils.go
+++ b/dh/sidh/common/utils.go
@@ -19,6 +19,7 @@ func BytesToFp2(fp2 *Fp2, input []byte, bytelen int) {
 		panic("input byte slice too short")
 	}
 
+	*fp2 = Fp2{}
 	for i := 0; i < bytelen; i++ {
 		j := i / 8
 		k := uint64(i % 8)
-- 
2.43.0


From c8663b67693e4305d4e0a68414c6719b0ed12e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:55 +0000
Subject: [PATCH 07/20] fix: sike: Encapsulate hashes exactly the ciphertext,
 not the whole buffer

---
 dh/sidh/sike.go  | 2 +-
 kem/mkem/sike.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dh/sidh/sike.go b/dh/sidh/sike.go
index 611b68b..bb8a65f 100644
--- a/dh/sidh/sike.go
+++ b/dh/sidh/sike.go
@@ -100,7 +100,7 @@ func (c *KEM) Encapsulate(ciphertext, secret []byte, pub *PublicKey) error {
 	// K = H(msg||(c0||c1))
 	c.shake.Reset()
 	_, _ = c.shake.Write(c.msg)
-	_, _ = c.shake.Write(ciphertext)
+	_, _ = c.shake.Write(ciphertext[:c.CiphertextSize()])
 	_, _ = c.shake.Read(secret[:c.SharedSecretSize()])
 	return nil
 }
diff --git a/kem/mkem/sike.go b/kem/mkem/sike.go
index 150ebab..ef26a4c 100644
--- a/kem/mkem/sike.go
+++ b/kem/mkem/sike.go
@@ -144,7 +144,7 @@ func (c *KEM) Encapsulate(ciphertext, secret []byte, pub *sidh.PublicKey) error
 	// K = H(msg||(c0||c1))
 	c.shake.Reset()
 	_, _ = c.shake.Write(c.msg)
-	_, _ = c.shake.Write(ciphertext)
+	_, _ = c.shake.Write(ciphertext[:c.CiphertextSize()])
 	_, _ = c.shake.Read(secret[:c.SharedSecretSize()])
 	return nil
 }
-- 
2.43.0


From eda4ffd53c63482b494b934fff489074daedc6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:55 +0000
Subject: [PATCH 08/20] fix: sidh: GeneratePrivateKey reports PRNG failure

---
 dh/sidh/sidh.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dh/sidh/sidh.go b/dh/sidh/sidh.go
index b3e923b..3988910 100644
--- a/dh/sidh/sidh.go
+++ b/dh/sidh/sidh.go
@@ -310,8 +310,8 @@ func (c *PrivateKey) Init(fieldId uint8, v KeyVariant) {
 	}
 }
 
-func GeneratePrivateKey(prv *PrivateKey, rng io.Reader) {
-	prv.Generate(rng)
+func GeneratePrivateKey(prv *PrivateKey, rng io.Reader) error {
+	return prv.Generate(rng)
 }
 
 func GeneratePublicKey(pub *PublicKey, prv *PrivateKey) {
-- 
2.43.0


From 9d78f2ceebd4e944cc926ec4245fea93b60bf4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:55 +0000
Subject: [PATCH 09/20] fix: sidh: DeriveSecret rejects keys from the same
 torsion group

---
 dh/sidh/sidh.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dh/sidh/sidh.go b/dh/sidh/sidh.go
index 3988910..e47209a 100644
--- a/dh/sidh/sidh.go
+++ b/dh/sidh/sidh.go
@@ -260,7 +260,9 @@ func (prv *PrivateKey) GeneratePublicKey(pub *PublicKey) {
 func (prv *PrivateKey) DeriveSecret(ss []byte, pub *PublicKey) {
 	var isA = (prv.KeyVariant & KeyVariantSidhA) == KeyVariantSidhA
 
-	if (pub.KeyVariant == prv.KeyVariant) || (pub.Params.ID != prv.Params.ID) {
+	// Keys must come from different torsion groups. SIKE key is a key from 3-torsion group.
+	if ((pub.KeyVariant & KeyVariantSidhA) == (prv.KeyVariant & KeyVariantSidhA)) ||
+		(pub.Params.ID != prv.Params.ID) {
 		panic("sidh: public and private are incompatbile")
 	}
 
-- 
2.43.0


From 0ddcf6860ef7870646115b80cd3def8675803626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:55 +0000
Subject: [PATCH 10/20] fix: sidh: Generate sets the top scalar bit when
 SecretBitLen is a multiple of 8

---
 dh/sidh/sidh.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dh/sidh/sidh.go b/dh/sidh/sidh.go
index e47209a..d0638f2 100644
--- a/dh/sidh/sidh.go
+++ b/dh/sidh/sidh.go
@@ -210,12 +210,16 @@ func (prv *PrivateKey) Generate(rand io.Reader) error {
 		return err
 	}
 
-	prv.Scalar[len(prv.Scalar)-1] &= (1 << (dp.SecretBitLen % 8)) - 1
+	topBit := dp.SecretBitLen - 1
+	for i := (topBit / 8) + 1; i < uint(len(prv.Scalar)); i++ {
+		prv.Scalar[i] = 0
+	}
+	prv.Scalar[topBit/8] &= (2 << (topBit % 8)) - 1
 	// Make sure scalar is SecretBitLen long. SIKE spec says that key
 	// space starts from 0, but I'm not comfortable with having low
 	// value scalars used for private keys. It is still secrure as per
 	// table 5.1 in [SIKE].
-	prv.Scalar[len(prv.Scalar)-1] |= 1 << ((dp.SecretBitLen % 8) - 1)
+	prv.Scalar[topBit/8] |= 1 << (topBit % 8)
 
 	return nil
 }
-- 
2.43.0


From 66acad08b76757d5a52aa70ac510875f4adb065b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:55 +0000
Subject: [PATCH 11/20] fix: utils: AES-NI support is reported in ECX of CPUID
 leaf 1

---
 utils/cpuid_amd64.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/utils/cpuid_amd64.go b/utils/cpuid_amd64.go
index 3f20c01..e5a3137 100644
--- a/utils/cpuid_amd64.go
+++ b/utils/cpuid_amd64.go
@@ -23,11 +23,11 @@ func init() {
 		return
 	}
 
-	_, ecx, _, _ := cpuid(1, 0)
+	_, _, ecx, _ := cpuid(1, 0)
 	X86.HasAES = bitn(ecx, 25)
 
-	_, ecx, _, _ = cpuid(7, 0)
-	X86.HasBMI2 = bitn(ecx, 8)
-	X86.HasADX = bitn(ecx, 19)
-	X86.HasRDSEED = bitn(ecx, 18)
+	_, ebx, _, _ := cpuid(7, 0)
+	X86.HasBMI2 = bitn(ebx, 8)
+	X86.HasADX = bitn(ebx, 19)
+	X86.HasRDSEED = bitn(ebx, 18)
 }
-- 
2.43.0


From d361cdd5ebe8aa7baa19a67a6a84d7807e4e0ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:03 +0000
Subject: [PATCH 12/20] fix: build: make noasm and non-amd64 builds compile

---
 dh/csidh/fp511_generic.go                       |  2 +-
 dh/sidh/internal/p434/arith_generic.go          |  2 +-
 dh/sidh/internal/templates/arith_generic.gotemp |  2 +-
 drbg/internal/aes/asm_amd64.s                   |  2 +-
 drbg/internal/aes/asm_arm64.s                   |  2 +-
 drbg/internal/aes/cipher_asm.go                 |  2 +-
 drbg/internal/aes/cipher_noasm.go               | 11 +++++++++++
 7 files changed, 17 insertions(+), 6 deletions(-)
 create mode 100644 drbg/internal/aes/cipher_noasm.go

diff --git a/dh/csidh/fp511_generic.go b/dh/csidh/fp511_generic.go
index 4d51009..032fb65 100644
--- a/dh/csidh/fp511_generic.go
+++ b/dh/csidh/fp511_generic.go
@@ -1,4 +1,4 @@
-// +build noasm arm64
+// +build noasm !amd64
 
 package csidh
 
diff --git a/dh/sidh/internal/p434/arith_generic.go b/dh/sidh/internal/p434/arith_generic.go
index 028012f..3a3bf99 100644
--- a/dh/sidh/internal/p434/arith_generic.go
+++ b/dh/sidh/internal/p434/arith_generic.go
@@ -1,7 +1,7 @@
 // Code generated by go generate; DO NOT EDIT.
 // This file was generated by robots.
 
-// +build noasm,arm64 !amd64
+// +build noasm !amd64
 
 package p434
 
diff --git a/dh/sidh/internal/templates/arith_generic.gotemp b/dh/sidh/internal/templates/arith_generic.gotemp
index b7c69b5..a61a0fa 100644
--- a/dh/sidh/internal/templates/arith_generic.gotemp
+++ b/dh/sidh/internal/templates/arith_generic.gotemp
@@ -1,7 +1,7 @@
 // Code generated by go generate; DO NOT EDIT.
 // This file was generated by robots.
 
-// +build {{if .OPT_ARM}}noasm !amd64,!arm64{{else}}noasm,arm64 !amd64{{end}}
+// +build {{if .OPT_ARM}}noasm !amd64,!arm64{{else}}noasm !amd64{{end}}
 
 package {{ .PACKAGE}}
 
diff --git a/drbg/internal/aes/asm_amd64.s b/drbg/internal/aes/asm_amd64.s
index b51da88..4d8f347 100644
--- a/drbg/internal/aes/asm_amd64.s
+++ b/drbg/internal/aes/asm_amd64.s
@@ -2,7 +2,7 @@
 // Use of this source code is governed by a BSD-style
 // license that can be found in the LICENSE file.
 
-// +build amd64, !noasm
+// +build amd64,!noasm
 
 #include "textflag.h"
 
diff --git a/drbg/internal/aes/asm_arm64.s b/drbg/internal/aes/asm_arm64.s
index ef35d4f..14dc93a 100644
--- a/drbg/internal/aes/asm_arm64.s
+++ b/drbg/internal/aes/asm_arm64.s
@@ -2,7 +2,7 @@
 // Use of this source code is governed by a BSD-style
 // license that can be found in the LICENSE file.
 
-// +build arm64, !noasm
+// +build arm64,!noasm
 
 #include "textflag.h"
 DATA rotInvSRows<>+0x00(SB)/8, $0x080f0205040b0e01
diff --git a/drbg/internal/aes/cipher_asm.go b/drbg/internal/aes/cipher_asm.go
index e2738fd..461a575 100644
--- a/drbg/internal/aes/cipher_asm.go
+++ b/drbg/internal/aes/cipher_asm.go
@@ -1,7 +1,7 @@
 // Copyright 2012 The Go Authors. All rights reserved.
 // Use of this source code is governed by a BSD-style
 // license that can be found in the LICENSE file.
-// +build amd64, !noasm
+// +build amd64,!noasm arm64,!noasm
 
 package aes
 
diff --git a/drbg/internal/aes/cipher_noasm.go b/drbg/internal/aes/cipher_noasm.go
new file mode 100644
index 0000000..0c4733e
--- /dev/null
+++ b/drbg/internal/aes/cipher_noasm.go
@@ -0,0 +1,11 @@
+// +build noasm !amd64,!arm64
+
+package aes
+
+// AESAsm falls back to the generic implementation on platforms
+// without assembly support.
+type AESAsm = AES
+
+func expandKey(key []byte, enc, dec []uint32) {
+	expandKeyGo(key, enc, dec)
+}
-- 
2.43.0


From f182a423d3df29a08b3a89299a63e65ab6ad33a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:03 +0000
Subject: [PATCH 13/20] fix: aes: AESAsm honours the key length

---
 drbg/internal/aes/cipher_asm.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/drbg/internal/aes/cipher_asm.go b/drbg/internal/aes/cipher_asm.go
index 461a575..a9d8cf9 100644
--- a/drbg/internal/aes/cipher_asm.go
+++ b/drbg/internal/aes/cipher_asm.go
@@ -23,6 +23,8 @@ func expandKeyAsm(nr int, key *byte, enc *uint32, dec *uint32)
 type AESAsm struct {
 	enc [32 + 28]uint32
 	dec [32 + 28]uint32
+	// number of rounds, depends on the key length
+	rounds int
 }
 
 func (c *AESAsm) SetKey(key []byte) error {
@@ -34,8 +36,11 @@ func (c *AESAsm) SetKey(key []byte) error {
 		rounds = 12
 	case 256 / 8:
 		rounds = 14
+	default:
+		return KeySizeError(len(key))
 	}
 
+	c.rounds = rounds
 	expandKeyAsm(rounds, &key[0], &c.enc[0], &c.dec[0])
 	return nil
 }
@@ -52,7 +57,7 @@ func (c *AESAsm) Encrypt(dst, src []byte) {
 	if InexactOverlap(dst[:BlockSize], src[:BlockSize]) {
 		panic("crypto/aes: invalid buffer overlap")
 	}
-	encryptBlockAsm(len(c.enc)/4-1, &c.enc[0], &dst[0], &src[0])
+	encryptBlockAsm(c.rounds, &c.enc[0], &dst[0], &src[0])
 }
 
 func (c *AESAsm) Decrypt(dst, src []byte) {
@@ -65,7 +70,7 @@ func (c *AESAsm) Decrypt(dst, src []byte) {
 	if InexactOverlap(dst[:BlockSize], src[:BlockSize]) {
 		panic("crypto/aes: invalid buffer overlap")
 	}
-	decryptBlockAsm(len(c.dec)/4-1, &c.dec[0], &dst[0], &src[0])
+	decryptBlockAsm(c.rounds, &c.dec[0], &dst[0], &src[0])
 }
 
 // expandKey is used by BenchmarkExpand to ensure that the asm implementation
-- 
2.43.0


From 4f2952d8fbc98513d9f886333a2a8266ae3c637b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:03 +0000
Subject: [PATCH 14/20] fix: drbg: last partial block gets fresh counter and
 current key

---
 drbg/ctr_drbg.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/drbg/ctr_drbg.go b/drbg/ctr_drbg.go
index 10ad81d..86b55a8 100644
--- a/drbg/ctr_drbg.go
+++ b/drbg/ctr_drbg.go
@@ -147,8 +147,12 @@ func (c *CtrDrbg) ReadWithAdditionalData(out, ad []byte) (n int, err error) {
 	}
 
 	// Copy remainder - case for out being not block aligned
-	c.blockEnc.Encrypt(c.tmpBlk[:], c.v[:])
-	copy(out[blocks*BlockLen:], c.tmpBlk[:len(out)%BlockLen])
+	if rem := len(out) % BlockLen; rem > 0 {
+		c.inc()
+		c.blockEnc.SetKey(c.key[:])
+		c.blockEnc.Encrypt(c.tmpBlk[:], c.v[:])
+		copy(out[blocks*BlockLen:], c.tmpBlk[:rem])
+	}
 
 	c.update(seedBuf[:])
 	c.counter += 1
-- 
2.43.0


From 59e37fb1f4c26b42b0abc3814dd49315e6465d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:03 +0000
Subject: [PATCH 15/20] fix: drbg: Init starts from the initial state also when
 called again

---
 drbg/ctr_drbg.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/drbg/ctr_drbg.go b/drbg/ctr_drbg.go
index 86b55a8..c15ed64 100644
--- a/drbg/ctr_drbg.go
+++ b/drbg/ctr_drbg.go
@@ -79,6 +79,9 @@ func (c *CtrDrbg) Init(entropy, personalization []byte) bool {
 		seedBuf[i] ^= personalization[i]
 	}
 
+	// Instantiation starts from all-zero key and V (SP800-90A, 10.2.1.3.1)
+	c.key = [KeyLen]byte{}
+	c.v = [BlockLen]byte{}
 	c.blockEnc.SetKey(c.key[:])
 	c.update(seedBuf[:])
 	c.counter = 1
-- 
2.43.0


From b44fc9f60303fb23644f07fc2c0edf502de624ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:55 +0000
Subject: [PATCH 16/20] fix: drbg: refuse to generate before the generator is
 instantiated

---
 drbg/ctr_drbg.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/drbg/ctr_drbg.go b/drbg/ctr_drbg.go
index c15ed64..37e93e6 100644
--- a/drbg/ctr_drbg.go
+++ b/drbg/ctr_drbg.go
@@ -12,6 +12,8 @@
 package drbg
 
 import (
+	"errors"
+
 	"github.com/henrydcase/nobs/drbg/internal/aes"
 	"github.com/henrydcase/nobs/utils"
 )
@@ -24,6 +26,8 @@ const (
 	SeedLen  = BlockLen + KeyLen
 )
 
+var errNotInstantiated = errors.New("drbg: generator is not instantiated")
+
 type CtrDrbg struct {
 	v          [BlockLen]byte
 	key        [KeyLen]byte
@@ -133,6 +137,11 @@ func (c *CtrDrbg) Reseed(entropy, data []byte) {
 
 func (c *CtrDrbg) ReadWithAdditionalData(out, ad []byte) (n int, err error) {
 	var seedBuf [SeedLen]byte
+
+	// Output is predictable if entropy was never provided
+	if c.counter == 0 {
+		return 0, errNotInstantiated
+	}
 	// TODO: check reseed_counter > reseed_interval
 
 	if len(ad) > 0 {
-- 
2.43.0


From df52d58f8224a2ce85af4a3729f5492f34eec0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:55 +0000
Subject: [PATCH 17/20] fix: mkem: MultiKEM.Decapsulate re-encrypts the
 decrypted message

---
 kem/mkem/sike.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kem/mkem/sike.go b/kem/mkem/sike.go
index ef26a4c..8a2635b 100644
--- a/kem/mkem/sike.go
+++ b/kem/mkem/sike.go
@@ -351,7 +351,7 @@ func (c *MultiKEM) Decapsulate(secret []byte, prv *sidh.PrivateKey, pub *sidh.Pu
 	_, _ = c.shake.Write(c.j[:skA.Params.SharedSecretSize])
 	_, _ = c.shake.Read(cti[:skA.Params.MsgLen])
 	for i := 0; i < skA.Params.MsgLen; i++ {
-		cti[i] ^= c.msg[i]
+		cti[i] ^= m[i]
 	}
 
 	// S is chosen at random when generating a key and unknown to other party. It is
-- 
2.43.0


From af26580646ade23edfbf4963f64f565fa01b378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:55 +0000
Subject: [PATCH 18/20] fix: mkem: never encrypt under a secret that was not
 agreed

---
 kem/mkem/csidh.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/kem/mkem/csidh.go b/kem/mkem/csidh.go
index 8927754..1e10e9f 100644
--- a/kem/mkem/csidh.go
+++ b/kem/mkem/csidh.go
@@ -52,8 +52,12 @@ func (c *PKE) Enc(pk *csidh.PublicKey, pt *[16]byte) (ct ciphertext) {
 	var pkA csidh.PublicKey
 	var skA csidh.PrivateKey
 
-	csidh.GeneratePrivateKey(&skA, c.Rng)
-	csidh.DeriveSecret(&ss, pk, &skA, c.Rng)
+	if err := csidh.GeneratePrivateKey(&skA, c.Rng); err != nil {
+		panic("mkem: can't generate ephemeral key")
+	}
+	if !csidh.DeriveSecret(&ss, pk, &skA, c.Rng) {
+		panic("mkem: invalid public key")
+	}
 
 	c.H.Reset()
 	c.H.Write(ss[:])
@@ -90,13 +94,17 @@ func (c *MultiPKE) Encrypt(keys []csidh.PublicKey, pt *[16]byte) {
 	var pkA csidh.PublicKey
 	var skA csidh.PrivateKey
 
-	csidh.GeneratePrivateKey(&skA, c.Rng)
+	if err := csidh.GeneratePrivateKey(&skA, c.Rng); err != nil {
+		panic("mkem: can't generate ephemeral key")
+	}
 	for i, pk := range keys {
-		csidh.DeriveSecret(&ss, &pk, &skA, c.Rng)
+		if !csidh.DeriveSecret(&ss, &pk, &skA, c.Rng) {
+			panic("mkem: invalid public key")
+		}
 
+		c.H.Reset()
 		c.H.Write(ss[:])
 		c.H.Read(ss[:16])
-		c.H.Reset()
 		for j := 0; j < 16; j++ {
 			c.Cts[i][j] = pt[j] ^ ss[j]
 		}
-- 
2.43.0


From 6683a122c6186e86ad86b2094543efca0d7e86e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:56 +0000
Subject: [PATCH 19/20] fix: utils: declare the real argument size of the cpuid
 routine

---
 utils/cpuid_amd64.s | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/cpuid_amd64.s b/utils/cpuid_amd64.s
index 2dff942..03879bb 100644
--- a/utils/cpuid_amd64.s
+++ b/utils/cpuid_amd64.s
@@ -2,7 +2,7 @@
 
 #include "textflag.h"
 
-TEXT ·cpuid(SB), NOSPLIT, $0-4
+TEXT ·cpuid(SB), NOSPLIT, $0-24
     MOVL eaxArg+0(FP), AX
     MOVL ecxArg+4(FP), CX
     CPUID
-- 
2.43.0


From 98fcb3803ec5b1d356d9e2f84166d27a577d67da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:18 +0000
Subject: [PATCH 20/20] fix: p503 arm64 multiplication lost the sign of the
 middle part when a deferred carry cancels it

---
 dh/sidh/internal/p503/arith_arm64.s | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dh/sidh/internal/p503/arith_arm64.s b/dh/sidh/internal/p503/arith_arm64.s
index 559806a..1905f25 100644
--- a/dh/sidh/internal/p503/arith_arm64.s
+++ b/dh/sidh/internal/p503/arith_arm64.s
@@ -517,7 +517,9 @@ TEXT ·mulP503(SB), NOSPLIT, $0-24
 	ADCS	R23, R17
 	ADCS	R24, R19
 	STP	(R17, R19), 80(R2)
-	ADCS	R7, R25
+	// R7 may be -1 here, then the carry cancels it
+	ADC	ZR, R7
+	ADDS	R7, R25
 	ADCS	ZR, R26
 	STP	(R25, R26), 96(R2)
 	ADCS	ZR, R27
-- 
2.43.0

