From 5de17b9ffbcb5dafe55a29b1113fc13bca5e6592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 01/15] fix: comp_decode16/comp_encode16 are inverse on
 centered residues, reject non-canonical words

A 16-bit word above 0x7FFF was read as a negative int16_t and passed the
w >= 12289 check, and 2047 decoded to 2047 - 12289 (encode then decode was
not the identity).
---
 falcon/nistfalcon/src/codec.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/falcon/nistfalcon/src/codec.c b/falcon/nistfalcon/src/codec.c
index f5e81c7..e091ab5 100644
--- a/falcon/nistfalcon/src/codec.c
+++ b/falcon/nistfalcon/src/codec.c
@@ -496,7 +496,7 @@ Zf(comp_encode16)(
 
 	n = (size_t)1 << logn;
 	for (u = 0; u < n; u ++) {
-		if (x[u] >= 12289 || x[u] <= -12289) {
+		if (x[u] < -6144 || x[u] > +6144) {
 			return 0;
 		}
 	}
@@ -624,16 +624,16 @@ Zf(comp_decode16)(
 		acc = (acc << 8) | (*buf ++);
 		acc_len += 8;
 		if (acc_len >= 16) {
-			int16_t w;
+			int32_t w;
 
 			acc_len -= 16;
 			w = (acc >> acc_len) & 0xFFFF;
 			if (w >= 12289) {
 				return 0;
 			}
-			// using the bound 2047 from the comments below
-			w -= 12289 & ~((w - 2047) >> 31);
-			x[u++] = w;
+			// centered representative, in -6144..+6144
+			w -= 12289 & ~((w - 6145) >> 31);
+			x[u++] = (int16_t)w;
 		}
 	}
 	if ((acc & (((uint32_t)1 << acc_len) - 1)) != 0) {
-- 
2.43.0


From 7fa0ec31b29a95b25f20b15a765c35233870daf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 02/15] fix: zknox_crypto_sign_open_epervier requires the exact
 signature length before reading it

esig[1025] and 2 * 1024 bytes of signature were read whatever sig_len was
(out of bounds read for short inputs) and trailing bytes were accepted.
---
 falcon/nistfalcon/src/epervier16.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/falcon/nistfalcon/src/epervier16.c b/falcon/nistfalcon/src/epervier16.c
index 6f88d11..2401773 100644
--- a/falcon/nistfalcon/src/epervier16.c
+++ b/falcon/nistfalcon/src/epervier16.c
@@ -228,7 +228,8 @@ zknox_crypto_sign_open_epervier(unsigned char *m, unsigned long long *mlen,
 	 * Decode signature.
 	 */
 	esig = sm + 2 + NONCELEN + msg_len;
-	if (sig_len < 1 || esig[0] != 0x20 + 9 || esig[1025] != 0x20 + 9) {
+	if (sig_len != ZKNOX_CRYPTO_BYTES_EPERVIER - 2 - NONCELEN
+		|| esig[0] != 0x20 + 9 || esig[1025] != 0x20 + 9) {
 		return -1;
 	}
 
-- 
2.43.0


From 8dd1c6b48f5f881ca0cdae85a4937017d326a1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 03/15] fix: zknox_pk_epervier no longer applies a second NTT
 to the public key

zknox_crypto_sign_keypair already outputs NTT(h); with the second transform
no signature of zknox_crypto_sign_epervier was ever accepted by
zknox_crypto_sign_open_epervier.
---
 falcon/nistfalcon/src/epervier16.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/falcon/nistfalcon/src/epervier16.c b/falcon/nistfalcon/src/epervier16.c
index 2401773..eab5e78 100644
--- a/falcon/nistfalcon/src/epervier16.c
+++ b/falcon/nistfalcon/src/epervier16.c
@@ -26,7 +26,7 @@ int randombytes(unsigned char *x, unsigned long long xlen);
 int
 zknox_pk_epervier(unsigned char *pk)
 {
-	// Additional NTT for epervier
+	// The public key is already in NTT representation (zknox_crypto_sign_keypair)
 	// Hash is not computed here
 	TEMPALLOC uint16_t h[512];
 	size_t v;
@@ -41,9 +41,6 @@ zknox_pk_epervier(unsigned char *pk)
 		return -1;
 	}
 
-	// NTT not in montgomery representation
-	Zf(to_ntt)(h, 9);
-
 	/*
 	 * Re-encode public key.
 	 */
-- 
2.43.0


From 1d5ce37014c450e31845a5b32268eda391f51a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 04/15] fix: ETHFALCON sign/open fail when the message does not
 fit the Keccak PRNG buffer

The return value of inner_keccak256_inject was ignored: above 4056 bytes the
message was silently left out of the hash, so that a signature covered any
other long message.
---
 falcon/nistfalcon/src/nist.c   | 10 +++++++---
 falcon/nistfalcon/src/nist16.c | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/falcon/nistfalcon/src/nist.c b/falcon/nistfalcon/src/nist.c
index 099f788..e8ce830 100644
--- a/falcon/nistfalcon/src/nist.c
+++ b/falcon/nistfalcon/src/nist.c
@@ -238,8 +238,10 @@ int crypto_sign(unsigned char *sm, unsigned long long *smlen,
 	 */
 #if ETHFALCON
 	inner_keccak256_init(&kc);
-	inner_keccak256_inject(&kc, nonce, sizeof nonce);
-	inner_keccak256_inject(&kc, m, mlen);
+	if (inner_keccak256_inject(&kc, nonce, sizeof nonce) != 0
+		|| (mlen != 0 && inner_keccak256_inject(&kc, m, mlen) != 0)) {
+		return -1;
+	}
 	inner_keccak256_flip(&kc);
 	Zf(keccak_hash_to_point_vartime)(&kc, r.hm, 9);
 #else
@@ -353,7 +355,9 @@ int crypto_sign_open(unsigned char *m, unsigned long long *mlen,
 
 #if ETHFALCON
 	inner_keccak256_init(&kc);
-	inner_keccak256_inject(&kc, sm + 2, NONCELEN + msg_len);
+	if (inner_keccak256_inject(&kc, sm + 2, NONCELEN + msg_len) != 0) {
+		return -1;
+	}
 	inner_keccak256_flip(&kc);
 	Zf(keccak_hash_to_point_vartime)(&kc, hm, 9);
 #else
diff --git a/falcon/nistfalcon/src/nist16.c b/falcon/nistfalcon/src/nist16.c
index 7e432b3..c2cc44d 100644
--- a/falcon/nistfalcon/src/nist16.c
+++ b/falcon/nistfalcon/src/nist16.c
@@ -243,8 +243,10 @@ int zknox_crypto_sign(unsigned char *sm, unsigned long long *smlen,
 	 */
 #if ETHFALCON
 	inner_keccak256_init(&kc);
-	inner_keccak256_inject(&kc, nonce, sizeof nonce);
-	inner_keccak256_inject(&kc, m, mlen);
+	if (inner_keccak256_inject(&kc, nonce, sizeof nonce) != 0
+		|| (mlen != 0 && inner_keccak256_inject(&kc, m, mlen) != 0)) {
+		return -1;
+	}
 	inner_keccak256_flip(&kc);
 	Zf(keccak_hash_to_point_vartime)(&kc, r.hm, 9);
 #else
@@ -366,7 +368,9 @@ int zknox_crypto_sign_open(unsigned char *m, unsigned long long *mlen,
 	 */
 #if ETHFALCON
 	inner_keccak256_init(&kc);
-	inner_keccak256_inject(&kc, sm + 2, NONCELEN + msg_len);
+	if (inner_keccak256_inject(&kc, sm + 2, NONCELEN + msg_len) != 0) {
+		return -1;
+	}
 	inner_keccak256_flip(&kc);
 	Zf(keccak_hash_to_point_vartime)(&kc, hm, 9);
 #else
-- 
2.43.0


From 3a34793d614e47ab124d8ad2f5fdeb8a51e681bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:04 +0000
Subject: [PATCH 05/15] fix: reject signed messages with an empty signature
 body

crypto_sign_open and zknox_crypto_sign_open compared the number of bytes the
decoder consumed with sig_len - 1; with sig_len = 1 a failed decode (0) passed
the test and an uninitialised signature vector was verified.
---
 falcon/nistfalcon/src/nist.c   | 2 +-
 falcon/nistfalcon/src/nist16.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/falcon/nistfalcon/src/nist.c b/falcon/nistfalcon/src/nist.c
index e8ce830..c76fb85 100644
--- a/falcon/nistfalcon/src/nist.c
+++ b/falcon/nistfalcon/src/nist.c
@@ -339,7 +339,7 @@ int crypto_sign_open(unsigned char *m, unsigned long long *mlen,
 	 * Decode signature.
 	 */
 	esig = sm + 2 + NONCELEN + msg_len;
-	if (sig_len < 1 || esig[0] != 0x20 + 9)
+	if (sig_len < 2 || esig[0] != 0x20 + 9)
 	{
 		return -1;
 	}
diff --git a/falcon/nistfalcon/src/nist16.c b/falcon/nistfalcon/src/nist16.c
index c2cc44d..c8995ee 100644
--- a/falcon/nistfalcon/src/nist16.c
+++ b/falcon/nistfalcon/src/nist16.c
@@ -354,7 +354,7 @@ int zknox_crypto_sign_open(unsigned char *m, unsigned long long *mlen,
 	 * Decode signature.
 	 */
 	esig = sm + 2 + NONCELEN + msg_len;
-	if (sig_len < 1 || esig[0] != 0x20 + 9)
+	if (sig_len < 2 || esig[0] != 0x20 + 9)
 	{
 		return -1;
 	}
-- 
2.43.0


From 8b11d6d60f7ab91630c643bf74c9492b1069744a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:28 +0000
Subject: [PATCH 06/15] fix: decompress rejects every malformed encoding
 without raising, and trailing nonzero bits

---
 pythonref/encoding.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pythonref/encoding.py b/pythonref/encoding.py
index d5c7b9e..711b039 100755
--- a/pythonref/encoding.py
+++ b/pythonref/encoding.py
@@ -48,7 +48,7 @@ def decompress(x, slen, n):
     v = []
 
     # Remove the last bits
-    while u[-1] == "0":
+    while u != "" and u[-1] == "0":
         u = u[:-1]
 
     try:
@@ -70,12 +70,14 @@ def decompress(x, slen, n):
             # Store intermediate results
             v += [coef]
             u = u[i + 1:]
-        # In this case, the encoding is invalid
-        if (len(v) != n):
+        # In this case, the encoding is invalid: wrong number of coefficients,
+        # or nonzero bits after the last one
+        if (len(v) != n) or (u != ""):
             return False
         return v
-    # IndexError is raised if indices are read outside the table bounds
-    except IndexError:
+    # IndexError is raised if indices are read outside the table bounds,
+    # ValueError if no bit is left for the low part of a coefficient
+    except (IndexError, ValueError):
         return False
 
 def decode16(x:bytes, n: int, q=12289):
-- 
2.43.0


From 615b587a624a6505239f89a6a5aa25a6f0e212e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:39 +0000
Subject: [PATCH 07/15] fix: PublicKey.from_bytes takes Falcon-1024 keys of
 1793 bytes and checks that header and length agree

---
 pythonref/falcon.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pythonref/falcon.py b/pythonref/falcon.py
index 1ba0871..9a422bb 100755
--- a/pythonref/falcon.py
+++ b/pythonref/falcon.py
@@ -240,19 +240,19 @@ class PublicKey:
 
         Format:
         - 1 byte header: 0x09 or 0x0A (for falcon-1024)
-        - 896 bytes: 512 coefficients, each 14 bits
+        - 896 bytes (1792 for falcon-1024): n coefficients, each 14 bits
 
         Returns:
         The corresponding PublicKey
         """
 
-        if len(pk_bytes) not in (897, 1792):
-            raise ValueError("Invalid public key length (must be 897 or 1792 bytes)")
+        if len(pk_bytes) not in (897, 1793):
+            raise ValueError("Invalid public key length (must be 897 or 1793 bytes)")
 
         # Check header
-        if pk_bytes[0] == 0x09:
+        if pk_bytes[0] == 0x09 and len(pk_bytes) == 897:
             n = 512
-        elif pk_bytes[0] == 0x0A:
+        elif pk_bytes[0] == 0x0A and len(pk_bytes) == 1793:
             n = 1024
         else:
             raise ValueError("Invalid Falcon public key header")
-- 
2.43.0


From 44105afd6237eb2693e08f8f83d09b197985ebf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:48 +0000
Subject: [PATCH 08/15] fix: recovery-mode verify rejects a failed recovery
 even for the public key 0

---
 pythonref/falcon_epervier.py | 2 +-
 pythonref/falcon_recovery.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pythonref/falcon_epervier.py b/pythonref/falcon_epervier.py
index c0d8ae1..b868185 100644
--- a/pythonref/falcon_epervier.py
+++ b/pythonref/falcon_epervier.py
@@ -70,7 +70,7 @@ class EpervierPublicKey:
     def verify(self, message, signature, ntt=NTTIterative, xof=KeccakPRNG):
         pk_rec = self.recover(message, signature,
                               ntt=ntt, xof=xof)
-        return pk_rec == self.pk
+        return pk_rec is not False and pk_rec == self.pk
 
 
 class EpervierSecretKey(SecretKey):
diff --git a/pythonref/falcon_recovery.py b/pythonref/falcon_recovery.py
index fcb47e4..a34178e 100644
--- a/pythonref/falcon_recovery.py
+++ b/pythonref/falcon_recovery.py
@@ -74,7 +74,7 @@ class RecoveryModePublicKey:
     def verify(self, message, signature, ntt=NTTIterative, xof=KeccakPRNG):
         pk_rec = self.recover(message, signature,
                               ntt=ntt, xof=xof)
-        return pk_rec == self.pk
+        return pk_rec is not False and pk_rec == self.pk
 
 
 class RecoveryModeSecretKey(SecretKey):
-- 
2.43.0


From 50188420cd26d51644233e9edc3bf2f833fe11fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:01 +0000
Subject: [PATCH 09/15] fix: falcon_normalize counts every coefficient of s1
 and s2 in the norm

The loop over s2 compared an absolute memory address with 16384 and never
ran, and the loop over s1 left out the last coefficient, so any short h-s1
was accepted whatever s2 was. The bound itself is inclusive.
---
 src/ZKNOX_falcon_core.sol | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ZKNOX_falcon_core.sol b/src/ZKNOX_falcon_core.sol
index b5f0f29..0dfa45f 100644
--- a/src/ZKNOX_falcon_core.sol
+++ b/src/ZKNOX_falcon_core.sol
@@ -42,7 +42,7 @@ function falcon_checkPolynomialRange(uint256[] memory polynomial, bool is_compac
 ///      1. Computes s1 = h - s1 (mod q) where h is hash-to-point result
 ///      2. Normalizes both s1 and s2 to centered representatives (-q/2, q/2]
 ///      3. Computes squared L2 norm: ||s1||² + ||s2||²
-///      4. Verifies norm² < sigBound = 34034726
+///      4. Verifies norm² <= sigBound = 34034726
 /// @param s1 First signature component (will be overwritten with h - s1)
 /// @param s2 Second signature component in compacted format (32 words)
 /// @param hashed Hash-to-point result (512 coefficients)
@@ -59,7 +59,7 @@ function falcon_normalize(
 
     // OPTIMIZATION: Added memory-safe annotation, use lt instead of gt for clarity
     assembly ("memory-safe") {
-        for { let offset := 32 } lt(offset, 16384) { offset := add(offset, 32) } {
+        for { let offset := 32 } lt(offset, 16416) { offset := add(offset, 32) } {
             let s1i := addmod(mload(add(hashed, offset)), sub(q, mload(add(s1, offset))), q) //s1[i] = addmod(hashed[i], q - s1[i], q);
             let cond := gt(s1i, qs1) //s1[i] > qs1 ?
             s1i := add(mul(cond, sub(q, s1i)), mul(sub(1, cond), s1i))
@@ -78,14 +78,14 @@ function falcon_normalize(
             }
         }
 
-        for { let offset := add(s1, 32) } lt(offset, 16384) { offset := add(offset, 32) } {
+        for { let offset := add(s1, 32) } lt(offset, add(s1, 16416)) { offset := add(offset, 32) } {
             let s1i := mload(offset) //s1[i]
             let cond := gt(s1i, qs1) //s1[i] > qs1 ?
             s1i := add(mul(cond, sub(q, s1i)), mul(sub(1, cond), s1i))
             norm := add(norm, mul(s1i, s1i))
         }
 
-        result := gt(sigBound, norm) //norm < SigBound ?
+        result := iszero(gt(norm, sigBound)) //norm <= SigBound ?
     }
 
     return result;
@@ -94,7 +94,7 @@ function falcon_normalize(
 /// @notice Core Falcon-512 verification algorithm with compacted input
 /// @dev Implements the Falcon signature verification equation:
 ///      1. Computes s1 = h - h·s2 (in NTT domain) where h is the public key
-///      2. Verifies ||s1||² + ||s2||² < sigBound
+///      2. Verifies ||s1||² + ||s2||² <= sigBound
 /// @dev Uses compacted polynomial representation for gas efficiency
 /// @param s2 Second signature component (32 uint256 words, compacted)
 /// @param ntth Public key in NTT domain (32 uint256 words, compacted)
-- 
2.43.0


From 465f42b50d4919744d454863e6f74ffd608ac039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:01 +0000
Subject: [PATCH 10/15] fix: recover counts the last coefficients in the norm
 and reduces s1

The norm loop stopped one coefficient early, and a word of s1 above q made
q - s1 wrap modulo 2^256, so that the value subtracted from the hash was not
the short one whose norm was checked.
---
 src/ZKNOX_epervier.sol    | 4 ++--
 src/ZKNOX_ethepervier.sol | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ZKNOX_epervier.sol b/src/ZKNOX_epervier.sol
index e5ba946..92b9b95 100644
--- a/src/ZKNOX_epervier.sol
+++ b/src/ZKNOX_epervier.sol
@@ -48,7 +48,7 @@ contract ZKNOX_epervier {
 
         assembly {
             //normalization
-            for { let offset := 32 } gt(16384, offset) { offset := add(offset, 32) } {
+            for { let offset := 32 } gt(16416, offset) { offset := add(offset, 32) } {
                 let s1i := mload(add(s1, offset))
 
                 let cond := gt(s1i, qs1) //s1[i] > qs1 ?
@@ -108,7 +108,7 @@ contract ZKNOX_epervier {
             for { let offset := 32 } gt(16416, offset) { offset := add(offset, 32) } {
                 norm := add(norm, sub(1, mulmod(mload(add(offset, s2)), mload(add(offset, s2_inverse_ntt)), q)))
                 let a_hashedi := add(hashed, offset)
-                mstore(a_hashedi, addmod(mload(a_hashedi), sub(q, mload(add(s1, offset))), q))
+                mstore(a_hashedi, addmod(mload(a_hashedi), sub(q, mod(mload(add(s1, offset)), q)), q))
             }
         }
 
diff --git a/src/ZKNOX_ethepervier.sol b/src/ZKNOX_ethepervier.sol
index 8ec7b55..43b554b 100644
--- a/src/ZKNOX_ethepervier.sol
+++ b/src/ZKNOX_ethepervier.sol
@@ -47,7 +47,7 @@ contract ZKNOX_ethepervier {
 
         assembly {
             //normalization
-            for { let offset := 32 } gt(16384, offset) { offset := add(offset, 32) } {
+            for { let offset := 32 } gt(16416, offset) { offset := add(offset, 32) } {
                 let s1i := mload(add(s1, offset))
 
                 let cond := gt(s1i, qs1) //s1[i] > qs1 ?
@@ -107,7 +107,7 @@ contract ZKNOX_ethepervier {
             for { let offset := 32 } gt(16416, offset) { offset := add(offset, 32) } {
                 norm := add(norm, sub(1, mulmod(mload(add(offset, s2)), mload(add(offset, s2_inverse_ntt)), q)))
                 let a_hashedi := add(hashed, offset)
-                mstore(a_hashedi, addmod(mload(a_hashedi), sub(q, mload(add(s1, offset))), q))
+                mstore(a_hashedi, addmod(mload(a_hashedi), sub(q, mod(mload(add(s1, offset)), q)), q))
             }
         }
 
-- 
2.43.0


From c0ad1714b294d8ebffdf1452b60971e85be2f62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:16 +0000
Subject: [PATCH 11/15] fix: falcon_checkPolynomialRange rejects the
 coefficient q

---
 src/ZKNOX_falcon_core.sol | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ZKNOX_falcon_core.sol b/src/ZKNOX_falcon_core.sol
index 0dfa45f..202137d 100644
--- a/src/ZKNOX_falcon_core.sol
+++ b/src/ZKNOX_falcon_core.sol
@@ -28,7 +28,7 @@ function falcon_checkPolynomialRange(uint256[] memory polynomial, bool is_compac
         let ptr := add(a, 32)
         let endPtr := add(ptr, shl(5, len)) // len * 32
         for {} lt(ptr, endPtr) { ptr := add(ptr, 32) } {
-            if gt(mload(ptr), q) {
+            if iszero(lt(mload(ptr), q)) {
                 result := 0
                 ptr := endPtr // break
             }
-- 
2.43.0


From c391aee22db72cdf66d721c74f437efa2fea7dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:16 +0000
Subject: [PATCH 12/15] fix: _decompress_sig rejects minus zero, non-zero
 padding bits and truncated input

These encodings are invalid (Falcon specification, Algorithm 18; comp_decode of
the C code rejects them): accepting them makes signatures malleable.
---
 src/ZKNOX_falcon_encodings.sol | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/ZKNOX_falcon_encodings.sol b/src/ZKNOX_falcon_encodings.sol
index 8a8c924..4c5f188 100644
--- a/src/ZKNOX_falcon_encodings.sol
+++ b/src/ZKNOX_falcon_encodings.sol
@@ -31,6 +31,7 @@ function _decompress_sig(bytes memory buf, uint256 offset) pure returns (uint256
         */
 
         assembly {
+            if iszero(lt(v, mload(buf))) { revert(0, 0) } // the encoding is cut short
             let temp := byte(0, mload(add(add(buf, 32), v)))
             acc := or(shl(8, acc), temp)
             v := add(v, 1)
@@ -40,6 +41,7 @@ function _decompress_sig(bytes memory buf, uint256 offset) pure returns (uint256
 
             for {} eq(0, 0) {} {
                 if eq(0, acc_len) {
+                    if iszero(lt(v, mload(buf))) { revert(0, 0) } // the encoding is cut short
                     acc := or(shl(8, acc), byte(0, mload(add(add(buf, 32), v))))
                     v := add(1, v)
                     acc_len := 8
@@ -64,9 +66,9 @@ function _decompress_sig(bytes memory buf, uint256 offset) pure returns (uint256
         /*
         * "-0" is forbidden.
         */
-        //	if ( ((s==0) && (m==0)) ) {//TODO: replace
-        //		revert("incorrect zero encoding");
-        //	}
+        if (s != 0 && m == 0) {
+            revert("incorrect zero encoding");
+        }
 
         assembly {
             let temp := m // x[u] = m;
@@ -78,6 +80,13 @@ function _decompress_sig(bytes memory buf, uint256 offset) pure returns (uint256
         }
     } //end loop u
 
+    /*
+    * Unused bits in the last byte must be zero.
+    */
+    if ((acc & ((uint256(1) << acc_len) - 1)) != 0) {
+        revert("incorrect padding");
+    }
+
     //console.log("last read sig:",uint8(buf[v]));
     if ((v - offset) >= max_in_len) {
         revert("too long");
-- 
2.43.0


From 9c91566ac798156997159dc21ce5524ce9f6e3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:16 +0000
Subject: [PATCH 13/15] fix: make_immutable blocks update

The antifuse was set from the start and update required it to be set, so
that anyone could change the parameters at any time.
---
 src/ZKNOX_NTT.sol | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ZKNOX_NTT.sol b/src/ZKNOX_NTT.sol
index 2c22f3c..3260a64 100644
--- a/src/ZKNOX_NTT.sol
+++ b/src/ZKNOX_NTT.sol
@@ -64,11 +64,11 @@ contract ZKNOX_NTT {
 
         o_psirev = Apsi_rev;
         o_psi_inv_rev = Apsi_inrev;
-        is_immutable = 1;
+        is_immutable = 0;
     }
 
     function update(address Apsi_rev, address Apsi_inrev, uint256 q, uint256 nm1modq) public {
-        if (is_immutable > 0) {
+        if (is_immutable == 0) {
             storage_q = q; //prime field modulus
             storage_nm1modq = nm1modq; //n^-1 mod 12289, used in inverse NTT
 
-- 
2.43.0


From fb83ed2ad57a9681d3ee9d42d804a8affac5aff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:29 +0000
Subject: [PATCH 14/15] fix: a padded SHAKE context is squeezing

shakePad and shakeDigest left the direction at absorbing, so that a further
shakeUpdate or shakeDigest continued as if no padding had been absorbed.
---
 src/ZKNOX_shake.sol | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ZKNOX_shake.sol b/src/ZKNOX_shake.sol
index c23c4b6..0f22c6d 100644
--- a/src/ZKNOX_shake.sol
+++ b/src/ZKNOX_shake.sol
@@ -353,6 +353,7 @@ function shakePad(CtxShake memory ctx) pure returns (CtxShake memory ctxout) {
     (ctx.buff, ctx.state) = shakePermute(ctx.buff, ctx.state);
 
     ctx.i = 0;
+    ctx.direction = _SPONGE_SQUEEZING;
 
     return ctx;
 }
@@ -370,6 +371,7 @@ function shakeDigest(CtxShake memory ctx, uint256 size8) pure returns (bytes mem
         (ctx.buff, ctx.state) = shakePermute(ctx.buff, ctx.state);
 
         ctx.i = 0;
+        ctx.direction = _SPONGE_SQUEEZING;
     }
     (, output) = shakeSqueeze(ctx, size8);
 }
-- 
2.43.0


From a5bffabea493c6e955796b8f02f1bb8b9b2d94ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:01 +0000
Subject: [PATCH 15/15] fix: prng_get_bytes reads from the current position of
 the buffer

The function copied the start of the buffer on every call, so two successive
requests returned the same random bytes instead of consecutive ones.
---
 falcon/nistfalcon/src/rng.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falcon/nistfalcon/src/rng.c b/falcon/nistfalcon/src/rng.c
index dd03a22..16586a1 100644
--- a/falcon/nistfalcon/src/rng.c
+++ b/falcon/nistfalcon/src/rng.c
@@ -179,7 +179,7 @@ Zf(prng_get_bytes)(prng *p, void *dst, size_t len)
 		if (clen > len) {
 			clen = len;
 		}
-		memcpy(buf, p->buf.d, clen);
+		memcpy(buf, p->buf.d + p->ptr, clen);
 		buf += clen;
 		len -= clen;
 		p->ptr += clen;
-- 
2.43.0

