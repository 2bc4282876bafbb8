From b5c07d24b1b57e7b0efff28d0d2867422cb4d357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:27 +0000
Subject: [PATCH 01/22] fix: comp_decode16 must reject 16-bit fields with the
 top bit set

The field was stored in an int16_t, so values from 0x8000 became negative and
escaped the range test; each such value aliased a valid encoding.
---
 falcon/nistfalcon/src/codec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/falcon/nistfalcon/src/codec.c b/falcon/nistfalcon/src/codec.c
index f5e81c7..a1fbd02 100644
--- a/falcon/nistfalcon/src/codec.c
+++ b/falcon/nistfalcon/src/codec.c
@@ -624,7 +624,7 @@ Zf(comp_decode16)(
 		acc = (acc << 8) | (*buf ++);
 		acc_len += 8;
 		if (acc_len >= 16) {
-			int16_t w;
+			int32_t w;
 
 			acc_len -= 16;
 			w = (acc >> acc_len) & 0xFFFF;
@@ -633,7 +633,7 @@ Zf(comp_decode16)(
 			}
 			// using the bound 2047 from the comments below
 			w -= 12289 & ~((w - 2047) >> 31);
-			x[u++] = w;
+			x[u++] = (int16_t)w;
 		}
 	}
 	if ((acc & (((uint32_t)1 << acc_len) - 1)) != 0) {
-- 
2.43.0


From 724330d9b778f5992cccbb17fae25cad648d0d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:27 +0000
Subject: [PATCH 02/22] fix: comp_decode16 must keep the coefficient 2047

The threshold was off by one: 2047 is a legal coefficient but decoded to
2047 - q.
---
 falcon/nistfalcon/src/codec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/falcon/nistfalcon/src/codec.c b/falcon/nistfalcon/src/codec.c
index a1fbd02..129f899 100644
--- a/falcon/nistfalcon/src/codec.c
+++ b/falcon/nistfalcon/src/codec.c
@@ -632,7 +632,7 @@ Zf(comp_decode16)(
 				return 0;
 			}
 			// using the bound 2047 from the comments below
-			w -= 12289 & ~((w - 2047) >> 31);
+			w -= 12289 & ~((w - 2048) >> 31);
 			x[u++] = (int16_t)w;
 		}
 	}
-- 
2.43.0


From 15c2a67c8f798b94b2ab7c1164b68988f583e82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:27 +0000
Subject: [PATCH 03/22] fix: reject a signature field that consists of the
 header only

With sig_len == 1 the decoder got no input and reported failure as 0, which
equals sig_len - 1, so the uninitialised polynomial was verified.
---
 falcon/nistfalcon/src/nist.c   | 2 +-
 falcon/nistfalcon/src/nist16.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/falcon/nistfalcon/src/nist.c b/falcon/nistfalcon/src/nist.c
index 099f788..85c5b9c 100644
--- a/falcon/nistfalcon/src/nist.c
+++ b/falcon/nistfalcon/src/nist.c
@@ -337,7 +337,7 @@ int crypto_sign_open(unsigned char *m, unsigned long long *mlen,
 	 * Decode signature.
 	 */
 	esig = sm + 2 + NONCELEN + msg_len;
-	if (sig_len < 1 || esig[0] != 0x20 + 9)
+	if (sig_len < 2 || esig[0] != 0x20 + 9)
 	{
 		return -1;
 	}
diff --git a/falcon/nistfalcon/src/nist16.c b/falcon/nistfalcon/src/nist16.c
index 7e432b3..5f9daf5 100644
--- a/falcon/nistfalcon/src/nist16.c
+++ b/falcon/nistfalcon/src/nist16.c
@@ -352,7 +352,7 @@ int zknox_crypto_sign_open(unsigned char *m, unsigned long long *mlen,
 	 * Decode signature.
 	 */
 	esig = sm + 2 + NONCELEN + msg_len;
-	if (sig_len < 1 || esig[0] != 0x20 + 9)
+	if (sig_len < 2 || esig[0] != 0x20 + 9)
 	{
 		return -1;
 	}
-- 
2.43.0


From dfd70bef076f48b0367358320158053e2b7384df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:27 +0000
Subject: [PATCH 04/22] fix: epervier opener must check the length of the
 signature field

The two halves and the second header were read at fixed offsets after checking
only that the field is not empty, past the end of the signed message.
---
 falcon/nistfalcon/src/epervier16.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/falcon/nistfalcon/src/epervier16.c b/falcon/nistfalcon/src/epervier16.c
index 6f88d11..6cc6d8d 100644
--- a/falcon/nistfalcon/src/epervier16.c
+++ b/falcon/nistfalcon/src/epervier16.c
@@ -225,10 +225,11 @@ zknox_crypto_sign_open_epervier(unsigned char *m, unsigned long long *mlen,
 	}
 	msg_len = smlen - 2 - NONCELEN - sig_len;
 	/*
-	 * Decode signature.
+	 * Decode signature: two polynomials with a header byte each, and
+	 * the 2-byte hint.
 	 */
 	esig = sm + 2 + NONCELEN + msg_len;
-	if (sig_len < 1 || esig[0] != 0x20 + 9 || esig[1025] != 0x20 + 9) {
+	if (sig_len != 2052 || esig[0] != 0x20 + 9 || esig[1025] != 0x20 + 9) {
 		return -1;
 	}
 
-- 
2.43.0


From e8f52418ae881ac1aa16c15e47d7b65ee0981f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:27 +0000
Subject: [PATCH 05/22] fix: do not ignore a failed absorption into the Keccak
 generator

inner_keccak256_inject() refuses input beyond its buffer; the message was then
signed or accepted without having been hashed.
---
 falcon/nistfalcon/src/nist.c   | 15 ++++++++++++---
 falcon/nistfalcon/src/nist16.c | 15 ++++++++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/falcon/nistfalcon/src/nist.c b/falcon/nistfalcon/src/nist.c
index 85c5b9c..eeca060 100644
--- a/falcon/nistfalcon/src/nist.c
+++ b/falcon/nistfalcon/src/nist.c
@@ -238,8 +238,14 @@ int crypto_sign(unsigned char *sm, unsigned long long *smlen,
 	 */
 #if ETHFALCON
 	inner_keccak256_init(&kc);
-	inner_keccak256_inject(&kc, nonce, sizeof nonce);
-	inner_keccak256_inject(&kc, m, mlen);
+	if (inner_keccak256_inject(&kc, nonce, sizeof nonce) != 0)
+	{
+		return -1;
+	}
+	if (inner_keccak256_inject(&kc, m, mlen) != 0)
+	{
+		return -1;
+	}
 	inner_keccak256_flip(&kc);
 	Zf(keccak_hash_to_point_vartime)(&kc, r.hm, 9);
 #else
@@ -353,7 +359,10 @@ int crypto_sign_open(unsigned char *m, unsigned long long *mlen,
 
 #if ETHFALCON
 	inner_keccak256_init(&kc);
-	inner_keccak256_inject(&kc, sm + 2, NONCELEN + msg_len);
+	if (inner_keccak256_inject(&kc, sm + 2, NONCELEN + msg_len) != 0)
+	{
+		return -1;
+	}
 	inner_keccak256_flip(&kc);
 	Zf(keccak_hash_to_point_vartime)(&kc, hm, 9);
 #else
diff --git a/falcon/nistfalcon/src/nist16.c b/falcon/nistfalcon/src/nist16.c
index 5f9daf5..11153d2 100644
--- a/falcon/nistfalcon/src/nist16.c
+++ b/falcon/nistfalcon/src/nist16.c
@@ -243,8 +243,14 @@ int zknox_crypto_sign(unsigned char *sm, unsigned long long *smlen,
 	 */
 #if ETHFALCON
 	inner_keccak256_init(&kc);
-	inner_keccak256_inject(&kc, nonce, sizeof nonce);
-	inner_keccak256_inject(&kc, m, mlen);
+	if (inner_keccak256_inject(&kc, nonce, sizeof nonce) != 0)
+	{
+		return -1;
+	}
+	if (inner_keccak256_inject(&kc, m, mlen) != 0)
+	{
+		return -1;
+	}
 	inner_keccak256_flip(&kc);
 	Zf(keccak_hash_to_point_vartime)(&kc, r.hm, 9);
 #else
@@ -366,7 +372,10 @@ int zknox_crypto_sign_open(unsigned char *m, unsigned long long *mlen,
 	 */
 #if ETHFALCON
 	inner_keccak256_init(&kc);
-	inner_keccak256_inject(&kc, sm + 2, NONCELEN + msg_len);
+	if (inner_keccak256_inject(&kc, sm + 2, NONCELEN + msg_len) != 0)
+	{
+		return -1;
+	}
 	inner_keccak256_flip(&kc);
 	Zf(keccak_hash_to_point_vartime)(&kc, hm, 9);
 #else
-- 
2.43.0


From 06b713f7b84966e1fe1a4e40c4c817198dc75029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 06/22] fix: zknox_pk_epervier must not transform the key a
 second time

zknox_crypto_sign_keypair() already stores h in NTT representation; after another
forward NTT no honest signature opened (the epervier KAT program failed).
---
 falcon/nistfalcon/src/epervier16.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/falcon/nistfalcon/src/epervier16.c b/falcon/nistfalcon/src/epervier16.c
index 6cc6d8d..7e4454c 100644
--- a/falcon/nistfalcon/src/epervier16.c
+++ b/falcon/nistfalcon/src/epervier16.c
@@ -26,7 +26,7 @@ int randombytes(unsigned char *x, unsigned long long xlen);
 int
 zknox_pk_epervier(unsigned char *pk)
 {
-	// Additional NTT for epervier
+	// Check the public key for epervier
 	// Hash is not computed here
 	TEMPALLOC uint16_t h[512];
 	size_t v;
@@ -41,8 +41,8 @@ zknox_pk_epervier(unsigned char *pk)
 		return -1;
 	}
 
-	// NTT not in montgomery representation
-	Zf(to_ntt)(h, 9);
+	// zknox_crypto_sign_keypair() already publishes h in NTT
+	// representation (not Montgomery), which is what the opener compares.
 
 	/*
 	 * Re-encode public key.
-- 
2.43.0


From 7ad78f0fbd45166cc71e19d905c6099e515f10a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:33 +0000
Subject: [PATCH 07/22] fix: the Blake2s PRNG must accept as much input as the
 Keccak PRNG

---
 pythonref/blake2s_prng.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pythonref/blake2s_prng.py b/pythonref/blake2s_prng.py
index db12daf..44735e9 100755
--- a/pythonref/blake2s_prng.py
+++ b/pythonref/blake2s_prng.py
@@ -8,7 +8,7 @@ from hashlib import blake2s
 # but with Blake2s as the internal hash function (implemented in hashlib)
 
 # Constants
-MAX_BUFFER_SIZE = 1024  # Adjust based on needs
+MAX_BUFFER_SIZE = 4096  # Same capacity as the Keccak PRNG
 BLAKE2S_OUTPUT = 32  # Keccak output size in bytes
 
 
-- 
2.43.0


From 7e889ced7131cedab48598a81305d0155d4efc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:44 +0000
Subject: [PATCH 08/22] fix: decompress must not raise and must reject bits
 after the last coefficient

---
 pythonref/encoding.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pythonref/encoding.py b/pythonref/encoding.py
index d5c7b9e..95def8b 100755
--- a/pythonref/encoding.py
+++ b/pythonref/encoding.py
@@ -48,7 +48,7 @@ def decompress(x, slen, n):
     v = []
 
     # Remove the last bits
-    while u[-1] == "0":
+    while u != "" and u[-1] == "0":
         u = u[:-1]
 
     try:
@@ -71,11 +71,13 @@ def decompress(x, slen, n):
             v += [coef]
             u = u[i + 1:]
         # In this case, the encoding is invalid
-        if (len(v) != n):
+        # (the bits after the last coefficient must all be zero)
+        if (len(v) != n) or (u != ""):
             return False
         return v
-    # IndexError is raised if indices are read outside the table bounds
-    except IndexError:
+    # IndexError is raised if indices are read outside the table bounds,
+    # ValueError if a sign bit is the last bit of the encoding
+    except (IndexError, ValueError):
         return False
 
 def decode16(x:bytes, n: int, q=12289):
-- 
2.43.0


From bc06eb6c910c544fa0bae49f0122761960b8af31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:44 +0000
Subject: [PATCH 09/22] fix: PublicKey.from_bytes must tie the key length to
 the header

---
 pythonref/falcon.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pythonref/falcon.py b/pythonref/falcon.py
index 1ba0871..426478f 100755
--- a/pythonref/falcon.py
+++ b/pythonref/falcon.py
@@ -246,8 +246,8 @@ class PublicKey:
         The corresponding PublicKey
         """
 
-        if len(pk_bytes) not in (897, 1792):
-            raise ValueError("Invalid public key length (must be 897 or 1792 bytes)")
+        if len(pk_bytes) not in (897, 1793):
+            raise ValueError("Invalid public key length (must be 897 or 1793 bytes)")
 
         # Check header
         if pk_bytes[0] == 0x09:
@@ -257,6 +257,10 @@ class PublicKey:
         else:
             raise ValueError("Invalid Falcon public key header")
 
+        # The length must be the one announced by the header
+        if len(pk_bytes) != HEAD_LEN + (14 * n) // 8:
+            raise ValueError("Public key length does not match its header")
+
         data = pk_bytes[HEAD_LEN:]  # Remove header
 
         h = []
-- 
2.43.0


From 8ed8c7769cc692f6db3c834adfaa32f6971a37c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:41 +0000
Subject: [PATCH 10/22] fix: size the Go buffers for the message, check key
 lengths, accept empty slices

SignMessage wrote a signed message of any length into a 1330-byte array and
VerifySignature a message of any length into a 1024-byte array; an empty
slice crashed the program, and a short key was read past its end.
---
 falcon/falcon.go | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/falcon/falcon.go b/falcon/falcon.go
index 0a11476..440c292 100644
--- a/falcon/falcon.go
+++ b/falcon/falcon.go
@@ -24,6 +24,14 @@ const (
 	SignatureSize  = 1330 // Falcon signature size
 )
 
+// bytePtr returns a C pointer to the bytes of b, valid (but not to be accessed) also when b is empty
+func bytePtr(b []byte) *C.uchar {
+	if len(b) == 0 {
+		b = make([]byte, 1)
+	}
+	return (*C.uchar)(unsafe.Pointer(&b[0]))
+}
+
 // GenerateKeypair generates a public/private keypair
 func GenerateKeypair() ([]byte, []byte, error) {
 	var pk [PublicKeySize]C.uchar
@@ -42,31 +50,37 @@ func GenerateKeypair() ([]byte, []byte, error) {
 
 // SignMessage signs a message using the private key
 func SignMessage(message []byte, sk []byte) ([]byte, error) {
-	var sm [SignatureSize]C.uchar
+	if len(sk) != SecretKeySize {
+		return nil, fmt.Errorf("invalid secret key length: %d", len(sk))
+	}
+
+	// The signed message is the message and at most C.CRYPTO_BYTES more bytes
+	sm := make([]byte, len(message)+SignatureSize)
 	var smlen C.ulonglong
 
-	ret := C.crypto_sign(&sm[0], &smlen, (*C.uchar)(unsafe.Pointer(&message[0])), C.ulonglong(len(message)), (*C.uchar)(unsafe.Pointer(&sk[0])))
+	ret := C.crypto_sign(bytePtr(sm), &smlen, bytePtr(message), C.ulonglong(len(message)), bytePtr(sk))
 	if ret != 0 {
 		return nil, fmt.Errorf("signing failed: %d", int(ret))
 	}
 
-	// Convert signature to Go byte slice
-	smBytes := C.GoBytes(unsafe.Pointer(&sm[0]), C.int(smlen))
-	return smBytes, nil
+	return sm[:smlen], nil
 }
 
 // VerifySignature verifies a signature for a given message and public key
 func VerifySignature(signature []byte, message []byte, pk []byte) (bool, error) {
-	var m [1024]C.uchar // Buffer for the recovered message
+	if len(pk) != PublicKeySize {
+		return false, fmt.Errorf("invalid public key length: %d", len(pk))
+	}
+
+	m := make([]byte, len(signature)) // Buffer for the recovered message
 	var mlen C.ulonglong
 
-	ret := C.crypto_sign_open(&m[0], &mlen, (*C.uchar)(unsafe.Pointer(&signature[0])), C.ulonglong(len(signature)), (*C.uchar)(unsafe.Pointer(&pk[0])))
+	ret := C.crypto_sign_open(bytePtr(m), &mlen, bytePtr(signature), C.ulonglong(len(signature)), bytePtr(pk))
 	if ret != 0 {
 		return false, fmt.Errorf("verification failed: %d", int(ret))
 	}
 
-	// Convert recovered message back to Go byte slice
-	recoveredMessage := C.GoBytes(unsafe.Pointer(&m[0]), C.int(mlen))
+	recoveredMessage := m[:mlen]
 
 	// Compare the recovered message with the original message
 	if string(recoveredMessage) == string(message) {
-- 
2.43.0


From ac23fdbe886c8a57d2e7edbb4427d3891f8db21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:52 +0000
Subject: [PATCH 11/22] fix: seed the C generator from operating system entropy
 in the Go bindings

The library's randombytes is the KAT generator: unseeded, every process
generated the same key pair and the same salts. It is also global state, so
concurrent calls are serialised.
---
 falcon/falcon.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/falcon/falcon.go b/falcon/falcon.go
index 440c292..93819d4 100644
--- a/falcon/falcon.go
+++ b/falcon/falcon.go
@@ -7,6 +7,7 @@ package falcon
 
 #include <stdlib.h>
 #include "api.h"
+#include "katrng.h"
 
 // Wrapper for crypto_sign_keypair, crypto_sign, crypto_sign_open
 
@@ -14,7 +15,9 @@ package falcon
 import "C"
 
 import (
+	"crypto/rand"
 	"fmt"
+	"sync"
 	"unsafe"
 )
 
@@ -32,11 +35,30 @@ func bytePtr(b []byte) *C.uchar {
 	return (*C.uchar)(unsafe.Pointer(&b[0]))
 }
 
+// drbg serialises the use of the C library's random generator, which is global to the process
+var drbg sync.Mutex
+
+// seed seeds the C library's random generator; left unseeded, it yields the same bytes in every process
+func seed() error {
+	entropy := make([]byte, 48)
+	if _, err := rand.Read(entropy); err != nil {
+		return fmt.Errorf("no entropy: %w", err)
+	}
+	C.randombytes_init(bytePtr(entropy), nil, 256)
+	return nil
+}
+
 // GenerateKeypair generates a public/private keypair
 func GenerateKeypair() ([]byte, []byte, error) {
 	var pk [PublicKeySize]C.uchar
 	var sk [SecretKeySize]C.uchar
 
+	drbg.Lock()
+	defer drbg.Unlock()
+	if err := seed(); err != nil {
+		return nil, nil, err
+	}
+
 	ret := C.crypto_sign_keypair(&pk[0], &sk[0])
 	if ret != 0 {
 		return nil, nil, fmt.Errorf("keypair generation failed: %d", int(ret))
@@ -58,6 +80,12 @@ func SignMessage(message []byte, sk []byte) ([]byte, error) {
 	sm := make([]byte, len(message)+SignatureSize)
 	var smlen C.ulonglong
 
+	drbg.Lock()
+	defer drbg.Unlock()
+	if err := seed(); err != nil {
+		return nil, err
+	}
+
 	ret := C.crypto_sign(bytePtr(sm), &smlen, bytePtr(message), C.ulonglong(len(message)), bytePtr(sk))
 	if ret != 0 {
 		return nil, fmt.Errorf("signing failed: %d", int(ret))
-- 
2.43.0


From 5880059b87b3d631967eb0f8dd0fcc70f21e3cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:10 +0000
Subject: [PATCH 12/22] fix: recovery-mode verify must refuse when recovery
 does, whatever the key

---
 pythonref/falcon_epervier.py | 3 ++-
 pythonref/falcon_recovery.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pythonref/falcon_epervier.py b/pythonref/falcon_epervier.py
index c0d8ae1..b803cd9 100644
--- a/pythonref/falcon_epervier.py
+++ b/pythonref/falcon_epervier.py
@@ -70,7 +70,8 @@ class EpervierPublicKey:
     def verify(self, message, signature, ntt=NTTIterative, xof=KeccakPRNG):
         pk_rec = self.recover(message, signature,
                               ntt=ntt, xof=xof)
-        return pk_rec == self.pk
+        # recover() returns False when it refuses, and False == 0 in Python
+        return pk_rec is not False and pk_rec == self.pk
 
 
 class EpervierSecretKey(SecretKey):
diff --git a/pythonref/falcon_recovery.py b/pythonref/falcon_recovery.py
index fcb47e4..2475a9a 100644
--- a/pythonref/falcon_recovery.py
+++ b/pythonref/falcon_recovery.py
@@ -74,7 +74,8 @@ class RecoveryModePublicKey:
     def verify(self, message, signature, ntt=NTTIterative, xof=KeccakPRNG):
         pk_rec = self.recover(message, signature,
                               ntt=ntt, xof=xof)
-        return pk_rec == self.pk
+        # recover() returns False when it refuses, and False == 0 in Python
+        return pk_rec is not False and pk_rec == self.pk
 
 
 class RecoveryModeSecretKey(SecretKey):
-- 
2.43.0


From 0dd7468eab527b963ff0f63a4b3def4379c49185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:23 +0000
Subject: [PATCH 13/22] fix: derive the CLI's signing randomness from the
 secret key and finalise the hash before reading

---
 pythonref/sign_cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pythonref/sign_cli.py b/pythonref/sign_cli.py
index 819887d..a82a25a 100755
--- a/pythonref/sign_cli.py
+++ b/pythonref/sign_cli.py
@@ -122,10 +122,13 @@ def signature(sk, data, version):
     # separator
     deterministic_bytes.update(bytes([0x00]))
     # secret key encoded
-    deterministic_bytes.update(b''.join(x.to_bytes(2, 'big') for x in sk.h))
+    for poly in (sk.f, sk.g, sk.F, sk.G):
+        deterministic_bytes.update(
+            b''.join(x.to_bytes(2, 'big', signed=True) for x in poly))
     # data TODO consider h(M) instead here.
     # if H does not output 32 bytes, change V above.
     deterministic_bytes.update(data)
+    deterministic_bytes.flip()
 
     return sk.sign(
         data,
-- 
2.43.0


From c6d973aedd9391c28605ba51e002cc798a7e4f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:23 +0000
Subject: [PATCH 14/22] fix: CLI verification must use a hash for every version
 that signs

---
 pythonref/sign_cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythonref/sign_cli.py b/pythonref/sign_cli.py
index a82a25a..d15f127 100755
--- a/pythonref/sign_cli.py
+++ b/pythonref/sign_cli.py
@@ -171,10 +171,11 @@ def print_signature_transaction(sig, pk, tx_hash):
 def verify_signature(pk, data, sig, version):
     if version == 'falcon' or version == 'epervier':
         XOF = SHAKE
-    elif version == 'ethfalcon':
+    elif version == 'ethfalcon' or version == 'falconrec':
         XOF = KeccakPRNG
     else:
         print('NOT IMPLEMENTED YET')
+        return False
     return pk.verify(data, sig, xof=XOF)
 
 
-- 
2.43.0


From 329e43a987cf60f6fa609df8f3056a2d9d2b1033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:23 +0000
Subject: [PATCH 15/22] fix: CLI sign_tx must pass the key's version and the
 arguments its callees take

---
 pythonref/sign_cli.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pythonref/sign_cli.py b/pythonref/sign_cli.py
index d15f127..bbcc11e 100755
--- a/pythonref/sign_cli.py
+++ b/pythonref/sign_cli.py
@@ -388,10 +388,13 @@ def cli():
         )
         print(tx_hash)
         [sk, version] = load_sk(args.privkey)
+        if version != 'falcon' and version != 'ethfalcon':
+            print("This version is not supported.")
+            return
         pk = PublicKey(512, sk.h)
-        sig = signature(sk, tx_hash, args.version)
-        assert (verify_signature(pk, tx_hash, sig))
-        print_signature_transaction(sig, pk, tx_hash, version)
+        sig = signature(sk, tx_hash, version)
+        assert (verify_signature(pk, tx_hash, sig, version))
+        print_signature_transaction(sig, pk, tx_hash)
 
     elif args.action == "verify":
         if not args.data or not args.pubkey or not args.signature:
-- 
2.43.0


From 3708da6da3247f43b59b4ad5ee8eb12f0eb69571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:34 +0000
Subject: [PATCH 16/22] fix: CLI recover calls must name the contract's
 function and pass both signature halves

---
 pythonref/sign_cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pythonref/sign_cli.py b/pythonref/sign_cli.py
index bbcc11e..04def9d 100755
--- a/pythonref/sign_cli.py
+++ b/pythonref/sign_cli.py
@@ -203,7 +203,7 @@ def recover_on_chain(data, sig, contract_address, rpc, version):
 
     command = [
         "cast", "call", contract_address,
-        "recover(bytes,bytes,uint256[],uint256[],uint256,)", MSG, SALT, S1, S2, HINT, "--rpc-url", rpc
+        "recover(bytes,bytes,uint256[],uint256[],uint256)", MSG, SALT, S1, S2, HINT, "--rpc-url", rpc
     ]
 
     result = subprocess.run(
@@ -278,6 +278,7 @@ def recover_on_chain_with_transaction(data, sig, contract_address, rpc, private_
         contract_address,
         MSG,
         SALT,
+        S1,
         S2,
         HINT,
         rpc
-- 
2.43.0


From 2776d8c945724b21d03e80cd0eed045ebe33a5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:34 +0000
Subject: [PATCH 17/22] fix: SHAKE must refuse input after finalisation, a
 second finalisation and early reads

---
 pythonref/shake.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pythonref/shake.py b/pythonref/shake.py
index 2989795..456b2e1 100644
--- a/pythonref/shake.py
+++ b/pythonref/shake.py
@@ -4,17 +4,25 @@ from keccak import KeccakHash
 class SHAKE:
     def __init__(self, data='', rate=200-(512//8), dsbyte=0x1f):
         self.shake = KeccakHash(rate=rate, b=data, dsbyte=dsbyte)
+        self.finalised = False
 
     @classmethod
     def new(self, data='', rate=200-(512//8), dsbyte=0x1f):
         return self(data, rate=rate, dsbyte=dsbyte)
 
     def update(self, data):
+        if self.finalised:
+            raise RuntimeError("SHAKE is already finalised")
         self.shake.absorb(data)
 
     def read(self, length):
+        if not self.finalised:
+            raise RuntimeError("SHAKE is not finalised")
         return self.shake.squeeze(length)
 
     def flip(self):
+        if self.finalised:
+            raise RuntimeError("SHAKE is already finalised")
         self.shake.pad()
+        self.finalised = True
         return
-- 
2.43.0


From 207355139e4ff2724e2305775b96d32227f4d089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:34 +0000
Subject: [PATCH 18/22] fix: KeccaXOF must be finalised before reading and
 return the bytes asked for

---
 pythonref/keccaxof.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pythonref/keccaxof.py b/pythonref/keccaxof.py
index c49c81c..5e3b605 100755
--- a/pythonref/keccaxof.py
+++ b/pythonref/keccaxof.py
@@ -7,18 +7,21 @@ class KeccaXOF:
         self.input = []
         self.last = None
         self.tmp = None
+        self.finalised = False
 
     @classmethod
     def new(self):
         return self()
 
     def update(self, data):
-        if self.last is not None:
-            raise ValueError('KeccaXOF.update() called after digest()')
+        if self.finalised:
+            raise ValueError('KeccaXOF.update() called after flip()')
         self.input.append(data)
 
-    def read(self, bytes):
-        to_slice = bytes * 2
+    def read(self, length):
+        if not self.finalised:
+            raise ValueError('KeccaXOF.read() called before flip()')
+        to_slice = length * 2
         if self.last is None:
             keccak_hash = keccak.new(digest_bits=256)
             keccak_hash.update(encode_packed(
@@ -34,9 +37,11 @@ class KeccaXOF:
 
         buff = self.tmp[:to_slice]
         self.tmp = self.tmp[to_slice:]
-        return int(buff, 16).to_bytes(2, 'big')
+        return bytes.fromhex(buff)
 
     def flip(self):
-        return
+        if self.finalised:
+            raise ValueError('KeccaXOF.flip() called twice')
+        self.finalised = True
 
 # THIS IMPLEMENTATION WILL BE REMOVED SOON
-- 
2.43.0


From e3e062cd94e8f5bb0d0da4899553b092656d1756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:44 +0000
Subject: [PATCH 19/22] fix: falcon_normalize must count all 512 coefficients
 of s1 and of s2

The second loop compared the absolute pointer of s1 with 16384 and never ran, so the
norm of s2 was not counted; both loops left out coefficient 511.
---
 src/ZKNOX_falcon_core.sol | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ZKNOX_falcon_core.sol b/src/ZKNOX_falcon_core.sol
index b5f0f29..81e0f9c 100644
--- a/src/ZKNOX_falcon_core.sol
+++ b/src/ZKNOX_falcon_core.sol
@@ -59,7 +59,7 @@ function falcon_normalize(
 
     // OPTIMIZATION: Added memory-safe annotation, use lt instead of gt for clarity
     assembly ("memory-safe") {
-        for { let offset := 32 } lt(offset, 16384) { offset := add(offset, 32) } {
+        for { let offset := 32 } lt(offset, 16416) { offset := add(offset, 32) } {
             let s1i := addmod(mload(add(hashed, offset)), sub(q, mload(add(s1, offset))), q) //s1[i] = addmod(hashed[i], q - s1[i], q);
             let cond := gt(s1i, qs1) //s1[i] > qs1 ?
             s1i := add(mul(cond, sub(q, s1i)), mul(sub(1, cond), s1i))
@@ -78,8 +78,8 @@ function falcon_normalize(
             }
         }
 
-        for { let offset := add(s1, 32) } lt(offset, 16384) { offset := add(offset, 32) } {
-            let s1i := mload(offset) //s1[i]
+        for { let offset := 32 } lt(offset, 16416) { offset := add(offset, 32) } {
+            let s1i := mload(add(s1, offset)) //s1[i]
             let cond := gt(s1i, qs1) //s1[i] > qs1 ?
             s1i := add(mul(cond, sub(q, s1i)), mul(sub(1, cond), s1i))
             norm := add(norm, mul(s1i, s1i))
-- 
2.43.0


From 24104b2a2fbdd9833f7d0366f50449d4469389c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:56 +0000
Subject: [PATCH 20/22] fix: epervier and ethepervier must count coefficient
 511 in the norm

---
 src/ZKNOX_epervier.sol    | 2 +-
 src/ZKNOX_ethepervier.sol | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ZKNOX_epervier.sol b/src/ZKNOX_epervier.sol
index e5ba946..d1e211d 100644
--- a/src/ZKNOX_epervier.sol
+++ b/src/ZKNOX_epervier.sol
@@ -48,7 +48,7 @@ contract ZKNOX_epervier {
 
         assembly {
             //normalization
-            for { let offset := 32 } gt(16384, offset) { offset := add(offset, 32) } {
+            for { let offset := 32 } gt(16416, offset) { offset := add(offset, 32) } {
                 let s1i := mload(add(s1, offset))
 
                 let cond := gt(s1i, qs1) //s1[i] > qs1 ?
diff --git a/src/ZKNOX_ethepervier.sol b/src/ZKNOX_ethepervier.sol
index 8ec7b55..895a255 100644
--- a/src/ZKNOX_ethepervier.sol
+++ b/src/ZKNOX_ethepervier.sol
@@ -47,7 +47,7 @@ contract ZKNOX_ethepervier {
 
         assembly {
             //normalization
-            for { let offset := 32 } gt(16384, offset) { offset := add(offset, 32) } {
+            for { let offset := 32 } gt(16416, offset) { offset := add(offset, 32) } {
                 let s1i := mload(add(s1, offset))
 
                 let cond := gt(s1i, qs1) //s1[i] > qs1 ?
-- 
2.43.0


From 9b35c2ea54312e888a1333e57e52aa4d93becb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:56 +0000
Subject: [PATCH 21/22] fix: byte-string verify must refuse signatures with
 trailing bytes

---
 src/ZKNOX_ethfalcon.sol | 3 +++
 src/ZKNOX_falcon.sol    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/ZKNOX_ethfalcon.sol b/src/ZKNOX_ethfalcon.sol
index b9eb64f..5b7442b 100644
--- a/src/ZKNOX_ethfalcon.sol
+++ b/src/ZKNOX_ethfalcon.sol
@@ -77,6 +77,9 @@ contract ZKNOX_ethfalcon is ISigVerifier {
     }
 
     function verify(bytes calldata _pubkey, bytes32 _digest, bytes calldata _sig) external view returns (bytes4) {
+        if (_sig.length != SALT_LEN + 32 * falcon_S256) {
+            revert("invalid signature length");
+        } // salt, then the 32 words of s2, nothing after
         address pkContractAddress;
         assembly {
             pkContractAddress := shr(96, calldataload(_pubkey.offset))
diff --git a/src/ZKNOX_falcon.sol b/src/ZKNOX_falcon.sol
index c1f4635..e77f1bf 100644
--- a/src/ZKNOX_falcon.sol
+++ b/src/ZKNOX_falcon.sol
@@ -79,6 +79,9 @@ contract ZKNOX_falcon is ISigVerifier {
     }
 
     function verify(bytes calldata _pubkey, bytes32 _digest, bytes calldata _sig) external view returns (bytes4) {
+        if (_sig.length != SALT_LEN + 32 * falcon_S256) {
+            revert("invalid signature length");
+        } // salt, then the 32 words of s2, nothing after
         address pkContractAddress;
         assembly {
             pkContractAddress := shr(96, calldataload(_pubkey.offset))
-- 
2.43.0


From 79284338d00d8df1dbb2d3b9de190481ba319e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:18 +0000
Subject: [PATCH 22/22] fix: contracts must refuse s1, s2 coefficients and
 hints outside [0, q)

falcon_checkPolynomialRange was never called and let q itself through: x and x + q
were two encodings of the same coefficient.
---
 src/ZKNOX_epervier.sol    | 5 +++++
 src/ZKNOX_ethepervier.sol | 5 +++++
 src/ZKNOX_falcon_core.sol | 3 ++-
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/ZKNOX_epervier.sol b/src/ZKNOX_epervier.sol
index d1e211d..1bf7b12 100644
--- a/src/ZKNOX_epervier.sol
+++ b/src/ZKNOX_epervier.sol
@@ -8,6 +8,7 @@ pragma solidity ^0.8.25;
 
 import {Test, console} from "forge-std/Test.sol";
 import "./ZKNOX_falcon_utils.sol";
+import "./ZKNOX_falcon_core.sol";
 import "./ZKNOX_NTT_falcon.sol";
 import "./ZKNOX_HashToPoint.sol";
 
@@ -41,6 +42,10 @@ contract ZKNOX_epervier {
 
         uint256[] memory s1 = _ZKNOX_NTT_Expand(cs1); //avoiding another memory declaration
         uint256[] memory s2 = _ZKNOX_NTT_Expand(cs2); //avoiding another memory declaration
+        // one encoding per coefficient and per hint
+        if (!falcon_checkPolynomialRange(s1, true)) revert("wrong s1 coefficient");
+        if (!falcon_checkPolynomialRange(s2, true)) revert("wrong s2 coefficient");
+        if (hint >= q) revert("wrong hint");
 
         // (s1,s2) must be short
         uint256 norm = 0;
diff --git a/src/ZKNOX_ethepervier.sol b/src/ZKNOX_ethepervier.sol
index 895a255..ced54e4 100644
--- a/src/ZKNOX_ethepervier.sol
+++ b/src/ZKNOX_ethepervier.sol
@@ -9,6 +9,7 @@ pragma solidity ^0.8.25;
 import {Test, console} from "forge-std/Test.sol";
 
 import "./ZKNOX_falcon_utils.sol";
+import "./ZKNOX_falcon_core.sol";
 import "./ZKNOX_NTT_falcon.sol";
 import "./ZKNOX_HashToPoint.sol";
 
@@ -40,6 +41,10 @@ contract ZKNOX_ethepervier {
 
         uint256[] memory s1 = _ZKNOX_NTT_Expand(cs1); //avoiding another memory declaration
         uint256[] memory s2 = _ZKNOX_NTT_Expand(cs2); //avoiding another memory declaration
+        // one encoding per coefficient and per hint
+        if (!falcon_checkPolynomialRange(s1, true)) revert("wrong s1 coefficient");
+        if (!falcon_checkPolynomialRange(s2, true)) revert("wrong s2 coefficient");
+        if (hint >= q) revert("wrong hint");
 
         // (s1,s2) must be short
         uint256 norm = 0;
diff --git a/src/ZKNOX_falcon_core.sol b/src/ZKNOX_falcon_core.sol
index 81e0f9c..a1e258b 100644
--- a/src/ZKNOX_falcon_core.sol
+++ b/src/ZKNOX_falcon_core.sol
@@ -28,7 +28,7 @@ function falcon_checkPolynomialRange(uint256[] memory polynomial, bool is_compac
         let ptr := add(a, 32)
         let endPtr := add(ptr, shl(5, len)) // len * 32
         for {} lt(ptr, endPtr) { ptr := add(ptr, 32) } {
-            if gt(mload(ptr), q) {
+            if iszero(lt(mload(ptr), q)) {
                 result := 0
                 ptr := endPtr // break
             }
@@ -110,6 +110,7 @@ function falcon_core(
 {
     if (hashed.length != 512) return false;
     if (s2.length != 32) return false; //"Invalid signature length"
+    if (!falcon_checkPolynomialRange(s2, false)) return false; // one encoding per coefficient
 
     result = false;
 
-- 
2.43.0

