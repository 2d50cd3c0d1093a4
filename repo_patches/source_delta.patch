From 94d2b73d863900facc306c8e06a52a7757d007dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:57 +0000
Subject: [PATCH 01/64] fix: draw EC private keys, ephemeral keys and ECDSA
 nonces from the system CSPRNG

---
 src/jwkest/ecc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index 2504ced..8bc90b4 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -14,9 +14,12 @@ from jwkest.elliptic import sign_bit
 from jwkest.elliptic import muladdp
 from jwkest.elliptic import y_from_x
 from jwkest.curves import get_curve
-from random import getrandbits
+from random import SystemRandom
 from math import ceil
 
+# private keys and nonces must come from a cryptographic source
+getrandbits = SystemRandom().getrandbits
+
 
 class ECCException(Exception):
     pass
-- 
2.43.0


From d3e16e8f7b417a70cc823d5724395b220bb22320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:15 +0000
Subject: [PATCH 02/64] fix: ECDSA verify rejects signatures of wrong length
 and the point at infinity

---
 src/jwkest/ecc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index 8bc90b4..09a8091 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -104,14 +104,18 @@ class NISTEllipticCurve(object):
     def verify(self, h, sig, pub):
         while h > self.N:
             h >>= 1
+        if len(sig) != 2 * self.bytes:
+            return False
         r = self.bytes2int(sig[:self.bytes])
         s = self.bytes2int(sig[self.bytes:])
         if 0 < r < self.N and 0 < s < self.N:
             w = inv(s, self.N)
             u1 = (h * w) % self.N
             u2 = (r * w) % self.N
-            x, y = muladdp(self.a, self.b, self.p, self.G, u1, pub, u2)
-            return r % self.N == x % self.N
+            point = muladdp(self.a, self.b, self.p, self.G, u1, pub, u2)
+            if point is None:  # the neutral element
+                return False
+            return r % self.N == point[0] % self.N
         return False
 
 
-- 
2.43.0


From 167ca4bbc457f6ff7d93dca2b6c76b0ec7694f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 03/64] fix: ECDSA truncates digests by bit length, not by
 comparing with the order

---
 src/jwkest/ecc.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index 09a8091..2651466 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -78,6 +78,12 @@ class NISTEllipticCurve(object):
     def dh_z(self, priv, pub):
         return self.int2bytes(mulp(self.a, self.b, self.p, pub, priv)[0])
 
+    # Keep as many of the digest's leftmost bits as the order has (FIPS 186)
+    def _leftmost_bits(self, h):
+        while h >> self.N.bit_length():
+            h >>= 1
+        return h
+
     def _sign_loop(self, r, s, h, k, priv):
         while r == 0 or s == 0:
             if k is None:
@@ -92,8 +98,7 @@ class NISTEllipticCurve(object):
 
     # ECDSA (adapted from ecdsa.py)
     def sign(self, h, priv, k=None):
-        while h > self.N:
-            h >>= 1
+        h = self._leftmost_bits(h)
 
         r = s = 0
 
@@ -102,8 +107,7 @@ class NISTEllipticCurve(object):
         return self.int2bytes(r) + self.int2bytes(s)
 
     def verify(self, h, sig, pub):
-        while h > self.N:
-            h >>= 1
+        h = self._leftmost_bits(h)
         if len(sig) != 2 * self.bytes:
             return False
         r = self.bytes2int(sig[:self.bytes])
-- 
2.43.0


From 82d61fb2e8c07893436cd5e862336e5cc4c73892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 04/64] fix: ECDSA signing draws a new nonce instead of looping
 forever on an unusable one

---
 src/jwkest/ecc.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index 2651466..470054e 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -87,13 +87,16 @@ class NISTEllipticCurve(object):
     def _sign_loop(self, r, s, h, k, priv):
         while r == 0 or s == 0:
             if k is None:
-                k = (getrandbits(self.bits) % (self.N - 1)) + 1
-            kinv = inv(k, self.N)
-            kg = mulp(self.a, self.b, self.p, self.G, k)
-            r = kg[0] % self.N
-            if r == 0:
-                continue
-            s = (kinv * (h + r * priv)) % self.N
+                nonce = (getrandbits(self.bits) % (self.N - 1)) + 1
+            else:
+                nonce = k
+            kinv = inv(nonce, self.N)
+            kg = mulp(self.a, self.b, self.p, self.G, nonce)
+            if kg is not None:
+                r = kg[0] % self.N
+                s = (kinv * (h + r * priv)) % self.N
+            if k is not None and (r == 0 or s == 0):
+                raise ECCException("Unusable nonce")
         return r, s
 
     # ECDSA (adapted from ecdsa.py)
-- 
2.43.0


From 5920ab3ffe3a3fcc21b5358927e128c211bec19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 05/64] fix: point doubling and addition handle points of order
 two

---
 src/jwkest/elliptic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/elliptic.py b/src/jwkest/elliptic.py
index 4c109db..8f7a383 100755
--- a/src/jwkest/elliptic.py
+++ b/src/jwkest/elliptic.py
@@ -150,12 +150,12 @@ def add(p, q, n, p1, p2):
         if (x1 - x2) % n:
             s = ((y1 - y2) * inv(x1 - x2, n)) % n   # slope
             x = (s * s - x1 - x2) % n               # intersection with curve
-            return x, n - (y1 + s * (x - x1)) % n
+            return x, -(y1 + s * (x - x1)) % n
         else:
             if (y1 + y2) % n:       # slope s calculated by derivation
                 s = ((3 * x1 * x1 - p) * inv(2 * y1, n)) % n
                 x = (s * s - 2 * x1) % n            # intersection with curve
-                return x, n - (y1 + s * (x - x1)) % n
+                return x, -(y1 + s * (x - x1)) % n
             else:
                 return None
     else:   # either p1 is not none -> ret. p1, otherwiese p2, which may be
@@ -208,6 +208,8 @@ def doublef(p, q, n, jp):
     if not jp:
         return None
     x1, y1, z1, z1p2, z1p3 = jp
+    if y1 % n == 0:         # a point of order two
+        return None
 
     y1p2 = (y1 * y1) % n
     a = (4 * x1 * y1p2) % n
-- 
2.43.0


From 6cbb309527e58ddb74761b079e1874f004b9075f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:52 +0000
Subject: [PATCH 06/64] fix: AES-GCM uses the content key at its own length and
 emits 16-octet tags

---
 src/jwkest/aes_gcm.py | 5 ++++-
 src/jwkest/jwe.py     | 6 +++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/jwkest/aes_gcm.py b/src/jwkest/aes_gcm.py
index bb158c7..a22a2f3 100755
--- a/src/jwkest/aes_gcm.py
+++ b/src/jwkest/aes_gcm.py
@@ -80,7 +80,10 @@ class AES_GCM(object):
         # if master_key >= (1 << 128):
         #    raise InvalidInputException('Master key should be 128-bit')
 
-        self._master_key = long_to_bytes(master_key, 16)
+        if isinstance(master_key, bytes):
+            self._master_key = master_key
+        else:
+            self._master_key = long_to_bytes(master_key, 16)
         self._aes_ecb = AES.new(self._master_key, AES.MODE_ECB)
         self._auth_key = bytes_to_long(self._aes_ecb.encrypt(b'\x00' * 16))
 
diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index a2e5885..bab709e 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -359,9 +359,9 @@ class JWe(JWx):
         key, iv = self._generate_key_and_iv(enc_alg, key, iv)
 
         if enc_alg in ["A192GCM", "A128GCM", "A256GCM"]:
-            gcm = AES_GCM(bytes_to_long(key))
+            gcm = AES_GCM(key)
             ctxt, tag = gcm.encrypt(bytes_to_long(iv), msg, auth_data)
-            tag = long_to_bytes(tag)
+            tag = long_to_bytes(tag, 16)
         elif enc_alg in ["A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512"]:
             assert enc_alg in SUPPORTED["enc"]
             ctxt, tag = aes_cbc_hmac_encrypt(key, iv, auth_data, msg)
@@ -383,7 +383,7 @@ class JWe(JWx):
         :return: plain text message or None if decryption failed
         """
         if enc in ["A128GCM", "A192GCM", "A256GCM"]:
-            gcm = AES_GCM(bytes_to_long(key))
+            gcm = AES_GCM(key)
             try:
                 text = gcm.decrypt(bytes_to_long(iv), ctxt, bytes_to_long(tag),
                                    auth_data)
-- 
2.43.0


From ca66391739a1e9651c48c0251189a8bbf3a6fb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:56 +0000
Subject: [PATCH 07/64] fix: JWE decryption requires content key, IV and tag of
 the prescribed length

---
 src/jwkest/jwe.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index bab709e..11e240c 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -382,7 +382,12 @@ class JWe(JWx):
         :param tag: Authentication tag
         :return: plain text message or None if decryption failed
         """
+        if enc in KEYLEN and len(key) * 8 != KEYLEN[enc]:
+            raise DecryptionFailed("Content encryption key of wrong length")
+
         if enc in ["A128GCM", "A192GCM", "A256GCM"]:
+            if len(iv) != 12 or len(tag) != 16:
+                raise DecryptionFailed("IV or tag of wrong length")
             gcm = AES_GCM(key)
             try:
                 text = gcm.decrypt(bytes_to_long(iv), ctxt, bytes_to_long(tag),
-- 
2.43.0


From 7cc924f63cb331028f151da314325283839d9346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:09 +0000
Subject: [PATCH 08/64] fix: ECDH-ES Concat KDF length-prefixes AlgorithmID
 (RFC 7518 section 4.6.2)

---
 src/jwkest/extra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/extra.py b/src/jwkest/extra.py
index 9777532..bfa2eab 100644
--- a/src/jwkest/extra.py
+++ b/src/jwkest/extra.py
@@ -176,7 +176,7 @@ def ecdh_derive_key(curve, key, epk, apu, apv, alg, dk_len):
     Z = curve.dh_z(key, epk)
     # Derive the key
     # AlgorithmID || PartyUInfo || PartyVInfo || SuppPubInfo
-    otherInfo = bytes(alg) + \
+    otherInfo = pack("!I", len(alg)) + bytes(alg) + \
         pack("!I", len(apu)) + apu + \
         pack("!I", len(apv)) + apv + \
         pack("!I", dk_len)
-- 
2.43.0


From b88aef7f12f757d849b4dc10fd061dfa6648d1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 09/64] fix: ECDH-ES decryption validates the ephemeral public
 key against the recipient's curve

---
 src/jwkest/jwe.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 11e240c..f45d9bf 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -28,6 +28,7 @@ from jwkest.aes_gcm import AES_GCM
 from jwkest.aes_key_wrap import aes_wrap_key
 from jwkest.aes_key_wrap import aes_unwrap_key
 from jwkest.ecc import NISTEllipticCurve
+from jwkest.elliptic import element
 from jwkest.extra import aes_cbc_hmac_encrypt
 from jwkest.extra import ecdh_derive_key
 from jwkest.extra import aes_cbc_hmac_decrypt
@@ -658,6 +659,14 @@ class JWE_EC(JWe):
                 "Ephemeral Public Key Missing in ECDH-ES Computation")
 
         epubkey = ECKey(**self.headers["epk"])
+        # The point must be on the curve of the recipient's key
+        curve = epubkey.curve
+        if curve.name() != key.curve.name() or not (
+                0 <= epubkey.x < curve.p and 0 <= epubkey.y < curve.p
+                and element((epubkey.x, epubkey.y), curve.a, curve.b,
+                            curve.p)):
+            raise DecryptionFailed("Invalid ephemeral public key")
+
         apu = apv = ""
         if "apu" in self.headers:
             apu = b64d(self.headers["apu"].encode())
-- 
2.43.0


From 656a19988ffed9706649f6e61418f980c4da9f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:56 +0000
Subject: [PATCH 10/64] fix: JWE.decrypt tries every usable key, whatever way
 the others fail

---
 src/jwkest/jwe.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index f45d9bf..12164d6 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -25,6 +25,7 @@ from jwkest import WrongNumberOfParts
 from jwkest import JWKESTException
 from jwkest import MissingKey
 from jwkest.aes_gcm import AES_GCM
+from jwkest.aes_gcm import InvalidTagException
 from jwkest.aes_key_wrap import aes_wrap_key
 from jwkest.aes_key_wrap import aes_unwrap_key
 from jwkest.ecc import NISTEllipticCurve
@@ -32,6 +33,7 @@ from jwkest.elliptic import element
 from jwkest.extra import aes_cbc_hmac_encrypt
 from jwkest.extra import ecdh_derive_key
 from jwkest.extra import aes_cbc_hmac_decrypt
+from jwkest.extra import VerificationFailure
 from jwkest.jwk import intarr2str, SYMKey
 from jwkest.jwk import ECKey
 from jwkest.jws import JWx
@@ -884,26 +886,33 @@ class JWE(JWx):
                 raise NoSuitableECDHKey(_alg)
 
             decrypter = JWE_EC(**self._dict)
-            cek = decrypter.dec_setup(jwe, key=keys[0])
         else:
             raise NotSupportedAlgorithm
 
-        if cek:
+        # What a key that is not the right one can lead to
+        failures = (KeyError, ValueError, TypeError, DecryptionFailed,
+                    InvalidTagException, VerificationFailure)
+
+        if cek and not isinstance(decrypter, JWE_EC):
             try:
                 msg = decrypter.decrypt(jwe, None, cek=cek)
                 self["cek"] = decrypter.cek if 'cek' in decrypter else None
-            except (KeyError, DecryptionFailed):
+            except failures:
                 pass
             else:
                 logger.debug("Decrypted message using exiting CEK")
                 return msg
 
         for key in keys:
-            _key = key.encryption_key(alg=_alg, private=False)
             try:
-                msg = decrypter.decrypt(jwe, _key)
+                if isinstance(decrypter, JWE_EC):
+                    decrypter.dec_setup(jwe, key=key)
+                    msg = decrypter.decrypt(jwe)
+                else:
+                    _key = key.encryption_key(alg=_alg, private=False)
+                    msg = decrypter.decrypt(jwe, _key)
                 self["cek"] = decrypter.cek if 'cek' in decrypter else None
-            except (KeyError, DecryptionFailed):
+            except failures:
                 pass
             else:
                 logger.debug(
-- 
2.43.0


From fa2d81f32cfe6a0f50eed2bab8fed0b3511e5b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 11/64] fix: JWE_RSA and JWE_EC reject tokens that do not have
 five parts

---
 src/jwkest/jwe.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 12164d6..86fd32a 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -547,6 +547,9 @@ class JWE_RSA(JWe):
         else:
             jwe = token
 
+        if len(jwe) != 5:
+            raise WrongNumberOfParts(len(jwe))
+
         self.jwt = jwe.encrypted_key()
         jek = jwe.encrypted_key()
 
@@ -650,6 +653,9 @@ class JWE_EC(JWe):
 
     def dec_setup(self, token, key=None, **kwargs):
 
+        if len(token) != 5:
+            raise WrongNumberOfParts(len(token))
+
         self.headers = token.headers
         self.iv = token.initialization_vector()
         self.ctxt = token.ciphertext()
-- 
2.43.0


From 26206cb022cf7767a408b9ed34526029485255a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:08 +0000
Subject: [PATCH 12/64] fix: JWE_SYM encrypts byte strings

---
 src/jwkest/jwe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 86fd32a..f3e006d 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -445,7 +445,7 @@ class JWE_SYM(JWe):
 
         _enc = self["enc"]
 
-        ctxt, tag, cek = self.enc_setup(_enc, _msg.encode(),
+        ctxt, tag, cek = self.enc_setup(_enc, as_bytes(_msg),
                                         jwe.b64_encode_header(),
                                         cek, iv=iv)
         return jwe.pack(parts=[jek, iv, ctxt, tag])
-- 
2.43.0


From 640d82f716a2af80e6896a36077d2d96be3cb63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 13/64] fix: symmetric keys built from key material compare by
 that material

---
 src/jwkest/jwk.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 32891c7..00ff526 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -676,6 +676,8 @@ class SYMKey(Key):
             if isinstance(self.k, str):
                 self.k = self.k.encode("utf-8")
             self.key = b64d(bytes(self.k))
+        if self.key:  # one representation, however the key was given
+            self.k = b64e(bytes(self.key))
 
     def deserialize(self):
         if self.k:
-- 
2.43.0


From bd9c3728a90b09304b73d32f98f9a574382399e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:40 +0000
Subject: [PATCH 14/64] fix: RSAKey no longer adds its members to the base
 class's lists

---
 src/jwkest/jwk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 00ff526..05997bc 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -412,10 +412,10 @@ class RSAKey(Key):
     """
     JSON Web key representation of a RSA key
     """
-    members = Key.members
+    members = Key.members[:]
     members.extend(["n", "e", "d", "p", "q"])
     longs = ["n", "e", "d", "p", "q", "dp", "dq", "di", "qi"]
-    public_members = Key.public_members
+    public_members = Key.public_members[:]
     public_members.extend(["n", "e"])
     required = ['kty', 'n', 'e']
 
-- 
2.43.0


From 16901f8bce74212a800bfd5d650ad07c2c7d44f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 15/64] fix: make_public_copy returns a usable public key

---
 src/jwkest/jwk.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 05997bc..d4ba928 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -940,4 +940,10 @@ def make_public_copy(key):
         else:
             setattr(c, attr, v)
 
+    # the native representation, without anything private
+    if isinstance(c, RSAKey) and c.n and c.e:
+        c.key = RSA.construct((c.n, c.e))
+    elif isinstance(c, ECKey):
+        c.curve = key.curve
+
     return c
-- 
2.43.0


From b844d3a6361a329e5ec40ea8ffe012d448ca08c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:48 +0000
Subject: [PATCH 16/64] fix: an ECKey knows its curve's name however it was
 built

---
 src/jwkest/jwk.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index d4ba928..6353b22 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -570,7 +570,7 @@ class ECKey(Key):
     def __init__(self, kty="EC", alg="", use="", kid="", key=None,
             crv="", x="", y="", d="", curve=None, **kwargs):
         Key.__init__(self, kty, alg, use, kid, key, **kwargs)
-        self.crv = crv
+        self.crv = as_unicode(crv)
         self.x = x
         self.y = y
         self.d = d
@@ -585,6 +585,9 @@ class ECKey(Key):
             if not self.crv and not self.curve:
                 self.load_key(key)
 
+        if self.curve and not self.crv:
+            self.crv = self.curve.name()
+
     def deserialize(self):
         """
         Starting with information gathered from the on-the-wire representation
@@ -641,6 +644,7 @@ class ECKey(Key):
 
     def load_key(self, key):
         self.curve = key
+        self.crv = key.name()
         self.d, (self.x, self.y) = key.key_pair()
         return self
 
-- 
2.43.0


From cf523affcc37f454460dd59be7224e78acf86ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 17/64] fix: RSA JWKs with x5c and x5t can be imported from
 JSON

---
 src/jwkest/jwk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 6353b22..7d8cd4e 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -469,10 +469,10 @@ class RSAKey(Key):
             except ValueError as err:
                 raise DeSerializationNotPossible("%s" % err)
         elif self.x5c:
-            der_cert = base64.b64decode(self.x5c[0].encode("ascii"))
+            der_cert = base64.b64decode(as_bytes(self.x5c[0]))
 
             if self.x5t:  # verify the cert
-                if not b64d(self.x5t.encode("ascii")) == hashlib.sha1(
+                if not b64d(as_bytes(self.x5t)) == hashlib.sha1(
                         der_cert).digest():
                     raise DeSerializationNotPossible(
                         "The thumbprint ('x5t') does not match the "
-- 
2.43.0


From a7ecd6c9d95cbcab5f447ff4b138db32df9aa0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:57 +0000
Subject: [PATCH 18/64] fix: EC JWK members have the full width of the field,
 and zero can be encoded

---
 src/jwkest/__init__.py | 6 ++++--
 src/jwkest/jwk.py      | 6 +++---
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/jwkest/__init__.py b/src/jwkest/__init__.py
index 97f197b..b78b590 100644
--- a/src/jwkest/__init__.py
+++ b/src/jwkest/__init__.py
@@ -102,11 +102,13 @@ def long2intarr(long_int):
     return _bytes
 
 
-def long_to_base64(n):
+def long_to_base64(n, mlen=0):
     bys = long2intarr(n)
+    if len(bys) < mlen:
+        bys = [0] * (mlen - len(bys)) + bys
     data = struct.pack('%sB' % len(bys), *bys)
     if not len(data):
-        data = '\x00'
+        data = b'\x00'
     s = base64.urlsafe_b64encode(data).rstrip(b'=')
     return s.decode("ascii")
 
diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 7d8cd4e..378d6ae 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -633,12 +633,12 @@ class ECKey(Key):
         res = self.common()
         res.update({
             "crv": self.curve.name(),
-            "x": long_to_base64(self.x),
-            "y": long_to_base64(self.y)
+            "x": long_to_base64(self.x, self.curve.bytes),
+            "y": long_to_base64(self.y, self.curve.bytes)
         })
 
         if private and self.d:
-            res["d"] = long_to_base64(self.d)
+            res["d"] = long_to_base64(self.d, self.curve.bytes)
 
         return res
 
-- 
2.43.0


From 754607f9e430383ffa097bb3cf02916e7d3e8fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:03 +0000
Subject: [PATCH 19/64] fix: hashing a key does not give it a kid

---
 src/jwkest/jwk.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 378d6ae..a3a6872 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -392,10 +392,7 @@ class Key(object):
 
     def __hash__(self):
         if not self._hash:
-            if self.kid:
-                self.get_hash()
-            else:
-                self.add_kid()
+            self.get_hash()
         return self._hash
 
 
-- 
2.43.0


From 7243dbcf28941519657b7f49cd9f650f445c4ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 20/64] fix: x5t and x5u compare equal whether given as text or
 as bytes

---
 src/jwkest/jwk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index a3a6872..39ae67d 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -271,8 +271,8 @@ class Key(object):
             self.kid = as_unicode(kid)
 
         self.x5c = x5c or []
-        self.x5t = x5t
-        self.x5u = x5u
+        self.x5t = as_unicode(x5t)
+        self.x5u = as_unicode(x5u)
         self.inactive_since = 0
         self._hash = None
 
-- 
2.43.0


From 36f3a57bcab44d021be61a66eb0ec69f6dac7252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 21/64] fix: JWK integers that are not base64url are refused
 instead of misread

---
 src/jwkest/jwk.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 39ae67d..0cab8f5 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -21,6 +21,7 @@ from jwkest import as_unicode
 from jwkest import base64_to_long
 from jwkest import base64url_to_long
 from jwkest import long_to_base64
+from jwkest import BadSyntax
 from jwkest import JWKESTException
 from jwkest import b64d
 from jwkest import b64e
@@ -402,6 +403,10 @@ def deser(val):
     else:
         _val = val
 
+    try:
+        b64d(_val)  # refuses anything that is not base64url
+    except BadSyntax as err:
+        raise ValueError(str(err))
     return base64_to_long(_val)
 
 
-- 
2.43.0


From 9e9cd2ef7aa1b02bc022a449f4d73203d438464f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:49 +0000
Subject: [PATCH 22/64] fix: b64d raises BadSyntax for a trailing newline and
 for wrong padding

---
 src/jwkest/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/__init__.py b/src/jwkest/__init__.py
index b78b590..0ed9ca0 100644
--- a/src/jwkest/__init__.py
+++ b/src/jwkest/__init__.py
@@ -147,7 +147,7 @@ def b64e(b):
     return base64.urlsafe_b64encode(b).rstrip(b"=")
 
 
-_b64_re = re.compile(b"^[A-Za-z0-9_-]*$")
+_b64_re = re.compile(b"^[A-Za-z0-9_-]*\\Z")
 
 
 def add_padding(b):
@@ -182,7 +182,10 @@ def b64d(b):
     if cb == b:
         b = add_padding(b)
 
-    return base64.urlsafe_b64decode(b)
+    try:
+        return base64.urlsafe_b64decode(b)
+    except Exception:  # TypeError or binascii.Error, depending on version
+        raise BadSyntax(b, "incorrect padding")
 
 
 def b64e_enc_dec(str, encode="utf-8", decode="ascii"):
-- 
2.43.0


From cf8542bb9cd0918180f0585fa8ac1ef6cdb0e1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 23/64] fix: signing does not write into the caller's header
 dictionary

---
 src/jwkest/jws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 87e3038..348c3f7 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -455,7 +455,7 @@ class JWS(JWx):
         else:
             keys = self.pick_keys(self._get_keys(), use=use, alg=_alg)
 
-        xargs = protected or {}
+        xargs = dict(protected or {})
         xargs["alg"] = _alg
 
         if keys:
-- 
2.43.0


From c24555d507544ec185c6c643594eacf06e84a522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:59 +0000
Subject: [PATCH 24/64] fix: crit given to a constructor is not stored as x5c

---
 src/jwkest/jws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 348c3f7..f5c35d7 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -292,7 +292,7 @@ class JWx(object):
                     else:
                         self._dict["jwk"] = _val
                 elif key == "x5c" or key == "crit":
-                    self._dict["x5c"] = _val or []
+                    self._dict[key] = _val or []
                 else:
                     self._dict[key] = _val
 
-- 
2.43.0


From f4c4d732dac8d91c04b3ee97be4a47f3749e954f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 25/64] fix: allow_none does not override an algorithm the
 caller demands

---
 src/jwkest/jws.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index f5c35d7..57928d6 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -538,6 +538,9 @@ class JWS(JWx):
             _alg = None
         else:
             if _alg is None or _alg.lower() == "none":
+                for expected in (self._dict.get("alg"), sigalg):
+                    if expected and expected.lower() != "none":
+                        raise SignerAlgError("Wrong signing algorithm")
                 if allow_none:
                     self.msg = jwt.payload()
                     return {'msg': self.msg}
-- 
2.43.0


From cdc0cd1dc0ea507fcecc08968d4c6eda8aedf9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 26/64] fix: a JWS with a missing or unknown algorithm is
 refused as such

---
 src/jwkest/jws.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 57928d6..6c13abb 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -555,6 +555,9 @@ class JWS(JWx):
             raise SignerAlgError("Expected {0} got {1}".format(
                 sigalg, jwt.headers["alg"]))
 
+        if _alg not in SIGNER_ALGS:
+            raise UnknownAlgorithm(_alg)
+
         self["alg"] = _alg
 
         if keys:
-- 
2.43.0


From 7afb68e972072092b6e4c1b519ad15813e02361d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:30 +0000
Subject: [PATCH 27/64] fix: tokens with critical header parameters that are
 not understood are rejected

---
 src/jwkest/jwe.py | 3 +++
 src/jwkest/jws.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index f3e006d..409c3af 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -868,6 +868,9 @@ class JWE(JWx):
         elif self.jwt:
             jwe = self.jwt
 
+        if "crit" in jwe.headers:  # no extensions are understood
+            raise MethodNotSupported("Unsupported critical header parameters")
+
         _alg = jwe.headers["alg"]
         if alg and alg != _alg:
             raise WrongEncryptionAlgorithm()
diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 6c13abb..b3dfee4 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -532,6 +532,9 @@ class JWS(JWx):
 
         self.jwt = jwt
 
+        if "crit" in jwt.headers:  # no extensions are understood
+            raise FormatError("Unsupported critical header parameters")
+
         try:
             _alg = jwt.headers["alg"]
         except KeyError:
-- 
2.43.0


From 1cbf65d74f5206e67e87830a4a533fe5823bbeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:05 +0000
Subject: [PATCH 28/64] fix: verify_json needs a signature, enforces the
 object's algorithm and keeps no headers of the document

---
 src/jwkest/jws.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index b3dfee4..237b0c5 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -664,7 +664,14 @@ class JWS(JWx):
                     signature[key] = _jwss[key]
             _signs = [signature]
 
-        _claim = None
+        if not _signs:
+            raise FormatError("No signatures")
+
+        _pinned = self._dict.get("alg")
+        if _pinned and _pinned.lower() == "none":
+            _pinned = None
+
+        _claim = verifier = None
         for _sign in _signs:
             protected_headers = _sign.get("protected", "")
             token = b".".join([protected_headers.encode(), _payload.encode(),
@@ -674,14 +681,22 @@ class JWS(JWx):
             all_headers = unprotected_headers.copy()
             all_headers.update(
                 json.loads(b64d_enc_dec(protected_headers) or {}))
-            self.__init__(**all_headers)
+            # One verifier per signature, so that nothing one signature (or
+            # an earlier document) carries is used for another
+            verifier = self.__class__(**all_headers)
+
+            _tmp = verifier.verify_compact(token, keys, allow_none, sigalg)
+            if _pinned and verifier.jwt.headers.get("alg") != _pinned:
+                raise SignerAlgError("Wrong signing algorithm")
 
-            _tmp = self.verify_compact(token, keys, allow_none, sigalg)
             if _claim is None:
                 _claim = _tmp
             else:
                 assert _claim == _tmp
 
+        self.msg = _claim
+        self.jwt = verifier.jwt
+        self.key = getattr(verifier, "key", None)
         return _claim
 
     def is_jws(self, jws):
-- 
2.43.0


From eb7bfe4ae3897b3fe531d7068957df211aa4f72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:23 +0000
Subject: [PATCH 29/64] fix: ECDSA algorithms use only keys on their own curve

---
 src/jwkest/jws.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 237b0c5..5b5d429 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -446,7 +446,18 @@ class JWx(object):
         return dict([(x, self._dict[x]) for x in self.args if x in self._dict])
 
 
+# The curve each ECDSA algorithm is defined for
+ES_CURVE = {"ES256": "P-256", "ES384": "P-384", "ES512": "P-521"}
+
+
 class JWS(JWx):
+    def pick_keys(self, keys, use="", alg=""):
+        pkey = super(JWS, self).pick_keys(keys, use=use, alg=alg)
+        crv = ES_CURVE.get(alg or self["alg"])
+        if crv:
+            pkey = [k for k in pkey if k.curve and k.curve.name() == crv]
+        return pkey
+
     def alg_keys(self, keys, use, protected=None):
         _alg = self._pick_alg(keys)
 
-- 
2.43.0


From 805814c06c5ce53c9bceeb5a12b6645b6517266d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:27 +0000
Subject: [PATCH 30/64] fix: ECDH-ES encryption works with a public key

---
 src/jwkest/jwe.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 409c3af..b564b7b 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -837,10 +837,8 @@ class JWE(JWx):
 
         for key in keys:
             if isinstance(encrypter, JWE_EC):
-                if self.enc:
-                    _key = key.encryption_key(alg=self.enc, private=True)
-                else:
-                    _key = key.encryption_key(alg=_alg, private=True)
+                # only the recipient's public key is needed
+                _key = key.encryption_key(alg=_alg, private=False)
             else:
                 _key = key.encryption_key(alg=_alg, private=True)
 
-- 
2.43.0


From bdfcebd97201d1b77d18601eb5e6c71b0ba7ffdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 31/64] fix: ECDH-ES key wrapping does not reuse the content
 key of an earlier operation

---
 src/jwkest/jwe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index b564b7b..871b936 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -821,8 +821,10 @@ class JWE(JWx):
                 raise NoSuitableECDHKey(_alg)
 
             encrypter = JWE_EC(**self._dict)
+            # never the content key of an earlier message
+            _args = dict(self._dict, cek=cek, iv=iv)
             cek, encrypted_key, iv, params, eprivk = encrypter.enc_setup(
-                self.msg, self._dict, key=keys[0], **self._dict)
+                self.msg, self._dict, key=keys[0], **_args)
             kwargs["encrypted_key"] = encrypted_key
             kwargs["params"] = params
         else:
-- 
2.43.0


From 34c1c7e0e4ffca59c86fb1367d3e1c4b9dc1e4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 32/64] fix: zip DEF is raw DEFLATE (RFC 7516 section 4.1.3),
 not zlib format

---
 src/jwkest/jwe.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 871b936..a8bd938 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -324,6 +324,16 @@ class JWEnc(JWT):
         return len(self.part)
 
 
+def deflate(msg):
+    """Raw DEFLATE (RFC 1951) as the zip value DEF prescribes"""
+    _obj = zlib.compressobj(wbits=-zlib.MAX_WBITS)
+    return _obj.compress(msg) + _obj.flush()
+
+
+def inflate(msg):
+    return zlib.decompress(msg, -zlib.MAX_WBITS)
+
+
 class JWe(JWx):
     @staticmethod
     def _generate_key_and_iv(encalg, cek="", iv=""):
@@ -479,7 +489,7 @@ class JWE_SYM(JWe):
             jwe.initialization_vector(), jwe.authentication_tag())
 
         if "zip" in self and self["zip"] == "DEF":
-            msg = zlib.decompress(msg)
+            msg = inflate(msg)
 
         return msg
 
@@ -502,7 +512,7 @@ class JWE_RSA(JWe):
         _msg = as_bytes(self.msg)
         if "zip" in self:
             if self["zip"] == "DEF":
-                _msg = zlib.compress(_msg)
+                _msg = deflate(_msg)
             else:
                 raise ParameterError("Zip has unknown value: %s" % self["zip"])
 
@@ -580,7 +590,7 @@ class JWE_RSA(JWe):
                             jwe.authentication_tag())
 
         if "zip" in jwe.headers and jwe.headers["zip"] == "DEF":
-            msg = zlib.decompress(msg)
+            msg = inflate(msg)
 
         return msg
 
-- 
2.43.0


From 14197fcfebabe585464f606fc192a0d7c69125d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:28 +0000
Subject: [PATCH 33/64] fix: every JWE algorithm honours the zip header
 parameter

---
 src/jwkest/jwe.py | 47 +++++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index a8bd938..e29e9c7 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -326,7 +326,8 @@ class JWEnc(JWT):
 
 def deflate(msg):
     """Raw DEFLATE (RFC 1951) as the zip value DEF prescribes"""
-    _obj = zlib.compressobj(wbits=-zlib.MAX_WBITS)
+    _obj = zlib.compressobj(zlib.Z_DEFAULT_COMPRESSION, zlib.DEFLATED,
+                            -zlib.MAX_WBITS)
     return _obj.compress(msg) + _obj.flush()
 
 
@@ -335,6 +336,22 @@ def inflate(msg):
 
 
 class JWe(JWx):
+    @staticmethod
+    def _compress(msg, zip_alg):
+        if not zip_alg:
+            return msg
+        elif zip_alg == "DEF":
+            return deflate(msg)
+        raise ParameterError("Zip has unknown value: %s" % zip_alg)
+
+    @staticmethod
+    def _decompress(msg, zip_alg):
+        if not zip_alg:
+            return msg
+        elif zip_alg == "DEF":
+            return inflate(msg)
+        raise ParameterError("Zip has unknown value: %s" % zip_alg)
+
     @staticmethod
     def _generate_key_and_iv(encalg, cek="", iv=""):
         if cek and iv:
@@ -416,7 +433,7 @@ class JWe(JWx):
 
 class JWE_SYM(JWe):
     args = JWe.args[:]
-    args.append("enc")
+    args.extend(["enc", "zip"])
 
     def encrypt(self, key, iv="", cek="", **kwargs):
         """
@@ -427,7 +444,7 @@ class JWE_SYM(JWe):
         :param kwargs: Extra keyword arguments, just ignore for now.
         :return:
         """
-        _msg = self.msg
+        _msg = self._compress(as_bytes(self.msg), self._dict.get("zip"))
 
         _args = self._dict
         try:
@@ -455,7 +472,7 @@ class JWE_SYM(JWe):
 
         _enc = self["enc"]
 
-        ctxt, tag, cek = self.enc_setup(_enc, as_bytes(_msg),
+        ctxt, tag, cek = self.enc_setup(_enc, _msg,
                                         jwe.b64_encode_header(),
                                         cek, iv=iv)
         return jwe.pack(parts=[jek, iv, ctxt, tag])
@@ -488,10 +505,7 @@ class JWE_SYM(JWe):
             jwe.b64_protected_header(),
             jwe.initialization_vector(), jwe.authentication_tag())
 
-        if "zip" in self and self["zip"] == "DEF":
-            msg = inflate(msg)
-
-        return msg
+        return self._decompress(msg, jwe.headers.get("zip"))
 
 
 class JWE_RSA(JWe):
@@ -509,12 +523,7 @@ class JWE_RSA(JWe):
         :return: A jwe
         """
 
-        _msg = as_bytes(self.msg)
-        if "zip" in self:
-            if self["zip"] == "DEF":
-                _msg = deflate(_msg)
-            else:
-                raise ParameterError("Zip has unknown value: %s" % self["zip"])
+        _msg = self._compress(as_bytes(self.msg), self._dict.get("zip"))
 
         kwarg_cek = cek or None
 
@@ -589,15 +598,12 @@ class JWE_RSA(JWe):
                             jwe.initialization_vector(),
                             jwe.authentication_tag())
 
-        if "zip" in jwe.headers and jwe.headers["zip"] == "DEF":
-            msg = inflate(msg)
-
-        return msg
+        return self._decompress(msg, jwe.headers.get("zip"))
 
 
 class JWE_EC(JWe):
     args = JWe.args[:]
-    args.append("enc")
+    args.extend(["enc", "zip"])
 
     def enc_setup(self, msg, auth_data, key=None, **kwargs):
 
@@ -715,7 +721,7 @@ class JWE_EC(JWe):
 
     def encrypt(self, key, iv="", cek="", **kwargs):
 
-        _msg = as_bytes(self.msg)
+        _msg = self._compress(as_bytes(self.msg), self._dict.get("zip"))
         _args = self._dict
         try:
             _args["kid"] = kwargs["kid"]
@@ -752,6 +758,7 @@ class JWE_EC(JWe):
                                            self.ctxt,
                                            jwe.b64part[0],
                                            self.iv, self.tag)
+        msg = self._decompress(msg, jwe.headers.get("zip"))
         self.msg = msg
         self.msg_valid = True
         return msg
-- 
2.43.0


From 8d0c4d575078f9622e75602a83cfb4bcfb5ac671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:34 +0000
Subject: [PATCH 34/64] fix: PKCS5 padding is checked in full

---
 src/jwkest/extra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/extra.py b/src/jwkest/extra.py
index bfa2eab..09ab2b6 100644
--- a/src/jwkest/extra.py
+++ b/src/jwkest/extra.py
@@ -53,7 +53,7 @@ def pkcs5trim(x):
     n = unpack('B', x[-1:])[0]
     # Should never have more than 16 bytes of padding
     # ... since we're only using this with AES
-    if n > 16:
+    if not 1 <= n <= 16 or x[-n:] != x[-1:] * n:
         raise Exception("Mal-formed PKCS#5 padding")
     return x[:-n]
 
-- 
2.43.0


From d358c7123e58e5b4a69cd1e416ed3d7af8ad39da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:38 +0000
Subject: [PATCH 35/64] fix: sign_json accepts the payloads sign_compact does

---
 src/jwkest/jws.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 5b5d429..4b114d5 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -27,7 +27,6 @@ from jwkest import b64d
 from jwkest import as_unicode
 from jwkest import WrongNumberOfParts
 from jwkest import b64d_enc_dec
-from jwkest import b64e_enc_dec
 from jwkest import b64e
 from jwkest import constant_time_compare
 from jwkest import safe_str_cmp
@@ -633,7 +632,7 @@ class JWS(JWx):
 
             return signature_entry
 
-        res = {"payload": b64e_enc_dec(self.msg, "utf-8", "ascii")}
+        res = {"payload": as_unicode(b64encode_item(self.msg))}
 
         if headers is None:
             headers = [(dict(alg=self.alg), None)]
-- 
2.43.0


From b78878728da67761c8f01ffb4d6f7e268a614237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:42 +0000
Subject: [PATCH 36/64] fix: is_jws answers False, without an error, for JSON
 and tokens that are no JWS

---
 src/jwkest/jws.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 4b114d5..81b93e6 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -731,6 +731,8 @@ class JWS(JWx):
     def _is_json_serialized_jws(self, json_jws):
         json_ser_keys = set(["payload", "signatures"])
         flattened_json_ser_keys = set(["payload", "signature"])
+        if not isinstance(json_jws, dict):
+            return False
         if not json_ser_keys.issubset(
                 json_jws.keys()) and not flattened_json_ser_keys.issubset(
                 json_jws.keys()):
@@ -744,7 +746,8 @@ class JWS(JWx):
             return False
 
         try:
-            assert "alg" in jwt.headers
+            assert len(jwt) == 3
+            assert isinstance(jwt.headers, dict) and "alg" in jwt.headers
         except AssertionError:
             return False
         else:
@@ -753,7 +756,7 @@ class JWS(JWx):
 
             try:
                 assert jwt.headers["alg"] in SIGNER_ALGS
-            except AssertionError:
+            except (AssertionError, TypeError):
                 logger.debug("UnknownSignerAlg: %s" % jwt.headers["alg"])
                 return False
             else:
-- 
2.43.0


From d134c01869d46a4f0bd01b2a2340ad848c7c64a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:02 +0000
Subject: [PATCH 37/64] fix: a token that does not have five parts is no JWE

---
 src/jwkest/jwe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index e29e9c7..85a13c8 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -303,6 +303,9 @@ class JWEnc(JWT):
         return b64encode_item(self.headers)
 
     def is_jwe(self):
+        if len(self) != 5:
+            return False
+
         if "typ" in self.headers and self.headers["typ"].lower() == "jwe":
             return True
 
-- 
2.43.0


From b3d19219f47064965ede23c27b36429730d450c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:30 +0000
Subject: [PATCH 38/64] fix: the key of a version 1 certificate is found

---
 src/jwkest/jwk.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 0cab8f5..62584ce 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -116,7 +116,11 @@ def der2rsa(der):
     cert.decode(der)
     tbs_certificate = DerSequence()
     tbs_certificate.decode(cert[0])
-    subject_public_key_info = tbs_certificate[6]
+    # The explicit version number is absent in version 1 certificates
+    if isinstance(tbs_certificate[0], bytes):
+        subject_public_key_info = tbs_certificate[6]
+    else:
+        subject_public_key_info = tbs_certificate[5]
 
     # Initialize RSA key
     return RSA.importKey(subject_public_key_info)
-- 
2.43.0


From 2b33d90d191b01f20e4c5de5d10dcacb40885bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:56 +0000
Subject: [PATCH 39/64] fix: ECDH-ES key wrapping derives its key with the full
 alg value as AlgorithmID

---
 src/jwkest/jwe.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 85a13c8..b896b48 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -663,7 +663,7 @@ class JWE_EC(JWe):
             _pre, _post = self.alg.split("+")
             klen = int(_post[1:4])
             kek = ecdh_derive_key(curve, epk.d, (key.x, key.y), apu, apv,
-                                  str(_post).encode(), klen)
+                                  str(self.alg).encode(), klen)
             encrypted_key = aes_wrap_key(kek, cek)
         else:
             raise Exception("Unsupported algorithm %s" % self.alg)
@@ -715,7 +715,8 @@ class JWE_EC(JWe):
             _pre, _post = self.headers['alg'].split("+")
             klen = int(_post[1:4])
             kek = ecdh_derive_key(epubkey.curve, key.d, (epubkey.x, epubkey.y),
-                                  apu, apv, str(_post).encode(), klen)
+                                  apu, apv, str(self.headers["alg"]).encode(),
+                                  klen)
             self.cek = aes_unwrap_key(kek, token.encrypted_key())
         else:
             raise Exception("Unsupported algorithm %s" % self.headers["alg"])
-- 
2.43.0


From 96e7f0eb36a6662b59fdf12b6ba90a107aa5f20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 40/64] fix: ECDH-ES tokens without apu and apv can be
 decrypted

---
 src/jwkest/jwe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index b896b48..9ffe8b1 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -694,7 +694,7 @@ class JWE_EC(JWe):
                             curve.p)):
             raise DecryptionFailed("Invalid ephemeral public key")
 
-        apu = apv = ""
+        apu = apv = b""
         if "apu" in self.headers:
             apu = b64d(self.headers["apu"].encode())
         if "apv" in self.headers:
-- 
2.43.0


From cc38c55599b68d067a2d792628f64a5ed0b03c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:16 +0000
Subject: [PATCH 41/64] fix: ECDH-ES in direct mode rejects tokens with an
 encrypted key

---
 src/jwkest/jwe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 9ffe8b1..7a8f588 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -706,6 +706,9 @@ class JWE_EC(JWe):
             except KeyError:
                 raise Exception("Unknown key length for algorithm")
 
+            if token.encrypted_key():
+                raise DecryptionFailed("Encrypted key must be empty")
+
             self.cek = ecdh_derive_key(epubkey.curve, key.d,
                                        (epubkey.x, epubkey.y), apu, apv,
                                        str(self.headers["enc"]).encode(),
-- 
2.43.0


From 0ad71970cfd5e8d4678490d860f6580e6e793f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:38 +0000
Subject: [PATCH 42/64] fix: EC private keys imported through keyrep or a JWKS
 keep their private value

---
 src/jwkest/jwk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 62584ce..9b171c5 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -615,7 +615,7 @@ class ECKey(Key):
         self.curve = NISTEllipticCurve.by_name(self.crv)
         if self.d:
             try:
-                if isinstance(self.d, six.string_types):
+                if not isinstance(self.d, six.integer_types):
                     self.d = deser(self.d)
             except ValueError as err:
                 raise DeSerializationNotPossible(str(err))
-- 
2.43.0


From 87b8ab1cadfc1ff07df67e63ca1f0503855ee31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:03 +0000
Subject: [PATCH 43/64] fix: AES key unwrap refuses wrapped keys of a wrong
 length

---
 src/jwkest/aes_key_wrap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jwkest/aes_key_wrap.py b/src/jwkest/aes_key_wrap.py
index 0e09c09..641b55b 100644
--- a/src/jwkest/aes_key_wrap.py
+++ b/src/jwkest/aes_key_wrap.py
@@ -46,6 +46,8 @@ def aes_unwrap_key_and_iv(kek, wrapped, mode=MODE_ECB):
 
 
 def aes_unwrap_key(kek, wrapped, iv=0xa6a6a6a6a6a6a6a6):
+    if len(wrapped) % 8 or len(wrapped) < 24:
+        raise ValueError("Not a wrapped key: wrong length")
     key, key_iv = aes_unwrap_key_and_iv(kek, wrapped)
     if key_iv != iv:
         raise ValueError(
@@ -65,6 +67,8 @@ def aes_unwrap_key_withpad(kek, wrapped):
 
 
 def aes_wrap_key(kek, plaintext, iv=0xa6a6a6a6a6a6a6a6, mode=MODE_ECB):
+    if len(plaintext) % 8:
+        raise ValueError("Can only wrap a multiple of 8 octets")
     n = len(plaintext) // 8
     r = [None] + [plaintext[i * 8:i * 8 + 8] for i in range(0, n)]
     a = iv
-- 
2.43.0


From 4cbb256f669b99d9f149cb6bd166604f7d827f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:49 +0000
Subject: [PATCH 44/64] fix: JWE decryption with a given content key refuses
 unsupported alg values

---
 src/jwkest/jwe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 7a8f588..ff1e5b7 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -899,6 +899,9 @@ class JWE(JWx):
         if alg and alg != _alg:
             raise WrongEncryptionAlgorithm()
 
+        if _alg not in SUPPORTED["alg"]:
+            raise NotSupportedAlgorithm(_alg)
+
         # Find appropriate keys
         if keys:
             keys = self.pick_keys(keys, use="enc", alg=_alg)
-- 
2.43.0


From 80a1ae2182aa1c07744fb6629d3eafa31fe3b757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:40 +0000
Subject: [PATCH 45/64] fix: gen_symkey draws keys from the system CSPRNG

---
 script/gen_symkey.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/script/gen_symkey.py b/script/gen_symkey.py
index 4a2cbb4..93e7b63 100755
--- a/script/gen_symkey.py
+++ b/script/gen_symkey.py
@@ -11,7 +11,9 @@ __author__ = 'regu0004'
 
 
 def rndstr(size=6, chars=string.ascii_uppercase + string.digits):
-    return ''.join(random.choice(chars) for _ in range(size))
+    # a key has to come from a cryptographic source
+    choice = random.SystemRandom().choice
+    return ''.join(choice(chars) for _ in range(size))
 
 
 def main():
-- 
2.43.0


From 900199c0bcdbf3f347b000e9aa429eb9c3bd82bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:19 +0000
Subject: [PATCH 46/64] fix: an RSA key loaded over another leaves nothing of
 the former behind

---
 src/jwkest/jwk.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 9b171c5..5a57d45 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -517,6 +517,11 @@ class RSAKey(Key):
         if not self.key:
             raise SerializationNotPossible()
 
+        # nothing of a key held before may remain
+        for param in self.longs:
+            setattr(self, param, "")
+        self._hash = None
+
         self.n = self.key.n
         self.e = self.key.e
         try:
@@ -652,6 +657,7 @@ class ECKey(Key):
         self.curve = key
         self.crv = key.name()
         self.d, (self.x, self.y) = key.key_pair()
+        self._hash = None
         return self
 
     def decryption_key(self):
-- 
2.43.0


From 7882402c8a1d784fa03fab9fd01d69fb31bf596f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:37 +0000
Subject: [PATCH 47/64] fix: equal keys keep equal hashes whatever get_hash was
 called with

---
 src/jwkest/jwk.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 5a57d45..11acbd0 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -387,8 +387,11 @@ class Key(object):
     def get_hash(self, hash_function=None):
         if not hash_function:
             hash_function = 'SHA-256'
-        self._hash = int(binascii.hexlify(self.thumbprint(hash_function)), 16)
-        return self._hash
+        _hash = int(binascii.hexlify(self.thumbprint(hash_function)), 16)
+        # what __hash__ returns must not depend on the function asked for
+        if hash_function == 'SHA-256':
+            self._hash = _hash
+        return _hash
 
     def add_kid(self):
         _tp = self.thumbprint('SHA-256')
-- 
2.43.0


From 60a3292288d80b58036d95f35d5579d3a36c12cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:16 +0000
Subject: [PATCH 48/64] fix: der_cert2rsa keeps the base64 padding

Removing it made every certificate whose length is no multiple of three
fail with 'Incorrect padding'.
---
 src/jwkest/jwk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 11acbd0..4c6cc2a 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -144,7 +144,7 @@ def der_cert2rsa(der):
     @param der: DER-encoded certificate
     @return: RSA instance
     """
-    pem = re.sub(r'[^A-Za-z0-9+/]', '', der)
+    pem = re.sub(r'[^A-Za-z0-9+/=]', '', der)
     return der2rsa(base64.b64decode(pem))
 
 
-- 
2.43.0


From f5846bdba9881d4d296747e0db71ddbd26ca9449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:24 +0000
Subject: [PATCH 49/64] fix: key_eq compares native RSA keys

RSA is a module, isinstance(key1, RSA) raised a TypeError for every
pair of keys of a type other than str.
---
 src/jwkest/jwk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 4c6cc2a..c7d1bd9 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -193,7 +193,7 @@ def key_eq(key1, key2):
     if type(key1) == type(key2):
         if isinstance(key1, str):
             return key1 == key2
-        elif isinstance(key1, RSA):
+        elif isinstance(key1, RsaKey):
             return rsa_eq(key1, key2)
 
     return False
-- 
2.43.0


From f215a339f15eeafb3be241bf1d489d490ee8bd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:34 +0000
Subject: [PATCH 50/64] fix: verify_json does not visit URLs a document names

With no keys given, an unverified document's jku or x5u was fetched,
wherever it pointed, only to fail with an AttributeError on the result.
---
 src/jwkest/jws.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 81b93e6..a9b6252 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -691,6 +691,9 @@ class JWS(JWx):
             all_headers = unprotected_headers.copy()
             all_headers.update(
                 json.loads(b64d_enc_dec(protected_headers) or {}))
+            # where a document claims its keys to be is not to be visited
+            for param in ("jku", "x5u"):
+                all_headers.pop(param, None)
             # One verifier per signature, so that nothing one signature (or
             # an earlier document) carries is used for another
             verifier = self.__class__(**all_headers)
-- 
2.43.0


From 3dff6940634795b4060f67555b0bd1e454075852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:07 +0000
Subject: [PATCH 51/64] fix: the keys a JWS or JWE object's jku or x5u leads to
 are used

They were handed on as a dictionary (of key-id tuples, for x5u), which
made every call that needed them fail with an AttributeError.
---
 src/jwkest/jws.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index a9b6252..bffbb15 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -40,6 +40,7 @@ from jwkest.ecc import P521
 from jwkest.jwk import load_x509_cert
 from jwkest.jwk import KEYS
 from jwkest.jwk import HeaderError
+from jwkest.jwk import RSAKey
 from jwkest.jwk import sha256_digest
 from jwkest.jwk import sha384_digest
 from jwkest.jwk import sha512_digest
@@ -348,15 +349,11 @@ class JWx(object):
         elif "jku" in self:
             keys = KEYS()
             keys.load_from_url(self["jku"])
-            return keys.as_dict()
+            return keys.keys()
         elif "x5u" in self:
-            try:
-                return {"rsa": [load_x509_cert(self["x5u"], {})]}
-            except Exception:
-                # ca_chain = load_x509_cert_chain(self["x5u"])
-                pass
+            return [RSAKey(key=k) for _, k in load_x509_cert(self["x5u"], {})]
 
-        return {}
+        return []
 
     def alg2keytype(self, alg):
         return alg2keytype(alg)
-- 
2.43.0


From c7b1d68207ee88e1dd9f82d6b4d7259750de7202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:23 +0000
Subject: [PATCH 52/64] fix: a token met earlier no longer decides which key
 signs

---
 src/jwkest/jws.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index bffbb15..b59ebd2 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -385,7 +385,8 @@ class JWx(object):
             _kid = self["kid"]
         except KeyError:
             try:
-                _kid = self.jwt.headers["kid"]
+                # a token met earlier has no say in what to sign with
+                _kid = self.jwt.headers["kid"] if use != "sig" else None
             except (AttributeError, KeyError):
                 _kid = None
 
-- 
2.43.0


From 5e35a3c839ab67216450b52147f215f1789371c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:48 +0000
Subject: [PATCH 53/64] fix: headers and payloads that hold numbers can be
 packed

---
 src/jwkest/jwt.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/jwt.py b/src/jwkest/jwt.py
index 3240cf8..33a1ea2 100644
--- a/src/jwkest/jwt.py
+++ b/src/jwkest/jwt.py
@@ -21,7 +21,8 @@ def split_token(token):
 def b2s_conv(item):
     if isinstance(item, bytes):
         return item.decode("utf-8")
-    elif item is None or isinstance(item, (six.string_types, int, bool)):
+    elif item is None or isinstance(
+            item, (six.string_types, int, float, bool)):
         return item
     elif isinstance(item, list):
         return [b2s_conv(i) for i in item]
@@ -36,8 +37,6 @@ def b64encode_item(item):
         return b64e(item)
     elif isinstance(item, str):
         return b64e(item.encode("utf-8"))
-    elif isinstance(item, int):
-        return b64e(item)
     else:
         return b64e(json.dumps(b2s_conv(item),
                                separators=(",", ":")).encode("utf-8"))
-- 
2.43.0


From bd6dee6fce21e09d0db96b325a197ba22ae48cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:47 +0000
Subject: [PATCH 54/64] fix: apu and apv can be given as text

---
 src/jwkest/jwe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index ff1e5b7..cf852b0 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -616,11 +616,11 @@ class JWE_EC(JWe):
 
         # Generate the input parameters
         try:
-            apu = b64d(kwargs["apu"])
+            apu = b64d(as_bytes(kwargs["apu"]))
         except KeyError:
             apu = Random.get_random_bytes(16)
         try:
-            apv = b64d(kwargs["apv"])
+            apv = b64d(as_bytes(kwargs["apv"]))
         except KeyError:
             apv = Random.get_random_bytes(16)
 
-- 
2.43.0


From a63b35ba3ecf4feeb0594078b0e6e38e590fa920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:43 +0000
Subject: [PATCH 55/64] fix: a certificate chain behind x5u

---
 src/jwkest/jwk.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index c7d1bd9..1bc8d20 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -163,7 +163,9 @@ def load_x509_cert(url, spec2key, *args, **kwargs):
             try:
                 _key = spec2key[cert]
             except KeyError:
-                _key = import_rsa_key(cert)
+                # the key is that of the first certificate of a chain
+                first, end, _ = cert.partition("-----END CERTIFICATE-----")
+                _key = import_rsa_key(first + end)
                 spec2key[cert] = _key
             return [("rsa", _key)]
         else:
-- 
2.43.0


From 8324c28b23286f8f036e193abc208ab2bd8cf539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:53 +0000
Subject: [PATCH 56/64] fix: aes_wrap_key_withpad failed on every input, and
 aes_unwrap_key_withpad ignored padding, length and cut off octets (RFC 5649)

---
 src/jwkest/aes_key_wrap.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/aes_key_wrap.py b/src/jwkest/aes_key_wrap.py
index 641b55b..2fb736c 100644
--- a/src/jwkest/aes_key_wrap.py
+++ b/src/jwkest/aes_key_wrap.py
@@ -57,12 +57,21 @@ def aes_unwrap_key(kek, wrapped, iv=0xa6a6a6a6a6a6a6a6):
 
 
 def aes_unwrap_key_withpad(kek, wrapped):
-    key, key_iv = aes_unwrap_key_and_iv(kek, wrapped)
+    if len(wrapped) % 8 or len(wrapped) < 16:
+        raise ValueError("Not a wrapped key: wrong length")
+    if len(wrapped) == 16:
+        # one block only (RFC 5649, section 4.2)
+        block = AES.new(kek, MODE_ECB).decrypt(wrapped)
+        key_iv, key = QUAD.unpack(block[:8])[0], block[8:]
+    else:
+        key, key_iv = aes_unwrap_key_and_iv(kek, wrapped)
     key_iv = "{0:016X}".format(key_iv)
     if key_iv[:8] != "A65959A6":
         raise ValueError(
             "Integrity Check Failed: " + key_iv[:8] + " (expected A65959A6)")
     key_len = int(key_iv[8:], 16)
+    if not len(key) - 8 < key_len <= len(key) or key[key_len:].strip(b"\0"):
+        raise ValueError("Integrity Check Failed: wrong length or padding")
     return key[:key_len]
 
 
@@ -82,8 +91,13 @@ def aes_wrap_key(kek, plaintext, iv=0xa6a6a6a6a6a6a6a6, mode=MODE_ECB):
 
 
 def aes_wrap_key_withpad(kek, plaintext):
+    if not plaintext:
+        raise ValueError("Nothing to wrap")
     iv = 0xA65959A600000000 + len(plaintext)
-    plaintext += "\0" * (8 - len(plaintext) % 8)
+    plaintext = plaintext + b"\0" * (-len(plaintext) % 8)
+    if len(plaintext) == 8:
+        # one block only (RFC 5649, section 4.1)
+        return AES.new(kek, MODE_ECB).encrypt(QUAD.pack(iv) + plaintext)
     return aes_wrap_key(kek, plaintext, iv)
 
 
-- 
2.43.0


From e4f89fac4c75f40a3dabe372f8364b8e1f463154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:53 +0000
Subject: [PATCH 57/64] fix: PBKDF2 and its crypt failed with TypeError for
 every passphrase and salt on Python 3

---
 src/jwkest/PBKDF2.py | 45 ++++++++++++++++++++------------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/src/jwkest/PBKDF2.py b/src/jwkest/PBKDF2.py
index 7af531b..d841442 100755
--- a/src/jwkest/PBKDF2.py
+++ b/src/jwkest/PBKDF2.py
@@ -70,12 +70,13 @@
 
 __version__ = "1.2"
 
-from builtins import chr
+from builtins import bytes
+from builtins import str
 from builtins import zip
 from builtins import range
 from builtins import object
 
-import string
+from base64 import b64encode as _b64encode
 from struct import pack
 from binascii import b2a_hex
 from random import randint
@@ -90,11 +91,11 @@ except ImportError:
     import sha as SHA1
 
 def strxor(a, b):
-    return "".join([chr(ord(x) ^ ord(y)) for (x, y) in zip(a, b)])
+    return bytes(bytearray([x ^ y for (x, y) in zip(bytearray(a),
+                                                    bytearray(b))]))
 
 def b64encode(data, chars="+/"):
-    tt = string.maketrans("+/", chars)
-    return data.encode('base64').replace("\n", "").translate(tt)
+    return _b64encode(data, chars.encode("us-ascii")).decode("us-ascii")
 
 class PBKDF2(object):
     """PBKDF2.py : PKCS#5 v2.0 Password-Based Key Derivation
@@ -143,7 +144,7 @@ class PBKDF2(object):
             block = self.__f(i)
             blocks.append(block)
             size += len(block)
-        buf = "".join(blocks)
+        buf = b"".join(blocks)
         retval = buf[:bytes]
         self.__buf = buf[bytes:]
         self.__blockNum = i
@@ -164,21 +165,21 @@ class PBKDF2(object):
 
         Note that len(obj.hexread(n)) == 2*n.
         """
-        return b2a_hex(self.read(octets))
+        return b2a_hex(self.read(octets)).decode("us-ascii")
 
     def _setup(self, passphrase, salt, iterations, prf):
         # Sanity checks:
         
-        # passphrase and salt must be str or unicode (in the latter
+        # passphrase and salt must be bytes or text (in the latter
         # case, we convert to UTF-8)
-        if isinstance(passphrase, str):
+        if not isinstance(passphrase, bytes):
+            if not isinstance(passphrase, str):
+                raise TypeError("passphrase must be bytes or str")
             passphrase = passphrase.encode("UTF-8")
-        if not isinstance(passphrase, str):
-            raise TypeError("passphrase must be str or unicode")
-        if isinstance(salt, str):
+        if not isinstance(salt, bytes):
+            if not isinstance(salt, str):
+                raise TypeError("salt must be bytes or str")
             salt = salt.encode("UTF-8")
-        if not isinstance(salt, str):
-            raise TypeError("salt must be str or unicode")
 
         # iterations must be an integer >= 1
         if not isinstance(iterations, (int, int)):
@@ -195,7 +196,7 @@ class PBKDF2(object):
         self.__iterations = iterations
         self.__prf = prf
         self.__blockNum = 0
-        self.__buf = ""
+        self.__buf = b""
         self.closed = False
     
     def close(self):
@@ -222,18 +223,12 @@ def crypt(word, salt=None, iterations=None):
     if salt is None:
         salt = _makesalt()
 
-    # salt must be a string or the us-ascii subset of unicode
-    if isinstance(salt, str):
-        salt = salt.encode("us-ascii")
+    # salt must be text or bytes in us-ascii
+    if isinstance(salt, bytes):
+        salt = salt.decode("us-ascii")
     if not isinstance(salt, str):
         raise TypeError("salt must be a string")
 
-    # word must be a string or unicode (in the latter case, we convert to UTF-8)
-    if isinstance(word, str):
-        word = word.encode("UTF-8")
-    if not isinstance(word, str):
-        raise TypeError("word must be a string or unicode")
-
     # Try to extract the real salt and iteration count from the salt
     if salt.startswith("$p5k2$"):
         (iterations, salt, dummy) = salt.split("$")[2:5]
@@ -271,7 +266,7 @@ def _makesalt():
     
     This function is not suitable for generating cryptographic secrets.
     """
-    binarysalt = "".join([pack("@H", randint(0, 0xffff)) for i in range(3)])
+    binarysalt = b"".join([pack("@H", randint(0, 0xffff)) for i in range(3)])
     return b64encode(binarysalt, "./")
 
 def test_pbkdf2():
-- 
2.43.0


From 3447ad8e0fed0ae0b193d0780840a29f2a052849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:26 +0000
Subject: [PATCH 58/64] fix: uncompressing a point gave no ordinate (the square
 root was missing)

---
 src/jwkest/elliptic.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/elliptic.py b/src/jwkest/elliptic.py
index 8f7a383..44cf6d3 100755
--- a/src/jwkest/elliptic.py
+++ b/src/jwkest/elliptic.py
@@ -332,7 +332,29 @@ def muladdp(p, q, n, p1, c1, p2, c2):
 
 # POINT COMPRESSION ------------------------------------------------------------
 
-# Compute the square root modulo n
+# Compute the square root modulo n (Tonelli-Shanks)
+def sqrt(a, n):
+    """Return a square root of a modulo the odd prime n"""
+    a %= n
+    if a == 0:
+        return 0
+    if pow(a, (n - 1) // 2, n) != 1:
+        raise ValueError("Not a square modulo n")
+    q, s = n - 1, 0
+    while q % 2 == 0:
+        q, s = q // 2, s + 1
+    z = 2
+    while pow(z, (n - 1) // 2, n) == 1:
+        z += 1
+    c, r, t = pow(z, q, n), pow(a, (q + 1) // 2, n), pow(a, q, n)
+    while t != 1:
+        i, u = 0, t
+        while u != 1:
+            i, u = i + 1, u * u % n
+        b = pow(c, 1 << (s - i - 1), n)
+        s, c = i, b * b % n
+        r, t = r * b % n, t * c % n
+    return r
 
 
 # Determine the sign-bit of a point allowing to reconstruct y-coordinates
@@ -348,6 +370,12 @@ def y_from_x(x, p, q, n, sign):
 
     # optimized form of (x**3 - p*x - q) % n
     a = (((x * x) % n - p) * x - q) % n
+    y = sqrt(a, n)
+    if y % 2 != sign:
+        y = n - y
+    if y % 2 != sign or not y < n:
+        raise ValueError("No point with that sign")
+    return y
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 90d7318ec73101852a8890192ca56b12f59de824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:41 +0000
Subject: [PATCH 59/64] fix: sign_json refused headers with alg on an object
 without

---
 src/jwkest/jws.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index b59ebd2..97ddd14 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -617,7 +617,8 @@ class JWS(JWx):
         def create_signature(protected, unprotected):
             protected_headers = protected or {}
             # always protect the signing alg header
-            protected_headers.setdefault("alg", self.alg)
+            if "alg" not in protected_headers:
+                protected_headers["alg"] = self.alg
             _jws = JWS(self.msg, **protected_headers)
             encoded_header, payload, signature = _jws.sign_compact(
                 protected=protected,
-- 
2.43.0


From c0f68cd2fd766f06ee27cdbb9c5e0e610d3e1a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:41 +0000
Subject: [PATCH 60/64] fix: jwkutil could not decrypt

---
 script/jwkutil.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/script/jwkutil.py b/script/jwkutil.py
index c428686..39e3108 100755
--- a/script/jwkutil.py
+++ b/script/jwkutil.py
@@ -8,6 +8,7 @@ __author__ = 'rohe0002'
 
 import argparse
 import requests
+from jwkest import as_unicode
 from jwkest.jwk import RSAKey, KEYS
 from jwkest.jwk import keyrep
 from jwkest.jwk import import_rsa_key_from_file
@@ -143,12 +144,14 @@ if __name__ == "__main__":
         print(encrypt(message, keys, args.encalg, args.encenc))
     else:
         if args.decrypt:
-            _msg, _res = decrypt(message, keys)
+            _msg = as_unicode(decrypt(message, keys))
         else:
             _msg = message
 
         if args.verify:
             print(verify(_msg, keys))
+        elif args.decrypt:
+            print(_msg)
 
 # -e -J edmund.jwks -f text.json -E "A128CBC-HS256" -A "RSA1_5" -l ju.log
 # -d -r op.key -f edmund.jwe -i a0
-- 
2.43.0


From 761b243affc46d6633aa893e8dfe40be0dff7f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:41 +0000
Subject: [PATCH 61/64] fix: jwdecrypt could not use -x and -X and printed no
 text

---
 script/jwdecrypt.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/script/jwdecrypt.py b/script/jwdecrypt.py
index 499bec1..ab98bc8 100755
--- a/script/jwdecrypt.py
+++ b/script/jwdecrypt.py
@@ -5,6 +5,7 @@ __author__ = 'rohe0002'
 
 import argparse
 import requests
+from jwkest import as_unicode
 from jwkest.jwk import load_jwks_from_url, RSAKey
 from jwkest.jwk import rsa_load
 from jwkest.jwk import load_x509_cert
@@ -56,9 +57,9 @@ if __name__ == "__main__":
     elif args.jwk_file:
         keys = load_jwks(open(args.jwk_file).read())
     elif args.x509_url:
-        keys = load_x509_cert(args.x509_url, {})
+        keys = [RSAKey(key=y) for x, y in load_x509_cert(args.x509_url, {})]
     elif args.x509_file:
-        keys = [import_rsa_key_from_file(args.x509_file)]
+        keys = [RSAKey(key=import_rsa_key_from_file(args.x509_file))]
     elif args.rsa_file:
         key = rsa_load(args.rsa_file)
         rsa_key = RSAKey(key=key)
@@ -75,4 +76,4 @@ if __name__ == "__main__":
         msg = args.message
 
     jwe = JWE()
-    print(jwe.decrypt(msg, keys))
+    print(as_unicode(jwe.decrypt(msg, keys)))
-- 
2.43.0


From 486f302d4529875446e066d4233dbeb46a5703d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:41 +0000
Subject: [PATCH 62/64] fix: jwenc could not use -X

---
 script/jwenc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/script/jwenc.py b/script/jwenc.py
index 5235258..0f3fce3 100755
--- a/script/jwenc.py
+++ b/script/jwenc.py
@@ -68,8 +68,7 @@ if __name__ == "__main__":
         keys = load_jwks(open(args.jwk_file).read())
     elif args.x509_url:
         # load_x509_cert returns list of 2-tuples
-        keys = [RSAKey(key=x) for x, y in load_x509_cert(lrequest,
-                                                         args.x509_url)]
+        keys = [RSAKey(key=y) for x, y in load_x509_cert(args.x509_url, {})]
         for key in keys:
             key.serialize()
     elif args.x509_file:
-- 
2.43.0


From e8f67a385520037611655d55f57bc25fd9e1abf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:41 +0000
Subject: [PATCH 63/64] fix: jwk_create could not write its files, and would
 have put the private key in the public JWK

---
 script/jwk_create.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/script/jwk_create.py b/script/jwk_create.py
index bd71280..1afafb0 100755
--- a/script/jwk_create.py
+++ b/script/jwk_create.py
@@ -13,19 +13,18 @@ def create_and_store_rsa_key_pair(name="pyoidc", path=".", size=1024):
 
     keyfile = os.path.join(path, name)
 
-    f = open("%s.key" % keyfile, "w")
+    f = open("%s.key" % keyfile, "wb")
     f.write(key.exportKey("PEM"))
     f.close()
-    f = open("%s.pub" % keyfile, "w")
+    f = open("%s.pub" % keyfile, "wb")
     f.write(key.publickey().exportKey("PEM"))
     f.close()
 
     rsa_key = RSAKey(key=key)
-    rsa_key.serialize()
     # This will create JWK from the public RSA key
-    jwk_spec = json.dumps(rsa_key.to_dict(), "enc")
+    jwk_spec = json.dumps(rsa_key.serialize())
     f = open(keyfile + ".jwk", "w")
-    f.write(str(jwk_spec))
+    f.write(jwk_spec)
     f.close()
 
     return key
-- 
2.43.0


From 0ead2892df90489930c902e557c14647107a0e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:41 +0000
Subject: [PATCH 64/64] fix: jwk_export could not be started

---
 script/jwk_export.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/script/jwk_export.py b/script/jwk_export.py
index 8b49bb6..b62854f 100755
--- a/script/jwk_export.py
+++ b/script/jwk_export.py
@@ -1,9 +1,9 @@
 #!/usr/bin/env python
 import os
 import argparse
+from jwkest.jwk import KEYS
 from jwkest.jwk import RSAKey
 from jwkest.jwk import rsa_load
-from jwkest.jwk import dump_jwks
 
 __author__ = 'rolandh'
 
@@ -21,5 +21,7 @@ rsa_key = RSAKey(key=rsa_load(args.key))
 keyfile = os.path.join(args.path, args.name)
 
 f = open(keyfile + ".jwk", "w")
-f.write(dump_jwks([rsa_key]))
+keys = KEYS()
+keys.append(rsa_key)
+f.write(keys.dump_jwks())
 f.close()
-- 
2.43.0

