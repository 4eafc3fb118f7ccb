From f3876aca9b5b3a1ece486739fb97bc418472abc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:52 +0000
Subject: [PATCH 01/72] fix: order_mod of an argument at or above the modulus

---
 nbc/util/ecdsa/numbertheory.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbc/util/ecdsa/numbertheory.py b/nbc/util/ecdsa/numbertheory.py
index f2be882..d7177fd 100644
--- a/nbc/util/ecdsa/numbertheory.py
+++ b/nbc/util/ecdsa/numbertheory.py
@@ -353,6 +353,7 @@ def order_mod( x, m ):
 
   assert gcd( x, m ) == 1
 
+  x = x % m
   z = x
   result = 1
   while z != 1:
-- 
2.43.0


From 37167e8597bf7a73e4845e095977112203414c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 02/72] fix: doubling a point of order two gives the point at
 infinity

---
 nbc/util/ecdsa/ellipticcurve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbc/util/ecdsa/ellipticcurve.py b/nbc/util/ecdsa/ellipticcurve.py
index ba83847..7eb8cd0 100644
--- a/nbc/util/ecdsa/ellipticcurve.py
+++ b/nbc/util/ecdsa/ellipticcurve.py
@@ -157,6 +157,8 @@ class Point( object ):
     p = self.__curve.p()
     a = self.__curve.a()
 
+    if self.__y % p == 0: return INFINITY
+
     l = ( ( 3 * self.__x * self.__x + a ) * \
           numbertheory.inverse_mod( 2 * self.__y, p ) ) % p
 
-- 
2.43.0


From 79c2b193efc7a12fb50e03acf59c09eeaba99b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 03/72] fix: multiplication could return a point with a
 negative coordinate

---
 nbc/util/ecdsa/ellipticcurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/ecdsa/ellipticcurve.py b/nbc/util/ecdsa/ellipticcurve.py
index 7eb8cd0..d970f0b 100644
--- a/nbc/util/ecdsa/ellipticcurve.py
+++ b/nbc/util/ecdsa/ellipticcurve.py
@@ -124,7 +124,7 @@ class Point( object ):
     # From X9.62 D.3.2:
 
     e3 = 3 * e
-    negative_self = Point( self.__curve, self.__x, -self.__y, self.__order )
+    negative_self = Point( self.__curve, self.__x, -self.__y % self.__curve.p(), self.__order )
     i = leftmost_bit( e3 ) // 2
     result = self
     # print_("Multiplying %s by %d (e3 = %d):" % ( self, other, e3 ))
-- 
2.43.0


From ddcd9961c9c4043821105aa114a7932d2acb5678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 04/72] fix: reduce r modulo the order when signing

---
 nbc/util/ecdsa/ecdsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/ecdsa/ecdsa.py b/nbc/util/ecdsa/ecdsa.py
index 8ed0247..13c7361 100644
--- a/nbc/util/ecdsa/ecdsa.py
+++ b/nbc/util/ecdsa/ecdsa.py
@@ -143,7 +143,7 @@ class Private_key( object ):
     n = G.order()
     k = random_k % n
     p1 = k * G
-    r = p1.x()
+    r = p1.x() % n
     if r == 0: raise RuntimeError("amazingly unlucky random number r")
     s = ( numbertheory.inverse_mod( k, n ) * \
           ( hash + ( self.secret_multiplier * r ) % n ) ) % n
-- 
2.43.0


From f6b312a5cd046697fcd88134d3782a53961a0374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 05/72] fix: verification raised when the sum is the point at
 infinity

---
 nbc/util/ecdsa/ecdsa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbc/util/ecdsa/ecdsa.py b/nbc/util/ecdsa/ecdsa.py
index 13c7361..3b8378f 100644
--- a/nbc/util/ecdsa/ecdsa.py
+++ b/nbc/util/ecdsa/ecdsa.py
@@ -107,6 +107,7 @@ class Public_key( object ):
     u1 = ( hash * c ) % n
     u2 = ( r * c ) % n
     xy = u1 * G + u2 * self.point
+    if xy == ellipticcurve.INFINITY: return False
     v = xy.x() % n
     return v == r
 
-- 
2.43.0


From 27f3ee67ca12efc5b345c772368625757827bb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 06/72] fix: public key coordinates range over the field, not
 over the group order

---
 nbc/util/ecdsa/ecdsa.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nbc/util/ecdsa/ecdsa.py b/nbc/util/ecdsa/ecdsa.py
index 3b8378f..f7d54de 100644
--- a/nbc/util/ecdsa/ecdsa.py
+++ b/nbc/util/ecdsa/ecdsa.py
@@ -86,7 +86,8 @@ class Public_key( object ):
       raise RuntimeError("Generator point must have order.")
     if not n * point == ellipticcurve.INFINITY:
       raise RuntimeError("Generator point order is bad.")
-    if point.x() < 0 or n <= point.x() or point.y() < 0 or n <= point.y():
+    p = self.curve.p()
+    if point.x() < 0 or p <= point.x() or point.y() < 0 or p <= point.y():
       raise RuntimeError("Generator point has x or y out of range.")
 
 
@@ -195,7 +196,8 @@ def point_is_valid( generator, x, y ):
 
   n = generator.order()
   curve = generator.curve()
-  if x < 0 or n <= x or y < 0 or n <= y:
+  p = curve.p()
+  if x < 0 or p <= x or y < 0 or p <= y:
     return False
   if not curve.contains_point( x, y ):
     return False
-- 
2.43.0


From 2e690f4c1eb4a773c20b32a829a9b7821d574654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 07/72] fix: RFC 6979 octet length must be an integer (wrong
 nonce after a retry)

---
 nbc/util/ecdsa/rfc6979.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/ecdsa/rfc6979.py b/nbc/util/ecdsa/rfc6979.py
index 377e877..384afc1 100644
--- a/nbc/util/ecdsa/rfc6979.py
+++ b/nbc/util/ecdsa/rfc6979.py
@@ -61,7 +61,7 @@ def generate_k(generator, secexp, hash_func, data):
 
     qlen = bit_length(generator.order())
     holen = hash_func().digest_size
-    rolen = (qlen + 7) / 8
+    rolen = (qlen + 7) // 8
     bx = number_to_string(secexp, generator.order()) + bits2octets(data, generator.order())
 
     # Step B
-- 
2.43.0


From 8843b0f1e90a842a96251e8cbfca0f5b31076a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 08/72] fix: exact low-s comparison (float division lost
 precision)

---
 nbc/util/ecdsa/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/util/ecdsa/util.py b/nbc/util/ecdsa/util.py
index 5d2f373..e170f5d 100644
--- a/nbc/util/ecdsa/util.py
+++ b/nbc/util/ecdsa/util.py
@@ -201,17 +201,17 @@ def sigencode_der(r, s, order):
 # these enforce low S values, by negating the value (modulo the order) if above order/2
 # see CECKey::Sign() https://github.com/bitcoin/bitcoin/blob/master/src/key.cpp#L214
 def sigencode_strings_canonize(r, s, order):
-    if s > order / 2:
+    if s > order // 2:
         s = order - s
     return sigencode_strings(r, s, order)
 
 def sigencode_string_canonize(r, s, order):
-    if s > order / 2:
+    if s > order // 2:
         s = order - s
     return sigencode_string(r, s, order)
 
 def sigencode_der_canonize(r, s, order):
-    if s > order / 2:
+    if s > order // 2:
         s = order - s
     return sigencode_der(r, s, order)
 
-- 
2.43.0


From 4ad7a8cb0d99a747943ae2daa9d01f94d6f26e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 09/72] fix: seed truncation failed on python3 and masked the
 wrong bits

---
 nbc/util/ecdsa/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/util/ecdsa/util.py b/nbc/util/ecdsa/util.py
index e170f5d..ab4da7b 100644
--- a/nbc/util/ecdsa/util.py
+++ b/nbc/util/ecdsa/util.py
@@ -120,7 +120,7 @@ def randrange_from_seed__truncate_bytes(seed, order, hashmod=sha256):
     if extrabits:
         bytes += 1
     base = hashmod(seed).digest()[:bytes]
-    base = "\x00"*(bytes-len(base)) + base
+    base = b("\x00")*(bytes-len(base)) + base
     number = 1+int(binascii.hexlify(base), 16)
     assert 1 <= number < order
     return number
@@ -131,10 +131,10 @@ def randrange_from_seed__truncate_bits(seed, order, hashmod=sha256):
     bits = int(math.log(order-1, 2)+1)
     maxbytes = (bits+7) // 8
     base = hashmod(seed).digest()[:maxbytes]
-    base = "\x00"*(maxbytes-len(base)) + base
+    base = b("\x00")*(maxbytes-len(base)) + base
     topbits = 8*maxbytes - bits
     if topbits:
-        base = int2byte(ord(base[0]) & lsb_of_ones(topbits)) + base[1:]
+        base = int2byte(ord(base[:1]) & lsb_of_ones(8-topbits)) + base[1:]
     number = 1+int(binascii.hexlify(base), 16)
     assert 1 <= number < order
     return number
-- 
2.43.0


From 23d0dff27158a60d07300c35cef863221853347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 10/72] fix: DER decoding accepted structures whose length runs
 past the data

---
 nbc/util/ecdsa/der.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/nbc/util/ecdsa/der.py b/nbc/util/ecdsa/der.py
index abcec34..e98d534 100644
--- a/nbc/util/ecdsa/der.py
+++ b/nbc/util/ecdsa/der.py
@@ -48,6 +48,11 @@ def encode_number(n):
     b128_digits[-1] &= 0x7f
     return b('').join([int2byte(d) for d in b128_digits])
 
+def check_length(string, end):
+    if end > len(string):
+        raise UnexpectedDER("ran out of data: wanted %d bytes, got %d"
+                            % (end, len(string)))
+
 def remove_constructed(string):
     s0 = string[0] if isinstance(string[0], integer_types) else ord(string[0])
     if (s0 & 0xe0) != 0xa0:
@@ -55,6 +60,7 @@ def remove_constructed(string):
                             % s0)
     tag = s0 & 0x1f
     length, llen = read_length(string[1:])
+    check_length(string, 1+llen+length)
     body = string[1+llen:1+llen+length]
     rest = string[1+llen+length:]
     return tag, body, rest
@@ -65,6 +71,7 @@ def remove_sequence(string):
         raise UnexpectedDER("wanted sequence (0x30), got 0x%02x" % n)
     length, lengthlength = read_length(string[1:])
     endseq = 1+lengthlength+length
+    check_length(string, endseq)
     return string[1+lengthlength:endseq], string[endseq:]
 
 def remove_octet_string(string):
@@ -72,6 +79,7 @@ def remove_octet_string(string):
         n = string[0] if isinstance(string[0], integer_types) else ord(string[0])
         raise UnexpectedDER("wanted octetstring (0x04), got 0x%02x" % n)
     length, llen = read_length(string[1:])
+    check_length(string, 1+llen+length)
     body = string[1+llen:1+llen+length]
     rest = string[1+llen+length:]
     return body, rest
@@ -81,6 +89,7 @@ def remove_object(string):
         n = string[0] if isinstance(string[0], integer_types) else ord(string[0])
         raise UnexpectedDER("wanted object (0x06), got 0x%02x" % n)
     length, lengthlength = read_length(string[1:])
+    check_length(string, 1+lengthlength+length)
     body = string[1+lengthlength:1+lengthlength+length]
     rest = string[1+lengthlength+length:]
     numbers = []
@@ -100,6 +109,7 @@ def remove_integer(string):
         n = string[0] if isinstance(string[0], integer_types) else ord(string[0])
         raise UnexpectedDER("wanted integer (0x02), got 0x%02x" % n)
     length, llen = read_length(string[1:])
+    check_length(string, 1+llen+length)
     numberbytes = string[1+llen:1+llen+length]
     rest = string[1+llen+length:]
     nbytes = numberbytes[0] if isinstance(numberbytes[0], integer_types) else ord(numberbytes[0])
@@ -154,6 +164,7 @@ def remove_bitstring(string):
     if not string.startswith(b("\x03")):
         raise UnexpectedDER("wanted bitstring (0x03), got 0x%02x" % num)
     length, llen = read_length(string[1:])
+    check_length(string, 1+llen+length)
     body = string[1+llen:1+llen+length]
     rest = string[1+llen+length:]
     return body, rest
-- 
2.43.0


From bc5fa0ba1523a63e15d471b5e8b71b5df35f3292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 11/72] fix: verify raised on malformed signatures instead of
 answering False

---
 nbc/util/ecc.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nbc/util/ecc.py b/nbc/util/ecc.py
index 156212d..c020f9f 100644
--- a/nbc/util/ecc.py
+++ b/nbc/util/ecc.py
@@ -43,10 +43,15 @@ def twos_comp(val, bits):
     return val
 
 def remove_integer(string):
+    if not string:
+        raise der.UnexpectedDER("wanted integer (0x02), got nothing")
     if not string.startswith(b("\x02")):
         n = string[0] if isinstance(string[0], der.integer_types) else ord(string[0])
-        raise UnexpectedDER("wanted integer (0x02), got 0x%02x" % n)
+        raise der.UnexpectedDER("wanted integer (0x02), got 0x%02x" % n)
     length, llen = der.read_length(string[1:])
+    if length == 0:
+        raise der.UnexpectedDER("empty integer")
+    der.check_length(string, 1+llen+length)
     numberbytes = string[1+llen:1+llen+length]
     rest = string[1+llen+length:]
     #nbytes = numberbytes[0] if isinstance(numberbytes[0], der.integer_types) else ord(numberbytes[0])
@@ -87,8 +92,8 @@ def verify(data, public_key, signature):
     key = ecdsa.VerifyingKey.from_string(public_key[1:], ecdsa.SECP256k1)
     try:
         return key.verify_digest(signature, sha256d(data), sigdecode = sigdecode_der)
-    except ecdsa.BadSignatureError as e:
-        return False
+    except (ecdsa.BadSignatureError, der.UnexpectedDER, ValueError, IndexError) as e:
+        return False    # IndexError and ValueError: too short to hold a length
 
 from .ecdsa.util import number_to_string, string_to_number
 def shared_secret(public_key, private_key):
-- 
2.43.0


From e54186099f4d25ccba8847ffd1135f8603db4be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:04 +0000
Subject: [PATCH 12/72] fix: decompressing an invalid public key raises
 ValueError, so verify answers False

---
 nbc/util/key.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nbc/util/key.py b/nbc/util/key.py
index 4fc05f7..c7def87 100644
--- a/nbc/util/key.py
+++ b/nbc/util/key.py
@@ -25,7 +25,7 @@ from . import base58
 
 from .ecdsa.ecdsa import point_is_valid
 from .ecdsa import SECP256k1 as curve
-from .ecdsa.numbertheory import square_root_mod_prime
+from .ecdsa.numbertheory import square_root_mod_prime, SquareRootError
 from .ecdsa.util import number_to_string, string_to_number
 
 import hashlib
@@ -54,6 +54,8 @@ _p = curve.curve.p()
 _n = curve.order
 
 def decompress_public_key(public_key):
+    if not public_key:
+        raise ValueError('invalid public key')
     ch = ORD(public_key[0])
     if ch == 4 and len(public_key) == 65:
         x = string_to_number(public_key[1:33])
@@ -66,7 +68,10 @@ def decompress_public_key(public_key):
         raise ValueError('invalid compressed public key')
 
     x = string_to_number(public_key[1:])
-    y = square_root_mod_prime((x ** 3 + _a * x + _b) % _p, _p)
+    try:
+        y = square_root_mod_prime((x ** 3 + _a * x + _b) % _p, _p)
+    except SquareRootError:
+        raise ValueError('invalid public key')
     if not point_is_valid(curve.generator, x, y):
         raise ValueError('invalid public key')
 
-- 
2.43.0


From 299fb24fd8a196d5f1700719aeb7cec8e79fe442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:41 +0000
Subject: [PATCH 13/72] fix: DER integers longer than 127 bytes got a wrong
 length

---
 nbc/util/ecdsa/der.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/util/ecdsa/der.py b/nbc/util/ecdsa/der.py
index e98d534..0ed226d 100644
--- a/nbc/util/ecdsa/der.py
+++ b/nbc/util/ecdsa/der.py
@@ -17,12 +17,12 @@ def encode_integer(r):
     s = binascii.unhexlify(h)
     num = s[0] if isinstance(s[0], integer_types) else ord(s[0])
     if num <= 0x7f:
-        return b("\x02") + int2byte(len(s)) + s
+        return b("\x02") + encode_length(len(s)) + s
     else:
         # DER integers are two's complement, so if the first byte is
         # 0x80-0xff then we need an extra 0x00 byte to prevent it from
         # looking negative.
-        return b("\x02") + int2byte(len(s)+1) + b("\x00") + s
+        return b("\x02") + encode_length(len(s)+1) + b("\x00") + s
 
 def encode_bitstring(s):
     return b("\x03") + encode_length(len(s)) + s
-- 
2.43.0


From e89cd8a772d5e003ffc3cfa0db6e0e5aa8a699bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 14/72] fix: AES-256 key expansion failed on python3

---
 nbc/util/pyaes/aes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nbc/util/pyaes/aes.py b/nbc/util/pyaes/aes.py
index 1b062ad..5afbaea 100644
--- a/nbc/util/pyaes/aes.py
+++ b/nbc/util/pyaes/aes.py
@@ -158,16 +158,16 @@ class AES(object):
 
             # Key expansion for 256-bit keys is "slightly different" (fips-197)
             else:
-                for i in xrange(1, KC / 2):
+                for i in xrange(1, KC // 2):
                     tk[i] ^= tk[i - 1]
-                tt = tk[KC / 2 - 1]
+                tt = tk[KC // 2 - 1]
 
-                tk[KC / 2] ^= (self.S[ tt        & 0xFF]        ^
+                tk[KC // 2] ^= (self.S[ tt        & 0xFF]        ^
                               (self.S[(tt >>  8) & 0xFF] <<  8) ^
                               (self.S[(tt >> 16) & 0xFF] << 16) ^
                               (self.S[(tt >> 24) & 0xFF] << 24))
 
-                for i in xrange(KC / 2 + 1, KC):
+                for i in xrange(KC // 2 + 1, KC):
                     tk[i] ^= tk[i-1]
 
             # Copy values into round key arrays
-- 
2.43.0


From e297b6b7b1bf096a174b924779d45809ac5a15f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 15/72] fix: streaming encryption failed on python3 (text
 buffers)

---
 nbc/util/pyaes/blockfeeder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/util/pyaes/blockfeeder.py b/nbc/util/pyaes/blockfeeder.py
index c0ec3ab..cc487df 100644
--- a/nbc/util/pyaes/blockfeeder.py
+++ b/nbc/util/pyaes/blockfeeder.py
@@ -111,7 +111,7 @@ class BlockFeeder(object):
         self._mode = mode
         self._feed = feed
         self._final = final
-        self._buffer = ""
+        self._buffer = b""
 
     def feed(self, data = None):
         '''Provide bytes to encrypt (or decrypt), returning any bytes
@@ -133,7 +133,7 @@ class BlockFeeder(object):
         self._buffer += data
 
         # We keep 16 bytes around so we can determine padding
-        result = ''
+        result = b''
         while len(self._buffer) > 16:
             can_consume = self._mode._can_consume(len(self._buffer) - 16)
             if can_consume == 0: break
-- 
2.43.0


From b2cbe4d94382e32438f0907c325935def80f0edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 16/72] fix: padding removal failed on python3 and accepted
 malformed padding

---
 nbc/util/pyaes/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/util/pyaes/util.py b/nbc/util/pyaes/util.py
index 5c7c140..b092603 100644
--- a/nbc/util/pyaes/util.py
+++ b/nbc/util/pyaes/util.py
@@ -31,9 +31,9 @@ def strip_PKCS7_padding(data):
     if len(data) % 16 != 0:
         raise ValueError("invalid length")
 
-    pad = ord(data[-1])
+    pad = ord(data[-1:])
 
-    if pad > 16:
+    if not 1 <= pad <= 16 or data[-pad:] != pad * CHR(pad):
         raise ValueError("invalid padding byte")
 
     return data[:-pad]
-- 
2.43.0


From 0f6762664189507d8771bed2ffd87a116fcd952e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 17/72] fix: compressed points decompressed with the wrong
 parity

---
 nbc/wallet/hdwallet.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index 34f9de9..83e0e6b 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -29,13 +29,14 @@ def point_compress(point):
 def point_decompress(curve, data):
   prefix = data[0]; ch = ORD(prefix)
   assert(ch in (2,3))  # data[0] should be b'\x02' or b'\x03'
-  parity = 1 if ch == 2 else -1
   
   x = string_to_number(data[1:])
+  assert(x < curve.p())
   y = numbertheory.square_root_mod_prime( 
     ( x * x * x + curve.a() * x + curve.b() ) % curve.p(),  curve.p()
   )
-  y = parity * y % curve.p()
+  if (y & 1) != (ch & 1):
+    y = -y % curve.p()
   return ellipticcurve.Point(curve, x, y)
 
 class HDWallet(object):
-- 
2.43.0


From 2473089cc90aa9ca32582a1ebb1c5ee6578571c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 18/72] fix: extended keys could not be read (undefined name,
 wrong call)

---
 nbc/wallet/hdwallet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index 83e0e6b..6f1b8e3 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -195,9 +195,9 @@ class HDWallet(object):
     return ecc.verify(data,pubKey,signature)
   
   @staticmethod
-  def from_extended_key(extended_key):
-    decoded = base58.b58decode(extended_key,78+4)
-    assert(decoded)
+  def from_extended_key(extended_key, vcn=None):
+    decoded = base58.b58decode(extended_key)
+    assert(len(decoded) == 78+4)
     ekdata = decoded[:78]
     checksum = decoded[78:78+4]
     # validate checksum
@@ -222,7 +222,7 @@ class HDWallet(object):
     else:
       raise Exception('unknown version')
     
-    return HDWallet( key, chaincode, vcn=self.vcn,
+    return HDWallet( key, chaincode, vcn=vcn,
       testnet=testnet, depth=depth,
       childnum=childnum, parentfp=parentfp )
   
-- 
2.43.0


From a7cebdafdc6e5bbda11cfdadab74a88e86890845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 19/72] fix: a saved public-only compressed wallet came back
 uncompressed, with another address

---
 nbc/wallet/address.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/wallet/address.py b/nbc/wallet/address.py
index 27789bf..0d94050 100644
--- a/nbc/wallet/address.py
+++ b/nbc/wallet/address.py
@@ -187,7 +187,7 @@ class Address(object):
       
       cfg['prvkey'] = hexlify(privKey).decode('latin-1')
     elif pubKey:
-      cfg['pubkey'] = hexlify(pubKey).decode('latin-1')
+      cfg['pubkey'] = hexlify(self.publicKey()).decode('latin-1')
     return cfg
   
   @classmethod
-- 
2.43.0


From ff3b1b03e85587d8b432ebe444515985d36140c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 20/72] fix: a wallet accepted a public key that is not on the
 curve

---
 nbc/wallet/address.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbc/wallet/address.py b/nbc/wallet/address.py
index 0d94050..5642cdb 100644
--- a/nbc/wallet/address.py
+++ b/nbc/wallet/address.py
@@ -86,6 +86,7 @@ class Address(object):
       if ch == 4:  # prefix with 0x04 means decompressed
         if len(pubKey) != 65:
           raise ValueError('invalid uncomprssed public key')
+        util.key.decompress_public_key(pubKey)  # raises ValueError when not on the curve
       elif ch == 2 or ch == 3:
         pubKey = util.key.decompress_public_key(pubKey)
         self._compressed = True
-- 
2.43.0


From fa946539c8235447cb153fad5ff68a72ce621e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 21/72] fix: a wallet accepted a private key outside of 1..n-1

---
 nbc/wallet/address.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbc/wallet/address.py b/nbc/wallet/address.py
index 5642cdb..2dc8d0c 100644
--- a/nbc/wallet/address.py
+++ b/nbc/wallet/address.py
@@ -75,6 +75,8 @@ class Address(object):
         raise ValueError('unknown private key type: %r' % privKey[0])
       
       secexp = string_to_number(util.key.privkey_from_wif(self._privKey))
+      if not 1 <= secexp < curve.order:
+        raise ValueError('private key out of range')
       point = curve.generator * secexp
       pubKey = _keyFromPoint(point,False)
     else: self._privKey = None
-- 
2.43.0


From 709d3ed4452674c8a806a1ee6808f83d4dd3ccd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 22/72] fix: a private key with a wrong checksum raised
 TypeError instead of ValueError

---
 nbc/util/key.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbc/util/key.py b/nbc/util/key.py
index c7def87..a1ba685 100644
--- a/nbc/util/key.py
+++ b/nbc/util/key.py
@@ -88,6 +88,8 @@ def privkey_to_wif(privkey, prefix = b'\x80'):
 # See: https://en.bitcoin.it/wiki/Wallet_import_format
 def privkey_from_wif(privkey, prefix = b'\x80'):
     key = base58.decode_check(privkey)
+    if not key:
+        raise ValueError('invalid wif private key')
     if ORD(prefix) != ORD(key[0]):
         raise ValueError('wif private key has does not match prefix')
     if len(key) == 33:
-- 
2.43.0


From 3910d81b8844864c25234aae4db8c5ac3ecc2743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 23/72] fix: an HD wallet file loaded with a wrong passphrase
 could give another wallet

---
 nbc/wallet/hdwallet.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index 6f1b8e3..2c984e2 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -245,6 +245,7 @@ class HDWallet(object):
       'depth': self._depth,
       'parentfp': hexlify(self.parentfp()).decode('latin-1'),
       'childnum': self._childnum,
+      'fp': hexlify(self.fingerprint()).decode('latin-1'),
     }
     
     if self._prvkey:   # int or long, can not be 0
@@ -282,9 +283,13 @@ class HDWallet(object):
     elif pubKey:
       pubKey = point_decompress(curve.curve,unhexlify(pubKey))
     
-    return HDWallet( prvKey or pubKey, unhexlify(cfg['chain']), vcn=cfg['vcn'],
+    wallet = HDWallet( prvKey or pubKey, unhexlify(cfg['chain']), vcn=cfg['vcn'],
       testnet=cfg['testnet'], depth=cfg['depth'],
       childnum=cfg['childnum'], parentfp=unhexlify(cfg['parentfp']) )
+    fp = cfg.get('fp')   # missing in files of older versions
+    if fp and unhexlify(fp) != wallet.fingerprint():  # wrong passphrase or damaged file
+      raise ValueError('invalid private key')
+    return wallet
   
   def __str__(self):
     privateKey = 'None'
-- 
2.43.0


From f6463a117575a6be308c873e4c6e9b28affdf17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 24/72] fix: a crash or an error while saving a wallet could
 lose the old file

---
 nbc/wallet/__init__.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/nbc/wallet/__init__.py b/nbc/wallet/__init__.py
index 8a72ac8..2321ba4 100644
--- a/nbc/wallet/__init__.py
+++ b/nbc/wallet/__init__.py
@@ -1,5 +1,7 @@
 
 import json
+import os
+import shutil
 from .address import Address
 from .hdwallet import HDWallet
 
@@ -8,8 +10,28 @@ __all__ = ['Address', 'HDWallet', 'loadFrom', 'saveTo']
 def saveTo(fileName, wallet, passphrase=''):
   cfg = wallet.dump_to_cfg(passphrase)
   sCfg = json.dumps(cfg)
-  with open(fileName,'w') as f:
-    f.write(sCfg)
+  
+  # write aside then rename, so a crash or an error never loses the old file
+  fileName = os.path.realpath(fileName)
+  tmpName = fileName + '.tmp'
+  try:
+    with open(tmpName,'w') as f:
+      f.write(sCfg)
+      f.flush()
+      os.fsync(f.fileno())
+    if os.path.exists(fileName):
+      shutil.copymode(fileName,tmpName)
+    getattr(os,'replace',os.rename)(tmpName,fileName)
+  except:
+    if os.path.exists(tmpName):
+      os.remove(tmpName)
+    raise
+  
+  fd = os.open(os.path.dirname(fileName),os.O_RDONLY)
+  try:
+    os.fsync(fd)   # makes the rename durable
+  finally:
+    os.close(fd)
 
 def loadFrom(fileName, passphrase=''):
   with open(fileName,'r') as f:
-- 
2.43.0


From d6e14aaf4a340ec19d34e007df22024ef577dc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 25/72] fix: target and hexadecimal helpers failed on python3,
 targets with a small exponent failed

---
 nbc/util/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/nbc/util/__init__.py b/nbc/util/__init__.py
index 455992a..46898ef 100644
--- a/nbc/util/__init__.py
+++ b/nbc/util/__init__.py
@@ -21,6 +21,7 @@
 # THE SOFTWARE.
 
 
+import binascii
 import hashlib
 import json
 import math
@@ -72,8 +73,10 @@ def verify_target(coin, block_header):
     return pow <= get_target(block_header.bits)
 
 def get_target(bits):
-    target = ((bits & 0x7fffff) * 2 ** (8 * ((bits >> 24) - 3)))
-    return ("%064x" % target).decode('hex')
+    target = (bits & 0x7fffff)
+    shift = 8 * ((bits >> 24) - 3)
+    target = target << shift if shift >= 0 else target >> -shift
+    return binascii.unhexlify(("%064x" % target).encode('latin-1'))
 
 
 DifficultyOneTarget = 26959535291011309493156476344723991336010898738574164086137773096960.0
@@ -96,11 +99,11 @@ def get_merkle_root(transactions):
 # Hexlify Helpers
 
 def hex_to_bin(data):
-    return data.decode('hex')[::-1]
+    return binascii.unhexlify(data)[::-1]
 
 
 def bin_to_hex(data):
-    return data[::-1].encode('hex')
+    return binascii.hexlify(data[::-1]).decode('latin-1')
 
 
 # Protocl Version Helpers
-- 
2.43.0


From 65652e444474673a24549e85748280ea7f248d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 26/72] fix: misspelt isinstance when a height source answers a
 list

---
 nbc/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/__init__.py b/nbc/util/__init__.py
index 46898ef..dee9b45 100644
--- a/nbc/util/__init__.py
+++ b/nbc/util/__init__.py
@@ -149,7 +149,7 @@ def fetch_url_json_path_int(url, path):
             for component in path.split('/'):
                 if isinstance(data, dict):
                     data = data[component]
-                elif ininstance(data, (list, tuple)):
+                elif isinstance(data, (list, tuple)):
                     data = data[int(component)]
                 else:
                     return None
-- 
2.43.0


From ebd58a79ede8c3ab924d52e7658eeee68d767307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 27/72] fix: private key splitting and partial key-sets failed
 on python3

---
 nbc/util/piecewise.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/nbc/util/piecewise.py b/nbc/util/piecewise.py
index 1d9ec86..dd23fab 100644
--- a/nbc/util/piecewise.py
+++ b/nbc/util/piecewise.py
@@ -62,7 +62,7 @@ def get_address(public_key, private_key, version = b'\x00'):
     'Returns the address generated by combiningn a public key and private key.'
 
     # valid public key?
-    if len(public_key) != 65 or public_key[0] != b'\x04':
+    if len(public_key) != 65 or public_key[0:1] != b'\x04':
         raise ValueError('public key must be decompressed')
 
     # the public key's elliptic curve point
@@ -113,7 +113,7 @@ def split_private_key(private_key, count = 2):
     secexp = string_to_number(private_key)
 
     # generate random secret exponents, less one
-    secexps = [randrange(curve.order) for i in xrange(count - 1)]
+    secexps = [randrange(curve.order) for i in range(count - 1)]
 
     # compute the missing secret exponent that will sum to the given key
     secexp_missing = (secexp - sum(secexps)) % curve.order
@@ -203,13 +203,13 @@ def partial_split_private_key(private_key, required, total):
         return [partial_encode_key(k, index) for k in keys]
 
     # total sets of required keys
-    keys = [get_keys(i) for i in xrange(0, total)]
+    keys = [get_keys(i) for i in range(0, total)]
 
     # create linearly independent immutable sets of keys
     groups = []
-    for i in xrange(0, total):
+    for i in range(0, total):
         group = []
-        for j in xrange(0, required):
+        for j in range(0, required):
             group.append(keys[(i + j) % total][j])
         groups.append(frozenset(group))
 
@@ -233,11 +233,11 @@ def partial_combine_private_keys(private_keys, ignore_errors = False):
 
         # ...convert private keys to binary form
         private_key = decode_check(key)
-        if not private_key.startswith('\x10\x01'):
+        if not private_key or not private_key.startswith(b'\x10\x01'):
             raise ValueError('invalid combined key: %s' % key)
 
         # ...verify the required number of keys
-        r = ord(private_key[3])
+        r = ord(private_key[3:4])
         if required is None:
             required = r
         elif required != r:
@@ -255,7 +255,7 @@ def partial_combine_private_keys(private_keys, ignore_errors = False):
             raise ValueError('key checksum does not match set: %s' % key)
 
         # ...add this key to the correct key-set
-        index = ord(private_key[2])
+        index = ord(private_key[2:3])
         if index not in parts: parts[index] = set()
         parts[index].add(private_key[8:])
 
-- 
2.43.0


From 91ad9b5d24484e4c27c760c10632dacec248c3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 28/72] fix: the address of a combined key was not the one of
 the combined private key

---
 nbc/util/piecewise.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/util/piecewise.py b/nbc/util/piecewise.py
index dd23fab..a34bd4f 100644
--- a/nbc/util/piecewise.py
+++ b/nbc/util/piecewise.py
@@ -58,7 +58,7 @@ __all__ = ['get_address', 'combine_private_keys']
 def CHR(i):  # compatible to python3
   return bytes(bytearray((i,)))
 
-def get_address(public_key, private_key, version = b'\x00'):
+def get_address(public_key, private_key, version = b'\x00', vcn = 0):
     'Returns the address generated by combiningn a public key and private key.'
 
     # valid public key?
@@ -81,10 +81,10 @@ def get_address(public_key, private_key, version = b'\x00'):
     # compute the new public key
     x = number_to_string(combined.x(), curve.order)
     y = number_to_string(combined.y(), curve.order)
-    key_combined = b'\x00' + x + y
+    key_combined = b'\x04' + x + y
 
     # return the public key's address
-    return publickey_to_address(key_combined, version = version)
+    return publickey_to_address(key_combined, vcn, version = version)
 
 
 def combine_private_keys(private_keys):
-- 
2.43.0


From 1934e0141961de3685a03d8de698ed392f33d908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:50 +0000
Subject: [PATCH 29/72] fix: saving a wallet must not overwrite another file
 that has the temporary name

---
 nbc/wallet/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nbc/wallet/__init__.py b/nbc/wallet/__init__.py
index 2321ba4..153ccff 100644
--- a/nbc/wallet/__init__.py
+++ b/nbc/wallet/__init__.py
@@ -2,6 +2,7 @@
 import json
 import os
 import shutil
+import tempfile
 from .address import Address
 from .hdwallet import HDWallet
 
@@ -13,9 +14,10 @@ def saveTo(fileName, wallet, passphrase=''):
   
   # write aside then rename, so a crash or an error never loses the old file
   fileName = os.path.realpath(fileName)
-  tmpName = fileName + '.tmp'
+  path,name = os.path.split(fileName)
+  fd,tmpName = tempfile.mkstemp(prefix=name+'.',dir=path)
   try:
-    with open(tmpName,'w') as f:
+    with os.fdopen(fd,'w') as f:
       f.write(sCfg)
       f.flush()
       os.fsync(f.fileno())
@@ -27,7 +29,7 @@ def saveTo(fileName, wallet, passphrase=''):
       os.remove(tmpName)
     raise
   
-  fd = os.open(os.path.dirname(fileName),os.O_RDONLY)
+  fd = os.open(path,os.O_RDONLY)
   try:
     os.fsync(fd)   # makes the rename durable
   finally:
-- 
2.43.0


From bbe631733889a288a01874bf382923d66c492fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:51 +0000
Subject: [PATCH 30/72] fix: CFB lost bytes with segments longer than a block

---
 nbc/util/pyaes/aes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbc/util/pyaes/aes.py b/nbc/util/pyaes/aes.py
index 5afbaea..8716be4 100644
--- a/nbc/util/pyaes/aes.py
+++ b/nbc/util/pyaes/aes.py
@@ -407,6 +407,8 @@ class AESModeOfOperationCFB(AESSegmentModeOfOperation):
 
     def __init__(self, key, iv, segment_size = 1):
         if segment_size == 0: segment_size = 1
+        if not 1 <= segment_size <= 16:   # a longer segment would lose bytes
+            raise ValueError('segment size must be between 1 and 16 bytes')
 
         if iv is None:
             self._shift_register = [ 0 ] * 16
-- 
2.43.0


From bdd3e6e50faadffb24190cddc074ced7effc989f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 31/72] fix: var-integers: 9-byte form was not parsed, 0xffff
 and 0xffffffff not canonical, out of range accepted

---
 nbc/protocol/format.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index fc92c12..cc9ab2b 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -227,7 +227,7 @@ class FtNumber(FormatType):
 class FtVarInteger(FormatType):
   @staticmethod
   def validate(obj):
-    if isinstance(obj, int):
+    if isinstance(obj, integer_types) and 0 <= obj <= 0xffffffffffffffff:
       return obj
     return None
   
@@ -235,9 +235,9 @@ class FtVarInteger(FormatType):
   def binary(obj):
     if obj < 0xfd:
       return struct.pack('<B',obj)
-    elif obj < 0xffff:
+    elif obj <= 0xffff:
       return b'\xfd' + struct.pack('<H',obj)
-    elif obj < 0xffffffff:
+    elif obj <= 0xffffffff:
       return b'\xfe' + struct.pack('<I',obj)
     return b'\xff' + struct.pack('<Q',obj)
 
@@ -248,7 +248,7 @@ class FtVarInteger(FormatType):
       return (3,struct.unpack('<H', data[1:3])[0])
     elif value == 0xfe:
       return (5,struct.unpack('<I', data[1:5])[0])
-    elif value == 0xfd:
+    elif value == 0xff:
       return (9,struct.unpack('<Q', data[1:9])[0])
     return (1,value)
   
-- 
2.43.0


From d4c38ad3960a90eae555e9e365bbd41a9ebf6510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 32/72] fix: comparing two out-points raised NameError

---
 nbc/protocol/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index cc9ab2b..d3fadc3 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -446,7 +446,7 @@ class OutPoint(CompoundType):
   def __eq__(self, other):
     if not isinstance(other,OutPoint):
       return False
-    return (self.hash == other.hash) and (self.index == otehr.index)
+    return (self.hash == other.hash) and (self.index == other.index)
 
 class FtOutPoint(FtInventoryVector):
   expected_type = OutPoint
-- 
2.43.0


From 80275a0a81d15d75939c3bb3927887132e007db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 33/72] fix: truncated byte and string fields were accepted

---
 nbc/protocol/format.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index d3fadc3..38bcb32 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -339,6 +339,8 @@ class FtBytes(FormatType):
     return obj
   
   def parse(self, data):
+    if len(data) < self._length:
+      raise ValueError('data too short')
     return (self._length, data[:self._length])
   
   def str(self, obj):
@@ -368,7 +370,9 @@ class FtVarString(FormatType):
     else: data = data.encode('latin-1') # for python3
     (vl,length) = FtVarInteger.parse(data)
     obj = data[vl:vl+length]
-    return (vl + len(obj), obj)
+    if len(obj) < length:
+      raise ValueError('data too short')
+    return (vl + length, obj)
   
   def str(self, obj):
     return repr(obj)
-- 
2.43.0


From 716b02f1765c69060e160ea1eb24cc0d9e871748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 34/72] fix: printing a message with a list of hashes failed on
 python3

---
 nbc/protocol/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 38bcb32..06a4b09 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -344,7 +344,7 @@ class FtBytes(FormatType):
     return (self._length, data[:self._length])
   
   def str(self, obj):
-    return b'0x' + hexlify(obj)
+    return '0x' + hexlify(obj).decode('latin-1')
   
   def __str__(self):
     return '<FtBytes length=%d>' % self._length
-- 
2.43.0


From 1fed880fff174aab6f260f1209905a18657748ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:27 +0000
Subject: [PATCH 35/72] fix: texts which can not be encoded were accepted as
 string fields

---
 nbc/protocol/format.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 06a4b09..24ca1af 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -352,7 +352,13 @@ class FtBytes(FormatType):
 class FtVarString(FormatType):
   @staticmethod
   def validate(obj):
-    if isinstance(obj,(bytes,str)):
+    if isinstance(obj,bytes):
+      return obj
+    if isinstance(obj,str):
+      try:
+        obj.encode('latin-1')  # the encoding used by binary()
+      except UnicodeError as e:
+        return None
       return obj
     return None
   
-- 
2.43.0


From 9bb25e7563fe497278b537ec8416a64ebb005424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:27 +0000
Subject: [PATCH 36/72] fix: IPv6 addresses: "::" was refused, wrong group
 counts and signs accepted

---
 nbc/protocol/format.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 24ca1af..e3a645d 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -274,15 +274,23 @@ class FtIPAddress(FormatType):
   
   @staticmethod
   def _ipv6_groups(obj):  # not support '::192.1.56.10/96'
-    # multiple double-colons or more than 8 groups; bad address
+    # multiple double-colons or not 8 groups; bad address
     objs = obj.split(':')
-    if len(objs) < 2: return None
-    if objs[0] == '' and objs[1] == '':      # starts with ::
+    if len(objs) < 3: return None
+    if objs[0] == '':      # starts with ::
+      if objs[1] != '': return None
       del objs[0]
-    elif objs[-1] == '' and objs[-2] == '':  # ends with ::
-      del objs[-1]
-    if objs.count('') > 1 or len(objs) > 8:
+    if objs[-1] == '':     # ends with ::
+      if len(objs) > 1 and objs[-2] != '': return None
+      if len(objs) > 1: del objs[-1]
+    if '' in objs:
+      if objs.count('') > 1 or len(objs) > 8:
+        return None
+    elif len(objs) != 8:
       return None
+    for group in objs:
+      if len(group) > 4 or group.strip('0123456789abcdefABCDEF'):
+        return None
     
     # calculate each group's value
     groups = []
-- 
2.43.0


From 48d399149b8816d5fd95930fb67bb87a18c57e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:27 +0000
Subject: [PATCH 37/72] fix: IPv4 addresses with signs and blanks were accepted

---
 nbc/protocol/format.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index e3a645d..3ff64de 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -259,10 +259,11 @@ class FtIPAddress(FormatType):
   @staticmethod
   def _ipv4_groups(obj):
     # convert each group to its value
-    try:
-      groups = [int(i) for i in obj.split('.')]
-    except ValueError as e:
-      return None
+    groups = obj.split('.')
+    for group in groups:
+      if group == '' or group.strip('0123456789'):
+        return None
+    groups = [int(i) for i in groups]
     
     if len(groups) != 4:
       return None
-- 
2.43.0


From 2fa7d51e16eec5b837c3191498a8f7cf8b94ceba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:27 +0000
Subject: [PATCH 38/72] fix: message classes with not_regist set were
 registered

---
 nbc/protocol/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 3ff64de..0c05684 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -50,7 +50,7 @@ class _AutoRegister(type):
     
     for base in bases:
       if hasattr(base,'register'):
-        if hasattr(base,'not_regist') and not base.not_regist:
+        if not getattr(cls,'not_regist',False):
           base.register(cls)
         break
 
-- 
2.43.0


From 06d2c1f0e2e16898f646d7a207b6c81638a51e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:27 +0000
Subject: [PATCH 39/72] fix: the filteradd message hid the filterload message

---
 nbc/protocol/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/messages.py b/nbc/protocol/messages.py
index 1bda2e1..d2f298a 100644
--- a/nbc/protocol/messages.py
+++ b/nbc/protocol/messages.py
@@ -280,7 +280,7 @@ class FilterLoad(Message):
     ('n_flags', format.FtNumber('B')),
   ]
 
-class FilterLoad(Message):
+class FilterAdd(Message):
   command = 'filteradd'
   name = "filter_add"
   
-- 
2.43.0


From 2c330a0bc951705bd1b8090415ce4c1f903b7ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:27 +0000
Subject: [PATCH 40/72] fix: merkle block flags are unsigned bytes

---
 nbc/protocol/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/messages.py b/nbc/protocol/messages.py
index d2f298a..d6855d5 100644
--- a/nbc/protocol/messages.py
+++ b/nbc/protocol/messages.py
@@ -311,7 +311,7 @@ class MerkleBlock(Message):
     ('nonce', format.FtNumber('I')),
     ('total_transactions', format.FtNumber('I')),
     ('hashes', format.FtArray(format.FtBytes(32))),
-    ('flags', format.FtArray(format.FtNumber('b'))),
+    ('flags', format.FtArray(format.FtNumber('B'))),
   ]
 
 class Alert(Message):
-- 
2.43.0


From 2abc868a527c4edc83c0926a9d3a3ea16374e081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:27 +0000
Subject: [PATCH 41/72] fix: truncated frames and commands after zero bytes
 were accepted

---
 nbc/protocol/messages.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nbc/protocol/messages.py b/nbc/protocol/messages.py
index d6855d5..81f53e4 100644
--- a/nbc/protocol/messages.py
+++ b/nbc/protocol/messages.py
@@ -90,6 +90,8 @@ class Message(format.CompoundType):
     # get binary payload
     (length, ) = struct.unpack('<I', data[16:20])
     payload = data[24:24 + length]
+    if len(payload) != length:
+      raise MsgFormatError('bad payload length')
     
     # check the checksum
     checksum = hashlib.sha256(hashlib.sha256(payload).digest()).digest()[:4]
@@ -97,7 +99,7 @@ class Message(format.CompoundType):
       raise MsgFormatError('bad checksum')
     
     # get the correct class for this message's command
-    command = data[4:16].strip(b'\x00').decode('latin-1')
+    command = data[4:16].rstrip(b'\x00').decode('latin-1')
     msg_type = cls.MessageTypes.get(command)
     if msg_type is None:
       raise UnknownMsgError('command: %r (%r)' % (command, data))
-- 
2.43.0


From 0b70422ce6139883bfefcecb56d4f7baa646f4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:44 +0000
Subject: [PATCH 42/72] fix: a malformed alert showed partial fields after the
 first error

---
 nbc/protocol/messages.py | 41 +++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/nbc/protocol/messages.py b/nbc/protocol/messages.py
index 81f53e4..df28d76 100644
--- a/nbc/protocol/messages.py
+++ b/nbc/protocol/messages.py
@@ -346,68 +346,71 @@ class Alert(Message):
   status_bar = property(lambda s: s._parse_and_get('status_bar'))
   reserved = property(lambda s: s._parse_and_get('reserved'))
 
+  def _payload_bytes(self):
+    payload = self.payload
+    return payload if isinstance(payload, bytes) else payload.encode('latin-1')
+
   # The above properties will use this method to extract and cache everything
   def _parse_and_get(self, name):
     if not hasattr(self, '_data'):
-      self._data = dict()
-    
-    if not self._data:
-      data = self.payload
+      data = self._payload_bytes()
       
-      self._data = dict()
+      values = dict()
       
       offset = 0
       
       # extract version, relay_until, expiration, id and cancel
       (v, r, e, i, c) = struct.unpack('<iqqii', data[offset:offset + 28])
-      self._data['version'] = v
-      self._data['relay_until'] = r
-      self._data['expiration'] = e
-      self._data['id'] = i
-      self._data['cancel'] = c
+      values['version'] = v
+      values['relay_until'] = r
+      values['expiration'] = e
+      values['id'] = i
+      values['cancel'] = c
       offset += 28
       
       # extract the set of alerts this alert cancels
       (vl, s) = format.parse_var_set(data[offset:], format.FtNumber('i'))
-      self._data['set_cancel'] = s
+      values['set_cancel'] = s
       offset += vl
       
       # extract minimum and maximum versions affecte by this alert
       (minver, maxver) = struct.unpack('<ii', data[offset:offset + 8])
-      self._data['min_ver'] = minver
-      self._data['max_ver'] = maxver
+      values['min_ver'] = minver
+      values['max_ver'] = maxver
       offset += 8
       
       # extract the set of sub-versions affected by this alert
       (vl, s) = format.parse_var_set(data[offset:], format.FtVarString())
-      self._data['set_sub_ver'] = s
+      values['set_sub_ver'] = s
       offset += vl
       
       # extract priority
       (p, ) = struct.unpack('<i', data[offset:offset + 4])
-      self._data['priority'] = p
+      values['priority'] = p
       offset += 4
       
       # extract comment (no need to display)
       (vl, c) = format.FtVarString.parse(data[offset:])
-      self._data['comment'] = c
+      values['comment'] = c
       offset += vl
       
       # extract status bar message (should be shown in the UI)
       (vl, s) = format.FtVarString.parse(data[offset:])
-      self._data['status_bar'] = s
+      values['status_bar'] = s
       offset += vl
       
       # just incase *this* is an old version and the new format includes
       # extra stuff, we can still view it
       (vl, r) = format.FtVarString.parse(data[offset:])
-      self._data['reserved'] = r
+      values['reserved'] = r
       offset += vl
       
+      self._data = values  # only when the whole payload could be parsed
+      
     return self._data[name]
   
   def verify(self, public_key):
-    return util.ecc.verify(self.payload, public_key, self.signature)
+    return util.ecc.verify(self._payload_bytes(), public_key, self.signature)
   
   def __str__(self):
     return '<message.Alert version=%d relay_until=%d expiration=%d id=%d cancel=%d cancel_set=[%s] min_ver=%d maxver=%d set_sub_ver=[%s] priority=%s comment=%r status_bar=%r reserverd=%r>' % (self.version, self.relay_until, self.expiration, self.id, self.cancel, ", ".join(str(i) for i in self.set_cancel), self.min_ver, self.max_ver, ", ".join(self.set_sub_ver), self.priority, self.comment, self.status_bar, self.reserved)
-- 
2.43.0


From 7e0c4843baf34b36c7ae1555f0dcedcd88ad4571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:44 +0000
Subject: [PATCH 43/72] fix: alerts with sub-versions or a malformed payload
 could not be printed

---
 nbc/protocol/messages.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/nbc/protocol/messages.py b/nbc/protocol/messages.py
index df28d76..17a0405 100644
--- a/nbc/protocol/messages.py
+++ b/nbc/protocol/messages.py
@@ -413,7 +413,15 @@ class Alert(Message):
     return util.ecc.verify(self._payload_bytes(), public_key, self.signature)
   
   def __str__(self):
-    return '<message.Alert version=%d relay_until=%d expiration=%d id=%d cancel=%d cancel_set=[%s] min_ver=%d maxver=%d set_sub_ver=[%s] priority=%s comment=%r status_bar=%r reserverd=%r>' % (self.version, self.relay_until, self.expiration, self.id, self.cancel, ", ".join(str(i) for i in self.set_cancel), self.min_ver, self.max_ver, ", ".join(self.set_sub_ver), self.priority, self.comment, self.status_bar, self.reserved)
+    try:
+      self._parse_and_get('version')
+    except Exception as e:  # malformed payload, show it as it is
+      return format.CompoundType.__str__(self)
+    
+    return '<message.Alert version=%d relay_until=%d expiration=%d id=%d cancel=%d cancel_set=[%s] min_ver=%d maxver=%d set_sub_ver=[%s] priority=%s comment=%r status_bar=%r reserverd=%r>' % (self.version, self.relay_until, self.expiration, self.id, self.cancel, ", ".join(str(i) for i in self.set_cancel), self.min_ver, self.max_ver, ", ".join(repr(i) for i in self.set_sub_ver), self.priority, self.comment, self.status_bar, self.reserved)
   
   def _debug(self):
-    return _debug(self, [('s', self.status_bar)])
+    try:
+      return _debug(self, [('s', self.status_bar)])
+    except Exception as e:  # malformed payload
+      return _debug(self, [('p', self.payload)])
-- 
2.43.0


From 4bc21c6fd3c8f704fa94ca46d68dc867c7590759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 44/72] fix: printing a block with a float timestamp failed

---
 nbc/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/__init__.py b/nbc/util/__init__.py
index dee9b45..b04a206 100644
--- a/nbc/util/__init__.py
+++ b/nbc/util/__init__.py
@@ -65,7 +65,7 @@ def commify(value):
 # Block Header Helpers
 
 def get_block_header(version, prev_block, merkle_root, timestamp, bits, nonce):
-    return struct.pack('<I32s32sIII', version, prev_block, merkle_root, timestamp, bits, nonce)
+    return struct.pack('<I32s32sIII', version, prev_block, merkle_root, int(timestamp), bits, nonce)
 
 def verify_target(coin, block_header):
     binary_header = block_header.binary()[:80]
-- 
2.43.0


From 4f1a7843049277d1998ae9b914afd43a85f30eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:37 +0000
Subject: [PATCH 45/72] fix: parsing a list took time quadratic in the size of
 the message

---
 nbc/protocol/format.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 0c05684..8da8254 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -11,9 +11,13 @@ _IP_HEAD_STR = _ZERO_STR10 + b'\xff\xff'
 def ORD(ch):   # compatible to python3
   return ch if type(ch) == int else ord(ch)
 
+def TOBYTES(data):  # bytes(memoryview) differs in python2
+  return data.tobytes() if isinstance(data,memoryview) else data
+
 def parse_var_set(data, kind):
   '''Reads a set of parsable objects prefixed with a VarInteger.'''
   
+  data = memoryview(data)  # slices of it do not copy the remaining data
   (off, count) = FtVarInteger.parse(data)
   ret = []; index = 0
   while index < count:
@@ -93,12 +97,13 @@ class CompoundType(object):
   def parse(cls, data):
     kw = dict()
     offset = 0
+    data = memoryview(data)  # slices of it do not copy the remaining data
     for (key, vt) in cls.properties:
       try:
         (length,kw[key]) = vt.parse(data[offset:])
         offset += length
       except Exception as e:
-        raise ParameterError(key,data[offset:],vt)
+        raise ParameterError(key,data[offset:].tobytes(),vt)
     
     # create without __init__ (would unnecessarily verify the parameters)
     self = cls.__new__(cls)
@@ -320,6 +325,7 @@ class FtIPAddress(FormatType):
   
   @staticmethod
   def parse(data):
+    data = TOBYTES(data[:16])
     if data.startswith(_ZERO_STR10) and data[10:12] == (b'\xff\xff'): # ipv4
       return (16, '.'.join(str(i) for i in struct.unpack('>BBBB', data[12:16])))
     return (16, ':'.join(('%x' % i) for i in struct.unpack('>HHHHHHHH', data[:16])))
@@ -350,7 +356,7 @@ class FtBytes(FormatType):
   def parse(self, data):
     if len(data) < self._length:
       raise ValueError('data too short')
-    return (self._length, data[:self._length])
+    return (self._length, TOBYTES(data[:self._length]))
   
   def str(self, obj):
     return '0x' + hexlify(obj).decode('latin-1')
@@ -380,14 +386,14 @@ class FtVarString(FormatType):
   
   @staticmethod
   def parse(data):
-    if type(data) == bytes:  # bytes == str in python2
+    if isinstance(data,(bytes,memoryview)):  # bytes == str in python2
       pass
     else: data = data.encode('latin-1') # for python3
     (vl,length) = FtVarInteger.parse(data)
     obj = data[vl:vl+length]
     if len(obj) < length:
       raise ValueError('data too short')
-    return (vl + length, obj)
+    return (vl + length, TOBYTES(obj))
   
   def str(self, obj):
     return repr(obj)
-- 
2.43.0


From 180e5f22511df8e66c45a1663f1dbd37a4432922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:59 +0000
Subject: [PATCH 46/72] fix: a listening node could not start where no port
 mapping library exists

---
 nbc/node/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/node/__init__.py b/nbc/node/__init__.py
index 5388a01..da030db 100644
--- a/nbc/node/__init__.py
+++ b/nbc/node/__init__.py
@@ -18,9 +18,9 @@ def _init_upnp():
   global _upnp
   if _upnp: return _upnp
   
-  u = miniupnpc.UPnP()
-  u.discoverdelay = 200
   try:
+    u = miniupnpc.UPnP()  # NameError when not darwin, no port mapping then
+    u.discoverdelay = 200
     print('discovering... delay = %ums' % u.discoverdelay)
     devices = u.discover()
     print('%u device(s) detected' % devices)
-- 
2.43.0


From 9d6512b8eda2dc5f5edc0ed74a2edbe670692959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:59 +0000
Subject: [PATCH 47/72] fix: stopping a node removed a foreign port mapping
 instead of the own one

---
 nbc/node/__init__.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nbc/node/__init__.py b/nbc/node/__init__.py
index da030db..152e888 100644
--- a/nbc/node/__init__.py
+++ b/nbc/node/__init__.py
@@ -13,6 +13,7 @@ class AddrInUseError(Exception): pass
 class StopNode(Exception): pass
 
 _upnp = None
+_mapped = dict()  # map of (port,proto) to the external port of the mapping we added
 
 def _init_upnp():
   global _upnp
@@ -43,11 +44,15 @@ def add_portmap(port, proto, label=''):
     # find a free port for the redirection
     eport = port
     r = u.getspecificportmapping(eport,proto)
-    while r != None and eport < 65536:
+    while r != None and eport < 65535:
       eport = eport + 1
       r = u.getspecificportmapping(eport,proto)
+    if r != None:
+      print('!! no free port')
+      return
     b = u.addportmapping(eport,proto,u.lanaddr,port,label,'')
     if b:
+      _mapped[(port,proto)] = eport
       print('success! now waiting for %s request on %s:%u' % (proto,extAddr,eport))
       return u
     else:
@@ -57,8 +62,10 @@ def add_portmap(port, proto, label=''):
 
 def remove_portmap(port, proto):
   if not _upnp: return
+  eport = _mapped.pop((port,proto),None)
+  if eport is None: return  # no mapping added
   try:
-    b = _upnp.deleteportmapping(port,proto)
+    b = _upnp.deleteportmapping(eport,proto)
     if b:
       print('successfully deleted port mapping')
     else:
-- 
2.43.0


From 47ab28795ad28af0dd6a2a6605218f0335bed80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:59 +0000
Subject: [PATCH 48/72] fix: getaddr was not answered on python3

---
 nbc/node/basenode.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index c5c941b..3d417c9 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -326,11 +326,11 @@ class BaseNode(asyncore.dispatcher, object):
       self._addresses[peer.address] = (peer.timestamp, peer.services)
   
   def command_get_address(self, peer):
-    def sortAddr(a,b):
-      return cmp(self._addresses[b][0],self._addresses[a][0]) # by timestamp and with decrease
+    def timestampOf(address):
+      return self._addresses[address][0]
     
     addresses = []
-    for address in sorted(self._addresses,sortAddr):  # add the most recent peers
+    for address in sorted(self._addresses,key=timestampOf,reverse=True):  # add the most recent peers
       (timestamp, services) = self._addresses[address]
       if services is None: continue
       
-- 
2.43.0


From 202e7789c7c760bb1fca3d2208a21bbca032c36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:59 +0000
Subject: [PATCH 49/72] fix: a banned peer could connect again at once

---
 nbc/node/basenode.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 3d417c9..b9ecb44 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -253,11 +253,11 @@ class BaseNode(asyncore.dispatcher, object):
     (sock,address) = pair
     print('Incoming connection from %s' % repr(address))
     
-    if address in self._banned:
-      if time.time() - self._banned[address] < 3600:
+    if address[0] in self._banned:  # banned by ip, whatever the port
+      if time.time() - self._banned[address[0]] < 3600:
         sock.close()            # banned it within one hour
         return
-      del self._banned[address] # else, ignore early banned list
+      del self._banned[address[0]] # else, ignore early banned list
     
     if not self._listen: # if not accepting incoming, drop it
       sock.close()
-- 
2.43.0


From f9c7b3ad3ee5ba51989d8d70e60dce4ed67424d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:59 +0000
Subject: [PATCH 50/72] fix: the address book could exceed its maximum, a full
 one was not updated

---
 nbc/node/basenode.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index b9ecb44..521750f 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -322,7 +322,7 @@ class BaseNode(asyncore.dispatcher, object):
     peer.send_message(protocol.VersionAck())
   
   def command_version_ack(self, peer): # a peer acknowledged us, record address
-    if len(self._addresses) < MAX_ADDRESSES:
+    if peer.address in self._addresses or len(self._addresses) < MAX_ADDRESSES:
       self._addresses[peer.address] = (peer.timestamp, peer.services)
   
   def command_get_address(self, peer):
@@ -342,8 +342,9 @@ class BaseNode(asyncore.dispatcher, object):
   
   def command_address(self, peer, addr_list):
     for address in addr_list:
-      if len(self._addresses) > MAX_ADDRESSES: return
-      self._addresses[(address.address,address.port)] = (address.timestamp,address.services)
+      key = (address.address,address.port)
+      if key in self._addresses or len(self._addresses) < MAX_ADDRESSES:
+        self._addresses[key] = (address.timestamp,address.services)
 
 def startServer(node):
   ts = Thread(target=node.serve_forever)
-- 
2.43.0


From 4aa30f950214a79f65dc4899c429e848db8482ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:59 +0000
Subject: [PATCH 51/72] fix: a port in use was only recognised on darwin

---
 nbc/node/basenode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 521750f..2a06f18 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -1,5 +1,5 @@
 
-import sys, time, asyncore, socket, random
+import sys, time, errno, asyncore, socket, random
 from threading import Event, Thread
 
 from six import print_
@@ -81,7 +81,7 @@ class BaseNode(asyncore.dispatcher, object):
       if address[1] == 0: # if bound to a random port, keep track
         self._address = self.getsockname()
     except socket.error as e:  # port in use... Maybe already running
-      if e.errno == 48:
+      if e.errno == errno.EADDRINUSE:
         raise AddrInUseError()
       raise e
   
-- 
2.43.0


From 84de3218f2a721853b95b80d237ec4fdf59c667a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:59 +0000
Subject: [PATCH 52/72] fix: no peer was added after somebody announced our own
 address

---
 nbc/node/basenode.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 2a06f18..3bf7f76 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -207,6 +207,7 @@ class BaseNode(asyncore.dispatcher, object):
       actives = [n.address for n in peers]
       for address in self._addresses:
         if address in actives: continue  # ignore already connected one
+        if address == self.address: continue  # ignore ourself
         self.add_peer(address)           # try add one peer
         break
   
-- 
2.43.0


From 7d38bcfa0637b576e05ef560364ad69aa7222188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:59 +0000
Subject: [PATCH 53/72] fix: an error while accepting a peer closed the
 listening socket

---
 nbc/node/basenode.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 3bf7f76..cfd15b1 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -1,5 +1,5 @@
 
-import sys, time, errno, asyncore, socket, random
+import sys, time, errno, asyncore, socket, random, traceback
 from threading import Event, Thread
 
 from six import print_
@@ -264,7 +264,14 @@ class BaseNode(asyncore.dispatcher, object):
       sock.close()
       return
     
-    connection.Connection(node=self,sock=sock,address=address) # asyncore will keep a reference in map for us
+    try:
+      connection.Connection(node=self,sock=sock,address=address) # asyncore will keep a reference in map for us
+    except Exception as e:   # peer is already gone
+      self.log('meet error: %s' % e)
+      sock.close()
+  
+  def handle_error(self):    # failed to accept, should not close the listening socket
+    self.log(traceback.format_exc(),level=self.LOG_LEVEL_ERROR)
   
   def readable(self):
     return True
-- 
2.43.0


From bb6b6159774010f323e03bb8fd91cc3b9fc5ae12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:59 +0000
Subject: [PATCH 54/72] fix: any number of incoming connections was accepted,
 which stops the event loop at the limit of select()

---
 nbc/node/basenode.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index cfd15b1..e9fb189 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -260,6 +260,10 @@ class BaseNode(asyncore.dispatcher, object):
         return
       del self._banned[address[0]] # else, ignore early banned list
     
+    if len(self.peers) >= self._max_peers: # too much peers (select can not handle any number)
+      sock.close()
+      return
+    
     if not self._listen: # if not accepting incoming, drop it
       sock.close()
       return
-- 
2.43.0


From 5ff457a69cd2b4162de5d2aaa32b5a0812883368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:25 +0000
Subject: [PATCH 55/72] fix: a node bound to all interfaces or to a host name
 could not build its version message

---
 nbc/node/basenode.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index e9fb189..9dd9e3f 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -80,6 +80,7 @@ class BaseNode(asyncore.dispatcher, object):
       
       if address[1] == 0: # if bound to a random port, keep track
         self._address = self.getsockname()
+      self._guessed_external_ip = self.getsockname()[0]  # address[0] can be a host name or empty
     except socket.error as e:  # port in use... Maybe already running
       if e.errno == errno.EADDRINUSE:
         raise AddrInUseError()
-- 
2.43.0


From 0af39c012b2a368daf3e80a2886e18f314b56653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:25 +0000
Subject: [PATCH 56/72] fix: a connection closed while data was pending stopped
 the event loop, and its messages were still handled

---
 nbc/node/connection.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 513510f..4d4e87b 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -40,6 +40,7 @@ class Connection(asyncore.dispatcher):
     self._version = None
     self._relay = None
     
+    self._closed = False
     self._banscore = 0
     self._verack = False # get version acknowledgement or not
     
@@ -103,6 +104,8 @@ class Connection(asyncore.dispatcher):
     self._banscore = 0 if i < 0 else i
   
   def readable(self):
+    if self._closed: return False
+    
     now = time.time()
     rx_ago = now - self._last_rx_time
     tx_ago = now - self._last_tx_time
@@ -135,7 +138,7 @@ class Connection(asyncore.dispatcher):
     self._last_rx_time = time.time()
     
     # process as many messages
-    while True:
+    while not self._closed:  # handling a message may close us
       length = protocol.Message.first_msg_len(self._recv_buffer)
       if length is None or length > len(self._recv_buffer):
         break  # not enough bytes for next message
@@ -154,7 +157,7 @@ class Connection(asyncore.dispatcher):
         self.node.log(traceback.format_exc(),peer=self,level=self.node.LOG_LEVEL_ERROR)
   
   def writable(self):
-    return len(self._send_buffer) > 0
+    return len(self._send_buffer) > 0 and not self._closed
   
   def handle_write(self):
     try:
@@ -177,6 +180,9 @@ class Connection(asyncore.dispatcher):
     self.handle_close()
   
   def handle_close(self):
+    if self._closed: return
+    self._closed = True
+    
     try:
       self.close()
     except Exception as e:
-- 
2.43.0


From cdcab1aa48b5282ae370e68e6aa14eef57f45513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:25 +0000
Subject: [PATCH 57/72] fix: comparing connections never ended

---
 nbc/node/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 4d4e87b..2940f53 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -229,7 +229,7 @@ class Connection(asyncore.dispatcher):
     return hash(self.address)
 
   def __eq__(self, other):
-    return self == other
+    return isinstance(other,Connection) and self.address == other.address
   
   def __str__(self):
     return '<Connection(%s) %s:%d>' % (self._fileno,self.ip,self.port)
-- 
2.43.0


From a67d1ae7bcda1635cde883142ba0807fe82ab7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:25 +0000
Subject: [PATCH 58/72] fix: the address of a peer was recorded with the age
 instead of the time it was heard

---
 nbc/node/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 2940f53..4b67a29 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -94,7 +94,7 @@ class Connection(asyncore.dispatcher):
   banscore = property(lambda s: s._banscore)
   
   # last time we heard from remote
-  timestamp = property(lambda s: (time.time() - s._last_rx_time))
+  timestamp = property(lambda s: s._last_rx_time)
   
   def add_banscore(self, penalty=1):
     self._banscore += penalty
-- 
2.43.0


From 8e4237aa9f564c4bd1ca5961ce1e95e989d64f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:25 +0000
Subject: [PATCH 59/72] fix: a peer which never sends anything was never
 disconnected

---
 nbc/node/connection.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 4b67a29..5ecddca 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -27,9 +27,9 @@ class Connection(asyncore.dispatcher):
     self._tx_bytes = 0
     self._rx_bytes = 0
     
-    self._last_tx_time = 0
+    self._last_tx_time = time.time()
     self._last_ping_time = 0
-    self._last_rx_time = 0
+    self._last_rx_time = time.time()
     
     # remote node details
     self._address = address
@@ -112,12 +112,12 @@ class Connection(asyncore.dispatcher):
     ping_ago = now - self._last_ping_time
     
     # haven't sent anything for 30 minutes, send a ping every 5 minutes
-    if self._last_tx_time and tx_ago > _SECONDS_OF_30M and ping_ago > _SECONDS_OF_5M:
+    if tx_ago > _SECONDS_OF_30M and ping_ago > _SECONDS_OF_5M:
       self.send_message(protocol.Ping(os.urandom(8)))
       self._last_ping_time = time.time()
     
     # it's been over 3 hours, just disconnect
-    if self._last_rx_time and rx_ago > _SECONDS_OF_180M:
+    if rx_ago > _SECONDS_OF_180M:
       self.handle_close()
       return False
     return True
-- 
2.43.0


From 05a21cdc25d78b4931daad51084963481ba291ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:25 +0000
Subject: [PATCH 60/72] fix: a refused write counted as something sent

---
 nbc/node/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 5ecddca..577d7c4 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -164,7 +164,7 @@ class Connection(asyncore.dispatcher):
       sent = self.send(self._send_buffer)
       self._tx_bytes += sent
       self.node._tx_bytes += sent
-      self._last_tx_time = time.time()
+      if sent: self._last_tx_time = time.time()
     except Exception as e:
       self.handle_close()
       return
-- 
2.43.0


From 751aac99ac5b9e01500d6ef53b2e72e1e9833a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:25 +0000
Subject: [PATCH 61/72] fix: a connection stayed open though adding the peer
 reported failure

---
 nbc/node/connection.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 577d7c4..ee66f63 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -59,8 +59,9 @@ class Connection(asyncore.dispatcher):
       self._incoming = False
     
     # bootstrap communication with the node by broadcasting ver
-    now = time.time()
-    message = protocol.Version( version = node.coin.protocol_version,
+    try:
+      now = time.time()
+      message = protocol.Version( version = node.coin.protocol_version,
                 services = self.SERVICES,
                 timestamp = now,
                 addr_recv = protocol.NetworkAddress(now,self.SERVICES,address[0],address[1]),
@@ -69,7 +70,10 @@ class Connection(asyncore.dispatcher):
                 user_agent = node.user_agent,
                 start_height = node.blockchain_height,
                 relay = False )
-    self.send_message(message)
+      self.send_message(message)
+    except Exception as e:  # do not leave a connection without version
+      self.handle_close()
+      raise e
   
   # remote node details
   address = property(lambda s: s._address)
-- 
2.43.0


From 524ae65a9049ec5c3cf50e0d6b1df2937b3893ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:25 +0000
Subject: [PATCH 62/72] fix: a connection was closed when there was nothing to
 read

---
 nbc/node/connection.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index ee66f63..2649948 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -1,5 +1,6 @@
 
 import asyncore
+import errno
 import os
 import socket
 import sys
@@ -129,6 +130,10 @@ class Connection(asyncore.dispatcher):
   def handle_read(self):
     try:
       chunk = self.recv(BLOCK_SIZE)
+    except socket.error as e:
+      if e.errno in (errno.EWOULDBLOCK,errno.EAGAIN,errno.EINTR):
+        return       # nothing to read, not closed
+      chunk = ''
     except Exception as e:
       chunk = ''
     
-- 
2.43.0


From fa93ca09f684b9ca0b783861293292b716374364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:08 +0000
Subject: [PATCH 63/72] fix: a log which can not be written stopped the event
 loop

---
 nbc/node/basenode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 9dd9e3f..213bccb 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -123,7 +123,10 @@ class BaseNode(asyncore.dispatcher, object):
       source = peer.address[0]
     else: source = 'node'
     message = '(%s) %s' % (source, message)
-    print_(message,file=self._log)
+    try:
+      print_(message,file=self._log)
+    except Exception as e:  # a failing log (disk, encoding) should not stop the node
+      pass
   
   def serve_forever(self):
     if self._listen:
-- 
2.43.0


From a25a38cda541c53d855a1452e50b1a40a983979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:55 +0000
Subject: [PATCH 64/72] fix: a node on a random port could not be created on
 python3

---
 nbc/node/basenode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 213bccb..b08f36e 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -79,8 +79,8 @@ class BaseNode(asyncore.dispatcher, object):
       self.listen(5)
       
       if address[1] == 0: # if bound to a random port, keep track
-        self._address = self.getsockname()
-      self._guessed_external_ip = self.getsockname()[0]  # address[0] can be a host name or empty
+        self._address = self.socket.getsockname()
+      self._guessed_external_ip = self.socket.getsockname()[0]  # address[0] can be a host name or empty
     except socket.error as e:  # port in use... Maybe already running
       if e.errno == errno.EADDRINUSE:
         raise AddrInUseError()
-- 
2.43.0


From 970490696efd77176f9dae3de5da2c36a4dd0feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 65/72] fix: partial key-sets could not be QR encoded or
 decoded on python3

---
 nbc/util/piecewise.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/nbc/util/piecewise.py b/nbc/util/piecewise.py
index a34bd4f..cf7b12d 100644
--- a/nbc/util/piecewise.py
+++ b/nbc/util/piecewise.py
@@ -280,12 +280,12 @@ def partial_split_qr_encode(private_keys):
     binary = []
 
     for private_key in map(decode_check, private_keys):
-        if private_key[0:2] != '\x10\x01':
+        if not private_key or private_key[0:2] != b'\x10\x01':
             raise ValueError('invalid combined key')
 
         if required is None:
-            required = ord(private_key[3])
-        elif ord(private_key[3]) != required:
+            required = ord(private_key[3:4])
+        elif ord(private_key[3:4]) != required:
             raise ValueError('unmatched private keys')
 
         if checksum is None:
@@ -293,11 +293,11 @@ def partial_split_qr_encode(private_keys):
         elif private_key[4:8] != checksum:
             raise ValueError('unmatched private keys')
 
-        binary.append((ord(private_key[2]), private_key[8:]))
+        binary.append((ord(private_key[2:3]), private_key[8:]))
 
     binary.sort()
     missing = len(binary)
-    for i in xrange(0, len(binary)):
+    for i in range(0, len(binary)):
         if binary[i][0] != i:
             missing = i
             break
@@ -305,23 +305,26 @@ def partial_split_qr_encode(private_keys):
     for private_key in binary:
         qr += private_key[1]
 
-    return base64.b32encode(qr).strip('=')
+    return base64.b32encode(qr).strip(b'=')
 
 def partial_split_qr_decode(qr_code):
     'Decode a partial key-set QR code.'
 
+    if not isinstance(qr_code, bytes):
+        qr_code = qr_code.encode('ascii')
+
     # calculate padding that would have been stripped
     padding = (len(qr_code) * 5 - 9 * 8) % 32
-    binary = base64.b32decode(qr_code + ('=' * padding))
+    binary = base64.b32decode(qr_code + (b'=' * padding))
 
     # check the header
-    if not binary.startswith('\x84\x7c\x20'):
+    if not binary.startswith(b'\x84\x7c\x20'):
         raise ValueError('invalid header')
 
     # the missing index for this set
-    missing = ord(binary[3])
+    missing = ord(binary[3:4])
 
-    required = ord(binary[4])
+    required = ord(binary[4:5])
     checksum = binary[5:9]
 
     # extract each binary key and recompose the key
-- 
2.43.0


From aa347ee03341aa3373e03a503deaaeb28b9e336f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 66/72] fix: QR codes of most partial key-sets could not be
 decoded

---
 nbc/util/piecewise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/piecewise.py b/nbc/util/piecewise.py
index cf7b12d..e3b629d 100644
--- a/nbc/util/piecewise.py
+++ b/nbc/util/piecewise.py
@@ -314,7 +314,7 @@ def partial_split_qr_decode(qr_code):
         qr_code = qr_code.encode('ascii')
 
     # calculate padding that would have been stripped
-    padding = (len(qr_code) * 5 - 9 * 8) % 32
+    padding = -len(qr_code) % 8
     binary = base64.b32decode(qr_code + (b'=' * padding))
 
     # check the header
-- 
2.43.0


From 607917c9e24b97c1738babffd870290f01f3d39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:05 +0000
Subject: [PATCH 67/72] fix: QR codes of key-sets with a wider gap decoded to
 other keys

---
 nbc/util/piecewise.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nbc/util/piecewise.py b/nbc/util/piecewise.py
index e3b629d..9691ca4 100644
--- a/nbc/util/piecewise.py
+++ b/nbc/util/piecewise.py
@@ -301,6 +301,12 @@ def partial_split_qr_encode(private_keys):
         if binary[i][0] != i:
             missing = i
             break
+
+    # only one index can be left out
+    indices = [index for (index, key) in binary]
+    if indices != [i for i in range(0, len(binary) + 1) if i != missing]:
+        raise ValueError('key-set can not be encoded')
+
     qr = b'\x84\x7c\x20' + CHR(missing) + CHR(required) + checksum
     for private_key in binary:
         qr += private_key[1]
-- 
2.43.0


From 576e1545ea232c77b27bbfaeef10aeb741cdc96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 68/72] fix: connections stayed open after the node stopped

---
 nbc/node/basenode.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index b08f36e..7d5ff18 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -141,6 +141,9 @@ class BaseNode(asyncore.dispatcher, object):
       
       if self._listen:
         remove_portmap(self.port,'TCP')
+      
+      for peer in self.peers:  # nobody will serve them any more
+        peer.handle_close()
   
   def close(self):
     asyncore.dispatcher.close(self)
-- 
2.43.0


From 4f6903edaf04f387401b6c6937d6f3ec211cf2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 69/72] fix: a node which could not be created left its socket
 open

---
 nbc/node/basenode.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 7d5ff18..9865dd0 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -82,6 +82,7 @@ class BaseNode(asyncore.dispatcher, object):
         self._address = self.socket.getsockname()
       self._guessed_external_ip = self.socket.getsockname()[0]  # address[0] can be a host name or empty
     except socket.error as e:  # port in use... Maybe already running
+      self.close()
       if e.errno == errno.EADDRINUSE:
         raise AddrInUseError()
       raise e
-- 
2.43.0


From 698b7ca026bfd12aaf3dcc2d07e1b312051c55d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:39 +0000
Subject: [PATCH 70/72] fix: sign_digest_deterministic without a hashfunc uses
 the key's default one

---
 nbc/util/ecdsa/keys.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbc/util/ecdsa/keys.py b/nbc/util/ecdsa/keys.py
index 2ce9c2a..1ec4fc5 100644
--- a/nbc/util/ecdsa/keys.py
+++ b/nbc/util/ecdsa/keys.py
@@ -231,6 +231,7 @@ class SigningKey:
         random generator and producing deterministic (reproducible) signatures.
         See RFC 6979 for more details.
         """
+        hashfunc = hashfunc or self.default_hashfunc
         secexp = self.privkey.secret_multiplier
         k = rfc6979.generate_k(self.curve.generator, secexp, hashfunc, digest)
 
-- 
2.43.0


From 7218c1c5b2195caa8bb8d2b3c8fd84d15157e512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:37 +0000
Subject: [PATCH 71/72] fix: two nodes with one port on different addresses
 mixed up their port mappings

---
 nbc/node/__init__.py | 10 +++++-----
 nbc/node/basenode.py |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/nbc/node/__init__.py b/nbc/node/__init__.py
index 152e888..0db86b3 100644
--- a/nbc/node/__init__.py
+++ b/nbc/node/__init__.py
@@ -13,7 +13,7 @@ class AddrInUseError(Exception): pass
 class StopNode(Exception): pass
 
 _upnp = None
-_mapped = dict()  # map of (port,proto) to the external port of the mapping we added
+_mapped = dict()  # map of (port,proto,owner) to the external port of the mapping we added
 
 def _init_upnp():
   global _upnp
@@ -30,7 +30,7 @@ def _init_upnp():
     print('!! meet Exception: %s' % e)
   return _upnp
 
-def add_portmap(port, proto, label=''):
+def add_portmap(port, proto, label='', owner=None):  # owner tells apart nodes with the same port
   u = _init_upnp()
   try:
     u.selectigd()  # select Internet Gateway Device
@@ -52,7 +52,7 @@ def add_portmap(port, proto, label=''):
       return
     b = u.addportmapping(eport,proto,u.lanaddr,port,label,'')
     if b:
-      _mapped[(port,proto)] = eport
+      _mapped[(port,proto,owner)] = eport
       print('success! now waiting for %s request on %s:%u' % (proto,extAddr,eport))
       return u
     else:
@@ -60,9 +60,9 @@ def add_portmap(port, proto, label=''):
   except Exception as e:
     print('!! meet Exception: %s' % e)
 
-def remove_portmap(port, proto):
+def remove_portmap(port, proto, owner=None):
   if not _upnp: return
-  eport = _mapped.pop((port,proto),None)
+  eport = _mapped.pop((port,proto,owner),None)
   if eport is None: return  # no mapping added
   try:
     b = _upnp.deleteportmapping(eport,proto)
diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 9865dd0..6481355 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -131,7 +131,7 @@ class BaseNode(asyncore.dispatcher, object):
   
   def serve_forever(self):
     if self._listen:
-      self._upnp = add_portmap(self.port,'TCP','Newbitcoin Peer manager')
+      self._upnp = add_portmap(self.port,'TCP','Newbitcoin Peer manager',self.address)
     
     try:
       asyncore.loop(5,map=self)
@@ -141,7 +141,7 @@ class BaseNode(asyncore.dispatcher, object):
       self.handle_close()
       
       if self._listen:
-        remove_portmap(self.port,'TCP')
+        remove_portmap(self.port,'TCP',self.address)
       
       for peer in self.peers:  # nobody will serve them any more
         peer.handle_close()
-- 
2.43.0


From dea98ff1a5b4fa799897daba3c6909f18246f1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:37 +0000
Subject: [PATCH 72/72] fix: two nodes starting at once could take the same
 external port

---
 nbc/node/__init__.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/nbc/node/__init__.py b/nbc/node/__init__.py
index 0db86b3..4d6853e 100644
--- a/nbc/node/__init__.py
+++ b/nbc/node/__init__.py
@@ -1,5 +1,7 @@
 
 import sys
+import functools
+from threading import Lock
 from six import PY3
 
 if PY3:
@@ -15,6 +17,14 @@ class StopNode(Exception): pass
 _upnp = None
 _mapped = dict()  # map of (port,proto,owner) to the external port of the mapping we added
 
+_lock = Lock()
+def _locked(func):  # nodes of other threads should not look for a free port at the same time
+  @functools.wraps(func)
+  def locked(*args, **kw):
+    with _lock:
+      return func(*args,**kw)
+  return locked
+
 def _init_upnp():
   global _upnp
   if _upnp: return _upnp
@@ -30,6 +40,7 @@ def _init_upnp():
     print('!! meet Exception: %s' % e)
   return _upnp
 
+@_locked
 def add_portmap(port, proto, label='', owner=None):  # owner tells apart nodes with the same port
   u = _init_upnp()
   try:
@@ -60,6 +71,7 @@ def add_portmap(port, proto, label='', owner=None):  # owner tells apart nodes w
   except Exception as e:
     print('!! meet Exception: %s' % e)
 
+@_locked
 def remove_portmap(port, proto, owner=None):
   if not _upnp: return
   eport = _mapped.pop((port,proto,owner),None)
-- 
2.43.0

