From 2c48c9f185f4a43bc5455f260d6bfbabed69e8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 01/34] fix: UInt comparison ignored the least significant byte

---
 neocore/UIntBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/UIntBase.py b/neocore/UIntBase.py
index 42d60b0..49fbbc9 100644
--- a/neocore/UIntBase.py
+++ b/neocore/UIntBase.py
@@ -92,7 +92,7 @@ class UIntBase(SerializableMixin):
 
         length = len(x)
 
-        for i in range(length - 1, 0, -1):
+        for i in range(length - 1, -1, -1):
             if x[i] > y[i]:
                 return 1
             if x[i] < y[i]:
-- 
2.43.0


From b8ef793a3a2953ce5d10c9f6cb875b020101c8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 02/34] fix: UInt shared the caller's buffer, so its bytes
 could change under its cached hash

---
 neocore/UIntBase.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/neocore/UIntBase.py b/neocore/UIntBase.py
index 49fbbc9..fcc455e 100644
--- a/neocore/UIntBase.py
+++ b/neocore/UIntBase.py
@@ -17,10 +17,8 @@ class UIntBase(SerializableMixin):
             if len(data) != num_bytes:
                 raise Exception("Invalid UInt: data length {} != specified num_bytes {}".format(len(data), num_bytes))
 
-            if type(data) is bytes:
+            if type(data) is bytes or type(data) is bytearray:
                 self.Data = bytearray(data)
-            elif type(data) is bytearray:
-                self.Data = data
             else:
                 raise Exception("Invalid format")
 
-- 
2.43.0


From 07afd23168b61f2f8505f9293678517b8dbb62ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 03/34] fix: UInt deserialized from a truncated stream silently
 became shorter

---
 neocore/UIntBase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/UIntBase.py b/neocore/UIntBase.py
index fcc455e..9f22c7e 100644
--- a/neocore/UIntBase.py
+++ b/neocore/UIntBase.py
@@ -37,7 +37,7 @@ class UIntBase(SerializableMixin):
         writer.WriteBytes(self.Data)
 
     def Deserialize(self, reader):
-        self.Data = reader.ReadBytes(self.Size)
+        self.Data = bytearray(reader.SafeReadBytes(self.Size))
         self.__hash = self.GetHashCode()
 
     def ToArray(self):
-- 
2.43.0


From 208b73a110b6db44f1bda71f4cdb32514f2508a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 04/34] fix: WriteFixedString wrote text that looks like hex at
 half its length

---
 neocore/IO/BinaryWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/IO/BinaryWriter.py b/neocore/IO/BinaryWriter.py
index 1904eec..25eaa97 100644
--- a/neocore/IO/BinaryWriter.py
+++ b/neocore/IO/BinaryWriter.py
@@ -386,7 +386,7 @@ class BinaryWriter(object):
         slen = len(towrite)
         if slen > length:
             raise Exception("string longer than fixed length: %s " % length)
-        self.WriteBytes(towrite)
+        self.WriteBytes(towrite, unhex=False)
         diff = length - slen
 
         while diff > 0:
-- 
2.43.0


From 7ac9af0bcc579bea3fa3765da505eb17a67ef594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 05/34] fix: hash lists wrote hashes whose bytes look like hex
 at half their length

---
 neocore/IO/BinaryWriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neocore/IO/BinaryWriter.py b/neocore/IO/BinaryWriter.py
index 25eaa97..0657817 100644
--- a/neocore/IO/BinaryWriter.py
+++ b/neocore/IO/BinaryWriter.py
@@ -417,7 +417,7 @@ class BinaryWriter(object):
         for item in arr:
             ba = bytearray(binascii.unhexlify(item))
             ba.reverse()
-            self.WriteBytes(ba)
+            self.WriteBytes(ba, unhex=False)
 
     def WriteHashes(self, arr):
         """
@@ -432,7 +432,7 @@ class BinaryWriter(object):
             ba = bytearray(binascii.unhexlify(item))
             ba.reverse()
             #            logger.info("WRITING HASH %s " % ba)
-            self.WriteBytes(ba)
+            self.WriteBytes(ba, unhex=False)
 
     def WriteFixed8(self, value, unsigned=False):
         """
-- 
2.43.0


From b3cde1f2a8b2ef68a7756428e88dfa17dee2a8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 06/34] fix: WriteByte and WriteVarInt silently wrote nothing
 for int subclasses

---
 neocore/IO/BinaryWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/IO/BinaryWriter.py b/neocore/IO/BinaryWriter.py
index 0657817..488aa1e 100644
--- a/neocore/IO/BinaryWriter.py
+++ b/neocore/IO/BinaryWriter.py
@@ -82,7 +82,7 @@ class BinaryWriter(object):
             self.stream.write(value)
         elif type(value) is str:
             self.stream.write(value.encode('utf-8'))
-        elif type(value) is int:
+        elif isinstance(value, int):
             self.stream.write(bytes([value]))
 
     def WriteBytes(self, value, unhex=True):
-- 
2.43.0


From 012b5cda571dead6c4d6d9548dc9e65643e5b263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 07/34] fix: WriteVarString failed for encodings that are not
 ASCII compatible

---
 neocore/IO/BinaryWriter.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/neocore/IO/BinaryWriter.py b/neocore/IO/BinaryWriter.py
index 488aa1e..b86210d 100644
--- a/neocore/IO/BinaryWriter.py
+++ b/neocore/IO/BinaryWriter.py
@@ -368,11 +368,8 @@ class BinaryWriter(object):
             value = value.encode(encoding)
 
         length = len(value)
-        ba = bytearray(value)
-        byts = binascii.hexlify(ba)
-        string = byts.decode(encoding)
         self.WriteVarInt(length)
-        self.WriteBytes(string)
+        self.WriteBytes(value, unhex=False)
 
     def WriteFixedString(self, value, length):
         """
-- 
2.43.0


From 363f6b50a12413e7c0d13f76087f0bddb8dae02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 08/34] fix: WriteVarInt left a stray byte in the stream when
 refusing a too large value

---
 neocore/IO/BinaryWriter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/neocore/IO/BinaryWriter.py b/neocore/IO/BinaryWriter.py
index b86210d..e0a6165 100644
--- a/neocore/IO/BinaryWriter.py
+++ b/neocore/IO/BinaryWriter.py
@@ -312,7 +312,7 @@ class BinaryWriter(object):
 
         Raises:
             TypeError: if `value` is not of type int.
-            Exception: if `value` is < 0.
+            Exception: if `value` is < 0 or does not fit in 64 bits.
 
         Returns:
             int: the number of bytes written.
@@ -334,10 +334,13 @@ class BinaryWriter(object):
             self.WriteByte(0xfe)
             return self.WriteUInt32(value, endian)
 
-        else:
+        elif value <= 0xFFFFFFFFFFFFFFFF:
             self.WriteByte(0xff)
             return self.WriteUInt64(value, endian)
 
+        else:
+            raise Exception('%d too big.' % value)
+
     def WriteVarBytes(self, value, endian="<"):
         """
         Write an integer value in a space saving way to the stream.
-- 
2.43.0


From 1fc3e9973cbd480150d632cf7a036724242d6e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 09/34] fix: Fixed8 division and rounding were wrong for
 amounts a float cannot hold

---
 neocore/Fixed8.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/neocore/Fixed8.py b/neocore/Fixed8.py
index cab8d25..5f51167 100644
--- a/neocore/Fixed8.py
+++ b/neocore/Fixed8.py
@@ -7,8 +7,6 @@ Usage:
     from neocore.Fixed8 import Fixed8
 """
 
-import math
-
 
 class Fixed8:
     value = 0
@@ -88,7 +86,9 @@ class Fixed8:
         return self.__mul__(other)
 
     def __truediv__(self, other):
-        return Fixed8(int(self.value / other.value))
+        # integer arithmetic: a float quotient is not exact above 2**53
+        quotient = abs(self.value) // abs(other.value)
+        return Fixed8(quotient if (self.value < 0) == (other.value < 0) else -quotient)
 
     def __floordiv__(self, other):
         return Fixed8(self.value // other.value)
@@ -124,13 +124,14 @@ class Fixed8:
         return self.value <= other.value
 
     def Ceil(self):
-        return Fixed8(math.ceil(self.value / Fixed8.D) * Fixed8.D)
+        return Fixed8(-(-self.value // Fixed8.D) * Fixed8.D)
 
     def Floor(self):
-        return Fixed8(math.floor(self.value / Fixed8.D) * Fixed8.D)
+        return Fixed8(self.value // Fixed8.D * Fixed8.D)
 
     def ToInt(self):
-        return int(self.value / Fixed8.D)
+        whole = abs(self.value) // Fixed8.D
+        return whole if self.value >= 0 else -whole
 
     def ToString(self):
         return str(self.value / Fixed8.D)
-- 
2.43.0


From 94e395d61de0d79574b5213b7dcace0926a9ad3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 10/34] fix: Fixed8 parsing lost satoshis to float rounding and
 raised on nan and inf

---
 neocore/Fixed8.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/neocore/Fixed8.py b/neocore/Fixed8.py
index 5f51167..cfd48d8 100644
--- a/neocore/Fixed8.py
+++ b/neocore/Fixed8.py
@@ -7,6 +7,12 @@ Usage:
     from neocore.Fixed8 import Fixed8
 """
 
+import math
+from decimal import Context, Decimal, MAX_EMAX, MAX_PREC, MIN_EMIN
+
+# products of Decimals are not rounded in this context
+EXACT = Context(prec=MAX_PREC, Emax=MAX_EMAX, Emin=MIN_EMIN)
+
 
 class Fixed8:
     value = 0
@@ -27,7 +33,13 @@ class Fixed8:
 
     @staticmethod
     def FromDecimal(number):
-        out = int(number * Fixed8.D)
+        if isinstance(number, float):
+            # the amount as written: 0.29 * D is 28999999.999999996 in floats
+            number = Decimal(repr(float(number)))
+        if isinstance(number, Decimal):
+            out = int(EXACT.multiply(number, Fixed8.D))
+        else:
+            out = int(number * Fixed8.D)
         return Fixed8(out)
 
     @staticmethod
@@ -60,10 +72,19 @@ class Fixed8:
                 pass
         if val is not None:
 
+            if isinstance(val, float) and not math.isfinite(val):
+                return None
+
+            # a float does not hold every digit of these
+            if isinstance(value, (int, Decimal)):
+                val = value
+            elif isinstance(value, str):
+                val = Decimal(value)
+
             if require_positive and val < 0:
                 return None
 
-            return Fixed8(int(val * Fixed8.D))
+            return Fixed8.FromDecimal(val)
 
         return None
 
-- 
2.43.0


From 321c77fe1918815bee9854f7112aaa11232ef313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 11/34] fix: BigInteger.Equals returned NotImplemented, which
 is truthy, for other types

---
 neocore/BigInteger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/BigInteger.py b/neocore/BigInteger.py
index 5620a11..8628e28 100644
--- a/neocore/BigInteger.py
+++ b/neocore/BigInteger.py
@@ -12,7 +12,7 @@ class BigInteger(int):
         return BigInteger(int.from_bytes(data, 'little', signed=signed))
 
     def Equals(self, other):
-        return super(BigInteger, self).__eq__(other)
+        return self == other
 
     def ToByteArray(self, signed=True):
         if self == 0:
-- 
2.43.0


From 4305fca3514d4d2b1d221d4cb6b132ad19c2b2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 12/34] fix: isValidPublicAddress accepted addresses of other
 versions

---
 neocore/Utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/neocore/Utils.py b/neocore/Utils.py
index 04bfde9..1846e4c 100644
--- a/neocore/Utils.py
+++ b/neocore/Utils.py
@@ -1,5 +1,7 @@
 import base58
 
+from neocore.Cryptography.Helper import ADDRESS_VERSION
+
 
 def isValidPublicAddress(address: str) -> bool:
     """Check if address is a valid NEO address"""
@@ -7,8 +9,9 @@ def isValidPublicAddress(address: str) -> bool:
 
     if len(address) == 34 and address[0] == 'A':
         try:
-            base58.b58decode_check(address.encode())
-            valid = True
+            data = base58.b58decode_check(address.encode())
+            # other versions can start with 'A' too
+            valid = len(data) == 21 and data[0] == ADDRESS_VERSION
         except ValueError:
             # checksum mismatch
             valid = False
-- 
2.43.0


From e1fc0d09a2600e6d35a4f6bb0038db08a4ce0be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 13/34] fix: address_to_scripthash accepted other versions and
 lengths, and crashed on non-base58 text

---
 neocore/bin/cli.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/neocore/bin/cli.py b/neocore/bin/cli.py
index 4564786..2c76bfa 100755
--- a/neocore/bin/cli.py
+++ b/neocore/bin/cli.py
@@ -22,12 +22,17 @@ class ConversionError(Exception):
 
 
 def address_to_scripthash(address):
-    data = bytes(base58.b58decode(address))
+    try:
+        data = bytes(base58.b58decode(address))
+    except ValueError:
+        raise ConversionError("Invalid address: not base58")
+
+    # version byte, script hash, checksum
+    if len(data) != 25:
+        raise ConversionError("Invalid address: wrong length")
 
-    # Make sure signature byte is correct. In python 3, data[0] is bytes, and in 2 it's str.
-    # We use this isinstance checke to make it work with both Python 2 and 3.
-    is_correct_signature = data[0] != 0x17 if isinstance(data[0], bytes) else b'\x17'
-    if not is_correct_signature:
+    # Make sure signature byte is correct.
+    if data[0] != 0x17:
         raise ConversionError("Invalid address: wrong signature byte")
 
     # Make sure the checksum is correct
-- 
2.43.0


From d593db2f46759db38076b843a079c82fee90a63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 14/34] fix: Crypto.Sign and VerifySignature used whatever
 curve the bitcoin library was last set to

---
 neocore/Cryptography/Crypto.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neocore/Cryptography/Crypto.py b/neocore/Cryptography/Crypto.py
index 131f146..ebbb0a8 100644
--- a/neocore/Cryptography/Crypto.py
+++ b/neocore/Cryptography/Crypto.py
@@ -114,6 +114,8 @@ class Crypto(object):
             bytearray: the signature of the message.
         """
 
+        Crypto.SetupSignatureCurve()
+
         hash = hashlib.sha256(binascii.unhexlify(message)).hexdigest()
 
         v, r, s = bitcoin.ecdsa_raw_sign(hash, private_key)
@@ -155,6 +157,7 @@ class Crypto(object):
             message = message.encode('utf-8')
 
         if len(public_key) == 33:
+            Crypto.SetupSignatureCurve()
             public_key = bitcoin.decompress(public_key)
             public_key = public_key[1:]
 
-- 
2.43.0


From c2db5e3c3eba8ea13085d7b4e20e4359b7fc5a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 15/34] fix: VerifySignature raised for a malformed compressed
 public key

---
 neocore/Cryptography/Crypto.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neocore/Cryptography/Crypto.py b/neocore/Cryptography/Crypto.py
index ebbb0a8..8dabec3 100644
--- a/neocore/Cryptography/Crypto.py
+++ b/neocore/Cryptography/Crypto.py
@@ -156,12 +156,12 @@ class Crypto(object):
         elif isinstance(message, str):
             message = message.encode('utf-8')
 
-        if len(public_key) == 33:
-            Crypto.SetupSignatureCurve()
-            public_key = bitcoin.decompress(public_key)
-            public_key = public_key[1:]
-
         try:
+            if len(public_key) == 33:
+                Crypto.SetupSignatureCurve()
+                public_key = bitcoin.decompress(public_key)
+                public_key = public_key[1:]
+
             vk = VerifyingKey.from_string(public_key, curve=NIST256p, hashfunc=hashlib.sha256)
             res = vk.verify(signature, message, hashfunc=hashlib.sha256)
             return res
-- 
2.43.0


From da9584a9191abb021024eeb1de005a2b7df5297e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 16/34] fix: PrivateKeyFromNEP2 did not check the NEP-2 prefix

---
 neocore/KeyPair.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neocore/KeyPair.py b/neocore/KeyPair.py
index 62a99ef..09d7893 100644
--- a/neocore/KeyPair.py
+++ b/neocore/KeyPair.py
@@ -128,6 +128,9 @@ class KeyPair(object):
         except Exception as e:
             raise ValueError("Invalid nep2_key")
 
+        if len(decoded_key) != 39 or not decoded_key.startswith(bytes(NEP_HEADER + NEP_FLAG)):
+            raise ValueError("Invalid nep2_key")
+
         address_hash = decoded_key[ADDRESS_HASH_OFFSET:ADDRESS_HASH_OFFSET + ADDRESS_HASH_SIZE]
         encrypted = decoded_key[-32:]
 
-- 
2.43.0


From 9e777f5876df742ffa47ca1b87a05df65a594fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 17/34] fix: KeyPair accepted the private key zero

---
 neocore/KeyPair.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neocore/KeyPair.py b/neocore/KeyPair.py
index 09d7893..f7e247a 100644
--- a/neocore/KeyPair.py
+++ b/neocore/KeyPair.py
@@ -53,6 +53,10 @@ class KeyPair(object):
         if length != 32 and length != 96 and length != 104:
             raise ValueError("Invalid private key")
 
+        # zero has no public key
+        if length == 32 and not any(priv_key):
+            raise ValueError("Invalid private key")
+
         self.PrivateKey = bytearray(priv_key[-32:])
 
         pubkey_encoded_not_compressed = None
-- 
2.43.0


From 88c626a8477772da944fd6f45697dae26d7ecdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 18/34] fix: MerkleTree.Trim used the left subtree's flags for
 the right subtree

---
 neocore/Cryptography/MerkleTree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/neocore/Cryptography/MerkleTree.py b/neocore/Cryptography/MerkleTree.py
index e18fa1a..151777c 100644
--- a/neocore/Cryptography/MerkleTree.py
+++ b/neocore/Cryptography/MerkleTree.py
@@ -181,14 +181,16 @@ class MerkleTree(object):
             return
 
         if depth == 2:
-            if not flags[index * 2] and not flags[index * 2 + 1]:
+            if not any(flags[index * 2:index * 2 + 2]):
                 node.LeftChild = None
                 node.RightChild = None
 
         else:
 
             MerkleTree._TrimNode(node.LeftChild, index * 2, depth - 1, flags)
-            MerkleTree._TrimNode(node.RightChild, index * 2, depth - 1, flags)
+            # an odd level pairs its last node with itself
+            if node.RightChild is not node.LeftChild:
+                MerkleTree._TrimNode(node.RightChild, index * 2 + 1, depth - 1, flags)
 
             if node.LeftChild.LeftChild is None and node.RightChild.RightChild is None:
                 node.LeftChild = None
-- 
2.43.0


From 9f8ae8403ed5661d1f902090cd0ed7c7b4a1fd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 19/34] fix: scalar multiplication halved the scalar in floats
 and gave wrong points

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 238050d..0ffed2e 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -523,7 +523,7 @@ class EllipticCurve:
             if bit:
                 accumulator += shifter
             shifter += shifter
-            scalar /= 2
+            scalar //= 2
 
         return accumulator
 
-- 
2.43.0


From 7c3aec3e19828c4f3d04be7b9486eed76cbb5f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 20/34] fix: int / FiniteField value did not work on Python 3

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 0ffed2e..f02ff4e 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -226,7 +226,7 @@ class FiniteField:
         def __rmul__(self, rhs):
             return self.field.mul(self.field.value(rhs), self)
 
-        def __rdiv__(self, rhs):
+        def __rtruediv__(self, rhs):
             return self.field.div(self.field.value(rhs), self)
 
         def __rpow__(self, rhs):
-- 
2.43.0


From 0a0b41cfe871223c66b1395bff5325cc6d1e9582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 21/34] fix: FiniteField.sqrt used float exponents and gave
 wrong roots

---
 neocore/Cryptography/ECCurve.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index f02ff4e..5465a4c 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -292,13 +292,13 @@ class FiniteField:
             return val
         sw = self.p % 8
         if sw == 3 or sw == 7:
-            res = val ** ((self.p + 1) / 4)
+            res = val ** ((self.p + 1) // 4)
         elif sw == 5:
-            x = val ** ((self.p + 1) / 4)
+            x = val ** ((self.p - 1) // 4)
             if x == 1:
-                res = val ** ((self.p + 3) / 8)
+                res = val ** ((self.p + 3) // 8)
             else:
-                res = (4 * val) ** ((self.p - 5) / 8) * 2 * val
+                res = (4 * val) ** ((self.p - 5) // 8) * 2 * val
         else:
             raise Exception("modsqrt non supported for (p%8)==1")
 
-- 
2.43.0


From 179289d3fda4e2f5f8270f140bbee13befa458a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 22/34] fix: FiniteField negated zero to p, so minus infinity
 was not infinity

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 5465a4c..71a45e3 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -282,7 +282,7 @@ class FiniteField:
         return (lhs.value - rhs.value) % self.p == 0
 
     def neg(self, val):
-        return self.value(self.p - val.value)
+        return self.value(-val.value % self.p)
 
     def sqrt(self, val, flag):
         """
-- 
2.43.0


From e6ebb55464d4408e95e6e53c08f92812bf8b2f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 23/34] fix: ECPoint ordering could not order points with the
 same x

---
 neocore/Cryptography/ECCurve.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 71a45e3..47fdcab 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -388,8 +388,6 @@ class EllipticCurve:
                 return True
             elif self.x.value > other.x.value:
                 return False
-            elif self.x.value == other.x.value:
-                return False
 
             return self.y.value < other.y.value
 
@@ -400,8 +398,6 @@ class EllipticCurve:
                 return True
             elif self.x.value < other.x.value:
                 return False
-            elif self.x.value == other.x.value:
-                return False
 
             return self.y.value > other.y.value
 
-- 
2.43.0


From 9b73e357bb0d5755e5d316f2e60d2f982e30a672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 24/34] fix: secp256r1 ECDSA objects had a field or a wrong
 number as the group order

---
 neocore/Cryptography/ECCurve.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 47fdcab..94403d2 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -12,6 +12,9 @@ from logzero import logger
 
 modpow = pow
 
+# order of the secp256r1 base point
+SECP256R1_N = 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551
+
 
 # (gcd,c,d)= GCD(a, b)  ===> a*c+b*d!=gcd:
 
@@ -807,7 +810,7 @@ class ECDSA:
         # return ECDSA(GFp, ec.point(0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296,0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5),int("FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFC", 16))
         return ECDSA(ec,
                      ec.point(0x6B17D1F2E12C4247F8BCE6E563A440F277037D812DEB33A0F4A13945D898C296, 0x4FE342E2FE1A7F9B8EE7EB4A7C0F9E162BCE33576B315ECECBB6406837BF51F5),
-                     GFp)
+                     SECP256R1_N)
 
     @staticmethod
     def decode_secp256r1(str, unhex=True, check_on_curve=True):
@@ -823,11 +826,11 @@ class ECDSA:
 
         if check_on_curve:
             if point.isoncurve():
-                return ECDSA(GFp, point, int("FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFC", 16))
+                return ECDSA(ec, point, SECP256R1_N)
             else:
                 raise Exception("Could not decode string")
 
-        return ECDSA(GFp, point, int("FFFFFFFF00000001000000000000000000000000FFFFFFFFFFFFFFFFFFFFFFFC", 16))
+        return ECDSA(ec, point, SECP256R1_N)
 
     @staticmethod
     def Deserialize_Secp256r1(reader):
-- 
2.43.0


From be5d3e306e450e751b8304d4568f99c273e81159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 25/34] fix: ECDSA.verify accepted the signature (0, 0) for
 every message

---
 neocore/Cryptography/ECCurve.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 94403d2..0f40332 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -702,7 +702,7 @@ class ECDSA:
 
         R = self.G * k
 
-        r = self.GFn.value(R.x)
+        r = self.GFn.value(R.x.value % self.GFn.p)
         s = (m + x * r) / k
 
         return (r, s)
@@ -727,6 +727,9 @@ class ECDSA:
         r = self.GFn.value(rnum)
         s = self.GFn.value(snum)
 
+        if not 0 < r.value < self.GFn.p or not 0 < s.value < self.GFn.p:
+            return False
+
         R = self.G * (m / s) + pubkey * (r / s)
 
         # alternative methods of verifying
@@ -736,7 +739,7 @@ class ECDSA:
         # print "#2: %s .. %s"  % (RR*(1/s), r)
         # print "#3: %s .. %s"  % (R, r)
 
-        return R.x == r
+        return R.x.value % self.GFn.p == r.value
 
     def findpk(self, message, rnum, snum, flag):
         """
-- 
2.43.0


From 0fba95c8a0e84a3c9c87b8d06ff626537019f8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 26/34] fix: decoding a public key accepted coordinates outside
 the field and trailing bytes

---
 neocore/Cryptography/ECCurve.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 0f40332..5a9d332 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -605,6 +605,8 @@ class EllipticCurve:
         f = ba[0]
 
         if f == 0:
+            if len(ba) != 1:
+                raise Exception("Incorrect length for infinity encoding")
             return self.Infinity
 
         # these are compressed
@@ -634,6 +636,8 @@ class EllipticCurve:
 
             x = int.from_bytes(x_data, 'little')
             y = int.from_bytes(y_data, 'little')
+            if x >= cq or y >= cq:
+                raise Exception("Invalid point coordinate")
 
             pnt = self.point(x, y)
             return pnt
@@ -652,10 +656,14 @@ class EllipticCurve:
 
         cq = self.field.p
         x = self.field.value(x)
+        if x.value >= cq:
+            raise Exception("Invalid point coordinate")
 
         ysquare = x ** 3 + self.a * x + self.b
 
         ysquare_root = sqrtCQ(ysquare.value, cq)
+        if ysquare_root is None:
+            raise Exception("Invalid point compression")
 
         bit0 = 0
         if ysquare_root % 2 is not 0:
-- 
2.43.0


From 18fd055e41fa29ba50165880dfeead17c6c2b64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 27/34] fix: a public key read from a truncated stream became a
 different key

---
 neocore/Cryptography/ECCurve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 5a9d332..ae1c2da 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -570,7 +570,7 @@ class EllipticCurve:
 
     def decode_from_reader(self, reader):
 
-        f = reader.ReadByte()
+        f = reader.SafeReadBytes(1)[0]
 
         if f == 0:
             return self.Infinity
@@ -578,7 +578,7 @@ class EllipticCurve:
         # these are compressed
         if f == 2 or f == 3:
             yTilde = f & 1
-            data = bytearray(reader.ReadBytes(32))
+            data = bytearray(reader.SafeReadBytes(32))
             data.reverse()
             data.append(0)
             X1 = int.from_bytes(data, 'little')
-- 
2.43.0


From 19a9e5b09195803e7163745896b334e58aeb424d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 28/34] fix: FromBytes_Secp256r1 failed for every 33, 65, 64
 and 72 byte key

---
 neocore/Cryptography/ECCurve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index ae1c2da..df8e79e 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -856,12 +856,12 @@ class ECDSA:
         length = len(pubkey)
 
         if length == 33 or length == 65:
-            return ECDSA.decode_secp256r1(pubkey)
+            return ECDSA.decode_secp256r1(pubkey, unhex=False)
 
         elif length == 64 or length == 72:
             skip = length - 64
-            out = bytearray(b'04').hex() + pubkey[skip:]
-            return ECDSA.decode_secp256r1(out)
+            out = bytearray(b'\x04') + bytearray(pubkey[skip:])
+            return ECDSA.decode_secp256r1(out, unhex=False)
 
         elif length == 96 or length == 104:
             skip = length - 96
-- 
2.43.0


From e5f8c39e7836c02d066e4be6c6df8622350e5b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:53 +0000
Subject: [PATCH 29/34] fix: multiplying a point by a negative scalar gave a
 wrong point or no result

---
 neocore/Cryptography/ECCurve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index df8e79e..6100686 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -514,6 +514,8 @@ class EllipticCurve:
     # scalar multiplication is implemented like repeated addition
     def mul(self, pt, scalar):
         scalar = self.field.integer(scalar)
+        if scalar < 0:
+            return self.mul(-pt, -scalar)
         accumulator = self.zero()
         shifter = pt
 
-- 
2.43.0


From c55fb456d0b5f7643c624ad36688b16dbb1ec699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:10 +0000
Subject: [PATCH 30/34] fix: VerifySignature raised for a point whose
 coordinates do not fit 32 bytes

---
 neocore/Cryptography/Crypto.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/neocore/Cryptography/Crypto.py b/neocore/Cryptography/Crypto.py
index 8dabec3..825163f 100644
--- a/neocore/Cryptography/Crypto.py
+++ b/neocore/Cryptography/Crypto.py
@@ -143,8 +143,12 @@ class Crypto(object):
         """
 
         if type(public_key) is EllipticCurve.ECPoint:
-            pubkey_x = public_key.x.value.to_bytes(32, 'big')
-            pubkey_y = public_key.y.value.to_bytes(32, 'big')
+            try:
+                pubkey_x = public_key.x.value.to_bytes(32, 'big')
+                pubkey_y = public_key.y.value.to_bytes(32, 'big')
+            except OverflowError:
+                # no coordinates of a point on the curve
+                return False
 
             public_key = pubkey_x + pubkey_y
 
-- 
2.43.0


From 729fc17c31b89cd606ab55ad2e20e1260edc3e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:16 +0000
Subject: [PATCH 31/34] fix: the inverse of a negative number had the wrong
 sign

---
 neocore/Cryptography/ECCurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 6100686..33b9698 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -27,7 +27,7 @@ def GCD(a, b):
 
 
 def modinv(x, m):
-    (gcd, c, d) = GCD(x, m)
+    (gcd, c, d) = GCD(x % m, m)
     return c
 
 
-- 
2.43.0


From 16e2b73c7b497d44e0d00f27763cb1881b24752d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:16 +0000
Subject: [PATCH 32/34] fix: decoding an uncompressed key of zero coordinates
 gave infinity

---
 neocore/Cryptography/ECCurve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neocore/Cryptography/ECCurve.py b/neocore/Cryptography/ECCurve.py
index 33b9698..705c7ae 100644
--- a/neocore/Cryptography/ECCurve.py
+++ b/neocore/Cryptography/ECCurve.py
@@ -638,7 +638,8 @@ class EllipticCurve:
 
             x = int.from_bytes(x_data, 'little')
             y = int.from_bytes(y_data, 'little')
-            if x >= cq or y >= cq:
+            # (0, 0) stands for infinity, which has its own encoding
+            if x >= cq or y >= cq or (x == 0 and y == 0):
                 raise Exception("Invalid point coordinate")
 
             pnt = self.point(x, y)
-- 
2.43.0


From 5e822bda4d23d6699e992a1c049d6ab54917c8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:56 +0000
Subject: [PATCH 33/34] fix: VerifySignature answers False for text that UTF-8
 has no bytes for

---
 neocore/Cryptography/Crypto.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neocore/Cryptography/Crypto.py b/neocore/Cryptography/Crypto.py
index 825163f..f306ae4 100644
--- a/neocore/Cryptography/Crypto.py
+++ b/neocore/Cryptography/Crypto.py
@@ -158,7 +158,11 @@ class Crypto(object):
             except Exception as e:
                 logger.error("could not get m: %s" % e)
         elif isinstance(message, str):
-            message = message.encode('utf-8')
+            try:
+                message = message.encode('utf-8')
+            except UnicodeEncodeError:
+                # there are no bytes of it to be signed
+                return False
 
         try:
             if len(public_key) == 33:
-- 
2.43.0


From 429acdb4d4256740c584836ec90a0e23f97d5a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:49 +0000
Subject: [PATCH 34/34] fix: MerkleTree.ToHashArray took quadratic time on
 hashes that share their first four bytes

---
 neocore/Cryptography/MerkleTree.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/neocore/Cryptography/MerkleTree.py b/neocore/Cryptography/MerkleTree.py
index 151777c..2228d5a 100644
--- a/neocore/Cryptography/MerkleTree.py
+++ b/neocore/Cryptography/MerkleTree.py
@@ -131,10 +131,10 @@ class MerkleTree(object):
 
         Args:
             node (MerkleTreeNode):
-            hashes (list): each item is a bytearray.
+            hashes (dict): the hashes found so far, by their bytes.
         """
         if node.LeftChild is None:
-            hashes.add(node.Hash)
+            hashes.setdefault(bytes(node.Hash.ToArray()), node.Hash)
         else:
             MerkleTree.__DepthFirstSearch(node.LeftChild, hashes)
             MerkleTree.__DepthFirstSearch(node.RightChild, hashes)
@@ -146,9 +146,10 @@ class MerkleTree(object):
         Returns:
             list:
         """
-        hashes = set()
+        # keyed by all bytes: the hash value of a UInt256 is just its first four
+        hashes = {}
         MerkleTree.__DepthFirstSearch(self.Root, hashes)
-        return list(hashes)
+        return list(hashes.values())
 
     def Trim(self, flags):
         """
-- 
2.43.0

