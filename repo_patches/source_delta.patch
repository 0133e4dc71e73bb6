From 863e04feb0fd79bdcaffec4927194e6c873c5652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:08 +0000
Subject: [PATCH 01/72] fix: Base64WSEncode/Base64WSDecode work on byte strings
 under Python 3

Base64WSEncode always raised TypeError (urlsafe_b64encode needs bytes) and
Base64WSDecode returned bytes, which nothing else in the package can use.
Invalid input now raises Base64DecodingError again: Python 3 reports it as
ValueError (binascii.Error), not TypeError.
---
 python/src/keyczar/util.py | 41 +++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index d06dced..2971921 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -95,6 +95,37 @@ DEFAULT_STREAM_BUFF_SIZE = 4096
 # environment variable that holds a list of additional plugin backend paths
 BACKEND_PATHS_ENV_VAR = 'KEYCZAR_BACKEND_PATHS'
 
+def RawBytes(s):
+  """
+  Return the bytes denoted by s.
+
+  Keyczar passes raw bytes around as strings in which every character stands for
+  the byte with the same value. The libraries underneath want real bytes objects.
+
+  @param s: byte string, one character per byte (bytes are returned unchanged)
+  @type s: string
+
+  @return: the same bytes
+  @rtype: bytes
+  """
+  if isinstance(s, str):
+    return s.encode('latin-1')
+  return bytes(s)
+
+def RawString(b):
+  """
+  Return the byte string for some bytes, i.e. the inverse of L{RawBytes}.
+
+  @param b: the bytes (byte strings are returned unchanged)
+  @type b: bytes
+
+  @return: byte string, one character per byte
+  @rtype: string
+  """
+  if isinstance(b, str):
+    return b
+  return bytes(b).decode('latin-1')
+
 def ASN1Sequence(*vals):
   seq = univ.Sequence()
   for i in range(len(vals)):
@@ -354,7 +385,7 @@ def Base64WSEncode(s):
   @return: Base64 representation of s.
   @rtype: string
   """
-  return base64.urlsafe_b64encode(str(s)).replace("=", "")
+  return RawString(base64.urlsafe_b64encode(RawBytes(s))).replace("=", "")
 
 
 def Decode(s):
@@ -378,7 +409,7 @@ def Base64WSDecode(s):
   @raise Base64DecodingError: If length of string (ignoring whitespace) is one
     more than a multiple of four.
   """
-  s = ''.join(s.splitlines())
+  s = ''.join(RawString(s).splitlines())
   s = str(s.replace(" ", ""))  # kill whitespace, make string (not unicode)
   d = len(s) % 4
   if d == 1:
@@ -388,9 +419,9 @@ def Base64WSDecode(s):
   elif d == 3:
     s += "="
   try:
-    return base64.urlsafe_b64decode(s)
-  except TypeError:
-    # Decoding raises TypeError if s contains invalid characters.
+    return RawString(base64.urlsafe_b64decode(s))
+  except (TypeError, ValueError):
+    # Decoding raises TypeError or ValueError if s contains invalid characters.
     raise errors.Base64DecodingError()
 
 # Struct packed byte array format specifiers used below
-- 
2.43.0


From 15eb9691886d94bde23892a903cee2f8c041cbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:49 +0000
Subject: [PATCH 02/72] fix: Hash and PrefixHash accept byte strings under
 Python 3

hashlib refuses str, so no key identifier could be computed and no key set
with a key in it could be read.
---
 python/src/keyczar/util.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 2971921..fc8fdfe 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -355,16 +355,16 @@ def Hash(*inputs):
   """Return a SHA-1 hash over a variable number of inputs."""
   md = sha1()
   for i in inputs:
-    md.update(i)
-  return md.digest()
+    md.update(RawBytes(i))
+  return RawString(md.digest())
 
 def PrefixHash(*inputs):
   """Return a SHA-1 hash over a variable number of inputs."""
   md = sha1()
   for i in inputs:
-    md.update(IntToBytes(len(i)))
-    md.update(i)
-  return md.digest()
+    md.update(RawBytes(IntToBytes(len(i))))
+    md.update(RawBytes(i))
+  return RawString(md.digest())
 
 
 def Encode(s):
-- 
2.43.0


From 8d9dafe914a8469ff147652948625df93add3265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:49 +0000
Subject: [PATCH 03/72] fix: key generation works under Python 3

size / 8 is a float, which os.urandom refuses, and the random bytes of a key
could not be combined with the other byte strings. PyCrypto wants real bytes
from its random function, so it gets os.urandom itself.
---
 python/src/keyczar/keys.py | 9 +++++----
 python/src/keyczar/util.py | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 7a91f0d..f14d48e 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -23,6 +23,7 @@ of base class Key.
 
 import hmac
 import math
+import os
 import random
 try:
   # Import hashlib if Python >= 2.5
@@ -354,7 +355,7 @@ class AesKey(SymmetricKey):
     @return: an AES key
     @rtype: L{AesKey}
     """
-    key_bytes = util.RandBytes(size / 8)
+    key_bytes = util.RandBytes(size // 8)
     key_string = util.Base64WSEncode(key_bytes)
     hmac_key = HmacKey.Generate()  # use default HMAC-SHA1 key size
     return AesKey(key_string, hmac_key, size)
@@ -521,7 +522,7 @@ class HmacKey(SymmetricKey):
     @return: an HMAC-SHA1 key
     @rtype: L{HmacKey}
     """
-    key_bytes = util.RandBytes(size / 8)
+    key_bytes = util.RandBytes(size // 8)
     key_string = util.Base64WSEncode(key_bytes)
     return HmacKey(key_string, size)
 
@@ -649,7 +650,7 @@ class DsaPrivateKey(PrivateKey):
     @return: a DSA private key
     @rtype: L{DsaPrivateKey}
     """
-    key = DSA.generate(size, util.RandBytes)
+    key = DSA.generate(size, os.urandom)
     params = { 'x': util.PadBytes(util.BigIntToBytes(key.x), 1) }
     pubkey = key.publickey()
     pub_params = { 'g': util.PadBytes(util.BigIntToBytes(pubkey.g), 1),
@@ -775,7 +776,7 @@ class RsaPrivateKey(PrivateKey):
     @return: a RSA private key
     @rtype: L{RsaPrivateKey}
     """
-    key = RSA.generate(size, util.RandBytes)
+    key = RSA.generate(size, os.urandom)
     #NOTE: PyCrypto stores p < q, u = p^{-1} mod q
     #But OpenSSL and PKCS8 stores q < p, invq = q^{-1} mod p
     #So we have to reverse the p and q values
diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index fc8fdfe..994b05b 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -349,7 +349,7 @@ def TrimBytes(byte_string):
 def RandBytes(n):
   """Return n random bytes."""
   # This function requires at least Python 2.4.
-  return os.urandom(n)
+  return RawString(os.urandom(n))
 
 def Hash(*inputs):
   """Return a SHA-1 hash over a variable number of inputs."""
-- 
2.43.0


From 60f8b950fbc43fff6808c079c7d0c7f7bc2560b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:49 +0000
Subject: [PATCH 04/72] fix: packing of byte arrays works under Python 3

struct.pack returns bytes, which cannot be concatenated with byte strings, so
attached signatures and session material could not be produced or parsed.
---
 python/src/keyczar/util.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 994b05b..7e9100a 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -435,7 +435,8 @@ def PackByteArray(array):
   """
   if array is None:
     return ''
-  array_length_header = struct.pack(BIG_ENDIAN_INT_SPECIFIER, len(array))
+  array_length_header = RawString(
+      struct.pack(BIG_ENDIAN_INT_SPECIFIER, len(array)))
   return array_length_header + array
 
 def PackMultipleByteArrays(*arrays):
@@ -445,7 +446,8 @@ def PackMultipleByteArrays(*arrays):
   four-byte big-endian integer, followed by the arrays in sequence, each
   length-prefixed by PackByteArray().
   """
-  array_count_header = struct.pack(BIG_ENDIAN_INT_SPECIFIER, len(arrays))
+  array_count_header = RawString(
+      struct.pack(BIG_ENDIAN_INT_SPECIFIER, len(arrays)))
   array_contents = ''.join([PackByteArray(a) for a in arrays])
   return array_count_header + array_contents
 
@@ -455,7 +457,8 @@ def UnpackByteArray(data, offset):
   starting from position 'offset'.  Returns a tuple of the data array and the
   offset of the first byte after the end of the extracted array.
   """
-  array_len = struct.unpack(BIG_ENDIAN_INT_SPECIFIER, data[offset:offset + 4])[0]
+  array_len = struct.unpack(BIG_ENDIAN_INT_SPECIFIER,
+                            RawBytes(data[offset:offset + 4]))[0]
   offset += 4
   return data[offset:offset + array_len], offset + array_len
 
-- 
2.43.0


From ea9c7ec0ecc919407c9db3cd6077782cba067576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:49 +0000
Subject: [PATCH 05/72] fix: use integer division for sizes under Python 3

Padding, buffer and bit string lengths were computed with /, which yields a
float: RSA signing, bit strings and the streaming buffers raised TypeError and
the cipher modes reported fractional output sizes.
---
 python/src/keyczar/keyinfo.py | 6 +++---
 python/src/keyczar/keys.py    | 4 ++--
 python/src/keyczar/util.py    | 8 ++++----
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/python/src/keyczar/keyinfo.py b/python/src/keyczar/keyinfo.py
index 3a02d87..d033bc9 100644
--- a/python/src/keyczar/keyinfo.py
+++ b/python/src/keyczar/keyinfo.py
@@ -125,10 +125,10 @@ class CipherMode(_NameId):
     self.use_iv = use_iv
     self.GetOutputSize = OutputSizeFn
 
-CBC = CipherMode("CBC", 0, True, lambda b, i: (i / b + 2) * b)
-CTR = CipherMode("CTR", 1, True, lambda b, i: i + b / 2)
+CBC = CipherMode("CBC", 0, True, lambda b, i: (i // b + 2) * b)
+CTR = CipherMode("CTR", 1, True, lambda b, i: i + b // 2)
 ECB = CipherMode("ECB", 2, False, lambda b, i: b)
-DET_CBC = CipherMode("DET_CBC", 3, False, lambda b, i: (i / b + 1) * b)
+DET_CBC = CipherMode("DET_CBC", 3, False, lambda b, i: (i // b + 1) * b)
 modes = {"CBC": CBC, "CTR": CTR, "ECB": ECB, "DET_CBC": DET_CBC}
 
 def GetMode(name):
diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index f14d48e..0503feb 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -420,7 +420,7 @@ class AesKey(SymmetricKey):
     @return: best buffer size
     @rtype: int
     """
-    no_pad_size = self.block_size * (buffer_size / self.block_size)
+    no_pad_size = self.block_size * (buffer_size // self.block_size)
     return max(no_pad_size, self.block_size)
 
   def Encrypt(self, data):
@@ -851,7 +851,7 @@ class RsaPrivateKey(PrivateKey):
     """
     emsa_encoded = util.MakeEmsaMessage(msg, self.size)
     byte_string = util.BigIntToBytes(self.key.sign(emsa_encoded, None)[0])
-    return util.PadBytes(byte_string, self.size/8 - len(byte_string))
+    return util.PadBytes(byte_string, self.size//8 - len(byte_string))
 
   def Verify(self, msg, sig):
     """@see: L{RsaPublicKey.Verify}"""
diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 7e9100a..db9d273 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -277,13 +277,13 @@ def MakeEmsaMessage(msg, modulus_size):
   magic_sha1_header = [0x30, 0x21, 0x30, 0x9, 0x6, 0x5, 0x2b, 0xe, 0x3, 0x2,
                        0x1a, 0x5, 0x0, 0x4, 0x14]
   encoded = "".join([chr(c) for c in magic_sha1_header]) + Hash(msg)
-  pad_string = chr(0xFF) * (modulus_size / 8 - len(encoded) - 3)
+  pad_string = chr(0xFF) * (modulus_size // 8 - len(encoded) - 3)
   return chr(1) + pad_string + chr(0) + encoded
 
 def BinToBytes(bits):
   """Convert bit string to byte string."""
   bits = _PadByte(bits)
-  octets = [bits[8 * i:8 * (i + 1)] for i in range(len(bits) / 8)]
+  octets = [bits[8 * i:8 * (i + 1)] for i in range(len(bits) // 8)]
   return "".join([chr(int(x, 2)) for x in octets])
 
 def BytesToBin(byte_string):
@@ -299,9 +299,9 @@ def IntToBin(n):
   if n == 0 or n == 1:
     return str(n)
   elif n % 2 == 0:
-    return IntToBin(n / 2) + "0"
+    return IntToBin(n // 2) + "0"
   else:
-    return IntToBin(n / 2) + "1"
+    return IntToBin(n // 2) + "1"
 
 def BigIntToBytes(n):
   """Return a big-endian byte string representation of an arbitrary length n."""
-- 
2.43.0


From f793cd6f2cc6c5c292f1feef25052b62b2f1f4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:49 +0000
Subject: [PATCH 06/72] fix: PKCS8 and X.509 key import and export work under
 Python 3

pyasn1 decodes bytes only, and current versions print a BIT STRING without the
quotes that ParseX509 used to cut off.
---
 python/src/keyczar/util.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index db9d273..e209bc5 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -150,14 +150,14 @@ def ParseASN1Sequence(seq):
 #
 #Attributes ::= SET OF Attribute
 def ParsePkcs8(pkcs8):
-  seq = ParseASN1Sequence(decoder.decode(Base64WSDecode(pkcs8))[0])
+  seq = ParseASN1Sequence(decoder.decode(RawBytes(Base64WSDecode(pkcs8)))[0])
   if len(seq) != 3:  # need three fields in PrivateKeyInfo
     raise errors.KeyczarError("Illegal PKCS8 String.")
   version = int(seq[0])
   if version != 0:
       raise errors.KeyczarError("Unrecognized PKCS8 Version")
   [oid, alg_params] = ParseASN1Sequence(seq[1])
-  key = decoder.decode(seq[2])[0]
+  key = decoder.decode(seq[2].asOctets())[0]
   # Component 2 is an OCTET STRING which is further decoded
   params = {}
   if oid == RSA_OID:
@@ -199,14 +199,12 @@ def ExportDsaPkcs8(params):
 #        algorithm            AlgorithmIdentifier,
 #        subjectPublicKey     BIT STRING  }
 def ParseX509(x509):
-  seq = ParseASN1Sequence(decoder.decode(Base64WSDecode(x509))[0])
+  seq = ParseASN1Sequence(decoder.decode(RawBytes(Base64WSDecode(x509)))[0])
   if len(seq) != 2:  # need two fields in SubjectPublicKeyInfo
     raise errors.KeyczarError("Illegal X.509 String.")
   [oid, alg_params] = ParseASN1Sequence(seq[0])
-  pubkey = decoder.decode(univ.OctetString(BinToBytes(seq[1].
-                                                      prettyPrint()[2:-3])))[0]
-  # Component 1 should be a BIT STRING, get raw bits by discarding extra chars,
-  # then convert to OCTET STRING which can be ASN.1 decoded
+  pubkey = decoder.decode(seq[1].asOctets())[0]
+  # Component 1 should be a BIT STRING, its octets can be ASN.1 decoded
   params = {}
   if oid == RSA_OID:
     [params['n'], params['e']] = [int(x) for x in ParseASN1Sequence(pubkey)]
@@ -222,7 +220,7 @@ def ParseX509(x509):
 def ExportRsaX509(params):
   oid = ASN1Sequence(RSA_OID, univ.Null())
   key = ASN1Sequence(univ.Integer(params['n']), univ.Integer(params['e']))
-  binkey = BytesToBin(encoder.encode(key))
+  binkey = BytesToBin(RawString(encoder.encode(key)))
   pubkey = univ.BitString("'%s'B" % binkey)  # needs to be a BIT STRING
   seq = ASN1Sequence(oid, pubkey)
   return Base64WSEncode(encoder.encode(seq))
@@ -232,7 +230,7 @@ def ExportDsaX509(params):
                             univ.Integer(params['q']),
                             univ.Integer(params['g']))
   oid = ASN1Sequence(DSA_OID, alg_params)
-  binkey = BytesToBin(encoder.encode(univ.Integer(params['y'])))
+  binkey = BytesToBin(RawString(encoder.encode(univ.Integer(params['y']))))
   pubkey = univ.BitString("'%s'B" % binkey)  # needs to be a BIT STRING
   seq = ASN1Sequence(oid, pubkey)
   return Base64WSEncode(encoder.encode(seq))
-- 
2.43.0


From 8c1059f134cbb931b794b2b787e400ade95769d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:49 +0000
Subject: [PATCH 07/72] fix: DSA signing and verification work under Python 3

PyCrypto and pyasn1 take and return bytes.
---
 python/src/keyczar/keys.py | 4 ++--
 python/src/keyczar/util.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 0503feb..e87219c 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -695,7 +695,7 @@ class DsaPrivateKey(PrivateKey):
     # Need to chose a random k per-message, SystemRandom() is available
     # since Python 2.4.
     k = random.SystemRandom().randint(2, self.key.q-1)
-    (r, s) = self.key.sign(util.Hash(msg), k)
+    (r, s) = self.key.sign(util.RawBytes(util.Hash(msg)), k)
     return util.MakeDsaSig(r, s)
 
   def Verify(self, msg, sig):
@@ -920,7 +920,7 @@ class DsaPublicKey(PublicKey):
     """
     try:
       (r, s) = util.ParseDsaSig(sig)
-      return self.key.verify(util.Hash(msg), (r, s))
+      return self.key.verify(util.RawBytes(util.Hash(msg)), (r, s))
     except errors.KeyczarError:
       # if signature is not in correct format
       return False
diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index e209bc5..a69cce8 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -249,7 +249,7 @@ def MakeDsaSig(r, s):
   @rtype: string
   """
   seq = ASN1Sequence(univ.Integer(r), univ.Integer(s))
-  return encoder.encode(seq)
+  return RawString(encoder.encode(seq))
 
 def ParseDsaSig(sig):
   """
@@ -263,7 +263,7 @@ def ParseDsaSig(sig):
 
   @raise KeyczarErrror: if the DSA signature format is invalid
   """
-  seq = decoder.decode(sig)[0]
+  seq = decoder.decode(RawBytes(sig))[0]
   if len(seq) != 2:
     raise errors.KeyczarError("Illegal DSA signature.")
   r = int(seq.getComponentByPosition(0))
-- 
2.43.0


From e61057d0455609e3b84c01efa70dfd077e6984e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:54 +0000
Subject: [PATCH 08/72] fix: HMAC signing and verification work under Python 3

hmac takes and returns bytes.
---
 python/src/keyczar/keys.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index e87219c..4f93c71 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -550,7 +550,8 @@ class HmacKey(SymmetricKey):
     @return: raw byte string signature
     @rtype: string
     """
-    return hmac.new(self.key_bytes, msg, sha1).digest()
+    return util.RawString(hmac.new(util.RawBytes(self.key_bytes),
+                                   util.RawBytes(msg), sha1).digest())
 
   def Verify(self, msg, sig_bytes):
     """
@@ -592,10 +593,10 @@ class HmacKeyStream(object):
 
   def __init__(self, hmac_key):
     self.hmac_key = hmac_key
-    self.hmac = hmac.new(self.hmac_key.key_bytes, '', sha1)
+    self.hmac = hmac.new(util.RawBytes(self.hmac_key.key_bytes), b'', sha1)
 
   def Update(self, data):
-      self.hmac.update(data)
+      self.hmac.update(util.RawBytes(data))
 
   def Sign(self):
     """
@@ -604,7 +605,7 @@ class HmacKeyStream(object):
     @return: raw byte string signature
     @rtype: string
     """
-    return self.hmac.digest()
+    return util.RawString(self.hmac.digest())
 
 
 class PrivateKey(AsymmetricKey):
-- 
2.43.0


From 6496e569e08d23dcc1bb34e42a4c0fa659fbc504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:54 +0000
Subject: [PATCH 09/72] fix: the AES cipher adaptors work under Python 3

PyCrypto and M2Crypto take and return bytes, the adaptors deal in the byte
strings of the rest of the package.
---
 python/src/keyczar/keys.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 4f93c71..9baf635 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -200,12 +200,21 @@ class AesKey(SymmetricKey):
       @param mode: the cipher mode
       @type mode: integer (using AES values, e.g. AES.MODE_CBC)
       """
-      self.cipher = AES.new(key_bytes, mode, iv_bytes)
+      self.cipher = AES.new(util.RawBytes(key_bytes), mode,
+                            util.RawBytes(iv_bytes))
 
     def __getattr__(self, name):
       # defer everything to the actual cipher instance
       return getattr(self.cipher, name)
 
+    def decrypt(self, string):
+      """Return decrypted byte string"""
+      return util.RawString(self.cipher.decrypt(util.RawBytes(string)))
+
+    def encrypt(self, string):
+      """Return encrypted byte string"""
+      return util.RawString(self.cipher.encrypt(util.RawBytes(string)))
+
     def final(self):
       """
       Collect any remaining encrypted data i.e. non-block size conforming
@@ -280,8 +289,8 @@ class AesKey(SymmetricKey):
           # EVP requires different mode strings for each key size (in bits)
           mode = 'aes_%s_cbc' %(self.key_size*8)
           cipher = EVP.Cipher(alg=mode,
-                              key=self.key_bytes, 
-                              iv=self.IV,
+                              key=util.RawBytes(self.key_bytes),
+                              iv=util.RawBytes(self.IV),
                               op=selector,
                               padding=0
                              )
@@ -298,7 +307,8 @@ class AesKey(SymmetricKey):
       @return: plaintext string
       @rtype: string
       """
-      return self.__Cipher(self.OP_DECRYPT).update(string)
+      return util.RawString(
+          self.__Cipher(self.OP_DECRYPT).update(util.RawBytes(string)))
 
     def encrypt(self, string):
       """
@@ -310,7 +320,8 @@ class AesKey(SymmetricKey):
       @return: raw byte encrypted string  
       @rtype: string
       """
-      return self.__Cipher(self.OP_ENCRYPT).update(string)
+      return util.RawString(
+          self.__Cipher(self.OP_ENCRYPT).update(util.RawBytes(string)))
 
     def final(self, selector=OP_ACTIVE):
       """
@@ -318,7 +329,7 @@ class AesKey(SymmetricKey):
 
       @return: remaining encrypted data, if any
       """
-      return self.__Cipher(selector).final()
+      return util.RawString(self.__Cipher(selector).final())
 
   def __init__(self, key_string, hmac_key, size=keyinfo.AES.default_size,
                mode=keyinfo.CBC):
-- 
2.43.0


From 6a22a85b42b1585e5f3967390bf7f6e09eee97eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:54 +0000
Subject: [PATCH 10/72] fix: AES decryption and the streams use the active
 crypt library

Only Encrypt honoured ACTIVE_CRYPT_LIB: Decrypt and both streams always used
PyCrypto's AES, passing it byte strings that it rejects under Python 3, so
nothing that was encrypted could be decrypted again.
---
 python/src/keyczar/keys.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 9baf635..32303be 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -446,7 +446,7 @@ class AesKey(SymmetricKey):
     """
     data = self._Pad(data)
     iv_bytes = util.RandBytes(self.block_size)
-    cipher = self.__CreateCipher(self.key_bytes, iv_bytes)
+    cipher = self._CreateCipher(self.key_bytes, iv_bytes)
     ciph_bytes = cipher.encrypt(data)
     ciph_bytes += cipher.final()
     msg_bytes = self.Header() + iv_bytes + ciph_bytes
@@ -477,10 +477,12 @@ class AesKey(SymmetricKey):
     if not self.hmac_key.Verify(input_bytes[:-util.HLEN], sig_bytes):
       raise errors.InvalidSignatureError()
 
-    plain = AES.new(self.key_bytes, AES.MODE_CBC, iv_bytes).decrypt(ciph_bytes)
+    cipher = self._CreateCipher(self.key_bytes, iv_bytes)
+    plain = cipher.decrypt(ciph_bytes)
+    plain += cipher.final()
     return self._UnPad(plain)
 
-  def __CreateCipher(self, key_bytes, iv_bytes, mode=AES.MODE_CBC):
+  def _CreateCipher(self, key_bytes, iv_bytes, mode=AES.MODE_CBC):
     """
     Factory function for creating cipher of specified type using the active
     crypto library
@@ -1057,7 +1059,7 @@ class EncryptingStreamWriter(object):
 
     self.__hmac_stream = key.hmac_key.CreateStreamable()
     iv_bytes = util.RandBytes(key.block_size)
-    self.__cipher = AES.new(key.key_bytes, AES.MODE_CBC, iv_bytes)
+    self.__cipher = key._CreateCipher(key.key_bytes, iv_bytes)
 
     hdr = key.Header()
     self.__hmac_stream.Update(hdr + iv_bytes)
@@ -1315,6 +1317,6 @@ class DecryptingStreamReader(object):
         self.__encrypted_buffer = self.__encrypted_buffer[
             reqd_block_size:]
         self.__hmac_stream.Update(iv_bytes)
-        self.__cipher = AES.new(self.__key.key_bytes, AES.MODE_CBC, iv_bytes)
+        self.__cipher = self.__key._CreateCipher(self.__key.key_bytes, iv_bytes)
     return is_data_avail
 
-- 
2.43.0


From c01c1754ce452ab430d80022ec0cb8bc4db973b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:54 +0000
Subject: [PATCH 11/72] fix: the incremental Base64 codecs work under Python 3

The codecs base classes start with a bytes buffer, which cannot be joined with
the Base64 text, and the chunk lengths were computed with float division.
---
 python/src/keyczar/util.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index a69cce8..bb5d391 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -563,7 +563,7 @@ class BufferedIncrementalBase64WSEncoder(codecs.BufferedIncrementalEncoder):
     # and return an (output, length consumed) tuple
     if not final:
       # only output exact multiples of 3-bytes => no padding
-      len_to_write = 3 * (len(input) / 3)
+      len_to_write = 3 * (len(input) // 3)
     else:
       len_to_write = len(input)
     return (Base64WSEncode(input[:len_to_write]), len_to_write)
@@ -670,6 +670,14 @@ class BufferedIncrementalBase64WSDecoder(codecs.BufferedIncrementalDecoder):
   undecoded data outside this optimal size will be buffered.
   """
 
+  def __init__(self, errors='strict'):
+    super(BufferedIncrementalBase64WSDecoder, self).__init__(errors)
+    self.buffer = ''  # the input is a string, not bytes
+
+  def reset(self):
+    super(BufferedIncrementalBase64WSDecoder, self).reset()
+    self.buffer = ''
+
   def _buffer_decode(self, input, errors, final):
     """
     Decodes input and returns the resulting object, buffering any data that is
@@ -690,7 +698,7 @@ class BufferedIncrementalBase64WSDecoder(codecs.BufferedIncrementalDecoder):
     """
     if not final:
       # only output exact multiples of 4-bytes => no padding
-      len_to_read = 4 * (len(input) / 4)
+      len_to_read = 4 * (len(input) // 4)
     else:
       len_to_read = len(input)
     return (Base64WSDecode(input[:len_to_read]), len_to_read)
@@ -759,6 +767,7 @@ class IncrementalBase64WSStreamReader(codecs.StreamReader, object):
 
     """
     super(IncrementalBase64WSStreamReader, self).__init__(stream, errors)
+    self.bytebuffer = ''  # the input is a string, not bytes
     self.decoder = BufferedIncrementalBase64WSDecoder(errors=errors)
 
   def read(self, size=-1, chars=-1, firstline=False):
-- 
2.43.0


From 7e432766b69cc32e9333005a78a72137a5a2d4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:54 +0000
Subject: [PATCH 12/72] fix: the Base64 stream reader returns None when no data
 is available

It is documented to return None if the underlying non-blocking stream does, but
looped forever on such a stream until more data turned up.
---
 python/src/keyczar/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index bb5d391..89baad3 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -849,9 +849,9 @@ class IncrementalBase64WSStreamReader(codecs.StreamReader, object):
         self.bytebuffer = data[decodedbytes:]
         # put new characters in the character buffer
         self.charbuffer += newchars
-        # there was no data available
-        if not newdata:
-          break
+      # there was no data available
+      if not newdata:
+        break
 
     if chars < 0:
       # Return everything we've got
-- 
2.43.0


From 9ed960fe113dd71cbb385d0e1938e252a5c728de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:54 +0000
Subject: [PATCH 13/72] fix: RSA encryption and signing work under Python 3

PyCrypto takes and returns bytes.
---
 python/src/keyczar/keys.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 32303be..765c26b 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -850,8 +850,8 @@ class RsaPrivateKey(PrivateKey):
     @rtype: string
     """
     ciph_bytes = input_bytes[keyczar.HEADER_SIZE:]
-    decrypted = self.key.decrypt(ciph_bytes)
-    return self.__Decode(decrypted)
+    decrypted = self.key.decrypt(util.RawBytes(ciph_bytes))
+    return self.__Decode(util.RawString(decrypted))
 
   def Sign(self, msg):
     """
@@ -863,7 +863,7 @@ class RsaPrivateKey(PrivateKey):
     @return: string representation of long int signature over message
     @rtype: string
     """
-    emsa_encoded = util.MakeEmsaMessage(msg, self.size)
+    emsa_encoded = util.RawBytes(util.MakeEmsaMessage(msg, self.size))
     byte_string = util.BigIntToBytes(self.key.sign(emsa_encoded, None)[0])
     return util.PadBytes(byte_string, self.size//8 - len(byte_string))
 
@@ -1013,8 +1013,9 @@ class RsaPublicKey(PublicKey):
     @rtype: string
     """
     data = self.__Encode(data)
-    ciph_bytes = self.key.encrypt(data, None)[0]  # PyCrypto returns 1-tuple
-    return self.Header() + ciph_bytes
+    # PyCrypto returns 1-tuple
+    ciph_bytes = self.key.encrypt(util.RawBytes(data), None)[0]
+    return self.Header() + util.RawString(ciph_bytes)
 
   def Verify(self, msg, sig):
     """
@@ -1030,7 +1031,9 @@ class RsaPublicKey(PublicKey):
     @rtype: boolean
     """
     try:
-      return self.key.verify(util.MakeEmsaMessage(msg, self.size), (util.BytesToLong(sig),))
+      return self.key.verify(
+          util.RawBytes(util.MakeEmsaMessage(msg, self.size)),
+          (util.BytesToLong(sig),))
     except ValueError:
       # if sig is not a long, it's invalid
       return False
-- 
2.43.0


From d373194dff9a173d3cfd7e611f95534576137284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:54 +0000
Subject: [PATCH 14/72] fix: calls to an interop implementation return text

check_output returns bytes under Python 3, which ended up as "b'...'" in the
messages about failing implementations.
---
 interop/interop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interop/interop.py b/interop/interop.py
index 513bb2b..d6f22a4 100755
--- a/interop/interop.py
+++ b/interop/interop.py
@@ -298,7 +298,8 @@ class InteropTestRunner(object):
     """ Makes a call to an implementation and returns response """
     args = self.implementations[implementation] + list(params)
     try:
-      return subprocess.check_output(args, stderr=subprocess.STDOUT)
+      return subprocess.check_output(args, stderr=subprocess.STDOUT,
+                                     universal_newlines=True)
     except subprocess.CalledProcessError as e:
       cmd = subprocess.list2cmdline(args)
       raise Exception("%s failed:\n %s" % (cmd, e.output))
-- 
2.43.0


From 68f5e9986310054d244b00a1b9423f31102a61e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:52 +0000
Subject: [PATCH 15/72] fix: Base64WSDecode ignores characters outside the
 alphabet again

Given a str, urlsafe_b64decode refuses non-ASCII characters, while it has
always skipped other characters that are not in the Base64 alphabet.
---
 python/src/keyczar/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 89baad3..427a450 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -417,7 +417,7 @@ def Base64WSDecode(s):
   elif d == 3:
     s += "="
   try:
-    return RawString(base64.urlsafe_b64decode(s))
+    return RawString(base64.urlsafe_b64decode(RawBytes(s)))
   except (TypeError, ValueError):
     # Decoding raises TypeError or ValueError if s contains invalid characters.
     raise errors.Base64DecodingError()
-- 
2.43.0


From 09b1bcf7c3714bccfa7ca4cb0330d81a7c42dd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:17 +0000
Subject: [PATCH 16/72] fix: a key set without primary key raises
 NoPrimaryKeyError

Encrypt and Sign looked up the key of version None and raised
"KeyNotFoundError: Key with hash_val identifier None not found" instead of the
documented NoPrimaryKeyError.
---
 python/src/keyczar/keyczar.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index af20330..a0a9a69 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -68,8 +68,13 @@ class Keyczar(object, metaclass=util.ABCMeta):
   versions = property(lambda self: [k for k in list(self._keys.keys())
                                     if isinstance(k, keydata.KeyVersion)],
                       doc="""List of versions in key set.""")
-  primary_key = property(lambda self: self.GetKey(self.primary_version),
-                         doc="""The primary key for this key set.""")
+
+  @property
+  def primary_key(self):
+    """The primary key for this key set."""
+    if self.primary_version is None:
+      raise errors.NoPrimaryKeyError()
+    return self.GetKey(self.primary_version)
 
   def __str__(self):
     return str(self.metadata)
-- 
2.43.0


From e7adef983714230b436bfbc7026e4af084d69ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:17 +0000
Subject: [PATCH 17/72] fix: Revoke drops the revoked key from the key set

Only the metadata forgot it: the key set kept the key, so Write wrote the key
file of the revoked version again and PublicKeyExport went on exporting it.
---
 python/src/keyczar/keyczar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index a0a9a69..4e8778c 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -252,6 +252,8 @@ class GenericKeyczar(Keyczar):
     version = self.metadata.GetVersion(version_number)
     if version.status == keyinfo.INACTIVE:
       self.metadata.RemoveVersion(version_number)
+      key = self._keys.pop(version)
+      self._keys.pop(key.hash_id, None)
     else:
       raise errors.KeyczarError("Can't revoke key if not inactive.")
 
-- 
2.43.0


From c3845e9103229b6badc87f8cbc1c7e85c65cfedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:17 +0000
Subject: [PATCH 18/72] fix: a failed AddVersion leaves the key set unchanged

The primary version was demoted before the new key was generated, so that when
generation failed the key set was left without its primary key.
---
 python/src/keyczar/keyczar.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index 4e8778c..f54646e 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -178,11 +178,6 @@ class GenericKeyczar(Keyczar):
     # Make the new version number the max of the existing versions plus one
     version = keydata.KeyVersion(max_version_number + 1, status, False)
 
-    if status == keyinfo.PRIMARY:
-      if self.primary_version is not None:
-        self.primary_version.status = keyinfo.ACTIVE
-      self.primary_version = version
-
     if size < self.default_size:
       print(("WARNING: %d-bit key size is less than recommended default key"
             "size of %d bits for %s keys."
@@ -194,6 +189,11 @@ class GenericKeyczar(Keyczar):
       if self._keys.get(key.hash_id) is None:
         break
 
+    if status == keyinfo.PRIMARY:
+      if self.primary_version is not None:
+        self.primary_version.status = keyinfo.ACTIVE
+      self.primary_version = version
+
     self._AddKey(version, key)
 
   def Promote(self, version_number):
-- 
2.43.0


From 431dbe3e747566c80f714b1e7c053176475b8ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:17 +0000
Subject: [PATCH 19/72] fix: GenKey raises KeyczarError for sizes that cannot
 be generated

PyCrypto refuses to generate 512 and 768 bit RSA keys with a ValueError.
---
 python/src/keyczar/keys.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 765c26b..fe28450 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -90,6 +90,10 @@ def GenKey(key_type, size=None):
     else:
       msg = "Unsupported key key_type: %s"
     raise errors.KeyczarError(msg % key_type)
+  except ValueError as e:
+    # listed as valid for this type, but beyond what the crypto library does
+    raise errors.KeyczarError("Unable to generate a %d-bit %s key: %s" %
+                              (size, key_type, e))
 
 def ReadKey(key_type, key):
   """
-- 
2.43.0


From ad89152ad127435198e6eda83facc805de417929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:17 +0000
Subject: [PATCH 20/72] fix: the decrypting stream rejects streams that end too
 early

A stream that was cut off so that at most the length of a signature followed
the IV (or that lacked the header or the IV) was read as an empty plaintext,
without any signature having been checked. The last block is also decrypted
only after the signature over it was verified.
---
 python/src/keyczar/keys.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index fe28450..c68f00f 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -1165,6 +1165,7 @@ class DecryptingStreamReader(object):
     self.__cipher = None
     self.__encrypted_buffer = ''
     self.__decrypted_buffer = ''
+    self.__verified = False
     self.__closed = False
 
   def read(self, chars=-1):
@@ -1222,8 +1223,7 @@ class DecryptingStreamReader(object):
       if data_to_decrypt:
         self.__hmac_stream.Update(data_to_decrypt)
         self.__encrypted_buffer = self.__encrypted_buffer[len(data_to_decrypt):]
-        decrypted_data = self.__cipher.decrypt(data_to_decrypt)
-        
+
         if not is_data_avail:
           if len(self.__encrypted_buffer) != util.HLEN:
             raise errors.ShortCiphertextError(len(self.__encrypted_buffer))
@@ -1233,10 +1233,18 @@ class DecryptingStreamReader(object):
           if not self.__key.hmac_key.VerifySignedData(current_sig_bytes, 
                                                       msg_sig_bytes):
             raise errors.InvalidSignatureError()
+          self.__verified = True
+
+        decrypted_data = self.__cipher.decrypt(data_to_decrypt)
+        if self.__verified:
           decrypted_data = self.__key._UnPad(decrypted_data)
-          
+
         self.__decrypted_buffer += decrypted_data
-        
+
+    if not is_data_avail and not self.__verified:
+      # end of input before a signature could be checked
+      raise errors.ShortCiphertextError(len(self.__encrypted_buffer))
+
     if chars < 0:
       result = self.__decrypted_buffer
       self.__decrypted_buffer = ''
-- 
2.43.0


From 9612d8f4378ed0ac443d6890355cf631b869317a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:57 +0000
Subject: [PATCH 21/72] fix: a malformed DSA signature does not verify

ParseDsaSig let the errors of the ASN.1 decoder through, so Verify raised
pyasn1 exceptions for most corrupted signatures instead of returning False.
---
 python/src/keyczar/util.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 427a450..fa2766a 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -263,11 +263,17 @@ def ParseDsaSig(sig):
 
   @raise KeyczarErrror: if the DSA signature format is invalid
   """
-  seq = decoder.decode(RawBytes(sig))[0]
-  if len(seq) != 2:
+  try:
+    seq = decoder.decode(RawBytes(sig))[0]
+    if len(seq) != 2:
+      raise errors.KeyczarError("Illegal DSA signature.")
+    r = int(seq.getComponentByPosition(0))
+    s = int(seq.getComponentByPosition(1))
+  except errors.KeyczarError:
+    raise
+  except Exception:
+    # whatever the ASN.1 decoder makes of something that isn't two integers
     raise errors.KeyczarError("Illegal DSA signature.")
-  r = int(seq.getComponentByPosition(0))
-  s = int(seq.getComponentByPosition(1))
   return (r, s)
 
 def MakeEmsaMessage(msg, modulus_size):
-- 
2.43.0


From 22a9f15ce6c9540823c49af2793bf2673e4d6530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:57 +0000
Subject: [PATCH 22/72] fix: truncated attached signatures raise KeyczarError

AttachedVerify raised struct.error, or cut the data at a bogus length, when the
blob ended early or its length field was corrupted.
---
 python/src/keyczar/keyczar.py | 2 ++
 python/src/keyczar/util.py    | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index f54646e..7342d76 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -431,6 +431,8 @@ class Verifier(Keyczar):
     @rtype: string
     """
     decoded_data = decoder(signed_data) if decoder else signed_data
+    if len(decoded_data) < HEADER_SIZE:
+      raise errors.ShortSignatureError(len(decoded_data))
 
     data, offset = util.UnpackByteArray(decoded_data, HEADER_SIZE)
     signature = decoded_data[offset:]
diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index fa2766a..5a4e3cf 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -460,10 +460,16 @@ def UnpackByteArray(data, offset):
   Unpacks a length-prefixed byte array packed by PackByteArray() from 'data',
   starting from position 'offset'.  Returns a tuple of the data array and the
   offset of the first byte after the end of the extracted array.
+
+  @raise KeyczarError: if data ends before the array does
   """
+  if len(data) < offset + 4:
+    raise errors.KeyczarError("Truncated byte array.")
   array_len = struct.unpack(BIG_ENDIAN_INT_SPECIFIER,
                             RawBytes(data[offset:offset + 4]))[0]
   offset += 4
+  if not 0 <= array_len <= len(data) - offset:
+    raise errors.KeyczarError("Illegal byte array length: %d" % array_len)
   return data[offset:offset + array_len], offset + array_len
 
 def UnpackMultipleByteArrays(data):
-- 
2.43.0


From 999043fc10c97e61b4f82fd265027db6da93cf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:57 +0000
Subject: [PATCH 23/72] fix: RSA decryption of corrupted ciphertexts raises
 KeyczarError

An all-zero data block raised IndexError, and a ciphertext that is not below
the modulus raised ValueError.
---
 python/src/keyczar/keys.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index c68f00f..e676e0e 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -768,7 +768,7 @@ class RsaPrivateKey(PrivateKey):
       raise errors.KeyczarError("OAEP Decoding Error - hash_id is invalid")
 
     delimited_message = datablock[util.HLEN:].lstrip('\x00')
-    if delimited_message[0] != '\x01':
+    if delimited_message[:1] != '\x01':
       raise errors.KeyczarError("OAEP Decoding Error - expected a 1 value")
     return delimited_message[1:]  # The message
 
@@ -854,7 +854,11 @@ class RsaPrivateKey(PrivateKey):
     @rtype: string
     """
     ciph_bytes = input_bytes[keyczar.HEADER_SIZE:]
-    decrypted = self.key.decrypt(util.RawBytes(ciph_bytes))
+    try:
+      decrypted = self.key.decrypt(util.RawBytes(ciph_bytes))
+    except ValueError:
+      # not below the modulus, so nothing that was encrypted with this key
+      raise errors.KeyczarError("RSA Decryption Error - ciphertext too large")
     return self.__Decode(util.RawString(decrypted))
 
   def Sign(self, msg):
-- 
2.43.0


From c3aadfdebaf3524d3e3ab10ebe9e165eebd09e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:57 +0000
Subject: [PATCH 24/72] fix: WriteFile replaces files atomically

Files were truncated and rewritten in place: a crash or a full disk while a key
set was updated destroyed its metadata or the keys it already had.
---
 python/src/keyczar/util.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 5a4e3cf..7f5079e 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -25,6 +25,7 @@ import codecs
 import functools
 import math
 import os
+import shutil
 import struct
 import warnings
 import sys
@@ -499,11 +500,22 @@ def WriteFile(data, loc):
 
   @raise KeyczarError: if unable to write to file because of IOError
   """
+  # Write to a temporary file and rename it, so that the file at loc always
+  # has either its old or its new contents.
+  target = os.path.realpath(loc)
+  tmp = target + ".tmp"
   try:
-    f = open(loc, "w")
-    f.write(data)
-    f.close()
+    f = open(tmp, "w")
+    try:
+      if os.path.exists(target):
+        shutil.copymode(target, tmp)
+      f.write(data)
+    finally:
+      f.close()
+    os.replace(tmp, target)
   except IOError:
+    if os.path.exists(tmp):
+      os.remove(tmp)
     raise errors.KeyczarError("Unable to write to file %s." % loc)
 
 def ReadFile(loc):
-- 
2.43.0


From fdd5332b9cd4a155cbc4f33b8088703b433914a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:57 +0000
Subject: [PATCH 25/72] fix: write the keys of a key set before its metadata

When adding a key was interrupted after the metadata was written the key set
listed a version whose key file did not exist and could not be read any more.
---
 python/src/keyczar/keyczar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index 7342d76..d5a8032 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -299,9 +299,10 @@ class GenericKeyczar(Keyczar):
         'Using a string as the writer is deprecated. Use writers.CreateWriter', 
         DeprecationWarning)
     self.metadata.encrypted = (encrypter is not None)
-    writer.WriteMetadata(self.metadata)
+    # The metadata comes last, it must not list keys that don't exist yet.
     for v in self.versions:
       writer.WriteKey(self.GetKey(v), v.version_number, encrypter)
+    writer.WriteMetadata(self.metadata)
 
 class Encrypter(Keyczar):
   """Capable of encrypting only."""
-- 
2.43.0


From 53b99440d8e3d5ed2f744716c60dd6a8d836ec68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:57 +0000
Subject: [PATCH 26/72] fix: unversioned signers and verifiers use the
 available readers

All other classes ask every backend for a reader for the location, these two
only ever read files.
---
 python/src/keyczar/keyczar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index d5a8032..ded5114 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -463,7 +463,7 @@ class UnversionedVerifier(Keyczar):
       perform verify functions.
     @rtype: L{Verifier}
     """
-    return UnversionedVerifier(readers.FileReader(location))
+    return UnversionedVerifier(readers.CreateReader(location))
 
   def IsAcceptablePurpose(self, purpose):
     """Only valid if purpose includes verifying."""
@@ -655,7 +655,7 @@ class UnversionedSigner(UnversionedVerifier):
       perform sign and verify functions.
     @rtype: L{Signer}
     """
-    return UnversionedSigner(readers.FileReader(location))
+    return UnversionedSigner(readers.CreateReader(location))
 
   def IsAcceptablePurpose(self, purpose):
     """Only valid if purpose includes signing."""
-- 
2.43.0


From d76949480bd512da51c3553da445c32505ae3d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:57 +0000
Subject: [PATCH 27/72] fix: keyczart flag values may contain "="

A name or location with a "=" in it was silently dropped and the command carried
on without the flag. A size or version that isn't an integer ended in an
UnboundLocalError after the usage message.
---
 python/src/keyczar/keyczart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/keyczart.py b/python/src/keyczar/keyczart.py
index 4071590..3516986 100644
--- a/python/src/keyczar/keyczart.py
+++ b/python/src/keyczar/keyczart.py
@@ -287,7 +287,7 @@ def main(argv):
       if arg.startswith("--"):
         arg = arg[2:]  # trim leading dashes
         try:
-          [flag, val] = arg.split("=")
+          [flag, val] = arg.split("=", 1)
           flags[GetFlag(flag)] = val
         except ValueError:
           print("Flags incorrectly formatted")
@@ -300,6 +300,7 @@ def main(argv):
     except ValueError:
       print("Size and version flags require an integer")
       Usage()
+      return 1
     
     loc = flags.get(LOCATION)  # all commands need location
     
-- 
2.43.0


From debf5849443cb1b6049a15509160ec650d5b13c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:57 +0000
Subject: [PATCH 28/72] fix: interop.py exits with an error when interop tests
 fail

The exit status was 0 no matter what the tests said.
---
 interop/interop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interop/interop.py b/interop/interop.py
index d6f22a4..286328e 100755
--- a/interop/interop.py
+++ b/interop/interop.py
@@ -520,7 +520,7 @@ class InteropTestRunner(object):
 
   def RunTests(self):
     suite = unittest.TestLoader().loadTestsFromTestCase(self.InteropTest)
-    unittest.TextTestRunner().run(suite)
+    return unittest.TextTestRunner().run(suite).wasSuccessful()
 
 
 def Usage():
@@ -576,7 +576,7 @@ def main(argv):
   logger.Output("Generating Data")
   runner.SetupInteropTests()
   logger.Output("Running Tests")
-  runner.RunTests()
+  return 0 if runner.RunTests() else 1
 
 if __name__ == "__main__":
   sys.exit(main(sys.argv[1:]))
-- 
2.43.0


From 076c2fb73b9cf100ef0432169fba1478a986b9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:58 +0000
Subject: [PATCH 29/72] fix: a long RSA signature takes minutes to be rejected

BytesToLong computed a separate power of 256 for every byte.
---
 python/src/keyczar/util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 7f5079e..2979777 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -323,8 +323,7 @@ def IntToBytes(n):
   return "".join([chr(b) for b in byte_array])  # byte array to byte string
 
 def BytesToLong(byte_string):
-  l = len(byte_string)
-  return int(sum([ord(byte_string[i]) * 256**(l - 1 - i) for i in range(l)]))
+  return int.from_bytes(RawBytes(byte_string), 'big')
 
 def Xor(a, b):
   """Return a ^ b as a byte string where a and b are byte strings."""
-- 
2.43.0


From 8494ecf5c3f64e9f535f8582abd9210a08c24877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:58 +0000
Subject: [PATCH 30/72] fix: EncryptedReader.Close does not close the wrapped
 reader

---
 python/src/keyczar/readers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/src/keyczar/readers.py b/python/src/keyczar/readers.py
index 43932b1..1a94223 100644
--- a/python/src/keyczar/readers.py
+++ b/python/src/keyczar/readers.py
@@ -152,8 +152,7 @@ class EncryptedReader(Reader):
     return self._crypter.Decrypt(self._reader.GetKey(version_number))
 
   def Close(self):
-    # Nothing to close - util.ReadFile() closes it
-    return
+    self._reader.Close()
 
   @classmethod
   def CreateReader(cls, location):
-- 
2.43.0


From 4380789fd44070f2c273e28d037e4249d277da45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:33 +0000
Subject: [PATCH 31/72] fix: closing a Base64 stream writer raises
 AttributeError

codecs.StreamWriter has no close method to inherit.
---
 python/src/keyczar/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 2979777..7cae597 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -660,7 +660,7 @@ class IncrementalBase64WSStreamWriter(codecs.StreamWriter, object):
   def close(self):
     """ Flushes and closes the stream """
     self.flush()
-    super(IncrementalBase64WSStreamWriter, self).close()
+    self.stream.close()
 
   def flush(self):
     """
-- 
2.43.0


From 854da9a2b3acac246f18dda18b0f423608660550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:47 +0000
Subject: [PATCH 32/72] fix: the last read of a Base64 stream may exceed the
 requested characters

---
 python/src/keyczar/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 7cae597..e710db0 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -892,6 +892,9 @@ class IncrementalBase64WSStreamReader(codecs.StreamReader, object):
     if not result and newdata == '':
       if chars != 0:
         result = self.decoder.flush()
+        if chars > 0:
+          self.charbuffer = result[chars:]
+          result = result[:chars]
 
     return result
 
-- 
2.43.0


From 0450db40523208e4f27f722ddf2176d8d6935314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:43 +0000
Subject: [PATCH 33/72] fix: interop tests with equal names replace each other

---
 interop/interop.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interop/interop.py b/interop/interop.py
index 286328e..8295ea5 100755
--- a/interop/interop.py
+++ b/interop/interop.py
@@ -450,6 +450,9 @@ class InteropTestRunner(object):
             keyset.name,
             generate_options,
             test_options)
+        # option values alone need not tell two tests apart
+        while hasattr(self.InteropTest, test_name):
+          test_name += "_"
         setattr(self.InteropTest, test_name, test)
     self.logger.OutputCollection()
 
-- 
2.43.0


From e0bb9cc644ed33905d783bea040a3ebeed4cbc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:22 +0000
Subject: [PATCH 34/72] fix: keyczart does not close the reader of the
 --crypter key set

---
 python/src/keyczar/keyczart.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/keyczart.py b/python/src/keyczar/keyczart.py
index 3516986..a593f5f 100644
--- a/python/src/keyczar/keyczart.py
+++ b/python/src/keyczar/keyczart.py
@@ -162,7 +162,11 @@ def Revoke(loc, num):
 
 def _CreateCrypter(location):
   """Helper to create a Crypter for the location."""
-  return keyczar.Crypter.Read(location)
+  reader = readers.CreateReader(location)
+  try:
+    return keyczar.Crypter(reader)
+  finally:
+    reader.Close()
 
 def GenKeySet(loc):
   print("Generating private key sets...")
-- 
2.43.0


From 9835cd3e145158e782cfaf5c9fddcd8c07830bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:48 +0000
Subject: [PATCH 35/72] fix: RSA modulus length is computed with rounding
 errors

The logarithm of a modulus whose leading 44 bits are set is rounded up, so
that OAEP encoding and decoding used one byte too many.
---
 python/src/keyczar/keys.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index e676e0e..3261b7f 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -22,7 +22,6 @@ of base class Key.
 """
 
 import hmac
-import math
 import os
 import random
 try:
@@ -741,7 +740,7 @@ class RsaPrivateKey(PrivateKey):
         "OAEP Decoding Error - encoded_message is too small: %d" % len(encoded_message))
 
     # Step 3b  EM = Y || maskedSeed || maskedDB
-    k = int(math.floor(math.log(self.key.n, 256)) + 1) # num bytes in n
+    k = (self.key.n.bit_length() + 7) // 8 # num bytes in n
     diff_len = k - len(encoded_message)
     # PyCrypto strips out leading zero bytes.
     # In OAEP, the first byte is expected to be a zero, so we can ignore it
@@ -959,7 +958,7 @@ class RsaPublicKey(PublicKey):
   def __Encode(self, msg, label=""):
     if len(label) >= 2**61:  # the input limit for SHA-1
       raise errors.KeyczarError("OAEP parameter string too long.")
-    k = int(math.floor(math.log(self.key.n, 256)) + 1) # num bytes in n
+    k = (self.key.n.bit_length() + 7) // 8 # num bytes in n
     if len(msg) > k - 2 * util.HLEN - 2:
       raise errors.KeyczarError("Message too long to OAEP encode.")
     label_hash = util.Hash(label)
-- 
2.43.0


From c4526ed3e516e27ea4876e615920c835fafa7ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:02 +0000
Subject: [PATCH 36/72] fix: RSA decryption accepts a ciphertext plus the
 modulus

PyCrypto reduces the ciphertext modulo n while blinding, so that a number that
is not below the modulus may decrypt.
---
 python/src/keyczar/keys.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 3261b7f..eb757a7 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -853,11 +853,10 @@ class RsaPrivateKey(PrivateKey):
     @rtype: string
     """
     ciph_bytes = input_bytes[keyczar.HEADER_SIZE:]
-    try:
-      decrypted = self.key.decrypt(util.RawBytes(ciph_bytes))
-    except ValueError:
+    if util.BytesToLong(ciph_bytes) >= self.key.n:
       # not below the modulus, so nothing that was encrypted with this key
       raise errors.KeyczarError("RSA Decryption Error - ciphertext too large")
+    decrypted = self.key.decrypt(util.RawBytes(ciph_bytes))
     return self.__Decode(util.RawString(decrypted))
 
   def Sign(self, msg):
-- 
2.43.0


From 5fbb8b9162237fee05c455cba553b345596b4394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:02 +0000
Subject: [PATCH 37/72] fix: RSA verification accepts a signature plus the
 modulus

---
 python/src/keyczar/keys.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index eb757a7..5e44fd6 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -1037,9 +1037,12 @@ class RsaPublicKey(PublicKey):
     @rtype: boolean
     """
     try:
+      sig_long = util.BytesToLong(sig)
+      if sig_long >= self.key.n:
+        return False
       return self.key.verify(
           util.RawBytes(util.MakeEmsaMessage(msg, self.size)),
-          (util.BytesToLong(sig),))
+          (sig_long,))
     except ValueError:
       # if sig is not a long, it's invalid
       return False
-- 
2.43.0


From 72a706818e93b6798e7246c273be653422d560da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:05 +0000
Subject: [PATCH 38/72] fix: refuse to export public keys over the private key
 set itself

---
 python/src/keyczar/keyczart.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/keyczar/keyczart.py b/python/src/keyczar/keyczart.py
index a593f5f..96a6f4a 100644
--- a/python/src/keyczar/keyczart.py
+++ b/python/src/keyczar/keyczart.py
@@ -129,6 +129,9 @@ def PubKey(loc, dest):
   if mock is None and dest is None:  # not required when testing
     raise errors.KeyczarError("Must define destination")
   czar = CreateGenericKeyczar(loc)
+  if (mock is None and os.path.isdir(loc) and os.path.isdir(dest) and
+      os.path.samefile(loc, dest)):  # would replace the private keys
+    raise errors.KeyczarError("Destination must differ from location")
   czar.PublicKeyExport(dest, mock)  # supply mock for testing if enabled
 
 def Promote(loc, num):
-- 
2.43.0


From 3bfb0fde68c92d9851e647b2a7eb4689c3eb9fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:01 +0000
Subject: [PATCH 39/72] fix: do not keep every session in memory for the life
 of the process

---
 python/src/keyczar/keyczar.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index ded5114..c7713a5 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -734,15 +734,18 @@ class _Session(object):
     session = _Session()
     session.__session_key = session_key
     session.__nonce = nonce
+    session.__crypter = None
     return session
 
   @property
-  @util.Memoize
   def crypter(self):
     """
     Returns a Crypter which can be used to encrypt and decrypt data using the session key.
     """
-    return Crypter(readers.StaticKeyReader(self.__session_key, keyinfo.DECRYPT_AND_ENCRYPT))
+    if self.__crypter is None:
+      self.__crypter = Crypter(readers.StaticKeyReader(self.__session_key,
+                                                       keyinfo.DECRYPT_AND_ENCRYPT))
+    return self.__crypter
 
   @property
   def nonce(self):
-- 
2.43.0


From 1af8d944ca79cb38d77dd1596cfce37395e7e816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:10 +0000
Subject: [PATCH 40/72] fix: C++ Base64 decoding stores words at misaligned
 addresses

---
 cpp/src/keyczar/base/modp/modp_b64w.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cpp/src/keyczar/base/modp/modp_b64w.cc b/cpp/src/keyczar/base/modp/modp_b64w.cc
index 0497899..98781c5 100644
--- a/cpp/src/keyczar/base/modp/modp_b64w.cc
+++ b/cpp/src/keyczar/base/modp/modp_b64w.cc
@@ -55,6 +55,8 @@
 /* else for Intel, Amd; uncomment this */
 /* #undef WORDS_BIGENDIAN */
 
+#include <string.h>
+
 #include <keyczar/base/modp/modp_b64w_data.h>
 
 #define BADCHAR 0x01FFFFFF
@@ -141,7 +143,6 @@ int modp_b64w_decode(char* dest, const char* src, int len)
 
     uint8_t* p = (uint8_t*) dest;
     uint32_t x = 0;
-    uint32_t* destInt = (uint32_t*) p;
     uint32_t* srcInt = (uint32_t*) src;
     uint32_t y = *srcInt++;
     for (i = 0; i < chunks; ++i) {
@@ -149,9 +150,10 @@ int modp_b64w_decode(char* dest, const char* src, int len)
             d2[y >> 8 & 0xff] | d3[y & 0xff];
 
         if (x >= BADCHAR)  return -1;
-        *destInt = x << 8;
+        /* the destination is only aligned for its first chunk */
+        x <<= 8;
+        memcpy(p, &x, sizeof(x));
         p += 3;
-        destInt = (uint32_t*)p;
         y = *srcInt++;
     }
 
@@ -213,7 +215,6 @@ int modp_b64w_decode(char* dest, const char* src, int len)
 
     uint8_t* p = (uint8_t*) dest;
     uint32_t x = 0;
-    uint32_t* destInt = (uint32_t*) p;
     uint32_t* srcInt = (uint32_t*) src;
     uint32_t y = *srcInt++;
     for (i = 0; i < chunks; ++i) {
@@ -223,9 +224,9 @@ int modp_b64w_decode(char* dest, const char* src, int len)
             d3[(y >> 24) & 0xff];
 
         if (x >= BADCHAR) return -1;
-        *destInt = x ;
+        /* the destination is only aligned for its first chunk */
+        memcpy(p, &x, sizeof(x));
         p += 3;
-        destInt = (uint32_t*)p;
         y = *srcInt++;}
 
 
-- 
2.43.0


From c88716bdaf31976f016cd9ffe76ae51095dda810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:44 +0000
Subject: [PATCH 41/72] fix: C++ AES decryption throws std::out_of_range on a
 truncated ciphertext

---
 cpp/src/keyczar/aes_key.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp/src/keyczar/aes_key.cc b/cpp/src/keyczar/aes_key.cc
index c371b2c..793a482 100644
--- a/cpp/src/keyczar/aes_key.cc
+++ b/cpp/src/keyczar/aes_key.cc
@@ -228,9 +228,13 @@ bool AESKey::Decrypt(const std::string& ciphertext,
   if (plaintext == NULL || aes_impl_.get() == NULL || hmac_key() == NULL)
     return false;
 
-
   int digest_size = hmac_key()->digest_size() / 8;
 
+  // A ciphertext too short to hold an IV and a signature is not genuine.
+  if (static_cast<int>(ciphertext.length()) <
+      Key::GetHeaderSize() + kBlockSize + digest_size)
+    return false;
+
   std::string data_bytes = ciphertext.substr(Key::GetHeaderSize());
   int data_bytes_len = data_bytes.length();
 
-- 
2.43.0


From cf8f88a7e1ee432fbe23289e4a3cf73599d845a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:44 +0000
Subject: [PATCH 42/72] fix: C++ Verify throws std::out_of_range on a truncated
 signature

---
 cpp/src/keyczar/keyczar.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cpp/src/keyczar/keyczar.cc b/cpp/src/keyczar/keyczar.cc
index c8083ae..d74d051 100644
--- a/cpp/src/keyczar/keyczar.cc
+++ b/cpp/src/keyczar/keyczar.cc
@@ -358,6 +358,7 @@ bool Verifier::Verify(const std::string& data,
                       const std::string& signature) const {
   std::string signature_bytes;
   return Decode(signature, &signature_bytes)
+      && static_cast<int>(signature_bytes.size()) >= Key::GetHeaderSize()
       && InternalVerify(BuildMessageToSign(data, NULL), signature_bytes,
                         signature_bytes.substr(Key::GetHeaderSize()));
 }
-- 
2.43.0


From 1318c08e15f88d66b50eeeef37218051a998c9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:44 +0000
Subject: [PATCH 43/72] fix: C++ attached signatures with a negative length are
 accepted or throw

---
 cpp/src/keyczar/keyczar.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/src/keyczar/keyczar.cc b/cpp/src/keyczar/keyczar.cc
index d74d051..0332743 100644
--- a/cpp/src/keyczar/keyczar.cc
+++ b/cpp/src/keyczar/keyczar.cc
@@ -414,7 +414,8 @@ bool Verifier::ParseAttachedSignature(const std::string& signed_data,
     return false;
 
   cur_offset += sizeof(data_len);
-  if (decoded_bytes.size() < cur_offset + data_len)
+  if (data_len < 0 ||
+      decoded_bytes.size() - cur_offset < static_cast<size_t>(data_len))
     return false;
 
   if (data != NULL)
-- 
2.43.0


From 08c813d01fa6bf66623b1f39a382ae1f5320a4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:44 +0000
Subject: [PATCH 44/72] fix: C++ aborts the process on negative version numbers
 in metadata

---
 cpp/src/keyczar/keyset_metadata.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cpp/src/keyczar/keyset_metadata.cc b/cpp/src/keyczar/keyset_metadata.cc
index 1197832..bc014bc 100644
--- a/cpp/src/keyczar/keyset_metadata.cc
+++ b/cpp/src/keyczar/keyset_metadata.cc
@@ -36,7 +36,8 @@ KeysetMetadata::KeyVersion* KeysetMetadata::KeyVersion::CreateFromValue(
       static_cast<const DictionaryValue*>(root_version);
 
   int version_number;
-  if (!version->GetInteger("versionNumber", &version_number))
+  if (!version->GetInteger("versionNumber", &version_number) ||
+      version_number < 0)
     return NULL;
 
   std::string key_status_string;
@@ -133,7 +134,9 @@ KeysetMetadata* KeysetMetadata::CreateFromValue(const Value* root_metadata) {
   bool has_next_key_version_number = metadata->HasKey("nextKeyVersionNumber");
   int next_key_version_number = 1;
   if (has_next_key_version_number &&
-      !metadata->GetInteger("nextKeyVersionNumber", &next_key_version_number))
+      (!metadata->GetInteger("nextKeyVersionNumber",
+                             &next_key_version_number) ||
+       next_key_version_number <= 0))
     return NULL;
 
   // Instatiates keyset metadata and key versions and adds key versions to
-- 
2.43.0


From d6fc3f0303da7abff0bf4c12d064ae5334f94aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:44 +0000
Subject: [PATCH 45/72] fix: C++ aborts the process when a key set location
 does not exist

---
 cpp/src/keyczar/rw/keyset_file_reader.cc | 6 ++++--
 cpp/src/keyczar/rw/keyset_file_writer.cc | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cpp/src/keyczar/rw/keyset_file_reader.cc b/cpp/src/keyczar/rw/keyset_file_reader.cc
index fe88b97..4ee1add 100644
--- a/cpp/src/keyczar/rw/keyset_file_reader.cc
+++ b/cpp/src/keyczar/rw/keyset_file_reader.cc
@@ -92,12 +92,14 @@ static Value* DecryptPBEKey(const DictionaryValue& pbe_value,
 
 KeysetJSONFileReader::KeysetJSONFileReader(const std::string& dirname)
     : dirname_(dirname), metadata_basename_("meta") {
-  CHECK(base::PathExists(dirname_));
+  if (!base::PathExists(dirname_))
+    LOG(ERROR) << "Location " << dirname_.value() << " does not exist.";
 }
 
 KeysetJSONFileReader::KeysetJSONFileReader(const FilePath& dirname)
     : dirname_(dirname), metadata_basename_("meta") {
-  CHECK(base::PathExists(dirname_));
+  if (!base::PathExists(dirname_))
+    LOG(ERROR) << "Location " << dirname_.value() << " does not exist.";
 }
 
 Value* KeysetJSONFileReader::ReadMetadata() const {
diff --git a/cpp/src/keyczar/rw/keyset_file_writer.cc b/cpp/src/keyczar/rw/keyset_file_writer.cc
index 805ceab..9ade8f4 100644
--- a/cpp/src/keyczar/rw/keyset_file_writer.cc
+++ b/cpp/src/keyczar/rw/keyset_file_writer.cc
@@ -75,12 +75,14 @@ static DictionaryValue* EncryptPBEKey(const Value& key,
 
 KeysetJSONFileWriter::KeysetJSONFileWriter(const std::string& dirname)
     : dirname_(dirname), metadata_basename_("meta") {
-  CHECK(base::PathExists(dirname_));
+  if (!base::PathExists(dirname_))
+    LOG(ERROR) << "Location " << dirname_.value() << " does not exist.";
 }
 
 KeysetJSONFileWriter::KeysetJSONFileWriter(const FilePath& dirname)
     : dirname_(dirname), metadata_basename_("meta") {
-  CHECK(base::PathExists(dirname_));
+  if (!base::PathExists(dirname_))
+    LOG(ERROR) << "Location " << dirname_.value() << " does not exist.";
 }
 
 bool KeysetJSONFileWriter::WriteMetadata(const Value& metadata) const {
-- 
2.43.0


From 9762a9a298332547beb2ad66adec0d6ffd270a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:44 +0000
Subject: [PATCH 46/72] fix: C++ treats any JSON value in a password protected
 key file as a dictionary

---
 cpp/src/keyczar/rw/keyset_file_reader.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cpp/src/keyczar/rw/keyset_file_reader.cc b/cpp/src/keyczar/rw/keyset_file_reader.cc
index 4ee1add..ef24529 100644
--- a/cpp/src/keyczar/rw/keyset_file_reader.cc
+++ b/cpp/src/keyczar/rw/keyset_file_reader.cc
@@ -132,11 +132,11 @@ Value* KeysetPBEJSONFileReader::ReadKey(int version) const {
 
 Value* KeysetPBEJSONFileReader::ReadPBEKey(int version,
                                            const std::string& password) const {
-  scoped_ptr<DictionaryValue> pbe_value(
-      static_cast<DictionaryValue*>(KeysetJSONFileReader::ReadKey(version)));
-  if (pbe_value.get() == NULL)
+  scoped_ptr<Value> value(KeysetJSONFileReader::ReadKey(version));
+  if (value.get() == NULL || !value->IsType(Value::TYPE_DICTIONARY))
     return NULL;
-  return DecryptPBEKey(*pbe_value, password);
+  return DecryptPBEKey(*static_cast<const DictionaryValue*>(value.get()),
+                       password);
 }
 
 }  // namespace rw
-- 
2.43.0


From 925436415d43346d11c077738ec8000963ac2a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:44 +0000
Subject: [PATCH 47/72] fix: C++ leaks the result of password based encryption

---
 cpp/src/keyczar/openssl/pbe.cc | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/cpp/src/keyczar/openssl/pbe.cc b/cpp/src/keyczar/openssl/pbe.cc
index 6181956..c94a65e 100644
--- a/cpp/src/keyczar/openssl/pbe.cc
+++ b/cpp/src/keyczar/openssl/pbe.cc
@@ -248,10 +248,8 @@ bool PBEOpenSSL::Encrypt(const std::string& plaintext, std::string* ciphertext,
     return false;
 #endif
 
-  scoped_ptr_malloc<unsigned char> ct_buffer(
-      reinterpret_cast<unsigned char*>(malloc(plaintext.size() +
-                                              evp_cipher_()->block_size)));
-  unsigned char *p_ct_buffer = ct_buffer.get();
+  // Allocated by PKCS12_pbe_crypt.
+  unsigned char *p_ct_buffer = NULL;
 
   int ciphertext_len = 0;
   if (PKCS12_pbe_crypt(pbe.get(),
@@ -268,6 +266,7 @@ bool PBEOpenSSL::Encrypt(const std::string& plaintext, std::string* ciphertext,
   }
 
   ciphertext->assign(reinterpret_cast<char*>(p_ct_buffer), ciphertext_len);
+  OPENSSL_free(p_ct_buffer);
   return true;
 }
 
@@ -311,10 +310,8 @@ bool PBEOpenSSL::Decrypt(const std::string& salt, const std::string& iv,
     return false;
 #endif
 
-  scoped_ptr_malloc<unsigned char> pt_buffer(
-      reinterpret_cast<unsigned char*>(malloc(ciphertext.size() +
-                                              evp_cipher_()->block_size)));
-  unsigned char *p_pt_buffer = pt_buffer.get();
+  // Allocated by PKCS12_pbe_crypt.
+  unsigned char *p_pt_buffer = NULL;
 
   int plaintext_len = 0;
   if (PKCS12_pbe_crypt(pbe.get(),
-- 
2.43.0


From 7bf86ff62f082217bc8500995fa156708bbba726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:44 +0000
Subject: [PATCH 48/72] fix: C++ reads beyond a short IV in a password
 protected key file

---
 cpp/src/keyczar/openssl/pbe.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cpp/src/keyczar/openssl/pbe.cc b/cpp/src/keyczar/openssl/pbe.cc
index c94a65e..a79f951 100644
--- a/cpp/src/keyczar/openssl/pbe.cc
+++ b/cpp/src/keyczar/openssl/pbe.cc
@@ -280,6 +280,11 @@ bool PBEOpenSSL::Decrypt(const std::string& salt, const std::string& iv,
   if (rand_impl == NULL)
     return false;
 
+  if (static_cast<int>(iv.size()) != EVP_CIPHER_iv_length(evp_cipher_())) {
+    LOG(ERROR) << "Invalid IV length.";
+    return false;
+  }
+
   // Set PBE2 parameters
 #if OPENSSL_VERSION_NUMBER >= 0x10000000L
   ScopedX509Algor pbe(PKCS5_pbe2_set_iv(evp_cipher_(),
-- 
2.43.0


From 4ffcb3db062340a72faa566d04aad4252e16b6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:05 +0000
Subject: [PATCH 49/72] fix: C++ overflows on the largest version numbers in
 metadata

---
 cpp/src/keyczar/keyset_metadata.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/src/keyczar/keyset_metadata.cc b/cpp/src/keyczar/keyset_metadata.cc
index bc014bc..7fd356d 100644
--- a/cpp/src/keyczar/keyset_metadata.cc
+++ b/cpp/src/keyczar/keyset_metadata.cc
@@ -37,7 +37,7 @@ KeysetMetadata::KeyVersion* KeysetMetadata::KeyVersion::CreateFromValue(
 
   int version_number;
   if (!version->GetInteger("versionNumber", &version_number) ||
-      version_number < 0)
+      version_number < 0 || version_number == kint32max)
     return NULL;
 
   std::string key_status_string;
@@ -223,6 +223,8 @@ bool KeysetMetadata::AddVersion(KeyVersion* key_version) {
     return false;
 
   if (key_version->version_number() == 0) {
+    if (next_key_version_number() == kint32max)
+      return false;
     key_version->set_version_number(next_key_version_number());
     inc_next_key_version_number();
   }
-- 
2.43.0


From fd76c6f9e455262657ef430c41e333938f24ad29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:28 +0000
Subject: [PATCH 50/72] fix: C++ throws std::out_of_range on a key field of
 zeros

---
 cpp/src/keyczar/key.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cpp/src/keyczar/key.cc b/cpp/src/keyczar/key.cc
index b3afe72..913e860 100644
--- a/cpp/src/keyczar/key.cc
+++ b/cpp/src/keyczar/key.cc
@@ -193,10 +193,13 @@ void Key::AddToHash(const std::string& field,
                     MessageDigestImpl& digest_impl,
                     bool trim_zeros) const {
   base::ScopedSafeString trimmed_field(new std::string());
-  if (trim_zeros)
-    trimmed_field->assign(field.substr(field.find_first_not_of('\0')));
-  else
+  if (trim_zeros) {
+    const std::string::size_type start = field.find_first_not_of('\0');
+    if (start != std::string::npos)
+      trimmed_field->assign(field.substr(start));
+  } else {
     trimmed_field->assign(field);
+  }
 
   // Update the message digest value
   digest_impl.Update(util::Int32ToByteString(trimmed_field->size()));
-- 
2.43.0


From 9120c4fba56f9329b00433d6d9557e917d855633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:28 +0000
Subject: [PATCH 51/72] fix: C++ overflows when it formats the smallest integer

---
 cpp/src/keyczar/base/string_util.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/src/keyczar/base/string_util.cc b/cpp/src/keyczar/base/string_util.cc
index 3f1ad24..01b65a5 100644
--- a/cpp/src/keyczar/base/string_util.cc
+++ b/cpp/src/keyczar/base/string_util.cc
@@ -311,7 +311,10 @@ struct IntToStringT {
   template <typename INT2, typename UINT2>
   struct ToUnsignedT<INT2, UINT2, true> {
     static UINT2 ToUnsigned(INT2 value) {
-      return static_cast<UINT2>(value < 0 ? -value : value);
+      // Negated as an unsigned value, which also works for the smallest one.
+      const UINT2 unsigned_value = static_cast<UINT2>(value);
+      return value < 0 ? static_cast<UINT2>(0) - unsigned_value
+                       : unsigned_value;
     }
   };
 
-- 
2.43.0


From b62a18b27ca0b9263ddde4e1700752151d8e8e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:00 +0000
Subject: [PATCH 52/72] fix: C++ decompression fails beyond 64 KB, and leaks or
 aborts on malformed data

---
 cpp/src/keyczar/base/zlib.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cpp/src/keyczar/base/zlib.cc b/cpp/src/keyczar/base/zlib.cc
index 880f821..6577f69 100644
--- a/cpp/src/keyczar/base/zlib.cc
+++ b/cpp/src/keyczar/base/zlib.cc
@@ -127,16 +127,16 @@ bool Zlib::Decompress(Format format, const std::string& input,
     zcontext.avail_out = kBufferSize;
 
     zerror = inflate(&zcontext, Z_FINISH);
-    if (zerror != Z_OK && zerror != Z_STREAM_END)
-      return false;
-
     output_pos += kBufferSize - zcontext.avail_out;
-  } while (zcontext.avail_out == 0);
-
-  CHECK_EQ(zcontext.avail_in, 0);
-  CHECK_EQ(zerror, Z_STREAM_END);
+    // Z_BUF_ERROR only means that the output buffer was too small if it is
+    // full.
+  } while (zerror == Z_OK ||
+           (zerror == Z_BUF_ERROR && zcontext.avail_out == 0));
 
+  const bool complete = zerror == Z_STREAM_END && zcontext.avail_in == 0;
   inflateEnd(&zcontext);
+  if (!complete)
+    return false;
   output->resize(output_pos);
   return true;
 }
-- 
2.43.0


From a6deed394a036204d37d52eac725fcecae4d2d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:55 +0000
Subject: [PATCH 53/72] fix: the C++ tool reports success when it could not
 write the key set

---
 cpp/src/keyczar/keyczar_tool/keyczar_tool.cc | 19 +++++++++++--------
 cpp/src/keyczar/rw/keyset_writer.cc          |  8 ++++----
 cpp/src/keyczar/rw/keyset_writer.h           |  7 ++++++-
 3 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/cpp/src/keyczar/keyczar_tool/keyczar_tool.cc b/cpp/src/keyczar/keyczar_tool/keyczar_tool.cc
index 5684df4..632a706 100644
--- a/cpp/src/keyczar/keyczar_tool/keyczar_tool.cc
+++ b/cpp/src/keyczar/keyczar_tool/keyczar_tool.cc
@@ -212,7 +212,7 @@ bool KeyczarTool::CmdCreate(const std::string& location,
     return false;
 
   keyset.set_metadata(metadata);
-  return true;
+  return !writer->failed();
 }
 
 int KeyczarTool::CmdAddKey(const std::string& location,
@@ -258,9 +258,10 @@ int KeyczarTool::CmdAddKey(const std::string& location,
   if (key_enc_type != NONE)
     keyset->set_encrypted(true);
 
-  if (size == 0)
-    return keyset->GenerateDefaultKeySize(key_status);
-  return keyset->GenerateKey(key_status, size);
+  const int version = size == 0 ?
+      keyset->GenerateDefaultKeySize(key_status) :
+      keyset->GenerateKey(key_status, size);
+  return writer->failed() ? 0 : version;
 }
 
 int KeyczarTool::CmdImportKey(const std::string& location,
@@ -313,7 +314,9 @@ int KeyczarTool::CmdImportKey(const std::string& location,
   if (key_enc_type != NONE)
     keyset->set_encrypted(true);
 
-  return keyset->ImportPrivateKey(key_status, filename, passphrase);
+  const int version = keyset->ImportPrivateKey(key_status, filename,
+                                               passphrase);
+  return writer->failed() ? 0 : version;
 }
 
 bool KeyczarTool::CmdExportKey(const std::string& location,
@@ -384,7 +387,7 @@ bool KeyczarTool::CmdPromote(const std::string& location, int version) const {
 
   keyset->AddObserver(writer.get());
 
-  return keyset->PromoteKey(version);
+  return keyset->PromoteKey(version) && !writer->failed();
 }
 
 bool KeyczarTool::CmdDemote(const std::string& location, int version) const {
@@ -402,7 +405,7 @@ bool KeyczarTool::CmdDemote(const std::string& location, int version) const {
 
   keyset->AddObserver(writer.get());
 
-  return keyset->DemoteKey(version);
+  return keyset->DemoteKey(version) && !writer->failed();
 }
 
 bool KeyczarTool::CmdRevoke(const std::string& location, int version) const {
@@ -421,7 +424,7 @@ bool KeyczarTool::CmdRevoke(const std::string& location, int version) const {
   keyset->AddObserver(writer.get());
 
   // TODO(seb): currently the key version is not erased from disk.
-  return keyset->RevokeKey(version);
+  return keyset->RevokeKey(version) && !writer->failed();
 }
 
 void KeyczarTool::set_location_type(LocationType location_type) {
diff --git a/cpp/src/keyczar/rw/keyset_writer.cc b/cpp/src/keyczar/rw/keyset_writer.cc
index eb29704..b2a4aeb 100644
--- a/cpp/src/keyczar/rw/keyset_writer.cc
+++ b/cpp/src/keyczar/rw/keyset_writer.cc
@@ -20,14 +20,14 @@ namespace rw {
 
 void KeysetWriter::OnUpdatedKeysetMetadata(const KeysetMetadata& key_metadata) {
   scoped_ptr<Value> metadata_value(key_metadata.GetValue(false));
-  if (metadata_value.get() != NULL)
-    WriteMetadata(*metadata_value);
+  if (metadata_value.get() == NULL || !WriteMetadata(*metadata_value))
+    failed_ = true;
 }
 
 void KeysetWriter::OnNewKey(const Key& key, int version_number) {
   scoped_ptr<Value> key_value(key.GetValue());
-  if (key_value.get() != NULL)
-    WriteKey(*key_value, version_number);
+  if (key_value.get() == NULL || !WriteKey(*key_value, version_number))
+    failed_ = true;
 }
 
 void KeysetWriter::OnRevokedKey(int version_number) {
diff --git a/cpp/src/keyczar/rw/keyset_writer.h b/cpp/src/keyczar/rw/keyset_writer.h
index 5b9dbb5..ff5fa10 100644
--- a/cpp/src/keyczar/rw/keyset_writer.h
+++ b/cpp/src/keyczar/rw/keyset_writer.h
@@ -28,7 +28,7 @@ namespace rw {
 // have to be written.
 class KeysetWriter : public Keyset::Observer {
  public:
-  KeysetWriter() {}
+  KeysetWriter() : failed_(false) {}
   virtual ~KeysetWriter() {}
 
   // Abstract method for writing |metadata|.
@@ -50,7 +50,12 @@ class KeysetWriter : public Keyset::Observer {
   // support by its writer as well.
   virtual void OnRevokedKey(int version_number);
 
+  // Returns true if something this writer was notified of was not written.
+  bool failed() const { return failed_; }
+
  private:
+  bool failed_;
+
   DISALLOW_COPY_AND_ASSIGN(KeysetWriter);
 };
 
-- 
2.43.0


From 92e7fe1b7a2f4748a8760e16c522245abbe79bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:18 +0000
Subject: [PATCH 54/72] fix: C++ accepts messages and signatures with another
 format version

---
 cpp/src/keyczar/keyczar.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp/src/keyczar/keyczar.cc b/cpp/src/keyczar/keyczar.cc
index 0332743..22d0ff8 100644
--- a/cpp/src/keyczar/keyczar.cc
+++ b/cpp/src/keyczar/keyczar.cc
@@ -202,6 +202,10 @@ const Key* Keyczar::LookupKey(const std::string& key_header) const {
   if (keyset() == NULL)
     return NULL;
 
+  // The header begins with the version of the format.
+  if (key_header.empty() || key_header[0] != Key::GetVersionByte())
+    return NULL;
+
   std::string hash;
   if (!GetHash(key_header, &hash))
     return NULL;
-- 
2.43.0


From 95588e3829d9517479ef6468159e9351085e209c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:08 +0000
Subject: [PATCH 55/72] fix: the C++ tool leaves the keys of revoked versions
 on disk

---
 cpp/src/keyczar/keyczar_tool/keyczar_tool.cc | 1 -
 cpp/src/keyczar/rw/keyset_file_writer.cc     | 6 ++++++
 cpp/src/keyczar/rw/keyset_file_writer.h      | 3 +++
 cpp/src/keyczar/rw/keyset_writer.h           | 5 ++++-
 4 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/cpp/src/keyczar/keyczar_tool/keyczar_tool.cc b/cpp/src/keyczar/keyczar_tool/keyczar_tool.cc
index 632a706..ed33810 100644
--- a/cpp/src/keyczar/keyczar_tool/keyczar_tool.cc
+++ b/cpp/src/keyczar/keyczar_tool/keyczar_tool.cc
@@ -423,7 +423,6 @@ bool KeyczarTool::CmdRevoke(const std::string& location, int version) const {
 
   keyset->AddObserver(writer.get());
 
-  // TODO(seb): currently the key version is not erased from disk.
   return keyset->RevokeKey(version) && !writer->failed();
 }
 
diff --git a/cpp/src/keyczar/rw/keyset_file_writer.cc b/cpp/src/keyczar/rw/keyset_file_writer.cc
index 9ade8f4..90c9d20 100644
--- a/cpp/src/keyczar/rw/keyset_file_writer.cc
+++ b/cpp/src/keyczar/rw/keyset_file_writer.cc
@@ -99,6 +99,12 @@ bool KeysetJSONFileWriter::WriteKey(const Value& key, int version) const {
   return WriteJSONFile(key_file, key);
 }
 
+void KeysetJSONFileWriter::OnRevokedKey(int version_number) {
+  FilePath key_file = dirname_.Append(FilePath(IntToString(version_number)));
+  if (!base::Delete(key_file, false))
+    set_failed();
+}
+
 KeysetPBEJSONFileWriter::KeysetPBEJSONFileWriter(const std::string& dirname,
                                                  const std::string& password)
     : KeysetJSONFileWriter(dirname), password_(new std::string(password)) {
diff --git a/cpp/src/keyczar/rw/keyset_file_writer.h b/cpp/src/keyczar/rw/keyset_file_writer.h
index ca518aa..836f509 100644
--- a/cpp/src/keyczar/rw/keyset_file_writer.h
+++ b/cpp/src/keyczar/rw/keyset_file_writer.h
@@ -40,6 +40,9 @@ class KeysetJSONFileWriter : public KeysetWriter {
   // Writes |key| to file |version| inside the keyset directory.
   virtual bool WriteKey(const Value& key, int version) const;
 
+  // Removes the file of the revoked key |version_number|.
+  virtual void OnRevokedKey(int version_number);
+
   FilePath dirname() const { return dirname_; }
 
  private:
diff --git a/cpp/src/keyczar/rw/keyset_writer.h b/cpp/src/keyczar/rw/keyset_writer.h
index ff5fa10..84e025a 100644
--- a/cpp/src/keyczar/rw/keyset_writer.h
+++ b/cpp/src/keyczar/rw/keyset_writer.h
@@ -45,7 +45,7 @@ class KeysetWriter : public Keyset::Observer {
   // must also be written with its writer.
   virtual void OnNewKey(const Key& key, int version_number);
 
-  // This method is called when a key is revoked. Currently this function
+  // This method is called when a key is revoked. By default this function
   // does nothing but the key |version_number| could be deleted from its
   // support by its writer as well.
   virtual void OnRevokedKey(int version_number);
@@ -53,6 +53,9 @@ class KeysetWriter : public Keyset::Observer {
   // Returns true if something this writer was notified of was not written.
   bool failed() const { return failed_; }
 
+ protected:
+  void set_failed() { failed_ = true; }
+
  private:
   bool failed_;
 
-- 
2.43.0


From 0f33a135ab836539628f47fa079d777b00282c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:40 +0000
Subject: [PATCH 56/72] fix: the C++ tool leaves the encrypted flag wrong when
 it adds no key, or a plain key to an emptied set

---
 cpp/src/keyczar/keyczar_tool/keyczar_tool.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/src/keyczar/keyczar_tool/keyczar_tool.cc b/cpp/src/keyczar/keyczar_tool/keyczar_tool.cc
index ed33810..e948cae 100644
--- a/cpp/src/keyczar/keyczar_tool/keyczar_tool.cc
+++ b/cpp/src/keyczar/keyczar_tool/keyczar_tool.cc
@@ -255,12 +255,12 @@ int KeyczarTool::CmdAddKey(const std::string& location,
 
   keyset->AddObserver(writer.get());
 
-  if (key_enc_type != NONE)
-    keyset->set_encrypted(true);
-
   const int version = size == 0 ?
       keyset->GenerateDefaultKeySize(key_status) :
       keyset->GenerateKey(key_status, size);
+  if (version > 0 &&
+      keyset->metadata()->encrypted() != (key_enc_type != NONE))
+    keyset->set_encrypted(key_enc_type != NONE);
   return writer->failed() ? 0 : version;
 }
 
@@ -311,11 +311,11 @@ int KeyczarTool::CmdImportKey(const std::string& location,
 
   keyset->AddObserver(writer.get());
 
-  if (key_enc_type != NONE)
-    keyset->set_encrypted(true);
-
   const int version = keyset->ImportPrivateKey(key_status, filename,
                                                passphrase);
+  if (version > 0 &&
+      keyset->metadata()->encrypted() != (key_enc_type != NONE))
+    keyset->set_encrypted(key_enc_type != NONE);
   return writer->failed() ? 0 : version;
 }
 
-- 
2.43.0


From 8ceb131a712f7a740aedce3e1bd80866a22addff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:34 +0000
Subject: [PATCH 57/72] fix: the C++ tool records a version whose key it could
 not write, and demotes the primary key for it

---
 cpp/src/keyczar/keyset.cc           | 38 +++++++----------------------
 cpp/src/keyczar/keyset.h            |  8 +++---
 cpp/src/keyczar/rw/keyset_writer.cc |  4 +++
 3 files changed, 17 insertions(+), 33 deletions(-)

diff --git a/cpp/src/keyczar/keyset.cc b/cpp/src/keyczar/keyset.cc
index 8000321..6aa9f9a 100644
--- a/cpp/src/keyczar/keyset.cc
+++ b/cpp/src/keyczar/keyset.cc
@@ -170,25 +170,12 @@ int Keyset::GenerateKey(KeyStatus::Type status, int size) {
       return 0;
   } while (hash_map_.find(hash) != hash_map_.end());
 
-  if (status == KeyStatus::PRIMARY && primary_key_version_number() > 0 &&
-      !DemoteKey(primary_key_version_number()))
-    return 0;
-
   scoped_refptr<KeysetMetadata::KeyVersion> key_version;
   key_version =  new KeysetMetadata::KeyVersion(0, status, false);
   if (key_version == NULL)
     return 0;
 
-  int version_number = AddKeyVersion(key_version);
-  if (version_number == 0)
-    return 0;
-
-  if (!AddKey(key, version_number)) {
-    DCHECK(RemoveKeyVersion(version_number));
-    return 0;
-  }
-
-  return version_number;
+  return AddKeyVersion(key_version, key);
 }
 
 int Keyset::GenerateDefaultKeySize(KeyStatus::Type status) {
@@ -226,25 +213,12 @@ int Keyset::ImportPrivateKey(KeyStatus::Type status,
     return 0;
   }
 
-  if (status == KeyStatus::PRIMARY && primary_key_version_number() > 0 &&
-      !DemoteKey(primary_key_version_number()))
-    return 0;
-
   scoped_refptr<KeysetMetadata::KeyVersion> key_version;
   key_version =  new KeysetMetadata::KeyVersion(0, status, false);
   if (key_version == NULL)
     return 0;
 
-  int version_number = AddKeyVersion(key_version);
-  if (version_number == 0)
-    return 0;
-
-  if (!AddKey(key, version_number)) {
-    DCHECK(RemoveKeyVersion(version_number));
-    return 0;
-  }
-
-  return version_number;
+  return AddKeyVersion(key_version, key);
 }
 
 bool Keyset::ExportPrivateKey(const std::string& filename,
@@ -489,7 +463,7 @@ bool Keyset::RemoveKey(int version_number) {
   return true;
 }
 
-int Keyset::AddKeyVersion(KeysetMetadata::KeyVersion* key_version) {
+int Keyset::AddKeyVersion(KeysetMetadata::KeyVersion* key_version, Key* key) {
   if (key_version ==  NULL || key_version->version_number() != 0 ||
       metadata_.get() == NULL)
     return 0;
@@ -497,6 +471,12 @@ int Keyset::AddKeyVersion(KeysetMetadata::KeyVersion* key_version) {
   if (!metadata_->AddVersion(key_version))
     return 0;
 
+  // Observers are told of the key before the metadata that refers to it.
+  if (!AddKey(key, key_version->version_number())) {
+    metadata_->RemoveVersion(key_version->version_number());
+    return 0;
+  }
+
   if (key_version->key_status() == KeyStatus::PRIMARY)
     CHECK(UpdateKeyStatus(KeyStatus::PRIMARY, key_version));
 
diff --git a/cpp/src/keyczar/keyset.h b/cpp/src/keyczar/keyset.h
index 538dac3..7e0bed3 100644
--- a/cpp/src/keyczar/keyset.h
+++ b/cpp/src/keyczar/keyset.h
@@ -249,10 +249,10 @@ class Keyset {
   // |hash_map_| and from |version_number_map_|. Returns false if it failed.
   bool RemoveKey(int version_number);
 
-  // Adds |key_version| to |metadata_| object. This function also assigns a
-  // version number and returns it. This class takes ownership of |key_version|.
-  // It returns 0 if |key_version| insertion failed.
-  int AddKeyVersion(KeysetMetadata::KeyVersion* key_version);
+  // Adds |key| to this set, and |key_version| to |metadata_| object. This
+  // function also assigns a version number and returns it. This class takes
+  // ownership of |key_version| and |key|. It returns 0 if the insertion failed.
+  int AddKeyVersion(KeysetMetadata::KeyVersion* key_version, Key* key);
 
   // Removes key version |version_number| from |metadata_| object. It returns
   // true if it succeeds. This call is expected to always succeed.
diff --git a/cpp/src/keyczar/rw/keyset_writer.cc b/cpp/src/keyczar/rw/keyset_writer.cc
index b2a4aeb..db58201 100644
--- a/cpp/src/keyczar/rw/keyset_writer.cc
+++ b/cpp/src/keyczar/rw/keyset_writer.cc
@@ -19,6 +19,10 @@ namespace keyczar {
 namespace rw {
 
 void KeysetWriter::OnUpdatedKeysetMetadata(const KeysetMetadata& key_metadata) {
+  // The metadata must not refer to a key that could not be written.
+  if (failed_)
+    return;
+
   scoped_ptr<Value> metadata_value(key_metadata.GetValue(false));
   if (metadata_value.get() == NULL || !WriteMetadata(*metadata_value))
     failed_ = true;
-- 
2.43.0


From 7e3528545b5a1a8ef5e8101dceb4cad648a8a1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:34 +0000
Subject: [PATCH 58/72] fix: Java attached DSA signatures end in zero bytes
 that are not part of them

---
 java/code/src/org/keyczar/Signer.java | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/java/code/src/org/keyczar/Signer.java b/java/code/src/org/keyczar/Signer.java
index 14a76dc..dab2b37 100644
--- a/java/code/src/org/keyczar/Signer.java
+++ b/java/code/src/org/keyczar/Signer.java
@@ -226,15 +226,17 @@ public class Signer extends Verifier {
 
     // now get signature output
     ByteBuffer output = ByteBuffer.allocate(stream.digestSize());
-    output.mark();
 
     stream.sign(output);
-    output.limit(output.position());
+    // a DSA signature can be shorter than the largest one
+    byte[] rawSignature = new byte[output.position()];
+    output.rewind();
+    output.get(rawSignature);
 
     // Attached signature format is:
     // [Format number | 4 bytes of key hash | blob size | blob | raw signature]
     byte[] signature =
-        Util.cat(FORMAT_BYTES, signingKey.hash(), Util.lenPrefix(blob), output.array());
+        Util.cat(FORMAT_BYTES, signingKey.hash(), Util.lenPrefix(blob), rawSignature);
 
     SIGN_QUEUE.add(stream);
 
-- 
2.43.0


From a2fa4d2f51aec6c61b5ef79b94bafb4e3b746f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:34 +0000
Subject: [PATCH 59/72] fix: Java decryption of a truncated AES ciphertext
 throws BufferUnderflowException

---
 java/code/src/org/keyczar/AesKey.java | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/java/code/src/org/keyczar/AesKey.java b/java/code/src/org/keyczar/AesKey.java
index 52e53e0..9a0601f 100644
--- a/java/code/src/org/keyczar/AesKey.java
+++ b/java/code/src/org/keyczar/AesKey.java
@@ -21,6 +21,7 @@ import org.json.JSONObject;
 import org.keyczar.enums.CipherMode;
 import org.keyczar.exceptions.KeyczarException;
 import org.keyczar.exceptions.ShortBufferException;
+import org.keyczar.exceptions.ShortCiphertextException;
 import org.keyczar.i18n.Messages;
 import org.keyczar.interfaces.DecryptingStream;
 import org.keyczar.interfaces.EncryptingStream;
@@ -198,7 +199,10 @@ public class AesKey extends KeyczarKey {
     }
 
     @Override
-    public void initDecrypt(ByteBuffer input) {
+    public void initDecrypt(ByteBuffer input) throws KeyczarException {
+      if (input.remaining() < BLOCK_SIZE) {
+        throw new ShortCiphertextException(input.remaining());
+      }
       // This will simply decrypt the first block, leaving the CBC Cipher
       // ready for the next block of input.
       byte[] iv = new byte[BLOCK_SIZE];
@@ -254,6 +258,9 @@ public class AesKey extends KeyczarKey {
           // This can occur if someone encrypts an 0-length array
           return 0;
         }
+        if (input.remaining() < BLOCK_SIZE) {
+          throw new ShortCiphertextException(input.remaining());
+        }
         // The next output block will be the IV preimage, which we'll discard
         byte[] temp = new byte[BLOCK_SIZE];
         input.get(temp);
-- 
2.43.0


From 1899b81bb79676afd85952c589ee6ccb369428c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:34 +0000
Subject: [PATCH 60/72] fix: Java Base64Coder throws
 ArrayIndexOutOfBoundsException for an empty text, "=" and characters above
 127

---
 java/code/src/org/keyczar/util/Base64Coder.java | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/java/code/src/org/keyczar/util/Base64Coder.java b/java/code/src/org/keyczar/util/Base64Coder.java
index a215422..121d7c0 100644
--- a/java/code/src/org/keyczar/util/Base64Coder.java
+++ b/java/code/src/org/keyczar/util/Base64Coder.java
@@ -81,17 +81,17 @@ public class Base64Coder {
     char[] input = source.toCharArray();
     int inLen = input.length;
     // Trim up to two trailing '=' padding characters
-    if (input[inLen - 1] == '=') {
+    if (inLen > 0 && input[inLen - 1] == '=') {
       inLen--;
     }
-    if (input[inLen - 1] == '=') {
+    if (inLen > 0 && input[inLen - 1] == '=') {
       inLen--;
     }
 
     // Ignore whitespace
     int whiteSpaceChars = 0;
-    for (char c : input) {
-      if (isWhiteSpace(c)) {
+    for (int i = 0; i < inLen; i++) {
+      if (isWhiteSpace(input[i])) {
         whiteSpaceChars++;
       }
     }
@@ -243,6 +243,6 @@ public class Base64Coder {
   }
 
   private static boolean isWhiteSpace(int i) {
-    return DECODE[i] == -2;
+    return i < DECODE.length && DECODE[i] == -2;
   }
 }
\ No newline at end of file
-- 
2.43.0


From 0c8044281538a0635a8e7971291cb1b96c9b0102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:34 +0000
Subject: [PATCH 61/72] fix: Java Crypter.decrypt(String) decodes the plaintext
 in the platform charset, encrypt(String) encodes it in UTF-8

---
 java/code/src/org/keyczar/Crypter.java | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/java/code/src/org/keyczar/Crypter.java b/java/code/src/org/keyczar/Crypter.java
index 3b61678..8e8096e 100644
--- a/java/code/src/org/keyczar/Crypter.java
+++ b/java/code/src/org/keyczar/Crypter.java
@@ -28,6 +28,7 @@ import org.keyczar.interfaces.KeyczarReader;
 import org.keyczar.interfaces.VerifyingStream;
 import org.keyczar.util.Base64Coder;
 
+import java.io.UnsupportedEncodingException;
 import java.nio.ByteBuffer;
 
 /**
@@ -177,7 +178,11 @@ public class Crypter extends Encrypter {
    * not web-safe Base64 encoded, or a JCE error occurs.
    */
   public String decrypt(String ciphertext) throws KeyczarException {
-    return new String(decrypt(Base64Coder.decodeWebSafe(ciphertext)));
+    try {
+      return new String(decrypt(Base64Coder.decodeWebSafe(ciphertext)), DEFAULT_ENCODING);
+    } catch (UnsupportedEncodingException e) {
+      throw new KeyczarException(e);
+    }
   }
 
   @Override
-- 
2.43.0


From 9040218aa302efb57aa7bd2c6690766e3a505d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:34 +0000
Subject: [PATCH 62/72] fix: Java attachedVerify throws
 BufferUnderflowException, NegativeArraySizeException or OutOfMemoryError for
 malformed input

---
 java/code/src/org/keyczar/Verifier.java | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/java/code/src/org/keyczar/Verifier.java b/java/code/src/org/keyczar/Verifier.java
index 2b828bf..4d02b71 100644
--- a/java/code/src/org/keyczar/Verifier.java
+++ b/java/code/src/org/keyczar/Verifier.java
@@ -209,9 +209,7 @@ public class Verifier extends Keyczar {
 
     // we have stripped the format and hash, now just get the blob and
     // raw signature
-    int blobSize = sigBuffer.getInt();
-    byte[] blob = new byte[blobSize];
-    sigBuffer.get(blob);
+    byte[] blob = getBlob(sigBuffer);
     int signatureSize = sigBuffer.remaining();
     byte[] signature = new byte[signatureSize];
     sigBuffer.get(signature);
@@ -268,15 +266,27 @@ public class Verifier extends Keyczar {
 
     // we have stripped the format and hash, now just get the blob and
     // raw signature
-    int blobSize = sigBuffer.getInt();
-    byte[] blob = new byte[blobSize];
-    sigBuffer.get(blob);
+    return getBlob(sigBuffer);
+  }
 
+  private byte[] getBlob(ByteBuffer signature) throws ShortSignatureException {
+    if (signature.remaining() < 4) {
+      throw new ShortSignatureException(signature.remaining());
+    }
+    int blobSize = signature.getInt();
+    if (blobSize < 0 || blobSize > signature.remaining()) {
+      throw new ShortSignatureException(signature.remaining());
+    }
+    byte[] blob = new byte[blobSize];
+    signature.get(blob);
     return blob;
   }
 
   private byte[] checkFormatAndGetHash(ByteBuffer signature)
-      throws BadVersionException {
+      throws BadVersionException, ShortSignatureException {
+    if (signature.remaining() < HEADER_SIZE) {
+      throw new ShortSignatureException(signature.remaining());
+    }
     byte version = signature.get();
     if (version != FORMAT_VERSION) {
       throw new BadVersionException(version);
-- 
2.43.0


From c8bfdc9a98fe6d0ccdca49460bca29fe9eca29b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:34 +0000
Subject: [PATCH 63/72] fix: a Java UnversionedVerifier verifies with the key
 of another verifier that has the same four byte id

---
 java/code/src/org/keyczar/StreamCache.java    | 23 ++++++++-----------
 .../src/org/keyczar/UnversionedVerifier.java  |  2 +-
 2 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/java/code/src/org/keyczar/StreamCache.java b/java/code/src/org/keyczar/StreamCache.java
index 7113e7d..b730d87 100644
--- a/java/code/src/org/keyczar/StreamCache.java
+++ b/java/code/src/org/keyczar/StreamCache.java
@@ -18,7 +18,8 @@ package org.keyczar;
 
 import org.keyczar.interfaces.Stream;
 
-import java.util.concurrent.ConcurrentHashMap;
+import java.util.IdentityHashMap;
+import java.util.Map;
 
 /**
  * Caches StreamQueue objects for KeyczarKeys so they can reused.
@@ -28,8 +29,9 @@ import java.util.concurrent.ConcurrentHashMap;
  * @param <T>
  */
 class StreamCache<T extends Stream> {
-  private final ConcurrentHashMap<KeyczarKey, StreamQueue<T>> cacheMap =
-    new ConcurrentHashMap<KeyczarKey, StreamQueue<T>>();
+  // By identity: keys with equal hashes can be different keys.
+  private final Map<KeyczarKey, StreamQueue<T>> cacheMap =
+    new IdentityHashMap<KeyczarKey, StreamQueue<T>>();
 
   void put(KeyczarKey key, T s) {
     getQueue(key).add(s);
@@ -39,17 +41,12 @@ class StreamCache<T extends Stream> {
     return getQueue(key).poll();
   }
 
-  StreamQueue<T> getQueue(KeyczarKey key) {
+  synchronized StreamQueue<T> getQueue(KeyczarKey key) {
     StreamQueue<T> queue = cacheMap.get(key);
-    if (queue != null) {
-      return queue;
+    if (queue == null) {
+      queue = new StreamQueue<T>();
+      cacheMap.put(key, queue);
     }
-    StreamQueue<T> freshQueue = new StreamQueue<T>();
-    queue = cacheMap.putIfAbsent(key, freshQueue);
-    if (queue != null) {
-      // Another thread already inserted a fresh queue with this key.
-      return queue;
-    }
-    return freshQueue;
+    return queue;
   }
 }
\ No newline at end of file
diff --git a/java/code/src/org/keyczar/UnversionedVerifier.java b/java/code/src/org/keyczar/UnversionedVerifier.java
index 0cf000c..0f3e35f 100644
--- a/java/code/src/org/keyczar/UnversionedVerifier.java
+++ b/java/code/src/org/keyczar/UnversionedVerifier.java
@@ -42,7 +42,7 @@ import java.nio.ByteBuffer;
 *
 */
 public class UnversionedVerifier extends Keyczar {
-  private static final StreamCache<VerifyingStream> VERIFY_CACHE
+  private final StreamCache<VerifyingStream> VERIFY_CACHE
     = new StreamCache<VerifyingStream>();
 
   /**
-- 
2.43.0


From 6d6a03e67920cfe0e7915175c69a598e5e2f31b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:30 +0000
Subject: [PATCH 64/72] fix: Java session material of fewer than four bytes
 throws BufferUnderflowException

---
 java/code/src/org/keyczar/util/Util.java | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/java/code/src/org/keyczar/util/Util.java b/java/code/src/org/keyczar/util/Util.java
index bf31193..089cfac 100644
--- a/java/code/src/org/keyczar/util/Util.java
+++ b/java/code/src/org/keyczar/util/Util.java
@@ -184,6 +184,9 @@ public class Util {
    */
   public static byte[][] lenPrefixUnpack(byte[] packedInput, int maxArrays) {
     ByteBuffer input = ByteBuffer.wrap(packedInput);
+    if (input.remaining() < 4) {
+      return null;
+    }
     int numArrays = input.getInt();
     if (numArrays < 0 || numArrays > maxArrays) {
       return null;
-- 
2.43.0


From efc1c253da4ec56f8dec00008dc5b4e14eec25a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:05 +0000
Subject: [PATCH 65/72] fix: the Java tool rewrites metadata in the platform
 charset, which changes or destroys names

---
 java/code/src/org/keyczar/GenericKeyczar.java    | 7 +++++--
 java/code/src/org/keyczar/KeyczarFileReader.java | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/java/code/src/org/keyczar/GenericKeyczar.java b/java/code/src/org/keyczar/GenericKeyczar.java
index 903ea28..efb2a5e 100644
--- a/java/code/src/org/keyczar/GenericKeyczar.java
+++ b/java/code/src/org/keyczar/GenericKeyczar.java
@@ -9,8 +9,10 @@ import org.keyczar.interfaces.KeyczarReader;
 import org.keyczar.keyparams.KeyParameters;
 
 import java.io.File;
-import java.io.FileWriter;
+import java.io.FileOutputStream;
 import java.io.IOException;
+import java.io.OutputStreamWriter;
+import java.io.Writer;
 import java.util.Collections;
 import java.util.Set;
 
@@ -301,7 +303,8 @@ class GenericKeyczar extends Keyczar {
       throws KeyczarException {
     File outputFile = new File(location);
     try {
-      FileWriter writer = new FileWriter(outputFile);
+      Writer writer =
+          new OutputStreamWriter(new FileOutputStream(outputFile), DEFAULT_ENCODING);
 
       // only allow the file owner to read/write the file
       final boolean appliesToAll = false;
diff --git a/java/code/src/org/keyczar/KeyczarFileReader.java b/java/code/src/org/keyczar/KeyczarFileReader.java
index 88ae03a..bb6ae61 100644
--- a/java/code/src/org/keyczar/KeyczarFileReader.java
+++ b/java/code/src/org/keyczar/KeyczarFileReader.java
@@ -65,7 +65,7 @@ public class KeyczarFileReader implements KeyczarReader {
       FileInputStream fis = new FileInputStream(file);
       try {
         byte[] contents = Util.readStreamFully(fis);
-        return new String(contents);
+        return new String(contents, Keyczar.DEFAULT_ENCODING);
       } finally {
         fis.close();
       }
-- 
2.43.0


From bdfdc6299edb44ab32c4be4a30e048a9d1e86107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:05 +0000
Subject: [PATCH 66/72] fix: the Java tool creates key sets without name that
 nothing can read

---
 java/code/src/org/keyczar/KeyczarTool.java | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/java/code/src/org/keyczar/KeyczarTool.java b/java/code/src/org/keyczar/KeyczarTool.java
index f7256af..984966a 100644
--- a/java/code/src/org/keyczar/KeyczarTool.java
+++ b/java/code/src/org/keyczar/KeyczarTool.java
@@ -320,6 +320,9 @@ public class KeyczarTool {
       throw new KeyczarException(
           Messages.getString("KeyczarTool.MustDefinePurpose"));
     }
+    if (nameFlag == null) {
+      nameFlag = ""; // metadata without a name cannot be read
+    }
     switch (purposeFlag) {
       case TEST:
         kmd = new KeyMetadata(nameFlag, KeyPurpose.TEST, DefaultKeyType.TEST);
-- 
2.43.0


From 28a63ff20b03914db08a5f1492e0411f04f261ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:05 +0000
Subject: [PATCH 67/72] fix: the Java tool cuts the values of flags at the
 second equals sign, and so takes another location

---
 java/code/src/org/keyczar/KeyczarTool.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/java/code/src/org/keyczar/KeyczarTool.java b/java/code/src/org/keyczar/KeyczarTool.java
index 984966a..c8c5a0c 100644
--- a/java/code/src/org/keyczar/KeyczarTool.java
+++ b/java/code/src/org/keyczar/KeyczarTool.java
@@ -97,8 +97,8 @@ public class KeyczarTool {
         for (String arg : args) {
           if (arg.startsWith("--")) {
             arg = arg.substring(2); // Trim off the leading dashes
-            String[] nameValuePair = arg.split("=");
-            if (nameValuePair.length > 1) {
+            String[] nameValuePair = arg.split("=", 2);
+            if (nameValuePair.length > 1 && nameValuePair[1].length() > 0) {
               Flag f = Flag.getFlag(nameValuePair[0]);
               flagMap.put(f, nameValuePair[1]);
             }
-- 
2.43.0


From 259aabbade9a043d230c4b879a5d6b40a3270af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:05 +0000
Subject: [PATCH 68/72] fix: Java pubkey with the key set's own location as
 destination replaces the private keys

---
 java/code/src/org/keyczar/KeyczarTool.java | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/java/code/src/org/keyczar/KeyczarTool.java b/java/code/src/org/keyczar/KeyczarTool.java
index c8c5a0c..998bd87 100644
--- a/java/code/src/org/keyczar/KeyczarTool.java
+++ b/java/code/src/org/keyczar/KeyczarTool.java
@@ -446,9 +446,23 @@ public class KeyczarTool {
           Messages.getString("KeyczarTool.MustDefineDestination"));
     }
     GenericKeyczar genericKeyczar = createGenericKeyczar(locationFlag);
+    if (mock == null && isSameFile(locationFlag, destinationFlag)) {
+      // would replace the private keys
+      throw new KeyczarException(
+          Messages.getString("KeyczarTool.UnableToWrite", destinationFlag));
+    }
     genericKeyczar.publicKeyExport(destinationFlag);
   }
 
+  private static boolean isSameFile(String path1, String path2) throws KeyczarException {
+    try {
+      return new File(path1).getCanonicalFile().equals(new File(path2).getCanonicalFile());
+    } catch (IOException e) {
+      throw new KeyczarException(
+          Messages.getString("KeyczarTool.UnableToWrite", path2), e);
+    }
+  }
+
   /**
    * If the version flag is set, revokes the key of the given version.
    * Pushes update to meta file. Deletes old key file. Requires location
-- 
2.43.0


From 071ee72ccdd718d1fdf5b417704333eb0c05f94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:05 +0000
Subject: [PATCH 69/72] fix: Java importkey adds a key of another type to a key
 set, which can then not be read

---
 java/code/src/org/keyczar/KeyczarTool.java | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/java/code/src/org/keyczar/KeyczarTool.java b/java/code/src/org/keyczar/KeyczarTool.java
index 998bd87..50746b1 100644
--- a/java/code/src/org/keyczar/KeyczarTool.java
+++ b/java/code/src/org/keyczar/KeyczarTool.java
@@ -22,6 +22,7 @@ import org.keyczar.enums.KeyPurpose;
 import org.keyczar.enums.KeyStatus;
 import org.keyczar.enums.RsaPadding;
 import org.keyczar.exceptions.KeyczarException;
+import org.keyczar.exceptions.UnsupportedTypeException;
 import org.keyczar.i18n.Messages;
 import org.keyczar.interfaces.KeyType;
 import org.keyczar.interfaces.KeyczarReader;
@@ -197,8 +198,10 @@ public class KeyczarTool {
 
     // Change destination type if necessary, but only if there aren't any keys in it yet.
     final KeyType sourceKeyType = sourceKeyczar.getMetadata().getType();
-    if (destMetadata.getType() != sourceKeyType
-        && destinationKeyczar.getVersions().isEmpty()) {
+    if (destMetadata.getType() != sourceKeyType) {
+      if (!destinationKeyczar.getVersions().isEmpty()) {
+        throw new UnsupportedTypeException(sourceKeyType);
+      }
       destMetadata.setType(sourceKeyType);
     }
 
-- 
2.43.0


From 898f2046efce1baa00b98d5f5581ebcdbdbb44ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:44 +0000
Subject: [PATCH 70/72] fix: Java RSA and DSA verification reads the wrong
 bytes of a sliced signature buffer, and fails on direct and read-only ones

---
 java/code/src/org/keyczar/DsaPublicKey.java | 5 +++--
 java/code/src/org/keyczar/RsaPublicKey.java | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/java/code/src/org/keyczar/DsaPublicKey.java b/java/code/src/org/keyczar/DsaPublicKey.java
index d17de85..f7c4d43 100644
--- a/java/code/src/org/keyczar/DsaPublicKey.java
+++ b/java/code/src/org/keyczar/DsaPublicKey.java
@@ -228,8 +228,9 @@ public class DsaPublicKey extends KeyczarPublicKey {
     @Override
     public boolean verify(ByteBuffer sig) throws KeyczarException {
       try {
-        return signature.verify(sig.array(), sig.position(), sig.limit()
-            - sig.position());
+        byte[] sigBytes = new byte[sig.remaining()];
+        sig.get(sigBytes);
+        return signature.verify(sigBytes);
       } catch (GeneralSecurityException e) {
         throw new KeyczarException(e);
       }
diff --git a/java/code/src/org/keyczar/RsaPublicKey.java b/java/code/src/org/keyczar/RsaPublicKey.java
index 7b11767..0302c77 100644
--- a/java/code/src/org/keyczar/RsaPublicKey.java
+++ b/java/code/src/org/keyczar/RsaPublicKey.java
@@ -305,8 +305,9 @@ public class RsaPublicKey extends KeyczarPublicKey {
     @Override
     public boolean verify(ByteBuffer sig) throws KeyczarException {
       try {
-        return signature.verify(sig.array(), sig.position(), sig.limit()
-            - sig.position());
+        byte[] sigBytes = new byte[sig.remaining()];
+        sig.get(sigBytes);
+        return signature.verify(sigBytes);
       } catch (GeneralSecurityException e) {
         throw new KeyczarException(e);
       }
-- 
2.43.0


From 0680bb8d3a92ec55ad164663f0222b31d4a75157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:17 +0000
Subject: [PATCH 71/72] fix: Java importkey: refuse keys of another type when
 the set is written (the Java tests import them into mock sets)

---
 java/code/src/org/keyczar/GenericKeyczar.java | 15 +++++++++++++++
 java/code/src/org/keyczar/KeyczarTool.java    |  7 ++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/java/code/src/org/keyczar/GenericKeyczar.java b/java/code/src/org/keyczar/GenericKeyczar.java
index efb2a5e..88ca6a9 100644
--- a/java/code/src/org/keyczar/GenericKeyczar.java
+++ b/java/code/src/org/keyczar/GenericKeyczar.java
@@ -3,6 +3,7 @@ package org.keyczar;
 import org.keyczar.enums.KeyPurpose;
 import org.keyczar.enums.KeyStatus;
 import org.keyczar.exceptions.KeyczarException;
+import org.keyczar.exceptions.UnsupportedTypeException;
 import org.keyczar.i18n.Messages;
 import org.keyczar.interfaces.KeyType;
 import org.keyczar.interfaces.KeyczarReader;
@@ -266,6 +267,7 @@ class GenericKeyczar extends Keyczar {
    * @throws KeyczarException if unable to write to given location.
    */
   void write(String location) throws KeyczarException {
+    checkKeyTypes();
     for (KeyVersion version : getVersions()) {
       writeFile(getKey(version).toString(), location
           + version.getVersionNumber());
@@ -283,6 +285,7 @@ class GenericKeyczar extends Keyczar {
    */
   void writeEncrypted(String location, Encrypter encrypter)
       throws KeyczarException {
+    checkKeyTypes();
     KeyMetadata kmd = getMetadata();
     kmd.setEncrypted(true);
     for (KeyVersion version : getVersions()) {
@@ -292,6 +295,18 @@ class GenericKeyczar extends Keyczar {
     writeFile(kmd.toString(), location + KeyczarFileReader.META_FILE);
   }
 
+  /**
+   * Makes sure that every key has the type of the key set: other keys could not be read again.
+   */
+  private void checkKeyTypes() throws KeyczarException {
+    for (KeyVersion version : getVersions()) {
+      KeyType type = getKey(version).getType();
+      if (type != kmd.getType()) {
+        throw new UnsupportedTypeException(type);
+      }
+    }
+  }
+
   /**
    * Utility function to securely write given data to a file at given location.
    *
diff --git a/java/code/src/org/keyczar/KeyczarTool.java b/java/code/src/org/keyczar/KeyczarTool.java
index 50746b1..998bd87 100644
--- a/java/code/src/org/keyczar/KeyczarTool.java
+++ b/java/code/src/org/keyczar/KeyczarTool.java
@@ -22,7 +22,6 @@ import org.keyczar.enums.KeyPurpose;
 import org.keyczar.enums.KeyStatus;
 import org.keyczar.enums.RsaPadding;
 import org.keyczar.exceptions.KeyczarException;
-import org.keyczar.exceptions.UnsupportedTypeException;
 import org.keyczar.i18n.Messages;
 import org.keyczar.interfaces.KeyType;
 import org.keyczar.interfaces.KeyczarReader;
@@ -198,10 +197,8 @@ public class KeyczarTool {
 
     // Change destination type if necessary, but only if there aren't any keys in it yet.
     final KeyType sourceKeyType = sourceKeyczar.getMetadata().getType();
-    if (destMetadata.getType() != sourceKeyType) {
-      if (!destinationKeyczar.getVersions().isEmpty()) {
-        throw new UnsupportedTypeException(sourceKeyType);
-      }
+    if (destMetadata.getType() != sourceKeyType
+        && destinationKeyczar.getVersions().isEmpty()) {
       destMetadata.setType(sourceKeyType);
     }
 
-- 
2.43.0


From 14b8e80254aa4e44533a8e03c75c54d5f16f73e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:09 +0000
Subject: [PATCH 72/72] fix: Java importkey puts DSA keys and certificates into
 key sets for encrypting

---
 java/code/src/org/keyczar/PkcsKeyReader.java         | 2 +-
 java/code/src/org/keyczar/X509CertificateReader.java | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/java/code/src/org/keyczar/PkcsKeyReader.java b/java/code/src/org/keyczar/PkcsKeyReader.java
index a5c8ad7..abe43a0 100644
--- a/java/code/src/org/keyczar/PkcsKeyReader.java
+++ b/java/code/src/org/keyczar/PkcsKeyReader.java
@@ -128,7 +128,7 @@ public class PkcsKeyReader implements KeyczarReader {
   }
 
   private static void validatePurpose(KeyczarKey key, KeyPurpose purpose) throws KeyczarException {
-    if (purpose == KeyPurpose.ENCRYPT && key.getType() == DefaultKeyType.DSA_PUB) {
+    if (purpose == KeyPurpose.DECRYPT_AND_ENCRYPT && key.getType() == DefaultKeyType.DSA_PRIV) {
       throw new KeyczarException(Messages.getString("Keyczartool.InvalidUseOfDsaKey"));
     }
   }
diff --git a/java/code/src/org/keyczar/X509CertificateReader.java b/java/code/src/org/keyczar/X509CertificateReader.java
index 1d3d14d..a89f01b 100644
--- a/java/code/src/org/keyczar/X509CertificateReader.java
+++ b/java/code/src/org/keyczar/X509CertificateReader.java
@@ -92,7 +92,8 @@ public class X509CertificateReader implements KeyczarReader {
   }
 
   private void constructMetadata() throws KeyczarException {
-    if (purpose == KeyPurpose.ENCRYPT && key.getType() == DefaultKeyType.DSA_PUB) {
+    if ((purpose == KeyPurpose.ENCRYPT || purpose == KeyPurpose.DECRYPT_AND_ENCRYPT)
+        && key.getType() == DefaultKeyType.DSA_PUB) {
       throw new KeyczarException(Messages.getString("Keyczartool.InvalidUseOfDsaKey"));
     }
     meta = new KeyMetadata("imported from certificate", purpose, key.getType());
-- 
2.43.0

