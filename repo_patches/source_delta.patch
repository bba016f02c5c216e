From 8bc2e046d682b1eaa2d141fca6cdf1ea9ade6ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:14 +0000
Subject: [PATCH 01/22] fix: report a truncated encrypted stream instead of a
 silent end of file

DecryptingStreamReader.read() returned '' (end of stream) without ever checking
the MAC when the input ended inside the header, IV or trailing MAC.
---
 python/src/keyczar/keys.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 7a91f0d..742b1d2 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -1143,6 +1143,7 @@ class DecryptingStreamReader(object):
     self.__cipher = None
     self.__encrypted_buffer = ''
     self.__decrypted_buffer = ''
+    self.__verified = False
     self.__closed = False
 
   def read(self, chars=-1):
@@ -1211,10 +1212,15 @@ class DecryptingStreamReader(object):
           if not self.__key.hmac_key.VerifySignedData(current_sig_bytes, 
                                                       msg_sig_bytes):
             raise errors.InvalidSignatureError()
+          self.__verified = True
           decrypted_data = self.__key._UnPad(decrypted_data)
           
         self.__decrypted_buffer += decrypted_data
         
+    if not is_data_avail and not self.__verified:
+      # the input ended before there was a complete message to authenticate
+      raise errors.ShortCiphertextError(len(self.__encrypted_buffer))
+
     if chars < 0:
       result = self.__decrypted_buffer
       self.__decrypted_buffer = ''
-- 
2.43.0


From 449f88d97f437242b8b4aa9426dd97cd78ac2ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:42 +0000
Subject: [PATCH 02/22] fix: raise NoPrimaryKeyError when a key set has no
 primary key

Looking up the version None raised KeyNotFoundError("... None not found") before
the callers' "is None" test could raise the documented NoPrimaryKeyError.
---
 python/src/keyczar/keyczar.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index af20330..953e35f 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -68,7 +68,13 @@ class Keyczar(object, metaclass=util.ABCMeta):
   versions = property(lambda self: [k for k in list(self._keys.keys())
                                     if isinstance(k, keydata.KeyVersion)],
                       doc="""List of versions in key set.""")
-  primary_key = property(lambda self: self.GetKey(self.primary_version),
+
+  def __GetPrimaryKey(self):
+    if self.primary_version is None:
+      raise errors.NoPrimaryKeyError()
+    return self.GetKey(self.primary_version)
+
+  primary_key = property(__GetPrimaryKey,
                          doc="""The primary key for this key set.""")
 
   def __str__(self):
-- 
2.43.0


From 2a984748c5c74c128d753f55e447836a5e7c367a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:42 +0000
Subject: [PATCH 03/22] fix: forget the key of a revoked version

Revoke() removed the version from the metadata only: the key set could still
look the key up, and the next Write() or PublicKeyExport() wrote it out again.
---
 python/src/keyczar/keyczar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index 953e35f..646cb8f 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -253,6 +253,8 @@ class GenericKeyczar(Keyczar):
     version = self.metadata.GetVersion(version_number)
     if version.status == keyinfo.INACTIVE:
       self.metadata.RemoveVersion(version_number)
+      key = self._keys.pop(version)
+      self._keys.pop(key.hash_id, None)
     else:
       raise errors.KeyczarError("Can't revoke key if not inactive.")
 
-- 
2.43.0


From 5fba1b575c2a139161e4bb6286d39075ac7a1386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:42 +0000
Subject: [PATCH 04/22] fix: write key data before the metadata that refers to
 it

A crash between the two steps left metadata naming a version without a key file,
so the whole key set could no longer be read.
---
 python/src/keyczar/keyczar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index 646cb8f..d50b9ad 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -300,9 +300,10 @@ class GenericKeyczar(Keyczar):
         'Using a string as the writer is deprecated. Use writers.CreateWriter', 
         DeprecationWarning)
     self.metadata.encrypted = (encrypter is not None)
-    writer.WriteMetadata(self.metadata)
+    # keys first: metadata must never name a key that is not stored yet
     for v in self.versions:
       writer.WriteKey(self.GetKey(v), v.version_number, encrypter)
+    writer.WriteMetadata(self.metadata)
 
 class Encrypter(Keyczar):
   """Capable of encrypting only."""
-- 
2.43.0


From d235a7c10b7b0b70ca03d8597f01492c4d61e612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:42 +0000
Subject: [PATCH 05/22] fix: report a short attached signature as
 ShortSignatureError

AttachedVerify() let struct.error escape for input shorter than nine bytes.
---
 python/src/keyczar/keyczar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index d50b9ad..269d0c4 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -434,6 +434,8 @@ class Verifier(Keyczar):
     """
     decoded_data = decoder(signed_data) if decoder else signed_data
 
+    if len(decoded_data) < HEADER_SIZE + 4:  # header + length of attached data
+      raise errors.ShortSignatureError(len(decoded_data))
     data, offset = util.UnpackByteArray(decoded_data, HEADER_SIZE)
     signature = decoded_data[offset:]
     if self.__InternalVerify(decoded_data[:HEADER_SIZE], signature, data, nonce):
-- 
2.43.0


From 1b3b94fc0e2f8ca2e30bb90e7306961cee1632d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:06 +0000
Subject: [PATCH 06/22] fix: close the wrapped reader of an EncryptedReader

---
 python/src/keyczar/readers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/python/src/keyczar/readers.py b/python/src/keyczar/readers.py
index 43932b1..1a94223 100644
--- a/python/src/keyczar/readers.py
+++ b/python/src/keyczar/readers.py
@@ -152,8 +152,7 @@ class EncryptedReader(Reader):
     return self._crypter.Decrypt(self._reader.GetKey(version_number))
 
   def Close(self):
-    # Nothing to close - util.ReadFile() closes it
-    return
+    self._reader.Close()
 
   @classmethod
   def CreateReader(cls, location):
-- 
2.43.0


From 11f8c2cdb15f8e9d224c4d127266a706d89a4cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:07 +0000
Subject: [PATCH 07/22] fix: reject malformed DSA signatures instead of leaking
 parser errors

ParseDsaSig() documents KeyczarError for an invalid signature, but anything that
is not the DER of a pair of integers escaped as PyAsn1Error, TypeError,
ValueError or AttributeError, through Verify() to the caller.
---
 python/src/keyczar/util.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index d06dced..cde1b76 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -50,6 +50,7 @@ except ImportError:
       self.characters_written = characters_written
 
 from pyasn1.codec.der import decoder
+from pyasn1.error import PyAsn1Error
 from pyasn1.codec.der import encoder
 from pyasn1.type import univ
 
@@ -234,11 +235,14 @@ def ParseDsaSig(sig):
 
   @raise KeyczarErrror: if the DSA signature format is invalid
   """
-  seq = decoder.decode(sig)[0]
-  if len(seq) != 2:
+  try:
+    seq = decoder.decode(sig)[0]
+    if len(seq) != 2:
+      raise errors.KeyczarError("Illegal DSA signature.")
+    r = int(seq.getComponentByPosition(0))
+    s = int(seq.getComponentByPosition(1))
+  except (PyAsn1Error, AttributeError, TypeError, ValueError):
     raise errors.KeyczarError("Illegal DSA signature.")
-  r = int(seq.getComponentByPosition(0))
-  s = int(seq.getComponentByPosition(1))
   return (r, s)
 
 def MakeEmsaMessage(msg, modulus_size):
-- 
2.43.0


From 5dbe0bee9a4d10fbd55dd374f4bb4488a011db9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:07 +0000
Subject: [PATCH 08/22] fix: report undecodable Base64 as Base64DecodingError

base64 signals bad input with binascii.Error, a ValueError, which escaped.
---
 python/src/keyczar/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index cde1b76..5cfa9c4 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -393,8 +393,9 @@ def Base64WSDecode(s):
     s += "="
   try:
     return base64.urlsafe_b64decode(s)
-  except TypeError:
-    # Decoding raises TypeError if s contains invalid characters.
+  except (TypeError, ValueError):
+    # Decoding raises TypeError or ValueError (binascii.Error) if s contains
+    # invalid characters.
     raise errors.Base64DecodingError()
 
 # Struct packed byte array format specifiers used below
-- 
2.43.0


From df645e1465ca5f6dbbded3e01c1282c4466946d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:07 +0000
Subject: [PATCH 09/22] fix: keep the primary key when generating its
 replacement fails

AddVersion() demoted the current primary before it generated the new key, so an
error from key generation left a key set whose primary had no key.
---
 python/src/keyczar/keyczar.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index 269d0c4..a3f4518 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -179,11 +179,6 @@ class GenericKeyczar(Keyczar):
     # Make the new version number the max of the existing versions plus one
     version = keydata.KeyVersion(max_version_number + 1, status, False)
 
-    if status == keyinfo.PRIMARY:
-      if self.primary_version is not None:
-        self.primary_version.status = keyinfo.ACTIVE
-      self.primary_version = version
-
     if size < self.default_size:
       print(("WARNING: %d-bit key size is less than recommended default key"
             "size of %d bits for %s keys."
@@ -195,6 +190,11 @@ class GenericKeyczar(Keyczar):
       if self._keys.get(key.hash_id) is None:
         break
 
+    if status == keyinfo.PRIMARY:
+      if self.primary_version is not None:
+        self.primary_version.status = keyinfo.ACTIVE
+      self.primary_version = version
+
     self._AddKey(version, key)
 
   def Promote(self, version_number):
-- 
2.43.0


From 1230cd40a13fab9028a4fe7c7023ef8136c34aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:45 +0000
Subject: [PATCH 10/22] fix: report an OAEP data block without separator as a
 Keyczar error

---
 python/src/keyczar/keys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 742b1d2..c0fea67 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -749,7 +749,7 @@ class RsaPrivateKey(PrivateKey):
       raise errors.KeyczarError("OAEP Decoding Error - hash_id is invalid")
 
     delimited_message = datablock[util.HLEN:].lstrip('\x00')
-    if delimited_message[0] != '\x01':
+    if delimited_message[:1] != '\x01':
       raise errors.KeyczarError("OAEP Decoding Error - expected a 1 value")
     return delimited_message[1:]  # The message
 
-- 
2.43.0


From 1c59308ef5365bb11e676dce740c0d048df380b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:40 +0000
Subject: [PATCH 11/22] fix: report a key file that cannot be removed as a
 Keyczar error

---
 python/src/keyczar/writers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/writers.py b/python/src/keyczar/writers.py
index db011a1..b162be7 100644
--- a/python/src/keyczar/writers.py
+++ b/python/src/keyczar/writers.py
@@ -130,7 +130,11 @@ class FileWriter(Writer):
     """
     Remove the key for the given version.
     """
-    os.remove(os.path.join(self.location, str(version_number)))
+    fname = os.path.join(self.location, str(version_number))
+    try:
+      os.remove(fname)
+    except OSError:
+      raise errors.KeyczarError("Unable to remove file %s." % fname)
 
   def Close(self):
     """
-- 
2.43.0


From a10238ac0c519632f929b5013e59380d8249ee49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:09 +0000
Subject: [PATCH 12/22] fix: incremental Base64 decoding ignores whitespace
 like the one-shot decoder

Whitespace was counted towards the quantum of four characters, so text with
line breaks decoded to something else or failed, depending on how it was split.
---
 python/src/keyczar/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index 5cfa9c4..e8a96c3 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -684,7 +684,9 @@ class BufferedIncrementalBase64WSDecoder(codecs.BufferedIncrementalDecoder):
     @return: plaintext representation of input.
     @rtype: string
     """
-    result = super(BufferedIncrementalBase64WSDecoder, self).decode(input,
+    # Whitespace does not count towards a quantum of four characters.
+    data = ''.join(input.splitlines()).replace(' ', '')
+    result = super(BufferedIncrementalBase64WSDecoder, self).decode(data,
                                                                   final=final)
     return (result, len(input))
 
-- 
2.43.0


From 64a0e9379cf0707da20336d9a06377d0c9648a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:23 +0000
Subject: [PATCH 13/22] fix: closing the Base64 stream writer closes the
 underlying stream

codecs.StreamWriter has no close method, so close() always ended in an
AttributeError and left the stream open.
---
 python/src/keyczar/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index e8a96c3..e7f764a 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -610,7 +610,7 @@ class IncrementalBase64WSStreamWriter(codecs.StreamWriter, object):
   def close(self):
     """ Flushes and closes the stream """
     self.flush()
-    super(IncrementalBase64WSStreamWriter, self).close()
+    self.stream.close()
 
   def flush(self):
     """
-- 
2.43.0


From ab4cd73eeaa93dd2673c63d6686b0a73146bcf4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:51 +0000
Subject: [PATCH 14/22] fix: keyczart stops after malformed flags or
 non-integer size and version

It printed the usage and then carried out the command all the same, without
the flag, or failed on an unset variable.
---
 python/src/keyczar/keyczart.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/keyczar/keyczart.py b/python/src/keyczar/keyczart.py
index 4071590..87453df 100644
--- a/python/src/keyczar/keyczart.py
+++ b/python/src/keyczar/keyczart.py
@@ -292,6 +292,7 @@ def main(argv):
         except ValueError:
           print("Flags incorrectly formatted")
           Usage()
+          return
     
     try:
       version = int(flags.get(VERSION, -1))
@@ -300,6 +301,7 @@ def main(argv):
     except ValueError:
       print("Size and version flags require an integer")
       Usage()
+      return
     
     loc = flags.get(LOCATION)  # all commands need location
     
-- 
2.43.0


From c05f1744ce7e9b26109f7357f5b62b8c23cef0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:22 +0000
Subject: [PATCH 15/22] fix: open unversioned key sets through the storage back
 ends

UnversionedVerifier.Read and UnversionedSigner.Read always used a
FileReader, so locations served by a plug-in reader could be opened by
every class but these two.
---
 python/src/keyczar/keyczar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/keyczar/keyczar.py b/python/src/keyczar/keyczar.py
index a3f4518..5a4a4c1 100644
--- a/python/src/keyczar/keyczar.py
+++ b/python/src/keyczar/keyczar.py
@@ -464,7 +464,7 @@ class UnversionedVerifier(Keyczar):
       perform verify functions.
     @rtype: L{Verifier}
     """
-    return UnversionedVerifier(readers.FileReader(location))
+    return UnversionedVerifier(readers.CreateReader(location))
 
   def IsAcceptablePurpose(self, purpose):
     """Only valid if purpose includes verifying."""
@@ -656,7 +656,7 @@ class UnversionedSigner(UnversionedVerifier):
       perform sign and verify functions.
     @rtype: L{Signer}
     """
-    return UnversionedSigner(readers.FileReader(location))
+    return UnversionedSigner(readers.CreateReader(location))
 
   def IsAcceptablePurpose(self, purpose):
     """Only valid if purpose includes signing."""
-- 
2.43.0


From 94e7a3f85e5667bc9e9b718ef227f2520be87913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:40 +0000
Subject: [PATCH 16/22] fix: a stream that ends inside a cipher block is
 reported as a short ciphertext

---
 python/src/keyczar/keys.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index c0fea67..d55877e 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -1199,6 +1199,9 @@ class DecryptingStreamReader(object):
         need_more_data = (is_data_avail and not data_to_decrypt)
 
       if data_to_decrypt:
+        if len(data_to_decrypt) % self.__key.block_size:
+          # the input ended inside a block
+          raise errors.ShortCiphertextError(len(self.__encrypted_buffer))
         self.__hmac_stream.Update(data_to_decrypt)
         self.__encrypted_buffer = self.__encrypted_buffer[len(data_to_decrypt):]
         decrypted_data = self.__cipher.decrypt(data_to_decrypt)
-- 
2.43.0


From 81203ff2e00199e7ad21ec2006ff4ac6a7bc571e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:40 +0000
Subject: [PATCH 17/22] fix: an authentic ciphertext without whole cipher
 blocks is refused with a Keyczar error

---
 python/src/keyczar/keys.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index d55877e..8c9dd01 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -464,6 +464,9 @@ class AesKey(SymmetricKey):
     sig_bytes = data_bytes[-util.HLEN:]  # last 20 bytes are sig
     if not self.hmac_key.Verify(input_bytes[:-util.HLEN], sig_bytes):
       raise errors.InvalidSignatureError()
+    if not ciph_bytes or len(ciph_bytes) % self.block_size:
+      # padded data is always one or more whole blocks
+      raise errors.ShortCiphertextError(len(data_bytes))
 
     plain = AES.new(self.key_bytes, AES.MODE_CBC, iv_bytes).decrypt(ciph_bytes)
     return self._UnPad(plain)
-- 
2.43.0


From 02dd583dc1d972ebc359dc16caf48ffbc96a7095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:49 +0000
Subject: [PATCH 18/22] fix: refuse negative lengths when unpacking byte arrays

A packed session key (which anyone can encrypt for an RSA key set) with an
array length of -4 made UnpackMultipleByteArrays loop for ever.
---
 python/src/keyczar/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index e7f764a..c326dc6 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -443,7 +443,10 @@ def UnpackMultipleByteArrays(data):
   position = 4
   result = []
   while position < len(data):
-    array, position = UnpackByteArray(data, position)
+    array, end = UnpackByteArray(data, position)
+    if end < position + 4:  # a negative length
+      raise errors.KeyczarError("Invalid array length at offset %d." % position)
+    position = end
     result.append(array)
   assert position == len(data)
   return result
-- 
2.43.0


From ecaba0c5ec1ea629658d3b4d58c4579816c3d19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:09 +0000
Subject: [PATCH 19/22] fix: refuse RSA signatures of the wrong length or above
 the modulus

RsaPublicKey.Verify read the signature as a number, so that a signature with
leading zero bytes, or with the modulus added, verified as well.
---
 python/src/keyczar/keys.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/keyczar/keys.py b/python/src/keyczar/keys.py
index 8c9dd01..f78d843 100644
--- a/python/src/keyczar/keys.py
+++ b/python/src/keyczar/keys.py
@@ -1017,6 +1017,9 @@ class RsaPublicKey(PublicKey):
     @return: True if signature is valid for the message hash_id. False otherwise.
     @rtype: boolean
     """
+    # PKCS#1: as long as the modulus, and a number below it
+    if len(sig) * 8 != self.size or util.BytesToLong(sig) >= self.key.n:
+      return False
     try:
       return self.key.verify(util.MakeEmsaMessage(msg, self.size), (util.BytesToLong(sig),))
     except ValueError:
-- 
2.43.0


From 2e46ae6a1bf025f56290f23ef6e70b02b1246985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:09 +0000
Subject: [PATCH 20/22] fix: refuse DSA signatures in any encoding but the one
 that is produced

ParseDsaSig ignored whatever followed the two numbers, so that a signature
with bytes appended to it verified as well.
---
 python/src/keyczar/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index c326dc6..c1e6f0d 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -243,6 +243,8 @@ def ParseDsaSig(sig):
     s = int(seq.getComponentByPosition(1))
   except (PyAsn1Error, AttributeError, TypeError, ValueError):
     raise errors.KeyczarError("Illegal DSA signature.")
+  if MakeDsaSig(r, s) != sig:  # other encodings of r and s, or trailing bytes
+    raise errors.KeyczarError("Illegal DSA signature.")
   return (r, s)
 
 def MakeEmsaMessage(msg, modulus_size):
-- 
2.43.0


From 5760cd401528a0b4f3641cfcf041c3bdabfa74eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:43 +0000
Subject: [PATCH 21/22] fix: incremental Base64 stream reader hands on 'no data
 yet' and returns no more than asked

read() looped for ever when the underlying (non-blocking) stream had no data,
although it is documented to return None then; its last piece could be longer
than the characters asked for; and asking for nothing flushed an unfinished
quantum in the middle of the stream.
---
 python/src/keyczar/util.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/python/src/keyczar/util.py b/python/src/keyczar/util.py
index c1e6f0d..23b5631 100644
--- a/python/src/keyczar/util.py
+++ b/python/src/keyczar/util.py
@@ -782,6 +782,7 @@ class IncrementalBase64WSStreamReader(codecs.StreamReader, object):
 
     # read until we get the required number of characters (if available)
     newdata = ''
+    at_end = False
     while True:
       # can the request can be satisfied from the character buffer?
       if chars < 0:
@@ -820,9 +821,14 @@ class IncrementalBase64WSStreamReader(codecs.StreamReader, object):
         self.bytebuffer = data[decodedbytes:]
         # put new characters in the character buffer
         self.charbuffer += newchars
-        # there was no data available
-        if not newdata:
-          break
+      # there was no data available
+      if not newdata:
+        at_end = newdata is not None and size != 0
+        break
+
+    # nothing follows, so what the decoder has kept is all that is left
+    if at_end and not self.charbuffer:
+      self.charbuffer = self.decoder.flush()
 
     if chars < 0:
       # Return everything we've got
@@ -837,10 +843,6 @@ class IncrementalBase64WSStreamReader(codecs.StreamReader, object):
     if not result and newdata is None:
       result = None
 
-    if not result and newdata == '':
-      if chars != 0:
-        result = self.decoder.flush()
-
     return result
 
   def decode(self, input, errors='strict'):
-- 
2.43.0


From 0794636f9f4b465cb550a0154cb75039cedce7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:05 +0000
Subject: [PATCH 22/22] fix: keyczart closes the reader of the crypter's key
 set

---
 python/src/keyczar/keyczart.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/src/keyczar/keyczart.py b/python/src/keyczar/keyczart.py
index 87453df..9b5c0cd 100644
--- a/python/src/keyczar/keyczart.py
+++ b/python/src/keyczar/keyczart.py
@@ -162,7 +162,11 @@ def Revoke(loc, num):
 
 def _CreateCrypter(location):
   """Helper to create a Crypter for the location."""
-  return keyczar.Crypter.Read(location)
+  reader = readers.CreateReader(location)
+  try:
+    return keyczar.Crypter(reader)
+  finally:
+    reader.Close()
 
 def GenKeySet(loc):
   print("Generating private key sets...")
-- 
2.43.0

