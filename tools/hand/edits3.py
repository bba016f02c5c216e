E=[]
def e(n,f,a,b): E.append((n,f,a,b))
K='keyczar.py'
e('versions',K,"""  versions = property(lambda self: [k for k in list(self._keys.keys())
                                    if isinstance(k, keydata.KeyVersion)],
                      doc=""","""  def __GetVersions(self):
    result = []
    for key_id in self._keys:
      if isinstance(key_id, keydata.KeyVersion):
        result.append(key_id)
    return result

  versions = property(__GetVersions,
                      doc=""")
e('header',K,"""    version = ord(header[0])
    if version != VERSION:
      raise errors.BadVersionError(version)
    return self.GetKey(util.Base64WSEncode(header[1:]))
""","""    version, key_hash = ord(header[0]), header[1:]
    if version == VERSION:
      return self.GetKey(util.Base64WSEncode(key_hash))
    raise errors.BadVersionError(version)
""")
e('getkey',K,"""    try:
      return self._keys[key_id]
    except KeyError:
      raise errors.KeyNotFoundError(key_id)
""","""    if key_id not in self._keys:
      raise errors.KeyNotFoundError(key_id)
    return self._keys[key_id]
""")
e('primary',K,"""    if self.primary_version is None:
      raise errors.NoPrimaryKeyError()
    return self.GetKey(self.primary_version)
""","""    primary_version = self.primary_version
    if primary_version is not None:
      return self.GetKey(primary_version)
    raise errors.NoPrimaryKeyError()
""")
e('addver',K,"""    max_version_number = 0
    for version in self.versions:
      if max_version_number < version.version_number:
        max_version_number = version.version_number
    version = keydata.KeyVersion(max_version_number + 1, status, False)
""","""    numbers = sorted([v.version_number for v in self.versions] + [0])
    version = keydata.KeyVersion(numbers[-1] + 1, status, False)
""")
e('addver3',K,"""    while True:
      key = keys.GenKey(self.metadata.type, size)
      if self._keys.get(key.hash_id) is None:
        break
""","""    key = keys.GenKey(self.metadata.type, size)
    while key.hash_id in self._keys:
      key = keys.GenKey(self.metadata.type, size)
""")
e('revoke',K,"""    if version.status == keyinfo.INACTIVE:
      self.metadata.RemoveVersion(version_number)
      key = self._keys.pop(version)
      self._keys.pop(key.hash_id, None)
    else:
      raise errors.KeyczarError("Can't revoke key if not inactive.")
""","""    if version.status != keyinfo.INACTIVE:
      raise errors.KeyczarError("Can't revoke key if not inactive.")
    self.metadata.RemoveVersion(version_number)
    key_hash = self._keys[version].hash_id
    del self._keys[version]
    if key_hash in self._keys:
      del self._keys[key_hash]
""")
e('pke',K,"""    kmd = self.metadata
    pubkmd = None
    if kmd.type == keyinfo.DSA_PRIV and kmd.purpose == keyinfo.SIGN_AND_VERIFY:
      pubkmd = keydata.KeyMetadata(kmd.name, keyinfo.VERIFY, keyinfo.DSA_PUB)
    elif kmd.type == keyinfo.RSA_PRIV:
      if kmd.purpose == keyinfo.DECRYPT_AND_ENCRYPT:
        pubkmd = keydata.KeyMetadata(kmd.name, keyinfo.ENCRYPT, keyinfo.RSA_PUB)
      elif kmd.purpose == keyinfo.SIGN_AND_VERIFY:
        pubkmd = keydata.KeyMetadata(kmd.name, keyinfo.VERIFY, keyinfo.RSA_PUB)
    if pubkmd is None:
      raise errors.KeyczarError("Cannot export public key")
""","""    kmd = self.metadata
    for priv_type, priv_purpose, pub_type, pub_purpose in (
        (keyinfo.DSA_PRIV, keyinfo.SIGN_AND_VERIFY, keyinfo.DSA_PUB, keyinfo.VERIFY),
        (keyinfo.RSA_PRIV, keyinfo.SIGN_AND_VERIFY, keyinfo.RSA_PUB, keyinfo.VERIFY),
        (keyinfo.RSA_PRIV, keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.RSA_PUB,
         keyinfo.ENCRYPT)):
      if kmd.type == priv_type and kmd.purpose == priv_purpose:
        break
    else:
      raise errors.KeyczarError("Cannot export public key")
    pubkmd = keydata.KeyMetadata(kmd.name, pub_purpose, pub_type)
""")
e('write',K,"""    for v in self.versions:
      writer.WriteKey(self.GetKey(v), v.version_number, encrypter)
    writer.WriteMetadata(self.metadata)
""","""    for key, number in [(self.GetKey(v), v.version_number)
                        for v in self.versions]:
      writer.WriteKey(key, number, encrypter)
    writer.WriteMetadata(self.metadata)
""")
e('purpose',K,"""    return purpose == keyinfo.ENCRYPT or purpose == keyinfo.DECRYPT_AND_ENCRYPT
""","""    return purpose in (keyinfo.ENCRYPT, keyinfo.DECRYPT_AND_ENCRYPT)
""")
e('purpose2',K,"""    return purpose == keyinfo.VERIFY or purpose == keyinfo.SIGN_AND_VERIFY
""","""    return any(purpose == ok for ok in [keyinfo.VERIFY, keyinfo.SIGN_AND_VERIFY])
""")
e('encrypt',K,"""    encrypting_key = self.primary_key
    if encrypting_key is None:
      raise errors.NoPrimaryKeyError()
    ciphertext = encrypting_key.Encrypt(data)
    return encoder(ciphertext) if encoder else ciphertext
""","""    ciphertext = self.__GetEncryptingKey().Encrypt(data)
    if not encoder:
      return ciphertext
    return encoder(ciphertext)

  def __GetEncryptingKey(self):
    encrypting_key = self.primary_key
    if encrypting_key is None:
      raise errors.NoPrimaryKeyError()
    return encrypting_key
""")
e('encstream',K,"""    encrypting_key = self.primary_key
    if encrypting_key is None:
      raise errors.NoPrimaryKeyError()
    if encoder:
      stream = encoder(output_stream)
    else:
      stream = output_stream
    return keys.EncryptingStreamWriter(encrypting_key, stream)
""","""    encrypting_key = self.__GetEncryptingKey()
    stream = encoder(output_stream) if encoder else output_stream
    return keys.EncryptingStreamWriter(encrypting_key, stream)
""")
e('verify',K,"""    sig_bytes = decoder(sig) if decoder else sig
    if len(sig_bytes) < HEADER_SIZE:
      raise errors.ShortSignatureError(len(sig_bytes))
    return self.__InternalVerify(sig_bytes[:HEADER_SIZE], sig_bytes[HEADER_SIZE:], data)
""","""    if decoder:
      sig = decoder(sig)
    header, sig_bytes = sig[:HEADER_SIZE], sig[HEADER_SIZE:]
    if len(header) != HEADER_SIZE:
      raise errors.ShortSignatureError(len(sig))
    return self.__InternalVerify(header, sig_bytes, data)
""")
e('averify',K,"""    signature = decoded_data[offset:]
    if self.__InternalVerify(decoded_data[:HEADER_SIZE], signature, data, nonce):
      return data
    else:
      return None
""","""    valid = self.__InternalVerify(decoded_data[:HEADER_SIZE],
                                  decoded_data[offset:], data, nonce)
    return data if valid else None
""")
e('uverify',K,"""    for version in self.versions:
      key = self._keys[version]
      result = key.Verify(data, sig_bytes)
      if result:
        return True
    return False
""","""    return any(self._keys[version].Verify(data, sig_bytes)
               for version in self.versions)
""")
e('decrypt',K,"""    data_bytes = decoder(ciphertext) if decoder else ciphertext
    if len(data_bytes) < HEADER_SIZE:
      raise errors.ShortCiphertextError(len(data_bytes))
    key = self._ParseHeader(data_bytes[:HEADER_SIZE])
    return key.Decrypt(data_bytes)
""","""    data_bytes = ciphertext
    if decoder:
      data_bytes = decoder(data_bytes)
    if len(data_bytes) >= HEADER_SIZE:
      return self._ParseHeader(data_bytes[:HEADER_SIZE]).Decrypt(data_bytes)
    raise errors.ShortCiphertextError(len(data_bytes))
""")
e('asign',K,"""    signature = self.primary_key.Header() \\
                + util.PackByteArray(data) \\
                + self.__InternalSign(data, nonce)
    return encoder(signature) if encoder else signature
""","""    parts = (self.primary_key.Header(), util.PackByteArray(data),
             self.__InternalSign(data, nonce))
    signature = ''.join(parts)
    if encoder:
      signature = encoder(signature)
    return signature
""")
e('isign',K,"""    return signing_key.Sign(data + util.PackByteArray(nonce) + VERSION_BYTE)
""","""    to_sign = '%s%s' % (data, util.PackByteArray(nonce))
    return signing_key.Sign(to_sign + VERSION_BYTE)
""")
e('loadpacked',K,"""    assert len(unpacked) == 2
    aes_key_bytes = unpacked[0]
    hmac_key_bytes = unpacked[1]
    hmac_key = keys.HmacKey(util.Base64WSEncode(hmac_key_bytes), len(hmac_key_bytes) * 8)
""","""    assert len(unpacked) == 2
    aes_key_bytes, hmac_key_bytes = unpacked
    hmac_key = keys.HmacKey(util.Base64WSEncode(hmac_key_bytes), 8 * len(hmac_key_bytes))
""")
e('ssd',K,"""    if not ciphertext:
      return None
    return self._session.crypter.Decrypt(ciphertext, None)
""","""    if ciphertext:
      return self._session.crypter.Decrypt(ciphertext, decoder=None)
    return None
""")
e('json',K,"""    aes_key_string = json.loads(str(self.__session_key))
    return json.dumps({ 'key' : aes_key_string, 'nonce' : util.Base64WSEncode(self.__nonce) })
""","""    session = dict(nonce=util.Base64WSEncode(self.__nonce))
    session['key'] = json.loads(str(self.__session_key))
    return json.dumps(session)
""")
R='readers.py'
e('createreader',R,"""    result = None
    if os.path.exists(location):
      result = FileReader(location)
    return result
""","""    return FileReader(location) if os.path.exists(location) else None
""")
e('filereader',R,"""    return util.ReadFile(os.path.join(self._location, "meta"))
""","""    return self._ReadFile("meta")

  def _ReadFile(self, name):
    return util.ReadFile(os.path.join(self._location, name))
""")
e('filereader2',R,"""    return util.ReadFile(os.path.join(self._location, str(version_number)))
""","""    return self._ReadFile("%s" % version_number)
""")
e('createreader2',R,"""  for sc in Reader.__subclasses__():
    reader = sc.CreateReader(location)
    if reader:
      return reader
  raise errors.KeyczarError(
    "Unable to create a reader for %s. Does the location exist?" % location)
""","""  created = (sc.CreateReader(location) for sc in Reader.__subclasses__())
  reader = next((candidate for candidate in created if candidate), None)
  if not reader:
    raise errors.KeyczarError(
      "Unable to create a reader for %s. Does the location exist?" % location)
  return reader
""")
