E=[]
def e(n,f,a,b): E.append((n,f,a,b))
T='keyczart.py'; U='util.py'; W='writers.py'; D='keydata.py'; I='keyinfo.py'; K='keys.py'; C='keyczar.py'; R='readers.py'
e('sread',K,"""      data_to_decrypt = ''
      need_more_data = True
      while need_more_data:
        read_bytes, is_data_avail = self.__ReadBytes(self.__key.block_size,
                                                     block=False)
        if read_bytes:
          self.__encrypted_buffer += read_bytes
        reserved_data_len = util.HLEN
        if is_data_avail:
          reserved_data_len += self.__key.block_size
        available_data = self.__encrypted_buffer[:-reserved_data_len]
        if is_data_avail:
          no_decrypt_len = len(available_data) % self.__key.block_size
        else:
          no_decrypt_len = 0
        if no_decrypt_len:
          data_to_decrypt = available_data[:-no_decrypt_len]
        else:
          data_to_decrypt = available_data
        need_more_data = (is_data_avail and not data_to_decrypt)
      if data_to_decrypt:
        if len(data_to_decrypt) % self.__key.block_size:
          raise errors.ShortCiphertextError(len(self.__encrypted_buffer))
        self.__hmac_stream.Update(data_to_decrypt)
        self.__encrypted_buffer = self.__encrypted_buffer[len(data_to_decrypt):]
        decrypted_data = self.__cipher.decrypt(data_to_decrypt)
        if not is_data_avail:
          if len(self.__encrypted_buffer) != util.HLEN:
            raise errors.ShortCiphertextError(len(self.__encrypted_buffer))
          current_sig_bytes = self.__hmac_stream.Sign()
          msg_sig_bytes = self.__encrypted_buffer
          self.__encrypted_buffer = ''
          if not self.__key.hmac_key.VerifySignedData(current_sig_bytes,
                                                      msg_sig_bytes):
            raise errors.InvalidSignatureError()
          self.__verified = True
          decrypted_data = self.__key._UnPad(decrypted_data)
        self.__decrypted_buffer += decrypted_data
    if not is_data_avail and not self.__verified:
      raise errors.ShortCiphertextError(len(self.__encrypted_buffer))
    if chars < 0:
      result = self.__decrypted_buffer
      self.__decrypted_buffer = ''
    else:
      result = self.__decrypted_buffer[:chars]
      self.__decrypted_buffer = self.__decrypted_buffer[chars:]
    if not result and is_data_avail:
      result = None
    return result
""","""      data_to_decrypt, is_data_avail = self.__NextData()
      if data_to_decrypt:
        self.__decrypted_buffer += self.__DecryptData(data_to_decrypt,
                                                      is_data_avail)
    if not (is_data_avail or self.__verified):
      raise errors.ShortCiphertextError(len(self.__encrypted_buffer))
    result = self.__Take(chars)
    return None if is_data_avail and not result else result

  def __Take(self, chars):
    buffered = self.__decrypted_buffer
    if chars < 0:
      self.__decrypted_buffer = ''
      return buffered
    self.__decrypted_buffer = buffered[chars:]
    return buffered[:chars]

  def __NextData(self):
    block_size = self.__key.block_size
    while True:
      read_bytes, more = self.__ReadBytes(block_size, block=False)
      self.__encrypted_buffer += read_bytes
      if not more:
        return self.__encrypted_buffer[:-util.HLEN], False
      available = self.__encrypted_buffer[:-(util.HLEN + block_size)]
      whole = available[:block_size * (len(available) / block_size)]
      if whole:
        return whole, True

  def __DecryptData(self, data, more):
    if len(data) % self.__key.block_size != 0:
      raise errors.ShortCiphertextError(len(self.__encrypted_buffer))
    self.__hmac_stream.Update(data)
    self.__encrypted_buffer = self.__encrypted_buffer[len(data):]
    decrypted = self.__cipher.decrypt(data)
    if more:
      return decrypted
    self.__CheckSignature()
    return self.__key._UnPad(decrypted)

  def __CheckSignature(self):
    msg_sig_bytes = self.__encrypted_buffer
    if len(msg_sig_bytes) != util.HLEN:
      raise errors.ShortCiphertextError(len(msg_sig_bytes))
    self.__encrypted_buffer = ''
    expected = self.__hmac_stream.Sign()
    if not self.__key.hmac_key.VerifySignedData(expected, msg_sig_bytes):
      raise errors.InvalidSignatureError()
    self.__verified = True
""")
e('screate',K,"""    is_data_avail = True
    if not self.__cipher:
      reqd_block_size = self.__key.block_size
      new_bytes_reqd = reqd_block_size - len(self.__encrypted_buffer)
      read_bytes, is_data_avail = self.__ReadBytes(new_bytes_reqd)
      if read_bytes:
        self.__encrypted_buffer += read_bytes
      if len(self.__encrypted_buffer) >= reqd_block_size:
        iv_bytes = self.__encrypted_buffer[:reqd_block_size]
        self.__encrypted_buffer = self.__encrypted_buffer[
            reqd_block_size:]
        self.__hmac_stream.Update(iv_bytes)
        self.__cipher = AES.new(self.__key.key_bytes, AES.MODE_CBC, iv_bytes)
    return is_data_avail
""","""    if self.__cipher:
      return True
    size = self.__key.block_size
    read_bytes, is_data_avail = self.__ReadBytes(
        size - len(self.__encrypted_buffer))
    buffered = self.__encrypted_buffer + read_bytes
    if len(buffered) >= size:
      iv_bytes, buffered = buffered[:size], buffered[size:]
      self.__hmac_stream.Update(iv_bytes)
      self.__cipher = AES.new(self.__key.key_bytes, AES.MODE_CBC, iv_bytes)
    self.__encrypted_buffer = buffered
    return is_data_avail
""")
e('swinit',K,"""    iv_bytes = util.RandBytes(key.block_size)
    self.__cipher = AES.new(key.key_bytes, AES.MODE_CBC, iv_bytes)
    hdr = key.Header()
    self.__hmac_stream.Update(hdr + iv_bytes)
    self.__output_stream.write(hdr + iv_bytes)
""","""    iv_bytes = util.RandBytes(key.block_size)
    self.__cipher = AES.new(key.key_bytes, AES.MODE_CBC, iv_bytes)
    self.__Emit(key.Header() + iv_bytes)

  def __Emit(self, message_bytes):
    self.__output_stream.write(message_bytes)
    self.__hmac_stream.Update(message_bytes)
""")
e('swe',K,"""    if pad:
      data = self.__key._Pad(data)
    encrypted_bytes = self.__cipher.encrypt(data)
    self.__output_stream.write(encrypted_bytes)
    self.__hmac_stream.Update(encrypted_bytes)
""","""    self.__Emit(self.__cipher.encrypt(self.__key._Pad(data) if pad else data))
""")
e('b64read',U,"""    if at_end and not self.charbuffer:
      self.charbuffer = self.decoder.flush()
    if chars < 0:
      result = self.charbuffer
      self.charbuffer = ""
    else:
      result = self.charbuffer[:chars]
      self.charbuffer = self.charbuffer[chars:]
    if not result and newdata is None:
      result = None
    return result
""","""    if not self.charbuffer and at_end:
      self.charbuffer = self.decoder.flush()
    end = len(self.charbuffer) if chars < 0 else chars
    result, self.charbuffer = self.charbuffer[:end], self.charbuffer[end:]
    if newdata is None and not result:
      return None
    return result
""")
e('b64flush',U,"""    result = self.encoder.flush()
    if result:
      self.stream.write(result)
      self.stream.flush()
""","""    pending = self.encoder.flush()
    if not pending:
      return
    self.stream.write(pending)
    self.stream.flush()
""")
e('emsa',U,"""  encoded = "".join([chr(c) for c in magic_sha1_header]) + Hash(msg)
  pad_string = chr(0xFF) * (modulus_size / 8 - len(encoded) - 3)
  return chr(1) + pad_string + chr(0) + encoded
""","""  digest_info = "".join(chr(c) for c in magic_sha1_header) + Hash(msg)
  fill = "".join([chr(0xFF) for _ in range(modulus_size / 8 - len(digest_info) - 3)])
  return chr(1) + fill + chr(0) + digest_info
""")
e('bintob',U,"""  bits = _PadByte(bits)
  octets = [bits[8 * i:8 * (i + 1)] for i in range(len(bits) / 8)]
  return "".join([chr(int(x, 2)) for x in octets])
""","""  bits = _PadByte(bits)
  result = ""
  for start in range(0, len(bits), 8):
    result += chr(int(bits[start:start + 8], 2))
  return result
""")
e('inttobin',U,"""  if n == 0 or n == 1:
    return str(n)
  elif n % 2 == 0:
    return IntToBin(n / 2) + "0"
  else:
    return IntToBin(n / 2) + "1"
""","""  bits = str(n % 2)
  while n > 1:
    n /= 2
    bits = str(n % 2) + bits
  return bits
""")
e('oaep',K,"""    masked_seed = encoded_message[:util.HLEN]
    masked_datablock = encoded_message[util.HLEN:]
    seed_mask = util.MGF(masked_datablock, util.HLEN)
    seed = util.Xor(masked_seed, seed_mask)
    datablock_mask = util.MGF(seed, len(masked_datablock))  # encoded_message already stripped of 0
    datablock = util.Xor(masked_datablock, datablock_mask)
""","""    masked_seed, masked_datablock = (encoded_message[:util.HLEN],
                                     encoded_message[util.HLEN:])
    seed = self.__Unmask(masked_seed, masked_datablock)
    datablock = self.__Unmask(masked_datablock, seed)
""")
e('oaep2',K,"""  def __Decode(self, encoded_message, label=""):""","""  @staticmethod
  def __Unmask(masked, mask_seed):
    return util.Xor(masked, util.MGF(mask_seed, len(masked)))

  def __Decode(self, encoded_message, label=""):""")
e('readkey',K,"""  try:
    return {keyinfo.AES: AesKey.Read,
            keyinfo.HMAC_SHA1: HmacKey.Read,
            keyinfo.DSA_PRIV: DsaPrivateKey.Read,
            keyinfo.RSA_PRIV: RsaPrivateKey.Read,
            keyinfo.DSA_PUB: DsaPublicKey.Read,
            keyinfo.RSA_PUB: RsaPublicKey.Read}[key_type](key)
  except KeyError:
    raise errors.KeyczarError("Unsupported key key_type: %s" % key_type)
""","""  try:
    read = {keyinfo.AES: AesKey,
            keyinfo.HMAC_SHA1: HmacKey,
            keyinfo.DSA_PRIV: DsaPrivateKey,
            keyinfo.RSA_PRIV: RsaPrivateKey,
            keyinfo.DSA_PUB: DsaPublicKey,
            keyinfo.RSA_PUB: RsaPublicKey}[key_type].Read
    return read(key)
  except KeyError:
    raise errors.KeyczarError("Unsupported key key_type: %s" % key_type)
""")
e('demote',C,"""    if version.status == keyinfo.PRIMARY:
      version.status = keyinfo.ACTIVE
      self.primary_version = None  # no more primary keys in the set
    elif version.status == keyinfo.ACTIVE:
      version.status = keyinfo.INACTIVE
    elif version.status == keyinfo.INACTIVE:
      raise errors.KeyczarError("Can't demote an inactive key, only revoke.")
""","""    if version.status == keyinfo.INACTIVE:
      raise errors.KeyczarError("Can't demote an inactive key, only revoke.")
    was_primary = version.status == keyinfo.PRIMARY
    version.status = {keyinfo.PRIMARY: keyinfo.ACTIVE,
                      keyinfo.ACTIVE: keyinfo.INACTIVE}.get(version.status)
    if was_primary:
      self.primary_version = None  # no more primary keys in the set
""")
e('setstatus',D,"""    if new_status:
      self.__status = new_status
""","""    self.__status = new_status or self.__status
""")
e('kvread',D,"""    return KeyVersion(version['versionNumber'],
                      keyinfo.GetStatus(version['status']),
                      version['exportable'])
""","""    number, status, exportable = [version[name] for name in
                                  ('versionNumber', 'status', 'exportable')]
    return KeyVersion(number, keyinfo.GetStatus(status), exportable)
""")
e('remove',W,"""    fname = os.path.join(self.location, str(version_number))
    try:
      os.remove(fname)
    except OSError:
      raise errors.KeyczarError("Unable to remove file %s." % fname)
""","""    fname = self._Path(version_number)
    try:
      os.unlink(fname)
    except OSError:
      raise errors.KeyczarError("Unable to remove file %s." % fname)

  def _Path(self, name):
    return os.path.join(self.location, str(name))
""")
e('wkey',W,"""    util.WriteFile(key, os.path.join(self.location, str(version_number)))
""","""    util.WriteFile(key, self._Path(version_number))
""")
e('uselist',T,"""  for name in ('dsa', 'rsa-sign'):
    print(".")
    dir_path = os.path.join(loc, name)
    dest = os.path.join(loc, name + '.public')
    PubKey(dir_path, dest)
""","""  for dir_path in [os.path.join(loc, name) for name in ('dsa', 'rsa-sign')]:
    print(".")
    PubKey(dir_path, dir_path + '.public')
""")
e('mainexc',T,"""    try:
      version = int(flags.get(VERSION, -1))
      size = int(flags.get(SIZE, -1))
    except ValueError:
""","""    try:
      version, size = [int(flags.get(flag, -1)) for flag in (VERSION, SIZE)]
    except ValueError:
""")
e('main4',T,"""      status = keyinfo.GetStatus(flags.get(STATUS, 'ACTIVE').upper())
      if CRYPTER in flags:
        crypter = _CreateCrypter(flags[CRYPTER])
      else:
        crypter = None
      AddKey(loc, status, crypter, size)
""","""      status = keyinfo.GetStatus(flags.get(STATUS, 'active').upper())
      crypter = _CreateCrypter(flags[CRYPTER]) if CRYPTER in flags else None
      AddKey(loc, status, size=size, crypter=crypter)
""")
