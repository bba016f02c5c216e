E=[]
def e(n,f,a,b): E.append((n,f,a,b))
K='keys.py'
e('hmacverify',K,"""    if len(sig_bytes) != len(mac_bytes):
      return False
    result = 0
    for x, y in zip(mac_bytes, sig_bytes):
      result |= ord(x) ^ ord(y)
    return result == 0
""","""    if len(mac_bytes) != len(sig_bytes):
      return False
    differences = [ord(mac_byte) ^ ord(sig_bytes[i])
                   for i, mac_byte in enumerate(mac_bytes)]
    result = 0
    for difference in differences:
      result = result | difference
    return not result
""")
e('dsagen',K,"""    pub_params = { 'g': util.PadBytes(util.BigIntToBytes(pubkey.g), 1),
                   'p': util.PadBytes(util.BigIntToBytes(pubkey.p), 1),
                   'q': util.PadBytes(util.BigIntToBytes(pubkey.q), 1),
                   'y': util.PadBytes(util.BigIntToBytes(pubkey.y), 1)
                   }
""","""    pub_params = {}
    for name in ('g', 'p', 'q', 'y'):
      number = getattr(pubkey, name)
      pub_params[name] = util.PadBytes(util.BigIntToBytes(number), 1)
""")
e('dsapubread',K,"""    params = {'y': util.Base64WSDecode(dsa['y']),
              'p': util.Base64WSDecode(dsa['p']),
              'g': util.Base64WSDecode(dsa['g']),
              'q': util.Base64WSDecode(dsa['q'])}
    pubkey = DSA.construct((util.BytesToLong(params['y']),
                            util.BytesToLong(params['g']),
                            util.BytesToLong(params['p']),
                            util.BytesToLong(params['q'])))
""","""    params = dict((name, util.Base64WSDecode(dsa[name])) for name in 'ypgq')
    pubkey = DSA.construct(tuple(util.BytesToLong(params[name])
                                 for name in ('y', 'g', 'p', 'q')))
""")
e('dsaprivread',K,"""    key = DSA.construct((util.BytesToLong(pub._params['y']),
                         util.BytesToLong(pub._params['g']),
                         util.BytesToLong(pub._params['p']),
                         util.BytesToLong(pub._params['q']),
                         util.BytesToLong(params['x'])))
""","""    numbers = [util.BytesToLong(pub.params[name]) for name in ['y', 'g', 'p', 'q']]
    numbers.append(util.BytesToLong(params['x']))
    key = DSA.construct(tuple(numbers))
""")
e('dsapubstr',K,"""    return json.dumps({"p": util.Base64WSEncode(self.params['p']),
                       "q": util.Base64WSEncode(self.params['q']),
                       "g": util.Base64WSEncode(self.params['g']),
                       "y": util.Base64WSEncode(self.params['y']),
                       "size": self.size})
""","""    fields = {name: util.Base64WSEncode(self.params[name])
              for name in ('p', 'q', 'g', 'y')}
    fields['size'] = self.size
    return json.dumps(fields)
""")
e('rsaprivstr',K,"""    return json.dumps({ 
      "publicKey": json.loads(str(self.public_key)),
      "privateExponent": util.Base64WSEncode(self.params['privateExponent']),
      "primeP": util.Base64WSEncode(self.params['primeP']),
      "primeQ": util.Base64WSEncode(self.params['primeQ']),
      "primeExponentP": util.Base64WSEncode(self.params['primeExponentP']),
      "primeExponentQ": util.Base64WSEncode(self.params['primeExponentQ']),
      "crtCoefficient": util.Base64WSEncode(self.params['crtCoefficient']),
      "size": self.size})
""","""    result = {"publicKey": json.loads(str(self.public_key)), "size": self.size}
    result.update((name, util.Base64WSEncode(self.params[name]))
                  for name in self._PRIVATE_PARAMS)
    return json.dumps(result)

  _PRIVATE_PARAMS = ("privateExponent", "primeP", "primeQ", "primeExponentP",
                     "primeExponentQ", "crtCoefficient")
""")
e('rsaprivread',K,"""    params = {'privateExponent': util.Base64WSDecode(rsa['privateExponent']),
              'primeP': util.Base64WSDecode(rsa['primeP']),
              'primeQ': util.Base64WSDecode(rsa['primeQ']),
              'primeExponentP': util.Base64WSDecode(rsa['primeExponentP']),
              'primeExponentQ': util.Base64WSDecode(rsa['primeExponentQ']),
              'crtCoefficient': util.Base64WSDecode(rsa['crtCoefficient'])
              }
""","""    params = dict()
    for name in RsaPrivateKey._PRIVATE_PARAMS:
      params[name] = util.Base64WSDecode(rsa[name])
""")
e('rsagen',K,"""    params = { 'privateExponent': util.PadBytes(util.BigIntToBytes(key.d), 1),
               'primeP': util.PadBytes(util.BigIntToBytes(key.q), 1),
               'primeQ': util.PadBytes(util.BigIntToBytes(key.p), 1),
               'primeExponentP': util.PadBytes(util.BigIntToBytes(key.d % (key.q - 1)), 1),
               'primeExponentQ': util.PadBytes(util.BigIntToBytes(key.d % (key.p - 1)), 1),
               'crtCoefficient': util.PadBytes(util.BigIntToBytes(key.u), 1)}
    pubkey = key.publickey()
    pub_params = { 'modulus': util.PadBytes(util.BigIntToBytes(key.n), 1),
                   'publicExponent': util.PadBytes(util.BigIntToBytes(key.e), 1)}
    pub = RsaPublicKey(pub_params, pubkey, size)
""","""    def encode(number):
      return util.PadBytes(util.BigIntToBytes(number), 1)

    prime_p, prime_q = key.q, key.p
    numbers = dict(privateExponent=key.d, primeP=prime_p, primeQ=prime_q,
                   primeExponentP=key.d % (prime_p - 1),
                   primeExponentQ=key.d % (prime_q - 1),
                   crtCoefficient=key.u)
    params = dict((name, encode(number)) for name, number in numbers.items())
    pub_params = {'modulus': encode(key.n), 'publicExponent': encode(key.e)}
    pub = RsaPublicKey(pub_params, key.publickey(), size)
""")
e('rsadecode',K,"""    delimited_message = datablock[util.HLEN:].lstrip('\\x00')
    if delimited_message[:1] != '\\x01':
      raise errors.KeyczarError("OAEP Decoding Error - expected a 1 value")
    return delimited_message[1:]  # The message
""","""    rest = datablock[util.HLEN:].lstrip('\\x00')
    if not rest.startswith('\\x01'):
      raise errors.KeyczarError("OAEP Decoding Error - expected a 1 value")
    return rest[1:]  # The message
""")
e('rsaencode',K,"""    if len(msg) > k - 2 * util.HLEN - 2:
      raise errors.KeyczarError("Message too long to OAEP encode.")
""","""    max_len = k - 2 * (util.HLEN + 1)
    if max_len < len(msg):
      raise errors.KeyczarError("Message too long to OAEP encode.")
""")
e('rsaencode2',K,"""    datablock = label_hash + ('\\x00' * pad_octets) + '\\x01' + msg
""","""    datablock = ''.join([label_hash, pad_octets * chr(0), chr(1), msg])
""")
e('rsapubverify',K,"""    if len(sig) * 8 != self.size or util.BytesToLong(sig) >= self.key.n:
      return False
    try:
      return self.key.verify(util.MakeEmsaMessage(msg, self.size), (util.BytesToLong(sig),))
    except ValueError:
      return False
""","""    if len(sig) * 8 == self.size:
      number = util.BytesToLong(sig)
      if number < self.key.n:
        try:
          return self.key.verify(util.MakeEmsaMessage(msg, self.size), (number,))
        except ValueError:
          pass
    return False
""")
e('rsasign',K,"""    byte_string = util.BigIntToBytes(self.key.sign(emsa_encoded, None)[0])
    return util.PadBytes(byte_string, self.size/8 - len(byte_string))
""","""    (signature,) = self.key.sign(emsa_encoded, None)
    byte_string = util.BigIntToBytes(signature)
    missing = self.size/8 - len(byte_string)
    return util.PadBytes(byte_string, missing)
""")
e('dsaverify',K,"""    try:
      (r, s) = util.ParseDsaSig(sig)
      return self.key.verify(util.Hash(msg), (r, s))
    except errors.KeyczarError:
      return False
""","""    try:
      numbers = util.ParseDsaSig(sig)
    except errors.KeyczarError:
      return False
    else:
      return self.key.verify(util.Hash(msg), numbers)
""")
e('swrite',K,"""    self.__data += data

    encrypt_buffer_size = self.__key._NoPadBufferSize(len(self.__data))
    if len(self.__data) >= encrypt_buffer_size:
      self.__WriteEncrypted(self.__data[:encrypt_buffer_size])
    else:
      encrypt_buffer_size = 0
    self.__data = self.__data[encrypt_buffer_size:]
""","""    pending = self.__data + data
    whole = len(pending) - len(pending) % self.__key.block_size
    if whole:
      self.__WriteEncrypted(pending[:whole])
    self.__data = pending[whole:]
""")
e('sread',K,"""        reserved_data_len = util.HLEN
""","""        block_size = self.__key.block_size
        reserved_data_len = util.HLEN
""")
e('sread1',K,"""        if is_data_avail:
          no_decrypt_len = len(available_data) % self.__key.block_size
        else:
          no_decrypt_len = 0
        if no_decrypt_len:
          data_to_decrypt = available_data[:-no_decrypt_len]
        else:
          data_to_decrypt = available_data
""","""        decrypt_len = len(available_data)
        if is_data_avail:
          decrypt_len -= decrypt_len % block_size
        data_to_decrypt = available_data[:decrypt_len]
""")
e('sread2',K,"""    if chars < 0:
      result = self.__decrypted_buffer
      self.__decrypted_buffer = ''
    else:
      result = self.__decrypted_buffer[:chars]
      self.__decrypted_buffer = self.__decrypted_buffer[chars:]
""","""    if chars < 0:
      chars = len(self.__decrypted_buffer)
    result, self.__decrypted_buffer = (self.__decrypted_buffer[:chars],
                                       self.__decrypted_buffer[chars:])
""")
e('sreadbytes',K,"""    need_more_data = True
    result = ''
    while need_more_data:
      read_bytes = self.__input_stream.read(size)
      if read_bytes:
        result += read_bytes
      elif read_bytes is not None:
        return (result, False)
      elif not block:
        return (result, True)
      need_more_data = (len(result) < size)
    return (result, True)
""","""    result = ''
    while True:
      read_bytes = self.__input_stream.read(size)
      if read_bytes is None:
        if not block:
          break
      elif not read_bytes:
        return result, False
      else:
        result = result + read_bytes
      if len(result) >= size:
        break
    return result, True
""")
e('genkey',K,"""  try:
    return {keyinfo.AES: AesKey.Generate,
            keyinfo.HMAC_SHA1: HmacKey.Generate,
            keyinfo.DSA_PRIV: DsaPrivateKey.Generate,
            keyinfo.RSA_PRIV: RsaPrivateKey.Generate}[key_type](size)
  except KeyError:
""","""  for supported, key_class in ((keyinfo.AES, AesKey),
                               (keyinfo.HMAC_SHA1, HmacKey),
                               (keyinfo.DSA_PRIV, DsaPrivateKey),
                               (keyinfo.RSA_PRIV, RsaPrivateKey)):
    if key_type == supported:
      return key_class.Generate(size)
  else:
""")
e('eqkey',K,"""    return (self.type == other.type and
            self.size == other.size and
            self.key_string == other.key_string)
""","""    mine = (self.type, self.size, self.key_string)
    return mine == (other.type, other.size, other.key_string)
""")
e('unpad',K,"""    pad = ord(padded[-1])
    return padded[:-pad]
""","""    return padded[:-ord(padded[len(padded) - 1])]
""")
e('aesenc',K,"""    ciph_bytes = cipher.encrypt(data)
    ciph_bytes += cipher.final()
    msg_bytes = self.Header() + iv_bytes + ciph_bytes
    sig_bytes = self.hmac_key.Sign(msg_bytes)  # Sign bytes
    return msg_bytes + sig_bytes
""","""    pieces = [self.Header(), iv_bytes, cipher.encrypt(data), cipher.final()]
    pieces.append(self.hmac_key.Sign(''.join(pieces)))
    return ''.join(pieces)
""")
e('aesread',K,"""    hmac_val = aes['hmacKey']
    return AesKey(aes['aesKeyString'],
                  HmacKey(hmac_val['hmacKeyString'], hmac_val['size']),
                  aes['size'], keyinfo.GetMode(aes['mode']))
""","""    mode = keyinfo.GetMode(aes['mode'])
    hmac_key = HmacKey.Read(json.dumps(aes['hmacKey']))
    return AesKey(aes['aesKeyString'], hmac_key, size=aes['size'], mode=mode)
""")
e('hash',K,"""    fullhash = util.Hash(util.IntToBytes(len(self.key_bytes)), self.key_bytes)
    return util.Base64WSEncode(fullhash[:keyczar.KEY_HASH_SIZE])
""","""    return self._ShortHash(util.IntToBytes(len(self.key_bytes)), self.key_bytes)

  @staticmethod
  def _ShortHash(*inputs):
    return util.Base64WSEncode(util.Hash(*inputs)[:keyczar.KEY_HASH_SIZE])
""")
e('aeshash',K,"""    fullhash = util.Hash(util.IntToBytes(len(self.key_bytes)),
                         self.key_bytes,
                         self.hmac_key.key_bytes)
    return util.Base64WSEncode(fullhash[:keyczar.KEY_HASH_SIZE])
""","""    key_bytes = self.key_bytes
    return self._ShortHash(util.IntToBytes(len(key_bytes)), key_bytes,
                           self.hmac_key.key_bytes)
""")
e('dsahash',K,"""    fullhash = util.PrefixHash(util.TrimBytes(self._params['p']),
                         util.TrimBytes(self._params['q']),
                         util.TrimBytes(self._params['g']),
                         util.TrimBytes(self._params['y']))
""","""    fullhash = util.PrefixHash(*[util.TrimBytes(self._params[name])
                                 for name in 'pqgy'])
""")
