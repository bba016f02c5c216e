E=[]
def e(n,f,a,b): E.append((n,f,a,b))
T='keyczart.py'; U='util.py'; W='writers.py'; D='keydata.py'; I='keyinfo.py'; K='keys.py'; C='keyczar.py'; R='readers.py'
e('inttobytes',U,"""  byte_array = [m % 256 for m in [n >> 24, n >> 16, n >> 8, n]]
  return "".join([chr(b) for b in byte_array])  # byte array to byte string
""","""  return "".join([chr((n >> shift) & 0xff) for shift in range(24, -8, -8)])
""")
e('bigint',U,"""  chars = []
  while (n > 0):
    chars.append(chr(n % 256))
    n = n >> 8
  chars.reverse()
  return "".join(chars)
""","""  result = ""
  while n:
    n, byte = divmod(n, 256)
    result = chr(byte) + result
  return result
""")
e('bytestolong',U,"""  l = len(byte_string)
  return int(sum([ord(byte_string[i]) * 256**(l - 1 - i) for i in range(l)]))
""","""  result = 0
  for byte in byte_string:
    result = (result << 8) | ord(byte)
  return result
""")
e('xor',U,"""  m = max(len(a), len(b))
  if m > len(a):
    a = PadBytes(a, m - len(a))
  elif m > len(b):
    b = PadBytes(b, m - len(b))
  x = [ord(c) for c in a]
  y = [ord(c) for c in b]
  z = [chr(x[i] ^ y[i]) for i in range(m)]
  return "".join(z)
""","""  m = max(len(a), len(b))
  a = PadBytes(a, m - len(a))
  b = PadBytes(b, m - len(b))
  return "".join([chr(ord(x) ^ ord(y)) for x, y in zip(a, b)])
""")
e('mgf',U,"""  output = ""
  for i in range(int(math.ceil(mlen / float(HLEN)))):
    output += Hash(seed, IntToBytes(i))
  return output[:mlen]
""","""  output = []
  counter = 0
  while counter * HLEN < mlen:
    output.append(Hash(seed, IntToBytes(counter)))
    counter += 1
  return "".join(output)[:mlen]
""")
e('hash',U,"""  md = sha1()
  for i in inputs:
    md.update(i)
  return md.digest()
""","""  return sha1("".join(inputs)).digest()
""")
e('b64dec',U,"""  d = len(s) % 4
  if d == 1:
    raise errors.Base64DecodingError()
  elif d == 2:
    s += "=="
  elif d == 3:
    s += "="
""","""  padding = {0: "", 2: "==", 3: "="}.get(len(s) % 4)
  if padding is None:
    raise errors.Base64DecodingError()
  s += padding
""")
e('b64enc',U,"""  return base64.urlsafe_b64encode(str(s)).replace("=", "")
""","""  return base64.urlsafe_b64encode(str(s)).rstrip("=")
""")
e('trim',U,"""  trimmed = byte_string.lstrip(chr(0))
  if trimmed == "":  # was a string of all zero byte_string
    return chr(0)
  else:
    return trimmed
""","""  return byte_string.lstrip('\\0') or '\\0'
""")
e('unpack',U,"""  position = 4
  result = []
  while position < len(data):
    array, end = UnpackByteArray(data, position)
    if end < position + 4:  # a negative length
      raise errors.KeyczarError("Invalid array length at offset %d." % position)
    position = end
    result.append(array)
  assert position == len(data)
  return result
""","""  arrays, position, size = [], 4, len(data)
  while position < size:
    start = position
    array, position = UnpackByteArray(data, start)
    if position < start + 4:  # a negative length
      raise errors.KeyczarError("Invalid array length at offset %d." % start)
    arrays.append(array)
  assert position == size
  return arrays
""")
e('packb',U,"""  if array is None:
    return ''
  array_length_header = struct.pack(BIG_ENDIAN_INT_SPECIFIER, len(array))
  return array_length_header + array
""","""  return '' if array is None else _PackLength(array) + array

def _PackLength(sequence):
  return struct.pack(BIG_ENDIAN_INT_SPECIFIER, len(sequence))
""")
e('supers',K,"""    SymmetricKey.__init__(self, keyinfo.HMAC_SHA1, key_string)
""","""    super(HmacKey, self).__init__(keyinfo.HMAC_SHA1, key_string)
""")
e('supers2',K,"""    SymmetricKey.__init__(self, keyinfo.AES, key_string)
""","""    super().__init__(keyinfo.AES, key_string)
""")
e('supers3',K,"""    PrivateKey.__init__(self, keyinfo.RSA_PRIV, params, pub)
""","""    super(RsaPrivateKey, self).__init__(keyinfo.RSA_PRIV, params, pub)
""")
e('size',K,"""  def __SetSize(self, new_size):
    if self.type.IsValidSize(new_size):
      self.__size = new_size
""","""  @property
  def size(self):
    return self.__size
  @size.setter
  def size(self, new_size):
    if self.type.IsValidSize(new_size):
      self.__size = new_size
""")
e('size2',K,"""  size = property(lambda self: self.__size, __SetSize,
                  doc=\"\"\"The size of the key in bits.\"\"\")
""","")
e('hmaccmp',K,"""    if len(sig_bytes) != len(mac_bytes):
      return False
    result = 0
    for x, y in zip(mac_bytes, sig_bytes):
      result |= ord(x) ^ ord(y)
    return result == 0
""","""    return util.ConstantTimeEquals(mac_bytes, sig_bytes)
""")
e('hmaccmp2',U,"""def RandBytes(n):
""","""def ConstantTimeEquals(a, b):
  if len(a) != len(b):
    return False
  return functools.reduce(lambda acc, pair: acc | (ord(pair[0]) ^ ord(pair[1])),
                          zip(a, b), 0) == 0

def RandBytes(n):
""")
e('adec',K,"""    data_bytes = input_bytes[keyczar.HEADER_SIZE:]  # remove header
    if len(data_bytes) < self.block_size + util.HLEN:  # IV + sig
      raise errors.ShortCiphertextError(len(data_bytes))
    iv_bytes = data_bytes[:self.block_size]  # first block of bytes is the IV
    ciph_bytes = data_bytes[self.block_size:-util.HLEN]
    sig_bytes = data_bytes[-util.HLEN:]  # last 20 bytes are sig
    if not self.hmac_key.Verify(input_bytes[:-util.HLEN], sig_bytes):
      raise errors.InvalidSignatureError()
    if not ciph_bytes or len(ciph_bytes) % self.block_size:
      raise errors.ShortCiphertextError(len(data_bytes))
""","""    data_len = len(input_bytes) - keyczar.HEADER_SIZE
    if max(data_len, 0) < self.block_size + util.HLEN:  # IV + sig
      raise errors.ShortCiphertextError(max(data_len, 0))
    signed_bytes = input_bytes[:-util.HLEN]
    if not self.hmac_key.Verify(signed_bytes, input_bytes[-util.HLEN:]):
      raise errors.InvalidSignatureError()
    iv_start = keyczar.HEADER_SIZE
    iv_end = iv_start + self.block_size
    iv_bytes, ciph_bytes = signed_bytes[iv_start:iv_end], signed_bytes[iv_end:]
    if len(ciph_bytes) == 0 or len(ciph_bytes) % self.block_size != 0:
      raise errors.ShortCiphertextError(data_len)
""")
e('pad',K,"""    pad = self.block_size - len(data) % self.block_size
    return data + pad * chr(pad)
""","""    used = len(data) % self.block_size
    missing = self.block_size - used
    return ''.join([data] + [chr(missing)] * missing)
""")
e('closing',T,"""import sys
""","""import contextlib
import sys
""")
e('closing1',T,"""  reader = readers.CreateReader(location)
  try:
    return keyczar.Crypter(reader)
  finally:
    reader.Close()
""","""  with _Closing(readers.CreateReader(location)) as reader:
    return keyczar.Crypter(reader)

@contextlib.contextmanager
def _Closing(resource):
  try:
    yield resource
  finally:
    resource.Close()
""")
e('closing2',T,"""    writer = writers.CreateWriter(loc)
    try:
      czar.Write(writer, encrypter)
    finally:
      writer.Close()
""","""    with _Closing(writers.CreateWriter(loc)) as writer:
      czar.Write(writer, encrypter)
""")
e('flagsenum',T,"""flags = {"location": LOCATION, "name": NAME, "size": SIZE, "status": STATUS,
         "purpose": PURPOSE, "destination": DESTINATION, "version": VERSION,
         "asymmetric": ASYMMETRIC, "crypter": CRYPTER}
""","""flags = {}
for _flag in [LOCATION, NAME, SIZE, STATUS, PURPOSE, DESTINATION, VERSION,
              ASYMMETRIC, CRYPTER]:
  flags[str(_flag)] = _flag
""")
e('init',C,"""    for version in self.metadata.versions:
      if version.status == keyinfo.PRIMARY:
        if self.primary_version is not None:
          raise errors.KeyczarError(
              "Key sets may only have a single primary version")
        self.primary_version = version
      key = keys.ReadKey(self.metadata.type,
                         reader.GetKey(version.version_number))
      self._keys[version] = key
      self._keys[key.hash_id] = key
""","""    for version in self.metadata.versions:
      self.__LoadVersion(version, reader)
  def __LoadVersion(self, version, reader):
    if version.status == keyinfo.PRIMARY:
      if self.primary_version is not None:
        raise errors.KeyczarError(
            "Key sets may only have a single primary version")
      self.primary_version = version
    key_string = reader.GetKey(version.version_number)
    key = keys.ReadKey(self.metadata.type, key_string)
    self._keys.update({version: key, key.hash_id: key})
""")
e('promote',C,"""    if version.status == keyinfo.PRIMARY:
      raise errors.KeyczarError("Can't promote a primary key.")
    elif version.status == keyinfo.ACTIVE:
      version.status = keyinfo.PRIMARY
      if self.primary_version is not None:
        self.primary_version.status = keyinfo.ACTIVE  # only one primary key
      self.primary_version = version
    elif version.status == keyinfo.INACTIVE:
      version.status = keyinfo.ACTIVE
""","""    old_status = version.status
    if old_status == keyinfo.PRIMARY:
      raise errors.KeyczarError("Can't promote a primary key.")
    if old_status == keyinfo.INACTIVE:
      version.status = keyinfo.ACTIVE
      return
    if old_status != keyinfo.ACTIVE:
      return
    previous, self.primary_version = self.primary_version, version
    version.status = keyinfo.PRIMARY
    if previous is not None:
      previous.status = keyinfo.ACTIVE  # only one primary key
""")
e('session',C,"""  @property
  @util.Memoize
  def crypter(self):
    return Crypter(readers.StaticKeyReader(self.__session_key, keyinfo.DECRYPT_AND_ENCRYPT))
""","""  @property
  def crypter(self):
    reader = readers.StaticKeyReader(self.__session_key,
                                     keyinfo.DECRYPT_AND_ENCRYPT)
    return Crypter(reader)
""")
e('sessioninit',C,"""class SessionEncrypter(object):""","""class _SessionMaterial(object):
  @property
  def session_material(self):
    return self._encrypted_session_material

class SessionEncrypter(_SessionMaterial):""")
