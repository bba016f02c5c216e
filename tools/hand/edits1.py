K='keys.py'; Z='keyczar.py'; U='util.py'; R='readers.py'; W='writers.py'; D='keydata.py'; T='keyczart.py'
E=[
('aes_split',K,"""    data_bytes = input_bytes[keyczar.HEADER_SIZE:]  # remove header
    if len(data_bytes) < self.block_size + util.HLEN:  # IV + sig
      raise errors.ShortCiphertextError(len(data_bytes))

    iv_bytes = data_bytes[:self.block_size]  # first block of bytes is the IV
    ciph_bytes = data_bytes[self.block_size:-util.HLEN]
    sig_bytes = data_bytes[-util.HLEN:]  # last 20 bytes are sig
    if not self.hmac_key.Verify(input_bytes[:-util.HLEN], sig_bytes):
      raise errors.InvalidSignatureError()
""","""    iv_bytes, ciph_bytes, signed, sig_bytes = self._SplitMessage(input_bytes)
    self._CheckTag(signed, sig_bytes)
    data_bytes = iv_bytes + ciph_bytes + sig_bytes
"""),
('aes_split',K,"""  def Decrypt(self, input_bytes):
    \"\"\"
    Decrypts the given ciphertext.

    @param input_bytes: raw byte string formatted as Header|IV|Ciph|Sig where""","""  def _SplitMessage(self, input_bytes):
    body_start = keyczar.HEADER_SIZE + self.block_size
    body_end = len(input_bytes) - util.HLEN
    payload = len(input_bytes) - keyczar.HEADER_SIZE
    if body_end < body_start:
      raise errors.ShortCiphertextError(max(payload, 0))
    return (input_bytes[keyczar.HEADER_SIZE:body_start], input_bytes[body_start:body_end],
            input_bytes[:body_end], input_bytes[body_end:])

  def _CheckTag(self, signed, tag):
    if self.hmac_key.Verify(signed, tag):
      return
    raise errors.InvalidSignatureError()

  def Decrypt(self, input_bytes):
    \"\"\"
    Decrypts the given ciphertext.

    @param input_bytes: raw byte string formatted as Header|IV|Ciph|Sig where"""),
('genkey',K,"""  if size is None:
    size = key_type.default_size

  if not key_type.IsValidSize(size):
    raise errors.KeyczarError("Unsupported key size %d bits." % size)

  try:
    return {keyinfo.AES: AesKey.Generate,
            keyinfo.HMAC_SHA1: HmacKey.Generate,
            keyinfo.DSA_PRIV: DsaPrivateKey.Generate,
            keyinfo.RSA_PRIV: RsaPrivateKey.Generate}[key_type](size)
  except KeyError:
    if key_type""","""  size = key_type.default_size if size is None else size

  if not key_type.IsValidSize(size):
    raise errors.KeyczarError("Unsupported key size {0} bits.".format(size))

  for candidate, generate in ((keyinfo.AES, AesKey.Generate),
                              (keyinfo.HMAC_SHA1, HmacKey.Generate),
                              (keyinfo.DSA_PRIV, DsaPrivateKey.Generate),
                              (keyinfo.RSA_PRIV, RsaPrivateKey.Generate)):
    if candidate == key_type:
      return generate(size)
  else:
    if key_type"""),
('unvany',Z,"""    for version in self.versions:
      key = self._keys[version]
      # Try to verify with each key
      result = key.Verify(data, sig_bytes)
      if result:
        return True

    # None of the keys verified the signature
    return False""","""    return any(self.GetKey(version).Verify(data, sig_bytes)
               for version in self.versions)"""),
('init',Z,"""    for version in self.metadata.versions:
      if version.status == keyinfo.PRIMARY:
        if self.primary_version is not None:
          raise errors.KeyczarError(
              "Key sets may only have a single primary version")
        self.primary_version = version
      key = keys.ReadKey(self.metadata.type,
                         reader.GetKey(version.version_number))
      self._keys[version] = key
      self._keys[key.hash_id] = key
""","""    primaries = [v for v in self.metadata.versions
                 if v.status == keyinfo.PRIMARY]
    if len(primaries) > 1:
      raise errors.KeyczarError(
          "Key sets may only have a single primary version")
    if primaries:
      self.primary_version, = primaries
    for version in self.metadata.versions:
      self._Register(version, keys.ReadKey(self.metadata.type,
                                           reader.GetKey(version.version_number)))

  def _Register(self, version, key):
    \"\"\"Remember a key under its version and its identifier.\"\"\"
    for index in (version, key.hash_id):
      self._keys[index] = key
"""),
('addver',Z,"""    max_version_number = 0
    for version in self.versions:
      if max_version_number < version.version_number:
        max_version_number = version.version_number
""","""    numbers = [v.version_number for v in self.versions]
    numbers.append(0)
    max_version_number = max(numbers)
"""),
('addver2',Z,"""    while True:
      key = keys.GenKey(self.metadata.type, size)
      if self._keys.get(key.hash_id) is None:
        break
""","""    key = keys.GenKey(self.metadata.type, size)
    while key.hash_id in self._keys:
      key = keys.GenKey(self.metadata.type, size)
"""),
('export',Z,"""    if kmd.type == keyinfo.DSA_PRIV and kmd.purpose == keyinfo.SIGN_AND_VERIFY:
      pubkmd = keydata.KeyMetadata(kmd.name, keyinfo.VERIFY, keyinfo.DSA_PUB)
    elif kmd.type == keyinfo.RSA_PRIV:
      if kmd.purpose == keyinfo.DECRYPT_AND_ENCRYPT:
        pubkmd = keydata.KeyMetadata(kmd.name, keyinfo.ENCRYPT, keyinfo.RSA_PUB)
      elif kmd.purpose == keyinfo.SIGN_AND_VERIFY:
        pubkmd = keydata.KeyMetadata(kmd.name, keyinfo.VERIFY, keyinfo.RSA_PUB)
""","""    table = [(keyinfo.DSA_PRIV, keyinfo.SIGN_AND_VERIFY, keyinfo.VERIFY, keyinfo.DSA_PUB),
             (keyinfo.RSA_PRIV, keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.ENCRYPT, keyinfo.RSA_PUB),
             (keyinfo.RSA_PRIV, keyinfo.SIGN_AND_VERIFY, keyinfo.VERIFY, keyinfo.RSA_PUB)]
    for priv, purpose, pub_purpose, pub in table:
      if (kmd.type, kmd.purpose) == (priv, purpose):
        pubkmd = keydata.KeyMetadata(kmd.name, pub_purpose, pub)
        break
"""),
('b64',U,"""  s = ''.join(s.splitlines())
  s = str(s.replace(" ", ""))  # kill whitespace, make string (not unicode)
  d = len(s) % 4
  if d == 1:
    raise errors.Base64DecodingError()
  elif d == 2:
    s += "=="
  elif d == 3:
    s += "="
""","""  s = "".join([line.replace(" ", "") for line in s.splitlines()])
  missing = -len(s) % 4
  if missing == 3:
    raise errors.Base64DecodingError()
  s = str(s) + missing * "="
"""),
('files',U,"""  try:
    f = open(loc, "w")
    f.write(data)
    f.close()
  except""","""  try:
    with open(loc, "w") as out:
      out.write(data)
  except"""),
('files2',U,"""    return open(loc).read()
""","""    with open(loc, "r") as src:
      contents = src.read()
    return contents
"""),
('mgf',U,"""  output = ""
  for i in range(int(math.ceil(mlen / float(HLEN)))):
    output += Hash(seed, IntToBytes(i))
  return output[:mlen]""","""  blocks, counter = [], 0
  while counter * HLEN < mlen:
    blocks.append(Hash(seed, IntToBytes(counter)))
    counter += 1
  return "".join(blocks)[:mlen]"""),
('trim',U,"""  trimmed = byte_string.lstrip(chr(0))
  if trimmed == "":  # was a string of all zero byte_string
    return chr(0)
  else:
    return trimmed""","""  return byte_string.lstrip(chr(0)) or chr(0)"""),
('xor',U,"""  m = max(len(a), len(b))
  if m > len(a):
    a = PadBytes(a, m - len(a))
  elif m > len(b):
    b = PadBytes(b, m - len(b))
  x = [ord(c) for c in a]
  y = [ord(c) for c in b]
  z = [chr(x[i] ^ y[i]) for i in range(m)]
  return "".join(z)""","""  m = max(len(a), len(b))
  a, b = [PadBytes(s, m - len(s)) for s in (a, b)]
  return "".join([chr(ord(c) ^ ord(d)) for (c, d) in zip(a, b)])"""),
('inttobytes',U,"""  byte_array = [m % 256 for m in [n >> 24, n >> 16, n >> 8, n]]
  return "".join([chr(b) for b in byte_array])  # byte array to byte string""","""  return "".join([chr((n >> shift) & 0xff) for shift in (24, 16, 8, 0)])"""),
('bigint',U,"""  chars = []
  while (n > 0):
    chars.append(chr(n % 256))
    n = n >> 8
  chars.reverse()
  return "".join(chars)""","""  result = ""
  while n > 0:
    n, low = divmod(n, 256)
    result = chr(low) + result
  return result"""),
('unpack',U,"""  position = 4
  result = []
  while position < len(data):
    array, end = UnpackByteArray(data, position)
    if end < position + 4:  # a negative length
      raise errors.KeyczarError("Invalid array length at offset %d." % position)
    position = end
    result.append(array)
  assert position == len(data)
  return result""","""  return list(_IterByteArrays(data, 4))

def _IterByteArrays(data, position):
  while position < len(data):
    array, end = UnpackByteArray(data, position)
    if end < position + 4:  # a negative length
      raise errors.KeyczarError("Invalid array length at offset %d." % position)
    yield array
    position = end
  assert position == len(data)"""),
('kmd',D,"""    num = version.version_number
    if num not in self.__versions:
      self.__versions[num] = version
      return True
    return False""","""    if version.version_number in self.__versions:
      return False
    self.__versions[version.version_number] = version
    return True"""),
('getver',D,"""    try:
      return self.__versions[version_number]
    except KeyError:
      raise errors.KeyczarError("No such version number: %d" % version_number)""","""    found = self.__versions.get(version_number)
    if found is None:
      raise errors.KeyczarError("No such version number: %d" % version_number)
    return found"""),
('createreader',R,"""    result = None
    if os.path.exists(location):
      result = FileReader(location)
    return result""","""    if not os.path.exists(location):
      return None
    return cls(location)"""),
('dispatch',T,"""    elif cmd == PUBKEY:
      PubKey(loc, flags.get(DESTINATION))
    elif cmd == PROMOTE:
      Promote(loc, version)
    elif cmd == DEMOTE:
      Demote(loc, version)
    elif cmd == REVOKE:
      Revoke(loc, version)
    elif""","""    elif cmd == PUBKEY:
      PubKey(loc, flags.get(DESTINATION))
    elif cmd in (PROMOTE, DEMOTE, REVOKE):
      {PROMOTE: Promote, DEMOTE: Demote, REVOKE: Revoke}[cmd](loc, version)
    elif"""),
('promote',T,"""  czar = CreateGenericKeyczar(loc)
  if num < 0:
    raise errors.KeyczarError("Missing version")
  czar.Promote(num)
  UpdateGenericKeyczar(czar, loc)
""","""  _Move(loc, num, lambda czar: czar.Promote(num))

def _Move(loc, num, change):
  czar = CreateGenericKeyczar(loc)
  if num < 0:
    raise errors.KeyczarError("Missing version")
  change(czar)
  UpdateGenericKeyczar(czar, loc)
"""),
('demote',T,"""  czar = CreateGenericKeyczar(loc)
  if num < 0:
    raise errors.KeyczarError("Missing version")
  czar.Demote(num)
  UpdateGenericKeyczar(czar, loc)
""","""  _Move(loc, num, lambda czar: czar.Demote(num))
"""),
('parseflags',T,"""    flags = {}
    for arg in argv:
      if arg.startswith("--"):
        arg = arg[2:]  # trim leading dashes
        try:
          [flag, val] = arg.split("=")
          flags[GetFlag(flag)] = val
        except ValueError:
          print("Flags incorrectly formatted")
          Usage()
          return
""","""    flags = _ParseFlags(argv)
    if flags is None:
      print("Flags incorrectly formatted")
      Usage()
      return
"""),
('parseflags',T,"""def main(argv):
""","""def _ParseFlags(argv):
  parsed = {}
  for arg in argv:
    if not arg.startswith("--"):
      continue
    parts = arg[2:].split("=")
    if len(parts) != 2:
      return None
    parsed[GetFlag(parts[0])] = parts[1]
  return parsed

def main(argv):
"""),
('remove',W,"""    fname = os.path.join(self.location, str(version_number))
    try:
      os.remove(fname)
""","""    fname = self._KeyFile(version_number)
    try:
      os.unlink(fname)
"""),
('remove',W,"""    util.WriteFile(key, os.path.join(self.location, str(version_number)))""","""    util.WriteFile(key, self._KeyFile(version_number))"""),
('remove',W,"""    result = None
    if os.path.exists(location):
      result = FileWriter(location)
    return result""","""    result = None
    if os.path.exists(location):
      result = FileWriter(location)
    return result

  def _KeyFile(self, number):
    return os.path.join(self.location, "%d" % number)"""),
]
