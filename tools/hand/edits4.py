E=[]
def e(n,f,a,b): E.append((n,f,a,b))
T='keyczart.py'; U='util.py'; W='writers.py'; D='keydata.py'; I='keyinfo.py'
e('create',T,"""  kmd = None
  if purpose == keyinfo.SIGN_AND_VERIFY:
    if asymmetric is None:
      kmd = keydata.KeyMetadata(name, purpose, keyinfo.HMAC_SHA1)
    elif asymmetric.lower() == "rsa":
      kmd = keydata.KeyMetadata(name, purpose, keyinfo.RSA_PRIV)
    else:  # default to DSA
      kmd = keydata.KeyMetadata(name, purpose, keyinfo.DSA_PRIV)
  elif purpose == keyinfo.DECRYPT_AND_ENCRYPT:
    if asymmetric is None:
      kmd = keydata.KeyMetadata(name, purpose, keyinfo.AES)
    else:  # default to RSA
      kmd = keydata.KeyMetadata(name, purpose, keyinfo.RSA_PRIV)
  else:
    raise errors.KeyczarError("Missing or unsupported purpose")
""","""  kmd = keydata.KeyMetadata(name, purpose, _TypeFor(purpose, asymmetric))
""")
e('create2',T,"""def AddKey(loc, status, crypter=None, size=None):
""","""def _TypeFor(purpose, asymmetric):
  if purpose not in (keyinfo.SIGN_AND_VERIFY, keyinfo.DECRYPT_AND_ENCRYPT):
    raise errors.KeyczarError("Missing or unsupported purpose")
  signing = purpose == keyinfo.SIGN_AND_VERIFY
  if asymmetric is None:
    return keyinfo.HMAC_SHA1 if signing else keyinfo.AES
  if signing and asymmetric.lower() != "rsa":
    return keyinfo.DSA_PRIV
  return keyinfo.RSA_PRIV

def AddKey(loc, status, crypter=None, size=None):
""")
e('addkey',T,"""  czar = CreateGenericKeyczar(loc, crypter)
  if size == -1:
    size = None
  czar.AddVersion(status, size)
  UpdateGenericKeyczar(czar, loc, crypter)
""","""  _Change(loc, lambda czar: czar.AddVersion(status, None if size == -1 else size),
          crypter)

def _Change(loc, change, crypter=None):
  czar = CreateGenericKeyczar(loc, crypter)
  change(czar)
  UpdateGenericKeyczar(czar, loc, crypter)

def _ChangeVersion(loc, num, operation):
  czar = CreateGenericKeyczar(loc)
  if num < 0:
    raise errors.KeyczarError("Missing version")
  getattr(czar, operation)(num)
  UpdateGenericKeyczar(czar, loc)
""")
for n in ('Promote','Demote','Revoke'):
    e(n,T,"""  czar = CreateGenericKeyczar(loc)
  if num < 0:
    raise errors.KeyczarError("Missing version")
  czar.%s(num)
  UpdateGenericKeyczar(czar, loc)
"""%n,"""  _ChangeVersion(loc, num, '%s')
"""%n)
e('closing',T,"""    writer = writers.CreateWriter(loc)
    try:
      writer.Remove(num)
    finally:
      writer.Close()
""","""    _WithWriter(loc, lambda writer: writer.Remove(num))

def _WithWriter(loc, action):
  writer = writers.CreateWriter(loc)
  try:
    action(writer)
  finally:
    writer.Close()
""")
e('closing2',T,"""    writer = writers.CreateWriter(loc)
    try:
      writer.WriteMetadata(kmd, overwrite=False)
    finally:
      writer.Close()
""","""    _WithWriter(loc, lambda writer: writer.WriteMetadata(kmd, overwrite=False))
""")
e('closing3',T,"""    writer = writers.CreateWriter(loc)
    try:
      czar.Write(writer, encrypter)
    finally:
      writer.Close()
""","""    def write(writer):
      czar.Write(writer, encrypter)
    _WithWriter(loc, write)
""")
e('genkeyset',T,"""    Clean(dir_path)
    Create(dir_path, "Test", purpose, asymmetric)
    AddKey(dir_path, keyinfo.PRIMARY, crypter)
    UseKey(purpose, dir_path, os.path.join(dir_path, "1.out"), crypter)
    AddKey(dir_path, keyinfo.PRIMARY, crypter)
    UseKey(purpose, dir_path, os.path.join(dir_path, "2.out"), crypter)
""","""    Clean(dir_path)
    Create(dir_path, "Test", purpose, asymmetric)
    for number in (1, 2):
      AddKey(dir_path, keyinfo.PRIMARY, crypter)
      output = os.path.join(dir_path, "%d.out" % number)
      UseKey(purpose, dir_path, output, crypter)
""")
e('clean',T,"""  for filename in os.listdir(directory):
    path = os.path.join(directory, filename)
    if not os.path.isdir(path): 
      os.remove(path)
""","""  paths = [os.path.join(directory, filename) for filename in os.listdir(directory)]
  for path in paths:
    if os.path.isdir(path):
      continue
    os.remove(path)
""")
e('usekey',T,"""    answer = ""
    if crypter:
      reader = readers.EncryptedReader(reader, crypter)
    if purpose == keyinfo.DECRYPT_AND_ENCRYPT:
      answer = keyczar.Crypter(reader).Encrypt(msg)
    elif purpose == keyinfo.SIGN_AND_VERIFY:
      answer = keyczar.Signer(reader).Sign(msg)
    util.WriteFile(answer, dest)
""","""    if crypter:
      reader = readers.EncryptedReader(reader, crypter)
    util.WriteFile(_Answer(reader, purpose, msg), dest)
""")
e('usekey2',T,"""def UseKey(""","""def _Answer(reader, purpose, msg):
  if purpose == keyinfo.DECRYPT_AND_ENCRYPT:
    return keyczar.Crypter(reader).Encrypt(msg)
  if purpose == keyinfo.SIGN_AND_VERIFY:
    return keyczar.Signer(reader).Sign(msg)
  return ""

def UseKey(""")
e('main',T,"""    cmd = GetCommand(argv[0])   
    flags = {}
    for arg in argv:
      if arg.startswith("--"):
        arg = arg[2:]  # trim leading dashes
        try:
          [flag, val] = arg.split("=")
          flags[GetFlag(flag)] = val
        except ValueError:
""","""    cmd = GetCommand(argv[0])
    flags = {}
    for arg in argv:
      if arg[:2] == "--":
        parts = arg[2:].split("=")
        if len(parts) == 2:
          flags[GetFlag(parts[0])] = parts[1]
        else:
""")
e('main2',T,"""      purpose = {'crypt': keyinfo.DECRYPT_AND_ENCRYPT,
                 'sign': keyinfo.SIGN_AND_VERIFY}.get(flags.get(PURPOSE))
""","""      if flags.get(PURPOSE) == 'crypt':
        purpose = keyinfo.DECRYPT_AND_ENCRYPT
      elif flags.get(PURPOSE) == 'sign':
        purpose = keyinfo.SIGN_AND_VERIFY
      else:
        purpose = None
""")
e('main3',T,"""    elif cmd == PROMOTE:
      Promote(loc, version)
    elif cmd == DEMOTE:
      Demote(loc, version)
    elif cmd == REVOKE:
      Revoke(loc, version)
""","""    elif cmd in (PROMOTE, DEMOTE, REVOKE):
      {PROMOTE: Promote, DEMOTE: Demote, REVOKE: Revoke}[cmd](loc, version)
""")
e('cgk',T,"""  if loc is None:
    raise errors.KeyczarError("Need location")
  else:
    generic = None
    reader = readers.CreateReader(loc)
    try:
      if crypter:
        reader = readers.EncryptedReader(reader, crypter)
      generic = keyczar.GenericKeyczar(reader)
    finally:
      reader.Close()
    return generic
""","""  if loc is None:
    raise errors.KeyczarError("Need location")
  reader = readers.CreateReader(loc)
  try:
    source = readers.EncryptedReader(reader, crypter) if crypter else reader
    return keyczar.GenericKeyczar(source)
  finally:
    reader.Close()
""")
e('wmeta',W,"""    fname = os.path.join(self.location, "meta")
    if not overwrite and os.path.exists(fname):
        raise errors.KeyczarError("File:%s already exists" %fname)
    util.WriteFile(str(metadata), fname)
    return
""","""    fname = os.path.join(self.location, "meta")
    if overwrite or not os.path.exists(fname):
      util.WriteFile(str(metadata), fname)
    else:
      raise errors.KeyczarError("File:%s already exists" %fname)
""")
e('wkey',W,"""    key = str(key)
    if encrypter:
      key = encrypter.Encrypt(key)  # encrypt key info before outputting
    util.WriteFile(key, os.path.join(self.location, str(version_number)))
    return
""","""    fname = os.path.join(self.location, str(version_number))
    contents = encrypter.Encrypt(str(key)) if encrypter else str(key)
    util.WriteFile(contents, fname)
""")
e('kmdadd',D,"""    num = version.version_number
    if num not in self.__versions:
      self.__versions[num] = version
      return True
    return False
""","""    if version.version_number in self.__versions:
      return False
    self.__versions[version.version_number] = version
    return True
""")
e('kmdget',D,"""    try:
      return self.__versions[version_number]
    except KeyError:
      raise errors.KeyczarError("No such version number: %d" % version_number)
""","""    version = self.__versions.get(version_number)
    if version is None:
      raise errors.KeyczarError("No such version number: %d" % version_number)
    return version
""")
e('kmdstr',D,"""    return json.dumps({"name": self.name,
                       "purpose": str(self.purpose),
                       "type": str(self.type),
                       "encrypted": self.encrypted,
                       "versions": [json.loads(str(v)) for v in self.versions]})
""","""    versions = []
    for version in self.versions:
      versions.append(json.loads(str(version)))
    return json.dumps(dict(name=self.name, purpose=str(self.purpose),
                           type=str(self.type), encrypted=self.encrypted,
                           versions=versions))
""")
e('kmdread',D,"""    kmd = KeyMetadata(meta['name'], keyinfo.GetPurpose(meta['purpose']),
                      keyinfo.GetType(meta['type']), meta['encrypted'])
    for version in meta['versions']:
      kmd.AddVersion(KeyVersion.Read(version))
    return kmd
""","""    purpose = keyinfo.GetPurpose(meta['purpose'])
    key_type = keyinfo.GetType(meta['type'])
    kmd = KeyMetadata(meta['name'], purpose, key_type, encrypted=meta['encrypted'])
    for version in map(KeyVersion.Read, meta['versions']):
      kmd.AddVersion(version)
    return kmd
""")
for n,t,m in (('GetType','types','Invalid Key Type'),('GetStatus','statuses','Invalid Key Status'),('GetPurpose','purposes','Invalid Key Purpose'),('GetMode','modes','Invalid Cipher Mode')):
    v='value' if n=='GetStatus' else 'name'
    e(n,I,"""  try:
    return %s[%s]
  except KeyError:
    raise errors.KeyczarError("%s")
"""%(t,v,m),"""  return _Lookup(%s, %s, "%s")
"""%(t,v,m))
e('lookup',I,"""class KeyType(_NameId):""","""def _Lookup(table, name, message):
  if name in table:
    return table[name]
  raise errors.KeyczarError(message)

class KeyType(_NameId):""")
e('types',I,"""types = {"AES": AES, "HMAC_SHA1": HMAC_SHA1, "DSA_PRIV": DSA_PRIV,
         "DSA_PUB": DSA_PUB, "RSA_PRIV": RSA_PRIV, "RSA_PUB": RSA_PUB}
""","""types = dict((key_type.name, key_type) for key_type in
             (AES, HMAC_SHA1, DSA_PRIV, DSA_PUB, RSA_PRIV, RSA_PUB))
""")
e('asn1',U,"""  seq = univ.Sequence()
  for i in range(len(vals)):
    seq.setComponentByPosition(i, vals[i])
  return seq
""","""  seq = univ.Sequence()
  for i, val in enumerate(vals):
    seq.setComponentByPosition(i, val)
  return seq
""")
e('pkcs8',U,"""    for i in range(len(RSA_PARAMS)):
      params[RSA_PARAMS[i]] = int(key[i+1])
""","""    for name, number in zip(RSA_PARAMS, key[1:]):
      params[name] = int(number)
""")
e('pkcs8d',U,"""    for i in range(len(DSA_PARAMS)):
      params[DSA_PARAMS[i]] = int(alg_params[i])
    params['x'] = int(key)
""","""    params.update((name, int(alg_params[i])) for i, name in enumerate(DSA_PARAMS))
    params['x'] = int(key)
""")
e('x509rsa',U,"""    [params['n'], params['e']] = [int(x) for x in ParseASN1Sequence(pubkey)]
""","""    n, e = ParseASN1Sequence(pubkey)
    params = {'n': int(n), 'e': int(e)}
""")
e('exportrsa',U,"""  key = univ.Sequence().setComponentByPosition(0, univ.Integer(0))  # version
  for i in range(len(RSA_PARAMS)):
    key.setComponentByPosition(i+1, univ.Integer(params[RSA_PARAMS[i]]))
  octkey = encoder.encode(key)
""","""  numbers = [0] + [params[name] for name in RSA_PARAMS]  # version first
  octkey = encoder.encode(ASN1Sequence(*[univ.Integer(n) for n in numbers]))
""")
e('exportdsax',U,"""  alg_params = ASN1Sequence(univ.Integer(params['p']),
                            univ.Integer(params['q']),
                            univ.Integer(params['g']))
""","""  alg_params = ASN1Sequence(*[univ.Integer(params[name]) for name in DSA_PARAMS])
""")
e('parsedsa',U,"""    seq = decoder.decode(sig)[0]
    if len(seq) != 2:
      raise errors.KeyczarError("Illegal DSA signature.")
    r = int(seq.getComponentByPosition(0))
    s = int(seq.getComponentByPosition(1))
""","""    components = ParseASN1Sequence(decoder.decode(sig)[0])
    if len(components) != 2:
      raise errors.KeyczarError("Illegal DSA signature.")
    r, s = [int(component) for component in components]
""")
e('emsa',U,"""  encoded = "".join([chr(c) for c in magic_sha1_header]) + Hash(msg)
  pad_string = chr(0xFF) * (modulus_size / 8 - len(encoded) - 3)
  return chr(1) + pad_string + chr(0) + encoded
""","""  encoded = "".join(map(chr, magic_sha1_header)) + Hash(msg)
  pad_length = modulus_size / 8 - 3 - len(encoded)
  return '\\x01%s\\x00%s' % ('\\xff' * pad_length, encoded)
""")
e('intto',U,"""  if n == 0 or n == 1:
    return str(n)
  elif n % 2 == 0:
    return IntToBin(n / 2) + "0"
  else:
    return IntToBin(n / 2) + "1"
""","""  if n < 2:
    return str(n)
  return IntToBin(n >> 1) + str(n & 1)
""")
e('padbyte',U,"""  r = len(bits) % 8
  return ((8 - r) % 8) * '0' + bits
""","""  while len(bits) % 8 != 0:
    bits = '0' + bits
  return bits
""")
e('prefixhash',U,"""  md = sha1()
  for i in inputs:
    md.update(IntToBytes(len(i)))
    md.update(i)
  return md.digest()
""","""  md = sha1()
  for part in inputs:
    md.update(IntToBytes(len(part)) + part)
  return md.digest()
""")
e('packm',U,"""  array_count_header = struct.pack(BIG_ENDIAN_INT_SPECIFIER, len(arrays))
  array_contents = ''.join([PackByteArray(a) for a in arrays])
  return array_count_header + array_contents
""","""  result = struct.pack(BIG_ENDIAN_INT_SPECIFIER, len(arrays))
  for array in arrays:
    result += PackByteArray(array)
  return result
""")
e('wfile',U,"""    f = open(loc, "w")
    f.write(data)
    f.close()
""","""    with open(loc, "w") as f:
      f.write(data)
""")
e('rfile',U,"""    return open(loc).read()
""","""    with open(loc) as f:
      return f.read()
""")
e('bencode',U,"""    if not final:
      len_to_write = 3 * (len(input) / 3)
    else:
      len_to_write = len(input)
    return (Base64WSEncode(input[:len_to_write]), len_to_write)
""","""    usable = len(input)
    if not final:
      usable -= usable % 3
    return Base64WSEncode(input[:usable]), usable
""")
e('bdecode',U,"""    if not final:
      len_to_read = 4 * (len(input) / 4)
    else:
      len_to_read = len(input)
    return (Base64WSDecode(input[:len_to_read]), len_to_read)
""","""    usable = len(input) if final else len(input) - len(input) % 4
    return Base64WSDecode(input[:usable]), usable
""")
e('bflush',U,"""    result = ('', 0)
    if self.buffer:
      result = self._buffer_decode(self.buffer, self.errors, True)
      self.buffer = ''
    return result[0]
""","""    if not self.buffer:
      return ''
    decoded, _ = self._buffer_decode(self.buffer, self.errors, final=True)
    self.buffer = ''
    return decoded
""")
e('memo',U,"""    if pickled_args not in memory:
      memory[pickled_args] = func(*args,**kwargs)
    return memory[pickled_args]
""","""    try:
      return memory[pickled_args]
    except KeyError:
      result = memory[pickled_args] = func(*args, **kwargs)
      return result
""")
e('imp',U,"""  if os.path.exists(pluginpath):
    pluginfiles = [fname[:-3] for fname in os.listdir(pluginpath) if
                   fname.endswith(".py")]
    if not pluginpath in sys.path:
      sys.path.append(pluginpath)
    imported_modules = [__import__('%s' %(fname)) for fname in pluginfiles]
""","""  if not os.path.exists(pluginpath):
    return
  if pluginpath not in sys.path:
    sys.path.append(pluginpath)
  for fname in os.listdir(pluginpath):
    name, extension = os.path.splitext(fname)
    if extension == ".py":
      __import__(name)
""")
e('impb',U,"""  xtra_paths = os.environ.get(BACKEND_PATHS_ENV_VAR, '')
  if xtra_paths:
    for path in xtra_paths.split(os.pathsep):
      ImportAll(path)
""","""  xtra_paths = os.environ.get(BACKEND_PATHS_ENV_VAR)
  for path in xtra_paths.split(os.pathsep) if xtra_paths else []:
    ImportAll(path)
""")
e('rread',U,"""      if chars < 0:
        if size < 0:
          if self.charbuffer:
            break
        elif len(self.charbuffer) >= size:
          break
      else:
        if len(self.charbuffer) >= chars:
          break
""","""      if chars >= 0:
        enough = len(self.charbuffer) >= chars
      elif size >= 0:
        enough = len(self.charbuffer) >= size
      else:
        enough = bool(self.charbuffer)
      if enough:
        break
""")
e('rread2',U,"""      try:
        if size < 0:
          newdata = self.stream.read()
        else:
          newdata = self.stream.read(size)
      except BlockingIOError:
        newdata = None
""","""      arguments = () if size < 0 else (size,)
      try:
        newdata = self.stream.read(*arguments)
      except BlockingIOError:
        newdata = None
""")
