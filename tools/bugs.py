"""Planted bugs: (id, property, needs, what it breaks, [(file, old, new)], demo)"""
BUGS = []


def bug(*a):
    BUGS.append(a)


bug('B01', 'C01', 'a ciphertext whose MAC is wrong and whose decrypted padding byte is out of range',
    'padding is judged before the MAC: a padding verdict is released for unauthenticated input',
    [('keys.py', '''    if not self.hmac_key.Verify(input_bytes[:-util.HLEN], sig_bytes):
''', '''    plain = AES.new(self.key_bytes, AES.MODE_CBC, iv_bytes).decrypt(ciph_bytes)
    if plain and ord(plain[-1]) > self.block_size:
      raise errors.ShortCiphertextError(len(plain))
    if not self.hmac_key.Verify(input_bytes[:-util.HLEN], sig_bytes):
'''), ('keys.py', '''
    plain = AES.new(self.key_bytes, AES.MODE_CBC, iv_bytes).decrypt(ciph_bytes)
    return self._UnPad(plain)''', '''
    return self._UnPad(plain)''')],
    '''
r = readers.MockReader('n', keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES)
r.AddKey(1, keyinfo.PRIMARY)
c = K.Crypter(r)
seen = set()
for i in range(40):
    x = c.Encrypt('some data', None)
    x = x[:-21] + chr(ord(x[-21]) ^ (i + 1)) + x[-20:]
    try:
        c.Decrypt(x, None)
        seen.add('accepted')
    except errors.KeyczarError as e:
        seen.add(type(e).__name__)
sys.exit(0 if seen == {'InvalidSignatureError'} else 1)
''')

bug('B02', 'C02', 'a stream cut inside its last ciphertext block, read in small pieces',
    'the stream reader accepts the data it has released so far when the stream ends without a complete MAC',
    [('keys.py', '''      elif read_bytes is not None:
        return (result, False)''', '''      elif read_bytes is not None:
        self._DecryptingStreamReader__verified = True
        return (result, False)''')],
    '''
import io
r = readers.MockReader('n', keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES)
r.AddKey(1, keyinfo.PRIMARY)
c = K.Crypter(r)
x = c.Encrypt('a' * 40, None)
def drain(data):
    s = io.StringIO(data)
    rd = c.CreateDecryptingStreamReader(s, decoder=None)
    out = ''
    for i in range(100):
        p = rd.read(7)
        if p == '':
            return out
        if p:
            out += p
    return out
assert drain(x) == 'a' * 40
bad = 0
for n in (5, 10, 21, 25, 30):
    try:
        drain(x[:n])
        bad += 1
    except errors.KeyczarError:
        pass
sys.exit(1 if bad else 0)
''')

bug('B03', 'C04', 'two messages encrypted with the same key object',
    'the IV is drawn once per key object and reused for later messages',
    [('keys.py', '''    data = self._Pad(data)
    iv_bytes = util.RandBytes(self.block_size)
''', '''    data = self._Pad(data)
    iv_bytes = self.__dict__.setdefault('_iv', util.RandBytes(self.block_size))
''')],
    '''
r = readers.MockReader('n', keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES)
r.AddKey(1, keyinfo.PRIMARY)
c = K.Crypter(r)
sys.exit(1 if c.Encrypt('m') == c.Encrypt('m') else 0)
''')

bug('B04', 'C09', 'add, demote to inactive, revoke of a lower version, then add again',
    'the next version number is the number of versions plus one, which can be the number of a live version',
    [('keyczar.py', '''    max_version_number = 0
    for version in self.versions:
      if max_version_number < version.version_number:
        max_version_number = version.version_number
''', '''    max_version_number = len(self.versions)
''')],
    '''
r = readers.MockReader('n', keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1)
c = K.GenericKeyczar(r)
for i in range(3):
    c.AddVersion(keyinfo.ACTIVE)
c.Demote(1)
c.Revoke(1)
c.AddVersion(keyinfo.PRIMARY)
n = sorted(v.version_number for v in c.versions)
sys.exit(0 if len(set(n)) == 3 and len(c.metadata.versions) == 3 else 1)
''')

bug('B05', 'C10', 'revoking an active version',
    'a version that was never scheduled for revocation can be revoked',
    [('keyczar.py', '''    version = self.metadata.GetVersion(version_number)
    if version.status == keyinfo.INACTIVE:
      self.metadata''', '''    version = self.metadata.GetVersion(version_number)
    if version.status != keyinfo.PRIMARY:
      self.metadata''')],
    '''
r = readers.MockReader('n', keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1)
c = K.GenericKeyczar(r)
c.AddVersion(keyinfo.ACTIVE)
try:
    c.Revoke(1)
except errors.KeyczarError:
    sys.exit(0)
sys.exit(1)
''')

bug('B06', 'C11', 'a key set with several versions written with an encrypter',
    'only keys that may still protect data are encrypted; inactive ones are stored in the clear',
    [('keyczar.py', '''      writer.WriteKey(self.GetKey(v), v.version_number, encrypter)''',
      '''      crypt = encrypter if v.status != keyinfo.INACTIVE else None
      writer.WriteKey(self.GetKey(v), v.version_number, crypt)''')],
    '''
import tempfile, shutil
d = tempfile.mkdtemp()
try:
    cr = readers.MockReader('c', keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES)
    cr.AddKey(1, keyinfo.PRIMARY)
    crypter = K.Crypter(cr)
    r = readers.MockReader('n', keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1)
    c = K.GenericKeyczar(r)
    c.AddVersion(keyinfo.PRIMARY)
    c.AddVersion(keyinfo.INACTIVE)
    c.Write(writers.CreateWriter(d), crypter)
    bad = [n for n in ('1', '2') if 'hmacKeyString' in open(os.path.join(d, n)).read()]
finally:
    shutil.rmtree(d)
sys.exit(1 if bad else 0)
''')

bug('B07', 'C13', 'exporting a key set that holds an inactive version',
    'the exported metadata lists inactive versions as active',
    [('keyczar.py', '''      pubkmd.AddVersion(v)
''', '''      status = v.status if v is self.primary_version else keyinfo.ACTIVE
      pubkmd.AddVersion(keydata.KeyVersion(v.version_number, status, v.exportable))
''')],
    '''
r = readers.MockReader('n', keyinfo.SIGN_AND_VERIFY, keyinfo.DSA_PRIV)
r.AddKey(1, keyinfo.PRIMARY)
r.AddKey(2, keyinfo.INACTIVE)
c = K.GenericKeyczar(r)
c.PublicKeyExport('/nowhere', r)
sys.exit(0 if str(r.pubkmd.GetVersion(2).status) == 'INACTIVE' and str(r.pubkmd.GetVersion(1).status) == 'PRIMARY' else 1)
''')

bug('B08', 'C07', 'an empty nonce against no nonce',
    'an empty nonce is packed like an absent one, so that an attached signature with empty nonce is also a plain signature',
    [('util.py', '''  if array is None:
    return \'\'
''', '''  if not array:
    return \'\'
''')],
    '''
r = readers.MockReader('n', keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1)
r.AddKey(1, keyinfo.PRIMARY)
s = K.Signer(r)
a = s.AttachedSign('data', '', None)
plain = a[:5] + a[-20:]
ok = not s.Verify('data', plain, None)
sys.exit(0 if ok else 1)
''')

bug('B09', 'C06', 'a key set with two versions sharing statuses, looked up by header',
    'keys of inactive versions are no longer found by their identifier',
    [('keyczar.py', '''      self._keys[version] = key
      self._keys[key.hash_id] = key
''', '''      self._keys[version] = key
      if version.status != keyinfo.INACTIVE:
        self._keys[key.hash_id] = key
''')],
    '''
r = readers.MockReader('n', keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES)
r.AddKey(1, keyinfo.PRIMARY)
x = K.Crypter(r).Encrypt('old')
r.kmd.GetVersion(1).status = keyinfo.INACTIVE
r.AddKey(2, keyinfo.PRIMARY)
try:
    sys.exit(0 if K.Crypter(r).Decrypt(x) == 'old' else 1)
except errors.KeyczarError:
    sys.exit(1)
''')

bug('B10', 'C12', 'a stored version with the exportable flag set',
    'the exportable flag is not restored when metadata is read',
    [('keydata.py', '''                      keyinfo.GetStatus(version['status']),
                      version['exportable'])''', '''                      keyinfo.GetStatus(version['status']),
                      False)''')],
    '''
m = keydata.KeyMetadata('n', keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1)
m.AddVersion(keydata.KeyVersion(1, keyinfo.PRIMARY, True))
sys.exit(0 if keydata.KeyMetadata.Read(str(m)).GetVersion(1).exportable is True else 1)
''')

bug('B11', 'C05', 'an unversioned signer over a key set whose primary was demoted',
    'unversioned signing falls back to some other version when there is no primary',
    [('keyczar.py', """    signing_key = self.primary_key
    if signing_key is None:
      raise errors.NoPrimaryKeyError()
    signature = signing_key.Sign(data)
""", """    version = self.primary_version or max(
        self.versions, key=lambda v: v.version_number)
    signature = self.GetKey(version).Sign(data)
""")],
    '''
r = readers.MockReader('n', keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1)
r.AddKey(1, keyinfo.ACTIVE)
r.AddKey(2, keyinfo.INACTIVE)
s = K.UnversionedSigner(r)
try:
    s.Sign('data')
except errors.NoPrimaryKeyError:
    sys.exit(0)
sys.exit(1)
''')

bug('B12', 'C08', 'a verifier opened over a set made for encryption',
    'every class for signatures accepts any purpose that is not encryption only, so signatures are checked with encryption keys',
    [('keyczar.py', """    return UnversionedVerifier(readers.CreateReader(location))

  def IsAcceptablePurpose(self, purpose):
    \"\"\"Only valid if purpose includes verifying.\"\"\"
    return purpose == keyinfo.VERIFY or purpose == keyinfo.SIGN_AND_VERIFY
""", """    return UnversionedVerifier(readers.CreateReader(location))

  def IsAcceptablePurpose(self, purpose):
    \"\"\"Only valid if purpose includes verifying.\"\"\"
    return purpose != keyinfo.ENCRYPT
""")],
    '''
r = readers.MockReader('n', keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.RSA_PRIV)
r.AddKey(1, keyinfo.PRIMARY, 1024)
try:
    K.UnversionedVerifier(r)
except errors.KeyczarError:
    sys.exit(0)
sys.exit(1)
''')

bug('B13', 'C14', 'an explicit size that is the default of another type',
    'the size a key object reports is only updated when it grows, so that small keys are written down with the default size',
    [('keys.py', """    if self.type.IsValidSize(new_size):
""", """    if self.type.IsValidSize(new_size) and new_size > self.__size:
""")],
    '''
k = keys.GenKey(keyinfo.RSA_PRIV, 1024)
sys.exit(0 if k.size == 1024 and '"size": 1024' in str(k) else 1)
''')

bug('B14', 'C15', 'a purpose, status or type name in other letter case',
    'status names are looked up without regard to case',
    [('keyinfo.py', """    return statuses[value]
""", """    return statuses[value.upper()]
""")],
    '''
try:
    keyinfo.GetStatus('Primary')
except errors.KeyczarError:
    sys.exit(0)
sys.exit(1)
''')

bug('B15', 'C16', 'a disk that fills up while a key file is written',
    'only opening the file is guarded: an error while writing escapes as IOError',
    [('util.py', """  try:
    f = open(loc, "w")
    f.write(data)
    f.close()
  except IOError:
    raise errors.KeyczarError("Unable to write to file %s." % loc)
""", """  try:
    f = open(loc, "w")
  except IOError:
    raise errors.KeyczarError("Unable to write to file %s." % loc)
  f.write(data)
  f.close()
""")],
    '''
class F(object):
    def write(self, d):
        raise IOError(28, 'No space left on device')
    def close(self):
        pass
    def __enter__(self):
        return self
    def __exit__(self, *a):
        return False
util.open = lambda *a, **k: F()
try:
    util.WriteFile('x', '/nowhere/file')
except errors.KeyczarError:
    sys.exit(0)
except IOError:
    sys.exit(1)
sys.exit(1)
''')

bug('B16', 'C17', 'a signed session message replayed into another session of the same parties',
    'the nonce of the session is not bound to the message',
    [('keyczar.py', """    return self._signer.AttachedSign(ciphertext, self._session.nonce)
""", """    return self._signer.AttachedSign(ciphertext, "")
"""), ('keyczar.py', """    ciphertext = self._verifier.AttachedVerify(signed_ciphertext, self._session.nonce)
""", """    ciphertext = self._verifier.AttachedVerify(signed_ciphertext, "")
""")],
    '''
def ks(p, t):
    r = readers.MockReader('n', p, t)
    r.AddKey(1, keyinfo.PRIMARY)
    return r
crypter = K.Crypter(ks(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES))
signer = K.Signer(ks(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1))
e = K.SignedSessionEncrypter(crypter, signer)
m = e.Encrypt('hello')
d = K.SignedSessionDecrypter(crypter, signer, e.session_material)
assert d.Decrypt(m) == 'hello'
nonce = d._session.nonce
sys.exit(0 if signer.AttachedVerify(m, nonce) and not signer.AttachedVerify(m, '') else 1)
''')

bug('B17', 'C19', 'an empty array at the end of a packed list',
    'an array that ends the data is dropped when empty, because the loop stops four bytes early',
    [('util.py', """  while position < len(data):
""", """  while position + 4 < len(data):
"""), ('util.py', """  assert position == len(data)
""", "")],
    '''
a = ['abc', '', 'd', '']
sys.exit(0 if util.UnpackMultipleByteArrays(util.PackMultipleByteArrays(*a)) == a else 1)
''')

bug('B18', 'C20', 'an RSA key whose modulus starts with a byte of 0x80 or more',
    'the identifier covers the sign byte of the numbers for public keys',
    [('keys.py', """    fullhash = util.PrefixHash(util.TrimBytes(self._params['p']),
                         util.TrimBytes(self._params['q']),""", """    fullhash = util.PrefixHash(self._params['p'],
                         util.TrimBytes(self._params['q']),""")],
    '''
import base64, hashlib, struct
k = keys.GenKey(keyinfo.DSA_PRIV)
h = hashlib.sha1()
for n in 'pqgy':
    v = k.public_key.params[n].lstrip(chr(0))
    h.update(struct.pack('>i', len(v)) + v.encode('latin-1'))
want = base64.urlsafe_b64encode(h.digest()[:4]).decode().rstrip('=')
sys.exit(0 if k.hash_id == want else 1)
''')

bug('B19', 'C21', 'a flag given after another command word, or a name holding an equals sign',
    'a flag value with an equals sign is cut at the second sign instead of being refused',
    [('keyczart.py', """          [flag, val] = arg.split("=")
""", """          flag, val = arg.split("=")[:2]
""")],
    '''
import tempfile, shutil, io, contextlib
d = tempfile.mkdtemp()
try:
    with contextlib.redirect_stdout(io.StringIO()):
        keyczart.main(['create', '--location=' + d, '--purpose=sign', '--name=a=b'])
    bad = os.path.exists(os.path.join(d, 'meta')) and '"a=b"' not in open(os.path.join(d, 'meta')).read()
finally:
    shutil.rmtree(d)
sys.exit(1 if bad else 0)
''')

bug('B20', 'C22', 'two ignore rules, the first of which matches all but its options',
    'the search for a matching ignore rule ends at the first rule that names the combination',
    [('interop/interop.py', """                  implementation, ", ".join(list(options.values()))))
          return True
    return False
""", """                  implementation, ", ".join(list(options.values()))))
        return ignored
    return False
""")],
    '''#interop
import os, sys
sys.path.insert(0, os.path.join(os.getcwd(), 'interop'))
os.chdir('interop')
import interop
r = interop.InteropTestRunner(interop.InteropLogger())
def rule(o):
    return {'reason': 'x', 'implementation': ['*'], 'operation': ['*'], 'algorithm': ['*'], 'options': o}
r.ignored_tests = [rule({'a': ['1']}), rule({'a': ['2']})]
ok = r._IsException('py', 'encrypt', 'aes128', {'a': '2'}) and not r._IsException('py', 'encrypt', 'aes128', {'a': '3'})
sys.exit(0 if ok else 1)
''')

bug('B21', 'C23', 'a ciphertext whose data block has a byte other than 1 after the zeros',
    'the label hash is compared only over its first bytes',
    [('keys.py', """    if label_hash != expected_label_hash:
""", """    if not expected_label_hash.startswith(label_hash[:2]):
""")],
    '''
import math
k = keys.GenKey(keyinfo.RSA_PRIV, 1024)
n = 128
def enc(db):
    seed = 'S' * 20
    mdb = util.Xor(db, util.MGF(seed, n - 21))
    ms = util.Xor(seed, util.MGF(mdb, 20))
    return ms + mdb
h = util.Hash('')
good = h + chr(0) * (n - 21 - 20 - 4) + chr(1) + 'msg'
bad = h[:19] + chr(ord(h[19]) ^ 1) + good[20:]
dec = k._RsaPrivateKey__Decode
if dec(enc(good)) != 'msg':
    sys.exit(2)
try:
    dec(enc(bad))
except errors.KeyczarError:
    sys.exit(0)
sys.exit(1)
''')

bug('B22', 'C24', 'a crash between the removal of the key file and the update of the metadata',
    'revoking deletes the key file before the metadata stops naming the version',
    [('keyczart.py', """  czar.Revoke(num)
  UpdateGenericKeyczar(czar, loc)
  if mock is not None:  # testing, update mock
    mock.RemoveKey(num)
  else:
    writer = writers.CreateWriter(loc)
    try:
      writer.Remove(num)
    finally:
      writer.Close()
""", """  czar.Revoke(num)
  if mock is not None:  # testing, update mock
    mock.RemoveKey(num)
  else:
    writer = writers.CreateWriter(loc)
    try:
      writer.Remove(num)
    finally:
      writer.Close()
  UpdateGenericKeyczar(czar, loc)
""")],
    '''
import tempfile, shutil
d = tempfile.mkdtemp()
class Crash(Exception):
    pass
try:
    keyczart.Create(d, 'n', keyinfo.SIGN_AND_VERIFY)
    keyczart.AddKey(d, keyinfo.PRIMARY)
    keyczart.AddKey(d, keyinfo.ACTIVE)
    keyczart.Demote(d, 2)
    real = (util.WriteFile, os.remove)
    bad = False
    for at in range(6):
        s = tempfile.mkdtemp()
        try:
            for f in os.listdir(d):
                shutil.copy(os.path.join(d, f), s)
            n = [0]
            def tick():
                n[0] += 1
                if n[0] > at:
                    raise Crash()
            def w(data, loc):
                tick()
                real[0](data, loc)
            def rm(p):
                tick()
                real[1](p)
            util.WriteFile = w
            os.remove = rm
            try:
                keyczart.Revoke(s, 2)
            except Crash:
                pass
            finally:
                util.WriteFile, os.remove = real
            try:
                K.GenericKeyczar(readers.FileReader(s))
            except errors.KeyczarError:
                bad = True
        finally:
            shutil.rmtree(s)
finally:
    shutil.rmtree(d)
sys.exit(1 if bad else 0)
''')

bug('B23', 'C25', 'a back end directory that is missing before one that exists',
    'the search of extra directories stops at the first that does not exist',
    [('util.py', """    for path in xtra_paths.split(os.pathsep):
      ImportAll(path)
""", """    for path in xtra_paths.split(os.pathsep):
      if not os.path.isdir(path):
        break
      ImportAll(path)
""")],
    '''
seen = []
util.ImportAll = seen.append
import tempfile, shutil
d = tempfile.mkdtemp()
try:
    os.environ[util.BACKEND_PATHS_ENV_VAR] = os.pathsep.join(['/nowhere/at/all', d])
    util.ImportBackends()
    direct = d in seen
finally:
    shutil.rmtree(d)
sys.exit(0 if direct else 1)
''')

bug('B24', 'C26', 'a signature that differs in an early byte',
    'the comparison stops at the first byte that differs',
    [('keys.py', """    for x, y in zip(mac_bytes, sig_bytes):
      result |= ord(x) ^ ord(y)
""", """    for x, y in zip(mac_bytes, sig_bytes):
      result |= ord(x) ^ ord(y)
      if result > 127:
        break
""")],
    '''
class S(str):
    n = 0
    def __iter__(self):
        for c in str.__iter__(self):
            S.n += 1
            yield c
k = keys.HmacKey.Generate()
m = k.Sign('x')
def work(sig):
    S.n = 0
    k.VerifySignedData(S(m), sig)
    return S.n
flip = lambda i: m[:i] + chr(ord(m[i]) ^ 255) + m[i + 1:]
sys.exit(0 if work(flip(0)) == work(flip(19)) == work(m) else 1)
''')

bug('B25', 'C27', 'a session material blob read by another implementation',
    'the packed session key holds the HMAC key before the AES key',
    [('keyczar.py', """    return util.PackMultipleByteArrays(self.__session_key.key_bytes,
                                       self.__session_key.hmac_key.key_bytes)
""", """    return util.PackMultipleByteArrays(self.__session_key.hmac_key.key_bytes,
                                       self.__session_key.key_bytes)
"""), ('keyczar.py', """    aes_key_bytes = unpacked[0]
    hmac_key_bytes = unpacked[1]
""", """    hmac_key_bytes, aes_key_bytes = unpacked
""")],
    '''
s = K._Session.New()
a = util.UnpackMultipleByteArrays(s.packed_key)
sys.exit(0 if [len(x) for x in a] == [16, 32] else 1)
''')

bug('B26', 'C18', 'a stream encoder given data in pieces of which one leaves a remainder of two',
    'pending input is only kept when a single byte is left over',
    [('util.py', """      len_to_write = 3 * (len(input) / 3)
""", """      len_to_write = len(input) - len(input) % 3 % 2
""")],
    '''
e = util.BufferedIncrementalBase64WSEncoder()
out = e.encode('ab')[0] + e.encode('cde')[0] + e.flush()
sys.exit(0 if out == util.Base64WSEncode('abcde') else 1)
''')

bug('B27', 'C03', 'a message whose length is a multiple of the block size and ends in a byte that looks like padding',
    'messages that fill their blocks get no padding',
    [('keys.py', """    pad = self.block_size - len(data) % self.block_size
""", """    pad = -len(data) % self.block_size
""")],
    '''
r = readers.MockReader('n', keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES)
r.AddKey(1, keyinfo.PRIMARY)
c = K.Crypter(r)
m = 'x' * 15 + chr(1)
sys.exit(0 if c.Decrypt(c.Encrypt(m)) == m else 1)
''')

bug('B28', 'C21', 'addkey with a size of zero or below',
    'every size up to zero counts as not given, so that an unusable value adds a key of default size',
    [('keyczart.py', """  if size == -1:
    size = None
""", """  if size <= 0:
    size = None
""")],
    '''
import tempfile, shutil
from keyczar import keyczart
d = tempfile.mkdtemp()
try:
    keyczart.main(['create', '--location=' + d, '--purpose=sign'])
    try:
        keyczart.main(['addkey', '--location=' + d, '--size=0'])
    except errors.KeyczarError:
        pass
    n = len(K.GenericKeyczar.Read(d).versions)
finally:
    shutil.rmtree(d)
sys.exit(1 if n else 0)
''')

bug('B29', 'C17', 'material of a plain session handed to a signed session decrypter',
    'a signed session falls back to material without nonce, so that its messages are bound to no session',
    [('keyczar.py', """    self._session = _Session.LoadJsonSession(crypter.Decrypt(session_material))
    self._verifier""", """    material = crypter.Decrypt(session_material)
    try:
      self._session = _Session.LoadJsonSession(material)
    except ValueError:
      self._session = _Session.LoadPackedKey(material)
    self._verifier""")],
    '''
r = readers.MockReader('n', keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES)
r.AddKey(1, keyinfo.PRIMARY)
c = K.Crypter(r)
g = readers.MockReader('s', keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1)
g.AddKey(1, keyinfo.PRIMARY)
s = K.Signer(g)
p = K.SessionEncrypter(c)
try:
    d = K.SignedSessionDecrypter(c, s, p.session_material)
    out = d.Decrypt(s.AttachedSign(p.Encrypt('secret', None), None))
except Exception:
    out = None
sys.exit(1 if out else 0)
''')

bug('B30', 'C09', 'adding a primary version to a set whose keys cannot be generated, such as a public one',
    'the former primary is demoted before the key of the new version is generated',
    [('keyczar.py', """    # Make sure no keys collide on their identifiers
    while True:
""", """    if status == keyinfo.PRIMARY and self.primary_version is not None:
      self.primary_version.status = keyinfo.ACTIVE
    # Make sure no keys collide on their identifiers
    while True:
""")],
    '''
r = readers.MockReader('n', keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1)
r.AddKey(1, keyinfo.PRIMARY)
c = K.GenericKeyczar(r)
def broken(*a):
    raise errors.KeyczarError('no randomness')
keys.GenKey = broken
try:
    c.AddVersion(keyinfo.PRIMARY)
except errors.KeyczarError:
    pass
sys.exit(0 if c.metadata.GetVersion(1).status == keyinfo.PRIMARY else 1)
''')

bug('B31', 'C20', 'an AES key whose size field is not the length of its key',
    'the identifier of an AES key covers the size it claims instead of the length it has',
    [('keys.py', """    fullhash = util.Hash(util.IntToBytes(len(self.key_bytes)),
                         self.key_bytes,
                         self.hmac_key""", """    fullhash = util.Hash(util.IntToBytes(self.size / 8),
                         self.key_bytes,
                         self.hmac_key""")],
    '''
h = keys.HmacKey(util.Base64WSEncode('h' * 32), 256)
a = keys.AesKey(util.Base64WSEncode('a' * 32), h, 128)
b = keys.AesKey(util.Base64WSEncode('a' * 32), h, 256)
sys.exit(0 if a.hash_id == b.hash_id else 1)
''')

bug('B32', 'C16', 'a metadata file that is there but empty, as after a crash',
    'an empty metadata file does not keep create from overwriting',
    [('writers.py', "os.path.exists(fname):", "os.path.exists(fname) and os.path.getsize(fname):")],
    '''
import os, tempfile, shutil
from keyczar import keyczart
d = tempfile.mkdtemp()
try:
    open(os.path.join(d, 'meta'), 'w').close()
    try:
        keyczart.main(['create', '--location=' + d, '--purpose=sign'])
    except errors.KeyczarError:
        pass
    n = os.path.getsize(os.path.join(d, 'meta'))
finally:
    shutil.rmtree(d)
sys.exit(1 if n else 0)
''')

bug('B33', 'C11', 'adding a key smaller than the default to an encrypted key set',
    'the warning about small keys shows the key itself',
    [('keyczar.py', """    if status == keyinfo.PRIMARY:
      if self.primary_version is not None:
        self.primary_version.status = keyinfo.ACTIVE
      self.primary_version = version
""", """    if size < self.default_size:
      print("Generated %s" % key)
    if status == keyinfo.PRIMARY:
      if self.primary_version is not None:
        self.primary_version.status = keyinfo.ACTIVE
      self.primary_version = version
""")],
    '''
import io, contextlib
class Fake(object):
    hash_id = 'x'
    def __str__(self):
        return 'SECRET'
keys.GenKey = lambda *a: Fake()
r = readers.MockReader('n', keyinfo.SIGN_AND_VERIFY, keyinfo.RSA_PRIV)
c = K.GenericKeyczar(r)
out = io.StringIO()
with contextlib.redirect_stdout(out):
    c.AddVersion(keyinfo.ACTIVE, 1024)
sys.exit(1 if 'SECRET' in out.getvalue() else 0)
''')

bug('B34', 'C01', 'a genuine decryption first, then an altered ciphertext that carries the same MAC',
    'a key remembers the MACs it has accepted and lets any other data pass with one of them',
    [('keys.py', """    if not self.hmac_key.Verify(input_bytes[:-util.HLEN], sig_bytes):
      raise errors.InvalidSignatureError()
""", """    known = self.__dict__.setdefault('_accepted', set())
    if sig_bytes not in known and \\
        not self.hmac_key.Verify(input_bytes[:-util.HLEN], sig_bytes):
      raise errors.InvalidSignatureError()
    known.add(sig_bytes)
""")],
    '''
r = readers.MockReader('n', keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES)
r.AddKey(1, keyinfo.PRIMARY)
c = K.Crypter(r)
x = c.Encrypt('some data', None)
c.Decrypt(x, None)
try:
    c.Decrypt(x[:6] + chr(ord(x[6]) ^ 1) + x[7:], None)
except errors.InvalidSignatureError:
    sys.exit(0)
sys.exit(1)
''')

bug('B35', 'C21', 'two commands run one after the other in the same process, the second without a flag the first had',
    'the flags of an earlier command stay in force',
    [('keyczart.py', """    cmd = GetCommand(argv[0])   
    flags = {}
""", """    cmd = GetCommand(argv[0])   
    flags = _flags
"""), ('keyczart.py', """def main(argv):
""", """_flags = {}

def main(argv):
""")],
    '''
import os, tempfile, shutil
from keyczar import keyczart
d = tempfile.mkdtemp()
try:
    keyczart.main(['create', '--location=' + d, '--purpose=sign', '--name=first'])
    e = os.path.join(d, 'two')
    os.mkdir(e)
    keyczart.main(['create', '--location=' + e, '--purpose=crypt'])
    m = open(os.path.join(e, 'meta')).read()
finally:
    shutil.rmtree(d)
sys.exit(1 if 'first' in m else 0)
''')

bug('B36', 'C02', 'two streams written side by side with the same key',
    'both streams feed one running MAC',
    [('keys.py', """    self.__hmac_stream = key.hmac_key.CreateStreamable()
""", """    if getattr(key, '_mac_stream', None) is None:
      key._mac_stream = key.hmac_key.CreateStreamable()
    self.__hmac_stream = key._mac_stream
"""), ('keys.py', """    self.__output_stream.write(self.__hmac_stream.Sign())
""", """    self.__output_stream.write(self.__hmac_stream.Sign())
    self.__key._mac_stream = None
""")],
    '''
class S(object):
    def __init__(self):
        self.out = ''
    def write(self, x):
        self.out += x
    def flush(self):
        pass
r = readers.MockReader('n', keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES)
r.AddKey(1, keyinfo.PRIMARY)
c = K.Crypter(r)
s, t = S(), S()
a, b = c.CreateEncryptingStreamWriter(s, None), c.CreateEncryptingStreamWriter(t, None)
a.write('one')
b.write('two')
a.flush()
b.flush()
try:
    ok = c.Decrypt(s.out, None) == 'one' and c.Decrypt(t.out, None) == 'two'
except errors.KeyczarError:
    ok = False
sys.exit(0 if ok else 1)
''')

bug('B37', 'C13', 'an export, a change of status or a revocation, and an export again',
    'the second export still names the versions of the first',
    [('keyczar.py', """    if pubkmd is None:
      raise errors.KeyczarError("Cannot export public key")
""", """    if pubkmd is None:
      raise errors.KeyczarError("Cannot export public key")
    pubkmd = self.__dict__.setdefault('_exported', pubkmd)
""")],
    '''
class M(object):
    def SetPubKey(self, n, k):
        pass
r = readers.MockReader('n', keyinfo.SIGN_AND_VERIFY, keyinfo.DSA_PRIV)
class Fake(object):
    type, size, hash_id, public_key = keyinfo.DSA_PRIV, 1024, 'x', None
    def __str__(self):
        return ''
keys.ReadKey = lambda *a: Fake()
for n, s in ((1, keyinfo.PRIMARY), (2, keyinfo.INACTIVE)):
    r.kmd.AddVersion(keydata.KeyVersion(n, s, False))
    r.pubkeys = {}
    r.SetKey(n, Fake())
c = K.GenericKeyczar(r)
c.PublicKeyExport('', M())
c.Revoke(2)
m = M()
c.PublicKeyExport('', m)
sys.exit(0 if len(m.pubkmd.versions) == 1 else 1)
''')

bug('B38', 'C03', 'M2Crypto in use, and a second message encrypted in the same process',
    'the ciphers of one message are kept for the next, whose IV they ignore',
    [('keys.py', """      self.ciphers = {}
""", """      pass
"""), ('keys.py', """    OP_TYPES = (OP_ACTIVE, OP_DECRYPT, OP_ENCRYPT)
""", """    OP_TYPES = (OP_ACTIVE, OP_DECRYPT, OP_ENCRYPT)
    ciphers = {}
""")],
    '''
class Cipher(object):
    def __init__(self, alg, key, iv, op, padding):
        self.c = keys.AES.new(key, keys.AES.MODE_CBC, iv)
        self.op = op
    def update(self, x):
        return self.c.encrypt(x) if self.op else self.c.decrypt(x)
    def final(self):
        return ''
class EVP(object):
    pass
EVP.Cipher = Cipher
keys.EVP = EVP
keys.ACTIVE_CRYPT_LIB = 'm2crypto'
r = readers.MockReader('n', keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES)
r.AddKey(1, keyinfo.PRIMARY)
c = K.Crypter(r)
x, y = c.Encrypt('message one', None), c.Encrypt('message two', None)
sys.exit(0 if c.Decrypt(x, None) == 'message one' and c.Decrypt(y, None) == 'message two' else 1)
''')
