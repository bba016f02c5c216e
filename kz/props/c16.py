from ..check import prop, Ctx

LIB = '''
import os
from keyczar import keyczart
'''

PLUG = LIB + '''
OPEN = []
class PlugReader(readers.Reader):
    def __init__(self):
        self.isopen = True
        OPEN.append(self)
    def use(self, what):
        KZ.prove(self.isopen, 'a reader is not used after it was closed')
        if KZ.flip():
            raise errors.KeyczarError('cannot ' + what)
    def GetMetadata(self):
        self.use('read metadata')
        return META
    def GetKey(self, v):
        self.use('read key')
        return KEYS[v]
    def Close(self):
        self.isopen = False
    @classmethod
    def CreateReader(cls, location):
        return cls() if location == '/plug' else None
class PlugWriter(writers.Writer):
    def __init__(self):
        self.isopen = True
        OPEN.append(self)
    def use(self, what):
        KZ.prove(self.isopen, 'a writer is not used after it was closed')
        if KZ.flip():
            raise errors.KeyczarError('cannot ' + what)
    def WriteMetadata(self, m, overwrite=True):
        self.use('write metadata')
    def WriteKey(self, k, v, encrypter=None):
        self.use('write key')
    def Remove(self, v):
        self.use('remove')
    def Close(self):
        self.isopen = False
    @classmethod
    def CreateWriter(cls, location):
        return cls() if location == '/plug' else None
KZ.putfile('/plug', None)
def closed():
    KZ.prove(len(OPEN) > 0, 'the key set at the location is used')
    for x in OPEN:
        KZ.prove(not x.isopen, 'everything that was opened is closed')
'''

prop('C16', [
    Ctx('storage layer under I/O faults', LIB + '''
def main():
    loc = KZ.sym('loc', 'str')
    v = KZ.choice(1, 2, 17, 1000, 65536, 10 ** 12)
    r, w = readers.FileReader(loc), writers.FileWriter(loc)
    meta, kf = os.path.join(loc, 'meta'), os.path.join(loc, str(v))
    k = hmackey('1')
    m = metadata(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, [keyinfo.PRIMARY])
    op = KZ.choice('getmeta', 'getkey', 'writemeta', 'writekey', 'remove')
    try:
        if op == 'getmeta':
            KZ.putfile(meta, 'M')
            KZ.same(r.GetMetadata(), 'M', 'metadata is what the file holds')
        elif op == 'getkey':
            KZ.putfile(kf, 'K')
            KZ.putfile(os.path.join(loc, '3'), 'other')
            KZ.same(r.GetKey(v), 'K', 'a key is what the file of its version holds')
        elif op == 'writemeta':
            w.WriteMetadata(m)
            KZ.same(KZ.file(meta), str(m), 'metadata file holds the metadata')
        elif op == 'writekey':
            w.WriteKey(k, v)
            KZ.same(KZ.file(kf), str(k), 'key file holds the key')
        else:
            w.Remove(v)
            KZ.prove(KZ.file(kf) is None, 'key file is removed')
    except errors.KeyczarError:
        KZ.prove(len(KZ.events('iofail')) > 0, 'no error without a fault')
        return
    KZ.same(len(KZ.events('iofail')), 0, 'a fault is never swallowed')
    want = meta if op in ('getmeta', 'writemeta') else kf
    for e in KZ.events('open', 'fwrite', 'fread', 'remove'):
        KZ.same(e[1], want, 'only the file of that version is touched')
''', flags={'io_fail': True}),
    Ctx('creating never overwrites', LIB + '''
def main():
    loc = '/loc'
    KZ.putfile(loc, '')
    there = KZ.flip()
    old = KZ.choice('OLD', chr(10), '{}', ' ')
    KZ.putfile('/loc/meta', old if there else None)
    if there and KZ.flip():
        old = ''
        KZ.emptyfile('/loc/meta')
    how = KZ.choice('writer', 'command', 'main')
    m = metadata(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, [])
    try:
        if how == 'writer':
            w = writers.CreateWriter(loc)
            if there and KZ.flip():
                try:
                    w.WriteMetadata(m, overwrite=False)
                except errors.KeyczarError:
                    pass
            if KZ.flip():
                w.WriteMetadata(m, overwrite=False)
            else:
                w.WriteMetadata(m, False)
        elif how == 'command':
            keyczart.Create(loc, 'n', keyinfo.SIGN_AND_VERIFY, KZ.choice(None, 'rsa', 'dsa'))
        else:
            keyczart.main(['create', '--location=/loc', '--purpose=' + KZ.choice('sign', 'crypt')])
    except errors.KeyczarError:
        KZ.prove(there, 'a key set can be created at an empty location')
    else:
        KZ.prove(not there, 'creating over an existing key set is refused')
        KZ.same(len(keydata.KeyMetadata.Read(KZ.file('/loc/meta')).versions), 0, 'a new key set is empty')
    if there:
        KZ.same(KZ.file('/loc/meta'), old, 'existing metadata is not overwritten')
        for e in KZ.events('open'):
            KZ.prove(e[2][:1] == 'r', 'nothing is opened for writing')
        KZ.same(len(KZ.events('remove', 'rename', 'rmtree')), 0, 'nothing is removed')
'''),
    Ctx('updating overwrites', LIB + '''
def main():
    KZ.putfile('/loc', '')
    KZ.putfile('/loc/meta', 'OLD')
    m = metadata(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, [keyinfo.PRIMARY])
    w = writers.CreateWriter('/loc')
    if KZ.flip():
        w.WriteMetadata(m)
    else:
        w.WriteMetadata(m, overwrite=True)
    KZ.same(KZ.file('/loc/meta'), str(m), 'an update replaces the metadata')
    k, k2 = hmackey('1'), hmackey('2')
    w.WriteKey(k, 1)
    w.WriteKey(k2, 1)
    KZ.same(KZ.file('/loc/1'), str(k2), 'an update replaces the key')
'''),
    Ctx('commands close what they open', PLUG + '''
META = str(metadata(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, [keyinfo.PRIMARY, keyinfo.INACTIVE]))
KEYS = {1: str(hmackey('1')), 2: str(hmackey('2'))}
def main():
    KZ.distinct(keys.ReadKey(keyinfo.HMAC_SHA1, KEYS[1]).hash_id, keys.ReadKey(keyinfo.HMAC_SHA1, KEYS[2]).hash_id)
    c = KZ.choice('create', 'addkey', 'promote', 'demote', 'revoke', 'pubkey')
    args = {'create': ['--purpose=sign'], 'addkey': [], 'promote': ['--version=2'], 'demote': ['--version=1'],
            'revoke': ['--version=2'], 'pubkey': ['--destination=/dest']}[c]
    try:
        keyczart.main([c, '--location=/plug'] + args)
    except errors.KeyczarError:
        KZ.ok('reported')
    closed()
''', flags={'freshkeys': True}),
    Ctx('encrypted key sets close what they open', PLUG + '''
def main():
    global META, KEYS
    master = K.Crypter(keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, lambda t: aeskey('m' + t), [keyinfo.PRIMARY]))
    META = str(metadata(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, [keyinfo.PRIMARY], 'n', True))
    KEYS = {1: master.Encrypt(str(hmackey('1')))}
    w = KZ.choice('add', 'use', 'close', 'broken')
    if w == 'broken':
        # key data that is no key at all: whatever is raised, the reader is closed
        KEYS = {1: KZ.choice('nonsense', master.Encrypt('nonsense'), master.Encrypt('{}'))}
        try:
            if KZ.flip():
                keyczart.UseKey(keyinfo.SIGN_AND_VERIFY, '/plug', '/out', master)
            else:
                keyczart.AddKey('/plug', keyinfo.ACTIVE, master)
        except Exception:
            KZ.ok('reported')
        closed()
        return
    try:
        if w == 'add':
            keyczart.AddKey('/plug', keyinfo.ACTIVE, master)
        elif w == 'use':
            keyczart.UseKey(keyinfo.SIGN_AND_VERIFY, '/plug', '/out', master)
        else:
            readers.EncryptedReader(PlugReader(), master).Close()
    except errors.KeyczarError:
        KZ.ok('reported')
    closed()
''', flags={'freshkeys': True}),
    Ctx('the key set of the crypter is closed too', PLUG + """
def main():
    global META, KEYS
    m = aeskey('m1')
    META = str(metadata(KZ.choice(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.SIGN_AND_VERIFY), keyinfo.AES, [keyinfo.PRIMARY]))
    KEYS = {1: str(m)}
    KZ.putfile('/loc', '')
    KZ.putfile('/loc/meta', str(metadata(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, [])))
    try:
        keyczart.main(['addkey', '--location=/loc', '--crypter=/plug'])
    except errors.KeyczarError:
        KZ.ok('reported')
    closed()
""", flags={'freshkeys': True}),
    Ctx('opening key sets under I/O faults', LIB + '''
def main():
    KZ.putfile('/loc', '')
    KZ.putfile('/loc/meta', str(metadata(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, [keyinfo.PRIMARY])))
    KZ.putfile('/loc/1', str(hmackey('1')))
    cls = KZ.choice(K.Signer, K.Verifier, K.UnversionedSigner, K.UnversionedVerifier, K.GenericKeyczar)
    try:
        z = cls.Read('/loc')
        KZ.prove(isinstance(z, cls), 'reading gives the class that was asked for')
        KZ.same(str(z.primary_key), str(hmackey('1')), 'reading gives the stored key')
        if cls is K.GenericKeyczar:
            z.Write(writers.CreateWriter('/loc'))
            KZ.same(KZ.file('/loc/1'), str(hmackey('1')), 'writing back keeps the key')
    except errors.KeyczarError:
        KZ.prove(len(KZ.events('iofail')) > 0, 'no error without a fault')
        return
    KZ.same(len(KZ.events('iofail')), 0, 'a fault is never swallowed')
''', flags={'io_fail': True}),
    Ctx('locations nobody serves', LIB + '''
def main():
    loc = KZ.sym('loc', 'str')
    KZ.putfile(loc, None)
    f = KZ.choice(readers.CreateReader, writers.CreateWriter, K.Crypter.Read, K.Encrypter.Read, K.Signer.Read, K.Verifier.Read, K.GenericKeyczar.Read)
    try:
        f(loc)
        KZ.fail('a location that does not exist is refused')
    except errors.KeyczarError as e:
        KZ.prove(KZ.mentions(str(e), loc), 'the error names the location')
'''),
    Ctx('missing location flag', LIB + '''
def main():
    c = KZ.choice('create', 'addkey', 'promote', 'demote', 'revoke', 'pubkey')
    args = {'create': ['--purpose=sign'], 'addkey': [], 'promote': ['--version=2'], 'demote': ['--version=1'],
            'revoke': ['--version=2'], 'pubkey': ['--destination=/dest']}[c]
    try:
        keyczart.main([c] + args)
        KZ.fail('a command without location is refused')
    except errors.KeyczarError:
        KZ.same(len(KZ.events('open', 'fwrite', 'remove')), 0, 'and touches nothing')
'''),
    Ctx('commands under I/O faults', LIB + '''
def main():
    c = KZ.choice('create', 'addkey', 'promote', 'demote', 'revoke', 'pubkey', 'use')
    KZ.putfile('/loc', '')
    KZ.putfile('/dest', '')
    KZ.putfile('/out', None)
    if c == 'create':
        KZ.putfile('/loc/meta', None)
    elif c == 'pubkey':
        KZ.putfile('/loc/meta', str(metadata(keyinfo.SIGN_AND_VERIFY, keyinfo.DSA_PRIV, [keyinfo.PRIMARY])))
        KZ.putfile('/loc/1', str(keys.GenKey(keyinfo.DSA_PRIV)))
    else:
        KZ.distinct(hmackey('1').hash_id, hmackey('2').hash_id)
        KZ.putfile('/loc/meta', str(metadata(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, [keyinfo.PRIMARY, keyinfo.INACTIVE])))
        KZ.putfile('/loc/1', str(hmackey('1')))
        KZ.putfile('/loc/2', str(hmackey('2')))
    args = {'create': ['--purpose=sign'], 'addkey': [], 'promote': ['--version=2'], 'demote': ['--version=1'],
            'revoke': ['--version=2'], 'pubkey': ['--destination=/dest']}
    try:
        if c == 'use':
            keyczart.UseKey(keyinfo.SIGN_AND_VERIFY, '/loc', '/out')
        else:
            keyczart.main([c, '--location=/loc'] + args[c])
    except errors.KeyczarError:
        KZ.prove(len(KZ.events('iofail')) > 0, 'no error without a fault')
        return
    KZ.same(len(KZ.events('iofail')), 0, 'a fault is never swallowed by a command')
    for e in KZ.events('open'):
        if e[2][:1] != 'r':
            n = len([x for x in KZ.events('fclose') if x[1] == e[1]])
            KZ.prove(n > 0, 'a file that was written is closed, so that a late failure is reported')
    if c == 'use':
        KZ.prove(KZ.file('/out') != '', 'what was asked for is written')
    KZ.reach(c)
''', flags={'io_fail': True, 'freshkeys': True}, must=('create', 'addkey', 'promote', 'demote', 'revoke', 'pubkey', 'use')),
    Ctx('files of any length', LIB + '''
def main():
    n = KZ.choice(0, 1, 4095, 4096, 8192, 65536, 65537, 200001)
    KZ.putfile('/loc', '')
    data = 'x' * n + ('y' if n else '')
    KZ.putfile('/loc/meta', data)
    KZ.putfile('/loc/1', data)
    r = readers.CreateReader('/loc')
    KZ.same(len(r.GetMetadata()), len(data), 'metadata is read in full')
    KZ.same(r.GetMetadata(), data, 'metadata is read in full')
    KZ.same(r.GetKey(1), data, 'a key file is read in full')
    util.WriteFile(data, '/loc/2')
    KZ.same(KZ.file('/loc/2'), data, 'a file is written in full')
    KZ.same(util.ReadFile('/loc/2'), data, 'a file is read in full')
'''),
    Ctx('a file written again', LIB + '''
def main():
    a, b = KZ.sym('a', 'str'), KZ.sym('b', 'str')
    for x in KZ.choice((a, b, a), (a, a), (a, b, b)):
        util.WriteFile(x, '/f')
        KZ.same(KZ.file('/f'), x, 'the file holds what was written last')
        KZ.same(util.ReadFile('/f'), x, 'reading gives what the file holds')
    KZ.putfile('/f', KZ.string('c', 4))
    KZ.same(util.ReadFile('/f'), KZ.string('c', 4), 'reading gives what the file holds')
    util.WriteFile(x, '/f')
    KZ.same(KZ.file('/f'), x, 'the file holds what was written last')
    KZ.putfile('/f', None)
    try:
        util.ReadFile('/f')
        KZ.fail('a file that is gone cannot be read')
    except errors.KeyczarError:
        KZ.ok('refused')
'''),
])
