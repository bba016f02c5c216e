from ..check import prop, Ctx

LIB = '''
from keyczar import keyczart
def crypter():
    return K.Crypter(keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, lambda t: aeskey('m' + t), [keyinfo.PRIMARY]))
def anykey(tag):
    t = KZ.choice('aes', 'hmac', 'rsa', 'dsa')
    if t == 'aes':
        return keyinfo.AES, keyinfo.DECRYPT_AND_ENCRYPT, aeskey(tag)
    if t == 'hmac':
        return keyinfo.HMAC_SHA1, keyinfo.SIGN_AND_VERIFY, hmackey(tag)
    if t == 'rsa':
        return keyinfo.RSA_PRIV, keyinfo.SIGN_AND_VERIFY, keys.GenKey(keyinfo.RSA_PRIV)
    return keyinfo.DSA_PRIV, keyinfo.SIGN_AND_VERIFY, keys.GenKey(keyinfo.DSA_PRIV)
def secret(k):
    """the secret parts of a key"""
    if k.type == keyinfo.AES:
        return [k.key_bytes, k.hmac_key.key_bytes]
    if k.type == keyinfo.HMAC_SHA1:
        return [k.key_bytes]
    if k.type == keyinfo.RSA_PRIV:
        return [k.key.d, k.key.p, k.key.q, k.key.u]
    return [k.key.x]
'''

prop('C11', [
    Ctx('writing with an encrypter', LIB + '''
def main():
    t, p, k1 = anykey('1')
    n = KZ.choice(1, 2)
    st = anystatuses(n)
    ks = {1: k1}
    if n == 2:
        ks[2] = keys.GenKey(t)
        KZ.distinct(k1.hash_id, ks[2].hash_id)
    text = {}
    for v in ks:
        text[v] = str(ks[v])
    czar = K.GenericKeyczar(MemReader(str(metadata(p, t, st)), dict(text)))
    c = crypter()
    how = KZ.choice('memory', 'file', 'file twice')
    data = {}
    if how == 'memory':
        w = MemWriter()
        czar.Write(w, c)
        meta = w.meta
        for v in ks:
            data[v] = w.versions[v]
    else:
        KZ.putfile('/loc', '')
        w = writers.CreateWriter('/loc')
        if how == 'file twice':
            czar.Write(w)
        czar.Write(w, c)
        meta = KZ.file('/loc/meta')
        for v in ks:
            data[v] = KZ.file('/loc/%d' % v)
    KZ.prove(keydata.KeyMetadata.Read(meta).encrypted, 'metadata of an encrypted key set says so')
    for v in ks:
        for s in secret(ks[v]):
            KZ.prove(not KZ.mentions_bare(data[v], s), 'no secret reaches storage outside the encryption')
            KZ.prove(not KZ.mentions_bare(meta, s), 'no secret reaches storage outside the encryption')
        KZ.same(c.Decrypt(data[v]), text[v], 'what is stored is the key encrypted by the given encrypter')
    r = readers.EncryptedReader(MemReader(meta, data), crypter())
    z = K.GenericKeyczar(r)
    for v in z.metadata.versions:
        KZ.same(str(z.GetKey(v)), text[v.version_number], 'an encrypted key set reads back unchanged')
        KZ.prove(v.status == st[v.version_number - 1], 'with the same statuses')
    KZ.prove(z.metadata.encrypted, 'and is still marked as encrypted')
'''),
    Ctx('any kind of encrypter', LIB + '''
class Sealer(object):
    """an encrypter of some other make"""
    def __init__(self):
        self.got = []
    def Encrypt(self, data):
        self.got.append(data)
        return 'sealed' + str(len(self.got))
def main():
    kind = KZ.choice('rsa', 'restricted', 'other')
    k = hmackey('1')
    text = str(k)
    czar = K.GenericKeyczar(MemReader(str(metadata(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, [KZ.choice(keyinfo.PRIMARY, keyinfo.INACTIVE)])), {1: text}))
    d = None
    if kind == 'rsa':
        r = keys.GenKey(keyinfo.RSA_PRIV, 4096)
        m = metadata(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.RSA_PRIV, [keyinfo.PRIMARY])
        p = metadata(keyinfo.ENCRYPT, keyinfo.RSA_PUB, [keyinfo.PRIMARY])
        e, d = K.Encrypter(MemReader(str(p), {1: str(r.public_key)})), K.Crypter(MemReader(str(m), {1: str(r)}))
    elif kind == 'restricted':
        r = keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, lambda t: aeskey('m' + t), [keyinfo.PRIMARY])
        e, d = K.Encrypter(r), K.Crypter(r)
    else:
        e = Sealer()
    KZ.putfile('/loc', '')
    try:
        czar.Write(writers.CreateWriter('/loc'), e)
    except errors.KeyczarError:
        KZ.prove(kind == 'rsa', 'only RSA may find a key too long')
        return
    KZ.reach(kind)
    meta, data = KZ.file('/loc/meta'), KZ.file('/loc/1')
    KZ.prove(keydata.KeyMetadata.Read(meta).encrypted is True, 'metadata of an encrypted key set says so')
    for q in secret(k):
        KZ.prove(not KZ.mentions_bare(data, q), 'no secret reaches storage outside the encryption')
        KZ.prove(not KZ.mentions_bare(meta, q), 'no secret reaches storage outside the encryption')
    if d is None:
        KZ.same(e.got, [text], 'the key text is given to the encrypter')
        KZ.same(data, 'sealed1', 'what the encrypter gives is stored')
    else:
        try:
            back = d.Decrypt(data)
        except errors.KeyczarError:
            KZ.prove(kind == 'rsa', 'what is stored decrypts')      # a modulus below 42 bytes
            return
        KZ.same(back, text, 'what is stored is the key encrypted by the given encrypter')
''', must=('rsa', 'restricted', 'other')),
    Ctx('writing in the clear', LIB + '''
def main():
    t, p, k = anykey('1')
    m = metadata(p, t, [keyinfo.PRIMARY], 'n', KZ.flip())
    c = crypter()
    r = MemReader(str(m), {1: c.Encrypt(str(k)) if m.encrypted else str(k)})
    if m.encrypted:
        r = readers.EncryptedReader(r, c)
    czar = K.GenericKeyczar(r)
    w = MemWriter()
    czar.Write(w)
    KZ.prove(not keydata.KeyMetadata.Read(w.meta).encrypted, 'metadata of a plain key set says so')
    KZ.same(w.versions[1], str(k), 'plain key data is the key itself')
'''),
    Ctx('encrypted sets need a decrypting reader', LIB + '''
def main():
    t, p, k = KZ.choice((keyinfo.AES, keyinfo.DECRYPT_AND_ENCRYPT, aeskey('1')), (keyinfo.HMAC_SHA1, keyinfo.SIGN_AND_VERIFY, hmackey('1')))
    m = metadata(p, t, [keyinfo.PRIMARY], 'n', True)
    cls = KZ.choice(K.GenericKeyczar, K.Crypter, K.Encrypter, K.Signer, K.Verifier, K.UnversionedSigner, K.UnversionedVerifier)
    try:
        cls(MemReader(str(m), {1: str(k)}))
        KZ.fail('an encrypted key set must be refused without a decrypting reader')
    except errors.KeyczarError:
        KZ.ok('an encrypted key set is refused without a decrypting reader')
'''),
    Ctx('decrypting reader', LIB + '''
def main():
    c = crypter()
    inner = MemReader(str(metadata(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, [keyinfo.PRIMARY, keyinfo.ACTIVE], 'n', True)),
                      {1: c.Encrypt(str(hmackey('1'))), 2: c.Encrypt(str(hmackey('2')))})
    r = readers.EncryptedReader(inner, c)
    KZ.same(r.GetMetadata(), inner.meta, 'metadata passes through unchanged')
    KZ.same(r.GetKey(1), str(hmackey('1')), 'key data is decrypted')
    KZ.same(r.GetKey(2), str(hmackey('2')), 'key data is decrypted')
    bad = MemReader(inner.meta, {1: KZ.sym('junk', 'str')})
    at = KZ.mark()
    try:
        readers.EncryptedReader(bad, c).GetKey(1)
    except errors.KeyczarError:
        KZ.ok('tampered key data is refused')
        return
    j = KZ.unb64(KZ.sym('junk', 'str'))
    KZ.prove(j[-20:] == KZ.hmac(KZ.string('hmac_m1', 32), j[:-20]), 'key data is used only if it authenticates')
'''),
    Ctx('nothing secret is printed or put into an error', LIB + '''
def silent(at, secrets, err=None):
    for e in KZ.events('print', 'warn', since=at):
        for q in secrets:
            KZ.prove(not KZ.mentions(e, q), 'no secret is printed')
    if err is not None:
        for q in secrets:
            KZ.prove(not KZ.mentions(str(err), q), 'no secret is put into an error')
            KZ.prove(not KZ.mentions(err.args, q), 'no secret is put into an error')
def main():
    what = KZ.choice('type', 'collision', 'moves', 'purpose', 'tool', 'lookup')
    k = KZ.choice(hmackey, aeskey)('1')
    t = k.type
    p = keyinfo.DECRYPT_AND_ENCRYPT if t == keyinfo.AES else keyinfo.SIGN_AND_VERIFY
    secrets = secret(k)
    at = KZ.mark()
    if what == 'type':
        try:
            keys.ReadKey(keyinfo.KeyType('OTHER', 9, [1024, 2048], 20), str(k))
        except errors.KeyczarError as e:
            silent(at, secrets, e)
        return
    c = crypter()
    m = metadata(p, t, [KZ.choice(keyinfo.PRIMARY, keyinfo.ACTIVE, keyinfo.INACTIVE)], 'n', True)
    r = MemReader(str(m), {1: c.Encrypt(str(k))})
    at = KZ.mark()
    if what == 'purpose':
        try:
            K.Signer(readers.EncryptedReader(r, c)) if t == keyinfo.AES else K.Crypter(readers.EncryptedReader(r, c))
        except errors.KeyczarError as e:
            silent(at, secrets, e)
        return
    if what == 'tool':
        KZ.putfile('/loc', '')
        KZ.putfile('/loc/meta', r.meta)
        KZ.putfile('/loc/1', r.versions[1])
        cmd = KZ.choice('add', 'promote', 'demote', 'revoke')
        err = None
        try:
            if cmd == 'add':
                keyczart.AddKey('/loc', KZ.choice(keyinfo.PRIMARY, keyinfo.ACTIVE), c, KZ.choice(None, 999))
            elif cmd == 'promote':
                keyczart.Promote('/loc', KZ.choice(1, 7))
            elif cmd == 'demote':
                keyczart.Demote('/loc', KZ.choice(1, 7))
            else:
                keyczart.Revoke('/loc', KZ.choice(1, 7))
        except errors.KeyczarError as e:
            err = e
        silent(at, secrets, err)
        for q in KZ.events('random', since=at):
            silent(at, [q[2]], err)
        return
    czar = K.GenericKeyczar(readers.EncryptedReader(r, c))
    silent(at, secrets)
    err = None
    if what == 'collision':
        drawn = []
        real = keys.GenKey
        def gen(*a):
            drawn.append(None)
            if len(drawn) == 1:
                return keys.ReadKey(t, str(k))
            x = real(*a)
            KZ.distinct(x.hash_id, k.hash_id)
            return x
        keys.GenKey = gen
        czar.AddVersion(keyinfo.ACTIVE)
        KZ.reach('collision')
    elif what == 'moves':
        try:
            KZ.choice(czar.Promote, czar.Demote, czar.Revoke)(KZ.choice(1, 7))
        except errors.KeyczarError as e:
            err = e
    else:
        try:
            czar.GetKey(KZ.choice('AAAAAA', keydata.KeyVersion(7, keyinfo.ACTIVE, False)))
        except errors.KeyczarError as e:
            err = e
    silent(at, secrets, err)
''', flags={'freshkeys': True}, must=('collision',)),
    Ctx('adding a key through the tool', LIB + '''
def main():
    c = crypter()
    had = KZ.choice(0, 1, 11)
    first = had == 0
    KZ.putfile('/loc', '')
    if first:
        KZ.putfile('/loc/meta', str(metadata(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, [])))
    else:
        ks = [hmackey(str(i + 1)) for i in range(had)]
        KZ.distinct(*[k.hash_id for k in ks])
        KZ.putfile('/loc/meta', str(metadata(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, [keyinfo.PRIMARY] + [keyinfo.ACTIVE] * (had - 1), 'n', True)))
        for i in range(had):
            KZ.putfile('/loc/%d' % (i + 1), c.Encrypt(str(ks[i])))
    at = KZ.mark()
    keyczart.AddKey('/loc', keyinfo.PRIMARY, c)
    n = had + 1
    m = keydata.KeyMetadata.Read(KZ.file('/loc/meta'))
    KZ.prove(m.encrypted, 'key set stays marked as encrypted')
    KZ.same(len(m.versions), n, 'one version more')
    for i in range(n):
        d = KZ.file('/loc/%d' % (i + 1))
        c.Decrypt(d)
    for e in KZ.events('fwrite', since=at):
        for r in KZ.events('random', since=at):
            if len(r[2]) == 32:
                KZ.prove(not KZ.mentions_bare(e[2], r[2]), 'new key material is never written in the clear')
        KZ.prove(not KZ.mentions_bare(e[2], KZ.string('hmac_1', 32)), 'existing key material is never written in the clear')
''', flags={'freshkeys': True}),
    Ctx('adding asymmetric and larger keys through the tool', LIB + """
def main():
    c = crypter()
    t, p, size = KZ.choice((keyinfo.RSA_PRIV, keyinfo.DECRYPT_AND_ENCRYPT, 1024), (keyinfo.RSA_PRIV, keyinfo.SIGN_AND_VERIFY, 2048),
                           (keyinfo.RSA_PRIV, keyinfo.SIGN_AND_VERIFY, None), (keyinfo.DSA_PRIV, keyinfo.SIGN_AND_VERIFY, None),
                           (keyinfo.AES, keyinfo.DECRYPT_AND_ENCRYPT, 256))
    KZ.putfile('/loc', '')
    KZ.putfile('/loc/meta', str(metadata(p, t, [])))
    KZ.putfile('/loc/1', None)
    at = KZ.mark()
    keyczart.AddKey('/loc', KZ.choice(keyinfo.PRIMARY, keyinfo.ACTIVE), c, size)
    KZ.prove(keydata.KeyMetadata.Read(KZ.file('/loc/meta')).encrypted, 'key set is marked as encrypted')
    k = keys.ReadKey(t, c.Decrypt(KZ.file('/loc/1')))
    for q in secret(k):
        for e in KZ.events('print', 'warn', since=at):
            KZ.prove(not KZ.mentions(e, q), 'no secret is printed')
        for e in KZ.events('fwrite', since=at):
            KZ.prove(not KZ.mentions_bare(e[2], q), 'new key material is never written in the clear')
""", flags={'freshkeys': True}),
    Ctx('larger sets', LIB + '''
def main():
    n = KZ.choice(3, 4, 11)
    prim = KZ.choice(0, n - 1, -1)
    ks = [hmackey(str(i + 1)) for i in range(n)]
    KZ.distinct(*[k.hash_id for k in ks])
    st = [keyinfo.PRIMARY if i == prim else (keyinfo.ACTIVE, keyinfo.INACTIVE)[i % 2] for i in range(n)]
    czar = K.GenericKeyczar(keyset(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hmackey, st))
    c = crypter()
    KZ.putfile('/loc', '')
    at = KZ.mark()
    czar.Write(writers.CreateWriter('/loc'), c)
    for e in KZ.events('fwrite', since=at):
        for k in ks:
            KZ.prove(not KZ.mentions_bare(e[2], k.key_bytes), 'no secret reaches storage outside the encryption')
    for i in range(n):
        KZ.same(c.Decrypt(KZ.file('/loc/%d' % (i + 1))), str(ks[i]), 'the stored key decrypts to the key')
    op = KZ.choice('add', 'demote')
    z = K.GenericKeyczar(readers.EncryptedReader(readers.CreateReader('/loc'), c))
    if op == 'add':
        z.AddVersion(keyinfo.ACTIVE)
        ks.append(z.GetKey(z.metadata.GetVersion(n + 1)))
    else:
        z.Demote(1)
    at = KZ.mark()
    z.Write(writers.CreateWriter('/loc'), c)
    for e in KZ.events('fwrite', since=at):
        for k in ks:
            KZ.prove(not KZ.mentions_bare(e[2], k.key_bytes), 'no secret reaches storage outside the encryption')
''', flags={'freshkeys': True}),
])
