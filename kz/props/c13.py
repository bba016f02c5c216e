from ..check import prop, Ctx

LIB = '''
from keyczar import keyczart
def secrets(k):
    return [k.key.d, k.key.p, k.key.q, k.key.u] if k.type == keyinfo.RSA_PRIV else [k.key.x]
'''

prop('C13', [
    Ctx('exporting any key set', LIB + '''
import json
def main():
    t = KZ.choice(keyinfo.RSA_PRIV, keyinfo.DSA_PRIV)
    p = KZ.choice(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.SIGN_AND_VERIFY) if t == keyinfo.RSA_PRIV else keyinfo.SIGN_AND_VERIFY
    n = KZ.choice(0, 1, 2)
    st = anystatuses(n)
    ks = [keys.GenKey(t) for i in range(n)]
    if n > 1:
        KZ.distinct(*[k.hash_id for k in ks])
    d = {}
    for i in range(n):
        d[i + 1] = str(ks[i])
    enc = n < 2 and KZ.flip()
    ex = n == 1 and KZ.flip()
    r = MemReader(str(metadata(p, t, st, 'the name', enc, ex)), d)
    if enc:
        c = K.Crypter(keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, lambda t: aeskey('m' + t), [keyinfo.PRIMARY]))
        r = readers.EncryptedReader(MemReader(r.meta, dict([(v, c.Encrypt(d[v])) for v in d])), c)
    czar = K.GenericKeyczar(r)
    before = str(czar.metadata)
    KZ.prove(czar.metadata.encrypted == enc, 'the key set to export is encrypted or not')
    kept = [(v, str(czar.GetKey(v))) for v in czar.metadata.versions]
    KZ.putfile('/pub', '')
    at = KZ.mark()
    czar.PublicKeyExport('/pub')
    for e in KZ.events('fwrite', since=at):
        for k in ks:
            for s in secrets(k):
                KZ.prove(not KZ.mentions(e[2], s), 'no private component leaves with the public key set')
    m = keydata.KeyMetadata.Read(KZ.file('/pub/meta'))
    KZ.prove(m.purpose == (keyinfo.ENCRYPT if p == keyinfo.DECRYPT_AND_ENCRYPT else keyinfo.VERIFY), 'exported purpose is the public one')
    KZ.same(str(m.type), 'RSA_PUB' if t == keyinfo.RSA_PRIV else 'DSA_PUB', 'exported type is the public one')
    KZ.same(m.name, 'the name', 'name is kept')
    KZ.prove(not m.encrypted, 'exported key set is not marked encrypted')
    KZ.same(len(m.versions), n, 'every version is exported')
    for i in range(n):
        KZ.prove(m.GetVersion(i + 1).status == st[i], 'exported version keeps its status')
        pk = keys.ReadKey(m.type, KZ.file('/pub/%d' % (i + 1)))
        KZ.same(str(pk), str(ks[i].public_key), 'exported key is the public half of that version')
        KZ.same(pk.hash_id, ks[i].hash_id, 'exported key keeps its identifier')
        KZ.prove(KZ.file('/pub/%d' % (i + 1)) is not None, 'key file present')
    KZ.same(str(czar.metadata), before, 'exporting does not change the private key set')
    KZ.same([(v, str(czar.GetKey(v))) for v in czar.metadata.versions], kept, 'exporting does not change the private keys')
    KZ.prove((czar.primary_version is not None) == (keyinfo.PRIMARY in st), 'exporting does not change the primary version')
    before = str(metadata(p, t, st, 'the name'))
    if n == 1 and p == keyinfo.SIGN_AND_VERIFY and st[0] == keyinfo.PRIMARY:
        msg = KZ.sym('m', 'str')
        sig = K.Signer(MemReader(before, d)).Sign(msg)
        KZ.prove(K.Verifier.Read('/pub').Verify(msg, sig), 'exported key set verifies what the private one signs')
    if n == 1 and p == keyinfo.DECRYPT_AND_ENCRYPT and st[0] == keyinfo.PRIMARY:
        msg = KZ.string('m', 20)
        c = K.Encrypter.Read('/pub').Encrypt(msg)
        try:
            KZ.same(K.Crypter(MemReader(before, d)).Decrypt(c), msg, 'private key set decrypts what the exported one encrypts')
        except errors.KeyczarError:
            pass
'''),
    Ctx('key sets without a public half', LIB + '''
def main():
    t, p, mkk = KZ.choice((keyinfo.AES, keyinfo.DECRYPT_AND_ENCRYPT, aeskey), (keyinfo.HMAC_SHA1, keyinfo.SIGN_AND_VERIFY, hmackey),
                          (keyinfo.DSA_PRIV, keyinfo.DECRYPT_AND_ENCRYPT, 'D'), (keyinfo.RSA_PRIV, keyinfo.VERIFY, 'R'), (keyinfo.RSA_PRIV, keyinfo.ENCRYPT, 'R'))
    if mkk in ('D', 'R'):
        czar = K.GenericKeyczar(MemReader(str(metadata(p, t, [keyinfo.PRIMARY])), {1: str(keys.GenKey(t))}))
    else:
        czar = K.GenericKeyczar(keyset(p, t, mkk, [keyinfo.PRIMARY]))
    KZ.putfile('/pub', '')
    try:
        czar.PublicKeyExport('/pub')
        KZ.fail('a key set with no public form of its type and purpose must not be exported')
    except errors.KeyczarError:
        KZ.same(len(KZ.events('open', 'fwrite')), 0, 'nothing is written for a refused export')
'''),
    Ctx('public text of a private key', LIB + '''
def main():
    t = KZ.choice(keyinfo.RSA_PRIV, keyinfo.DSA_PRIV)
    size = KZ.choice(tuple(t.sizes))
    k = keys.GenKey(t, size)
    k2 = keys.ReadKey(t, str(k))
    for x in (k, k2):
        for s in secrets(k):
            KZ.prove(not KZ.mentions(str(x.public_key), s), 'public key text holds no private component')
        KZ.prove(not KZ.mentions(x.Header(), k.key.d if t == keyinfo.RSA_PRIV else k.key.x), 'key identifier holds no private component')
        for f in ('d', 'p', 'q', 'u') if t == keyinfo.RSA_PRIV else ('x',):
            KZ.prove(not KZ.has(x.public_key.key, f), 'the public key object has no private half')
'''),
    Ctx('pubkey command', LIB + '''
def main():
    k = keys.GenKey(keyinfo.DSA_PRIV)
    KZ.putfile('/loc', '')
    KZ.putfile('/loc/meta', str(metadata(keyinfo.SIGN_AND_VERIFY, keyinfo.DSA_PRIV, [keyinfo.PRIMARY])))
    KZ.putfile('/loc/1', str(k))
    at = KZ.mark()
    if KZ.flip():
        keyczart.PubKey('/loc', '/pub')
        KZ.same(KZ.file('/pub/1'), str(k.public_key), 'the public half goes to the destination')
        for e in KZ.events('open', since=at):
            KZ.prove(e[1][:5] == '/pub/' or e[2] == 'r' or e[2] == 'rb', 'only the destination is written')
    else:
        try:
            keyczart.PubKey('/loc', None)
            KZ.fail('destination is required')
        except errors.KeyczarError:
            KZ.ok('destination is required')
'''),
    Ctx('many versions', LIB + '''
def main():
    t, p = KZ.choice((keyinfo.RSA_PRIV, keyinfo.SIGN_AND_VERIFY), (keyinfo.DSA_PRIV, keyinfo.SIGN_AND_VERIFY), (keyinfo.RSA_PRIV, keyinfo.DECRYPT_AND_ENCRYPT))
    nums = (1, 2, 3, 10, 12, 100)
    st = (keyinfo.ACTIVE, keyinfo.INACTIVE, keyinfo.ACTIVE, keyinfo.INACTIVE, keyinfo.PRIMARY, keyinfo.ACTIVE)
    ks = [keys.GenKey(t) for i in nums]
    KZ.distinct(*[k.hash_id for k in ks])
    m = keydata.KeyMetadata('some name', p, t)
    d = {}
    for i in range(6):
        m.AddVersion(keydata.KeyVersion(nums[i], st[i], i == 3))
        d[nums[i]] = str(ks[i])
    czar = K.GenericKeyczar(MemReader(str(m), d))
    KZ.putfile('/pub', '')
    czar.PublicKeyExport('/pub')
    r = keydata.KeyMetadata.Read(KZ.file('/pub/meta'))
    KZ.same(len(r.versions), 6, 'every version is exported')
    for i in range(6):
        v = r.GetVersion(nums[i])
        KZ.prove(v.status == st[i], 'exported version keeps its status')
        KZ.same(KZ.file('/pub/%d' % nums[i]), str(ks[i].public_key), 'exported key is the public half of that version')
    KZ.same(str(czar.metadata), str(m), 'exporting does not change the private key set')
'''),
    Ctx('exporting again after a change', LIB + '''
def main():
    t = keyinfo.DSA_PRIV
    ks = [keys.GenKey(t), keys.GenKey(t)]
    KZ.distinct(*[k.hash_id for k in ks])
    czar = K.GenericKeyczar(MemReader(str(metadata(keyinfo.SIGN_AND_VERIFY, t, [keyinfo.PRIMARY, keyinfo.INACTIVE])), {1: str(ks[0]), 2: str(ks[1])}))
    KZ.putfile('/pub', '')
    KZ.putfile('/next', '')
    czar.PublicKeyExport('/pub')
    op = KZ.choice('promote', 'demote', 'revoke', 'add', 'again')
    if op == 'promote':
        czar.Promote(2)
    elif op == 'demote':
        czar.Demote(1)
    elif op == 'revoke':
        czar.Revoke(2)
    elif op == 'add':
        czar.Revoke(2)
        czar.AddVersion(keyinfo.PRIMARY)
    dest = KZ.choice('/next', '/pub')
    at = KZ.mark()
    czar.PublicKeyExport(dest)
    m = keydata.KeyMetadata.Read(KZ.file(dest + '/meta'))
    KZ.same(sorted([(v.version_number, str(v.status)) for v in m.versions]),
            sorted([(v.version_number, str(v.status)) for v in czar.metadata.versions]), 'every version is exported with its status of now')
    for v in czar.metadata.versions:
        KZ.same(KZ.file(dest + '/%d' % v.version_number), str(czar.GetKey(v).public_key), 'exported key is the public half of that version')
    KZ.same(len([e for e in KZ.events('open', since=at) if e[2][:1] == 'w']), len(czar.metadata.versions) + 1, 'one file a version and the metadata')
''', flags={'freshkeys': True}),
])
