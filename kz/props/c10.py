from ..check import prop, Ctx

prop('C10', [
    Ctx('revocation in memory', '''
def main():
    n = KZ.choice(1, 2, 3)
    st = anystatuses(n)
    ks = [hmackey(str(i + 1)) for i in range(n)]
    if n > 1:
        KZ.distinct(*[k.hash_id for k in ks])
    czar = K.GenericKeyczar(keyset(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hmackey, st))
    i = KZ.choice(1, 2, 3)
    versions = {}
    for v in czar.metadata.versions:
        versions[v.version_number] = v
    try:
        czar.Revoke(i)
    except errors.KeyczarError:
        KZ.prove(i > n or st[i - 1] != keyinfo.INACTIVE, 'inactive keys can be revoked')
        KZ.same(len(czar.versions), n, 'a refused revocation removes nothing')
        KZ.same(len(czar.metadata.versions), n, 'a refused revocation removes nothing')
        for k in ks:
            KZ.same(czar.GetKey(k.hash_id).key_bytes, k.key_bytes, 'a refused revocation removes nothing')
        return
    KZ.prove(i <= n and st[i - 1] == keyinfo.INACTIVE, 'only inactive keys can be revoked')
    for how in (versions[i], ks[i - 1].hash_id):
        try:
            czar.GetKey(how)
            KZ.fail('a revoked key can no longer be looked up')
        except errors.KeyNotFoundError:
            KZ.ok('a revoked key can no longer be looked up')
    try:
        czar.metadata.GetVersion(i)
        KZ.fail('a revoked version is gone from the metadata')
    except errors.KeyczarError:
        KZ.ok('a revoked version is gone from the metadata')
    KZ.prove(not KZ.mentions(str(czar), KZ.string('hmac_%d' % i, 32)), 'key material gone from the metadata text')
    for j in range(n):
        if j + 1 != i:
            KZ.same(czar.GetKey(ks[j].hash_id).key_bytes, ks[j].key_bytes, 'the other keys stay')
            KZ.same(czar.GetKey(versions[j + 1]).key_bytes, ks[j].key_bytes, 'the other keys stay')
    w = MemWriter()
    czar.Write(w)
    KZ.prove(i not in w.versions, 'a revoked key is not written again')
    KZ.same(len(w.versions), n - 1, 'the other keys are written')
'''),
    Ctx('revocation on disk', '''
from keyczar import keyczart
def main():
    n = KZ.choice(1, 2)
    st = anystatuses(n)
    ks = [hmackey(str(i + 1)) for i in range(n)]
    if n > 1:
        KZ.distinct(*[k.hash_id for k in ks])
    KZ.putfile('/loc', '')
    KZ.putfile('/loc/meta', str(metadata(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, st)))
    for i in range(n):
        KZ.putfile('/loc/%d' % (i + 1), str(ks[i]))
    i = KZ.choice(1, 2)
    try:
        keyczart.Revoke('/loc', i)
    except errors.KeyczarError:
        KZ.prove(i > n or st[i - 1] != keyinfo.INACTIVE, 'inactive keys can be revoked')
        KZ.same(len(KZ.events('remove')), 0, 'a refused revocation deletes nothing')
        return
    KZ.prove(i <= n and st[i - 1] == keyinfo.INACTIVE, 'only inactive keys can be revoked')
    KZ.prove(KZ.file('/loc/%d' % i) is None, 'the key file of a revoked version is deleted')
    for j in range(n):
        if j + 1 != i:
            KZ.same(KZ.file('/loc/%d' % (j + 1)), str(ks[j]), 'other key files stay intact')
    m = keydata.KeyMetadata.Read(KZ.file('/loc/meta'))
    nums = [v.version_number for v in m.versions]
    KZ.prove(i not in nums, 'stored metadata no longer lists the version')
    KZ.same(len(nums), n - 1, 'stored metadata keeps the other versions')
    for e in KZ.events('remove'):
        KZ.same(e[1], '/loc/%d' % i, 'only the revoked key file is deleted')
'''),
    Ctx('revoked key no longer verifies', '''
def main():
    a, b = hmackey('1'), hmackey('2')
    KZ.distinct(a.hash_id, b.hash_id)
    czar = K.GenericKeyczar(keyset(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hmackey, [keyinfo.PRIMARY, keyinfo.INACTIVE]))
    m = KZ.sym('m', 'str')
    sig = b.Header() + b.Sign(m + chr(0))
    czar.Revoke(2)
    w = MemWriter()
    czar.Write(w)
    r = MemReader(w.meta, w.versions)
    try:
        K.Verifier(r).Verify(m, sig, None)
        KZ.fail('a signature of a revoked key must be refused')
    except errors.KeyNotFoundError:
        KZ.ok('a signature of a revoked key is refused')
    KZ.prove(K.Verifier(r).Verify(m, a.Header() + a.Sign(m + chr(0)), None), 'other keys keep verifying')
'''),
    Ctx('any version numbers on disk', '''
from keyczar import keyczart
NUMS = ((1, 12), (12, 1), (7, 70, 700), (21, 3, 2), (1, 2, 3, 4), (10, 100, 1), (9, 10, 11), (65536, 1))
def main():
    nums = KZ.choice(NUMS)
    n = len(nums)
    which = KZ.choice(tuple(range(n)))
    st = []
    for j in range(n):
        st.append(KZ.choice(keyinfo.INACTIVE, keyinfo.ACTIVE) if j == which else keyinfo.INACTIVE if j == (which + 1) % n else keyinfo.ACTIVE)
    ks = [hmackey(str(j)) for j in range(n)]
    KZ.distinct(*[k.hash_id for k in ks])
    m = keydata.KeyMetadata('n', keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1)
    KZ.putfile('/loc', '')
    for j in range(n):
        m.AddVersion(keydata.KeyVersion(nums[j], st[j], False))
        KZ.putfile('/loc/%d' % nums[j], str(ks[j]))
    KZ.putfile('/loc/meta', str(m))
    KZ.putfile('/loc/notes', 'x')
    KZ.putfile('/loc/0', 'x')
    i = KZ.choice(nums[which], nums[which], 0, 8, 1000)
    via = KZ.choice('tool', 'main')
    at = KZ.mark()
    try:
        if via == 'tool':
            keyczart.Revoke('/loc', i)
        else:
            keyczart.main(['revoke', '--location=/loc', '--version=%d' % i])
    except errors.KeyczarError:
        KZ.prove(i not in nums or st[which] != keyinfo.INACTIVE, 'inactive keys can be revoked')
        KZ.same(len(KZ.events('remove', since=at)), 0, 'a refused revocation deletes nothing')
        KZ.same(KZ.file('/loc/meta'), str(m), 'a refused revocation leaves the metadata')
        for j in range(n):
            KZ.same(KZ.file('/loc/%d' % nums[j]), str(ks[j]), 'a refused revocation leaves the key files')
        return
    KZ.prove(i in nums and st[which] == keyinfo.INACTIVE, 'only inactive keys can be revoked')
    KZ.prove(KZ.file('/loc/%d' % i) is None, 'the key file of a revoked version is deleted')
    r = keydata.KeyMetadata.Read(KZ.file('/loc/meta'))
    KZ.same(len(r.versions), n - 1, 'only the revoked version leaves the metadata')
    for j in range(n):
        if j != which:
            KZ.same(KZ.file('/loc/%d' % nums[j]), str(ks[j]), 'other key files stay intact')
            KZ.prove(r.GetVersion(nums[j]).status == st[j], 'other versions keep their status')
    KZ.same(KZ.file('/loc/notes'), 'x', 'other files stay')
    KZ.same(KZ.file('/loc/0'), 'x', 'other files stay')
'''),
    Ctx('refused revocation leaves the set as it was', '''
def main():
    n = KZ.choice(1, 2)
    st = anystatuses(n)
    mk, t, p = KZ.choice((hmackey, keyinfo.HMAC_SHA1, keyinfo.SIGN_AND_VERIFY), (aeskey, keyinfo.AES, keyinfo.DECRYPT_AND_ENCRYPT))
    ks = [mk(str(i + 1)) for i in range(n)]
    if n > 1:
        KZ.distinct(*[k.hash_id for k in ks])
    czar = K.GenericKeyczar(keyset(p, t, mk, st))
    before, prim = str(czar.metadata), czar.primary_version
    i = KZ.choice(1, 2, 0, 3)
    try:
        czar.Revoke(i)
    except errors.KeyczarError:
        KZ.same(str(czar.metadata), before, 'a refused revocation changes nothing')
        KZ.prove(czar.primary_version is prim, 'a refused revocation keeps the primary version')
        w = MemWriter()
        czar.Write(w)
        KZ.same(len(w.versions), n, 'a refused revocation keeps every key')
        for j in range(n):
            KZ.same(w.versions[j + 1], str(ks[j]), 'a refused revocation keeps every key')
            KZ.prove(czar.metadata.GetVersion(j + 1).status == st[j], 'a refused revocation keeps every status')
        return
    KZ.prove(czar.primary_version is prim, 'a revocation keeps the primary version')
    for j in range(n):
        if j + 1 != i:
            KZ.prove(czar.metadata.GetVersion(j + 1).status == st[j], 'a revocation keeps the other statuses')
    w = MemWriter()
    czar.Write(w)
    again = K.GenericKeyczar(MemReader(w.meta, w.versions))
    KZ.same(len(again.versions), n - 1, 'the key set without the revoked key opens again')
'''),
    Ctx('revoked key no longer decrypts', '''
def main():
    a, b = aeskey('1'), aeskey('2')
    KZ.distinct(a.hash_id, b.hash_id)
    first = KZ.flip()
    czar = K.GenericKeyczar(keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey,
                                   [keyinfo.INACTIVE, keyinfo.PRIMARY] if first else [keyinfo.PRIMARY, keyinfo.INACTIVE]))
    gone, left = (a, b) if first else (b, a)
    m = KZ.sym('m', 'str')
    old, new = gone.Encrypt(m), left.Encrypt(m)
    czar.Revoke(1 if first else 2)
    w = MemWriter()
    czar.Write(w)
    z = K.Crypter(MemReader(w.meta, w.versions))
    KZ.same(z.Decrypt(new, None), m, 'other keys keep decrypting')
    try:
        z.Decrypt(old, None)
        KZ.fail('a ciphertext of a revoked key must be refused')
    except errors.KeyNotFoundError:
        KZ.ok('a ciphertext of a revoked key is refused')
'''),
    Ctx('a set opened before is revoked for those who open it again', '''
from keyczar import keyczart
def main():
    a, b = hmackey('1'), hmackey('2')
    KZ.distinct(a.hash_id, b.hash_id)
    r = keyset(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hmackey, [keyinfo.PRIMARY, keyinfo.INACTIVE])
    KZ.putfile('/loc', '')
    KZ.putfile('/loc/meta', r.meta)
    KZ.putfile('/loc/1', r.versions[1])
    KZ.putfile('/loc/2', r.versions[2])
    m = KZ.string('m', 9)
    sig = hdr(b) + b.Sign(m + chr(0))
    KZ.prove(K.Verifier.Read('/loc').Verify(m, sig, None), 'the key verifies before it is revoked')
    keyczart.main(['revoke', '--location=/loc', '--version=2'])
    KZ.prove(KZ.file('/loc/2') is None, 'the key file is gone')
    try:
        K.Verifier.Read('/loc').Verify(m, sig, None)
        KZ.fail('a signature of a revoked key must be refused')
    except errors.KeyNotFoundError:
        KZ.ok('a signature of a revoked key is refused')
    try:
        keyczart.main(['promote', '--location=/loc', '--version=2'])
        KZ.fail('a revoked version cannot be promoted')
    except errors.KeyczarError:
        KZ.prove(KZ.file('/loc/2') is None, 'the key file is gone')
'''),
])
