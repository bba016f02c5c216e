from ..check import prop, Ctx

prop('C05', [
    Ctx('encrypting with any key set', '''
def main():
    n = KZ.choice(0, 1, 2, 3)
    st = anystatuses(n)
    ks = [aeskey(str(i + 1)) for i in range(n)]
    KZ.distinct(*[k.hash_id for k in ks])
    r = keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, st)
    cls = KZ.choice(K.Encrypter, K.Crypter)
    c = cls(r)
    m = KZ.sym('m', 'str')
    how = KZ.choice('plain', 'encoded', 'stream')
    class S(object):
        def __init__(self):
            self.out = ''
        def write(self, x):
            self.out += x
        def flush(self):
            pass
    s = S()
    try:
        if how == 'plain':
            out = c.Encrypt(m, None)
        elif how == 'encoded':
            out = KZ.unb64(c.Encrypt(m))
        else:
            w = c.CreateEncryptingStreamWriter(s, None)
            out = s.out
    except errors.NoPrimaryKeyError:
        KZ.prove(keyinfo.PRIMARY not in st, 'no-primary error only without a primary key')
        KZ.same(s.out, '', 'nothing is produced without a primary key')
        return
    KZ.prove(keyinfo.PRIMARY in st, 'without a primary key encryption is refused')
    if keyinfo.PRIMARY in st:
        k = ks[st.index(keyinfo.PRIMARY)]
        KZ.same(out[:5], hdr(k), 'output carries the header of the primary key')
        if how != 'stream':
            KZ.same(k.Decrypt(out), m, 'output is encrypted under the primary key')
        else:
            w.write('abc')
            w.flush()
            KZ.same(k.Decrypt(s.out), 'abc', 'stream is encrypted under the primary key')
'''),
    Ctx('signing with any key set', '''
def main():
    n = KZ.choice(0, 1, 2, 3)
    st = anystatuses(n)
    ks = [hmackey(str(i + 1)) for i in range(n)]
    KZ.distinct(*[k.hash_id for k in ks])
    r = keyset(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hmackey, st)
    m = KZ.sym('m', 'str')
    how = KZ.choice('sign', 'attached', 'unversioned')
    signer = K.UnversionedSigner(r) if how == 'unversioned' else K.Signer(r)
    try:
        if how == 'sign':
            out = signer.Sign(m, None)
        elif how == 'attached':
            out = signer.AttachedSign(m, 'nonce', None)
        else:
            out = signer.Sign(m, None)
    except errors.NoPrimaryKeyError:
        KZ.prove(keyinfo.PRIMARY not in st, 'no-primary error only without a primary key')
        return
    KZ.prove(keyinfo.PRIMARY in st, 'without a primary key signing is refused')
    if keyinfo.PRIMARY in st:
        i = st.index(keyinfo.PRIMARY) + 1
        KZ.prove(KZ.mentions(out[-20:], KZ.string('hmac_%d' % i, 32)), 'signed by the primary key')
        for j in range(n):
            if j + 1 != i:
                KZ.prove(not KZ.mentions(out, KZ.string('hmac_%d' % (j + 1), 32)), 'no other key contributes')
        if how != 'unversioned':
            KZ.same(out[:5], hdr(ks[i - 1]), 'signature carries the header of the primary key')
'''),
    Ctx('asymmetric key sets', '''
def main():
    t = KZ.choice(keyinfo.RSA_PRIV, keyinfo.DSA_PRIV)
    p = KZ.choice(keyinfo.SIGN_AND_VERIFY, keyinfo.DECRYPT_AND_ENCRYPT) if t == keyinfo.RSA_PRIV else keyinfo.SIGN_AND_VERIFY
    ks = [keys.GenKey(t), keys.GenKey(t)]
    KZ.distinct(*[k.hash_id for k in ks])
    st = anystatuses(2)
    m = metadata(p, t, st)
    r = MemReader(str(m), {1: str(ks[0]), 2: str(ks[1])})
    msg = KZ.string('m', 10)
    try:
        if p == keyinfo.SIGN_AND_VERIFY:
            out = K.Signer(r).Sign(msg, None)
        else:
            out = K.Crypter(r).Encrypt(msg, None)
    except errors.NoPrimaryKeyError:
        KZ.prove(keyinfo.PRIMARY not in st, 'no-primary error only without a primary key')
        return
    KZ.prove(keyinfo.PRIMARY in st, 'without a primary key the operation is refused')
    if keyinfo.PRIMARY in st:
        KZ.same(out[:5], hdr(ks[st.index(keyinfo.PRIMARY)]), 'output carries the header of the primary key')
'''),
    Ctx('two primaries', '''
def main():
    r = keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, KZ.choice(
        (keyinfo.PRIMARY, keyinfo.PRIMARY), (keyinfo.PRIMARY, keyinfo.ACTIVE, keyinfo.PRIMARY)))
    cls = KZ.choice(K.Encrypter, K.Crypter, K.GenericKeyczar)
    try:
        cls(r)
        KZ.fail('a key set claiming two primary keys must be refused')
    except errors.KeyczarError:
        KZ.ok('a key set claiming two primary keys is refused')
'''),
    Ctx('many keys', '''
def big(mk, n, primary):
    ks = [mk(str(i + 1)) for i in range(n)]
    KZ.distinct(*[k.hash_id for k in ks])
    st = []
    for i in range(n):
        st.append(keyinfo.PRIMARY if i == primary else (keyinfo.ACTIVE, keyinfo.INACTIVE)[i % 2])
    return ks, st
def main():
    n = 12
    aes = KZ.flip()
    p = KZ.choice(0, 5, 11)
    ks, st = big(aeskey if aes else hmackey, n, p)
    m = KZ.string('m', 5)
    if aes:
        r = keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, st)
        out = KZ.choice(K.Encrypter, K.Crypter)(r).Encrypt(m, None)
        KZ.same(out[-20:], KZ.hmac(KZ.string('hmac_%d' % (p + 1), 32), out[:-20]), 'the primary key of a large set encrypts')
    else:
        r = keyset(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hmackey, st)
        out = K.Signer(r).Sign(m, None)
        KZ.same(out[5:], KZ.hmac(KZ.string('hmac_%d' % (p + 1), 32), m + chr(0)), 'the primary key of a large set signs')
        KZ.same(K.UnversionedSigner(r).Sign(m, None), KZ.hmac(KZ.string('hmac_%d' % (p + 1), 32), m), 'the primary key of a large set signs')
    KZ.same(out[:5], hdr(ks[p]), 'the header is that of the primary key')
'''),
    Ctx('one key set after another', '''
def main():
    aes = KZ.flip()
    mk = aeskey if aes else hmackey
    p = keyinfo.DECRYPT_AND_ENCRYPT if aes else keyinfo.SIGN_AND_VERIFY
    t = keyinfo.AES if aes else keyinfo.HMAC_SHA1
    ks = [mk('1'), mk('2'), mk('z1'), mk('z2')]
    KZ.distinct(*[k.hash_id for k in ks])
    a = keyset(p, t, mk, [keyinfo.PRIMARY, keyinfo.ACTIVE])
    same = KZ.flip()
    b = keyset(p, t, (mk if same else lambda x: mk('z' + x)), [keyinfo.ACTIVE, keyinfo.PRIMARY])
    want = ks[1] if same else ks[3]
    m = KZ.string('m', 11)
    cls = (K.Crypter if KZ.flip() else K.Encrypter) if aes else K.Signer
    x, y = cls(a), cls(b)
    for z, k in ((x, ks[0]), (y, want), (x, ks[0])):
        if aes:
            o = z.Encrypt(m, None)
            KZ.same(o[:5], hdr(k), 'output carries the header of the primary key')
            KZ.same(k.Decrypt(o), m, 'output is encrypted under the primary key')
        else:
            o = z.Sign(m, None)
            KZ.same(o[:5], hdr(k), 'output carries the header of the primary key')
            KZ.same(o[5:], k.Sign(m + chr(0)), 'output is signed with the primary key')
'''),
    Ctx('after a change of primary on disk', '''
def main():
    ks = [aeskey('1'), aeskey('2')]
    KZ.distinct(*[k.hash_id for k in ks])
    r = keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, [keyinfo.PRIMARY, keyinfo.ACTIVE])
    KZ.putfile('/loc', '')
    KZ.putfile('/loc/meta', r.meta)
    KZ.putfile('/loc/1', r.versions[1])
    KZ.putfile('/loc/2', r.versions[2])
    m = KZ.string('m', 11)
    KZ.same(K.Crypter.Read('/loc').Encrypt(m, None)[:5], hdr(ks[0]), 'output carries the header of the primary key')
    czar = K.GenericKeyczar.Read('/loc')
    op = KZ.choice('promote', 'demote')
    if op == 'promote':
        czar.Promote(2)
    else:
        czar.Demote(1)
    czar.Write(writers.CreateWriter('/loc'))
    z = K.Crypter.Read('/loc')
    try:
        o = z.Encrypt(m, None)
    except errors.NoPrimaryKeyError:
        KZ.prove(op == 'demote', 'no-primary error only without a primary key')
        return
    KZ.prove(op == 'promote', 'without a primary key encryption is refused')
    KZ.same(o[:5], hdr(ks[1]), 'output carries the header of the primary key')
'''),
])
