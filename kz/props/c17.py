from ..check import prop, Ctx

LIB = '''import json
def rsa(tag='1'):
    return keys.GenKey(keyinfo.RSA_PRIV, 4096)
def crypters():
    """an encrypter and the matching decrypter: AES or RSA"""
    if KZ.flip():
        r = keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, [keyinfo.PRIMARY])
        return K.Encrypter(r), K.Crypter(r)
    k = rsa()
    m = metadata(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.RSA_PRIV, [keyinfo.PRIMARY])
    p = metadata(keyinfo.ENCRYPT, keyinfo.RSA_PUB, [keyinfo.PRIMARY])
    return K.Encrypter(MemReader(str(p), {1: str(k.public_key)})), K.Crypter(MemReader(str(m), {1: str(k)}))
def aescrypters(tag=''):
    r = keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, lambda t: aeskey(tag + t), [keyinfo.PRIMARY])
    return K.Encrypter(r), K.Crypter(r)
def signers(tag=''):
    r = keyset(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, lambda t: hmackey('s' + tag + t), [keyinfo.PRIMARY])
    return K.Signer(r), K.Verifier(r)
def draws(at):
    return [r for r in KZ.events('random', since=at) if r[1] == 'urandom']
'''

prop('C17', [
    Ctx('plain session, round trip', LIB + '''
def main():
    e, d = crypters()
    m1, m2 = KZ.string('m1', KZ.choice(0, 5)), KZ.string('m2', 33)
    at = KZ.mark()
    s = K.SessionEncrypter(e)
    mat = s.session_material
    KZ.same(mat, s.session_material, 'session material does not change')
    x1 = s.Encrypt(m1)
    x2 = s.Encrypt(m2)
    try:
        r = K.SessionDecrypter(d, mat)
    except errors.KeyczarError:
        KZ.prove(d.metadata.type == keyinfo.RSA_PRIV, 'a session opens with its own material')
        return
    KZ.reach('RSA protected sessions work' if d.metadata.type == keyinfo.RSA_PRIV else 'aes')
    KZ.same(r.Decrypt(x1), m1, 'what one side encrypts the other recovers')
    KZ.same(r.Decrypt(x2), m2, 'what one side encrypts the other recovers')
    KZ.same(r.Decrypt(x1), m1, 'messages can be decrypted in any order')
    KZ.same(r.Decrypt(s.Encrypt(m1, None), None), m1, 'raw form round trips too')
''', must=('RSA protected sessions work',)),
    Ctx('plain session, any message length', LIB + '''
def main():
    e, d = aescrypters()
    m = KZ.sym('m', 'str')
    s = K.SessionEncrypter(e)
    x = s.Encrypt(m)
    KZ.same(K.SessionDecrypter(d, s.session_material).Decrypt(x), m, 'what one side encrypts the other recovers')
'''),
    Ctx('signed session, any message length', LIB + '''
def main():
    e, d = aescrypters()
    g, v = signers()
    m = KZ.choice(KZ.sym('m', 'str'), KZ.string('l', 300), KZ.string('l', 70001))
    s = K.SignedSessionEncrypter(e, g)
    x = s.Encrypt(m)
    KZ.same(K.SignedSessionDecrypter(d, v, s.session_material).Decrypt(x), m, 'what one side encrypts the other recovers')
'''),
    Ctx('the session key is fresh and never exposed', LIB + '''
def main():
    e, d = aescrypters()
    g, v = signers()
    m = KZ.string('m', 9)
    signed = KZ.flip()
    at = KZ.mark()
    s = K.SignedSessionEncrypter(e, g) if signed else K.SessionEncrypter(e)
    mat = s.session_material
    x = s.Encrypt(m)
    ds = draws(at)
    inner = d.Decrypt(mat)
    secret = [r[2] for r in ds if KZ.mentions(inner, r[2])]
    ln = sorted([len(q) for q in secret])
    KZ.same(ln, [16, 16, 32] if signed else [16, 32], 'session material holds a fresh cipher key and MAC key (and nonce) of full size')
    for q in secret:
        KZ.prove(not KZ.mentions_bare(mat, q), 'session secrets leave only encrypted')
        KZ.prove(not KZ.mentions_bare(x, q), 'session secrets do not leave with the data')
    at = KZ.mark()
    s2 = K.SignedSessionEncrypter(e, g) if signed else K.SessionEncrypter(e)
    inner2 = d.Decrypt(s2.session_material)
    for q in secret:
        KZ.prove(not KZ.mentions(inner2, q), 'every session has its own key')
    for q in secret:
        KZ.prove(not KZ.mentions_bare(s2.Encrypt(m), q), 'every session has its own key')
'''),
    Ctx('signed session, round trip', LIB + '''
def main():
    e, d = crypters()
    g, v = signers()
    m1, m2 = KZ.string('m1', KZ.choice(0, 5)), KZ.string('m2', 33)
    try:
        s = K.SignedSessionEncrypter(e, g)
        x1, x2 = s.Encrypt(m1), s.Encrypt(m2)
        r = K.SignedSessionDecrypter(d, v, s.session_material)
    except errors.KeyczarError:
        KZ.prove(d.metadata.type == keyinfo.RSA_PRIV, 'a session opens with its own material')
        return
    KZ.reach('RSA protected signed sessions work' if d.metadata.type == keyinfo.RSA_PRIV else 'aes')
    KZ.same(r.Decrypt(x1), m1, 'what one side encrypts the other recovers')
    KZ.same(r.Decrypt(x2), m2, 'what one side encrypts the other recovers')
''', must=('RSA protected signed sessions work',)),
    Ctx('signed session refuses anything unsigned', LIB + '''
def main():
    e, d = aescrypters()
    g, v = signers()
    m = KZ.string('m', 9)
    s = K.SignedSessionEncrypter(e, g)
    s.Encrypt(m)
    r = K.SignedSessionDecrypter(d, v, s.session_material)
    w = KZ.choice('arbitrary', 'other session', 'other signer', 'unsigned', 'no nonce', 'tag')
    try:
        if w == 'arbitrary':
            n = KZ.choice(0, 4, 9, 700)
            h = KZ.string('hdr', 5)
            body = KZ.string('body', n)
            tag = KZ.string('tag', 20)
            nonce = [q[2] for q in draws(0) if len(q[2]) == 16 and KZ.mentions(d.Decrypt(s.session_material), q[2])]
            key = g.primary_key.key_bytes
            for q in nonce:
                KZ.assume(tag != KZ.hmac(key, body + util.PackByteArray(q) + chr(0)))
            at = KZ.mark()
            out = r.Decrypt(util.Base64WSEncode(h + util.PackByteArray(body) + tag))
            KZ.same(len(KZ.events('decrypt', since=at)), 0, 'nothing is decrypted before the signature was verified')
        elif w == 'tag':
            x = KZ.unb64(s.Encrypt(KZ.choice(m, KZ.string('long', 700))))
            tag = KZ.string('tag', 20)
            KZ.assume(tag != x[-20:])
            out = r.Decrypt(util.Base64WSEncode(x[:-20] + tag))
        elif w == 'other session':
            at = KZ.mark()
            out = r.Decrypt(K.SignedSessionEncrypter(e, g).Encrypt(m))
        elif w == 'other signer':
            g2, v2 = signers('x')
            KZ.distinct(g.primary_key.hash_id, g2.primary_key.hash_id)
            s2 = K.SignedSessionEncrypter(e, g2)
            out = K.SignedSessionDecrypter(d, v, s2.session_material).Decrypt(s2.Encrypt(m))
        elif w == 'unsigned':
            p = K.SessionEncrypter(e)
            out = r.Decrypt(p.Encrypt(KZ.choice(m, KZ.string('long', 700))))
        else:
            c = K.Crypter(keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, lambda t: aeskey('z' + t), [keyinfo.PRIMARY]))
            out = r.Decrypt(g.AttachedSign(c.Encrypt(m, None), KZ.choice(None, '', 'guess')))
        KZ.prove(out is None, 'a message not signed for this session releases nothing')
    except errors.KeyczarError:
        KZ.ok('refused')
''', flags={'freshkeys': True}),
    Ctx('signed messages are bound to the nonce of their session', LIB + '''
def main():
    e, d = aescrypters()
    g, v = signers()
    m = KZ.string('m', 9)
    s = K.SignedSessionEncrypter(e, g)
    x = s.Encrypt(m)
    nonce = KZ.unb64(json.loads(d.Decrypt(s.session_material))['nonce'])
    KZ.prove(len(nonce) > 0, 'a session has a nonce')
    inner = v.AttachedVerify(x, nonce)
    KZ.prove(inner is not None, 'messages of a session are signed with its nonce')
    if inner is None:
        return
    r = K.SignedSessionDecrypter(d, v, s.session_material)
    KZ.same(r.Decrypt(x), m, 'what one side encrypts the other recovers')
    other = KZ.choice(None, '', KZ.string('n', 16), nonce[:8])
    if other is not None and len(other) == 16:
        KZ.assume(other != nonce)
    KZ.prove(v.AttachedVerify(x, other) is None, 'a message of the session does not verify with another nonce')
    try:
        out = r.Decrypt(g.AttachedSign(inner, other))
        KZ.prove(out is None, 'a ciphertext signed with another nonce releases nothing')
    except errors.KeyczarError:
        KZ.ok('refused')
''', flags={'freshkeys': True}),
    Ctx('plain session refuses altered ciphertexts and material', LIB + '''
def main():
    e, d = aescrypters()
    m = KZ.string('m', 9)
    s = K.SessionEncrypter(e)
    w = KZ.choice('arbitrary', 'material', 'foreign material', 'other session')
    try:
        if w == 'arbitrary':
            r = K.SessionDecrypter(d, s.session_material)
            h = KZ.string('hdr', 5)
            iv, c, t = KZ.string('iv', 16), KZ.string('c', 16), KZ.string('t', 20)
            mk = [q[2] for q in draws(0) if len(q[2]) == 32 and KZ.mentions(d.Decrypt(s.session_material), q[2])]
            for q in mk:
                KZ.assume(t != KZ.hmac(q, h + iv + c))
            r.Decrypt(h + iv + c + t, None)
        elif w == 'material':
            x = KZ.string('x', KZ.choice(0, 4, 30, 77))
            h = d.primary_key.Header()
            if len(x) > 41:
                KZ.assume(x[-20:] != KZ.hmac(d.primary_key.hmac_key.key_bytes, x[:-20]))
            K.SessionDecrypter(d, util.Base64WSEncode(x))
        elif w == 'foreign material':
            e2, d2 = aescrypters('other')
            KZ.distinct(e2.primary_key.hash_id, d.primary_key.hash_id)
            K.SessionDecrypter(d, K.SessionEncrypter(e2).session_material)
        else:
            K.SessionDecrypter(d, s.session_material).Decrypt(K.SessionEncrypter(e).Encrypt(m))
        KZ.fail('altered or foreign input is refused')
    except errors.KeyczarError:
        KZ.ok('refused')
''', flags={'freshkeys': True}),
    Ctx('material that is no packed session key', LIB + """
import struct
def main():
    k = rsa()
    p = metadata(keyinfo.ENCRYPT, keyinfo.RSA_PUB, [keyinfo.PRIMARY])
    m = metadata(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.RSA_PRIV, [keyinfo.PRIMARY])
    e = K.Encrypter(MemReader(str(p), {1: str(k.public_key)}))
    d = K.Crypter(MemReader(str(m), {1: str(k)}))
    n = KZ.choice(-1, -3, -4, -5, -24, -2147483648, 0, 1, 3, 17, 2147483647)
    second = KZ.choice(None, 0, 16, -20, -24)
    body = chr(0) * 3 + chr(2) + struct.pack('>i', n) + KZ.string('a', 16)
    if second is not None:
        body = chr(0) * 3 + chr(2) + struct.pack('>i', 16) + KZ.string('a', 16) + struct.pack('>i', n) + KZ.string('b', second if second > 0 else 0)
    mat = e.Encrypt(body)
    try:
        r = K.SessionDecrypter(d, mat)
        r.Decrypt(util.Base64WSEncode(KZ.string('x', KZ.choice(4, 61))))
        KZ.fail('material that is no packed session key is refused')
    except Exception:
        KZ.ok('refused')
""", flags={'ends': 'refusing malformed material comes to an end'}),
    Ctx('material of another kind of session, or with another number of parts', LIB + """
def main():
    e, d = aescrypters()
    g, v = signers()
    m = KZ.string('m', 9)
    w = KZ.choice('plain for signed', 'signed for plain', 'parts')
    try:
        if w == 'plain for signed':
            p = K.SessionEncrypter(e)
            r = K.SignedSessionDecrypter(d, v, p.session_material)
            x = p.Encrypt(m, None)
            out = r.Decrypt(g.AttachedSign(x, KZ.choice(None, '')))
        elif w == 'signed for plain':
            s = K.SignedSessionEncrypter(e, g)
            r = K.SessionDecrypter(d, s.session_material)
            out = r.Decrypt(v.AttachedVerify(s.Encrypt(m), KZ.unb64(json.loads(d.Decrypt(s.session_material))['nonce'])), None)
        else:
            parts = [KZ.string('p%d' % i, 32 if i == 1 else 16) for i in range(KZ.choice(0, 1, 3, 4))]
            out = m
            if len(parts) < 2:
                r = K.SessionDecrypter(d, e.Encrypt(util.PackMultipleByteArrays(*parts)))
            else:
                k = keys.AesKey(util.Base64WSEncode(parts[0]), keys.HmacKey(util.Base64WSEncode(parts[1]), 256), 128)
                x = k.Encrypt(m)
                r = K.SessionDecrypter(d, e.Encrypt(util.PackMultipleByteArrays(*parts)))
                out = r.Decrypt(x, None)
        KZ.prove(out is None, 'material that is not of this kind of session releases nothing')
    except Exception:
        KZ.ok('refused')
""", flags={'freshkeys': True}),
    Ctx('two sessions side by side', LIB + '''
def main():
    e, d = aescrypters()
    g, v = signers()
    signed = KZ.flip()
    if signed:
        s, t = K.SignedSessionEncrypter(e, g), K.SignedSessionEncrypter(e, g)
        opener = lambda mat: K.SignedSessionDecrypter(d, v, mat)
    else:
        s, t = K.SessionEncrypter(e), K.SessionEncrypter(e)
        opener = lambda mat: K.SessionDecrypter(d, mat)
    m = KZ.string('m', 9)
    n = KZ.string('n', 9)
    x, y = s.Encrypt(m), t.Encrypt(n)
    r, q = opener(s.session_material), opener(t.session_material)
    KZ.same(r.Decrypt(x), m, 'what one side encrypts the other recovers')
    KZ.same(q.Decrypt(y), n, 'what one side encrypts the other recovers')
    for a, b in ((r, y), (q, x)):
        try:
            out = a.Decrypt(b)
            KZ.prove(signed and out is None, 'a message of another session releases nothing')
        except errors.KeyczarError:
            KZ.ok('refused')
    KZ.same(r.Decrypt(x), m, 'what one side encrypts the other recovers')
''', flags={'freshkeys': True}),
])
