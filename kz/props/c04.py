from ..check import prop, Ctx

HELP = '''
def strong(since=0):
    """every random draw comes from the operating system, in full length"""
    for r in KZ.events('random', since=since):
        kind = r[1]
        KZ.prove(kind[:5] != 'weak:', 'random values come from the operating system CSPRNG only')
        if kind[:9] == 'generate:':
            f = r[4]
            m = KZ.mark()
            x = f(24)
            KZ.prove(KZ.op(x) == 'urandom' and len(x) == 24, 'asymmetric key generation draws from the OS CSPRNG')
def fresh(x, since, n, what):
    """x is, in full, one n-byte OS-random string drawn after the given point"""
    KZ.same(len(x), n, what + ': full size')
    hit = [i for i in range(len(draws('urandom', since))) if KZ.decided(x == draws('urandom', since)[i][2])]
    KZ.prove(len(hit) == 1, what + ': a value drawn from the OS CSPRNG for this very use')
    return hit[0] if hit else -1
def draws(kind, since=0):
    return [r for r in KZ.events('random', since=since) if r[1] == kind]
'''

prop('C04', [
    Ctx('key generation', HELP + '''
def main():
    t = KZ.choice(keyinfo.AES, keyinfo.HMAC_SHA1, keyinfo.RSA_PRIV, keyinfo.DSA_PRIV)
    size = KZ.choice(tuple(t.sizes))
    k = keys.GenKey(t, size)
    strong()
    if t == keyinfo.AES:
        d = draws('urandom')
        KZ.prove(KZ.op(k.key_bytes) == 'urandom', 'key material is one OS-random string')
        KZ.prove(KZ.op(k.hmac_key.key_bytes) == 'urandom', 'MAC key material is one OS-random string')
        KZ.same(len(k.key_bytes) * 8, size, 'key material has the full key size')
        KZ.same(len(k.hmac_key.key_bytes), 32, 'MAC key material has the full key size')
        KZ.prove(KZ.show(k.key_bytes) != KZ.show(k.hmac_key.key_bytes), 'cipher key and MAC key are drawn independently')
    elif t == keyinfo.HMAC_SHA1:
        KZ.prove(KZ.op(k.key_bytes) == 'urandom', 'key material is one OS-random string')
        KZ.same(len(k.key_bytes) * 8, size, 'key material has the full key size')
    else:
        n = 0
        for r in KZ.events('random'):
            if r[1][:9] == 'generate:':
                n += 1
                KZ.same(r[3], size, 'generated with the requested size')
        KZ.same(n, 1, 'one generated key pair')
    k2 = keys.GenKey(t, size)
    KZ.prove(KZ.show(str(k)) != KZ.show(str(k2)), 'every generated key is drawn afresh')
'''),
    Ctx('per-message randomness', HELP + '''
def main():
    m = KZ.sym('m', 'str')
    w = KZ.choice('aes', 'dsa', 'rsa', 'stream')
    if w == 'aes':
        k = aeskey('1')
        at = KZ.mark()
        i = fresh(k.Encrypt(m)[5:21], at, 16, 'IV')
        at = KZ.mark()
        j = fresh(k.Encrypt(m)[5:21], at, 16, 'IV of the next message')
        at = KZ.mark()
        fresh(aeskey('1').Encrypt(m)[5:21], at, 16, 'IV with an equal key')
        at = KZ.mark()
        fresh(aeskey('2').Encrypt(m)[5:21], at, 16, 'IV with another key')
    elif w == 'stream':
        k = aeskey('1')
        crypter = K.Crypter(keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, [keyinfo.PRIMARY]))
        class S(object):
            def __init__(self):
                self.out = ''
            def write(self, x):
                self.out += x
            def flush(self):
                pass
        at = KZ.mark()
        s = S()
        crypter.CreateEncryptingStreamWriter(s, None)
        fresh(s.out[5:], at, 16, 'IV of a stream')
        s = S()
        at = KZ.mark()
        crypter.CreateEncryptingStreamWriter(s, None)
        fresh(s.out[5:], at, 16, 'IV of the next stream')
        at = KZ.mark()
        fresh(crypter.Encrypt(m, None)[5:21], at, 16, 'IV of a message')
    elif w == 'dsa':
        k = keys.GenKey(keyinfo.DSA_PRIV)
        at = KZ.mark()
        k.Sign(m)
        k.Sign(m)
        d = draws('sysrandint', at)
        KZ.same(len(d), 2, 'a fresh per-signature secret')
        e = KZ.events('ck.sign', since=at)
        KZ.same(len(e), 2, 'one raw signature each')
        KZ.same(e[0][3], d[0][2], 'the per-signature secret is the OS-random value')
        KZ.same(e[1][3], d[1][2], 'the per-signature secret is the OS-random value')
        KZ.prove(d[0][3] >= 1 and d[0][3] <= 2, 'per-signature secret drawn from the whole range')
        KZ.same(d[0][4], k.key.q - 1, 'per-signature secret drawn from the whole range')
    else:
        k = keys.GenKey(keyinfo.RSA_PRIV)
        for x in (k, k.public_key, k):
            at = KZ.mark()
            try:
                c = x.Encrypt(m)
            except errors.KeyczarError:
                return
            d = [r for r in draws('urandom', at) if KZ.mentions(c, r[2]) and len(r[2]) == 20]
            KZ.prove(len(d) >= 1, 'a fresh OAEP seed of full hash size per message')
    strong()
'''),
    Ctx('session material', HELP + '''
def main():
    crypter = K.Crypter(keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, [keyinfo.PRIMARY]))
    signer = K.Signer(keyset(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hmackey, [keyinfo.PRIMARY]))
    at = KZ.mark()
    if KZ.flip():
        s = K.SessionEncrypter(crypter)
        d = draws('urandom', at)
        material = util.UnpackMultipleByteArrays(crypter.Decrypt(s.session_material))
        KZ.prove(KZ.op(material[0]) == 'urandom' and KZ.op(material[1]) == 'urandom', 'session key and session MAC key are OS-random strings')
        KZ.same(len(material[0]), 16, 'session key of full size')
        KZ.same(len(material[1]), 32, 'session MAC key of full size')
        KZ.prove(KZ.show(material[0]) != KZ.show(material[1]), 'drawn independently')
    else:
        s = K.SignedSessionEncrypter(crypter, signer)
        d = draws('urandom', at)
        import json
        j = json.loads(crypter.Decrypt(s.session_material))
        nonce = KZ.unb64(j['nonce'])
        KZ.prove(KZ.op(nonce) == 'urandom' and len(nonce) == 16, 'session nonce is a full-size OS-random string')
        a, b = KZ.unb64(j['key']['aesKeyString']), KZ.unb64(j['key']['hmacKey']['hmacKeyString'])
        KZ.prove(KZ.op(a) == 'urandom' and KZ.op(b) == 'urandom', 'session key and session MAC key are OS-random strings')
        KZ.same(len(a), 16, 'session key of full size')
        KZ.same(len(b), 32, 'session MAC key of full size')
        KZ.prove(KZ.show(a) != KZ.show(b) and KZ.show(a) != KZ.show(nonce), 'drawn independently')
    strong(at)
'''),
    Ctx('adding a key version', HELP + '''
def main():
    t = KZ.choice(keyinfo.AES, keyinfo.HMAC_SHA1, keyinfo.RSA_PRIV, keyinfo.DSA_PRIV)
    p = keyinfo.DECRYPT_AND_ENCRYPT if t == keyinfo.AES else keyinfo.SIGN_AND_VERIFY
    czar = K.GenericKeyczar(MemReader(str(metadata(p, t, [])), {}))
    czar.AddVersion(keyinfo.PRIMARY)
    KZ.prove(len(KZ.events('random')) > 0, 'a new version draws new key material')
    strong()
'''),
    Ctx('two sessions', HELP + '''
def main():
    import json
    crypter = K.Crypter(keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, [keyinfo.PRIMARY]))
    signer = K.Signer(keyset(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hmackey, [keyinfo.PRIMARY]))
    signed = KZ.flip()
    first = KZ.choice('plain', 'signed')
    s = K.SessionEncrypter(crypter) if first == 'plain' else K.SignedSessionEncrypter(crypter, signer)
    s.Encrypt(KZ.string('m', 5))
    at = KZ.mark()
    if signed:
        s = K.SignedSessionEncrypter(crypter, signer)
        j = json.loads(crypter.Decrypt(s.session_material))
        parts = [KZ.unb64(j['nonce']), KZ.unb64(j['key']['aesKeyString']), KZ.unb64(j['key']['hmacKey']['hmacKeyString'])]
        sizes = [16, 16, 32]
    else:
        s = K.SessionEncrypter(crypter)
        parts = util.UnpackMultipleByteArrays(crypter.Decrypt(s.session_material))
        sizes = [16, 32]
    used = [fresh(parts[i], at, sizes[i], 'secret of the next session') for i in range(len(parts))]
    KZ.same(len(set(used)), len(used), 'drawn independently')
    at = KZ.mark()
    if not signed:
        fresh(s.Encrypt(KZ.string('m', 5), None)[5:21], at, 16, 'IV of a session message')
        at = KZ.mark()
        fresh(s.Encrypt(KZ.string('m', 5), None)[5:21], at, 16, 'IV of the next session message')
    strong()
''', flags={'freshkeys': True}),
    Ctx('adding key versions one after another', HELP + '''
def main():
    t = KZ.choice(keyinfo.AES, keyinfo.HMAC_SHA1)
    p = keyinfo.DECRYPT_AND_ENCRYPT if t == keyinfo.AES else keyinfo.SIGN_AND_VERIFY
    czar = K.GenericKeyczar(MemReader(str(metadata(p, t, [])), {}))
    for i in (1, 2, 3):
        at = KZ.mark()
        czar.AddVersion(KZ.choice(keyinfo.PRIMARY, keyinfo.ACTIVE))
        k = czar.GetKey(czar.metadata.GetVersion(i))
        a = fresh(k.key_bytes, at, len(k.key_bytes), 'key of a new version')
        if t == keyinfo.AES:
            b = fresh(k.hmac_key.key_bytes, at, 32, 'MAC key of a new version')
            KZ.prove(a != b, 'cipher key and MAC key are drawn independently')
    strong()
''', flags={'freshkeys': True}),
])
