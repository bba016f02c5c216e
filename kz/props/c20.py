from ..check import prop, Ctx

LIB = '''
import struct, json
def pre(x):
    return struct.pack('>i', len(x)) + x
def ident(s):
    return KZ.sha1(s)[:4]
def positive(name, n):
    """an n octet number without leading zero octets"""
    b = KZ.sym(name + '_first', 'byte')
    KZ.assume(b > 0)
    return chr(b) + KZ.string(name + '_rest', n - 1)
def zeros():
    return chr(0) * KZ.choice(0, 1, 3)
def both(k, want, what):
    KZ.same(util.Base64WSDecode(k.hash_id), want, what + ': the identifier is the documented hash')
    KZ.same(k.Header(), chr(0) + want, what + ': outputs start with a zero version octet and the identifier')
'''

prop('C20', [
    Ctx('HMAC', LIB + '''
def main():
    n = KZ.choice(32, 20, 64, 1)
    b = KZ.string('k', n)
    k = keys.HmacKey(KZ.b64(b), 256)
    both(k, ident(b), 'HMAC')
    both(keys.ReadKey(keyinfo.HMAC_SHA1, str(k)), ident(b), 'HMAC read back')
    r = keys.ReadKey(keyinfo.HMAC_SHA1, json.dumps({'size': 256, 'hmacKeyString': KZ.b64(b)}))
    both(r, ident(b), 'HMAC from text')
'''),
    Ctx('AES', LIB + '''
def main():
    n = KZ.choice(16, 24, 32)
    a, h = KZ.string('a', n), KZ.string('h', KZ.choice(32, 20, 64, 33))
    stated = KZ.choice(n * 8, 128, 256)  # what counts is the key, not the size field
    k = keys.AesKey(KZ.b64(a), keys.HmacKey(KZ.b64(h), 256), stated)
    want = ident(pre(a) + h)
    both(k, want, 'AES')
    both(keys.ReadKey(keyinfo.AES, str(k)), want, 'AES read back')
    r = keys.ReadKey(keyinfo.AES, json.dumps({'mode': 'CBC', 'size': stated, 'aesKeyString': KZ.b64(a), 'hmacKey': {'size': 256, 'hmacKeyString': KZ.b64(h)}}))
    both(r, want, 'AES from text')
'''),
    Ctx('generated keys', LIB + '''
def main():
    t = KZ.choice(keyinfo.HMAC_SHA1, keyinfo.AES, keyinfo.RSA_PRIV, keyinfo.DSA_PRIV)
    k = keys.GenKey(t)
    if t == keyinfo.HMAC_SHA1:
        want = ident(k.key_bytes)
    elif t == keyinfo.AES:
        want = ident(pre(k.key_bytes) + k.hmac_key.key_bytes)
    else:
        want = util.Base64WSDecode(k.public_key.hash_id)
        KZ.same(k.hash_id, k.public_key.hash_id, 'a private key has the identifier of its public half')
        r = keys.ReadKey(t, str(k))
        KZ.same(r.public_key.hash_id, k.public_key.hash_id, 'reading back keeps the identifier of the public half')
        KZ.same(r.hash_id, k.hash_id, 'reading back keeps the identifier')
        p = keys.ReadKey(keyinfo.RSA_PUB if t == keyinfo.RSA_PRIV else keyinfo.DSA_PUB, str(k.public_key))
        KZ.same(p.hash_id, k.hash_id, 'the exported public key has the same identifier')
        KZ.same(p.Header(), k.Header(), 'and the same header')
        KZ.same(len(k.Header()), 5, 'headers have five octets')
        return
    both(k, want, 'generated')
    both(keys.ReadKey(t, str(k)), want, 'generated, read back')
    KZ.same(len(k.Header()), 5, 'headers have five octets')
''', {'freshkeys': True}),
    Ctx('RSA', LIB + '''
def main():
    m, e = positive('m', 512), positive('e', 3)
    z, y = zeros(), zeros()
    want = ident(pre(m) + pre(e))
    pub = {'modulus': KZ.b64(z + m), 'publicExponent': KZ.b64(y + e), 'size': 4096}
    p = keys.ReadKey(keyinfo.RSA_PUB, json.dumps(pub))
    both(p, want, 'RSA public')
    both(keys.ReadKey(keyinfo.RSA_PUB, str(p)), want, 'RSA public read back')
    priv = {'publicKey': pub, 'size': 4096, 'privateExponent': KZ.b64(positive('d', 512)),
            'primeP': KZ.b64(positive('p', 256)), 'primeQ': KZ.b64(positive('q', 256)),
            'primeExponentP': KZ.b64(positive('dp', 256)), 'primeExponentQ': KZ.b64(positive('dq', 256)),
            'crtCoefficient': KZ.b64(positive('u', 256))}
    k = keys.ReadKey(keyinfo.RSA_PRIV, json.dumps(priv))
    both(k, want, 'RSA private')
    both(k.public_key, want, 'RSA public half')
    both(keys.ReadKey(keyinfo.RSA_PRIV, str(k)), want, 'RSA private read back')
'''),
    Ctx('DSA', LIB + '''
def main():
    p, q, g, y = positive('p', 128), positive('q', 20), positive('g', 128), positive('y', 128)
    want = ident(pre(p) + pre(q) + pre(g) + pre(y))
    pub = {'p': KZ.b64(zeros() + p), 'q': KZ.b64(zeros() + q), 'g': KZ.b64(chr(0) + g), 'y': KZ.b64(zeros() + y), 'size': 1024}
    k = keys.ReadKey(keyinfo.DSA_PUB, json.dumps(pub))
    both(k, want, 'DSA public')
    both(keys.ReadKey(keyinfo.DSA_PUB, str(k)), want, 'DSA public read back')
    priv = {'publicKey': pub, 'size': 1024, 'x': KZ.b64(positive('x', 20))}
    k = keys.ReadKey(keyinfo.DSA_PRIV, json.dumps(priv))
    both(k, want, 'DSA private')
    both(k.public_key, want, 'DSA public half')
    both(keys.ReadKey(keyinfo.DSA_PRIV, str(k)), want, 'DSA private read back')
'''),
    Ctx('any octets in a public key', LIB + '''
def main():
    m = chr(KZ.sym('m0', 'byte')) + chr(KZ.sym('m1', 'byte')) + KZ.string('m', 126)
    pub = {'modulus': KZ.b64(m), 'publicExponent': KZ.b64(positive('e', 3)), 'size': 1024}
    k = keys.ReadKey(keyinfo.RSA_PUB, json.dumps(pub))
    t = m.lstrip(chr(0))
    KZ.assume(t != '')
    both(k, ident(pre(t) + pre(positive('e', 3))), 'RSA')
'''),
    Ctx('header of every kind of output', LIB + '''
def main():
    m = KZ.string('m', KZ.choice(0, 7))
    how = KZ.choice('aes', 'rsa', 'hmac', 'dsa', 'rsasign')
    if how == 'aes':
        k = aeskey('1')
        t, p = keyinfo.AES, keyinfo.DECRYPT_AND_ENCRYPT
    elif how == 'hmac':
        k = hmackey('1')
        t, p = keyinfo.HMAC_SHA1, keyinfo.SIGN_AND_VERIFY
    elif how == 'dsa':
        k = keys.GenKey(keyinfo.DSA_PRIV)
        t, p = keyinfo.DSA_PRIV, keyinfo.SIGN_AND_VERIFY
    else:
        k = keys.GenKey(keyinfo.RSA_PRIV)
        t, p = keyinfo.RSA_PRIV, (keyinfo.DECRYPT_AND_ENCRYPT if how == 'rsa' else keyinfo.SIGN_AND_VERIFY)
    r = MemReader(str(metadata(p, t, [keyinfo.PRIMARY])), {1: str(k)})
    want = chr(0) + util.Base64WSDecode(k.hash_id)
    if p == keyinfo.DECRYPT_AND_ENCRYPT:
        outs = [K.Crypter(r).Encrypt(m, None), K.Encrypter(r).Encrypt(m, None)]
    else:
        s = K.Signer(r)
        outs = [s.Sign(m, None), s.AttachedSign(m, KZ.string('nonce', 4), None)]
        u = K.UnversionedSigner(r)
        KZ.prove(len(u.Sign(m, None)) < len(outs[0]) or t == keyinfo.DSA_PRIV, 'unversioned signatures carry no header')
    for o in outs:
        KZ.same(o[:5], want, 'outputs start with a zero version octet and the identifier of the primary key')
''', {'freshkeys': True}),
    Ctx('one key after another', LIB + '''
def main():
    mk = KZ.choice(hmackey, aeskey)
    a, b = mk('1'), mk('2')
    first = a.hash_id, a.Header()
    if mk is hmackey:
        both(b, ident(KZ.string('hmac_2', 32)), 'HMAC')
    else:
        both(b, ident(pre(KZ.string('aes_2', 16)) + KZ.string('hmac_2', 32)), 'AES')
    KZ.same((a.hash_id, a.Header()), first, 'the identifier of a key does not change')
'''),
    Ctx('one asymmetric key after another', LIB + '''
def main():
    t = KZ.choice(keyinfo.RSA_PRIV, keyinfo.DSA_PRIV)
    a, b = keys.GenKey(t), keys.GenKey(t)
    first = a.hash_id, a.Header(), a.public_key.hash_id
    r = keys.ReadKey(t, str(b))
    KZ.same(b.hash_id, r.hash_id, 'reading back keeps the identifier')
    KZ.same(b.Header(), chr(0) + util.Base64WSDecode(b.hash_id), 'the header names the key')
    KZ.prove(KZ.show(b.hash_id) != KZ.show(a.hash_id), 'another key, another identifier')
    KZ.same((a.hash_id, a.Header(), a.public_key.hash_id), first, 'the identifier of a key does not change')
''', {'freshkeys': True}),
])
