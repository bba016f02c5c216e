from ..check import prop, Ctx

COMMON = '''
import struct
def signer_of(kind, st=(keyinfo.PRIMARY,)):
    """a key set whose primary key is the first one"""
    if kind == 'hmac':
        return keyset(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hmackey, st)
    t = keyinfo.RSA_PRIV if kind == 'rsa' else keyinfo.DSA_PRIV
    return MemReader(str(metadata(keyinfo.SIGN_AND_VERIFY, t, [keyinfo.PRIMARY])), {1: str(keys.GenKey(t))})
'''

prop('C07', [
    Ctx('round trip for every message', COMMON + '''
def main():
    kind = KZ.choice('hmac', 'rsa', 'dsa')
    r = signer_of(kind)
    s = K.Signer(r)
    v = KZ.choice(K.Signer, K.Verifier)(r)
    m = KZ.sym('m', 'str')
    n = KZ.sym('n', 'str')
    w = KZ.choice('plain', 'encoded', 'attached', 'attached-encoded', 'no-nonce', 'unversioned', 'unversioned-encoded')
    KZ.assume(len(m) < 2147483648 and len(n) < 2147483648)
    if w == 'plain':
        KZ.prove(v.Verify(m, s.Sign(m, None), None), 'a signature verifies over the data that was signed')
    elif w == 'encoded':
        KZ.prove(v.Verify(m, s.Sign(m)), 'a signature verifies over the data that was signed')
    elif w == 'attached':
        KZ.same(v.AttachedVerify(s.AttachedSign(m, n, None), n, None), m, 'attached verification returns the signed data')
    elif w == 'attached-encoded':
        KZ.same(v.AttachedVerify(s.AttachedSign(m, n), n), m, 'attached verification returns the signed data')
    elif w == 'no-nonce':
        KZ.same(v.AttachedVerify(s.AttachedSign(m, None), None), m, 'attached verification returns the signed data')
    else:
        us, uv = K.UnversionedSigner(r), K.UnversionedVerifier(r)
        if w == 'unversioned':
            sig = us.Sign(m, None)
            KZ.prove(uv.Verify(m, sig, None), 'an unversioned signature verifies')
            KZ.prove(us.Verify(m, sig, None), 'an unversioned signature verifies')
        else:
            KZ.prove(uv.Verify(m, us.Sign(m)), 'an unversioned signature verifies')
'''),
    Ctx('what a MAC signature covers', COMMON + '''
def main():
    s = K.Signer(signer_of('hmac'))
    k = KZ.string('hmac_1', 32)
    hk = hmackey('1')
    m = KZ.sym('m', 'str')
    n = KZ.sym('n', 'str')
    KZ.assume(len(m) < 2147483648 and len(n) < 2147483648)
    KZ.same(s.Sign(m, None), hdr(hk) + KZ.hmac(k, m + chr(0)), 'detached signature: header and MAC over data and version byte')
    KZ.same(s.AttachedSign(m, n, None),
            hdr(hk) + struct.pack('>i', len(m)) + m + KZ.hmac(k, m + struct.pack('>i', len(n)) + n + chr(0)),
            'attached signature covers data, nonce length, nonce and version byte')
    KZ.same(K.UnversionedSigner(signer_of('hmac')).Sign(m, None), KZ.hmac(k, m), 'unversioned signature: bare MAC over the data')
'''),
    Ctx('detached verification of arbitrary input', COMMON + '''
def main():
    v = K.Verifier(signer_of('hmac'))
    k = KZ.string('hmac_1', 32)
    m = KZ.sym('m', 'str')
    s = KZ.sym('s', 'str')
    try:
        ok = v.Verify(m, s, None)
    except errors.KeyczarError:
        return
    if ok:
        KZ.prove(s[5:] == KZ.hmac(k, m + chr(0)), 'accepted only if the MAC over data and version byte matches')
    else:
        KZ.prove(s[5:] != KZ.hmac(k, m + chr(0)), 'rejected only if the MAC does not match')
'''),
    Ctx('attached verification of arbitrary input', COMMON + '''
def main():
    v = K.Verifier(signer_of('hmac'))
    k = KZ.string('hmac_1', 32)
    head = hdr(hmackey('1'))
    L = KZ.choice(0, 1, 7)
    extra = KZ.choice(-8, -1, 0, 5, 19, 20, 21, 24)
    if L + extra < 0:
        return
    rest = KZ.string('r%d' % (L + extra), L + extra)
    s = (head if KZ.flip() else KZ.string('h', 5)) + struct.pack('>i', L) + rest
    nonce = KZ.choice(None, '', KZ.string('n', 9))
    data = rest[:L]
    packed = '' if nonce is None else struct.pack('>i', len(nonce)) + nonce
    mac = KZ.hmac(k, data + packed + chr(0))
    try:
        out = v.AttachedVerify(s, nonce, None)
    except errors.ShortSignatureError:
        KZ.prove(len(s) < 9 or extra < 0, 'short only if header, length and data do not fit')
        return
    except errors.KeyNotFoundError:
        KZ.prove(s[:5] != head, 'unknown key only for an unknown header')
        return
    except errors.BadVersionError:
        KZ.prove(s[0] != chr(0), 'bad version only for a foreign version byte')
        return
    KZ.prove(s[:5] == head, 'verdict only under the key named in the header')
    if out is not None:
        KZ.prove(extra == 20 and rest[L:] == mac, 'attached data is returned only if data and nonce are covered by the MAC')
        KZ.same(out, data, 'the data returned is the data that was signed')
    elif extra == 20:
        KZ.prove(rest[L:] != mac, 'refused only if the MAC does not match')
'''),
    Ctx('attached verification, any length field', COMMON + '''
def main():
    v = K.Verifier(signer_of('hmac'))
    n = KZ.choice(0, 4, 5, 8, 9, 20, 40)
    s = KZ.string('s%d' % n, n)
    try:
        out = v.AttachedVerify(s, KZ.choice(None, 'abc'), None)
        KZ.prove(n >= 9, 'short input is refused')
    except errors.ShortSignatureError:
        KZ.prove(n < 29, 'short only if too short')
    except errors.KeyNotFoundError:
        KZ.prove(s[:5] != hdr(hmackey('1')), 'unknown key only for an unknown header')
    except errors.BadVersionError:
        KZ.prove(s[0] != chr(0), 'bad version only for a foreign version byte')
    except errors.KeyczarError:
        KZ.prove(n >= 9, 'malformed length fields are refused')
'''),
    Ctx('nonce mismatch', COMMON + '''
def main():
    r = signer_of(KZ.choice('hmac', 'rsa', 'dsa'))
    s, v = K.Signer(r), K.Verifier(r)
    m = KZ.string('m', 10)
    a, b = KZ.choice(('n1', 'n2'), ('n1', None), (None, 'n1'), ('', 'x'), ('ab', 'a'), ('', None), (None, ''))
    try:
        out = v.AttachedVerify(s.AttachedSign(m, a, None), b, None)
    except errors.KeyczarError:
        return
    if KZ.decided(out == m):
        KZ.fail('a different nonce must not be accepted outright')
    else:
        KZ.ok('a different nonce is not accepted outright')
'''),
    Ctx('unversioned verification tries every key', COMMON + '''
def main():
    n = KZ.choice(1, 2, 3)
    st = anystatuses(n)
    v = K.UnversionedVerifier(keyset(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hmackey, st))
    m = KZ.sym('m', 'str')
    KZ.distinct(*[hmackey(str(i + 1)).hash_id for i in range(n)])
    if KZ.flip():
        i = KZ.choice(tuple(range(n)))
        KZ.prove(v.Verify(m, KZ.hmac(KZ.string('hmac_%d' % (i + 1), 32), m), None), 'signature by any key of the set, whatever its status, is accepted')
    else:
        s = KZ.sym('s', 'str')
        ok = v.Verify(m, s, None)
        macs = [KZ.hmac(KZ.string('hmac_%d' % (i + 1), 32), m) for i in range(n)]
        if ok:
            KZ.prove(s in macs, 'accepted only if some key of the set signed it')
        else:
            for x in macs:
                KZ.prove(s != x, 'rejected only if no key of the set signed it')
'''),
    Ctx('asymmetric verification of arbitrary input', COMMON + '''
def main():
    kind = KZ.choice('rsa', 'dsa')
    t = keyinfo.RSA_PRIV if kind == 'rsa' else keyinfo.DSA_PRIV
    k = keys.GenKey(t)
    m = KZ.sym('m', 'str')
    s = KZ.sym('s', 'str')
    at = KZ.mark()
    ok = k.public_key.Verify(m, s)
    es = KZ.events('ck.verify', since=at)
    if ok:
        KZ.same(len(es), 1, 'accepted only after the public-key operation')
        KZ.prove(KZ.mentions(es[0][2], KZ.sha1(m)), 'the public-key operation covers the hash of the whole message')
        KZ.prove(KZ.mentions(es[0][3], s), 'the public-key operation covers the signature')
        if kind == 'rsa':
            KZ.same(len(s), 256, 'an RSA signature is as long as the modulus')
            KZ.prove(es[0][3][0] < k.key.n, 'an RSA signature is a number below the modulus')
    KZ.reach('verdict')
'''),
    Ctx('tampering with a signed message', COMMON + '''
def main():
    r = signer_of(KZ.choice('hmac', 'rsa', 'dsa'))
    s, v = K.Signer(r), K.Verifier(r)
    m, m2 = KZ.string('m', 10), KZ.string('x', 10)
    sig = s.Sign(m, None)
    which = KZ.choice('other', 'extended', 'truncated', 'unversioned')
    if which == 'other':
        d = KZ.decided(v.Verify(m2, sig, None))
    elif which == 'extended':
        d = KZ.decided(v.Verify(m + chr(0), sig, None))
    elif which == 'truncated':
        d = KZ.decided(v.Verify(m[:9], sig, None))
    else:
        d = KZ.decided(K.UnversionedVerifier(r).Verify(m, sig[5:], None))
    if d:
        KZ.fail('a signature over other data must not be accepted outright')
    else:
        KZ.ok('a signature over other data is not accepted outright')
'''),
    Ctx('another encoding of a signature', COMMON + """
def main():
    r = signer_of(KZ.choice('hmac', 'rsa', 'dsa'))
    s, v = K.Signer(r), K.Verifier(r)
    m = KZ.string('m', 10)
    form = KZ.choice('plain', 'attached', 'unversioned')
    how = KZ.choice('trailing', 'leading zero', 'trailing zero', 'twice')
    def change(sig):
        if how == 'trailing':
            return sig + KZ.choice('x', 'junk', chr(255) * 40)
        if how == 'leading zero':
            return chr(0) * KZ.choice(1, 2, 128) + sig
        if how == 'trailing zero':
            return sig + chr(0)
        return sig + sig
    try:
        if form == 'plain':
            x = s.Sign(m, None)
            out = v.Verify(m, x[:5] + change(x[5:]), None)
        elif form == 'attached':
            x = s.AttachedSign(m, 'n', None)
            n = 5 + 4 + len(m)
            out = v.AttachedVerify(x[:n] + change(x[n:]), 'n', None)
        else:
            x = K.UnversionedSigner(r).Sign(m, None)
            out = K.UnversionedVerifier(r).Verify(m, change(x), None)
    except errors.KeyczarError:
        KZ.ok('refused')
    else:
        KZ.prove(not out, 'a signature that was changed in any byte is refused')
"""),
    Ctx('many keys', COMMON + '''
def big(mk, n, primary):
    ks = [mk(str(i + 1)) for i in range(n)]
    KZ.distinct(*[k.hash_id for k in ks])
    st = []
    for i in range(n):
        st.append(keyinfo.PRIMARY if i == primary else (keyinfo.ACTIVE, keyinfo.INACTIVE)[i % 2])
    return ks, st
def main():
    n = 12
    ks, st = big(hmackey, n, 9)
    r = keyset(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hmackey, st)
    m = KZ.sym('m', 'str')
    i = KZ.choice(0, 3, 6, 9, 11)
    how = KZ.choice('unversioned', 'plain', 'attached')
    if how == 'unversioned':
        KZ.prove(K.UnversionedVerifier(r).Verify(m, ks[i].Sign(m), None), 'signature by any key of a large set is accepted')
    elif how == 'plain':
        KZ.prove(K.Verifier(r).Verify(m, hdr(ks[i]) + ks[i].Sign(m + chr(0)), None), 'signature by any key of a large set is accepted')
    else:
        one = K.Signer(MemReader(str(metadata(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, [keyinfo.PRIMARY])), {1: str(ks[i])}))
        KZ.same(K.Verifier(r).AttachedVerify(one.AttachedSign(m, 'n', None), 'n', None), m, 'signature by any key of a large set is accepted')
'''),
    Ctx('earlier verifications make nothing else acceptable', COMMON + '''
def main():
    r = signer_of('hmac')
    s = K.Signer(r)
    how = KZ.choice('signer', 'verifier', 'unversioned')
    k = KZ.string('hmac_1', 32)
    v = s if how == 'signer' else K.Verifier(r) if how == 'verifier' else K.UnversionedVerifier(r)
    tail = '' if how == 'unversioned' else chr(0)
    cut = 0 if how == 'unversioned' else 5
    a = KZ.string('a', 10)
    x = (K.UnversionedSigner(r) if how == 'unversioned' else s).Sign(a, None)
    first = KZ.choice('good', 'bad', 'other')
    try:
        if first == 'good':
            KZ.prove(v.Verify(a, x, None), 'a signature verifies over the data that was signed')
        elif first == 'bad':
            v.Verify(KZ.string('b', 10), x, None)
        else:
            v.Verify(a, KZ.sym('x', 'str'), None)
    except errors.KeyczarError:
        pass
    m = a if KZ.flip() else KZ.sym('m', 'str')
    g = x if KZ.flip() else KZ.sym('g', 'str')
    mac = KZ.hmac(k, m + tail)
    try:
        ok = v.Verify(m, g, None)
    except errors.KeyczarError:
        return
    if ok:
        KZ.prove(g[cut:] == mac, 'accepted only if the MAC over data and version byte matches')
    else:
        KZ.prove(g[cut:] != mac, 'rejected only if the MAC does not match')
'''),
    Ctx('earlier signatures do not matter', COMMON + '''
def main():
    r = signer_of('hmac')
    s = K.Signer(r)
    u = K.UnversionedSigner(r)
    k = KZ.string('hmac_1', 32)
    hk = hmackey('1')
    a = KZ.string('a', 8)
    n0 = KZ.choice(None, '', 'n0')
    first = KZ.choice('sign', 'attached', 'verify', 'unversioned')
    if first == 'sign':
        s.Sign(a, None)
    elif first == 'attached':
        s.AttachedSign(a, n0, None)
    elif first == 'verify':
        s.AttachedVerify(s.AttachedSign(a, n0, None), n0, None)
    else:
        u.Sign(a, None)
    m = KZ.choice(a, KZ.sym('m', 'str'))
    n = KZ.choice(None, 'n0', KZ.sym('n', 'str'))
    KZ.assume(len(m) < 2147483648)
    if n is not None:
        KZ.assume(len(n) < 2147483648)
    packed = '' if n is None else struct.pack('>i', len(n)) + n
    KZ.same(s.Sign(m, None), hdr(hk) + KZ.hmac(k, m + chr(0)), 'detached signature: header and MAC over data and version byte')
    KZ.same(s.AttachedSign(m, n, None), hdr(hk) + struct.pack('>i', len(m)) + m + KZ.hmac(k, m + packed + chr(0)),
            'attached signature covers data, nonce length, nonce and version byte')
    KZ.same(u.Sign(m, None), KZ.hmac(k, m), 'unversioned signature: bare MAC over the data')
'''),
    Ctx('attached verification after another one', COMMON + '''
def main():
    r = signer_of('hmac')
    v = K.Verifier(r)
    s = K.Signer(r)
    k = KZ.string('hmac_1', 32)
    head = hdr(hmackey('1'))
    a = KZ.string('a', 7)
    KZ.same(v.AttachedVerify(s.AttachedSign(a, 'n0', None), 'n0', None), a, 'attached verification returns the signed data')
    L = KZ.choice(7, 3)
    data = a if L == 7 and KZ.flip() else KZ.string('d%d' % L, L)
    sig = KZ.string('g', 20)
    if KZ.flip():
        sig = KZ.hmac(k, a + struct.pack('>i', 2) + 'n0' + chr(0))
    nonce = KZ.choice(None, 'n0', 'n1')
    packed = '' if nonce is None else struct.pack('>i', len(nonce)) + nonce
    out = v.AttachedVerify(head + struct.pack('>i', L) + data + sig, nonce, None)
    mac = KZ.hmac(k, data + packed + chr(0))
    if out is not None:
        KZ.prove(sig == mac, 'attached data is returned only if data and nonce are covered by the MAC')
        KZ.same(out, data, 'the data returned is the data that was signed')
    else:
        KZ.prove(sig != mac, 'refused only if the MAC does not match')
'''),
    Ctx('asymmetric verification after another one', COMMON + '''
def main():
    kind = KZ.choice('rsa', 'dsa')
    k = keys.GenKey(keyinfo.RSA_PRIV if kind == 'rsa' else keyinfo.DSA_PRIV)
    pub = k.public_key
    a = KZ.string('a', 9)
    x = k.Sign(a)
    KZ.prove(pub.Verify(a, x), 'a signature verifies over the data that was signed')
    how = KZ.choice('other data', 'other signature', 'other pair')
    m = a if how == 'other signature' else KZ.sym('m', 'str')
    g = x if how == 'other data' else KZ.sym('g', 'str')
    at = KZ.mark()
    who = KZ.choice(pub, k)
    KZ.assume(m != a or g != x)
    ok = who.Verify(m, g)
    es = KZ.events('ck.verify', since=at)
    if ok:
        KZ.same(len(es), 1, 'accepted only after the public-key operation')
        KZ.prove(KZ.mentions(es[0][2], KZ.sha1(m)), 'the public-key operation covers the hash of the whole message')
        KZ.prove(how == 'other data' or KZ.mentions(es[0][3], g), 'the public-key operation covers the signature')
    KZ.reach('verdict')
'''),
])
