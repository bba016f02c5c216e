from ..check import prop, Ctx

prop('C06', [
    Ctx('verifying any signature', '''
def main():
    n = KZ.choice(1, 2)
    st = anystatuses(n)
    ks = [hmackey(str(i + 1)) for i in range(n)]
    KZ.distinct(*[k.hash_id for k in ks])
    v = KZ.choice(K.Verifier, K.Signer)(keyset(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hmackey, st))
    s = KZ.sym('s', 'str')
    m = KZ.sym('m', 'str')
    try:
        res = v.Verify(m, s, None)
    except errors.ShortSignatureError:
        KZ.prove(len(s) < 5, 'short signature reported only for a missing header')
        return
    except errors.BadVersionError:
        KZ.prove(s[0] != chr(0), 'bad version only for a foreign version byte')
        KZ.prove(len(s) >= 5, 'header present')
        return
    except errors.KeyNotFoundError:
        for k in ks:
            KZ.prove(s[:5] != hdr(k), 'unknown key only for an unknown header')
        return
    KZ.prove(len(s) >= 5, 'verdict only for signatures with a header')
    KZ.prove(s[0] == chr(0), 'verdict only for the supported version')
    hit = 0
    for i in range(n):
        if s[:5] == hdr(ks[i]):
            hit += 1
            mac = KZ.hmac(KZ.string('hmac_%d' % (i + 1), 32), m + chr(0))
            if res:
                KZ.prove(s[5:] == mac, 'accepted only by the key named in the header')
            else:
                KZ.prove(s[5:] != mac, 'rejected only if the key named in the header rejects')
    KZ.same(hit, 1, 'the header names exactly one key')
'''),
    Ctx('decrypting with any header', '''
def main():
    n = KZ.choice(1, 2)
    st = anystatuses(n)
    ks = [aeskey(str(i + 1)) for i in range(n)]
    KZ.distinct(*[k.hash_id for k in ks])
    v = K.Crypter(keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, st))
    c = KZ.sym('c', 'str')
    try:
        v.Decrypt(c, None)
    except errors.ShortCiphertextError:
        KZ.prove(len(c) < 57 or len(c) % 16 != 9, 'short ciphertext only when too short or cut inside a block')
        return
    except errors.BadVersionError:
        KZ.prove(c[0] != chr(0), 'bad version only for a foreign version byte')
        KZ.prove(len(c) >= 5, 'header present')
        return
    except errors.KeyNotFoundError:
        for k in ks:
            KZ.prove(c[:5] != hdr(k), 'unknown key only for an unknown header')
        return
    except errors.InvalidSignatureError:
        pass
    KZ.prove(c[0] == chr(0), 'keys are tried only for the supported version')
    hit = 0
    for i in range(n):
        if c[:5] == hdr(ks[i]):
            hit += 1
            used = KZ.events('hmac.new')
            KZ.prove(len(used) > 0, 'a MAC is computed')
            for e in used:
                KZ.same(e[2], KZ.string('hmac_%d' % (i + 1), 32), 'only the key named in the header is used')
    KZ.same(hit, 1, 'the header names exactly one key')
'''),
    Ctx('every key of the set stays reachable', '''
def main():
    n = KZ.choice(1, 2, 3)
    st = anystatuses(n)
    ks = [hmackey(str(i + 1)) for i in range(n)]
    KZ.distinct(*[k.hash_id for k in ks])
    v = K.Verifier(keyset(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hmackey, st, KZ.flip()))
    m = KZ.sym('m', 'str')
    for i in range(n):
        sig = hdr(ks[i]) + KZ.hmac(KZ.string('hmac_%d' % (i + 1), 32), m + chr(0))
        KZ.prove(v.Verify(m, sig, None), 'a key of any status verifies what it signed')
        KZ.prove(v.Verify(m, KZ.b64(sig)), 'a key of any status verifies what it signed')
        KZ.same(v.GetKey(ks[i].hash_id).key_bytes, KZ.string('hmac_%d' % (i + 1), 32), 'lookup by identifier finds the key')
    other = hmackey('x')
    KZ.distinct(other.hash_id, *[k.hash_id for k in ks])
    try:
        v.GetKey(other.hash_id)
        KZ.fail('unknown identifier must be refused')
    except errors.KeyNotFoundError:
        KZ.ok('unknown identifier is refused')
    try:
        v.Verify(m, hdr(other) + KZ.string('z', 20), None)
        KZ.fail('signature of a key outside the set must be refused')
    except errors.KeyNotFoundError:
        KZ.ok('signature of a key outside the set is refused')
'''),
    Ctx('asymmetric lookups', '''
def main():
    t = KZ.choice(keyinfo.RSA_PRIV, keyinfo.DSA_PRIV)
    ks = [keys.GenKey(t), keys.GenKey(t)]
    KZ.distinct(*[k.hash_id for k in ks])
    st = anystatuses(2)
    m = KZ.sym('m', 'str')
    ex = KZ.flip()
    if KZ.flip():
        meta, ss = metadata(keyinfo.SIGN_AND_VERIFY, t, st, exportable=ex), [str(k) for k in ks]
    else:
        pub = keyinfo.RSA_PUB if t == keyinfo.RSA_PRIV else keyinfo.DSA_PUB
        meta, ss = metadata(keyinfo.VERIFY, pub, st, exportable=ex), [str(k.public_key) for k in ks]
    v = K.Verifier(MemReader(str(meta), {1: ss[0], 2: ss[1]}))
    for k in ks:
        sig = hdr(k) + k.Sign(m + chr(0))
        KZ.prove(v.Verify(m, sig, None), 'a key of any status verifies what it signed')
'''),
    Ctx('many keys', '''
def big(mk, n, primary):
    ks = [mk(str(i + 1)) for i in range(n)]
    KZ.distinct(*[k.hash_id for k in ks])
    st = []
    for i in range(n):
        st.append(keyinfo.PRIMARY if i == primary else (keyinfo.ACTIVE, keyinfo.INACTIVE)[i % 2])
    return ks, st
def main():
    n = 12
    aes = KZ.flip()
    ks, st = big(aeskey if aes else hmackey, n, KZ.choice(-1, 10))
    m = KZ.string('m', 5)
    i = KZ.choice(0, 4, 8, 10, 11)
    if aes:
        z = K.Crypter(keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, st))
        KZ.same(z.Decrypt(ks[i].Encrypt(m), None), m, 'any key of a large set decrypts')
    else:
        z = K.Verifier(keyset(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hmackey, st))
        KZ.prove(z.Verify(m, hdr(ks[i]) + ks[i].Sign(m + chr(0)), None), 'any key of a large set verifies')
'''),
    Ctx('earlier requests do not matter', '''
def main():
    st = [keyinfo.PRIMARY, keyinfo.ACTIVE]
    ks = [hmackey('1'), hmackey('2')]
    KZ.distinct(*[k.hash_id for k in ks])
    v = K.Verifier(keyset(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hmackey, st, KZ.flip()))
    try:
        v.Verify(KZ.sym('m0', 'str'), KZ.sym('s0', 'str'), None)
    except errors.KeyczarError:
        pass
    s = KZ.sym('s', 'str')
    m = KZ.sym('m', 'str')
    try:
        res = v.Verify(m, s, None)
    except errors.ShortSignatureError:
        KZ.prove(len(s) < 5, 'short signature reported only for a missing header')
        return
    except errors.BadVersionError:
        KZ.prove(s[0] != chr(0), 'bad version only for a foreign version byte')
        return
    except errors.KeyNotFoundError:
        for k in ks:
            KZ.prove(s[:5] != hdr(k), 'unknown key only for an unknown header')
        return
    hit = 0
    for i in range(2):
        if s[:5] == hdr(ks[i]):
            hit += 1
            mac = KZ.hmac(KZ.string('hmac_%d' % (i + 1), 32), m + chr(0))
            if res:
                KZ.prove(s[5:] == mac, 'accepted only by the key named in the header')
            else:
                KZ.prove(s[5:] != mac, 'rejected only if the key named in the header rejects')
    KZ.same(hit, 1, 'the header names exactly one key')
'''),
])
