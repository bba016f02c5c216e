from ..check import prop, Ctx

prop('C01', [
    Ctx('key-level decrypt of arbitrary bytes', '''
def main():
    k = aeskey('k', KZ.choice(16, 24, 32))
    c = KZ.sym('c', 'str')
    hk = KZ.string('hmac_k', 32)
    mac = KZ.hmac(hk, c[:-20])
    try:
        p = k.Decrypt(c)
    except errors.ShortCiphertextError:
        KZ.prove(len(c) < 57 or len(c) % 16 != 9, 'short-ciphertext error only when header, IV, whole blocks and MAC do not fit')
        KZ.prove(not KZ.events('decrypt'), 'nothing is deciphered before rejection')
        return
    except errors.InvalidSignatureError:
        KZ.prove(c[-20:] != mac, 'signature error only when the MAC differs')
        KZ.prove(len(c) >= 41, 'inputs that cannot hold header, IV and MAC are reported as short')
        KZ.prove(not KZ.events('decrypt'), 'nothing is deciphered before rejection')
        return
    KZ.prove(len(c) > 41 and len(c) % 16 == 9, 'accepted ciphertext holds header, IV, one or more whole blocks and MAC')
    KZ.prove(c[-20:] == mac, 'plaintext returned only if the MAC over all preceding bytes matches')
'''),
    Ctx('keyset-level decrypt of arbitrary bytes', '''
def main():
    st = anystatuses(2)
    ks = [aeskey('1'), aeskey('2')]
    KZ.assume(ks[0].hash_id != ks[1].hash_id)
    r = keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, st)
    crypter = K.Crypter(r)
    c = KZ.sym('c', 'str')
    try:
        p = crypter.Decrypt(c, None)
    except errors.ShortCiphertextError:
        KZ.prove(len(c) < 57 or len(c) % 16 != 9, 'short-ciphertext error only when header, IV, whole blocks and MAC do not fit')
        return
    except errors.InvalidSignatureError:
        KZ.prove(not KZ.events('decrypt'), 'nothing is deciphered before rejection')
        return
    except errors.KeyNotFoundError:
        KZ.prove(c[:5] != hdr(ks[0]) and c[:5] != hdr(ks[1]), 'unknown key only for an unknown header')
        return
    except errors.BadVersionError:
        KZ.prove(c[0] != chr(0), 'bad version only for a foreign version byte')
        return
    h1 = KZ.hmac(KZ.string('hmac_1', 32), c[:-20])
    h2 = KZ.hmac(KZ.string('hmac_2', 32), c[:-20])
    if c[:5] == hdr(ks[0]):
        KZ.prove(c[-20:] == h1, 'keyset decrypt authenticates with the key named by the header')
    elif c[:5] == hdr(ks[1]):
        KZ.prove(c[-20:] == h2, 'keyset decrypt authenticates with the key named by the header')
    else:
        KZ.fail('plaintext returned for a header naming no key of the set')
'''),
    Ctx('web-safe encoded input', '''
def main():
    r = keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, [keyinfo.PRIMARY])
    crypter = K.Crypter(r)
    s = KZ.sym('s', 'str')
    try:
        p = crypter.Decrypt(s)
    except errors.Base64DecodingError:
        return
    except errors.ShortCiphertextError:
        KZ.prove(len(KZ.unb64(s)) < 57 or len(KZ.unb64(s)) % 16 != 9, 'short-ciphertext error only when header, IV, whole blocks and MAC do not fit')
        return
    except errors.KeyczarError:
        KZ.prove(not KZ.events('decrypt'), 'nothing is deciphered before rejection')
        return
    c = KZ.unb64(s)
    KZ.prove(c[-20:] == KZ.hmac(KZ.string('hmac_1', 32), c[:-20]),
             'plaintext returned only if the MAC over all preceding bytes matches')
'''),
    Ctx('a decryption after another one', '''
def main():
    k = aeskey('k')
    hk = KZ.string('hmac_k', 32)
    how = KZ.choice('crypter', 'key', 'own')
    if how == 'crypter':
        z = K.Crypter(MemReader(str(metadata(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, [keyinfo.PRIMARY])), {1: str(k)}))
        dec = lambda c: z.Decrypt(c, None)
    else:
        z = k
        dec = z.Decrypt
    if how == 'own':
        x = z.Encrypt(KZ.string('m', 17))
    else:
        x = KZ.sym('x', 'str')
    try:
        dec(x)
    except errors.KeyczarError:
        pass
    seen = len(KZ.events('decrypt'))
    c = KZ.sym('c', 'str')
    mac = KZ.hmac(hk, c[:-20])
    try:
        dec(c)
    except errors.ShortCiphertextError:
        KZ.prove(len(c) < 57 or len(c) % 16 != 9, 'short-ciphertext error only when header, IV, whole blocks and MAC do not fit')
        return
    except errors.InvalidSignatureError:
        KZ.prove(c[-20:] != mac, 'signature error only when the MAC differs')
        KZ.same(len(KZ.events('decrypt')), seen, 'nothing is deciphered before rejection')
        return
    except (errors.KeyNotFoundError, errors.BadVersionError):
        KZ.prove(c[:5] != hdr(k), 'unknown key only for an unknown header')
        return
    KZ.prove(c[-20:] == mac, 'earlier decryptions make nothing else acceptable')
'''),
])
