from ..check import prop, Ctx

prop('C08', [
    Ctx('every class against every purpose', '''
ALLOW = {'Encrypter': ('ENCRYPT', 'DECRYPT_AND_ENCRYPT'), 'Crypter': ('DECRYPT_AND_ENCRYPT',),
         'Verifier': ('VERIFY', 'SIGN_AND_VERIFY'), 'Signer': ('SIGN_AND_VERIFY',),
         'UnversionedVerifier': ('VERIFY', 'SIGN_AND_VERIFY'), 'UnversionedSigner': ('SIGN_AND_VERIFY',),
         'GenericKeyczar': ('ENCRYPT', 'DECRYPT_AND_ENCRYPT', 'VERIFY', 'SIGN_AND_VERIFY')}
def main():
    name, cls = KZ.choice(('Encrypter', K.Encrypter), ('Crypter', K.Crypter), ('Verifier', K.Verifier),
        ('Signer', K.Signer), ('UnversionedVerifier', K.UnversionedVerifier),
        ('UnversionedSigner', K.UnversionedSigner), ('GenericKeyczar', K.GenericKeyczar))
    p = KZ.choice(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.ENCRYPT, keyinfo.SIGN_AND_VERIFY, keyinfo.VERIFY)
    t, mkk = KZ.choice((keyinfo.AES, aeskey), (keyinfo.HMAC_SHA1, hmackey))
    st = KZ.choice((), (keyinfo.PRIMARY,), (keyinfo.ACTIVE,))
    via = KZ.choice('reader', 'location')
    r = keyset(p, t, mkk, st)
    if via == 'location':
        KZ.putfile('/loc', '')
        KZ.putfile('/loc/meta', r.meta)
        if len(st):
            KZ.putfile('/loc/1', r.versions[1])
    ok = str(p) in ALLOW[name]
    try:
        z = cls(r) if via == 'reader' else cls.Read('/loc')
    except errors.KeyczarError:
        KZ.prove(not ok, 'key sets of an acceptable purpose load')
        return
    KZ.prove(ok, 'a key set is refused by operations its purpose does not allow')
    KZ.prove(isinstance(z, cls), 'loading yields the requested kind of object')
'''),
    Ctx('unknown purposes in stored metadata', '''
import json
def main():
    p = KZ.sym('p', 'str')
    j = json.dumps({'name': 'n', 'purpose': p, 'type': 'AES', 'encrypted': False, 'versions': []})
    cls = KZ.choice(K.Encrypter, K.Crypter, K.Verifier, K.Signer, K.UnversionedVerifier, K.UnversionedSigner)
    try:
        z = cls(MemReader(j, {}))
    except errors.KeyczarError:
        return
    if cls is K.Crypter:
        KZ.prove(p == 'DECRYPT_AND_ENCRYPT', 'only the named purposes are accepted')
    elif cls is K.Encrypter:
        KZ.prove(p == 'DECRYPT_AND_ENCRYPT' or p == 'ENCRYPT', 'only the named purposes are accepted')
    elif cls is K.Signer or cls is K.UnversionedSigner:
        KZ.prove(p == 'SIGN_AND_VERIFY', 'only the named purposes are accepted')
    else:
        KZ.prove(p == 'SIGN_AND_VERIFY' or p == 'VERIFY', 'only the named purposes are accepted')
'''),
    Ctx('operations offered', '''
def main():
    cls, yes, no = KZ.choice(
        (K.Encrypter, ('Encrypt', 'CreateEncryptingStreamWriter'), ('Decrypt', 'Sign', 'CreateDecryptingStreamReader')),
        (K.Crypter, ('Encrypt', 'Decrypt', 'CreateEncryptingStreamWriter', 'CreateDecryptingStreamReader'), ('Sign', 'Verify')),
        (K.Verifier, ('Verify', 'AttachedVerify'), ('Sign', 'AttachedSign', 'Encrypt')),
        (K.Signer, ('Sign', 'Verify', 'AttachedSign', 'AttachedVerify'), ('Encrypt', 'Decrypt')),
        (K.UnversionedVerifier, ('Verify',), ('Sign',)),
        (K.UnversionedSigner, ('Sign', 'Verify'), ('Encrypt',)),
        (K.GenericKeyczar, ('AddVersion', 'Promote', 'Demote', 'Revoke', 'Write', 'PublicKeyExport'), ('Encrypt', 'Decrypt', 'Sign')))
    for a in yes:
        KZ.prove(KZ.has(cls, a), 'documented operation is offered')
    for a in no:
        KZ.prove(not KZ.has(cls, a), 'operation outside the role is not offered')
'''),
    Ctx('public keys cannot do private operations', '''
def main():
    t, pub = KZ.choice((keyinfo.RSA_PRIV, keyinfo.RSA_PUB), (keyinfo.DSA_PRIV, keyinfo.DSA_PUB))
    k = keys.GenKey(t)
    r = MemReader(str(metadata(keyinfo.VERIFY, pub, [keyinfo.PRIMARY])), {1: str(k.public_key)})
    for cls in (K.Signer, K.UnversionedSigner, K.Crypter, K.Encrypter):
        try:
            cls(r)
            KZ.fail('a verification key set must not load for signing or encrypting')
        except errors.KeyczarError:
            KZ.ok('a verification key set loads for verifying only')
    K.Verifier(r)
    r = MemReader(str(metadata(keyinfo.ENCRYPT, keyinfo.RSA_PUB, [keyinfo.PRIMARY])), {1: str(keys.GenKey(keyinfo.RSA_PRIV).public_key)})
    for cls in (K.Signer, K.UnversionedSigner, K.Crypter, K.Verifier, K.UnversionedVerifier):
        try:
            cls(r)
            KZ.fail('an encryption-only key set must not load for anything else')
        except errors.KeyczarError:
            KZ.ok('an encryption-only key set loads for encrypting only')
    K.Encrypter(r)
'''),
    Ctx('using one key set does not open another', '''
def main():
    e = keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, [keyinfo.PRIMARY])
    s = keyset(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hmackey, [keyinfo.PRIMARY])
    c = K.Crypter(e)
    c.Decrypt(c.Encrypt('abc'))
    K.Encrypter(e).Encrypt('abc')
    g = K.Signer(s)
    g.AttachedVerify(g.AttachedSign('abc', 'n'), 'n')
    K.Verifier(s).Verify('abc', g.Sign('abc'))
    K.UnversionedVerifier(s).Verify('abc', K.UnversionedSigner(s).Sign('abc'))
    K.GenericKeyczar(e)
    cls, p = KZ.choice((K.Crypter, keyinfo.ENCRYPT), (K.Crypter, keyinfo.SIGN_AND_VERIFY), (K.Encrypter, keyinfo.VERIFY),
                       (K.Encrypter, keyinfo.SIGN_AND_VERIFY), (K.Signer, keyinfo.VERIFY), (K.Signer, keyinfo.DECRYPT_AND_ENCRYPT),
                       (K.Verifier, keyinfo.ENCRYPT), (K.Verifier, keyinfo.DECRYPT_AND_ENCRYPT),
                       (K.UnversionedSigner, keyinfo.VERIFY), (K.UnversionedVerifier, keyinfo.ENCRYPT))
    r = keyset(p, keyinfo.AES, aeskey, [keyinfo.PRIMARY]) if KZ.flip() else keyset(p, keyinfo.HMAC_SHA1, hmackey, [keyinfo.PRIMARY])
    try:
        cls(r)
    except errors.KeyczarError:
        KZ.ok('refused')
        return
    KZ.fail('a key set is refused by operations its purpose does not allow')
'''),
])
