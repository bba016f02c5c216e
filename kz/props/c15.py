from ..check import prop, Ctx

LIB = '''
from keyczar import keyczart
TAB = {
  'type': (keyinfo.GetType, ['AES', 'HMAC_SHA1', 'DSA_PRIV', 'DSA_PUB', 'RSA_PRIV', 'RSA_PUB'],
           [keyinfo.AES, keyinfo.HMAC_SHA1, keyinfo.DSA_PRIV, keyinfo.DSA_PUB, keyinfo.RSA_PRIV, keyinfo.RSA_PUB]),
  'status': (keyinfo.GetStatus, ['PRIMARY', 'ACTIVE', 'INACTIVE'], [keyinfo.PRIMARY, keyinfo.ACTIVE, keyinfo.INACTIVE]),
  'purpose': (keyinfo.GetPurpose, ['DECRYPT_AND_ENCRYPT', 'ENCRYPT', 'SIGN_AND_VERIFY', 'VERIFY'],
              [keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.ENCRYPT, keyinfo.SIGN_AND_VERIFY, keyinfo.VERIFY]),
  'mode': (keyinfo.GetMode, ['CBC', 'CTR', 'ECB', 'DET_CBC'], [keyinfo.CBC, keyinfo.CTR, keyinfo.ECB, keyinfo.DET_CBC]),
  'command': (keyczart.GetCommand, ['create', 'addkey', 'pubkey', 'promote', 'demote', 'revoke', 'genkey'],
              [keyczart.CREATE, keyczart.ADDKEY, keyczart.PUBKEY, keyczart.PROMOTE, keyczart.DEMOTE, keyczart.REVOKE, keyczart.GENKEY]),
  'flag': (keyczart.GetFlag, ['location', 'name', 'size', 'status', 'purpose', 'destination', 'version', 'asymmetric', 'crypter'],
           [keyczart.LOCATION, keyczart.NAME, keyczart.SIZE, keyczart.STATUS, keyczart.PURPOSE, keyczart.DESTINATION,
            keyczart.VERSION, keyczart.ASYMMETRIC, keyczart.CRYPTER]),
}
'''

prop('C15', [
    Ctx('known names', LIB + '''
def main():
    which = KZ.choice('type', 'status', 'purpose', 'mode', 'command', 'flag')
    get, names, objs = TAB[which]
    i = KZ.choice(tuple(range(len(names))))
    x = get(names[i])
    KZ.prove(x is objs[i], 'a name looks up the entry it belongs to')
    KZ.same(x.name, names[i], 'an entry carries its own name')
    KZ.same(str(x), names[i], 'an entry prints as its own name')
    for j in range(len(names)):
        if j != i:
            KZ.prove(x is not get(names[j]), 'different names give different entries')
            KZ.prove(x != get(names[j]), 'different names give different entries')
'''),
    Ctx('unknown names', LIB + '''
def main():
    which = KZ.choice('type', 'status', 'purpose', 'mode', 'command', 'flag')
    get, names, objs = TAB[which]
    how = KZ.choice('any', 'lower', 'upper', 'padded', 'prefix', 'empty', 'none')
    if KZ.flip():
        for n in names[1:] + names[:1]:
            get(n)
    if how == 'any':
        s = KZ.sym('s', 'str')
        for n in names:
            KZ.assume(s != n)
    elif how == 'lower':
        s = names[0].lower()
        if s in names:
            return
    elif how == 'upper':
        s = names[0].upper()
        if s in names:
            return
    elif how == 'padded':
        s = ' ' + names[0] + ' '
    elif how == 'prefix':
        s = names[0][:2]
    elif how == 'empty':
        s = ''
    else:
        s = None
    try:
        get(s)
        KZ.fail('an unknown name is refused')
    except errors.KeyczarError:
        KZ.ok('refused')
'''),
    Ctx('error kinds', '''
def main():
    n = KZ.sym('n', 'nat')
    h = KZ.sym('h', 'str')
    one = {
      'badversion': (errors.BadVersionError, (n,), 'BadVersionError'),
      'base64': (errors.Base64DecodingError, (), 'Base64DecodingError'),
      'sig': (errors.InvalidSignatureError, (), 'InvalidSignatureError'),
      'notfound': (errors.KeyNotFoundError, (h,), 'KeyNotFoundError'),
      'shortc': (errors.ShortCiphertextError, (n,), 'ShortCiphertextError'),
      'shorts': (errors.ShortSignatureError, (n,), 'ShortSignatureError'),
      'noprimary': (errors.NoPrimaryKeyError, (), 'NoPrimaryKeyError'),
      'general': (errors.KeyczarError, (h,), 'KeyczarError'),
    }
    w = KZ.choice(tuple(sorted(one)))
    cls, args, name = one[w]
    KZ.prove(issubclass(cls, errors.KeyczarError), 'every error of the library is a Keyczar error')
    KZ.prove(issubclass(cls, Exception), 'every error of the library can be raised')
    for o in one:
        if o not in (w, 'general') and not (o == 'notfound' and w == 'noprimary'):
            KZ.prove(not issubclass(cls, one[o][0]), 'error kinds are distinguishable')
    e = cls(*args)
    KZ.same(KZ.excname(e), name, 'error kind is the documented one')
    if args:
        KZ.prove(KZ.mentions(str(e), args[0]), 'the message carries the offending value')
    if w == 'noprimary':
        KZ.prove(issubclass(cls, errors.KeyNotFoundError), 'a missing primary key is a missing key')
'''),
    Ctx('where errors are raised', '''
def main():
    w = KZ.choice('badversion', 'notfound', 'shortc', 'shorts', 'shorta', 'mac', 'base64', 'shortbody')
    aes = K.Crypter(keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, [keyinfo.PRIMARY]))
    mac = K.Signer(keyset(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hmackey, [keyinfo.PRIMARY]))
    b = KZ.sym('b', 'byte')
    body = KZ.string('body', 60)
    try:
        if w == 'badversion':
            KZ.assume(b != 0)
            what = errors.BadVersionError
            aes.Decrypt(chr(b) + body, None) if KZ.flip() else mac.Verify('m', chr(b) + body, None)
        elif w == 'notfound':
            what = errors.KeyNotFoundError
            x = KZ.string('x', 4)
            s = aes if KZ.flip() else mac
            KZ.assume(x != s.primary_key.Header()[1:])
            if s is aes:
                aes.Decrypt(chr(0) + x + body, None)
            else:
                mac.Verify('m', chr(0) + x + body, None)
        elif w == 'shortc':
            what = errors.ShortCiphertextError
            aes.Decrypt(KZ.string('x', KZ.choice(0, 1, 4)), None)
        elif w == 'shortbody':
            what = errors.ShortCiphertextError
            aes.Decrypt(aes.primary_key.Header() + KZ.string('x', KZ.choice(0, 15, 35)), None)
        elif w == 'shorts':
            what = errors.ShortSignatureError
            mac.Verify('m', KZ.string('x', KZ.choice(0, 1, 4)), None)
        elif w == 'shorta':
            what = errors.ShortSignatureError
            mac.AttachedVerify(KZ.string('x', KZ.choice(0, 4, 5, 8)), KZ.choice('', 'n'), None)
        elif w == 'mac':
            what = errors.InvalidSignatureError
            t = KZ.string('t', 20)
            x = aes.primary_key.Header() + KZ.string('iv', 16) + KZ.string('c', 32)
            KZ.assume(t != KZ.hmac(aes.primary_key.hmac_key.key_bytes, x))
            aes.Decrypt(x + t, None)
        else:
            what = errors.Base64DecodingError
            x = KZ.choice('AAAAA', '0', 'AAAAAAAAA')
            c = KZ.choice('d', 'v', 'a')
            if c == 'd':
                aes.Decrypt(x)
            elif c == 'v':
                mac.Verify('m', x)
            else:
                mac.AttachedVerify(x, 'n')
        KZ.fail('a failing operation raises')
    except Exception as e:
        KZ.prove(isinstance(e, what), 'a failure is reported as the documented error')
'''),
    Ctx('errors carry the offending value', '''
import os
def main():
    aes = K.Crypter(keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, [keyinfo.PRIMARY]))
    mac = K.Signer(keyset(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hmackey, [keyinfo.PRIMARY]))
    un = K.UnversionedVerifier
    w = KZ.choice('badversion', 'notfound', 'short', 'version', 'location')
    try:
        if w == 'badversion':
            b = KZ.choice(1, 77, 255)
            value = str(b)
            x = chr(b) + KZ.string('body', 60)
            KZ.choice(lambda: aes.Decrypt(x, None), lambda: mac.Verify('m', x, None), lambda: mac.AttachedVerify(x, 'n', None))()
        elif w == 'notfound':
            value = KZ.choice('AAAAAA', 'zz-_0w')
            for z in (aes, mac):
                KZ.assume(z.primary_key.hash_id != value)
                KZ.assume(z.primary_key.Header()[1:] != util.Base64WSDecode(value))
            x = chr(0) + util.Base64WSDecode(value) + KZ.string('body', 60)
            KZ.choice(lambda: aes.Decrypt(x, None), lambda: mac.Verify('m', x, None), lambda: aes.GetKey(value))()
        elif w == 'short':
            n = KZ.choice(0, 3, 4)
            value = str(n)
            x = KZ.string('x', n)
            KZ.choice(lambda: aes.Decrypt(x, None), lambda: mac.Verify('m', x, None), lambda: mac.AttachedVerify(x, 'n', None))()
        elif w == 'version':
            n = KZ.choice(7, 1234)
            value = str(n)
            g = K.GenericKeyczar(keyset(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hmackey, [keyinfo.PRIMARY]))
            KZ.choice(g.Promote, g.Demote, g.Revoke)(n)
        else:
            value = '/nowhere/here'
            if os.path.exists(value):
                return
            KZ.choice(readers.CreateReader, writers.CreateWriter)(value)
        KZ.fail('a failing operation raises')
    except errors.KeyczarError as e:
        KZ.prove(value in str(e), 'an error names the value it refuses')
'''),
])
