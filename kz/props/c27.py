from ..check import prop, Ctx
from .. import xlang

LANG = {'Java': xlang.java(), 'C++': xlang.cpp()}

LIB = 'LANG = %r\n' % LANG + '''
import json
def agrees(what, mine):
    """a constant of the Python code equals that of the other trees"""
    for l in ('Java', 'C++'):
        if what not in LANG[l]:
            continue
        if LANG[l][what] is None:
            KZ.undecided('no ' + what + ' found in ' + l)
        else:
            KZ.same(mine, LANG[l][what], what + ' agrees with ' + l)
def known(what, names):
    """every name used by Python exists in the other trees"""
    for l in ('Java', 'C++'):
        if LANG[l][what] is None:
            KZ.undecided('no ' + what + ' found in ' + l)
            continue
        for n in names:
            KZ.prove(n in LANG[l][what], 'the ' + what + ' of Python exist in ' + l)
def needs(l, kind, d, inner=()):
    """everything the reader of language l needs is in d"""
    put, get, opt = LANG[l][kind]
    if get is None:
        KZ.undecided('no fields of ' + kind + ' found in ' + l)
        return
    have = list(d.keys())
    for i in inner:
        have += list(d[i].keys())
    for f in get:
        if f not in opt and '.' not in f:
            KZ.prove(f in have, 'every field of ' + kind + ' that ' + l + ' needs is written: ' + f)
def written(l, kind):
    put, get, opt = LANG[l][kind]
    return put
NUM = ('size', 'versionNumber')
def value(f, i):
    if f == 'size':
        return i
    if f == 'mode':
        return 'CBC'
    if f == 'padding':
        return 'OAEP'
    return KZ.b64(KZ.string('f_' + f, 20))
def record(l, kind, size, **inner):
    d = {}
    for f in written(l, kind):
        d[f] = inner[f] if f in inner else value(f, size)
    return d
def reads(f, l, kind):
    try:
        r = f()
    except (KeyError, errors.KeyczarError) as e:
        KZ.fail('what ' + l + ' writes is read: ' + kind, KZ.excname(e))
        return None
    KZ.ok('what ' + l + ' writes is read: ' + kind)
    return r
'''

prop('C27', [
    Ctx('header and lengths', LIB + '''
def main():
    h = hmackey('h')
    a = aeskey('a')
    k = KZ.choice(h, a)
    agrees('version', ord(k.Header()[0]))
    agrees('version', ord(K.VERSION_BYTE))
    agrees('hash', len(k.Header()) - 1)
    agrees('hash', K.KEY_HASH_SIZE)
    agrees('header', K.HEADER_SIZE)
    agrees('header', len(k.Header()))
    agrees('mac', len(h.Sign(KZ.sym('m', 'str'))))
    agrees('mac', util.HLEN)
    agrees('block', a.block_size)
    agrees('block', len(a.Encrypt('')) - len(a.Header()) - len(h.Sign('')) - 16)
'''),
    Ctx('names', LIB + '''
def main():
    known('statuses', [str(s) for s in keyinfo.statuses.values()])
    known('statuses', list(keyinfo.statuses.keys()))
    known('purposes', [str(s) for s in keyinfo.purposes.values() if str(s) != 'TEST'])
    known('types', [str(s) for s in keyinfo.types.values()])
    known('types', list(keyinfo.types.keys()))
    for l in ('Java', 'C++'):
        for s in LANG[l]['statuses'] or []:
            KZ.same(str(keyinfo.GetStatus(s)), s, 'every status that ' + l + ' writes is known')
        for s in LANG[l]['purposes'] or []:
            if s != 'TEST':
                KZ.same(str(keyinfo.GetPurpose(s)), s, 'every purpose that ' + l + ' writes is known')
    known('modes', [json.loads(str(aeskey('a')))['mode']])
'''),
    Ctx('alphabet', LIB + '''
def main():
    if LANG['Java']['alphabet'] is None:
        KZ.undecided('no alphabet found in Java')
        return
    al = LANG['Java']['alphabet']
    KZ.same(len(al), 64, 'the alphabet has 64 letters')
    x = KZ.string('x', 3)
    # every group of six bits is written as the letter at that place
    n = KZ.choice(0, 7, 13, 25, 26, 31, 38, 51, 52, 59, 61, 62, 63)
    KZ.same(util.Base64WSEncode(chr(n * 4 + 2) + chr(15)), al[n] + al[32] + al[60], 'the Base64 alphabet agrees with Java')
    KZ.same(util.Base64WSEncode(chr(255) * 3 + chr(251)), al[63] * 4 + al[62] + al[48], 'the Base64 alphabet agrees with Java')
    KZ.same(util.Base64WSDecode(al[62] + al[63] + al[62] + al[63]), chr(251) + chr(255) + chr(191), 'the Base64 alphabet agrees with Java')
''', {'raw': True}),
    Ctx('metadata written', LIB + '''
def main():
    m = metadata(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, [keyinfo.PRIMARY, keyinfo.ACTIVE])
    d = json.loads(str(m))
    for b in (d['encrypted'], d['versions'][0]['exportable']):
        KZ.prove(b is True or b is False, 'flags are written as Booleans')
    for v in (1, 2):
        KZ.same(d['versions'][v - 1]['versionNumber'], v, 'version numbers are written as numbers')
    for b in (d['name'], d['purpose'], d['type'], d['versions'][0]['status']):
        KZ.prove(isinstance(b, str), 'names are written as strings')
    needs('Java', 'meta', d)
    for v in d['versions']:
        needs('Java', 'version fields', v)
    put, get, opt = LANG['C++']['meta and version fields']
    if get is None:
        KZ.undecided('no metadata fields found in C++')
    else:
        for f in get:
            if f not in opt:
                KZ.prove(f in d or f in d['versions'][0], 'every metadata field that C++ needs is written: ' + f)
    for f in LANG['Java']['meta'][2]:
        KZ.prove(f in d, 'every metadata field that Java looks for is written: ' + f)
    for f in LANG['Java']['version fields'][2]:
        KZ.prove(f in d['versions'][0], 'every version field that Java looks for is written: ' + f)
'''),
    Ctx('metadata read', LIB + '''
def main():
    vals = {'name': 'n', 'purpose': 'SIGN_AND_VERIFY', 'type': 'HMAC_SHA1', 'encrypted': False,
            'versionNumber': 1, 'status': 'PRIMARY', 'exportable': False}
    l = KZ.choice('Java', 'C++')
    if l == 'Java':
        top, ver = LANG[l]['meta'][0], LANG[l]['version fields'][0]
    else:
        top = LANG[l]['meta and version fields'][0]
        if top is not None:
            ver = [f for f in top if f in ('versionNumber', 'status', 'exportable')]
            top = [f for f in top if f not in ver]
    if top is None or ver is None:
        KZ.undecided('no metadata fields found in ' + l)
        return
    v = {}
    for f in ver:
        v[f] = vals[f] if f in vals else KZ.sym(f, 'str')
    d = {}
    for f in top:
        d[f] = [v] if f == 'versions' else vals[f] if f in vals else KZ.sym(f, 'str')
    m = reads(lambda: keydata.KeyMetadata.Read(json.dumps(d)), l, 'metadata')
    if m is not None:
        KZ.same(m.GetVersion(1).status, keyinfo.PRIMARY, 'statuses mean the same')
        KZ.same(m.purpose, keyinfo.SIGN_AND_VERIFY, 'purposes mean the same')
        KZ.same(m.type, keyinfo.HMAC_SHA1, 'types mean the same')
'''),
    Ctx('keys written', LIB + '''
def main():
    l = KZ.choice('Java', 'C++')
    a = json.loads(str(aeskey('a')))
    KZ.same(a['size'], 128, 'sizes are written as numbers')
    KZ.same(a['hmacKey']['size'], 256, 'sizes are written as numbers')
    needs(l, 'aes', a, ('hmacKey',))
    needs(l, 'hmac', a['hmacKey'])
    needs(l, 'hmac', json.loads(str(hmackey('h'))))
    d = keys.GenKey(keyinfo.DSA_PRIV)
    j = json.loads(str(d))
    needs(l, 'dsa private', j, ('publicKey',))
    needs(l, 'dsa public', j['publicKey'])
    needs(l, 'dsa public', json.loads(str(d.public_key)))
    r = keys.GenKey(keyinfo.RSA_PRIV)
    j = json.loads(str(r))
    needs(l, 'rsa private', j, ('publicKey',))
    needs(l, 'rsa public', j['publicKey'])
    needs(l, 'rsa public', json.loads(str(r.public_key)))
'''),
    Ctx('numbers in written keys', LIB + '''
def number(text, v, what):
    b = util.Base64WSDecode(str(text))
    KZ.same(util.BytesToLong(b), v, what)
    KZ.prove(ord(b[0]) < 128, 'stored numbers are non-negative as two\\'s complement, which Java reads: ' + what)
def main():
    t = KZ.choice(keyinfo.RSA_PRIV, keyinfo.DSA_PRIV)
    k = keys.GenKey(t)
    n = k.key
    j = json.loads(str(k))
    p = j['publicKey']
    if t == keyinfo.DSA_PRIV:
        number(j['x'], n.x, 'x of a DSA key')
        for f, v in (('y', n.y), ('p', n.p), ('q', n.q), ('g', n.g)):
            number(p[f], v, f + ' of a DSA key')
    else:
        number(j['privateExponent'], n.d, 'private exponent')
        number(j['primeP'], n.q, 'first prime')
        number(j['primeQ'], n.p, 'second prime')
        number(j['primeExponentP'], n.d % (n.q - 1), 'private exponent modulo the first prime less one')
        number(j['primeExponentQ'], n.d % (n.p - 1), 'private exponent modulo the second prime less one')
        number(j['crtCoefficient'], n.u, 'inverse of the second prime modulo the first')
        number(p['modulus'], n.n, 'modulus')
        number(p['publicExponent'], n.e, 'public exponent')
'''),
    Ctx('keys read', LIB + '''
def main():
    l = KZ.choice('Java', 'C++')
    for k in ('aes', 'hmac', 'dsa private', 'dsa public', 'rsa private', 'rsa public'):
        if written(l, k) is None:
            KZ.undecided('no fields of ' + k + ' found in ' + l)
            return
    h = record(l, 'hmac', 256)
    c = KZ.choice('aes', 'hmac', 'dsa', 'dsapub', 'rsa', 'rsapub')
    if c == 'aes':
        k = reads(lambda: keys.ReadKey(keyinfo.AES, json.dumps(record(l, 'aes', 128, hmacKey=h))), l, c)
        if k is not None:
            KZ.same(k.key_bytes, KZ.string('f_aesKeyString', 20), 'the AES key is read from its field')
            KZ.same(k.hmac_key.key_bytes, KZ.string('f_hmacKeyString', 20), 'the HMAC key is read from its field')
    elif c == 'hmac':
        k = reads(lambda: keys.ReadKey(keyinfo.HMAC_SHA1, json.dumps(h)), l, c)
        if k is not None:
            KZ.same(k.key_bytes, KZ.string('f_hmacKeyString', 20), 'the HMAC key is read from its field')
    elif c == 'dsa':
        k = reads(lambda: keys.ReadKey(keyinfo.DSA_PRIV, json.dumps(record(l, 'dsa private', 1024, publicKey=record(l, 'dsa public', 1024)))), l, c)
    elif c == 'dsapub':
        k = reads(lambda: keys.ReadKey(keyinfo.DSA_PUB, json.dumps(record(l, 'dsa public', 1024))), l, c)
    elif c == 'rsa':
        k = reads(lambda: keys.ReadKey(keyinfo.RSA_PRIV, json.dumps(record(l, 'rsa private', 2048, publicKey=record(l, 'rsa public', 2048)))), l, c)
    else:
        k = reads(lambda: keys.ReadKey(keyinfo.RSA_PUB, json.dumps(record(l, 'rsa public', 2048))), l, c)
'''),
    Ctx('sessions', LIB + '''
def main():
    e = K.Encrypter(keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, [keyinfo.PRIMARY]))
    g = K.Signer(keyset(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hmackey, [keyinfo.PRIMARY]))
    c = K.Crypter(keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, [keyinfo.PRIMARY]))
    s = K.SignedSessionEncrypter(e, g)
    j = json.loads(c.Decrypt(s.session_material))
    for l in ('Java', 'C++'):
        needs(l, 'session', j)
        if isinstance(j['key'], dict):
            needs(l, 'aes', j['key'], ('hmacKey',))
    agrees('nonce', len(KZ.unb64(j['nonce'])))
'''),
    Ctx('packed session keys', LIB + '''
def main():
    order = LANG['Java']['session keys']
    if order is None:
        KZ.undecided('no packed session keys found in Java')
        return
    r = keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, [keyinfo.PRIMARY])
    c = K.Crypter(r)
    s = K.SessionEncrypter(K.Encrypter(r))
    sizes = {'aes': 16, 'hmac': 32}
    lens = [sizes[o] for o in order]
    packed = c.Decrypt(s.session_material)
    KZ.same(len(packed), 12 + sum(lens), 'a packed session key holds a cipher key and a MAC key')
    head = chr(0) * 3
    KZ.same(packed[:4], head + chr(2), 'a packed session key starts with the number of keys')
    KZ.same(packed[4:8], head + chr(lens[0]), 'the keys of a session are packed in the order that Java reads')
    KZ.same(packed[8 + lens[0]:12 + lens[0]], head + chr(lens[1]), 'the keys of a session are packed in the order that Java reads')
    # and what Java packs is read
    k = {'aes': KZ.string('ka', 16), 'hmac': KZ.string('kh', 32)}
    blob = head + chr(2)
    for o in order:
        blob += head + chr(sizes[o]) + k[o]
    d = K.SessionDecrypter(c, c.Encrypt(blob))
    kk = keys.AesKey(util.Base64WSEncode(k['aes']), keys.HmacKey(util.Base64WSEncode(k['hmac']), 256), 128)
    m = KZ.string('m', 5)
    try:
        KZ.same(d.Decrypt(util.Base64WSEncode(kk.Encrypt(m))), m, 'what Java encrypts in a session decrypts')
    except errors.KeyczarError:
        KZ.fail('what Java encrypts in a session decrypts')
'''),
    Ctx('files', LIB + '''
def main():
    KZ.putfile('/loc', '')
    KZ.putfile('/loc/meta', None)
    at = KZ.mark()
    writers.CreateWriter('/loc').WriteMetadata(metadata(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, []))
    names = [e[1] for e in KZ.events('fwrite', since=at)]
    for l in ('Java', 'C++'):
        if LANG[l]['meta file'] is None:
            KZ.undecided('no metadata file name found in ' + l)
        else:
            KZ.prove('/loc/' + LANG[l]['meta file'] in names, 'metadata is stored under the name that ' + l + ' opens')
'''),
])
