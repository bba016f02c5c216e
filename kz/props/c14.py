from ..check import prop, Ctx

LIB = '''
from keyczar import keyczart
GEN = (keyinfo.AES, keyinfo.HMAC_SHA1, keyinfo.RSA_PRIV, keyinfo.DSA_PRIV)
DOC = {'AES': (128, 192, 256), 'HMAC_SHA1': (256,), 'RSA_PRIV': (2048, 4096, 1024, 768, 512), 'DSA_PRIV': (1024,),
       'RSA_PUB': (2048, 4096, 1024, 768, 512), 'DSA_PUB': (1024,)}
def purpose(t):
    return keyinfo.DECRYPT_AND_ENCRYPT if t == keyinfo.AES else keyinfo.SIGN_AND_VERIFY
def realsize(k):
    """the size of the material itself"""
    if k.type == keyinfo.AES or k.type == keyinfo.HMAC_SHA1:
        return len(k.key_bytes) * 8
    g = [r for r in KZ.events('random') if r[1][:9] == 'generate:']
    return g[-1][3]
def checked(k, t, size):
    KZ.prove(k.type == t, 'generated key is of the requested type')
    KZ.same(realsize(k), size, 'generated key has the requested size')
    KZ.same(k.size, size, 'generated key records the requested size')
    KZ.same(keys.ReadKey(t, str(k)).size, size, 'stored key reads back with its size')
    if t == keyinfo.AES:
        KZ.same(k.hmac_key.size, 256, 'MAC key of an AES key has the full size')
        KZ.same(len(k.hmac_key.key_bytes), 32, 'MAC key of an AES key has the full size')
    if t == keyinfo.RSA_PRIV or t == keyinfo.DSA_PRIV:
        KZ.same(k.public_key.size, size, 'public half records the same size')
        KZ.same(keys.ReadKey(k.public_key.type, str(k.public_key)).size, size, 'stored public key reads back with its size')
'''

prop('C14', [
    Ctx('generating with each documented size', LIB + '''
def main():
    t = KZ.choice(GEN)
    size = KZ.choice(tuple(DOC[t.name]))
    checked(keys.GenKey(t, size), t, size)
'''),
    Ctx('default sizes', LIB + '''
def main():
    t = KZ.choice(GEN)
    KZ.same(t.default_size, DOC[t.name][0], 'default size is the documented one')
    KZ.prove(t.IsValidSize(t.default_size), 'default size is a valid size')
    checked(keys.GenKey(t) if KZ.flip() else keys.GenKey(t, None), t, t.default_size)
'''),
    Ctx('type tables', LIB + '''
def main():
    t = KZ.choice(GEN + (keyinfo.RSA_PUB, keyinfo.DSA_PUB))
    for s in DOC[t.name]:
        KZ.prove(t.IsValidSize(s), 'documented size is valid')
    KZ.same(sorted(t.sizes), sorted(DOC[t.name]), 'exactly the documented sizes are listed')
    KZ.same(t.default_size, DOC[t.name][0], 'default size is the documented one')
    s = KZ.sym('s', 'int')
    if t.IsValidSize(s):
        KZ.prove(s in DOC[t.name], 'no other size is valid')
'''),
    Ctx('any requested size', LIB + '''
def main():
    t = KZ.choice(GEN)
    size = KZ.sym('size', 'int')
    for s in DOC[t.name]:
        KZ.assume(size != s)
    at = KZ.mark()
    try:
        keys.GenKey(t, size)
        KZ.fail('a size that is not valid for the type is refused')
    except errors.KeyczarError:
        KZ.same(len(KZ.events('random', since=at)), 0, 'nothing is generated for a refused size')
'''),
    Ctx('types that cannot be generated', LIB + '''
def main():
    t = KZ.choice(keyinfo.RSA_PUB, keyinfo.DSA_PUB, keyinfo.KeyType('OTHER', 9, [1024, 2048], 20))
    try:
        if KZ.flip():
            keys.GenKey(t)
        else:
            keys.GenKey(t, KZ.choice(tuple(t.sizes)))
        KZ.fail('keys of this type cannot be generated')
    except errors.KeyczarError:
        KZ.ok('refused')
    try:
        keys.ReadKey(keyinfo.KeyType('OTHER', 9, [1024, 2048], 20), '{}')
        KZ.fail('keys of an unknown type cannot be read')
    except errors.KeyczarError:
        KZ.ok('refused')
'''),
    Ctx('adding a version', LIB + '''
def main():
    t = KZ.choice(GEN)
    n = KZ.choice(0, 1)
    st = KZ.choice(keyinfo.PRIMARY, keyinfo.ACTIVE, keyinfo.INACTIVE)
    mk = {keyinfo.AES: aeskey, keyinfo.HMAC_SHA1: hmackey}.get(t, lambda x: keys.GenKey(t))
    czar = K.GenericKeyczar(keyset(purpose(t), t, mk, [keyinfo.PRIMARY] * n))
    size = KZ.choice((None,) + tuple(DOC[t.name]))
    at = KZ.mark()
    if size is None and KZ.flip():
        czar.AddVersion(st)
    else:
        czar.AddVersion(st, size)
    want = DOC[t.name][0] if size is None else size
    checked(czar.GetKey(czar.metadata.GetVersion(n + 1)), t, want)
    said = KZ.events('print', 'warn', since=at)
    if want < DOC[t.name][0]:
        KZ.prove(len(said) >= 1, 'a key smaller than the default is warned about')
    else:
        KZ.same(len(said), 0, 'no warning for a recommended size')
''', flags={'freshkeys': True}),
    Ctx('adding a version, any other size', LIB + '''
def main():
    t = KZ.choice(GEN + (keyinfo.RSA_PUB, keyinfo.DSA_PUB))
    mk = {keyinfo.AES: aeskey, keyinfo.HMAC_SHA1: hmackey}.get(t, lambda x: keys.GenKey(t))
    n = KZ.choice(0, 1) if t in GEN else 0
    czar = K.GenericKeyczar(keyset(purpose(t), t, mk, [keyinfo.PRIMARY] * n))
    before = str(czar.metadata)
    size = KZ.sym('size', 'int')
    for s in DOC[t.name]:
        KZ.assume(size != s)
    at = KZ.mark()
    try:
        czar.AddVersion(KZ.choice(keyinfo.PRIMARY, keyinfo.ACTIVE), size)
        KZ.fail('a size that is not valid for the type is refused')
    except errors.KeyczarError:
        KZ.same(str(czar.metadata), before, 'a refused size changes nothing')
        KZ.same(len(czar.versions), n, 'a refused size adds nothing')
        KZ.same(len(KZ.events('random', since=at)), 0, 'nothing is generated for a refused size')
'''),
    Ctx('the tool', LIB + '''
def main():
    t = KZ.choice(GEN)
    KZ.putfile('/loc', '')
    KZ.putfile('/loc/meta', str(metadata(purpose(t), t, [])))
    bad = (300, 0, 1, 64, 127, 129, 8192, -2, -128)
    size = KZ.choice((None, -1) + bad + tuple(DOC[t.name]))
    args = ['addkey', '--location=/loc']
    if size is not None:
        args.append('--size=%d' % size)
    at = KZ.mark()
    try:
        keyczart.main(args)
    except errors.KeyczarError:
        KZ.prove(size in bad, 'a valid size is accepted by the tool')
        KZ.same(len(KZ.events('fwrite', since=at)), 0, 'a refused size writes nothing')
        return
    KZ.prove(size not in bad, 'a size that is not valid is refused by the tool')
    want = DOC[t.name][0] if size is None or size == -1 else size
    k = keys.ReadKey(t, KZ.file('/loc/1'))
    KZ.same(realsize(k), want, 'tool generates the requested size')
    KZ.same(k.size, want, 'tool records the requested size')
'''),
    Ctx('adding versions of different sizes', LIB + '''
def main():
    t = KZ.choice(GEN)
    czar = K.GenericKeyczar(keyset(purpose(t), t, hmackey, []))
    d = DOC[t.name]
    i = 0
    for size in KZ.choice((d[-1], None, d[0]), (None, d[-1], None), (d[0], d[-1], None)):
        i += 1
        czar.AddVersion(keyinfo.ACTIVE, size)
        checked(czar.GetKey(czar.metadata.GetVersion(i)), t, d[0] if size is None else size)
    keys.GenKey(t, d[-1])
    checked(keys.GenKey(t), t, d[0])
''', flags={'freshkeys': True}),
])
