from ..check import prop, Ctx

RAW = {'raw': True}
FRESH = {'freshkeys': True}

LIB = '''
SHA1_OF_NOTHING = KZ.sha1('')
def rsa(size):
    return keys.GenKey(keyinfo.RSA_PRIV, size)
def oaep(m, k, seed):
    """EME-OAEP of PKCS#1 v2.1 with SHA-1, MGF1 and the empty label"""
    db = SHA1_OF_NOTHING + chr(0) * (k - len(m) - 42) + chr(1) + m
    masked = util.Xor(db, util.MGF(seed, k - 21))
    return chr(0) + util.Xor(seed, util.MGF(masked, 20)) + masked
def emsa(m, k):
    """EMSA-PKCS1-v1_5 with SHA-1, less the leading zero octet"""
    t = ''.join([chr(c) for c in (48, 33, 48, 9, 6, 5, 43, 14, 3, 2, 26, 5, 0, 4, 20)]) + KZ.sha1(m)
    return chr(1) + chr(255) * (k - 3 - len(t)) + chr(0) + t
class Raw(object):
    """a key whose raw decryption yields a given octet string"""
    def __init__(self, key, out):
        self.n = key.n
        self.e = key.e
        self.out = out
        self.calls = []
    def decrypt(self, c):
        self.calls.append(c)
        return self.out
'''

prop('C23', [
    Ctx('encryption is OAEP with SHA-1', LIB + '''
def main():
    size = KZ.choice(1024, 2048, 4096)
    k = rsa(size)
    n = size // 8
    m = KZ.string('m', KZ.choice(0, 1, 20, n - 43, n - 42))
    at = KZ.mark()
    pub = k.public_key if KZ.flip() else keys.ReadKey(keyinfo.RSA_PUB, str(k.public_key))
    x = (k if KZ.flip() else pub).Encrypt(m)
    es = KZ.events('ck.encrypt', since=at)
    KZ.same(len(es), 1, 'one raw encryption per message')
    rs = [r for r in KZ.events('random', since=at) if r[1] == 'urandom']
    KZ.same(len(rs), 1, 'one fresh seed per message')
    KZ.same(rs[0][3], 20, 'the seed has hash length')
    KZ.same(es[0][2], oaep(m, n, rs[0][2]), 'the encoded message is OAEP with SHA-1, MGF1 and the empty label')
    KZ.same(len(es[0][2]), n, 'the encoded message has the length of the modulus')
''', FRESH),
    Ctx('message length limit', LIB + '''
def main():
    size = KZ.choice(1024, 4096)
    k = rsa(size)
    n = size // 8
    m = KZ.string('m', n + KZ.choice(-41, -40, 0, 100))
    at = KZ.mark()
    try:
        k.Encrypt(m)
    except errors.KeyczarError:
        KZ.reach('refused')
        KZ.same(len(KZ.events('ck.encrypt', since=at)), 0, 'nothing is encrypted')
        return
    KZ.fail('messages longer than the modulus allows are refused')
''', FRESH, must=('refused',)),
    Ctx('message length limit, any length', LIB + '''
def main():
    k = rsa(1024)
    m = KZ.sym('m', 'str')
    ok = len(m) <= 86
    try:
        k.Encrypt(m)
    except errors.KeyczarError:
        KZ.prove(not ok, 'messages that fit are encrypted')
        KZ.reach('refused')
        return
    KZ.prove(ok, 'messages longer than the modulus allows are refused')
''', FRESH, must=('refused',)),
    Ctx('round trip', LIB + '''
def main():
    size = KZ.choice(1024, 4096)
    k = rsa(size)
    m = KZ.string('m', KZ.choice(0, 1, size // 8 - 42))
    KZ.same(k.Decrypt(k.Encrypt(m)), m, 'decryption returns the encrypted message')
    KZ.reach('round trip')
''', FRESH, must=('round trip',), quiet_exc=True),
    Ctx('messages with leading separators', LIB + '''
def main():
    k = rsa(1024)
    m = KZ.choice(chr(1), chr(0), chr(0) + chr(1), chr(1) + chr(1), chr(0) * 3 + chr(1) + chr(0)) + KZ.string('m', 3)
    KZ.same(k.Decrypt(k.Encrypt(m)), m, 'decryption returns the encrypted message')
    KZ.reach('round trip')
''', FRESH, must=('round trip',), quiet_exc=True),
    Ctx('decoding undoes the encoding, leading zeros stripped', LIB + '''
def main():
    size = KZ.choice(1024, 4096)
    k = rsa(size)
    n = size // 8
    seed = KZ.string('seed', 20)
    m = KZ.string('m', KZ.choice(0, 1, 30, n - 42))
    c = KZ.string('c', n)
    k.key = Raw(k.key, oaep(m, n, seed)[1:])
    KZ.same(k.Decrypt(KZ.string('header', 5) + c), m, 'a correctly encoded message is returned')
    KZ.same(k.key.calls, [c], 'what follows the header is decrypted once')
''', FRESH),
    Ctx('decoding checks label hash and separator', LIB + '''
def main():
    k = rsa(1024)
    z = KZ.choice(0, 1, 2, 5)
    s = KZ.string('s', 127 - z)
    k.key = Raw(k.key, s)
    em = chr(0) * z + s
    seed = util.Xor(em[:20], util.MGF(em[20:], 20))
    db = util.Xor(em[20:], util.MGF(seed, 107))
    try:
        r = k.Decrypt(KZ.string('x', 133))
    except errors.KeyczarError:
        KZ.reach('refused')
        return
    KZ.prove(db[:20] == SHA1_OF_NOTHING, 'a message is returned only if the label hash is right')
    t = db[20:].lstrip(chr(0))
    KZ.prove(t[:1] == chr(1), 'a message is returned only if the separator is right')
    KZ.same(r, t[1:], 'what follows the separator is returned')
    KZ.reach('accepted')
''', FRESH, must=('refused', 'accepted')),
    Ctx('wrong encodings are refused', LIB + '''
def main():
    k = rsa(1024)
    seed = KZ.string('seed', 20)
    bad = KZ.choice('hash', 'separator', 'no separator', 'short', 'empty')
    h = SHA1_OF_NOTHING
    rest = chr(0) * 50 + chr(1) + KZ.string('m', 36)
    if bad == 'hash':
        h = KZ.string('h', 20)
        KZ.assume(h != SHA1_OF_NOTHING)
    elif bad == 'separator':
        rest = chr(0) * 50 + chr(2) + KZ.string('m', 36)
    elif bad == 'no separator':
        rest = chr(0) * 87
    db = h + rest
    masked = util.Xor(db, util.MGF(seed, 107))
    em = util.Xor(seed, util.MGF(masked, 20)) + masked
    if bad == 'short':
        em = KZ.string('em', KZ.choice(1, 20, 41))
    elif bad == 'empty':
        em = ''
    k.key = Raw(k.key, em)
    try:
        k.Decrypt(KZ.string('x', 133))
    except errors.KeyczarError:
        KZ.reach('refused ' + bad)
        return
    KZ.fail('wrong encodings are refused with a Keyczar error', bad)
''', FRESH, must=('refused hash', 'refused separator', 'refused no separator', 'refused short', 'refused empty')),
    Ctx('signatures are PKCS#1 v1.5 over SHA-1', LIB + '''
def main():
    size = KZ.choice(1024, 2048, 4096)
    k = rsa(size)
    n = size // 8
    m = KZ.choice(KZ.sym('m', 'str'), '')
    at = KZ.mark()
    s = k.Sign(m)
    es = KZ.events('ck.sign', since=at)
    KZ.same(len(es), 1, 'one raw signature per message')
    KZ.same(es[0][2], emsa(m, n), 'the PKCS#1 v1.5 SHA-1 encoding of the full modulus length is signed')
    KZ.same(len(s), n, 'a signature has the length of the modulus')
    at = KZ.mark()
    pub = k.public_key if KZ.flip() else keys.ReadKey(keyinfo.RSA_PUB, str(k.public_key))
    r = pub.Verify(m, s)
    KZ.prove(r, 'the signature verifies')
    es = KZ.events('ck.verify', since=at)
    KZ.same(len(es), 1, 'one raw verification per signature')
    KZ.same(es[0][2], emsa(m, n), 'the full encoding is verified')
''', FRESH),
    Ctx('verification covers the full encoding', LIB + '''
def main():
    size = KZ.choice(1024, 2048)
    k = rsa(size)
    m, s = KZ.sym('m', 'str'), KZ.string('s', KZ.choice(size // 8, 1, size // 8 + 1))
    at = KZ.mark()
    r = (k if KZ.flip() else k.public_key).Verify(m, s)
    es = KZ.events('ck.verify', since=at)
    KZ.prove(not r or len(es) == 1, 'nothing is accepted without a raw verification')
    for e in es:
        KZ.same(e[2], emsa(m, size // 8), 'the full encoding is verified')
''', FRESH),
    Ctx('encodings are exact', LIB + '''
def main():
    m = KZ.choice(KZ.sym('m', 'str'), KZ.string('m', 3))
    size = KZ.choice(512, 768, 1024, 2048, 4096)
    e = util.MakeEmsaMessage(m, size)
    KZ.same(e, emsa(m, size // 8), 'PKCS#1 v1.5 SHA-1 encoding')
    KZ.same(len(e), size // 8 - 1, 'one octet less than the modulus')
''', RAW),
    Ctx('mask generation', LIB + '''
import struct
def main():
    seed = KZ.choice(KZ.sym('seed', 'str'), KZ.string('seed', 20))
    n = KZ.choice(0, 1, 19, 20, 21, 40, 41, 107, 108, 235, 491)
    want = ''
    for i in range(26):
        want += KZ.sha1(seed + struct.pack('>i', i))
    KZ.same(util.MGF(seed, n), want[:n], 'MGF1: hashes of seed and counter, cut to length')
''', RAW),
    Ctx('octet-wise exclusive or', LIB + '''
def main():
    n = KZ.choice(0, 1, 3)
    a, b = [KZ.sym('a%d' % i, 'byte') for i in range(n)], [KZ.sym('b%d' % i, 'byte') for i in range(n)]
    x = util.Xor(''.join([chr(c) for c in a]), ''.join([chr(c) for c in b]))
    KZ.same(len(x), n, 'as long as its arguments')
    for i in range(n):
        KZ.same(ord(x[i]), a[i] ^ b[i], 'octet by octet')
''', RAW),
    Ctx('exclusive or of unequal lengths', LIB + '''
def main():
    a = [KZ.sym('a%d' % i, 'byte') for i in range(3)]
    b = KZ.sym('b', 'byte')
    s, t = ''.join([chr(c) for c in a]), chr(b)
    x = util.Xor(s, t) if KZ.flip() else util.Xor(t, s)
    KZ.same(x[:2], s[:2], 'the shorter argument is extended by leading zeros')
    KZ.same(ord(x[2]), a[2] ^ b, 'octet by octet')
''', RAW),
    Ctx('one mask after another', LIB + '''
import struct
def main():
    a, b = KZ.string('a', KZ.choice(20, 107)), KZ.string('b', 20)
    for seed, n in ((a, 107), (b, 107), (b, 20), (a, 20)):
        want = ''
        for i in range(6):
            want += KZ.sha1(seed + struct.pack('>i', i))
        KZ.same(util.MGF(seed, n), want[:n], 'MGF1: hashes of seed and counter, cut to length')
''', RAW),
    Ctx('one message after another', LIB + '''
def main():
    k = rsa(1024)
    for i in (1, 2):
        m = KZ.string('m%d' % i, KZ.choice(5, 9))
        at = KZ.mark()
        k.public_key.Encrypt(m)
        es = KZ.events('ck.encrypt', since=at)
        KZ.same(len(es), 1, 'one raw encryption per message')
        rs = [r for r in KZ.events('random', since=at) if r[1] == 'urandom']
        KZ.same(len(rs), 1, 'one fresh seed per message')
        KZ.same(es[0][2], oaep(m, 128, rs[0][2]), 'the encoded message is OAEP with SHA-1, MGF1 and the empty label')
''', FRESH),
    Ctx('one signature after another', LIB + '''
def main():
    k = rsa(1024)
    m1, m2 = KZ.string('m1', 5), KZ.sym('m2', 'str')
    for m in (m1, m2):
        at = KZ.mark()
        k.Sign(m)
        es = KZ.events('ck.sign', since=at)
        KZ.same(len(es), 1, 'one raw signature per message')
        KZ.prove(KZ.mentions(es[0][2], KZ.sha1(m)), 'the signature covers the hash of this message')
''', FRESH),
])
