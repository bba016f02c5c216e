from ..check import prop, Ctx
from .c02 import SRC
from .c17 import LIB as SESS

LIB = SRC + '''
def judge(at, *results):
    """the rules on one finished path"""
    KZ.same(KZ.tags_compared(since=at), 0, 'a MAC is never compared by an operation that stops at the first difference')
    KZ.same(KZ.tags_partly(*results, since=at), 0, 'every path that looks at a byte of a MAC looks at all of them')
def rejected(at):
    judge(at)
    KZ.same(KZ.plain_looked(since=at), 0, 'padding is examined only once the MAC has been accepted')
    KZ.reach('rejected')
'''

CT = {'ct': True}

prop('C26', [
    Ctx('tags of equal length', LIB + '''
def main():
    h = hmackey('h')
    m = KZ.sym('m', 'str')
    s = KZ.string('s', 20)
    at = KZ.mark()
    r = h.Verify(m, s)
    judge(at, r)
    if r:
        KZ.same(s, KZ.hmac(KZ.string('hmac_h', 32), m), 'accepted only when every byte agrees')
        KZ.reach('accepted')
    else:
        KZ.reach('rejected')
''', CT, must=('accepted', 'rejected')),
    Ctx('tags of any length', LIB + '''
def main():
    h = hmackey('h')
    m = KZ.sym('m', 'str')
    s = KZ.sym('s', 'str')
    at = KZ.mark()
    r = h.Verify(m, s)
    judge(at, r)
    if r:
        KZ.same(len(s), 20, 'strings of different length never compare equal')
    else:
        KZ.reach('rejected')
''', CT, must=('rejected',)),
    Ctx('short and long tags', LIB + '''
def main():
    h = hmackey('h')
    m = KZ.sym('m', 'str')
    n = KZ.choice(0, 1, 4, 16, 19, 21, 40)
    s = KZ.string('s%d' % n, n)
    at = KZ.mark()
    r = h.Verify(m, s)
    KZ.prove(not r, 'strings of different length never compare equal')
    KZ.same(KZ.tags_compared(since=at), 0, 'a MAC is never compared by an operation that stops at the first difference')
''', CT),
    Ctx('computed tags', LIB + '''
def main():
    h = hmackey('h')
    if not KZ.has(h, 'VerifySignedData'):
        return
    a = h.Sign(KZ.sym('m', 'str'))
    n = KZ.choice(0, 1, 19, 20, 21)
    s = KZ.string('s%d' % n, n)
    at = KZ.mark()
    r = h.VerifySignedData(a, s)
    if n == 20:
        judge(at, r)
    else:
        KZ.prove(not r, 'strings of different length never compare equal')
''', CT),
    Ctx('decryption with a key', LIB + '''
def main():
    k = aeskey('k')
    c = KZ.sym('c', 'str')
    at = KZ.mark()
    try:
        p = k.Decrypt(c)
    except errors.KeyczarError:
        rejected(at)
        return
    judge(at)
    KZ.reach('accepted')
''', CT, must=('accepted', 'rejected')),
    Ctx('decryption with a key set', LIB + '''
def main():
    crypter = K.Crypter(keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, [keyinfo.PRIMARY, keyinfo.ACTIVE][:KZ.choice(1, 2)]))
    c = KZ.sym('c', 'str')
    at = KZ.mark()
    try:
        p = crypter.Decrypt(c, None)
    except errors.KeyczarError:
        rejected(at)
        return
    judge(at)
    KZ.reach('accepted')
''', CT, must=('accepted', 'rejected')),
    Ctx('streamed decryption', LIB + '''
def main():
    k = aeskey('1')
    crypter = K.Crypter(keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, [keyinfo.PRIMARY]))
    n = KZ.choice(57, 73)
    c = k.Header() + KZ.string('r%d' % n, n - 5)
    rd = crypter.CreateDecryptingStreamReader(Src(c, n, KZ.choice(0, 7), KZ.choice((), (3,))), None)
    at = KZ.mark()
    try:
        for i in range(3):
            rd.read(-1)
    except errors.KeyczarError:
        rejected(at)
        return
    judge(at)
    KZ.reach('accepted')
''', CT, must=('accepted', 'rejected')),
    Ctx('signatures with a key set', LIB + '''
def main():
    cls = KZ.choice(K.Verifier, K.Signer, K.UnversionedVerifier, K.UnversionedSigner)
    v = cls(keyset(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hmackey, [keyinfo.PRIMARY, keyinfo.ACTIVE][:KZ.choice(1, 2)]))
    d = KZ.sym('d', 'str')
    s = KZ.sym('s', 'str')
    at = KZ.mark()
    try:
        r = v.Verify(d, s, None)
    except errors.KeyczarError:
        judge(at)
        return
    judge(at, r)
    if not r:
        KZ.reach('rejected')
''', CT, must=('rejected',)),
    Ctx('attached signatures', LIB + '''
def main():
    v = K.Verifier(keyset(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hmackey, [keyinfo.PRIMARY]))
    n = KZ.choice(0, 3)
    b = hmackey('1').Header() + KZ.string('len', 4) + KZ.sym('rest', 'str')
    at = KZ.mark()
    try:
        r = v.AttachedVerify(b, KZ.string('nonce%d' % n, n), None)
    except errors.KeyczarError:
        judge(at)
        return
    judge(at)
    KZ.reach('rejected' if not r else 'accepted')
''', CT, must=('accepted',)),
    Ctx('sessions', SESS + LIB + '''
def main():
    e, d = aescrypters()
    s = K.SessionEncrypter(e)
    r = K.SessionDecrypter(d, s.session_material)
    c = KZ.sym('c', 'str')
    at = KZ.mark()
    try:
        r.Decrypt(c, None)
    except errors.KeyczarError:
        rejected(at)
        return
    judge(at)
    KZ.reach('accepted')
''', CT, must=('accepted', 'rejected')),
    Ctx('a tag after another one', LIB + '''
def main():
    h = hmackey('h')
    m = KZ.sym('m', 'str')
    s = KZ.string('s', 20)
    h.Verify(m, KZ.string('t', 20) if KZ.flip() else KZ.hmac(KZ.string('hmac_h', 32), m))
    at = KZ.mark()
    r = h.Verify(m, s)
    judge(at, r)
    if r:
        KZ.same(s, KZ.hmac(KZ.string('hmac_h', 32), m), 'accepted only when every byte agrees')
        KZ.reach('accepted')
    else:
        KZ.reach('rejected')
''', CT, must=('accepted', 'rejected')),
])
