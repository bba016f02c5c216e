from ..check import prop, Ctx

RT = '''
import struct
def main():
    n = KZ.choice(16, 24, 32)
    k = aeskey('1', n)
    def mk(tag):
        return aeskey(tag, n)
    crypter = K.Crypter(keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, mk, [keyinfo.PRIMARY]))
    m = KZ.sym('m', 'str')
    if KZ.flip():
        c = crypter.Encrypt(m, None)
        KZ.same(crypter.Decrypt(c, None), m, 'decrypt inverts encrypt for every message')
    else:
        e = crypter.Encrypt(m)
        KZ.same(crypter.Decrypt(e), m, 'decrypt inverts encrypt for every message (web-safe form)')
        c = KZ.unb64(e)
    KZ.prove(c[:1] == chr(0), 'ciphertext starts with the version byte 0')
    hid = KZ.sha1(struct.pack('>i', n) + KZ.string('aes_1', n) + KZ.string('hmac_1', 32))[:4]
    KZ.same(c[1:5], hid, 'ciphertext names the key by the first four bytes of its hash')
    KZ.prove(c[-20:] == KZ.hmac(KZ.string('hmac_1', 32), c[:-20]), 'ciphertext ends with HMAC-SHA1 over header, IV and body')
    KZ.same((len(c) - 41) % 16, 0, 'body is a whole number of cipher blocks')
    KZ.prove(len(c) > 41 + len(m), 'body holds the message and at least one byte of padding')
    KZ.prove(len(c) <= 41 + len(m) + 16, 'padding is at most one block')
    KZ.prove(not KZ.mentions_bare(c, m), 'plaintext appears in the ciphertext only under the cipher')
    rnd = KZ.randoms()
    KZ.same(len(rnd), 1, 'exactly one fresh random value per message')
    KZ.same(c[5:21], rnd[0][1], 'the IV of the message is that fresh random value')
    KZ.same(len(rnd[0][1]), 16, 'the IV is one cipher block')
    # foreign decryption of the documented layout
    KZ.same(k.Decrypt(c), m, 'key-level decrypt agrees')
'''

FOREIGN = '''
def main():
    k = aeskey('1')
    n = KZ.choice(0, 1, 15, 16, 17, 32)
    m = KZ.string('m%d' % n, n)
    pad = 16 - n % 16
    iv = KZ.string('iv', 16)
    from Crypto.Cipher import AES
    body = k.Header() + iv + AES.new(KZ.string('aes_1', 16), AES.MODE_CBC, iv).encrypt(m + chr(pad) * pad)
    c = body + KZ.hmac(KZ.string('hmac_1', 32), body)
    crypter = K.Crypter(keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, [KZ.choice(keyinfo.PRIMARY, keyinfo.ACTIVE, keyinfo.INACTIVE)]))
    KZ.same(crypter.Decrypt(c, None), m, 'a ciphertext made to the documented format decrypts')
    KZ.same(crypter.Decrypt(KZ.b64(c)), m, 'its web-safe form decrypts')
'''

OUT = '''
def main():
    k = aeskey('1', KZ.choice(16, 24, 32))
    n = KZ.choice(0, 1, 15, 16, 17, 32, 47)
    m = KZ.string('m%d' % n, n)
    pad = 16 - n % 16
    c = k.Encrypt(m)
    from Crypto.Cipher import AES
    p = AES.new(k.key_bytes, AES.MODE_CBC, c[5:21]).decrypt(c[21:-20])
    KZ.same(p[:n], m, 'the body is the message under the cipher')
    KZ.same(len(p), n + pad, 'the body is padded to whole blocks')
    KZ.same(p[n:], chr(pad) * pad, 'the padding is that of PKCS#5')
'''

TWO = '''
def main():
    st = KZ.choice((keyinfo.PRIMARY, keyinfo.ACTIVE), (keyinfo.PRIMARY, keyinfo.INACTIVE),
                   (keyinfo.ACTIVE, keyinfo.PRIMARY), (keyinfo.INACTIVE, keyinfo.PRIMARY))
    a, b = aeskey('1'), aeskey('2')
    KZ.assume(a.hash_id != b.hash_id)
    crypter = K.Crypter(keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, st))
    m = KZ.sym('m', 'str')
    KZ.same(crypter.Decrypt(crypter.Encrypt(m)), m, 'round trip with another key in the set')
    KZ.same(crypter.Decrypt(a.Encrypt(m), None), m, 'ciphertexts of older keys stay readable')
    KZ.same(crypter.Decrypt(b.Encrypt(m), None), m, 'ciphertexts of older keys stay readable')
    c1 = crypter.Encrypt(m, None)
    c2 = crypter.Encrypt(m, None)
    KZ.prove(KZ.show(c1[5:21]) != KZ.show(c2[5:21]), 'each encryption draws its own IV')
    KZ.prove(KZ.mentions(c1[21:-20], c1[5:21]), 'the body depends on the IV')
'''

SEQ = '''
from Crypto.Cipher import AES
def main():
    a, b = aeskey('1'), aeskey('2')
    KZ.distinct(a.hash_id, b.hash_id)
    crypter = K.Crypter(keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, [keyinfo.PRIMARY, keyinfo.ACTIVE]))
    out = []
    for i in range(3):
        k, n = KZ.choice((a, 5), (b, 16)) if i == 1 else (a, (0, 0, 17)[i])
        m = KZ.string('m%d' % i, n)
        c = k.Encrypt(m) if KZ.flip() else (crypter.Encrypt(m, None) if k is a else k.Encrypt(m))
        body = AES.new(KZ.string('aes_1' if k is a else 'aes_2', 16), AES.MODE_CBC, c[5:21]).decrypt(c[21:-20])
        pad = 16 - n % 16
        KZ.same(body, m + chr(pad) * pad, 'any implementation of the documented layout decrypts a later message')
        KZ.prove(c[-20:] == KZ.hmac(KZ.string('hmac_1' if k is a else 'hmac_2', 32), c[:-20]), 'a later message is authenticated')
        out.append((m, c))
    for m, c in out + out[:1]:
        KZ.same(crypter.Decrypt(c, None), m, 'messages can be decrypted in any order')
'''

prop('C03', [
    Ctx('round trip, any message', RT),
    Ctx('round trip, any message, M2Crypto present', RT, prog='keyczar-m2'),
    Ctx('documented format, made elsewhere', FOREIGN),
    Ctx('documented format, M2Crypto present', FOREIGN, prog='keyczar-m2'),
    Ctx('documented format, for others', OUT),
    Ctx('documented format, for others, M2Crypto present', OUT, prog='keyczar-m2'),
    Ctx('several keys in the set', TWO),
    Ctx('one message after another', SEQ),
    Ctx('one message after another, M2Crypto present', SEQ, prog='keyczar-m2'),
])
