from ..check import prop, Ctx

SRC = '''
class Src(object):
    """input stream delivering `data` (of known length n): at most `cap` bytes
    per call, with a would-block result (None) before the reads in `gaps`"""
    def __init__(self, data, n, cap, gaps):
        self.data, self.n, self.cap, self.gaps = data, n, cap, gaps
        self.pos = 0
        self.calls = 0
    def read(self, size=-1):
        self.calls += 1
        if self.calls in self.gaps:
            return None
        if size < 0 or size > self.n - self.pos:
            size = self.n - self.pos
        if self.cap and size > self.cap:
            size = self.cap
        r = self.data[self.pos:self.pos + size]
        self.pos += size
        return r

class Sink(object):
    def __init__(self):
        self.out = ''
        self.flushed = 0
    def write(self, s):
        self.out += s
    def flush(self):
        self.flushed += 1

def drain(rd, chars, src):
    out = ''
    spare = 8 + src.n
    for i in range(200):
        r = rd.read(chars)
        if src.pos == src.n:
            spare -= 1
            if spare < 0:
                break
        if r is None:
            continue
        if len(r) == 0:
            return out
        out += r
    KZ.fail('reading a stream to its end comes to an end')
    return None
'''

READ = SRC + '''
def main():
    k = aeskey('1')
    crypter = K.Crypter(keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, [keyinfo.PRIMARY]))
    n = KZ.choice(%s)
    cap = KZ.choice(%s)
    gaps = KZ.choice(%s)
    body = KZ.string('c%%d' %% n, n)
    c = body
    if n >= 5 and KZ.flip():
        c = k.Header() + KZ.string('r%%d' %% n, n - 5)
    src = Src(c, n, cap, gaps)
    rd = crypter.CreateDecryptingStreamReader(src, None)
    mac = KZ.hmac(KZ.string('hmac_1', 32), c[:-20]) if n >= 20 else None
    try:
        out = drain(rd, KZ.choice((%s,)), src)
    except errors.ShortCiphertextError:
        KZ.prove(n < 57 or (n - 41) %% 16 != 0, 'stream reported short only when it is short')
        return
    except errors.InvalidSignatureError:
        KZ.prove(c[-20:] != mac, 'stream signature error only when the MAC differs')
        return
    except errors.KeyNotFoundError:
        KZ.prove(c[:5] != k.Header(), 'unknown key only for an unknown header')
        return
    except errors.BadVersionError:
        KZ.prove(c[0] != chr(0), 'bad version only for a foreign version byte')
        return
    if out is None:
        return
    KZ.prove(n >= 41, 'end of stream is never reported for a stream too short to be authenticated')
    KZ.prove(mac is not None and c[-20:] == mac, 'end of stream only after the MAC over every byte verified')
'''

WRITE = SRC + '''
def main():
    k = aeskey('1')
    crypter = K.Crypter(keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, [keyinfo.PRIMARY]))
    sink = Sink()
    w = crypter.CreateEncryptingStreamWriter(sink, None)
    data = ''
    for i in range(3):
        n = KZ.choice(%s)
        p = KZ.string('p%%d_%%d' %% (i, n), n)
        data += p
        w.write(p)
        KZ.prove(len(sink.out) <= 21 + len(data), 'no more ciphertext than plaintext before the stream is finished')
    w.flush()
    w.close()
    KZ.prove(sink.flushed > 0, 'finishing the stream flushes the output')
    out = sink.out
    KZ.prove(out[:5] == k.Header(), 'stream starts with the header of the primary key')
    KZ.prove(out[-20:] == KZ.hmac(KZ.string('hmac_1', 32), out[:-20]), 'stream ends with the MAC over every byte written')
    KZ.same(k.Decrypt(out), data, 'one-shot decrypt of a streamed ciphertext gives the data written')
    pad = 16 - len(data) %% 16
    from Crypto.Cipher import AES
    p = AES.new(k.key_bytes, AES.MODE_CBC, out[5:21]).decrypt(out[21:-20])
    KZ.same(p, data + chr(pad) * pad, 'the body of a stream is the data with PKCS#5 padding under the cipher')
    try:
        w.write('x')
        KZ.fail('write after close must be refused')
    except ValueError:
        KZ.ok('write after close is refused')
    KZ.same(len(sink.out), len(out), 'nothing written after close')
'''

RT = SRC + '''
def main():
    k = aeskey('1')
    crypter = K.Crypter(keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, [keyinfo.PRIMARY]))
    n = KZ.choice(0, 1, 15, 16, 17, 33)
    data = KZ.string('p%d' % n, n)
    c = k.Encrypt(data)
    m = len(c)
    src = Src(c, m, KZ.choice(0, 3, 16), KZ.choice((), (2,), (4,)))
    rd = crypter.CreateDecryptingStreamReader(src, None)
    out = drain(rd, KZ.choice(-1, 5), src)
    if out is not None:
        KZ.same(out, data, 'streamed decrypt of a one-shot ciphertext gives the data')
    rd.close()
    try:
        rd.read()
        KZ.fail('read after close must be refused')
    except ValueError:
        KZ.ok('read after close is refused')
'''

B64RT = SRC + '''
def main():
    crypter = K.Crypter(keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, [keyinfo.PRIMARY]))
    sink = Sink()
    w = crypter.CreateEncryptingStreamWriter(sink)
    n = KZ.choice(0, 5, 17)
    data = KZ.string('p%d' % n, n)
    w.write(data)
    if KZ.flip():
        w.write('')
    w.flush()
    text = sink.out
    KZ.same(crypter.Decrypt(text), data, 'encoded stream decrypts one-shot')
    src = Src(text, len(text), KZ.choice(0, 3, 16), KZ.choice((), (2,), (4,)))
    rd = crypter.CreateDecryptingStreamReader(src)
    KZ.same(drain(rd, KZ.choice(-1, 5), src), data, 'encoded stream decrypts as a stream')
'''

BULK = SRC + '''
def main():
    k = aeskey('1')
    crypter = K.Crypter(keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, [keyinfo.PRIMARY]))
    sink = Sink()
    w = crypter.CreateEncryptingStreamWriter(sink, None)
    n = KZ.choice(1003, 70001, 1100000)
    data = KZ.string('d%d' % n, n)
    w.write(data)
    if KZ.flip():
        w.write('xyz')
        data += 'xyz'
    w.flush()
    KZ.same(k.Decrypt(sink.out), data, 'one-shot decrypt of a streamed ciphertext gives the data written')
    if n > 2000:
        return
    src = Src(sink.out, len(sink.out), 0, ())
    rd = crypter.CreateDecryptingStreamReader(src, None)
    KZ.same(drain(rd, KZ.choice(-1, n), src), data, 'reading a long stream to its end gives the data written')
'''

SIZES = SRC + '''
def main():
    k = aeskey('1')
    crypter = K.Crypter(keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, [keyinfo.PRIMARY]))
    n = KZ.choice(0, 15, 16, 40)
    data = KZ.string('d%d' % n, n)
    c = k.Encrypt(data)
    m = len(c)
    good = KZ.flip()
    if not good:
        m -= KZ.choice(1, 16, 20, 21)
        c = c[:m]
        KZ.assume(c[-20:] != KZ.hmac(KZ.string('hmac_1', 32), c[:-20]))
    src = Src(c, m, KZ.choice(0, 7), ())
    rd = crypter.CreateDecryptingStreamReader(src, None, KZ.choice(4096, 1, -1))
    sizes = KZ.choice((0, -1), (0, 0, 3), (1,), (5, 0, 100), (17, 1))
    out = ''
    for i in range(200):
        z = sizes[i % len(sizes)]
        try:
            r = rd.read(z)
        except errors.KeyczarError:
            KZ.prove(not good, 'a good stream is read without error, whatever is asked for')
            for j in range(2):
                try:
                    r = rd.read(z)
                    KZ.prove(r is None or len(r) > 0, 'a stream that failed does not come to a silent end')
                except errors.KeyczarError:
                    KZ.ok('a stream that failed stays failed')
            KZ.reach('failed')
            return
        if r is not None:
            KZ.prove(z < 0 or len(r) <= z, 'never more than asked for')
            out += r
            if z != 0 and len(r) == 0:
                break
    KZ.prove(good, 'a truncated stream never comes to a silent end')
    KZ.same(out, data, 'every sequence of reads gives the data')
    KZ.same(len(rd.read(-1)), 0, 'the end of a stream stays its end')
    KZ.reach('read')
'''

CLOSED = SRC + '''
def main():
    crypter = K.Crypter(keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, [keyinfo.PRIMARY]))
    which = KZ.choice('write', 'flush', 'close', 'read')
    done = KZ.flip()
    sink = Sink()
    w = crypter.CreateEncryptingStreamWriter(sink, None)
    w.write('some data that is longer than one block')
    if done or which == 'read':
        w.flush()
    w.close()
    out = sink.out
    if which == 'read':
        src = Src(out, len(out), 0, ())
        rd = crypter.CreateDecryptingStreamReader(src, None)
        if done:
            rd.read(3)
        rd.close()
        op = lambda: rd.read(KZ.choice(-1, 0, 5))
    elif which == 'write':
        op = lambda: w.write(KZ.choice('x', ''))
    elif which == 'flush':
        op = w.flush
    else:
        op = w.close
    try:
        op()
        KZ.fail('a closed stream cannot be used again')
    except ValueError:
        KZ.ok('a closed stream cannot be used again')
    KZ.same(sink.out, out, 'nothing is written after close')
'''

AGAIN = SRC + '''
def main():
    k = aeskey('1')
    hk = KZ.string('hmac_1', 32)
    crypter = K.Crypter(keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, [keyinfo.PRIMARY]))
    data = KZ.string('p', 5)
    c0 = k.Encrypt(data)
    first = Src(c0, len(c0), 0, ())
    how = KZ.choice('read', 'partly', 'not')
    r0 = crypter.CreateDecryptingStreamReader(first, None)
    if how == 'read':
        KZ.same(drain(r0, -1, first), data, 'streamed decrypt of a one-shot ciphertext gives the data')
    elif how == 'partly':
        r0.read(2)
    n = KZ.choice(0, 5, 21, 41, 57, 73)
    c = KZ.string('c%d' % n, n)
    src = Src(c, n, 0, ())
    rd = crypter.CreateDecryptingStreamReader(src, None)
    try:
        out = drain(rd, -1, src)
    except errors.KeyczarError:
        KZ.reach('failed')
        return
    KZ.prove(n >= 57 and c[-20:] == KZ.hmac(hk, c[:-20]), 'end of data is reported only after the MAC over everything matched')
    KZ.reach('read')
'''

AGAINW = SRC + '''
def main():
    k = aeskey('1')
    crypter = K.Crypter(keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, aeskey, [keyinfo.PRIMARY]))
    s, t = Sink(), Sink()
    a, b = crypter.CreateEncryptingStreamWriter(s, None), crypter.CreateEncryptingStreamWriter(t, None)
    x, y = KZ.string('x', 20), KZ.string('y', KZ.choice(0, 16, 33))
    if KZ.flip():
        a.write(x)
        b.write(y)
    else:
        b.write(y)
        a.write(x)
    a.flush()
    b.flush()
    KZ.same(crypter.Decrypt(s.out, None), x, 'streams written side by side do not mix')
    KZ.same(crypter.Decrypt(t.out, None), y, 'streams written side by side do not mix')
'''

prop('C02', [
    Ctx('reader: arbitrary stream', READ % ('0, 4, 5, 20, 21, 40, 41, 56, 57, 60, 73, 89', '0, 7', '(), (3,)', '-1')),
    Ctx('reader: arbitrary stream, more schedules', READ % (
        ', '.join(map(str, range(0, 100, 3))), '0, 1, 5, 17', '(), (1,), (2,), (4, 5), (6,)', '-1'),
        thorough=True, limit=20000),
    Ctx('any sequence of reads', SIZES, must=('failed', 'read')),
    Ctx('long streams', BULK),
    Ctx('closed streams', CLOSED),
    Ctx('writer', WRITE % '0, 1, 16, 21'),
    Ctx('writer, more sizes', WRITE % '0, 1, 7, 15, 16, 17, 31, 32, 33, 48', thorough=True),
    Ctx('round trip', RT),
    Ctx('round trip through Base64', B64RT),
    Ctx('a stream after another one', AGAIN, must=('failed', 'read')),
    Ctx('streams side by side', AGAINW),
])

from ..check import PROPS
for _c in PROPS['C02'][0]:
    _c.flags = dict(_c.flags, ends='every read and write of a stream comes to an end')
