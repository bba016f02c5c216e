from ..check import prop, Ctx

RAW = {'raw': True}

LIB = '''
def chop(t, n, k):
    """t, of length n, in k pieces with every choice of cut points"""
    out, at = [], 0
    for i in range(k - 1):
        c = KZ.choice(tuple(range(at, n + 1)))
        out.append(t[at:c])
        at = c
    out.append(t[at:])
    return out
def encode_all(pieces):
    e = util.BufferedIncrementalBase64WSEncoder()
    out = ''
    for p in pieces:
        out += e.encode(p)[0]
    return out + e.flush()
def decode_all(pieces):
    d = util.BufferedIncrementalBase64WSDecoder()
    out = ''
    for p in pieces:
        out += d.decode(p)[0]
    return out + d.flush()
'''

prop('C18', [
    Ctx('one shot round trip, each length class', LIB + '''
def main():
    x = KZ.string('x', KZ.choice(0, 1, 2, 3, 4, 5, 6, 57, 58, 59, 60, 1000))
    t = util.Base64WSEncode(x)
    KZ.same(t, KZ.b64(x), 'encoding is the unpadded web-safe Base64 of the bytes')
    KZ.same(util.Base64WSDecode(t), x, 'decoding returns the encoded bytes')
    KZ.same(util.Decode(util.Encode(x)), x, 'the deprecated names behave alike')
    KZ.same(util.Encode(x), t, 'the deprecated names behave alike')
''', RAW),
    Ctx('one shot round trip, any length', LIB + '''
def main():
    x = KZ.sym('x', 'str')
    t = util.Base64WSEncode(x)
    KZ.same(t, KZ.b64(x), 'encoding is the unpadded web-safe Base64 of the bytes')
    d = len(t) % 4
    KZ.assume(d != 1)
    KZ.same(util.Base64WSDecode(t), x, 'decoding returns the encoded bytes')
''', RAW),
    Ctx('known answers', LIB + '''
def main():
    KZ.same(util.Base64WSEncode(chr(251) + chr(255) + chr(254)), '-__-', 'alphabet is web safe')
    KZ.same(util.Base64WSEncode(chr(251)), '-w', 'no padding')
    KZ.same(util.Base64WSDecode('-__-'), chr(251) + chr(255) + chr(254), 'alphabet is web safe')
    KZ.same(util.Base64WSDecode('-w'), chr(251), 'no padding needed')
''', RAW),
    Ctx('known answers, long data', LIB + '''
def main():
    n = KZ.choice(19, 20, 2000, 30000)
    q, t = KZ.choice((chr(251) + chr(255) + chr(254), '-__-'), (chr(0) + chr(1) + chr(10), 'AAEK'))
    r, u = KZ.choice(('', ''), (chr(251), '-w'), ('ab', 'YWI'))
    KZ.same(util.Base64WSEncode(q * n + r), t * n + u, 'long data encodes to one line of web-safe Base64')
    KZ.same(util.Base64WSDecode(t * n + u), q * n + r, 'long text decodes to the bytes')
''', RAW),
    Ctx('white space is ignored', LIB + '''
def main():
    n = KZ.choice(1, 2, 3, 4, 5, 6)
    x = KZ.string('x', n)
    t = util.Base64WSEncode(x)
    m = (4 * n + 2) // 3
    i = KZ.choice(tuple(range(m + 1)))
    w = KZ.choice(' ', chr(10), chr(13) + chr(10), chr(13), '   ', chr(10) + ' ' + chr(10))
    u = t[:i] + w + t[i:]
    KZ.same(util.Base64WSDecode(u), x, 'spaces and line breaks are ignored')
''', RAW),
    Ctx('white space in several places', LIB + '''
def main():
    x = KZ.string('x', KZ.choice(3, 4, 5))
    t = util.Base64WSEncode(x)
    u = ' ' + t[:1] + ' ' + t[1:2] + chr(10) + t[2:3] + chr(13) + chr(10) + t[3:] + '  ' + chr(10)
    KZ.same(util.Base64WSDecode(u), x, 'spaces and line breaks are ignored')
''', RAW),
    Ctx('impossible lengths are refused', LIB + '''
def main():
    x = KZ.string('x', 9)
    t = KZ.b64(x)[:KZ.choice(1, 5, 9)]
    i = KZ.choice(0, 1)
    w = KZ.choice('', ' ', chr(10), '   ')
    t = t[:i] + w + t[i:]
    try:
        util.Base64WSDecode(t)
    except errors.Base64DecodingError:
        KZ.reach('refused')
        return
    KZ.fail('text of impossible length is refused')
''', RAW, must=('refused',)),
    Ctx('what the library refuses is a decoding error', LIB + '''
def main():
    t = KZ.choice(KZ.sym('t', 'str'), KZ.string('t', 6))
    try:
        util.Base64WSDecode(t)
    except errors.Base64DecodingError:
        KZ.reach('refused')
        return
    except errors.KeyczarError:
        KZ.fail('undecodable text raises the decoding error')
    except Exception as e:
        KZ.fail('undecodable text raises the decoding error', KZ.excname(e))
''', {'raw': True, 'b64fail': True}, must=('refused',)),
    Ctx('incremental encoding, every split of short data', LIB + '''
def main():
    n = KZ.choice(tuple(range(0, 9)))
    x = KZ.string('x', n)
    p = chop(x, n, 3)
    KZ.same(encode_all(p), util.Base64WSEncode(x), 'the pieces encode to the one-shot encoding')
''', RAW),
    Ctx('incremental encoding, byte by byte', LIB + '''
def main():
    n = KZ.choice(5, 11, 12, 13)
    x = KZ.string('x', n)
    KZ.same(encode_all([x[i:i + 1] for i in range(n)]), util.Base64WSEncode(x), 'the pieces encode to the one-shot encoding')
''', RAW),
    Ctx('incremental encoding, pieces of any length', LIB + '''
def main():
    # whatever came before leaves at most two bytes behind, so one arbitrary
    # piece after each such state covers every history
    a, b = KZ.string('a', KZ.choice(0, 1, 2, 3, 4, 5)), KZ.sym('b', 'str')
    KZ.same(encode_all([a, b]), util.Base64WSEncode(a + b), 'the pieces encode to the one-shot encoding')
''', RAW),
    Ctx('encoder is reusable after a flush', LIB + '''
def main():
    x, y = KZ.string('x', 4), KZ.string('y', 5)
    e = util.BufferedIncrementalBase64WSEncoder()
    a = e.encode(x)[0] + e.flush()
    KZ.same(a, util.Base64WSEncode(x), 'the pieces encode to the one-shot encoding')
    KZ.same(e.flush(), '', 'a second flush adds nothing')
    b = e.encode(y)[0] + e.flush()
    KZ.same(b, util.Base64WSEncode(y), 'nothing is left over from before the flush')
    d = util.BufferedIncrementalBase64WSDecoder()
    KZ.same(d.decode(a)[0] + d.flush(), x, 'the pieces decode to the one-shot decoding')
    KZ.same(d.flush(), '', 'a second flush adds nothing')
    KZ.same(d.decode(b)[0] + d.flush(), y, 'nothing is left over from before the flush')
''', RAW),
    Ctx('final encodes and decodes everything', LIB + '''
def main():
    n = KZ.choice(tuple(range(0, 8)))
    x = KZ.string('x', n)
    k = KZ.choice(tuple(range(0, n + 1)))
    e = util.BufferedIncrementalBase64WSEncoder()
    t = e.encode(x[:k])[0] + e.encode(x[k:], True)[0]
    KZ.same(t, util.Base64WSEncode(x), 'a final piece encodes everything')
    KZ.same(e.flush(), '', 'nothing is left after a final piece')
    d = util.BufferedIncrementalBase64WSDecoder()
    KZ.same(d.decode(t[:k])[0] + d.decode(t[k:], final=True)[0], x, 'a final piece decodes everything')
    KZ.same(d.flush(), '', 'nothing is left after a final piece')
''', RAW),
    Ctx('incremental decoding, every split of short text', LIB + '''
def main():
    n = KZ.choice(tuple(range(0, 8)))
    x = KZ.string('x', n)
    t = KZ.b64(x)
    m = (4 * n + 2) // 3
    KZ.same(decode_all(chop(t, m, 3)), x, 'the pieces decode to the one-shot decoding')
''', RAW),
    Ctx('incremental decoding, character by character', LIB + '''
def main():
    n = KZ.choice(5, 9, 10, 11)
    x = KZ.string('x', n)
    t = KZ.b64(x)
    m = (4 * n + 2) // 3
    KZ.same(decode_all([t[i:i + 1] for i in range(m)]), x, 'the pieces decode to the one-shot decoding')
''', RAW),
    Ctx('incremental decoding with white space', LIB + '''
def main():
    n = KZ.choice(1, 5, 6)
    x = KZ.string('x', n)
    t = KZ.b64(x)
    m = (4 * n + 2) // 3
    i = KZ.choice(tuple(range(m + 1)))
    w = KZ.choice(' ', chr(10), chr(13) + chr(10))
    u = t[:i] + w + t[i:]
    KZ.same(decode_all(chop(u, m + len(w), 2)), x, 'white space between and inside pieces is ignored')
''', RAW),
    Ctx('incremental decoding refuses impossible text', LIB + '''
def main():
    x = KZ.string('x', 9)
    m = KZ.choice(1, 5, 9)
    t = KZ.b64(x)[:m]
    try:
        decode_all(chop(t, m, 2))
    except errors.Base64DecodingError:
        KZ.reach('refused')
        return
    KZ.fail('text of impossible length is refused')
''', RAW, must=('refused',)),
    Ctx('stream writer and reader', LIB + '''
class Mem(object):
    def __init__(self, data=''):
        self.data = data
        self.pos = 0
    def write(self, d):
        self.data += d
    def flush(self):
        pass
    def read(self, n=-1):
        d = self.data[self.pos:] if n < 0 else self.data[self.pos:self.pos + n]
        self.pos += len(d)
        return d
def main():
    n = KZ.choice(tuple(range(0, 8)))
    x = KZ.string('x', n)
    out = Mem()
    w = util.IncrementalBase64WSStreamWriter(out)
    for p in chop(x, n, 2):
        w.write(p)
    w.flush()
    t = out.data
    KZ.same(t, util.Base64WSEncode(x), 'what the stream writer wrote is the one-shot encoding')
    again = Mem()
    v = util.IncrementalBase64WSStreamWriter(again)
    v.write(x)
    v.flush()
    have = again.data
    v.flush()
    KZ.same(again.data, have, 'flushing with nothing written adds nothing')
    y = KZ.string('y', 4)
    v.write(y)
    v.flush()
    KZ.same(again.data, have + util.Base64WSEncode(y), 'a flushed stream writer starts anew')
    r = util.IncrementalBase64WSStreamReader(Mem(t))
    size, chars = KZ.choice((-1, -1), (1, -1), (3, -1), (4, -1), (5, -1), (100, -1), (-1, 1), (-1, 2), (4, 3), (2, 1))
    got = ''
    for i in range(16):
        KZ.same(len(r.read(size, 0)), 0, 'asking for no characters gives none')
        d = r.read(size, chars)
        if not d:
            break
        got += d
    KZ.same(got, x, 'what the stream reader delivers is the one-shot decoding')
''', RAW),
    Ctx('closing the stream writer flushes', LIB + '''
class Sink(object):
    def __init__(self):
        self.data = ''
        self.log = []
    def write(self, d):
        self.data += d
        self.log.append('write')
    def flush(self):
        self.log.append('flush')
    def close(self):
        self.log.append('close')
def main():
    x = KZ.string('x', KZ.choice(1, 2, 3, 4))
    s = Sink()
    w = util.IncrementalBase64WSStreamWriter(s)
    w.write(x)
    w.close()
    KZ.same(s.data, util.Base64WSEncode(x), 'closing writes what was still buffered')
    KZ.same(s.log[-1], 'close', 'closing closes the underlying stream last')
''', RAW),
    Ctx('stream reader survives a stream with no data yet', LIB + '''
class Lazy(object):
    def __init__(self, data, none):
        self.data = data
        self.pos = 0
        self.calls = 0
        self.none = none
    def read(self, n=-1):
        self.calls += 1
        if self.calls == self.none:
            return None
        if n < 0:
            n = len(self.data)
        d = self.data[self.pos:self.pos + n]
        self.pos += n
        return d
def main():
    x = KZ.string('x', 6)
    s = Lazy(KZ.b64(x), KZ.choice(1, 2, 3))
    r = util.IncrementalBase64WSStreamReader(s)
    got = ''
    ends = 0
    for i in range(12):
        d = r.read(3)
        if d is None:
            KZ.reach('no data yet')
        elif not d:
            ends += 1
            if ends == 2:
                break
        else:
            got += d
    KZ.same(got, x, 'what the stream reader delivers is the one-shot decoding')
''', RAW),
    Ctx('stream reader hands on that there is no data yet', LIB + """
class Lazy(object):
    def __init__(self, data, avail):
        self.data = data
        self.pos = 0
        self.avail = avail
    def read(self, n=-1):
        end = len(self.data)
        if n >= 0:
            end = min(end, self.pos + n)
        end = min(end, self.avail)
        if end == self.pos and self.avail < len(self.data) and n != 0:
            return None
        d = self.data[self.pos:end]
        self.pos = end
        return d
def main():
    x = KZ.string('x', 5)
    enc = KZ.b64(x)
    cut = KZ.choice(0, 1, 2, 4, 6)
    size = KZ.choice(-1, 1, 4, 100)
    s = Lazy(enc, cut)
    r = util.IncrementalBase64WSStreamReader(s)
    got = ''
    waits = 0
    for i in range(8):
        d = r.read(size)
        if d is None:
            waits += 1
            if waits == 2:
                break
        else:
            KZ.prove(len(d) > 0, 'the end is not announced while data is still to come')
            got += d
    KZ.same(waits, 2, 'a reader over a stream with no data yet says so')
    KZ.same(got, x[:cut // 4 * 3], 'what was available so far has been delivered')
    KZ.same(r.read(0) or '', '', 'asking for nothing delivers nothing')
    s.avail = len(enc)
    for i in range(10):
        d = r.read(size)
        if not d:
            break
        got += d
    KZ.same(got, x, 'what the stream reader delivers is the one-shot decoding')
""", RAW),
    Ctx('stream reader returns no more than asked for', LIB + """
class Src(object):
    def __init__(self, data):
        self.data = data
        self.pos = 0
    def read(self, n=-1):
        if n < 0:
            n = len(self.data)
        d = self.data[self.pos:self.pos + n]
        self.pos += n
        return d
def main():
    n = KZ.choice(1, 2, 3, 4, 5, 8)
    x = KZ.string('x', n)
    size = KZ.choice(-1, 1, 3, 4, 50)
    chars = KZ.choice(1, 2, 3, 4, 7)
    r = util.IncrementalBase64WSStreamReader(Src(KZ.b64(x)))
    got = ''
    for i in range(n + 3):
        d = r.read(size, chars)
        KZ.prove(len(d) <= chars, 'never more characters than asked for')
        if not d:
            break
        got += d
        KZ.same(r.read(size, 0), '', 'asking for no characters delivers none')
    KZ.same(got, x, 'what the stream reader delivers is the one-shot decoding')
    KZ.same(r.read(size, chars), '', 'and nothing more')
""", RAW),
])

from ..check import PROPS
for _c in PROPS['C18'][0]:
    _c.flags = dict(_c.flags, ends='encoding and decoding come to an end')
