from ..check import prop, Ctx

RAW = {'raw': True}

LIB = '''
def octets(n):
    """an unsigned number with n significant octets, and its octets"""
    bs = [KZ.sym('o' + str(i), 'byte') for i in range(n)]
    if n:
        KZ.assume(bs[0] > 0)
    v = 0
    for b in bs:
        v = v * 256 + b
    return v, bs
def text(bs):
    return ''.join([chr(b) for b in bs])
'''

prop('C19', [
    Ctx('one array', LIB + '''
def main():
    a = KZ.choice('', KZ.string('a', 1), KZ.string('a', 4), KZ.string('a', 255), KZ.string('a', 256), KZ.string('a', 70000), KZ.sym('a', 'str'))
    p = util.PackByteArray(a)
    KZ.same(len(p), len(a) + 4, 'a packed array is four octets longer than the array')
    KZ.same(p[4:], a, 'the array follows its length')
    KZ.same(p[:4], util.IntToBytes(len(a)), 'the length is four octets, big endian')
    before, after = KZ.choice('', KZ.string('before', 3)), KZ.choice('', KZ.string('after', 5))
    got, end = util.UnpackByteArray(before + p + after, len(before))
    KZ.same(got, a, 'unpacking returns the packed array')
    KZ.same(end, len(before) + len(p), 'unpacking stops right behind the array')
''', RAW),
    Ctx('several arrays, fixed lengths', LIB + '''
def main():
    n = KZ.choice(0, 1, 2, 3, 4)
    xs = [KZ.string('x' + str(i), KZ.choice(0, 1, 5, 300)) for i in range(n)]
    p = util.PackMultipleByteArrays(*xs)
    KZ.same(p[:4], util.IntToBytes(n), 'the number of arrays comes first')
    KZ.same(p, util.IntToBytes(n) + ''.join([util.PackByteArray(x) for x in xs]), 'the packed arrays follow in order')
    got = util.UnpackMultipleByteArrays(p)
    KZ.same(len(got), n, 'as many arrays come out as went in')
    for i in range(n):
        KZ.same(got[i], xs[i], 'unpacking returns the packed arrays in order')
''', RAW),
    Ctx('several arrays, any lengths', LIB + '''
def main():
    n = KZ.choice(1, 2, 3, 4)
    xs = [KZ.sym('x' + str(i), 'str') for i in range(n)]
    p = util.PackMultipleByteArrays(*xs)
    got = util.UnpackMultipleByteArrays(p)
    KZ.same(len(got), n, 'as many arrays come out as went in')
    for i in range(n):
        KZ.same(got[i], xs[i], 'unpacking returns the packed arrays in order')
''', RAW),
    Ctx('truncated or overlong data is not accepted', LIB + '''
def main():
    p = util.PackMultipleByteArrays(KZ.string('x', 5), KZ.string('y', 3))
    cut = KZ.choice(1, 2, 3, 5, 9)
    bad = p[:len(p) - cut] if KZ.flip() else p + KZ.string('junk', 4 + cut)[:cut]
    try:
        got = util.UnpackMultipleByteArrays(bad)
    except Exception:
        KZ.reach('refused')
        return
    KZ.prove(got != [KZ.string('x', 5), KZ.string('y', 3)], 'damaged data does not unpack to the original arrays')
''', {'raw': True, 'strict': True}, must=('refused',)),
    Ctx('fixed width integers', LIB + '''
def main():
    n = KZ.sym('n', 'nat')
    b = util.IntToBytes(n)
    KZ.same(len(b), 4, 'four octets')
    v, bs = octets(4)
    KZ.same(util.IntToBytes(v), text(bs), 'big endian, every octet in its place')
    KZ.same(util.BytesToLong(text(bs)), v, 'octets to number inverts it')
    KZ.same(util.BytesToLong(util.IntToBytes(v)), v, 'round trip')
    for k in (0, 1, 255, 256, 257, 65535, 65536, 16777215, 16777216, 2147483647):
        KZ.same(util.IntToBytes(k), chr(k // 16777216) + chr(k // 65536 % 256) + chr(k // 256 % 256) + chr(k % 256), 'known values')
''', RAW),
    Ctx('unbounded integers', LIB + '''
def main():
    k = KZ.choice(1, 2, 3, 4, 5, 9)
    v, bs = octets(k)
    KZ.same(util.BigIntToBytes(v), text(bs), 'minimal big-endian octets')
    KZ.same(util.BytesToLong(text(bs)), v, 'octets to number')
    KZ.same(util.BytesToLong(util.PadBytes(text(bs), KZ.choice(0, 1, 3))), v, 'leading zeros do not change the number')
''', RAW),
    Ctx('zero and padding', LIB + '''
def main():
    KZ.same(util.BigIntToBytes(0), '', 'zero has no octets')
    KZ.same(util.BytesToLong(''), 0, 'no octets are zero')
    s = KZ.choice(KZ.string('s', 3), KZ.sym('s', 'str'))
    n = KZ.choice(0, 1, 7)
    p = util.PadBytes(s, n)
    KZ.same(p, chr(0) * n + s, 'padding prepends zeros')
    v, bs = octets(KZ.choice(1, 3))
    KZ.same(util.TrimBytes(chr(0) * n + text(bs)), text(bs), 'trimming removes leading zeros only')
    KZ.same(util.TrimBytes(text(bs) + chr(0)), text(bs) + chr(0), 'trailing zeros stay')
    KZ.same(util.TrimBytes(chr(0) * n), chr(0), 'a string of zeros trims to one zero')
''', RAW),
    Ctx('bit strings', LIB + '''
def main():
    for k in (0, 1, 2, 3, 127, 128, 255, 256, 257, 65535, 65536, 4660):
        b = util.BinToBytes(util.IntToBin(k))
        KZ.same(util.BytesToLong(b), k, 'number to bits to octets to number')
        KZ.same(util.BinToBytes(util.BytesToBin(b)), b, 'octets to bits and back')
    for c in range(256):
        KZ.same(len(util.BytesToBin(chr(c))), 8, 'each octet is eight bits')
        KZ.same(util.BinToBytes(util.BytesToBin(chr(c) + chr(7))), chr(c) + chr(7), 'octets to bits and back')
''', RAW),
    Ctx('plain hash', LIB + '''
def main():
    n = KZ.choice(0, 1, 2, 3)
    xs = [KZ.sym('x' + str(i), 'str') for i in range(n)]
    KZ.same(util.Hash(*xs), KZ.sha1(''.join(xs)), 'SHA-1 over the inputs in order')
''', RAW),
    Ctx('prefix hash', LIB + '''
def main():
    n = KZ.choice(0, 1, 2, 3, 4)
    xs = [KZ.choice(KZ.sym('x' + str(i), 'str'), '') if i < 2 else KZ.string('x' + str(i), 256) for i in range(n)]
    want = ''.join([util.IntToBytes(len(x)) + x for x in xs])
    KZ.same(util.PrefixHash(*xs), KZ.sha1(want), 'every input is preceded by its length')
''', RAW),
])
