"""Hash-consed abstract values ("terms") and their algebraic normal form.

The abstract domain is a Herbrand/value-numbering domain: every abstract value
is a term over inputs, constants, allocated objects and operations, kept in a
normal form (flattened concatenations, linear integer arithmetic, slices
expressed relative to the innermost buffer, inverse pairs cancelled), so that
two source fragments that compute the same thing get the same term.

Text and byte literals are identified (latin-1): the tree is an unfinished
Python 2 -> 3 conversion and both spellings denote the same octets.
"""
import math
import base64

_table = {}


class Term(object):
    __slots__ = ('op', 'a', 'uid', '_bv')

    def __repr__(self):
        return show(self)


def mk(op, *a):
    key = (op, a)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.a, t.uid = op, a, len(_table)
        t._bv = None
        _table[key] = t
    return t


def const(v):
    if isinstance(v, (bytes, bytearray)):
        v = bytes(v).decode('latin-1')
    return mk('const', type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
EMPTY = const('')
ZERO = const(0)


def is_const(t, v=Ellipsis):
    if t.op != 'const':
        return False
    if v is Ellipsis:
        return True
    return t is const(v)


def cval(t):
    return t.a[1]


def is_int(t):
    return t.op == 'const' and t.a[0] in ('int', 'bool')


def is_str(t):
    return t.op == 'const' and t.a[0] == 'str'


def unknown(why):
    return mk('unknown', why)


def subterms(t, seen=None):
    """All terms reachable inside t (including t)."""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(x.a)


def has_unknown(t):
    return any(s.op in ('unknown', 'loopvar') or
               (s.op == 'res' and _extroot(s.a[1])) for s in subterms(t))


def _extroot(f):
    # result of an external function the analysis has no model of
    while f.op == 'field':
        f = f.a[0]
    return f.op in ('ext', 'elem', 'map', 'lines', 'split') or isstr(f)


def contains(t, needle):
    return any(s is needle for s in subterms(t))


def map_term(t, f, memo=None):
    """Rebuild t bottom-up through the smart constructors; f(term)->Term|None."""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(map_term(x, f, memo) for x in t)
    if not isinstance(t, Term):
        return t
    if t in memo:
        return memo[t]
    r = f(t)
    if r is None:
        args = tuple(map_term(x, f, memo) for x in t.a)
        r = t if args == t.a and t.op != 'slice' else rebuild(t.op, args)
    memo[t] = r
    return r


def subst(t, old, new):
    return map_term(t, lambda x: new if x is old else None)


def rebuild(op, a):
    if op == 'lin':
        acc = const(a[0])
        for v, c in a[1]:
            acc = add(acc, mul(const(c), v))
        return acc
    f = _BUILD.get(op)
    if f:
        return f(*a)
    return mk(op, *a)


# ---------------------------------------------------------------- numbers
_NUMOPS = {'len', 'ord', 'mod', 'div', 'mul', 'lin', 'bxor', 'bor', 'band',
           'int', 'idx', 'bv', 'unpack', 'sum', 'max', 'min', 'long', 'pow',
           'count'}
_STROPS = {'concat', 'slice', 'rep', 'chr', 'b64enc', 'b64dec', 'hmac', 'hash',
           'enc', 'dec', 'urandom', 'pack', 'join', 'fmt', 'str', 'json',
           'xor', 'mgf', 'trim', 'bytesof', 'urlb64e', 'urlb64d', 'lstrip',
           'strip', 'replace', 'bin', 'der', 'emsa', 'jointerm'}


_NUMKINDS = ('int', 'nat', 'byte', 'pos')


def sym(name, kind='any'):
    if kind == 'str:0':
        return EMPTY
    return mk('sym', name, kind)


def isnum(t):
    if t.op == 'sym':
        return t.a[1] in _NUMKINDS
    if t.op == 'loopvar':
        return t.a[2] == 'num'
    return t.op in _NUMOPS or is_int(t) or (t.op == 'const' and t.a[0] == 'float')


def isstr(t):
    if t.op == 'sym':
        return t.a[1][:3] == 'str'
    if t.op == 'loopvar':
        return t.a[2] == 'str'
    if t.op == 'elem':
        return t.a[0].op in ('lines', 'split')
    return t.op in _STROPS or is_str(t)


# set by the analysis while a partition is open: RESOLVE(lin) -> True if the
# partition's facts entail lin >= 0
RESOLVE = [None]


def entails_ge0(l):
    lo, _ = rng(l)
    if lo is not None and lo >= 0:
        return True
    return bool(RESOLVE[0] and RESOLVE[0](l))


def _undiv(t):
    """k*(n div k) written as n - n mod k"""
    c, d = _lin(t)
    for v, n in list(d.items()):
        if v.op == 'div' and is_int(v.a[1]) and cval(v.a[1]) > 0 and \
                n % cval(v.a[1]) == 0 and n:
            del d[v]
            q = n // cval(v.a[1])
            c2, e = _lin(v.a[0])
            e = dict(e)
            m = mk('mod', v.a[0], v.a[1])
            e[m] = e.get(m, 0) - 1
            for w, i in e.items():
                d[w] = d.get(w, 0) + q * i
            return _unlin(c + q * c2, d)
    return t


def _rnglin(t):
    lo = hi = t.a[0]
    for v, c in t.a[1]:
        l, h = rng(v)
        if c < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + c * l
        hi = None if hi is None or h is None else hi + c * h
    return lo, hi


def rng(t):
    """Interval of an integer term, (lo|None, hi|None)."""
    if is_int(t):
        v = int(cval(t))
        return v, v
    o = t.op
    if o == 'lin':
        u = _undiv(t)
        if u is not t:
            l, h = rng(u)
            l2, h2 = _rnglin(t)
            return (l if l2 is None else l2 if l is None else max(l, l2),
                    h if h2 is None else h2 if h is None else min(h, h2))
        return _rnglin(t)
    if o == 'sym':
        return {'byte': (0, 255), 'nat': (0, None), 'pos': (1, None)}.get(
            t.a[1], (None, None))
    if o == 'len':
        if t.a[0].op == 'bytesof' and isinstance(t.a[0].a[0], Term) and \
                t.a[0].a[0].op == 'idx':
            return 1, None
        return 0, None
    if o == 'ord':
        return 0, 255
    if o == 'mod' and is_int(t.a[1]) and cval(t.a[1]) > 0:
        return 0, cval(t.a[1]) - 1
    if o == 'div' and is_int(t.a[1]) and cval(t.a[1]) > 0:
        l, h = rng(t.a[0])
        k = cval(t.a[1])
        return (None if l is None else l // k), (None if h is None else h // k)
    if o in ('bxor', 'bor', 'band'):
        hi = 0
        for x in t.a:
            l, h = rng(x)
            if l is None or l < 0 or h is None:
                return None, None
            hi = max(hi, h)
        return 0, (1 << hi.bit_length()) - 1
    if o in ('max', 'min'):
        rs = [rng(x) for x in t.a]
        los = [r[0] for r in rs if r[0] is not None]
        his = [r[1] for r in rs if r[1] is not None]
        if o == 'max':
            return (max(los) if los else None,
                    max(his) if len(his) == len(rs) else None)
        return (min(los) if len(los) == len(rs) else None,
                min(his) if his else None)
    return None, None


def _lin(t):
    """-> (const, {var: coef})"""
    if is_int(t):
        return int(cval(t)), {}
    if t.op == 'lin':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def _unlin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return const(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk('lin', c, tuple(sorted(d.items(), key=lambda kv: kv[0].uid)))


def ladd(x, y, s=1):
    c1, d1 = _lin(x)
    c2, d2 = _lin(y)
    d = dict(d1)
    for k, v in d2.items():
        d[k] = d.get(k, 0) + s * v
    return _unlin(c1 + s * c2, d)


def add(x, y):
    if x.op == 'const' and y.op == 'const':
        try:
            r = cval(x) + cval(y)
            return const(r)
        except TypeError:
            return unknown('add')
    if x.op == 'tuple' and y.op == 'tuple':
        return mk('tuple', x.a[0] + y.a[0])
    if isstr(x) or isstr(y):
        return concat(x, y)
    if isnum(x) or isnum(y) or isbool(x) and isbool(y):
        return ladd(x, y)
    return concat(x, y)


def sub(x, y):
    if x.op == 'const' and y.op == 'const':
        try:
            return const(cval(x) - cval(y))
        except TypeError:
            return unknown('sub')
    return ladd(x, y, -1)


def neg(x):
    return ladd(ZERO, x, -1)


def mul(x, y):
    if x.op == 'const' and y.op == 'const':
        try:
            return const(cval(x) * cval(y))
        except TypeError:
            return unknown('mul')
    if isstr(x) or (is_str(x)):
        return rep(x, y)
    if isstr(y) or (is_str(y)):
        return rep(y, x)
    if is_int(y):
        x, y = y, x
    if is_int(x):
        k = cval(x)
        c, d = _lin(y)
        return _unlin(c * k, {v: n * k for v, n in d.items()})
    if x.uid > y.uid:
        x, y = y, x
    return mk('mul', x, y)


def rep(s, n):
    if is_int(n):
        if is_str(s):
            if cval(n) <= 4096:
                return const(cval(s) * cval(n))
        elif cval(n) <= 0:
            return EMPTY
        elif cval(n) == 1:
            return s
    return mk('rep', s, n)


def div(x, y):
    """'/' and '//' are identified (see module docstring)."""
    if is_int(x) and is_int(y) and cval(y):
        return const(cval(x) // cval(y))
    if is_int(y) and cval(y) == 1:
        return x
    if x.op == 'div' and is_int(y) and is_int(x.a[1]):
        return div(x.a[0], const(cval(y) * cval(x.a[1])))
    if is_int(y) and cval(y) > 0:
        c, d = _lin(x)
        k = cval(y)
        if d:
            up = {v: n // k for v, n in d.items() if n % k == 0}
            rest = _unlin(c % k, {v: n for v, n in d.items() if n % k})
            l, h = rng(rest)
            if l is not None and h is not None and 0 <= l and h < k:
                return _unlin(c // k, up)
            if up:
                return ladd(div(rest, y), _unlin(c // k, up))
    return mk('div', x, y)


def mod(x, y):
    if is_int(x) and is_int(y) and cval(y):
        return const(cval(x) % cval(y))
    if is_str(x):
        return fmt(x, y)
    if is_int(y) and cval(y) > 0:
        c, d = _lin(x)
        k = cval(y)
        for v in [v for v in d if v.op == 'mod' and is_int(v.a[1]) and cval(v.a[1]) % k == 0]:
            n = d.pop(v)
            c2, e = _lin(v.a[0])
            c += n * c2
            for w, i in e.items():
                d[w] = d.get(w, 0) + n * i
        d2 = {v: n % k for v, n in d.items() if n % k}
        x = _unlin(c % k, d2)
        if is_int(x):
            return const(cval(x) % k)
        l, h = rng(x)
        if l is not None and h is not None and 0 <= l and h < k:
            return x
        if x.op == 'mod' and is_int(x.a[1]) and cval(x.a[1]) == k:
            return x
    return mk('mod', x, y)


def fmt(s, y):
    return mk('fmt', s, y)


# ---------------------------------------------------------------- strings
def concat(*xs):
    out = []
    for x in xs:
        parts = x.a if x.op == 'concat' else (x,)
        for p in parts:
            if is_str(p) and cval(p) == '':
                continue
            if out and is_str(p) and is_str(out[-1]):
                out[-1] = const(cval(out[-1]) + cval(p))
                continue
            # x[a:b] + x[b:c] -> x[a:c]
            if out and p.op == 'slice' and out[-1].op == 'slice' and \
                    out[-1].a[0] is p.a[0] and out[-1].a[2] is p.a[1] and \
                    p.a[1] is not NONE:
                q = out.pop()
                m = slc(p.a[0], q.a[1], p.a[2])
                if m.op in ('enc', 'dec') and out:
                    q = _chain(out[-1], m)
                    if q is not None:
                        out[-1] = q
                        continue
                if m.op == 'concat':
                    r = concat(*(out + [m]))
                    out = list(r.a) if r.op == 'concat' else [r]
                    continue
                out.append(m)
                continue
            if out and p.op == 'lstrip' and out[-1].op == 'rep' and \
                    out[-1].a[0] is p.a[1] and \
                    ladd(ladd(out[-1].a[1], length(p)), length(p.a[0]), -1) is ZERO:
                out[-1] = p.a[0]
                continue
            if out and p.op in ('enc', 'dec'):
                q = _chain(out[-1], p)
                if q is not None:
                    out[-1] = q
                    continue
            if out and p.op == 'b64enc' and out[-1].op == 'b64enc' and \
                    mod(length(out[-1].a[0]), const(3)) is ZERO:
                out[-1] = b64enc(concat(out[-1].a[0], p.a[0]))
                continue
            out.append(p)
            if p.op == 'chr' and len(out) >= 4:
                n = _be32(out[-4:])
                if n is not None:
                    out[-4:] = [mk('pack', const('>i'), n)]
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return mk('concat', *out)


def _be32(ps):
    """n when the four parts are the big-endian bytes of n"""
    if any(p.op != 'chr' for p in ps):
        return None
    last = ps[3].a[0]
    if last.op != 'mod' or last.a[1] is not const(256):
        return None
    n = last.a[0]
    for p, d in zip(ps[:3], (16777216, 65536, 256)):
        want = div(n, const(d))
        if p.a[0] is not want and p.a[0] is not mod(want, const(256)):
            return None
    return n


def length(x):
    if x.op == 'sym' and x.a[1][:4] == 'str:':
        return const(int(x.a[1][4:]))
    if x.op == 'const':
        try:
            return const(len(cval(x)))
        except TypeError:
            return unknown('len')
    if x.op == 'concat':
        acc = ZERO
        for p in x.a:
            acc = ladd(acc, length(p))
        return acc
    if x.op == 'tuple':
        return const(len(x.a[0]))
    if x.op == 'list' and all(s[0] == 'i' for s in x.a[0]):
        return const(len(x.a[0]))
    if x.op == 'rep':
        return mul(length(x.a[0]), x.a[1])
    if x.op == 'urandom':
        return x.a[0]
    if x.op in ('hmac', 'hash'):
        return const(20) if x.a[0] in ('sha1',) else mk('len', x)
    if x.op == 'pack':
        import struct
        try:
            return const(struct.calcsize(cval(x.a[0])))
        except Exception:
            return mk('len', x)
    if x.op == 'enc':
        return length(x.a[4])
    if x.op == 'dec':
        return length(x.a[4])
    if x.op == 'chr':
        return const(1)
    if x.op == 'mgf':
        return x.a[1]
    if x.op == 'xor':
        la, lb = length(x.a[0]), length(x.a[1])
        if la is lb:
            return la
        return mk('len', x)
    if x.op == 'b64enc':
        n = length(x.a[0])
        if is_int(n):
            return const((4 * cval(n) + 2) // 3)
        return mk('len', x)
    if x.op == 'slice':
        b, lo, hi = x.a
        L = length(b)
        start = ladd(L, lo) if _kind(lo) == 'E' else lo
        if hi is NONE:
            end = L
        elif _kind(hi) == 'E':
            end = ladd(L, hi)
        else:
            end = hi
        # exact when 0 <= start <= end <= L is known
        if entails_ge0(start) and (end is L or entails_ge0(ladd(L, end, -1))) \
                and entails_ge0(ladd(end, start, -1)):
            return ladd(end, start, -1)
        if is_int(L) and is_int(start) and is_int(end):
            s_, e_ = max(0, cval(start)), min(cval(end), cval(L))
            return const(max(0, e_ - s_))
        return mk('len', x)
    if x.op == 'map':
        return mk('len', x) if x.a[1] is not NONE else length(x.a[0])
    if x.op == 'lrep' and rng(x.a[1])[0] is not None and rng(x.a[1])[0] >= 0:
        return x.a[1]
    if x.op == 'range' and len(x.a) == 1 and x.a[0].op == 'len':
        return x.a[0]
    return mk('len', x)


def _kind(b):
    """'S' start-relative, 'E' end-relative (negative)."""
    if b is NONE:
        return 'S'
    _, hi = rng(b)
    if hi is not None and hi < 0:
        return 'E'
    if not is_int(b) and RESOLVE[0]:
        if hi is not None and hi <= 0 or RESOLVE[0](ladd(const(-1), b, -1)):
            if RESOLVE[0](ladd(const(-1), b, -1)):
                return 'E'
    return 'S'


def _normb(x, b, is_hi):
    """normalise a bound relative to len(x)."""
    if b is NONE:
        return NONE if is_hi else ZERO
    L = length(x)
    if not is_int(L) or True:
        d = ladd(b, L, -1)         # b - len(x)
        if is_int(b) and not is_int(L):
            return b
        if is_int(d):
            if is_hi and cval(d) == 0 and not is_int(b):
                return NONE
            if not is_int(b) and cval(d) < 0:
                return d
            if is_hi and is_int(b) and is_int(L) and cval(b) >= cval(L):
                return NONE
        elif b.op == 'lin':
            # b mentions len(x) with coefficient 1 and the rest is negative
            c1, d1 = _lin(b)
            c2, d2 = _lin(L)
            if d2 and all(d1.get(k) == v for k, v in d2.items()):
                if _kind(d) == 'E':
                    return d
    return b


def _whole(b):
    """x - x % k is k * (x // k)"""
    if b.op == 'lin':
        c, d = _lin(b)
        for q, n in d.items():
            if q.op == 'mod' and n == -1 and is_int(q.a[1]) and cval(q.a[1]) > 1:
                c1, d1 = _lin(q.a[0])
                if c == c1 and len(d) == len(d1) + 1 and all(d.get(v) == m for v, m in d1.items()):
                    return mul(q.a[1], mk('div', q.a[0], q.a[1]))
    return b


def slc(x, lo, hi):
    if is_const(lo, None):
        lo = ZERO
    lo, hi = _whole(lo), _whole(hi)
    if x.op == 'tuple':
        try:
            if (lo is NONE or is_int(lo)) and (hi is NONE or is_int(hi)):
                return mk('tuple', x.a[0][cval(lo):None if hi is NONE else cval(hi)])
        except Exception:
            pass
    if (lo is NONE or is_int(lo)) and (hi is NONE or is_int(hi)):
        L = length(x)
        if is_int(L):
            a, b, _ = slice(cval(lo), cval(hi)).indices(cval(L))
            if a >= b:
                return EMPTY
            lo, hi = const(a), (NONE if b == cval(L) else const(b))
    if x.op == 'slice' and not (is_int(lo) and (hi is NONE or is_int(hi))):
        L = length(x)
        if not is_int(L):
            if lo is L:
                return EMPTY
            if hi is L:
                hi = NONE
    lo = _normb(x, lo, False)
    hi = _normb(x, hi, True)
    if lo is ZERO and hi is NONE:
        return x
    if hi is ZERO:
        return EMPTY
    if hi is not NONE and RESOLVE[0] and _kind(hi) == 'S' and \
            RESOLVE[0](ladd(hi, length(x), -1)):
        hi = NONE
        if lo is ZERO:
            return x
    if is_str(x) and is_int(lo) and (hi is NONE or is_int(hi)):
        return const(cval(x)[cval(lo):None if hi is NONE else cval(hi)])
    if x.op == 'slice':
        y, l0, h0 = x.a
        r = _compose(y, l0, h0, lo, hi)
        if r is not None:
            return slc(y, *r)
    if x.op == 'concat':
        r = _slice_concat(x, lo, hi)
        if r is not None:
            return r
    if x.op in ('enc', 'dec'):
        r = _cipher_slice(x, lo, hi)
        if r is not None:
            return r
    return mk('slice', x, lo, hi)


def _compose(y, l0, h0, lo, hi):
    k0, kl, kh = _kind(l0), _kind(lo), _kind(hi)
    kh0 = _kind(h0) if h0 is not NONE else None
    # new low
    if kl == 'S':
        nl = ladd(l0, lo)
        if k0 == 'E' and _kind(nl) != 'E':
            if is_int(nl) and cval(nl) == 0:
                return ZERO, ZERO
            return None
    else:
        L = length(mk('slice', y, l0, h0))
        if not entails_ge0(ladd(L, lo)):
            return None
        if h0 is NONE:
            nl = lo
        elif kh0 == 'E':
            nl = ladd(h0, lo)
        else:
            nl = ladd(h0, lo)
            if _kind(nl) == 'E':
                return None
    if hi is NONE:
        nh = h0
    elif kh == 'E':
        nh = hi if h0 is NONE else ladd(h0, hi)
        if h0 is not NONE and kh0 == 'S' and _kind(nh) == 'E':
            return None
    else:
        nh = ladd(l0, hi)
        if k0 == 'E':
            if is_int(nh) and cval(nh) == 0:
                nh = NONE if h0 is NONE else h0
            elif _kind(nh) != 'E':
                return None
        if h0 is not NONE:
            if kh0 == 'S' and k0 == 'S' and is_int(nh) and is_int(h0):
                nh = const(min(cval(nh), cval(h0)))
            elif kh0 == 'E' and k0 == 'E' and is_int(nh) and is_int(h0):
                nh = const(min(cval(nh), cval(h0)))
            elif kh0 == 'E' and k0 == 'S':
                # y[a:-k][:n] == y[a:a+n] only if long enough; keep opaque
                return None
            elif nh is not h0:
                return None
    return nl, nh


def _slice_concat(x, lo, hi):
    parts = x.a
    cum = [ZERO]
    for p in parts:
        cum.append(ladd(cum[-1], length(p)))
    total = cum[-1]

    def locate(b, is_hi):
        if b is NONE:
            return (len(parts), 0)
        if _kind(b) == 'E':
            b = ladd(total, b)
        for i, c in enumerate(cum):
            if c is b:
                return (i, 0)
        for i, p in enumerate(parts):
            lp = length(p)
            d = ladd(b, cum[i], -1)
            if is_int(d) and cval(d) > 0 and is_int(lp) and cval(d) < cval(lp):
                return (i, cval(d))
        # inside last piece from the start
        d = ladd(b, cum[len(parts) - 1], -1)
        if is_int(d) and cval(d) > 0:
            return (len(parts) - 1, cval(d))
        # inside first piece, counted back from its end
        for i, p in enumerate(parts):
            d = ladd(b, cum[i + 1], -1)
            if is_int(d) and cval(d) < 0 and not is_int(length(p)) and i == 0:
                return (i, cval(d))
        return None

    a = locate(lo, False)
    b = locate(hi, True)
    if a is None or b is None:
        return None
    (i, di), (j, dj) = a, b
    if di < 0 or dj < 0:
        # negative offsets mean relative to end of piece
        if di < 0 and dj == 0 and j > i:
            return concat(slc(parts[i], const(di), NONE), *parts[i + 1:j])
        if dj < 0 and di >= 0:
            if i == j:
                return slc(parts[i], const(di), const(dj))
            if i < j:
                first = [slc(parts[i], const(di), NONE)] if di else [parts[i]]
                return concat(*(first + list(parts[i + 1:j]) +
                                [slc(parts[j], ZERO, const(dj))]))
        return None
    if (i, di) >= (j, dj):
        return EMPTY if (i, di) == (j, dj) else None
    out = []
    for k in range(i, min(j + 1, len(parts))):
        p = parts[k]
        s = di if k == i else 0
        e = dj if k == j else None
        if k == j and dj == 0:
            break
        out.append(slc(p, const(s), NONE if e is None else const(e)))
    return concat(*out)


def item(x, i):
    if x.op == 'tuple' and is_int(i):
        try:
            return x.a[0][cval(i)]
        except IndexError:
            return unknown('index')
    if x.op == 'list' and is_int(i):
        segs = x.a[0]
        k = cval(i)
        if k >= 0 and k < len(segs) and all(s[0] == 'i' for s in segs[:k + 1]):
            return segs[k][1]
        if k < 0 and -k <= len(segs) and all(s[0] == 'i' for s in segs[k:]):
            return segs[k][1]
    if is_str(x) and is_int(i):
        try:
            return const(cval(x)[cval(i)])
        except IndexError:
            return unknown('index')
    if x.op == 'rep' and is_int(length(x.a[0])) and cval(length(x.a[0])) == 1:
        return x.a[0]
    if x.op == 'concat' and is_int(i):
        k = cval(i)
        if k == -1:
            return item(x.a[-1], i)
        if k >= 0:
            p = slc(x, i, const(k + 1))
            if p.op != 'slice' or p.a[0] is not x:
                if is_str(p):
                    return p
                if p.op == 'slice':
                    return item(p.a[0], p.a[1])
                if is_int(length(p)) and cval(length(p)) == 1:
                    return p if p.op == 'chr' else item(p, ZERO)
    if x.op == 'slice' and _kind(i) == 'S' and _kind(x.a[1]) == 'S':
        return item(x.a[0], ladd(x.a[1], i))
    if x.op == 'slice' and is_int(i) and cval(i) == -1 and x.a[2] is NONE:
        return item(x.a[0], i)
    if x.op == 'chr' and is_int(i) and cval(i) in (0, -1):
        return x
    if not is_int(i):
        d = ladd(i, length(x), -1)
        if is_int(d) and cval(d) < 0:
            return item(x, d)
    return mk('item', x, i)


def ord_(x):
    if is_str(x) and len(cval(x)) == 1:
        return const(ord(cval(x)))
    if x.op == 'chr':
        return x.a[0]
    if isnum(x):
        return x
    return mk('ord', x)


def chr_(x):
    if is_int(x):
        try:
            return const(chr(cval(x)))
        except ValueError:
            return unknown('chr')
    if x.op == 'ord':
        return x.a[0]
    return mk('chr', x)


def b64enc(x):
    if x.op == 'b64dec':
        return x.a[0]
    if is_str(x):
        import base64
        try:
            return const(base64.urlsafe_b64encode(cval(x).encode('latin-1'))
                         .decode('ascii').replace('=', ''))
        except UnicodeEncodeError:
            pass
    return mk('b64enc', x)


def b64dec(x):
    if x.op == 'b64enc':
        return x.a[0]
    if x.op == 'slice' and x.a[0].op == 'b64enc' and is_int(x.a[1]) and \
            cval(x.a[1]) >= 0 and cval(x.a[1]) % 4 == 0 and \
            is_int(length(x)) and cval(length(x)) % 4 != 1:
        lo, n = cval(x.a[1]) // 4 * 3, cval(length(x))
        return slc(x.a[0].a[0], const(lo), const(lo + n * 3 // 4))
    if is_str(x):
        import base64
        s = cval(x)
        try:
            return const(base64.urlsafe_b64decode(s + '=' * (-len(s) % 4)).decode('latin-1'))
        except Exception:
            pass
    return mk('b64dec', x)


def str_(x):
    if x.op == 'const':
        return const(str(cval(x))) if cval(x) is not None else const('None')
    if isstr(x):
        return x
    return mk('str', x)


def xor(x, y):
    for p, q in ((x, y), (y, x)):
        if p.op == 'xor':
            if p.a[0] is q:
                return p.a[1]
            if p.a[1] is q:
                return p.a[0]
    if x.uid > y.uid:
        x, y = y, x
    return mk('xor', x, y)


def comm(op):
    def f(*xs):
        flat = []
        for x in xs:
            if x.op == op:
                flat.extend(x.a)
            else:
                flat.append(x)
        if all(is_int(x) for x in flat):
            r = cval(flat[0])
            for x in flat[1:]:
                v = cval(x)
                r = {'bxor': lambda: r ^ v, 'bor': lambda: r | v,
                     'band': lambda: r & v}[op]()
            return const(int(r))
        if op in ('bor', 'bxor'):
            flat = [x for x in flat if not (is_int(x) and cval(x) == 0)]
            if len(flat) == 1:
                return flat[0]
        flat.sort(key=lambda t: t.uid)
        if op == 'bxor':
            out = []
            for x in flat:
                if out and out[-1] is x:
                    out.pop()
                else:
                    out.append(x)
            flat = out
        elif op in ('bor', 'band'):
            flat = [x for i, x in enumerate(flat) if i == 0 or flat[i - 1] is not x]
        if op in ('bor', 'bxor') and len(flat) > 1:
            # no bit in common: the sum
            for x in flat:
                for y in flat:
                    if x is not y and _apart(x, y):
                        return f(ladd(x, y), *[z for z in flat if z is not x and z is not y])
        if not flat:
            return ZERO
        if len(flat) == 1:
            return flat[0]
        return mk(op, *flat)
    return f


def _apart(x, y):
    """x is a multiple of a power of two that y is below"""
    c, d = _lin(x)
    if x.op != 'lin' and not is_int(x):
        return False
    g = c
    for n in d.values():
        g = math.gcd(g, n)
    lo, hi = rng(y)
    lx, _ = rng(x)
    return g > 0 and lo is not None and lo >= 0 and hi is not None and hi < (g & -g) and \
        lx is not None and lx >= 0


bxor, bor, band = comm('bxor'), comm('bor'), comm('band')


def band2(x, y):
    for p, q in ((x, y), (y, x)):
        if is_int(q) and cval(q) > 0 and (cval(q) + 1) & cval(q) == 0:
            return mod(p, const(cval(q) + 1))
    return band(x, y)


def enc(key, mode, iv, prior, data):
    """cipher output for `data` after `prior` has gone through the cipher"""
    if data is EMPTY:
        return EMPTY
    return mk('enc', key, mode, iv, prior, data)


def dec(key, mode, iv, prior, data):
    if data is EMPTY:
        return EMPTY
    if data.op == 'enc' and data.a[:3] == (key, mode, iv):
        if data.a[3] is EMPTY and prior is EMPTY:
            return data.a[4]
        if prior.op == 'enc' and prior.a == (key, mode, iv, EMPTY, data.a[3]):
            return data.a[4]
    return mk('dec', key, mode, iv, prior, data)


def _chain(p, q):
    """merge adjacent outputs of one cipher stream"""
    if p.op == q.op and p.op in ('enc', 'dec') and p.a[:3] == q.a[:3] and \
            concat(p.a[3], p.a[4]) is q.a[3]:
        return rebuild(p.op, p.a[:4] + (concat(p.a[4], q.a[4]),))
    return None


def _cipher_slice(x, lo, hi):
    """block-aligned part of a cipher output"""
    if not is_int(lo) or cval(lo) % 16 or cval(lo) < 0:
        return None
    if hi is not NONE and (not is_int(hi) or cval(hi) % 16 or cval(hi) < 0):
        return None
    if not is_int(length(x)):
        return None
    k, m, iv, prior, data = x.a
    return rebuild(x.op, (k, m, iv, concat(prior, slc(data, ZERO, lo)),
                          slc(data, lo, hi)))


# ---------------------------------------------------------------- booleans
_BOOLOPS = {'eq', 'lt0', 'not', 'truth', 'isinstance', 'in', 'any', 'all',
            'startswith', 'endswith', 'hasattr', 'exists', 'isdir', 'isfile',
            'issubclass', 'callable', 'and', 'or', 'ok'}


def isbool(t):
    return t.op in _BOOLOPS or (t.op == 'const' and t.a[0] == 'bool')


def distinct(x, y):
    """definitely different values?"""
    if x is y:
        return False
    D = ('const', 'obj', 'cls', 'fn', 'module', 'ext')
    if x.op in D and y.op in D:
        if x.op == 'const' and y.op == 'const':
            try:
                return not (cval(x) == cval(y))
            except Exception:
                return True
        return True
    for p, q in ((x, y), (y, x)):
        if q.op in ('obj', 'cls', 'fn', 'module') and (isstr(p) or isnum(p) or
                                                       p.op == 'tuple'):
            return True
        if q is NONE and (isstr(p) or isnum(p) or p.op in (
                'tuple', 'list', 'dict', 'new', 'bm', 'map')):
            return True
    if x.op == y.op == 'asn1' and x.a[0] == y.a[0] and \
            isinstance(x.a[1], Term) and isinstance(y.a[1], Term) and \
            x.a[1].op == y.a[1].op == 'const':
        return distinct(x.a[1], y.a[1])
    if x.op == 'tuple' and y.op == 'tuple':
        if len(x.a[0]) != len(y.a[0]):
            return True
        return any(distinct(p, q) for p, q in zip(x.a[0], y.a[0]))
    return False


def _strip_common(x, y):
    """cancel equal leading and trailing parts of two concatenations"""
    a = list(x.a) if x.op == 'concat' else [x]
    b = list(y.a) if y.op == 'concat' else [y]
    moved = False
    for rev in (False, True):
        while a and b:
            p, q = (a[-1], b[-1]) if rev else (a[0], b[0])
            if p is q:
                a.pop(-1 if rev else 0)
                b.pop(-1 if rev else 0)
                moved = True
                continue
            if is_str(p) and is_str(q):
                u, v = cval(p), cval(q)
                n = min(len(u), len(v))
                if not n:
                    break
                if (u[-n:] != v[-n:] if rev else u[:n] != v[:n]):
                    return FALSE
                if rev:
                    u, v = u[:len(u) - n], v[:len(v) - n]
                else:
                    u, v = u[n:], v[n:]
                moved = True
                for l, w in ((a, u), (b, v)):
                    l.pop(-1 if rev else 0)
                    if w:
                        l.insert(len(l) if rev else 0, const(w))
                continue
            break
    if not moved:
        return None
    return concat(*a), concat(*b)


def eq(x, y):
    if x is y:
        return TRUE
    if distinct(x, y):
        return FALSE
    if x.op == 'tuple' and y.op == 'tuple' and False:
        pass
    # len(x) == 0  <=>  not x
    for p, q in ((x, y), (y, x)):
        if p.op == 'der' and q.op == 'const':
            # an encoding is never empty, and a sequence starts with its tag
            if not is_str(q) or cval(q)[:1] == '' or (p.a[0].op == 'asn1s' and cval(q)[:1] != '0'):
                return FALSE
        if is_int(q) and _cut(p):
            L, w = _cut(p)
            k = cval(q)
            if k < 0 or w is not None and k > w:
                return FALSE
            if k == w:
                return not_(lt(L, q))
            return lt(L, const(1)) if k == 0 else eq(L, q)
        if is_int(q) and cval(q) == 0 and p.op == 'len':
            return not_(truth(p.a[0]))
        if isbool(p) and q is TRUE:
            return p
        if isbool(p) and q is FALSE:
            return not_(p)
        if is_int(q) and cval(q) == 0:
            if p.op == 'bor' and all(_nonneg(z) for z in p.a):
                return and_(*[eq(z, ZERO) for z in p.a])
            if p.op == 'bxor' and len(p.a) == 2:
                return eq(p.a[0], p.a[1])
        # (z + c) % k == r  <=>  z % k == r - c
        if p.op == 'mod' and is_int(p.a[1]) and cval(p.a[1]) > 0 and is_int(q) and p.a[0].op in ('lin', 'len'):
            k = cval(p.a[1])
            if not 0 <= cval(q) < k:
                return FALSE
            c, m = _lin(p.a[0])
            if c:
                return eq(mk('mod', _unlin(0, m), const(k)), const((cval(q) - c) % k))
            if len(m) == 1:
                (v, n), = m.items()
                if n != 1 and math.gcd(n, k) == 1:  # n is invertible modulo k
                    return eq(mk('mod', v, const(k)), const(cval(q) * pow(n, -1, k) % k))
        # ord(item) == const -> item == chr(const)
        if p.op == 'ord' and is_int(q) and 0 <= cval(q) < 256:
            return eq(p.a[0], const(chr(cval(q))))
        # the encoding of z is a given text  <=>  z is what that text decodes to
        if p.op == 'b64enc' and is_str(q):
            t = cval(q)
            try:
                b = base64.urlsafe_b64decode((t + '=' * (-len(t) % 4)).encode('latin-1')).decode('latin-1')
            except ValueError:
                return FALSE
            if base64.urlsafe_b64encode(b.encode('latin-1')).decode('ascii').rstrip('=') != t:
                return FALSE
            return eq(p.a[0], const(b))
    if x.op == 'ord' and y.op == 'ord':
        return eq(x.a[0], y.a[0])
    if x.op == y.op == 'hash' and x.a[0] == y.a[0]:        # ideal hash
        return eq(x.a[1], y.a[1])
    if x.op == y.op == 'hmac' and x.a[0] == y.a[0] and x.a[1] is y.a[1]:
        return eq(x.a[2], y.a[2])
    if isnum(x) and isnum(y) or x.op == 'lin' or y.op == 'lin':
        d = ladd(x, y, -1)
        c, m = _lin(d)
        if not m:
            return TRUE if c == 0 else FALSE
        vs = sorted(m.items(), key=lambda kv: kv[0].uid)
        if vs[0][1] < 0:
            c, vs = -c, [(k, -v) for k, v in vs]
        if c == 0 and len(vs) > 1 and _summands(vs):
            return _allzero(vs)
        if all(k.op == 'len' and isinstance(v, int) for k, v in vs) and isinstance(c, int):
            g = 0
            for _, v in vs:
                g = math.gcd(g, v)
            if g > 1:
                if c % g:
                    return FALSE
                c, vs = c // g, [(k, v // g) for k, v in vs]
        # present as eq(linear vars, const)
        return mk('eq', _unlin(0, dict(vs)), const(-c))
    if x.op == 'concat' and isstr(y) and y.op != 'sym' or \
            y.op == 'concat' and isstr(x) and x.op != 'sym' or \
            x.op == 'concat' and y in x.a or y.op == 'concat' and x in y.a:
        r = _strip_common(x, y)
        if r is FALSE:
            return FALSE
        if r is not None:
            return eq(*r)
    for p, q in ((x, y), (y, x)):
        # one-character slice against a character
        if p.op == 'slice' and is_str(q) and len(cval(q)) == 1 and \
                _kind(p.a[1]) == 'S' and p.a[2] is not NONE and \
                ladd(p.a[2], p.a[1], -1) is const(1):
            return eq(item(p.a[0], p.a[1]), q)
        # (a | rest) == q   <=>   a == q[:n] and rest == q[n:]
        if p.op == 'concat' and (q.op in ('slice', 'sym', 'b64dec', 'dec', 'hmac',
                                          'hash', 'const', 'item')) and isstr(q):
            n = length(p.a[0])
            if is_int(n):
                h, t = slc(q, ZERO, n), slc(q, n, NONE)
                r = and_(eq(p.a[0], h), eq(concat(*p.a[1:]), t))
                return r
            n = length(p.a[-1])
            if is_int(n) and cval(n) > 0:
                h, t = slc(q, NONE, const(-cval(n))), slc(q, const(-cval(n)), NONE)
                return and_(eq(concat(*p.a[:-1]), h), eq(p.a[-1], t))
    if y.op != 'const' and (x.op == 'const' or x.uid > y.uid):
        x, y = y, x
    return mk('eq', x, y)


def lt(x, y):
    """x < y over integers, as lt0(lin)."""
    if x.op == 'const' and y.op == 'const':
        try:
            return TRUE if cval(x) < cval(y) else FALSE
        except TypeError:
            return unknown('lt')
    return lt0(ladd(x, y, -1))


def below(s, n):
    """is s an RSA signature (or plaintext) number under the modulus n?"""
    return s.op == 'getitem' and s.a[0].op == 'ckapp' and s.a[0].a[1].op == 'pub' and \
        s.a[0].a[1].a[0] == 'RSA' and s.a[0].a[1].a[1] is n


def _cut(v):
    """(L, w) with v = len(x[a:b]) = min(max(L, 0), w) and L = len(x) - a;
    None when the bounds are not known from the start"""
    if v.op == 'len' and v.a[0].op == 'slice':
        x, lo, hi = v.a[0].a
        if isstr(x) and is_int(lo) and cval(lo) >= 0 and (hi is NONE or is_int(hi) and cval(hi) >= cval(lo)):
            return ladd(length(x), const(-cval(lo))), (None if hi is NONE else cval(hi) - cval(lo))
    return None


def lt0(l):
    c, m = _lin(l)
    if not m:
        return TRUE if c < 0 else FALSE
    vs = sorted(m.items(), key=lambda kv: kv[0].uid)
    if len(vs) == 1 and abs(vs[0][1]) == 1 and _cut(vs[0][0]):
        L, w = _cut(vs[0][0])
        if vs[0][1] == 1:                   # length < -c
            if c >= 0:
                return FALSE
            if w is not None and -c > w:
                return TRUE
            return lt0(ladd(L, const(c)))
        if c < 0:                           # length > c
            return TRUE
        if w is not None and c >= w:
            return FALSE
        return lt0(ladd(const(c), L, -1))
    # len(x) > 0 <=> x ; len(x) < 1 <=> not x
    if len(vs) == 1 and vs[0][0].op == 'len' and abs(vs[0][1]) == 1:
        v, n = vs[0]
        if n == 1 and c == -1:
            return not_(truth(v.a[0]))
        if n == -1 and c == 0:
            return truth(v.a[0])
        if n == 1 and c >= 0:
            return FALSE
        if n == -1 and c < 0:
            return TRUE
    if len(vs) == 2 and vs[0][1] == -vs[1][1] and abs(vs[0][1]) == 1:
        # an RSA result is a number below the modulus: 1 <= n - s
        (a, x), (b, _) = vs
        n, v = (a, b) if x == 1 else (b, a)       # n - v + c < 0 ?
        if below(v, n) and c >= -1:
            return FALSE
        if below(n, v) and c <= 0:                # v' - n' + c < 0
            return TRUE
    if len(vs) > 1:
        if c == -1 and all(n == 1 for _, n in vs) and _summands(vs):
            return _allzero(vs)
        if c == 0 and all(n == -1 for _, n in vs) and _summands([(k, 1) for k, _ in vs]):
            return not_(_allzero(vs))
    if vs[0][1] < 0:
        # not (-l - 1 < 0)
        return not_(mk('lt0', _unlin(-c - 1, {k: -v for k, v in vs})))
    return mk('lt0', _unlin(c, dict(vs)))


def not_(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.op == 'not':
        return x.a[0]
    if not isbool(x):
        x = truth(x)
        if x.op == 'not':
            return x.a[0]
        if x.op == 'const':
            return FALSE if cval(x) else TRUE
    return mk('not', x)


def and_(*xs):
    out = []
    for x in xs:
        for y in (x.a if x.op == 'and' else (x,)):
            if y is TRUE or y in out:
                continue
            if y is FALSE:
                return FALSE
            out.append(y)
    if not out:
        return TRUE
    if len(out) > 1:
        out = _join_items(out)
    return out[0] if len(out) == 1 else mk('and', *out)


def _nonneg(t):
    if t.op in ('ord', 'len'):
        return True
    if t.op in ('bxor', 'bor', 'band'):
        return all(_nonneg(z) for z in t.a)
    return entails_ge0(t)


def _summands(vs):
    """a sum of byte differences or of truth values: zero iff every part is"""
    return all(n > 0 and (k.op in ('bxor', 'bor') and _nonneg(k) or isbool(k)) for k, n in vs)


def _allzero(vs):
    return and_(*[not_(k) if isbool(k) else eq(k, ZERO) for k, _ in vs])


def _join_items(out):
    """a[0]==b[0] and a[1]==b[1] and ...  ->  a[0:n]==b[0:n]"""
    groups = {}
    for y in out:
        if y.op == 'eq' and y.a[0].op == 'slice' and y.a[1].op == 'slice' and all(
                is_int(z) and cval(z) >= 0 for x in y.a for z in x.a[1:3]):
            p, q = y.a
            n = cval(p.a[2]) - cval(p.a[1])
            if n == cval(q.a[2]) - cval(q.a[1]) and 0 < n <= 64 and p.a[0] is not q.a[0]:
                if p.a[0].uid > q.a[0].uid:
                    p, q = q, p
                g = groups.setdefault((p.a[0], q.a[0], ladd(q.a[1], p.a[1], -1)), {})
                for i in range(n):
                    g.setdefault(cval(p.a[1]) + i, y)
        if y.op == 'eq' and y.a[0].op == 'item' and y.a[1].op == 'item':
            p, q = y.a
            if p.a[0] is q.a[0]:
                continue
            if p.a[0].uid > q.a[0].uid:
                p, q = q, p
            if not is_int(p.a[1]):
                continue
            d = ladd(q.a[1], p.a[1], -1)
            groups.setdefault((p.a[0], q.a[0], d), {})[cval(p.a[1])] = y
    for (A, B, d), m in groups.items():
        ks = sorted(m)
        i = 0
        while i < len(ks):
            j = i
            while j + 1 < len(ks) and ks[j + 1] == ks[j] + 1 and ks[j + 1] != 0:
                j += 1
            if j > i:
                lo, n = ks[i], j - i + 1
                l = _span(A, const(lo), n)
                r = _span(B, ladd(d, const(lo)), n)
                if l is not None and r is not None:
                    e = eq(l, r)
                    drop = {m[k] for k in ks[i:j + 1]}
                    out = [z for z in out if z not in drop]
                    if e is FALSE:
                        return [FALSE]
                    if e is not TRUE:
                        out.append(e)
            i = j + 1
    return out or [TRUE]


def _span(A, lo, n):
    L = length(A)
    hi = ladd(lo, const(n))
    if is_int(lo) and cval(lo) < 0 and cval(hi) == 0:
        hi = NONE
    if is_int(lo) and cval(lo) == 0:
        d = ladd(L, const(n), -1)
        if is_int(d) and cval(d) == 0 or (entails_ge0(d) and entails_ge0(neg(d))):
            return A
    return slc(A, lo, hi)


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def truth(x):
    if x.op == 'const':
        return TRUE if cval(x) else FALSE
    if isbool(x):
        return x
    if x.op in ('cls', 'fn', 'module', 'ext', 'bm', 'exc', 'jdict_ne', 'der'):
        return TRUE
    if x.op == 'tuple':
        return TRUE if x.a[0] else FALSE
    if x.op == 'list':
        segs = x.a[0]
        if not segs:
            return FALSE
        if any(s[0] == 'i' for s in segs):
            return TRUE
    if x.op == 'len':
        return truth(x.a[0])
    if x.op in ('bor', 'bxor', 'mod', 'lin', 'ord', 'int', 'sum'):
        return not_(eq(x, ZERO))
    if isstr(x):
        L = length(x)
        if is_int(L):
            return TRUE if cval(L) > 0 else FALSE
        if L.op == 'len' and L.a[0] is x and _cut(L):
            return lt(ZERO, L)
    return mk('truth', x)


def lstrip(s, chars):
    if not is_str(chars):
        return mk('lstrip', s, chars)
    cs = cval(chars)
    parts = list(s.a) if s.op == 'concat' else [s]
    while parts:
        p = parts[0]
        if is_str(p):
            q = cval(p).lstrip(cs)
            if q:
                parts[0] = const(q)
                return concat(*parts)
            parts.pop(0)
            continue
        if p.op == 'rep' and is_str(p.a[0]) and not set(cval(p.a[0])) - set(cs):
            parts.pop(0)
            continue
        if p.op == 'bytesof' and cs == '\0':     # no leading zero octets
            if len(parts) == 1 or entails_ge0(ladd(length(p), const(1), -1)):
                return concat(*parts)
        if p.op == 'lstrip' and p.a[1] is chars and len(parts) == 1:
            return p
        break
    if not parts:
        return const('')
    return mk('lstrip', concat(*parts), chars)


_BUILD = {
    'lstrip': lstrip,
    'concat': concat, 'slice': slc, 'item': item, 'len': length, 'ord': ord_,
    'chr': chr_, 'b64enc': b64enc, 'b64dec': b64dec, 'str': str_, 'mul': mul,
    'rep': rep, 'div': div, 'mod': mod, 'eq': eq, 'lt0': lt0, 'not': not_,
    'truth': truth, 'xor': xor, 'bxor': bxor, 'bor': bor, 'band': band,
    'dec': dec, 'enc': enc, 'and': and_,
}

_short = {'concat': '|'}


def show(t, depth=0, lim=12):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, depth + 1, lim) for x in t) + ')'
    if not isinstance(t, Term):
        return str(t)
    if depth > lim:
        return '…'
    d = depth + 1
    o, a = t.op, t.a
    if o == 'const':
        return repr(a[1])
    if o == 'sym':
        return a[0]
    if o == 'obj':
        return '<%s>' % (a[0],)
    if o in ('cls', 'fn', 'module', 'ext'):
        return str(a[0])
    if o == 'field':
        return '%s.%s' % (show(a[0], d, lim), a[1])
    if o == 'concat':
        return '(' + ' | '.join(show(x, d, lim) for x in a) + ')'
    if o == 'slice':
        return '%s[%s:%s]' % (show(a[0], d, lim),
                              '' if a[1] is ZERO else show(a[1], d, lim),
                              '' if a[2] is NONE else show(a[2], d, lim))
    if o == 'item':
        return '%s[%s]' % (show(a[0], d, lim), show(a[1], d, lim))
    if o == 'lin':
        s = []
        for v, c in a[1]:
            s.append(('%s' if c == 1 else '%d*%%s' % c) % show(v, d, lim))
        if a[0]:
            s.append(str(a[0]))
        return '(' + ' + '.join(s) + ')'
    if o == 'eq':
        return '%s == %s' % (show(a[0], d, lim), show(a[1], d, lim))
    if o == 'lt0':
        return '%s < 0' % show(a[0], d, lim)
    if o == 'not':
        return 'not %s' % show(a[0], d, lim)
    if o == 'truth':
        return 'bool(%s)' % show(a[0], d, lim)
    if o == 'res':
        return '%s(%s)#%s' % (show(a[1], d, lim),
                              ', '.join(show(x, d, lim) for x in a[2]), a[0])
    if o == 'bm':
        return '%s.%s' % (show(a[0], d, lim), show(a[1], d, lim))
    if o == 'attr':
        return '%s.%s' % (show(a[0], d, lim), a[1])
    return '%s(%s)' % (o, ', '.join(show(x, d, lim) for x in a))
