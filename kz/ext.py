"""Abstract models of the standard library and third-party calls."""
import struct

from . import terms as T
from .terms import (mk, const, NONE, TRUE, FALSE, EMPTY, ZERO, is_const, cval,
                    is_int, is_str, isstr, isnum, unknown, show)
from . import interp as I

FN = {}
METH = {}

BUILTINS = set('''len range isinstance issubclass hasattr getattr setattr str repr bytes
bytearray ord chr abs print open iter next callable id type divmod pow round hex
bin object property staticmethod classmethod __import__ sum any all zip enumerate
reversed map filter list tuple dict set frozenset sorted max min int float bool
unicode long xrange super vars dir hash format input memoryview exit quit
delattr raw_input basestring reduce oct slice complex globals locals'''.split())

_ALIAS = {
    'simplejson': 'json', 'Crypto.Cipher.AES': 'AES', 'Cryptodome.Cipher.AES': 'AES',
    'Crypto.PublicKey.RSA': 'RSA', 'Crypto.PublicKey.DSA': 'DSA',
    'M2Crypto.EVP': 'EVP', 'posixpath': 'os.path', 'hashlib.sha': 'hashlib.sha1',
    'sha.new': 'hashlib.sha1', 'sha.sha': 'hashlib.sha1', 'builtins': '',
    'pyasn1.codec.der.decoder': 'derdec', 'pyasn1.codec.der.encoder': 'derenc',
    'pyasn1.type.univ': 'univ', 'cPickle': 'pickle', 'six.moves.cPickle': 'pickle',
    'io.open': 'open', 'codecs.open': 'open', 'os.unlink': 'os.remove',
    'itertools.izip': 'zip', 'operator.xor': 'operator.xor',
}


def canon(name):
    parts = name.split('.')
    for i in range(len(parts), 0, -1):
        p = '.'.join(parts[:i])
        if p in _ALIAS:
            rest = parts[i:]
            b = _ALIAS[p]
            return '.'.join(([b] if b else []) + rest)
    return name


CONSTS = {
    'AES.block_size': const(16), 'AES.MODE_CBC': const(2), 'AES.MODE_ECB': const(1),
    'AES.MODE_CFB': const(3), 'AES.MODE_OFB': const(5), 'AES.MODE_CTR': const(6),
    'os.pathsep': const(':'), 'os.sep': const('/'), 'os.linesep': const('\n'),
    'subprocess.STDOUT': const(-2), 'subprocess.PIPE': const(-1),
    'errno.EEXIST': const(17), 'errno.ENOENT': const(2), 'string.whitespace': const(' \t\n\r\x0b\x0c'),
}


def fn(*names):
    def d(f):
        for n in names:
            FN[n] = f
        return f
    return d


def meth(*names):
    def d(f):
        for n in names:
            METH[n] = f
        return f
    return d


def has_method(cls, name):
    return '%s.%s' % (cls, name) in METH


def call(run, name, args, kw):
    name = canon(name)
    if name == 'KZ.identity':
        return args[0]
    if name.startswith('KZ.'):
        from . import intrinsics
        return intrinsics.call(run, name[3:], args, kw)
    f = FN.get(name)
    if f is not None:
        return f(run, args, kw)
    if name in I.PYEXC or name in I.EXTEXC:
        o = run.alloc('inst', name, cls=mk('ext', name),
                      f={'args': mk('tuple', tuple(args))})
        return o
    # unbound method of a base class:  Base.method(self, ...)
    cls, _, m = name.rpartition('.')
    if cls in I.PYEXC or cls == 'object' or cls in I.EXTEXC:
        if m == '__init__':
            if args and run.kind(args[0]) == 'inst':
                run.wr(args[0], 'args')
                run.H[args[0]].f['args'] = mk('tuple', tuple(args[1:]))
            return NONE
        if m in ('__str__', '__repr__') and args:
            return mk('str', args[0])
    if name.startswith('str.') and args:
        return call_method(run, args[0], name, args[1:], kw)
    if cls in ('list', 'dict', 'set') and args:
        return call_method(run, args[0], name, args[1:], kw)
    return run.opaque_call(mk('ext', name), args, kw)


def call_method(run, s, name, args, kw):
    f = METH.get(name)
    if f is not None:
        return f(run, s, args, kw)
    cls, _, m = name.rpartition('.')
    if cls in I.PYEXC or cls == 'object' or cls in I.EXTEXC:
        if m == '__init__':
            run.wr(s, 'args')
            run.H[s].f['args'] = mk('tuple', tuple(args))
            return NONE
        if m == '__eq__':
            return TRUE if s is args[0] else FALSE
        if m in ('__str__', '__repr__'):
            return mk('str', s)
        if m == '__setattr__':
            run.wr(s, cval(args[0]))
            run.H[s].f[cval(args[0])] = args[1]
            return NONE
        if m == '__hash__':
            return mk('id', s)
    if cls == 'str':
        return str_method(run, s, m, args, kw)
    if cls == 'int':
        return int_method(run, s, m, args, kw)
    if cls == 'tuple':
        if m == 'index' or m == 'count':
            pass
        return unknown('tuple.' + m)
    if m == '__init__' and run.kind(s) == 'inst':
        return NONE
    return run.opaque_call(mk('field', s, m), args, kw)


def simple(v):
    return v.op == 'const'


def args_of(names, args, kw, defaults=()):
    out = []
    for i, n in enumerate(names):
        if i < len(args):
            out.append(args[i])
        elif n in kw:
            out.append(kw[n])
        else:
            j = i - (len(names) - len(defaults))
            out.append(defaults[j] if j >= 0 else NONE)
    return out


# ------------------------------------------------------------------ builtins
@fn('len')
def _len(run, a, kw):
    v = a[0]
    r = run.H.get(v)
    if r is not None:
        if r.kind == 'list':
            n = ZERO
            for k, x in r.items:
                n = T.ladd(n, const(1) if k == 'i' else T.length(x) if x.op in ('map', 'range', 'lrep') else mk('len', x))
            return n
        if r.kind in ('dict', 'set'):
            if r.meta.get('rest') is not None:
                return T.ladd(const(len(r.items)), mk('len', r.meta['rest']))
            return const(len(r.items))
        if r.kind == 'inst':
            f = run.class_attr(r.cls, '__len__')
            if f is not None:
                return run.call(mk('bm', v, f), [], {})
        if r.kind == 'ext':
            if r.cls == 'asn1seq':
                return const(len(r.items))
            return mk('len', v)
        run.raise_py('TypeError')
    if v is NONE or isnum(v):
        run.raise_py('TypeError')
    return T.length(v)


@fn('range', 'xrange')
def _range(run, a, kw):
    if all(is_int(x) for x in a):
        xs = range(*[int(cval(x)) for x in a])
        if len(xs) > I.MAXITER:
            raise I.Unsupported('large range')
        return run.newlist([const(x) for x in xs])
    # a symbolic bound may be fixed by the facts
    b = []
    for x in a:
        k = cval(x) if is_int(x) else run.const_of(x)
        if k is None and is_int(run.find(x)):
            k = cval(run.find(x))
        b.append(k)
    if all(k is not None for k in b):
        return run.newlist([const(x) for x in range(*b)])
    return run.alloc('list', 'range', items=[('s', mk('range', *a))])


@fn('isinstance')
def _isinstance(run, a, kw):
    v, c = a
    if c.op == 'tuple':
        return T.or_(*[_isinstance(run, [v, x], {}) for x in c.a[0]])
    r = run.H.get(v)
    if r is not None and r.kind == 'inst':
        m = run.issub(r.cls, c)
        if m is None:
            return mk('isinstance', v, c)
        return TRUE if m else FALSE
    cn = c.a[0] if c.op == 'ext' else None
    if r is not None and r.kind == 'ext' and cn:
        if cn.endswith('.' + r.cls) or cn == r.cls:
            return TRUE
    if cn in ('str', 'bytes', 'unicode', 'basestring', 'bytearray'):
        if isstr(v):
            return TRUE if cn != 'bytearray' else FALSE
        if v.op == 'const' or r is not None or isnum(v) or v.op == 'tuple':
            return FALSE
        return mk('isinstance', v, mk('ext', 'str'))
    if cn in ('int', 'long', 'float', 'bool'):
        if v.op == 'const':
            return TRUE if isinstance(cval(v), {'int': int, 'long': int, 'float': float,
                                                'bool': bool}[cn]) else FALSE
        if isnum(v):
            return TRUE if cn in ('int', 'long') else FALSE
        if isstr(v) or r is not None:
            return FALSE
        return mk('isinstance', v, c)
    if cn in ('list', 'dict', 'set', 'tuple'):
        if r is not None:
            return TRUE if r.kind == cn else FALSE
        if v.op == 'tuple':
            return TRUE if cn == 'tuple' else FALSE
        if isstr(v) or isnum(v) or v.op == 'const':
            return FALSE
        return mk('isinstance', v, c)
    if cn == 'object':
        return TRUE
    if v.op == 'const' or isstr(v) or isnum(v) or v.op == 'tuple':
        return FALSE
    if r is not None and r.kind in ('list', 'dict', 'set'):
        return FALSE
    return mk('isinstance', v, c)


@fn('issubclass')
def _issubclass(run, a, kw):
    if a[1].op == 'tuple':
        return T.or_(*[_issubclass(run, [a[0], x], {}) for x in a[1].a[0]])
    r = run.issub(a[0], a[1])
    return mk('issubclass', *a) if r is None else (TRUE if r else FALSE)


@fn('hasattr')
def _hasattr(run, a, kw):
    try:
        v = run.getattr(a[0], cval(a[1]))
        if v.op == 'field':
            return mk('hasattr', *a)
        return TRUE
    except I.AbsExc:
        return FALSE


@fn('getattr')
def _getattr(run, a, kw):
    if not is_str(a[1]):
        return unknown('dynamic getattr')
    if len(a) > 2:
        try:
            return run.getattr(a[0], cval(a[1]), a[2])
        except I.AbsExc:
            return a[2]
    return run.getattr(a[0], cval(a[1]))


@fn('setattr')
def _setattr(run, a, kw):
    if not is_str(a[1]):
        run.effect('setattr', a[0], a[1], a[2])
        return NONE
    run.setattr(a[0], cval(a[1]), a[2])
    return NONE


@fn('delattr')
def _delattr(run, a, kw):
    r = run.H.get(a[0])
    if r is not None:
        run.wr(a[0], cval(a[1]))
        r.f.pop(cval(a[1]), None)
    return NONE


@fn('str', 'unicode')
def _str(run, a, kw):
    if not a:
        return EMPTY
    return run.str_of(a[0])


@fn('repr')
def _repr(run, a, kw):
    r = run.H.get(a[0])
    if r is not None and r.kind == 'inst' and r.cls.op == 'cls':
        f = run.class_attr(r.cls, '__repr__')
        if f is not None:
            return run.call(mk('bm', a[0], f), [], {})
    if simple(a[0]):
        return const(repr(cval(a[0])))
    return mk('repr', run.freeze(a[0]))


@fn('bytes')
def _bytes(run, a, kw):
    if not a:
        return EMPTY
    v = a[0]
    r = run.H.get(v)
    if r is not None and r.kind == 'inst' and '_data' in r.f:
        return r.f['_data']
    if isstr(v):
        return v
    if is_int(v):
        return const('\0' * cval(v))
    if isnum(v):
        return T.rep(const('\0'), v)
    xs = run.iterate(v)
    if xs is not None:
        return T.concat(*[T.chr_(T.ord_(x)) for x in xs])
    return unknown('bytes')


@fn('ord')
def _ord(run, a, kw):
    v = a[0]
    if isstr(v):
        L = T.length(v)
        if is_int(L) and cval(L) != 1:
            run.raise_py('TypeError')
        if run.flags.get('ct'):
            run.effect('ord', v)
    return T.ord_(v)


@fn('chr')
def _chr(run, a, kw):
    return T.chr_(a[0])


@fn('abs')
def _abs(run, a, kw):
    if simple(a[0]):
        return const(abs(cval(a[0])))
    if run.branch(T.lt(a[0], ZERO)):
        return T.neg(a[0])
    return a[0]


@fn('print')
def _print(run, a, kw):
    run.effect('print', *[run.freeze(x) for x in a])
    return NONE


@fn('callable')
def _callable(run, a, kw):
    k = run.kind(a[0])
    if k in ('fn', 'class') or a[0].op in ('bm', 'ext'):
        return TRUE
    if simple(a[0]) or isstr(a[0]):
        return FALSE
    return mk('callable', a[0])


@fn('id', 'hash')
def _id(run, a, kw):
    return mk('id', a[0])


@fn('type')
def _type(run, a, kw):
    if len(a) == 3:
        raise I.Unsupported('type()')
    r = run.H.get(a[0])
    if r is not None and r.kind == 'inst':
        return r.cls
    if isstr(a[0]):
        return mk('ext', 'str')
    if isnum(a[0]):
        return mk('ext', 'int')
    return mk('typeof', a[0])


@fn('divmod')
def _divmod(run, a, kw):
    return mk('tuple', (T.div(*a), T.mod(*a)))


@fn('pow')
def _pow(run, a, kw):
    if all(simple(x) for x in a):
        return const(pow(*[cval(x) for x in a]))
    return mk('pow', *a)


@fn('round')
def _round(run, a, kw):
    if all(simple(x) for x in a):
        return const(round(*[cval(x) for x in a]))
    return unknown('round')


@fn('hex')
def _hex(run, a, kw):
    return const(hex(cval(a[0]))) if is_int(a[0]) else mk('hexof', a[0])


@fn('bin')
def _bin(run, a, kw):
    return const(bin(cval(a[0]))) if is_int(a[0]) else mk('strf', 'bin', a[0])


@fn('oct')
def _oct(run, a, kw):
    return const(oct(cval(a[0]))) if is_int(a[0]) else mk('strf', 'oct', a[0])


@fn('bin')
def _bin(run, a, kw):
    if is_int(a[0]):
        return const(bin(cval(a[0])))
    # bytes of known range: split on the value's bit length
    return mk('binof', a[0])


@fn('format')
def _format(run, a, kw):
    if all(simple(x) for x in a):
        return const(format(*[cval(x) for x in a]))
    return mk('fmt', a[1] if len(a) > 1 else EMPTY, run.freeze(a[0]))


@fn('object')
def _object(run, a, kw):
    return run.alloc('inst', 'object', cls=mk('ext', 'object'))


@fn('int', 'long')
def _int(run, a, kw):
    if not a:
        return ZERO
    v = a[0]
    if len(a) == 2 or 'base' in kw:
        b = a[1] if len(a) == 2 else kw['base']
        if is_str(v) and is_int(b):
            try:
                return const(int(cval(v), cval(b)))
            except ValueError:
                run.raise_py('ValueError')
        if is_int(b) and cval(b) == 2:
            r = _bits_to_int(v)
            if r is not None:
                return r
        if v.op == 'hexof' or is_int(b) and cval(b) == 16:
            return mk('int16', v)
        return mk('intb', v, b)
    if v.op == 'const':
        try:
            return const(int(cval(v)))
        except ValueError:
            run.raise_py('ValueError')
        except TypeError:
            run.raise_py('TypeError')
    if isnum(v) or v.op in ('floor', 'ceil'):
        return v
    if T.isbool(v):
        return v
    if v.op == 'asn1' and v.a[0] == 'Integer':
        return v.a[1]
    if v.op == 'str' and isnum(v.a[0]):
        return v.a[0]
    if isstr(v):
        if not run.branch(mk('ok', 'int', v)):
            run.raise_py('ValueError', [v])
        return mk('int', v)
    if v.op in ('comp', 'derval'):
        return mk('int', v)
    if run.kind(v) == 'inst':
        f = run.class_attr(run.H[v].cls, '__int__')
        if f is not None:
            return run.call(mk('bm', v, f), [], {})
        run.raise_py('TypeError')
    return mk('int', v)


def _bits_to_int(v):
    """int(concat of '0'/'1' literals and bit characters, 2)"""
    parts = v.a if v.op == 'concat' else (v,)
    acc = ZERO
    for p in parts:
        if is_str(p):
            if set(cval(p)) - set('01'):
                return None
            for c in cval(p):
                acc = T.ladd(T.mul(const(2), acc), const(int(c)))
        elif p.op == 'str' and T.rng(p.a[0]) == (0, 1):
            acc = T.ladd(T.mul(const(2), acc), p.a[0])
        else:
            return None
    return acc


@fn('float')
def _float(run, a, kw):
    if simple(a[0]):
        try:
            return const(float(cval(a[0])))
        except ValueError:
            run.raise_py('ValueError')
    return mk('tofloat', a[0])


@fn('bool')
def _bool(run, a, kw):
    return run.truth(a[0]) if a else FALSE


@fn('max', 'min')
def _max(run, a, kw, name='max'):
    raise AssertionError


def _mm(name):
    def f(run, a, kw):
        xs = a
        if len(a) == 1:
            xs = run.iterate(a[0])
            if xs is None:
                if 'default' in kw:
                    pass
                return mk(name, run.freeze(a[0]))
            if not xs:
                if 'default' in kw:
                    return kw['default']
                run.raise_py('ValueError')
        key = kw.get('key')
        ks = [run.call(key, [x], {}) if key is not None else x for x in xs]
        best = 0
        for i in range(1, len(xs)):
            c = T.lt(ks[best], ks[i]) if name == 'max' else T.lt(ks[i], ks[best])
            if run.branch(c):
                best = i
        return xs[best]
    return f


FN['max'] = _mm('max')
FN['min'] = _mm('min')


@fn('sum')
def _sum(run, a, kw):
    xs = run.iterate(a[0])
    start = a[1] if len(a) > 1 else kw.get('start', ZERO)
    if xs is None:
        return mk('sum', run.freeze(a[0]), start)
    acc = start
    import ast
    for x in xs:
        if T.isbool(x) and x.op != 'const':
            acc = T.ladd(acc, x)
        else:
            acc = run.binop(ast.Add(), acc, x)
    return acc


@fn('any')
def _any(run, a, kw):
    r = run.H.get(a[0])
    if hasattr(r, 'pull') and r.step is not None:
        while True:
            v = run.H[a[0]].pull()
            if v is None:
                return FALSE
            if run.branch(v):
                return TRUE
    xs = run.iterate(a[0])
    if xs is None:
        return mk('any', run.freeze(a[0]))
    if run.flags.get('ct'):
        return TRUE if any(run.branch(x) for x in xs) else FALSE
    return T.or_(*[run.truth(x) for x in xs]) if xs else FALSE


@fn('all')
def _all(run, a, kw):
    r = run.H.get(a[0])
    if hasattr(r, 'pull') and r.step is not None:
        while True:
            v = run.H[a[0]].pull()
            if v is None:
                return TRUE
            if not run.branch(v):
                return FALSE
    xs = run.iterate(a[0])
    if xs is None:
        return mk('all', run.freeze(a[0]))
    if run.flags.get('ct'):
        return TRUE if all(run.branch(x) for x in xs) else FALSE
    return T.and_(*[run.truth(x) for x in xs]) if xs else TRUE


@fn('zip', 'itertools.izip')
def _zip(run, a, kw):
    xs = [run.iterate(x) for x in a]
    if any(x is None for x in xs):
        # lengths known equal by facts?
        ks = [len(x) for x in xs if x is not None]
        if ks:
            n = min(ks)
            ys = []
            for x, t in zip(xs, a):
                if x is None and isstr(t) and run.decide(
                        T.lt(T.length(t), const(n))) is False:
                    x = [T.item(t, const(i)) for i in range(n)]
                ys.append(x)
            xs = ys
    if any(x is None for x in xs):
        return run.alloc('list', 'zip', items=[
            ('s', mk('zip', *[run.freeze(x) for x in a]))])
    return run.newlist([mk('tuple', t) for t in zip(*xs)])


@fn('enumerate')
def _enumerate(run, a, kw):
    xs = run.iterate(a[0])
    st = a[1] if len(a) > 1 else kw.get('start', ZERO)
    if xs is None:
        return run.alloc('list', 'enum', items=[('s', mk('enumerate', run.freeze(a[0])))])
    return run.newlist([mk('tuple', (T.ladd(const(i), st), x)) for i, x in enumerate(xs)])


@fn('reversed')
def _reversed(run, a, kw):
    xs = run.iterate(a[0])
    if xs is None:
        return run.alloc('list', 'rev', items=[('s', mk('reversed', run.freeze(a[0])))])
    return run.newlist(xs[::-1])


@fn('map')
def _map(run, a, kw):
    cols = [run.iterate(x) for x in a[1:]]
    if any(c is None for c in cols):
        if len(cols) == 1:
            el = mk('elem', run.freeze(a[1]), 'it')
            prev = run.nested
            run.nested = {'nobranch': True}
            try:
                b = run.freeze(run.call(a[0], [el], {}))
            except I.Unsupported:
                b = unknown('map')
            finally:
                run.nested = prev
            return run.alloc('list', 'list', items=[('s', mk('map', run.freeze(a[1]), NONE, b))])
        return run.alloc('list', 'list', items=[('s', unknown('map'))])
    return run.newlist([run.call(a[0], list(t), {}) for t in zip(*cols)])


@fn('filter')
def _filter(run, a, kw):
    xs = run.iterate(a[1])
    if xs is None:
        return run.alloc('list', 'list', items=[('s', unknown('filter'))])
    out = []
    for x in xs:
        c = run.call(a[0], [x], {}) if a[0] is not NONE else x
        if run.branch(c):
            out.append(x)
    return run.newlist(out)


@fn('functools.reduce', 'reduce')
def _reduce(run, a, kw):
    xs = run.iterate(a[1])
    if xs is None:
        return unknown('reduce')
    if len(a) > 2:
        acc = a[2]
    else:
        if not xs:
            run.raise_py('TypeError')
        acc, xs = xs[0], xs[1:]
    for x in xs:
        acc = run.call(a[0], [acc, x], {})
    return acc


@fn('list')
def _list(run, a, kw):
    if not a:
        return run.newlist([])
    r = run.H.get(a[0])
    if r is not None and r.kind == 'list':
        return run.alloc('list', 'list', items=list(r.items))
    xs = run.iterate(a[0])
    if xs is None:
        return run.alloc('list', 'list', items=[('s', run.freeze(a[0]))])
    return run.newlist(xs)


@fn('tuple')
def _tuple(run, a, kw):
    if not a:
        return mk('tuple', ())
    xs = run.iterate(a[0])
    if xs is None:
        return mk('tupleof', run.freeze(a[0]))
    return mk('tuple', tuple(xs))


@fn('memoryview')
def _memoryview(run, a, kw):
    return a[0]


@fn('vars')
def _vars(run, a, kw):
    if not a:
        raise I.Unsupported('vars()')
    return run.getattr(a[0], '__dict__')


@fn('iter')
def _iter(run, a, kw):
    if len(a) == 2:
        return run.call(run.prelude('call_until'), a, {})
    xs = run.iterate(a[0])
    if xs is None:
        return a[0]
    return run.alloc('ext', 'iter', cls='iter', items=list(xs))


@fn('next')
def _next(run, a, kw):
    r = run.H.get(a[0])
    if hasattr(r, 'pull') and r.step is not None:
        run.wr(a[0], 'items')
        v = run.H[a[0]].pull()
        if v is not None:
            return v
        if len(a) > 1:
            return a[1]
        run.raise_py('StopIteration')
    if r is not None and r.kind == 'ext' and r.cls == 'iter' or \
            r is not None and r.kind == 'list':
        run.wr(a[0], 'items')
        if r.items:
            x = r.items.pop(0)
            if r.kind == 'list':
                if x[0] == 's':
                    r.items.insert(0, x)
                    return mk('elem', x[1], 'next')
                return x[1]
            return x
        if len(a) > 1:
            return a[1]
        run.raise_py('StopIteration')
    return unknown('next')


@fn('dict', 'collections.OrderedDict')
def _dict(run, a, kw):
    d = run.newdict([])
    if a:
        call_method(run, d, 'dict.update', [a[0]], {})
    for k, v in kw.items():
        run.dict_set(d, const(k), v)
    return d


@fn('collections.defaultdict')
def _ddict(run, a, kw):
    d = run.newdict([])
    if a and a[0] is not NONE:
        run.H[d].meta['default'] = a[0]
    return d


def make_set(run, xs):
    t = run.alloc('set', 'set', items=[])
    r = run.H[t]
    for x in xs:
        set_add(run, t, x)
    return t


def set_add(run, t, x):
    r = run.H[t]
    run.wr(t, 'items')
    for y in r.items:
        e = run.pyeq(x, y)
        d = run.decide(e)
        if d is True or d is None and run.branch(e):
            return
    r.items.append(x)


@fn('set', 'frozenset')
def _set(run, a, kw):
    if not a:
        return make_set(run, [])
    xs = run.iterate(a[0])
    if xs is None:
        t = make_set(run, [])
        run.H[t].meta['rest'] = run.freeze(a[0])
        return t
    return make_set(run, xs)


def set_op(run, o, a, b):
    ra, rb = run.H[a], run.H[b]
    inb = lambda x: run.branch(run.contains(b, x))
    if o == 'BitOr':
        t = make_set(run, ra.items)
        for x in rb.items:
            set_add(run, t, x)
        return t
    if o == 'BitAnd':
        return make_set(run, [x for x in ra.items if inb(x)])
    if o == 'Sub':
        return make_set(run, [x for x in ra.items if not inb(x)])
    raise I.Unsupported('set op')


@fn('dir')
def _dir(run, a, kw):
    v = a[0]
    r = run.H.get(v)
    if r is None or r.kind not in ('cls', 'class', 'inst', 'module'):
        return unknown('dir')
    names = set(k for k in r.f if isinstance(k, str))
    if r.kind != 'module':
        for c in run.mro(v if v.op == 'cls' else r.cls):
            if c.op == 'cls':
                names |= set(k for k in run.H[c].f if isinstance(k, str))
    return run.newlist([const(x) for x in sorted(names)])


@fn('sorted')
def _sorted(run, a, kw):
    r = run.H.get(a[0])
    xs = run.iterate(a[0])
    if xs is None:
        return run.alloc('list', 'list', items=[('s', mk('sorted', run.freeze(a[0])))])
    return run.newlist(_sort(run, xs, kw))


def _sort(run, xs, kw):
    key = kw.get('key')
    ks = [run.call(key, [x], {}) if key is not None and key is not NONE else x for x in xs]
    rev = kw.get('reverse')
    ps = [run.plain(k) for k in ks]
    if None not in ps:
        try:
            idx = sorted(range(len(xs)), key=lambda i: ps[i][0],
                         reverse=bool(rev is not None and rev is TRUE))
            return [xs[i] for i in idx]
        except TypeError:
            run.raise_py('TypeError')
    out = []
    for i, x in enumerate(xs):
        j = len(out)
        if all(isnum(k) or simple(k) for k in ks):
            while j > 0 and run.branch(T.lt(ks[i], out[j - 1][0])):
                j -= 1
        out.insert(j, (ks[i], x))
    out = [x for _, x in out]
    if rev is TRUE:
        out.reverse()
    return out


@fn('property')
def _property(run, a, kw):
    g, s, d, doc = args_of(['fget', 'fset', 'fdel', 'doc'], a, kw)
    return run.alloc('prop', 'property', f={
        'get': None if g is NONE else g, 'set': None if s is NONE else s})


@meth('property.setter')
def _psetter(run, s, a, kw):
    return run.alloc('prop', 'property', f={'get': run.H[s].f.get('get'), 'set': a[0]})


@meth('property.getter')
def _pgetter(run, s, a, kw):
    return run.alloc('prop', 'property', f={'get': a[0], 'set': run.H[s].f.get('set')})


@fn('staticmethod')
def _static(run, a, kw):
    return run.alloc('static', 'static', f={'fn': a[0]})


@fn('classmethod')
def _classm(run, a, kw):
    return run.alloc('classm', 'classm', f={'fn': a[0]})


@fn('abc.abstractmethod', 'abc.abstractclassmethod', 'abc.abstractstaticmethod')
def _abstract(run, a, kw):
    r = run.H.get(a[0])
    if r is not None and r.meta is not None:
        r.meta['abstract'] = True
    return a[0]


@fn('abc.abstractproperty')
def _abstractprop(run, a, kw):
    _abstract(run, a, kw)
    return run.call(mk('ext', 'property'), a, kw)


@fn('functools.wraps')
def _wraps(run, a, kw):
    return mk('ext', 'KZ.identity')


@fn('functools.lru_cache', 'functools.cache')
def _lru(run, a, kw):
    if a and run.kind(a[0]) == 'fn':
        f = run.alloc('ext', 'lru', cls='lru', f={'fn': a[0]})
        return a[0]
    return mk('ext', 'KZ.identity')


@fn('functools.cached_property')
def _cprop(run, a, kw):
    return run.alloc('cachedprop', 'cachedprop', f={'get': a[0]})


@fn('functools.partial')
def _partial(run, a, kw):
    return run.alloc('partial', 'partial', items=list(a[1:]), f={'fn': a[0], 'kw': dict(kw)})


@fn('contextlib.contextmanager')
def _ctxm(run, a, kw):
    run.H[a[0]].meta['ctxmgr'] = True
    return a[0]


@fn('contextlib.closing')
def _closing(run, a, kw):
    return run.alloc('ext', 'closing', cls='closing', f={'thing': a[0]})


@fn('contextlib.suppress')
def _suppress(run, a, kw):
    return run.alloc('ext', 'suppress', cls='suppress', items=list(a))


def enter(run, cm):
    r = run.H.get(cm)
    if r is not None and r.kind == 'ext':
        if r.cls == 'closing':
            def leave(e):
                run.call(run.getattr(r.f['thing'], 'close'), [], {})
                return False
            return r.f['thing'], leave
        if r.cls == 'file':
            def leave(e):
                call_method(run, cm, 'file.close', [], {})
                return False
            return cm, leave
        if r.cls == 'suppress':
            def leave(e):
                return e is not None and any(run.exc_matches(e, x) for x in r.items)
            return NONE, leave
    v = run.opaque_call(mk('field', cm, '__enter__'), [], {})
    return v, lambda e: False


@meth('type.__subclasses__')
def _subclasses(run, s, a, kw):
    return run.newlist(list(run.H[s].meta['subs']))


@meth('type.mro')
def _tmro(run, s, a, kw):
    return run.newlist(run.mro(s))


@fn('__import__', 'importlib.import_module')
def _import(run, a, kw):
    run.effect('import', run.freeze(a[0]))
    return mk('res', run.fresh(), mk('ext', '__import__'), (run.freeze(a[0]),))


@fn('warnings.warn')
def _warn(run, a, kw):
    run.effect('warn', *a[:1])
    return NONE


@fn('dataclasses.dataclass')
def _dataclass(run, a, kw):
    return a[0] if a else mk('ext', 'KZ.identity')


def _fold(*names):
    """library functions of plain values with no effect: folded on constants"""
    import importlib

    def one(name):
        m, _, f = name.rpartition('.')
        g = getattr(importlib.import_module(m), f)
        raw = m == 'binascii'

        def h(run, a, kw):
            if not all(simple(x) for x in a) or not all(simple(x) for x in kw.values()):
                return unknown(name)
            try:
                r = g(*[cval(x).encode('latin-1') if raw and isinstance(cval(x), str) else cval(x) for x in a],
                      **{k: cval(v) for k, v in kw.items()})
            except Exception as e:
                run.raise_py(type(e).__name__ if type(e).__name__ in I.PYEXC else 'ValueError')
            if isinstance(r, bytes):
                r = r.decode('latin-1')
            if isinstance(r, list):
                return run.newlist([const(x) for x in r])
            if isinstance(r, (str, int, bool)) or r is None:
                return const(r)
            return unknown(name)
        if name not in FN:
            fn(name)(h)
    for n in names:
        one(n)


_fold('re.sub', 're.split', 're.findall', 're.escape', 'os.path.normpath', 'binascii.hexlify', 'binascii.unhexlify',
      'binascii.b2a_hex', 'binascii.a2b_hex', 'math.gcd')


@fn('sys.exit', 'exit', 'quit', 'os._exit')
def _exit(run, a, kw):
    run.effect('exit', *a)
    run.raise_py('SystemExit', a)


@meth('exc.with_traceback')
def _wtb(run, s, a, kw):
    return s


# ------------------------------------------------------------------ lists
@meth('list.append')
def _append(run, s, a, kw):
    run.wr(s, 'items')
    run.H[s].items.append(('i', a[0]))
    return NONE


@meth('list.extend')
def _extend(run, s, a, kw):
    import ast
    run.augop(ast.Add(), s, a[0])
    return NONE


@meth('list.insert')
def _insert(run, s, a, kw):
    run.wr(s, 'items')
    if is_int(a[0]) and all(k == 'i' for k, _ in run.H[s].items):
        run.H[s].items.insert(cval(a[0]), ('i', a[1]))
    elif is_const(a[0], 0):
        run.H[s].items.insert(0, ('i', a[1]))
    else:
        run.H[s].items = [('s', unknown('insert'))]
    return NONE


@meth('list.reverse')
def _lreverse(run, s, a, kw):
    run.wr(s, 'items')
    if all(k == 'i' for k, _ in run.H[s].items):
        run.H[s].items.reverse()
    else:
        run.H[s].items = [('s', mk('reversed', run.freeze(s)))]
    return NONE


@meth('list.pop')
def _lpop(run, s, a, kw):
    r = run.H[s]
    run.wr(s, 'items')
    i = cval(a[0]) if a and is_int(a[0]) else -1
    if all(k == 'i' for k, _ in r.items):
        if not r.items:
            run.raise_py('IndexError')
        try:
            return r.items.pop(i)[1]
        except IndexError:
            run.raise_py('IndexError')
    return unknown('pop')


@meth('list.remove')
def _lremove(run, s, a, kw):
    r = run.H[s]
    run.wr(s, 'items')
    for i, (k, x) in enumerate(r.items):
        if k == 'i' and run.branch(run.pyeq(x, a[0])):
            del r.items[i]
            return NONE
    run.raise_py('ValueError')


@meth('list.index')
def _lindex(run, s, a, kw):
    r = run.H[s]
    for i, (k, x) in enumerate(r.items):
        if k == 'i' and run.branch(run.pyeq(x, a[0])):
            return const(i)
        if k == 's':
            return mk('index', run.freeze(s), a[0])
    run.raise_py('ValueError')


@meth('list.count')
def _lcount(run, s, a, kw):
    n = 0
    for k, x in run.H[s].items:
        if k == 's':
            return unknown('count')
        if run.branch(run.pyeq(x, a[0])):
            n += 1
    return const(n)


@meth('list.sort')
def _lsort(run, s, a, kw):
    r = run.H[s]
    run.wr(s, 'items')
    if all(k == 'i' for k, _ in r.items):
        r.items = [('i', x) for x in _sort(run, [x for _, x in r.items], kw)]
    return NONE


@meth('list.copy')
def _lcopy(run, s, a, kw):
    return run.alloc('list', 'list', items=list(run.H[s].items))


@meth('list.clear', 'dict.clear', 'set.clear')
def _lclear(run, s, a, kw):
    run.wr(s, 'items')
    run.H[s].items = []
    run.H[s].meta.pop('rest', None)
    return NONE


# ------------------------------------------------------------------ dicts
@meth('dict.get')
def _dget(run, s, a, kw):
    d = a[1] if len(a) > 1 else kw.get('default', NONE)
    return run.dict_get(s, a[0], d, raising=False)


@meth('dict.keys', 'dict.iterkeys', 'dict.viewkeys')
def _dkeys(run, s, a, kw):
    r = run.H[s]
    items = [('i', k) for k, _ in r.items]
    if r.meta.get('rest') is not None:
        items.append(('s', mk('keys', r.meta['rest'])))
    return run.alloc('list', 'list', items=items)


@meth('dict.values', 'dict.itervalues')
def _dvalues(run, s, a, kw):
    r = run.H[s]
    items = [('i', v) for _, v in r.items]
    if r.meta.get('rest') is not None:
        items.append(('s', mk('values', r.meta['rest'])))
    return run.alloc('list', 'list', items=items)


@meth('dict.items', 'dict.iteritems')
def _ditems(run, s, a, kw):
    r = run.H[s]
    items = [('i', mk('tuple', (k, v))) for k, v in r.items]
    if r.meta.get('rest') is not None:
        items.append(('s', mk('items', r.meta['rest'])))
    return run.alloc('list', 'list', items=items)


@meth('dict.pop')
def _dpop(run, s, a, kw):
    if len(a) > 1 or 'default' in kw:
        return run.dict_del(s, a[0], a[1] if len(a) > 1 else kw['default'], raising=False)
    return run.dict_del(s, a[0])


@meth('dict.setdefault')
def _dsetdefault(run, s, a, kw):
    i = run.dict_find(s, a[0])
    if i is not None:
        return run.H[s].items[i][1]
    v = a[1] if len(a) > 1 else NONE
    run.dict_set(s, a[0], v)
    return v


@meth('dict.update')
def _dupdate(run, s, a, kw):
    if a:
        r = run.H.get(a[0])
        if r is not None and r.kind == 'dict':
            for k, v in list(r.items):
                run.dict_set(s, k, v)
            if r.meta.get('rest') is not None:
                run.H[s].meta['rest'] = r.meta['rest']
        else:
            xs = run.iterate(a[0])
            if xs is None:
                rr = run.H.get(a[0])
                if rr is not None and rr.kind == 'list':
                    for k, x in rr.items:
                        if k == 'i':
                            p = run.iterate(x)
                            run.dict_set(s, p[0], p[1])
                        else:
                            run.H[s].meta['rest'] = x
                else:
                    run.H[s].meta['rest'] = run.freeze(a[0])
            else:
                for x in xs:
                    p = run.iterate(x)
                    if p is None:
                        p = [mk('getitem', x, ZERO), mk('getitem', x, const(1))]
                    run.dict_set(s, p[0], p[1])
    for k, v in kw.items():
        run.dict_set(s, const(k), v)
    return NONE


def _idsnap(run, s):
    f = run.H[run.H[s].f['of']].f
    return run.newdict([(const(k), v) for k, v in f.items()])


def _iddel(name):
    def g(run, s, a, kw):
        return METH['dict.' + name](run, _idsnap(run, s), a, kw)
    METH['instdict.' + name] = g


for _n in ('get', 'keys', 'values', 'items', 'copy'):
    _iddel(_n)


@meth('instdict.setdefault')
def _idset(run, s, a, kw):
    if not is_str(a[0]):
        return unknown('instdict')
    if run.contains(s, a[0]) is TRUE:
        return run.getitem(s, a[0])
    v = a[1] if len(a) > 1 else NONE
    run.setitem(s, a[0], v)
    return v


@meth('instdict.update')
def _idupd(run, s, a, kw):
    if a:
        r = run.H.get(a[0])
        if r is None or r.kind != 'dict':
            return unknown('instdict')
        for k, v in list(r.items):
            run.setitem(s, k, v)
    for k, v in kw.items():
        run.setitem(s, const(k), v)
    return NONE


@meth('instdict.pop')
def _idpop(run, s, a, kw):
    o = run.H[s].f['of']
    if is_str(a[0]) and cval(a[0]) in run.H[o].f:
        run.wr(o, cval(a[0]))
        return run.H[o].f.pop(cval(a[0]))
    if len(a) > 1:
        return a[1]
    run.raise_py('KeyError', [a[0]])


@meth('dict.copy')
def _dcopy(run, s, a, kw):
    r = run.H[s]
    return run.alloc('dict', 'dict', items=[list(e) for e in r.items], meta=dict(r.meta))


@meth('dict.has_key', 'dict.__contains__')
def _dhas(run, s, a, kw):
    return run.contains(s, a[0])


@meth('dict.popitem')
def _dpopitem(run, s, a, kw):
    r = run.H[s]
    run.wr(s, 'items')
    if not r.items:
        run.raise_py('KeyError')
    k, v = r.items.pop()
    return mk('tuple', (k, v))


@meth('dict.fromkeys')
def _dfromkeys(run, s, a, kw):
    return run.call(run.prelude('fromkeys'), a, kw)


@meth('set.add')
def _sadd(run, s, a, kw):
    set_add(run, s, a[0])
    return NONE


@meth('set.update')
def _supdate(run, s, a, kw):
    for c in a:
        xs = run.iterate(c)
        if xs is None:
            run.H[s].meta['rest'] = run.freeze(c)
            continue
        for x in xs:
            set_add(run, s, x)
    return NONE


@meth('set.discard', 'set.remove')
def _sdiscard(run, s, a, kw):
    r = run.H[s]
    run.wr(s, 'items')
    for i, x in enumerate(r.items):
        if run.branch(run.pyeq(x, a[0])):
            del r.items[i]
            return NONE
    return NONE


# ------------------------------------------------------------------ strings
@fn('str.maketrans', 'string.maketrans', 'bytes.maketrans')
def _str_maketrans(run, a, kw):
    return _maketrans(run, a)


@fn('dict.fromkeys')
def _fromkeys(run, a, kw):
    return run.call(run.prelude('fromkeys'), a, kw)


def _maketrans(run, a):
    if all(is_str(x) for x in a) and len(a) in (2, 3):
        if len(cval(a[0])) != len(cval(a[1])):
            run.raise_py('ValueError')
        t = [(x, y) for x, y in zip(cval(a[0]), cval(a[1]))]
        if len(a) == 3:
            t += [(x, '') for x in cval(a[2])]
        return mk('trtable', tuple(t))
    if len(a) == 1:
        return a[0]
    return unknown('maketrans')


def _translate(run, s, t):
    r = run.H.get(t)
    if t.op == 'trtable':
        m = dict(t.a[0])
    elif r is not None and r.kind == 'dict' and not r.meta.get('rest'):
        m = {}
        for k, v in r.items:
            if not (is_int(k) or is_str(k)) or not (is_int(v) or is_str(v) or v is NONE):
                return unknown('translate')
            m[chr(cval(k)) if is_int(k) else cval(k)] = '' if v is NONE else chr(cval(v)) if is_int(v) else cval(v)
    else:
        return unknown('translate')
    if is_str(s):
        return const(''.join(m.get(c, c) for c in cval(s)))
    if set(''.join(m.values())) & set(m):
        return unknown('translate')
    for k, v in m.items():
        s = str_method(run, s, 'replace', [const(k), const(v)], {})
    return s


def str_method(run, s, m, a, kw):
    if m in ('encode', 'decode'):
        return s
    if is_str(s) and all(simple(x) for x in a) and all(simple(x) for x in kw.values()) \
            and m in ('lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'split',
                      'startswith', 'endswith', 'find', 'rfind', 'index', 'count', 'title',
                      'capitalize', 'isdigit', 'splitlines', 'rsplit', 'partition',
                      'rpartition', 'zfill', 'ljust', 'rjust', 'center', 'isalpha',
                      'swapcase', 'isspace', 'isupper', 'islower', 'expandtabs',
                      'casefold', 'removeprefix', 'removesuffix'):
        try:
            r = getattr(cval(s), m)(*[cval(x) for x in a],
                                    **{k: cval(v) for k, v in kw.items()})
        except ValueError:
            run.raise_py('ValueError')
        except TypeError:
            run.raise_py('TypeError')
        if isinstance(r, list):
            return run.newlist([const(x) for x in r])
        if isinstance(r, tuple):
            return mk('tuple', tuple(const(x) for x in r))
        return const(r)
    if m == 'maketrans':
        return _maketrans(run, a)
    if m == 'translate':
        return _translate(run, s, a[0])
    if m == 'join':
        r = run.H.get(a[0])
        xs = run.iterate(a[0])
        if xs is not None:
            out = []
            for i, x in enumerate(xs):
                if x is NONE or isnum(x):
                    run.raise_py('TypeError')
                if i:
                    out.append(s)
                out.append(x)
            return T.concat(*out)
        if is_const(s, '') and r is not None and r.kind == 'list':
            out = []
            for k, x in r.items:
                if k == 's':
                    if x.op == 'map' and x.a[1] is NONE and x.a[0].op == 'range' and len(x.a[0].a) == 1:
                        x = mk('lrep', x.a[2], x.a[0].a[0]) if T.subst(
                            x.a[2], mk('elem', x.a[0], 'it'), NONE) is x.a[2] else x
                    if x.op != 'lrep' or not isstr(x.a[0]):
                        break
                    x = T.rep(x.a[0], x.a[1])
                elif x is NONE or isnum(x):
                    run.raise_py('TypeError')
                out.append(x)
            else:
                return T.concat(*out)
        if is_const(s, '') and r is not None and r.kind == 'list' and \
                len(r.items) == 1 and r.items[0][0] == 's' and r.items[0][1].op == 'map':
            # the pieces of a text, each with some characters taken out
            coll, cond, body = r.items[0][1].a
            gone = []
            while body.op == 'replace' and body.a[2] is EMPTY and is_str(body.a[1]):
                gone.append(cval(body.a[1]))
                body = body.a[0]
            if body is mk('elem', coll, 'it') and (cond is NONE or cond is T.truth(body)) and \
                    all(len(c) == 1 for c in gone) and \
                    (coll.op == 'lines' or coll.op == 'split' and coll.a[1] is NONE):
                t = _without(coll.a[0], 'nolines' if coll.op == 'lines' else 'nows')
                for c in reversed(gone):
                    t = _without(t, c)
                return t
        if a[0].op == 'lines' and is_const(s, ''):
            return _without(a[0].a[0], 'nolines')
        if a[0].op == 'split' and a[0].a[1] is NONE and is_const(s, ''):
            return _without(a[0].a[0], 'nows')
        return mk('join', s, run.freeze(a[0]))
    if m == 'format':
        if is_str(s):
            import string
            out = []
            auto = 0
            try:
                for lit, field, spec, conv in string.Formatter().parse(cval(s)):
                    if lit:
                        out.append(const(lit))
                    if field is None:
                        continue
                    if field == '':
                        v = a[auto]
                        auto += 1
                    elif field.isdigit():
                        v = a[int(field)]
                    elif field in kw:
                        v = kw[field]
                    else:
                        return mk('fmt', s, run.freeze(mk('tuple', tuple(a))))
                    if spec:
                        if v.op == 'const':
                            out.append(const(format(cval(v), spec)))
                        else:
                            out.append(mk('fmt', const(spec), run.freeze(v)))
                    else:
                        out.append(run.str_of(v))
            except (IndexError, ValueError):
                return unknown('format')
            return T.concat(*out)
        return mk('fmt', s, mk('tuple', tuple(a)))
    if m == 'splitlines':
        return mk('lines', s)
    if m == 'replace':
        old, new = a[0], a[1]
        if s.op == 'b64pad' and is_const(old, '=') and is_const(new, ''):
            return T.b64enc(s.a[0])
        if s.op == 'b64std' and is_str(old) and is_str(new):
            return _b64std(s, (cval(old), cval(new)))
        if is_str(old) and len(cval(old)) == 1 and is_const(new, '') and \
                (cval(old) in ' \n\r\t=' or _b64ish(s)):
            return _without(s, cval(old))
        return mk('replace', s, old, new)
    if m in ('lower', 'upper'):
        if s.op == m:
            return s
        return mk('strf', m, s)
    if run.flags.get('ct') and m in ('startswith', 'endswith', 'find', 'rfind', 'index', 'count') and a and isstr(a[0]):
        run.effect('streq', s, a[0])
    if m in ('startswith', 'endswith'):
        if is_str(a[0]):
            n = len(cval(a[0]))
            p = T.slc(s, NONE, const(n)) if m == 'startswith' else T.slc(s, const(-n), NONE)
            if is_str(p) and len(cval(p)) == n:
                return TRUE if p is a[0] else FALSE
            if n == 1:
                return T.eq(p, a[0])
        if a[0].op == 'tuple':
            return T.or_(*[run.truth(str_method(run, s, m, [x], {})) for x in a[0].a[0]])
        return mk(m, s, a[0])
    if m in ('lstrip', 'rstrip', 'strip'):
        if m in ('rstrip', 'strip') and s.op == 'b64pad' and a and is_const(a[0], '='):
            return T.b64enc(s.a[0])
        if a and _b64ish(s) and is_str(a[0]) and not set(cval(a[0])) - set(' \r\n\t'):
            return s
        if m == 'lstrip' and a and is_str(a[0]):
            return _lstrip(run, s, cval(a[0]))
        return mk(m, s, *a)
    if m in ('split', 'rsplit'):
        mx = a[1] if len(a) > 1 else kw.get('maxsplit', NONE)
        sep = a[0] if a else kw.get('sep', NONE)
        return mk('split', s, sep, mx)
    if m in ('partition', 'rpartition'):
        return mk('tuple', (mk(m, s, a[0], ZERO), mk(m, s, a[0], const(1)),
                            mk(m, s, a[0], const(2))))
    if m in ('zfill', 'rjust') and is_int(a[0]):
        n = cval(a[0])
        fill = '0' if m == 'zfill' else (cval(a[1]) if len(a) > 1 else ' ')
        L = T.length(s)
        if is_int(L):
            return T.concat(const(fill * max(0, n - cval(L))), s)
        return mk('rjust', s, a[0], const(fill))
    if m in ('isdigit', 'isalpha', 'isspace', 'isalnum', 'isnumeric', 'isdecimal'):
        return mk('strp', m, s)
    if m == '__eq__':
        return run.pyeq(s, a[0])
    if m == '__len__':
        return T.length(s)
    if m == '__contains__':
        return run.contains(s, a[0])
    if m == 'hex':
        return mk('hexof', s)
    return mk('strm', m, s, *a)


def _b64ish(s):
    return s.op in ('b64enc', 'b64pad')


def _without(s, what):
    """s with every occurrence of a character (or of line ends) removed; a
    homomorphism on concatenations"""
    if s.op == 'concat':
        return T.concat(*[_without(p, what) for p in s.a])
    if is_str(s):
        return const(''.join(cval(s).splitlines()) if what == 'nolines'
                     else ''.join(cval(s).split()) if what == 'nows'
                     else cval(s).replace(what, ''))
    core = s.a[0] if s.op == 'slice' else s
    if core.op == 'b64enc' and (what in ('nolines', 'nows') or what in ' \n\r\t=+/'):
        return s
    if core.op == 'b64pad' and (what in ('nolines', 'nows') or what in ' \n\r\t+/'):
        return s
    if what in ('nolines', 'nows'):
        return s if s.op == what else mk(what, s)
    return mk('replace', s, const(what), EMPTY)


def _b64std(s, rep):
    x, done = s.a[0], set(s.a[1]) | {rep}
    if done == {('+', '-'), ('/', '_')}:
        return mk('b64pad', x)
    if done == {('+', '-'), ('/', '_'), ('=', '')}:
        return T.b64enc(x)
    return mk('b64std', x, tuple(sorted(done)))


def _lstrip(run, s, chars, split=False):
    """strip leading chars; splits on symbolic single octets."""
    while True:
        t = T.lstrip(s, const(chars))
        if t.op != 'lstrip' or len(chars) != 1:
            return t
        s = t.a[0]
        p = s.a[0] if s.op == 'concat' else s
        if p.op != 'chr':
            if split and not run.branch(T.lt(T.length(t), T.length(s))):
                return s
            return t
        if not run.branch(T.eq(p.a[0], const(ord(chars)))):
            return s
        s = T.concat(*s.a[1:]) if s.op == 'concat' else EMPTY


def int_method(run, s, m, a, kw):
    if m == 'bit_length':
        if is_int(s):
            return const(cval(s).bit_length())
        return mk('bitlen', s)
    if m == 'to_bytes':
        n = a[0] if a else kw.get('length', const(1))
        order = a[1] if len(a) > 1 else kw.get('byteorder', const('big'))
        if is_int(n) and is_const(order, 'big') and cval(n) <= 64:
            return T.concat(*[T.chr_(T.mod(T.div(s, const(256 ** i)), const(256)))
                              for i in range(cval(n) - 1, -1, -1)])
        return mk('tobytes', s, n, order)
    if is_int(s) and all(simple(x) for x in a) and m in ('__add__', '__eq__'):
        pass
    return unknown('int.' + m)


@fn('int.from_bytes')
def _from_bytes(run, a, kw):
    v = a[0]
    order = a[1] if len(a) > 1 else kw.get('byteorder', const('big'))
    if not run.flags.get('raw') and isstr(v) and not is_str(v) and is_const(order, 'big'):
        u = run.H.get(mk('module', 'keyczar.util'))
        if u is not None and 'BytesToLong' in u.f and not kw.get('signed'):
            return run.call(u.f['BytesToLong'], [v], {})
    xs = run.iterate(v)
    if xs is not None and is_str(order):
        if cval(order) == 'little':
            xs = xs[::-1]
        acc = ZERO
        for x in xs:
            acc = T.ladd(T.mul(const(256), acc), T.ord_(x))
        return acc
    return mk('frombytes', v, order)


# ------------------------------------------------------------------ base64
def _b64const(s, alt):
    import base64
    try:
        return const(base64.b64encode(cval(s).encode('latin-1'), alt).decode('ascii'))
    except UnicodeEncodeError:
        return None


@fn('base64.urlsafe_b64encode')
def _b64e(run, a, kw):
    if is_str(a[0]):
        return _b64const(a[0], b'-_') or mk('b64pad', a[0])
    return mk('b64pad', a[0])


@fn('base64.b64encode', 'base64.standard_b64encode')
def _b64es(run, a, kw):
    alt = a[1] if len(a) > 1 else kw.get('altchars', NONE)
    if is_str(a[0]) and (alt is NONE or is_str(alt)):
        return _b64const(a[0], None if alt is NONE else cval(alt).encode('latin-1')) or unknown('b64')
    if is_const(alt, '-_'):
        return mk('b64pad', a[0])
    return mk('b64std', a[0], ())


@fn('base64.encodestring', 'base64.encodebytes')
def _b64lines(run, a, kw):
    if is_str(a[0]):
        import base64
        try:
            return const(base64.encodebytes(cval(a[0]).encode('latin-1')).decode('ascii'))
        except UnicodeEncodeError:
            pass
    return unknown('base64 lines')


@fn('base64.urlsafe_b64decode')
def _b64du(run, a, kw):
    return _b64dec(run, a[0], True)


@fn('base64.b64decode', 'base64.standard_b64decode')
def _b64d(run, a, kw):
    alt = a[1] if len(a) > 1 else kw.get('altchars', NONE)
    return _b64dec(run, a[0], is_const(alt, '-_'))


def _b64dec(run, s, web):
    """pads: how many '=' the text ends in; the library decoder accepts
    correctly padded text (excess padding too) and refuses the rest"""
    core, pads = s, 0
    if s.op == 'concat' and is_str(s.a[-1]) and not set(cval(s.a[-1])) - {'='}:
        core, pads = T.concat(*s.a[:-1]), len(cval(s.a[-1]))
    elif s.op == 'concat' and s.a[-1].op == 'rep' and is_const(s.a[-1].a[0], '='):
        core = T.concat(*s.a[:-1])
        while pads < 4 and not run.branch(run.pyeq(s.a[-1].a[1], const(pads))):
            pads += 1
    if is_str(s):
        import base64
        try:
            t = cval(s).encode('ascii')
            return const((base64.urlsafe_b64decode if web else base64.b64decode)(t).decode('latin-1'))
        except ValueError:
            run.raise_py('binascii.Error')
    if web:
        if core.op == 'b64pad':
            return core.a[0]
        L = T.length(core)
        if _b64ish(core) or core.op == 'slice' and _b64ish(core.a[0]):
            if is_int(L):
                if cval(L) % 4 == 1 or pads < -cval(L) % 4:
                    run.raise_py('binascii.Error')
            else:
                r = T.mod(L, const(4))
                if run.flags.get('raw') and False is run.decide(T.or_(*[T.eq(r, const((4 - i) % 4)) for i in range(pads + 1)])):
                    run.raise_py('binascii.Error')
            d = T.b64dec(core)
            if d.op != 'b64dec':
                return d
    if run.flags.get('b64fail', True):
        if not run.branch(mk('ok', 'b64', s)):
            run.raise_py('binascii.Error')
    run.effect('b64dec', s)
    return T.b64dec(core) if web else mk('b64stddec', core)


# ------------------------------------------------------------------ struct
@fn('struct.pack')
def _pack(run, a, kw):
    f = a[0]
    if all(simple(x) for x in a):
        try:
            return const(struct.pack(cval(f), *[cval(x) for x in a[1:]]))
        except struct.error:
            run.raise_py('struct.error')
    if is_str(f) and cval(f) in ('>i', '>I', '!i', '!I', '>l', '>L', '!l', '!L'):
        return mk('pack', const('>i'), a[1])
    return mk('pack', *a)


@fn('struct.calcsize')
def _calcsize(run, a, kw):
    return const(struct.calcsize(cval(a[0])))


@fn('struct.unpack_from')
def _unpack_from(run, a, kw):
    f, d = a[0], a[1]
    off = a[2] if len(a) > 2 else kw.get('offset', ZERO)
    if not is_str(f):
        return unknown('unpack_from')
    return _unpack(run, [f, T.slc(d, off, T.ladd(off, const(struct.calcsize(cval(f)))))], {})


@fn('struct.unpack')
def _unpack(run, a, kw):
    f, d = a[0], a[1]
    if is_str(f) and is_str(d):
        try:
            return mk('tuple', tuple(const(x) for x in struct.unpack(cval(f), cval(d).encode('latin-1'))))
        except struct.error:
            run.raise_py('struct.error')
    if is_str(f):
        n = struct.calcsize(cval(f))
        L = T.length(d)
        e = T.eq(L, const(n))
        dd = run.decide(e)
        if dd is None:
            if run.flags.get('strict'):
                if not run.branch(e):
                    run.raise_py('struct.error')
        elif dd is False:
            run.raise_py('struct.error')
        if cval(f) in ('>i', '>I', '!i', '!I', '>l', '>L'):
            if d.op == 'pack' and is_const(d.a[0], '>i'):
                return mk('tuple', (d.a[1],))
            signed = cval(f)[1] in 'il'
            return mk('tuple', (mk('unpack', const('>i' if signed else '>I'), d),))
    return mk('unpackt', f, d)


@fn('int.to_bytes')
def _to_bytes(run, a, kw):
    return int_method(run, a[0], 'to_bytes', a[1:], kw)


# ------------------------------------------------------------------ math
@fn('math.floor')
def _floor(run, a, kw):
    if simple(a[0]):
        import math
        return const(math.floor(cval(a[0])))
    if a[0].op == 'fdiv':
        return T.div(a[0].a[0], a[0].a[1])
    if isnum(a[0]):
        return a[0]
    if a[0].op == 'log' and len(a[0].a) == 2 and is_int(a[0].a[1]):
        # a generated RSA modulus has exactly the requested bit length
        n, b = a[0].a[0], cval(a[0].a[1])
        if n.op == 'idx' and n.a[0] == 'n' and n.a[1].op == 'gen' and \
                is_int(n.a[1].a[2]) and b in (2, 256):
            w = cval(n.a[1].a[2])
            return const((w if b == 2 else w // 8) - 1)
    return mk('idx', 'floor', a[0])


@fn('math.ceil')
def _ceil(run, a, kw):
    if simple(a[0]):
        import math
        return const(math.ceil(cval(a[0])))
    if a[0].op == 'fdiv':
        n, d = a[0].a
        return T.div(T.ladd(n, T.ladd(d, const(-1))), d)
    return mk('idx', 'ceil', a[0])


@fn('math.log')
def _log(run, a, kw):
    return mk('log', *a)


# ------------------------------------------------------------------ hashing
def _algo(t):
    if t.op == 'ext':
        n = t.a[0].split('.')[-1]
        return n
    if is_str(t):
        return cval(t).lower()
    return show(t)


def _hash(name):
    def f(run, a, kw):
        d = a[0] if a else kw.get('string', EMPTY)
        return run.alloc('ext', name, cls='hashobj', f={
            'algo': const(name), 'data': d,
            'digest_size': const({'sha1': 20, 'md5': 16, 'sha256': 32, 'sha512': 64,
                                  'sha224': 28, 'sha384': 48}[name]),
            'block_size': const(64), 'name': const(name)})
    return f


for _n in ('sha1', 'md5', 'sha256', 'sha512', 'sha224', 'sha384'):
    FN['hashlib.' + _n] = _hash(_n)


@fn('hashlib.new')
def _hnew(run, a, kw):
    return FN['hashlib.' + cval(a[0])](run, a[1:], {})


@meth('hashobj.update')
def _hupd(run, s, a, kw):
    r = run.H[s]
    run.wr(s, 'data')
    r.f['data'] = T.concat(r.f['data'], a[0])
    return NONE


@meth('hashobj.digest')
def _hdig(run, s, a, kw):
    r = run.H[s]
    return mk('hash', cval(r.f['algo']), r.f['data'])


@meth('hashobj.hexdigest', 'hmacobj.hexdigest')
def _hhex(run, s, a, kw):
    r = run.H[s]
    return mk('hexof', mk('hash', cval(r.f['algo']), r.f['data']))


@meth('hashobj.copy', 'hmacobj.copy')
def _hcopy(run, s, a, kw):
    r = run.H[s]
    return run.alloc('ext', r.cls, cls=r.cls, f=dict(r.f))


@fn('hmac.new', 'hmac.HMAC')
def _hmac(run, a, kw):
    key, msg, dm = args_of(['key', 'msg', 'digestmod'], a, kw)
    if msg is NONE:
        msg = EMPTY
    al = 'md5' if dm is NONE else _algo(dm)
    t = run.alloc('ext', 'hmac', cls='hmacobj', f={
        'algo': const(al), 'key': key, 'data': msg, 'digest_size': const(20)})
    run.effect('hmac.new', t, key, msg)
    return t


@meth('hmacobj.update')
def _hmupd(run, s, a, kw):
    r = run.H[s]
    run.wr(s, 'data')
    r.f['data'] = T.concat(r.f['data'], a[0])
    run.effect('hmac.update', s, a[0])
    return NONE


@meth('hmacobj.digest')
def _hmdig(run, s, a, kw):
    r = run.H[s]
    return mk('hmac', cval(r.f['algo']), r.f['key'], r.f['data'])


@fn('hmac.digest')
def _hmacd(run, a, kw):
    key, msg, dm = args_of(['key', 'msg', 'digest'], a, kw)
    return mk('hmac', _algo(dm), key, msg)


@fn('hmac.compare_digest', 'secrets.compare_digest')
def _cmpd(run, a, kw):
    run.effect('ctcmp', *a[:2])
    return run.pyeq(a[0], a[1])


# ------------------------------------------------------------------ random
def _rand(kind, run, build, *args):
    n = run.seq.get(kind, 0)
    run.seq[kind] = n + 1
    v = build(n)
    run.effect('random', const(kind), v, *args)
    return v


@fn('os.urandom', 'secrets.token_bytes', 'Crypto.Random.get_random_bytes')
def _urandom(run, a, kw):
    return _rand('urandom', run, lambda n: mk('urandom', a[0], n), *a)


@fn('random.SystemRandom', 'secrets.SystemRandom')
def _sysrand(run, a, kw):
    return run.alloc('ext', 'SystemRandom', cls='sysrandom')


@meth('sysrandom.randint')
def _srint(run, s, a, kw):
    return _rand('sysrandint', run, lambda n: mk('srand', n, *a), *a)


@meth('sysrandom.randrange')
def _srrange(run, s, a, kw):
    if len(a) == 1:
        a = [const(0)] + list(a)
    a = [a[0], T.ladd(a[1], const(-1))] + list(a[2:])
    return _rand('sysrandint', run, lambda n: mk('srand', n, *a), *a)


def _weak(name):
    def f(run, a, kw):
        return _rand('weak:' + name, run, lambda n: mk('weakrand', name, n, tuple(a)), *a)
    return f


for _n in ('randint', 'randrange', 'random', 'getrandbits', 'choice', 'sample',
           'randbytes', 'uniform', 'shuffle', 'choices'):
    FN['random.' + _n] = _weak(_n)


@fn('random.Random')
def _rrandom(run, a, kw):
    return run.alloc('ext', 'Random', cls='weakrandom')


for _n in ('randint', 'randrange', 'random', 'getrandbits', 'choice', 'randbytes'):
    def _mkw(n):
        def f(run, s, a, kw):
            return _rand('weak:' + n, run,
                         lambda k: mk('weakrand', n, k, tuple(a)), *a)
        return f
    METH['weakrandom.' + _n] = _mkw(_n)


# ------------------------------------------------------------------ ciphers
@fn('AES.new')
def _aes(run, a, kw):
    key, mode, iv = args_of(['key', 'mode', 'IV'], a, kw)
    if 'iv' in kw:
        iv = kw['iv']
    t = run.alloc('ext', 'AES', cls='aes', f={
        'key': key, 'mode': mode, 'IV': iv, 'done': EMPTY, 'block_size': const(16)})
    run.effect('cipher.new', t, key, mode, iv)
    return t


def aligned(run, data):
    """whether the length of data is a multiple of the AES block size"""
    return run.branch(T.eq(T.mod(T.length(data), const(16)), ZERO))


@meth('aes.encrypt')
def _aesenc(run, s, a, kw):
    r = run.H[s]
    f = r.f
    if not aligned(run, a[0]):
        run.raise_py('ValueError', [const('Input strings must be a multiple of 16 in length')])
    t = T.enc(f['key'], f['mode'], f['IV'], f['done'], a[0])
    run.wr(s, 'done')
    f['done'] = T.concat(f['done'], a[0])
    run.effect('encrypt', s, a[0], t)
    return t if a[0] is not EMPTY else EMPTY


@meth('aes.decrypt')
def _aesdec(run, s, a, kw):
    r = run.H[s]
    f = r.f
    if not aligned(run, a[0]):
        run.raise_py('ValueError', [const('Input strings must be a multiple of 16 in length')])
    t = T.dec(f['key'], f['mode'], f['IV'], f['done'], a[0])
    run.wr(s, 'done')
    f['done'] = T.concat(f['done'], a[0])
    run.effect('decrypt', s, a[0], t)
    return t if a[0] is not EMPTY else EMPTY


@fn('EVP.Cipher')
def _evp(run, a, kw):
    alg, key, iv, op = args_of(['alg', 'key', 'iv', 'op'], a, kw)
    pad = kw.get('padding', const(1))
    mode = mk('mode', alg)
    if alg.op == 'concat' and is_const(alg.a[0], 'aes_') and is_const(alg.a[-1], '_cbc') \
            and len(alg.a) == 3 and alg.a[1] is T.str_(T.mul(const(8), T.length(key))):
        mode = CONSTS['AES.MODE_CBC']
    elif is_str(alg) and cval(alg) in ('aes_128_cbc', 'aes_192_cbc', 'aes_256_cbc'):
        mode = CONSTS['AES.MODE_CBC'] if T.length(key) is const(
            int(cval(alg)[4:7]) // 8) else mk('evpmode', alg)
    t = run.alloc('ext', 'EVP', cls='evp', f={
        'key': key, 'mode': mode, 'IV': iv, 'done': EMPTY, 'op': op, 'padding': pad,
        'pend': EMPTY})
    run.effect('cipher.new', t, key, mode, iv)
    return t


@meth('evp.update')
def _evpupd(run, s, a, kw):
    r = run.H[s]
    f = r.f
    data = T.concat(f['pend'], a[0])
    n = T.length(data)
    run.wr(s, 'pend')
    if is_int(n):
        k = cval(n) // 16 * 16
        f['pend'] = T.slc(data, const(k), NONE)
        a = [T.slc(data, NONE, const(k))]
    elif aligned(run, data):
        f['pend'] = EMPTY
        a = [data]
    else:
        k = T.mul(const(16), T.div(n, const(16)))
        f['pend'] = T.slc(data, k, NONE)
        a = [T.slc(data, NONE, k)]
    if is_int(f['op']) and cval(f['op']) == 1:
        t = T.enc(f['key'], f['mode'], f['IV'], f['done'], a[0])
        run.effect('encrypt', s, a[0], t)
    elif is_int(f['op']) and cval(f['op']) == 0:
        t = T.dec(f['key'], f['mode'], f['IV'], f['done'], a[0])
        run.effect('decrypt', s, a[0], t)
    else:
        t = unknown('evp op')
    run.wr(s, 'done')
    f['done'] = T.concat(f['done'], a[0])
    return t


@meth('evp.final')
def _evpfinal(run, s, a, kw):
    r = run.H[s]
    if is_const(r.f['padding'], 0):
        if r.f['pend'] is not EMPTY and not run.branch(T.eq(T.length(r.f['pend']), ZERO)):
            run.raise_py('ValueError', [const('data not multiple of block length')])
        return EMPTY
    return mk('evpfinal', r.f['key'], r.f['padding'], r.f['done'])


CK = {'RSA': ('n', 'e', 'd', 'p', 'q', 'u'), 'DSA': ('y', 'g', 'p', 'q', 'x')}


def _construct(kind):
    def f(run, a, kw):
        xs = run.iterate(a[0])
        if xs is None:
            return unknown('construct')
        return run.alloc('ext', kind, cls='ckey', f=dict(
            [(n, v) for n, v in zip(CK[kind], xs)] + [('kind', const(kind))]))
    return f


def _generate(kind):
    def f(run, a, kw):
        base = _rand('generate:' + kind, run, lambda n: mk('gen', kind, n, a[0]),
                     *[run.freeze(x) for x in a])
        return run.alloc('ext', kind, cls='ckey', f=dict(
            [(x, mk('idx', x, base)) for x in CK[kind]] + [('kind', const(kind))]))
    return f


for _n in ('RSA', 'DSA'):
    FN[_n + '.construct'] = _construct(_n)
    FN[_n + '.generate'] = _generate(_n)


def ckid(run, s):
    """public identity of a key object: its public components"""
    f = run.H[s].f
    if cval(f['kind']) == 'RSA':
        return mk('pub', 'RSA', f['n'], f['e'])
    return mk('pub', 'DSA', f['y'], f['g'], f['p'], f['q'])


@meth('ckey.publickey')
def _ckpub(run, s, a, kw):
    f = run.H[s].f
    keep = ('n', 'e') if cval(f['kind']) == 'RSA' else ('y', 'g', 'p', 'q')
    return run.alloc('ext', 'pub', cls='ckey', f=dict(
        [(x, f[x]) for x in keep if x in f] + [('kind', f['kind'])]))


def ckpriv(run, s):
    """does the key object hold the private half that belongs to its public
    half, every component in its own place? None: no private half"""
    f = run.H[s].f
    names = CK[cval(f['kind'])]
    if ('d' if cval(f['kind']) == 'RSA' else 'x') not in f:
        return None
    bases = set()
    for n in names:
        if n in f:
            v = f[n]
            if v.op != 'idx' or v.a[0] != n:
                return False
            bases.add(v.a[1])
    return len(bases) == 1


def _signed(ident, msg, sig):
    """is `sig` what signing `msg` under `ident` produced?"""
    if sig.op != 'tuple' or not sig.a[0]:
        return False
    want = 1 if ident.a[0] == 'RSA' else 2
    if len(sig.a[0]) != want:
        return False
    src = None
    for i, x in enumerate(sig.a[0]):
        if x.op != 'getitem' or not is_const(x.a[1], i):
            return False
        c = x.a[0]
        if c.op != 'ckapp' or c.a[0] != 'sign' or c.a[1] is not ident or \
                c.a[2][0] is not msg or (src is not None and c is not src):
            return False
        src = c
    return True


def _ckop(op):
    def f(run, s, a, kw):
        run.effect('ck.' + op, s, *[run.freeze(x) for x in a])
        ident = ckid(run, s)
        if op in ('sign', 'decrypt'):
            pr = ckpriv(run, s)
            if pr is None:
                run.raise_py('TypeError', [const('Private key not available')])
            if not pr:
                f_ = run.H[s].f
                ident = mk('mismatched', *[f_[n] for n in CK[cval(f_['kind'])] if n in f_])
        fa = tuple(run.freeze(x) for x in a)
        if op == 'decrypt':
            m = fa[0]
            if m.op == 'getitem' and m.a[0].op == 'ckapp' and m.a[0].a[0] == 'encrypt' \
                    and m.a[0].a[1] is ident and is_const(m.a[1], 0):
                # integers carry no leading zero octet
                return _lstrip(run, m.a[0].a[2][0], '\0', True)
            return mk('bytesof', 'decrypt', ident, fa[0])
        if op == 'verify':
            h, sig = run.normalise(fa[0]), run.normalise(fa[1])
            if _signed(ident, h, sig):
                return TRUE
            for x in (sig.a[0] if sig.op == 'tuple' else ()):
                # unforgeability: a signature made over other data is rejected
                if x.op == 'getitem' and x.a[0].op == 'ckapp' and x.a[0].a[0] == 'sign' \
                        and run.decide(T.eq(run.normalise(x.a[0].a[2][0]), h)) is False:
                    return FALSE
            return mk('ok', 'verify', ident, h, sig)
        return mk('ckapp', op, ident, fa)
    return f


for _n in ('encrypt', 'decrypt', 'sign', 'verify', 'has_private', 'can_sign',
           'can_encrypt', 'size'):
    METH['ckey.' + _n] = _ckop(_n)


# ------------------------------------------------------------------ ASN.1
@fn('univ.Sequence')
def _useq(run, a, kw):
    return run.alloc('ext', 'Sequence', cls='asn1seq', items=[])


@meth('asn1seq.setComponentByPosition')
def _useqset(run, s, a, kw):
    r = run.H[s]
    run.wr(s, 'items')
    if not is_int(a[0]):
        r.items.append(unknown('component'))
        return s
    i = cval(a[0])
    while len(r.items) <= i:
        r.items.append(NONE)
    r.items[i] = a[1]
    return s


@meth('asn1seq.getComponentByPosition')
def _useqget(run, s, a, kw):
    r = run.H[s]
    if is_int(a[0]) and cval(a[0]) < len(r.items):
        return r.items[cval(a[0])]
    return unknown('component')


for _n in ('Integer', 'ObjectIdentifier', 'OctetString', 'BitString'):
    def _mkuniv(n):
        def f(run, a, kw):
            return mk('asn1', n, a[0] if a else NONE)
        return f
    FN['univ.' + _n] = _mkuniv(_n)


@fn('univ.Null')
def _unull(run, a, kw):
    return mk('asn1', 'Null', EMPTY)


def afreeze(run, v):
    r = run.H.get(v)
    if r is not None and r.kind == 'ext' and r.cls == 'asn1seq':
        return mk('asn1s', tuple(afreeze(run, x) for x in r.items))
    return v


def athaw(run, v):
    if v.op == 'asn1s':
        return run.alloc('ext', 'Sequence', cls='asn1seq',
                         items=[athaw(run, x) for x in v.a[0]])
    return v


@fn('derenc.encode')
def _derenc(run, a, kw):
    return mk('der', afreeze(run, a[0]))


@fn('derdec.decode')
def _derdec(run, a, kw):
    v = a[0]
    if v.op == 'asn1' and v.a[0] in ('OctetString',):
        v = v.a[1]
    if v.op == 'der':
        return mk('tuple', (athaw(run, v.a[0]), EMPTY))
    ps = v.a if v.op == 'concat' else ()
    if (v if not ps else ps[0]).op == 'const' and cval(v if not ps else ps[0])[:1] == '\0':
        run.raise_py('pyasn1.error.PyAsn1Error')      # no value has tag 0
    if ps and ps[0].op == 'der':
        # a complete value with bytes after it
        return mk('tuple', (athaw(run, ps[0].a[0]), T.concat(*ps[1:])))
    if not run.branch(mk('ok', 'der', v)):
        run.raise_py('pyasn1.error.PyAsn1Error')
    return mk('tuple', (mk('derval', v), mk('derrest', v)))


# ------------------------------------------------------------------ json/pickle
def jfreeze(run, v, depth=0):
    r = run.H.get(v)
    if depth > 12:
        return unknown('deep json')
    if r is not None:
        if r.kind == 'list':
            return mk('list', tuple((k, jfreeze(run, x, depth + 1)) for k, x in r.items))
        if r.kind == 'dict':
            if r.meta.get('rest') is not None:
                return unknown('json of widened dict')
            ents = [(k, jfreeze(run, x, depth + 1)) for k, x in r.items]
            ents.sort(key=lambda e: show(e[0]))
            return mk('jdict', tuple(ents))
        run.raise_py('TypeError', [const('not JSON serializable')])
    if v.op == 'tuple':
        return mk('list', tuple(('i', jfreeze(run, x, depth + 1)) for x in v.a[0]))
    return v


def jthaw(run, v):
    if v.op == 'jdict':
        return run.newdict([(k, jthaw(run, x)) for k, x in v.a[0]])
    if v.op == 'list':
        return run.alloc('list', 'list', items=[(k, jthaw(run, x)) for k, x in v.a[0]])
    return v


@fn('json.dumps')
def _dumps(run, a, kw):
    return mk('json', jfreeze(run, a[0]))


@fn('json.loads')
def _loads(run, a, kw):
    v = a[0]
    if v.op == 'json':
        return jthaw(run, v.a[0])
    if is_str(v):
        import json
        try:
            return pyval(run, json.loads(cval(v)))
        except ValueError:
            run.raise_py('json.JSONDecodeError')
    if v is NONE:
        run.raise_py('TypeError')
    if v.op == 'concat' and is_str(v.a[0]):
        head = cval(v.a[0]).lstrip(' \t\r\n')
        if head and head[0] not in '{["-0123456789tfnNI':
            run.raise_py('json.JSONDecodeError')  # no JSON text starts like this
    if run.flags.get('strict'):
        if not run.branch(mk('ok', 'json', v)):
            run.raise_py('json.JSONDecodeError')
    return mk('jval', v)


@fn('json.dump')
def _dump(run, a, kw):
    t = _dumps(run, a[:1], kw)
    run.call(run.getattr(a[1], 'write'), [t], {})
    return NONE


@fn('json.load')
def _load(run, a, kw):
    return _loads(run, [run.call(run.getattr(a[0], 'read'), [], {})], kw)


def pyval(run, v):
    if isinstance(v, dict):
        return run.newdict([(const(k), pyval(run, x)) for k, x in v.items()])
    if isinstance(v, (list,)):
        return run.newlist([pyval(run, x) for x in v])
    if isinstance(v, tuple):
        return mk('tuple', tuple(pyval(run, x) for x in v))
    return const(v)


@fn('pickle.dumps')
def _pdumps(run, a, kw):
    return mk('pickled', run.freeze(a[0]))


@fn('copy.copy')
def _copy(run, a, kw):
    r = run.H.get(a[0])
    if r is not None and r.kind in ('list', 'dict', 'set', 'inst', 'ext'):
        c = r.clone()
        t = run.alloc(r.kind, a[0].a[0], cls=r.cls)
        run.H[t] = c
        return t
    return a[0]


@fn('copy.deepcopy')
def _deepcopy(run, a, kw):
    memo = {}

    def go(v):
        if v in memo:
            return memo[v]
        r = run.H.get(v)
        if v.op == 'tuple':
            return mk('tuple', tuple(go(x) for x in v.a[0]))
        if r is None or r.kind in ('fn', 'class', 'mod', 'prop', 'static', 'classm'):
            return v
        t = run.alloc(r.kind, v.a[0], cls=r.cls)
        memo[v] = t
        c = r.clone()
        c.f = {k: go(x) if isinstance(x, T.Term) else x for k, x in r.f.items()}
        if r.kind == 'list':
            c.items = [(k, go(x)) for k, x in r.items]
        elif r.kind == 'dict':
            c.items = [[go(k), go(x)] for k, x in r.items]
        else:
            c.items = [go(x) if isinstance(x, T.Term) else x for x in r.items]
        run.H[t] = c
        return t
    return go(a[0])


# ------------------------------------------------------------------ os / files
@fn('os.path.join')
def _join(run, a, kw):
    parts = []
    for x in a:
        if x is NONE or isnum(x):
            run.raise_py('TypeError')
        if x.op == 'path':
            parts = list(x.a) if not parts else parts + list(x.a)
        else:
            parts.append(x)
    if len(parts) > 1 and all(is_str(p) for p in parts):
        import posixpath
        return const(posixpath.join(*[cval(p) for p in parts]))
    return mk('path', *parts)


T._STROPS |= {'path', 'fcontent', 'listname', 'strf', 'b64pad', 'b64std', 'nolines', 'nows', 'b64stddec', 'rjust',
              'hexof', 'pickled', 'repr', 'partition', 'rpartition', 'strm', 'dirname',
              'basename', 'abspath', 'rstrip', 'tobytes', 'item'}
T._NUMOPS |= {'srand', 'frombytes', 'bitlen', 'intb', 'int16', 'index'}


@fn('os.path.exists', 'os.path.lexists')
def _exists(run, a, kw):
    if a[0] in run.fs:
        return TRUE if run.fs[a[0]] is not None else FALSE
    if not run.flags.get('backends') and 'backends' in T.show(a[0]):
        return FALSE
    return mk('exists', a[0])


@fn('os.path.isdir')
def _isdir(run, a, kw):
    d = _known_dir(run, a[0])
    if d is not None:
        return TRUE if d else FALSE
    return mk('isdir', a[0])


def _known_dir(run, p):
    if is_str(p) and p in run.fs:
        if run.fs[p] is None:
            return False
        return run.fs[p] is EMPTY and p not in getattr(run, 'emptyfiles', ())
    return None


@fn('os.path.isfile')
def _isfile(run, a, kw):
    d = _known_dir(run, a[0])
    if d is not None:
        return TRUE if run.fs[a[0]] is not None and not d else FALSE
    if a[0] in run.fs:
        return TRUE if run.fs[a[0]] is not None else FALSE
    return mk('isfile', a[0])


for _n in ('dirname', 'basename', 'abspath', 'normpath', 'realpath', 'expanduser'):
    def _mkp(n):
        def f(run, a, kw):
            if is_str(a[0]) and cval(a[0]).startswith('/'):
                import posixpath
                return const(getattr(posixpath, n if n in ('dirname', 'basename') else 'normpath')(cval(a[0])))
            return mk('dirname' if n == 'dirname' else 'basename' if n == 'basename'
                      else 'abspath', a[0])
        return f
    FN['os.path.' + _n] = _mkp(_n)


@fn('os.listdir')
def _listdir(run, a, kw):
    io_fail(run, 'listdir', a[0])
    if a[0] in run.fs and run.fs[a[0]] is not None and is_str(a[0]):
        pre = cval(a[0]).rstrip('/') + '/'
        return run.newlist([const(n) for n in sorted(set(
            cval(p)[len(pre):].split('/')[0] for p, v in run.fs.items()
            if v is not None and is_str(p) and cval(p).startswith(pre)))])
    return mk('listdir', a[0])


@fn('os.getcwd', 'os.getcwdb')
def _getcwd(run, a, kw):
    return const('/cwd')


@fn('os.path.islink')
def _islink(run, a, kw):
    # files of the model are no links
    if a[0] in run.fs:
        return FALSE
    return mk('islink', a[0])


@fn('os.path.getsize')
def _getsize(run, a, kw):
    if a[0] in run.fs and run.fs[a[0]] is None:
        run.effect('iofail', const('missing'), a[0])
        run.raise_py('FileNotFoundError', [const('missing')])
    return T.length(run.fs.get(a[0]) or mk('fcontent', a[0]))


@fn('os.remove')
def _remove(run, a, kw):
    io_fail(run, 'remove', a[0])
    if a[0] in run.fs and run.fs[a[0]] is None:
        run.effect('iofail', const('missing'), a[0])
        run.raise_py('FileNotFoundError', [const('missing')])
    run.effect('remove', a[0])
    run.fs[a[0]] = None
    return NONE


@fn('os.rename', 'os.replace')
def _rename(run, a, kw):
    run.effect('rename', a[0], a[1])
    if a[0] in run.fs:
        run.fs[a[1]] = run.fs[a[0]]
        run.fs[a[0]] = None
    return NONE


for _n in ('shutil.rmtree', 'os.rmdir', 'os.removedirs'):
    def _mkr(n):
        def f(run, a, kw):
            run.effect('rmtree', a[0])
            return NONE
        return f
    FN[_n] = _mkr(_n)


@fn('os.makedirs', 'os.mkdir')
def _makedirs(run, a, kw):
    io_fail(run, 'makedirs', a[0])
    if _known_dir(run, a[0]) and not is_const(kw.get('exist_ok', FALSE), True):
        run.raise_py('FileExistsError', [a[0]])
    run.effect('makedirs', a[0])
    return NONE


def io_fail(run, what, path):
    if run.flags.get('io_fail') and run.choose(2, what):
        run.effect('iofail', const(what), path)
        run.raise_py('OSError', [const(what)])


@fn('open')
def _open(run, a, kw):
    path, mode = args_of(['file', 'mode'], a, kw)
    if mode is NONE:
        mode = const('r')
    io_fail(run, 'open', path)
    m = cval(mode) if is_str(mode) else '?'
    if m[:1] == 'r' and path in run.fs and run.fs[path] is None:
        run.effect('iofail', const('missing'), path)
        run.raise_py('FileNotFoundError', [const('missing')])
    run.effect('open', path, mode)
    if 'x' in m:
        if run.branch(_exists(run, [path], {})):
            run.raise_py('FileExistsError')
    t = run.alloc('ext', 'file', cls='file', f={'path': path, 'mode': mode,
                                                'closed': FALSE, 'name': path})
    if 'w' in m or 'x' in m:
        run.fs[path] = EMPTY
    return t


@meth('file.write')
def _fwrite(run, s, a, kw):
    r = run.H[s]
    p = r.f['path']
    io_fail(run, 'write', p)
    run.fs[p] = T.concat(run.fs.get(p) or EMPTY, a[0])
    run.effect('fwrite', p, a[0])
    return T.length(a[0])


@meth('file.read')
def _fread(run, s, a, kw):
    r = run.H[s]
    p = r.f['path']
    io_fail(run, 'read', p)
    run.effect('fread', p)
    whole = run.fs[p] if run.fs.get(p) is not None else mk('fcontent', p)
    n = a[0] if a else kw.get('size', NONE)
    pos = r.f.get('pos', ZERO)
    if n is NONE or is_int(n) and cval(n) < 0:
        end = T.length(whole)
        out = whole if pos is ZERO else T.slc(whole, pos, end)
    elif is_int(n) and is_int(T.length(whole)):
        end = const(min(cval(pos) + cval(n), cval(T.length(whole)))) if is_int(pos) else T.ladd(pos, n)
        out = T.slc(whole, pos, end)
    else:
        end = T.ladd(pos, n)
        if not run.branch(T.lt(end, T.length(whole))):
            end = T.length(whole)
        out = T.slc(whole, pos, end)
    run.wr(s, 'pos')
    r.f['pos'] = end
    return out


@meth('file.close')
def _fclose(run, s, a, kw):
    run.effect('fclose', run.H[s].f['path'])
    if run.H[s].f['closed'] is TRUE:
        return NONE
    run.wr(s, 'closed')
    run.H[s].f['closed'] = TRUE
    m = run.H[s].f['mode']
    if not (is_str(m) and cval(m)[:1] == 'r'):
        io_fail(run, 'close', run.H[s].f['path'])     # what was buffered may not fit
    return NONE


@meth('file.flush', 'file.fileno')
def _fflush(run, s, a, kw):
    return NONE


@fn('os.fsync')
def _fsync(run, a, kw):
    return NONE


@fn('os.environ.get', 'os.getenv')
def _getenv(run, a, kw):
    x = run.env.get(a[0], NONE)
    if x is NONE:
        return a[1] if len(a) > 1 else kw.get('default', NONE)
    return x


@fn('itertools.product')
def _product(run, a, kw):
    import itertools
    cols = [run.iterate(x) for x in a]
    if any(c is None for c in cols):
        return run.alloc('list', 'product', items=[
            ('s', mk('product', *[run.freeze(x) for x in a]))])
    if 'repeat' in kw:
        cols = cols * cval(kw['repeat'])
    return run.newlist([mk('tuple', t) for t in itertools.product(*cols)])


@fn('itertools.chain')
def _chain(run, a, kw):
    items = []
    for x in a:
        r = run.H.get(x)
        xs = run.iterate(x)
        if xs is not None:
            items += [('i', y) for y in xs]
        elif r is not None and r.kind == 'list':
            items += list(r.items)
        else:
            items.append(('s', run.freeze(x)))
    return run.alloc('list', 'list', items=items)


@fn('itertools.chain.from_iterable')
def _chainfi(run, a, kw):
    xs = run.iterate(a[0])
    if xs is None:
        return run.alloc('list', 'list', items=[('s', unknown('chain'))])
    return _chain(run, xs, {})


def _spawn(run, a, kw):
    args = run.freeze(a[0] if a else kw.get('args', NONE))
    if args.op == 'list' and all(k == 'i' for k, _ in args.a[0]):
        args = mk('tuple', tuple(v for _, v in args.a[0]))
    out = mk('res', run.fresh(), mk('ext', 'spawn'), (args,))
    run.effect('spawn', args, out)
    bad = run.flags.get('spawn_fail') and run.choose(3, 'spawn')
    if bad:
        run.effect('spawnfail', args)
    if bad == 2:
        run.raise_py('FileNotFoundError', [const('no such command')])
    return out, bad


@fn('subprocess.check_output', 'subprocess.check_call')
def _checkout(run, a, kw):
    out, bad = _spawn(run, a, kw)
    if bad:
        run.raise_py('subprocess.CalledProcessError')
    return out


@fn('subprocess.call', 'os.system', 'os.popen', 'subprocess.getoutput')
def _spawncall(run, a, kw):
    out, bad = _spawn(run, a, kw)
    return const(1) if bad else ZERO


@fn('subprocess.run')
def _spawnrun(run, a, kw):
    out, bad = _spawn(run, a, kw)
    if bad and is_const(kw.get('check', FALSE), True):
        run.raise_py('subprocess.CalledProcessError')
    run.overlay[(out, 'stdout')] = out
    run.overlay[(out, 'returncode')] = const(1) if bad else ZERO
    return out


@fn('operator.xor')
def _oxor(run, a, kw):
    import ast
    return run.binop(ast.BitXor(), a[0], a[1])


@fn('operator.or_')
def _oor(run, a, kw):
    import ast
    return run.binop(ast.BitOr(), a[0], a[1])


@fn('operator.attrgetter')
def _oattr(run, a, kw):
    t = run.alloc('ext', 'attrgetter', cls='attrgetter', f={'n': a[0]})
    return mk('bm', t, mk('ext', 'attrgetter.__call__'))


@meth('attrgetter.__call__')
def _oattrc(run, s, a, kw):
    return run.getattr(a[0], cval(run.H[s].f['n']))


@fn('operator.itemgetter')
def _oitem(run, a, kw):
    t = run.alloc('ext', 'itemgetter', cls='itemgetter', f={'n': a[0]})
    return mk('bm', t, mk('ext', 'itemgetter.__call__'))


@meth('itemgetter.__call__')
def _oitemc(run, s, a, kw):
    return run.getitem(a[0], run.H[s].f['n'])


@fn('KZ.identity')
def _kid(run, a, kw):
    return a[0]
