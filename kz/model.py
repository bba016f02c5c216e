"""Which source files make up the analysed program."""
import os
from . import interp as I
from . import terms as T
from .terms import mk

REPO = os.environ.get('KZ_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
MODS = ['errors', 'keyinfo', 'keydata', 'util', 'keys', 'readers', 'writers',
        'keyczar', 'keyczart']


class Broken(Exception):
    """the analysis could not be carried out (vanished anchor, syntax error)"""


def keyczar_program(missing=I.MISSING):
    src = os.path.join(REPO, 'python/src/keyczar')
    if not os.path.isdir(src):
        raise Broken('package directory missing: ' + src)
    mods = {'codecs': os.path.join(HERE, 'stubs/codecs.py')}
    init = os.path.join(src, '__init__.py')
    if os.path.exists(init):
        mods['keyczar'] = init
    for f in sorted(os.listdir(src)):
        if f.endswith('.py') and f != '__init__.py':
            mods['keyczar.' + f[:-3]] = os.path.join(src, f)
    for m in MODS:
        if 'keyczar.' + m not in mods:
            raise Broken('module vanished: keyczar.' + m)
    prog = I.Program(mods, missing=missing)
    _codec_contracts(prog)
    return prog


def keyczar_m2_program():
    return keyczar_program([m for m in I.MISSING if m != 'M2Crypto'])


def _codec_contracts(prog):
    """The codec and octet-string helpers are analysed on their own (C18, C19,
    C23, flag 'raw'); everywhere else their contracts stand in for their
    bodies: the web-safe encoding is injective, decoding inverts it or raises
    Base64DecodingError, integer/octet conversions are inverse, MGF1 is a
    function of seed and length, Xor is octet-wise."""
    H = prog.base.H
    util = H[mk('module', 'keyczar.util')].f
    errs = H[mk('module', 'keyczar.errors')].f

    def enc(run, args, kw):
        if len(args) != 1 or kw:
            raise NotImplementedError
        return T.b64enc(args[0])

    def dec(run, args, kw):
        if len(args) != 1 or kw:
            raise NotImplementedError
        s = args[0]
        if s.op == 'b64enc':
            return s.a[0]
        if s.op == 'const' and not T.is_str(s):
            raise NotImplementedError
        if T.is_str(s):
            import base64
            v = ''.join(T.cval(s).split())
            if len(v) % 4 == 1:
                raise NotImplementedError
            try:
                return T.const(base64.urlsafe_b64decode(
                    v + '=' * (-len(v) % 4)).decode('latin-1'))
            except Exception:
                raise NotImplementedError
        if s.op == 'slice' and T.b64dec(s).op != 'b64dec':
            return T.b64dec(s)
        if not run.flags.get('b64ok') and \
                not run.branch(mk('ok', 'b64', s)):
            c = errs.get('Base64DecodingError')
            raise I.AbsExc(run.instantiate(c, [], {}), run.site())
        return T.b64dec(s)

    def i2b(run, args, kw):
        if len(args) != 1 or kw or args[0].op == 'const' or \
                T.isstr(args[0]) or args[0].op in ('tuple', 'obj', 'unknown'):
            raise NotImplementedError
        return mk('bytesof', args[0])

    def b2i(run, args, kw):
        if len(args) != 1 or kw or args[0].op == 'const':
            raise NotImplementedError
        s = args[0]
        while s.op == 'concat' and (
                T.is_str(s.a[0]) and not T.cval(s.a[0]).strip('\0') or
                s.a[0].op == 'rep' and s.a[0].a[0] is T.const('\0')):
            s = T.concat(*s.a[1:])
        if s.op == 'bytesof':
            return s.a[0]
        if not T.isstr(s) or T.is_int(T.length(s)) and T.cval(T.length(s)) <= 8:
            raise NotImplementedError
        return mk('long', s)

    def mgf(run, args, kw):
        if len(args) != 2 or kw or args[0].op == 'const':
            raise NotImplementedError
        return mk('mgf', args[0], args[1])

    def xor(run, args, kw):
        if len(args) != 2 or kw or args[0].op == 'const' or args[1].op == 'const':
            raise NotImplementedError
        a, b = args
        d = T.ladd(T.length(a), T.length(b), -1)
        if not (T.is_int(d) and T.cval(d) == 0):
            raise NotImplementedError
        if T.is_int(T.length(a)) and T.cval(T.length(a)) < 20:
            raise NotImplementedError
        return T.xor(a, b)

    for name, f in (('Base64WSEncode', enc), ('Base64WSDecode', dec),
                    ('BigIntToBytes', i2b), ('BytesToLong', b2i),
                    ('MGF', mgf), ('Xor', xor)):
        t = util.get(name)
        if t is not None and t in H and H[t].kind == 'fn':
            H[t].meta['intrinsic'] = f


def interop_program():
    p = os.path.join(REPO, 'interop/interop.py')
    if not os.path.exists(p):
        raise Broken('interop.py vanished')
    return I.Program({'interop': p})
