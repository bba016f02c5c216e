"""Runs the keyczar package of the tree under test with Python 2 string and
division semantics (byte strings are str holding code points 0..255), because
the tree is a half-finished Python 3 conversion.  Put next to a demo:
    import py2shim; py2shim.install()      # then: from keyczar import ...
"""
import ast, builtins, importlib.abc, importlib.util, os, sys, time, types
if not hasattr(time, 'clock'):
    time.clock = time.perf_counter
import base64, codecs, hashlib, hmac, struct, pickle, math, random
ROOT = os.environ.get('KEYCZAR_SRC') or os.path.join(os.getcwd(), 'python', 'src')


def B(x):
    if isinstance(x, str):
        return x.encode('latin-1')
    if isinstance(x, tuple):
        return tuple(B(y) for y in x)
    return x


def U(x):
    if isinstance(x, (bytes, bytearray)):
        return bytes(x).decode('latin-1')
    if isinstance(x, tuple):
        return tuple(U(y) for y in x)
    return x


def wrapf(f):
    def g(*a, **k):
        return U(f(*[B(x) for x in a], **{n: B(v) for n, v in k.items()}))
    return g


class Obj(object):
    """wraps an object whose methods take and give byte strings"""
    def __init__(self, o):
        object.__setattr__(self, '_o', o)
    def __getattr__(self, n):
        v = getattr(self._o, n)
        if callable(v):
            def g(*a, **k):
                r = v(*[B(x) for x in a], **k)
                if type(r).__module__.startswith('Crypto') or n in ('publickey', 'copy'):
                    return Obj(r)
                return U(r)
            return g
        return U(v)


def mod(_n, **d):
    m = types.ModuleType(_n)
    m.__dict__.update(d)
    return m


def sha1(*a):
    return Obj(hashlib.sha1(*[B(x) for x in a]))


def hmac_new(key, msg=None, digestmod=None):
    return Obj(hmac.new(B(key), B(msg), hashlib.sha1))


class Enc(codecs.IncrementalEncoder):
    def __init__(self, errors='strict'):
        self.errors = errors
        self.buffer = ''
    def _buffer_encode(self, input, errors, final):
        raise NotImplementedError
    def encode(self, input, final=False):
        data = self.buffer + input
        (result, consumed) = self._buffer_encode(data, self.errors, final)
        self.buffer = data[consumed:]
        return result
    def reset(self):
        self.buffer = ''


class Dec(codecs.IncrementalDecoder):
    def __init__(self, errors='strict'):
        self.errors = errors
        self.buffer = ''
    def _buffer_decode(self, input, errors, final):
        raise NotImplementedError
    def decode(self, input, final=False):
        data = self.buffer + input
        (result, consumed) = self._buffer_decode(data, self.errors, final)
        self.buffer = data[consumed:]
        return result
    def reset(self):
        self.buffer = ''


class SReader(codecs.StreamReader):
    charbuffertype = str
    def __init__(self, stream, errors='strict'):
        codecs.StreamReader.__init__(self, stream, errors)
        self.bytebuffer = ''
        self.charbuffer = ''


class AesCbc(object):
    """PyCrypto's AES object (its C module does not load on Python 3.12)"""
    def __init__(self, key, mode=1, iv=''):
        self.key, self.mode, self.iv = B(key), mode, B(iv)
        if len(self.key) not in (16, 24, 32):
            raise ValueError('AES key must be either 16, 24, or 32 bytes long')
        if mode == 2 and len(self.iv) != 16:
            raise ValueError('IV must be 16 bytes long')
    def _do(self, op, data):
        from M2Crypto import EVP
        data = B(data)
        if len(data) % 16:
            raise ValueError('Input strings must be a multiple of 16 in length')
        if not data:
            return ''
        alg = 'aes_%d_%s' % (len(self.key) * 8, 'cbc' if self.mode == 2 else 'ecb')
        c = EVP.Cipher(alg=alg, key=self.key, iv=self.iv or bytes(16), op=op, padding=0)
        out = c.update(data) + c.final()
        if self.mode == 2:
            self.iv = (out if op else data)[-16:]
        return U(out)
    def encrypt(self, data):
        return self._do(1, data)
    def decrypt(self, data):
        return self._do(0, data)


M2 = [False]
_cache = {}


def proxy(name):
    if name not in _cache:
        _cache[name] = _proxy(name)
    return _cache[name]


def _proxy(name):
    if name == 'hashlib':
        return mod('hashlib', sha1=sha1)
    if name == 'hmac':
        return mod('hmac', new=hmac_new, compare_digest=lambda a, b: hmac.compare_digest(B(a), B(b)))
    if name == 'base64':
        return mod('base64', **{n: wrapf(getattr(base64, n)) for n in (
            'urlsafe_b64encode', 'urlsafe_b64decode', 'b64encode', 'b64decode', 'standard_b64encode', 'standard_b64decode')})
    if name == 'struct':
        return mod('struct', error=struct.error, calcsize=struct.calcsize,
                   pack=wrapf2(struct.pack), unpack=wrapf2(struct.unpack))
    if name == 'os':
        m = mod('os', **{k: v for k, v in os.__dict__.items() if not k.startswith('__')})
        m.urandom = lambda n: U(os.urandom(n))
        return m
    if name == 'codecs':
        m = mod('codecs', **{k: v for k, v in codecs.__dict__.items() if not k.startswith('__')})
        m.BufferedIncrementalEncoder = Enc
        m.BufferedIncrementalDecoder = Dec
        m.StreamReader = SReader
        return m
    if name == 'Crypto.Cipher':
        return mod(name, AES=mod('AES', new=AesCbc, MODE_ECB=1, MODE_CBC=2, block_size=16, key_size=(16, 24, 32)))
    if name == 'M2Crypto' and not M2[0]:
        raise ImportError(name)
    if name == 'M2Crypto':
        from M2Crypto import EVP
        return mod(name, EVP=mod('EVP', Cipher=lambda **k: Obj(EVP.Cipher(**{n: B(v) if n in ('key', 'iv') else v for n, v in k.items()}))))
    if name == 'Crypto.PublicKey':
        from Crypto.PublicKey import RSA, DSA
        def w(M):
            def generate(n, randfunc=None, *a):
                return Obj(M.generate(n, (lambda k: B(randfunc(k))) if randfunc else os.urandom, *a))
            return mod(M.__name__, construct=lambda *a: Obj(M.construct(*a)), generate=generate)
        return mod(name, RSA=w(RSA), DSA=w(DSA))
    if name == 'pyasn1.codec.der':
        from pyasn1.codec.der import decoder, encoder
        return mod(name, decoder=mod('decoder', decode=lambda s, **k: decoder.decode(B(s) if isinstance(s, str) else s, **k)),
                   encoder=mod('encoder', encode=lambda v: U(encoder.encode(v))))
    if name == 'pyasn1.type':
        from pyasn1.type import univ
        m = mod('univ', **{k: v for k, v in univ.__dict__.items() if not k.startswith('__')})
        m.OctetString = lambda v: univ.OctetString(B(v))
        univ.BitString.prettyPrint = lambda self, scope=0: '"\'%s\'B"' % ''.join(str(x) for x in self)
        return mod(name, univ=m)
    return None


def wrapf2(f):
    def g(fmt, *a):
        return U(f(fmt, *[B(x) for x in a]))
    return g


class Div(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name('__div__', ast.Load()), [n.left, n.right], []), n)
        return n
    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            n.op = ast.FloorDiv()
        return n


def div(a, b):
    return a // b if isinstance(a, int) and isinstance(b, int) else a / b


OPEN = [open]
IMPORT_HOOK = [None]


def p_open(loc, mode='r', *a, **k):
    if 'b' in mode:
        mode = mode.replace('b', '')
    return OPEN[0](loc, mode, encoding='latin-1', newline='')


def p_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        if IMPORT_HOOK[0]:
            r = IMPORT_HOOK[0](name)
            if r is not None:
                return r
        p = proxy(name)
        if p is not None:
            return p
    return builtins.__import__(name, globals, locals, fromlist, level)


BUILTINS = dict(builtins.__dict__, __import__=p_import, open=p_open, __div__=div)


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path
    def create_module(self, spec):
        return None
    def exec_module(self, module):
        with open(self.path) as f:
            tree = ast.fix_missing_locations(Div().visit(ast.parse(f.read(), self.path)))
        module.__dict__['__builtins__'] = BUILTINS
        module.__dict__['__file__'] = self.path
        exec(compile(tree, self.path, 'exec'), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name == 'keyczar':
            p = os.path.join(ROOT, 'keyczar')
            return importlib.util.spec_from_file_location(
                name, os.path.join(p, '__init__.py'), loader=Loader(os.path.join(p, '__init__.py')),
                submodule_search_locations=[p])
        if name.startswith('keyczar.'):
            p = os.path.join(ROOT, *name.split('.')) + '.py'
            if os.path.exists(p):
                return importlib.util.spec_from_file_location(name, p, loader=Loader(p))
        return None


def install():
    sys.dont_write_bytecode = True
    import Crypto.Random
    class R(object):
        read = staticmethod(os.urandom)
    Crypto.Random.new = lambda *a, **k: R()
    Crypto.Random.get_random_bytes = os.urandom
    import Crypto.Cipher.AES, Crypto.PublicKey.RSA, Crypto.PublicKey.DSA, pyasn1.codec.der.decoder, pyasn1.codec.der.encoder, pyasn1.type.univ, json
    sys.meta_path.insert(0, Finder())
