from ..check import prop, Ctx
from .c21 import LIB as TOOL

LIB = 'import sys\n' + TOOL + '''
LOG = []
ACCEPT = {}
STORE = {}
def backend(kind, tag, verdict):
    """a fresh back end class, registered by being defined"""
    if kind == 'r':
        class B(readers.Reader):
            def __init__(self, location):
                self.location = location
                self.tag = tag
            def GetMetadata(self):
                return STORE[self.location + '/meta']
            def GetKey(self, n):
                return STORE[self.location + '/' + str(n)]
            def Close(self):
                LOG.append((tag, 'closed'))
            @classmethod
            def CreateReader(cls, location):
                LOG.append((tag, 'asked', location, len(KZ.events('import'))))
                if verdict == 'yes':
                    return cls(location)
                return None
    else:
        class B(writers.Writer):
            def __init__(self, location):
                self.location = location
                self.tag = tag
            def WriteMetadata(self, metadata, overwrite=True):
                if not overwrite and self.location + '/meta' in STORE:
                    raise errors.KeyczarError('exists')
                LOG.append((tag, 'wrote meta'))
                STORE[self.location + '/meta'] = str(metadata)
            def WriteKey(self, key, version_number, encrypter=None):
                key = str(key)
                if encrypter:
                    key = encrypter.Encrypt(key)
                LOG.append((tag, 'wrote key', version_number))
                STORE[self.location + '/' + str(version_number)] = key
            def Remove(self, version_number):
                LOG.append((tag, 'removed', version_number))
                del STORE[self.location + '/' + str(version_number)]
            def Close(self):
                LOG.append((tag, 'closed'))
            @classmethod
            def CreateWriter(cls, location):
                LOG.append((tag, 'asked', location, len(KZ.events('import'))))
                if verdict == 'yes':
                    return cls(location)
                return None
    return B
def hidden(loc):
    KZ.putfile(loc, None)
def asked():
    return [e[0] for e in LOG if e[1:2] == ('asked',)]
'''

OPENERS = ('Encrypter', 'Verifier', 'UnversionedVerifier', 'Signer', 'UnversionedSigner', 'Crypter', 'GenericKeyczar')

prop('C25', [
    Ctx('offered in turn', LIB + '''
def main():
    kind = KZ.choice('r', 'w')
    make = readers.CreateReader if kind == 'r' else writers.CreateWriter
    loc = KZ.sym('location', 'str')
    here = KZ.flip()
    KZ.putfile(loc, '' if here else None)
    A = backend(kind, 'A', 'no' if KZ.flip() else 'yes')
    B = backend(kind, 'B', 'no' if KZ.flip() else 'yes')
    va = None
    try:
        got = make(loc)
    except errors.KeyczarError as e:
        KZ.prove(not here, 'a location that the file back end accepts opens')
        KZ.same(asked(), ['A', 'B'], 'every back end was asked before giving up')
        KZ.prove(KZ.mentions(str(e), loc), 'the error names the location')
        for l in LOG:
            KZ.same(l[2], loc, 'the location is handed to every back end as it is')
        KZ.prove(A(loc) is not None, 'back ends can be made')
        KZ.reach('none accepts')
        return
    if here:
        KZ.prove(type(got) is (readers.FileReader if kind == 'r' else writers.FileWriter), 'the first that accepts is used')
        KZ.same(asked(), [], 'nobody is asked after one has accepted')
        KZ.reach('file')
    else:
        KZ.prove(type(got) is A or type(got) is B, 'the back end that accepts is used')
        KZ.same(asked()[-1], got.tag, 'the first that accepts is used')
        KZ.same(asked(), ['A'] if got.tag == 'A' else ['A', 'B'], 'the first that accepts is used')
        KZ.same(got.location, loc, 'the location is handed to every back end as it is')
        KZ.reach('plug-in ' + got.tag)
''', {'backends': True}, must=('none accepts', 'file', 'plug-in A', 'plug-in B')),
    Ctx('acceptance is respected', LIB + '''
def main():
    kind = KZ.choice('r', 'w')
    make = readers.CreateReader if kind == 'r' else writers.CreateWriter
    hidden('/there')
    va, vb = KZ.choice('yes', 'no'), KZ.choice('yes', 'no')
    A = backend(kind, 'A', va)
    B = backend(kind, 'B', vb)
    try:
        got = make('/there')
        KZ.prove(va == 'yes' or vb == 'yes', 'a back end that refuses is not used')
        KZ.same(got.tag, 'A' if va == 'yes' else 'B', 'the first that accepts is used')
    except errors.KeyczarError:
        KZ.prove(va == 'no' and vb == 'no', 'a back end that accepts is used')
''', {'backends': True}),
    Ctx('hook missing', LIB + '''
def main():
    kind = KZ.choice('r', 'w')
    hidden('/there')
    if kind == 'r':
        class B(readers.Reader):
            def GetMetadata(self):
                return ''
            def GetKey(self, n):
                return ''
            def Close(self):
                return
    else:
        class B(writers.Writer):
            def WriteMetadata(self, metadata, overwrite=True):
                return
            def WriteKey(self, key, version_number, encrypter=None):
                return
            def Remove(self, n):
                return
            def Close(self):
                return
    late = KZ.flip()
    if late:
        backend(kind, 'A', 'yes')
    try:
        if kind == 'r':
            readers.CreateReader('/there')
        else:
            writers.CreateWriter('/there')
    except errors.KeyczarError:
        KZ.fail('a back end without its creation hook fails loudly')
    except NotImplementedError as e:
        KZ.ok('a back end without its creation hook fails loudly')
        KZ.reach('loud')
        return
    KZ.fail('a back end without its creation hook fails loudly')
''', {'backends': True}, must=('loud',)),
    Ctx('abstract classes', LIB + '''
def attempt(cls):
    try:
        cls()
    except TypeError:
        KZ.ok('an incomplete back end cannot be made')
        KZ.reach('refused')
        return
    KZ.fail('an incomplete back end cannot be made')
def main():
    miss = KZ.choice('GetMetadata', 'GetKey', 'Close', 'WriteMetadata', 'WriteKey', 'Remove', 'wClose', 'R', 'W')
    if miss == 'R':
        return attempt(readers.Reader)
    if miss == 'W':
        return attempt(writers.Writer)
    class R1(readers.Reader):
        def GetMetadata(self):
            return ''
        def GetKey(self, n):
            return ''
    class R2(readers.Reader):
        def GetMetadata(self):
            return ''
        def Close(self):
            return
    class R3(readers.Reader):
        def GetKey(self, n):
            return ''
        def Close(self):
            return
    class W1(writers.Writer):
        def WriteMetadata(self, metadata, overwrite=True):
            return
        def WriteKey(self, key, version_number, encrypter=None):
            return
        def Remove(self, n):
            return
    class W2(writers.Writer):
        def WriteMetadata(self, metadata, overwrite=True):
            return
        def WriteKey(self, key, version_number, encrypter=None):
            return
        def Close(self):
            return
    class W3(writers.Writer):
        def WriteMetadata(self, metadata, overwrite=True):
            return
        def Remove(self, n):
            return
        def Close(self):
            return
    class W4(writers.Writer):
        def WriteKey(self, key, version_number, encrypter=None):
            return
        def Remove(self, n):
            return
        def Close(self):
            return
    class RF(R1):
        def Close(self):
            return
    class WF(W1):
        def Close(self):
            return
    attempt({'GetMetadata': R3, 'GetKey': R2, 'Close': R1, 'WriteMetadata': W4, 'WriteKey': W3, 'Remove': W2, 'wClose': W1}[miss])
    RF()
    WF()
    KZ.ok('a complete back end can be made')
''', must=('refused',)),
    Ctx('modules are loaded first', LIB + '''
def main():
    kind = KZ.choice('r', 'w')
    make = readers.CreateReader if kind == 'r' else writers.CreateWriter
    KZ.putfile('/src/keyczar/backends', '')
    for f in ('alpha.py', 'beta.py', 'notes.txt', 'old.pyc'):
        KZ.putfile('/src/keyczar/backends/' + f, 'x')
    env = KZ.choice(None, '', '/one', '/one:/two', '/gone:/two', '/two:/gone', '/one:/one')
    want = ['alpha', 'beta']
    KZ.putfile('/one', '')
    KZ.putfile('/one/gamma.py', 'x')
    KZ.putfile('/one/README', 'x')
    KZ.putfile('/two', '')
    KZ.putfile('/two/delta.py', 'x')
    KZ.putfile('/two/epsilon.py', 'x')
    KZ.putfile('/two/_zeta2.py', 'x')
    KZ.putfile('/gone', None)
    if env is not None:
        KZ.putenv('KEYCZAR_BACKEND_PATHS', env)
        if '/one' in env:
            want.append('gamma')
        if '/two' in env:
            want += ['delta', 'epsilon', '_zeta2']
    hidden('/there')
    backend(kind, 'A', 'yes')
    make('/there')
    names = [e[1] for e in KZ.events('import')]
    for w in want:
        KZ.prove(w in names, 'every back-end module of every directory is loaded')
    for n in names:
        KZ.prove(n in want, 'only the Python files of the named directories are loaded')
    KZ.same(LOG[0][3], len(names), 'modules are loaded before any back end is asked')
    KZ.prove('/src/keyczar/backends' in sys.path, 'modules of the built-in directory can be found')
    if env is not None:
        for d in ('/one', '/two'):
            if d in env:
                KZ.prove(d in sys.path, 'modules of a named directory can be found')
''', {'backends': True}),
    Ctx('many directories, known or not', LIB + '''
import os
def main():
    kind = KZ.choice('r', 'w')
    make = readers.CreateReader if kind == 'r' else writers.CreateWriter
    KZ.putfile('/src/keyczar/backends', '')
    KZ.putfile('/src/keyczar/backends/alpha.py', 'x')
    want = ['alpha']
    dirs = []
    for i in range(5):
        d = '/plug%d' % i
        dirs.append(d)
        KZ.putfile(d, '')
        KZ.putfile(d + '/mod%d.py' % i, 'x')
        want.append('mod%d' % i)
    known = KZ.choice((), (0,), (1, 3), ('b',))
    for i in known:
        sys.path.append('/src/keyczar/backends' if i == 'b' else dirs[i])
    KZ.putenv('KEYCZAR_BACKEND_PATHS', os.pathsep.join(dirs))
    hidden('/there')
    backend(kind, 'A', 'yes')
    make('/there')
    names = [e[1] for e in KZ.events('import')]
    for w in want:
        KZ.prove(w in names, 'every back-end module of every directory is loaded')
    KZ.same(LOG[0][3], len(names), 'modules are loaded before any back end is asked')
    for d in dirs:
        KZ.prove(d in sys.path, 'modules of a named directory can be found')
''', {'backends': True}),
    Ctx('no built-in directory', LIB + '''
def main():
    kind = KZ.choice('r', 'w')
    make = readers.CreateReader if kind == 'r' else writers.CreateWriter
    KZ.putfile('/src/keyczar/backends', None)
    KZ.putfile('/one', '')
    KZ.putfile('/one/gamma.py', 'x')
    KZ.putenv('KEYCZAR_BACKEND_PATHS', '/one')
    KZ.putfile('/loc', '')
    got = make('/loc')
    KZ.prove(type(got) is (readers.FileReader if kind == 'r' else writers.FileWriter), 'file locations work without plug-ins')
    KZ.same([e[1] for e in KZ.events('import')], ['gamma'], 'the named directory is used without a built-in one')
''', {'backends': True}),
    Ctx('opened through the back end', LIB + '''
def main():
    hidden('/there')
    backend('r', 'A', 'yes')
    c = KZ.choice(OPENERS)
    h = hmackey('h')
    a = aeskey('a')
    if c in ('Encrypter', 'Crypter', 'GenericKeyczar'):
        STORE['/there/meta'] = str(metadata(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, [keyinfo.PRIMARY]))
        STORE['/there/1'] = str(a)
    else:
        STORE['/there/meta'] = str(metadata(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, [keyinfo.PRIMARY]))
        STORE['/there/1'] = str(h)
    k = getattr(K, c).Read('/there')
    KZ.prove(type(k) is getattr(K, c), 'the class asked for is made')
    KZ.same(k.primary_key.hash_id, (a if c in ('Encrypter', 'Crypter', 'GenericKeyczar') else h).hash_id, 'the key comes from the back end')
'''.replace('OPENERS', repr(OPENERS)), {'backends': True}),
    Ctx('commands through the back end', LIB + '''
def main():
    hidden('/there')
    backend('r', 'A', 'yes')
    backend('w', 'W', 'yes')
    ks = [hmackey('1'), hmackey('2')]
    KZ.distinct(ks[0].hash_id, ks[1].hash_id)
    STORE['/there/meta'] = str(metadata(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, [keyinfo.PRIMARY, keyinfo.INACTIVE]))
    STORE['/there/1'] = str(ks[0])
    STORE['/there/2'] = str(ks[1])
    c = KZ.choice('add', 'promote', 'demote', 'revoke', 'create')
    if c == 'add':
        keyczart.main(['addkey', '--location=/there', '--status=primary'])
        KZ.prove(('W', 'wrote key', 3) in LOG and ('W', 'wrote meta') in LOG, 'commands write through the back end')
        m = keydata.KeyMetadata.Read(STORE['/there/meta'])
        KZ.same(m.GetVersion(3).status, keyinfo.PRIMARY, 'commands write through the back end')
    elif c == 'promote':
        keyczart.main(['promote', '--location=/there', '--version=2'])
        m = keydata.KeyMetadata.Read(STORE['/there/meta'])
        KZ.same(m.GetVersion(2).status, keyinfo.ACTIVE, 'commands write through the back end')
    elif c == 'demote':
        keyczart.main(['demote', '--location=/there', '--version=1'])
        m = keydata.KeyMetadata.Read(STORE['/there/meta'])
        KZ.same(m.GetVersion(1).status, keyinfo.ACTIVE, 'commands write through the back end')
    elif c == 'revoke':
        keyczart.main(['revoke', '--location=/there', '--version=2'])
        KZ.prove('/there/2' not in STORE, 'commands remove through the back end')
        KZ.prove(('W', 'removed', 2) in LOG, 'commands remove through the back end')
    else:
        del STORE['/there/meta']
        keyczart.main(['create', '--location=/there', '--purpose=sign'])
        m = keydata.KeyMetadata.Read(STORE['/there/meta'])
        KZ.same(m.type, keyinfo.HMAC_SHA1, 'commands write through the back end')
    KZ.same(len(KZ.events('fwrite', 'remove')), 0, 'nothing is written behind the back end')
''', {'freshkeys': True, 'backends': True}),
    Ctx('asked anew every time', LIB + '''
def main():
    kind = KZ.choice('r', 'w')
    make = readers.CreateReader if kind == 'r' else writers.CreateWriter
    hidden('/else')
    state = {'now': 'yes'}
    if kind == 'r':
        class B(readers.Reader):
            def GetMetadata(self):
                return ''
            def GetKey(self, n):
                return ''
            def Close(self):
                LOG.append('closed')
            @classmethod
            def CreateReader(cls, location):
                return cls() if state['now'] == 'yes' else None
    else:
        class B(writers.Writer):
            def WriteMetadata(self, metadata, overwrite=True):
                pass
            def WriteKey(self, key, version_number, encrypter=None):
                pass
            def Remove(self, version_number):
                pass
            def Close(self):
                LOG.append('closed')
            @classmethod
            def CreateWriter(cls, location):
                return cls() if state['now'] == 'yes' else None
    x = make('/else')
    KZ.prove(type(x) is B, 'the back end that accepts is used')
    x.Close()
    y = make('/else')
    KZ.prove(type(y) is B and y is not x, 'a closed one is not handed out again')
    state['now'] = 'no'
    try:
        make('/else')
        KZ.fail('a location nobody serves any more is refused')
    except errors.KeyczarError:
        KZ.ok('refused')
    KZ.putfile('/else', '')
    KZ.prove(type(make('/else')) is (readers.FileReader if kind == 'r' else writers.FileWriter), 'a location that came into being opens')
'''),
])
