"""Registry of analysis contexts and structural rules, per property."""

PRELUDE = '''
import KZ
from keyczar import errors, keyinfo, keydata, util, keys, readers, writers
from keyczar import keyczar as K

def hmackey(tag, n=32):
    return keys.HmacKey(KZ.b64(KZ.string('hmac_' + tag, n)), n * 8)

def aeskey(tag, n=16):
    return keys.AesKey(KZ.b64(KZ.string('aes_' + tag, n)), hmackey(tag), n * 8)

def hdr(k):
    return chr(0) + KZ.unb64(k.hash_id)

class MemReader(readers.Reader):
    def __init__(self, meta, versions):
        self.meta = meta
        self.versions = versions
        self.closed = 0
    def GetMetadata(self):
        return self.meta
    def GetKey(self, v):
        return self.versions[v]
    def Close(self):
        self.closed += 1
    @classmethod
    def CreateReader(cls, location):
        return None

class MemWriter(writers.Writer):
    def __init__(self):
        self.meta = None
        self.versions = {}
        self.log = []
        self.closed = 0
    def WriteMetadata(self, meta, overwrite=True):
        self.log.append(('meta', overwrite))
        self.meta = str(meta)
    def WriteKey(self, key, v, encrypter=None):
        self.log.append(('key', v))
        if encrypter:
            self.versions[v] = encrypter.Encrypt(str(key))
        else:
            self.versions[v] = str(key)
    def Remove(self, v):
        self.log.append(('remove', v))
        self.versions.pop(v, None)
    def Close(self):
        self.closed += 1
    @classmethod
    def CreateWriter(cls, location):
        return None

def metadata(purpose, ktype, statuses, name='n', encrypted=False, exportable=False):
    m = keydata.KeyMetadata(name, purpose, ktype, encrypted)
    i = 0
    for s in statuses:
        i += 1
        m.AddVersion(keydata.KeyVersion(i, s, exportable))
    return m

def keyset(purpose, ktype, mkkey, statuses, exportable=False):
    m = metadata(purpose, ktype, statuses, exportable=exportable)
    d = {}
    i = 0
    for s in statuses:
        i += 1
        d[i] = str(mkkey(str(i)))
    return MemReader(str(m), d)

def anystatuses(n):
    """every assignment of statuses with at most one primary"""
    out = []
    prim = False
    for i in range(n):
        if prim:
            s = KZ.choice(keyinfo.ACTIVE, keyinfo.INACTIVE)
        else:
            s = KZ.choice(keyinfo.PRIMARY, keyinfo.ACTIVE, keyinfo.INACTIVE)
        if s == keyinfo.PRIMARY:
            prim = True
        out.append(s)
    return out
'''


class Ctx(object):
    def __init__(self, name, src, flags=None, prog='keyczar', limit=6000,
                 prelude=True, thorough=False, seconds=None, quiet_exc=False, must=()):
        self.name = name
        self.src = (PRELUDE if prelude and prog.startswith('keyczar') else '') + src
        self.flags = flags or {}
        self.prog = prog
        self.limit = limit
        self.thorough = thorough
        self.seconds = seconds
        self.quiet_exc = quiet_exc
        self.must = must      # outcomes that some path has to reach


PROPS = {}


def prop(pid, contexts, rules=()):
    PROPS[pid] = (contexts, rules)
