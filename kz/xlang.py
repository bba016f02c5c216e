"""Format constants and JSON field names read from the Java and C++ sources.

Nothing is compiled or run: comments are removed, the preprocessor branch that
is compatible with the Python tree is kept, and declarations, string literals
of the JSON calls and enum constants are collected.  Whatever is not found is
reported as None and the obligations that need it stay undecided.
"""
import os
import re

from .model import REPO

JAVA = os.path.join(REPO, 'java', 'code', 'src', 'org', 'keyczar')
CPP = os.path.join(REPO, 'cpp', 'src', 'keyczar')


def strip_comments(s):
    out, i, n = [], 0, len(s)
    while i < n:
        c = s[i]
        if s.startswith('//', i):
            j = s.find('\n', i)
            i = n if j < 0 else j
        elif s.startswith('/*', i):
            j = s.find('*/', i + 2)
            i = n if j < 0 else j + 2
            out.append(' ')
        elif c in '"\'':
            j = i + 1
            while j < n and s[j] != c:
                j += 2 if s[j] == '\\' else 1
            out.append(s[i:j + 1])
            i = j + 1
        else:
            out.append(c)
            i += 1
    return ''.join(out)


def preprocess(s):
    """keep the branch that writes the formats of the Python tree"""
    out, keep = [], []
    for l in s.split('\n'):
        t = l.strip()
        if t.startswith('#if'):
            keep.append(not t.startswith('#ifndef') if 'COMPAT_KEYCZAR_06B' in t else None)
        elif t.startswith('#else') and keep:
            keep[-1] = None if keep[-1] is None else not keep[-1]
        elif t.startswith('#endif') and keep:
            keep.pop()
        elif False not in keep:
            out.append(l)
    return '\n'.join(out)


class Tree(object):
    def __init__(self, root, exts, cpp=False):
        self.files = {}
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(exts) and 'test' not in f.lower():
                    p = os.path.join(d, f)
                    with open(p, errors='replace') as fh:
                        s = strip_comments(fh.read())
                    self.files[os.path.relpath(p, root)] = preprocess(s) if cpp else s

    def text(self, *names):
        """the named files, by base name wherever they are"""
        hit = [s for p, s in self.files.items() if os.path.basename(p) in names]
        return '\n'.join(hit) if hit else None

    def const(self, name, *files):
        """value of an integer (character) constant"""
        for s in ([self.text(f) or '' for f in files] or self.files.values()):
            m = re.search(r'\b%s\s*=\s*([^;]+);' % re.escape(name), s)
            if m:
                v = self.value(m.group(1), files)
                if v is not None:
                    return v
        return None

    def value(self, e, files, depth=0):
        e = e.strip()
        m = re.match(r"^'(?:\\x([0-9a-fA-F]+)|\\([0-7]+)|\\u([0-9a-fA-F]{4}))'$", e)
        if m:
            return int(m.group(1) or m.group(3) or '0', 16) if not m.group(2) else int(m.group(2), 8)
        e = re.sub(r'\((?:byte|int|char)\)', '', e)
        for w in set(re.findall(r'[A-Za-z_]\w*(?:\.\w+)*', re.sub(r'0[xX][0-9a-fA-F]+', '', e))):
            v = self.const(w.split('.')[-1], *files) if depth < 4 else None
            if v is None:
                v = self.const(w.split('.')[-1])
            if v is None:
                return None
            e = re.sub(r'\b%s\b' % re.escape(w), str(v), e)
        if not re.match(r'^[\s0-9a-fA-FxX+*/()-]+$', e):
            return None
        try:
            return arith(e)
        except (ValueError, IndexError, ZeroDivisionError):
            return None

    def string(self, name, *files):
        for s in ([self.text(f) or '' for f in files] or self.files.values()):
            m = re.search(r'\b%s\s*(?:=\s*|\(\s*)"([^"]*)"' % re.escape(name), s)
            if m:
                return m.group(1)
        return None

    def fields(self, pattern, *files):
        s = self.text(*files)
        if s is None:
            return None
        # names given to string constants stand for the constants
        for m in re.finditer(r'\b(?:static|final|const|constexpr)\b[^;=(){}]*?\b(\w+)\s*(?:\[\s*\])?\s*=\s*("[^"\n]*")\s*;',
                             '\n'.join(self.files.values())):
            if m.group(1) in s:
                s = re.sub(r'\b(?:\w+\s*(?:\.|::)\s*)?%s\b' % re.escape(m.group(1)), lambda _: m.group(2), s)
        return sorted(set(re.findall(pattern, s))) or None


def arith(e):
    toks = re.findall(r'0[xX][0-9a-fA-F]+|\d+|[-+*/()]', e)

    def atom():
        t = toks.pop(0)
        if t == '(':
            v = add()
            toks.pop(0)
            return v
        if t == '-':
            return -atom()
        return int(t, 0) if not (len(t) > 1 and t[0] == '0' and t.isdigit()) else int(t, 8)

    def mul():
        v = atom()
        while toks and toks[0] in '*/':
            v = v * atom() if toks.pop(0) == '*' else v // atom()
        return v

    def add():
        v = mul()
        while toks and toks[0] in '+-':
            v = v + mul() if toks.pop(0) == '+' else v - mul()
        return v
    return add()


# readers of formats: (fields written, fields required, fields looked for)
JPUT = r'\.\s*put\s*\(\s*"([^"]+)"'
JGET = r'\.\s*get(?:String|Int|Long|Boolean|JSONObject|JSONArray|Double)?\s*\(\s*"([^"]+)"'
JOPT = r'\.\s*(?:opt\w*|has)\s*\(\s*"([^"]+)"'
CPUT = r'(?:->\s*Set\w*\s*\(\s*|(?:Safe)?SerializeString\s*\(\s*[^,"]+,\s*)"([^"]+)"'
CGET = r'(?:->\s*Get\w*\s*\(\s*|DeserializeString\s*\(\s*[^,"]+,\s*)"([^"]+)"'
COPT = r'->\s*HasKey\s*\(\s*"([^"]+)"'


def enum(tree, name):
    """names of the constants of a Java enum"""
    s = tree.text(name + '.java')
    if s is None:
        return None
    m = re.search(r'\benum\s+%s\b[^{]*\{(.*)' % name, s, re.S)
    if not m:
        return None
    out, body = [], m.group(1)
    depth = 0
    cur = ''
    for c in body:
        if c in '([{':
            depth += 1
        elif c in ')]}':
            if depth == 0:
                break
            depth -= 1
        elif depth == 0 and c in ',;':
            out.append(cur.strip())
            cur = ''
            if c == ';':
                break
            continue
        if depth == 0 and c not in ')]}':
            cur += c
    if cur.strip():
        out.append(cur.strip())
    out = [o.split()[-1] for o in out if o]
    return out or None


def java():
    t = Tree(JAVA, ('.java',))
    j = {
        'version': t.const('FORMAT_VERSION', 'Keyczar.java'),
        'hash': t.const('KEY_HASH_SIZE', 'Keyczar.java'),
        'header': t.const('HEADER_SIZE', 'Keyczar.java'),
        'block': t.const('BLOCK_SIZE', 'AesKey.java'),
        'mac': t.const('HMAC_DIGEST_SIZE', 'HmacKey.java'),
        'nonce': t.const('NONCE_SIZE', 'SignedSessionEncrypter.java'),
        'meta file': t.string('META_FILE', 'KeyczarFileReader.java'),
        'statuses': enum(t, 'KeyStatus'),
        'purposes': enum(t, 'KeyPurpose'),
        'types': enum(t, 'DefaultKeyType'),
        'modes': enum(t, 'CipherMode'),
        'alphabet': None,
    }
    j['session keys'] = None
    m = re.search(r'lenPrefixPack\s*\(((?:[^();]|\([^()]*\))*)\)', t.text('AesKey.java') or '')
    if m:
        o = ['aes' if re.match(r'\s*(this\.)?aes', a) else 'hmac' if re.match(r'\s*(this\.)?hmac', a) else '?'
             for a in m.group(1).split(',')]
        if sorted(o) == ['aes', 'hmac']:
            j['session keys'] = o
    s = t.text('Base64Coder.java') or ''
    m = re.search(r'\bALPHABET\s*=\s*\{([^}]*)\}', s)
    if m:
        j['alphabet'] = ''.join(re.findall(r"'(.)'", m.group(1))) or None
    for what, fs in (('meta', ('KeyMetadata.java',)), ('version fields', ('KeyVersion.java',)),
                     ('aes', ('AesKey.java',)), ('hmac', ('HmacKey.java',)),
                     ('rsa private', ('RsaPrivateKey.java',)), ('rsa public', ('RsaPublicKey.java',)),
                     ('dsa private', ('DsaPrivateKey.java',)), ('dsa public', ('DsaPublicKey.java',)),
                     ('session', ('SessionMaterial.java',))):
        j[what] = (t.fields(JPUT, *fs), t.fields(JGET, *fs), t.fields(JOPT, *fs) or [])
    return j


def cpp():
    t = Tree(CPP, ('.cc', '.h'), True)
    j = {
        'version': t.const('kVersionByte', 'key.cc'),
        'hash': t.const('kKeyHashSize', 'key.cc'),
        'block': t.const('kBlockSize', 'aes_key.cc'),
        'nonce': t.const('NONCE_SIZE', 'session.cc'),
        'meta file': t.string('metadata_basename_', 'keyset_file_reader.cc'),
        'statuses': t.fields(r'name\s*==\s*"([A-Z0-9_]+)"', 'key_status.cc'),
        'purposes': t.fields(r'name\s*==\s*"([A-Z0-9_]+)"', 'key_purpose.cc'),
        'types': t.fields(r'name\s*==\s*"([A-Z0-9_]+)"', 'key_type.cc'),
        'modes': t.fields(r'\b\w+\s*==\s*"([A-Z]{3})"', 'cipher_mode.cc'),
    }
    for what, f in (('aes', 'aes_key.cc'), ('hmac', 'hmac_key.cc'),
                    ('rsa private', 'rsa_private_key.cc'), ('rsa public', 'rsa_public_key.cc'),
                    ('dsa private', 'dsa_private_key.cc'), ('dsa public', 'dsa_public_key.cc'),
                    ('session', 'session.cc')):
        j[what] = (t.fields(CPUT, f), t.fields(CGET, f), t.fields(COPT, f) or [])
    f = 'keyset_metadata.cc'
    put, get, opt = t.fields(CPUT, f), t.fields(CGET, f), t.fields(COPT, f) or []
    j['meta and version fields'] = (put, get, opt)
    return j
