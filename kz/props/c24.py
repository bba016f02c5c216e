from ..check import prop, Ctx
from .c21 import LIB as TOOL

LIB = TOOL + '''
def steps(at):
    """the completed changes of files, in order: (path, new content or None)"""
    out = []
    open_ = {}
    for e in KZ.events('open', 'fwrite', 'fclose', 'remove', 'rename', 'rmtree', 'iofail', since=at):
        if e[0] == 'iofail':
            if e[1] in ('write', 'close'):
                open_.pop(e[2], None)
                out.append((e[2], None, None))
        elif e[0] == 'open':
            if e[2][:1] in ('w', 'a', 'x'):
                open_[e[1]] = ''
        elif e[0] == 'fwrite':
            open_[e[1]] = open_.get(e[1], '') + e[2]
        elif e[0] == 'fclose':
            if e[1] in open_:
                out.append((e[1], open_.pop(e[1])))
        elif e[0] == 'remove':
            out.append((e[1], None))
        elif e[0] == 'rename':
            out.append((e[1], None, e[2]))
        else:
            KZ.fail('no directory is removed')
    for p in list(open_.keys()):
        out.append((p, open_[p]))
    return out
def states(files, at):
    """every content of the disk between two completed operations"""
    cur = dict(files)
    out = [cur]
    for s in steps(at):
        cur = dict(cur)
        if len(s) == 3 and s[2] is None:
            # the write of s[0] failed half-way: only what is written
            # afterwards on the strength of it matters
            cur.pop(s[0], None)
            continue
        if len(s) == 3:
            cur[s[2]] = cur.get(s[0])
            cur.pop(s[0], None)
        elif s[1] is None:
            cur.pop(s[0], None)
        else:
            cur[s[0]] = s[1]
        out.append(cur)
    return out
def opens(state, loc, ktype, crypter=None, exporting=False):
    """the key set at loc opens, with every key its metadata names"""
    if loc + '/meta' not in state:
        return None
    m = keydata.KeyMetadata.Read(state[loc + '/meta'])
    ks = {}
    for v in m.versions:
        p = loc + '/' + str(v.version_number)
        KZ.prove(p in state, 'metadata on disk only names versions whose key is stored')
        if p in state:
            ks[v.version_number] = state[p]
    r = MemReader(state[loc + '/meta'], ks)
    if crypter is not None:
        r = readers.EncryptedReader(r, crypter)
    try:
        g = K.GenericKeyczar(r)
    except errors.KeyczarError:
        KZ.fail('the key set opens at every point')
        return None
    KZ.ok('the key set opens at every point')
    return g
def keeps(g, olds, gone=()):
    """every old key is still there under its number"""
    for i in range(len(olds)):
        if i + 1 in gone:
            continue
        try:
            k = g.GetKey(g.metadata.GetVersion(i + 1))
        except (KeyError, errors.KeyczarError):
            KZ.fail('every key needed for existing data stays available')
            return
        KZ.prove(k.hash_id == olds[i].hash_id and str(k) == str(olds[i]), 'every key needed for existing data stays available')
def hks(n):
    ks = [hmackey(str(i + 1)) for i in range(n)]
    for i in range(n):
        for j in range(i):
            KZ.distinct(ks[i].hash_id, ks[j].hash_id)
    return ks
def disk(loc, meta, ks):
    files = {loc + '/meta': meta}
    for i in range(len(ks)):
        files[loc + '/' + str(i + 1)] = ks[i]
    KZ.putfile(loc, '')
    for p in files:
        KZ.putfile(p, files[p])
    return files
'''

FRESH = {'freshkeys': True}

prop('C24', [
    Ctx('adding', LIB + '''
def main():
    n = KZ.choice(0, 1, 2, 3)
    olds = hks(n)
    sts = [keyinfo.ACTIVE, keyinfo.PRIMARY, keyinfo.INACTIVE][:n]
    files = disk('/loc', str(metadata(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, sts)), [str(k) for k in olds])
    at = KZ.mark()
    if KZ.flip():
        keyczart.main(['addkey', '--location=/loc', '--status=' + KZ.choice('active', 'primary')])
    else:
        g = K.GenericKeyczar.Read('/loc')
        g.AddVersion(KZ.choice(keyinfo.ACTIVE, keyinfo.PRIMARY))
        if KZ.flip():
            g.AddVersion(keyinfo.PRIMARY)
        g.Write('/loc')
    ss = states(files, at)
    KZ.prove(len(ss) > 1, 'the command writes')
    for s in ss:
        keeps(opens(s, '/loc', keyinfo.HMAC_SHA1), olds)
    KZ.prove(len(opens(ss[-1], '/loc', keyinfo.HMAC_SHA1).versions) > n, 'the addition is complete in the end')
''', FRESH),
    Ctx('adding to an encrypted set', LIB + '''
def main():
    n = KZ.choice(0, 1, 2)
    c = K.Crypter(keyset(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, lambda t: aeskey('c' + t), [keyinfo.PRIMARY]))
    olds = hks(n)
    sts = [keyinfo.PRIMARY, keyinfo.ACTIVE][:n]
    files = disk('/loc', str(metadata(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, sts, 'n', n > 0)), [c.Encrypt(str(k)) for k in olds])
    at = KZ.mark()
    keyczart.AddKey('/loc', keyinfo.ACTIVE, c)
    ss = states(files, at)
    for s in ss:
        keeps(opens(s, '/loc', keyinfo.HMAC_SHA1, c), olds)
    KZ.same(len(opens(ss[-1], '/loc', keyinfo.HMAC_SHA1, c).versions), n + 1, 'the addition is complete in the end')
''', FRESH),
    Ctx('promoting and demoting', LIB + '''
def main():
    olds = hks(3)
    sts = [keyinfo.PRIMARY, keyinfo.ACTIVE, keyinfo.INACTIVE]
    files = disk('/loc', str(metadata(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, sts)), [str(k) for k in olds])
    c = KZ.choice(('promote', 2), ('promote', 3), ('demote', 1), ('demote', 2))
    at = KZ.mark()
    keyczart.main([c[0], '--location=/loc', '--version=%d' % c[1]])
    ss = states(files, at)
    for s in ss:
        keeps(opens(s, '/loc', keyinfo.HMAC_SHA1), olds)
    m = keydata.KeyMetadata.Read(ss[-1]['/loc/meta'])
    KZ.prove(str(m.GetVersion(c[1]).status) != str(sts[c[1] - 1]), 'the change is on disk in the end')
'''),
    Ctx('revoking', LIB + '''
def main():
    n = KZ.choice(2, 3)
    olds = hks(n)
    gone = KZ.choice(1, 2)
    sts = [keyinfo.PRIMARY] * n
    sts[gone - 1] = keyinfo.INACTIVE
    if n == 3:
        sts[2 if gone != 3 else 1] = keyinfo.ACTIVE
    files = disk('/loc', str(metadata(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, sts)), [str(k) for k in olds])
    at = KZ.mark()
    keyczart.main(['revoke', '--location=/loc', '--version=%d' % gone])
    ss = states(files, at)
    for s in ss:
        g = opens(s, '/loc', keyinfo.HMAC_SHA1)
        keeps(g, olds, (gone,))
        named = len([v for v in g.versions if v.version_number == gone]) > 0
        KZ.prove(not named or '/loc/' + str(gone) in s, 'a key file is removed only after metadata no longer names it')
    KZ.prove('/loc/' + str(gone) not in ss[-1], 'the key file is gone in the end')
    KZ.same(len(opens(ss[-1], '/loc', keyinfo.HMAC_SHA1).versions), n - 1, 'the version is gone in the end')
'''),
    Ctx('exporting', LIB + '''
def main():
    n = KZ.choice(1, 2)
    ks = [keys.GenKey(keyinfo.DSA_PRIV) for i in range(n)]
    if n == 2:
        KZ.distinct(ks[0].hash_id, ks[1].hash_id)
    sts = [keyinfo.PRIMARY, keyinfo.ACTIVE][:n]
    files = disk('/loc', str(metadata(keyinfo.SIGN_AND_VERIFY, keyinfo.DSA_PRIV, sts)), [str(k) for k in ks])
    KZ.putfile('/dest', '')
    again = KZ.flip()
    if again:
        files.update(disk('/dest', str(metadata(keyinfo.VERIFY, keyinfo.DSA_PUB, [keyinfo.PRIMARY])), [str(ks[0].public_key)]))
    else:
        for f in ('meta', '1', '2'):
            KZ.putfile('/dest/' + f, None)
    at = KZ.mark()
    if KZ.flip():
        keyczart.main(['pubkey', '--location=/loc', '--destination=/dest'])
    else:
        K.GenericKeyczar.Read('/loc').PublicKeyExport('/dest')
    ss = states(files, at)
    for s in ss:
        opens(s, '/dest', keyinfo.DSA_PUB)
        keeps(opens(s, '/loc', keyinfo.DSA_PRIV), ks)
    g = opens(ss[-1], '/dest', keyinfo.DSA_PUB)
    KZ.same(len(g.versions), n, 'the export is complete in the end')
''', FRESH),
    Ctx('a life cycle', LIB + '''
def main():
    ks = hks(2)
    files = disk('/loc', str(metadata(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, [keyinfo.PRIMARY, keyinfo.ACTIVE])), [str(k) for k in ks])
    at = KZ.mark()
    keyczart.main(['addkey', '--location=/loc', '--status=primary'])
    keyczart.main(['demote', '--location=/loc', '--version=1'])
    keyczart.main(['revoke', '--location=/loc', '--version=1'])
    keyczart.main(['addkey', '--location=/loc'])
    for s in states(files, at):
        keeps(opens(s, '/loc', keyinfo.HMAC_SHA1), ks, (1,))
''', FRESH),
    Ctx('creating', LIB + '''
def main():
    KZ.putfile('/loc', '')
    KZ.putfile('/loc/meta', None)
    at = KZ.mark()
    keyczart.main(['create', '--location=/loc', '--purpose=sign'])
    for s in states({}, at):
        opens(s, '/loc', keyinfo.HMAC_SHA1)
'''),
    Ctx('failing operations', LIB + '''
def main():
    olds = hks(2)
    sts = [keyinfo.PRIMARY, keyinfo.INACTIVE]
    files = disk('/loc', str(metadata(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, sts)), [str(k) for k in olds])
    c = KZ.choice((('addkey', []), ('promote', ['--version=2']), ('demote', ['--version=1']), ('revoke', ['--version=2'])))
    at = KZ.mark()
    try:
        keyczart.main([c[0], '--location=/loc'] + c[1])
    except errors.KeyczarError:
        KZ.reach('fault')
    for s in states(files, at):
        keeps(opens(s, '/loc', keyinfo.HMAC_SHA1), olds, (2,))
''', {'freshkeys': True, 'io_fail': True}, must=('fault',)),
])
