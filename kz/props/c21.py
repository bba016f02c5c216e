from ..check import prop, Ctx

LIB = '''
from keyczar import keyczart
def put(loc, purpose, ktype, ks, statuses, name='n', enc=False):
    KZ.putfile(loc, '')
    KZ.putfile(loc + '/meta', str(metadata(purpose, ktype, statuses, name, enc)))
    for i in range(len(statuses)):
        KZ.putfile(loc + '/' + str(i + 1), ks[i])
def hm(n):
    ks = [hmackey(str(i + 1)) for i in range(n)]
    for i in range(n):
        for j in range(i):
            KZ.distinct(ks[i].hash_id, ks[j].hash_id)
    return [str(k) for k in ks]
def read(loc):
    return keydata.KeyMetadata.Read(KZ.file(loc + '/meta'))
def quiet(at):
    """no key set has been touched"""
    KZ.same(len(KZ.events('fwrite', 'remove', 'rename', 'rmtree', 'makedirs', since=at)), 0, 'a refused command changes nothing')
    for e in KZ.events('open', since=at):
        KZ.prove(e[2][:1] == 'r', 'a refused command opens nothing for writing')
def within(at, *locs):
    """writes and removals stay below the given locations"""
    for e in KZ.events('fwrite', 'remove', 'rename', 'rmtree', 'makedirs', since=at):
        KZ.prove(len([l for l in locs if e[1][:len(l) + 1] == l + '/' or e[1] == l]) > 0, 'only the given location is written')
def shuffled(args):
    if len(args) > 1 and KZ.flip():
        return args[1:] + args[:1]
    return args
'''

prop('C21', [
    Ctx('create', LIB + '''
def main():
    KZ.putfile('/loc', '')
    KZ.putfile('/loc/meta', None)
    p = KZ.choice('sign', 'crypt')
    a = KZ.choice(None, 'rsa', 'dsa', 'RSA', 'DSA')
    if p == 'crypt' and a is not None:
        KZ.assume(a.lower() == 'rsa')
    n = KZ.choice(None, 'A name', 'Long_name:' * 30)
    args = ['--location=/loc', '--purpose=' + p]
    if a is not None:
        args.append('--asymmetric=' + a)
    if n is not None:
        args.append('--name=' + n)
    at = KZ.mark()
    keyczart.main(['create'] + shuffled(args))
    m = read('/loc')
    KZ.prove(m.purpose == (keyinfo.SIGN_AND_VERIFY if p == 'sign' else keyinfo.DECRYPT_AND_ENCRYPT), 'create uses the given purpose')
    if a is None:
        want = keyinfo.HMAC_SHA1 if p == 'sign' else keyinfo.AES
    elif a.lower() == 'rsa':
        want = keyinfo.RSA_PRIV
    else:
        want = keyinfo.DSA_PRIV
    KZ.prove(m.type == want, 'create picks the key type from purpose and algorithm')
    KZ.same(m.name, 'Test' if n is None else n, 'create uses the given name')
    KZ.same(len(m.versions), 0, 'a new key set is empty')
    KZ.prove(not m.encrypted, 'a new key set is not encrypted')
    within(at, '/loc')
    KZ.same(len(KZ.events('remove', 'rename', 'rmtree', since=at)), 0, 'create removes nothing')
    KZ.same(len(KZ.events('random', since=at)), 0, 'create generates no key')
'''),
    Ctx('create with anything missing', LIB + '''
def main():
    KZ.putfile('/loc', '')
    KZ.putfile('/loc/meta', None)
    KZ.putfile('/cwd', '')
    KZ.putfile('/cwd/meta', None)
    KZ.putfile('', None)
    args = KZ.choice((['--purpose=sign'], ['--purpose=sign', '--location='], ['--location=/loc'], [], ['--location=/loc', '--name=x'], ['--location=/loc', '--purpose=x'],
                      ['--location=/loc', '--purpose='], ['--location=/loc', '--purpose=SIGN'],
                      ['--location=/loc', '--asymmetric=rsa'], ['--location=/loc', '--purpose=verify']))
    at = KZ.mark()
    try:
        keyczart.main(['create'] + args)
    except errors.KeyczarError:
        KZ.reach('refused')
        quiet(at)
        return
    KZ.fail('missing or unusable values are refused')
''', must=('refused',)),
    Ctx('unusable flags', LIB + '''
def main():
    ks = hm(2)
    put('/loc', keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, ks, [keyinfo.PRIMARY, keyinfo.INACTIVE])
    KZ.putfile('/new', '')
    KZ.putfile('/new/meta', None)
    KZ.putfile('/dest', '')
    c = KZ.choice(('create', ['--location=/new', '--purpose=sign']), ('addkey', ['--location=/loc']), ('promote', ['--location=/loc', '--version=2']),
                  ('demote', ['--location=/loc', '--version=1']), ('revoke', ['--location=/loc', '--version=2']), ('pubkey', ['--location=/loc', '--destination=/dest']))
    bad = KZ.choice('--size=big', '--version=x', '--size=', '--version=1.5', '--nonsense=1', '--Location=/x', '--=1', '--locationn=/x',
                    '--name', '--size', '--asymmetric', '--status', '--crypter', '--name=a=b', '--', '---size=3', '---name=x')
    # a later value of the same flag replaces an earlier one
    args = c[1] + [bad] if bad[:10] == '--version=' or KZ.flip() else [bad] + c[1]
    at = KZ.mark()
    try:
        keyczart.main([c[0]] + args)
    except errors.KeyczarError:
        KZ.reach('refused')
    else:
        KZ.prove(len(KZ.events('print', since=at)) > 0, 'unusable flags are reported')
        KZ.reach('usage')
    quiet(at)
''', must=('refused', 'usage'), flags={'freshkeys': True}),
    Ctx('unknown commands', LIB + '''
def main():
    KZ.putfile('/loc', '')
    KZ.putfile('/loc/meta', 'OLD')
    c = KZ.choice('', 'Create', 'remove', 'addkeys', '--location=/loc', 'usage', KZ.sym('cmd', 'str'))
    for k in ('create', 'addkey', 'pubkey', 'promote', 'demote', 'revoke', 'genkey'):
        KZ.assume(c != k)
    at = KZ.mark()
    try:
        keyczart.main([c, '--location=/loc', '--purpose=sign', '--version=1', '--destination=/dest'])
    except errors.KeyczarError:
        KZ.reach('refused')
    else:
        KZ.prove(len(KZ.events('print', since=at)) > 0, 'unknown commands are reported')
    quiet(at)
'''),
    Ctx('no command', LIB + '''
def main():
    at = KZ.mark()
    keyczart.main([])
    KZ.prove(len(KZ.events('print', since=at)) > 0, 'without a command the usage is shown')
    quiet(at)
'''),
    Ctx('addkey', LIB + '''
def main():
    n = KZ.choice(0, 1, 2)
    old = hm(n)
    sts = [keyinfo.PRIMARY, keyinfo.ACTIVE][:n]
    put('/loc', keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, old, sts)
    st = KZ.choice(None, 'active', 'primary', 'ACTIVE', 'Primary', 'inactive')
    args = ['--location=/loc']
    if st is not None:
        args.append('--status=' + st)
    if KZ.flip():
        args.append('--size=256')
    at = KZ.mark()
    keyczart.main(['addkey'] + shuffled(args))
    m = read('/loc')
    KZ.same(len(m.versions), n + 1, 'addkey adds exactly one version')
    s = 'active' if st is None else st.lower()
    want = {'active': keyinfo.ACTIVE, 'primary': keyinfo.PRIMARY, 'inactive': keyinfo.INACTIVE}[s]
    KZ.prove(m.GetVersion(n + 1).status == want, 'the new version has the given status, active by default')
    for i in range(n):
        w = sts[i]
        if want == keyinfo.PRIMARY and w == keyinfo.PRIMARY:
            w = keyinfo.ACTIVE
        KZ.prove(m.GetVersion(i + 1).status == w, 'the other versions keep their status')
        KZ.same(KZ.file('/loc/' + str(i + 1)), old[i], 'the other keys are kept')
    k = keys.ReadKey(keyinfo.HMAC_SHA1, KZ.file('/loc/' + str(n + 1)))
    KZ.same(k.size, 256, 'the new key has the default size')
    KZ.prove(KZ.mentions(k.key_bytes, KZ.randoms()[-1][1]), 'the new key is freshly generated')
    KZ.prove(not m.encrypted, 'the key set stays unencrypted')
    KZ.same(m.name, 'n', 'the name is kept')
    within(at, '/loc')
''', flags={'freshkeys': True}),
    Ctx('addkey, wrong status or no location', LIB + '''
def main():
    put('/loc', keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hm(1), [keyinfo.PRIMARY])
    put('/cwd', keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hm(1), [keyinfo.PRIMARY])
    KZ.putfile('', None)
    KZ.putfile('/nowhere', None)
    args = KZ.choice((['--location=/loc', '--status=none'], ['--location=/loc', '--status='], ['--location=/loc', '--status=scheduled'], ['--status=active'], [], ['--size=256'],
                      ['--location=/loc', '--crypter='], ['--location=/loc', '--crypter=/nowhere'], ['--location=', '--size=256']))
    at = KZ.mark()
    try:
        keyczart.main(['addkey'] + args)
    except errors.KeyczarError:
        KZ.reach('refused')
        quiet(at)
        return
    KZ.fail('missing or unusable values are refused')
''', must=('refused',), flags={'freshkeys': True}),
    Ctx('addkey with a crypter', LIB + '''
def main():
    put('/crypt', keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, [str(aeskey('c'))], [keyinfo.PRIMARY], 'c')
    n = KZ.choice(0, 1)
    master = K.Crypter.Read('/crypt')
    old = [master.Encrypt(str(hmackey('1')))] * n
    put('/loc', keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, old, [keyinfo.PRIMARY] * n, 'n', n > 0)
    at = KZ.mark()
    keyczart.main(['addkey'] + shuffled(['--location=/loc', '--crypter=/crypt']))
    m = read('/loc')
    KZ.prove(m.encrypted, 'the key set is marked encrypted')
    KZ.same(len(m.versions), n + 1, 'addkey adds exactly one version')
    KZ.prove(m.GetVersion(n + 1).status == keyinfo.ACTIVE, 'the new version is active')
    t = KZ.file('/loc/' + str(n + 1))
    k = keys.ReadKey(keyinfo.HMAC_SHA1, master.Decrypt(t))
    KZ.same(k.size, 256, 'the stored key decrypts with the crypter to a key of the right size')
    within(at, '/loc')
''', flags={'freshkeys': True}),
    Ctx('promote and demote', LIB + '''
def main():
    ks = hm(3)
    sts = [keyinfo.PRIMARY, keyinfo.ACTIVE, keyinfo.INACTIVE]
    put('/loc', keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, ks, sts)
    put('/other', keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, ks, sts)
    c = KZ.choice('promote', 'demote')
    v = KZ.choice(1, 2, 3)
    P, A, I = keyinfo.PRIMARY, keyinfo.ACTIVE, keyinfo.INACTIVE
    want = {('promote', 2): [A, P, I], ('promote', 3): [P, A, A], ('demote', 1): [A, A, I], ('demote', 2): [P, I, I]}.get((c, v))
    at = KZ.mark()
    try:
        keyczart.main([c] + shuffled(['--location=/loc', '--version=%d' % v]))
    except errors.KeyczarError:
        KZ.prove(want is None, 'a possible change of status is carried out')
        KZ.reach('refused')
        quiet(at)
        return
    KZ.prove(want is not None, 'an impossible change of status is refused')
    m = read('/loc')
    for i in range(3):
        KZ.prove(m.GetVersion(i + 1).status == want[i], 'exactly the documented statuses change')
        KZ.same(KZ.file('/loc/' + str(i + 1)), ks[i], 'keys are kept')
    KZ.same(len(m.versions), 3, 'no version is added or removed')
    KZ.same(len(KZ.events('remove', 'rename', 'rmtree', since=at)), 0, 'no file is removed')
    within(at, '/loc')
''', must=('refused',)),
    Ctx('revoke', LIB + '''
def main():
    ks = hm(3)
    sts = [keyinfo.PRIMARY, keyinfo.ACTIVE, keyinfo.INACTIVE]
    put('/loc', keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, ks, sts)
    v = KZ.choice(1, 2, 3)
    at = KZ.mark()
    try:
        keyczart.main(['revoke'] + shuffled(['--location=/loc', '--version=%d' % v]))
    except errors.KeyczarError:
        KZ.prove(v != 3, 'a key scheduled for revocation is revoked')
        KZ.reach('refused')
        quiet(at)
        return
    KZ.same(v, 3, 'only keys scheduled for revocation are revoked')
    m = read('/loc')
    KZ.same(len(m.versions), 2, 'exactly that version is gone')
    for i in range(2):
        KZ.prove(m.GetVersion(i + 1).status == sts[i], 'the other versions keep their status')
        KZ.same(KZ.file('/loc/' + str(i + 1)), ks[i], 'the other keys are kept')
    KZ.same([e[1] for e in KZ.events('remove', since=at)], ['/loc/3'], 'exactly that key file is removed')
    within(at, '/loc')
''', must=('refused',)),
    Ctx('versions are required', LIB + '''
def main():
    P, A, I = keyinfo.PRIMARY, keyinfo.ACTIVE, keyinfo.INACTIVE
    put('/loc', keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hm(3), KZ.choice([P, A, I], [A, I, P], [I, P, A]))
    c = KZ.choice('promote', 'demote', 'revoke')
    args = KZ.choice((['--location=/loc'], ['--version=2'], ['--location=/loc', '--version=-1'], ['--location=/loc', '--version=9'],
                      ['--location=/loc', '--version=0'], ['--location=/loc', '--version=-3']))
    at = KZ.mark()
    try:
        keyczart.main([c] + args)
    except errors.KeyczarError:
        KZ.reach('refused')
        quiet(at)
        return
    KZ.fail('missing or unusable values are refused')
''', must=('refused',)),
    Ctx('any version number', LIB + '''
def main():
    P, A, I = keyinfo.PRIMARY, keyinfo.ACTIVE, keyinfo.INACTIVE
    put('/loc', keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hm(2), KZ.choice([P, I], [A, P], [I, A]))
    c = KZ.choice(keyczart.Promote, keyczart.Demote, keyczart.Revoke)
    v = KZ.sym('v', 'int')
    KZ.assume(v != 1)
    KZ.assume(v != 2)
    at = KZ.mark()
    try:
        c('/loc', v)
    except errors.KeyczarError:
        KZ.reach('refused')
        quiet(at)
        return
    KZ.fail('unknown versions are refused')
''', must=('refused',)),
    Ctx('pubkey', LIB + '''
def main():
    p = KZ.choice(keyinfo.SIGN_AND_VERIFY, keyinfo.DECRYPT_AND_ENCRYPT)
    t = KZ.choice(keyinfo.RSA_PRIV, keyinfo.DSA_PRIV)
    if p == keyinfo.DECRYPT_AND_ENCRYPT:
        KZ.assume(t == keyinfo.RSA_PRIV)
    k = keys.GenKey(t)
    put('/loc', p, t, [str(k)], [keyinfo.PRIMARY])
    KZ.putfile('/dest', '')
    KZ.putfile('/dest/meta', None)
    KZ.putfile('/dest/1', None)
    before = KZ.file('/loc/meta')
    at = KZ.mark()
    keyczart.main(['pubkey'] + shuffled(['--location=/loc', '--destination=/dest']))
    m = read('/dest')
    KZ.prove(m.purpose == (keyinfo.VERIFY if p == keyinfo.SIGN_AND_VERIFY else keyinfo.ENCRYPT), 'the exported set has the public purpose')
    KZ.prove(m.type == (keyinfo.RSA_PUB if t == keyinfo.RSA_PRIV else keyinfo.DSA_PUB), 'the exported set has the public type')
    KZ.same(KZ.file('/dest/1'), str(k.public_key), 'the public halves are written')
    KZ.same(KZ.file('/loc/meta'), before, 'the private set is untouched')
    within(at, '/dest')
''', flags={'freshkeys': True}),
    Ctx('pubkey refusals', LIB + '''
def main():
    put('/loc', keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hm(1), [keyinfo.PRIMARY])
    k = keys.GenKey(keyinfo.DSA_PRIV)
    put('/dsa', keyinfo.SIGN_AND_VERIFY, keyinfo.DSA_PRIV, [str(k)], [keyinfo.PRIMARY])
    KZ.putfile('/dest', '')
    args = KZ.choice((['--location=/loc', '--destination=/dest'], ['--location=/dsa'], ['--destination=/dest'], []))
    at = KZ.mark()
    try:
        keyczart.main(['pubkey'] + args)
    except errors.KeyczarError:
        KZ.reach('refused')
        quiet(at)
        return
    KZ.fail('missing or unusable values are refused')
''', must=('refused',), flags={'freshkeys': True}),
    Ctx('genkey', LIB + '''
def main():
    for d in ('/top', '/top/aes', '/top/aes-crypted', '/top/hmac', '/top/rsa', '/top/rsa-sign', '/top/dsa', '/top/dsa.public', '/top/rsa-sign.public', '/top/aes/sub'):
        KZ.putfile(d, '')
    for d in ('aes', 'aes-crypted', 'hmac', 'rsa', 'rsa-sign', 'dsa'):
        KZ.putfile('/top/' + d + '/meta', None)
        for f in ('1', '2', '1.out', '2.out'):
            KZ.putfile('/top/' + d + '/' + f, None)
    KZ.putfile('/top/hmac/stale', 'old')
    KZ.putfile('/top/aes/sub/file', 'other')
    for d in ('dsa.public', 'rsa-sign.public'):
        for f in ('meta', '1', '2'):
            KZ.putfile('/top/' + d + '/' + f, None)
    at = KZ.mark()
    keyczart.main(['genkey', '--location=/top'])
    within(at, '/top')
    want = {'aes': (keyinfo.AES, keyinfo.DECRYPT_AND_ENCRYPT), 'aes-crypted': (keyinfo.AES, keyinfo.DECRYPT_AND_ENCRYPT),
            'hmac': (keyinfo.HMAC_SHA1, keyinfo.SIGN_AND_VERIFY), 'rsa': (keyinfo.RSA_PRIV, keyinfo.DECRYPT_AND_ENCRYPT),
            'rsa-sign': (keyinfo.RSA_PRIV, keyinfo.SIGN_AND_VERIFY), 'dsa': (keyinfo.DSA_PRIV, keyinfo.SIGN_AND_VERIFY),
            'dsa.public': (keyinfo.DSA_PUB, keyinfo.VERIFY), 'rsa-sign.public': (keyinfo.RSA_PUB, keyinfo.VERIFY)}
    for d in want:
        m = read('/top/' + d)
        KZ.prove(m.type == want[d][0], 'genkey makes key sets of the documented types')
        KZ.prove(m.purpose == want[d][1], 'genkey makes key sets of the documented purposes')
        KZ.same(len(m.versions), 2, 'each set has two versions')
        KZ.prove(m.GetVersion(2).status == keyinfo.PRIMARY, 'the second is primary')
        KZ.prove(m.GetVersion(1).status == keyinfo.ACTIVE, 'the first is active')
        KZ.same(m.encrypted, d == 'aes-crypted', 'the crypted set is encrypted and no other')
    KZ.same(KZ.file('/top/aes/sub/file'), 'other', 'what is not of the key set is left alone')
    KZ.same(KZ.file('/top/hmac/stale'), None, 'stale files are cleaned')
    KZ.same([e[1] for e in KZ.events('remove', since=at)], ['/top/hmac/stale'], 'nothing else is removed')
    KZ.same(K.Crypter.Read('/top/aes').Decrypt(KZ.file('/top/aes/1.out')), 'This is some test data', 'recorded output is usable')
    KZ.same(K.Crypter.Read('/top/aes').Decrypt(KZ.file('/top/aes/2.out')), 'This is some test data', 'recorded output is usable')
    KZ.prove(K.Verifier.Read('/top/hmac').Verify('This is some test data', KZ.file('/top/hmac/1.out')), 'recorded output is usable')
    KZ.prove(K.Verifier.Read('/top/dsa.public').Verify('This is some test data', KZ.file('/top/dsa/2.out')), 'recorded output is usable')
''', flags={'freshkeys': True}),
    Ctx('many flags at once', LIB + '''
def turned(args):
    i = KZ.choice(tuple(range(len(args))))
    return args[i:] + args[:i]
def main():
    c = KZ.choice('create', 'addkey', 'promote')
    put('/crypt', keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, [str(aeskey('c'))], [keyinfo.PRIMARY], 'c')
    at = KZ.mark()
    if c == 'create':
        KZ.putfile('/loc', '')
        KZ.putfile('/loc/meta', None)
        name = KZ.choice('', 'A name', '--x', 'Test', 'n\\u00e9')
        keyczart.main(['create'] + turned(['--location=/loc', '--purpose=sign', '--asymmetric=dsa', '--name=' + name, '--size=1024', '--version=3']))
        m = read('/loc')
        KZ.same(m.name, name, 'create uses the given name')
        KZ.prove(m.type == keyinfo.DSA_PRIV and m.purpose == keyinfo.SIGN_AND_VERIFY, 'create uses the given purpose and algorithm')
        KZ.same(len(m.versions), 0, 'a new key set is empty')
    elif c == 'addkey':
        size = KZ.choice(128, 192, 256)
        st = KZ.choice('primary', 'active', 'inactive')
        master = K.Crypter.Read('/crypt')
        n = KZ.choice(0, 1)
        k1 = str(aeskey('1'))
        put('/loc', keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, [master.Encrypt(k1)] * n, [keyinfo.PRIMARY] * n, 'n', n > 0)
        at = KZ.mark()
        keyczart.main(['addkey'] + turned(['--location=/loc', '--crypter=/crypt', '--size=%d' % size, '--status=' + st, '--name=x']))
        m = read('/loc')
        KZ.prove(m.encrypted, 'the key set is marked encrypted')
        KZ.same(m.name, 'n', 'the name is kept')
        KZ.same(len(m.versions), n + 1, 'addkey adds exactly one version')
        KZ.same(str(m.GetVersion(n + 1).status), st.upper(), 'the new version has the given status')
        k = keys.ReadKey(keyinfo.AES, master.Decrypt(KZ.file('/loc/%d' % (n + 1))))
        KZ.same(k.size, size, 'the new key has the given size')
        KZ.same(len(k.key_bytes) * 8, size, 'the new key has the given size')
        if n:
            KZ.same(master.Decrypt(KZ.file('/loc/1')), k1, 'the other keys are kept')
            KZ.prove((m.GetVersion(1).status == keyinfo.PRIMARY) == (st != 'primary'), 'a new primary key replaces the former')
    else:
        put('/loc', keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hm(2), [keyinfo.PRIMARY, keyinfo.ACTIVE])
        at = KZ.mark()
        keyczart.main(['promote'] + turned(['--name=z', '--size=128', '--status=active', '--purpose=crypt', '--version=2', '--location=/loc']))
        m = read('/loc')
        KZ.prove(m.GetVersion(2).status == keyinfo.PRIMARY and m.GetVersion(1).status == keyinfo.ACTIVE, 'the given version is promoted')
    within(at, '/loc')
    KZ.reach(c)
''', flags={'freshkeys': True}, must=('create', 'addkey', 'promote')),
    Ctx('sizes of other versions do not matter', LIB + '''
def main():
    ks = [str(aeskey('1', KZ.choice(24, 32))), str(aeskey('2', 16))][:KZ.choice(1, 2)]
    put('/loc', keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.AES, ks, [keyinfo.PRIMARY, keyinfo.ACTIVE][:len(ks)])
    size = KZ.choice(None, 128, 192, 256)
    args = ['addkey', '--location=/loc', '--status=' + KZ.choice('primary', 'active')]
    if size is not None:
        args.append('--size=%d' % size)
    keyczart.main(args)
    n = len(ks) + 1
    k = keys.ReadKey(keyinfo.AES, KZ.file('/loc/%d' % n))
    KZ.same(len(k.key_bytes) * 8, 128 if size is None else size, 'the new key has the given size, or the default size')
    KZ.same(k.size, 128 if size is None else size, 'the size is recorded')
''', flags={'freshkeys': True}),
    Ctx('one command after another', LIB + '''
def main():
    put('/loc', keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hm(2), [keyinfo.PRIMARY, keyinfo.ACTIVE])
    put('/other', keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hm(2), [keyinfo.PRIMARY, keyinfo.ACTIVE])
    keyczart.main(['addkey', '--location=/other', '--status=primary', '--size=256'])
    try:
        keyczart.main(['demote', '--location=/other', '--version=2'])
    except errors.KeyczarError:
        KZ.fail('demoting an active version works')
    at = KZ.mark()
    how = KZ.choice('addkey', 'promote', 'demote', 'no location', 'create')
    if how == 'addkey':
        keyczart.main(['addkey', '--location=/loc'])
        KZ.same([(v.version_number, str(v.status)) for v in sorted(read('/loc').versions, key=lambda v: v.version_number)],
                [(1, 'PRIMARY'), (2, 'ACTIVE'), (3, 'ACTIVE')], 'an added version is active unless another status is given')
        within(at, '/loc')
    elif how in ('promote', 'demote'):
        try:
            keyczart.main([how, '--location=/loc'])
            KZ.fail('a version has to be given')
        except errors.KeyczarError:
            quiet(at)
    elif how == 'create':
        KZ.putfile('/new', '')
        KZ.putfile('/new/meta', None)
        keyczart.main(['create', '--location=/new', '--purpose=crypt'])
        m = read('/new')
        KZ.same((m.name, str(m.type)), ('Test', 'AES'), 'create uses its own flags')
        within(at, '/new')
    else:
        try:
            keyczart.main(['promote', '--version=2'])
            KZ.fail('a location has to be given')
        except errors.KeyczarError:
            quiet(at)
''', flags={'freshkeys': True}),
])
