from ..check import prop, Ctx

LIB = '''
class Gen(object):
    """stands in for key generation: distinct keys"""
def wellformed(czar, model, tag):
    """compare a key set with the reference state machine"""
    got = {}
    prim = 0
    for v in czar.metadata.versions:
        got[v.version_number] = str(v.status)
        if v.status == keyinfo.PRIMARY:
            prim += 1
    KZ.same(got, model, 'statuses follow the documented transitions ' + tag)
    KZ.prove(prim <= 1, 'at most one primary key ' + tag)
    if prim:
        KZ.prove(czar.primary_version is not None and czar.primary_version.status == keyinfo.PRIMARY
                 and czar.metadata.GetVersion(czar.primary_version.version_number) is czar.primary_version,
                 'the primary version is the one marked primary ' + tag)
    else:
        KZ.prove(czar.primary_version is None, 'no primary version without a primary key ' + tag)
    KZ.same(len(czar.versions), len(model), 'every version of the metadata has its key ' + tag)
    for v in czar.versions:
        KZ.prove(v.version_number in model, 'no stray keys ' + tag)

def step(czar, model, i, nums=(1, 2, 3)):
    """apply one arbitrary operation; both must agree"""
    op = KZ.choice('add-primary', 'add-active', 'add-inactive', 'promote', 'demote', 'revoke')
    prim = None
    for n in model:
        if model[n] == 'PRIMARY':
            prim = n
    if op[:4] == 'add-':
        top = 0
        for n in model:
            if n > top:
                top = n
        if op == 'add-primary':
            czar.AddVersion(keyinfo.PRIMARY)
            if prim is not None:
                model[prim] = 'ACTIVE'
            model[top + 1] = 'PRIMARY'
        elif op == 'add-active':
            czar.AddVersion(keyinfo.ACTIVE)
            model[top + 1] = 'ACTIVE'
        else:
            czar.AddVersion(keyinfo.INACTIVE)
            model[top + 1] = 'INACTIVE'
        return op
    num = KZ.choice(nums)
    try:
        if op == 'promote':
            czar.Promote(num)
        elif op == 'demote':
            czar.Demote(num)
        else:
            czar.Revoke(num)
        done = True
    except errors.KeyczarError:
        done = False
    s = model.get(num)
    if op == 'promote':
        want = s in ('ACTIVE', 'INACTIVE')
    elif op == 'demote':
        want = s in ('ACTIVE', 'PRIMARY')
    else:
        want = s == 'INACTIVE'
    KZ.same(done, want, op + ' succeeds exactly in the documented states')
    if want:
        if op == 'promote':
            if s == 'ACTIVE':
                if prim is not None:
                    model[prim] = 'ACTIVE'
                model[num] = 'PRIMARY'
            else:
                model[num] = 'ACTIVE'
        elif op == 'demote':
            model[num] = 'ACTIVE' if s == 'PRIMARY' else 'INACTIVE'
        else:
            model.pop(num)
    return op

def start(n):
    st = anystatuses(n)
    ks = [hmackey(str(i + 1)).hash_id for i in range(n)]
    if n > 1:
        KZ.distinct(*ks)
    czar = K.GenericKeyczar(keyset(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hmackey, st))
    model = {}
    for i in range(n):
        model[i + 1] = str(st[i])
    return czar, model
'''

prop('C09', [
    Ctx('one operation from every state', LIB + '''
def main():
    czar, model = start(KZ.choice(0, 1, 2, 3))
    wellformed(czar, model, 'after loading')
    op = step(czar, model, 0)
    wellformed(czar, model, 'after ' + op)
''', flags={'freshkeys': True}),
    Ctx('two operations', LIB + '''
def main():
    czar, model = start(KZ.choice(1, 2))
    step(czar, model, 0)
    op = step(czar, model, 1)
    wellformed(czar, model, 'after ' + op)
''', flags={'freshkeys': True}, limit=8000),
    Ctx('failing generation changes nothing', LIB + '''
def main():
    czar, model = start(KZ.choice(0, 1, 2))
    size = KZ.choice(1, 128, 257, 0)
    try:
        czar.AddVersion(KZ.choice(keyinfo.PRIMARY, keyinfo.ACTIVE, keyinfo.INACTIVE), size)
        KZ.fail('unsupported size must be refused')
    except errors.KeyczarError:
        wellformed(czar, model, 'after a refused addition')
''', flags={'freshkeys': True}),
    Ctx('public key sets cannot grow', LIB + '''
def main():
    t = KZ.choice(keyinfo.RSA_PUB, keyinfo.DSA_PUB)
    k = keys.GenKey(keyinfo.RSA_PRIV if t == keyinfo.RSA_PUB else keyinfo.DSA_PRIV)
    czar = K.GenericKeyczar(MemReader(str(metadata(keyinfo.VERIFY, t, [keyinfo.PRIMARY])), {1: str(k.public_key)}))
    try:
        czar.AddVersion(KZ.choice(keyinfo.PRIMARY, keyinfo.ACTIVE))
        KZ.fail('a public key set must not generate keys')
    except errors.KeyczarError:
        wellformed(czar, {1: 'PRIMARY'}, 'after a refused addition')
''', flags={'freshkeys': True}),
    Ctx('unknown versions of the metadata', LIB + '''
def main():
    m = keydata.KeyMetadata.Read(str(metadata(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, [keyinfo.PRIMARY, keyinfo.ACTIVE])))
    before = str(m)
    n = KZ.choice(0, 3, -1, 100)
    try:
        if KZ.flip():
            m.RemoveVersion(n)
        else:
            m.GetVersion(n)
        KZ.fail('an unknown version must be refused')
    except errors.KeyczarError:
        KZ.same(str(m), before, 'a refused operation changes nothing')
    m.RemoveVersion(1)
    KZ.same([v.version_number for v in m.versions], [2], 'removing a version removes that one')
'''),
    Ctx('a number is given once', LIB + '''
def main():
    m = keydata.KeyMetadata.Read(str(metadata(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, [keyinfo.PRIMARY, keyinfo.ACTIVE])))
    before = str(m)
    n = KZ.choice(1, 2, 3, 10)
    ok = m.AddVersion(keydata.KeyVersion(n, KZ.choice(keyinfo.ACTIVE, keyinfo.INACTIVE), KZ.flip()))
    if n <= 2:
        KZ.prove(not ok, 'a taken number is refused')
        KZ.same(str(m), before, 'a refused operation changes nothing')
    else:
        KZ.prove(ok, 'a free number is accepted')
        KZ.same(sorted([v.version_number for v in m.versions]), [1, 2, n], 'the version is added')
'''),
    Ctx('version numbers with gaps', LIB + '''
def main():
    m = keydata.KeyMetadata('n', keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1)
    a, b = KZ.choice((2, 7), (7, 2), (3, 1), (1, 10))
    m.AddVersion(keydata.KeyVersion(a, keyinfo.ACTIVE, False))
    m.AddVersion(keydata.KeyVersion(b, keyinfo.PRIMARY, False))
    KZ.distinct(hmackey('1').hash_id, hmackey('2').hash_id)
    czar = K.GenericKeyczar(MemReader(str(m), {a: str(hmackey('1')), b: str(hmackey('2'))}))
    czar.AddVersion(keyinfo.ACTIVE)
    nums = [v.version_number for v in czar.metadata.versions]
    nums.sort()
    top = a if a > b else b
    want = [a, b, top + 1]
    want.sort()
    KZ.same(nums, want, 'a new version gets the number after the highest one')
''', flags={'freshkeys': True}),
    Ctx('identifier collisions are redrawn', LIB + '''
def main():
    czar, model = start(1)
    old = hmackey('1').hash_id
    czar.AddVersion(keyinfo.ACTIVE)
    new = czar.GetKey(czar.metadata.GetVersion(2))
    KZ.prove(new.hash_id != old, 'no two keys of a set share an identifier')
''', limit=40),
    Ctx('long histories', LIB + '''
def main():
    czar, model = start(KZ.choice(1, 2))
    for i in range(3):
        op = step(czar, model, i)
    wellformed(czar, model, 'after ' + op)
''', flags={'freshkeys': True}, thorough=True, limit=20000),
    Ctx('a step in a larger set', LIB + '''
def main():
    n = KZ.choice(4, 6, 11)
    prim = KZ.choice(1, n, n - 1, None)
    st = [keyinfo.PRIMARY if i + 1 == prim else (keyinfo.ACTIVE, keyinfo.INACTIVE)[i % 2] for i in range(n)]
    KZ.distinct(*[hmackey(str(i + 1)).hash_id for i in range(n)])
    czar = K.GenericKeyczar(keyset(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hmackey, st, KZ.flip()))
    model = {}
    for i in range(n):
        model[i + 1] = str(st[i])
    wellformed(czar, model, 'after loading')
    op = step(czar, model, 0, (1, 2, n - 1, n))
    wellformed(czar, model, 'after ' + op)
''', flags={'freshkeys': True}),
    Ctx('identifier collisions are redrawn in larger sets', LIB + '''
def main():
    n = KZ.choice(3, 5)
    ks = [hmackey(str(i + 1)) for i in range(n)]
    KZ.distinct(*[k.hash_id for k in ks])
    czar = K.GenericKeyczar(keyset(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hmackey, [keyinfo.PRIMARY] + [keyinfo.ACTIVE] * (n - 1)))
    czar.AddVersion(keyinfo.ACTIVE)
    new = czar.GetKey(czar.metadata.GetVersion(n + 1))
    for k in ks:
        KZ.prove(new.hash_id != k.hash_id, 'no two keys of a set share an identifier')
''', limit=60),
])
