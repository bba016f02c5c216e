from ..check import prop, Ctx

prop('C12', [
    Ctx('metadata', '''
import json
def main():
    name = KZ.sym('name', 'str')
    p = KZ.choice(keyinfo.DECRYPT_AND_ENCRYPT, keyinfo.ENCRYPT, keyinfo.SIGN_AND_VERIFY, keyinfo.VERIFY)
    t = KZ.choice(keyinfo.AES, keyinfo.HMAC_SHA1, keyinfo.RSA_PRIV, keyinfo.RSA_PUB, keyinfo.DSA_PRIV, keyinfo.DSA_PUB)
    enc = KZ.flip()
    m = keydata.KeyMetadata(name, p, t, enc)
    n = KZ.choice(0, 1, 2)
    want = {}
    for i in range(n):
        num = KZ.sym('v%d' % i, 'int')
        s = KZ.choice(keyinfo.PRIMARY, keyinfo.ACTIVE, keyinfo.INACTIVE)
        e = (i == 0) if enc else (i == 1)
        if i == 1:
            KZ.assume(KZ.sym('v0', 'int') != num)
        m.AddVersion(keydata.KeyVersion(num, s, e))
        want[num] = (s, e)
    r = keydata.KeyMetadata.Read(str(m))
    KZ.same(r.name, name, 'name survives storage')
    KZ.prove(r.purpose == p, 'purpose survives storage')
    KZ.prove(r.type == t and str(r.type) == str(t), 'type survives storage')
    KZ.same(r.encrypted, enc, 'encrypted flag survives storage')
    KZ.same(len(r.versions), n, 'every version survives storage')
    for num in want:
        v = r.GetVersion(num)
        KZ.same(v.version_number, num, 'version number survives storage')
        KZ.prove(v.status == want[num][0], 'version status survives storage')
        KZ.same(v.exportable, want[num][1], 'exportable flag survives storage')
    KZ.same(str(r), str(m), 'storing again gives the same text')
    j = json.loads(str(m))
    ks = list(j.keys())
    ks.sort()
    KZ.same(ks, ['encrypted', 'name', 'purpose', 'type', 'versions'], 'metadata has the documented fields')
    for v in j['versions']:
        vs = list(v.keys())
        vs.sort()
        KZ.same(vs, ['exportable', 'status', 'versionNumber'], 'version entries have the documented fields')
'''),
    Ctx('symmetric keys', '''
def main():
    n = KZ.choice(16, 24, 32)
    if KZ.flip():
        k = aeskey('1', n)
        r = KZ.choice(keys.AesKey.Read(str(k)), keys.ReadKey(keyinfo.AES, str(k)))
        KZ.same(r.key_bytes, k.key_bytes, 'cipher key survives storage')
        KZ.same(r.hmac_key.key_bytes, k.hmac_key.key_bytes, 'MAC key survives storage')
        KZ.same(r.size, n * 8, 'size survives storage')
    else:
        k = hmackey('1')
        r = KZ.choice(keys.HmacKey.Read(str(k)), keys.ReadKey(keyinfo.HMAC_SHA1, str(k)))
        KZ.same(r.key_bytes, k.key_bytes, 'MAC key survives storage')
        KZ.same(r.size, 256, 'size survives storage')
    KZ.prove(r == k, 'the stored key equals the original')
    KZ.same(r.hash_id, k.hash_id, 'identifier survives storage')
    KZ.same(str(r), str(k), 'storing again gives the same text')
'''),
    Ctx('generated keys', '''
def main():
    t = KZ.choice(keyinfo.AES, keyinfo.HMAC_SHA1, keyinfo.RSA_PRIV, keyinfo.DSA_PRIV)
    size = KZ.choice(tuple(t.sizes))
    k = keys.GenKey(t, size)
    r = keys.ReadKey(t, str(k))
    KZ.same(str(r), str(k), 'a generated key survives storage')
    KZ.same(r.hash_id, k.hash_id, 'identifier survives storage')
    KZ.same(r.size, size, 'size survives storage')
    KZ.prove(r.type == t, 'type survives storage')
    m = KZ.string('m', 5)
    if t == keyinfo.RSA_PRIV or t == keyinfo.DSA_PRIV:
        pt = keyinfo.RSA_PUB if t == keyinfo.RSA_PRIV else keyinfo.DSA_PUB
        pub = keys.ReadKey(pt, str(k.public_key))
        KZ.same(str(pub), str(k.public_key), 'a public key survives storage')
        KZ.same(pub.hash_id, k.hash_id, 'public and private key share their identifier')
        KZ.same(pub.size, size, 'size survives storage')
        KZ.prove(pub.Verify(m, r.Sign(m)), 'stored private key signs for the stored public key')
        KZ.prove(k.Verify(m, r.Sign(m)), 'stored private key signs like the original')
        KZ.prove(r.Verify(m, k.Sign(m)), 'stored private key verifies like the original')
    if t == keyinfo.RSA_PRIV and size > 512:
        try:
            KZ.same(r.Decrypt(pub.Encrypt(m)), m, 'stored private key decrypts for the stored public key')
        except errors.KeyczarError:
            KZ.prove(KZ.decided(False) is False, 'unreachable')
''', quiet_exc=True),
    Ctx('whole key sets', '''
def main():
    n = KZ.choice(0, 1, 2, 3)
    st = anystatuses(n)
    if n > 1:
        KZ.distinct(*[hmackey(str(i + 1)).hash_id for i in range(n)])
    t, p, mkk = KZ.choice((keyinfo.HMAC_SHA1, keyinfo.SIGN_AND_VERIFY, hmackey), (keyinfo.AES, keyinfo.DECRYPT_AND_ENCRYPT, aeskey))
    if n > 1:
        KZ.distinct(*[mkk(str(i + 1)).hash_id for i in range(n)])
    czar = K.GenericKeyczar(keyset(p, t, mkk, st))
    via = KZ.choice('memory', 'file', 'path')
    if via == 'memory':
        w = MemWriter()
        czar.Write(w)
        z = K.GenericKeyczar(MemReader(w.meta, w.versions))
    else:
        KZ.putfile('/loc', '')
        czar.Write(writers.CreateWriter('/loc') if via == 'file' else '/loc')
        z = K.GenericKeyczar.Read('/loc')
    KZ.same(str(z.metadata), str(czar.metadata), 'metadata survives writing and reading')
    KZ.same(len(z.versions), n, 'every key survives writing and reading')
    for i in range(n):
        KZ.same(str(z.GetKey(z.metadata.GetVersion(i + 1))), str(mkk(str(i + 1))), 'each version keeps its own key')
'''),
    Ctx('PKCS#8 and X.509 parameters', '''
def main():
    w = KZ.choice('rsa8', 'dsa8', 'rsa509', 'dsa509')
    if w == 'rsa8':
        ps = ['n', 'e', 'd', 'p', 'q', 'dp', 'dq', 'invq']
    elif w == 'dsa8':
        ps = ['p', 'q', 'g', 'x']
    elif w == 'rsa509':
        ps = ['n', 'e']
    else:
        ps = ['p', 'q', 'g', 'y']
    d = {}
    for x in ps:
        d[x] = KZ.sym('par_' + x, 'pos')
    if w == 'rsa8':
        r = util.ParsePkcs8(util.ExportRsaPkcs8(d))
    elif w == 'dsa8':
        r = util.ParsePkcs8(util.ExportDsaPkcs8(d))
    elif w == 'rsa509':
        r = util.ParseX509(util.ExportRsaX509(d))
    else:
        r = util.ParseX509(util.ExportDsaX509(d))
    KZ.same(r, d, 'parameters survive ' + w)
'''),
    Ctx('metadata that lacks a field or names something unknown', '''
import json
def main():
    m = metadata(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, [keyinfo.PRIMARY, keyinfo.ACTIVE])
    j = json.loads(str(m))
    w = KZ.choice('name', 'purpose', 'type', 'encrypted', 'versions', 'versionNumber', 'status', 'exportable', 'not json')
    if w in ('purpose', 'type', 'status') and KZ.flip():
        x = KZ.choice('', 'NONE', KZ.sym('x', 'str'))
        tab = {'purpose': keyinfo.purposes, 'type': keyinfo.types, 'status': keyinfo.statuses}[w]
        if x not in ('', 'NONE'):
            for n in ('DECRYPT_AND_ENCRYPT', 'ENCRYPT', 'SIGN_AND_VERIFY', 'VERIFY', 'AES', 'HMAC_SHA1', 'RSA_PRIV', 'RSA_PUB',
                      'DSA_PRIV', 'DSA_PUB', 'PRIMARY', 'ACTIVE', 'INACTIVE'):
                KZ.assume(x != n)
        if w == 'status':
            j['versions'][KZ.choice(0, 1)]['status'] = x
        else:
            j[w] = x
        try:
            keydata.KeyMetadata.Read(json.dumps(j))
        except errors.KeyczarError:
            KZ.reach('unknown names are refused')
            return
        KZ.fail('metadata that names an unknown %s is refused' % w)
        return
    if w in ('versionNumber', 'status', 'exportable'):
        del j['versions'][KZ.choice(0, 1)][w]
    elif w != 'not json':
        del j[w]
    try:
        keydata.KeyMetadata.Read('' if w == 'not json' else json.dumps(j))
    except Exception:
        KZ.reach('missing fields are refused')
        return
    KZ.fail('metadata that lacks %s is refused' % w)
''', must=('unknown names are refused', 'missing fields are refused')),
    Ctx('keys that lack a field', '''
import json
def main():
    t = KZ.choice(keyinfo.AES, keyinfo.HMAC_SHA1, keyinfo.RSA_PRIV, keyinfo.RSA_PUB, keyinfo.DSA_PRIV, keyinfo.DSA_PUB)
    if t == keyinfo.RSA_PUB or t == keyinfo.DSA_PUB:
        k = keys.GenKey(keyinfo.RSA_PRIV if t == keyinfo.RSA_PUB else keyinfo.DSA_PRIV).public_key
    else:
        k = keys.GenKey(t)
    j = json.loads(str(k))
    inner = KZ.choice(None, 'hmacKey', 'publicKey')
    KZ.assume(inner is None or inner in j)
    d = j if inner is None else j[inner]
    f = KZ.choice(tuple(sorted(d.keys())))
    del d[f]
    try:
        r = keys.ReadKey(t, json.dumps(j))
    except Exception:
        KZ.reach('missing fields are refused')
        return
    KZ.fail('a key of type %s that lacks %s is refused' % (t.name, f))
''', must=('missing fields are refused',)),
    Ctx('AES keys of an unknown mode', '''
import json
def main():
    j = json.loads(str(aeskey('1')))
    j['mode'] = KZ.choice('', 'XTS', 'cbc')
    try:
        keys.ReadKey(keyinfo.AES, json.dumps(j))
    except errors.KeyczarError:
        KZ.reach('refused')
        return
    KZ.fail('a key of an unknown mode is refused')
''', must=('refused',)),
    Ctx('many versions', '''
def big(mk, n, primary):
    ks = [mk(str(i + 1)) for i in range(n)]
    KZ.distinct(*[k.hash_id for k in ks])
    st = []
    for i in range(n):
        st.append(keyinfo.PRIMARY if i == primary else (keyinfo.ACTIVE, keyinfo.INACTIVE)[i % 2])
    return ks, st
def main():
    n = 12
    ks, st = big(hmackey, n, KZ.choice(-1, 0, 11))
    m = keydata.KeyMetadata('n', keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1)
    nums = [1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 233]
    for i in range(n):
        m.AddVersion(keydata.KeyVersion(nums[i], st[i], i % 3 == 0))
    r = keydata.KeyMetadata.Read(str(m))
    KZ.same(len(r.versions), n, 'every version reads back')
    for i in range(n):
        v = r.GetVersion(nums[i])
        KZ.prove(v.status == st[i], 'status reads back')
        KZ.same(v.version_number, nums[i], 'number reads back')
        KZ.prove(v.exportable == (i % 3 == 0), 'exportable flag reads back')
    b = keydata.KeyMetadata('n' * 300, keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1)
    for i in range(300):
        b.AddVersion(keydata.KeyVersion(i + 1, (keyinfo.ACTIVE, keyinfo.INACTIVE)[i % 2], False))
    r = keydata.KeyMetadata.Read(str(b))
    KZ.same(len(r.versions), 300, 'every version reads back')
    KZ.same(r.name, 'n' * 300, 'name survives storage')
    KZ.putfile('/loc', '')
    czar = K.GenericKeyczar(MemReader(str(m), dict([(nums[i], str(ks[i])) for i in range(n)])))
    czar.Write(writers.CreateWriter('/loc'))
    z = K.GenericKeyczar.Read('/loc')
    KZ.same(len(z.versions), n, 'every key of a large set reads back')
    for i in range(n):
        KZ.same(z.GetKey(z.metadata.GetVersion(nums[i])).key_bytes, ks[i].key_bytes, 'every key of a large set reads back')
'''),
    Ctx('what was written last is read', '''
def main():
    KZ.distinct(hmackey('1').hash_id, hmackey('2').hash_id)
    a = K.GenericKeyczar(keyset(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, hmackey, [keyinfo.PRIMARY, keyinfo.ACTIVE]))
    KZ.distinct(hmackey('z1').hash_id, hmackey('z2').hash_id)
    b = K.GenericKeyczar(keyset(keyinfo.SIGN_AND_VERIFY, keyinfo.HMAC_SHA1, lambda t: hmackey('z' + t), [keyinfo.ACTIVE, keyinfo.PRIMARY]))
    KZ.putfile('/loc', '')
    again = KZ.flip()
    for x in KZ.choice((a, b, a), (a, a, b), (a, b, b)):
        x.Write(writers.CreateWriter('/loc'))
        if again:
            x.Write(writers.CreateWriter('/loc'))
        z = K.GenericKeyczar.Read('/loc')
        KZ.same(str(z.metadata), str(x.metadata), 'metadata survives writing and reading')
        for n in (1, 2):
            KZ.same(str(z.GetKey(z.metadata.GetVersion(n))), str(x.GetKey(x.metadata.GetVersion(n))), 'each version keeps its own key')
        r = readers.CreateReader('/loc')
        KZ.same(str(r.GetMetadata()), KZ.file('/loc/meta'), 'the reader gives what is stored')
        KZ.same(str(r.GetKey(2)), KZ.file('/loc/2'), 'the reader gives what is stored')
    x.Promote(1 if x is b else 2)
    x.Write(writers.CreateWriter('/loc'))
    KZ.same(str(keydata.KeyMetadata.Read(r.GetMetadata())), str(x.metadata), 'an open reader gives what is stored now')
'''),
])
