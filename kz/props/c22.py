import json, os
from ..check import prop, Ctx
from .. import model

LIB = '''
import KZ, json, interop

# names and values that contain one another
IMPL = {'ia': ['run-a', '-x'], 'iab': ['run-b']}
ALG = {'cs': {'purpose': 'crypt', 'asymmetric': False, 'keySizes': [128, 1280], 'createFlags': ['--purpose=crypt'], 'addKeyFlags': []},
       'ca': {'purpose': 'crypt', 'asymmetric': True, 'keySizes': [1024], 'createFlags': ['--purpose=crypt', '--asymmetric=rsa'], 'addKeyFlags': ['--extra=1']},
       'ss': {'purpose': 'sign', 'asymmetric': False, 'keySizes': [256], 'createFlags': ['--purpose=sign'], 'addKeyFlags': []},
       'sa': {'purpose': 'sign', 'asymmetric': True, 'keySizes': [1024, 2048], 'createFlags': ['--purpose=sign', '--asymmetric=rsa'], 'addKeyFlags': []}}
OPS = {'enc': {'keytype': 'crypt', 'generateOptions': {'encoding': ['e', 'ee']}, 'testOptions': {}},
       'senc': {'keytype': 'crypt', 'generateOptions': {'signer': 'ALL_SIGNING_KEYS'}, 'testOptions': {}},
       'sgn': {'keytype': 'sign', 'generateOptions': {}, 'testOptions': {'how': ['x', 'y']}}}
KSO = {'sign': {'generateOptions': {'ck': ['', 'aes128']}, 'testOptions': {'class': ['v', 's'], 'pub': ['']}},
       'verify': {'generateOptions': {}, 'testOptions': {'class': ['v'], 'pub': ['public']}},
       'crypt': {'generateOptions': {'class': ['crypter'], 'pub': ['']}, 'testOptions': {}},
       'encrypt': {'generateOptions': {'class': ['encrypter'], 'pub': ['public']}, 'testOptions': {}}}

class Quiet(object):
    def __init__(self):
        self.out = []
        self.collected = []
    def Output(self, s):
        self.out.append(s)
    def Debug(self, s):
        pass
    def Collect(self, m, d):
        self.collected.append(m)
    def OutputCollection(self):
        pass

def config(ignored, impl=IMPL, alg=ALG, ops=OPS, kso=KSO):
    KZ.putfile('config/interopAlgorithms.json', json.dumps(alg))
    KZ.putfile('config/ignoredTests.json', json.dumps(ignored))
    KZ.putfile('config/operations.json', json.dumps(ops))
    KZ.putfile('config/implementations.json', json.dumps(impl))
    KZ.putfile('config/keySetOptions.json', json.dumps(kso))

def runner(ignored, impl=IMPL, alg=ALG, ops=OPS, kso=KSO):
    config(ignored, impl, alg, ops, kso)
    return interop.InteropTestRunner(Quiet())

# ---- the documented enumeration, computed independently
def signing(alg):
    return [a + str(s) for a in alg if alg[a]['purpose'] == 'sign' for s in alg[a]['keySizes']]
def product(d, alg):
    out = [{}]
    for k in d:
        vs = signing(alg) if d[k] == 'ALL_SIGNING_KEYS' else d[k]
        nxt = []
        for o in out:
            for v in vs:
                n = dict(o)
                n[k] = v
                nxt.append(n)
        out = nxt
    return out
def merged(a, b):
    r = dict(a)
    r.update(b)
    return r
def ignored_by(rule, impl, op, alg, opts):
    for name, v in (('implementation', impl), ('operation', op), ('algorithm', alg)):
        if v not in rule[name] and '*' not in rule[name]:
            return False
    for k in rule['options']:
        if k != '*':
            if k not in opts or opts[k] not in rule['options'][k]:
                return False
    return True
def skipped(rules, impl, op, alg, opts):
    return len([r for r in rules if ignored_by(r, impl, op, alg, opts)]) > 0
def generated(rules, alg=ALG, ops=OPS, kso=KSO, impls=IMPL):
    out = []
    for impl in impls:
        for op in ops:
            for a in alg:
                if alg[a]['purpose'] != ops[op]['keytype']:
                    continue
                ps = [alg[a]['purpose']]
                if alg[a]['purpose'] == 'crypt' and alg[a]['asymmetric']:
                    ps.append('encrypt')
                for size in alg[a]['keySizes']:
                    for p in ps:
                        for o in product(merged(kso[p]['generateOptions'], ops[op]['generateOptions']), alg):
                            if not skipped(rules, impl, op, a + str(size), o):
                                out.append((impl, op, a, size, p, o))
    return out
def tested(rules, g, alg=ALG, ops=OPS, kso=KSO, impls=IMPL):
    out = []
    impl, op, a, size, p, o = g
    ps = ['crypt'] if p == 'encrypt' else [p]
    if p == 'sign' and alg[a]['asymmetric']:
        ps.append('verify')
    for ti in impls:
        for q in ps:
            for to in product(merged(kso[q]['testOptions'], ops[op]['testOptions']), alg):
                if not skipped(rules, ti, op, a + str(size), merged(to, o)):
                    out.append((ti, to))
    return out
def canon(d):
    return ','.join([k + '=' + d[k] for k in sorted(list(d.keys()))])
def key(*parts):
    return '|'.join(parts)

RULES = (
  [],
  [{'implementation': ['ia'], 'operation': ['*'], 'algorithm': ['*'], 'options': {'*': '*'}, 'reason': 'r'}],
  [{'implementation': ['*'], 'operation': ['senc'], 'algorithm': ['ca1024', 'cs128'], 'options': {'*': '*'}, 'reason': 'r'}],
  [{'implementation': ['iab'], 'operation': ['enc', 'sgn'], 'algorithm': ['*'], 'options': {'encoding': ['e']}, 'reason': 'r'}],
  [{'implementation': ['*'], 'operation': ['*'], 'algorithm': ['*'], 'options': {'ck': ['aes128'], 'pub': ['public']}, 'reason': 'r'}],
  [{'implementation': ['ia'], 'operation': ['sgn'], 'algorithm': ['ss256'], 'options': {'*': '*'}, 'reason': 'r'},
   {'implementation': ['iab'], 'operation': ['*'], 'algorithm': ['sa2048'], 'options': {'class': ['s'], 'how': ['x', 'y']}, 'reason': 'r'}],
  [{'implementation': ['ia'], 'operation': ['*'], 'algorithm': ['*'], 'options': {'nosuch': ['1']}, 'reason': 'r'}],
  [{'implementation': ['ia', 'iab'], 'operation': ['*'], 'algorithm': ['*'], 'options': {}, 'reason': 'r'}],
)
'''

SETUP = '''
def which(cmd, impls):
    for i in impls:
        if list(cmd) == impls[i]:
            return i
    KZ.fail('the command of an implementation is run')
def check(rules, IMPL, ALG, OPS, KSO):
    r = runner(rules, IMPL, ALG, OPS, KSO)
    at = KZ.mark()
    r.SetupInteropTests()
    want = generated(rules, ALG, OPS, KSO, IMPL)
    calls = KZ.events('spawn', since=at)
    KZ.same(len(calls), len(want), 'each combination that is not ignored is generated exactly once')
    rest = [key(g[0], g[1], g[2] + str(g[3]), canon(g[5])) for g in want]
    outs = {}
    for e in calls:
        d = json.loads(e[1][-1])
        impl = d['keyPath'][5:]
        KZ.same(list(e[1][:-1]), IMPL.get(impl), 'the command of the implementation is run with its key path')
        KZ.same(d['command'], 'generate', 'generation is asked for')
        KZ.same(d['testData'], interop.TESTDATA, 'the test data is handed over')
        k = key(impl, d['operation'], d['algorithm'], canon(d['generateOptions']))
        KZ.prove(k in rest, 'exactly the combinations that are not ignored are generated')
        rest.remove(k)
        outs[k] = e[2]
    n = 0
    names = []
    todo = []
    for g in want:
        for t in tested(rules, g, ALG, OPS, KSO, IMPL):
            n += 1
            todo.append(key(g[0], g[1], g[2] + str(g[3]), canon(g[5]), t[0], canon(t[1])))
    tests = [x for x in dir(r.InteropTest) if x[:5] == 'test_']
    KZ.same(len(tests), n, 'each combination that is not ignored is tested exactly once, under its own name')
    for x in tests:
        at = KZ.mark()
        getattr(r.InteropTest, x)(None)
        es = KZ.events('spawn', since=at)
        KZ.same(len(es), 1, 'a test calls one implementation once')
        d = json.loads(es[0][1][-1])
        KZ.same(d['command'], 'test', 'testing is asked for')
        KZ.same(d['testData'], interop.TESTDATA, 'the test data is handed over')
        gi = d['keyPath'][5:]
        ti = which(es[0][1][:-1], IMPL)
        k = key(gi, d['operation'], d['algorithm'], canon(d['generateOptions']))
        KZ.same(d['output'], json.loads(outs.get(k)), 'the output that belongs to the combination is handed over')
        q = key(k, ti, canon(d['testOptions']))
        KZ.prove(q in todo, 'exactly the combinations that are not ignored are tested')
        todo.remove(q)
        for part in (gi, ti, d['operation'], d['algorithm']):
            KZ.prove(part in x, 'the name of a test tells its combination')
'''

CREATE = '''
def main():
    global ALG
    for d in ('keys', 'keys/ia', 'keys/iab'):
        KZ.putfile(d, '')
    if KZ.flip():
        ALG = dict([(a, dict(ALG[a])) for a in ALG])
        for a in ALG:
            ALG[a]['keySizes'] = [512, 768, 1024, 2048, 4096] if ALG[a]['asymmetric'] else [128, 192, 256]
    all = 0
    for a in ALG:
        all += len(ALG[a]['keySizes'])
    r = runner([], IMPL, ALG)
    at = KZ.mark()
    r.CreateKeys()
    want = []
    for impl in IMPL:
        for a in ALG:
            for s in ALG[a]['keySizes']:
                n = a + str(s)
                loc = 'keys/' + impl + '/' + n
                c = ['create', '--name=' + n, '--location=' + loc] + ALG[a]['createFlags']
                k = ['addkey', '--status=primary', '--size=' + str(s), '--location=' + loc] + ALG[a]['addKeyFlags']
                cmds = [c, k, k]
                if ALG[a]['asymmetric']:
                    cmds = cmds + [['pubkey', '--destination=' + loc + 'public', '--location=' + loc]]
                want.append((impl, norm(cmds)))
                loc2 = loc + 'aes128'
                c = ['create', '--name=' + n, '--location=' + loc2] + ALG[a]['createFlags']
                k = ['addkey', '--status=primary', '--size=' + str(s), '--location=' + loc2, '--crypter=keys/' + impl + '/aes128'] + ALG[a]['addKeyFlags']
                want.append((impl, norm([c, k])))
    calls = KZ.events('spawn', since=at)
    KZ.same(len(calls), len(want), 'each key set is created exactly once')
    plain = []
    for e in calls:
        impl = 'ia' if list(e[1][:-1]) == IMPL['ia'] else 'iab'
        KZ.same(list(e[1][:-1]), IMPL[impl], 'the command of an implementation is run')
        d = json.loads(e[1][-1])
        KZ.same(d['command'], 'create', 'creation is asked for')
        q = (impl, norm(d['keyczartCommands']))
        KZ.prove(q in want, 'the documented commands create the key sets')
        want.remove(q)
        if q[1][1][-1][:9] != '--crypter' and len([f for f in d['keyczartCommands'][1] if f[:9] == '--crypter']) == 0:
            plain.append(1)
        else:
            KZ.same(len(plain), all * len(IMPL), 'plain key sets come before those encrypted with one of them')
    dirs = sorted([e[1] for e in KZ.events('makedirs', since=at)])
    exp = []
    for impl in IMPL:
        for a in ALG:
            for s in ALG[a]['keySizes']:
                loc = 'keys/' + impl + '/' + a + str(s)
                exp.append(loc)
                exp.append(loc + 'aes128')
                if ALG[a]['asymmetric']:
                    exp.append(loc + 'public')
    KZ.same(dirs, sorted(exp), 'exactly the directories of the key sets are made')
    KZ.same(len(KZ.events('remove', 'rmtree', 'rename', since=at)), 0, 'nothing is removed when the directories are new')
'''

def _real():
    """the committed configuration, as constants of the context"""
    out = ''
    for name, f in (('IMPL', 'implementations'), ('ALG', 'interopAlgorithms'), ('OPS', 'operations'),
                    ('KSO', 'keySetOptions'), ('RULE', 'ignoredTests')):
        try:
            v = json.load(open(os.path.join(model.REPO, 'interop/config', f + '.json')))
        except (OSError, ValueError):
            return None
        out += 'R%s = %r\n' % (name, v)
    return out

REAL = [] if _real() is None else [
    Ctx('the committed configuration', LIB + _real() + '''
def main():
    r = runner(RRULE, RIMPL, RALG, ROPS, RKSO)
    at = KZ.mark()
    r.SetupInteropTests()
    want = generated(RRULE, RALG, ROPS, RKSO, RIMPL)
    calls = KZ.events('spawn', since=at)
    KZ.same(len(calls), len(want), 'each combination that is not ignored is generated exactly once')
    n = 0
    for g in want:
        n += len(tested(RRULE, g, RALG, ROPS, RKSO, RIMPL))
    KZ.same(len([x for x in dir(r.InteropTest) if x[:5] == 'test_']), n, 'each combination that is not ignored is tested exactly once, under its own name')
''', prog='interop', seconds=600)]

if REAL:
    REAL.append(Ctx('what is handed over under the committed configuration', LIB + SETUP + _real() + """
def main():
    for a in RALG:
        RALG[a]['keySizes'] = RALG[a]['keySizes'][:1]
    check(RRULE, RIMPL, RALG, ROPS, RKSO)
""", prog='interop', seconds=600))

prop('C22', REAL + [
    Ctx('generation and tests', LIB + SETUP + """
def main():
    check(KZ.choice(RULES), IMPL, ALG, OPS, KSO)
""", prog='interop', seconds=300),
    Ctx('key creation', LIB + '''
def norm(cmds):
    return [[c[0]] + sorted(c[1:]) for c in cmds]
''' + CREATE, prog='interop', flags={'nodirs': True}),
    Ctx('key directories are emptied, nothing else', LIB + '''
def main():
    KZ.putfile('keys', '')
    KZ.putfile('keys/ia', '')
    KZ.putfile('keys/ia/cs128', '')
    KZ.putfile('keys/ia/cs128/meta', 'old')
    KZ.putfile('keys/ia/cs128/1', 'old')
    KZ.putfile('keys/ia/cs128/.old', 'old')
    KZ.putfile('keys/ia/cs128/1.out', 'old')
    KZ.putfile('keys/ia/cs128/sub', '')
    KZ.putfile('keys/ia/cs128/sub/keep', 'k')
    KZ.putfile('keys/ia/other', 'k')
    KZ.putfile('keys/other', 'k')
    KZ.putfile('other', 'k')
    r = runner([], {'ia': ['run-a']}, {'cs': {'purpose': 'crypt', 'asymmetric': False, 'keySizes': [128], 'createFlags': [], 'addKeyFlags': []}})
    at = KZ.mark()
    r.CreateKeys()
    KZ.same(sorted([e[1] for e in KZ.events('remove', since=at)]), ['keys/ia/cs128/.old', 'keys/ia/cs128/1', 'keys/ia/cs128/1.out', 'keys/ia/cs128/meta'], 'exactly the files of an existing key directory are removed')
    KZ.same(len(KZ.events('rmtree', 'rename', since=at)), 0, 'no directory is removed')
    for f in ('other', 'keys/other', 'keys/ia/other', 'keys/ia/cs128/sub/keep'):
        KZ.same(KZ.file(f), 'k', 'nothing outside the key directory is touched')
    seen = []
    for e in KZ.events('remove', 'spawn', since=at):
        if e[0] == 'spawn':
            seen.append(1)
        else:
            KZ.same(len(seen), 0, 'the directory is emptied before the key set is made')
''', prog='interop'),
    Ctx('a failing call is an error', LIB + '''
def main():
    small = {'ss': ALG['ss']}
    ops = {'sgn': {'keytype': 'sign', 'generateOptions': {}, 'testOptions': {}}}
    kso = {'sign': {'generateOptions': {}, 'testOptions': {}}}
    KZ.putfile('keys', '')
    r = runner([], {'ia': ['run-a']}, small, ops, kso)
    what = KZ.choice('create', 'generate', 'test')
    try:
        if what == 'create':
            r.CreateKeys()
        else:
            r.SetupInteropTests()
    except Exception:
        KZ.prove(len(KZ.events('spawnfail')) > 0, 'a successful call is no error')
        KZ.reach('reported')
        return
    KZ.same(len(KZ.events('spawnfail')), 0, 'a failing implementation call is reported')
    if what == 'test':
        t = [x for x in dir(r.InteropTest) if x[:5] == 'test_']
        KZ.same(len(t), 1, 'one test')
        try:
            getattr(r.InteropTest, t[0])(None)
        except Exception:
            KZ.prove(len(KZ.events('spawnfail')) > 0, 'a successful call is no error')
            KZ.reach('failed test')
            return
        KZ.same(len(KZ.events('spawnfail')), 0, 'a failing implementation call makes the test fail')
''', prog='interop', flags={'spawn_fail': True}, must=('reported', 'failed test')),
    Ctx('output that is no JSON', LIB + """
def main():
    small = {'ss': ALG['ss']}
    ops = {'sgn': {'keytype': 'sign', 'generateOptions': {}, 'testOptions': {}}}
    kso = {'sign': {'generateOptions': {}, 'testOptions': {}}}
    KZ.putfile('keys', '')
    r = runner([], {'ia': ['run-a']}, small, ops, kso)
    try:
        if KZ.flip():
            r._Test(KZ.choice('', 'Traceback', '{"output": '), 'ia', 'ia', 'sgn', 'ss256', {}, {})
        else:
            r.InteropTestGenerator(KZ.choice('', 'Traceback', '{"output": '), 'ia', 'ia', 'sgn', 'ss256', {}, {})(None)
    except Exception:
        KZ.ok('reported')
    else:
        KZ.fail('output that cannot be read makes the test fail')
""", prog='interop'),
    Ctx('display', LIB + '''
def main():
    rules = KZ.choice(RULES)
    r = runner(rules)
    r.DisplayTests()
    n = 0
    for g in generated(rules):
        n += len(tested(rules, g))
    KZ.same(len(r.logger.out), n, 'display shows each combination that is tested once')
    KZ.same(len(KZ.events('spawn')), 0, 'display runs nothing')
    KZ.same(len(KZ.events('makedirs', 'remove', 'rmtree')), 0, 'display changes nothing')
''', prog='interop', seconds=200),
    Ctx('options', LIB + '''
def main():
    r = runner([])
    r.DisplayOptions()
    text = chr(10).join([str(x) for x in r.logger.out])
    for w in ('enc', 'senc', 'sgn', 'encoding', 'signer', 'how', 'ck', 'class', 'pub'):
        KZ.prove(w in text, 'options shows every operation and option')
    KZ.same(len(KZ.events('spawn')), 0, 'options runs nothing')
''', prog='interop'),
    Ctx('unrecognised arguments only print the usage', LIB + '''
def main():
    config([])
    args = KZ.choice((['--create=x'], ['--create'], ['--nonsense=y'], ['nonsense'], ['--help'], ['-v'], ['--verbose=1'], ['--create=y=n'],
                      ['--verbose=y', 'bogus'], ['--create=n', '--verbose=maybe'], ['--create='], [''], ['--verbose=n', ''], ['--'], ['Display'], ['--display']))
    at = KZ.mark()
    rc = interop.main(args)
    KZ.prove(rc, 'unrecognised arguments give a failing exit status')
    KZ.prove(len(KZ.events('print', since=at)) > 0, 'the usage is printed')
    KZ.same(len(KZ.events('spawn', 'makedirs', 'remove', 'rmtree', 'rename', 'fwrite', since=at)), 0, 'nothing is run or changed')
''', prog='interop'),
    Ctx('recognised arguments', LIB + '''
LOG = []
class Fake(object):
    def __init__(self, logger):
        self.logger = logger
    def CreateKeys(self):
        LOG.append('create')
    def SetupInteropTests(self):
        LOG.append('setup')
    def RunTests(self):
        LOG.append('run')
    def DisplayTests(self):
        LOG.append('display')
    def DisplayOptions(self):
        LOG.append('options')
def main():
    interop.InteropTestRunner = Fake
    case = KZ.choice(([], ['create', 'setup', 'run']), (['--create=n'], ['setup', 'run']), (['--create=y'], ['create', 'setup', 'run']),
                     (['--verbose=y'], ['create', 'setup', 'run']), (['--verbose=n', '--create=n'], ['setup', 'run']),
                     (['display'], ['display']), (['options'], ['options']))
    rc = interop.main(case[0])
    KZ.same(LOG, case[1], 'the requested steps are taken in order')
    KZ.prove(not rc, 'success')
''', prog='interop'),
])
