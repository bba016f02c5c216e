"""Mutation survey of the checks (not part of any check).

python3 tools/mutate.py OUT [-n COUNT] [-s SEED] [-f FILE] : makes small syntactic
mutants of the Python sources in scratch copies, runs every check that analyses
the mutated function and lists the mutants that no check reports.
"""
import ast, json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/python/src/keyczar'
FILES = [os.path.join(SRC, f) for f in sorted(os.listdir(SRC)) if f.endswith('.py')] + ['/repo/interop/interop.py']
SWAP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>',
        ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.BitOr: '&', ast.BitXor: '|', ast.Mult: '+', ast.Div: '*', ast.Mod: '//'}


def spans(src):
    off = [0]
    for l in src.split('\n'):
        off.append(off[-1] + len(l) + 1)
    return lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    pos = spans(src)
    out = []

    def seg(n):
        a, b = pos(n)
        return src[a:b]

    def put(n, new, fn, what):
        a, b = pos(n)
        out.append((path, fn, n.lineno, what, src[:a] + new + src[b:], src[a:b][:60].replace('\n', ' ') + '  =>  ' + new[:60].replace('\n', ' ')))

    def visit(n, fn, doc):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = fn + [n.name]
        f = '.'.join(fn)
        body = getattr(n, 'body', None)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and body and \
                isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            doc = doc | {body[0], body[0].value}
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(n, '%s %s %s' % (seg(n.left), SWAP[type(n.ops[0])], seg(n.comparators[0])), f, 'cmp')
        if isinstance(n, (ast.If, ast.While)):
            put(n.test, 'not (%s)' % seg(n.test), f, 'negate')
            put(n.test, 'False', f, 'never')
            if isinstance(n, ast.If):
                put(n.test, 'True', f, 'always')
        if isinstance(n, ast.BoolOp):
            put(n, (' or ' if isinstance(n.op, ast.And) else ' and ').join('(%s)' % seg(v) for v in n.values), f, 'bool')
            for i in range(len(n.values)):
                put(n, (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % seg(v) for j, v in enumerate(n.values) if j != i), f, 'drop operand')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            put(n, '(%s)' % seg(n.operand), f, 'drop unary')
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant)):
            put(n, '(%s) %s (%s)' % (seg(n.left), BIN[type(n.op)], seg(n.right)), f, 'binop')
            if isinstance(n.op, ast.Add):
                put(n, '(%s)' % seg(n.left), f, 'drop right')
                put(n, '(%s)' % seg(n.right), f, 'drop left')
                put(n, '(%s) + (%s)' % (seg(n.right), seg(n.left)), f, 'swap')
        if isinstance(n, ast.Constant) and n not in doc:
            if isinstance(n.value, bool):
                put(n, str(not n.value), f, 'const')
            elif isinstance(n.value, int):
                put(n, str(n.value + 1), f, 'const')
                put(n, str(n.value - 1) if n.value else '2', f, 'const')
            elif isinstance(n.value, str) and n.value.replace('_', 'a').isalnum() and len(n.value) < 24:
                put(n, repr(n.value + 'X'), f, 'string')
        if isinstance(n, ast.Slice):
            for x in (n.lower, n.upper):
                if x is not None:
                    put(x, '(%s) + 1' % seg(x), f, 'slice')
                    put(x, '', f, 'slice')
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                args = [seg(a) for a in n.args]
                put(n, '%s(%s)' % (seg(n.func), ', '.join([args[1], args[0]] + args[2:])), f, 'swap args')
                put(n, '%s(%s)' % (seg(n.func), ', '.join(args[:-1])), f, 'drop arg')
            if n.keywords:
                put(n, '%s(%s)' % (seg(n.func), ', '.join([seg(a) for a in n.args] + ['%s=%s' % (k.arg, seg(k.value)) for k in n.keywords[:-1]])), f, 'drop kw')
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Raise, ast.Delete)) and n not in doc:
            put(n, 'pass', f, 'delete')
        if isinstance(n, ast.Assign):
            put(n, 'pass', f, 'delete')
        if isinstance(n, ast.Return) and n.value is not None:
            put(n, 'return None', f, 'return None')
        if isinstance(n, (ast.Break, ast.Continue)):
            put(n, 'pass', f, 'delete')
        for c in ast.iter_child_nodes(n):
            if c not in doc:
                visit(c, fn, doc)
    visit(tree, [], set())
    seen, res = set(), []
    for m in out:
        if m[4] == src or m[4] in seen:
            continue
        seen.add(m[4])
        try:
            compile(m[4], path, 'exec')
        except Exception:
            continue
        res.append(m)
    return res


def main():
    a = sys.argv[1:]
    outp = a[0]
    opt = {a[i]: a[i + 1] for i in range(1, len(a) - 1, 2)}
    rng = random.Random(int(opt.get('-s', '1')))
    ms = []
    for f in FILES:
        if opt.get('-f') in (None, os.path.basename(f)):
            ms += mutants(f)
    total = len(ms)
    rng.shuffle(ms)
    ms = ms[:int(opt.get('-n', '400'))]
    cover, cost = {}, {}
    for p in sorted(os.listdir(os.path.join(ROOT, 'evidence'))):
        if p.endswith('.json'):
            e = json.load(open(os.path.join(ROOT, 'evidence', p)))
            cost[p[:-5]] = e['wall_s']
            for fn in e['coverage']['functions_analysed']:
                cover.setdefault(fn, set()).add(p[:-5])
    print('mutants', total, 'run', len(ms), flush=True)
    res = open(outp, 'w')

    def one(i):
        path, fn, line, what, text, show = ms[i]
        rel = os.path.relpath(path, '/repo')
        d = '/tmp/kz_mut/%d' % i
        os.makedirs(d)
        for x in os.listdir('/repo'):
            if x not in ('.git', rel.split('/')[0]):
                os.symlink('/repo/' + x, d + '/' + x)
        if rel.startswith('python'):
            os.makedirs(d + '/python/src')
            shutil.copytree(SRC, d + '/python/src/keyczar')
        else:
            shutil.copytree('/repo/interop', d + '/interop')
        open(os.path.join(d, rel), 'w').write(text)
        ids = cover.get('%s:%s' % (rel, fn))
        if ids is None:
            ids = set()
            for k, v in cover.items():
                if k.startswith(rel + ':') and (fn == '' or k.split(':')[1].startswith(fn)):
                    ids |= v
        if not ids:
            ids = set(x for k, v in cover.items() if k.startswith(rel + ':') for x in v)
        env = dict(os.environ, KZ_REPO=d, KZ_SERIAL='1', KZ_EVIDENCE=d + '/ev')
        os.makedirs(d + '/ev')
        got, bad = None, []
        t = time.time()
        for pid in sorted(ids, key=lambda p: cost[p]):
            try:
                r = subprocess.run([sys.executable, '-m', 'kz.run', pid], cwd=ROOT, env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
            except subprocess.TimeoutExpired:
                bad.append((pid, 'timeout'))
                continue
            if r.returncode == 1:
                got = pid
                break
            if r.returncode != 0:
                bad.append((pid, r.stdout[-200:]))
        shutil.rmtree(d)
        res.write(json.dumps({'file': rel, 'fn': fn, 'line': line, 'what': what, 'show': show, 'caught': got,
                              'bad': bad, 'ids': sorted(ids), 't': round(time.time() - t)}) + '\n')
        res.flush()
        return got

    shutil.rmtree('/tmp/kz_mut', ignore_errors=True)
    with ThreadPoolExecutor(int(opt.get('-j', '8'))) as ex:
        got = list(ex.map(one, range(len(ms))))
    print('caught', len([g for g in got if g]), 'of', len(got))


main()
