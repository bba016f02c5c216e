"""Corpus of behaviour-preserving rewrites (not part of any check).

python3 tools/refactor.py [NAME ...] : applies each rewrite everywhere it fits in a
scratch copy of the Python sources, runs every check on the copy and prints each
check that does not stay quiet.  With -p RATE -s SEED only that share of the sites
is rewritten.
"""
import ast, copy, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ['python/src/keyczar/' + f for f in sorted(os.listdir('/repo/python/src/keyczar')) if f.endswith('.py')] + ['interop/interop.py']
REWRITES = {}


def rewrite(c):
    REWRITES[c.__name__] = c
    return c


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


class Base(ast.NodeTransformer):
    def __init__(self, rng, rate):
        self.rng, self.rate, self.n, self.cls, self.fn = rng, rate, 0, [], []
        self.count = 0

    def take(self):
        if self.rng.random() < self.rate:
            self.count += 1
            return True
        return False

    def tmp(self, p='tmp'):
        self.n += 1
        return '%s_%d' % (p, self.n)

    def visit_ClassDef(self, n):
        self.cls.append(n.name)
        n = self.generic_visit(n)
        self.cls.pop()
        return n

    def visit_FunctionDef(self, n):
        self.fn.append(n)
        n = self.generic_visit(n)
        self.fn.pop()
        return n

    def blocks(self, n, f):
        for k in ('body', 'orelse', 'finalbody'):
            b = getattr(n, k, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, k, f(b))


class Blocks(Base):
    """rewrites statement lists inside functions"""
    def generic_visit(self, n):
        n = super().generic_visit(n)
        if self.fn:
            self.blocks(n, self.block)
        return n


@rewrite
class ReturnTemp(Blocks):
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Constant) and self.take():
                t = self.tmp('result')
                out += [ast.Assign([name(t, ast.Store())], s.value), ast.Return(name(t))]
            else:
                out.append(s)
        return out


@rewrite
class FlipIf(Base):
    def visit_If(self, n):
        n = self.generic_visit(n)
        if n.orelse and self.fn and self.take():
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


@rewrite
class ElseAfterReturn(Blocks):
    """if c: return/raise; rest  ->  if c: return/raise  else: rest"""
    def block(self, b):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and b[i + 1:] and self.take():
                s.orelse = self.block(b[i + 1:])
                return b[:i + 1]
        return b


@rewrite
class EarlyReturn(Blocks):
    """if c: ..return  else: rest  ->  if c: ..return; rest"""
    def block(self, b):
        out = []
        for s in b:
            out.append(s)
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and self.take():
                out += s.orelse
                s.orelse = []
        return out


@rewrite
class SplitAnd(Base):
    def visit_If(self, n):
        n = self.generic_visit(n)
        if self.fn and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse and self.take():
            b = n.body
            for v in reversed(n.test.values):
                b = [ast.If(v, b, [])]
            return b[0]
        return n


@rewrite
class SplitOr(Blocks):
    """if a or b: raise/return  ->  if a: raise; if b: raise"""
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) and \
                    not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and self.take():
                for v in s.test.values:
                    out.append(ast.If(v, copy.deepcopy(s.body), []))
            else:
                out.append(s)
        return out


@rewrite
class SwapCompare(Base):
    OPS = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}

    def visit_Compare(self, n):
        n = self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.OPS and self.take():
            return ast.Compare(n.comparators[0], [self.OPS[type(n.ops[0])]()], [n.left])
        return n


@rewrite
class NegateCompare(Base):
    OPS = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt,
           ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}

    def visit_Compare(self, n):
        n = self.generic_visit(n)
        if len(n.ops) == 1 and self.take():
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [self.OPS[type(n.ops[0])]()], n.comparators))
        return n


@rewrite
class InToOr(Base):
    def visit_Compare(self, n):
        n = self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.In) and isinstance(n.comparators[0], (ast.Tuple, ast.List)) and \
                n.comparators[0].elts and isinstance(n.left, (ast.Name, ast.Attribute)) and self.take():
            v = [ast.Compare(copy.deepcopy(n.left), [ast.Eq()], [e]) for e in n.comparators[0].elts]
            return ast.BoolOp(ast.Or(), v) if len(v) > 1 else v[0]
        return n


@rewrite
class Unaugment(Base):
    def visit_AugAssign(self, n):
        if self.fn and isinstance(n.target, (ast.Name, ast.Attribute)) and not isinstance(n.value, ast.Name) and self.take():
            t = copy.deepcopy(n.target)
            t.ctx = ast.Load()
            return ast.Assign([n.target], ast.BinOp(t, n.op, n.value))
        return n


@rewrite
class Augment(Base):
    def visit_Assign(self, n):
        if self.fn and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Name, ast.Attribute)) and \
                isinstance(n.value, ast.BinOp) and isinstance(n.value.op, ast.Add) and \
                ast.dump(n.value.left).replace('Load', '') == ast.dump(n.targets[0]).replace('Store', '') and self.take():
            return ast.AugAssign(n.targets[0], n.value.op, n.value.right)
        return n


@rewrite
class ForToWhile(Base):
    """for x in e: body -> it = iter(e); while True: try: x = next(it) except StopIteration: break; body"""
    def visit_For(self, n):
        n = self.generic_visit(n)
        if self.fn and not n.orelse and self.take():
            it = self.tmp('it')
            get = ast.Try([ast.Assign([n.target], ast.Call(name('next'), [name(it)], []))],
                          [ast.ExceptHandler(name('StopIteration'), None, [ast.Break()])], [], [])
            return [ast.Assign([name(it, ast.Store())], ast.Call(name('iter'), [n.iter], [])),
                    ast.While(ast.Constant(True), [get] + n.body, [])]
        return n


@rewrite
class ForOverList(Base):
    """for x in e  ->  items = list(e); for i in range(len(items)): x = items[i]"""
    def visit_For(self, n):
        n = self.generic_visit(n)
        if self.fn and not n.orelse and self.take():
            it, i = self.tmp('items'), self.tmp('i')
            return [ast.Assign([name(it, ast.Store())], ast.Call(name('list'), [n.iter], [])),
                    ast.For(name(i, ast.Store()), ast.Call(name('range'), [ast.Call(name('len'), [name(it)], [])], []),
                            [ast.Assign([n.target], ast.Subscript(name(it), name(i), ast.Load()))] + n.body, [])]
        return n


@rewrite
class ForEnumerate(Base):
    def visit_For(self, n):
        n = self.generic_visit(n)
        if self.fn and self.take():
            return ast.For(ast.Tuple([name(self.tmp('i'), ast.Store()), n.target], ast.Store()),
                           ast.Call(name('enumerate'), [n.iter], []), n.body, n.orelse)
        return n


@rewrite
class WhileTrue(Base):
    def visit_While(self, n):
        n = self.generic_visit(n)
        if self.fn and not n.orelse and not isinstance(n.test, ast.Constant) and self.take():
            return ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], [])] + n.body, [])
        return n


@rewrite
class CompToLoop(Blocks):
    """x = [e for t in s if c] / return [...]  ->  loop with append"""
    def block(self, b):
        out = []
        for s in b:
            v = getattr(s, 'value', None)
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.ListComp) and len(v.generators) == 1 and self.take():
                g, t = v.generators[0], self.tmp('acc')
                add = [ast.Expr(ast.Call(ast.Attribute(name(t), 'append', ast.Load()), [v.elt], []))]
                for c in reversed(g.ifs):
                    add = [ast.If(c, add, [])]
                out += [ast.Assign([name(t, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, add, [])]
                s.value = name(t)
            out.append(s)
        return out


@rewrite
class Hoist(Blocks):
    """call arguments of a statement's outermost call into temporaries"""
    def block(self, b):
        out = []
        for s in b:
            v = s.value if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) else s.exc if isinstance(s, ast.Raise) else None
            if isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)) and \
                    (isinstance(v.func, ast.Name) or isinstance(v.func.value, (ast.Name, ast.Attribute))) and \
                    not any(isinstance(a, ast.Starred) for a in v.args) and not any(k.arg is None for k in v.keywords):
                for i, a in enumerate(v.args):
                    if not isinstance(a, (ast.Constant, ast.Name, ast.Lambda, ast.GeneratorExp)) and self.take():
                        t = self.tmp('arg')
                        out.append(ast.Assign([name(t, ast.Store())], a))
                        v.args[i] = name(t)
            out.append(s)
        return out


@rewrite
class HoistTest(Blocks):
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.If) and self.take():
                t = self.tmp('cond')
                out.append(ast.Assign([name(t, ast.Store())], s.test))
                s.test = name(t)
            out.append(s)
        return out


@rewrite
class IfExp(Blocks):
    """if c: x = a else: x = b  ->  x = a if c else b; and for returns"""
    def block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1 and type(s.body[0]) is type(s.orelse[0]):
                x, y = s.body[0], s.orelse[0]
                if isinstance(x, ast.Assign) and ast.dump(ast.Module(x.targets, [])) == ast.dump(ast.Module(y.targets, [])) and self.take():
                    s = ast.Assign(x.targets, ast.IfExp(s.test, x.value, y.value))
                elif isinstance(x, ast.Return) and x.value and y.value and self.take():
                    s = ast.Return(ast.IfExp(s.test, x.value, y.value))
            out.append(s)
        return out


@rewrite
class UnIfExp(Blocks):
    def block(self, b):
        out = []
        for s in b:
            v = getattr(s, 'value', None)
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(v, ast.IfExp) and self.take():
                x, y = copy.deepcopy(s), copy.deepcopy(s)
                x.value, y.value = v.body, v.orelse
                s = ast.If(v.test, [x], [y])
            out.append(s)
        return out


@rewrite
class ImplMethod(Base):
    """def f(self, a): body  ->  def f(self, a): return self._C_f(a); def _C_f(self, a): body"""
    def body(self, cls, stmts):
        out = []
        for s in stmts:
            out.append(s)
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and not s.args.vararg and not s.args.kwarg and \
                    not s.args.kwonlyargs and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(s)) and \
                    (cls is None or s.args.args) and self.take():
                new = '_%s_%s_impl' % (cls or 'mod', s.name.strip('_'))
                h = copy.deepcopy(s)
                h.name = new
                h.args.defaults = []
                args = [name(a.arg) for a in s.args.args]
                call = ast.Call(name(new), args, []) if cls is None else \
                    ast.Call(ast.Attribute(args[0], new, ast.Load()), args[1:], [])
                s.body = [ast.Expr(call) if s.name == '__init__' else ast.Return(call)]
                out.append(h)
        return out

    def visit_ClassDef(self, n):
        n.body = self.body(n.name, n.body)
        return n

    def visit_Module(self, n):
        self.generic_visit(n)
        n.body = self.body(None, n.body)
        return n


@rewrite
class ModuleHelper(Base):
    """method bodies that use no private names move to a module function"""
    def visit_Module(self, n):
        add = []
        for c in n.body:
            if not isinstance(c, ast.ClassDef):
                continue
            for s in c.body:
                if isinstance(s, ast.FunctionDef) and not s.decorator_list and s.args.args and not s.args.vararg and not s.args.kwarg and \
                        s.name != '__init__' and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) or
                                isinstance(x, ast.Attribute) and x.attr.startswith('__') and not x.attr.endswith('__') or
                                isinstance(x, ast.Name) and x.id.startswith('__') for x in ast.walk(s)) and self.take():
                    h = copy.deepcopy(s)
                    h.name = '_do_%s_%s' % (c.name, s.name.strip('_'))
                    h.args.defaults = []
                    s.body = [ast.Return(ast.Call(name(h.name), [name(a.arg) for a in s.args.args], []))]
                    add.append(h)
        i = max([k for k, x in enumerate(n.body) if isinstance(x, (ast.Import, ast.ImportFrom, ast.Try))] or [0]) + 1
        for k, x in enumerate(n.body):
            if isinstance(x, ast.ClassDef):
                i = k
                break
        n.body[i:i] = add
        return n


@rewrite
class RenameLocals(Base):
    def visit_FunctionDef(self, n):
        if any(isinstance(x, (ast.Global, ast.Lambda, ast.FunctionDef)) and x is not n for x in ast.walk(n)):
            return n
        params = {a.arg for a in n.args.args}
        loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | \
              {x.name for x in ast.walk(n) if isinstance(x, ast.ExceptHandler) and x.name}
        loc = {v for v in loc - params if self.take()}
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('locals', 'vars', 'eval') for x in ast.walk(n)):
            return n
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = x.id + '_value'
            if isinstance(x, ast.ExceptHandler) and x.name in loc:
                x.name = x.name + '_value'
        return n


@rewrite
class JoinConcat(Base):
    """a + b + c with a string constant in it -> ''.join([a, b, c])"""
    def visit_BinOp(self, n):
        parts = []

        def flat(x):
            if isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add):
                flat(x.left)
                flat(x.right)
            else:
                parts.append(x)
        flat(n)
        if len(parts) > 1 and any(isinstance(p, ast.Constant) and isinstance(p.value, str) for p in parts) and self.take():
            return ast.Call(ast.Attribute(ast.Constant(''), 'join', ast.Load()), [ast.List([self.visit(p) for p in parts], ast.Load())], [])
        return self.generic_visit(n)


@rewrite
class ConstNames(Base):
    """literals used in functions become module constants"""
    def visit_Module(self, n):
        self.new = {}
        n = self.generic_visit(n)
        if not n.body:
            return n
        k = 1 if isinstance(n.body[0], ast.Expr) else 0
        while k < len(n.body) and isinstance(n.body[k], ast.ImportFrom) and n.body[k].module == '__future__':
            k += 1
        n.body[k:k] = [ast.Assign([name(v, ast.Store())], ast.Constant(c[1])) for c, v in self.new.items()]
        return n

    def visit_FunctionDef(self, n):
        self.fn.append(n)
        doc = n.body[0] if isinstance(n.body[0], ast.Expr) else None
        n.body = [s if s is doc and isinstance(s.value, ast.Constant) else self.visit(s) for s in n.body]
        self.fn.pop()
        return n

    def visit_Constant(self, n):
        if self.fn and isinstance(n.value, (int, str)) and not isinstance(n.value, bool) and self.take():
            k = (type(n.value), n.value)
            return name(self.new.setdefault(k, 'CONST_%d' % len(self.new)))
        return n

    def visit_JoinedStr(self, n):
        return n


@rewrite
class NoOps(Blocks):
    def block(self, b):
        out = []
        for s in b:
            if self.take() and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                out.append(ast.Assign([name('unused', ast.Store())], ast.Constant(0)))
            out.append(s)
        return out


@rewrite
class LocalAlias(Base):
    """self.x.y read into a local at the head of a method that never stores through self and calls nothing first"""
    def visit_FunctionDef(self, n):
        if n.decorator_list or not n.args.args or n.args.args[0].arg != 'self' or not self.cls:
            return n
        if any(isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) for x in ast.walk(n)) or \
                any(isinstance(x, (ast.Lambda, ast.FunctionDef)) and x is not n for x in ast.walk(n)):
            return n
        k = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        if k >= len(n.body):
            return n
        first = n.body[k]
        seen = {}
        for x in ast.walk(first):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self':
                seen[x.attr] = 1
        called = {x.func.attr for x in ast.walk(n) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)}
        seen = [a for a in seen if a not in called and self.take()]
        if isinstance(first, (ast.If, ast.While, ast.For, ast.Try)):
            return n
        me = self

        class Sub(ast.NodeTransformer):
            def visit_Attribute(s, x):
                x = s.generic_visit(x)
                if isinstance(x.value, ast.Name) and x.value.id == 'self' and x.attr in seen:
                    return name('local_' + x.attr.strip('_'))
                return x
        first = n.body[k] = Sub().visit(first)
        n.body[k:k] = [ast.Assign([name('local_' + a.strip('_'), ast.Store())], ast.Attribute(name('self'), a, ast.Load())) for a in seen]
        return n


@rewrite
class Lambdas(Blocks):
    """x = f(a) -> x = (lambda: f(a))() ; computed in a nested function"""
    def block(self, b):
        out = []
        for s in b:
            v = getattr(s, 'value', None)
            if isinstance(s, ast.Assign) and isinstance(v, ast.Call) and self.cls and not any(isinstance(x, ast.Lambda) for x in ast.walk(v)) and self.take():
                s.value = ast.Call(ast.Lambda(ast.arguments([], [], None, [], [], None, []), v), [], [])
            out.append(s)
        return out


@rewrite
class TryElse(Base):
    """try: a; b; return x except E: raise -> keeps, with return moved behind via temp"""
    def visit_Try(self, n):
        n = self.generic_visit(n)
        if self.fn and not n.finalbody and not n.orelse and isinstance(n.body[-1], ast.Return) and n.body[-1].value is not None and self.take():
            t = self.tmp('value')
            n.body[-1] = ast.Assign([name(t, ast.Store())], n.body[-1].value)
            n.orelse = [ast.Return(name(t))]
        return n


@rewrite
class Chain(Base):
    """'%s' % x -> '{}'.format for plain %s formats"""
    def visit_BinOp(self, n):
        n = self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) and self.fn:
            import re
            f = n.left.value
            if '{' in f or re.sub('%[sd]', '', f).count('%'):
                return n
            args = n.right.elts if isinstance(n.right, ast.Tuple) else [n.right]
            if len(re.findall('%[sd]', f)) == len(args) and isinstance(n.right, (ast.Tuple, ast.Constant, ast.Call)) and self.take():
                return ast.Call(ast.Attribute(ast.Constant(re.sub('%[sd]', '{}', f)), 'format', ast.Load()), args, [])
        return n


@rewrite
class Unparse(Base):
    pass


def docs(tree):
    """drop docstrings so that no rewrite has to mind them"""
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Constant) and isinstance(n.body[0].value.value, str) and len(n.body) > 1:
            del n.body[0]


def build(d, names, rate, seed):
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/python/src')
    for x in os.listdir('/repo'):
        if x not in ('.git', 'python', 'interop'):
            os.symlink('/repo/' + x, d + '/' + x)
    for x in os.listdir('/repo/python'):
        if x != 'src':
            os.symlink('/repo/python/' + x, d + '/python/' + x)
    shutil.copytree('/repo/python/src/keyczar', d + '/python/src/keyczar')
    shutil.copytree('/repo/interop', d + '/interop')
    n = 0
    for f in FILES:
        src = open('/repo/' + f).read()
        tree = ast.parse(src)
        docs(tree)
        for nm in names:
            r = REWRITES[nm](random.Random('%s %s %s' % (seed, nm, f)), rate)
            tree = ast.fix_missing_locations(r.visit(tree))
            n += r.count
            tree = ast.parse(ast.unparse(tree))
        open(os.path.join(d, f), 'w').write(ast.unparse(tree) + '\n')
    return n


def run(d, pid):
    env = dict(os.environ, KZ_REPO=d, KZ_EVIDENCE=d + '/evidence')
    try:
        p = subprocess.run([sys.executable, '-m', 'kz.run', pid], cwd=ROOT, env=env, capture_output=True, text=True, timeout=900)
    except subprocess.TimeoutExpired:
        return pid, 'timeout', ''
    if p.returncode == 0:
        import re
        m = re.search(r'undecided=(\d+) unsupported=(\d+)', p.stdout)
        return pid, 0, '%s/%s' % m.groups() if m and m.groups() != ('0', '0') else ''
    why = p.stderr.strip().split('\n')[-1]
    try:
        why = open(d + '/evidence/%s.violation.txt' % pid).read()[:600]
    except OSError:
        pass
    return pid, p.returncode, why


def main():
    a = sys.argv[1:]
    opt = {}
    while a and a[0] in ('-p', '-s', '-c', '-k'):
        opt[a[0]] = a[1]
        a = a[2:]
    combos = [x.split('+') for x in a] or [[x] for x in REWRITES]
    if opt.get('-c'):
        rng = random.Random(opt.get('-s', '1'))
        combos = [rng.sample([x for x in REWRITES], 4) for _ in range(int(opt['-c']))]
    ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    if opt.get('-k'):
        ids = opt['-k'].split(',')
    for c in combos:
        d = '/tmp/kz_refactor/' + '+'.join(c)
        n = build(d, c, float(opt.get('-p', '1')), opt.get('-s', '1'))
        os.makedirs(d + '/evidence')
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda i: run(d, i), ids))
        print('+'.join(c), 'sites', n, 'alarms', [(r[0], r[1]) for r in res if r[1] != 0], 'weaker',
              [(r[0], r[2]) for r in res if r[1] == 0 and r[2]], flush=True)
        res = [r for r in res if r[1] != 0]
        for r in res:
            print('   ', r[0], r[1], r[2].replace('\n', ' // ')[:400])
        if not res:
            shutil.rmtree(d)


if __name__ == '__main__':
    main()
