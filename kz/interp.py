"""Path-sensitive abstract interpreter for the Python subset used by the tree.

Abstract domain: values are normal-form terms (terms.py); the store is a heap
of records; a *partition* is one equivalence class of executions (trace
partitioning), described by the branch facts assumed along it.  Branches whose
outcome follows from the facts are not split.  Loops over collections of known
shape are unrolled, all other loops are widened (everything the body may write
is replaced by a fresh loop value) after at most MAXUNROLL undecided rounds.
Nothing of the analysed program is imported or executed.
"""
import ast
import copy
import os

from . import terms as T
from .terms import (mk, const, NONE, TRUE, FALSE, EMPTY, ZERO, is_const, cval,
                    is_int, is_str, isstr, isnum, unknown, show)

MAXUNROLL = 2
MAXITER = 3000
MAXDEPTH = 70


DEBUG_REC = False


ENVIRON = mk('ext', 'os.environ')


class Unsupported(Exception):
    pass


class Cut(Exception):
    """This trace is subsumed by another partition (or budget exhausted)."""


class Infeasible(Exception):
    pass


class AbsExc(Exception):
    def __init__(self, val, site=None):
        self.val = val          # exception instance term
        self.site = site


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Rec(object):
    __slots__ = ('kind', 'cls', 'f', 'items', 'meta')

    def __init__(self, kind, cls=None, f=None, items=None, meta=None):
        self.kind = kind
        self.cls = cls
        self.f = {} if f is None else f
        self.items = [] if items is None else items
        self.meta = {} if meta is None else meta

    def clone(self):
        items = self.items
        if self.kind == 'dict':
            items = [list(e) for e in items]
        else:
            items = list(items)
        return Rec(self.kind, self.cls, dict(self.f), items, dict(self.meta))


class Violation(object):
    def __init__(self, msg, site, part, detail=''):
        self.msg, self.site, self.part, self.detail = msg, site, part, detail

    def key(self):
        return self.msg


def mangle(name, cls):
    if cls and name.startswith('__') and not name.endswith('__') and '.' not in name:
        c = cls.lstrip('_')
        return '_%s%s' % (c, name) if c else name
    return name


class _Leave(Exception):
    """a loop body is left (by break, return or an exception) while the
    generator it iterates over is suspended at a yield"""
    def __init__(self, cause):
        self.cause = cause


class LazyRec(Rec):
    """the object a generator function returns: its body runs when a loop
    consumes it, or as a whole when anything else looks at the elements"""
    __slots__ = ('thunk', '_items')

    def __init__(self, *a, **k):
        self.thunk = None
        Rec.__init__(self, *a, **k)

    @property
    def items(self):
        if self.thunk is not None:
            t, self.thunk = self.thunk, None
            self._items = []
            t(self._items)
        return self._items

    @items.setter
    def items(self, v):
        self._items = v

    def clone(self):
        if self.thunk is None:
            return Rec.clone(self)
        r = LazyRec(self.kind, self.cls, dict(self.f), [], dict(self.meta))
        r.thunk = self.thunk
        return r


class GenRec(LazyRec):
    """a generator expression whose elements come from calls: every element
    is made when it is asked for, so that what follows a found one is not"""
    __slots__ = ('src', 'pos', 'queue', 'step', 'run')

    def __init__(self, *a, **k):
        self.src, self.pos, self.queue, self.step, self.run = (), 0, [], None, None
        LazyRec.__init__(self, *a, **k)

    @property
    def items(self):
        if self.step is not None:
            out = []
            while True:
                v = self.pull()
                if v is None:
                    break
                out.append(('i', v))
            self.step = None
            self._items = out
        return self._items

    @items.setter
    def items(self, v):
        self._items = v

    def pull(self):
        """the next element, or None"""
        if self.step is None:
            return self._items.pop(0)[1] if self._items else None
        while not self.queue:
            if isinstance(self.src, list):
                if self.pos >= len(self.src):
                    return None
                el = self.src[self.pos]
            else:
                el = self.run.H[self.src].pull()
                if el is None:
                    return None
            self.pos += 1
            if self.pos > MAXITER:
                raise Unsupported('long loop')
            self.queue = self.step(el)
        return self.queue.pop(0)

    def clone(self):
        r = GenRec(self.kind, self.cls, dict(self.f), [], dict(self.meta))
        r._items = list(self._items)
        r.src, r.pos, r.queue, r.step, r.run = self.src, self.pos, list(self.queue), self.step, self.run
        return r


_PLAIN = {'len', 'ord', 'chr', 'str', 'int', 'isinstance', 'getattr', 'hasattr', 'zip', 'range',
          'enumerate', 'reversed', 'sorted', 'list', 'tuple', 'min', 'max', 'abs', 'bool', 'repr',
          'startswith', 'endswith', 'strip', 'lstrip', 'rstrip', 'split', 'join', 'replace', 'lower',
          'upper', 'items', 'keys', 'values', 'get', 'format'}


def _calls_out(n):
    """does a comprehension call anything but a plain built-in?"""
    for part in [n.elt] + [x for g in n.generators for x in g.ifs] + [g.iter for g in n.generators[1:]]:
        for c in ast.walk(part):
            if isinstance(c, ast.Call) and (
                    c.func.id if isinstance(c.func, ast.Name) else
                    c.func.attr if isinstance(c.func, ast.Attribute) else '') not in _PLAIN:
                return True
    return False


class _Mangler(ast.NodeTransformer):
    def __init__(self):
        self.cls = []

    def _m(self, n):
        return mangle(n, self.cls[-1]) if self.cls else n

    def visit_ClassDef(self, node):
        node.kz_name = node.name
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        node.keywords = [self.visit(k) for k in node.keywords]
        self.cls.append(node.name)
        node.body = [self.visit(b) for b in node.body]
        self.cls.pop()
        node.name = self._m(node.name)
        return node

    def visit_FunctionDef(self, node):
        node.kz_name = node.name
        node.name = self._m(node.name)
        self.generic_visit(node)
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Name(self, node):
        node.id = self._m(node.id)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        node.attr = self._m(node.attr)
        return node

    def visit_arg(self, node):
        self.generic_visit(node)
        node.arg = self._m(node.arg)
        return node

    def visit_keyword(self, node):
        self.generic_visit(node)
        if node.arg:
            node.arg = self._m(node.arg)
        return node


def _has_yield(node):
    stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


def _locals(node):
    """names bound in a function body (not nested scopes)."""
    out, glob, nonl = set(), set(), set()

    def targets(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            for d in getattr(n, 'decorator_list', []):
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    targets(m.target)
            return
        if isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            walk(c)
    for b in node.body if isinstance(node.body, list) else [node.body]:
        walk(b)
    return out - glob - nonl, glob, nonl


# ------------------------------------------------------------------ program
PYEXC = {}


def _pyexc():
    import builtins
    for n in dir(builtins):
        o = getattr(builtins, n)
        if isinstance(o, type) and issubclass(o, BaseException):
            PYEXC[n] = o


_pyexc()
import binascii
import json as _json
import struct as _struct
import pickle as _pickle
import subprocess as _sp
EXTEXC = {'binascii.Error': binascii.Error, 'struct.error': _struct.error,
          'os.error': OSError, 'json.JSONDecodeError': _json.JSONDecodeError,
          'json.decoder.JSONDecodeError': _json.JSONDecodeError,
          'pickle.PicklingError': _pickle.PicklingError,
          'subprocess.CalledProcessError': _sp.CalledProcessError,
          'subprocess.SubprocessError': _sp.SubprocessError,
          'io.BlockingIOError': BlockingIOError,
          'io.UnsupportedOperation': OSError}


class _PyAsn1Error(Exception):
    pass


EXTEXC['pyasn1.error.PyAsn1Error'] = _PyAsn1Error

MISSING = {'simplejson', 'M2Crypto', 'sha', 'sets'}


PRELUDE = {'io.StringIO': 'StringIO', 'io.BytesIO': 'StringIO', 'StringIO.StringIO': 'StringIO',
           'cStringIO.StringIO': 'StringIO', 'bytearray': 'bytearray', 'collections.deque': 'deque',
           'contextlib.ExitStack': 'ExitStack', 'collections.namedtuple': 'namedtuple'}
for _n in ('takewhile', 'dropwhile', 'islice', 'count', 'repeat', 'starmap', 'filterfalse', 'zip_longest', 'accumulate'):
    PRELUDE['itertools.' + _n] = _n


class Program(object):
    """Parsed source tree plus the abstract heap after module initialisation."""

    def __init__(self, modules, stubs=None, missing=MISSING, late=None):
        """modules: {dotted name: path}"""
        modules = dict({'kz_prelude': os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stubs', 'prelude.py')}, **modules)
        self.paths = dict(modules)
        self.missing = set(missing)
        self.trees = {}
        self.files = {}
        for name, path in modules.items():
            with open(path, encoding='utf-8', errors='replace') as f:
                src = f.read()
            self.trees[name] = self.parse(src, path)
            self.files[name] = path
        self.base = Run(self, [], {})
        self.base.init_mode = True
        for name in modules:
            self.base.import_module(name)
        self.base.init_mode = False
        self.functions = set()
        self.drivers = {}

    @staticmethod
    def parse(src, path):
        tree = ast.parse(src, path)
        return _Mangler().visit(tree)

    def driver(self, src, name='driver'):
        key = (name, src)
        if key not in self.drivers:
            self.drivers[key] = self.parse(src, name)
        return self.drivers[key]

    def fork(self, prefix, flags):
        r = Run(self, prefix, flags)
        b = self.base
        r.H = {k: v.clone() for k, v in b.H.items()}
        r.counter = b.counter
        r.F, r.L, r.parent = dict(b.F), list(b.L), dict(b.parent)
        return r


class Partition(object):
    pass


class Result(object):
    def __init__(self):
        self.partitions = 0
        self.cuts = 0
        self.discharged = {}
        self.undecided = {}
        self.violations = []
        self.unsupported = {}
        self.reached = {}
        self.functions = set()
        self.incomplete = False
        self.samples = []

    def merge(self, o):
        self.partitions += o.partitions
        self.cuts += o.cuts
        for a, b in ((self.discharged, o.discharged), (self.undecided, o.undecided),
                     (self.unsupported, o.unsupported), (self.reached, o.reached)):
            for k, v in b.items():
                a[k] = a.get(k, 0) + v
        self.violations += o.violations
        self.functions |= o.functions
        self.incomplete = self.incomplete or o.incomplete
        self.samples += o.samples[:2]


def analyse(prog, src, flags=None, limit=6000, name='driver', on_part=None,
            seconds=None):
    """Abstractly interpret driver text `src` (its function main()) in every
    partition; collect obligations recorded by the KZ.* intrinsics."""
    import time
    t0 = time.time()
    tree = prog.driver(src, name)
    res = Result()
    prefix = []
    seen = set()
    while True:
        run = prog.fork(prefix, flags or {})
        run.res = res
        T.RESOLVE[0] = run.entails_ge0
        out = None
        try:
            try:
                modt = run.exec_driver(tree, name)
                fn = run.H[modt].f.get('main')
                v = run.call(fn, [], {})
                out = ('return', v)
            except AbsExc as e:
                out = ('raise', e.val, e.site)
        except Cut as e:
            out = ('cut', str(e))
            res.cuts += 1
        except Infeasible:
            out = ('infeasible',)
        except Unsupported as e:
            out = ('unsupported', str(e))
            res.unsupported[str(e)] = res.unsupported.get(str(e), 0) + 1
        except RecursionError:
            if DEBUG_REC: import traceback; print(traceback.format_exc()[-1500:])
            out = ('unsupported', 'analyser recursion')
            res.unsupported['recursion'] = res.unsupported.get('recursion', 0) + 1
        except (IndexError, KeyError, ValueError, TypeError, AttributeError, NotImplementedError, AssertionError) as e:
            # a construct the analyser has no rule for: this partition is given up
            if os.environ.get('KZ_TRACE'):
                raise
            k = 'analyser %s: %s' % (type(e).__name__, str(e)[:60])
            out = ('unsupported', k)
            res.unsupported[k] = res.unsupported.get(k, 0) + 1
        if out[0] == 'raise' and run.flags.get('escape'):
            r = run.rec(out[1])
            if not (r and r.meta.get('anyof')):
                run.violate('no unexpected exception escapes',
                            '%s escapes, raised at %s' % (show(out[1]), out[2]))
        if out[0] != 'infeasible':
            res.partitions += 1
            run.finish(out)
            if on_part:
                on_part(run, out)
            if out[0] in ('return', 'raise') and len(res.samples) < 2:
                res.samples.append(run.describe(out))
        T.RESOLVE[0] = None
        trail = run.trail
        while trail and trail[-1][0] + 1 >= trail[-1][1]:
            trail.pop()
        if not trail:
            break
        prefix = [c for c, _ in trail]
        prefix[-1] += 1
        if res.partitions >= limit or (seconds and time.time() - t0 > seconds):
            res.incomplete = True
            break
    return res


class Run(object):
    def __init__(self, prog, prefix, flags):
        self.prog = prog
        self.prefix = prefix
        self.flags = flags
        self.trail = []
        self.H = {}
        self.counter = 0
        self.F = {}
        self.L = []
        self.parent = {}
        self.effects = []
        self.pending = []       # obligations of this partition
        self.stack = []         # (qualname, file)
        self.line = 0
        self.wlog = None
        self.nested = None
        self.init_mode = False
        self.res = None
        self.fs = {}
        self.env = {}
        self.quiet = False
        self.syspath = None
        self.overlay = {}
        self.handling = []
        self.conds = []
        self.yields = []
        self.seq = {}
        self.calls = []
        self.slens = set()
        self.slenx = set()

    # ------------------------------------------------------------ plumbing
    def fresh(self, tag=''):
        self.counter += 1
        return self.counter

    def alloc(self, kind, label, cls=None, f=None, items=None, meta=None):
        op = {'class': 'cls', 'fn': 'fn', 'mod': 'module', 'env': 'env'}.get(kind, 'obj')
        if kind == 'mod':
            t = mk('module', label)
        else:
            t = mk(op, label, self.fresh())
        self.H[t] = Rec(kind, cls, f, items, meta)
        return t

    def site(self):
        if self.stack:
            q, f = self.stack[-1]
            return '%s:%s (%s)' % (f, self.line, q)
        return 'driver:%s' % self.line

    def repo_site(self):
        for q, f, l in reversed(self.calls):
            if not f.startswith('driver'):
                return '%s:%s (%s)' % (f, l, q)
        return self.site()

    def effect(self, kind, *args):
        self.effects.append((kind,) + args + (self.site(),))

    def newlist(self, items):
        return self.alloc('list', 'list', items=[('i', x) for x in items])

    def newdict(self, ents):
        return self.alloc('dict', 'dict', items=[[k, v] for k, v in ents])

    def rec(self, t):
        return self.H.get(t)

    def kind(self, t):
        r = self.H.get(t)
        return r.kind if r else None

    def wr(self, t, key):
        if self.wlog is not None:
            self.wlog.add((t, key))

    # ------------------------------------------------------------ decisions
    def choose(self, n, label=''):
        if n <= 1:
            return 0
        if self.init_mode:
            return 0
        pos = len(self.trail)
        c = self.prefix[pos] if pos < len(self.prefix) else 0
        self.trail.append((c, n))
        if len(self.trail) > 400:
            raise Cut('too many decisions')
        return c

    def find(self, t):
        while t in self.parent:
            t = self.parent[t]
        return t

    def same(self, a, b):
        return a is b or self.find(a) is self.find(b)

    def decide(self, t):
        """True/False/None from the facts of this partition."""
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        o = t.op
        if o == 'const':
            return bool(cval(t))
        if o == 'not':
            r = self.decide(t.a[0])
            return None if r is None else not r
        if o == 'and':
            r = True
            for x in t.a:
                d = self.decide(x)
                if d is False:
                    return False
                if d is None:
                    r = None
            if r is None and t in self.F:
                return self.F[t]
            return r
        if t in self.F:
            return self.F[t]
        if o == 'lt0':
            l = t.a[0]
            if self.entails_ge0(l):
                return False
            if self.entails_ge0(T.ladd(const(-1), l, -1)):
                return True
            return None
        if o == 'eq':
            a, b = t.a
            fa, fb = self.find(a), self.find(b)
            if fa is fb:
                return True
            if T.distinct(fa, fb):
                return False
            for (x, y) in ((a, b), (fa, fb)):
                e = T.eq(x, y)
                if e is TRUE:
                    return True
                if e is FALSE:
                    return False
                if e in self.F:
                    return self.F[e]
            if fb.op == 'const' or fa.op == 'const':
                pass
            # lengths differ => different strings
            if isstr(fa) or isstr(fb):
                la, lb = T.length(fa), T.length(fb)
                le = T.eq(la, lb)
                if le is FALSE or self.F.get(le) is False:
                    return False
                if isstr(fa) and isstr(fb) or True:
                    d = T.ladd(la, lb, -1)
                    if self.entails_ge0(T.ladd(d, const(-1))) or \
                            self.entails_ge0(T.ladd(const(-1), d, -1)):
                        if (isstr(fa) or is_str(fa)) and (isstr(fb) or is_str(fb)):
                            return False
            if self.flags.get('freshkeys') and fa.op == fb.op == 'slice' and \
                    fa.a[0].op == fb.a[0].op == 'hash' and fa.a[0] is not fb.a[0]:
                return False
            if isnum(a) or isnum(b) or a.op == 'lin':
                d = T.ladd(a, b, -1)
                if self.entails_ge0(T.ladd(d, const(-1))) or \
                        self.entails_ge0(T.ladd(const(-1), d, -1)):
                    return False
                if self.entails_ge0(d) and self.entails_ge0(T.neg(d)):
                    return True
            for x, y in ((a, b), (b, a)):
                # every other remainder is excluded
                if x.op == 'mod' and is_int(x.a[1]) and 1 < cval(x.a[1]) <= 16 and is_int(y) and all(
                        self.F.get(T.eq(x, const(i))) is False
                        for i in range(cval(x.a[1])) if i != cval(y)):
                    return 0 <= cval(y) < cval(x.a[1])
            return None
        if o == 'truth':
            x = t.a[0]
            fx = self.find(x)
            if fx is not x:
                r = T.truth(fx)
                if r is TRUE:
                    return True
                if r is FALSE:
                    return False
            if self.F.get(T.eq(x, NONE)) is True:
                return False
            l = mk('len', x) if not isstr(x) else T.length(x)
            if isstr(x):
                if self.entails_ge0(T.ladd(l, const(-1))):
                    return True
                if self.entails_ge0(T.neg(l)):
                    return False
            if isnum(x):
                r = self.decide(T.eq(x, ZERO))
                return None if r is None else not r
            return None
        return None

    def entails_ge0(self, l):
        lo, hi = T.rng(l)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        if getattr(self, '_busy', 0) > 3:
            return False
        self._busy = getattr(self, '_busy', 0) + 1
        try:
            if isinstance(l, T.Term):
                vs = set(T._lin(l)[1])
                L = [f for f in self.L if vs & set(T._lin(f)[1])]
                for f in L:
                    d = T.ladd(l, f, -1)
                    lo, _ = T.rng(d)
                    if lo is not None and lo >= 0:
                        return True
                if len(self.L) <= 40:
                    for f in L:
                        d = T.ladd(l, f, -1)
                        vs2 = set(T._lin(d)[1])
                        for g in self.L:
                            if not (vs2 & set(T._lin(g)[1])):
                                continue
                            lo, _ = T.rng(T.ladd(d, g, -1))
                            if lo is not None and lo >= 0:
                                return True
            return False
        finally:
            self._busy -= 1

    def assume(self, t, val):
        d = self.decide(t)
        if d is not None:
            if d != val:
                raise Infeasible()
            return
        o = t.op
        if o == 'not':
            return self.assume(t.a[0], not val)
        if o == 'and':
            if val:
                for x in t.a:
                    self.assume(x, True)
                return
            und = [x for x in t.a if self.decide(x) is None]
            if len(und) == 1:
                return self.assume(und[0], False)
            self.F[t] = False
            return
        self.F[t] = val
        if o == 'lt0':
            l = t.a[0]
            self.learn(T.ladd(const(-1), l, -1) if val else l)
        elif o == 'eq':
            a, b = t.a
            if val:
                fa, fb = self.find(a), self.find(b)
                if fa is not fb:
                    if fa.op == 'const' or (fa.op == 'obj'):
                        fa, fb = fb, fa
                    self.parent[fa] = fb
                if isnum(a) or isnum(b) or a.op == 'lin':
                    d = T.ladd(a, b, -1)
                    self.learn(d)
                    self.learn(T.neg(d))
                elif isstr(a) or isstr(b):
                    d = T.ladd(T.length(a), T.length(b), -1)
                    if not is_int(d):
                        self.learn(d)
                        self.learn(T.neg(d))
                    elif cval(d) != 0:
                        raise Infeasible()
                # componentwise congruence of injective constructors
                if a.op == b.op and a.op in ('b64enc', 'chr', 'pickled', 'str'):
                    self.assume(self.pyeq(a.a[0], b.a[0]), True)
            else:
                for x, y in ((a, b), (b, a)):
                    if y is EMPTY and isstr(x):
                        self.L.append(T.ladd(T.length(x), const(-1)))
                if isnum(a) and is_int(b):
                    # a >= c and a != c  =>  a >= c+1
                    d = T.ladd(a, b, -1)
                    if self.entails_ge0(d):
                        self.L.append(T.ladd(d, const(-1)))
                    elif self.entails_ge0(T.neg(d)):
                        self.L.append(T.ladd(T.neg(d), const(-1)))
        elif o == 'truth':
            x = t.a[0]
            if isstr(x):
                l = T.length(x)
                if val:
                    self.L.append(T.ladd(l, const(-1)))
                else:
                    self.L.append(T.neg(l))
                    if x is not EMPTY:
                        self.parent.setdefault(self.find(x), EMPTY)
            elif val:
                self.F[T.eq(x, NONE)] = False

    def learn(self, l):
        """record l >= 0 and the slice-length facts it brings into play"""
        self.L.append(l)
        self.saturate(l)

    def saturate(self, l):
        if not isinstance(l, T.Term):
            return
        for v in T._lin(l)[1]:
            if v.op == 'len' and v.a[0].op == 'lstrip':
                y, x = v.a[0], v.a[0].a[0]
                d = T.ladd(T.length(x), v, -1)
                if v not in self.slens:
                    self.slens.add(v)
                    self.L.append(d)
                if v not in self.slenx and self.entails_ge0(T.neg(d)):
                    self.slenx.add(v)
                    self.parent.setdefault(self.find(y), x)
                continue
            if v.op != 'len' or v.a[0].op != 'slice':
                continue
            x, lo, hi = v.a[0].a
            if v not in self.slens:
                self.slens.add(v)
                L = T.length(x)
                self.L.append(T.ladd(L, v, -1))
                if hi is NONE and T.entails_ge0(lo):
                    self.L.append(T.ladd(v, T.ladd(L, lo, -1), -1))
                elif lo is NONE and is_int(hi) and cval(hi) < 0:
                    self.L.append(T.ladd(v, T.ladd(L, hi), -1))
                elif lo is NONE and T.entails_ge0(hi):
                    self.L.append(T.ladd(hi, v, -1))
                elif hi is NONE and is_int(lo) and cval(lo) < 0:
                    self.L.append(T.ladd(T.neg(lo), v, -1))
            if v in self.slenx:
                continue
            if hi is NONE and T.entails_ge0(lo):
                if self.entails_ge0(T.ladd(v, const(-1))):
                    self.slenx.add(v)
                    self.L.append(T.ladd(T.ladd(T.length(x), lo, -1), v, -1))
            elif lo is NONE and is_int(hi) and cval(hi) < 0:
                if self.entails_ge0(T.ladd(v, const(-1))):
                    self.slenx.add(v)
                    self.L.append(T.ladd(T.ladd(T.length(x), hi), v, -1))

    def branch(self, t, label=''):
        """Decide condition t, splitting the partition when undetermined."""
        t = self.truth(t)
        d = self.decide(t)
        if d is None and self.F and t.op in ('eq', 'lt0', 'truth', 'not'):
            d = self.decide_deep(t)
        if d is not None:
            return d
        if self.flags.get('ct') and not self.quiet:
            self.effect('br', t)
        if t.op == 'and':
            was, self.quiet = self.quiet, True
            try:
                for x in t.a:
                    if not self.branch(x):
                        return False
            finally:
                self.quiet = was
            return True
        if t.op == 'not':
            return not self.branch(t.a[0])
        self.conds.append((t, self.site()))
        if self.nested is not None and self.nested.get('nobranch'):
            raise Unsupported('undecided condition in comprehension')
        c = self.choose(2, label)
        val = (c == 0)
        self.assume(t, val)
        return val

    def truth(self, v):
        r = self.H.get(v)
        if r is not None:
            if r.kind in ('list', 'set', 'dict'):
                if any(True for s in r.items if not (r.kind == 'list' and s[0] == 's')):
                    return TRUE
                if r.kind == 'list':
                    ss = [T.truth(s[1]) for s in r.items]
                    return T.or_(*ss) if ss else FALSE
                if r.meta.get('rest') is not None:
                    return T.truth(r.meta['rest'])
                return FALSE
            if r.kind == 'inst':
                for m in ('__bool__', '__nonzero__', '__len__'):
                    f = self.class_attr(r.cls, m)
                    if f is not None:
                        return self.truth(self.call(mk('bm', v, f), [], {}))
                return TRUE
            return TRUE
        return T.truth(v)

    # ------------------------------------------------------------ equality
    def pyeq(self, a, b):
        if a is b:
            return TRUE
        ra, rb = self.H.get(a), self.H.get(b)
        if ra is not None and ra.kind == 'inst':
            f = self.class_attr(ra.cls, '__eq__')
            if f is not None and self.kind(f) == 'fn':
                return self.truth(self.call(mk('bm', a, f), [b], {}))
        if rb is not None and rb.kind == 'inst':
            f = self.class_attr(rb.cls, '__eq__')
            if f is not None and self.kind(f) == 'fn':
                return self.truth(self.call(mk('bm', b, f), [a], {}))
        if a.op == 'tuple' and b.op == 'tuple':
            if len(a.a[0]) != len(b.a[0]):
                return FALSE
            return T.and_(*[self.pyeq(x, y) for x, y in zip(a.a[0], b.a[0])])
        if ra is not None and rb is not None:
            if ra.kind == rb.kind == 'list':
                if all(s[0] == 'i' for s in ra.items + rb.items):
                    if len(ra.items) != len(rb.items):
                        return FALSE
                    return T.and_(*[self.pyeq(x[1], y[1])
                                    for x, y in zip(ra.items, rb.items)])
                if ra.items == rb.items:
                    return TRUE
                return mk('eq', a, b)
            if ra.kind == rb.kind == 'dict':
                return self.dict_eq(ra, rb)
            if ra.kind == rb.kind == 'set':
                if len(ra.items) != len(rb.items):
                    return FALSE
                return T.and_(*[T.or_(*[self.pyeq(x, y) for y in rb.items])
                                for x in ra.items])
            return FALSE
        if (ra is not None and ra.kind in ('list', 'dict', 'set') and
                (b.op == 'const' or b.op == 'tuple')) or \
           (rb is not None and rb.kind in ('list', 'dict', 'set') and
                (a.op == 'const' or a.op == 'tuple')):
            return FALSE
        # fresh randomness never coincides (idealised CSPRNG)
        if a.op == 'urandom' and b.op == 'urandom':
            return FALSE
        if a.op == b.op and a.op in ('pickled', 'b64enc') and \
                not isinstance(a.a[0], tuple):
            return self.pyeq(a.a[0], b.a[0])
        if a.op == b.op == 'snap':
            return self.snap_eq(a, b)
        if a.op == b.op == 'json' and a.a[0].op == b.a[0].op:
            if a.a[0] is b.a[0]:
                return TRUE
        return T.eq(a, b)

    def snap_eq(self, a, b):
        if len(a.a) != len(b.a):
            return FALSE
        out = []
        for x, y in zip(a.a, b.a):
            if isinstance(x, T.Term) and isinstance(y, T.Term):
                out.append(self.pyeq(x, y))
            elif isinstance(x, tuple) and isinstance(y, tuple):
                if len(x) != len(y):
                    return FALSE
                for p, q in zip(x, y):
                    if isinstance(p, T.Term):
                        out.append(self.pyeq(p, q))
                    elif isinstance(p, tuple):
                        if len(p) != len(q):
                            return FALSE
                        for u, w in zip(p, q):
                            if isinstance(u, T.Term):
                                out.append(self.pyeq(u, w))
                            elif u != w:
                                return FALSE
                    elif p != q:
                        return FALSE
            elif x != y:
                return FALSE
        return T.and_(*out)

    def dict_eq(self, ra, rb):
        if ra.meta.get('rest') is not None or rb.meta.get('rest') is not None:
            return unknown('dict eq')
        if len(ra.items) != len(rb.items):
            return FALSE
        out = []
        for k, v in ra.items:
            alts = []
            for k2, v2 in rb.items:
                e = self.pyeq(k, k2)
                if e is FALSE:
                    continue
                alts.append(T.and_(e, self.pyeq(v, v2)))
            out.append(T.or_(*alts) if alts else FALSE)
        return T.and_(*out)

    # ------------------------------------------------------------ dicts
    def dict_find(self, d, key):
        """index of the entry for key (splitting if needed) or None."""
        r = self.H[d]
        und = []
        for i, (k, v) in enumerate(r.items):
            e = self.pyeq(k, key)
            dec = self.decide(e)
            if dec is True:
                return i
            if dec is None:
                und.append((i, e))
        for i, e in und:
            if self.branch(e):
                return i
        return None

    def dict_get(self, d, key, default=None, raising=True):
        r = self.H[d]
        i = self.dict_find(d, key)
        if i is not None:
            return r.items[i][1]
        if r.meta.get('rest') is not None:
            rest = r.meta['rest']
            if raising and default is None:
                return mk('getitem', rest, key)
            if self.branch(mk('in', key, rest)):
                return mk('getitem', rest, key)
            return default if default is not None else NONE
        if r.meta.get('default') is not None:
            v = self.call(r.meta['default'], [], {})
            self.dict_set(d, key, v)
            return v
        if raising:
            self.raise_py('KeyError', [key])
        return default if default is not None else NONE

    def dict_set(self, d, key, val):
        r = self.H[d]
        self.wr(d, 'items')
        i = self.dict_find(d, key)
        if i is not None:
            r.items[i] = [r.items[i][0], val]
        else:
            r.items.append([key, val])

    def dict_del(self, d, key, default=None, raising=True):
        r = self.H[d]
        self.wr(d, 'items')
        i = self.dict_find(d, key)
        if i is not None:
            return r.items.pop(i)[1]
        if r.meta.get('rest') is not None:
            return mk('getitem', r.meta['rest'], key)
        if raising:
            self.raise_py('KeyError', [key])
        return default if default is not None else NONE

    # ------------------------------------------------------------ exceptions
    def raise_py(self, name, args=()):
        t = self.alloc('inst', name, cls=mk('ext', name),
                       f={'args': mk('tuple', tuple(args))})
        if name == 'SystemExit':
            self.H[t].f['code'] = args[0] if args else NONE
        raise AbsExc(t, self.site())

    def exc_bases(self, c):
        """python-level exception class of an ext class term, if any"""
        if c.op == 'ext':
            n = c.a[0]
            if n in PYEXC:
                return PYEXC[n]
            if n in EXTEXC:
                return EXTEXC[n]
            last = n.split('.')[-1]
            if n.startswith('builtins.') and last in PYEXC:
                return PYEXC[last]
        return None

    def mro(self, c):
        """linearised bases (C3 for repo classes, ext bases appended)."""
        if c.op != 'cls':
            return [c]
        seqs = []
        r = self.H[c]
        for b in r.meta['bases']:
            seqs.append(list(self.mro(b)))
        seqs.append(list(r.meta['bases']))
        out = [c]
        seqs = [s for s in seqs if s]
        while seqs:
            cand = None
            for s in seqs:
                if not any(s[0] in t[1:] for t in seqs):
                    cand = s[0]
                    break
            if cand is None:
                cand = seqs[0][0]
            out.append(cand)
            seqs = [[x for x in s if x is not cand] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def issub(self, c, d):
        """True/False/None"""
        if c is d:
            return True
        m = self.mro(c)
        if d in m:
            return True
        if d.op == 'ext':
            if d.a[0] in ('object', 'builtins.object'):
                return True
            dp = self.exc_bases(d)
            for b in m:
                bp = self.exc_bases(b)
                if dp and bp and issubclass(bp, dp):
                    return True
        if d.op == 'ext' and self.exc_bases(d) is None:
            if any(b.op == 'ext' and self.exc_bases(b) is None and
                   b.a[0] not in ('object', 'type') for b in m):
                return None
        return False

    def exc_matches(self, e, spec):
        if spec.op == 'tuple':
            return any(self.exc_matches(e, x) for x in spec.a[0])
        c = self.H[e].cls
        if self.H[e].meta.get('anyof'):
            # an opaque exception: split on membership
            r = self.issub(c, spec)
            if r:
                return True
            return self.branch(mk('isinstance', e, spec))
        r = self.issub(c, spec)
        if r is None:
            return self.branch(mk('isinstance', e, spec))
        return r

    # ------------------------------------------------------------ modules
    def import_module(self, name):
        t = mk('module', name)
        if t in self.H:
            return t
        if name in self.prog.paths:
            self.H[t] = Rec('mod', f={'__name__': const(name),
                                      '__file__': const('/src/' + name.replace('.', '/') + '.py')},
                            meta={'file': self.prog.files[name]})
            tree = self.prog.trees[name]
            saved = self.stack, self.line
            fn = self.relfile(self.prog.files[name])
            self.stack = [('<module>', fn)]
            self.exec_block(tree.body, t)
            self.stack, self.line = saved
            return t
        return None

    @staticmethod
    def relfile(p):
        for root in ('/repo/',):
            i = p.find(root)
            if i >= 0:
                return p[i + len(root):]
        parts = p.split('/')
        if 'python' in parts:
            return '/'.join(parts[parts.index('python'):])
        return p

    def exec_driver(self, tree, name):
        t = self.alloc('mod', name, f={'__name__': const(name)},
                       meta={'file': 'driver'})
        self.stack = [('<driver>', 'driver')]
        self.exec_block(tree.body, t)
        return t

    # ------------------------------------------------------------ classes
    def class_attr(self, c, name):
        for k in self.mro(c):
            if k.op == 'cls':
                r = self.H[k]
                if name in r.f:
                    return r.f[name]
        return None

    def live(self, full):
        """the process-wide list sys.path"""
        if full != 'sys.path' or self.init_mode:
            return None
        if self.syspath is None:
            self.syspath = self.newlist([const('/entry')])
        return self.syspath

    def is_abstract(self, v):
        r = self.H.get(v)
        if r is None:
            return False
        if r.meta and r.meta.get('abstract'):
            return True
        return r.kind in ('static', 'classm', 'property', 'prop') and any(
            self.is_abstract(x) for x in r.f.values() if isinstance(x, T.Term))

    def class_def_of(self, c, name):
        for k in self.mro(c):
            if k.op == 'cls' and name in self.H[k].f:
                return k
        return None

    def instantiate(self, c, args, kw):
        if self.H[c].meta.get('enum'):
            for k, v in self.H[c].f.items():
                r = self.H.get(v)
                if r is not None and r.kind == 'inst' and r.cls is c and self.branch(self.pyeq(r.f['value'], args[0])):
                    return v
            self.raise_py('ValueError')
        init = self.class_attr(c, '__init__')
        label = c.a[0].split('.')[-1]
        o = self.alloc('inst', label, cls=c)
        new = self.class_attr(c, '__new__')
        if new is not None:
            raise Unsupported('__new__')
        if self.H[c].meta.get('abc'):
            names = set()
            for k in self.mro(c):
                if k.op == 'cls':
                    names.update(self.H[k].f)
            for n in sorted(names):
                if self.is_abstract(self.class_attr(c, n)):
                    self.raise_py('TypeError', [const("Can't instantiate abstract class " + label)])
        if init is not None:
            self.call(mk('bm', o, init), args, kw)
        else:
            base = [b for b in self.mro(c) if b.op == 'ext']
            if any(self.exc_bases(b) for b in base):
                self.H[o].f['args'] = mk('tuple', tuple(args))
            elif args or kw:
                if any(b.a[0] not in ('object',) for b in base):
                    self.H[o].f['args'] = mk('tuple', tuple(args))
                else:
                    self.raise_py('TypeError')
        return o

    # ------------------------------------------------------------ attributes
    def getattr(self, v, name, default=None):
        r = self.H.get(v)
        if r is not None:
            if r.kind == 'mod':
                if name in r.f:
                    return r.f[name]
                sub = '%s.%s' % (v.a[0], name)
                if sub in self.prog.paths:
                    return self.import_module(sub)
                if default is not None:
                    return default
                self.raise_py('AttributeError', [const(name)])
            if r.kind == 'class':
                a = self.class_attr(v, name)
                if a is not None:
                    return self.bind_class(v, a)
                if name in ('__name__', '__qualname__'):
                    return const(r.meta['name'])
                if name == '__doc__':
                    return r.meta.get('doc', NONE)
                if name in ('__subclasses__', 'mro'):
                    return mk('bm', v, mk('ext', 'type.' + name))
                if name == '__mro__':
                    return mk('tuple', tuple(self.mro(v)))
                if name == '__dict__':
                    return self.alloc('ext', 'instdict', cls='instdict', f={'of': v})
                for b in self.mro(v):
                    if b.op == 'ext' and b.a[0] != 'object':
                        return mk('ext', b.a[0] + '.' + name)
                if name in ('__init__',):
                    return mk('ext', 'object.__init__')
                if default is not None:
                    return default
                self.raise_py('AttributeError', [const(name)])
            if r.kind == 'inst':
                return self.inst_getattr(v, r, name, default)
            if r.kind == 'fn':
                if name in r.f:
                    return r.f[name]
                if name in ('__name__', '__qualname__'):
                    return const(r.meta['name'])
                if name == '__doc__':
                    return r.meta.get('doc', NONE)
                if name == '__module__':
                    return const(r.meta['module'])
                if default is not None:
                    return default
                return unknown('function attribute ' + name)
            if r.kind == 'ext':
                if name in r.f:
                    return r.f[name]
                from . import ext
                if not ext.has_method(r.cls, name):
                    if default is not None:
                        return default
                    if r.cls == 'ckey' and name in ext.CK[cval(r.f['kind'])]:
                        self.raise_py('AttributeError', [const(name)])
                return mk('bm', v, mk('ext', '%s.%s' % (r.cls, name)))
            if r.kind == 'prop':
                if name in ('setter', 'getter', 'deleter'):
                    return mk('bm', v, mk('ext', 'property.' + name))
                return unknown('property attr')
            if r.kind in ('list', 'dict', 'set'):
                return mk('bm', v, mk('ext', '%s.%s' % (r.kind, name)))
        if v.op == 'ext':
            from . import ext
            full = ext.canon(v.a[0] + '.' + name)
            c = self.live(full) or ext.CONSTS.get(full) or self.prelude(PRELUDE.get(full))
            if c is not None:
                return c
            if name in ('__name__', '__qualname__') and v.a[0] in ext.BUILTINS:
                return const(v.a[0])
            return mk('ext', full)
        if v.op == 'bm':
            if name == '__name__':
                f = v.a[1]
                rr = self.H.get(f)
                return const(rr.meta['name'] if rr else f.a[0].split('.')[-1])
            if name in ('__self__', 'im_self'):
                return v.a[0]
            if name in ('__func__', 'im_func'):
                return v.a[1]
            return self.getattr(v.a[1], name, default)
        if v is NONE:
            if default is not None:
                return default
            self.raise_py('AttributeError', [const(name)])
        if v.op == 'tuple':
            return mk('bm', v, mk('ext', 'tuple.' + name))
        if isstr(v):
            return mk('bm', v, mk('ext', 'str.' + name))
        if isnum(v):
            return mk('bm', v, mk('ext', 'int.' + name))
        if v.op == 'super':
            return self.super_getattr(v, name)
        if (v, name) in self.overlay:
            return self.overlay[(v, name)]
        return mk('field', v, name)

    def bind_class(self, c, a):
        r = self.H.get(a)
        if r is not None:
            if r.kind == 'static':
                return r.f['fn']
            if r.kind == 'classm':
                return mk('bm', c, r.f['fn'])
        return a

    def inst_getattr(self, v, r, name, default=None):
        c = r.cls
        a = self.class_attr(c, name) if c.op == 'cls' else None
        ra = self.H.get(a) if a is not None else None
        if ra is not None and ra.kind == 'prop':
            if ra.f.get('get') is None:
                self.raise_py('AttributeError', [const(name)])
            return self.call(ra.f['get'], [v], {})
        if name in r.f:
            return r.f[name]
        if a is not None:
            if ra is not None:
                if ra.kind == 'fn':
                    return mk('bm', v, a)
                if ra.kind == 'static':
                    return ra.f['fn']
                if ra.kind == 'classm':
                    return mk('bm', c, ra.f['fn'])
                if ra.kind == 'cachedprop':
                    val = self.call(ra.f['get'], [v], {})
                    self.wr(v, name)
                    r.f[name] = val
                    return val
            return a
        if name == '__class__':
            return c
        if name == '__dict__':
            return self.alloc('ext', 'instdict', cls='instdict', f={'of': v})
        if c.op == 'cls':
            for b in self.mro(c):
                if b.op == 'ext' and b.a[0] != 'object' and not self.exc_bases(b):
                    return mk('bm', v, mk('ext', b.a[0] + '.' + name))
            g = self.class_attr(c, '__getattr__')
            if g is not None:
                return self.call(mk('bm', v, g), [const(name)], {})
        if name == '__str__' or name == '__repr__':
            return mk('bm', v, mk('ext', 'object.' + name))
        if name in ('__cause__', '__context__', '__traceback__'):
            return NONE
        if name == 'message' and 'args' in r.f:
            return T.item(r.f['args'], ZERO) if r.f['args'].a[0] else EMPTY
        if name == 'with_traceback':
            return mk('bm', v, mk('ext', 'exc.with_traceback'))
        if c.op == 'ext' and not self.exc_bases(c):
            return mk('field', v, name)
        if self.exc_bases(c) and name in ('errno', 'strerror', 'filename', 'output',
                                          'returncode', 'cmd', 'start', 'end'):
            return mk('field', v, name)
        if default is not None:
            return default
        self.raise_py('AttributeError', [const(name)])

    def super_getattr(self, v, name):
        cls, obj = v.a
        r = self.H.get(obj)
        c = obj if obj.op == 'cls' else r.cls
        m = self.mro(c)
        m = m[m.index(cls) + 1:] if cls in m else m[1:]
        for k in m:
            if k.op == 'cls':
                f = self.H[k].f
                if name in f:
                    a = f[name]
                    ra = self.H.get(a)
                    if ra is not None and ra.kind == 'fn':
                        return mk('bm', obj, a)
                    if ra is not None and ra.kind == 'prop':
                        return self.call(ra.f['get'], [obj], {})
                    if ra is not None and ra.kind == 'static':
                        return ra.f['fn']
                    if ra is not None and ra.kind == 'classm':
                        return mk('bm', c, ra.f['fn'])
                    return a
            elif k.a[0] != 'object':
                return mk('bm', obj, mk('ext', k.a[0] + '.' + name))
        if name not in dir(object):
            self.raise_py('AttributeError', [const(name)])
        return mk('bm', obj, mk('ext', 'object.' + name))

    def setattr(self, v, name, val):
        r = self.H.get(v)
        if r is None:
            if v is NONE or isstr(v) or isnum(v):
                self.raise_py('AttributeError', [const(name)])
            self.overlay[(v, name)] = val
            self.effect('setattr', v, const(name), val)
            return
        if r.kind == 'inst' and r.cls.op == 'cls':
            a = self.class_attr(r.cls, name)
            ra = self.H.get(a) if a is not None else None
            if ra is not None and ra.kind == 'prop':
                if ra.f.get('set') is None:
                    self.raise_py('AttributeError', [const(name)])
                self.call(ra.f['set'], [v, val], {})
                return
        self.wr(v, name)
        r.f[name] = val

    # ------------------------------------------------------------ items
    def getitem(self, v, i):
        r = self.H.get(v)
        if v is ENVIRON:
            x = self.env.get(i, NONE)
            if x is NONE:
                self.raise_py('KeyError', [i])
            return x
        if r is not None:
            if r.kind == 'dict':
                return self.dict_get(v, i)
            if r.kind == 'list':
                return self.list_item(v, r, i)
            if r.kind == 'inst':
                f = self.class_attr(r.cls, '__getitem__')
                if f is not None:
                    return self.call(mk('bm', v, f), [i], {})
            if r.cls == 'instdict' and is_str(i):
                g = self.H[r.f['of']].f
                if cval(i) in g:
                    return g[cval(i)]
                self.raise_py('KeyError', [i])
            return unknown('getitem')
        if v.op == 'tuple' and is_int(i):
            n = len(v.a[0])
            if not -n <= cval(i) < n:
                self.raise_py('IndexError')
        if isstr(v):
            L = T.length(v)
            if is_int(i):
                k = cval(i)
                need = k + 1 if k >= 0 else -k
                short = T.lt(L, const(need))
                d = self.decide(short)
                if d is True:
                    self.raise_py('IndexError')
                if d is None and self.flags.get('strict'):
                    if self.branch(short):
                        self.raise_py('IndexError')
            return T.item(v, i)
        if v.op in ('tuple', 'const'):
            if v is NONE:
                self.raise_py('TypeError')
            return T.item(v, i)
        if isnum(v):
            self.raise_py('TypeError')
        return mk('getitem', v, i)

    def list_item(self, v, r, i):
        if is_int(i):
            k = cval(i)
            segs = r.items
            if all(s[0] == 'i' for s in segs):
                if -len(segs) <= k < len(segs):
                    return segs[k][1]
                self.raise_py('IndexError')
            if k >= 0 and k < len(segs) and all(s[0] == 'i' for s in segs[:k + 1]):
                return segs[k][1]
            if k < 0 and -k <= len(segs) and all(s[0] == 'i' for s in segs[k:]):
                return segs[k][1]
        return mk('getitem', self.freeze(v), i)

    def setitem(self, v, i, val):
        r = self.H.get(v)
        if r is not None:
            if r.kind == 'dict':
                return self.dict_set(v, i, val)
            if r.kind == 'list':
                self.wr(v, 'items')
                if is_int(i) and all(s[0] == 'i' for s in r.items):
                    k = cval(i)
                    if not -len(r.items) <= k < len(r.items):
                        self.raise_py('IndexError')
                    r.items[k] = ('i', val)
                    return
                r.items = [('s', unknown('list store'))]
                return
            if r.kind == 'inst':
                f = self.class_attr(r.cls, '__setitem__')
                if f is not None:
                    self.call(mk('bm', v, f), [i, val], {})
                    return
            if r.cls == 'instdict' and is_str(i):
                self.wr(r.f['of'], cval(i))
                self.H[r.f['of']].f[cval(i)] = val
                return
        self.effect('setitem', v, i, val)

    def getslice(self, v, lo, hi, step):
        r = self.H.get(v)
        if step is not NONE and not is_const(step, 1):
            if is_const(step, -1) and lo is NONE and hi is NONE:
                if r is not None and r.kind == 'list':
                    return self.alloc('list', 'list', items=list(reversed(r.items)))
                if is_str(v):
                    return const(cval(v)[::-1])
                if v.op == 'concat' and all(is_int(T.length(p)) and
                                            cval(T.length(p)) == 1 for p in v.a):
                    return T.concat(*reversed(v.a))
            if r is not None and r.kind == 'list' and \
                    all(x is NONE or is_int(x) for x in (lo, hi, step)) and \
                    all(s[0] == 'i' for s in r.items):
                g = lambda x: None if x is NONE else cval(x)
                return self.alloc('list', 'list', items=r.items[g(lo):g(hi):g(step)])
            n = T.length(v) if r is None and T.isstr(v) else None
            if n is not None and is_int(n) and cval(n) <= 64 and \
                    all(x is NONE or is_int(x) for x in (lo, hi, step)):
                g = lambda x: None if x is NONE else cval(x)
                at = list(range(cval(n)))[g(lo):g(hi):g(step)]
                return T.concat(*[T.slc(v, const(i), const(i + 1)) for i in at]) if at else const('')
            return unknown('step slice')
        if r is not None and r.kind == 'list':
            g = lambda x: None if x is NONE else cval(x)
            if all(x is NONE or is_int(x) for x in (lo, hi)) and \
                    all(s[0] == 'i' for s in r.items):
                return self.alloc('list', 'list', items=list(r.items[g(lo):g(hi)]))
            if lo is NONE and hi is NONE:
                return self.alloc('list', 'list', items=list(r.items))
            return self.alloc('list', 'list', items=[
                ('s', mk('slice', self.freeze(v), lo, hi))])
        if v is NONE or isnum(v):
            self.raise_py('TypeError')
        return T.slc(v, lo, hi)

    def freeze(self, v, depth=0):
        """immutable snapshot term of a heap value."""
        if depth > 12:
            return unknown('deep')
        r = self.H.get(v)
        if r is None:
            if v.op == 'tuple':
                return mk('tuple', tuple(self.freeze(x, depth + 1) for x in v.a[0]))
            return v
        if r.kind == 'list':
            return mk('list', tuple((k, self.freeze(x, depth + 1)) for k, x in r.items))
        if r.kind == 'dict':
            return mk('jdict', tuple((self.freeze(k, depth + 1), self.freeze(x, depth + 1))
                                     for k, x in r.items))
        if r.kind == 'set':
            return mk('jset', tuple(self.freeze(x, depth + 1) for x in r.items))
        if r.kind == 'inst':
            return mk('snap', r.cls.a[0], tuple(
                (k, self.freeze(x, depth + 1)) for k, x in sorted(r.f.items())))
        return v

    # ------------------------------------------------------------ iteration
    def seg_item(self, seg, i):
        """element i of a run of elements of unknown number, or None"""
        if seg.op == 'range':
            return const(i) if len(seg.a) == 1 else T.ladd(seg.a[0], const(i)) if len(seg.a) == 2 else None
        if seg.op == 'map' and seg.a[1] is NONE:
            src = self.seg_item(seg.a[0], i) if seg.a[0].op in ('map', 'range') else \
                mk('getitem', seg.a[0], const(i))
            return None if src is None else T.subst(seg.a[2], mk('elem', seg.a[0], 'it'), src)
        return None

    def iterate(self, v):
        """list of element terms, or None when the shape is not known."""
        r = self.H.get(v)
        if r is not None:
            if r.kind == 'list':
                if all(s[0] == 'i' for s in r.items):
                    return [s[1] for s in r.items]
                if len(r.items) == 1 and r.items[0][1].op in ('map', 'range'):
                    seg = r.items[0][1]
                    n = T.length(seg)
                    k = cval(n) if is_int(n) else self.const_of(n)
                    if k is None and is_int(self.find(n)):
                        k = cval(self.find(n))
                    if k is not None and 0 <= k <= 16:
                        out = [self.seg_item(seg, i) for i in range(k)]
                        if None not in out:
                            return out
                return None
            if r.kind == 'dict':
                if r.meta.get('rest') is None:
                    return [k for k, _ in r.items]
                return None
            if r.kind == 'set':
                return list(r.items)
            if r.kind == 'inst':
                f = self.class_attr(r.cls, '__iter__')
                if f is not None:
                    return self.iterate(self.call(mk('bm', v, f), [], {}))
                n = self.class_attr(r.cls, '__next__')
                if n is not None:
                    raise Unsupported('iterator protocol')
            if r.kind == 'ext' and r.cls == 'iter':
                return list(r.items)
            return None
        if v.op == 'tuple':
            return list(v.a[0])
        if v.op == 'const':
            x = cval(v)
            if isinstance(x, str):
                return [const(c) for c in x]
            if x is None or isinstance(x, (int, float)):
                self.raise_py('TypeError')
        if isstr(v):
            L = T.length(v)
            if not is_int(L):
                f = self.find(L)
                if is_int(f):
                    L = f
                else:
                    k = self.const_of(L)
                    if k is not None:
                        L = const(k)
            if is_int(L) and cval(L) <= 256:
                return [T.item(v, const(i)) for i in range(cval(L))]
        if isnum(v):
            self.raise_py('TypeError')
        return None

    def const_of(self, l):
        """constant value of a linear term known from facts, if any"""
        for f in self.L:
            d = T.ladd(f, l, -1)
            if is_int(d):
                # f >= 0 with f = l + c : l >= -c ; need also the upper bound
                c = cval(d)
                if self.entails_ge0(T.ladd(const(-c), l, -1)):
                    return -c
        return None

    # ------------------------------------------------------------ calls
    def call(self, f, args, kw, node=None):
        r = self.H.get(f)
        if r is not None:
            if r.kind == 'fn':
                return self.call_fn(f, r, args, kw)
            if r.kind == 'class':
                return self.instantiate(f, args, kw)
            if r.kind == 'inst':
                m = self.class_attr(r.cls, '__call__')
                if m is not None:
                    return self.call(mk('bm', f, m), args, kw)
                self.raise_py('TypeError')
            if r.kind == 'static':
                return self.call(r.f['fn'], args, kw)
            if r.kind == 'partial':
                k2 = dict(r.f['kw'])
                k2.update(kw)
                return self.call(r.f['fn'], list(r.items) + args, k2)
            if r.kind in ('list', 'dict', 'set', 'mod'):
                self.raise_py('TypeError')
            return self.opaque_call(f, args, kw)
        if f.op == 'bm':
            s, g = f.a
            if g.op == 'ext':
                from . import ext
                return ext.call_method(self, s, g.a[0], args, kw)
            return self.call(g, [s] + args, kw)
        if f.op == 'ext':
            from . import ext
            return ext.call(self, f.a[0], args, kw)
        if f is NONE or isstr(f) or isnum(f):
            self.raise_py('TypeError')
        return self.opaque_call(f, args, kw)

    def opaque_call(self, f, args, kw):
        kws = tuple(sorted(kw.items()))
        fa = tuple(self.freeze(a) if self.kind(a) in ('list', 'dict', 'set') else a
                   for a in args)
        key = (f, fa, kws)
        n = self.seq.get(key, 0)
        self.seq[key] = n + 1
        res = mk('res', n, f, fa + tuple(mk('kw', k, v) for k, v in kws))
        self.effect('call', f, fa, res)
        if self.flags.get('opaque_raise') and self.choose(2, 'raise'):
            e = self.alloc('inst', 'OpaqueError', cls=mk('ext', 'Exception'),
                           meta={'anyof': True})
            raise AbsExc(e, self.site())
        return res

    def bind(self, node, rec, args, kw):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        f = {}
        kw = dict(kw)
        nd = len(a.defaults)
        for i, p in enumerate(pos):
            if i < len(args):
                if p in kw:
                    self.raise_py('TypeError')
                f[p] = args[i]
            elif p in kw:
                f[p] = kw.pop(p)
            elif i >= len(pos) - nd:
                f[p] = rec.items[i - (len(pos) - nd)]
            else:
                self.raise_py('TypeError', [const('missing argument %s' % p)])
        if len(args) > len(pos):
            if not a.vararg:
                self.raise_py('TypeError', [const('too many arguments')])
        if a.vararg:
            f[a.vararg.arg] = mk('tuple', tuple(args[len(pos):]))
        for i, p in enumerate(a.kwonlyargs):
            if p.arg in kw:
                f[p.arg] = kw.pop(p.arg)
            elif p.arg in rec.meta['kwd']:
                f[p.arg] = rec.meta['kwd'][p.arg]
            else:
                self.raise_py('TypeError')
        if a.kwarg:
            f[a.kwarg.arg] = self.newdict([(const(k), v) for k, v in kw.items()])
        elif kw:
            self.raise_py('TypeError', [const('unexpected keyword')])
        return f

    def call_fn(self, f, rec, args, kw, yield_hook=None):
        node = rec.meta['node']
        if len(self.stack) > MAXDEPTH:
            return unknown('recursion depth')
        q = rec.meta['qual']
        if sum(1 for s, _ in self.stack if s == q) > 24:
            raise Unsupported('recursion in ' + q)
        if rec.meta.get('intrinsic') and not self.flags.get('raw') and \
                not self.init_mode:
            try:
                return rec.meta['intrinsic'](self, args, kw)
            except NotImplementedError:
                pass
        loc = self.bind(node, rec, args, kw)
        env = self.alloc('env', q, f=loc, meta={
            'parent': rec.meta['env'], 'locals': rec.meta['locals'],
            'globals': rec.meta['globals'], 'nonlocals': rec.meta['nonlocals'],
            'module': rec.meta['modt'], 'defcls': rec.meta.get('defcls'),
            'self': args[0] if args else None})
        if self.res is not None and not rec.meta['file'].startswith('driver'):
            self.res.functions.add('%s:%s' % (rec.meta['file'], q))
        self.stack.append((q, rec.meta['file']))
        self.calls.append((q, rec.meta['file'], self.line))
        line = self.line
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, env)
            if rec.meta['gen']:
                if rec.meta.get('ctxmgr') and yield_hook is None:
                    return self.alloc('ext', 'ctx', cls='ctxmgr', f={'fn': f},
                                      items=list(args), meta={'kw': kw})
                frame = (q, rec.meta['file'])

                def run(out):
                    self.stack.append(frame)
                    self.yields.append(out)
                    ln = self.line
                    try:
                        self.exec_block(node.body, env)
                    except _Return:
                        pass
                    finally:
                        self.yields.pop()
                        self.stack.pop()
                        self.line = ln
                if yield_hook is not None:
                    run(yield_hook)
                    return NONE
                t = self.alloc('list', 'gen', meta={'gen': True})
                r = LazyRec('list', meta={'gen': True})
                r.thunk = run
                self.H[t] = r
                return t
            try:
                self.exec_block(node.body, env)
            except _Return as r:
                return r.v
            return NONE
        finally:
            self.stack.pop()
            if self.calls and self.calls[-1][1] == 'driver':
                pass
            self.line = line

    # ------------------------------------------------------------ functions
    def make_fn(self, node, env, name):
        er = self.H[env]
        modt = env if er.kind == 'mod' else er.meta.get('module')
        outer = er.meta.get('qual', '') if er.kind in ('class', 'clsenv') else ''
        qual = (outer + '.' + name) if outer else name
        loc, glob, nonl = _locals(node)
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            loc.add(x.arg)
        if a.vararg:
            loc.add(a.vararg.arg)
        if a.kwarg:
            loc.add(a.kwarg.arg)
        defaults = [self.ev(d, env) for d in a.defaults]
        kwd = {}
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[p.arg] = self.ev(d, env)
        mrec = self.H[modt]
        fenv = env
        defcls = None
        if er.kind == 'clsenv':
            fenv = er.meta['parent']
            defcls = er.meta['cls']
        else:
            defcls = er.meta.get('defcls')
        file = mrec.meta.get('file', 'driver')
        doc = NONE
        if not isinstance(node, ast.Lambda):
            d = ast.get_docstring(node, clean=False)
            doc = const(d) if d is not None else NONE
        t = self.alloc('fn', qual, items=defaults, meta={
            'node': node, 'env': fenv, 'name': name, 'qual': qual, 'locals': loc,
            'globals': glob, 'nonlocals': nonl, 'kwd': kwd, 'modt': modt,
            'module': modt.a[0], 'defcls': defcls, 'doc': doc,
            'gen': (not isinstance(node, ast.Lambda)) and _has_yield(node),
            'file': self.relfile(file) if file != 'driver' else 'driver'})
        return t

    # ------------------------------------------------------------ variables
    def lookup(self, name, env):
        e = env
        er = self.H[e]
        if er.kind == 'env':
            if name in er.meta['globals']:
                e = er.meta['module']
            elif name in er.meta['nonlocals']:
                e = er.meta['parent']
            elif name in er.meta['locals'] and name not in er.f:
                self.raise_py('UnboundLocalError', [const(name)])
        while e is not None:
            er = self.H[e]
            if name in er.f:
                return er.f[name]
            if er.kind == 'mod':
                break
            e = er.meta.get('parent')
        return self.builtin(name)

    def prelude(self, name):
        return self.H[mk('module', 'kz_prelude')].f.get(name) if name else None

    def builtin(self, name):
        from . import ext
        if name in PRELUDE:
            return self.prelude(PRELUDE[name]) or mk('ext', name)
        if name in PYEXC:
            return mk('ext', {'IOError': 'OSError', 'EnvironmentError': 'OSError'}.get(name, name))
        if name in ext.BUILTINS:
            return mk('ext', name)
        if name == 'KZ':
            return mk('ext', 'KZ')
        if name in ('True', 'False', 'None'):
            return {'True': TRUE, 'False': FALSE, 'None': NONE}[name]
        if name == 'NotImplemented':
            return mk('ext', 'NotImplemented')
        if name == '__debug__':
            return TRUE
        import builtins
        if hasattr(builtins, name):
            return mk('ext', name)
        self.raise_py('NameError', [const(name)])

    def store(self, name, env, val):
        er = self.H[env]
        e = env
        if er.kind == 'env':
            if name in er.meta['globals']:
                e = er.meta['module']
            elif name in er.meta['nonlocals']:
                e = er.meta['parent']
                while e is not None and name not in self.H[e].f:
                    e = self.H[e].meta.get('parent')
                if e is None:
                    raise Unsupported('nonlocal')
        self.wr(e, name)
        self.H[e].f[name] = val

    def assign(self, tgt, val, env):
        if isinstance(tgt, ast.Name):
            self.store(tgt.id, env, val)
        elif isinstance(tgt, ast.Attribute):
            self.setattr(self.ev(tgt.value, env), tgt.attr, val)
        elif isinstance(tgt, ast.Subscript):
            o = self.ev(tgt.value, env)
            if isinstance(tgt.slice, ast.Slice):
                lo = self.ev(tgt.slice.lower, env) if tgt.slice.lower else NONE
                hi = self.ev(tgt.slice.upper, env) if tgt.slice.upper else NONE
                r = self.H.get(o)
                xs = self.iterate(val)
                if r is not None and r.kind == 'list' and lo is NONE and hi is NONE \
                        and xs is not None:
                    self.wr(o, 'items')
                    r.items = [('i', x) for x in xs]
                    return
                raise Unsupported('slice assignment')
            self.setitem(o, self.ev(tgt.slice, env), val)
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            self.unpack(tgt.elts, val, env)
        elif isinstance(tgt, ast.Starred):
            self.assign(tgt.value, val, env)
        else:
            raise Unsupported('assign ' + type(tgt).__name__)

    def unpack(self, elts, val, env):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        items = self.iterate(val)
        if items is None:
            if star:
                raise Unsupported('star unpack')
            if val.op in ('split', 'res', 'getitem', 'field', 'sym', 'unknown',
                          'elem', 'loopvar', 'map'):
                L = mk('len', val)
                if val.op == 'split' or self.flags.get('strict'):
                    if not self.branch(T.eq(L, const(n))):
                        self.raise_py('ValueError', [const('unpack')])
            r = self.H.get(val)
            if r is not None and r.kind == 'list' and len(r.items) == 1:
                items = [self.seg_item(r.items[0][1], i) for i in range(n)]
            if items is None or None in items:
                items = [mk('getitem', val, const(i)) for i in range(n)]
        if star:
            i = star[0]
            after = n - i - 1
            if len(items) < n - 1:
                self.raise_py('ValueError')
            mid = items[i:len(items) - after]
            vals = items[:i] + [self.newlist(mid)] + (items[len(items) - after:] if after else [])
        else:
            if len(items) != n:
                self.raise_py('ValueError', [const('unpack')])
            vals = items
        for e, v in zip(elts, vals):
            self.assign(e, v, env)

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for s in body:
            self.ex(s, env)

    def ex(self, s, env):
        self.line = getattr(s, 'lineno', self.line)
        m = getattr(self, 'ex_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement ' + type(s).__name__)
        return m(s, env)

    def ex_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def ex_Pass(self, s, env):
        pass

    def ex_Return(self, s, env):
        raise _Return(self.ev(s.value, env) if s.value else NONE)

    def ex_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def ex_AnnAssign(self, s, env):
        if s.value:
            self.assign(s.target, self.ev(s.value, env), env)

    def ex_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            self.store(t.id, env, self.augop(s.op, cur, self.ev(s.value, env)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augop(s.op, cur, self.ev(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            i = self.ev(t.slice, env)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.augop(s.op, cur, self.ev(s.value, env)))
        else:
            raise Unsupported('augassign')

    def augop(self, op, cur, v):
        r = self.H.get(cur)
        if r is not None and r.kind == 'list' and isinstance(op, ast.Add):
            xs = self.iterate(v)
            self.wr(cur, 'items')
            if xs is None:
                rv = self.H.get(v)
                if rv is not None and rv.kind == 'list':
                    r.items.extend(rv.items)
                else:
                    r.items.append(('s', self.freeze(v)))
            else:
                r.items.extend(('i', x) for x in xs)
            return cur
        if r is not None and r.kind == 'set' and isinstance(op, ast.BitOr):
            from . import ext
            ext.call_method(self, cur, 'set.update', [v], {})
            return cur
        return self.binop(op, cur, v)

    def ex_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.wr(env, t.id)
                self.H[env].f.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                r = self.H.get(o)
                if r is not None:
                    self.wr(o, t.attr)
                    r.f.pop(t.attr, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                r = self.H.get(o)
                if isinstance(t.slice, ast.Slice):
                    lo = self.ev(t.slice.lower, env) if t.slice.lower else NONE
                    hi = self.ev(t.slice.upper, env) if t.slice.upper else NONE
                    if r is not None and r.kind == 'list' and all(
                            x is NONE or is_int(x) for x in (lo, hi)) and \
                            all(x[0] == 'i' for x in r.items):
                        self.wr(o, 'items')
                        g = lambda x: None if x is NONE else cval(x)
                        del r.items[g(lo):g(hi)]
                        continue
                    raise Unsupported('del slice')
                i = self.ev(t.slice, env)
                if r is not None and r.kind == 'dict':
                    self.dict_del(o, i)
                elif r is not None and r.kind == 'list' and is_int(i):
                    self.wr(o, 'items')
                    try:
                        del r.items[cval(i)]
                    except IndexError:
                        self.raise_py('IndexError')
                else:
                    self.effect('delitem', o, i)
            else:
                raise Unsupported('del')

    def ex_If(self, s, env):
        if self.branch(self.ev(s.test, env)):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def ex_Assert(self, s, env):
        if not self.branch(self.ev(s.test, env)):
            self.raise_py('AssertionError')

    def ex_Global(self, s, env):
        pass

    ex_Nonlocal = ex_Global

    def ex_Break(self, s, env):
        raise _Break()

    def ex_Continue(self, s, env):
        raise _Continue()

    def ex_FunctionDef(self, s, env):
        f = self.make_fn(s, env, s.name)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, env)
            f = self.call(dv, [f], {})
        self.store(s.name, env, f)

    def ex_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        bases = [b for b in bases if b is not mk('ext', 'object')] + \
                [b for b in bases if b is mk('ext', 'object')]
        er = self.H[env]
        outer = er.meta.get('qual', '') if er.kind == 'clsenv' else ''
        qual = (outer + '.' + s.name) if outer else s.name
        modt = env if er.kind == 'mod' else er.meta.get('module')
        if not bases:
            bases = [mk('ext', 'object')]
        d = ast.get_docstring(s, clean=False)
        c = self.alloc('class', qual, meta={
            'name': s.name, 'bases': bases, 'module': modt.a[0],
            'doc': const(d) if d is not None else NONE, 'subs': []})
        metas = [self.ev(k.value, env) for k in s.keywords if k.arg == 'metaclass']
        if mk('ext', 'abc.ABCMeta') in metas or mk('ext', 'abc.ABC') in bases or any(
                b.op == 'cls' and self.H[b].meta.get('abc') for b in bases):
            self.H[c].meta['abc'] = True
        for b in bases:
            if b.op == 'cls':
                self.wr(b, 'subs')
                self.H[b].meta['subs'] = self.H[b].meta['subs'] + [c]
        ce = self.alloc('clsenv', qual, meta={
            'parent': env if er.kind != 'clsenv' else er.meta['parent'],
            'module': modt, 'cls': c, 'qual': qual})
        self.H[ce].f['__module__'] = modt.a and const(modt.a[0]) or NONE
        self.H[ce].f['__qualname__'] = const(qual)
        # class bodies see their own names first, then the enclosing scope
        self.exec_block(s.body, ce)
        if any('dataclass' in ast.dump(x) for x in s.decorator_list):
            fs = [(x.target.id, x.value) for x in s.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
            if any(isinstance(v, ast.Call) for _, v in fs) or any(b.op == 'cls' for b in bases):
                raise Unsupported('dataclass fields')
            src = ''
            if '__init__' not in self.H[ce].f:
                src = 'def __init__(self%s):\n pass\n' % ''.join(
                    ', %s%s' % (n, '' if v is None else '=' + ast.unparse(v)) for n, v in fs) + \
                    ''.join(' self.%s = %s\n' % (n, n) for n, _ in fs)
            if '__eq__' not in self.H[ce].f:
                src += 'def __eq__(self, other):\n return self.__class__ is other.__class__%s\n' % ''.join(
                    ' and self.%s == other.%s' % (n, n) for n, _ in fs)
            self.exec_block(Program.parse(src, 'dataclass').body, ce)
        if any(b.op == 'ext' and b.a[0] in ('enum.Enum', 'enum.IntEnum', 'enum.Flag', 'enum.IntFlag') for b in bases):
            if mk('ext', 'enum.Enum') not in bases:
                raise Unsupported('enumeration with integer members')
            for k, v in list(self.H[ce].f.items()):
                vr = self.H.get(v)
                if k.startswith('_') or vr is not None and vr.kind in ('fn', 'class') or v.op in ('ext', 'fn'):
                    continue
                self.H[ce].f[k] = self.alloc('inst', qual + '.' + k, cls=c, f={'name': const(k), 'value': v})
            self.H[c].meta['enum'] = True
        self.H[c].f = self.H[ce].f
        v = c
        for dec in reversed(s.decorator_list):
            dv = self.ev(dec, env)
            v = self.call(dv, [v], {})
        self.store(s.name, env, v)

    def ex_Import(self, s, env):
        for a in s.names:
            top = a.name.split('.')[0]
            t = self.resolve_import(a.name)
            if a.asname:
                self.store(a.asname, env, t)
            else:
                self.store(top, env, self.resolve_import(top))

    def resolve_import(self, name):
        if name.split('.')[0] in self.prog.missing:
            self.raise_py('ImportError', [const(name)])
        t = self.import_module(name)
        if t is not None:
            return t
        from . import ext
        return mk('ext', ext.canon(name))

    def ex_ImportFrom(self, s, env):
        er = self.H[env]
        modt = env if er.kind == 'mod' else er.meta.get('module')
        mod = s.module or ''
        if s.level:
            pkg = modt.a[0].split('.')
            pkg = pkg[:len(pkg) - s.level] if modt.a[0] not in ('keyczar',) else pkg
            mod = '.'.join(pkg + ([mod] if mod else []))
        for a in s.names:
            if mod.split('.')[0] in self.prog.missing:
                self.raise_py('ImportError', [const(mod)])
            sub = mod + '.' + a.name
            if sub in self.prog.paths:
                t = self.import_module(sub)
                # attribute of the package wins only if it is not the module
            else:
                m = self.import_module(mod)
                if m is not None:
                    if a.name == '*':
                        for k, v in list(self.H[m].f.items()):
                            if not k.startswith('_'):
                                self.store(k, env, v)
                        continue
                    if a.name not in self.H[m].f:
                        self.raise_py('ImportError', [const(a.name)])
                    t = self.H[m].f[a.name]
                else:
                    from . import ext
                    full = ext.canon(sub)
                    t = self.live(full) or ext.CONSTS.get(full) or self.prelude(PRELUDE.get(full)) or mk('ext', full)
                    if full in EXTEXC and EXTEXC[full] in PYEXC.values():
                        t = mk('ext', full)
            self.store(a.asname or a.name, env, t)

    def ex_Raise(self, s, env):
        if s.exc is None:
            if not self.handling:
                self.raise_py('RuntimeError')
            raise AbsExc(self.handling[-1], self.site())
        v = self.ev(s.exc, env)
        if s.cause is not None:
            self.ev(s.cause, env)
        line = s.lineno
        raise AbsExc(self.to_exc(v), self.site())

    def to_exc(self, v):
        if v.op in ('cls',):
            return self.instantiate(v, [], {})
        if v.op == 'ext':
            return self.alloc('inst', v.a[0], cls=v, f={'args': mk('tuple', ())})
        r = self.H.get(v)
        if r is not None and r.kind == 'inst':
            return v
        # opaque exception value
        return self.alloc('inst', 'OpaqueError', cls=mk('ext', 'Exception'),
                          meta={'anyof': True})

    def ex_Try(self, s, env):
        try:
            try:
                self.exec_block(s.body, env)
            except AbsExc as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        ok = self.exc_matches(e.val, self.ev(h.type, env))
                    if ok:
                        if h.name:
                            self.store(h.name, env, e.val)
                        self.handling.append(e.val)
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self.handling.pop()
                            if h.name:
                                self.H[env].f.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, env)
        except (AbsExc, _Return, _Break, _Continue, _Leave):
            # finally runs on every exit and may override it
            self.exec_block(s.finalbody, env)
            raise
        self.exec_block(s.finalbody, env)

    def ex_Match(self, s, env):
        v = self.ev(s.subject, env)
        for c in s.cases:
            if self.matches(c.pattern, v, env) and (c.guard is None or self.branch(self.ev(c.guard, env))):
                self.exec_block(c.body, env)
                return

    def matches(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.branch(self.pyeq(v, self.ev(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return self.branch(self.pyeq(v, const(p.value)))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.matches(p.pattern, v, env):
                return False
            if p.name:
                self.store(p.name, env, v)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.matches(x, v, env) for x in p.patterns)
        if isinstance(p, ast.MatchSequence) and not any(isinstance(x, ast.MatchStar) for x in p.patterns):
            xs = None if isstr(v) else self.iterate(v)
            if xs is None:
                raise Unsupported('match pattern')
            return len(xs) == len(p.patterns) and all(self.matches(q, x, env) for q, x in zip(p.patterns, xs))
        raise Unsupported('match pattern')

    def ex_With(self, s, env, i=0):
        if i >= len(s.items):
            return self.exec_block(s.body, env)
        it = s.items[i]
        cm = self.ev(it.context_expr, env)
        r = self.H.get(cm)
        inner = lambda: self.ex_With(s, env, i + 1)
        if r is not None and r.kind == 'ext' and r.cls == 'ctxmgr':
            def hook(v):
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, env)
                st, self.stack = self.stack, self.stack[:-2] or self.stack
                ys, self.yields = self.yields, self.yields[:-1]
                try:
                    inner()
                except (_Return, _Break, _Continue) as e:
                    left.append(e)
                finally:
                    self.stack, self.yields = st, ys
                return NONE
            left = []
            fr = self.H[r.f['fn']]
            self.call_fn(r.f['fn'], fr, list(r.items), r.meta['kw'], yield_hook=hook)
            if left:
                raise left[0]
            return
        if r is not None and r.kind == 'inst':
            v = self.call(self.getattr(cm, '__enter__'), [], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
            ex = self.getattr(cm, '__exit__')
            try:
                inner()
            except AbsExc as e:
                sup = self.call(ex, [self.H[e.val].cls, e.val, NONE], {})
                if self.branch(sup):
                    return
                raise
            except (_Return, _Break, _Continue, _Leave):
                self.call(ex, [NONE, NONE, NONE], {})
                raise
            self.call(ex, [NONE, NONE, NONE], {})
            return
        from . import ext
        v, leave = ext.enter(self, cm)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        try:
            inner()
        except AbsExc as e:
            if leave(e.val):
                return
            raise
        except (_Return, _Break, _Continue, _Leave):
            leave(None)
            raise
        leave(None)

    # ------------------------------------------------------------ loops
    def snapshot(self):
        return ({k: v.clone() for k, v in self.H.items()}, dict(self.F), list(self.L),
                dict(self.parent), list(self.effects), dict(self.fs), dict(self.overlay),
                len(self.stack), list(self.pending), self.counter, dict(self.seq),
                list(self.conds))

    def restore(self, s):
        (H, self.F, self.L, self.parent, self.effects, self.fs, self.overlay, n,
         self.pending, self.counter, self.seq, self.conds) = s
        # records keep their identity so that references held by callers survive
        self.H = H
        del self.stack[n:]

    def clone_snapshot(self, s):
        return ({k: v.clone() for k, v in s[0].items()},) + tuple(
            copy.copy(x) for x in s[1:])

    def widen(self, run_body, key):
        """Collect everything run_body may write (over all its partitions) and
        replace it by fresh loop values.  Returns the effects seen."""
        base = self.snapshot()
        saved = (self.trail, self.prefix, self.wlog, self.res, self.yields)
        self.yields = [list(y) if isinstance(y, list) else y for y in self.yields]
        writes = set()
        effs = []
        prefix = []
        depth = getattr(self, '_widening', 0)
        if depth >= 2:
            raise Unsupported('nested widening')
        self._widening = depth + 1
        n = 0
        try:
            while True:
                self.restore(self.clone_snapshot(base))
                self.trail, self.prefix, self.wlog = [], prefix, set()
                self.res = None
                ne = len(self.effects)
                try:
                    run_body()
                except (_Return, _Break, _Continue, AbsExc, Infeasible, Cut):
                    pass
                writes |= self.wlog
                effs.append(tuple(self.effects[ne:]))
                trail = self.trail
                while trail and trail[-1][0] + 1 >= trail[-1][1]:
                    trail.pop()
                n += 1
                if not trail:
                    break
                if n > 200:
                    raise Unsupported('loop body has too many partitions')
                prefix = [c for c, _ in trail]
                prefix[-1] += 1
        finally:
            self._widening = depth
            self.restore(base)
            self.trail, self.prefix, self.wlog, self.res, self.yields = saved
        for t, k in sorted(writes, key=lambda p: (p[0].uid, str(p[1]))):
            r = self.H.get(t)
            if r is None:
                continue
            self.wr(t, k)
            if k == 'items':
                lv = mk('loopvar', key, '%s' % show(t), 'any')
                if r.kind == 'list':
                    r.items = r.items + [('s', lv)]
                elif r.kind == 'dict':
                    r.meta['rest'] = lv
                    r.items = []
                elif r.kind == 'set':
                    r.meta['rest'] = lv
            elif k in r.f:
                old = r.f[k]
                if self.H.get(old) is not None and self.H[old].kind in ('fn', 'class'):
                    continue
                kd = 'str' if isstr(old) else 'num' if isnum(old) else 'any'
                r.f[k] = mk('loopvar', key, k, kd)
        if any(effs):
            self.effects.append(('loop', key, tuple(effs), self.site()))

    def drive(self, rec, each):
        """run the body of a generator, calling each(value) at every yield"""
        thunk, rec.thunk = rec.thunk, None
        rec._items = []
        outer = list(self.yields)
        n = [0]

        def hook(v):
            n[0] += 1
            if n[0] > MAXITER:
                raise Unsupported('long loop')
            st, self.stack = self.stack, self.stack[:-1] or self.stack
            ys, self.yields = self.yields, outer
            try:
                each(v)
            except (AbsExc, _Return, _Break, _Continue, _Leave) as e:
                raise _Leave(e)
            finally:
                self.stack, self.yields = st, ys
            return NONE
        try:
            thunk(hook)
        except _Leave as e:
            raise e.cause

    def ex_For(self, s, env):
        coll = self.ev(s.iter, env)
        broke = False
        r = self.H.get(coll)
        if isinstance(r, GenRec) and r.step is not None:
            n = 0
            while True:
                v = self.H[coll].pull()
                if v is None:
                    break
                n += 1
                if n > MAXITER:
                    raise Unsupported('long loop')
                self.assign(s.target, v, env)
                try:
                    self.exec_block(s.body, env)
                except _Break:
                    return
                except _Continue:
                    pass
            self.exec_block(s.orelse, env)
            return
        if isinstance(r, LazyRec) and r.thunk is not None:
            def each(v):
                self.assign(s.target, v, env)
                try:
                    self.exec_block(s.body, env)
                except _Continue:
                    pass
            try:
                self.drive(r, each)
            except _Break:
                return
            self.exec_block(s.orelse, env)
            return
        items = self.iterate(coll)
        if items is not None:
            r = self.H.get(coll)
            if len(items) > MAXITER:
                raise Unsupported('long loop')
            i = 0
            live = r is not None and r.kind == 'list' and not r.meta.get('gen')
            while i < len(items):
                self.assign(s.target, items[i], env)
                try:
                    self.exec_block(s.body, env)
                except _Break:
                    broke = True
                    break
                except _Continue:
                    pass
                i += 1
                if live:
                    new = self.iterate(coll)
                    if new is None:
                        raise Unsupported('list mutated while iterated')
                    items = new
                    if len(items) > MAXITER:
                        raise Unsupported('long loop')
            if not broke:
                self.exec_block(s.orelse, env)
            return
        self.line = s.lineno
        broke = self.sym_for(coll, lambda el: (self.assign(s.target, el, env),
                                               self.exec_block(s.body, env)), s.lineno)
        if not broke:
            self.exec_block(s.orelse, env)

    def sym_for(self, coll, body, line):
        """for-loop over a collection of unknown size; True if left by break."""
        r = self.H.get(coll)
        src = self.freeze(coll)
        fixed = []
        if r is not None and r.kind == 'list':
            segs = list(r.items)
        else:
            segs = [('s', src)]
        for kind, t in segs:
            if kind == 'i':
                try:
                    body(t)
                except _Break:
                    return True
                except _Continue:
                    pass
                continue
            key = '%s:%s' % (line, self.fresh())
            nonempty = T.truth(t)
            if not self.branch(nonempty):
                continue
            self.widen(lambda: body(mk('elem', t, 'prev')), key)
            try:
                body(mk('elem', t, key))
            except _Break:
                return True
            except _Continue:
                pass
        return False

    def ex_While(self, s, env):
        n = und = 0
        self.line = s.lineno
        while True:
            before = len(self.trail)
            if not self.branch(self.ev(s.test, env)):
                self.exec_block(s.orelse, env)
                return
            try:
                self.exec_block(s.body, env)
            except _Break:
                return
            except _Continue:
                pass
            n += 1
            if len(self.trail) != before:
                und += 1
            if n > MAXITER:
                if self.flags.get('ends') and not und:
                    # every round was decided, on inputs of a few bytes
                    self.violate(self.flags['ends'], 'a loop is still running after %d rounds' % n)
                    raise Cut('endless loop')
                raise Unsupported('while loop does not settle')
            if und >= self.flags.get('unroll', MAXUNROLL) and not self.init_mode:
                break
        # widen: an arbitrary later round, then the loop must exit
        if self.flags.get('nowiden'):
            raise Cut('loop bound')
        key = '%s:%s' % (s.lineno, self.fresh())

        def rnd():
            if self.branch(self.ev(s.test, env)):
                self.exec_block(s.body, env)
        self.widen(rnd, key)
        for _ in range(2):
            if not self.branch(self.ev(s.test, env)):
                self.exec_block(s.orelse, env)
                return
            if _ == 1:
                raise Cut('subsumed by the widened round')
            try:
                self.exec_block(s.body, env)
            except _Break:
                return
            except _Continue:
                pass

    # ------------------------------------------------------------ expressions
    def ev(self, n, env):
        if hasattr(n, 'lineno') and isinstance(n, (ast.Call,)):
            self.line = n.lineno
        m = getattr(self, 'ev_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression ' + type(n).__name__)
        return m(n, env)

    def ev_Constant(self, n, env):
        v = n.value
        if v is Ellipsis:
            return mk('ext', 'Ellipsis')
        return const(v)

    def ev_Name(self, n, env):
        return self.lookup(n.id, env)

    def ev_Attribute(self, n, env):
        return self.getattr(self.ev(n.value, env), n.attr)

    def ev_Tuple(self, n, env):
        return mk('tuple', tuple(self.elts(n.elts, env)))

    def elts(self, es, env):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, env)
                xs = self.iterate(v)
                if xs is None:
                    raise Unsupported('star of unknown shape')
                out.extend(xs)
            else:
                out.append(self.ev(e, env))
        return out

    def ev_List(self, n, env):
        items = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, env)
                xs = self.iterate(v)
                if xs is None:
                    items.append(('s', self.freeze(v)))
                else:
                    items += [('i', x) for x in xs]
            else:
                items.append(('i', self.ev(e, env)))
        return self.alloc('list', 'list', items=items)

    def ev_Set(self, n, env):
        from . import ext
        return ext.make_set(self, self.elts(n.elts, env))

    def ev_Dict(self, n, env):
        d = self.newdict([])
        for k, v in zip(n.keys, n.values):
            if k is None:
                from . import ext
                ext.call_method(self, d, 'dict.update', [self.ev(v, env)], {})
                continue
            kt = self.ev(k, env)
            self.dict_set(d, kt, self.ev(v, env))
        return d

    def ev_Lambda(self, n, env):
        return self.make_fn(n, env, '<lambda>')

    def ev_IfExp(self, n, env):
        if self.branch(self.ev(n.test, env)):
            return self.ev(n.body, env)
        return self.ev(n.orelse, env)

    def ev_BoolOp(self, n, env):
        v = None
        for e in n.values[:-1]:
            v = self.ev(e, env)
            b = self.branch(v)
            if isinstance(n.op, ast.And) and not b:
                return self.settled(v, False)
            if isinstance(n.op, ast.Or) and b:
                return self.settled(v, True)
        return self.ev(n.values[-1], env)

    def settled(self, v, b):
        if T.isbool(v):
            return TRUE if b else FALSE
        return v

    def ev_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        self.assign(n.target, v, env)
        return v

    def ev_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        if isinstance(n.op, ast.Not):
            return T.not_(self.truth(v))
        if isinstance(n.op, ast.USub):
            if v.op == 'const':
                return const(-cval(v))
            return T.neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            return T.ladd(const(-1), v, -1)
        raise Unsupported('unary')

    def ev_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        self.line = n.lineno
        return self.binop(n.op, a, b)

    def binop(self, op, a, b):
        o = type(op).__name__
        ra, rb = self.H.get(a), self.H.get(b)
        if o == 'Add':
            if ra is not None and ra.kind == 'list' or rb is not None and rb.kind == 'list':
                la = ra.items if ra is not None and ra.kind == 'list' else [('s', a)]
                lb = rb.items if rb is not None and rb.kind == 'list' else [('s', b)]
                if a is NONE or b is NONE or isstr(a) or isstr(b):
                    self.raise_py('TypeError')
                return self.alloc('list', 'list', items=list(la) + list(lb))
            if (a is NONE or b is NONE) or \
                    (isstr(a) and isnum(b)) or (isnum(a) and isstr(b)):
                self.raise_py('TypeError')
            return T.add(a, b)
        if o == 'Mult':
            for p, q in ((ra, b), (rb, a)):
                if p is not None and p.kind == 'list':
                    if is_int(q):
                        return self.alloc('list', 'list', items=list(p.items) * cval(q))
                    if len(p.items) == 1 and p.items[0][0] == 'i':
                        return self.alloc('list', 'list', items=[('s', mk('lrep', self.freeze(p.items[0][1]), q))])
                    return self.alloc('list', 'list', items=[('s', unknown('list*n'))])
            return T.mul(a, b)
        if o == 'Mod' and isstr(a):
            return self.percent(a, b)
        if (a is NONE or b is NONE):
            self.raise_py('TypeError')
        if ra is not None and rb is not None and ra.kind == rb.kind == 'set':
            from . import ext
            return ext.set_op(self, o, a, b)
        if ra is not None and rb is not None and ra.kind == rb.kind == 'dict' and o == 'BitOr':
            d = self.newdict([])
            from . import ext
            ext.call_method(self, d, 'dict.update', [a], {})
            ext.call_method(self, d, 'dict.update', [b], {})
            return d
        if o == 'Sub':
            return T.sub(a, b)
        if o in ('Div', 'FloorDiv'):
            if o == 'Div' and a.op == 'const' and b.op == 'const' and \
                    ('float' in (a.a[0], b.a[0])):
                return const(cval(a) / cval(b))
            if is_int(b) and cval(b) == 0:
                self.raise_py('ZeroDivisionError')
            if T.isnum(a) and b.op == 'tofloat' or a.op == 'tofloat':
                return mk('fdiv', a.a[0] if a.op == 'tofloat' else a,
                          b.a[0] if b.op == 'tofloat' else b)
            return T.div(a, b)
        if o == 'Mod':
            return T.mod(a, b)
        if o == 'Pow':
            if a.op == 'const' and b.op == 'const':
                try:
                    return const(cval(a) ** cval(b))
                except Exception:
                    return unknown('pow')
            return mk('pow', a, b)
        if o == 'RShift':
            if is_int(b):
                return T.div(a, const(2 ** cval(b)))
            return mk('div', a, mk('pow', const(2), b))
        if o == 'LShift':
            if is_int(b):
                return T.mul(a, const(2 ** cval(b)))
            return mk('mul', a, mk('pow', const(2), b))
        if o in ('BitXor', 'BitOr', 'BitAnd'):
            wrap = lambda x: T.ord_(x) if (x.op in ('item', 'chr') or is_str(x)) else x
            a, b = wrap(a), wrap(b)
            if T.isbool(a) and T.isbool(b):
                if o == 'BitAnd':
                    return T.and_(a, b)
                if o == 'BitOr':
                    return T.or_(a, b)
            if T.isbool(a) and is_int(b) or T.isbool(b) and is_int(a) or \
                    T.isbool(a) or T.isbool(b):
                # accumulators such as  r = 0; r |= (x != y)
                a2, b2 = self.truth(a), self.truth(b)
                if o == 'BitOr':
                    return T.or_(a2, b2)
                if o == 'BitAnd':
                    return T.and_(a2, b2)
            return {'BitXor': T.bxor, 'BitOr': T.bor, 'BitAnd': T.band2}[o](a, b)
        raise Unsupported('binop ' + o)

    def percent(self, s, arg):
        args = list(arg.a[0]) if arg.op == 'tuple' else [arg]
        if not is_str(s):
            return mk('fmt', s, arg)
        import re
        r = self.H.get(arg)
        pairs = r.items if r is not None and r.kind == 'dict' and not r.meta.get('rest') else \
            arg.a[0] if arg.op == 'jdict' else None
        if pairs is not None and '%(' in cval(s):
            names = re.findall(r'%\(([^)]*)\)', cval(s))
            have = dict((cval(k) if is_str(k) else None, v) for k, v in pairs)
            if all(n in have for n in names):
                s = const(re.sub(r'%\([^)]*\)', '%', cval(s)))
                args = [have[n] for n in names]
        parts = re.split(r'(%(?:\([^)]*\))?[-#0 +]*\d*(?:\.\d+)?[diouxXeEfFgGcrsa%])', cval(s))
        out = []
        i = 0
        for p in parts:
            if not p:
                continue
            if p == '%%':
                out.append(const('%'))
            elif p[0] == '%' and len(p) > 1:
                if p.startswith('%('):
                    return mk('fmt', s, self.freeze(arg))
                if i >= len(args):
                    self.raise_py('TypeError')
                a = args[i]
                i += 1
                if p in ('%s', '%d', '%i'):
                    if p == '%s':
                        out.append(self.str_of(a))
                    else:
                        if a is NONE or is_str(a):
                            self.raise_py('TypeError')
                        out.append(T.str_(a))
                elif a.op == 'const':
                    try:
                        out.append(const(p % cval(a)))
                    except TypeError:
                        self.raise_py('TypeError')
                else:
                    out.append(mk('fmt', const(p), self.freeze(a)))
            else:
                out.append(const(p))
        if i < len(args) and not (self.kind(arg) == 'dict'):
            self.raise_py('TypeError')
        return T.concat(*out)

    def str_of(self, v):
        r = self.H.get(v)
        if r is not None:
            if r.kind == 'inst':
                f = self.class_attr(r.cls, '__str__') if r.cls.op == 'cls' else None
                if f is None and r.cls.op == 'cls':
                    f = self.class_attr(r.cls, '__repr__')
                if f is not None:
                    return self.call(mk('bm', v, f), [], {})
                args = r.f.get('args')
                if args is not None and args.op == 'tuple' and any(
                        b.op == 'ext' and b.a[0] in PYEXC and b.a[0] != 'KeyError'
                        for b in (self.mro(r.cls) if r.cls.op == 'cls' else [r.cls])):
                    xs = args.a[0]
                    if len(xs) < 2:
                        return self.str_of(xs[0]) if xs else EMPTY
                return mk('str', v)
            if r.kind in ('list', 'dict', 'set'):
                p = self.plain(v)
                if p is not None:
                    return const(str(p[0]))
            return mk('str', self.freeze(v))
        return T.str_(v)

    def plain(self, v):
        """(python value,) of a structure of constants, else None"""
        if v.op == 'const':
            return (cval(v),)
        r = self.H.get(v)
        if v.op == 'tuple':
            xs = [self.plain(x) for x in v.a[0]]
            return None if None in xs else (tuple(x[0] for x in xs),)
        if r is None or r.kind not in ('list', 'dict') or r.meta.get('rest') is not None:
            return None
        if r.kind == 'list':
            if any(k != 'i' for k, _ in r.items):
                return None
            xs = [self.plain(x) for _, x in r.items]
            return None if None in xs else ([x[0] for x in xs],)
        ks = [(self.plain(k), self.plain(x)) for k, x in r.items]
        if any(None in kv for kv in ks):
            return None
        return ({k[0]: x[0] for k, x in ks},)

    def ev_JoinedStr(self, n, env):
        out = []
        for p in n.values:
            if isinstance(p, ast.Constant):
                out.append(const(p.value))
            else:
                v = self.ev(p.value, env)
                if p.format_spec is not None:
                    spec = self.ev(p.format_spec, env)
                    if v.op == 'const' and is_str(spec):
                        try:
                            out.append(const(format(cval(v), cval(spec))))
                            continue
                        except Exception:
                            pass
                    out.append(mk('fmt', spec, self.freeze(v)))
                elif p.conversion == 114:
                    out.append(mk('repr', self.freeze(v)))
                else:
                    out.append(self.str_of(v))
        return T.concat(*out)

    def ev_FormattedValue(self, n, env):
        return self.str_of(self.ev(n.value, env))

    def ev_Compare(self, n, env):
        left = self.ev(n.left, env)
        out = []
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, env)
            self.line = n.lineno
            out.append(self.compare(op, left, right))
            left = right
        return T.and_(*out) if len(out) > 1 else out[0]

    def compare(self, op, a, b):
        o = type(op).__name__
        if o in ('Is', 'IsNot'):
            if self.H.get(a) is not None or self.H.get(b) is not None:
                # heap identity; opaque terms may alias nothing we allocated
                if self.H.get(a) is not None and self.H.get(b) is not None:
                    r = TRUE if a is b else FALSE
                else:
                    o1 = b if self.H.get(a) is not None else a
                    r = FALSE if o1.op in ('const', 'tuple') or isstr(o1) or isnum(o1) \
                        else T.eq(a, b)
            else:
                r = T.eq(a, b)
            return r if o == 'Is' else T.not_(r)
        if o in ('Eq', 'NotEq'):
            if isstr(a) and isstr(b) and not (is_str(a) or is_str(b)):
                self.effect('streq', a, b)
            elif self.flags.get('ct') and (a.op == 'tuple' or self.kind(a) == 'list') \
                    and (b.op == 'tuple' or self.kind(b) == 'list'):
                self.effect('streq', self.freeze(a), self.freeze(b))
            r = self.pyeq(a, b)
            return r if o == 'Eq' else T.not_(r)
        if o in ('In', 'NotIn'):
            if isstr(a) and isstr(b):
                self.effect('streq', a, b)
            elif self.flags.get('ct') and isstr(a) and self.kind(b) in ('list', 'set', 'dict'):
                for x in self.H[b].items:
                    x = x[1] if self.kind(b) == 'list' else x[0] if isinstance(x, (tuple, list)) else x
                    if isstr(x):
                        self.effect('streq', a, x)
            r = self.contains(b, a)
            return r if o == 'In' else T.not_(r)
        if a is NONE or b is NONE:
            self.raise_py('TypeError')
        if a.op == 'tuple' or b.op == 'tuple' or (isstr(a) and isstr(b)):
            if a.op == 'const' and b.op == 'const':
                pass
            else:
                if isstr(a) and isstr(b):
                    self.effect('streq', a, b)
                return mk('cmp', o, a, b)
        wrap = lambda x: T.ord_(x) if x.op == 'chr' else x
        a, b = wrap(a), wrap(b)
        if self.H.get(a) is not None or self.H.get(b) is not None:
            return unknown('ordering of objects')
        if o == 'Lt':
            return T.lt(a, b)
        if o == 'Gt':
            return T.lt(b, a)
        if o == 'LtE':
            return T.not_(T.lt(b, a))
        if o == 'GtE':
            return T.not_(T.lt(a, b))
        raise Unsupported('compare ' + o)

    def contains(self, coll, x):
        r = self.H.get(coll)
        if coll is ENVIRON:
            return FALSE if self.env.get(x, NONE) is NONE else TRUE
        if r is not None:
            if r.cls == 'instdict' and is_str(x):
                return TRUE if cval(x) in self.H[r.f['of']].f else FALSE
            if r.kind == 'dict':
                i = [self.pyeq(k, x) for k, _ in r.items]
                base = T.or_(*i) if i else FALSE
                if r.meta.get('rest') is not None:
                    return T.or_(base, mk('in', x, r.meta['rest']))
                return base
            if r.kind == 'list':
                out = []
                for k, v in r.items:
                    out.append(self.pyeq(v, x) if k == 'i' else mk('in', x, v))
                return T.or_(*out) if out else FALSE
            if r.kind == 'set':
                out = [self.pyeq(v, x) for v in r.items]
                return T.or_(*out) if out else FALSE
            if r.kind == 'inst':
                f = self.class_attr(r.cls, '__contains__')
                if f is not None:
                    return self.truth(self.call(mk('bm', coll, f), [x], {}))
                it = self.iterate(coll)
                if it is not None:
                    return T.or_(*[self.pyeq(v, x) for v in it]) if it else FALSE
            return unknown('in')
        if coll.op == 'tuple':
            out = [self.pyeq(v, x) for v in coll.a[0]]
            return T.or_(*out) if out else FALSE
        if is_str(coll) and is_str(x):
            return TRUE if cval(x) in cval(coll) else FALSE
        if coll is NONE or isnum(coll):
            self.raise_py('TypeError')
        if coll.op == 'jdict':
            out = [self.pyeq(k, x) for k, _ in coll.a[0]]
            return T.or_(*out) if out else FALSE
        if coll.op == 'concat' and is_str(x) and any(
                is_str(p) and cval(x) in cval(p) for p in coll.a):
            return TRUE
        return mk('in', x, coll)

    def ev_Subscript(self, n, env):
        v = self.ev(n.value, env)
        if isinstance(n.slice, ast.Slice):
            lo = self.ev(n.slice.lower, env) if n.slice.lower else NONE
            hi = self.ev(n.slice.upper, env) if n.slice.upper else NONE
            st = self.ev(n.slice.step, env) if n.slice.step else NONE
            return self.getslice(v, lo, hi, st)
        i = self.ev(n.slice, env)
        self.line = n.lineno
        return self.getitem(v, i)

    def ev_Call(self, n, env):
        # super() needs the frame
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            return self.ev_super(n, env)
        f = self.ev(n.func, env)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                xs = self.iterate(v)
                if xs is None:
                    args.append(mk('star', self.freeze(v)))
                else:
                    args.extend(xs)
            else:
                args.append(self.ev(a, env))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                r = self.H.get(d)
                if r is None or r.kind != 'dict' or r.meta.get('rest') is not None:
                    raise Unsupported('** of unknown shape')
                for kk, vv in r.items:
                    kw[cval(kk)] = vv
            else:
                kw[k.arg] = self.ev(k.value, env)
        if f.op == 'ext' and f.a[0] in ('locals', 'globals', 'vars') and not args:
            return unknown(f.a[0])
        self.line = n.lineno
        return self.call(f, args, kw, n)

    def ev_super(self, n, env):
        if n.args:
            a = [self.ev(x, env) for x in n.args]
            return mk('super', a[0], a[1])
        e = env
        while e is not None:
            m = self.H[e].meta
            if m.get('defcls') is not None and m.get('self') is not None:
                return mk('super', m['defcls'], m['self'])
            e = m.get('parent')
        raise Unsupported('super()')

    def ev_Yield(self, n, env):
        v = self.ev(n.value, env) if n.value else NONE
        y = self.yields[-1]
        if isinstance(y, list):
            if self.wlog is not None:
                # growing a generator's output inside a widened loop
                pass
            y.append(('i', v))
            return NONE
        return y(v)

    def ev_YieldFrom(self, n, env):
        v = self.ev(n.value, env)
        y = self.yields[-1]
        r = self.H.get(v)
        if isinstance(r, LazyRec) and r.thunk is not None and not isinstance(y, list):
            self.drive(r, y)
            return NONE
        xs = self.iterate(v)
        if not isinstance(y, list):
            if xs is None:
                raise Unsupported('yield from an unknown collection')
            for x in xs:
                y(x)
            return NONE
        if xs is None:
            y.append(('s', self.freeze(v)))
        else:
            for x in xs:
                y.append(('i', x))
        return NONE

    # comprehensions
    def comp(self, gens, env, emit, first=None):
        er = self.H[env]
        cenv = self.alloc('env', '<comp>', meta={
            'parent': env if er.kind != 'clsenv' else er.meta['parent'],
            'locals': set(), 'globals': set(), 'nonlocals': set(),
            'module': env if er.kind == 'mod' else er.meta.get('module'),
            'defcls': er.meta.get('defcls'), 'self': er.meta.get('self')})
        if er.kind == 'clsenv':
            self.H[cenv].f.update(er.f)

        def go(i):
            if i == len(gens):
                emit(cenv)
                return
            g = gens[i]
            if i == 0 and isinstance(first, list):
                coll, items = None, first
            else:
                coll = first if i == 0 and first is not None else self.ev(g.iter, env if i == 0 else cenv)
                items = self.iterate(coll)

            def one(el):
                self.assign(g.target, el, cenv)
                for c in g.ifs:
                    if not self.branch(self.ev(c, cenv)):
                        return
                go(i + 1)
            if items is None:
                self.sym_comp(coll, one)
            else:
                for el in items:
                    one(el)
        go(0)

    def sym_comp(self, coll, one):
        raise _SymComp(coll, one)

    def ev_ListComp(self, n, env, first=None):
        out = []
        try:
            self.comp(n.generators, env, lambda e: out.append(('i', self.ev(n.elt, e))), first)
        except _SymComp as sc:
            return self.sym_list(n, env, sc)
        return self.alloc('list', 'list', items=out)

    def sym_list(self, n, env, sc):
        """comprehension over a collection of unknown size -> map term."""
        if len(n.generators) != 1:
            return self.alloc('list', 'list', items=[('s', unknown('nested comprehension'))])
        g = n.generators[0]
        er = self.H[env]
        cenv = self.alloc('env', '<comp>', meta={
            'parent': env, 'locals': set(), 'globals': set(), 'nonlocals': set(),
            'module': env if er.kind == 'mod' else er.meta.get('module'),
            'defcls': er.meta.get('defcls'), 'self': er.meta.get('self')})
        src = sc.coll
        r = self.H.get(src)
        segs = list(r.items) if r is not None and r.kind == 'list' else [('s', self.freeze(src))]
        items = []
        for kind, t in segs:
            if kind == 'i':
                self.assign(g.target, t, cenv)
                if all(self.branch(self.ev(c, cenv)) for c in g.ifs):
                    items.append(('i', self.ev(n.elt, cenv)))
                continue
            el = mk('elem', t, 'it')
            self.assign(g.target, el, cenv)
            prev = self.nested
            self.nested = {'nobranch': True}
            try:
                cond = T.and_(*[self.truth(self.ev(c, cenv)) for c in g.ifs]) if g.ifs else NONE
                body = self.freeze(self.ev(n.elt, cenv))
            except Unsupported:
                cond, body = NONE, unknown('comprehension body')
            finally:
                self.nested = prev
            items.append(('s', mk('map', t, cond, body)))
        return self.alloc('list', 'list', items=items)

    def ev_GeneratorExp(self, n, env):
        coll = self.ev(n.generators[0].iter, env)
        r = self.H.get(coll)
        chained = isinstance(r, GenRec) and r.step is not None
        if self.nested or not (chained or _calls_out(n)):
            return self.ev_ListComp(n, env, coll)
        src = coll if chained else self.iterate(coll)
        if src is None:
            return self.ev_ListComp(n, env, coll)

        def step(el):
            out = []
            try:
                self.comp(n.generators, env, lambda e: out.append(self.ev(n.elt, e)), [el])
            except _SymComp:
                raise Unsupported('nested comprehension')
            return out
        t = self.alloc('list', 'gen', meta={'gen': True})
        g = GenRec('list', meta={'gen': True})
        g.src, g.step, g.run = (list(src) if not chained else src), step, self
        self.H[t] = g
        return t

    def ev_SetComp(self, n, env):
        from . import ext
        out = []
        try:
            self.comp(n.generators, env, lambda e: out.append(self.ev(n.elt, e)))
        except _SymComp:
            t = ext.make_set(self, [])
            self.H[t].meta['rest'] = unknown('set comprehension')
            return t
        return ext.make_set(self, out)

    def ev_DictComp(self, n, env):
        d = self.newdict([])
        try:
            self.comp(n.generators, env, lambda e: self.dict_set(
                d, self.ev(n.key, e), self.ev(n.value, e)))
        except _SymComp:
            self.H[d].items = []
            self.H[d].meta['rest'] = unknown('dict comprehension')
        return d

    def ev_Starred(self, n, env):
        raise Unsupported('starred')

    # ------------------------------------------------------------ obligations
    def normalise(self, t, memo=None):
        """rebuild t under the facts of this partition (representatives)."""
        def f(x):
            y = self.find(x)
            if y is not x:
                return y
            return None
        return T.map_term(t, f)

    def decide_deep(self, t):
        t2 = self.normalise(t)
        d = self.decide(t2) if t2 is not t else None
        if d is None and isinstance(t2, T.Term) and t2.op == 'and':
            ds = [self.decide_deep(x) for x in t2.a]
            if False in ds:
                return False
            return True if all(ds) else None
        if d is None and isinstance(t2, T.Term):
            neg = t2.op == 'not'
            u = t2.a[0] if neg else t2
            if u.op == 'eq':
                for k, v in list(self.F.items()):
                    if k.op == 'eq' and self.normalise(k) is u:
                        return v != neg
                r = self.by_characters(u)
                if r is not None:
                    return r != neg
        return d

    def by_characters(self, u):
        """equality of strings of one known length from facts on characters"""
        x, y = u.a
        if not (isstr(x) and isstr(y)):
            return None
        n = T.length(x)
        if not is_int(n) or T.length(y) is not n or not 1 < cval(n) <= 64:
            return None
        if not any(k.op == 'eq' and (k.a[0].op == 'item' or k.a[1].op == 'item') for k in self.F):
            return None
        ds = []
        for i in range(cval(n)):
            e = T.eq(T.item(x, const(i)), T.item(y, const(i)))
            d = self.decide(e)
            ds.append(self.decide(self.normalise(e)) if d is None else d)
        if False in ds:
            return False
        return True if None not in ds else None

    def oblige(self, cond, msg, detail=None):
        """record obligation cond in this partition."""
        cond = self.truth(cond)
        d = self.decide(cond)
        if d is None:
            c2 = self.normalise(cond)
            d = self.decide_deep(cond)
            if d is None and T.has_unknown(c2):
                self.note('undecided', msg)
                return None
        if d is True:
            self.note('discharged', msg)
            return True
        self.violate(msg, detail or 'required: %s' % show(cond)[:600])
        return False

    def same_value(self, a, b, msg):
        a2, b2 = self.freeze(a), self.freeze(b)
        if a2 is b2:
            self.note('discharged', msg)
            return True
        a3, b3 = self.normalise(a2), self.normalise(b2)
        if a3 is b3:
            self.note('discharged', msg)
            return True
        e = self.pyeq(a, b)
        d = self.decide(e)
        if d is None and a3.op != 'snap':
            d = self.decide(self.pyeq(a3, b3))
            if d is None and isstr(a2) and isstr(b2):
                d = self.by_characters(mk('eq', a2, b2))
        if d is True:
            self.note('discharged', msg)
            return True
        if d is None and (T.has_unknown(a3) or T.has_unknown(b3)):
            self.note('undecided', msg)
            return None
        self.violate(msg, 'computed %s ; required %s' % (show(a3)[:700], show(b3)[:700]))
        return False

    def note(self, kind, msg):
        self.pending.append((kind, msg, None, None))

    def violate(self, msg, detail=''):
        self.pending.append(('violation', msg, detail, self.where()))

    def where(self):
        """most recent analysed (non-driver) construct"""
        for q, f, l in reversed(self.calls):
            if f != 'driver':
                return '%s (%s)' % (f, q)
        return self.site()

    def finish(self, out):
        if self.res is None:
            return
        if out[0] in ('cut', 'infeasible'):
            # obligations recorded before the cut still count
            pass
        vague = None
        for kind, msg, detail, where in self.pending:
            if kind == 'violation' and not self.flags.get('vague_ok'):
                # a path whose own feasibility rests on a widened or
                # unmodelled value cannot witness a violation
                if vague is None:
                    vague = any(T.has_unknown(t) for t in self.F
                                if t not in self.prog.base.F)
                if vague:
                    kind = 'undecided'
            if kind == 'violation':
                facts = [('%s' if v else 'not (%s)') % show(t)
                         for t, v in self.F.items() if t not in self.prog.base.F]
                self.res.violations.append({
                    'rule': msg, 'detail': detail, 'construct': where,
                    'partition': facts[:25]})
            else:
                d = getattr(self.res, kind)
                d[msg] = d.get(msg, 0) + 1

    def describe(self, out):
        facts = [('%s' if v else 'not (%s)') % show(t)[:120]
                 for t, v in self.F.items() if t not in self.prog.base.F]
        return {'facts': facts[:8], 'outcome': out[0] + ' ' + (
            show(out[1])[:160] if isinstance(out[1], T.Term) else str(out[1]))}


class _SymComp(Exception):
    def __init__(self, coll, one):
        self.coll, self.one = coll, one
