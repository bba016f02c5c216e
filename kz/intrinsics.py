"""Intrinsics available to analysis contexts (the driver texts): introduce
symbolic inputs, constrain them, and state proof obligations."""
from . import terms as T
from .terms import mk, const, cval, unknown, TRUE, FALSE, NONE, is_int
from . import interp as I

TABLE = {}


def fn(f):
    TABLE[f.__name__.rstrip('_')] = f
    return f


def call(run, name, args, kw):
    if name not in TABLE:
        raise I.Unsupported('KZ.' + name)
    return TABLE[name](run, args, kw)


def _s(t):
    if t.op == 'const':
        return str(cval(t))
    return T.show(t)[:80]


@fn
def sym(run, a, kw):
    return T.sym(_s(a[0]), _s(a[1]) if len(a) > 1 else 'any')


@fn
def string(run, a, kw):
    """symbolic byte string; optional exact length"""
    if len(a) > 1 and T.is_int(a[1]):
        return T.sym(_s(a[0]), 'str:%d' % cval(a[1]))
    t = T.sym(_s(a[0]), 'str')
    if len(a) > 1:
        run.assume(T.eq(T.length(t), a[1]), True)
    return t


@fn
def chars(run, a, kw):
    """byte string of n independent symbolic bytes"""
    n = cval(a[1])
    return T.concat(*[T.chr_(T.sym('%s%d' % (_s(a[0]), i), 'byte'))
                      for i in range(n)])


@fn
def assume(run, a, kw):
    run.assume(run.truth(a[0]), True)
    return NONE


@fn
def distinct(run, a, kw):
    """pairwise distinct"""
    for i, x in enumerate(a):
        for y in a[i + 1:]:
            run.assume(run.pyeq(x, y), False)
    return NONE


@fn
def prove(run, a, kw):
    run.oblige(a[0], _s(a[1]))
    return NONE


@fn
def same(run, a, kw):
    run.same_value(a[0], a[1], _s(a[2]))
    return NONE


@fn
def fail(run, a, kw):
    run.violate(_s(a[0]), _s(a[1]) if len(a) > 1 else '')
    return NONE


@fn
def ok(run, a, kw):
    run.note('discharged', _s(a[0]))
    return NONE


@fn
def undecided(run, a, kw):
    run.note('undecided', _s(a[0]))
    return NONE


@fn
def reach(run, a, kw):
    run.note('reached', _s(a[0]))
    return NONE


@fn
def choice(run, a, kw):
    xs = run.iterate(a[0]) if len(a) == 1 else list(a)
    return xs[run.choose(len(xs), 'choice')]


@fn
def flip(run, a, kw):
    return FALSE if run.choose(2, 'flip') else TRUE


@fn
def decided(run, a, kw):
    d = run.decide(run.truth(a[0]))
    return NONE if d is None else (TRUE if d else FALSE)


def _wrap(run, x):
    if isinstance(x, T.Term):
        return x
    if isinstance(x, (list, tuple)):
        return mk('tuple', tuple(_wrap(run, y) for y in x))
    if isinstance(x, (str, int, bool, bytes)) or x is None:
        return const(x)
    return unknown('effect')


@fn
def mark(run, a, kw):
    """position in the effect trace"""
    return const(len(run.effects))


@fn
def events(run, a, kw):
    kinds = [cval(x) for x in a if T.is_str(x)]
    start = cval(kw['since']) if 'since' in kw else 0
    out = []
    for e in run.effects[start:]:
        if kinds and e[0] not in kinds:
            continue
        out.append(_wrap(run, e))
    return run.newlist(out)


def _mac_parts(t, out):
    """which bytes of which MAC a term depends on: {mac: set | None (all)}"""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T.Term) or x in seen:
            continue
        seen.add(x)
        if x.op == 'item' and x.a[0].op == 'hmac' and is_int(x.a[1]):
            if out.get(x.a[0], ()) is not None:
                out.setdefault(x.a[0], set()).add(cval(x.a[1]))
            continue
        if x.op in ('len', 'hash'):
            continue
        if x.op == 'hmac':
            if not any(y.op == 'hmac' for y in T.subterms(x.a[-1])):
                out[x] = None
            continue
        stack.extend(x.a)
    return out


@fn
def tags_compared(run, a, kw):
    """number of comparisons of a MAC, as a string, that stop at a difference"""
    n = 0
    start = cval(kw['since']) if 'since' in kw else 0
    for e in run.effects[start:]:
        if e[0] == 'streq' and _mac_parts((e[1], e[2]), {}):
            if all(x.op in ('item', 'chr') or T.isstr(x) and T.length(x) is const(1) for x in e[1:3]):
                continue
            n += 1
    return const(n)


@fn
def tags_partly(run, a, kw):
    """number of MACs of which this path looked at some bytes but not all"""
    out = {}
    start = cval(kw['since']) if 'since' in kw else 0
    for e in run.effects[start:]:
        if e[0] in ('br', 'ctcmp'):
            _mac_parts(e[1:3] if e[0] != 'br' else e[1], out)
    for x in a:
        _mac_parts(run.freeze(x), out)
    return const(len([1 for v in out.values() if v is not None and len(v) < 20]))


@fn
def plain_looked(run, a, kw):
    """number of times the content of a decryption was examined"""
    n = 0
    start = cval(kw['since']) if 'since' in kw else 0
    for e in run.effects[start:]:
        if e[0] in ('ord', 'streq') and any(
                y.op == 'dec' for x in e[1:] if isinstance(x, T.Term) for y in T.subterms(x)):
            n += 1
        elif e[0] == 'br':
            for y in T.subterms(e[1]):
                if y.op in ('item', 'ord', 'eq') and any(z.op == 'dec' for z in T.subterms(y)) \
                        and not all(z.op == 'len' for z in y.a if isinstance(z, T.Term) and
                                    any(w.op == 'dec' for w in T.subterms(z))):
                    n += 1
                    break
    return const(n)


@fn
def event(run, a, kw):
    run.effects.append((cval(a[0]),) + tuple(a[1:]) + (run.site(),))
    return NONE


@fn
def mentions(run, a, kw):
    """does the value of a[0] syntactically depend on a[1]?"""
    v = run.normalise(run.freeze(a[0]))
    w = run.normalise(a[1])
    return TRUE if T.contains(v, w) or T.contains(v, a[1]) else FALSE


@fn
def mentions_bare(run, a, kw):
    """depends on a[1] other than underneath encryption / hashing"""
    v = run.normalise(run.freeze(a[0]))
    w = run.normalise(a[1])
    guard = {'enc', 'hmac', 'hash', 'ckapp', 'mgf', 'res'}
    stack, seen = [v], set()
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T.Term) or x in seen:
            continue
        seen.add(x)
        if x is w or x is a[1]:
            return TRUE
        if x.op in guard:
            continue
        stack.extend(x.a)
    return FALSE


@fn
def vague(run, a, kw):
    return TRUE if T.has_unknown(run.normalise(run.freeze(a[0]))) else FALSE


@fn
def op(run, a, kw):
    return const(run.find(a[0]).op)


@fn
def excname(run, a, kw):
    r = run.rec(a[0])
    if r is None or r.cls is None:
        return const('?')
    if r.meta.get('anyof'):
        return const('?')
    return const(r.cls.a[0].split('.')[-1])


@fn
def show(run, a, kw):
    return const(T.show(run.normalise(run.freeze(a[0])))[:400])


@fn
def debug(run, a, kw):
    print('DEBUG', *[T.show(run.normalise(run.freeze(x))) for x in a])
    return NONE


@fn
def has(run, a, kw):
    """attribute present on the class / module"""
    try:
        v = run.getattr(a[0], cval(a[1]))
    except I.AbsExc:
        return FALSE
    return TRUE


@fn
def randoms(run, a, kw):
    """list of (kind,value) of random draws"""
    return run.newlist([_wrap(run, e[1:-1]) for e in run.effects if e[0] == 'random'])


@fn
def const_(run, a, kw):
    return TRUE if a[0].op == 'const' else FALSE


@fn
def b64(run, a, kw):
    return T.b64enc(a[0])


@fn
def unb64(run, a, kw):
    return T.b64dec(a[0])


@fn
def hmac(run, a, kw):
    """HMAC-SHA1(key, data)"""
    return mk('hmac', 'sha1', a[0], a[1])


@fn
def sha1(run, a, kw):
    return mk('hash', 'sha1', a[0])


@fn
def term(run, a, kw):
    return T.rebuild(cval(a[0]), tuple(a[1:]))


@fn
def file(run, a, kw):
    """content currently stored in the abstract file system under a path"""
    return _wrap(run, run.fs.get(a[0]))


@fn
def putenv(run, a, kw):
    run.env[a[0]] = a[1]
    return NONE


@fn
def emptyfile(run, a, kw):
    """a file without contents (putfile with '' makes a directory)"""
    run.fs[a[0]] = T.const('')
    run.emptyfiles = getattr(run, 'emptyfiles', frozenset()) | {a[0]}
    return NONE


@fn
def putfile(run, a, kw):
    run.fs[a[0]] = None if a[1] is NONE else a[1]
    return NONE
