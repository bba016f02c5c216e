"""python3 -m kz.run <PROPERTY>  --  decide one property from /repo's source.

Exit 0: every obligation that could be decided holds; exit 1 + VIOLATION line:
some construct of the tree violates a rule; exit 2: analysis broken."""
import importlib
import json
import multiprocessing
import os
import pkgutil
import sys
import time
import traceback

sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)

from . import check, model, interp as I

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('KZ_EVIDENCE') or os.path.join(ROOT, 'evidence')
KNOWN = os.path.join(ROOT, 'known_findings.json')


def load():
    from . import props
    for m in pkgutil.iter_modules(props.__path__):
        importlib.import_module('kz.props.' + m.name)


_progs = {}


def program(name):
    if name not in _progs:
        _progs[name] = {'keyczar': model.keyczar_program,
                        'keyczar-m2': model.keyczar_m2_program,
                        'interop': model.interop_program}[name]()
    return _progs[name]


def known(pid):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        data = json.load(f)
    return [e for e in data.get('findings', []) if e['property'] == pid]


def one(job):
    """analyse one context (in a worker process)"""
    pid, i, tier = job
    c = check.PROPS[pid][0][i]
    t0 = time.time()
    try:
        r = I.analyse(program(c.prog), c.src, dict(c.flags, escape=not c.quiet_exc),
                      limit=c.limit * (8 if tier == 'thorough' else 1),
                      name='driver', seconds=c.seconds or (60 if tier == 'quick' else 600))
    except (model.Broken, SyntaxError, I.AbsExc, I.Unsupported) as e:
        return i, None, '%s: %s' % (type(e).__name__, e), 0
    for m in c.must:
        if r.reached.get(m):
            r.discharged[m] = r.discharged.get(m, 0) + 1
        elif not r.incomplete and not r.unsupported and not r.cuts and not r.undecided:
            r.violations.append({'rule': m, 'construct': 'every path of the entry points of this context',
                                 'detail': 'no path reaches this outcome', 'partition': []})
    return i, r, None, time.time() - t0


def decide(pid, tier='quick'):
    contexts, rules = check.PROPS[pid]
    total = I.Result()
    per = []
    jobs = [(pid, i, tier) for i, c in enumerate(contexts)
            if not c.thorough or tier == 'thorough']
    for c in contexts:
        program(c.prog)
    if os.environ.get('KZ_SERIAL') or len(jobs) < 2:
        results = [one(j) for j in jobs]
    else:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(min(len(jobs), os.cpu_count() or 1), maxtasksperchild=1) as pool:
            results = list(pool.imap(one, jobs, 1))
    for i, r, err, wall in results:
        c = contexts[i]
        if err:
            raise model.Broken(err)
        for v in r.violations:
            v['context'] = c.name
        per.append({'context': c.name, 'partitions': r.partitions,
                    'discharged': sum(r.discharged.values()),
                    'undecided': sum(r.undecided.values()),
                    'violations': len(r.violations),
                    'unsupported': dict(list(r.unsupported.items())[:5]),
                    'incomplete': r.incomplete,
                    'wall_s': round(wall, 2)})
        total.merge(r)
    nrule = []
    for f in rules:
        out = f(program)
        for ok, rule, construct, detail in out:
            nrule.append({'rule': rule, 'construct': construct,
                          'holds': ok, 'detail': detail})
            if ok is None:
                total.undecided[rule] = total.undecided.get(rule, 0) + 1
            elif ok:
                total.discharged[rule] = total.discharged.get(rule, 0) + 1
            else:
                total.violations.append({
                    'rule': rule, 'construct': construct, 'detail': detail,
                    'partition': [], 'context': 'structural rule'})
    return total, per, nrule


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    load()
    if pid not in check.PROPS:
        print('unknown property', pid)
        return 2
    try:
        total, per, nrule = decide(pid, tier)
    except (model.Broken, SyntaxError, I.AbsExc, I.Unsupported) as e:
        print('ANALYSIS-BROKEN property=%s %s: %s' % (pid, type(e).__name__, e))
        traceback.print_exc()
        return 2
    uniq, seen = [], set()
    for v in total.violations:
        k = (v['rule'], v['construct'], v['context'])
        if k not in seen:
            seen.add(k)
            uniq.append(v)
    kf = known(pid)
    fresh = []
    for v in uniq:
        hit = [e for e in kf if e.get('rule') == v['rule'] and
               e.get('construct') == v['construct']]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (pid, hit[0]['what']))
        else:
            fresh.append(v)
    os.makedirs(EVID, exist_ok=True)
    ndis = sum(total.discharged.values())
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the current source of /repo (parsed, '
            'never imported or executed): path-partitioned abstract interpretation '
            'over a value-numbering term domain from the entry contexts listed, plus '
            'structural rules. An obligation is discharged when it is derivable from '
            'the facts of its partition.',
            'contexts': per,
            'partitions': total.partitions,
            'obligations_discharged': ndis,
            'obligations_undecided': sum(total.undecided.values()),
            'distinct_rules_discharged': sorted(total.discharged),
            'rules_undecided': sorted(total.undecided),
            'functions_analysed': sorted(total.functions),
            'structural_rules': nrule[:200],
            'samples': total.samples[:4],
        },
        'assumptions': [
            'byte-string semantics: text and bytes are one sort, / on integers is //',
            'external libraries (AES, RSA, DSA, SHA-1, HMAC, os.urandom, base64, json) '
            'behave as their models in kz/ext.py',
            'no monkey-patching of the analysed modules at run time'],
        'wall_s': round(time.time() - t0, 3),
        'violations': len(fresh),
    }
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    rp = os.path.join(EVID, pid + '.violation.txt')
    if fresh:
        with open(rp, 'w') as f:
            for v in fresh:
                f.write('rule: %s\nconstruct: %s\ncontext: %s\ndetail: %s\npath facts:\n' % (
                    v['rule'], v['construct'], v['context'], v['detail']))
                for p in v['partition']:
                    f.write('   %s\n' % p)
                f.write('\n')
        for v in fresh[:12]:
            print('%s: rule "%s" violated in context %s: %s' % (
                v['construct'], v['rule'], v['context'], v['detail'][:400]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if os.path.exists(rp):
        os.remove(rp)
    if ndis == 0:
        print('ANALYSIS-BROKEN property=%s: no obligation could be discharged' % pid)
        for p in per:
            print('  ', p)
        return 2
    print('OK property=%s partitions=%d discharged=%d undecided=%d unsupported=%d functions=%d wall=%.1fs' % (
        pid, total.partitions, ndis, sum(total.undecided.values()), sum(total.unsupported.values()),
        len(total.functions), time.time() - t0))
    if os.environ.get('KZ_V'):
        for p in per:
            print('  ', p)
        print('   undecided:', total.undecided)
        print('   discharged:', total.discharged)
        print('   reached:', total.reached)
    return 0


def entry():
    rc = [2]

    def go():
        rc[0] = main()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])


if __name__ == '__main__':
    entry()
