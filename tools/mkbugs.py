"""Writes /verif/seeded/<id>/ from bugs.py: python3 tools/mkbugs.py [ID ...]
Confirms each in a scratch copy: demo passes unchanged, fails with the patch."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from bugs import BUGS
SCR = '/tmp/kz_scratch_repo'
K = 'python/src/keyczar/'


def run(d):
    r = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=SCR, capture_output=True, text=True, timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-300:]


def main(ids):
    for bid, prop, needs, breaks, edits, demo in BUGS:
        if ids and bid not in ids:
            continue
        if os.path.exists(SCR):
            shutil.rmtree(SCR)
        subprocess.check_call(['git', 'clone', '-q', '/repo', SCR])
        d = os.path.join(ROOT, 'seeded', bid)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'demo.py'), 'w') as f:
            f.write(('import sys, os\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\n'
                     'import py2shim; py2shim.install()\n'
                     'from keyczar import keyczar as K, keys, keyinfo, keydata, readers, writers, util, errors, keyczart\n'
                     if not demo.startswith('#interop') else '') + demo)
        shutil.copy(os.path.join(HERE, 'py2shim.py'), d)
        with open(os.path.join(d, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\n# exit 0: property holds; nonzero: broken\nexport PYTHONDONTWRITEBYTECODE=1\n'
                    'exec /opt/venv/bin/python "$(dirname "$(readlink -f "$0")")/demo.py"\n')
        with open(os.path.join(d, 'meta.json'), 'w') as f:
            json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, f, indent=1)
        rc0, o0 = run(d)
        for fn, old, new in edits:
            p = os.path.join(SCR, fn if '/' in fn else K + fn)
            s = open(p).read()
            assert s.count(old) == 1, (bid, fn, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', SCR, 'diff'], text=True)
        with open(os.path.join(d, 'patch.diff'), 'w') as f:
            f.write(diff)
        rc1, o1 = run(d)
        ok = rc0 == 0 and rc1 != 0
        print(bid, prop, 'OK' if ok else 'BAD rc0=%d rc1=%d' % (rc0, rc1), '' if ok else (o0 if rc0 else o1))
        if '-c' in sys.argv:
            r = subprocess.run(['python3', '-m', 'kz.run', prop], cwd=ROOT, env=dict(os.environ, KZ_REPO=SCR), capture_output=True, text=True)
            print('    check rc=%d %s' % (r.returncode, (r.stdout + r.stderr).strip().split('\n')[-1][:200]))
    shutil.rmtree(SCR)


main([a for a in sys.argv[1:] if a != '-c'])
