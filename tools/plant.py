"""
Plants bugs: for every entry of the given plan files (python files defining BUGS, a list of dicts
id, prop, edits=[(file, old, new)], demo, needs, breaks) makes a scratch copy of /repo, edits it,
confirms that the build and the stable tests pass, that the demo passes without and fails with the
change, runs the check of the property (or all given in also=) and writes /verif/seeded/<id>.

usage: plant.py PLAN.py [id ...]   (--retest: entries already in seeded/, only the checks;
       --all: every check on every bug)
"""
import concurrent.futures
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/pypyvenv/bin/python'
BASE = subprocess.run(['git', '-C', REPO, 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.strip()
STABLE = json.load(open('/opt/vp/BASELINE.json'))
DEMO = '''#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1
exec /opt/pypyvenv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''
PRE = '''import itertools, math, sys
import numpy as np
import numpy.linalg as la
'''


def sh(cmd, cwd=None, timeout=900, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=e)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def stable(copy):
    """the stable tests, run in the copy"""
    names = STABLE.get('stable') or STABLE.get('passing') or STABLE
    rc, out = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--randomly-seed=4', '--randomly-dont-reorganize',
                  'structrans/crystallography/test/test_hnf.py', 'structrans/crystallography/test/test_lattice.py', '-rA'], cwd=copy)
    ok = out.count('\nPASSED ')
    return ok >= 7, out


def one(b, checks):
    d = tempfile.mkdtemp(prefix='plant-')
    copy = os.path.join(d, 'repo')
    try:
        subprocess.run(['git', 'clone', '-q', REPO, copy], check=True)
        sd = os.path.join(V, 'seeded', b['id'])
        if 'edits' in b:
            for f, old, new in b['edits']:
                p = os.path.join(copy, 'structrans', f)
                s = open(p).read()
                if s.count(old) != 1:
                    return b['id'], 'BAD EDIT %s: %d matches of %r' % (f, s.count(old), old), None
                # every removed line has to be one of the original repository
                at = s[:s.index(old)].count('\n') + 1
                bl = subprocess.run(['git', '-C', copy, 'blame', '-l', '-s', '-L', '%d,%d' % (at, at + old.rstrip('\n').count('\n')), '--', p], capture_output=True, text=True).stdout
                for ln, o in zip(bl.splitlines(), old.split('\n')):
                    if o not in new.split('\n') and not ln.lstrip('^').startswith(BASE[:20]):
                        return b['id'], 'NOT ORIGINAL: ' + ln[41:], None
                open(p, 'w').write(s.replace(old, new))
            diff = subprocess.run(['git', '-C', copy, 'diff'], capture_output=True, text=True).stdout
            rc, out = sh([PY, '-c', 'import structrans'], cwd=copy)
            if rc:
                return b['id'], 'DOES NOT IMPORT ' + out[-300:], None
            ok, out = stable(copy)
            if not ok:
                return b['id'], 'CAUGHT BY TESTS ' + ' '.join(l for l in out.splitlines() if l.startswith('FAILED'))[:300], None
            tmp = os.path.join(d, 'demo')
            os.makedirs(tmp)
            open(tmp + '/demo.sh', 'w').write(DEMO)
            os.chmod(tmp + '/demo.sh', 0o755)
            open(tmp + '/demo.py', 'w').write(PRE + b['demo'].strip() + '\n')
            rc0, o0 = sh(['bash', tmp + '/demo.sh'], cwd=REPO, timeout=280)
            rc1, o1 = sh(['bash', tmp + '/demo.sh'], cwd=copy, timeout=280)
            if rc0 != 0:
                return b['id'], 'DEMO FAILS ON THE UNCHANGED TREE ' + o0[-400:], None
            if rc1 == 0:
                return b['id'], 'DEMO DOES NOT FAIL WITH THE CHANGE', None
            shutil.rmtree(sd, ignore_errors=True)
            shutil.copytree(tmp, sd)
            open(sd + '/patch.diff', 'w').write(diff)
            json.dump(dict(property=b['prop'], needs=b['needs'], what_it_breaks=b['breaks']), open(sd + '/meta.json', 'w'), indent=1)
        else:
            r = subprocess.run(['git', '-C', copy, 'apply', sd + '/patch.diff'], capture_output=True, text=True)
            if r.returncode:
                return b['id'], 'PATCH DOES NOT APPLY ' + r.stderr, None
        res = {}
        work = os.path.join(d, 'verif')
        shutil.copytree(V, work, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays'))
        for c in checks or [b['prop']]:
            rc, out = sh(['bash', os.path.join(work, 'check.sh'), c, 'quick'], env=dict(VERIF_REPO=copy))
            hit = rc == 1 and ('VIOLATION property=%s ' % c) in out
            res[c] = 'caught' if hit else ('quiet' if rc == 0 else 'rc=%d' % rc)
            if hit:
                res[c + '_msg'] = out.strip().splitlines()[-3][:150] if len(out.strip().splitlines()) > 2 else ''
        return b['id'], None, res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    flags = [a for a in sys.argv[1:] if a.startswith('--')]
    props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
    if '--retest' in flags:
        bugs = []
        for i in sorted(os.listdir(V + '/seeded')):
            m = json.load(open('%s/seeded/%s/meta.json' % (V, i)))
            bugs.append(dict(id=i, prop=m['property']))
        want = args
    else:
        bugs = runpy.run_path(args[0])['BUGS']
        want = args[1:]
    if want:
        bugs = [b for b in bugs if b['id'] in want]
    rp = V + '/tools/seeded_results.json'
    results = json.load(open(rp)) if os.path.exists(rp) else {}
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for i, err, res in ex.map(lambda b: one(b, props if '--all' in flags else None), bugs):
            if err:
                print(i, err)
            else:
                print(i, res)
                results.setdefault(i, {}).update({k: v for k, v in res.items() if not k.endswith('_msg')})
            sys.stdout.flush()
    json.dump(results, open(rp, 'w'), indent=1, sort_keys=True)


main()
