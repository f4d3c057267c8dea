"""
Mutation sweep: every small change (comparison, operator, constant, condition, dropped call or statement) of the
given source files, one at a time, in scratch copies of /repo; reports the ones that no check of the properties
anchored in that file notices.  Survivors are read by hand: they are equivalent, or a gap of the checks.

usage: mutate.py [-j N] [-n STEP/OFFSET] [-x] FILE ... (relative to structrans)   -x: stable tests of survivors too
"""
import ast
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile
import warnings

warnings.simplefilter('ignore')
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/pypyvenv/bin/python'
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'], ast.NotIn: ['in']}
OPS = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Mod: '*', ast.FloorDiv: '*', ast.Pow: '*'}


def mutants(src):
    """(line, description, new source)"""
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def put(n, new):
        a, b = span(n)
        out.append((n.lineno, '%s => %s' % (text(n)[:70].replace('\n', ' '), new[:70].replace('\n', ' ')), (raw[:a] + new.encode() + raw[b:]).decode()))

    def quiet(n):
        """only a message"""
        return isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or isinstance(n.value, ast.Call) and text(n.value.func) in ('print', 'warn', 'warnings.warn', 'logger.info', 'lprint', 'logger.debug'))

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if quiet(c) or isinstance(c, (ast.Import, ast.ImportFrom, ast.Raise)):
                continue
            visit(c)
            walk(c)

    def visit(n):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]), []):
                put(n, '(%s %s %s)' % (text(n.left), o, text(n.comparators[0])))
        elif isinstance(n, ast.BinOp) and type(n.op) in OPS and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            put(n, '(%s %s %s)' % (text(n.left), OPS[type(n.op)], text(n.right)))
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            put(n, '(' + o.join('(%s)' % text(v) for v in n.values) + ')')
            for k in range(len(n.values)):
                r = [v for j, v in enumerate(n.values) if j != k]
                put(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % text(v) for v in r) + ')')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            put(n, '(%s)' % text(n.operand))
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None:
            v = n.value
            if isinstance(v, bool):
                put(n, str(not v))
            elif isinstance(v, int):
                put(n, str(v + 1))
                if v > 0:
                    put(n, str(v - 1))
            elif isinstance(v, float):
                if 0 < abs(v) < 1e-2:
                    put(n, repr(v * 1e3))
                    put(n, repr(v * 1e-3))
                else:
                    put(n, repr(v * 1.1 + .01))
        elif isinstance(n, ast.Call):
            f = text(n.func)
            if f in ('abs', 'np.abs', 'list', 'np.array', 'float', 'int', 'np.round', 'np.rint', 'np.real', 'sorted', 'tuple', 'set', 'np.sqrt', 'math.floor', 'math.ceil') and n.args:
                put(n, '(%s)' % text(n.args[0]))
            elif isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'astype', 'conj', 'transpose', 'flatten', 'ravel'):
                put(n, text(n.func.value))
            swap = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'np.min': 'np.max', 'np.max': 'np.min', 'np.any': 'np.all', 'np.all': 'np.any', 'np.argmin': 'np.argmax', 'np.argmax': 'np.argmin',
                    'np.sin': 'np.cos', 'np.cos': 'np.sin', 'floor': 'ceil', 'ceil': 'floor', 'math.floor': 'math.ceil', 'math.ceil': 'math.floor'}.get(f)
            if swap:
                a, b = span(n)
                put(n, swap + text(n)[len(f):])
            if len(n.args) == 2 and not n.keywords and f not in ('isinstance', 'range', 'xrange', 'getattr', 'np.allclose', 'abs'):
                put(n, '%s(%s, %s)' % (f, text(n.args[1]), text(n.args[0])))
        elif isinstance(n, ast.Attribute) and n.attr == 'T':
            put(n, text(n.value))
        elif isinstance(n, (ast.If, ast.While)):
            put(n.test, '(not (%s))' % text(n.test))
            if isinstance(n, ast.If):
                put(n.test, 'True')
                put(n.test, 'False')
        elif isinstance(n, ast.Break):
            put(n, 'pass')
        elif isinstance(n, ast.Continue):
            put(n, 'pass')
        elif isinstance(n, (ast.AugAssign,)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            put(n, 'pass')
            if isinstance(n, ast.AugAssign) and type(n.op) in OPS:
                put(n, '%s %s= %s' % (text(n.target), OPS[type(n.op)], text(n.value)))
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            put(n, 'return None')
    walk(tree)
    seen, res = set(), []
    for l, d, s in out:
        if s not in seen and s != src:
            seen.add(s)
            try:
                compile(s, 'x', 'exec')
            except SyntaxError:
                continue
            res.append((l, d, s))
    return res


def sh(cmd, cwd=None, timeout=900, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return 124, 'timeout'


HITS = {}


def one(f, line, desc, new, checks, tests):
    # the check that noticed most of the last ones first
    checks = sorted(checks, key=lambda c: -HITS.get((f, c), 0))
    d = tempfile.mkdtemp(prefix='mut-')
    try:
        copy = os.path.join(d, 'repo')
        shutil.copytree(REPO, copy, ignore=shutil.ignore_patterns('.git', 'doc*', '*.pyc'))
        open(os.path.join(copy, 'structrans', f), 'w').write(new)
        rc, out = sh([PY, '-c', 'import structrans'], cwd=copy, timeout=100)
        if rc:
            return 'import'
        work = os.path.join(d, 'verif')
        shutil.copytree(V, work, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays', 'tools'))
        for c in checks:
            rc, out = sh(['bash', os.path.join(work, 'check.sh'), c, 'quick'], env=dict(VERIF_REPO=copy, VERIF_PROCS='2'), timeout=300)
            if rc and rc != 124:
                for k in list(HITS):
                    HITS[k] *= .8
                HITS[f, c] = HITS.get((f, c), 0) + 1
                return '%s rc=%d' % (c, rc)
        if tests:
            rc, out = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', 'structrans/crystallography/test/test_hnf.py', 'structrans/crystallography/test/test_lattice.py', '-rA'], cwd=copy)
            if out.count('\nPASSED ') < 7:
                return 'tests'
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    args = sys.argv[1:]
    jobs, step, off, tests, files, only = 3, 1, 0, False, [], None
    while args:
        a = args.pop(0)
        if a == '-j':
            jobs = int(args.pop(0))
        elif a == '-n':
            step, off = map(int, args.pop(0).split('/'))
        elif a == '-x':
            tests = True
        elif a == '-c':
            only = args.pop(0).split(',')
        else:
            files.append(a)
    cost = json.load(open(V + '/tools/cost.json'))
    props = [json.loads(l) for l in open(V + '/properties.jsonl')]
    todo = []
    for f in files:
        cs = [p['id'] for p in props if any(x == 'structrans/' + f or x.endswith(f) for x in p['anchors']['files'])]
        cs.sort(key=lambda c: cost.get(c, [50])[0])
        src = open(os.path.join(REPO, 'structrans', f)).read()
        for k, (l, desc, new) in enumerate(mutants(src)):
            if k % step == off:
                todo.append((f, l, desc, new, only or cs, tests))
    print(len(todo), 'mutants')
    sys.stdout.flush()
    n = 0
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        for t, r in zip(todo, ex.map(lambda t: one(*t), todo)):
            n += 1
            print('%-8s %s:%d  %s' % (r or 'SURVIVED', t[0], t[1], t[2]) if r is None else '  %s %s:%d %s' % (r, t[0], t[1], t[2]))
            sys.stdout.flush()
    print('done')


if __name__ == '__main__':
    main()
