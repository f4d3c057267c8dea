BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


CR = 'crystallography/'
LC = 'marttrans/lat_cor/'
MT = 'marttrans/'
IMP = 'from structrans.crystallography import Lattice, BravaisLattice, MatrixGroup\n'
LAT = 'import importlib\nlat_cor = importlib.import_module("structrans.marttrans.lat_cor.main_hnf").lat_cor\n'
DIR = 'import importlib\nlat_cor = importlib.import_module("structrans.marttrans.lat_cor.main_direct").lat_cor\n'
TP = 'from structrans.marttrans.twin import TwinPair, TwinSystem\nfrom structrans import Martensite\n'

bug('c28-neg-x', 'C28', [('util/utils.py', '    if abs(z.dot(np.array([1, 0, 0]))) < 0.9:\n', '    if z.dot(np.array([1, 0, 0])) < 0.9:\n')],
    '''
from structrans.util import rotation
for ax in ([-1., 0, 0], [-3, 0, 0], [1, 0, 0], [0, 1, 0]):
    R = rotation(30, ax)
    assert np.allclose(R.dot(R.T), np.eye(3)), ax
''', 'an axis along -x', 'the rotation is not a number')
bug('c41-no-reduce2', 'C41', [(LC + 'lat_opt.py', '    Er1 = LLL(E1)\n', '    Er1 = LLL(E1) if dim == 3 else E1.astype(float)\n'),
                            (LC + 'lat_opt.py', '                        if depth <= miniter:\n', '                        if depth <= 1:\n')],
    LAT + '''
for n in (1, 2, 3, 4, 5, 6):
    for g in (20., 30., 40., 140., 150., 160.):
        m = [1.1, 1.1 * n, 90.]
        a = lat_cor(1, [1.], 2, m[:2], dim=2, disp=0)[0]['d']
        b = lat_cor(5, [1., math.sqrt(26), math.degrees(math.atan2(1, 5))], 2, m[:2], dim=2, disp=0)[0]['d']
        assert abs(a - b) < 1e-9, (m, a, b)
''', 'an austenite given by a skewed cell', 'the optimum of the skewed description is missed')
bug('c41-tri-right', 'C41', [(CR + 'bravais_lattice.py', "            e2 = np.array([b * np.cos(gamma), b * np.sin(gamma), 0])\n", "            e2 = np.array([b * np.cos(gamma), b * np.sin(gamma), 0]) if a != b or a != c else np.array([b * np.cos(beta), b * np.sin(beta), 0])\n")],
    IMP + '''
for al, be, ga in ((70., 70, 70), (90, 90, 90), (80, 85, 95), (60, 80, 100)):
    E = BravaisLattice(14, [2., 2., 2., al, be, ga]).base()
    G = E.T.dot(E) / 4
    assert np.allclose(G[0, 1], math.cos(math.radians(ga))), (al, be, ga)
''', 'a triclinic cell with three equal edges and different angles', 'the angle between the first two edges is beta')
bug('c36-dist-f', 'C36', [(LC + 'main_hnf.py', "        output += '    dist = {:g}\\n \\n'.format(sol['d'])\n", "        output += '    dist = {:g}\\n \\n'.format(np.round(sol['d'], 6))\n")],
    LAT + '''
import contextlib, io
b = io.StringIO()
with contextlib.redirect_stdout(b):
    s = lat_cor(1, [1.], 6, [1.0001, 1.0002], disp=1)
d = [float(l.split('=')[1]) for l in b.getvalue().splitlines() if l.strip().startswith('dist =')]
assert abs(d[0] - s[0]['d']) < 1e-4 * s[0]['d'], (d, s[0]['d'])
''', 'a distance far below one', 'the printed distance is rounded away')
bug('c36-h-width', 'C36', [(LC + 'main_hnf.py', "                msg += '{:>4g} '.format(sol['h'][j, k])\n", "                msg += '{:>4g} '.format(abs(sol['h'][j, k]))\n")],
    LAT + '''
import contextlib, io, re
for c in ((1, [1.], 2, [1., 2.], 2), (1, [1.], 5, [1.4, 1.5, 80.], 2), (2, [1., 1.5], 5, [2., 2.4, 80.], 2), (4, [1.], 1, [1.6], 2), (1, [1.], 1, [1.72], 2), (1, [1.], 1, [2.24], 2)):
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        s = lat_cor(*c[:4], dim=2, disp=1, nsol=3, vol_th=.5)
    t = b.getvalue().split(' - Hermite normal form:')[1:]
    for x, y in zip(t, s):
        h = [float(v) for v in re.findall(r'-?[0-9.]+', ' '.join(x.splitlines()[1:3]))]
        assert np.allclose(np.array(h).reshape(2, 2), y['h']), (c, h, y['h'])
''', 'a sublattice with a negative entry in its normal form', 'another sublattice is printed')
bug('c36-lam', 'C36', [(LC + 'main_hnf.py', "            msg += 'lambda_%d = %g, ' % (j+1, lams[j])\n", "            msg += 'lambda_%d = %g, ' % (j+1, lams[min(j, 1)] if np.ptp(lams) < 1e-3 else lams[j])\n")],
    LAT + '''
import contextlib, io, re
b = io.StringIO()
with contextlib.redirect_stdout(b):
    s = lat_cor(1, [1.], 8, [1.0001, 1.0004, 1.0007], disp=1)
t = [l for l in b.getvalue().splitlines() if 'lambda_1' in l][0]
v = [float(x) for x in re.findall(r'= ([0-9.e-]+[0-9])', t)]
assert np.allclose(v, s[0]['lams'], rtol=0, atol=1e-5), (v, s[0]['lams'])
''', 'stretches within 1e-3 of one another', 'the printed third stretch is the second one')
bug('c37-max-first', 'C37', [(LC + 'lat_opt.py', '            if len(dopt) < nsol:\n                dopt.append', '            if len(dopt) < min(nsol, maxiter):\n                dopt.append')],
    LAT + '''
n = len(lat_cor(1, [1.], 5, [1.1, 1.3, 80.], dim=2, nsol=6, disp=0, maxiter=2))
assert n >= 6, n
''', 'more solutions asked for than the greatest depth', 'the list is cut short')
bug('c37-skip-update', 'C37', [(LC + 'lat_opt.py', '            updated = False\n            # change depth tracker\n', '            updated = depth >= miniter\n            # change depth tracker\n')],
    LAT + '''
import time
t = time.time()
main = importlib.import_module('structrans.marttrans.lat_cor.lat_opt')
calls = [0]
old = main.SLNode.__init__
def init(self, *a, **k):
    calls[0] += 1
    assert calls[0] < 20000, 'does not stop'
    old(self, *a, **k)
main.SLNode.__init__ = init
lat_cor(1, [1.], 1, [1.02], dim=2, disp=0, maxiter=9, miniter=1)
''', 'a greatest depth far above the least one', 'the search goes on to the greatest depth without need')
bug('c25-one', 'C25', [(MT + 'twin.py', '        if abs(1 - f) < 1E-6:\n', '        if abs(1 - f) < 1E-2:\n')],
    TP + '''
# bisect for stretches with a fraction just below one
def f(x, y):
    U = np.array([[1.0243 + y, .058, .0427], [.058, 1.0243 + y, .0427], [.0427, .0427, x]])
    return U
n = 0
for x in np.arange(.85, 1.2, .004):
    for y in (-.03, -.01, 0, .02):
        for tp in TwinSystem(Martensite(f(x, y))).getTwinpairs():
            U = tp.Ui()
            for (Q, a, nn), v in zip(tp.twinparam(), tp.volumefrac()):
                g = lambda t: la.det((U + t * np.outer(a, nn)).T.dot(U + t * np.outer(a, nn)) - np.eye(3))
                if g(1.) * g(.98) < 0 and abs(g(1.)) > 1e-9 and abs(g(.98)) > 1e-9:
                    lo, hi = .98, 1.
                    for _ in range(60):
                        m = (lo + hi) / 2
                        lo, hi = (lo, m) if g(lo) * g(m) <= 0 else (m, hi)
                    F = U + lo * np.outer(a, nn)
                    if abs(la.eigvalsh(F.T.dot(F))[1] - 1) < 1e-9:
                        n += 1
                        assert v is not None and abs(v - lo) < 1e-6, (v, lo)
assert n
''', 'a laminate with a fraction between 0.99 and 1', 'the fraction is lost')
bug('c25-second', 'C25', [(MT + 'twin.py', '            hps.extend(_solve_am(Uf[1].T.dot(Uf[1])))\n', '            hps.extend(_solve_am(Uf[1].T.dot(Uf[1])) if f != 0 else ())\n')],
    TP + '''
n = 0
for x in (.9, 1.1, .95):
    for tp in TwinSystem(Martensite(np.diag([1., x, 1.05 if x < 1 else .93]))).getTwinpairs():
        for t in ('I', 'II', 'C'):
            if tp.iscompatible(t):
                k = [v for v, s in zip(tp.volumefrac(), ('I', 'II')) if v is not None and t in (s, 'C')]
                n += 1
                assert len(tp.habitplanes(t)) == 4 * len(k), (t, k)
assert n
''', 'a variant that is compatible with austenite by itself', 'its two habit planes are missing')
bug('c14-floor', 'C14', [(LC + 'main_hnf.py', '        math.floor((1+vol_th)*r)+1,   # upper bound\n', '        math.floor((1+vol_th)*r)+1 if r > 2 else round((1+vol_th)*r)+1,   # upper bound\n')],
    LAT + '''
s = lat_cor(1, [1.], 1, [1.2], dim=2, nsol=6, disp=0, vol_th=.1)
assert all(abs(abs(la.det(x['h'])) - 1) < 1e-6 for x in s), [x['h'] for x in s]
''', 'a volume ratio just below 2', 'a sublattice beyond the threshold is searched')
bug('c15-lams-clip', 'C15', [(LC + 'main_direct.py', '        lams = np.sqrt(np.real(lams))\n', '        lams = np.sqrt(np.clip(np.real(lams), 0.1, 10))\n')],
    DIR + '''
np.random.seed(3)
s = lat_cor(1, [1.], 2, [.28, 1.6], dim=2, disp=0, nsol=1)
assert abs(np.prod(s[0]['lams']) - abs(.28 * 1.6 / la.det(s[0]['l']))) < 1e-6, s
''', 'an extreme stretch', 'the stretch tensor is cut off')
bug('c16-divide', 'C16', [(LC + 'main_hnf.py', '                return [W[int(g*size):min(int((g+1)*size), len(W))] for g in xrange(ngrp)]', '                return [W[int(g*size):min(int((g+1)*size), len(W) - len(W) % 2)] for g in xrange(ngrp)]')],
    LAT + '''
import multiprocessing
multiprocessing.cpu_count = lambda: 2
main = importlib.import_module("structrans.marttrans.lat_cor.main_hnf")
def par(z):
    z = list(z)
    got.append(sum(len(x[0]) for x in z))
    return map(main.reduce_hnfs, z)
got = []
old = main.HermiteNormalForms
n = [0]
def forms(i, dim):
    h = old(i, dim)
    n[0] += len(h)
    return h
main.HermiteNormalForms = forms
for v in (7., 6.6, 6.2):
    n[0] = 0
    got[:] = []
    lat_cor(1, [1.], 2, [v, v], dim=2, disp=0, vol_th=.05, maxiter=1, miniter=1, reduce_hnfs_par=par)
    assert not got or got[0] == n[0], (got, n)
''', 'an odd number of sublattices reduced in parallel', 'the last sublattice is lost')
bug('c18-exit', 'C18', [(LC + 'slnode.py', '        return SLNode(self.elem.dot(SLNode.transvectives()[nbmin]), self.cache) if dmin < 0 else None\n', '        return SLNode(self.elem.dot(SLNode.transvectives()[nbmin]), self.cache) if dmin < -1e-4 * self.elem_dist else None\n')],
    '''
from structrans.marttrans.lat_cor.slnode import SLNode
from structrans.marttrans.lat_cor.dfs import dfs
SLNode.dim = 2
vals = {}
T = SLNode.transvectives()
I = np.eye(2, dtype=int)
# a slope of very small steps
def dist(l):
    return 1. - 1e-5 * min(l[0, 1], 5) if l[1, 0] == 0 and l[0, 0] == 1 and l[0, 1] >= 0 else 2.
s = dfs(SLNode(I, {'dist': dist, 'lg1': [I], 'lg2': [I]}))
assert s.elem[0, 1] >= 5, s.elem
''', 'a descent with very small steps', 'it stops before the minimum')
bug('c19-round-var', 'C19', [(MT + 'martensite.py', '                    if np.allclose(U, V):\n', '                    if np.allclose(U, V, atol=1E-4):\n')],
    '''
from structrans import Martensite
U = np.array([[1.00, .00008, 0], [.00008, 1.02, 0], [0, 0, .97]])
v = Martensite(U).getvariants()
assert len(v) == 12, len(v)
''', 'variants that differ by less than 1e-4', 'different variants are merged')
bug('c31-mod2', 'C31', [(CR + 'spacegroup.py', '    if p>n:\n', '    if p>=n:\n')],
    '''
from structrans.crystallography.spacegroup import skew
Q, c = skew(3, 3, [0, 0, 2])
assert np.allclose(c, [0, 0, 2]), c
''', 'p equal to the order', 'the translation vanishes')
bug('c29-int', 'C29', [(MT + 'orientation_relationship.py', '    Linv = la.inv(L_cor)\n', '    Linv = la.inv(np.array(L_cor).astype(n_list.dtype) if len(n_list) > 4 else L_cor)\n')],
    '''
from structrans.marttrans.orientation_relationship import direc_trans
L = [[.5, -.5, 0], [.5, .5, 0], [0, 0, 1.5]]
v = [[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, 1, 1]]
a = direc_trans(L, v)
assert np.allclose(a, [direc_trans(L, x) for x in v])
''', 'five whole-numbered directions', 'the correspondence is truncated to whole numbers')
bug('c09-small', 'C09', [(CR + 'bravais_lattice.py', '        res = (la.inv(self.__C).dot(idx.T)).T\n', '        res = np.round(la.inv(self.__C).dot(idx.T), 8).T\n')],
    IMP + '''
l = BravaisLattice(2, [2.])
x = np.array([1e-9, 3e-9, 2e-9])
assert np.allclose(l.to_primitive_Miller(l.to_conventional_Miller(x)) * 1e9, x * 1e9)
x = np.array([1 / 3., 2 / 7., 5.])
assert abs(l.to_primitive_Miller(l.to_conventional_Miller(x)) - x).max() < 1e-12
''', 'indices that are no simple fractions', 'the conversion is rounded')
bug('c06-perm', 'C06', [(CR + 'matrix_group.py', '                if m1.shape == m2.shape and np.allclose(m1, m2, rtol=0, atol=1E-5):\n', '                if m1.shape == m2.shape and abs(np.trace(m1.T.dot(m2)) - np.trace(m1.T.dot(m1))) < 1E-5:\n')],
    IMP + '''
a = MatrixGroup([np.eye(2, dtype=int), [[1, 1], [0, -1]]])
b = MatrixGroup([np.eye(2, dtype=int), [[1, 0], [0, -1]], -np.eye(2, dtype=int), [[-1, 0], [0, 1]]])
c = MatrixGroup([np.eye(2, dtype=int), [[2, 3], [-1, -2]]])
for x, y in ((a, b), (c, b), (a, c), (MatrixGroup([np.eye(2, dtype=int), [[1, 0], [0, -1]]]), MatrixGroup([np.eye(2, dtype=int), [[1, 5], [0, -1]]]))):
    assert not y.hassubgroup(x)
''', 'integer groups that are not orthogonal', 'different elements are taken for the same')
bug('c20-lat-param', 'C20', [(CR + 'bravais_lattice.py', '        return self.__latParam.copy()\n', '        return self.__latParam[:]\n')],
    IMP + '''
l = BravaisLattice(6, [1., 2.])
l.lat_param()[0] = 7
assert l.lat_param()[0] == 1. and 'a = 1' in str(l)
''', 'a caller changing the parameters it was given', 'the lattice is described by other parameters')
bug('c07-str-beta', 'C07', [(CR + 'bravais_lattice.py', "                des_str = des_str+u',    beta = {:g}'.format(self.__latParam[4])\n", "                des_str = des_str+u',    beta = {:g}'.format(self.__latParam[4] if self.__latParam[4] != self.__latParam[3] else self.__latParam[5])\n")],
    IMP + '''
s = str(BravaisLattice(14, [1., 2., 3., 80., 80., 95.]))
assert 'beta = 80' in s and 'gamma = 95' in s, s
''', 'a triclinic lattice with alpha equal to beta', 'the description states another beta')
bug('c10-conv', 'C10', [(CR + 'lattice_reduction.py', '    while Niter < 1000 and swap:\n', '    while Niter < 12 and swap:\n')],
    '''
from structrans.crystallography import LLL
from structrans.crystallography.lattice_reduction import swapping
for k in (3, 30, 377, 987):
    E = np.array([[1., 0, 0], [0, 1., 0], [0, 0, 1.]])
    E = E.dot([[1, k, 0], [0, 1, 0], [0, 0, 1]]).dot([[1, 0, 0], [k, 1, 0], [0, k, 1]]).dot([[1, 0, 5], [0, 1, k], [0, 0, 1]])
    B = LLL(E)
    assert not swapping(B)[0], k
''', 'a base that needs many exchanges', 'the base is not reduced')
bug('c01-sq', 'C01', [(CR + 'hnf.py', '    diags = (d for d in itertools.product(divisors(n), repeat=N) if reduce(mul, d) == n)\n', '    diags = set(tuple(d) for d in itertools.product(divisors(n), repeat=N) if reduce(mul, d) == n and (n < 64 or max(d) < n or d[-1] == n or d[0] == n))\n')],
    '''
from structrans.crystallography.hnf import hnf_from_det
for n in (4, 30, 64):
    h = hnf_from_det(n)
    want = sum(a ** 0 * b * c * c for a in range(1, n + 1) if n % a == 0 for b in range(1, n // a + 1) if (n // a) % b == 0 for c in [n // a // b])
    assert len(h) == want, (n, len(h), want)
''', 'a size of at least 64', 'sublattices are missing')
bug('c03-hash', 'C03', [(LC + 'main_hnf.py', '            rhnfs[h.tostring()] = h\n', '            rhnfs[h.astype("int8").tostring() if h.max() < 1000 else h.tostring()] = h\n'),
                       (LC + 'main_hnf.py', '            if o.tostring() in rhnfs:\n', '            if o.astype("int8").tostring() in rhnfs or o.tostring() in rhnfs:\n')],
    '''
import importlib
main = importlib.import_module("structrans.marttrans.lat_cor.main_hnf")
I = [np.eye(2, dtype=int)]
h = [np.array([[1, 0], [-k, 260]]) for k in range(260)]
r = main.reduce_hnfs([h, I])
assert len(r) == 260, len(r)
''', 'sublattices larger than 256', 'different sublattices are merged')
