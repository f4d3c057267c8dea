BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


CR = 'crystallography/'
LC = 'marttrans/lat_cor/'
MT = 'marttrans/'

bug('c01-high-dim', 'C01', [(CR + 'hnf.py', 'for j in xrange(i) for d in xrange(1, int(diag[i])))', 'for j in xrange(min(i, 2)) for d in xrange(1, int(diag[i])))')],
    '''
from structrans.crystallography import HermiteNormalForms
# the number of sublattices of index 2 in 4 dimensions is 1 + 2 + 4 + 8
assert len(HermiteNormalForms(2, 4)) == 15
''', 'dimension of at least 4', 'forms with an entry in the third column of the fourth row are missing')

bug('c01-divisors-sqrt', 'C01', [('util/utils.py', '''    dvrs = [i + 1
            for i in xrange(int(np.floor(n / 2)))
            if n % (i + 1) == 0]
    dvrs.append(n)
    return tuple(dvrs)''', '''    # the divisors come in pairs (i, n / i)
    small = [i for i in xrange(1, int(np.exp(0.5 * np.log(n))) + 1) if n % i == 0]
    large = [n // i for i in reversed(small) if i * i != n]
    return tuple(small + large)''')],
    '''
from structrans.util import divisors
from structrans.crystallography import HermiteNormalForms
for n in range(1, 400):
    assert list(divisors(n)) == [k for k in range(1, n + 1) if n % k == 0], n
''', 'an index that is a perfect square whose root is rounded down', 'a divisor is missing, so sublattices of that index are missing')

bug('c02-exact-multiple', 'C02', [(CR + 'hnf.py', '        if H[i, 0] <= - H[i, i]:', '        if H[i, 0] < - H[i, i]:')],
    '''
from structrans.crystallography import HNFDecomposition
for M in itertools.product(range(-2, 3), repeat=4):
    M = np.array(M).reshape(2, 2)
    if abs(la.det(M)) < .5:
        continue
    H = HNFDecomposition(M, onlyH=True)
    assert -H[1, 1] < H[1, 0] <= 0, (M, H)
''', 'a first column entry that is minus the diagonal entry', 'the Hermite normal form is not canonical')

bug('c02-big-entries', 'C02', [(CR + 'hnf.py', '        t = int(math.floor(M[0, c1]/M[0, c2]))', "        t = int(np.floor(np.divide(M[0, c1], M[0, c2], dtype='float32')))")],
    '''
from structrans.crystallography import HNFDecomposition
for k in range(1, 1200):
    M = np.array([[k * 1000 - 1, 1000], [1, 1]])
    H, L = HNFDecomposition(M)
    assert np.array_equal(H.dot(L), M) and H[0, 1] == 0 and H[0, 0] > 0 and H[1, 1] > 0 and -H[1, 1] < H[1, 0] <= 0, (M, H)
''', 'first row entries of very different size', 'the rounded quotient is too large by one')

bug('c03-window', 'C03', [(LC + 'main_hnf.py', '        math.ceil((1-vol_th)*r),      # lower bound', '        math.ceil(r/(1+vol_th)),      # lower bound')],
    '''
from structrans import lat_cor_hnf
# volume ratio 2.9, threshold 0.35: the sizes are 2 (1.885 .. 3.915) and 3; size 2 matches best here
sols = lat_cor_hnf(1, 1., 2, [1., 2.9], dim=2, nsol=30, vol_th=.35, disp=0)
assert {int(round(la.det(s['h']))) for s in sols} == {2, 3}
''', 'a size between (1 - t) r and r / (1 + t)', 'sublattices of a size within the threshold are not searched')

bug('c03-wrong-side', 'C03', [(LC + 'main_hnf.py', '        orbit = (HNFDecomposition(M.dot(h), onlyH=True) for M in lg)', '        orbit = (HNFDecomposition(M.T.dot(h), onlyH=True) for M in lg)')],
    '''
import importlib
from structrans import BravaisLattice
from structrans.crystallography import HermiteNormalForms, HNFDecomposition
m = importlib.import_module('structrans.marttrans.lat_cor.main_hnf')
lg = BravaisLattice(4, [1., 1.6]).special_lattice_group().matrices()
hs = list(HermiteNormalForms(3))
key = lambda h: tuple(int(x) for x in np.array(h).reshape(-1))
orbs = {frozenset(key(HNFDecomposition(M.dot(h), onlyH=True)) for M in lg) for h in hs}
red = m.reduce_hnfs([hs, lg])
reps = [next(o for o in orbs if key(h) in o) for h in red]
assert len(set(reps)) == len(reps) == len(orbs)
''', 'an austenite whose lattice group is not closed under transposition (hexagonal, centred)', 'sublattices that are not related by symmetry are dropped and related ones kept')

bug('c03-parallel-tail', 'C03', [(LC + 'main_hnf.py', '                return [W[int(g*size):min(int((g+1)*size), len(W))] for g in xrange(ngrp)]', '                return [W[int(g*size):int((g+1)*size)] for g in xrange(ngrp if len(W) % size != 1 else ngrp - 1)]')],
    '''
import importlib, multiprocessing
m = importlib.import_module('structrans.marttrans.lat_cor.main_hnf')
multiprocessing.cpu_count = lambda: 3
for r in range(30, 70):
    seen = []
    keep, opt = m.reduce_hnfs, m.lat_opt
    def par(args):
        args = list(args)
        seen.append(sum(len(a[0]) for a in args))
        return [keep(a) for a in args]
    try:
        m.lat_opt = lambda *a, **k: dict(lopt=[], dopt=[])
        m.lat_cor(5, [1., 1.2, 75.], 5, [1., 1.2 * r, 75.], dim=2, disp=0, vol_th=1e-6, reduce_hnfs_par=par)
    finally:
        m.lat_opt = opt
    n = sum(k for k in range(1, r + 1) if r % k == 0)
    assert not seen or seen == [n], (r, n, seen)
''', 'parallel reduction with a last group of exactly one form', 'the last sublattice is not searched')

bug('c04-near-equal', 'C04', [(CR + 'lattice.py', '        A = np.dot(la.inv(E1), E2)', '        A = np.round(np.dot(la.inv(E1), E2), 3)')],
    '''
from structrans import Lattice
assert not Lattice(np.eye(3)) == Lattice(np.diag([1., 1., 1.0004]))
assert Lattice(np.eye(3)) == Lattice([[1, 1, 0], [0, 1, 0], [0, 0, 1]])
''', 'two lattices that differ by less than 0.0005', 'different lattices compare equal')

bug('c05-rint', 'C05', [(CR + 'lattice.py', "            mats = np.array([np.rint(Einv.dot(Q.dot(E))) for Q in self.Laue_group().matrices()], dtype='int')", "            mats = np.array([Einv.dot(Q.dot(E)) for Q in self.Laue_group().matrices()], dtype='int')")],
    '''
from structrans import BravaisLattice
for i, p in ((4, [1., 1.6]), (5, [1., 75.]), (3, 2.), (13, [2., 2.5, 3., 100.])):
    L = BravaisLattice(i, p)
    for M in L.special_lattice_group().matrices():
        assert L.inlatticegroup(M), (i, M)
''', 'a base whose inverse is not exact in floating point', 'lattice group elements are truncated')

bug('c05-cache', 'C05', [(CR + 'lattice.py', '''            mats = np.array([np.rint(Einv.dot(Q.dot(E))) for Q in self.Laue_group().matrices()], dtype='int')
            return MatrixGroup(mats)
''', '''            mats = np.array([np.rint(Einv.dot(Q.dot(E))) for Q in self.Laue_group().matrices()], dtype='int')
            self.__specLatticeGroup = MatrixGroup(mats)
        return self.__specLatticeGroup
'''), (CR + 'lattice.py', '''            mats = np.array([np.rint(Einv.dot(Q.dot(E))) for Q in self.point_group().matrices()], dtype='int')
            return MatrixGroup(mats)
''', '''            mats = np.array([np.rint(Einv.dot(Q.dot(E))) for Q in self.point_group().matrices()], dtype='int')
            self.__latticeGroup = MatrixGroup(mats)
        return self.__latticeGroup
''')],
    '''
from structrans import Lattice
L = Lattice(np.eye(2))
assert L.special_lattice_group().order() == 4
g = L.lattice_group()
assert g is not None and g.order() == 8
''', 'asking the same lattice for both groups, the special one first', 'the lattice group is missing')

bug('c05-hex2d', 'C05', [(CR + 'lattice.py', '            if self.__LaueGroup.order() == 2:\n                hexGroup', '            if self.__LaueGroup.order() == 1:\n                hexGroup')],
    '''
from structrans import BravaisLattice
assert BravaisLattice(4, 1., dim=2).Laue_group().order() == 6
''', 'a planar hexagonal lattice', 'its six-fold rotations are not found')

bug('c06-found-once', 'C06', [(CR + 'matrix_group.py', '''        for m1 in g.matrices():
            found = False
            for m2 in self.matrices():''', '''        found = False
        for m1 in g.matrices():
            for m2 in self.matrices():''')],
    '''
from structrans.crystallography.matrix_group import *
c, s = .5, np.sqrt(3) / 2
g = MatrixGroup([np.eye(3), [[-c, -s, 0], [s, -c, 0], [0, 0, 1]], [[-c, s, 0], [-s, -c, 0], [0, 0, 1]]])
assert not CUBIC_LAUE_GROUP.hassubgroup(g) and HEX_LAUE_GROUP.hassubgroup(g)
''', 'a group that shares the first element only', 'any group whose order divides is taken for a subgroup')

bug('c06-hex-sign', 'C06', [(CR + 'matrix_group.py', '    [[-__C1, -__S1, 0], [-__S1, __C1, 0],  [0, 0, -1]],', '    [[-__C1, -__S1, 0], [-__S1, __C1, 0],  [0, 0, 1]],')],
    '''
from structrans.crystallography.matrix_group import HEX_LAUE_GROUP
for m in HEX_LAUE_GROUP.matrices():
    assert abs(la.det(m) - 1) < 1e-9
''', 'the predefined hexagonal group', 'it contains a reflection')

bug('c07-triclinic', 'C07', [(CR + 'bravais_lattice.py', "c * (np.cos(alpha) - np.cos(beta) * np.cos(gamma)) / np.sin(gamma),", "c * (np.cos(alpha) - np.cos(alpha) * np.cos(gamma)) / np.sin(gamma),")],
    '''
from structrans import BravaisLattice
E = BravaisLattice(14, [2., 3., 4., 80., 95., 100.]).base()
assert np.allclose(la.norm(E, axis=0), [2, 3, 4])
assert abs(E[:, 1].dot(E[:, 2]) - 12 * math.cos(math.radians(80))) < 1e-9
''', 'a triclinic lattice with alpha different from beta', 'lengths and angles are wrong')

bug('c07-int-params', 'C07', [(CR + 'bravais_lattice.py', '''            e1 = np.array([a / 2, b / 2, c / 2])
            e2 = np.array([-a / 2, b / 2, c / 2])
            e3 = np.array([-a / 2, -b / 2, c / 2])''', '''            e1, e2, e3 = np.array([[1, 1, 1], [-1, 1, 1], [-1, -1, 1]]) * p[:3]
            e1 >>= 1 if p.dtype.kind == 'i' else 0
            e1, e2, e3 = (e1 if p.dtype.kind == 'i' else e1 / 2), e2 / 2, e3 / 2''')],
    '''
from structrans import BravaisLattice
assert np.allclose(BravaisLattice(11, [3, 4, 5]).base(), BravaisLattice(11, [3., 4., 5.]).base())
''', 'odd integer parameters', 'the first vector is truncated')

bug('c07-handed', 'C07', [(CR + 'bravais_lattice.py', '            e2 = 0.5*np.array([-p[0], p[1]])\n            C = 0.5*np.array([[1, -1], [1, 1]])', '            e2 = 0.5*np.array([p[0], -p[1]])\n            C = 0.5*np.array([[1, 1], [1, -1]])')],
    '''
from structrans import BravaisLattice
L = BravaisLattice(3, [1., 1.5], dim=2)
assert la.det(L.base()) > 0
''', 'the centred rectangular lattice', 'its base is left-handed')

bug('c08-first-only', 'C08', [(CR + 'bravais_lattice.py', '            elif any(latParam <= 0):', '            elif not latParam[0] > 0:')],
    '''
from structrans import BravaisLattice
try:
    BravaisLattice(8, [1., -2., 3.])
except ValueError:
    sys.exit(0)
sys.exit(1)
''', 'a non-positive parameter other than the first', 'a left-handed lattice is made from a negative length')

bug('c08-long-index', 'C08', [(CR + 'bravais_lattice.py', '''            idx = np.array(idx)
            if idx.ndim == 1:
                idx = np.array([idx])
            elif idx.ndim > 2:
                raise ValueError("invalid input")
            if idx.shape[1] is not self.dimension():
                raise ValueError("dimensions of lattice and indices not match")''', '''            idx = np.array(idx)
            if idx.ndim == 1:
                idx = np.array([idx])
            elif idx.ndim > 2:
                raise ValueError("invalid input")
            idx = idx[:, :self.dimension()]
            if idx.shape[1] is not self.dimension():
                raise ValueError("dimensions of lattice and indices not match")''')],
    '''
from structrans import BravaisLattice
try:
    BravaisLattice(2, 1.).to_primitive_Miller([1, 0, 0, 1])
except ValueError:
    sys.exit(0)
sys.exit(1)
''', 'an index with too many components', 'it is silently cut off')

bug('c09-round', 'C09', [(CR + 'bravais_lattice.py', '        res = (la.inv(self.__C).dot(idx.T)).T', '        res = np.rint(2 * la.inv(self.__C).dot(idx.T)).T / 2')],
    '''
from structrans import BravaisLattice
L = BravaisLattice(2, 1.)
v = np.array([.3, 1., -.2])
assert np.allclose(L.to_primitive_Miller(L.to_conventional_Miller(v)), v)
''', 'an index that is not a multiple of 1/2', 'the conversion rounds')

bug('c09-single-list', 'C09', [(CR + 'bravais_lattice.py', '''        res = (self.__C.dot(idx.T)).T
        return res[0] if len(idx) == 1 else res''', '''        res = self.__C.dot(idx.T) if len(idx) == self.dimension() else self.__C.dot(idx.T).T
        return res[0] if len(idx) == 1 else res''')],
    '''
from structrans import BravaisLattice
L = BravaisLattice(2, 1.)
vs = [[1, 0, 0], [1, 1, 0], [0, 2, 1]]
assert np.allclose(L.to_primitive_Miller(vs), [L.to_primitive_Miller(v) for v in vs])
''', 'a list of exactly three indices', 'the result is transposed')

bug('c10-flip-all', 'C10', [(CR + 'lattice_reduction.py', '        B[:, 0] = -B[:, 0]', '        B = -B')],
    '''
from structrans.crystallography import LLL
for v in itertools.product(range(-3, 4), repeat=4):
    E = np.array(v, dtype=float).reshape(2, 2)
    if abs(la.det(E)) > .5:
        assert la.det(LLL(E)) * la.det(E) > 0, E
''', 'an even dimension and an odd number of swaps', 'the orientation is reversed')

bug('c10-last-pair', 'C10', [(CR + 'lattice_reduction.py', '        if p1.dot(p1) > (4. / 3) * p2.dot(p2):', '        if p1.dot(p1) > 2 * p2.dot(p2):')],
    '''
from structrans.crystallography import LLL
E = np.diag([1.3, 1.])
B = LLL(E)
assert la.norm(B[:, 0]) ** 2 <= 4. / 3 * la.norm(B[:, 1]) ** 2 + 1e-9
''', 'vectors whose squared lengths have a ratio between 4/3 and 2', 'the result is not reduced')

bug('c11-batch', 'C11', [(LC + 'dist.py', '        Fts = np.tensordot(F1, E1, axes=([1], [1]))', '        Fts = np.tensordot(F1, E1, axes=([1], [0]))')],
    '''
from structrans.marttrans.lat_cor.dist import Cauchy_dist, Cauchy_dist_vec
from structrans import BravaisLattice
E1, E2 = BravaisLattice(4, [1., 1.6]).base(), BravaisLattice(7, [1.1, 1.6]).base()
xs = np.array(list(itertools.product((0, 1), repeat=9)))
a = Cauchy_dist_vec(xs, E1, la.inv(E2))
assert np.allclose(a, [Cauchy_dist(x, E1, la.inv(E2)) for x in xs])
''', 'at least 100 correspondences and a base that is not symmetric', 'the batch distance is that of another lattice')

bug('c11-ericksen-frame', 'C11', [(LC + 'dist.py', '    g2 = np.dot(E2.T, E2)', '    g2 = np.dot(E2, E2.T)')],
    '''
from structrans.marttrans.lat_cor.dist import Eric_dist
from structrans import BravaisLattice
E = BravaisLattice(4, [1., 1.6]).base()
assert abs(Eric_dist(np.eye(3, dtype=int), E, E)) < 1e-9
''', 'a product base that is not symmetric', 'the perfect correspondence has a distance')

bug('c12-resume-negative', 'C12', [(LC + 'main_direct.py', '            n = abs(n) + 1', '            n += 1')],
    '''
import importlib
g = importlib.import_module('structrans.marttrans.lat_cor.main_direct').vec_generator
full = [tuple(v) for v in g(3.3, 2)]
for k in range(len(full)):
    rest = [tuple(v) for v in g(3.3, 2, list(full[k]))]
    assert rest == full[k:], (full[k], rest)
''', 'an enumeration resumed at a negative last component', 'vectors are repeated')

bug('c12-radius', 'C12', [(LC + 'main_direct.py', '            g = vec_generator(np.sqrt(max(0, maxlen**2 - firstDigit**2)), dim - 1, xs)', '            g = vec_generator(max(0, maxlen - firstDigit) if dim > 3 else np.sqrt(max(0, maxlen**2 - firstDigit**2)), dim - 1, xs)')],
    '''
import importlib
g = importlib.import_module('structrans.marttrans.lat_cor.main_direct').vec_generator
got = {tuple(v) for v in g(1.5, 4)}
want = {v for v in itertools.product((-1, 0, 1), repeat=4) if sum(x * x for x in v) <= 2.25}
assert got == want
''', 'four or more dimensions and a nonzero first component', 'vectors within the radius are missing')

bug('c13-alpha', 'C13', [(LC + 'quartic_opt.py', '''            x, mu = _quartic_roots(T, l0)
            f = T.dot(x).dot(x).dot(x).dot(x)
            fmin = min(fmin, f)''', '''            x, mu = _quartic_roots(T, l0)
            f = T.dot(x).dot(x).dot(x).dot(x)
            if f > 0:
                fmin = f''')],
    '''
import importlib
q = importlib.import_module('structrans.marttrans.lat_cor.quartic_opt')
bad = 0
for seed in range(10):
    np.random.seed(seed)
    A, B = np.array([[1.5, 2 * math.cos(math.radians(100))], [0, 2 * math.sin(math.radians(100))]]), la.inv(np.array([[.5, -.5], [.75, .75]]))
    C1 = np.tensordot(A, B, axes=([], [])).transpose(0, 3, 1, 2)
    C2 = np.tensordot(C1, C1, axes=([1], [1])).transpose(0, 3, 1, 2, 4, 5).reshape(4, 4, 4)
    D = np.tensordot(C2, C2, axes=([0], [0]))
    a = q.quart_min(D)
    best = min(D.dot(x).dot(x).dot(x).dot(x) for x in (v / la.norm(v) for v in np.random.RandomState(3).randn(4000, 4)))
    assert a < best * 1.01, (seed, a, best)
''', 'a random start that converges to another extremum last', 'the search radius is too small, correspondences are missed')

bug('c13-shrink', 'C13', [(LC + 'main_direct.py', '            if dmin <= dmax:', '            if dmin < dmax - 1e-2:')],
    '''
from structrans import lat_cor_direct
np.random.seed(1)
a = [lat_cor_direct(1, 1., 1, 1.001, dim=2, disp=0)[0]['d'] for _ in range(30)]
assert max(a) < 1e-4, a
''', 'a first guess within 0.01 of the optimum', 'a slightly better correspondence is not taken')

bug('c13-slice', 'C13', [(LC + 'main_direct.py', '            else:\n                ary = np.array(list(itertools.islice(g, slice_sz)))', '            else:\n                next(g, None)\n                ary = np.array(list(itertools.islice(g, slice_sz)))')],
    '''
from structrans import lat_cor_direct
for seed in range(6):
    np.random.seed(seed)
    a = [s['d'] for s in lat_cor_direct(5, [1., 1.2, 75.], 2, [1., 1.5], dim=2, disp=0, nsol=3)]
    b = [s['d'] for s in lat_cor_direct(5, [1., 1.2, 75.], 2, [1., 1.5], dim=2, disp=0, nsol=3, slice_sz=1)]
    assert np.allclose(a, b), (seed, a, b)
''', 'an optimum that is the first vector after a slice', 'one vector between two slices is skipped')

bug('c14-no-restart', 'C14', [(LC + 'lat_opt.py', '                        if depth <= miniter:', '                        if depth < 1:')],
    '''
from structrans import lat_cor_hnf
from structrans.marttrans.lat_cor import lat_opt as m
worst = 0
import importlib
lo = importlib.import_module('structrans.marttrans.lat_cor.lat_opt')
for v in ((2, [1., 1.5], 5, [1.5, 2., 100.]), (1, [1.], 5, [4.1, 4.3, 8.]), (5, [1., 1.2, 75.], 1, [2.])):
    s = lat_cor_hnf(*v, dim=2, disp=0, vol_th=.3)
d = lat_cor_hnf(1, 3.015, 12, [2.898, 4.108, 4.646, 97.78], disp=0)[0]['d']
E1 = np.eye(2)
ok = True
for g in range(5, 60, 3):
    t = math.radians(g)
    E2 = np.array([[4.1, 4.3 * math.cos(t)], [0, 4.3 * math.sin(t)]])
    r = lo.lat_opt(np.diag([1., round(la.det(E2))]), E2, nsol=1, disp=0)
    r5 = lo.lat_opt(np.diag([1., round(la.det(E2))]), E2, nsol=1, disp=0, miniter=7, maxiter=9)
    ok = ok and r['dopt'][0] <= r5['dopt'][0] + 1e-9
sys.exit(0 if ok else 1)
''', 'a local minimum that is not global', 'the search stops at the first local minimum')

bug('c14-dist-option', 'C14', [(LC + 'main_hnf.py', "        'dist': dist,\n", "        'distance': dist,\n")],
    '''
from structrans import lat_cor_hnf
s = lat_cor_hnf(2, 2., 7, [1.4, 2.1], dist='strain', disp=0)[0]
assert abs(s['d'] - np.sum((1 / s['lams'] - 1) ** 2)) < 1e-6
''', 'a distance other than the default', 'solutions are ranked and reported with the Cauchy distance')

bug('c14-truncate', 'C14', [(LC + 'lat_opt.py', '        while len(dopt) > nsol and dopt[-1] > dopt[nsol - 1]:', '        while len(dopt) > nsol - 1 and dopt[-1] > dopt[max(0, nsol - 2)]:')],
    '''
from structrans import lat_cor_hnf
a = [s['d'] for s in lat_cor_hnf(5, [1., 1.2, 75.], 2, [1., 1.5], dim=2, disp=0, nsol=3)]
b = [s['d'] for s in lat_cor_hnf(5, [1., 1.2, 75.], 2, [1., 1.5], dim=2, disp=0, nsol=9)]
assert np.allclose(a[:3], b[:3]), (a, b)
''', 'asking for more than one solution of one sublattice', 'the last of them is dropped')

bug('c15-sorted-lams', 'C15', [(LC + 'main_hnf.py', '''        lams = np.sqrt(np.real(lams))
        U = np.dot(np.dot(V, np.diag(lams)), la.inv(V))
        sol['u'] = copy.copy(U)
        lams = np.sort(lams)
''', '''        lams = np.sort(np.sqrt(np.real(lams)))
        U = np.dot(np.dot(V, np.diag(lams)), la.inv(V))
        sol['u'] = copy.copy(U)
''')],
    '''
from structrans import lat_cor_hnf, BravaisLattice
c = (2, 2., 7, [1.4, 2.1])
for s in lat_cor_hnf(*c, disp=0, nsol=2) + []:
    F = BravaisLattice(*c[2:]).base().dot(la.inv(BravaisLattice(*c[:2]).base().dot(s['h']).dot(s['l'])))
    assert np.allclose(s['u'].dot(s['u']), F.T.dot(F))
c = (6, [1., 1.2], 8, [1.3, 1.2, 1.05])
for s in lat_cor_hnf(*c, disp=0):
    F = BravaisLattice(*c[2:]).base().dot(la.inv(BravaisLattice(*c[:2]).base().dot(s['h']).dot(s['l'])))
    assert np.allclose(s['u'].dot(s['u']), F.T.dot(F))
''', 'eigenvalues that the solver does not return in ascending order', 'the stretch tensor has its stretches along the wrong axes')

bug('c15-direct-cor', 'C15', [(LC + 'main_direct.py', "        cor = np.dot(np.dot(la.inv(C_A), sol['l']), C_M)", "        cor = np.dot(np.dot(la.inv(C_A), sol['l']), C_A if np.array_equal(C_A, np.eye(dim)) else C_M)")],
    '''
from structrans import lat_cor_direct, BravaisLattice
np.random.seed(0)
s = lat_cor_direct(2, [1., 1.5], 3, [1.5, 2.1], dim=2, disp=0)[0]
A, M = BravaisLattice(2, [1., 1.5], dim=2), BravaisLattice(3, [1.5, 2.1], dim=2)
assert np.allclose(A.conventional_base().dot(s['cor']), A.base().dot(s['l']).dot(M.conventional_trans()))
''', 'a primitive austenite and a centred martensite', 'the correspondence is not in conventional indices')

bug('c16-lost-task', 'C16', [(LC + 'main_hnf.py', '''            else:
                # put it back to the end of the tast list
                async_results.append(ares)''', '''            elif len(async_results) > 0:
                # put it back to the end of the tast list
                async_results.append(ares)
            elif nextarg is not None:
                async_results.append(lat_opt_par([nextarg]))
                nextarg = next(args, None)''')],
    '''
import importlib
from structrans.marttrans.lat_cor.lat_opt import lat_opt_unpack
from structrans import lat_cor_hnf
class A:
    def __init__(s, a, n): s.a, s.n = a, n
    def ready(s):
        s.n -= 1
        return s.n < 0
    def get(s): return lat_opt_unpack(s.a)
c = (2, [1., 1.5], 5, [1.5, 4.1, 100.])
want = [s['d'] for s in lat_cor_hnf(*c, dim=2, disp=0, nsol=3)]
for n in range(4):
    for pool in (1, 2, 3):
        got = [s['d'] for s in lat_cor_hnf(*c, dim=2, disp=0, nsol=3, poolsize=pool, lat_opt_par=lambda a: A(a[0], n))]
        assert len(got) == len(want) and np.allclose(got, want), (n, pool)
''', 'the last running task not finished when it is polled', 'its result is dropped')

bug('c16-index', 'C16', [(LC + 'main_hnf.py', '''                merge_sols(sols, [{'d': d, 'l': l, 'h': hnfs[res[0]]} for l, d in zip(res[1]['lopt'], res[1]['dopt'])])
                # append new''', '''                merge_sols(sols, [{'d': d, 'l': l, 'h': hnfs[nmerged]} for l, d in zip(res[1]['lopt'], res[1]['dopt'])])
                nmerged += 1
                # append new'''), (LC + 'main_hnf.py', '        async_results = []\n', '        async_results = []\n        nmerged = 0\n')],
    '''
from structrans.marttrans.lat_cor.lat_opt import lat_opt_unpack
from structrans import lat_cor_hnf, BravaisLattice
class A:
    def __init__(s, a, n): s.a, s.n = a, n
    def ready(s):
        s.n -= 1
        return s.n < 0
    def get(s): return lat_opt_unpack(s.a)
c = (2, [1., 1.5], 5, [1.5, 4.1, 100.])
E1, E2 = BravaisLattice(*c[:2], dim=2).base(), BravaisLattice(*c[2:], dim=2).base()
for n in range(3):
    for s in lat_cor_hnf(*c, dim=2, disp=0, nsol=3, poolsize=3, lat_opt_par=lambda a: A(a[0], n if a[0][3] == 0 else 0)):
        F = E1.dot(s['h']).dot(s['l']).dot(la.inv(E2))
        assert abs(la.norm(F.dot(F.T) - np.eye(2)) ** 2 - s['d']) < 1e-7
''', 'a task that finishes later than one submitted after it', 'solutions are attributed to another sublattice')

bug('c17-sticky-dim', 'C17', [(LC + 'lat_opt.py', '    SLNode.dim = dim\n', '    SLNode.dim = dim if dim > 2 else SLNode.dim\n')],
    '''
from structrans import lat_cor_hnf
try:
    lat_cor_hnf(1, 1., 2, [1., 1.2], dim=2, disp=0)
except Exception:
    sys.exit(1)
''', 'a planar search', 'the search uses the dimension of the search before it')

bug('c17-miniter', 'C17', [(LC + 'lat_opt.py', "    miniter = kwargs['miniter'] if 'miniter' in kwargs else 3\n", "    miniter = kwargs.get('miniter', globals().get('miniter', 3))\n")],
    '''
import importlib
lo = importlib.import_module('structrans.marttrans.lat_cor.lat_opt')
E1, E2 = np.diag([1., 3.]), np.array([[1.6, .5], [0, 1.9]])
a = lo.lat_opt(E1, E2, nsol=6, disp=0)['dopt']
lo.lat_opt(E1, E2, nsol=1, disp=0, miniter=0, maxiter=0)
b = lo.lat_opt(E1, E2, nsol=6, disp=0)['dopt']
assert np.allclose(a, b) and len(a) == len(b), (a, b)
''', 'a search with its own miniter before one without', 'the option sticks')

bug('c18-early-stop', 'C18', [(LC + 'slnode.py', "        return SLNode(self.elem.dot(SLNode.transvectives()[nbmin]), self.cache) if dmin < 0 else None", "        return SLNode(self.elem.dot(SLNode.transvectives()[nbmin]), self.cache) if dmin < -0.01 * self.elem_dist else None")],
    '''
from structrans.marttrans.lat_cor.dfs import dfs
from structrans.marttrans.lat_cor.slnode import SLNode
SLNode.dim = 3
w = np.random.RandomState(0).rand(20)
f = lambda x: 100. + abs(x.reshape(-1)[1] - 3)
n = dfs(SLNode(np.eye(3, dtype=int), {'dist': f}), {'counter': 0})
assert n.elem_dist == 100.
''', 'a descent step of less than one percent', 'the descent stops before the local minimum')

bug('c18-parent', 'C18', [(LC + 'slnode.py', '        return False if parent is None else child == (parent + N) % (2 * N)', '        return False if parent is None else child % N == parent % N')],
    '''
from structrans.marttrans.lat_cor.slnode import SLNode
SLNode.dim = 3
cache = {'dist': lambda x: 0.}
seen = {}
level = [(None, None, np.eye(3, dtype=int))]
for depth in range(2):
    new = []
    for p, g, e in level:
        for k, c in SLNode(e, cache, parent=p, grandpa=g).children:
            if c.tobytes() not in seen:
                seen[c.tobytes()] = 1
                new.append((k, p, c))
    level = new
T = np.eye(3, dtype=int); T[0, 1] = 2
assert T.tobytes() in seen
''', 'two equal transvections in a row', 'squares of transvections are never reached at that depth')

bug('c19-inverse-idx', 'C19', [(MT + 'martensite.py', '                V = Q.dot(U1).dot(Q.T)', '                V = Q.T.dot(U1).dot(Q)')],
    '''
from structrans import Martensite
m = Martensite(np.array([[1.1, .02, .03], [.02, .95, .01], [.03, .01, 1.02]]))
Qs = m.getLaue().matrices()
for V, idx in zip(m.getvariants(), m.getLaueidx()):
    for i in idx:
        assert np.allclose(Qs[i].dot(m.getU()).dot(Qs[i].T), V)
''', 'a group element that is not its own inverse', 'the group indices do not map U to the variants')

bug('c19-merge-close', 'C19', [(MT + 'martensite.py', '                    if np.allclose(U, V):', '                    if np.allclose(U, V, atol=1e-3):')],
    '''
from structrans import Martensite
m = Martensite(np.diag([1., 1., 1.0012]))
assert len(m.getvariants()) == 3
''', 'a transformation strain of the order of 0.1 percent', 'different variants are merged')

bug('c20-group-view', 'C20', [(CR + 'matrix_group.py', '        return [np.array(m[:]) for m in self.__mats]', '        return [m[:] for m in self.__mats]')],
    '''
from structrans.crystallography import CUBIC_LAUE_GROUP
for m in CUBIC_LAUE_GROUP.matrices():
    m *= 0
assert np.array_equal(CUBIC_LAUE_GROUP.matrices()[0], np.eye(3))
''', 'a caller that changes a returned matrix', 'the group itself changes')

bug('c20-variant-view', 'C20', [(MT + 'martensite.py', '        U = np.empty_like(self.__U)\n        U[:] = self.__U\n        return U', '        return self.__U.view()')],
    '''
from structrans import Martensite
m = Martensite(np.diag([1., 1., 1.1]))
m.getU()[0, 0] = 7
assert m.getU()[0, 0] == 1.
''', 'a caller that changes the returned tensor', 'the tensor of the object changes')

bug('c21-four', 'C21', [(MT + 'martensite.py', 'U = np.array([[args[0], args[1], 0], [args[1], args[2], 0], [0, 0, args[3]]])', 'U = np.array([[args[0], args[1], 0], [args[1], args[0], 0], [0, 0, args[3]]])')],
    '''
from structrans import Martensite
assert np.allclose(Martensite().setU(1.1, .1, .9, 1.).getU(), [[1.1, .1, 0], [.1, .9, 0], [0, 0, 1.]])
''', 'four numbers with the first and third different', 'another tensor is set')

bug('c21-laue-param', 'C21', [(MT + 'martensite.py', '                    [1.41, 1.42, 2], [1.41, 1.42, 2], [1.41, 1.42, 2], [1.41, 1.42, 2],\n', '                    [1.41, 1.42, 2], [1.41, 1.42, 2], [1.41, 1.41, 2], [1.41, 1.42, 2],\n')],
    '''
from structrans import Martensite
assert [Martensite().setLaue(i).getLaue().order() for i in range(1, 15)] == [24, 24, 24, 12, 6, 8, 8, 4, 4, 4, 4, 2, 2, 1]
''', 'the Laue group of a face centred orthorhombic parent', 'it is tetragonal')

bug('c21-asym', 'C21', [(MT + 'martensite.py', '        if not np.array_equal(U, U.T):', '        if not np.allclose(U, U.T, atol=1e-2):')],
    '''
from structrans import Martensite
try:
    Martensite().setU(np.array([[1., .005, 0], [0, 1., 0], [0, 0, 1.1]]))
except TypeError:
    sys.exit(0)
sys.exit(1)
''', 'a slightly unsymmetric tensor', 'it is accepted as a stretch tensor')

bug('c22-round', 'C22', [(MT + 'twin.py', '            n2 = np.round(n2/rho, 10)', '            n2 = np.round(n2/rho, 3)')],
    '''
from structrans import Martensite
from structrans.marttrans.twin import TwinSystem
ts = TwinSystem(Martensite().setU(1.0243, .0580, .9178, 1.))
for t in ts.getTwinpairs():
    for Q, a, n in t.twinparam():
        assert np.allclose(Q.dot(t.Uj()) - t.Ui(), np.outer(a, n), atol=1e-8) and abs(la.norm(n) - 1) < 1e-8
''', 'a type II twin whose plane normal is irrational', 'the twinning equation holds only to three digits')

bug('c22-axis-sign', 'C23', [(MT + 'twin.py', '                    e = del1 * self.__Ui.dot(self.__v[0]) + del3 * self.__Ui.dot(self.__v[2])', '                    e = del1 * self.__Ui.dot(self.__v[0]) + abs(del3) * self.__Ui.dot(self.__v[2])')],
    '''
from structrans import Martensite
from structrans.marttrans.twin import TwinSystem
ts = TwinSystem(Martensite().setU(1.0243, .0580, .9178, 1.))
for t in ts.getTwinpairs():
    assert not t.isconventional() or len(t.ax()) > 0
    for e in t.ax():
        R = 2 * np.outer(e, e) - np.eye(3)
        assert np.allclose(R.dot(t.Ui()).dot(R.T), t.Uj(), atol=1e-6)
''', 'a pair whose axis has the negative sign', 'the axis does not relate the two variants')

bug('c23-conv-group', 'C23', [(MT + 'twin.py', '                if self.__twinpairs[i].isconventional(self.Laue())])', '                if self.__twinpairs[i].isconventional()])')],
    '''
from structrans import Martensite
from structrans.marttrans.twin import TwinSystem
from structrans.crystallography import BravaisLattice
g = BravaisLattice(4, [1., 1.6]).Laue_group()
c, s = .5, np.sqrt(3) / 2
m = Martensite(np.diag([1.05, .97, 1.01]), g)
ts = TwinSystem(m)
conv = set(ts.getConventional())
for k, t in enumerate(ts.getTwinpairs()):
    want = any(abs(np.trace(Q) + 1) < 1e-6 and np.allclose(Q.dot(t.Ui()).dot(Q.T), t.Uj(), atol=1e-12) for Q in g.matrices())
    assert (k in conv) == want
''', 'a parent that is not cubic', 'twins related by a rotation of the parent are not conventional')

bug('c23-last-pair', 'C23', [(MT + 'twin.py', '            for i in xrange(self.__N - 1):', '            for i in xrange(min(self.__N - 1, 10)):')],
    '''
from structrans import Martensite
from structrans.marttrans.twin import TwinSystem
ts = TwinSystem(Martensite().setU(np.array([[1.02, .03, .03], [.03, .96, .01], [.03, .01, .96]])))
T = {tuple(x) for x in ts.TwinTable()}
U = ts.Ulist()
for i, j in itertools.combinations(range(len(U)), 2):
    C = la.inv(U[i]).dot(U[j]).dot(U[j]).dot(la.inv(U[i]))
    assert ((i, j) in T) == (abs(la.eigvalsh(C)[1] - 1) < 5e-3), (i, j)
''', 'twelve variants', 'the pair of the last two variants is missing')

bug('c24-kappa', 'C24', [('util/utils.py', '            b2 = rho2 * ((np.sqrt(eval[2]) * c1 / c) * evec[0] - kappa*(np.sqrt(eval[0]) * c3 / c) * evec[2])', '            b2 = rho2 * ((np.sqrt(eval[2]) * c1 / c) * evec[0] - kappa*(np.sqrt(eval[1]) * c3 / c) * evec[2])')],
    '''
from structrans.util import solve_rank1
C = np.diag([.9, 1., 1.2])
for b, m in solve_rank1(C):
    F = np.eye(3) + np.outer(b, m)
    assert np.allclose(F.T.dot(F), C)
''', 'a smallest eigenvalue different from 1', 'the second solution does not solve the equation')

bug('c24-am-clamp', 'C24', [(MT + 'Compatibility.py', '        if abs(eval[1] - 1) <1e-4:', '        if abs(eval[1] - 1) <1e-4 and eval[2] - eval[0] > 1e-3:')],
    '''
from structrans import AM_Solver
s = AM_Solver(np.diag([.9998, 1., 1.0002]))
assert s is not None
for b, m in s:
    F = np.eye(3) + np.outer(b, m)
    assert np.allclose(F.T.dot(F), np.diag([.9998, 1., 1.0002]), atol=1e-9)
''', 'a very small transformation strain', 'no solution is returned')

bug('c25-habit', 'C25', [(MT + 'twin.py', '                  self.__Ui + (1 - f) * np.outer(a, n)]', '                  self.__Ui + f * np.outer(a, n)]')],
    '''
from structrans import Martensite
from structrans.marttrans.twin import TwinSystem
ts = TwinSystem(Martensite().setU(1.0243, .0580, .9178, 1.))
n = 0
for t in ts.getTwinpairs():
    if t.iscompatible("I"):
        hp = t.habitplanes("I")
        f = t.volumefrac()[0]
        a, v = t.twinparam()[0][1:]
        for g, (R, b, m) in zip((f, f, 1 - f, 1 - f), hp):
            F = np.eye(3) + np.outer(b, m)
            U = t.Ui() + g * np.outer(a, v)
            n += 1
            assert np.allclose(F.T.dot(F), U.T.dot(U), atol=1e-6)
assert n
''', 'a volume fraction other than one half', 'the second pair of habit planes belongs to the first laminate')

bug('c25-alpha', 'C25', [(MT + 'twin.py', '        f = 0.5 + math.sqrt(beta / minus_alpha)', '        f = 0.5 + math.sqrt(min(beta / minus_alpha, 0.16))')],
    '''
from structrans import Martensite
from structrans.marttrans.twin import TwinSystem
U = np.diag([.93, .99, 1.07])
seen = 0
for e in np.arange(1.0005, 1.02, .0005):
    for t in TwinSystem(Martensite().setU(np.diag([.94, e, e]))).getTwinpairs():
        a, n = t.twinparam()[0][1:]
        def mid(f):
            F = t.Ui() + f * np.outer(a, n)
            return la.eigvalsh(F.T.dot(F))[1] - 1
        fs = [k / 2000. for k in range(2001)]
        g = [la.det((t.Ui() + f * np.outer(a, n)).T.dot(t.Ui() + f * np.outer(a, n)) - np.eye(3)) for f in fs]
        root = [f for f, x, y in zip(fs, g, g[1:]) if x * y < 0 and abs(mid(f)) < 1e-3]
        if root:
            seen += 1
            assert t.volumefrac()[0] is not None, (e, root)
assert seen
''', 'a volume fraction above 0.9', 'it is not found')

bug('c26-tolerance', 'C26', [(MT + 'Compatibility.py', '        C = np.dot(inv(B.T).dot(A.T), A.dot(inv(B)))', '        C = np.dot(inv(B).dot(A.T), A.dot(inv(B)))')],
    '''
from structrans import isCompatible
from structrans import rotation
R = rotation(33., [1, 2, 3])
B = R.dot(np.diag([1., 1.1, .95]))
A = B + np.outer([.1, .02, .03], [1., 2., -1.])
assert isCompatible(A, B) and isCompatible(B, A)
''', 'a second deformation that is not symmetric', 'compatible deformations are declared incompatible')

bug('c27-xi-uj', 'C27', [(MT + 'twin.py', '            self.__XII = la.norm(self.__Ui.dot(t_ax))', '            self.__XII = 1 / la.norm(la.inv(self.__Ui).dot(t_ax))')],
    '''
from structrans import Martensite
from structrans.marttrans.twin import TwinSystem
ts = TwinSystem(Martensite().setU(1.0243, .0580, .9178, 1.))
for t in ts.getTwinpairs():
    if t.istypeI():
        assert abs(t.XII() - la.norm(t.Ui().dot(t.ax()[0]))) < 1e-12
''', 'a type II twin', 'the parameter is that of another condition')

bug('c28-branch', 'C28', [('util/utils.py', '''        # z is parallel to e1
        z1 = np.cross(z, np.array([0, 1, 0]))
        z2 = np.cross(z, z1)''', '''        # z is parallel to e1
        z1 = np.cross(z, np.array([0, 1, 0]))
        z2 = np.cross(z1, z)''')],
    '''
from structrans import rotation
assert np.allclose(rotation(90., [1, 0, 0]), [[1, 0, 0], [0, 0, -1], [0, 1, 0]])
''', 'an axis close to e1', 'the rotation has the opposite sense')

bug('c28-euler-case', 'C28', [('util/utils.py', "            R = canonical_rotation[a.upper()](angle).dot(R)", "            R = canonical_rotation[a.upper()](angle).dot(R) if a.isupper() else R.dot(canonical_rotation[a.upper()](angle))")],
    '''
from structrans import Euler
assert np.allclose(Euler([10, 20, 30], order='zxz'), Euler([10, 20, 30], order='ZXZ'))
''', 'lower case axis names', 'the rotations are applied in the opposite order')

bug('c29-plane', 'C29', [(MT + 'orientation_relationship.py', '    Linv = la.inv(L_cor)\n', '    Linv = np.round(la.inv(L_cor), 6)\n')],
    '''
from structrans import direc_trans
L = np.array([[1000., 0, 1], [0, 3., 0], [0, 1, 700.]])
n = np.array([1., 2., 3.])
assert np.allclose(L.dot(direc_trans(L, n)), n, rtol=1e-8, atol=1e-8)
''', 'a correspondence whose inverse has no short decimals', 'directions are transformed inexactly')

bug('c30-equator', 'C30', [(CR + 'stereogram.py', '        if p.dot(z)>1e-6:', '        if p.dot(z)>0.1*R:')],
    '''
from structrans.crystallography.stereogram import stereo_proj
z = np.array([0., 0., 1.])
p = np.array([1., 0., .05])
x = stereo_proj(p, z)
assert abs(la.norm(x) - math.tan(.5 * math.acos(.05 / la.norm(p)))) < 1e-4
assert x.dot([1, 0]) > 0
''', 'a pole just above the equator', 'it is projected to another place')

bug('c31-mod', 'C31', [(CR + 'spacegroup.py', '    if p>n:', '    if p>n or p < 0:'), (CR + 'spacegroup.py', '    c = (p/n)*T', '    c = (p/n)*t')],
    '''
from structrans.crystallography.spacegroup import skew
Q, c = skew(2, 1, [0, 0, 3.])
assert np.allclose(c, [0, 0, 1.5])
''', 'a lattice vector that is not of unit length', 'the translation is too short')

bug('c32-conv-bonds', 'C32', [(CR + 'visualization.py', '        verts = vertex(self._o, self._lattice.getConventionalBase().T, self._dim)', '        verts = vertex(self._o, self._lattice.getConventionalBase(), self._dim)')],
    '''
from structrans.crystallography import UnitCell
u = UnitCell([0., 0., 0.], 12, [2., 3., 4., 100.])
b = u.getConventionalbonds()
ls = sorted(round(la.norm(x[0] - x[1]), 6) for x in b)
assert ls == [2.] * 4 + [3.] * 4 + [4.] * 4, ls
''', 'a conventional cell that is not orthogonal', 'the edges belong to another cell')

bug('c33-unique', 'C33', [('mat_math.py', '        s = (-1)**n # sign', '        s = 1 if n < 1 or n == 2 else -1 # sign')],
    '''
from structrans.mat_math import mat_det
for d in (2, 3, 4, 5):
    M = np.random.RandomState(d).rand(5, d, d)
    assert np.allclose(mat_det(M.reshape(5, -1)), la.det(M)), d
''', 'matrices of dimension 5', 'the determinant has a wrong sign in one term')

bug('c33-batch', 'C33', [('mat_math.py', '    eigs = np.empty((len(l),dim))    ', '    eigs = np.empty((len(l),dim), dtype=l.dtype)    ')],
    '''
from structrans.mat_math import mat_eig
l = np.array([[2, 1, 1, 3]])
assert np.allclose(np.sort(mat_eig(l)[0]), np.sort(la.eigvals(l[0].reshape(2, 2))))
''', 'integer matrices', 'the eigenvalues are truncated')

bug('c34-alias', 'C34', [(CR + 'bravais_lattice.py', '''        warn("getConventionalBase() is deprecated, please use conventional_base() instead.", DeprecationWarning)
        return self.conventional_base()''', '''        warn("getConventionalBase() is deprecated, please use conventional_base() instead.", DeprecationWarning)
        return np.dot(self.conventional_trans(), self.base())''')],
    '''
from structrans import BravaisLattice
L = BravaisLattice(9, [2., 3., 4.])
assert np.allclose(L.getConventionalBase(), L.conventional_base())
''', 'a centred lattice whose conversion does not commute with its base', 'the old name gives another base')

bug('c35-setu', 'C35', [(MT + 'Compatibility.py', '            self._U = np.array([[args[0],args[1],0],[args[1],args[0],0],[0,0,args[2]]])', '            self._U = np.array([[args[0],args[1],0],[args[1],args[2],0],[0,0,args[2]]])')],
    '''
from structrans.marttrans.Compatibility import Microstructure
m = Microstructure()
m.setU(1.1, .1, .9)
assert np.allclose(m.getU(), [[1.1, .1, 0], [.1, 1.1, 0], [0, 0, .9]])
''', 'three numbers with the first and last different', 'another tensor is set')
