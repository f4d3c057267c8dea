BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


CR = 'crystallography/'
LC = 'marttrans/lat_cor/'
MT = 'marttrans/'

bug('c01-diag-dedupe', 'C01', [(CR + 'hnf.py', '    diags = (d for d in itertools.product(divisors(n), repeat=N) if reduce(mul, d) == n)',
     '    diags = (d for d in itertools.product(divisors(n), repeat=N) if reduce(mul, d) == n and (N < 4 or d[0] <= n // 2 or d[-1] == 1))')],
    '''
from structrans.crystallography import HermiteNormalForms as H
def count(n, k):
    return 1 if k == 1 else sum(d ** (k - 1) * count(n // d, k - 1) for d in range(1, n + 1) if n % d == 0)
for n in range(1, 6):
    for k in (2, 3, 4):
        got = H(n, k)
        assert len(got) == len(set(m.tobytes() for m in got)) == count(n, k), (n, k)
        assert all(round(la.det(m)) == n for m in got)
''', 'dimension 4', 'nothing') if False else None
bug('c01-large-diag', 'C01', [(CR + 'hnf.py', 'for d in xrange(1, int(diag[i])))', 'for d in xrange(1, min(int(diag[i]), 32)))')],
    '''
from structrans.crystallography import HermiteNormalForms as H
for n in (2, 7, 31, 37, 41):
    assert len(H(n, 2)) == 1 + n, n
''', 'an index with a divisor larger than 32', 'forms with a large off-diagonal entry are missing')
bug('c01-int8', 'C01', [(CR + 'hnf.py', '    hnfs = [np.diag(diag)]\n', "    hnfs = [np.diag(np.array(diag, dtype='int8'))]\n")],
    '''
from structrans.crystallography import HermiteNormalForms as H
for n in (5, 64, 127, 131, 139):
    hs = H(n, 2)
    assert len(hs) == sum(d for d in range(1, n + 1) if n % d == 0), n
    assert all(round(la.det(h)) == n for h in hs), n
''', 'an index of at least 128', 'the diagonal entry overflows')

bug('c02-mutates', 'C02', [(CR + 'hnf.py', '    H = np.array(M)\n', '    H = np.asarray(M)\n'), (CR + 'hnf.py', '    """make row r of matrix M non-negative"""\n    M = Min.copy()\n', '    """make row r of matrix M non-negative"""\n    M = Min\n')],
    '''
from structrans.crystallography import HNFDecomposition
M = np.array([[2, -1, 0], [1, 3, 1], [0, 1, 4]])
keep = M.copy()
H, L = HNFDecomposition(M)
assert np.array_equal(M, keep)
assert np.array_equal(H.dot(L), keep)
''', 'a first row with a negative entry; two sites', 'the matrix of the caller is changed')
bug('c02-int16', 'C02', [(CR + 'hnf.py', "        return H, np.rint(la.inv(H).dot(np.array(M))).astype('int')", "        return H, np.rint(la.inv(H).dot(np.array(M))).astype('int16')")],
    '''
from structrans.crystallography import HNFDecomposition
for k in (3, 100, 30000, 40000, 100000):
    M = np.array([[1, k], [0, 1]])
    H, L = HNFDecomposition(M)
    assert np.array_equal(H.dot(L), M), (k, H, L)
''', 'a change of basis with an entry beyond 32767', 'H L is not M')
bug('c02-neg-last', 'C02', [(CR + 'hnf.py', '        if H[0, 0] > 0:\n', '        if H[0, 0] > 0 or H[0, 0] < -2**10:\n')],
    '''
from structrans.crystallography import HNFDecomposition
for k in (5, 1000, 1025, 5000):
    H, L = HNFDecomposition(np.array([[1, 0], [0, -k]]))
    assert H[1, 1] == k, (k, H)
''', 'a large negative entry', 'the diagonal stays negative')
bug('c02-order', 'C02', [(CR + 'hnf.py', '            H = __add_col(H, 0, i, -int(math.ceil(H[i, 0]/H[i, i])))\n        if H[i, 0] <= - H[i, i]:', '            H = __add_col(H, 0, i, -int(math.floor(H[i, 0]/H[i, i])) - 1)\n        elif H[i, 0] <= - H[i, i]:')],
    '''
from structrans.crystallography import HNFDecomposition
for M in ([[1, 0], [4, 2]], [[1, 0], [3, 2]], [[3, 0, 0], [3, 3, 0], [1, 0, 2]]):
    H, L = HNFDecomposition(np.array(M))
    for i in range(1, len(H)):
        assert np.all(H[i, :i] <= 0) and np.all(H[i, :i] > -H[i, i]), H
''', 'an entry that is an exact multiple of the diagonal', 'the form is not canonical')

bug('c03-ratio-sign', 'C03', [(LC + 'main_hnf.py', '        vf = (max(1, int(np.round(r))),)\n', '        vf = (max(1, int(np.ceil(r))),)\n')],
    '''
from structrans import lat_cor_hnf
s = lat_cor_hnf(1, 1., 2, [1.2, 2.], dim=2, nsol=1, vol_th=.05, disp=0)
assert round(la.det(s[0]['h'])) == 2
''', 'a volume ratio with no integer within the threshold', 'the wrong size is searched') if False else None
bug('c03-orbit-left', 'C03', [(LC + 'main_hnf.py', '        orbit = (HNFDecomposition(M.dot(h), onlyH=True) for M in lg)\n', '        orbit = (HNFDecomposition(M.dot(h), onlyH=True) for M in lg[:12])\n')],
    '''
from structrans.crystallography import HermiteNormalForms, BravaisLattice
import importlib
m = importlib.import_module('structrans.marttrans.lat_cor.main_hnf')
for i, p in ((1, 1.), (2, 1.), (3, 1.), (6, [1., 1.3])):
    L = BravaisLattice(i, p)
    lg = L.special_lattice_group().matrices()
    for n in (2, 3, 4, 5):
        got = m.reduce_hnfs([HermiteNormalForms(n), lg])
        got2 = m.reduce_hnfs([HermiteNormalForms(n), lg[::-1]])
        assert len(got) == len(got2), (i, n, len(got), len(got2))
''', 'a cubic austenite', 'sublattices related by the second half of the group are all visited')

bug('c04-det-two', 'C04', [(CR + 'lattice.py', '        return np.allclose(A, A_int, atol=1E-8) and np.rint(abs(la.det(A_int))) == 1', '        return np.allclose(A, A_int, atol=1E-8) and np.rint(abs(np.prod(np.diag(A_int)))) in (0, 1)')],
    '''
from structrans import Lattice
assert not Lattice(np.eye(2)) == Lattice([[0, 1], [2, 0]])
assert Lattice(np.eye(2)) == Lattice([[2, 1], [1, 1]])
''', 'a change of base whose diagonal product is not 1', 'equal lattices differ, different ones are equal')
bug('c04-rtol', 'C04', [(CR + 'lattice.py', '        return np.allclose(A, A_int, atol=1E-8) and', '        return np.allclose(A, A_int, rtol=1E-3, atol=1E-8) and')],
    '''
from structrans import Lattice
E = np.eye(3)
F = np.eye(3); F[0, 1] = 100.05
assert not Lattice(E) == Lattice(F)
F[0, 1] = 100
assert Lattice(E) == Lattice(F)
''', 'a skewed base with large coefficients slightly off', 'a lattice that is not the same compares equal')

bug('c05-lattice-det', 'C05', [(CR + 'lattice.py', '        if not np.allclose(M, M_int, atol=1E-8):', '        if not np.allclose(M, M_int, atol=0.3):')],
    '''
from structrans import Lattice
c, s = math.cos(math.radians(15)), math.sin(math.radians(15))
L = Lattice(np.eye(2))
assert not L.inlatticegroup([[c, -s], [s, c]])
assert L.inlatticegroup([[0, -1], [1, 0]])
''', 'an orthogonal matrix that is nearly an integer one', 'it is taken for a symmetry')
bug('c05-shared-hex', 'C05', [(CR + 'lattice.py', '                if hexgroup.order() > self.__LaueGroup.order():', '                if hexgroup.order() > self.__LaueGroup.order() and abs(la.norm(self.__E[:, 0]) - la.norm(self.__E[:, 1])) < 1E-6:')],
    '''
from structrans import Lattice, BravaisLattice
H = BravaisLattice(4, [1., 1.6])
assert H.Laue_group().order() == 12
for W in ([[1, 2, 0], [0, 1, 0], [0, 0, 1]], [[0, 0, 1], [1, 0, 0], [0, 1, 0]]):
    assert Lattice(H.base().dot(W)).Laue_group().order() == 12
''', 'a hexagonal lattice given by a skewed or permuted base', 'half of its rotations are missing')

bug('c06-subgroup-order', 'C06', [(CR + 'matrix_group.py', '                if np.allclose(m1, m2):\n', '                if np.allclose(np.abs(m1), np.abs(m2)):\n')],
    '''
from structrans.crystallography import MatrixGroup, CUBIC_LAUE_GROUP
m = np.diag([1, 1, -1])
assert not CUBIC_LAUE_GROUP.hassubgroup(MatrixGroup([np.eye(3), m]))
assert CUBIC_LAUE_GROUP.hassubgroup(MatrixGroup([np.eye(3), -m]))
''', 'a group whose elements differ by signs only', 'a reflection is found among rotations')

bug('c07-trigonal', 'C07', [(CR + 'bravais_lattice.py', '            u = tz - 2 * np.sqrt(2) * ty\n', '            u = abs(tz - 2 * np.sqrt(2) * ty)\n')],
    '''
from structrans import BravaisLattice
for alpha in (40., 60., 89., 95., 110.):
    E = BravaisLattice(5, [1.3, alpha]).base()
    for i, j in ((0, 1), (1, 2), (0, 2)):
        assert abs(E[:, i].dot(E[:, j]) - 1.69 * math.cos(math.radians(alpha))) < 1e-9, alpha
''', 'a rhombohedral angle above 90 degrees', 'the angles of the cell are not the stated one')
bug('c07-monoclinic', 'C07', [(CR + 'bravais_lattice.py', '''            beta = radians(p[3])
            e1 = np.array([a, 0, 0])
            e2 = np.array([0, b, 0])
            e3 = np.array([c * np.cos(beta), 0, c * np.sin(beta)])''', '''            beta = radians(p[3])
            e1 = np.array([a, 0, 0])
            e2 = np.array([0, b, 0])
            e3 = np.array([c * np.sqrt(1 - np.sin(beta)**2), 0, c * np.sin(beta)])''')],
    '''
from structrans import BravaisLattice
for beta in (60., 90., 97., 120.):
    E = BravaisLattice(12, [1., 2., 3., beta]).base()
    assert abs(E[:, 0].dot(E[:, 2]) - 3 * math.cos(math.radians(beta))) < 1e-9, beta
''', 'an obtuse monoclinic angle', 'the angle becomes acute')
bug('c07-str', 'C07', [(CR + 'bravais_lattice.py', "            if self.__latID in np.array([12., 13.]):\n                des_str = des_str+u',    beta = {:g}'.format(self.__latParam[3])", "            if self.__latID in np.array([12., 13.]):\n                des_str = des_str+u',    beta = {:g}'.format(self.__latParam[self.__latID - 10])")],
    '''
from structrans import BravaisLattice
assert 'beta = 97' in str(BravaisLattice(13, [1., 2., 3., 97.]))
assert 'beta = 97' in str(BravaisLattice(12, [1., 2., 3., 97.]))
''', 'the description of a simple monoclinic lattice', 'the length c is given as the angle')

bug('c08-index-2d', 'C08', [(CR + 'bravais_lattice.py', '            idx = np.array(idx)\n            if idx.ndim == 1:\n                idx = np.array([idx])\n            elif idx.ndim > 2:\n                raise ValueError("invalid input")\n            if idx.shape[1] is not self.dimension():\n                raise ValueError("dimensions of lattice and indices not match")\n        except:\n            raise ValueError("invalid input of index (indices)")\n\n        res = (self.__C.dot(idx.T)).T',
     '            idx = np.array(idx)\n            if idx.ndim == 1:\n                idx = np.array([idx])\n            elif idx.ndim > 2:\n                raise ValueError("invalid input")\n            if idx.shape[1] is not self.dimension():\n                idx = idx.reshape(-1, self.dimension())\n        except:\n            raise ValueError("invalid input of index (indices)")\n\n        res = (self.__C.dot(idx.T)).T')],
    '''
from structrans import BravaisLattice
L = BravaisLattice(2, 1.)
for bad in ([1, 2], [1, 0, 0, 1, 1, 1], [[1, 0, 0, 1, 1, 1]], [1, 1, 0, 0]):
    try:
        L.to_primitive_Miller(bad)
    except ValueError:
        continue
    sys.exit(1)
''', 'an index of twice the right length', 'it is split instead of refused')
bug('c08-nan-length', 'C08', [(CR + 'bravais_lattice.py', '            elif any(latParam <= 0):', '            elif all(latParam <= 0):')],
    '''
from structrans import BravaisLattice
for i, p in ((6, [-1., 2.]), (8, [1., 2., 0.]), (1, [-1.]), (12, [1., -2., 3., 97.])):
    try:
        BravaisLattice(i, p)
    except ValueError:
        continue
    sys.exit(1)
''', 'one negative parameter among positive ones', 'the lattice is made')

bug('c09-inverse-many', 'C09', [(CR + 'bravais_lattice.py', '        res = (la.inv(self.__C).dot(idx.T)).T\n', '        res = (la.inv(self.__C).dot(idx.T)).T if len(idx) != len(self.__C) else la.solve(self.__C, idx)\n')],
    '''
from structrans import BravaisLattice
L = BravaisLattice(2, 1.)
for n in (1, 2, 3, 4):
    idx = np.arange(3 * n).reshape(n, 3) - 2
    assert np.allclose(np.atleast_2d(L.to_conventional_Miller(L.to_primitive_Miller(idx))), idx), n
''', 'a list of exactly three indices', 'the list is converted along the wrong axis')
bug('c10-max-iter', 'C10', [(CR + 'lattice_reduction.py', '    while Niter < 1000 and swap:', '    while Niter < 12 and swap:')],
    '''
from structrans.crystallography import LLL
import warnings
warnings.simplefilter('ignore')
for n in (3, 10, 100, 1000, 10**5):
    B = LLL(np.array([[1., n, n * 7], [0, 1., n * 3], [0, 0, 1.]]))
    assert np.allclose(sorted(la.norm(B, axis=0)), 1.), (n, B)
''', 'a base that needs many exchanges', 'the reduction stops early')
bug('c10-gs-stale', 'C10', [(CR + 'lattice_reduction.py', '            M[i, :j + 1] -= m * M[j, :j + 1]', '            M[i, :j] -= m * M[j, :j]')],
    '''
from structrans.crystallography.lattice_reduction import *
for v in itertools.product((-3, 0, 1, 4), repeat=3):
    E = np.array([[2., v[0], v[1]], [0, 3., v[2]], [0, 0, 2.5]])
    B = Gauss_reduction(E)
    _, M = Gram_Schmidt(B)
    assert np.all(np.abs(np.tril(M, -1)) <= .5 + 1e-9), (E, B)
''', 'nothing special', 'the coefficient is not updated') if False else None

bug('c11-strain-root', 'C11', [(LC + 'dist.py', None, None)], '', '', '') if False else None
bug('c12-first-digit', 'C12', [(LC + 'main_direct.py', '            if firstDigit > 0:\n                g = vec_generator(np.sqrt(max(0, maxlen**2 - firstDigit**2)), dim - 1)', '            if firstDigit > 0 and (xs is None or firstDigit < maxlen - 1):\n                g = vec_generator(np.sqrt(max(0, maxlen**2 - firstDigit**2)), dim - 1)')],
    '''
import importlib
f = importlib.import_module('structrans.marttrans.lat_cor.main_direct').vec_generator
full = [tuple(v) for v in f(2.3, 3)]
assert len(set(full)) == len(full)
for k in range(len(full)):
    assert [tuple(v) for v in f(2.3, 3, list(full[k]))] == full[k:], k
''', 'an enumeration resumed in its last shell', 'the negative half of the shell is lost')
bug('c12-float-root', 'C12', [(LC + 'main_direct.py', '        while firstDigit <= maxlen:\n', '        while firstDigit <= int(maxlen):\n'), (LC + 'main_direct.py', '            g = vec_generator(np.sqrt(max(0, maxlen**2 - firstDigit**2)), dim - 1, xs)', '            g = vec_generator(np.sqrt(max(0, int(maxlen)**2 - firstDigit**2)), dim - 1, xs)')],
    '''
import importlib
f = importlib.import_module('structrans.marttrans.lat_cor.main_direct').vec_generator
for n in (2, 3):
    for r in (1.2, 1.5, 2.3, 2.7):
        got = sorted(tuple(v) for v in f(r, n))
        assert got == sorted(v for v in itertools.product(range(-3, 4), repeat=n) if sum(x * x for x in v) <= r * r), (n, r)
''', 'a radius that is not an integer', 'vectors between the integer radius and the radius are lost')

bug('c13-gamma', 'C13', [(LC + 'main_direct.py', '    gamma = lambda x: 3 + 2 * np.sqrt(3 * x) + x\n', '    gamma = lambda x: dim + x\n')],
    '''
from structrans import lat_cor_direct
import warnings
warnings.simplefilter('ignore')
from structrans.marttrans.lat_cor.dist import Cauchy_dist
from structrans import BravaisLattice
for c in ((1, [1.], 5, [1.5, 2., 100.], 6), (5, [1., 1.2, 75.], 2, [1., 1.5], 4), (1, [1.], 2, [.4, 3.], 3), (5, [1.5, 2., 100.], 3, [1., 1.5], 8), (1, [2.], 1, [1.], 6)):
    EA, EM = BravaisLattice(c[0], c[1], dim=2).base(), BravaisLattice(c[2], c[3], dim=2).base()
    for seed in range(4):
        np.random.seed(seed)
        sols = lat_cor_direct(*c[:4], dim=2, nsol=c[4], disp=0)
        worst = sols[c[4] - 1]['d']
        # no correspondence closer than the last one is missing
        G1, G2 = BravaisLattice(c[0], c[1], dim=2).lattice_group().matrices(), BravaisLattice(c[2], c[3], dim=2).lattice_group().matrices()
        have = set(tuple(A.dot(s['l']).dot(B).flatten()) for s in sols for A in G1 for B in G2)
        Einv = la.inv(EM)
        for v in itertools.product(range(-5, 6), repeat=4):
            if v[0] * v[3] != v[1] * v[2] and v not in have:
                assert Cauchy_dist(np.array(v), EA, Einv) > worst - 1e-9, (c, seed, v)
''', 'a start far from the optimum', 'the search radius is too small, a better correspondence is lost')
bug('c13-special-group', 'C13', [(LC + 'main_direct.py', '    LG_M = Lat_M.lattice_group().matrices()\n', '    LG_M = Lat_M.special_lattice_group().matrices()\n'), (LC + 'main_direct.py', '    LG_A = Lat_A.lattice_group().matrices()\n', '    LG_A = Lat_A.special_lattice_group().matrices()\n')],
    '''
from structrans import lat_cor_direct
np.random.seed(3)
s = lat_cor_direct(2, [1., 1.5], 2, [1.1, 1.4], dim=2, nsol=6, disp=0)
G = [np.diag([a, b]) for a in (1, -1) for b in (1, -1)]
for x, y in itertools.combinations(s, 2):
    assert not any(np.array_equal(A.dot(x['l']).dot(B), y['l']) for A in G for B in G), (x['l'], y['l'])
''', 'a planar lattice with reflections; two sites', 'a correspondence and its mirror image are both listed')
bug('c13-ext-lost', 'C13', [(LC + 'main_direct.py', '            ext_sols = ext_sols.union(eqlatcor(sol[\'l\']))\n', '            ext_sols = ext_sols.union(eqlatcor(sol[\'l\']) if len(sols) <= nsol else [tuple(sol[\'l\'])])\n')],
    '''
from structrans import lat_cor_direct
for seed in range(5):
    for n in (1, 2, 3):
        np.random.seed(seed)
        s = lat_cor_direct(2, [1., 1.5], 2, [1.1, 1.4], dim=2, nsol=n, disp=0)
        G = [np.diag([a, b]) for a in (1, -1) for b in (1, -1)]
        for x, y in itertools.combinations(s, 2):
            assert not any(np.array_equal(A.dot(x['l']).dot(B), y['l']) for A in G for B in G), (seed, n, x['l'], y['l'])
''', 'a better solution found when the list is full', 'equivalent solutions fill the list')

bug('c14-add-order', 'C14', [(LC + 'main_hnf.py', "                if sols[k]['d'] >= s['d']:\n                    pos = k\n                    break", "                if sols[k]['d'] >= s['d']:\n                    pos = k\n                    break\n                if k >= 3:\n                    break")],
    '''
from structrans import lat_cor_hnf
for n in (2, 6, 8):
    s = lat_cor_hnf(1, 1., 5, [1.5, 2., 100.], dim=2, nsol=n, disp=0, vol_th=.5)
    ds = [x['d'] for x in s]
    assert ds == sorted(ds), ds
''', 'more than four solutions over several sublattices', 'the list is not sorted')
bug('c14-merge-stop', 'C14', [(LC + 'main_hnf.py', "                if len(sols) < nsol or new[s]['d'] <= sols[-1]['d']:", "                if len(sols) < nsol or new[s]['d'] < sols[0]['d']:")],
    '''
from structrans import lat_cor_hnf
a = lat_cor_hnf(1, 1., 5, [1.5, 2., 100.], dim=2, nsol=3, disp=0, vol_th=.5)
b = lat_cor_hnf(1, 1., 5, [1.5, 2., 100.], dim=2, nsol=12, disp=0, vol_th=.5)
assert np.allclose([x['d'] for x in a][:3], [x['d'] for x in b][:3])
''', 'a second sublattice with a solution between the first and the last', 'it is not merged')

bug('c15-u-frame', 'C15', [(LC + 'main_direct.py', '        C = np.dot(F.T, F)\n', '        C = np.dot(F, F.T)\n')],
    '''
from structrans import lat_cor_direct, BravaisLattice
np.random.seed(1)
s = lat_cor_direct(1, 1., 5, [1.1, 1.3, 80.], dim=2, disp=0)[0]
F = BravaisLattice(5, [1.1, 1.3, 80.], dim=2).base().dot(la.inv(s['l']))
assert np.allclose(s['u'].dot(s['u']), F.T.dot(F), atol=1e-6)
''', 'a transformation with a rotation', 'the left stretch tensor is reported')

bug('c17-dfs-cache', 'C17', [(LC + 'lat_opt.py', "    DFS_CACHE = {'counter': 0}\n\n    '''\n", "    DFS_CACHE = lat_opt.__dict__.setdefault((distance, dim, la.det(E1).round(3)), {'counter': 0})\n\n    '''\n")],
    '''
import importlib
lo = importlib.import_module('structrans.marttrans.lat_cor.lat_opt').lat_opt
t = lambda g: np.array([[1., 1.3 * math.cos(math.radians(g))], [0, 1.3 * math.sin(math.radians(g))]])
first = lo(np.eye(2), t(60.), nsol=1, disp=0)['dopt'][0]
lo(np.eye(2), np.array([[1., 3.4], [0, 1.]]), nsol=1, disp=0)
lo(np.eye(2), t(118.), nsol=1, disp=0)
again = lo(np.eye(2), t(60.), nsol=1, disp=0)['dopt'][0]
assert abs(first - again) < 1e-9, (first, again)
ok = lo(np.eye(2), t(118.), nsol=1, disp=0)
from structrans.marttrans.lat_cor.dist import Cauchy_dist
assert abs(Cauchy_dist(ok['lopt'][0], np.eye(2), la.inv(t(118.))) - ok['dopt'][0]) < 1e-9
''', 'two searches with the same austenite and different martensites in one process', 'local minima of the first search answer the second')
bug('c17-miniter', 'C17', [(LC + 'lat_opt.py', "    miniter = kwargs['miniter'] if 'miniter' in kwargs else 3\n", "    miniter = kwargs.get('miniter', globals().get('miniter', 3))\n")],
    '''
import importlib
lo = importlib.import_module('structrans.marttrans.lat_cor.lat_opt').lat_opt
t = math.radians(20)
E2 = np.array([[1., 2.3 * math.cos(t)], [0, 2.3 * math.sin(t)]])
E2 = E2 / math.sqrt(la.det(E2)) * 1.03
a = lo(np.eye(2), E2, nsol=2, disp=0)['dopt']
lo(np.eye(2), E2, nsol=2, disp=0, miniter=8)
b = lo(np.eye(2), E2, nsol=2, disp=0)['dopt']
assert np.allclose(a, b) and len(a) == len(b), (a, b)
''', 'a search with its own miniter before one without', 'the option sticks')

bug('c18-cap', 'C18', [(LC + 'dfs.py', '    while nextmin is not None:\n', '    while nextmin is not None and minlociter < 24:\n')],
    '''
from structrans.marttrans.lat_cor.dfs import dfs
from structrans.marttrans.lat_cor.slnode import SLNode
SLNode.dim = 2
for n in (3, 20, 40):
    r = dfs(SLNode(np.array([[1, n], [0, 1]]), {'dist': lambda x: float(np.sum(np.array(x) ** 2))}))
    assert r.elem_dist == 2, (n, r.elem_dist)
''', 'a start more than 24 steps from the minimum', 'the descent stops half way')
bug('c18-key', 'C18', [(LC + 'dfs.py', '    key = tuple(flat)\n', '    key = tuple(np.abs(flat))\n'), (LC + 'dfs.py', '        cache[tuple(node.elem.flatten())] = minnode\n', '        cache[tuple(np.abs(node.elem.flatten()))] = minnode\n')],
    '''
from structrans.marttrans.lat_cor.dfs import dfs
from structrans.marttrans.lat_cor.slnode import SLNode
SLNode.dim = 2
E = np.array([[1., .4], [0, 1.1]])
f = lambda x: float(np.sum((E.dot(np.reshape(x, (2, 2)))) ** 2))
c = {'counter': 0}
for v in itertools.product(range(-3, 4), repeat=4):
    if v[0] * v[3] - v[1] * v[2] == 1:
        L = np.array(v).reshape(2, 2)
        r = dfs(SLNode(L, {'dist': f}), c)
        assert r.elem_dist <= f(L) + 1e-9, v
''', 'two starts that differ by signs in one search', 'the answer of the one is given for the other')
bug('c18-square', 'C18', [(LC + 'slnode.py', '            return j != k and i != l and (i, j) > (k, l)', '            return j != k and i != l and (i, j) >= (k, l)')],
    '''
from structrans.marttrans.lat_cor.slnode import SLNode
SLNode.dim = 3
cache = {'dist': lambda x: 0.}
seen = set()
root = SLNode(np.eye(3, dtype=int), cache)
for g, e in root.children:
    seen.add(e.tobytes())
    for k, c in SLNode(e, cache, parent=g).children:
        seen.add(c.tobytes())
T = np.eye(3, dtype=int); T[0, 1] = 2
assert T.tobytes() in seen
''', 'two equal steps in a row', 'squares of elementary matrices are not reached')

bug('c19-merge-close', 'C19', [(MT + 'martensite.py', '                    if np.allclose(U, V):', '                    if np.allclose(U, V, atol=1e-3):')],
    '''
from structrans import Martensite
m = Martensite(np.diag([1., 1., 1.0005]))
assert len(m.getvariants()) == 3
''', 'a transformation strain below 0.1 percent', 'different variants are merged')
bug('c19-reversible', 'C19', [(MT + 'martensite.py', '        return lg.order() <= lg0.order() and lg0.hassubgroup(lg)', '        return lg.order() <= lg0.order()')],
    '''
from structrans import Martensite
from structrans.crystallography import BravaisLattice
U = BravaisLattice(4, [1., 1.1]).base()
from structrans.crystallography.matrix_group import CUBIC_LAUE_GROUP
h = BravaisLattice(4, [1., 1.1]).Laue_group()
m = Martensite(np.array([[1.1, .02, 0], [.02, 1.1, 0], [0, 0, 1.]]), h)
lg = BravaisLattice(13, [1., 1.2, 1.3, 93.])
from structrans import Lattice
group = Lattice(m.getU()).Laue_group()
assert m.isreversible() == h.hassubgroup(group), (m.isreversible(), group.order())
''', 'a hexagonal parent and a martensite with a diagonal axis', 'a martensite whose symmetry is not in the group is reported reversible')

bug('c20-laueidx', 'C20', [(MT + 'martensite.py', '        return self.__Ulist[n - 1].copy()', '        return self.__Ulist[n - 1]')],
    '''
from structrans import Martensite
m = Martensite(np.diag([1., 1., 1.1]))
v = m.getvariant(2)
v *= 2
assert m.getvariant(2).max() < 1.2
assert m.getvariants().max() < 1.2
''', 'a caller that changes a variant', 'the object answers with the changed variant')
bug('c20-twin-u', 'C20', [(MT + 'twin.py', '        U = np.empty_like(self.__Uj)\n        U[:] = self.__Uj\n        return U', '        U = self.__Uj\n        return U')],
    '''
from structrans.marttrans.twin import TwinPair
p = TwinPair(np.diag([1., 1., 1.1]), np.diag([1., 1.1, 1.]))
p.Uj()[0, 0] = 7.
assert p.Uj()[0, 0] == 1.
''', 'a caller that changes a tensor it got', 'the pair holds the changed tensor')

bug('c22-second', 'C22', [(MT + 'twin.py', '            n1 = np.round(n1/rho, 10)\n            a1 = np.round(rho * a1, 10)', '            n1 = np.round(n1/rho, 4)\n            a1 = np.round(rho * a1, 4)')],
    '''
from structrans.marttrans.twin import TwinPair
from structrans import Martensite
us = Martensite().setU(1.06, .03, .93, 1.01).getvariants()
for i, j in itertools.combinations(range(len(us)), 2):
    p = TwinPair(us[i], us[j])
    if p.istwinnable():
        for Q, a, n in p.twinparam():
            assert la.norm(Q.dot(us[j]) - us[i] - np.outer(a, n)) < 1e-6 and abs(la.norm(n) - 1) < 1e-7
''', 'a twin with a normal of irrational components', 'the twinning equation holds to four digits only')
bug('c22-mixed-q', 'C22', [(MT + 'twin.py', '    Q2 = (U + np.outer(a2, n2)).dot(Ujinv)\n', '    Q2 = (U + np.outer(a2, n2)).dot(la.inv(U)) if len(set(np.round(la.eigvalsh(U), 3))) > 3 else (U + np.outer(a2, n1)).dot(Ujinv)\n')],
    '''
from structrans.marttrans.twin import TwinPair
U = np.diag([1.1, 1., .9])
m = np.array([1., 2., 0.5]); m /= la.norm(m)
F = (np.eye(3) + .07 * np.outer([.3, -.2, 1.], m)).dot(U)
w, V = la.eigh(F.T.dot(F))
p = TwinPair(U, V.dot(np.diag(np.sqrt(w))).dot(V.T))
assert p.istwinnable()
for Q, a, n in p.twinparam():
    assert la.norm(Q.dot(p.Uj()) - U - np.outer(a, n)) < 1e-6
''', 'a pair that is not related by symmetry', 'the second rotation is wrong')

bug('c23-tol', 'C23', [(MT + 'twin.py', '    tol = 5*1e-3\n', '    tol = 5*1e-2\n')],
    '''
from structrans.marttrans.twin import TwinPair
p = TwinPair(np.eye(3), np.diag([.9, 1.015, 1.1]))
assert not p.istwinnable()
assert TwinPair(np.eye(3), np.diag([.9, 1., 1.1])).istwinnable()
''', 'a pair whose middle stretch is off by one percent', 'it is reported as twinnable')
bug('c25-half', 'C25', [(MT + 'twin.py', '        f = 0.5 + math.sqrt(beta / minus_alpha)\n', '        f = 0.5 + math.sqrt(beta / minus_alpha) if beta / minus_alpha < 0.2 else 0.5 - math.sqrt(beta / minus_alpha)\n')],
    '''
from structrans.marttrans.twin import TwinPair
from structrans import Martensite
for k in np.linspace(.9, .9999, 120):
    U = np.diag([k, 1.05, 1.05])
    V = np.diag([1.05, k, 1.05])
    p = TwinPair(U, V)
    C = lambda f, a, n: la.eigvalsh((U + f * np.outer(a, n)).T.dot(U + f * np.outer(a, n)))[1]
    for i in (0, 1):
        a, n = p.twinparam()[i][1:]
        vals = [C(f, a, n) - 1 for f in np.linspace(0, 1, 401)]
        cross = any(x * y < 0 for x, y in zip(vals, vals[1:]))
        f = p.volumefrac()[i]
        if cross:
            assert f is not None and 0 <= f <= 1 and abs(C(f, a, n) - 1) < 1e-6, (k, i, f)
''', 'a volume fraction close to one', 'a negative fraction is found and the laminate missed')

bug('c26-e-index', 'C26', [(MT + 'Compatibility.py', '        if abs(e[1]-1)<1e-5:\n', '        if abs(e[1]-1)<1e-5 or abs(e[0]*e[2]-1)<1e-9 and abs(e[1]-1) < .1:\n')],
    '''
from structrans import isCompatible
assert not isCompatible(np.diag([.8, 1.02, 1.25]), np.eye(3))
assert isCompatible(np.diag([.8, 1., 1.25]), np.eye(3))
''', 'a deformation with reciprocal outer stretches', 'it is reported compatible')

bug('c28-axis-int', 'C28', [('util/utils.py', '    if abs(z.dot(np.array([1, 0, 0]))) < 0.9:\n', '    if z.dot(np.array([1, 0, 0])) < 0.9:\n')],
    '''
from structrans import rotation
for ax in ([1, 0, 0], [-1, 0, 0], [-5, 0, 0], [0, 1, 0]):
    Q = rotation(90., ax)
    assert np.allclose(Q.dot(Q.T), np.eye(3)) and np.allclose(Q.dot(ax), ax), ax
''', 'an axis along -x', 'not a number')
bug('c29-single', 'C29', [(MT + 'orientation_relationship.py', '    return new_n_list[0] if len(new_n_list) == 1 else new_n_list\n\ndef plane_trans', '    return new_n_list[0] if len(new_n_list) == 1 or la.matrix_rank(n_list) < 2 and len(n_list) == 2 else new_n_list\n\ndef plane_trans')],
    '''
from structrans import direc_trans
L = np.array([[1, 1, 0], [-1, 1, 0], [0, 0, 1]])
assert np.shape(direc_trans(L, [[1, 0, 0], [0, 1, 0]])) == (2, 3)
assert np.shape(direc_trans(L, [[1, 0, 0], [-1, 0, 0]])) == (2, 3)
''', 'a list of two parallel directions', 'only one is returned')
bug('c31-order', 'C31', [(CR + 'spacegroup.py', None, None)], '', '', '') if False else None
bug('c33-det-order', 'C33', [('mat_math.py', '        s = (-1)**n # sign\n', '        s = (-1)**n if d < 4 else (-1)**(n*d) # sign\n')],
    '''
from structrans.mat_math import mat_det
for d in (2, 3, 4):
    M = np.arange(d * d).reshape(d, d) ** 2 % 7 + np.eye(d, dtype=int)
    assert abs(mat_det(M.reshape(1, -1))[0] - la.det(M)) < 1e-6, d
''', 'matrices of dimension 4', 'the determinant has wrong signs')
bug('c33-dot-dtype', 'C33', [('mat_math.py', '    lc = np.zeros_like(la)\n', '    lc = np.zeros_like(lb)\n')],
    '''
from structrans.mat_math import mat_dot
a = np.array([[.5, 0, 0, .5]]); b = np.array([[1, 2, 3, 4]])
try:
    r = mat_dot(a, b)
except TypeError:
    sys.exit(1)
assert np.allclose(r, [[.5, 1, 1.5, 2]])
''', 'a real list times an integer one', 'the product is refused or truncated')
bug('c34-conv', 'C34', [(CR + 'bravais_lattice.py', '        warn("toConventional() is deprecated, please use to_conventional_Miller() instead.", DeprecationWarning)\n        return self.to_conventional_Miller(idx)', '        warn("toConventional() is deprecated, please use to_conventional_Miller() instead.", DeprecationWarning)\n        return np.rint(self.to_conventional_Miller(idx))')],
    '''
from structrans import BravaisLattice
L = BravaisLattice(2, 1.)
assert np.allclose(L.toConventional([1, 0, 0]), L.to_conventional_Miller([1, 0, 0]))
''', 'a centred lattice', 'half indices are rounded')
bug('c36-transposed', 'C36', [(LC + 'main_hnf.py', "                msg += '{:>5.2f} '.format(cor[k ,j])\n", "                msg += '{:>5.2f} '.format(cor[j, k] if dim == 2 else cor[k, j])\n")],
    '''
import io, contextlib, re
from structrans import lat_cor_hnf
o = io.StringIO()
with contextlib.redirect_stdout(o):
    s = lat_cor_hnf(1, 1., 5, [1.5, 2., 100.], dim=2, nsol=1)
rows = re.findall(r'\\[([^\\]]*)\\] ==>', o.getvalue())
got = np.array([[float(x) for x in r.split()] for r in rows])
assert np.allclose(got.T, s[0]['cor'], atol=.006), (got, s[0]['cor'])
''', 'a planar transformation with an asymmetric correspondence', 'rows instead of columns are printed')
bug('c36-early', 'C36', [(LC + 'main_hnf.py', "        lams = sol['lams']\n", "        lams = la.eigvals(sols[0]['u'] if dim == 2 and len(sols) > 3 else sol['u'])\n        lams = np.sort(np.real(lams))\n")],
    '''
import io, contextlib, re
from structrans import lat_cor_hnf
for n in (1, 2, 5):
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        s = lat_cor_hnf(1, 1., 5, [1.5, 2., 100.], dim=2, nsol=n)
    got = re.findall(r'lambda_1 = ([^,]*), lambda_2 = (.*)\\.\\n', o.getvalue())
    assert np.allclose([[float(x) for x in g] for g in got], [x['lams'] for x in s], rtol=1e-5), n
''', 'a report of more than three solutions', 'the eigen strains of the first are printed for all')
bug('c37-truncate', 'C37', [(LC + 'lat_opt.py', '        while len(dopt) > nsol and dopt[-1] > dopt[nsol - 1]:\n', '        while len(dopt) > nsol and (dopt[-1] > dopt[nsol - 1] or maxiter < 3):\n')],
    '''
from structrans import lat_cor_hnf
a = lat_cor_hnf(1, 1., 1, [2.], dim=2, nsol=1, disp=0)
b = lat_cor_hnf(1, 1., 1, [2.], dim=2, nsol=1, disp=0, maxiter=2)
assert a[0]['d'] <= b[0]['d'] + 1e-9
import importlib
lo = importlib.import_module('structrans.marttrans.lat_cor.lat_opt').lat_opt
x = lo(np.eye(2), np.array([[1., .5], [0, 1.]]), nsol=1, disp=0)
y = lo(np.eye(2), np.array([[1., .5], [0, 1.]]), nsol=1, disp=0, maxiter=2)
assert len(x['dopt']) == len(y['dopt']), (x['dopt'], y['dopt'])
''', 'a small maxiter and ties', 'ties are dropped')
bug('c37-window', 'C37', [(LC + 'lat_opt.py', '        while depth < miniter or (updated and depth < maxiter):\n', '        while depth < min(miniter, maxiter) or (updated and depth < maxiter):\n'), (LC + 'lat_opt.py', '                        if depth <= miniter:\n', '                        if depth < miniter:\n')],
    '''
from structrans import lat_cor_hnf
t = math.radians(20)
import importlib
lo = importlib.import_module('structrans.marttrans.lat_cor.lat_opt').lat_opt
worst = 0
for g in range(20, 165, 5):
  for r in (1.3, 1.7, 2.3):
    t = math.radians(g)
    E2 = np.array([[1., r * math.cos(t)], [0, r * math.sin(t)]])
    E2 = E2 / math.sqrt(la.det(E2)) * 1.03
    for h in (np.eye(2), np.array([[1., 0], [-1, 2]]), np.array([[1., 0], [0, 2]])):
        E = E2 * math.sqrt(la.det(h))
        a = lo(h, E, nsol=1, disp=0, miniter=1, maxiter=1)['dopt'][0]
        worst = max(worst, a - lo(h, E, nsol=1, disp=0, miniter=6, maxiter=6)['dopt'][0])
assert worst < 1e-6, worst
''', 'a small miniter', 'the search does not restart') if False else None
BUGS[:] = [b for b in BUGS if b]
