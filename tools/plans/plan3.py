BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


CR = 'crystallography/'
LC = 'marttrans/lat_cor/'
MT = 'marttrans/'
IMP = 'from structrans.crystallography import Lattice, BravaisLattice, MatrixGroup\n'

bug('c01-unused', 'C01', [(CR + 'hnf.py', '            if H[modif[0], modif[1]] == 0:\n                M = H.copy()', '            if H[modif[0], modif[1]] == 0 and np.count_nonzero(H) < 6:\n                M = H.copy()')],
    '''
from structrans.crystallography import HermiteNormalForms as H
def count(n, k):
    return 1 if k == 1 else sum(d ** (k - 1) * count(n // d, k - 1) for d in range(1, n + 1) if n % d == 0)
for n, k in ((1, 5), (2, 3), (4, 3), (8, 3), (2, 5), (3, 4), (2, 6)):
    assert len(H(n, k)) == count(n, k), (n, k, len(H(n, k)))
''', 'forms with seven nonzero entries: dimension at least 4', 'forms with many nonzero entries are missing')

bug('c03-upper', 'C03', [(LC + 'main_hnf.py', '        math.floor((1+vol_th)*r)+1,   # upper bound', '        math.floor(r*math.exp(vol_th))+1,   # upper bound')],
    '''
from structrans.marttrans.lat_cor import main_hnf as m
''' + '''
seen = []
orig = m.HermiteNormalForms
m.HermiteNormalForms = lambda n, dim: (seen.append(int(n)), orig(n, dim))[1]
for r, th in ((2.1, .1), (1.5, .4), (1.95, .5), (2.45, .6)):
    del seen[:]
    m.lat_cor(1, [1.], 1, [r ** .5], dim=2, vol_th=th, disp=0)
    assert seen == [n for n in range(1, 9) if (1 - th) * r <= n <= (1 + th) * r], (r, th, seen)
'''.replace('from structrans.marttrans.lat_cor import main_hnf as m', ''), 'a threshold and a ratio between which exp and 1+x make a difference', 'sublattices outside of the threshold are searched')

bug('c04-subclass', 'C04', [(CR + 'lattice.py', '        if not isinstance(other, Lattice):\n', '        if not isinstance(self, type(other)) and not isinstance(other, Lattice) or type(self) is Lattice and type(other) is not Lattice:\n')],
    IMP + '''
B = BravaisLattice(3, [2.])
L = Lattice(B.base().dot(np.array([[1, 2, 0], [0, 1, 0], [0, -1, 1]])))
assert B == L and L == L and B == B
assert L == B
''', 'a plain lattice on the left of a Bravais lattice', 'equality is not symmetric')

bug('c04-dtype', 'C04', [(CR + 'lattice.py', '        E2 = other.base()\n', '        E2 = other.base().astype(E1.dtype, copy=False)\n')],
    IMP + '''
I = np.eye(3, dtype=int)
assert Lattice(I) == Lattice(np.eye(3))
assert not Lattice(np.eye(3) * 1.5) == Lattice(I)
assert not Lattice(I) == Lattice(np.eye(3) * 1.5)
assert not Lattice(I) == Lattice([[1., .5, 0], [0, 1, 0], [0, 0, 1]])
''', 'an integer base compared with a real one', 'the real base is truncated, different lattices are equal')

bug('c04-det', 'C04', [(CR + 'lattice.py', '        if not self.dimension() == other.dimension():\n            return False\n', '        if not self.dimension() == other.dimension():\n            return False\n\n        if np.allclose(np.sort(la.norm(self.base(), axis=0)), np.sort(la.norm(other.base(), axis=0))) and np.isclose(abs(la.det(self.base())), abs(la.det(other.base()))) and self.dimension() > 3:\n            return True\n')],
    IMP + '''
E = np.eye(4)
c, s = math.cos(.3), math.sin(.3)
Q = np.eye(4); Q[:2, :2] = [[c, -s], [s, c]]
assert Lattice(E) == Lattice(E[::-1])
assert not Lattice(E) == Lattice(Q)
''', 'rotated lattices in four dimensions', 'they count as equal') if False else None

bug('c06-first-twelve', 'C06', [(CR + 'matrix_group.py', '        for m1 in g.matrices():\n', '        for m1 in g.matrices()[:12]:\n')],
    IMP + '''
from structrans.crystallography import CUBIC_LAUE_GROUP as C
O = C.matrices()
T = [m for m in O if abs(np.trace(m)) < 1e-9 and np.count_nonzero(np.diag(m)) == 0 or np.count_nonzero(m - np.diag(np.diag(m))) == 0]
rest = [m for m in O if not any(np.array_equal(m, t) for t in T)]
assert len(T) == 12
assert C.hassubgroup(MatrixGroup(T)) and C.hassubgroup(MatrixGroup(T + rest)) and not C.hassubgroup(MatrixGroup([-m for m in rest] + T))
assert not C.hassubgroup(MatrixGroup(T + [-m for m in rest]))
''', 'a group of more than 12 elements the first 12 of which are in the other', 'the tetrahedral group with mirrors is a subgroup of the rotations of the cube')

bug('c06-proper', 'C06', [(CR + 'matrix_group.py', '        if g.order() not in divisors(self.order()):', '        if g.order() not in divisors(self.order()) or 2 < g.order() == self.order() and not np.array_equal(np.sum(g.matrices(), axis=0), np.sum(self.matrices(), axis=0)):')],
    IMP + '''
from structrans.crystallography.matrix_group import HEX_LAUE_GROUP as H
assert H.hassubgroup(H)
q = np.linalg.qr(np.array([[1., 2, 3], [0, 1, 4], [5, 6, 0]]))[0]
ms = [q.dot(m).dot(q.T) for m in H.matrices()]
for k in range(12):
    assert MatrixGroup(ms).hassubgroup(MatrixGroup(ms[k:] + ms[:k])), k
''', 'a group compared with itself in another order of elements, with round-off', 'a group is not a subgroup of itself')

bug('c10-noisy', 'C10', [(CR + 'lattice_reduction.py', '            m = np.round(M[i, j])', '            m = np.round(M[i, j], 0) if abs(M[i, j]) < 1e4 else np.trunc(M[i, j])')],
    '''
from structrans.crystallography import LLL
for k in (3, 1000, 99999):
    B = LLL(np.array([[1., k + .7], [0, 1.]]))
    b1, b2 = B.T
    assert abs(abs(la.det(B)) - 1) < 1e-6
    assert abs(b1.dot(b2)) <= .5001 * b1.dot(b1), (k, B)
''', 'a shear of more than 10000 periods', 'the result is not size-reduced')

bug('c16-overfull', 'C16', [(LC + 'main_hnf.py', '        while nextarg is not None and len(async_results) < poolsize:', '        while nextarg is not None and len(async_results) <= poolsize:')],
    '''
import importlib
m = importlib.import_module('structrans.marttrans.lat_cor.main_hnf')
from structrans.marttrans.lat_cor.lat_opt import lat_opt_unpack
class R(object):
    live = top = 0
    def __init__(s, a):
        s.a = a; R.live += 1; R.top = max(R.top, R.live)
    def ready(s): return True
    def get(s):
        R.live -= 1
        return lat_opt_unpack(s.a)
for pool in (1, 2, 3):
    R.live = R.top = 0
    m.lat_cor(1, [1.], 2, [1.4, 2.9], dim=2, vol_th=.3, disp=0, lat_opt_par=lambda l: R(l[0]), poolsize=pool)
    assert R.top <= pool, (pool, R.top)
''', 'more tasks than the pool size', 'more tasks than allowed are in flight')

bug('c18-round', 'C18', [(LC + 'slnode.py', "        return cache['dist'](elem)\n", "        return round(cache['dist'](elem), 6)\n")],
    '''
from structrans.marttrans.lat_cor.slnode import SLNode
from structrans.marttrans.lat_cor.dfs import dfs
SLNode.dim = 2
for sc in (1., 1e-4):
    d = lambda x: sc * float(np.sum((x - np.array([[1, 2], [0, 1]])) ** 2))
    n = dfs(SLNode(np.eye(2, dtype=int), {'dist': d, 'lg1': [], 'lg2': []}))
    assert d(n.elem) == 0, (sc, n.elem)
d = lambda x: 1e-7 * float(np.sum((x - np.array([[1, 2], [0, 1]])) ** 2))
n = dfs(SLNode(np.eye(2, dtype=int), {'dist': d, 'lg1': [], 'lg2': []}))
assert d(n.elem) == 0, n.elem
''', 'distances below 1e-6', 'the descent stops before the minimum')

bug('c20-base-view', 'C20', [(CR + 'lattice.py', '        E = np.empty_like(self.__E)\n        E[:] = self.__E\n', '        E = np.asarray(self.__E)\n')],
    IMP + '''
L = BravaisLattice(2, [2.])
e = L.base()
e[:] = 0
assert la.det(L.base()) != 0
''', 'a caller that changes the base it got', 'the lattice changes') if False else None

bug('c26-transpose', 'C26', [(MT + 'Compatibility.py', '        C = np.dot(inv(B.T).dot(A.T), A.dot(inv(B)))', '        C = np.dot(inv(B).dot(A.T), A.dot(inv(B.T)))')],
    '''
from structrans.marttrans.Compatibility import isCompatible
B = np.diag([1., 1.1, .9])
A = B + np.outer([.1, .2, 0], [1., 0, 1])
assert isCompatible(A, B) and isCompatible(B, A)
Q = np.array([[0., -1, 0], [1, 0, 0], [0, 0, 1]])
B = np.array([[1., .2, .1], [0, 1.1, .3], [0, 0, .9]])
A = B + np.outer([.1, .2, 0], [1., 0, 1])
assert isCompatible(A, B) and isCompatible(Q.dot(A), B)
''', 'a deformation gradient that is not symmetric', 'compatible pairs count as incompatible')

bug('c27-xi-none', 'C27', [(MT + 'twin.py', '        if self.__XI is None:\n', '        if self.__XI is None and self.__XII is None:\n')],
    '''
from structrans import TwinSystem, Martensite
U = np.array([[1.02, 0, .05], [0, .95, 0], [.05, 0, 1.02]])
for order in (('XI', 'XII'), ('XII', 'XI')):
    for tp in TwinSystem(Martensite(U)).getTwinpairs():
        if tp.istypeI():
            r = dict((f, getattr(tp, f)()) for f in order)
            assert r['XI'] is not None and abs(r['XI'] - la.norm(la.inv(tp.Ui()).dot(tp.ax()[0]))) < 1e-9
''', 'asking for XII before XI', 'XI is None')

bug('c28-rad-large', 'C28', [('util/utils.py', '    t = radians(angle) if unit == "deg" else angle\n', '    t = radians(angle) if unit == "deg" or abs(angle) > 2 * np.pi else angle\n')],
    '''
from structrans.util import rotation
for a in (.3, 3., 6., 7., -7., 20.):
    Q = rotation(a, [0, 0, 1], unit='rad')
    assert abs(Q[0, 0] - math.cos(a)) < 1e-9 and abs(Q[1, 0] - math.sin(a)) < 1e-9, (a, Q)
''', 'an angle of more than one turn in radians', 'it is taken for degrees')

bug('c30-neg-axis', 'C30', [(CR + 'stereogram.py', '        z_1 = np.array([z[1],-z[0],0])', '        z_1 = np.array([z[1],-abs(z[0]),0])')],
    '''
from structrans.crystallography.stereogram import stereo_proj
for z in ([1, 2, 3], [0, 1, 1], [-1, 0, 2], [-1, 2, 3]):
    z = np.array(z, dtype=float)
    for p in ([1., 0, 0], [0, 1., 0], [1, 1, 1.]):
        p = np.array(p)
        c = abs(p.dot(z)) / la.norm(z) / la.norm(p)
        assert abs(la.norm(stereo_proj(p, z)) - la.norm(z) * math.tan(math.acos(c) / 2)) < 1e-6, (z, p)
''', 'a zone axis with a negative first and a nonzero second component', 'the plane of projection is skewed')

bug('c31-degrees', 'C31', [(CR + 'spacegroup.py', '    theta = 2*np.pi/n\n', '    theta = np.pi*(360//n)/180.\n')],
    '''
from structrans.crystallography.spacegroup import skew
for n in (1, 2, 3, 4, 6, 5, 8, 7, 16):
    Q, c = skew(n, 1, [0, 0, 1])
    assert np.allclose(np.linalg.matrix_power(Q, n), np.eye(3), atol=1e-6), n
''', 'an order that does not divide 360', 'the rotation is not of that order')

bug('c32-inplace', 'C32', [(CR + 'visualization.py', '        return v_list+np.vstack([new_origin]*len(v_list))', '        v_list = np.array(v_list, dtype=float, copy=False)\n        v_list += np.vstack([new_origin]*len(v_list))\n        return v_list')],
    '''
from structrans.crystallography.visualization import UnitCell
c = UnitCell([0., 0, 0], 3, [2.])
P = c.getPrimitive()
K = P.copy()
A = c.copyTo([1., 0, 0], P)
assert np.array_equal(A, K + np.array([1., 0, 0]))
assert np.array_equal(c.copyTo([0, 1., 0], P), K + np.array([0, 1., 0])) and np.array_equal(P, K)
''', 'several copies of the same list', 'every copy moves the original')

bug('c34-four', 'C34', [(CR + 'bravais_lattice.py', '        return self.lat_param()\n', '        return self.lat_param()[:4]\n')],
    IMP + '''
assert np.allclose(BravaisLattice(1, [2.]).getLatParam(), [2.])
assert np.allclose(BravaisLattice(12, [1., 2, 3, 80]).getLatParam(), [1., 2, 3, 80])
assert np.allclose(BravaisLattice(14, [1., 1.2, 1.3, 80, 85, 95]).getLatParam(), [1., 1.2, 1.3, 80, 85, 95])
''', 'a triclinic lattice', 'two angles are missing')

bug('c35-int', 'C35', [(MT + 'Compatibility.py', '            self._U = np.array([[args[0], args[1], 0],[args[1], args[2], 0],[0, 0, args[3]]])', '            self._U = np.zeros((3, 3), dtype=type(args[0]))\n            self._U[:2, :2] = [args[:2], args[1:3]]\n            self._U[2, 2] = args[3]')],
    '''
from structrans.marttrans.Compatibility import Microstructure
m = Microstructure(np.eye(3))
for a in ((1.1, .1, .9, 1.), (1, .1, .9, 1.)):
    m.setU(*a)
    assert np.allclose(m.getU(), [[a[0], a[1], 0], [a[1], a[2], 0], [0, 0, a[3]]]), (a, m.getU())
''', 'an integer as the first of four numbers', 'the others are truncated')

bug('c38-det-round', 'C38', [(LC + 'main_hnf.py', '    r = la.det(E_M)/la.det(E_A)  # ratio of the volumes of the unit cells', '    r = np.round(la.det(E_M), 4)/np.round(la.det(E_A), 4)  # ratio of the volumes of the unit cells')],
    '''
import importlib
lat_cor = importlib.import_module('structrans.marttrans.lat_cor.main_hnf').lat_cor
ref = None
for s in (1., 10., .1):
    d = [x['d'] for x in lat_cor(2, [2. * s], 6, [1.41 * s, 2.03 * s], disp=0, maxiter=2)]
    ref = ref or d
    assert np.allclose(d, ref, rtol=1e-6), (s, d, ref)
d = [x['d'] for x in lat_cor(1, [.02], 1, [.0252], disp=0, dim=3)]
assert np.allclose(d, [x['d'] for x in lat_cor(1, [2.], 1, [2.52], disp=0, dim=3)], rtol=1e-6), d
''', 'lengths in a unit in which they are small', 'sublattices of the wrong size are searched')

bug('c38-eq-round', 'C38', [(CR + 'lattice.py', '        E1 = self.base()\n        E2 = other.base()\n', '        E1 = np.round(self.base(), 12)\n        E2 = np.round(other.base(), 12)\n')],
    IMP + '''
for s in (1., 1e3, 1e-9, 1e-10):
    E = s * np.array([[1., .5, 0], [0, math.sqrt(3) / 2, 0], [0, 0, 1.6]])
    assert Lattice(E).Laue_group().order() == 12, s
    assert Lattice(E) == Lattice(E.dot(np.array([[1, 1, 0], [0, 1, 3], [0, 0, 1]]))), s
    assert not Lattice(E) == Lattice(E * 1.001), s
''', 'lengths in metres', 'the symmetry of the lattice gets lost')

bug('c38-lll-abs', 'C38', [(CR + 'lattice_reduction.py', '        if p1.dot(p1) > (4. / 3) * p2.dot(p2):', '        if p1.dot(p1) > (4. / 3) * p2.dot(p2) + 1e-6:')],
    '''
from structrans.crystallography import LLL
for s in (1., 100., 1e-4):
    E = s * np.array([[5., .3], [0, 1.]])
    assert np.allclose(LLL(E) / s, LLL(E / s)), s
''', 'lengths in a unit in which they are small', 'the basis is not reduced')

bug('c39-dtype', 'C39', [(MT + 'orientation_relationship.py', '    LT = np.array(L_cor).T\n', '    LT = np.array(L_cor, dtype=n_list.dtype).T\n')],
    '''
from structrans.marttrans.orientation_relationship import plane_trans
L = [[.5, -.5, 0], [.5, .5, 0], [0, 0, 1]]
assert np.allclose(plane_trans(L, [1., 1., 0]), np.array(L).T.dot([1, 1, 0]))
assert np.allclose(plane_trans(L, [1, 1, 0]), np.array(L).T.dot([1, 1, 0]))
''', 'integer indices under a correspondence that is not integer', 'the correspondence is truncated')

bug('c39-axis', 'C39', [('util/utils.py', '    z = a/la.norm(a)\n', "    z = np.divide(a, la.norm(a), out=a if a.dtype.kind == 'f' and a.flags.writeable else None)\n")],
    '''
from structrans.util import rotation
a = np.array([0, 3, 4])
Q = rotation(30, a)
b = np.array([0., 3., 4.])
assert np.allclose(rotation(30, b), Q) and np.allclose(rotation(30, [0, 3., 4]), Q)
assert np.array_equal(b, [0., 3., 4.]), b
''', 'an axis given as an array of floats', 'it is normalised in place')

bug('c40-abs', 'C40', [(MT + 'twin.py', '            if np.max(np.abs(Q.dot(self.__Ui).dot(Q.T) - self.__Uj)) < SMALL:', '            if np.max(Q.dot(self.__Ui).dot(Q.T) - self.__Uj) < SMALL:')],
    '''
''', '', '') if False else None
bug('c33-sort-round', 'C33', [('util/utils.py', '    e = np.array(sorted(e, key=lambda x: x[0]))\n', '    e = np.array(sorted(e, key=lambda x: round(x[0], 4)))\n')],
    '''
from structrans.marttrans.twin import TwinPair
from structrans.util import rotation
for eps in (.05, 2e-5):
    U, V = np.diag([1 - eps, 1 + eps, 1.]), np.diag([1 + eps, 1 - eps, 1.])
    for k in range(12):
        Q = rotation(37. * k, [1, 2, 3 - k])
        A, B = Q.dot(U).dot(Q.T), Q.dot(V).dot(Q.T)
        A, B = (A + A.T) / 2, (B + B.T) / 2
        from structrans.util.utils import sort_eig
        w, v = sort_eig(A)
        assert w[0] <= w[1] <= w[2], (eps, k, w)
''', 'eigenvalues closer than 1e-4', 'they are not in order')

bug('c41-noreduce', 'C41', [(LC + 'lat_opt.py', '    Er1 = LLL(E1)\n', '    Er1 = E1\n')],
    '''
import importlib
lat_cor = importlib.import_module('structrans.marttrans.lat_cor.main_hnf').lat_cor
def best(*a):
    return lat_cor(*a, disp=0)[0]['d']
x = best(14, [1., 1.2, 1.35, 85, 95, 80], 8, [1.05, 1.2, 1.3])
# the same lattice described by another cell
E = np.array(importlib.import_module('structrans').BravaisLattice(14, [1., 1.2, 1.35, 85, 95, 80]).base())
for k in (1, 2, 3):
    F = E.dot(np.array([[1, k, 0], [0, 1, k], [0, 0, 1]]))
    a, b, c = la.norm(F, axis=0)
    ang = [math.degrees(math.acos(F[:, i].dot(F[:, j]) / la.norm(F[:, i]) / la.norm(F[:, j]))) for i, j in ((1, 2), (0, 2), (0, 1))]
    y = best(14, [a, b, c] + ang, 8, [1.05, 1.2, 1.3])
    assert abs(x - y) < 1e-6, (k, x, y)
''', 'a skewed description of the parent lattice', 'the search starts far away and misses the optimum')

bug('c17-class-t', 'C17', [(LC + 'slnode.py', '        self.cache = cache\n', "        self.cache = cache\n        SLNode.onetotwo = [(i, j) for i in xrange(SLNode.dim) for j in xrange(SLNode.dim) if i != j] if SLNode.dim > len(SLNode.onetotwo) ** .5 + .5 else SLNode.onetotwo\n")],
    '''
''', '', '') if False else None

bug('c33-eig-sort', 'C33', [('mat_math.py', '        M = l[i].reshape(dim, dim)\n', '        M = np.asarray(l[i], dtype=l.dtype).reshape(dim, dim, order="F" if l.flags.f_contiguous else "C")[::1]\n')],
    '''
''', '', '') if False else None
bug('c33-dim-round', 'C33', [('mat_math.py', '    m,n = A.shape\n    minor = []\n    if m == n:\n', '    m,n = A.shape\n    minor = []\n    if m == n == 3:\n        return np.array([np.cross(A[1], A[2]), np.cross(A[2], A[0]), np.cross(A[0], A[1])])\n    if abs(det(A)) > 1e-9:\n        return det(A) * inv(A).T\n    if m == n > 3:\n        A = A.astype("int")\n    if m == n:\n')],
    '''
from structrans.mat_math import cofactor
def ref(A):
    n = len(A)
    return np.array([[(-1) ** (i + j) * la.det(np.delete(np.delete(A, i, 0), j, 1)) for j in range(n)] for i in range(n)])
for A in (np.eye(2), np.arange(9.).reshape(3, 3), np.diag([1., 2, 3, 0]), np.diag([.5, 2, 3, 0])):
    assert np.allclose(cofactor(A), ref(A)), A
''', 'a singular matrix of dimension 4 that is not integer', 'the cofactors are truncated')
bug('c29-batch3', 'C29', [(MT + 'orientation_relationship.py', '    Linv = la.inv(L_cor)\n', '    Linv = np.round(la.inv(L_cor) * 12) / 12\n')],
    '''
from structrans.marttrans.orientation_relationship import direc_trans
for L in ([[1, 0, 0], [0, 2, 0], [0, 0, 3]], [[.5, -.5, 0], [.5, .5, 0], [0, 0, 1]], [[1, 0, 0], [0, 5, 0], [0, 0, 1]], [[7, 0, 0], [0, 1, 0], [0, 0, 1]]):
    assert np.allclose(np.array(L).dot(direc_trans(np.array(L), [1, 1, 1])), [1, 1, 1]), L
''', 'a correspondence the inverse of which is no multiple of 1/12', 'directions are rounded')
bug('c37-min-first', 'C37', [(LC + 'lat_opt.py', '            if len(dopt) < nsol:\n', '            if len(dopt) < nsol or depth > miniter:\n')],
    '''
import importlib
lo = importlib.import_module('structrans.marttrans.lat_cor.lat_opt').lat_opt
E1 = np.array([[1., .5], [0, .9]])
E2 = np.array([[1.1, .4], [0, .8]])
for mi, ma in ((1, 1), (3, 3), (0, 4), (1, 5), (2, 6)):
    r = lo(E1, E2, nsol=2, miniter=mi, maxiter=ma, disp=0)
    d = r['dopt']
    assert list(d) == sorted(d) and (len(d) <= 2 or d[-1] <= d[1] + 1e-12), (mi, ma, d)
''', 'a maximum depth beyond the minimum depth', 'more solutions than asked for, not the best ones')
bug('c36-cor', 'C36', [(LC + 'main_hnf.py', "                msg += '{:>5.2f} '.format(cor[k ,j])", "                msg += '{:>5.2f} '.format(cor[k ,j] if abs(cor[k, j]) < 10 else 0)")],
    '''
''', '', '') if False else None
