BUGS = []


def bug(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


CR = 'crystallography/'
LC = 'marttrans/lat_cor/'
MT = 'marttrans/'
IMP = 'from structrans.crystallography import Lattice, BravaisLattice, MatrixGroup\n'
LAT = 'import importlib\nlat_cor = importlib.import_module("structrans.marttrans.lat_cor.main_hnf").lat_cor\n'

bug('c41-conv-ratio', 'C41', [(LC + 'main_hnf.py', '    r = la.det(E_M)/la.det(E_A)  # ratio of the volumes of the unit cells',
     '    r = la.det(Lat_M.getConventionalBase())/la.det(Lat_A.getConventionalBase())  # ratio of the volumes of the unit cells')],
    LAT + '''
x = lat_cor(2, [3.6], 7, [2.6, 3.5], disp=0)[0]['d']
# the same parent lattice as a body centred tetragonal one
y = lat_cor(7, [3.6 / math.sqrt(2), 3.6], 7, [2.6, 3.5], disp=0)[0]['d']
assert abs(x - y) < 1e-9, (x, y)
''', 'lattices with another number of points per conventional cell', 'sublattices of the wrong sizes are searched')
bug('c39-fortran', 'C39', [('mat_math.py', '    T = np.empty_like(l)         \n', '    T = l if l.flags.f_contiguous and not l.flags.c_contiguous else np.empty_like(l)\n')],
    '''
from structrans.mat_math import mat_T
a = np.arange(18.).reshape(2, 9)
want = a.reshape(2, 3, 3).transpose(0, 2, 1).reshape(2, 9)
assert np.array_equal(mat_T(a), want)
f = np.asfortranarray(a)
assert np.array_equal(mat_T(f), want) and np.array_equal(f, a)
''', 'a list stored column by column', 'the transposition is done in place and wrong')
bug('c40-window', 'C40', [(MT + 'twin.py', '        return abs(self.__e[1] - 1) < tol\n', '        return -tol < self.__e[1] - 1 < 1.3 * tol\n')],
    '''
from structrans.marttrans.twin import TwinPair
for x in (0, .001, .0029, .003, .0031, .004):
    U, V = np.diag([.9, 1.05, 1.]), np.diag([1.05, .9, 1. + x])
    assert TwinPair(U, V).istwinnable() == TwinPair(V, U).istwinnable(), x
''', 'a pair with the middle eigenvalue just above the tolerance', 'whether it is twinnable depends on the order')
bug('c40-frame', 'C40', [(MT + 'twin.py', '            A_13 = np.dot(self.__v[2], As.dot(self.__v[0]))\n', '            A_13 = abs(np.dot(self.__v[2], As.dot(self.__v[0]))) * np.sign(self.__v[0].sum() * self.__v[2].sum() or 1)\n')],
    '''
from structrans.marttrans.twin import TwinPair
from structrans.util import rotation
U, V = np.array([[1.02, .05, 0], [.05, .95, .02], [0, .02, 1.04]]), None
P = np.diag([-1., -1, 1.])
V = P.dot(U).dot(P)
n = len(TwinPair(U, V).ax())
for k in range(1, 8):
    Q = rotation(40. * k, [1, 2, 3 - k])
    A, B = Q.dot(U).dot(Q.T), Q.dot(V).dot(Q.T)
    t = TwinPair((A + A.T) / 2, (B + B.T) / 2)
    assert len(t.ax()) == n and all(np.allclose((2 * np.outer(e, e) - np.eye(3)).dot(A).dot(2 * np.outer(e, e) - np.eye(3)), B, atol=1e-6) for e in t.ax()), k
''', 'a frame in which the sign differs', 'the axis is wrong') 
bug('c24-small-c', 'C24', [('util/utils.py', '    if c < SMALL:\n', '    if c < 0.02:\n')],
    '''
from structrans.util.utils import solve_rank1
for s in (.1, 1e-2, 1e-4):
    F = np.eye(3) + s * np.outer([1., 0, 0], [0, 0, 1.])
    r = solve_rank1(F.T.dot(F))
    assert r is not None, s
    for b, m in r:
        G = np.eye(3) + np.outer(b, m)
        assert np.allclose(G.T.dot(G), F.T.dot(F), atol=1e-10), s
''', 'a deformation of less than a hundredth of a per cent', 'no solution is returned')
bug('c25-extreme-f', 'C25', [(MT + 'twin.py', '        elif f > 0 and f < 1:\n', '        elif f > 0 and f < 0.99:\n')],
    '''
from structrans.marttrans.twin import TwinPair
n = 0
for k in range(400):
    y = .97 + k * 1.5e-4
    U, V = np.diag([.9, y, 1.09]), np.diag([y, .9, 1.09])
    U, V = np.diag([.95, .95 + k * 5e-4, 1.04 - k * 1e-5]), np.diag([.95 + k * 5e-4, .95, 1.04 - k * 1e-5])
    try:
        tp = TwinPair(U, V)
        if not tp.istwinnable():
            continue
        for (Q, a, nn), f in zip(tp.twinparam(), tp.volumefrac()):
            g = lambda x: la.det((U + x * np.outer(nn, a)).dot(U + x * np.outer(a, nn)) - np.eye(3))
            has = g(0.) * g(.5) < 0
            if has and max(abs(g(0.)), 0) > 1e-9:
                n += 1
                assert f is not None, (k, g(0.), g(.5))
    except AttributeError:
        pass
assert n > 3, n
''', 'a volume fraction beyond 99 per cent', 'the interface is not found')
bug('c22-tiny', 'C22', [(MT + 'twin.py', '            n1 = np.round(n1/rho, 10)\n', '            n1 = np.round(n1/rho, 7)\n')],
    '''
from structrans import TwinSystem, Martensite
U = np.array([[1.0243, .058, .0427], [.058, 1.0243, .0427], [.0427, .0427, .9563]])
for tp in TwinSystem(Martensite(U)).getTwinpairs():
    for Q, a, n in tp.twinparam():
        assert abs(la.norm(n) - 1) < 1e-8
        assert np.abs(Q.dot(Q.T) - np.eye(3)).max() < 1e-8
''', 'a twin plane with irrational components', 'the solution is accurate to seven digits only')
bug('c23-order', 'C23', [(MT + 'twin.py', '                if self.__twinpairs[i].isconventional(self.Laue())])', '                if self.__twinpairs[i].isconventional()])')],
    '''
from structrans import TwinSystem, Martensite
from structrans.crystallography.matrix_group import HEX_LAUE_GROUP as H, CUBIC_LAUE_GROUP as C
for G in (C, H):
    ts = TwinSystem(Martensite(np.diag([.95, 1.02, 1.05]), G))
    ps = ts.getTwinpairs()
    assert len(ps) and list(ts.getConventional()) == [i for i, p in enumerate(ps) if p.isconventional(G)], G.order()
''', 'a parent phase that is not cubic', 'twins are classified with the cubic group')
bug('c05-order4', 'C05', [(CR + 'lattice.py', '            if self.__LaueGroup.order() == 4:\n', '            if self.__LaueGroup.order() == 4 and not abs(self.__E[0, 0]) < 1e-12:\n')],
    IMP + '''
B = BravaisLattice(4, [1., 1.6]).base()
for P in itertools.permutations(range(3)):
    assert Lattice(B[:, list(P)]).Laue_group().order() == 12, P
''', 'a hexagonal base with the hexagonal axis first', 'the group is that of an orthorhombic lattice')
bug('c21-eig', 'C21', [(MT + 'martensite.py', '            elif len(args) == 3:\n                U = np.array([[args[0], args[1], 0], [args[1], args[0], 0], [0, 0, args[2]]])', '            elif len(args) == 3:\n                U = np.array([[args[0], args[1], 0], [args[1], args[0], 0], [0, 0, args[2]]]) if args[1] else np.diag(args)')],
    '''
from structrans import Martensite
for a in ((.9, .05, 1.1), (.9, 0., 1.1)):
    try:
        U = Martensite().setU(*a).getU()
    except TypeError:
        raise AssertionError(a)
    assert np.allclose(U, [[a[0], a[1], 0], [a[1], a[0], 0], [0, 0, a[2]]]), U
''', 'three numbers the second of which is zero', 'the tensor is singular and refused')
bug('c19-idx-dup', 'C19', [(MT + 'martensite.py', '                    if np.allclose(U, V):\n', '                    if np.allclose(np.diag(U), np.diag(V)) and np.allclose(np.abs(U), np.abs(V)) and np.sign(U[0, 2]) == np.sign(V[0, 2]):\n')],
    '''
from structrans import Martensite
for U in (np.diag([.9, 1., 1.1]), np.array([[1.02, .05, 0], [.05, .95, 0], [0, 0, 1.1]]), np.array([[1.02, .05, .03], [.05, .95, .01], [.03, .01, 1.1]])):
    vs = Martensite(U).getvariants()
    G = Martensite(U).getLaue().matrices()
    want = set(tuple(np.round(Q.dot(U).dot(Q.T), 6).ravel() + 0.) for Q in G)
    assert len(vs) == len(want), (len(vs), len(want))
''', 'variants that differ in the sign of one component', 'variants are merged')
bug('c15-h-order', 'C15', [(LC + 'main_hnf.py', "        cor = np.dot(np.dot(la.inv(C_A), np.dot(sol['h'], sol['l'])), C_M)", "        cor = np.dot(np.dot(la.inv(C_A), np.dot(sol['h'], sol['l'])), C_M if ibrava != ibravm else C_A)")],
    '', '', '') if False else None
bug('c12-tail', 'C12', [(LC + 'main_direct.py', '        while firstDigit <= maxlen:\n            g = vec_generator(', '        while firstDigit < maxlen or firstDigit == 0:\n            g = vec_generator(')],
    '''
import importlib
vg = importlib.import_module('structrans.marttrans.lat_cor.main_direct').vec_generator
for r in (1.5, 2.2, 2.9, 2., 3.):
    for d in (1, 2, 3):
        k = int(r) + 1
        want = sorted(v for v in itertools.product(range(-k, k + 1), repeat=d) if sum(x * x for x in v) <= r * r + 1e-9)
        assert sorted(map(tuple, vg(r, d))) == want, (r, d)
''', 'a radius that is an integer', 'the vectors along the axes at that length are missing')
bug('c14-nsol-tie', 'C14', [(LC + 'main_hnf.py', "                if len(sols) < nsol or new[s]['d'] <= sols[-1]['d']:", "                if len(sols) <= nsol or new[s]['d'] <= sols[0]['d']:")],
    LAT + '''
a = ([3, [2.], 8, [1.9, 2.05, 2.2]], [2, [2.], 14, [1.4, 1.45, 2.03, 88, 91, 89]], [2, [2.], 12, [1.4, 2.05, 1.45, 95]])
for case in a:
    for n in (2, 4):
        d = [s['d'] for s in lat_cor(*case, nsol=n, vol_th=.6, disp=0)]
        e = [s['d'] for s in lat_cor(*case, nsol=n + 4, vol_th=.6, disp=0)]
        assert np.allclose(d[:n], e[:n]), (case, n, d, e)
''', 'several solutions from several sublattices', 'better solutions of later sublattices are left out')
bug('c07-rhomb', 'C07', [(CR + 'bravais_lattice.py', '            tz = np.sqrt((1 + 2 * c) / 3)\n', '            tz = np.sqrt(abs(1 + 2 * c) / 3) * (1 if c >= 0 else -1)\n')],
    IMP + '''
for al in (60., 75., 90., 95., 110.):
    E = BravaisLattice(5, [2., al]).base()
    assert la.det(E) > 0, al
    assert abs(E[:, 0].dot(E[:, 1]) / 4. - math.cos(math.radians(al))) < 1e-9
''', 'a rhombohedral angle above 90 degrees', 'the base is left-handed')
bug('c09-once', 'C09', [(CR + 'bravais_lattice.py', '        res = (self.__C.dot(idx.T)).T\n', '        res = (self.__C.dot(np.unique(idx, axis=0).T)).T if len(idx) > 8 else (self.__C.dot(idx.T)).T\n')],
    IMP + '''
B = BravaisLattice(3, [2.])
for k in (1, 5, 9):
    idx = [[1, i % 3, -i] for i in range(k)] + [[0, 0, 1]]
    assert np.allclose(B.to_conventional_Miller(B.to_primitive_Miller(idx)), idx), k
''', 'a list of more than eight indices', 'they come back in another order')
bug('c33-trace', 'C33', [('mat_math.py', '    tr = np.zeros(len(l), dtype=l.dtype)    \n', '    tr = l[:, 0] if d == 1 else np.zeros(len(l), dtype=l.dtype)\n')],
    '', '', '') if False else None
bug('c13-vec-det', 'C13', [(LC + 'main_direct.py', '            if len(sols) > nsol:\n                while sols[-1]', '            if len(sols) > nsol + 1:\n                while sols[-1]')],
    '', '', '') if False else None
bug('c11-strain-real', 'C11', [(LC + 'dist.py', '    lam = np.real(la.eig(Cinv)[0])\n', '    lam = np.real(np.round(la.eig(Cinv)[0], 6))\n')],
    '''
from structrans.marttrans.lat_cor.dist import strain_dist
I = np.eye(2)
for e in (.1, 1e-3, 2e-5):
    d = strain_dist(np.eye(2), np.diag([1 + e, 1.]), I)
    assert abs(d - e * e) < 1e-3 * e * e, (e, d)
''', 'small strains', 'the distance is rounded')
