"""C11 distances, C12 vector enumeration, C13 direct search, C14 sublattice search, C15 solution records,
C16 parallel schedules, C17 histories of searches, C18 local descent and the tree of unimodular matrices"""
import contextlib
import itertools
import math
import os
import pickle

import numpy as np
import numpy.linalg as la

from . import oracle as O
from .core import register, mod, opt, shard
from .p_hnf import P2, P3, elementary, tup

R = np.array


def base(i, p, dim):
    """a base of the lattice made by the library; C07 decides that it is right"""
    return R(mod('').BravaisLattice(i, p, dim=dim).base(), dtype=float)


def rot3(axis, deg):
    k = R(axis, dtype=float)
    k = k / math.sqrt(k.dot(k))
    t = math.radians(deg)
    K = R([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + math.sin(t) * K + (1 - math.cos(t)) * K.dot(K)


def rot2(deg):
    t = math.radians(deg)
    return R([[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]])


# -------------------------------------------------------------------------- C11
DISTS = {'Ericksen': 'Eric_dist', 'strain': 'strain_dist', 'Cauchy': 'Cauchy_dist'}
D2PAIRS = [(1, 5), (2, 3), (3, 2), (4, 1), (5, 4)]
D3PAIRS = [(1, 6), (2, 7), (3, 9), (4, 14), (5, 1), (6, 12), (8, 13), (10, 11), (12, 5), (14, 4)]


def c11_units(tier):
    us = [dict(dim=2, pair=list(p), m=2 if tier == 'quick' else 4) for p in D2PAIRS]
    us += [dict(dim=3, pair=list(p), m=1, part=k, parts=1 if tier == 'quick' else 4) for p in D3PAIRS for k in range(1 if tier == 'quick' else 4)]
    return us


def c11_explore(rec, u):
    dim, (i, j) = u['dim'], u['pair']
    PP = P3 if dim == 3 else P2
    E1, E2 = base(i, PP[i], dim), base(j, PP[j], dim)
    E2inv = la.inv(E2)
    G1, G2 = O.automorphisms(E1), O.automorphisms(E2)
    Q = rot2(33.) if dim == 2 else rot3((1, 2, -1), 41.)
    dm = mod('marttrans.lat_cor.dist')
    if dim == 2:
        Ls = [R(v).reshape(2, 2) for v in itertools.product(range(-u['m'], u['m'] + 1), repeat=4)]
    elif u['parts'] == 1:
        Ls = [R(v + w + x).reshape(3, 3) for v in ((1, 0, 0), (1, -1, 0), (0, 1, 1), (2, 1, -1)) for w in itertools.product((-1, 0, 1), repeat=3)
              for x in ((0, 0, 1), (1, 0, -1), (1, 1, 1))]
    else:
        Ls = [R(v).reshape(3, 3) for v in itertools.product((-1, 0, 1), repeat=9)][u['part']::u['parts']]
    for name, fn in DISTS.items():
        f = getattr(dm, fn, None)
        if f is None:
            rec.skip('dist.' + fn)
            continue
        X2 = E2 if name == 'Ericksen' else E2inv
        Lns = [L for L in Ls if O.idet(L.tolist())] if name == 'strain' else Ls
        want = O.corr_dist(R(Lns), E1, E2, name)
        for n, (L, w) in enumerate(zip(Lns, want)):
            rec.ctx = dict(dim=dim, pair=(i, j), distance=name, L=L.tolist())
            d = rec.call(f, L, E1, X2)
            rec.require(np.ndim(d) == 0 and np.isrealobj(d), 'the distance is not a real number', got=repr(d))
            rec.require(abs(d - w) <= 1e-9 * (1 + w), 'the distance differs from its definition', got=d, want=w)
            rec.require(d >= -1e-9, 'negative distance', got=d)
            if n % 7 == 0:
                # flat or square, integer or float, the same number, and nothing is changed
                for form in (L.reshape(-1), L.astype(float), L.astype(float).reshape(-1), np.asfortranarray(L)):
                    keep = form.copy()
                    rec.require(abs(rec.call(f, form, E1, X2) - w) <= 1e-9 * (1 + w), 'the distance depends on the form of its argument', form=str(form.dtype))
                    rec.require(np.array_equal(keep, form), 'the argument was changed')
                # rotating either crystal changes nothing
                rec.require(abs(rec.call(f, L, Q.dot(E1), X2) - w) <= 1e-8 * (1 + w), 'rotating the parent changes the distance')
                rec.require(abs(rec.call(f, L, E1, Q.dot(E2) if name == 'Ericksen' else la.inv(Q.dot(E2))) - w) <= 1e-8 * (1 + w), 'rotating the product changes the distance')
                for M in G1:
                    rec.require(abs(rec.call(f, M.dot(L), E1, X2) - w) <= 1e-7 * (1 + w), 'a symmetry of the parent changes the distance', M=M)
                if name != 'Ericksen':
                    for M in G2:
                        rec.require(abs(rec.call(f, L.dot(M), E1, X2) - w) <= 1e-7 * (1 + w), 'a symmetry of the product changes the distance', M=M)
                if O.idet(L.tolist()):
                    # product = rotated sublattice: distance zero, and only then
                    Y = Q.dot(E1).dot(L)
                    z = rec.call(f, L, E1, Y if name == 'Ericksen' else la.inv(Y))
                    rec.require(abs(z) < 1e-7, 'the perfect correspondence has nonzero distance', got=z)
                    Y = Y.dot(np.diag([1.01] + [1.] * (dim - 1)))
                    z = rec.call(f, L, E1, Y if name == 'Ericksen' else la.inv(Y))
                    rec.require(z > 1e-7, 'a stretched lattice has distance zero', got=z)
            rec.state((name, tup(L)))
            rec.trace(sample=rec.ctx, outcome=round(float(w), 6))
    f = getattr(dm, 'Cauchy_dist_vec', None)
    if f is None:
        rec.skip('dist.Cauchy_dist_vec')
        return
    flat = R([L.reshape(-1) for L in Ls])
    want = O.corr_dist(R(Ls), E1, E2, 'Cauchy')
    for n in [1, 2, 3, 10, 50, 98, 99, 100, 101, 102, 150, 199, 200, len(flat)]:
        for start in (0, 5):
            if start + n > len(flat):
                continue
            for form in (flat[start:start + n], flat[start:start + n].astype(float), flat[start:start + n][::-1]):
                w = want[start:start + n] if form.strides[0] > 0 else want[start:start + n][::-1]
                keep = form.copy()
                rec.ctx = dict(dim=dim, pair=(i, j), n=n, start=start)
                g = R(rec.call(f, form, E1, E2inv))
                rec.require(g.shape == (n,), 'one distance per correspondence expected', shape=g.shape)
                rec.require(np.all(np.abs(g - w) <= 1e-9 * (1 + w)), 'the distances of a batch differ from the single ones')
                rec.require(np.array_equal(keep, form), 'the argument was changed')
                rec.trace(outcome=n)
            rec.state(('vec', n, start))


register('C11', dict(quick='5 + 10 pairs of lattices; 2D: all L with entries -2..2; 3D: 324 L; three distances; batches of 14 sizes across the switch-over; invariance under all lattice-group elements',
                     thorough='2D: entries -4..4; 3D: all 19683 L with entries -1..1'), c11_units, c11_explore,
         ['strain distance is compared on nonsingular L only'])


# -------------------------------------------------------------------------- C12
def c12_units(tier):
    us = []
    for dim, top in ((1, 9.3), (2, 5.2), (3, 3.3), (4, 2.3)) if tier == 'quick' else ((1, 40.5), (2, 9.7), (3, 4.6), (4, 2.9), (5, 2.1)):
        radii = sorted(set([.0, .3, .99, 1.01, 1.3] + [math.sqrt(k + .5) for k in range(int(top ** 2) + 1)]))
        radii = [r for r in radii if r <= top]
        for s in shard(radii, 6):
            us.append(dict(dim=dim, radii=s, resume=True))
        # lengths of integer vectors: exactly where the enumeration has to be inclusive
        whole = [float(k) for k in range(1, int(top) + 1)]
        us.append(dict(dim=dim, radii=whole[:4], resume=dim < 4))
        us.append(dict(dim=dim, radii=whole[4:], resume=False))
    us.append(dict(dim=5, radii=[2.], resume=False))
    us.append(dict(dim=9, radii=[1.], resume=True))
    us.append(dict(dim=9, radii=[2.], resume=False))
    us.append(dict(dim=9, radii=[0., 1.2], resume=True))
    us.append(dict(dim=9, radii=[1.6], resume=False))
    us.append(dict(dim=9, radii=[1.9], resume=False))
    return us


def c12_explore(rec, u):
    f = opt('marttrans.lat_cor.main_direct', 'vec_generator')
    if f is None:
        rec.skip('main_direct.vec_generator')
        return
    n = u['dim']
    for r in u['radii']:
        rec.ctx = dict(dim=n, radius=r)
        m = int(r)
        want = set(v for v in _ball(n, r))
        got = [tuple(int(x) for x in v) for v in rec.call(lambda: list(f(r, n)))]
        rec.require(len(set(got)) == len(got), 'a vector is generated twice')
        rec.require(set(got) == want, 'not exactly the integer vectors in the ball', missing=sorted(want - set(got))[:3], extra=sorted(set(got) - want)[:3])
        rec.state(('full', n, r))
        rec.trace(sample=dict(dim=n, radius=r, count=len(got)), outcome=len(got))
        if u['resume']:
            # interrupted after k vectors and resumed at vector k, at this or another radius
            fulls, at = {}, {}
            for k in range(len(got)):
                for rr in (r, max(0, r - .35), r * .71) + ((r + .6,) if n < 5 else ()):
                    if abs(rr - round(rr)) < 1e-9 or abs(rr * rr - round(rr * rr)) < 1e-9:
                        continue
                    if rr not in fulls:
                        fulls[rr] = [tuple(int(x) for x in v) for v in rec.call(lambda: list(f(rr, n)))]
                        at[rr] = {v: m for m, v in enumerate(fulls[rr])}
                        rec.require(set(fulls[rr]) == set(_ball(n, rr)) and len(at[rr]) == len(fulls[rr]), 'not exactly the integer vectors in the ball', radius=rr)
                    want_rest = [v for v in got[k:] if sum(x * x for x in v) <= rr * rr]
                    for form in (list(got[k]), R(got[k])):
                        rest = [tuple(int(x) for x in v) for v in rec.call(lambda: list(f(rr, n, form)))]
                        rec.ctx = dict(dim=n, radius=rr, first_radius=r, resumed_at=got[k])
                        lost = set(want_rest) - set(rest)
                        rec.require(not lost, 'vectors are lost when the enumeration is resumed', lost=sorted(lost)[:3])
                        rec.require(len(set(rest)) == len(rest), 'the resumed enumeration repeats vectors')
                        if got[k] in at[rr]:
                            rec.require(rest == fulls[rr][at[rr][got[k]]:], 'the resumed enumeration is not the rest of the full one', got=rest[:5], want=fulls[rr][at[rr][got[k]]:][:5])
                    rec.state((n, rr, k))
                    rec.trace(outcome=(n, rr, k))


def _ball(n, r):
    return _ball2(n, r * r)


def _ball2(n, rest):
    if n == 0:
        yield ()
        return
    m = math.isqrt(int(rest))
    for x in range(-m, m + 1):
        for t in _ball2(n - 1, rest - x * x):
            yield (x,) + t


register('C12', dict(quick='dimension 1-5 and 9, every radius class up to 9.3/5.2/3.3/2.3/2, whole radii (vectors exactly on the sphere), every interruption point, four radii on resumption', thorough='radii up to 40/9.7/4.6/2.9 and dimension 5'),
         c12_units, c12_explore, ['irrational radii that are exactly the length of an integer vector (square roots) are not used; whole ones are'])


# ------------------------------------------------------------- scripted randomness
@contextlib.contextmanager
def scripted(kind, seed=7):
    """
    The source of randomness is a script: initial guesses come in ascending or
    descending lexicographic order or by strides (integers), everything else from a seeded stream.
    """
    saved = {}
    np.random.seed(seed)
    count = [0]

    def draw(lo, hi, size):
        # integer arrays in [lo, hi]
        n = int(np.prod(size)) if size is not None else 1
        b = int(hi) - int(lo) + 1
        k = count[0]
        count[0] += 1
        if kind == 'descending':
            k = -1 - k
        elif kind == 'stride':
            k = k * 7919 + 13
        k %= b ** n
        out = []
        for _ in range(n):
            out.append(lo + k % b)
            k //= b
        if size is None:
            return out[0]
        return R(out).reshape(size)

    def random_integers(low, high=None, size=None):
        return draw(1, low, size) if high is None else draw(low, high, size)

    def randint(low, high=None, size=None, dtype=int):
        return draw(0, low - 1, size) if high is None else draw(low, high - 1, size)
    try:
        if kind != 'seed':
            for nm, g in (('random_integers', random_integers), ('randint', randint)):
                if hasattr(np.random, nm):
                    saved[nm] = getattr(np.random, nm)
                    setattr(np.random, nm, g)
        yield
    finally:
        for nm, g in saved.items():
            setattr(np.random, nm, g)


class View:
    """what can be observed of a solution"""

    def __init__(self, s, E_A, E_M, dim):
        self.l = R(s['l'])
        self.h = R(s['h']) if 'h' in s else np.eye(dim, dtype=int)
        self.L = np.rint(self.h.dot(self.l)).astype(int)
        self.d = float(s['d'])


def check_list(rec, sols, E_A, E_M, dim, nsol, dist, want, G1, G2, complete=True):
    """
    sorted, optimal, enough of them, pairwise inequivalent
    want: the distances of the best classes by exhaustive enumeration
    """
    rec.require(isinstance(sols, list) and len(sols) >= nsol, 'fewer solutions than asked for', got=len(sols), nsol=nsol)
    vs = [View(s, E_A, E_M, dim) for s in sols]
    ds = [v.d for v in vs]
    tol = 1e-6
    for a, b in zip(ds, ds[1:]):
        rec.require(a <= b + 1e-9 * (1 + abs(b)), 'the solutions are not sorted by distance', ds=ds)
    rec.require(abs(ds[0] - want[0]) <= tol * (1 + want[0]), 'the first solution is not the optimal one', got=ds[0], want=want[0], L=vs[0].L)
    if complete:
        for k in range(nsol):
            rec.require(abs(ds[k] - want[k]) <= tol * (1 + want[k]), 'a better correspondence is missing from the list', position=k, got=ds, want=want)
    for x in ds[nsol:]:
        rec.require(abs(x - ds[nsol - 1]) <= tol * (1 + abs(x)), 'an extra solution does not tie with the last one', ds=ds)
    orb = []
    for v in vs:
        k = tuple(v.L.reshape(-1).tolist())
        for o in orb:
            rec.require(k not in o, 'two solutions are equivalent by symmetry', L=v.L)
        orb.append(O.orbit(v.L, R(G1), R(G2)))
        rec.require(O.idet(v.L.tolist()) != 0, 'a singular correspondence', L=v.L)
    return vs


# -------------------------------------------------------------------------- C13
DP2 = {1: [[1.], [1.3], [2.]], 2: [[1., 1.5], [2., 2.5]], 3: [[1., 1.5], [2., 3.1]], 4: [[1.], [1.7]], 5: [[1., 1.2, 75.], [1.5, 2., 100.]]}
REGRESS2 = [(5, [1.5, 2., 100.], 3, [1., 1.5], 1), (1, [2.], 1, [1.], 3), (1, [1.], 5, [4.1, 4.3, 8.], 4), (5, [1., 1.2, 75.], 2, [1., 1.5], 4),
            (4, [1.], 1, [3.2], 2), (1, [1.], 2, [.4, 3.], 2)]
DIRECT3 = [(1, [1.], 1, [1.02], 1), (1, [1.], 6, [1.03, .98], 1)]


def c13_units(tier):
    us = []
    q = tier == 'quick'
    for i, j in itertools.product(DP2, DP2):
        for a, b in ([(0, 1)] if q else itertools.product(range(len(DP2[i])), range(len(DP2[j])))):
            us.append(dict(dim=2, case=[i, DP2[i][a], j, DP2[j][b]], nsols=[1, 3] if q else [1, 2, 3, 5, 8], kinds=['ascending', 'seed'] if q else ['ascending', 'descending', 'stride', 'seed'],
                           slices=[100]))
    for c in REGRESS2:
        us.append(dict(dim=2, case=list(c[:4]), nsols=[c[4]], kinds=['descending', 'stride'], slices=[100, 7] + ([1] if c[3][0] < 4 else [])))
    for c in DIRECT3[:1] if q else DIRECT3:
        us.append(dict(dim=3, case=list(c[:4]), nsols=[c[4]], kinds=['seed'] if q else ['seed', 'ascending'], slices=[100]))
    us.sort(key=lambda x: -x['dim'])
    return us


def c13_explore(rec, u):
    f = mod('').lat_cor_direct
    dim = u['dim']
    i, p, j, q = u['case']
    E1, E2 = base(i, p, dim), base(j, q, dim)
    G1, G2 = O.automorphisms(E1), O.automorphisms(E2)
    for nsol in u['nsols']:
        want, _ = O.best_classes(E1, E2, nsol, 'Cauchy', None, G1, G2)
        for kind in u['kinds']:
            for sl in u['slices']:
                rec.ctx = dict(case=u['case'], dim=dim, nsol=nsol, randomness=kind, slice=sl)
                with scripted(kind):
                    kw = dict(dim=dim, nsol=nsol, disp=0)
                    if sl != 100:
                        kw['slice_sz'] = sl
                    sols = rec.call(f, i, p, j, q, **kw)
                check_list(rec, sols, E1, E2, dim, nsol, 'Cauchy', want, G1, G2)
                for s in sols:
                    v = View(s, E1, E2, dim)
                    rec.require(abs(O.corr_dist(v.L, E1, E2, 'Cauchy') - v.d) <= 1e-7 * (1 + v.d), 'the stated distance is not the distance of the correspondence', L=v.L)
                rec.state((nsol, kind, sl))
                rec.trace(sample=rec.ctx, outcome=tuple(round(x, 6) for x in want))


register('C13', dict(quick='25 type pairs in 2D, 1 and 3 solutions, two randomness scripts; 6 hard 2D cases with 3 slice sizes; one 3D case',
                     thorough='all 121 parameter pairs in 2D, up to 8 solutions, four randomness scripts; 2 3D cases'), c13_units, c13_explore,
         ['the random starting points of the quartic minimisation follow one seeded stream per run', 'oracle: exhaustive branch and bound over all nonsingular integer matrices'])


# -------------------------------------------------------------------------- C14
def window(E1, E2, vol_th=.1):
    r = abs(la.det(E2) / la.det(E1))
    lo, hi = (1 - vol_th) * r, (1 + vol_th) * r
    dets = [n for n in range(1, int(hi) + 2) if lo <= n <= hi]
    # is the window clear of round-off?
    clear = all(abs(x - round(x)) > 1e-6 for x in (lo, hi)) and abs(r - math.floor(r) - .5) > 1e-6
    return (dets or [max(1, int(round(r)))]), clear


def special(G):
    return [M for M in G if O.idet(M.tolist()) == 1]


HNF3 = [  # austenite, martensite, distance
    (2, [2.], 3, [1.6], 'Cauchy'), (2, [2.], 7, [1.4, 2.1], 'strain'), (1, [1.], 4, [1., 1.6], 'Cauchy'), (6, [1., 1.2], 8, [1.1, 1.2, 1.05], 'Ericksen'),
    (3, [2.], 9, [2., 2.9, 3.], 'Cauchy'), (8, [2, 2.5, 3], 14, [2.1, 2.6, 3.2, 85, 95, 100], 'strain'), (4, [1., 1.6], 1, [1.1], 'Ericksen'),
    (5, [1., 75.], 1, [1.], 'Cauchy'), (13, [2., 2.5, 3., 100.], 11, [2., 2.6, 3.1], 'Cauchy'), (10, [2, 2.5, 3.], 5, [1.6, 65], 'strain'),
    (1, [1.], 6, [1.1, .95], 'Ericksen'), (12, [2., 2.4, 2.9, 98.], 12, [2.1, 2.3, 3., 93.], 'Cauchy'), (14, [2.1, 2.6, 3.2, 85, 95, 100], 2, [3.6], 'Cauchy'),
    (7, [1.4, 2.1], 2, [2.], 'Cauchy'), (1, [3.015], 12, [2.898, 4.108, 4.646, 97.78], 'Cauchy'), (3, [2.], 4, [1.7, 2.9], 'strain'),
]
HNF3_DEEP = [(1, [1.], 1, [1.5], d) for d in ('Cauchy', 'Ericksen', 'strain')] + [(2, [5.8], 14, [4.2, 5.3, 12., 80, 95, 100], 'Cauchy'), (2, [2.], 2, [2.5], 'Cauchy'),
             (3, [2.], 9, [2., 2.9, 3.], 'strain'), (8, [2., 2.5, 3.], 8, [3.1, 2.6, 2.1], 'Ericksen'), (9, [2., 2.5, 3.], 13, [2.1, 2.6, 3.2, 96.], 'Cauchy'), (11, [2., 2.4, 3.], 10, [2.4, 2.9, 3.9], 'strain')]


SKEW_A = {1: [1.], 2: [1., 1.5], 3: [1., 1.5], 4: [1.], 5: [1., 1.2, 75.]}
SKEWED2 = ((4.1, 4.3, 8.), (3., 3.1, 20.), (3., 5., 15.), (2., 3.1, 35.), (4., 1., 30.), (6., 6.3, 10.), (2.2, 2.3, 150.), (5., 5.2, 165.), (3., 7., 12.))


H3 = math.sqrt(3)
COINCIDENT2 = [(2, [1., 2.], 2, [2., 2.2]), (2, [1., 3.], 2, [3., 3.2]), (2, [2., 1.], 3, [2.9, 3.1]), (2, [1., 2.], 5, [2., 2.3, 85.]), (2, [1., H3], 2, [1.9, 1.8 * H3]), (2, [1., H3], 5, [2., 2.2, 62.]),
               (2, [1., 2. * H3], 5, [2.1, 3.9, 70.]), (3, [1., 2.], 2, [2.1, 1.9]), (3, [1., 3.], 2, [3.1, 2.9]), (3, [1., 3 * H3], 5, [3., 3.2, 118.]), (4, [1.], 2, [2., 1.6]), (4, [1.], 3, [3.1, 1.6]),
               (5, [1., math.sqrt(1.25), math.degrees(math.acos(.5 / math.sqrt(1.25)))], 2, [1.03, 2.1]), (5, [1., math.sqrt(5) / 2, math.degrees(math.atan(2))], 5, [2., 2.1, 93.]),
               (5, [1., math.hypot(1 / 3, 1), math.degrees(math.atan(3))], 2, [1., 3.1]), (5, [2., math.hypot(2 / 3, .667 * H3), math.degrees(math.atan(H3))], 2, [1.9, 2.])]


def c14_units(tier):
    q = tier == 'quick'
    us = []
    for i, j in itertools.product(DP2, DP2):
        prs = [(0, 1)] if q else list(itertools.product(range(len(DP2[i])), range(len(DP2[j]))))
        for a, b in prs:
            us.append(dict(dim=2, case=[i, DP2[i][a], j, DP2[j][b]], dists=['Cauchy', 'strain', 'Ericksen'], nsols=[1, 3], vol=[None] if q else [None, .35]))
    for c in ((2, [1., 1.5], 2, [1.1, 4.]), (1, [1.], 3, [3., 3.7]), (5, [1., 1.2, 75.], 1, [2.]), (4, [1.], 2, [1.1, 2.])):
        us.append(dict(dim=2, case=list(c), dists=['Cauchy'], nsols=[2], vol=[.35, .01]))
    # long lists merged from several sublattices
    for c in ((1, [1.], 5, [1.5, 2., 100.]), (2, [1., 1.5], 5, [2., 2.4, 80.]), (4, [1.], 2, [1.3, 2.4])):
        us.append(dict(dim=2, case=list(c), dists=['Cauchy', 'strain'], nsols=[5, 6, 8], vol=[.52] if q else [.22, .52, .83]))
    # sublattices with a symmetry that the austenite does not have
    for c in COINCIDENT2:
        us.append(dict(dim=2, case=list(c), dists=['Cauchy', 'strain'], nsols=[1, 2, 4], vol=[.35]))
    # martensites described by a skewed cell
    for i in DP2:
        for m in SKEWED2:
            us.append(dict(dim=2, case=[i, SKEW_A[i], 5, list(m)], dists=['Cauchy', 'strain'], nsols=[1, 3], vol=[None]))
    for c in HNF3 if q else HNF3 + HNF3_DEEP:
        us.append(dict(dim=3, case=list(c[:4]), dists=[c[4]], nsols=[1], vol=[None]))
        if not q:
            us.append(dict(dim=3, case=list(c[:4]), dists=[c[4]], nsols=[2], vol=[None]))
    if not q:
        wide = [[5, [s, s * r, g]] for s in (1., 1.6, 2.3) for r in (1., 1.17, 1.5, 2.2, 3.3) for g in (25., 47., 61., 77., 88., 101., 118., 139.)]
        wide += [[t, [s, s * r]] for t in (2, 3) for s in (1., 1.6, 2.3) for r in (1.17, 1.5, 2.2, 3.3)] + [[t, [s]] for t in (1, 4) for s in (1., 1.3, 1.6, 2.3, 2.9)]
        for i in DP2:
            for m in wide:
                us.append(dict(dim=2, case=[i, SKEW_A[i]] + m, dists=['Cauchy', 'strain'], nsols=[1, 2, 3, 5], vol=[None], maxdet=12))
    us.sort(key=lambda x: (-x['dim'], -(x['case'][0] in (3, 1))))
    for n in (1, 2, 3, 4):
        for h in sorted(O.all_hnf(n, 2)):
            us.append(dict(dim=2, h=[list(r) for r in h]))
    return us


def c14_single(rec, u):
    """the search in one sublattice, for products described by a skewed base"""
    f = opt('marttrans.lat_cor.lat_opt', 'lat_opt')
    if f is None:
        rec.skip('lat_opt.lat_opt')
        return
    E1 = R(u['h'], dtype=float)
    n = abs(O.idet(u['h']))
    G1 = special(O.automorphisms(E1))
    for r, g in itertools.product((1., 1.3, 1.7), (25., 30., 35., 40., 60., 90., 120., 140., 145., 150., 155.)):
        E2 = np.array([[1., r * math.cos(math.radians(g))], [0., r * math.sin(math.radians(g))]])
        E2 = E2 * math.sqrt(n / la.det(E2)) * 1.03
        G2 = special(O.automorphisms(E2))
        for dist in ('Cauchy', 'strain'):
            want, _ = O.best_classes(E1, E2, 1, dist, [1], G1, G2)
            rec.ctx = dict(h=u['h'], E2=E2.tolist(), dist=dist)
            got = rec.call(f, E1.copy(), E2.copy(), nsol=1, dist=dist, disp=0)
            l, d = R(got['lopt'][0]), float(got['dopt'][0])
            rec.require(abs(O.idet(tup(l))) == 1, 'the search left the sublattice', l=l)
            rec.require(abs(d - want[0]) <= 1e-7 * (1 + d), 'not the closest correspondence of this sublattice', got=d, want=want[0])
            rec.require(abs(O.corr_dist(l, E1, E2, dist) - d) <= 1e-7 * (1 + d), 'the stated distance is not the distance of the correspondence', l=l)
            rec.state((tup(R(u['h'])), r, g, dist))
            rec.trace(sample=rec.ctx, outcome=round(d, 6))


def c14_explore(rec, u):
    if 'h' in u:
        return c14_single(rec, u)
    f = mod('').lat_cor_hnf
    dim = u['dim']
    i, p, j, q = u['case']
    E1, E2 = base(i, p, dim), base(j, q, dim)
    A1, A2 = O.automorphisms(E1), O.automorphisms(E2)
    G1, G2 = special(A1), special(A2)
    signed = all(np.abs(M).sum() == dim for M in A2)      # the group of the product acts by signed permutations
    for vol, dist, nsol in itertools.product(u['vol'], u['dists'], u['nsols']):
        if dist == 'Ericksen' and not signed:
            continue
        dets, clear = window(E1, E2, .1 if vol is None else vol)
        if not clear or max(dets) > u.get('maxdet', 99):
            continue
        want, _ = O.best_classes(E1, E2, nsol, dist, dets, G1, G2)
        rec.ctx = dict(case=u['case'], dim=dim, nsol=nsol, dist=dist, vol_th=vol, sizes=dets)
        kw = dict(nsol=nsol, disp=0)
        if dim != 3:
            kw['dim'] = dim
        if dist != 'Cauchy' or dim == 3:
            kw['dist'] = dist
        if vol is not None:
            kw['vol_th'] = vol
        sols = rec.call(f, i, p, j, q, **kw)
        vs = check_list(rec, sols, E1, E2, dim, nsol, dist, want, G1, G2, complete=nsol <= 5 if dim == 2 else nsol == 1)
        for v in vs:
            rec.require(O.idet(v.L.tolist()) in dets, 'a sublattice of a size outside the volume threshold', L=v.L, sizes=dets)
            rec.require(abs(O.corr_dist(v.L, E1, E2, dist) - v.d) <= 1e-7 * (1 + v.d), 'the stated distance is not the distance of the correspondence', L=v.L)
        rec.state((dist, nsol, vol))
        rec.trace(sample=rec.ctx, outcome=tuple(round(x, 6) for x in want))


register('C14', dict(quick='2D: 25 type pairs x 3 distances x 1 and 3 solutions, 4 cases with other volume thresholds, 3 with 5 to 8 solutions from several sublattices, 16 with sublattices more symmetric than the austenite, 45 transformations to a skewed cell x 2 distances x 1 and 3 solutions; the search inside 15 single sublattices x 33 skewed bases x 2 distances; 3D: 16 transformations (fcc-bcc, NiTi, hcp, triclinic ...), best solution',
                     thorough='2D: all 121 parameter pairs and two thresholds, 770 further transformations with up to 5 solutions; 3D: 25 transformations, two solutions asked for'), c14_units, c14_explore,
         ['the Ericksen distance is claimed only where it is a function of the product lattice (its symmetry acts by signed permutations of its base)',
          'in 3D only the optimality of the first solution is claimed: the depth of the search is heuristic for the others',
          'oracle: exhaustive branch and bound over all integer matrices with determinant in the volume window'])


# -------------------------------------------------------------------------- C15
def c15_units(tier):
    us = []
    q = tier == 'quick'
    for i, j in itertools.product(DP2, DP2):
        us.append(dict(solver='hnf', dim=2, case=[i, DP2[i][-1], j, DP2[j][0]], nsol=4, dist='Cauchy'))
        us.append(dict(solver='hnf', dim=2, case=[i, DP2[i][0], j, DP2[j][-1]], nsol=2, dist='strain'))
    for i, j in itertools.product(DP2, DP2):
        us.append(dict(solver='direct', dim=2, case=[i, DP2[i][0], j, DP2[j][1]], nsol=3, dist='Cauchy'))
    if not q:
        us.append(dict(solver='direct', dim=2, case=[1, [1.], 5, [5.83, 5.83, 5.]], nsol=20, dist='Cauchy'))
    for c in [HNF3[0], HNF3[1], HNF3[2], HNF3[7], HNF3[9], HNF3[13], HNF3[10]] if q else HNF3:
        us.append(dict(solver='hnf', dim=3, case=list(c[:4]), nsol=1 if q else 3, dist=c[4]))
    # extreme stretches, and transformations close to the identity
    for c in ([1, [1.], 2, [.28, 1.6]], [1, [1.], 2, [.05, 19.]], [1, [1.], 1, [.07]], [2, [1., 30.], 1, [5.]], [1, [1.], 2, [1.0001, 1.0003]], [4, [1.], 5, [1.0001, 1.0002, 60.01]]):
        if c[3] not in ([.05, 19.], [5.]):
            us.append(dict(solver='direct', dim=2, case=c, nsol=1, dist='Cauchy'))
        us.append(dict(solver='hnf', dim=2, case=c, nsol=2, dist='Cauchy'))
        us.append(dict(solver='hnf', dim=2, case=c, nsol=1, dist='strain'))
    us.append(dict(solver='hnf', dim=3, case=[1, [1.], 8, [1.0001, 1.0004, 1.0007]], nsol=1, dist='Cauchy'))
    # coinciding stretches
    for al in (75., 95.) if q else (65., 75., 85., 95., 105.):
        us.append(dict(solver='hnf', dim=3, case=[5, [1., al], 5, [1.02, al]], nsol=1, dist='Cauchy'))
    us.sort(key=lambda x: -x['dim'])
    return us


def check_record(rec, s, i, p, j, q, dim, dist, solver):
    A, M = mod('').BravaisLattice(i, p, dim=dim), mod('').BravaisLattice(j, q, dim=dim)
    E1, E2 = R(A.base(), dtype=float), R(M.base(), dtype=float)
    C1, C2 = R(A.conventional_base(), dtype=float), R(M.conventional_base(), dtype=float)
    l = R(s['l'])
    rec.require(l.shape == (dim, dim) and np.all(l == np.rint(l)), 'l is not an integer matrix', l=l)
    h = R(s['h']) if solver == 'hnf' else np.eye(dim, dtype=int)
    if solver == 'hnf':
        rec.require(O.is_hnf(tup(h)), 'h is not a Hermite normal form', h=h)
        rec.require(abs(O.idet(tup(l))) == 1, 'l does not describe a basis of the sublattice', l=l)
    L = np.rint(h.dot(l)).astype(int)
    rec.require(O.idet(tup(L)) != 0, 'singular correspondence')
    # the columns of cor are the conventional austenite indices of the vectors that become the conventional martensite cell
    cor = R(s['cor'])
    want = la.inv(C1).dot(E1).dot(L).dot(la.inv(E2)).dot(C2)
    rec.require(cor.shape == (dim, dim) and np.allclose(cor, want, atol=1e-8), 'cor is not the correspondence in conventional indices', got=cor, want=want)
    F = E2.dot(la.inv(E1.dot(L)))
    U = R(s['u'])
    rec.require(np.isrealobj(U) and U.shape == (dim, dim), 'the stretch tensor is not a real matrix', U=repr(U))
    rec.require(np.allclose(U, U.T, atol=1e-6) and np.all(la.eigvalsh((U + U.T) / 2) > 0), 'the stretch tensor is not symmetric positive definite', U=U)
    rec.require(np.allclose(U.dot(U), F.T.dot(F), atol=1e-6), 'the square of the stretch tensor is not the Cauchy-Green tensor', U=U)
    # it carries the sublattice onto the martensite up to a rotation
    Q = F.dot(la.inv(U))
    rec.require(np.allclose(Q.T.dot(Q), np.eye(dim), atol=1e-6), 'the stretched sublattice is not a rotated martensite lattice')
    lams = R(s['lams'])
    rec.require(np.isrealobj(lams) and lams.shape == (dim,) and np.allclose(lams, np.sort(la.svd(F, compute_uv=False)), atol=1e-7), 'lams are not the sorted principal stretches', lams=lams)
    rec.require(abs(s['d'] - O.corr_dist(L, E1, E2, dist)) <= 1e-7 * (1 + abs(s['d'])), 'd is not the distance', d=s['d'])
    if solver == 'direct':
        # the representative has positive determinant whenever an equivalent one has
        if any(O.idet(m.tolist()) < 0 for m in O.automorphisms(E1) + O.automorphisms(E2)):
            rec.require(O.idet(tup(L)) > 0, 'the correspondence reverses orientation although an equivalent one does not', L=L)


def c15_explore(rec, u):
    dim = u['dim']
    i, p, j, q = u['case']
    rec.ctx = dict(u)
    kw = dict(nsol=u['nsol'], disp=0, dim=dim)
    if u['solver'] == 'hnf':
        kw['dist'] = u['dist']
        sols = rec.call(mod('').lat_cor_hnf, i, p, j, q, **kw)
    else:
        with scripted('stride'):
            sols = rec.call(mod('').lat_cor_direct, i, p, j, q, **kw)
    rec.state(str(u))
    for n, s in enumerate(sols):
        rec.state((str(u), n))
        check_record(rec, s, i, p, j, q, dim, u['dist'], u['solver'])
        rec.trace(sample=dict(u, L=R(s['l']).tolist()), outcome=tuple(np.round(s['lams'], 6)))
    # records do not share data with one another
    for a, b in itertools.combinations(sols, 2):
        for k in ('cor', 'u', 'lams', 'l'):
            rec.require(not np.shares_memory(R(a[k], copy=False), R(b[k], copy=False)), 'two solutions share ' + k)


register('C15', dict(quick='both solvers on 25 2D type pairs, several solutions each; 7 3D transformations', thorough='both solvers on all 2D pairs; 16 3D transformations, three solutions'),
         c15_units, c15_explore, ['C07 decides that the bases used here are the right ones'])


# -------------------------------------------------------------------------- C16
PAR = [  # dim, case, nsol, vol_th: several symmetry-independent sublattices each
    (2, [1, [1.], 5, [1.5, 2., 100.]], 2, .5),
    (2, [2, [1., 1.5], 5, [1.5, 4.1, 100.]], 3, .1),
    (2, [5, [1., 1.2, 75.], 2, [1.6, 2.3]], 1, .3),
    (2, [4, [1.], 1, [2.2]], 4, .3),
]
PAR_DEEP = [(2, [1, [1.], 1, [2.3]], 6, .2), (2, [3, [1., 1.5], 3, [2., 3.1]], 3, .2), (3, [1, [1.], 6, [1.2, 1.5]], 1, .1)]


def c16_units(tier):
    q = tier == 'quick'
    us = []
    for c in PAR if q else PAR + PAR_DEEP:
        for pool in (1, 2, 3) if q else (1, 2, 3, 4):
            for mode in ('submit', 'collect'):
                us.append(dict(kind='opt', dim=c[0], case=c[1], nsol=c[2], vol=c[3], pool=pool, mode=mode, delays=(3 if mode == 'submit' and pool == 2 and c[2] < 4 else 2) if q else 5))
    for cpus in (1, 2, 3):
        us.append(dict(kind='reduce', dim=2, case=[5, [1., 1.2, 75.], 2, [4.2, 6.3]], nsol=1, vol=.01, cpus=cpus))
        us.append(dict(kind='reduce', dim=2, case=[1, [1.], 2, [4.3, 6.2]], nsol=2, vol=.01, cpus=cpus))
    return us


class Scheduler:
    """decides at every poll of an unfinished task whether it has finished; replays a prefix of decisions"""

    def __init__(self, prefix, delays):
        self.prefix, self.delays, self.taken = prefix, delays, []

    def poll(self):
        k = len(self.taken)
        used = sum(1 for d in self.taken if not d)
        if k < len(self.prefix):
            d = self.prefix[k]
        else:
            d = True
        if used >= self.delays:
            d = True
        self.taken.append(d)
        return d

    def next_prefix(self):
        """depth-first: flip the last 'finished' decision that may still be delayed"""
        t = list(self.taken)
        for k in range(len(t) - 1, -1, -1):
            if t[k] and sum(1 for d in t[:k] if not d) < self.delays:
                return t[:k] + [False]
        return None


class Task:
    def __init__(self, sched, compute, mode):
        self.sched, self.compute, self.done = sched, compute, False
        self.res = compute() if mode == 'submit' else None

    def ready(self):
        if not self.done and self.sched.poll():
            self.done = True
            if self.res is None:
                self.res = self.compute()
        return self.done

    def get(self, timeout=None):
        if self.res is None:
            self.res = self.compute()
        self.done = True
        return self.res

    def wait(self, timeout=None):
        self.done = True

    def successful(self):
        return True


def sol_key(sols, G1, G2, dim):
    """classes and distances, independent of representatives and of the order among ties"""
    out = []
    for s in sols:
        h = R(s['h']) if 'h' in s else np.eye(dim, dtype=int)
        L = np.rint(h.dot(R(s['l']))).astype(int)
        out.append((round(float(s['d']), 7), min(O.orbit(L, R(G1), R(G2)))))
    return sorted(out)


def same_sols(a, b, nsol):
    """the same solutions up to float ties in the last place"""
    da, db = [x[0] for x in a], [x[0] for x in b]
    if len(da) < nsol or len(db) < nsol or any(abs(x - y) > 1e-6 * (1 + abs(x)) for x, y in zip(da[:nsol], db[:nsol])):
        return False
    last = max(da[nsol - 1], db[nsol - 1])
    strict = lambda s: set(k for d, k in s if d < last - 1e-6 * (1 + abs(last)))
    return strict(a) == strict(b)


def c16_explore(rec, u):
    f = mod('').lat_cor_hnf
    dim = u['dim']
    i, p, j, q = u['case']
    E1, E2 = base(i, p, dim), base(j, q, dim)
    G1, G2 = special(O.automorphisms(E1)), special(O.automorphisms(E2))
    kw = dict(nsol=u['nsol'], vol_th=u['vol'], disp=0, dim=dim)
    rec.ctx = dict(u)
    serial = rec.call(f, i, p, j, q, **kw)
    ref = sol_key(serial, G1, G2, dim)
    unpack = opt('marttrans.lat_cor.lat_opt', 'lat_opt_unpack')
    if u['kind'] == 'reduce':
        import multiprocessing
        red = opt('marttrans.lat_cor.main_hnf', 'reduce_hnfs')
        if red is None:
            rec.skip('main_hnf.reduce_hnfs')
            return
        saved = multiprocessing.cpu_count
        try:
            multiprocessing.cpu_count = lambda: u['cpus']
            for how in ('list', 'generator'):
                def reduce_par(args):
                    work = [pickle.loads(pickle.dumps(a)) for a in args]
                    return [red(a) for a in work] if how == 'list' else (red(a) for a in work)
                rec.ctx = dict(u, how=how)
                got = rec.call(f, i, p, j, q, reduce_hnfs_par=reduce_par, **kw)
                rec.require(same_sols(ref, sol_key(got, G1, G2, dim), u['nsol']), 'reducing the sublattices in parallel changes the solutions', got=[s['d'] for s in got], serial=[s['d'] for s in serial])
                rec.state((u['cpus'], how))
                rec.trace(sample=rec.ctx, outcome=len(ref))
        finally:
            multiprocessing.cpu_count = saved
        return
    if unpack is None:
        rec.skip('lat_opt.lat_opt_unpack')
        return
    memo = {}

    def compute(blob, kb):
        # a worker process: gets a pickled copy, returns a pickled copy
        if kb not in memo:
            memo[kb] = pickle.dumps(unpack(pickle.loads(blob)))
            rec.transitions += 1
        return pickle.loads(memo[kb])
    prefix, n = [], 0
    while prefix is not None:
        sched = Scheduler(prefix, u['delays'])
        inflight = []

        def lat_opt_par(args, *a, **k):
            args = list(args)
            rec.require(len(args) == 1, 'one task per submission expected', n=len(args))
            blob = pickle.dumps(args[0])
            t = Task(sched, lambda: compute(blob, R(args[0][0]).round(9).tobytes() + str(args[0][3]).encode()), u['mode'])
            inflight.append(t)
            running = sum(1 for x in inflight if not x.done)
            rec.require(running <= u['pool'], 'more tasks in flight than the pool size', running=running)
            return t
        got = rec.call(f, i, p, j, q, lat_opt_par=lat_opt_par, poolsize=u['pool'], **kw)
        rec.ctx = dict(u, schedule=sched.taken)
        rec.require(same_sols(ref, sol_key(got, G1, G2, dim), u['nsol']), 'this completion order changes the solutions', got=[s['d'] for s in got], serial=[s['d'] for s in serial])
        ds = [s['d'] for s in got]
        rec.require(all(a <= b + 1e-12 for a, b in zip(ds, ds[1:])), 'this completion order leaves the solutions unsorted', got=ds)
        if n % 10 == 0:
            for s in got:
                check_record(rec, s, i, p, j, q, dim, 'Cauchy', 'hnf')
        for k in range(len(sched.taken) + 1):
            rec.state((u['pool'], tuple(sched.taken[:k])))
        rec.trace(sample=dict(pool=u['pool'], schedule=sched.taken), outcome=tuple(sched.taken))
        n += 1
        prefix = sched.next_prefix()


register('C16', dict(quick='4 transformations, pool sizes 1-3, every completion order with at most 2 (pool of 2: 3) delayed polls, results computed on submission or on collection; parallel reduction for 1-3 workers',
                     thorough='7 transformations (one 3D), pool sizes 1-4, at most 5 delayed polls'), c16_units, c16_explore,
         ['workers are modelled as pickled calls of the real task function, completed in every order', 'polls of unfinished tasks are delayed a bounded number of times'])


# -------------------------------------------------------------------------- C17
def fresh(fn):
    """the result of fn in a process that has done nothing else"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, 'wb') as f:
                try:
                    f.write(pickle.dumps(('ok', fn())))
                except BaseException as e:
                    f.write(pickle.dumps(('error', '%s: %s' % (type(e).__name__, e))))
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def ops17():
    hnf, direct = mod('').lat_cor_hnf, mod('').lat_cor_direct
    lo = opt('marttrans.lat_cor.lat_opt', 'lat_opt')

    def sols(s):
        return [(round(float(x['d']), 7)) for x in s]

    def opt3(**kw):
        r = lo(np.diag([1., 1.1, 1.2]), np.diag([1.15, 1., 1.25]), disp=0, miniter=1, maxiter=1, **kw)
        return [round(float(x), 7) for x in r['dopt']]

    def skew2(**kw):
        t = math.radians(20)
        F = np.array([[1., 2.3 * math.cos(t)], [0., 2.3 * math.sin(t)]])
        r = lo(np.eye(2), F / math.sqrt(la.det(F)) * 1.03, disp=0, **kw)
        return [round(float(x), 7) for x in r['dopt']]

    def dir2(*a, **k):
        with scripted('ascending'):
            return sols(direct(*a, dim=2, disp=0, **k))
    return [
        ('hnf 2D one solution', lambda: sols(hnf(1, [1.], 5, [1.5, 2., 100.], dim=2, disp=0))),
        ('hnf 2D four solutions, strain', lambda: sols(hnf(2, [1., 1.5], 3, [2., 3.1], dim=2, disp=0, nsol=4, dist='strain'))),
        ('hnf 2D Ericksen, shallow', lambda: sols(hnf(4, [1.], 1, [1.3], dim=2, disp=0, nsol=2, dist='Ericksen', maxiter=1, miniter=1))),
        ('hnf 3D shallow', lambda: sols(hnf(1, [1.], 6, [1.05, 1.1], disp=0, nsol=2, maxiter=1, miniter=1))),
        ('hnf 3D strain, sublattices of index 2', lambda: sols(hnf(2, [2.], 6, [1.4, 2.2], disp=0, nsol=1, dist='strain', maxiter=1, miniter=1))),
        ('direct 2D', lambda: dir2(1, [1.], 2, [1., 1.1])),
        ('direct 2D three solutions', lambda: dir2(3, [1., 1.5], 1, [1.], nsol=3)),
        ('descent 3D', lambda: opt3()),
        ('descent 3D three solutions', lambda: opt3(nsol=3, dist='Ericksen')),
        ('sublattice search, default depth', lambda: skew2(nsol=2)),
        ('sublattice search, deep', lambda: skew2(nsol=2, miniter=8, maxiter=9)),
        ('sublattice search, shallow, strain', lambda: skew2(nsol=4, miniter=0, maxiter=1, dist='strain')),
        ('groups', lambda: [mod('').BravaisLattice(i, P3[i]).lattice_group().order() for i in P3]),
    ]


def c17_units(tier):
    n = 13
    if tier == 'quick':
        return [dict(first=a, depth=2) for a in range(n)]
    return [dict(first=a, second=b, depth=3) for a in range(n) for b in range(n)]


def c17_explore(rec, u):
    if opt('marttrans.lat_cor.lat_opt', 'lat_opt') is None:
        rec.skip('lat_opt.lat_opt')
        return
    ops = ops17()
    rec.ctx = 'references'
    ref = {}
    for k, (nm, fn) in enumerate(ops):
        s, v = fresh(fn)
        rec.require(s == 'ok', 'alone, "%s" fails: %s' % (nm, v))
        ref[k] = v
    n = len(ops)
    if u['depth'] == 2:
        seqs = [(u['first'], b) for b in range(n)] + [(u['first'], u['first'], u['first'])]
    else:
        seqs = [(u['first'], u['second'], c) for c in range(n)]
    for seq in seqs:
        hist = []
        for k in seq:
            # all in this one process: the history grows over the whole shard
            rec.ctx = dict(history=[ops[x][0] for x in hist], call=ops[k][0])
            got = rec.call(ops[k][1])
            rec.require(_close(got, ref[k]), 'the answer depends on what was computed before', got=got, alone=ref[k])
            hist.append(k)
            rec.state(tuple(hist))
        rec.trace(sample=rec.ctx, outcome=tuple(seq))


def _close(a, b):
    return len(a) == len(b) and all(abs(x - y) <= 1e-6 * (1 + abs(y)) for x, y in zip(a, b))


register('C17', dict(quick='13 computations (both solvers, 2D and 3D, three distances): all ordered pairs, and every computation three times', thorough='all ordered triples'),
         c17_units, c17_explore, ['every computation is compared with its own result in a fresh process'])


# -------------------------------------------------------------------------- C18
def transvections(n):
    out = []
    for i in range(n):
        for j in range(n):
            if i != j:
                for s in (1, -1):
                    T = np.eye(n, dtype=int)
                    T[i, j] = s
                    out.append(T)
    return out


def ball(n, depth, L0=None):
    seen = {tup(np.eye(n, dtype=int) if L0 is None else L0)}
    frontier = list(seen)
    T = transvections(n)
    for _ in range(depth):
        nxt = set()
        for m in frontier:
            for t in T:
                k = tup(R(m).dot(t))
                if k not in seen:
                    nxt.add(k)
        seen |= nxt
        frontier = list(nxt)
    return seen


def c18_units(tier):
    q = tier == 'quick'
    us = []
    for dim, depth in ((2, 5), (3, 3)) if q else ((2, 9), (3, 4)):
        us.append(dict(kind='tree', dim=dim, depth=depth))
    for pr in D2PAIRS:
        us.append(dict(kind='descent', dim=2, pair=list(pr), depth=3 if q else 5))
    for pr in D3PAIRS:
        us.append(dict(kind='descent', dim=3, pair=list(pr), depth=1 if q else 2))
    for dim, pairs in ((2, D2PAIRS), (3, D3PAIRS[::4] if q else D3PAIRS)):
        for pr in pairs:
            us.append(dict(kind='descent', dim=dim, pair=list(pr), depth=0, far=60 if q else 200))
    for pr in D2PAIRS:
        us.append(dict(kind='opt', dim=2, pair=list(pr)))
    for pr in D3PAIRS[::3] if q else D3PAIRS:
        us.append(dict(kind='opt', dim=3, pair=list(pr)))
    us.sort(key=lambda x: 0 if x['kind'] == 'opt' and x['dim'] == 3 else 1)
    return us


def c18_explore(rec, u):
    SLNode, dfs, lo = opt('marttrans.lat_cor.slnode', 'SLNode'), opt('marttrans.lat_cor.dfs', 'dfs'), opt('marttrans.lat_cor.lat_opt', 'lat_opt')
    if u['kind'] == 'opt':
        # the search for one sublattice: at least as good as everything within two (2D: three) elementary steps
        # of what it returns, and independent of the basis the lattices are given in
        if lo is None:
            rec.skip('lat_opt.lat_opt')
            return
        dim, (i, j) = u['dim'], u['pair']
        PP = P3 if dim == 3 else P2
        E1, E2 = base(i, PP[i], dim), base(j, PP[j], dim)
        E1 = E1 * (abs(la.det(E2)) / abs(la.det(E1))) ** (1. / dim)
        words = [np.eye(dim, dtype=int)] + ([transvections(dim)[0].dot(transvections(dim)[0]).dot(transvections(dim)[-1])] if dim == 2 else [])
        for dist in ('Cauchy', 'Ericksen', 'strain') if dim == 2 else ('Cauchy',):
            best = []
            for W in words:
                F1 = E1.dot(W)
                rec.ctx = dict(dim=dim, pair=(i, j), dist=dist, basis=W.tolist())
                keep1, keep2 = F1.copy(), E2.copy()
                r = rec.call(lo, F1, E2, nsol=1, dist=dist, disp=0)
                rec.require(np.array_equal(keep1, F1) and np.array_equal(keep2, E2), 'the bases were changed')
                L, d = R(r['lopt'][0]), float(r['dopt'][0])
                rec.require(abs(O.idet(tup(L))) == 1, 'not a change of basis', L=L)
                rec.require(abs(O.corr_dist(L, F1, E2, dist) - d) <= 1e-8 * (1 + d), 'the stated distance is another', got=d)
                around = R(sorted(ball(dim, 3 if dim == 2 else 2, L)))
                dd = O.corr_dist(around, F1, E2, dist)
                rec.require(dd.min() >= d - 1e-8 * (1 + d), 'a neighbour is better', got=d, better=around[int(dd.argmin())], its=dd.min())
                best.append(d)
                rec.state((dist, tup(W)))
                rec.trace(sample=rec.ctx, outcome=round(d, 6))
            rec.require(max(best) - min(best) <= 1e-7 * (1 + best[0]), 'the result depends on the basis of the parent lattice', best=best)
        return
    if SLNode is None or dfs is None:
        rec.skip('slnode.SLNode / dfs.dfs')
        return
    dim = u['dim']
    if not hasattr(SLNode, 'dim'):
        rec.skip('SLNode.dim')
        return
    SLNode.dim = dim
    if u['kind'] == 'tree':
        for start in (np.eye(dim, dtype=int), R(sorted(ball(dim, 2))[-1])):
            root = rec.call(SLNode, start, {'dist': lambda x: 0., 'lg1': [np.eye(dim, dtype=int)], 'lg2': [np.eye(dim, dtype=int)]})
            reached = {tup(start)}
            level = [root]
            for k in range(1, u['depth'] + 1):
                nxt = []
                for node in level:
                    rec.ctx = dict(dim=dim, depth=k, node=R(node.elem).tolist())
                    for gen, elem in rec.call(lambda: list(node.children)):
                        rec.require(abs(O.idet(tup(elem))) == 1, 'a child is not unimodular', child=elem)
                        # every path: no sharing of nodes, so that pruning is judged by itself
                        reached.add(tup(elem))
                        if k < u['depth']:
                            nxt.append(rec.call(SLNode, elem, root.cache, parent=gen, grandpa=node.parent))
                level = nxt
                want = ball(dim, k, start)
                missing = want - reached
                rec.require(not missing, 'unimodular matrices %d steps away are not reached' % k, missing=sorted(missing)[:2], n=len(missing))
                rec.require(not reached - want, 'matrices further away are reached', extra=sorted(reached - want)[:2])
                for m in want:
                    rec.state((tup(start), m))
                rec.trace(sample=dict(dim=dim, depth=k, reached=len(reached)), outcome=len(reached))
        return
    i, j = u['pair']
    PP = P3 if dim == 3 else P2
    E1, E2 = base(i, PP[i], dim), base(j, PP[j], dim)
    for dist in ('Cauchy', 'Ericksen', 'strain'):
        cache = {'dist': lambda x: float(O.corr_dist(R(x), E1, E2, dist)), 'lg1': [np.eye(dim, dtype=int)], 'lg2': [np.eye(dim, dtype=int)]}
        shared = {'counter': 0}
        T = transvections(dim)
        starts = sorted(ball(dim, u['depth']))
        if 'far' in u:                       # many steps away from the minimum, along every elementary direction
            starts = [tup(la.matrix_power(t, n)) for t in T for n in (5, 24, 31, u['far'])]
            if dim == 2:
                starts += [tup(la.matrix_power(T[0], a).dot(la.matrix_power(T[-1], b))) for a in (7, 20) for b in (9, 21)]
        for n, k in enumerate(starts):
            L0 = R(k)
            rec.ctx = dict(dim=dim, pair=(i, j), dist=dist, start=k)
            node = rec.call(SLNode, L0, cache)
            for c in (shared, None):
                if c is None and n % 5:
                    continue
                m = rec.call(dfs, node, c) if c is not None else rec.call(dfs, node)
                L, d = R(m.elem), float(m.elem_dist)
                rec.require(abs(O.idet(tup(L))) == 1, 'the local minimum is not a change of basis', L=L)
                rec.require(abs(d - O.corr_dist(L, E1, E2, dist)) < 1e-8 * (1 + d), 'the local minimum states another distance', L=L)
                rec.require(d <= O.corr_dist(L0, E1, E2, dist) + 1e-9 * (1 + d), 'the descent went up', L=L)
                dd = O.corr_dist(R([L.dot(t) for t in T]), E1, E2, dist)
                rec.require(dd.min() >= d - 1e-8 * (1 + d), 'the descent stopped at a point with a better neighbour', L=L, d=d, better=dd.min())
                rec.require(np.array_equal(L0, R(k)), 'the start was changed')
                rec.trace(sample=rec.ctx, outcome=(dist, tup(L)))
            rec.state((dist, k))


register('C18', dict(quick='tree of unimodular matrices: all paths to depth 5 (2D) and 3 (3D); descent from every matrix within 3 (2D) / 1 (3D) elementary steps and from up to 60 steps along every direction, 15 lattice pairs, 3 distances; sublattice search on 9 pairs',
                     thorough='depth 9 / 4; descent from 5 / 2 steps; 15 pairs'), c18_units, c18_explore, [])


# -------------------------------------------------------------------------- C36
def c36_units(tier):
    q = tier == 'quick'
    us = []
    for i, j in itertools.product(DP2, DP2):
        us.append(dict(solver='hnf', dim=2, case=[i, DP2[i][0], j, DP2[j][-1]], nsols=[1, 2] if q else [1, 2, 4], dists=['Cauchy', 'strain', 'Ericksen']))
    for c in ((1, [1.], 5, [1.5, 2., 100.]), (2, [1., 1.5], 5, [2., 2.4, 80.])):
        us.append(dict(solver='hnf', dim=2, case=list(c), nsols=[4, 5, 12], dists=['Cauchy']))
    for i, j in list(itertools.product(DP2, DP2))[::2 if q else 1]:
        us.append(dict(solver='direct', dim=2, case=[i, DP2[i][0], j, DP2[j][1]], nsols=[1, 2] if q else [1, 2, 4], dists=['Cauchy']))
    for c in HNF3[2:4] if q else HNF3[:8]:
        us.append(dict(solver='hnf', dim=3, case=list(c[:4]), nsols=[1], dists=[c[4]]))
    for c in ((1, [1.], 8, [1.0001, 1.0004, 1.0007]), (1, [1.], 14, [1., 1.0003, 1.0007, 90.02, 90.03, 89.98]), (2, [2.], 10, [2.002, 2.003, 1.997])):
        us.append(dict(solver='hnf', dim=3, case=list(c), nsols=[1], dists=['Cauchy']))
    for c in ((1, [1.], 2, [1.0001, 1.0003]), (1, [1.], 2, [.28, 1.6]), (1, [1.], 2, [1., 1.000004]), (1, [1000.], 2, [1001., 1500.])):
        us.append(dict(solver='hnf', dim=2, case=list(c), nsols=[1, 2], dists=['Cauchy', 'strain']))
        us.append(dict(solver='direct', dim=2, case=list(c), nsols=[1], dists=['Cauchy']))
    us.sort(key=lambda x: -x['dim'])
    return us


NUM = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?'


def read_report(text, dim):
    """the solutions a report states"""
    import re
    out = []
    parts = re.split(r'Solution\s+(\d+)\s+out of\s+(\d+)', text)
    for k in range(1, len(parts), 3):
        body = parts[k + 2]
        rows = re.findall(r'\[([^\]]*)\]\s*==>\s*\[([^\]]*)\]', body)
        nums = lambda s: [float(x) for x in re.findall(NUM, s)]
        d = dict(n=int(parts[k]), cor=[nums(a) for a, b in rows], of=[nums(b) for a, b in rows])
        for nm, key in (('U', 'u'), ('H', 'h')):
            m = re.search(r'\b' + nm + r'\s*=\s*((?:\[[^\]]*\]\s*){%d})' % dim, body)
            d[key] = [nums(r) for r in re.findall(r'\[([^\]]*)\]', m.group(1))] if m else None
        d['lams'] = [float(x) for x in re.findall(r'lambda_\d+\s*=\s*(%s)' % NUM, body)]
        m = re.search(r'dist\s*=\s*(%s)' % NUM, body)
        d['d'] = float(m.group(1)) if m else None
        out.append(d)
    return out


def same_report(rec, got, sols, dim, what):
    rec.require(len(got) == len(sols), what + ' does not state every solution once', stated=len(got), returned=len(sols))
    for k, (g, s) in enumerate(zip(got, sols)):
        rec.require(g['n'] == k + 1, what + ' numbers the solutions wrongly', got=g['n'])
        # one line per conventional martensite vector: its austenite indices ==> its martensite indices
        C = R(s['cor'])
        rec.require(len(g['cor']) == dim and all(len(r) == dim for r in g['cor'] + g['of']), what + ': lattice correspondence incomplete', got=g['cor'])
        for v, w in zip(g['cor'], g['of']):
            rec.require(np.all(np.abs(C.dot(R(w)) - R(v)) <= .00501), what + ' states another lattice correspondence', got=g['cor'], want=C)
        rec.require(sorted(g['of'], reverse=True) == np.eye(dim).tolist(), what + ' does not state each martensite vector', got=g['of'])
        rec.require(g['u'] is not None and R(g['u']).shape == (dim, dim) and np.all(np.abs(R(g['u']) - R(s['u'])) <= 5.1e-7), what + ' states another stretch tensor', got=g['u'], want=s['u'])
        if 'h' in s:
            rec.require(g['h'] is not None and np.array_equal(R(g['h']), R(s['h'])), what + ' states another sublattice', got=g['h'], want=s['h'])
        rec.require(len(g['lams']) == dim and np.allclose(g['lams'], s['lams'], rtol=6e-6, atol=1e-9), what + ' states other eigen strains', got=g['lams'], want=s['lams'])
        rec.require(g['d'] is not None and abs(g['d'] - s['d']) <= 6e-6 * abs(s['d']) + 1e-12, what + ' states another distance', got=g['d'], want=s['d'])


def c36_explore(rec, u):
    import io
    import logging
    f = mod('').lat_cor_hnf if u['solver'] == 'hnf' else mod('').lat_cor_direct
    dim = u['dim']
    i, p, j, q = u['case']
    names = [str(mod('').BravaisLattice(*a, dim=dim)) for a in ((i, p), (j, q))]
    signed = all(np.abs(M).sum() == dim for M in O.automorphisms(base(j, q, dim)))
    log = []
    h = logging.Handler()
    h.emit = lambda r: log.append(r.getMessage())
    root = logging.getLogger()
    lib = logging.getLogger('structrans')
    level = lib.level
    off = root.manager.disable
    logging.disable(logging.NOTSET)
    root.addHandler(h)
    try:
        for dist, nsol in itertools.product(u['dists'], u['nsols']):
            if dist == 'Ericksen' and not signed:
                continue
            ref = None
            for disp, logged in ((0, False), (0, True), (1, False), (2, True), (3, False), (None, True)) if dim == 2 else ((0, False), (2, True)):
                rec.ctx = dict(u, dist=dist, nsol=nsol, disp=disp, logged=logged)
                lib.setLevel(logging.INFO if logged else logging.WARNING)
                del log[:]
                kw = dict(dim=dim, nsol=nsol)
                if u['solver'] == 'hnf':
                    kw['dist'] = dist
                if disp is not None:
                    kw['disp'] = disp
                out = io.StringIO()
                with scripted('seed'), contextlib.redirect_stdout(out):
                    sols = rec.call(f, i, p, j, q, **kw)
                text = out.getvalue()
                if disp == 0:
                    rec.require(not text.strip(), 'something is printed although nothing was asked for', text=text[:200])
                else:
                    same_report(rec, read_report(text, dim), sols, dim, 'the report')
                    for nm in names:
                        rec.require(nm in text, 'the report does not describe the lattices', lattice=nm)
                if logged:
                    same_report(rec, read_report('\n'.join(log), dim), sols, dim, 'the log')
                key = [(np.round(s['d'], 9), tup(R(s['l'])), np.round(s['cor'], 9).tolist(), np.round(s['u'], 9).tolist()) for s in sols]
                if ref is None:
                    ref = key
                rec.require(key == ref, 'the display level or logging changes the solutions', disp=disp)
                rec.state((dist, nsol, disp, logged))
                rec.trace(sample=rec.ctx, outcome=text.count('Solution'))
    finally:
        root.removeHandler(h)
        lib.setLevel(level)
        logging.disable(off)


register('C36', dict(quick='sublattice search on 25 2D type pairs x 3 distances x 2 numbers of solutions, up to 12 solutions on 2, direct search on 13, 2 3D transformations; six combinations of display level and logging',
                     thorough='all 25 pairs for both searches, up to 4 solutions; 8 3D transformations'), c36_units, c36_explore,
         ['a report is read by its labels; wording and layout beyond them are not decided'])


# -------------------------------------------------------------------------- C37
def c37_units(tier):
    q = tier == 'quick'
    us = []
    for i, j in itertools.product(DP2, DP2):
        for b in ([-1] if q else range(len(DP2[j]))):
            us.append(dict(dim=2, case=[i, DP2[i][0], j, DP2[j][b]], nsols=[1, 3], dists=['Cauchy', 'strain']))
    for m in SKEWED2[::3] if q else SKEWED2:
        us.append(dict(dim=2, case=[1, [1.], 5, list(m)], nsols=[2], dists=['Cauchy']))
    for c in ([1, [1.], 5, [1.1, 1.3, 80.]], [2, [1., 1.5], 2, [2., 2.5]], [3, [1., 1.5], 5, [1.5, 2., 100.]]):
        us.append(dict(dim=2, case=c, nsols=[6, 9], dists=['Cauchy', 'strain'][:1 if q else 2], deep=True))
    for c in HNF3[2:3] if q else HNF3[2:6]:
        us.append(dict(dim=3, case=list(c[:4]), nsols=[1], dists=[c[4]]))
    us.append(dict(dim=2, single=True))
    us.sort(key=lambda x: -x['dim'])
    return us


def c37_single(rec, u):
    """one sublattice: the list a shallow search returns is sorted, valid, and complete in its ties"""
    f = opt('marttrans.lat_cor.lat_opt', 'lat_opt')
    if f is None:
        rec.skip('lat_opt.lat_opt')
        return
    for a, b in itertools.product((-.5, 0., .25, .5, 1., 1.5), (.8, 1., 1.3)):
        E2 = np.array([[1. / b, a], [0., b]])
        for dist, nsol in itertools.product(('Cauchy', 'strain'), (1, 2, 3)):
            counts = {}
            for lo, hi in ((0, 1), (1, 1), (1, 2), (2, 2), (3, 3), (3, 5)):
                rec.ctx = dict(E2=E2.tolist(), dist=dist, nsol=nsol, miniter=lo, maxiter=hi)
                r = rec.call(f, np.eye(2), E2.copy(), nsol=nsol, dist=dist, disp=0, miniter=lo, maxiter=hi)
                ls, ds = [R(l) for l in r['lopt']], [float(x) for x in r['dopt']]
                rec.require(len(ls) == len(ds) >= 1, 'not one distance per correspondence', n=len(ls))
                rec.require(ds == sorted(ds), 'the solutions are not sorted by distance', ds=ds)
                for l, d in zip(ls, ds):
                    rec.require(abs(O.idet(tup(l))) == 1 and abs(O.corr_dist(l, np.eye(2), E2, dist) - d) <= 1e-7 * (1 + d), 'the stated distance is not the distance of the correspondence', l=l)
                for x in ds[nsol:]:
                    rec.require(abs(x - ds[nsol - 1]) <= 1e-6 * (1 + x), 'an extra solution does not tie with the last one', ds=ds)
                rec.state((a, b, dist, nsol, lo, hi))
                rec.trace(sample=rec.ctx, outcome=(len(ds), round(ds[0], 6)))
                # the same optimum however deep: then with the same ties (a single step may not reach them)
                if nsol > 1 or hi < 2:
                    continue
                key = tuple(round(x, 6) for x in ds[:nsol])
                counts.setdefault(key, {})[(lo, hi)] = len(ds)
            for key, c in counts.items():
                rec.require(len(set(c.values())) == 1, 'equally good solutions are kept or dropped depending on the depth', counts={str(k): v for k, v in c.items()}, ds=key)


def c37_explore(rec, u):
    if u.get('single'):
        return c37_single(rec, u)
    f = mod('').lat_cor_hnf
    dim = u['dim']
    i, p, j, q = u['case']
    E1, E2 = base(i, p, dim), base(j, q, dim)
    G1, G2 = special(O.automorphisms(E1)), special(O.automorphisms(E2))
    dets, clear = window(E1, E2)
    if not clear:
        return
    for dist, nsol in itertools.product(u['dists'], u['nsols']):
        want, _ = O.best_classes(E1, E2, nsol, dist, dets, G1, G2)
        for lo, hi in ((0, 3), (2, 3), (None, 3), (3, None), (4, 4), (3, 6)) if u.get('deep') else ((0, 0), (0, 1), (1, 1), (1, 2), (2, 2), (None, 3), (3, None), (4, 4), (3, 6)) if dim == 2 else ((0, 0), (1, 1), (1, 3)):
            rec.ctx = dict(case=u['case'], dim=dim, nsol=nsol, dist=dist, miniter=lo, maxiter=hi)
            kw = dict(dim=dim, nsol=nsol, disp=0, dist=dist)
            if lo is not None:
                kw['miniter'] = lo
            if hi is not None:
                kw['maxiter'] = hi
            sols = rec.call(f, i, p, j, q, **kw)
            deep = (lo is None or lo >= 3) and (hi is None or hi >= 3)
            rec.require(len(sols) >= 1, 'no solution')
            if hi is None or hi >= 3:
                rec.require(len(sols) >= nsol, 'fewer solutions than asked for', got=len(sols))
            if deep:
                check_list(rec, sols, E1, E2, dim, nsol, dist, want, G1, G2, complete=dim == 2 and nsol < 3 or (hi or 9) > 3)
            vs = [View(s, E1, E2, dim) for s in sols]
            orb = []
            for a, b in zip(vs, vs[1:]):
                rec.require(a.d <= b.d + 1e-9 * (1 + b.d), 'the solutions are not sorted by distance')
            for v in vs:
                rec.require(v.d >= want[0] - 1e-6 * (1 + want[0]), 'a distance below the optimum', got=v.d, want=want[0])
                rec.require(abs(O.corr_dist(v.L, E1, E2, dist) - v.d) <= 1e-7 * (1 + v.d), 'the stated distance is not the distance of the correspondence', L=v.L)
                rec.require(O.idet(v.L.tolist()) in dets, 'a sublattice of a size outside the volume threshold', L=v.L)
                k = tuple(v.L.reshape(-1).tolist())
                rec.require(not any(k in o for o in orb), 'two solutions are equivalent by symmetry', L=v.L)
                orb.append(O.orbit(v.L, R(G1), R(G2)))
            for v in vs[nsol:]:
                rec.require(v.d <= vs[nsol - 1].d + 1e-9 * (1 + v.d), 'an extra solution does not tie with the last one')
            rec.state((dist, nsol, lo, hi))
            rec.trace(sample=rec.ctx, outcome=(len(vs), round(vs[0].d, 6)))


register('C37', dict(quick='25 2D type pairs x 2 distances x 1 and 3 solutions, 3 skewed cells, one 3D transformation; 9 (3D: 3) combinations of the depth options',
                     thorough='all martensite parameters, 9 skewed cells, 4 3D transformations'), c37_units, c37_explore,
         ['below the default depth only the validity of the list is claimed, not that it is optimal'])
