"""C01 sublattice enumeration, C02 Hermite decomposition, C03 symmetry-reduced sublattices"""
import itertools
import multiprocessing

import numpy as np
import numpy.linalg as la

from . import oracle as O
from .core import register, mod, opt, shard

MODS = ('crystallography.hnf', 'crystallography.sublattice')


def tup(M):
    return tuple(tuple(int(x) for x in r) for r in np.array(M).tolist())


def exact_int(A):
    return all(x == int(x) for x in np.array(A).ravel().tolist())


# -------------------------------------------------------------------------- C01
def c01_units(tier):
    lim = {1: 60, 2: 150, 3: 48, 4: 12, 5: 6} if tier == 'quick' else {1: 400, 2: 300, 3: 60, 4: 18, 5: 8, 6: 4}
    us = []
    extra = {2: [360, 720, 1024], 3: [60, 64, 72, 96, 100, 128]} if tier == 'quick' else {1: [1000, 4096], 2: [720, 1024, 1260, 2310], 3: [64, 72, 96, 100, 128, 144, 210, 256], 4: [24, 32, 36]}
    for N, top in lim.items():
        ns = [n for n in range(1, top + 1)] + extra.get(N, [])
        big = sorted(ns, key=lambda n: -O.count_hnf(n, N))
        for s in shard(big, 4 if N in (3, 4) else 2):
            us.append(dict(kind='det', N=N, ns=s))
    dl = {2: 7, 3: 4, 4: 2} if tier == 'quick' else {2: 12, 3: 6, 4: 3}
    for N, top in dl.items():
        us.append(dict(kind='diag', N=N, top=top))
    us.append(dict(kind='divisors', top=3000 if tier == 'quick' else 30000))
    us.append(dict(kind='misc'))
    us.sort(key=lambda u: 0 if u['kind'] == 'det' and u['N'] in (3, 4) else 1)
    return us


def c01_check_set(rec, got, want, what):
    got = np.array(got)
    rec.require(got.ndim == 3, what + ': result is not a list of matrices', shape=got.shape)
    rec.require(exact_int(got), what + ': non-integer entries', got=got[:3])
    gs = [tup(h) for h in got]
    rec.require(len(set(gs)) == len(gs), what + ': a sublattice is listed twice', n=len(gs), distinct=len(set(gs)))
    missing = want - set(gs)
    extra = set(gs) - want
    rec.require(not missing, what + ': a sublattice is missing', missing=sorted(missing)[:3], nmissing=len(missing))
    rec.require(not extra, what + ': a matrix that is not a normal form of this index', extra=sorted(extra)[:3])


def c01_explore(rec, u):
    if u['kind'] == 'det':
        N = u['N']
        for n in u['ns']:
            want = O.all_hnf(n, N)
            assert len(want) == O.count_hnf(n, N)
            for m in MODS:
                f = opt(m, 'hnf_from_det')
                if f is None:
                    rec.skip(m + '.hnf_from_det')
                    continue
                rec.ctx = (m, n, N)
                got = rec.call(f, n, N)
                c01_check_set(rec, got, want, 'index %d, dimension %d' % (n, N))
                rec.state((m, n, N))
                rec.trace(sample=dict(n=n, N=N, count=len(got)), outcome=len(got))
                if n <= 6:
                    # the answer belongs to the caller: spoil it and ask again, in other forms
                    got[:] = 77
                    for form in (np.int64(n), np.int32(n)):
                        c01_check_set(rec, rec.call(f, form, N), want, 'index %d again' % n)
                        rec.trace()
                    if N == 3:
                        c01_check_set(rec, rec.call(f, n), want, 'default dimension')
                        c01_check_set(rec, rec.call(mod('crystallography').HermiteNormalForms, n), want, 'package name')
                        rec.trace()
    elif u['kind'] == 'diag':
        for dg in itertools.product(range(1, u['top'] + 1), repeat=u['N']):
            want = O.hnf_of_diag(dg)
            for m in MODS:
                f = opt(m, 'hnf_from_diag')
                if f is None:
                    rec.skip(m + '.hnf_from_diag')
                    continue
                for form in (list(dg), tuple(dg), np.array(dg)):
                    rec.ctx = (m, dg)
                    c01_check_set(rec, rec.call(f, form), want, 'diagonal %s' % (dg,))
                    rec.trace(sample=dict(diag=dg), outcome=len(want))
                rec.state((m, dg))
    elif u['kind'] == 'divisors':
        f = mod('util').divisors
        for n in range(1, u['top'] + 1):
            rec.ctx = n
            got = rec.call(f, n)
            want = [d for d in range(1, int(n ** .5) + 1) if n % d == 0]
            want = sorted(set(want + [n // d for d in want]))
            rec.require(len(got) == len(set(got)) and sorted(int(g) for g in got) == want, 'divisors of %d' % n, got=got, want=want)
            rec.state(n)
            rec.trace(sample=dict(n=n, divisors=got), outcome=len(got))
    else:
        for m in MODS:
            f = opt(m, 'hnf_from_det')
            if f is None:
                continue
            for n in (-1, -2, -24):
                for N in (1, 2, 3):
                    rec.ctx = (m, n, N)
                    rec.refuses(ValueError, f, n, N)
                    rec.state((m, n, N))
                    rec.trace()


register('C01', dict(quick='every index up to 150/48/12/6 in dimension 2/3/4/5, every diagonal up to 7/4/2 in dimension '
                           '2/3/4, divisors of 1..3000',
                     thorough='every index up to 300/60/18/8/4 in dimension 2..6, every diagonal up to 12/6/3, divisors of 1..30000'),
         c01_units, c01_explore,
         ['reference: direct enumeration of all reduced lower triangular integer matrices, cross-checked with the Dirichlet count'])


# -------------------------------------------------------------------------- C02
FORMS = {
    'int64': lambda M: np.array(M),
    'list': lambda M: [list(r) for r in M],
    'tuple': lambda M: tuple(tuple(r) for r in M),
    'float': lambda M: np.array(M, dtype=float),
    'fortran': lambda M: np.asfortranarray(np.array(M)),
    'transposed view': lambda M: np.array(M).T.copy().T,
    'strided view': lambda M: np.repeat(np.repeat(np.array(M), 2, 0), 2, 1)[::2, ::2],
}


def c02_one(rec, f, M, want=None, forms=('int64',), onlyH=True):
    M = tup(M)
    want = want or O.column_hnf(M)
    for form in forms:
        X = FORMS[form](M)
        keep = np.array(X)
        rec.ctx = dict(M=M, form=form)
        H, L = rec.call(f, X)
        rec.require(np.array_equal(keep, np.array(X)), 'the input matrix was changed')
        rec.require(exact_int(H) and exact_int(L), 'H or L is not integer', H=H, L=L)
        H, L = tup(H), tup(L)
        rec.require(O.is_hnf(H), 'H is not in Hermite normal form', H=H)
        rec.require(H == want, 'H is not the normal form of the lattice spanned by M', H=H, want=want)
        rec.require(O.imul(H, L) == M, 'H L differs from M', H=H, L=L)
        rec.require(abs(O.idet(L)) == 1, 'L is not unimodular', L=L)
        if onlyH:
            H2 = tup(rec.call(f, X, onlyH=True))
            rec.require(H2 == H, 'onlyH gives another H', H=H, H2=H2)
        rec.trace(sample=dict(M=M, H=H, L=L), outcome=H)
    rec.state(M)


def elementary(n):
    """column operations: generators of GL(n, Z) acting on the right"""
    out = []
    E = np.eye(n, dtype=int)
    for i in range(n):
        for j in range(n):
            if i != j:
                for s in (1, -1):
                    T = E.copy()
                    T[i, j] = s
                    out.append(T)
    for i in range(n):
        T = E.copy()
        T[i, i] = -1
        out.append(T)
        if i + 1 < n:
            T = E.copy()
            T[:, [i, i + 1]] = T[:, [i + 1, i]]
            out.append(T)
    return out


def c02_units(tier):
    q = tier == 'quick'
    us = []
    for m in MODS:
        us.append(dict(mod=m, kind='box', n=1, vals=list(range(-9, 10)), lead=None, forms=list(FORMS)))
        for lead in range(-4, 5):
            us.append(dict(mod=m, kind='box', n=2, vals=list(range(-4, 5)) if q else list(range(-9, 10)), lead=lead, forms=['int64', 'float']))
        for lead in (-1, 0, 1) if q else (-2, -1, 0, 1, 2):
            us.append(dict(mod=m, kind='box', n=3, vals=[-1, 0, 1] if q else [-2, -1, 0, 1, 2], lead=lead, forms=['int64']))
        us.append(dict(mod=m, kind='box', n=2, vals=[-1000, -37, 0, 1, 12, 999], lead=None, forms=list(FORMS)))
        for lead in (-997, 3, 1000):
            us.append(dict(mod=m, kind='box', n=3, vals=[-997, 3, 1000], lead=lead, forms=['int64']))
        us.append(dict(mod=m, kind='box', n=2, vals=[-40000, 0, 1, 32768, 70001, 100000], lead=None, forms=list(FORMS)))
        us.append(dict(mod=m, kind='shear', n=3, ks=[127, 128, 32767, 32768, 65536, 100003] if q else [2 ** e + d for e in range(6, 21) for d in (-1, 0, 1)]))
        us.append(dict(mod=m, kind='forms', n=3))
        for n in range(2, 9):
            us.append(dict(mod=m, kind='large', n=n, primes=[7, 11, 101, 10007, 1000003, 2147483647], grid=(1, 3, 8) if q else (1, 2, 3, 5, 8, 13)))
        for N, det, depth in ((2, 8, 4), (3, 5, 2), (4, 2, 2), (5, 1, 1)) if q else ((2, 16, 6), (3, 8, 3), (4, 4, 2), (5, 2, 2)):
            hs = sorted(h for n in range(1, det + 1) for h in O.all_hnf(n, N))
            for s in shard(range(len(hs)), 3 if q else 24):
                us.append(dict(mod=m, kind='cayley', n=N, det=det, depth=depth, idx=s))
    us.sort(key=lambda u: 0 if u['n'] >= 3 else 1)
    return us


def c02_explore(rec, u):
    f = opt(u['mod'], 'hnfd')
    if f is None:
        rec.skip(u['mod'] + '.hnfd')
        return
    if u['mod'] == MODS[0]:
        f = mod('crystallography').HNFDecomposition
    n = u['n']
    if u['kind'] == 'box':
        first = u['vals'] if u['lead'] is None else [u['lead']]
        for a in first:
            for rest in itertools.product(u['vals'], repeat=n * n - 1):
                v = (a,) + rest
                M = tuple(v[i * n:(i + 1) * n] for i in range(n))
                if O.idet(M) != 0:
                    c02_one(rec, f, M, forms=u['forms'], onlyH=(n < 3 or v[1] != 0))
    elif u['kind'] == 'shear':
        # a normal form times one large elementary column operation
        for H in sorted(h for d in range(1, 4) for h in O.all_hnf(d, n)):
            for k in u['ks']:
                for i, j in itertools.permutations(range(n), 2):
                    for s in (k, -k):
                        T = np.eye(n, dtype=int)
                        T[i, j] = s
                        c02_one(rec, f, np.array(H).dot(T), want=H)
    elif u['kind'] == 'large':
        # residues of quadratic polynomials of the position: dense matrices with entries of every size
        for p in u['primes']:
            for a, b, c in itertools.product(u['grid'], repeat=3):
                M = tuple(tuple((a * i * i * i + b * j * j + (c + 7) * i * j + (i + j) * (i + 2 * j) ** 4 + c) * (p // 3 + 1) % p - p // 2 for j in range(n)) for i in range(n))
                if O.idet(M):
                    c02_one(rec, f, M, forms=('int64', 'list') if n < 4 else ('int64',), onlyH=a == 1)
    elif u['kind'] == 'forms':
        for v in itertools.product((-3, 0, 2), repeat=6):
            M = ((5,) + v[:2], (v[2], 4, v[3]), (v[4], v[5], -6))
            if O.idet(M):
                c02_one(rec, f, M, forms=list(FORMS))
    else:
        gens = elementary(n)
        hs = sorted(h for d in range(1, u['det'] + 1) for h in O.all_hnf(d, n))
        for k in u['idx']:
            H = hs[k]
            seen = {H}
            frontier = [np.array(H)]
            for depth in range(u['depth'] + 1):
                nxt = []
                for M in frontier:
                    c02_one(rec, f, M, want=H, onlyH=(depth % 2 == 0))
                    if depth < u['depth']:
                        for T in gens:
                            X = M.dot(T)
                            if tup(X) not in seen:
                                seen.add(tup(X))
                                nxt.append(X)
                frontier = nxt


register('C02', dict(quick='all nonsingular 2x2 with entries -4..4, from {-1000,-37,0,1,12,999} and from {-40000,0,1,32768,70001,100000}; every 3x3 normal form of index <= 3 times every shear by up to 100003; all nonsingular 3x3 over {-1,0,1} '
                           'and {-997,3,1000}; Cayley graph of GL(n,Z) to depth 4/2/2/1 from every normal form of index <= 8/5/2/1 in dimension 2..5; dense matrices of dimension 2..8 with entries up to 7, 11, 101, 10^4, 10^6 and 2^31',
                     thorough='2x2 -9..9, 3x3 -2..2, Cayley graph depth 6/3/2/2 from every normal form of index <= 16/8/4/2'),
         c02_units, c02_explore,
         ['reference: exact integer arithmetic; inputs stored as floating point numbers up to 2^53'])


# -------------------------------------------------------------------------- C03
class Done(object):
    """an asynchronous result that is ready"""

    def __init__(self, v):
        self.v = v

    def ready(self):
        return True

    def get(self):
        return self.v


P3 = {1: [2.], 2: [2.], 3: [2.], 4: [1., 1.7], 5: [1.3, 80.], 6: [1., 1.7], 7: [1., 1.7], 8: [1., 1.3, 1.9], 9: [1., 1.3, 1.9],
      10: [1., 1.3, 1.9], 11: [1., 1.3, 1.9], 12: [1., 1.3, 1.9, 80.], 13: [1., 1.3, 1.9, 80.], 14: [1., 1.3, 1.9, 80., 95., 103.]}
P2 = {1: [1.2], 2: [1., 1.7], 3: [1., 1.7], 4: [1.3], 5: [1., 1.3, 80.]}


def visited_sublattices(rec, E, latid, p, dim, r, vol_th=None, par=None):
    """indices (normal forms) of the austenite sublattices the search visits, in order"""
    vol = abs(la.det(E))
    a = (r * vol) ** (1. / dim)
    got = []

    def lat_opt_par(args):
        args = list(args)
        a0 = args[0]
        h = la.inv(E).dot(np.array(a0[0], dtype=float))
        rec.require(np.allclose(h, np.rint(h), atol=1e-6), 'the search visits something that is not a sublattice', h=h)
        got.append(tup(np.rint(h)))
        return Done((a0[3], {'lopt': [], 'dopt': []}))
    kw = dict(dim=dim, disp=0, lat_opt_par=lat_opt_par, nsol=1)
    if vol_th is not None:
        kw['vol_th'] = vol_th
    if par is not None:
        kw['reduce_hnfs_par'] = par
    sols = rec.call(mod('').lat_cor_hnf, latid, p, 1, [a], **kw)
    rec.require(len(sols) == 0, 'solutions out of nothing')
    return got


def classes(E, ns, dim):
    G = [tup(M) for M in O.automorphisms(E) if O.idet(M.tolist()) == 1]
    cl = {}
    for n in ns:
        for h in O.all_hnf(n, dim):
            if h in cl:
                continue
            orb = set(O.column_hnf(O.imul(g, h)) for g in G)
            for o in orb:
                cl[o] = h
    return cl


def check_classes(rec, got, cl, what):
    hit = {}
    for h in got:
        c = O.column_hnf(h)
        rec.require(c in cl, what + ': a sublattice of a wrong index is visited', h=h)
        r = cl[c]
        rec.require(r not in hit, what + ': two symmetry-related sublattices are both visited', h=h, other=hit.get(r))
        hit[r] = h
    rest = set(cl.values()) - set(hit)
    rec.require(not rest, what + ': a class of sublattices is never visited', missing=sorted(rest)[:3], nmissing=len(rest))


def c03_units(tier):
    us = []
    top3 = 7 if tier == 'quick' else 16
    for i in P3:
        us.append(dict(kind='search', dim=3, latid=i, ns=list(range(1, top3 + 1))))
    for i in P2:
        us.append(dict(kind='search', dim=2, latid=i, ns=list(range(1, 13 if tier == 'quick' else 31))))
    # a few large ones
    for i in P2:
        us.append(dict(kind='search', dim=2, latid=i, ns=[30, 60, 127, 128, 260, 300] + ([] if tier == 'quick' else [512, 720, 1030])))
    for i in (1, 13) if tier == 'quick' else P3:
        us.append(dict(kind='search', dim=3, latid=i, ns=[11, 16] + ([] if tier == 'quick' else [18, 24, 30])))
    for i in (1, 4, 7, 12):
        us.append(dict(kind='window', dim=3, latid=i, tier=tier))
    for i in P2:
        us.append(dict(kind='window', dim=2, latid=i, tier=tier))
    for i in (1, 3, 6, 14) if tier == 'quick' else P3:
        for cpus in (1, 2, 3):
            us.append(dict(kind='parallel', dim=3, latid=i, cpus=cpus, n=8))
    return us


def c03_explore(rec, u):
    dim, i = u['dim'], u['latid']
    p = (P3 if dim == 3 else P2)[i]
    lat = rec.call(mod('').BravaisLattice, i, p, dim=dim)
    E = np.array(lat.base(), dtype=float)
    if u['kind'] == 'search':
        red = opt('marttrans.lat_cor.main_hnf', 'reduce_hnfs')
        for n in u['ns']:
            cl = classes(E, [n], dim)
            rec.ctx = dict(latid=i, p=p, n=n)
            got = visited_sublattices(rec, E, i, p, dim, n * 1.001, vol_th=0.4 / n)
            check_classes(rec, got, cl, 'index %d' % n)
            rec.state((i, n))
            rec.trace(sample=dict(latid=i, n=n, classes=len(got)), outcome=len(got))
            if red is None:
                rec.skip('reduce_hnfs')
            elif n <= 6:
                # any order of the input list, any rotation of the group
                hs = [np.array(h) for h in sorted(cl)]
                lg = rec.call(lat.special_lattice_group).matrices()
                orders = [hs, hs[::-1]] + [hs[k:] + hs[:k] for k in range(1, len(hs), max(1, len(hs) // 5))]
                for o in orders:
                    for g in (lg, lg[::-1]):
                        r = rec.call(red, [o, g, lambda *a: None])
                        check_classes(rec, [tup(h) for h in r], cl, 'reordered list, index %d' % n)
                        rec.state((i, n, tuple(tup(h) for h in o), g is lg))
                        rec.trace(outcome=len(r))
    elif u['kind'] == 'window':
        ths = (0.02, 0.1, 0.25, 0.5, 0.7, 1, 1.2, 2.3)
        for r in (0.3, 0.55, 0.93, 1.0007, 1.37, 1.61, 2.04, 2.48, 2.9, 3.55, 4.21) + ((5.3, 7.1) if dim == 2 else ()):
            for th in ths:
                lo, hi = (1 - th) * r, (1 + th) * r
                if min(abs(lo - round(lo)) if lo > .5 else 1, abs(hi - round(hi)), abs(r % 1 - .5)) < 1e-6:
                    continue
                if hi > 6 and dim == 3 and u['tier'] == 'quick':
                    continue
                ns = [n for n in range(1, 40) if lo <= n <= hi] or [max(1, int(round(r)))]
                rec.ctx = dict(latid=i, p=p, r=r, vol_th=th)
                for t in ([th] if th != 0.1 else [th, None]):      # 0.1 is the default
                    got = visited_sublattices(rec, E, i, p, dim, r, vol_th=t)
                    check_classes(rec, got, classes(E, ns, dim), 'volume ratio %g, threshold %s' % (r, t))
                    rec.trace(sample=dict(latid=i, r=r, vol_th=t, indices=ns), outcome=(tuple(ns), len(got)))
                rec.state((i, r, th))
    else:
        red = opt('marttrans.lat_cor.main_hnf', 'reduce_hnfs')
        if red is None:
            rec.skip('reduce_hnfs (parallel)')
            return
        keep = multiprocessing.cpu_count
        multiprocessing.cpu_count = lambda: u['cpus']
        try:
            for n in (4, 6, u['n'], 12):
                serial = visited_sublattices(rec, E, i, p, dim, n * 1.001, vol_th=0.4 / n)
                cl = classes(E, [n], dim)
                for order in ('forward', 'backward'):
                    chunks = []

                    def par(args):
                        args = [tuple(a) for a in args]
                        chunks.append(len(args))
                        res = [list(red(a)) for a in args]
                        return res if order == 'forward' else res[::-1]
                    rec.ctx = dict(latid=i, n=n, cpus=u['cpus'], order=order)
                    got = visited_sublattices(rec, E, i, p, dim, n * 1.001, vol_th=0.4 / n, par=par)
                    check_classes(rec, got, cl, 'parallel reduction')
                    rec.require(len(got) == len(serial), 'parallel and serial reduction disagree')
                    rec.state((i, n, u['cpus'], order, tuple(chunks)))
                    rec.trace(sample=dict(latid=i, n=n, cpus=u['cpus'], chunks=chunks), outcome=(len(got), tuple(chunks)))
        finally:
            multiprocessing.cpu_count = keep


register('C03', dict(quick='14 + 5 Bravais types, every index up to 7 (3D) / 12 (2D), selected ones up to 16 / 300; 11-13 volume ratios x 5 thresholds; list orders; 1-3 workers',
                     thorough='indices up to 16 (3D) / 30 (2D), selected ones up to 30 / 1030, parallel reduction for all 14 types'),
         c03_units, c03_explore,
         ['generic lattice parameters in the standard orientation; symmetry by the rotations of the parent lattice, computed independently'])
