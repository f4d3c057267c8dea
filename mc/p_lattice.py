"""C04 lattice identity, C05 symmetry groups, C06 matrix groups, C07 Bravais geometry, C08 refusals, C09 Miller indices, C10 reduction"""
import itertools
import math

import numpy as np
import numpy.linalg as la

from . import oracle as O
from .core import register, mod, opt, shard
from .p_hnf import P2, P3, elementary, tup

R = np.array


def key(Q):
    return tuple(np.rint(R(Q, dtype=float) * 1e5).astype(int).reshape(-1).tolist())


def rot(axis, deg):
    """rotation matrix by Rodrigues' formula"""
    k = R(axis, dtype=float)
    k = k / math.sqrt(k.dot(k))
    t = math.radians(deg)
    K = R([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + math.sin(t) * K + (1 - math.cos(t)) * K.dot(K)


def rot2(deg):
    t = math.radians(deg)
    return R([[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]])


def unimodular_words(n, depth):
    """all products of at most depth elementary matrices, breadth first"""
    gens = elementary(n)
    seen = {tup(np.eye(n, dtype=int))}
    out = [np.eye(n, dtype=int)]
    frontier = list(out)
    for _ in range(depth):
        nxt = []
        for M in frontier:
            for T in gens:
                X = M.dot(T)
                if tup(X) not in seen:
                    seen.add(tup(X))
                    nxt.append(X)
        out += nxt
        frontier = nxt
    return out


# -------------------------------------------------------------------------- C04
BASES = {
    1: [R([[1.3]])],
    2: [R([[1., .3], [0., 1.2]]), R([[2.5, -1.1], [.4, .9]])],
    3: [np.eye(3), R([[1., .2, .1], [0., 1.1, -.3], [.1, 0., .9]]), .5 * R([[1., 0, 1], [1, 1, 0], [0, 1, 1]])],
    4: [R([[1., .2, .1, 0], [0., 1.1, -.3, .2], [.1, 0., .9, 0], [0, .3, 0, 1.2]])],
}


def c04_units(tier):
    us = []
    for n in BASES:
        for b in range(len(BASES[n])):
            for scale in (1., 1e-10, 4e3):
                us.append(dict(n=n, b=b, scale=scale, top=1 if tier == 'quick' else 2, kind='pairs'))
    for n, depth in ((2, 4), (3, 2), (4, 1)) if tier == 'quick' else ((2, 6), (3, 3), (4, 2)):
        for b in range(len(BASES[n])):
            us.append(dict(n=n, b=b, depth=depth, kind='words'))
    us.append(dict(kind='foreign'))
    for n in (2, 3, 4):
        us.append(dict(kind='sheared', n=n))
    for n in (2, 3):
        us.append(dict(kind='forms', n=n))
    return us


def c04_explore(rec, u):
    Lattice = mod('').Lattice
    if u['kind'] == 'pairs':
        n, B = u['n'], BASES[u['n']][u['b']] * u['scale']
        # lattices B.(X/2) for integer X: super- and sublattices of one another, some the same
        if n == 1:
            Xs = [R([[v]]) for v in (-4, -3, -2, -1, 1, 2, 3, 4)]
        else:
            I = np.eye(n, dtype=int)
            Xs = []
            for d in (1, 2, 3, 4):
                hs = sorted(O.all_hnf(d, n))
                step = max(1, len(hs) // (6 if n < 4 else 3))
                for h in hs[::step]:
                    Xs.append(R(h))
                    for T in elementary(n)[:4 * u['top']:2]:
                        Xs.append(R(h).dot(T))
            Xs.append(2 * I)
            Xs.append(-2 * I)
            Xs.append(I[:, ::-1] * 2)
        Xs = [X for i, X in enumerate(Xs) if not any(np.array_equal(X, Y) for Y in Xs[:i])]
        kx = [O.column_hnf(tup(X)) for X in Xs]
        lats = [rec.call(Lattice, B.dot(X) / 2.) for X in Xs]
        for (i, j) in itertools.product(range(len(Xs)), repeat=2):
            rec.ctx = dict(base=B.tolist(), X=Xs[i].tolist(), Y=Xs[j].tolist())
            eq = rec.call(lambda a, b: a == b, lats[i], lats[j])
            ne = rec.call(lambda a, b: a != b, lats[i], lats[j])
            want = kx[i] == kx[j]
            rec.require(bool(eq) == want, 'equality is %s, the bases %s the same point set' % (bool(eq), 'span' if want else 'do not span'))
            rec.require(bool(ne) == (not want), '!= is not the negation of ==')
            rec.state((i, j))
            rec.trace(sample=rec.ctx, outcome=want)
        # a lattice that is not commensurate with these
        for X, l in zip(Xs, lats):
            for F in ([1.37 * np.eye(n), 1.0002 * np.eye(n), .9997 * np.eye(n)] + ([np.diag([1.] * k + [1 + e] + [1.] * (n - 1 - k)) for k in range(n) for e in (.01, 4e-4)] if n > 1 else [])
                      + ([rot2(17.)] if n == 2 else []) + ([rot((1, 2, 3), 23.)] if n == 3 else [])):
                o = rec.call(Lattice, F.dot(B.dot(X)) / 2.)
                rec.ctx = dict(base=B.tolist(), X=X.tolist(), F=F.tolist())
                rec.require(not rec.call(lambda a, b: a == b, l, o), 'equal to an incommensurate lattice')
                rec.require(not rec.call(lambda a, b: a == b, o, l), 'equal to an incommensurate lattice (other way)')
                rec.trace(outcome='incommensurate')
            o = rec.call(Lattice, B.dot(X) / 2. * (1 + 1e-11))
            rec.require(rec.call(lambda a, b: a == b, l, o), 'not equal in spite of round-off sized difference only')
    elif u['kind'] == 'words':
        n, B = u['n'], BASES[u['n']][u['b']]
        l0 = rec.call(Lattice, B)
        sub = np.eye(n, dtype=int)
        sub[n - 1, n - 1] = 2
        for W in unimodular_words(n, u['depth']):
            rec.ctx = dict(base=B.tolist(), W=W.tolist())
            l1 = rec.call(Lattice, B.dot(W))
            rec.require(rec.call(lambda a, b: a == b, l0, l1) and rec.call(lambda a, b: a == b, l1, l0), 'another basis of the same lattice compares different')
            l2 = rec.call(Lattice, B.dot(W).dot(sub))
            rec.require(not rec.call(lambda a, b: a == b, l0, l2) and not rec.call(lambda a, b: a == b, l2, l0), 'a sublattice of index 2 compares equal')
            rec.state(tup(W))
            rec.trace(sample=rec.ctx, outcome=tup(W))
    elif u['kind'] == 'forms':
        # bases as integer and real arrays and lists, of integers and of halves
        n = u['n']
        Xs = []
        for d in (1, 2, 3, 4, 8) if n == 2 else (1, 2, 8):
            hs = sorted(O.all_hnf(d, n))
            for h in hs if n == 2 else hs[::1 if d < 3 else 9]:
                Xs.append(R(h))
                Xs.append(R(h).dot(elementary(n)[0]))
        Xs.append(2 * np.eye(n, dtype=int))
        objs = []
        for X in Xs:
            k = O.column_hnf(tup(X))
            forms = [X / 2.]
            if not (X % 2).any():
                forms += [X // 2, (X // 2).tolist(), (X // 2).astype('int8')]
            for f in forms:
                objs.append((k, rec.call(Lattice, f), f))
        for (ka, a, fa), (kb, b, fb) in itertools.product(objs, repeat=2):
            rec.ctx = dict(base=R(fa).tolist(), other=R(fb).tolist(), types=(str(R(fa).dtype), str(R(fb).dtype)))
            rec.require(bool(rec.call(lambda x, y: x == y, a, b)) == (ka == kb), 'equality depends on how the base is stored', want=ka == kb)
            rec.state((ka, kb, str(R(fa).dtype), str(R(fb).dtype)))
            rec.trace(outcome=(ka == kb, str(R(fa).dtype), str(R(fb).dtype)))
    elif u['kind'] == 'sheared':
        # one lattice vector slides along another: the same lattice after whole steps only, however many
        n = u['n']
        for B in BASES[n]:
            for i, j in itertools.permutations(range(n), 2):
                for k in (0, 1, -7, 50, 1000, -20000, 100000, 1000000):
                    for f in (0., .5, 1 / 3., -.25, .1, .02):
                        S = np.eye(n)
                        S[i, j] = k + f
                        rec.ctx = dict(base=B.tolist(), shear=(i, j, k, f))
                        a, b = rec.call(Lattice, B), rec.call(Lattice, B.dot(S))
                        rec.require(bool(rec.call(lambda x, y: x == y, a, b)) == (f == 0), 'a basis with one vector moved along another compares wrong', want=f == 0)
                        if abs(k) <= 1000:
                            rec.require(bool(rec.call(lambda x, y: x == y, b, a)) == (f == 0), 'a basis with one vector moved along another compares wrong (other way)', want=f == 0)
                        rec.state((i, j, k, f))
                        rec.trace(outcome=f == 0)
    else:
        lats = [rec.call(Lattice, BASES[n][0]) for n in BASES]
        for i, j in itertools.product(range(len(lats)), repeat=2):
            rec.ctx = ('dimensions', i, j)
            rec.require(bool(rec.call(lambda a, b: a == b, lats[i], lats[j])) == (i == j), 'lattices of different dimension')
            rec.state((i, j))
            rec.trace(outcome=i == j)
        for l in lats:
            for o in (None, 0, 1, 'x', [], [[1.]], object()):
                rec.require(not rec.call(lambda a, b: a == b, l, o), 'a lattice equals something that is not a lattice', other=repr(o))
                rec.trace()
        Brav = mod('').BravaisLattice
        for i, p in P3.items():
            b = rec.call(Brav, i, p)
            l = rec.call(Lattice, b.base())
            rec.require(b == l and l == b, 'a Bravais lattice and the lattice of its base compare different', latid=i)
            rec.state(('bravais', i))
            rec.trace(outcome=i)
        # containment is not equality: every centred lattice contains its conventional one
        for i, p in P3.items():
            b = rec.call(Brav, i, p)
            c = rec.call(Lattice, b.conventional_base())
            want = O.centring_index(i) == 1
            rec.require(bool(b == c) == want and bool(c == b) == want, 'primitive and conventional lattice', latid=i)
            rec.trace(outcome=want)


register('C04', dict(quick='all ordered pairs in commensurate families of super/sublattices of index <= 4 in dimension 1-4 at 3 length scales; GL(n,Z) words to depth 4/2/1; slides of a basis vector along another by up to 10^6 steps and fractions of a step',
                     thorough='more representatives; words to depth 6/3/2'),
         c04_units, c04_explore, ['reference: exact Hermite normal forms of the integer coordinates'])


# -------------------------------------------------------------------------- C05
def signed_perms(n):
    out = []
    for p in itertools.permutations(range(n)):
        for s in itertools.product((1, -1), repeat=n):
            M = np.zeros((n, n))
            for i in range(n):
                M[i, p[i]] = s[i]
            out.append(M)
    return out


def ref_group(kind):
    """orthogonal matrices of the reference groups, own construction"""
    if kind == 'cubic':
        return signed_perms(3)
    if kind == 'square':
        return signed_perms(2)
    if kind == 'hex2':
        m = R([[1., 0], [0, -1]])
        return [rot2(60 * k) for k in range(6)] + [rot2(60 * k).dot(m) for k in range(6)]
    out = []
    for Q in ref_group('hex2'):
        for s in (1, -1):
            M = np.zeros((3, 3))
            M[:2, :2] = Q
            M[2, 2] = s
            out.append(M)
    return out


PARAMS3 = {
    1: [[2.], [1.], [3.61]], 2: [[2.], [3.6]], 3: [[2.], [2.87]],
    4: [[1., 1.7], [2.95, 4.68], [2., 1.]],
    5: [[1.3, 80.], [2., 100.], [1., 60.], [1., 90.], [1., 55.]],
    6: [[1., 1.7], [2., 1.], [1., 1.]], 7: [[1., 1.7], [2., 1.], [1., 1.]],
    8: [[1., 1.3, 1.9], [3., 2., 1.], [1., 1., 1.7], [2., 2., 2.]], 9: [[1., 1.3, 1.9], [3., 2., 1.1]],
    10: [[1., 1.3, 1.9], [3., 2., 1.1], [1., 1., 1.]], 11: [[1., 1.3, 1.9], [3., 2., 1.1], [1., 1., 1.]],
    12: [[1., 1.3, 1.9, 80.], [2.9, 4.1, 4.6, 97.], [1., 1.3, 1.9, 90.]], 13: [[1., 1.3, 1.9, 80.], [2., 1., 3., 105.]],
    14: [[1., 1.3, 1.9, 80., 95., 103.], [2., 3., 4., 70., 85., 65.], [1., 1.3, 1.9, 90., 90., 90.], [1., 1.3, 1.9, 90., 80., 90.], [1., 1., 1., 90., 90., 90.]],
}
PARAMS2 = {1: [[1.2], [3.]], 2: [[1., 1.7], [2., 1.1], [1., 1.]], 3: [[1., 1.7], [2.2, 1.]], 4: [[1.3], [1.]],
           5: [[1., 1.3, 80.], [2., 1.5, 110.], [1., 2., 90.]]}


def c05_units(tier):
    us = []
    for dim, PP in ((3, PARAMS3), (2, PARAMS2)):
        for i in PP:
            for k in range(len(PP[i])):
                us.append(dict(kind='bravais', dim=dim, latid=i, k=k, depth=1 if dim == 3 and tier == 'quick' else 2))
    for i in PARAMS3:
        us.append(dict(kind='member', dim=3, latid=i, box=tier != 'quick'))
    for i in PARAMS2:
        us.append(dict(kind='member', dim=2, latid=i, box=True))
    us.append(dict(kind='otherdims'))
    us += [dict(kind='setting', dim=3, part=k, parts=12) for k in range(12)] + [dict(kind='setting', dim=2, part=0, parts=1)]
    return us


def settings(dim):
    """lattices whose rotations lie in the hexagonal reference group though they are not hexagonal, and in other frames of the cubic one"""
    out = []
    if dim == 3:
        h1, h2, z = R([1., 0, 0]), R([-.5, math.sqrt(3) / 2, 0]), R([0, 0, 1.])
        for a, c in ((1., 1.3), (2.5, 7.), (1., .4)):
            A, B, C = a * h1, a * h2, c * z
            # rhombohedral, obverse and reverse
            out.append(R([2 * A + B + C, -A + B + C, -A - 2 * B + C]).T / 3)
            out.append(R([A + 2 * B + C, -2 * A - B + C, A - B + C]).T / 3)
        base = [np.diag([1., 1.4, 2.1]), R([[.5, -.5, 0], [.7, .7, 0], [0, 0, 2.1]]), R([[0, .5, .5], [.7, 0, .7], [1.05, 1.05, 0]]), R([[-.5, .5, .5], [.7, -.7, .7], [1.05, 1.05, -1.05]]),
                R([[1., 0, .4], [0, 1.4, 0], [0, 0, 2.1]]), R([[1.4, 0, 0], [0, 1., .4], [0, 0, 2.1]]), R([[1., .3, 0], [0, 1.4, 0], [0, 0, 2.1]]), R([[1., .3, .2], [0, 1.4, .45], [0, 0, 2.1]])]
        for t in (30, 60, 90, 120):
            out += [rot((0, 0, 1), t).dot(E) for E in base]
        for ax, t in (((1, 1, 1), 120), ((1, 1, 0), 180), ((1, 0, 0), 90), ((0, 1, 0), 90), ((0, 0, 1), 45)):
            out += [rot(ax, t).dot(E) for E in base]
        # trigonal about other threefold axes
        T = np.full((3, 3), .2) + np.eye(3)
        out += [np.diag(s).dot(T) for s in ((1., 1, -1), (1., -1, 1), (-1., 1, 1))]
    else:
        base = [np.diag([1., 1.4]), R([[.5, -.5], [.7, .7]]), R([[1., .3], [0, 1.4]]), np.eye(2), R([[1., .5], [0, math.sqrt(3) / 2]])]
        for t in (15 * k for k in range(12)):
            out += [rot2(t).dot(E) for E in base]
    return out


def true_groups(E):
    """(lattice group, point group) by exhaustive search, as lists of arrays in the same order"""
    Ms = O.automorphisms(E)
    Ei = la.inv(E)
    return Ms, [E.dot(M).dot(Ei) for M in Ms]


def in_domain(Qs, dim):
    """all rotations of the lattice lie in one of the reference groups the library documents"""
    for ref in (('cubic', 'hex3') if dim == 3 else ('square', 'hex2')):
        keys = set(key(Q) for Q in ref_group(ref))
        if all(key(Q) in keys for Q in Qs):
            return True
    return False


def group_axioms(rec, mats, what):
    ks = [key(m) for m in mats]
    rec.require(len(set(ks)) == len(ks), what + ' lists an element twice')
    s = set(ks)
    for a in mats:
        for b in mats:
            rec.require(key(a.dot(b)) in s, what + ' is not closed under multiplication', a=a, b=b)


def c05_lattice(rec, lat, E, what):
    dim = len(E)
    Ms, Qs = true_groups(E)
    if not in_domain(Qs, dim):
        return False
    rec.require(lat.dimension() == dim, 'dimension')
    proper = [la.det(Q) > 0 for Q in Qs]
    want = dict(Laue_group=set(key(Q) for Q, p in zip(Qs, proper) if p), point_group=set(key(Q) for Q in Qs),
                special_lattice_group=set(key(M) for M, p in zip(Ms, proper) if p), lattice_group=set(key(M) for M in Ms))
    names = ['Laue_group', 'point_group', 'special_lattice_group', 'lattice_group']
    # in several orders, since the groups are computed lazily
    for order in (names, names[::-1], names):
        for nm in order:
            g = rec.call(getattr(lat, nm))
            ms = [R(m) for m in rec.call(g.matrices)]
            got = [key(m) for m in ms]
            rec.require(rec.call(g.order) == len(ms), what + ': the order of the %s is not the number of its elements' % nm)
            rec.require(len(set(got)) == len(got) and set(got) == want[nm],
                        what + ': the %s has %d elements, the true one %d' % (nm, len(set(got)), len(want[nm])),
                        got=ms[:2], missing=len(want[nm] - set(got)), extra=len(set(got) - want[nm]))
            if 'lattice' in nm:
                rec.require(all(np.array_equal(m, np.rint(m)) for m in ms), what + ': %s is not integer' % nm)
            for m in ms:
                m[...] = 7            # the caller's copy
            rec.trace(outcome=(nm, len(got)))
    group_axioms(rec, [R(m, dtype=float) for m in lat.point_group().matrices()], what + ': point group')
    return True


def c05_explore(rec, u):
    Lattice, Brav = mod('').Lattice, mod('').BravaisLattice
    if u['kind'] == 'otherdims':
        for n in (1, 4):
            l = rec.call(Lattice, BASES[n][0])
            for nm in ('Laue_group', 'point_group', 'special_lattice_group', 'lattice_group'):
                rec.refuses(AttributeError, getattr(l, nm))
                rec.state((n, nm))
                rec.trace()
            # membership works in any dimension
            for M in unimodular_words(n, 1):
                Q = BASES[n][0].dot(M).dot(la.inv(BASES[n][0]))
                want = np.allclose(Q.dot(Q.T), np.eye(n), atol=1e-9)
                rec.require(bool(rec.call(l.inlatticegroup, M)) == want, 'lattice group membership', M=M, n=n)
                rec.require(bool(rec.call(l.inpointgroup, Q)) == want, 'point group membership', Q=Q, n=n)
                rec.trace(outcome=want)
        return
    if u['kind'] == 'setting':
        n = 0
        for k, E in list(enumerate(settings(u['dim'])))[u['part']::u['parts']]:
            for W in unimodular_words(u['dim'], 1 if u['dim'] == 3 else 2):
                EW = E.dot(W)
                if la.cond(EW) > 40:
                    continue
                rec.ctx = dict(E=EW.tolist())
                if c05_lattice(rec, rec.call(Lattice, EW), EW, 'lattice in another setting'):
                    n += 1
                    rec.state(('setting', u['dim'], k, tup(W)))
        rec.require(n > 0, 'no lattice in the domain')
        return
    dim, i = u['dim'], u['latid']
    PP = PARAMS3 if dim == 3 else PARAMS2
    if u['kind'] == 'bravais':
        p = PP[i][u['k']]
        rec.ctx = dict(latid=i, p=p, dim=dim)
        lat = rec.call(Brav, i, p, dim=dim)
        E = R(lat.base(), dtype=float)
        ok = c05_lattice(rec, lat, E, 'Bravais %d %s' % (i, p))
        if u['k'] == 0:
            rec.require(ok, 'the generic lattice is not in its standard orientation')
            fam = (O.BRAVAIS3 if dim == 3 else O.BRAVAIS2)[i][0]
            n = O.LAUE_ORDER[fam] if dim == 3 else O.LAUE_ORDER2[fam][0]
            rec.require(lat.Laue_group().order() == n, 'order of the Laue group', got=lat.Laue_group().order(), want=n)
        rec.state((dim, i, tuple(p)))
        rec.trace(sample=dict(latid=i, p=p, order=lat.point_group().order()))
        # every other basis of the same lattice
        words = unimodular_words(dim, u['depth'])[1:]
        seen = set(key(W) for W in words)
        words += [P for P in signed_perms(dim) if key(P) not in seen]
        for W in words:
            EW = E.dot(W)
            if la.cond(EW) > 40:
                continue
            rec.ctx = dict(latid=i, p=p, W=W.tolist())
            l2 = rec.call(Lattice, EW)
            if u['k'] == 0 or dim == 2:
                if c05_lattice(rec, l2, EW, 'other basis'):
                    rec.state((dim, i, tuple(p), tup(W)))
    else:
        p = PP[i][0]
        lat = rec.call(Brav, i, p, dim=dim)
        E = R(lat.base(), dtype=float)
        Ms, Qs = true_groups(E)
        tm, tq = set(key(M) for M in Ms), set(key(Q) for Q in Qs)
        if dim == 3:
            cand = ref_group('cubic') + ref_group('hex3') + [rot(a, t) for a in ((1, 0, 0), (0, 0, 1), (1, 1, 1), (1, 1, 0)) for t in (.5, 5, 15, 30, 45, 72, 88, 119)]
        else:
            cand = ref_group('square') + ref_group('hex2') + [rot2(t) for t in (.5, 5, 15, 30, 45, 72, 88, 119)]
        for Q in cand:
            rec.ctx = dict(latid=i, Q=Q.tolist())
            for form in (Q, Q.tolist()):
                rec.require(bool(rec.call(lat.inpointgroup, form)) == (key(Q) in tq), 'point group membership is wrong', want=key(Q) in tq)
            for S in (2 * Q, Q * 1.01, Q + .01):
                rec.require(not rec.call(lat.inpointgroup, S), 'a matrix that is not orthogonal is in the point group', S=S)
            # as a change of basis: the matrix itself and the one that describes Q in the base of the lattice
            for M in (Q, la.inv(E).dot(Q).dot(E)):
                for form in (M, M.tolist()):
                    rec.require(bool(rec.call(lat.inlatticegroup, form)) == (key(M) in tm), 'lattice group membership of an orthogonal matrix is wrong', M=M, want=key(M) in tm)
            rec.state(('Q', key(Q)))
            rec.trace(outcome=key(Q) in tq)
        box = itertools.product((-1, 0, 1), repeat=dim * dim) if u['box'] else [tuple(M.reshape(-1)) for M in unimodular_words(dim, 1)] + \
            [tuple(s) for s in itertools.product((-1, 0, 1), repeat=dim * dim) if sum(abs(x) for x in s) <= 4]
        for v in box:
            M = R(v).reshape(dim, dim)
            rec.ctx = dict(latid=i, M=M.tolist())
            rec.require(bool(rec.call(lat.inlatticegroup, M)) == (key(M) in tm), 'lattice group membership is wrong', want=key(M) in tm)
            rec.state(('M', v))
            rec.trace(outcome=key(M) in tm)
        # strongly skewed bases: elements and rotations that do not belong to the lattice
        for k in (3, 40, 300, 900):
            for a, b in list(itertools.permutations(range(dim), 2))[::dim - 1]:
                W = np.eye(dim)
                W[a, b] = k
                EW, Wi = E.dot(W), la.inv(W)
                sk = rec.call(Lattice, EW)
                for Q in cand:
                    M = la.inv(EW).dot(Q).dot(EW)
                    rec.ctx = dict(latid=i, Q=Q.tolist(), skew=(a, b, k))
                    want = key(Q) in tq
                    M = np.rint(M) if want else M
                    rec.require(bool(rec.call(sk.inlatticegroup, M)) == want, 'lattice group membership is wrong in a skewed basis', want=want, M=M)
                    rec.require(bool(rec.call(sk.inpointgroup, Q)) == want, 'point group membership is wrong in a skewed basis', want=want)
                    rec.trace(outcome=want)
                rec.state(('skew', a, b, k))
        for M in Ms:
            rec.require(rec.call(lat.inlatticegroup, M.tolist()) and rec.call(lat.inlatticegroup, M.astype(float)), 'an element of the lattice group is not recognized', M=M)
            rec.require(not rec.call(lat.inlatticegroup, M * 2), 'twice an element of the lattice group is recognized', M=M)
            rec.require(not rec.call(lat.inlatticegroup, M + .3), 'a non-integer matrix is in the lattice group', M=M)
        for n in (1, 2, 3, 4):
            if n != dim:
                rec.require(not rec.call(lat.inlatticegroup, np.eye(n, dtype=int)), 'identity of another dimension is in the lattice group', n=n)
                rec.require(not rec.call(lat.inpointgroup, np.eye(n)), 'identity of another dimension is in the point group', n=n)
        rec.require(not rec.call(lat.inpointgroup, np.ones((dim, dim + 1))), 'non-square matrix in the point group')


register('C05', dict(quick='14 + 5 Bravais types, 1-5 parameter sets each incl. coincidences of higher symmetry, every basis one elementary step away '
                           '(two in 2D) and every basis with permuted and reversed vectors; rhombohedral lattices in the hexagonal setting, orthorhombic, monoclinic and triclinic ones rotated into it, and rotated 2D lattices; membership of all reference operations and integer matrices',
                     thorough='two elementary steps in 3D; membership of all 19683 integer matrices over {-1,0,1}'),
         c05_units, c05_explore,
         ['domain: lattices whose rotations lie in the cubic or the hexagonal reference group in standard axes, which the library searches; '
          'truth computed from the Gram matrix by exhaustive search of integer automorphisms'])


# -------------------------------------------------------------------------- C06
def closure(gens, n=3):
    els = {key(np.eye(n)): np.eye(n)}
    frontier = [np.eye(n)]
    while frontier:
        nxt = []
        for a in frontier:
            for g in gens:
                x = a.dot(g)
                if key(x) not in els:
                    els[key(x)] = x
                    nxt.append(x)
        frontier = nxt
    return els


def subgroups(mats):
    n = len(mats[0])
    out = {}
    for a, b in itertools.combinations_with_replacement(mats, 2):
        els = closure([a, b], n)
        out[frozenset(els)] = list(els.values())
    return sorted(out.items(), key=lambda kv: (len(kv[0]), sorted(kv[0])))


def refs():
    m = 'crystallography.matrix_group'
    pos = lambda gs: [g for g in gs if la.det(g) > 0]
    return [('CUBIC_LAUE_GROUP', opt(m, 'CUBIC_LAUE_GROUP'), pos(ref_group('cubic'))),
            ('HEX_LAUE_GROUP', opt(m, 'HEX_LAUE_GROUP'), pos(ref_group('hex3'))),
            ('SQUARE_GROUP', opt(m, 'SQUARE_GROUP'), pos(ref_group('square'))),
            ('SQUARE_EXT_GROUP', opt(m, 'SQUARE_EXT_GROUP'), ref_group('square')),
            ('HEX2D_GROUP', opt(m, 'HEX2D_GROUP'), pos(ref_group('hex2'))),
            ('HEX2D_EXT_GROUP', opt(m, 'HEX2D_EXT_GROUP'), ref_group('hex2'))]


def c06_units(tier):
    us = [dict(kind='ref')]
    us += [dict(kind='sub', part=k, of=7) for k in range(7)]
    us.append(dict(kind='sub2d'))
    us.append(dict(kind='conjugates'))
    us += [dict(kind='arranged', part=k, of=6) for k in range(6)]
    us.append(dict(kind='errors'))
    return us


def c06_explore(rec, u):
    MG = mod('crystallography').MatrixGroup
    if u['kind'] == 'ref':
        for nm, g, want in refs():
            if g is None:
                rec.skip(nm)
                continue
            for rep in range(2):
                ms = rec.call(g.matrices)
                got = [key(m) for m in ms]
                rec.ctx = nm
                rec.require(len(got) == len(set(got)) == rec.call(g.order) and set(got) == set(key(w) for w in want), nm + ' is not the reference group',
                            order=len(got), want=len(want))
                rec.require(all(np.allclose(R(m).dot(R(m).T), np.eye(len(m)), atol=1e-12) for m in ms), nm + ' has a matrix that is not orthogonal')
                group_axioms(rec, [R(m, dtype=float) for m in ms], nm)
                for m in ms:
                    m[...] = 9
                rec.trace(sample=(nm, len(got)), outcome=len(got))
            rec.state(nm)
    elif u['kind'] in ('sub', 'sub2d'):
        pos = lambda gs: [g for g in gs if la.det(g) > 0]
        if u['kind'] == 'sub':
            sg = subgroups(pos(ref_group('cubic'))) + subgroups(pos(ref_group('hex3')))
        else:
            sg = subgroups(ref_group('square')) + subgroups(ref_group('hex2'))
        seen, gs = set(), []
        for k, ms in sg:
            if k not in seen:
                seen.add(k)
                gs.append((k, ms))
        objs = [rec.call(MG, [m.copy() for m in ms]) for k, ms in gs]
        rev = [rec.call(MG, R([m for m in ms][::-1])) for k, ms in gs]
        for a in range(len(gs)):
            if u['kind'] == 'sub' and a % u['of'] != u['part']:
                continue
            rec.require(rec.call(objs[a].order) == len(gs[a][0]), 'order')
            for b in range(len(gs)):
                want = gs[b][0] <= gs[a][0]
                rec.ctx = dict(group=[list(k) for k in gs[a][0]][:4], sub=[list(k) for k in gs[b][0]][:4], orders=(len(gs[a][0]), len(gs[b][0])))
                got = rec.call(objs[a].hassubgroup, (objs if (a + b) % 2 else rev)[b])
                rec.require(bool(got) == want, 'subgroup test is %s for groups of order %d and %d' % (bool(got), len(gs[a][0]), len(gs[b][0])))
                rec.state((a, b))
                rec.trace(sample=dict(orders=(len(gs[a][0]), len(gs[b][0])), sub=want), outcome=want)
            # the same abstract group about other axes is no subgroup, unless it is the same set
            if u['kind'] == 'sub':
                Rm = rot((1, 2, 5), 31.)
                o = rec.call(MG, [Rm.dot(m).dot(Rm.T) for m in gs[a][1]])
                rec.require(bool(rec.call(objs[a].hassubgroup, o)) == (len(gs[a][0]) == 1), 'a rotated group is a subgroup')
                rec.trace()
    elif u['kind'] == 'arranged':
        # full point groups; the elements two groups have in common listed first, last and alternating with the others
        seen, gs = set(), []
        for k, ms in subgroups(ref_group('cubic')) + subgroups(ref_group('hex3')):
            if k not in seen and len(k) >= 4:
                seen.add(k)
                gs.append((k, ms))
        gs = gs[::-1]
        objs = [rec.call(MG, [m.copy() for m in ms]) for k, ms in gs]
        for a in range(u['part'], len(gs), u['of']):
            for b in range(len(gs)):
                A, B = gs[a][0], gs[b][0]
                if len(A) % len(B) or (len(B) < 8 and (a + b) % 5):
                    continue
                com, own = [m for m in gs[b][1] if key(m) in A], [m for m in gs[b][1] if key(m) not in A]
                alt = [m for p in itertools.zip_longest(com, own) for m in p if m is not None]
                for arr in (com + own, own + com, alt) if own else (com, com[::-1]):
                    rec.ctx = dict(orders=(len(A), len(B)), common=len(com), group=[list(k) for k in sorted(A)][:3], sub=[m.tolist() for m in arr])
                    rec.require(bool(rec.call(objs[a].hassubgroup, rec.call(MG, [m.copy() for m in arr]))) == (not own), 'the subgroup test depends on the order of the elements', want=not own)
                rec.state((a, b))
                rec.trace(outcome=(len(A), len(B), len(com)))
    elif u['kind'] == 'conjugates':
        # integer groups of one lattice in many bases: the groups differ although their elements are close in proportion
        I = np.eye(2, dtype=int)
        ks = [0, 1, 2, 3, 50, 51, 1000, 1001, 99999, 100000, 100001, 3000000, 3000001]
        base_groups = [[I, R([[1, 0], [0, -1]])], [I, -I], [I, -I, R([[1, 0], [0, -1]]), R([[-1, 0], [0, 1]])]]
        gs = []
        for k in ks:
            W, Wi = R([[1, k], [0, 1]]), R([[1, -k], [0, 1]])
            for g in base_groups:
                gs.append([W.dot(m).dot(Wi) for m in g])
        objs = [rec.call(MG, g) for g in gs]
        for a, b in itertools.product(range(len(gs)), repeat=2):
            A, B = set(tup(m) for m in gs[a]), set(tup(m) for m in gs[b])
            rec.ctx = dict(group=R(gs[a]).tolist(), sub=R(gs[b]).tolist())
            rec.require(bool(rec.call(objs[a].hassubgroup, objs[b])) == (B <= A), 'the subgroup test is wrong for integer groups', want=B <= A)
            rec.state((a, b))
            rec.trace(outcome=B <= A)
    else:
        g = rec.call(MG, [np.eye(3)])
        for bad in (None, 1, 'x', [np.eye(3)], np.eye(3), [[1]], object()):
            rec.refuses(TypeError, g.hassubgroup, bad)
            rec.state(repr(bad)[:12])
            rec.trace()
        # groups of other dimensions are no subgroups
        dims = [rec.call(MG, [np.eye(n)]) for n in (1, 2, 3, 4)] + [rec.call(MG, [np.eye(n), -np.eye(n)]) for n in (1, 2, 3, 4)] + \
               [rec.call(MG, closure_list) for closure_list in ([[[1, 0], [0, 1]], [[0, -1], [1, 0]], [[-1, 0], [0, -1]], [[0, 1], [-1, 0]]],)] + [w for nm, w, ms in refs() if w is not None]
        sets = [set(key(m) for m in rec.call(d.matrices)) for d in dims]
        for a, b in itertools.product(range(len(dims)), repeat=2):
            rec.ctx = dict(group=[list(k) for k in sorted(sets[a])][:2], sub=[list(k) for k in sorted(sets[b])][:2])
            rec.require(bool(rec.call(dims[a].hassubgroup, dims[b])) == (sets[b] <= sets[a]), 'the subgroup test is wrong for groups of several dimensions', want=sets[b] <= sets[a])
            rec.state(('dims', a, b))
            rec.trace(outcome=sets[b] <= sets[a])
        # the group does not follow later changes of the caller's arrays
        for make in (lambda: [np.eye(3), np.diag([1., -1, -1])], lambda: R([np.eye(3), np.diag([1., -1, -1])]),
                     lambda: [[[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 0, 0], [0, -1, 0], [0, 0, -1]]]):
            src = make()
            g = rec.call(MG, src)
            before = [key(m) for m in g.matrices()]
            src[0][0][0] = 5
            rec.require([key(m) for m in rec.call(g.matrices)] == before, 'the group changed with the list it was made from')
            m = g.matrices()
            m[1][...] = 3
            m.append(np.eye(3))
            rec.require([key(x) for x in rec.call(g.matrices)] == before and g.order() == 2, 'the group changed with the list it returned')
            rec.trace(outcome='copy')


register('C06', 'all subgroups of the cubic and the hexagonal rotation groups and of the two planar groups (each by at most two generators), every ordered pair',
         c06_units, c06_explore, ['reference: closure computed by breadth-first multiplication'])


# -------------------------------------------------------------------------- C07
def param_grid(latid, dim, tier):
    q = tier == 'quick'
    ls = (0.7, 1., 2.5) if q else (0.7, 1., 2.5, 4.2)
    if dim == 2:
        n = O.NPARAM2[latid - 1]
        if latid == 5:
            return [(a, b, g) for a in ls for b in ls for g in (45., 60., 77., 90., 120., 135.)]
        return list(itertools.product(ls, repeat=n))
    if latid in (1, 2, 3):
        return [(a,) for a in ls + (3.6,)]
    if latid == 5:
        return [(a, x) for a in ls for x in (20., 40., 60., 75., 90., 95., 109., 115.)]
    if latid in (4, 6, 7):
        return list(itertools.product(ls, repeat=2))
    if latid in (8, 9, 10, 11):
        return list(itertools.product(ls, repeat=3))
    if latid in (12, 13):
        return [t + (b,) for t in itertools.product(ls, repeat=3) for b in (30., 60., 84., 90., 96., 135.)]
    out = []
    for t in itertools.product(ls if not q else (1., 2.5), repeat=3):
        for an in itertools.product((60., 75., 90., 110.) if not q else (70., 90., 105.), repeat=3):
            out.append(t + an)
    # extreme cells
    out += [(1., 2.5, 4.) + an for an in itertools.product((40., 90., 130.), repeat=3)]
    return out


NAMES3 = {1: ('Cubic', 'P'), 2: ('Cubic', 'F'), 3: ('Cubic', 'I'), 4: ('Hexagonal', 'P'), 5: ('Rhombohedral', 'P'), 6: ('Tetragonal', 'P'),
          7: ('Tetragonal', 'I'), 8: ('Orthorhombic', 'P'), 9: ('Orthorhombic', 'C'), 10: ('Orthorhombic', 'F'), 11: ('Orthorhombic', 'I'),
          12: ('Monoclinic', 'P'), 13: ('Monoclinic', 'C'), 14: ('Triclinic', 'P')}
NAMES2 = {1: ('Square', 'P'), 2: ('Rectangular', 'P'), 3: ('Rectangular', 'I'), 4: ('Hexagonal', 'P'), 5: ('Oblique', 'P')}


LABELS3 = {1: 'a', 2: 'a', 3: 'a', 4: 'ac', 5: ('a', 'alpha'), 6: 'ac', 7: 'ac', 8: 'abc', 9: 'abc', 10: 'abc', 11: 'abc',
           12: ('a', 'b', 'c', 'beta'), 13: ('a', 'b', 'c', 'beta'), 14: ('a', 'b', 'c', 'alpha', 'beta', 'gamma')}
LABELS2 = {1: 'a', 2: 'ab', 3: 'ab', 4: 'a', 5: ('a', 'b', 'gamma')}


def stated(text):
    import re
    return dict(re.findall(r'\b(a|b|c|alpha|beta|gamma)\s*=\s*([-+.0-9e]+)', text))


def c07_units(tier):
    us = [dict(dim=3, latid=i, tier=tier) for i in (14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1)]
    return us + [dict(dim=2, latid=i, tier=tier) for i in (1, 2, 3, 4, 5)]


def c07_one(rec, lat, i, p, dim):
    G = O.gram_of_cell(i, p, dim)
    E, C, T = R(lat.base(), dtype=float), R(rec.call(lat.conventional_base), dtype=float), R(rec.call(lat.conventional_trans), dtype=float)
    sc = np.abs(G).max()
    rec.require(E.shape == C.shape == T.shape == (dim, dim), 'shape of a base')
    rec.require(np.allclose(C.T.dot(C), G, atol=1e-9 * sc, rtol=0), 'edge lengths and angles of the conventional cell', cell=C, gram=G)
    rec.require(np.allclose(E.dot(T), C, atol=1e-9 * math.sqrt(sc)), 'conventional base is not the primitive base times the conversion', E=E, T=T, C=C)
    # primitive vectors in conventional coordinates generate exactly the centring translations
    Ti = la.inv(T) * 2
    rec.require(np.allclose(Ti, np.rint(Ti), atol=1e-9), 'primitive vectors are not centring translations', T=T)
    gens = [[2 * (a == b) for a in range(dim)] for b in range(dim)] + [[int(round(2 * x)) for x in v] for v in O.centring_vectors(i, dim)]
    want = O.column_hnf(O.lattice_basis(gens, dim))
    rec.require(O.column_hnf(tup(np.rint(Ti))) == want, 'the primitive base does not generate the centred lattice', T=T)
    n = O.centring_index(i, dim)
    v, vc = la.det(E), la.det(C)
    rec.require(vc > 0 and v > 0, 'left-handed base', E=E, C=C)
    rec.require(abs(v * n - vc) < 1e-9 * vc, 'volume of the primitive cell', v=v, vc=vc, points=n)
    rec.require(rec.call(lat.Bravais_id) == i and rec.call(lat.dimension) == dim, 'id or dimension')
    rec.require(np.allclose(R(rec.call(lat.lat_param), dtype=float), p, atol=0, rtol=1e-15), 'lattice parameters', got=lat.lat_param())


def c07_explore(rec, u):
    Brav = mod('').BravaisLattice
    dim, i = u['dim'], u['latid']
    for t in param_grid(i, dim, u['tier']):
        G = O.gram_of_cell(i, t, dim)
        if la.det(G) < 1e-3 * np.prod(np.diag(G)):
            continue
        forms = [('list', list(t)), ('array', R(t))]
        if len(t) == 1:
            forms.append(('scalar', t[0]))
            forms.append(('list of int', [int(round(t[0])) or 1]))
            forms.append(('int', 3))
        else:
            forms.append(('tuple', tuple(t)))
            ti = [int(math.ceil(x)) for x in t]
            Gi = O.gram_of_cell(i, ti, dim)
            if la.det(Gi) > 1e-3 * np.prod(np.diag(Gi)):
                forms.append(('list of int', ti))
                forms.append(('int array', R(ti)))
        for nm, f in forms:
            rec.ctx = dict(latid=i, dim=dim, p=f if not isinstance(f, np.ndarray) else f.tolist(), form=nm)
            p = [float(x) for x in np.atleast_1d(f)]
            lat = rec.call(Brav, i, f, dim=dim) if dim == 2 or nm == 'list' else rec.call(Brav, i, f)
            c07_one(rec, lat, i, p, dim)
            fam, cen = (NAMES3 if dim == 3 else NAMES2)[i]
            s = rec.call(str, lat)
            rec.require('%s %s' % (fam, cen) in s and '%dD' % dim in s, 'the description does not name the type', text=s)
            for x in p:
                rec.require('{:g}'.format(x) in s, 'the description does not state a parameter', text=s, parameter=x)
            rec.require(stated(s) == dict(zip(LABELS3[i] if dim == 3 else LABELS2[i], ['{:g}'.format(x) for x in p])), 'the description states other parameters', text=s, parameters=p)
            rec.state((i, nm, t))
            rec.trace(sample=rec.ctx, outcome=round(la.det(lat.base()), 9))


register('C07', dict(quick='all 14 + 5 types over a grid of 2-3 lengths and 3-8 angles, five ways of passing the parameters',
                     thorough='4 lengths, 4-8 angles'), c07_units, c07_explore,
         ['reference: metric tensor of the named cell and the centring translations'])


# -------------------------------------------------------------------------- C08
def c08_units(tier):
    return [dict(kind='lattice'), dict(kind='miller')] + [dict(kind='bravais', dim=d, ids=s) for d, n in ((3, 14), (2, 5)) for s in shard(range(1, n + 1), 4)] \
        + [dict(kind='ids')]


def c08_explore(rec, u):
    Lattice, Brav = mod('').Lattice, mod('').BravaisLattice
    if u['kind'] == 'lattice':
        for a in range(1, 5):
            for b in range(1, 5):
                if a != b:
                    X = np.arange(1., a * b + 1).reshape(a, b)
                    for f in (X, X.tolist()):
                        rec.ctx = ('shape', a, b)
                        rec.refuses(ValueError, Lattice, f)
                        rec.trace(outcome=(a, b))
                    rec.state((a, b))
        for bad in (None, 'x', 3, 3., [1, 2, 3], [[1, 2], [3]], np.ones(3), np.ones((2, 2, 2)), [['a', 'b'], ['c', 'd']], [], [[]], np.full((2, 2), np.nan),
                    {'a': 1}):
            rec.ctx = repr(bad)
            rec.refuses(ValueError, Lattice, bad)
            rec.state(repr(bad))
            rec.trace()
        # degenerate: a vector is zero, or repeated, or the opposite of another one
        for n in (2, 3, 4):
            good = BASES[n][0]
            for i in range(n):
                X = good.copy()
                X[:, i] = 0
                cases = [X]
                for j in range(n):
                    if i != j:
                        for s in (1, -1):
                            X = good.copy()
                            X[:, i] = s * X[:, j]
                            cases.append(X)
                for X in cases:
                    rec.ctx = X.tolist()
                    rec.refuses(ValueError, Lattice, X)
                    rec.refuses(ValueError, Lattice, X.T.copy())
                    rec.state(key(X))
                    rec.trace(outcome='degenerate')
            rec.call(Lattice, good)
        rec.refuses(ValueError, Lattice, [[0]])
    elif u['kind'] == 'bravais':
        dim = u['dim']
        PP = P3 if dim == 3 else P2
        for i in u['ids']:
            p = PP[i]
            rec.call(Brav, i, p, dim=dim)
            for n in range(0, 9):
                if n != len(p):
                    for f in ([1.] * n, R([1.] * n), [60.] * n):
                        rec.ctx = (dim, i, n)
                        rec.refuses(ValueError, Brav, i, f, dim=dim)
                        rec.trace(outcome=('count', n))
                    rec.state((i, 'count', n))
            if len(p) > 1:
                rec.refuses(ValueError, Brav, i, 1., dim=dim)
            for k in range(len(p)):
                for v in (0, -1, -0.5, -60., 0.):
                    t = list(p)
                    t[k] = v
                    for f in (t, R(t), tuple(t)):
                        rec.ctx = (dim, i, t)
                        rec.refuses(ValueError, Brav, i, f, dim=dim)
                        rec.trace(outcome=('sign', k))
                    rec.state((i, 'sign', k, v))
            for bad in (None, 'x', [p], R([p, p]), [['a']], ['a'] * len(p), {}):
                rec.ctx = (dim, i, repr(bad))
                rec.refuses(ValueError, Brav, i, bad, dim=dim)
                rec.state((i, repr(bad)))
                rec.trace(outcome='type')
        if dim == 3 and 14 in u['ids']:
            for t in ([1., 1, 1, 30., 30., 100.], [1., 1, 1, 120., 130., 140.], [1., 2., 3., 10., 80., 100.]):
                rec.refuses(ValueError, Brav, 14, t)      # no such cell
                rec.state(tuple(t))
                rec.trace(outcome='angles')
        if dim == 3 and 5 in u['ids']:
            for al in (121., 130., 150.):
                rec.refuses(ValueError, Brav, 5, [1., al])
                rec.state(al)
                rec.trace(outcome='angles')
    elif u['kind'] == 'ids':
        for dim, n in ((3, 14), (2, 5)):
            for i in (-2, -1, 0, n + 1, n + 2, 100):
                for m in range(1, 7):
                    rec.ctx = (dim, i, m)
                    rec.refuses(ValueError, Brav, i, [2.] * m, dim=dim)
                    rec.state((dim, i, m))
                    rec.trace(outcome=i)
            for i in range(1, 15):
                for d in (-1, 0, 1, 4, 5):
                    rec.ctx = (d, i)
                    rec.refuses(ValueError, Brav, i, P3[i], dim=d)
                    rec.state(('dim', d, i))
                    rec.trace(outcome=d)
        for i in range(6, 15):
            rec.refuses(ValueError, Brav, i, P3[i], dim=2)
    else:
        for dim, PP in ((3, P3), (2, P2)):
            for i in PP:
                lat = rec.call(Brav, i, PP[i], dim=dim)
                for f in (lat.to_primitive_Miller, lat.to_conventional_Miller):
                    for n in range(1, 6):
                        if n != dim:
                            for idx in ([1] * n, R([1] * n), [[1] * n, [2] * n], [[1] * n] * dim, tuple([1] * n)):
                                rec.ctx = (dim, i, repr(idx))
                                rec.refuses(ValueError, f, idx)
                                rec.trace(outcome=n)
                            rec.state((dim, i, n))
                    for idx in (3, [[[1] * dim]], np.ones((2, 2, dim)), [[1] * dim, [1] * (dim - 1)], None):
                        rec.ctx = (dim, i, repr(idx))
                        rec.refuses((ValueError, TypeError), f, idx)
                        rec.trace()


register('C08', 'all wrong shapes up to 4x4, degenerate bases of dimension 2-4, every Bravais type with every wrong parameter count up to 8, every parameter made '
                'non-positive, impossible angles, ids and dimensions out of range, index lists of wrong length',
         c08_units, c08_explore, ['degenerate means a zero, repeated or opposite vector; near-degenerate bases are not decided'])


# -------------------------------------------------------------------------- C09
def c09_units(tier):
    return [dict(dim=d, latid=i, m=2 if tier == 'quick' else 4) for d, n in ((3, 14), (2, 5)) for i in range(1, n + 1)]


def c09_explore(rec, u):
    Brav = mod('').BravaisLattice
    dim, i = u['dim'], u['latid']
    for p in ((PARAMS3 if dim == 3 else PARAMS2)[i])[:2]:
        lat = rec.call(Brav, i, p, dim=dim)
        E, C = R(lat.base(), dtype=float), R(lat.conventional_base(), dtype=float)
        EiC, CiE = la.inv(E).dot(C), la.inv(C).dot(E)
        allidx = list(itertools.product(range(-u['m'], u['m'] + 1), repeat=dim))
        # coordinates that are no indices of lattice vectors, and large ones
        allidx += list(itertools.product((1 / 3., -.2, 0, 137), repeat=dim))
        for name, T, S in (('to_primitive_Miller', EiC, CiE), ('to_conventional_Miller', CiE, EiC)):
            f = getattr(lat, name)
            g = getattr(lat, 'to_conventional_Miller' if name == 'to_primitive_Miller' else 'to_primitive_Miller')
            for v in allidx:
                for form in (list(v), R(v), R(v, dtype=float), tuple(v)):
                    keep = R(form).copy()
                    rec.ctx = dict(latid=i, dim=dim, index=v, conversion=name, form=type(form).__name__)
                    got = R(rec.call(f, form), dtype=float)
                    rec.require(got.shape == (dim,), 'one index does not give one index', got=got)
                    rec.require(np.allclose(got, T.dot(v), atol=1e-9), 'the converted index names another direction', got=got, want=T.dot(v))
                    rec.require(np.array_equal(keep, R(form)), 'the input was changed')
                    back = R(rec.call(g, got), dtype=float)
                    rec.require(np.allclose(back, v, atol=1e-9), 'converting back does not give the index', back=back)
                    rec.trace(sample=rec.ctx, outcome=tuple(np.round(got, 6)))
                rec.state((tuple(p), name, v))
            for size in (1, 2, dim, dim + 1, 30, len(allidx)):
                batch = allidx[:size] if size < len(allidx) else allidx
                for form in ([list(v) for v in batch], R(batch), R(batch, dtype=float), [tuple(v) for v in batch], R(batch)[::-1]):
                    want = R(form, dtype=float).dot(T.T)
                    rec.ctx = dict(latid=i, dim=dim, conversion=name, size=size)
                    got = R(rec.call(f, form), dtype=float)
                    rec.require(got.size == want.size and (size == 1 or got.shape == want.shape), 'a list of indices gives something else', shape=got.shape)
                    rec.require(np.allclose(got.reshape(want.shape), want, atol=1e-9), 'converting a list differs from converting one by one')
                    rec.trace(outcome=size)
                rec.state((tuple(p), name, 'batch', size))


register('C09', dict(quick='14 + 5 types, all indices in -2..2, single and in batches of 6 sizes, four input forms, both directions and round trips',
                     thorough='all indices in -4..4'), c09_units, c09_explore, [])


# -------------------------------------------------------------------------- C10
def gso(B):
    n = B.shape[1]
    Bs = np.zeros_like(B)
    mu = np.eye(n)
    for i in range(n):
        v = B[:, i].copy()
        for j in range(i):
            mu[i, j] = B[:, i].dot(Bs[:, j]) / Bs[:, j].dot(Bs[:, j])
            v -= mu[i, j] * Bs[:, j]
        Bs[:, i] = v
    return Bs, mu


def c10_one(rec, f, E, form='float'):
    Ef = R(E, dtype=float)
    X = {'float': lambda: Ef.copy(), 'int': lambda: R(E), 'list': lambda: Ef.tolist(), 'fortran': lambda: np.asfortranarray(Ef.copy())}[form]()
    keep = R(X).copy()
    rec.ctx = dict(E=Ef.tolist(), form=form)
    B = rec.call(f, X)
    rec.require(isinstance(B, np.ndarray) and B.shape == Ef.shape, 'the result is not a base', got=repr(B)[:200])
    rec.require(np.array_equal(keep, R(X)), 'the input base was changed')
    B = R(B, dtype=float)
    n = len(Ef)
    T = la.inv(Ef).dot(B)
    cond = max(1., la.cond(Ef))
    rec.require(np.allclose(T, np.rint(T), atol=1e-9 * cond + 1e-7), 'the reduced base is not made of lattice vectors', B=B)
    d = O.idet(tup(np.rint(T)))
    rec.require(abs(d) == 1, 'the reduced base spans a sublattice', B=B, index=d)
    rec.require(d == 1, 'the reduced base has the opposite handedness', B=B)
    Bs, mu = gso(B)
    sq = (Bs * Bs).sum(0)
    for i in range(n):
        for j in range(i):
            rec.require(abs(mu[i, j]) <= .5 + 1e-6, 'the base is not size reduced', B=B, mu=mu[i, j])
    for i in range(n - 1):
        rec.require(sq[i] <= 4. / 3 * (sq[i + 1] + mu[i + 1, i] ** 2 * sq[i]) * (1 + 1e-6), 'the base violates the exchange condition', B=B, i=i)
    rec.state(key(Ef / np.abs(Ef).max()))
    rec.trace(sample=dict(E=Ef.tolist(), B=B.tolist()), outcome=key(B / np.abs(Ef).max()))


def c10_units(tier):
    q = tier == 'quick'
    us = []
    for lead in range(-3, 4) if q else range(-6, 7):
        us.append(dict(kind='box2', lead=lead, m=3 if q else 6))
    for h in ((0, 1), (1, -1), (1, 0), (1, 1), (2, 1)) if q else itertools.product((-2, -1, 0, 1, 2), repeat=2):
        us.append(dict(kind='box3', head=list(h)))
    for i in P3:
        us.append(dict(kind='bravais', dim=3, latid=i, depth=1 if q else 2))
    for i in P2:
        us.append(dict(kind='bravais', dim=2, latid=i, depth=3 if q else 5))
    us.append(dict(kind='skew'))
    us.append(dict(kind='dim4', depth=1 if q else 2))
    return us


def c10_explore(rec, u):
    f = mod('crystallography').LLL
    if u['kind'] == 'box2':
        for v in itertools.product(range(-u['m'], u['m'] + 1), repeat=3):
            M = R(((u['lead'], v[0]), v[1:]))
            if O.idet(M.tolist()):
                c10_one(rec, f, M, 'int' if (v[0] + v[1]) % 2 else 'float')
    elif u['kind'] == 'box3':
        for v in itertools.product((-2, 0, 1), repeat=5):
            M = R(u['head'] + list(v) + [-1, 2]).reshape(3, 3)
            if O.idet(M.tolist()):
                c10_one(rec, f, M, 'float' if sum(v) % 2 else 'int')
    elif u['kind'] == 'bravais':
        E = R(mod('').BravaisLattice(u['latid'], (P3 if u['dim'] == 3 else P2)[u['latid']], dim=u['dim']).base(), dtype=float)
        for W in unimodular_words(u['dim'], u['depth']):
            for scale in (1., 1e-10):
                c10_one(rec, f, E.dot(W) * scale)
            c10_one(rec, f, E.dot(W), 'list')
            c10_one(rec, f, E.dot(W), 'fortran')
    elif u['kind'] == 'dim4':
        E = BASES[4][0]
        for W in unimodular_words(4, u['depth']):
            c10_one(rec, f, E.dot(W))
        c10_one(rec, f, R([[2.]]))
        c10_one(rec, f, R([[-2.]]))
        A9 = np.eye(9)
        A9[0] = [9, 40, 33, 71, 85, 21, 64, 98, 17]
        c10_one(rec, f, A9)
    else:
        for a, b, c in itertools.product((-1000, -37, 0, 5, 120), repeat=3):
            c10_one(rec, f, R([[1, a, b], [0, 1, c], [0, 0, 1]]), 'int')
            c10_one(rec, f, R([[1., 0, 0], [a, -1, 0], [b, c, 2.]]).dot(np.diag([1., .7, 1.3])))
        for a in (-10 ** 6, -999, -3, 4, 50, 12345):
            for b in (-71, 0, 8):
                c10_one(rec, f, R([[1, a], [b, 1 + a * b]]), 'int')
                c10_one(rec, f, R([[a, 1], [1 + a * b, b]]), 'int')


register('C10', dict(quick='all nonsingular 2x2 with entries -3..3, 1215 families of 3x3, every base one (2D: three) elementary step from 19 Bravais bases, strongly skewed bases, dimension 1-4 and 9',
                     thorough='2x2 -6..6, 25 families of 3x3, two (2D: five) steps'), c10_units, c10_explore,
         ['reduced means size-reduced and the exchange (Lovasz) condition with factor 3/4, up to round-off'])
