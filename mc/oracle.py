"""Independent reference models.  Nothing in here imports structrans.

Everything that can be done in exact integer arithmetic is done in exact
integer arithmetic; floating point oracles are written with numpy primitives
only and with different formulas from the implementation's.
"""
import itertools
import math

import numpy as np
import numpy.linalg as la


# --------------------------------------------------------------------------
# exact integer matrices (nested tuples / lists of python ints)
# --------------------------------------------------------------------------
def idet(M):
    """exact determinant of a square integer matrix (Bareiss)"""
    M = [[int(x) for x in r] for r in M]
    n = len(M)
    if n == 0:
        return 1
    sign, prev = 1, 1
    for k in range(n - 1):
        if M[k][k] == 0:
            for i in range(k + 1, n):
                if M[i][k] != 0:
                    M[k], M[i] = M[i], M[k]
                    sign = -sign
                    break
            else:
                return 0
        for i in range(k + 1, n):
            for j in range(k + 1, n):
                M[i][j] = (M[i][j] * M[k][k] - M[i][k] * M[k][j]) // prev
        prev = M[k][k]
    return sign * M[n - 1][n - 1]


def imul(A, B):
    n, m, p = len(A), len(B), len(B[0])
    return tuple(tuple(sum(A[i][k] * B[k][j] for k in range(m)) for j in range(p)) for i in range(n))


def itranspose(A):
    return tuple(zip(*A))


def ieye(n):
    return tuple(tuple(1 if i == j else 0 for j in range(n)) for i in range(n))


def column_hnf(M):
    """
    The Hermite normal form used by the library, computed exactly: the unique
    lower triangular H with H = M U, U unimodular, H[i][i] > 0 and
    -H[i][i] < H[i][j] <= 0 for j < i.
    """
    n = len(M)
    cols = [list(map(int, c)) for c in zip(*M)]
    piv = 0
    for r in range(n):
        # euclid on the remaining columns in row r
        while True:
            nz = [c for c in range(piv, n) if cols[c][r] != 0]
            if not nz:
                raise ValueError('singular')
            k = min(nz, key=lambda c: abs(cols[c][r]))
            cols[piv], cols[k] = cols[k], cols[piv]
            done = True
            for c in range(piv + 1, n):
                q = cols[c][r] // cols[piv][r]
                if q:
                    cols[c] = [a - q * b for a, b in zip(cols[c], cols[piv])]
                if cols[c][r] != 0:
                    done = False
            if done:
                break
        if cols[piv][r] < 0:
            cols[piv] = [-a for a in cols[piv]]
        d = cols[piv][r]
        for c in range(piv):
            # bring cols[c][r] into (-d, 0]
            q = -((-cols[c][r]) // d)
            if q:
                cols[c] = [a - q * b for a, b in zip(cols[c], cols[piv])]
        piv += 1
    return tuple(zip(*cols))


def is_hnf(H):
    n = len(H)
    for i in range(n):
        if not H[i][i] > 0:
            return False
        for j in range(n):
            if j > i and H[i][j] != 0:
                return False
            if j < i and not (-H[i][i] < H[i][j] <= 0):
                return False
    return True


def all_hnf(n, N):
    """every HNF of determinant n and size N (a set of nested tuples)"""
    out = set()

    def diags(rem, k):
        if k == 1:
            yield (rem,)
            return
        for d in range(1, rem + 1):
            if rem % d == 0:
                for t in diags(rem // d, k - 1):
                    yield (d,) + t
    for dg in diags(n, N):
        out |= hnf_of_diag(dg)
    return out


def hnf_of_diag(dg):
    N = len(dg)
    slots = [(i, j) for i in range(N) for j in range(i)]
    out = set()
    for vals in itertools.product(*[range(-(dg[i] - 1), 1) for i, j in slots]):
        H = [[dg[i] if i == j else 0 for j in range(N)] for i in range(N)]
        for (i, j), v in zip(slots, vals):
            H[i][j] = v
        out.add(tuple(map(tuple, H)))
    return out


def count_hnf(n, N):
    """number of sublattices of index n in Z^N, by the Dirichlet recursion"""
    if N == 1:
        return 1
    return sum((n // d) ** (N - 1) * count_hnf(d, N - 1) for d in range(1, n + 1) if n % d == 0)


# --------------------------------------------------------------------------
# lattices
# --------------------------------------------------------------------------
CENTRING = {
    'P': [],
    'C': [(.5, .5, 0)],
    'I': [(.5, .5, .5)],
    'F': [(.5, .5, 0), (0, .5, .5), (.5, 0, .5)],
}
#            family, centring
BRAVAIS3 = {1: ('cubic', 'P'), 2: ('cubic', 'F'), 3: ('cubic', 'I'), 4: ('hexagonal', 'P'),
            5: ('rhombohedral', 'P'), 6: ('tetragonal', 'P'), 7: ('tetragonal', 'I'),
            8: ('orthorhombic', 'P'), 9: ('orthorhombic', 'C'), 10: ('orthorhombic', 'F'),
            11: ('orthorhombic', 'I'), 12: ('monoclinic', 'P'), 13: ('monoclinic', 'C'),
            14: ('triclinic', 'P')}
BRAVAIS2 = {1: ('square', 'P'), 2: ('rectangular', 'P'), 3: ('rectangular', 'I'),
            4: ('hexagonal', 'P'), 5: ('oblique', 'P')}
NPARAM3 = [1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 6]
NPARAM2 = [1, 2, 2, 1, 3]
# generic orders of the Laue group (proper rotations) by family
LAUE_ORDER = {'cubic': 24, 'hexagonal': 12, 'rhombohedral': 6, 'tetragonal': 8,
              'orthorhombic': 4, 'monoclinic': 2, 'triclinic': 1}
# 2D: (rotations, all)
LAUE_ORDER2 = {'square': (4, 8), 'rectangular': (2, 4), 'hexagonal': (6, 12), 'oblique': (2, 2)}


def cell_parameters(latid, p, dim=3):
    """lengths and angles (degrees) of the conventional cell the parameters name"""
    p = [float(x) for x in np.atleast_1d(p)]
    if dim == 2:
        return {1: lambda: ((p[0], p[0]), 90.), 2: lambda: ((p[0], p[1]), 90.),
                3: lambda: ((p[0], p[1]), 90.), 4: lambda: ((p[0], p[0]), 60.),
                5: lambda: ((p[0], p[1]), p[2])}[latid]()
    fam = BRAVAIS3[latid][0]
    if fam == 'cubic':
        return (p[0],) * 3, (90.,) * 3
    if fam == 'hexagonal':
        return (p[0], p[0], p[1]), (90., 90., 60.)
    if fam == 'rhombohedral':
        return (p[0],) * 3, (p[1],) * 3
    if fam == 'tetragonal':
        return (p[0], p[0], p[1]), (90.,) * 3
    if fam == 'orthorhombic':
        return tuple(p[:3]), (90.,) * 3
    if fam == 'monoclinic':
        return tuple(p[:3]), (90., p[3], 90.)
    return tuple(p[:3]), tuple(p[3:])


def gram_of_cell(latid, p, dim=3):
    if dim == 2:
        (a, b), g = cell_parameters(latid, p, 2)
        c = a * b * math.cos(math.radians(g))
        return np.array([[a * a, c], [c, b * b]])
    l, an = cell_parameters(latid, p, 3)
    ca, cb, cg = [math.cos(math.radians(x)) for x in an]
    c = np.array([[1, cg, cb], [cg, 1, ca], [cb, ca, 1]])
    return np.outer(l, l) * c


def centring_index(latid, dim=3):
    """lattice points per conventional cell"""
    cen = (BRAVAIS3 if dim == 3 else BRAVAIS2)[latid][1]
    return {'P': 1, 'C': 2, 'I': 2, 'F': 4}[cen]


def centring_vectors(latid, dim=3):
    cen = (BRAVAIS3 if dim == 3 else BRAVAIS2)[latid][1]
    v = CENTRING[cen]
    return [x[:dim] for x in v]


def own_primitive(latid, p, dim=3):
    """some primitive base of the Bravais lattice (columns), own construction"""
    G = gram_of_cell(latid, p, dim)
    C = la.cholesky(G).T          # columns are the conventional cell vectors
    cen = centring_vectors(latid, dim)
    if not cen:
        return C
    # lattice generated by the unit vectors and the centring vectors, in halves
    gens = [[2 * (i == j) for i in range(dim)] for j in range(dim)] + [[int(round(2 * x)) for x in v] for v in cen]
    basis = lattice_basis(gens, dim)
    return C.dot(np.array(basis, dtype=float) / 2)


def lattice_basis(gens, dim):
    """integer basis (columns) of the lattice generated by integer vectors"""
    cols = [list(map(int, g)) for g in gens]
    out = []
    for r in range(dim):
        while True:
            nz = [c for c in cols if c[r] != 0]
            if len(nz) <= 1:
                break
            k = min(nz, key=lambda c: abs(c[r]))
            for c in nz:
                if c is not k:
                    q = c[r] // k[r]
                    for t in range(dim):
                        c[t] -= q * k[t]
        k = nz[0]
        out.append(list(k))
        cols = [c for c in cols if c is not k]
    return [list(r) for r in zip(*out)]


def reduce_basis(E):
    """
    A short basis of the lattice E Z^n by pairwise/greedy reduction (n <= 4).
    Returns (B, U) with B = E U, U unimodular.
    """
    E = np.array(E, dtype=float)
    n = E.shape[1]
    U = np.eye(n, dtype=int)
    coefs = [c for c in itertools.product((-1, 0, 1), repeat=n)]
    improved = True
    while improved:
        improved = False
        B = E.dot(U)
        for i in range(n):
            best, bl = None, B[:, i].dot(B[:, i]) * (1 - 1e-12)
            # size reduce against each other vector first
            for j in range(n):
                if j != i:
                    q = int(np.rint(B[:, i].dot(B[:, j]) / B[:, j].dot(B[:, j])))
                    if q:
                        v = B[:, i] - q * B[:, j]
                        if v.dot(v) < bl:
                            bl = v.dot(v)
                            c = [0] * n
                            c[i] = 1
                            c[j] = -q
                            best = c
            for c in coefs:
                if c[i] != 1:
                    continue
                v = B.dot(c)
                if v.dot(v) < bl:
                    bl = v.dot(v)
                    best = list(c)
            if best is not None:
                U[:, i] = U.dot(best)
                improved = True
                break
    return E.dot(U), U


def short_vectors(E, r):
    """all integer v (as rows, zero included) with |E v| <= r"""
    E = np.array(E, dtype=float)
    n = E.shape[1]
    B, U = reduce_basis(E)
    inv = la.inv(B)
    bound = [int(math.floor(r * la.norm(inv[i]) + 1e-9)) for i in range(n)]
    grid = np.array(list(itertools.product(*[range(-b, b + 1) for b in bound])), dtype=int).reshape(-1, n)
    X = grid.dot(B.T)
    grid = grid[(X * X).sum(1) <= r * r * (1 + 1e-12)]
    return grid.dot(U.T)


def automorphisms(E, tol=1e-6):
    """all integer M with M^T G M = G, G = E^T E (the lattice group of E), as a list of arrays"""
    E = np.array(E, dtype=float)
    n = E.shape[1]
    G = E.T.dot(E)
    sc = np.abs(G).max()
    vs = short_vectors(E, math.sqrt(max(np.diag(G))) * (1 + 1e-7))
    cand = []
    q = np.einsum('ni,ij,nj->n', vs, G, vs)
    for i in range(n):
        cand.append([tuple(int(x) for x in v) for v, l in zip(vs, q) if abs(l - G[i, i]) < tol * sc])
    out = []

    def rec(cols):
        k = len(cols)
        if k == n:
            out.append(np.array(cols, dtype=int).T)
            return
        for v in cand[k]:
            Gv = G.dot(v)
            if all(abs(np.dot(c, Gv) - G[i, k]) < tol * sc for i, c in enumerate(cols)):
                rec(cols + [v])
    rec([])
    return [M for M in out if abs(idet(M.tolist())) == 1]


# --------------------------------------------------------------------------
# lattice correspondences
# --------------------------------------------------------------------------
def cauchy(X):
    """X: [n,d,d] array of E1 L E2^-1"""
    n = X.shape[-1]
    C = np.einsum('nji,njk->nik', X, X) - np.eye(n)
    return (C * C).sum((1, 2))


def strain(X):
    s = la.svd(X, compute_uv=False)
    return ((s - 1) ** 2).sum(1)


def ericksen(L, E1, E2):
    Y = np.einsum('ij,njk->nik', E1, L)
    g2 = E2.T.dot(E2)
    M = np.einsum('nji,njk->nik', Y, Y) - g2
    return (M * M).sum((1, 2)) / (g2 * g2).sum()


def correspondences(E1, E2, dmax, dist='Cauchy', dets=None):
    """
    Every nonsingular integer L with dist(L) <= dmax, exhaustively (branch and
    bound over the columns; the bounds are exact consequences of dist <= dmax).
    dets: restrict to these determinants (None: any nonzero).
    Returns (L [n,d,d] int array, d [n]) sorted by distance.
    """
    E1 = np.array(E1, dtype=float)
    E2 = np.array(E2, dtype=float)
    n = len(E1)
    # rotate E2 to upper triangular form: leading blocks of the metric then
    # depend on the leading columns of L only
    Qr, R = la.qr(E2)
    Rinv = la.inv(R)
    slack = 1e-9
    dmx = dmax + slack
    if dist == 'Cauchy':
        smax = math.sqrt(1 + math.sqrt(dmx))
    elif dist == 'strain':
        smax = 1 + math.sqrt(dmx)
    else:
        smax = None
    g2 = E2.T.dot(E2)
    nf = (g2 * g2).sum()
    part = np.zeros((1, n, 0), dtype=int)
    for k in range(n):
        if smax is not None:
            r = smax * la.norm(E2[:, k])
        else:
            r = math.sqrt(g2[k, k] + math.sqrt(dmx * nf))
        V = short_vectors(E1, r * (1 + 1e-9))
        V = V[(V != 0).any(1)]
        nxt = []
        chunk = max(1, 200000 // max(1, len(V)))
        for c0 in range(0, len(part), chunk):
            P = part[c0:c0 + chunk]
            A = np.repeat(P, len(V), axis=0)
            B = np.tile(V, (len(P), 1))[:, :, None]
            L = np.concatenate([A, B], axis=2)
            Y = np.einsum('ij,njk->nik', E1, L)
            S = np.einsum('nji,njk->nik', Y, Y)
            if dist == 'Ericksen':
                W = S - g2[:k + 1, :k + 1]
                ok = (W * W).sum((1, 2)) / nf <= dmx
            else:
                Ri = Rinv[:k + 1, :k + 1]
                W = np.einsum('ji,njk,kl->nil', Ri, S, Ri)
                if dist == 'Cauchy':
                    W = W - np.eye(k + 1)
                    ok = (W * W).sum((1, 2)) <= dmx
                else:
                    # singular values of the leading block are bounded by smax
                    tr = np.einsum('nii->n', W)
                    ok = tr <= (k + 1) * smax ** 2 * (1 + 1e-9)
            nxt.append(L[ok])
        part = np.concatenate(nxt, axis=0) if nxt else part[:0]
        if len(part) == 0:
            return part.reshape(0, n, n), np.zeros(0)
    det = np.rint(la.det(part)).astype(int)
    part = part[det != 0]
    det = det[det != 0]
    if dets is not None:
        keep = np.isin(det, list(dets))
        part = part[keep]
    if len(part) == 0:
        return part.reshape(0, n, n), np.zeros(0)
    d = corr_dist(part, E1, E2, dist)
    keep = d <= dmx
    part, d = part[keep], d[keep]
    o = np.argsort(d, kind='stable')
    return part[o], d[o]


def corr_dist(L, E1, E2, dist='Cauchy'):
    L = np.array(L)
    if L.ndim == 2:
        return corr_dist(L[None], E1, E2, dist)[0]
    if dist == 'Ericksen':
        return ericksen(L, np.array(E1, dtype=float), np.array(E2, dtype=float))
    X = np.einsum('ij,njk,kl->nil', np.array(E1, dtype=float), L, la.inv(np.array(E2, dtype=float)))
    return cauchy(X) if dist == 'Cauchy' else strain(X)


def orbit(L, G1, G2):
    """set of keys of all M1 L M2"""
    A = np.einsum('aij,jk,bkl->abil', G1, L, G2).reshape(-1, L.shape[0] * L.shape[1])
    return set(map(tuple, A.tolist()))


def best_classes(E1, E2, nsol, dist='Cauchy', dets=None, G1=None, G2=None, d0=None):
    """
    The distances of the nsol best symmetry classes of correspondences, plus all
    that tie with the last (a sorted list), computed exhaustively.
    """
    G1 = np.array(G1 if G1 is not None else automorphisms(E1))
    G2 = np.array(G2 if G2 is not None else automorphisms(E2))
    d = d0 if d0 is not None else 0.25
    while True:
        Ls, ds = correspondences(E1, E2, d, dist, dets)
        seen, out, reps = set(), [], []
        for L, x in zip(Ls, ds):
            k = tuple(L.reshape(-1).tolist())
            if k in seen:
                continue
            if len(out) >= nsol and x > out[nsol - 1] + 1e-7 * (1 + out[nsol - 1]):
                break
            out.append(float(x))
            reps.append(L)
            seen |= orbit(L, G1, G2)
        if len(out) >= nsol and out[nsol - 1] + 1e-6 * (1 + out[nsol - 1]) < d:
            return out, reps
        d = d * 1.6 + 0.05
