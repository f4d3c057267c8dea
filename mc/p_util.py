"""C28 rotations, C29 directions and planes under a correspondence, C30 stereographic projection, C31 screw operations,
C32 unit cells, C33 batch matrix functions, C34 deprecated names"""
import itertools
import math
import warnings

import numpy as np
import numpy.linalg as la

from . import oracle as O
from .core import register, mod, opt, shard
from .p_hnf import P2, P3
from .p_lattice import rot, key, unimodular_words

R = np.array


def family(d, index, depth):
    """every normal form of at most this index times every word of at most this many elementary matrices"""
    out = {}
    for n in range(1, index + 1):
        for H in O.all_hnf(n, d):
            for W in unimodular_words(d, depth):
                M = R(H).dot(W)
                out[tuple(int(x) for x in M.reshape(-1))] = True
    return sorted(out)


def directions(n):
    return [v for v in itertools.product(range(-n, n + 1), repeat=3) if any(v)]


# -------------------------------------------------------------------------- C28
def c28_units(tier):
    q = tier == 'quick'
    us = [dict(kind='rotation', axes=s, tier=tier) for s in shard(directions(2 if q else 4), 4 if q else 16)]
    us += [dict(kind='euler', order=o, tier=tier) for o in map(''.join, itertools.product('XYZ', repeat=3))]
    us.append(dict(kind='refuse'))
    return us


def c28_explore(rec, u):
    rotation, Euler = mod('').rotation, mod('').Euler
    q = u.get('tier') == 'quick'
    if u['kind'] == 'rotation':
        angles = [0., 1e-3, 30., 45., 60., 90., 120., 179., 180., 181., 270., 360., 400., 725., -30., -90., -200.]
        for ax in u['axes']:
            for t in angles:
                want = rot(ax, t)
                forms = [list(ax), tuple(ax), R(ax), R(ax, dtype=float), 1e-3 * R(ax, dtype=float), 250. * R(ax)]
                for k, f in enumerate(forms):
                    keep = R(f, dtype=float).copy()
                    for unit in ('deg', 'rad'):
                        rec.ctx = dict(axis=ax, form=k, angle=t, unit=unit)
                        a = t if unit == 'deg' else math.radians(t)
                        # the unit is a value: a string built at run time has to do as well
                        Q = R(rec.call(rotation, a, f, unit=''.join(list(unit))), dtype=float)
                        rec.require(Q.shape == (3, 3) and np.allclose(Q, want, atol=1e-9), 'rotation matrix', got=Q, want=want)
                    Q = R(rec.call(rotation, t, f), dtype=float)
                    rec.require(np.allclose(Q, want, atol=1e-9), 'rotation matrix, default unit', got=Q, want=want)
                    rec.require(np.array_equal(R(f, dtype=float), keep), 'the axis was changed')
                rec.state((ax, t))
                rec.trace(sample=rec.ctx, outcome=key(want))
    elif u['kind'] == 'euler':
        o = u['order']
        unitv = dict(X=(1, 0, 0), Y=(0, 1, 0), Z=(0, 0, 1))
        angles = (0., 30., 90., -45., 180., 200.) if q else (0., 1., 30., 60., 90., 135., 180., 200., 270., 359., -45., -120., 500.)
        for t in itertools.product(angles, repeat=3):
            want = np.eye(3)
            for a, c in zip(t, o):
                want = rot(unitv[c], a).dot(want)
            for form, unit in itertools.product((list, tuple, R), ('deg', 'rad')):
                rec.ctx = dict(order=o, angles=t, unit=unit)
                a = form([x if unit == 'deg' else math.radians(x) for x in t])
                for oo in (o, o.lower(), o[0].lower() + o[1:]):
                    Q = R(rec.call(Euler, a, order=oo, unit=''.join(list(unit))), dtype=float)
                    rec.require(Q.shape == (3, 3) and np.allclose(Q, want, atol=1e-9), 'Euler rotation', order_given=oo, got=Q, want=want)
                if unit == 'deg':
                    Q = R(rec.call(Euler, a, o), dtype=float)
                    rec.require(np.allclose(Q, want, atol=1e-9), 'Euler rotation, default unit', got=Q, want=want)
                    if o == 'ZXZ':
                        Q = R(rec.call(Euler, a), dtype=float)
                        rec.require(np.allclose(Q, want, atol=1e-9), 'Euler rotation, default order', got=Q, want=want)
            rec.state((o, t))
            rec.trace(sample=rec.ctx, outcome=key(want))
    else:
        for n in range(7):
            for m in range(6):
                rec.ctx = dict(angles=n, order=m)
                rec.state((n, m))
                if n == 3 and m == 3:
                    continue
                rec.refuses(ValueError, Euler, [10.] * n, order='XYZXYZ'[:m])
                rec.trace(rec.ctx)
        for pos, c in itertools.product(range(3), 'AWabw1 -zZ'[:8]):
            o = list('XYZ')
            o[pos] = c
            rec.ctx = dict(order=''.join(o))
            rec.refuses(ValueError, Euler, [10., 20., 30.], order=''.join(o))
            rec.state(rec.ctx)
            rec.trace(rec.ctx)


register('C28', dict(quick='124 axes in 6 forms and scales x 17 angles x both units; 27 orders x 216 angle triples x 3 spellings x both units; all wrong counts up to 6',
                     thorough='728 axes; 2197 angle triples'), c28_units, c28_explore, ["reference: Rodrigues' formula"])


# -------------------------------------------------------------------------- C29
def c29_units(tier):
    q = tier == 'quick'
    us = []
    for s in shard(family(3, 3 if q else 6, 1 if q else 2), 4 if q else 24):
        us.append(dict(dim=3, Ls=s, tier=tier))
    L2 = [L for L in itertools.product(range(-2, 3) if q else range(-5, 6), repeat=4) if L[0] * L[3] - L[1] * L[2]]
    for s in shard(L2, 3):
        us.append(dict(dim=2, Ls=s, tier=tier))
    us.append(dict(dim=3, Ls=[[.5, .5, 0, -.5, .5, 0, 0, 0, 1], [2, 1, 3, 0, 5, -1, 7, 0, 2], [0.25, 1, 0, 3, -2, 1.5, 1, 1, 1]], tier=tier))
    return us


def c29_explore(rec, u):
    direc, plane = mod('').direc_trans, mod('').plane_trans
    d = u['dim']
    ns = [n for n in itertools.product((-1, 0, 2) if d == 3 else (-2, -1, 0, 3), repeat=d)]
    for L in u['Ls']:
        A = R(L).reshape(d, d)
        Af = A.astype(float)
        keep = A.copy()
        forms = [A, Af, A.tolist()]
        inv = la.inv(Af)
        wd, wp = R(ns).dot(inv.T), R(ns).dot(Af)
        for form in forms:
            rec.ctx = dict(L=A, form=type(form).__name__)
            for f, W, nm in ((direc, wd, 'direction'), (plane, wp, 'plane')):
                for lst in (ns, [list(n) for n in ns], R(ns), R(ns, dtype=float)):
                    got = R(rec.call(f, form, lst), dtype=float)
                    rec.require(got.shape == (len(ns), d) and np.allclose(got, W, atol=1e-9), 'list of %ss' % nm, got=got, want=W)
                for n, w in zip(ns, W):
                    for one in (list(n), R(n)):
                        got = R(rec.call(f, form, one), dtype=float)
                        rec.require(got.shape == (d,) and np.allclose(got, w, atol=1e-9), 'one ' + nm, n=n, got=got, want=w)
                    got = R(rec.call(f, form, [list(n)]), dtype=float).reshape(-1)
                    rec.require(np.allclose(got, w, atol=1e-9), 'list of one ' + nm, n=n, got=got, want=w)
                # lists of two, also parallel and repeated ones
                for a, n in enumerate(ns):
                    for m in (n, tuple(-x for x in n), tuple(2 * x for x in n), ns[-1], (0,) * d):
                        two = R(rec.call(f, form, [list(n), list(m)]), dtype=float)
                        rec.require(two.shape == (2, d) and np.allclose(two, [W[a], R(m).dot(inv.T if nm == 'direction' else Af)], atol=1e-9), 'list of two ' + nm + 's', n=n, m=m, got=two)
                        three = R(rec.call(f, form, R([m, n, m])), dtype=float) if a % 5 == 0 else None
                        rec.require(three is None or three.shape == (3, d) and np.allclose(three[1], W[a], atol=1e-9), 'list of three ' + nm + 's', n=n, m=m, got=three)
        rec.require(np.array_equal(A, keep), 'the correspondence was changed')
        # what the user relies on: a direction lies in a plane before iff after
        D, P = R(direc(A, ns), dtype=float), R(plane(A, ns), dtype=float)
        rec.require(np.allclose(P.dot(D.T), R(ns).dot(R(ns).T), atol=1e-8), 'incidence of directions and planes', L=A)
        rec.state(tuple(L))
        rec.trace(sample=rec.ctx, outcome=key(D))


register('C29', dict(quick='3D: every normal form of index <= 3 times every elementary matrix; 2D: all nonsingular matrices over -2..2; all indices from {-1,0,2} (3D) and {-2,-1,0,3} (2D), single, lists and arrays',
                     thorough='3D: index <= 6 and two elementary steps; 2D: -5..5'), c29_units, c29_explore, [])


# -------------------------------------------------------------------------- C30
def c30_units(tier):
    q = tier == 'quick'
    zs = [(0, 0, 1), (0, 0, 3), (0, 0, -1), (0, 0, -2)] + [z for z in directions(1 if q else 2) if z[0] or z[1]] + ([(1, 2, 3), (2, -1, 0), (-3, 1, 2)] if q else [])
    return [dict(zs=s, tier=tier) for s in shard(sorted(set(zs)), 8)]


def near(z):
    z = R(z)
    out = []
    for v in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 2, -1)):
        t = np.cross(z, R(v))
        if t.any():
            out += [tuple(int(x) for x in k * t + s * z) for k, s in ((40, 1), (40, -1), (9, 1), (-9, -1), (1, 9), (1, -9), (1, 100), (1, -700), (3, 5000), (1, 20000), (-1, 100000))]
    return out


def c30_explore(rec, u):
    S = mod('crystallography.stereogram')
    ps0 = directions(2 if u['tier'] == 'quick' else 3)
    for z in u['zs']:
        # and poles close to the equator and to the centre, on both sides
        ps = ps0 + near(z)
        zv = R(z, dtype=float)
        Rz = math.sqrt(zv.dot(zv))
        zh = zv / Rz
        tops, got, tol = [], [], []
        for p in ps:
            pv = R(p, dtype=float)
            ph = pv / math.sqrt(pv.dot(pv))
            if ph.dot(zh) < -1e-12:
                ph = ph - 2 * zh * ph.dot(zh)
            c = ph.dot(zh)
            perp = ph - c * zh
            s2 = perp.dot(perp)
            want = Rz * perp / (1 + c)            # projection from the south pole on the equatorial plane of the sphere of radius |z|
            tops.append(want)
            # closer to the axis than 1e-6 a vector counts as the axis; rounding errors of cos(theta) before
            tol.append(Rz * (1e-9 + (4e-15 / math.sqrt(s2) if s2 > 4e-12 else 1e-6)))
            for form in (R(p), pv, 2.5 * pv, 0.01 * pv):
                for zz in (R(z), zv):
                    rec.ctx = dict(p=p, z=z)
                    g = R(rec.call(S.stereo_proj, form, zz), dtype=float)
                    rec.require(g.shape == (2,), 'shape of a projected point', got=g)
                    rec.require(abs(la.norm(g) - la.norm(want)) < tol[-1], 'distance from the centre', got=g, want=la.norm(want))
                    if form is pv and zz is zv:
                        got.append(g)
                    elif form is not pv and got and len(got) == len(tops):
                        rec.require(np.allclose(g, got[-1], atol=2 * tol[-1]), 'the projection depends on the length of the vector', got=g)
            rec.state((p, z))
            rec.trace(sample=rec.ctx, outcome=key(g))
        T, G, t = R(tops), R(got), R(tol)
        # all angles between projected points: the picture is the right one up to the choice of axes in the plane
        err = np.abs(T.dot(T.T) - G.dot(G.T))
        lim = 1e-8 + 2 * Rz * (t[:, None] + t[None, :])
        # and not mirrored: the sense of rotation about the axis is kept
        cross = np.cross(T[:, None, :], T[None, :, :]).dot(zh) - (G[:, None, 0] * G[None, :, 1] - G[:, None, 1] * G[None, :, 0])
        rec.require((np.abs(cross) < lim).all(), 'the sense of the angles about the axis', z=z, worst=float(np.abs(cross).max()))
        rec.require((err < lim).all(), 'mutual position of projected points', z=z, worst=float((err - lim).max()),
                    pair=[ps[k] for k in np.unravel_index(np.argmax(err - lim), err.shape)])
        for lst in (ps, [list(p) for p in ps], R(ps), R(ps, dtype=float)):
            P = R(rec.call(S.pole_figure, lst, R(z)), dtype=float)
            rec.require(P.shape == (len(ps), 2) and np.allclose(P, G, atol=1e-9), 'pole figure of a list differs from the projections', z=z)
        for p, g in zip(ps, G):
            P = R(rec.call(S.pole_figure, list(p), R(z)), dtype=float)
            rec.require(P.shape == (1, 2) and np.allclose(P[0], g, atol=1e-9), 'pole figure of one vector', z=z, p=p)
        rec.trace()
        # the poles above a zone axis and those of the opposite ones project to the same circle and its centre is the axis
        for k in (1, -1, 2.5):
            g = R(rec.call(S.stereo_proj, k * zv, zv), dtype=float)
            rec.require(la.norm(g) < 1e-6 * Rz, 'the zone axis does not project to the centre', z=z, got=g)


register('C30', dict(quick='29 zone axes x 124 vectors in 3 forms; all mutual angles of the projected points', thorough='124 zone axes x 342 vectors'), c30_units, c30_explore,
         ['a vector closer than 1e-6 to the axis may be projected to the centre'])


# -------------------------------------------------------------------------- C31
def c31_units(tier):
    return [dict(n=n, tier=tier) for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12)]


def c31_explore(rec, u):
    f = mod('crystallography.spacegroup').skew
    n = u['n']
    for ax in directions(2 if u['tier'] == 'quick' else 3):
        for p in range(0, 3 * n + 2):
            for form in ((list(ax), R(ax)) if p % 2 else (R(ax, dtype=float), tuple(ax))):
                rec.ctx = dict(n=n, p=p, axis=ax, form=type(form).__name__)
                Q, c = rec.call(f, n, p, form)
                Q, c, T = R(Q, dtype=float), R(c, dtype=float), R(ax, dtype=float)
                rec.require(np.allclose(Q, rot(ax, 360. / n), atol=1e-9), 'the rotation part', got=Q)
                rec.require(c.shape == (3,) and la.norm(np.cross(c, T)) < 1e-9, 'the translation is not along the axis', got=c)
                fr = c.dot(T) / T.dot(T) - p / float(n)
                rec.require(abs(fr - round(fr)) < 1e-9, 'the translation is not p/n of the lattice vector modulo a lattice vector', got=c)
                rec.require(-1e-9 <= c.dot(T) / T.dot(T) <= 1 + 1e-9, 'the translation is not within one lattice vector', got=c)
                # n applications: a pure lattice translation
                x = R([.3, -.2, .7])
                y = x.copy()
                for _ in range(n):
                    y = Q.dot(y) + c
                k = (y - x).dot(T) / T.dot(T)
                rec.require(np.allclose(y - x, round(k) * T, atol=1e-8), 'n applications are not a lattice translation', moved=y - x)
            rec.state((n, p, ax))
            rec.trace(sample=rec.ctx, outcome=(key(Q), key(c)))


register('C31', dict(quick='orders 1-6 and 8, p = 0 .. 3n+1, 124 axes, two forms each', thorough='342 axes'), c31_units, c31_explore, [])


# -------------------------------------------------------------------------- C32
def c32_units(tier):
    return [dict(dim=3, latid=i, tier=tier) for i in range(1, 15)] + [dict(dim=2, latid=i, tier=tier) for i in range(1, 6)] + [dict(dim=0, latid=0, tier=tier)]


def small_grid(i, d):
    """one generic set of parameters and its cyclic exchanges of the lengths and of the angles"""
    if d == 2:
        return {1: [(1.3,)], 2: [(1., 1.7), (1.7, 1.)], 3: [(1., 1.7), (1.7, 1.)], 4: [(1.3,)], 5: [(1., 1.7, 75.), (1.7, 1., 110.)]}[i]
    if i <= 3:
        return [(1.3,)]
    if i == 5:
        return [(1.3, 70.), (1.3, 100.)]
    if i in (4, 6, 7):
        return [(1., 1.7), (1.7, 1.)]
    ls = [(1., 1.3, 1.7), (1.3, 1.7, 1.), (1.7, 1., 1.3)]
    if i <= 11:
        return ls
    if i <= 13:
        return [t + (b,) for t in ls for b in (75., 100.)]
    return [t + b for t in ls for b in ((70., 80., 95.), (80., 95., 70.), (95., 70., 80.))]


def c32_cell(rec, verts, o, E, what):
    d = len(o)
    V = R(verts, dtype=float)
    rec.require(V.shape == (2 ** d, d), 'number of corners of ' + what, got=V.shape)
    x = la.solve(E, (V - R(o, dtype=float)).T).T
    rec.require(np.allclose(x, np.rint(x), atol=1e-8), 'a corner of %s is not a lattice point from the origin' % what, coords=x)
    cs = sorted(map(tuple, np.rint(x).astype(int).tolist()))
    rec.require(cs == sorted(itertools.product((0, 1), repeat=d)), 'the corners of %s are not those of one cell' % what, coords=cs)


def c32_bonds(rec, B, o, E, what):
    d = len(o)
    B = R(B, dtype=float)
    ne = d * 2 ** (d - 1)
    rec.require(B.shape == (ne, 2, d), 'number of edges of ' + what, got=B.shape)
    es = set()
    for a, b in B:
        xa, xb = la.solve(E, a - R(o, dtype=float)), la.solve(E, b - R(o, dtype=float))
        rec.require(np.allclose(xa, np.rint(xa), atol=1e-8) and np.allclose(xb, np.rint(xb), atol=1e-8), 'end of an edge of %s is not a corner' % what, a=a, b=b)
        ia, ib = tuple(np.rint(xa).astype(int).tolist()), tuple(np.rint(xb).astype(int).tolist())
        rec.require(set(ia) <= {0, 1} and set(ib) <= {0, 1} and sum(abs(p - q) for p, q in zip(ia, ib)) == 1, 'not an edge of ' + what, a=ia, b=ib)
        es.add(frozenset((ia, ib)))
    rec.require(len(es) == ne, 'an edge of %s is listed twice' % what, edges=len(es))


def c32_explore(rec, u):
    V = mod('crystallography.visualization')
    UnitCell = mod('crystallography').UnitCell
    d, i = u['dim'], u['latid']
    if d == 0:
        # the stand-alone functions, with arbitrary edge vectors
        vex, bnd = mod('crystallography').vertex, mod('crystallography').bonds
        for dd in (2, 3):
            q = u['tier'] == 'quick'
            for e in (itertools.product((-1, 0, 2), repeat=4) if dd == 2 else family(3, 2 if q else 4, 1 if q else 2)):
                E = R(e, dtype=float).reshape(dd, dd)
                if abs(la.det(E)) < .5:
                    continue
                for o in (R([0.] * dd), R([1.5, -2., .25][:dd])):
                    rec.ctx = dict(E=E, o=o)
                    v = rec.call(vex, o, E, dd)
                    c32_cell(rec, v, o, E.T, 'a cell')
                    c32_bonds(rec, rec.call(bnd, v), o, E.T, 'a cell')
                    rec.state((e, key(o)))
                    rec.trace(rec.ctx, outcome=key(v))
        for n in (0, 1, 4, 5):
            rec.refuses(V.visualError, vex, R([0., 0, 0]), np.eye(3), n)
            rec.state(('n', n))
        return
    from .p_lattice import param_grid
    grid = param_grid(i, d, 'quick') if u['tier'] != 'quick' else small_grid(i, d)
    origins = [[0.] * d, [1, 2, 3][:d], [-.5, .25, 7.][:d]]
    for t in grid:
        G = O.gram_of_cell(i, t, d)
        if la.det(G) < 1e-3 * np.prod(np.diag(G)):
            continue
        B = mod('').BravaisLattice(i, list(t), dim=d)
        E, C = R(B.base(), dtype=float), R(B.conventional_base(), dtype=float)
        for o in origins:
            rec.ctx = dict(latid=i, dim=d, p=t, origin=o)
            c = rec.call(UnitCell, o, i, list(t), N=d) if d == 2 else rec.call(UnitCell, o, i, list(t))
            cur = o
            for step in range(3):
                P = rec.call(c.getPrimitive)
                c32_cell(rec, P, cur, E, 'the primitive cell')
                Cv = rec.call(c.getConventionalVex)
                c32_cell(rec, Cv, cur, C, 'the conventional cell')
                c32_bonds(rec, rec.call(c.getPrimitivebonds), cur, E, 'the primitive cell')
                c32_bonds(rec, rec.call(c.getConventionalbonds), cur, C, 'the conventional cell')
                c32_bonds(rec, rec.call(c.bonds, P), cur, E, 'the primitive cell')
                for s in origins:
                    K = R(rec.call(c.copyTo, R(s), P), dtype=float)
                    rec.require(np.allclose(K, R(P) + R(s), atol=1e-12), 'a shifted copy', shift=s, got=K)
                rec.state((i, d, t, tuple(cur)))
                rec.trace(sample=rec.ctx, outcome=key(P))
                cur = origins[(step + 1) % 3]
                mine = R(cur, dtype=float)
                rec.call(c.setOrigin, mine)
                mine[:] = 11.              # the arrays belong to the caller
                P[:], Cv[:] = 12., 13.


register('C32', dict(quick='14 + 5 types x every exchange of generic parameters x 3 origins, moved twice; cells with all edge vectors over {-1,0,2} (2D) and every normal form of index <= 2 times every elementary matrix (3D)', thorough='the whole parameter grid of C07; index <= 4 and two elementary steps'),
         c32_units, c32_explore, ['the list of lattice points inside the conventional cell (an undocumented drawing aid with a 5 % margin) is not decided'])


# -------------------------------------------------------------------------- C33
def c33_units(tier):
    q = tier == 'quick'
    us = [dict(kind='batch', d=1, vals=[-2, 0, 3]), dict(kind='batch', d=2, vals=[-1, 0, 2] if q else [-2, -1, 0, 1, 3])]
    us += [dict(kind='batch', d=3, vals=v) for v in ([-1, 2], [0, 1], [0, -3])]
    us += [dict(kind='whole', d=3, vals=[-1, 0, 2], part=k, parts=4) for k in range(4)]
    us += [dict(kind='whole', d=4, vals=v, part=k, parts=4 if q else 1) for v in ([0, 1], [-1, 2]) for k in range(1)]
    us += [dict(kind='whole', d=5, vals=None, part=0, parts=1), dict(kind='unique'), dict(kind='tuple')]
    us += [dict(kind='eig', part=k, tier=tier, vals=[-1., 0., 2.] if q else [-1., 0., .5, 2., 3.]) for k in range(4)]
    us += [dict(kind='cofactor', d=2), dict(kind='cofactor', d=4)] + [dict(kind='cofactor', d=3, vals=v) for v in ([-1, 2], [0, 1], [0, -3])]
    return us


def signed_perms5():
    for p in itertools.permutations(range(5)):
        m = np.zeros((5, 5), dtype=int)
        for i, j in enumerate(p):
            m[i, j] = 1 if (i + j) % 3 else -1
        yield m
        t = np.tril(np.ones((5, 5), dtype=int))
        yield m.dot(t)


def det_exact(m):
    return O.idet([list(map(int, r)) for r in m])


def c33_batch(rec, M, l, lb):
    d = int(round(math.sqrt(l.shape[1])))
    n = len(l)
    A, B = l.reshape(n, d, d), lb.reshape(n, d, d)
    keep, keepb = l.copy(), lb.copy()
    dets = [det_exact(a) for a in A]
    for dt in (int, float):
        la_, lb_ = l.astype(dt), lb.astype(dt)
        rec.require(np.allclose(R(rec.call(M.mat_dot, la_, lb_)).reshape(n, d, d), np.einsum('nij,njk->nik', A, B), atol=1e-9), 'product')
        rec.require(np.allclose(rec.call(M.mat_trace, la_), np.einsum('nii->n', A), atol=1e-9), 'trace')
        rec.require(np.allclose(rec.call(M.mat_det, la_), dets, atol=1e-8), 'determinant')
        rec.require(np.array_equal(R(rec.call(M.mat_T, la_)).reshape(n, d, d), A.transpose(0, 2, 1)), 'transpose')
        # lists of different kinds
        for x, y in ((la_, lb_.astype(float) + .5), (la_.astype(float) + .5, lb_)):
            want = np.einsum('nij,njk->nik', R(x).reshape(n, d, d), R(y).reshape(n, d, d))
            rec.require(np.allclose(R(rec.call(M.mat_dot, x, y)).reshape(n, d, d), want, atol=1e-9), 'product of an integer and a real list')
        rec.require(np.array_equal(la_, keep) and np.array_equal(lb_, keepb), 'an input was changed')


def c33_explore(rec, u):
    M = mod('mat_math')
    k = u['kind']
    if k == 'batch':
        d = u['d']
        allm = R(list(itertools.product(u['vals'], repeat=d * d)))
        for size in (1, 2, 3, 7, 16, len(allm)):
            for s in range(0, len(allm), size):
                b = allm[s:s + size]
                rec.ctx = dict(d=d, start=s, size=size)
                c33_batch(rec, M, b, b[::-1].copy())
                if size <= 3:
                    c33_batch(rec, M, b, np.roll(allm, 11, axis=0)[s:s + size].copy())
                rec.state((d, s, size))
                rec.trace(sample=rec.ctx, outcome=b.tobytes())
    elif k == 'whole':
        d = u['d']
        if d == 5:
            b = R([sp.reshape(-1) * c for sp in signed_perms5() for c in (1, 3)])
        elif d == 4 and u['parts'] > 1:
            b = R([list(t) + [u['vals'][1], u['vals'][0], u['vals'][0], u['vals'][1]] for t in itertools.product(u['vals'], repeat=12)])
        else:
            b = R(list(itertools.product(u['vals'], repeat=d * d)))[u['part']::u['parts']]
        rec.ctx = dict(d=d, matrices=len(b), part=u['part'])
        c33_batch(rec, M, b, b[::-1].copy())
        for m in b:
            rec.state(m.tobytes())
            rec.trace(rec.ctx, outcome=m.tobytes())
    elif k == 'unique':
        for n in range(1, 6):
            for w, vals in ((1, (0, 1, -2)), (2, ((0, 1), (1, 0), (-1, 1)))):
                for t in itertools.product(vals, repeat=n):
                    for dt in (int, float):
                        a = R(t, dtype=dt).reshape(n, w)
                        rec.ctx = dict(rows=a)
                        r, idx = rec.call(M.unique_rows, a)
                        rows = set(map(tuple, a.tolist()))
                        rec.require(set(map(tuple, R(r).tolist())) == rows and len(r) == len(rows), 'unique rows', got=r)
                        rec.require(np.array_equal(a[idx], r), 'indices of the unique rows', got=idx)
                        rec.require(all(j == [x for x in range(n) if tuple(a[x]) == tuple(a[j])][0] for j in idx), 'not the first occurrence', got=idx)
                    # 0 and -0 are the same number
                    for signs in itertools.product((1., -1.), repeat=min(n, 3)):
                        a = R(t, dtype=float).reshape(n, w) * R((signs + (1.,) * n)[:n])[:, None]
                        rec.ctx = dict(rows=a.tolist())
                        r, idx = rec.call(M.unique_rows, a)
                        rows = set(map(tuple, a.tolist()))
                        rec.require(set(map(tuple, R(r).tolist())) == rows and len(r) == len(rows), 'unique rows', got=r)
                        rec.require(all(j == [x for x in range(n) if tuple(a[x]) == tuple(a[j])][0] for j in idx), 'not the first occurrence', got=idx)
                    rec.state((n, w, t))
                    rec.trace(rec.ctx, outcome=len(rows))
    elif k == 'tuple':
        for s, e in itertools.product(range(-4, 4), range(-3, 6)):
            rec.ctx = dict(start=s, end=e)
            if e <= s:
                continue
            got = rec.call(M.tuple, s, e)
            rec.require(sorted(map(tuple, R(got).tolist())) == sorted(itertools.product(range(s, e), repeat=3)), 'all triples of a range', got=len(got))
            rec.state((s, e))
            rec.trace(rec.ctx, outcome=len(got))
    elif k == 'eig':
        U = opt('util.utils', 'sort_eig')
        vs = list(itertools.product(u['vals'], repeat=6))
        # and eigenvalues close to one another
        vs += [tuple(1 + e * x for x in v[:3]) + tuple(e * x for x in v[3:]) for e in (1e-3, 4e-5) for v in vs[::7 if u['tier'] == 'quick' else 2]]
        # and repeated ones in all directions: a nearly symmetric rounding of Q diag Q^T
        dirs = [R(d, dtype=float) for d in directions(2)]
        for x, y, c in itertools.product(dirs[:62], dirs[::3 if u['tier'] == 'quick' else 1], ((1.13,) * 3, (.93,) * 3, (.81,) * 3, (1.02, 1.02, .97), (.9, 1.3, 1.3))):
            z = y - y.dot(x) / x.dot(x) * x
            if la.norm(z) > .1:
                Q = R([x / la.norm(x), z / la.norm(z), np.cross(x, z) / la.norm(x) / la.norm(z)])
                S = Q.T.dot(np.diag(c)).dot(Q)
                S = (S + S.T) / 2
                vs.append((S[0, 0], S[1, 1], S[2, 2], S[0, 1], S[0, 2], S[1, 2]))
        for v in vs[u['part']::4]:
            S = R([[v[0], v[3], v[4]], [v[3], v[1], v[5]], [v[4], v[5], v[2]]])
            keep = S.copy()
            ref = la.eigvalsh(S)
            rec.ctx = dict(S=S)
            for f in [M.eigSort] + ([U] if U else []):
                w, vec = rec.call(f, S)
                w, vec = R(w), R(vec)
                rec.require(np.allclose(w, ref, atol=1e-7), 'eigenvalues in ascending order', got=w, want=ref)
                # row i is a unit eigenvector of eigenvalue i
                rec.require(np.allclose(vec.dot(S), w[:, None] * vec, atol=1e-6), 'eigenvectors', got=vec)
                rec.require(np.allclose(np.sum(vec ** 2, axis=1), 1, atol=1e-8), 'eigenvectors are not of unit length', got=vec)
                rec.require(abs(la.det(vec)) > 1e-3, 'dependent eigenvectors', got=vec)
            e = R(rec.call(M.mat_eig, R([S.reshape(9), 2 * S.reshape(9)])))
            rec.require(e.shape == (2, 3) and np.allclose(np.sort(e[0]), ref, atol=1e-7) and np.allclose(np.sort(e[1]), 2 * ref, atol=1e-7), 'eigenvalues of a list', got=e)
            if np.array_equal(S, np.rint(S)):
                I = S.astype(int)
                e = R(rec.call(M.mat_eig, R([I.reshape(9), 2 * I.reshape(9)])))
                rec.require(np.allclose(np.sort(e[0]), ref, atol=1e-7) and np.allclose(np.sort(e[1]), 2 * ref, atol=1e-7), 'eigenvalues of integer matrices', got=e)
            e = R(rec.call(M.mat_eig, R([S[:2, :2].reshape(4)])))
            rec.require(e.shape == (1, 2) and np.allclose(np.sort(e[0]), la.eigvalsh(S[:2, :2]), atol=1e-7), 'eigenvalues of a 2x2 matrix', got=e)
            rec.require(np.array_equal(S, keep), 'the matrix was changed')
            rec.state(v)
            rec.trace(rec.ctx, outcome=key(w))
    else:
        for d in (u['d'],):
            if d == 4:
                ms = [tuple(int(x) for x in R(H).dot(W).reshape(-1)) for n in (1, 2) for H in O.all_hnf(n, 4) for W in unimodular_words(4, 1)]
                # and singular ones: one row replaced by another or by zero
                ms += [tuple(int(x) for x in np.concatenate([R(t).reshape(4, 4)[:3], R(t).reshape(4, 4)[r:r + 1] * f]).reshape(-1)) for t in ms[::3] for r, f in ((0, 0), (0, 1), (2, -1))]
            else:
                ms = list(itertools.product(u['vals'] if d == 3 else range(-3, 4), repeat=d * d))
            for e in ms:
                A = R(e).reshape(d, d)
                for dt in (int, float, .5):
                    B = A * dt if dt == .5 else A.astype(dt)
                    rec.ctx = dict(A=B)
                    c = R(rec.call(M.cofactor, B), dtype=float)
                    want = [[(-1) ** (i + j) * det_exact(np.delete(np.delete(A, i, 0), j, 1)) * (dt ** (d - 1) if dt == .5 else 1) for j in range(d)] for i in range(d)]
                    rec.require(c.shape == (d, d) and np.allclose(c, want, atol=1e-8), 'cofactor matrix', got=c, want=want)
                    rec.require(np.array_equal(A * dt if dt == .5 else A, B), 'the matrix was changed')
                rec.state((d, tuple(e)))
                rec.trace(rec.ctx, outcome=key(c))


register('C33', dict(quick='all 2x2 over 3 values and all 3x3 over 3 pairs of values in batches of 1,2,3,7,16 and all; all 3x3 over {-1,0,2}, all 4x4 over 2 values with one fixed row, 480 5x5 as one batch; all lists of up to 5 of 3 rows; all symmetric matrices over {-1,0,2}; cofactors of all 2x2 over -3..3, all 3x3 over 3 pairs of values, 4x4 of index <= 2 one elementary step away',
                     thorough='all 4x4 over 2 values, 2x2 over 5 values, 15625 symmetric matrices'), c33_units, c33_explore, ['exact integer determinants as reference'])


# -------------------------------------------------------------------------- C34
def c34_units(tier):
    return [dict(dim=3, latid=i, tier=tier) for i in range(1, 15)] + [dict(dim=2, latid=i, tier=tier) for i in range(1, 6)]


PAIRS = [('getbase', 'base'), ('getLauegroup', 'Laue_group'), ('getpointgroup', 'point_group'), ('getspeciallatticegroup', 'special_lattice_group'),
         ('getlatticegroup', 'lattice_group'), ('getLatID', 'Bravais_id'), ('getLatParam', 'lat_param'), ('getConventionalTrans', 'conventional_trans'),
         ('getConventionalBase', 'conventional_base')]


def ans(x):
    m = getattr(x, 'matrices', None)
    if m is not None:
        return 'group', tuple(sorted(key(q) for q in m()))
    return 'value', key(x)


def c34_explore(rec, u):
    B, Lat = mod('').BravaisLattice, mod('').Lattice
    i, d = u['latid'], u['dim']
    from .p_lattice import param_grid
    grid = param_grid(i, d, 'quick') if u['tier'] != 'quick' else small_grid(i, d)
    for t in grid:
        G = O.gram_of_cell(i, t, d)
        if la.det(G) < 1e-3 * np.prod(np.diag(G)):
            continue
        for order in (0, 1):
            lats = [B(i, list(t), dim=d)]
            lats.append(Lat(lats[0].base()))
            for lat in lats:
                for old, new in PAIRS:
                    if not hasattr(lat, old) or not hasattr(lat, new):
                        rec.skip('%s/%s' % (old, new)) if isinstance(lat, B) else None
                        continue
                    rec.ctx = dict(latid=i, dim=d, p=t, old=old, new=new, old_first=order)
                    if order:
                        a = ans(rec.call(getattr(lat, old)))
                        b = ans(rec.call(getattr(lat, new)))
                    else:
                        b = ans(rec.call(getattr(lat, new)))
                        a = ans(rec.call(getattr(lat, old)))
                    rec.require(a == b, 'the deprecated name answers differently', old=str(a)[:300], new=str(b)[:300])
                    rec.state((i, d, t, old, order))
                    rec.trace(sample=rec.ctx, outcome=(old, a))
            lat = lats[0]
            for old, new in (('toPrimitive', 'to_primitive_Miller'), ('toConventional', 'to_conventional_Miller')):
                if not hasattr(lat, old):
                    rec.skip(old)
                    continue
                ns = list(itertools.product((-1, 0, 2), repeat=d))
                for n in ns + [ns]:
                    rec.ctx = dict(latid=i, dim=d, p=t, old=old, idx=n)
                    x = n if n is ns else list(n)
                    a, b = R(rec.call(getattr(lat, old), x), dtype=float), R(rec.call(getattr(lat, new), x), dtype=float)
                    rec.require(a.shape == b.shape and np.allclose(a, b, atol=1e-12), 'the deprecated name answers differently', old=a, new=b)
                rec.trace(sample=rec.ctx, outcome=(old, key(a)))


register('C34', dict(quick='11 deprecated names on all 14 + 5 types x every exchange of generic parameters, both call orders', thorough='the whole parameter grid of C07'), c34_units, c34_explore,
         ['a deprecated name that has been removed is reported as not explored'])


# -------------------------------------------------------------------------- C35
ORDER_OF = {1: 24, 2: 24, 3: 24, 4: 12, 5: 6, 6: 8, 7: 8, 8: 4, 9: 4, 10: 4, 11: 4, 12: 2, 13: 2, 14: 1}


def c35_units(tier):
    return [dict(first=k, depth=3 if tier == 'quick' else 4) for k in range(len(C35OPS))]


C35OPS = [('U', (.9,)), ('U', (.9, 1.1)), ('U', (.95, .03, 1.1)), ('U', (.95, .03, 1.02, 1.1)), ('U', (1, .03, 1, 1)), ('U', (1, .02, 2)), ('U', (1, 1.2)), ('U', 'matrix'), ('L', 1), ('L', 4), ('L', 5), ('L', 8), ('L', 14), ('bad U', ()), ('bad U', (1., 1., 1., 1., 1.)),
          ('bad U', ('x',)), ('bad U', ([1., 2., 3.],)), ('bad U', (np.eye(2),)), ('bad U', (.9, None)),
          ('bad L', 0), ('bad L', 15), ('bad L', 'x'), ('bad L', 1.5)]
MAT35 = R([[.98, .02, .01], [.02, 1.04, -.03], [.01, -.03, .95]])


def c35_explore(rec, u):
    from .p_mart import laue_matrices, is_laue
    C = mod('marttrans.Compatibility')
    M, E = getattr(C, 'Microstructure', None), getattr(C, 'CompatibilityError', None)
    if M is None or E is None:
        rec.skip('Compatibility.Microstructure')
        return
    cubic = sorted(key(q) for q in laue_matrices('cubic'))
    for i in range(1, 15):
        m = rec.call(M)
        rec.call(m.setLaue, i)
        rec.ctx = dict(laue=i)
        g = rec.call(m.getLaue)
        rec.require(is_laue(g, i), 'the Laue group is not that of the Bravais type', order=g.order())
        rec.state(('laue', i))
        rec.trace(rec.ctx, outcome=g.order())
    for rest in itertools.product(range(len(C35OPS)), repeat=u['depth'] - 1):
        seq = [C35OPS[k] for k in (u['first'],) + rest]
        rec.ctx = dict(history=seq)
        mine = MAT35.copy()
        m = rec.call(M, mine)
        mine[:] = 5.
        U, n = MAT35, 24
        for op, a in seq:
            if op == 'U':
                if a == 'matrix':
                    U = MAT35
                    mine = MAT35.copy()
                    rec.call(m.setU, mine)
                    mine[:] = 5.           # the array belongs to the caller
                else:
                    U = {1: lambda x: np.diag([x] * 3), 2: lambda x, y: np.diag([x, x, y]), 3: lambda x, y, z: R([[x, y, 0], [y, x, 0], [0, 0, z]]),
                         4: lambda x, y, z, w: R([[x, y, 0], [y, z, 0], [0, 0, w]])}[len(a)](*a)
                    rec.call(m.setU, *a)
            elif op == 'L':
                rec.call(m.setLaue, a)
                n = ORDER_OF[a]
            elif op == 'bad U':
                rec.refuses(E, m.setU, *a)
            else:
                rec.refuses(E, m.setLaue, a)
        for _ in range(2):
            got = rec.call(m.getU)
            rec.require(np.array_equal(R(got, dtype=float), U), 'the stretch tensor is another one', got=got, want=U)
            got[:] = 6.                    # and so does the answer
        rec.require(rec.call(m.getLaue).order() == n, 'the Laue group is another one', got=m.getLaue().order(), want=n)
        if n == 24:
            rec.require(sorted(key(q) for q in m.getLaue().matrices()) == cubic, 'the default group is not the cubic one')
        rec.state(tuple(map(str, seq)))
        rec.trace(rec.ctx, outcome=(key(U), n))


register('C35', dict(quick='all sequences of 3 out of 23 valid and invalid settings; all 14 Bravais types', thorough='all sequences of 4'), c35_units, c35_explore, [])
