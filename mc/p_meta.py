"""C38 units of length, C39 storage of arguments, C40 frames of reference of twins, C41 descriptions of a lattice"""
import copy
import itertools
import math

import numpy as np
import numpy.linalg as la

from . import oracle as O
from .core import register, mod, opt, shard, jsonable
from .p_hnf import P2, P3
from .p_lattice import rot, key, unimodular_words, PARAMS2, PARAMS3
from .p_solver import DP2, scripted, window, base, special, HNF3
from . import p_mart as PM

R = np.array

# how many of the parameters are lengths
LENGTHS = {3: {1: 1, 2: 1, 3: 1, 4: 2, 5: 1, 6: 2, 7: 2, 8: 3, 9: 3, 10: 3, 11: 3, 12: 3, 13: 3, 14: 3}, 2: {1: 1, 2: 2, 3: 2, 4: 1, 5: 2}}
# powers of 64: square and cube roots of their ratios are exact, so that rescaling commutes with rounding
UNITS = [64. ** k for k in (-5, -4, -3, -2, -1, 1, 2, 3, 5)]

def rescale(dim, i, p, s):
    k = LENGTHS[dim][i]
    return [float(x) * s for x in p[:k]] + list(p[k:])

# -------------------------------------------------------------------------- C38
def c38_units(tier):
    q = tier == 'quick'
    us = []
    for dim, PP in ((3, PARAMS3), (2, PARAMS2)):
        for i in PP:
            for p in PP[i][:2] if q else PP[i]:
                us.append(dict(kind='lattice', dim=dim, latid=i, p=list(p)))
    for i, j in itertools.product(DP2, DP2):
        for b in [-1] if q else range(len(DP2[j])):
            us.append(dict(kind='search', dim=2, solver='hnf', case=[i, DP2[i][0], j, DP2[j][b]], opts=[dict(nsol=3), dict(dist='strain'), dict(dist='Ericksen', nsol=2)]))
            if not q or (i + j) % 2:
                us.append(dict(kind='search', dim=2, solver='direct', case=[i, DP2[i][0], j, DP2[j][b]], opts=[dict(nsol=2)]))
    for c in HNF3[2:3] if q else HNF3[:6]:
        us.append(dict(kind='search', dim=3, solver='hnf', case=list(c[:4]), opts=[dict(dist=c[4])]))
    us.append(dict(kind='functions'))
    us.sort(key=lambda x: -x['dim'] if x['kind'] == 'search' else 0)
    return us

def scales(u):
    return UNITS if u['dim'] == 2 else [UNITS[0], UNITS[-2]]

def c38_explore(rec, u):
    top = mod('')
    if u['kind'] == 'search':
        f = top.lat_cor_hnf if u['solver'] == 'hnf' else top.lat_cor_direct
        dim = u['dim']
        i, p, j, q = u['case']
        dets, clear = window(base(i, p, dim), base(j, q, dim))
        if u['solver'] == 'hnf' and not clear:
            return
        for kw in u['opts']:
            n = kw.get('nsol', 1)
            ref = None
            for s in [1.] + scales(u):
                rec.ctx = dict(case=u['case'], dim=dim, solver=u['solver'], options=kw, unit=s)
                with scripted('seed'):
                    sols = rec.call(f, i, rescale(dim, i, p, s), j, rescale(dim, j, q, s), dim=dim, disp=0, **kw)
                rec.require(len(sols) >= n, 'fewer solutions than asked for')
                got = [float(x['d']) for x in sols[:n]]
                if ref is None:
                    ref = got
                rec.require(np.allclose(got, ref, rtol=1e-6, atol=1e-9), 'the distances of the solutions depend on the unit of length', got=got, want=ref)
                for x in sols:
                    w = la.eigvalsh(R(x['u'], dtype=float))
                    rec.require(np.allclose(sorted(x['lams']), w, rtol=1e-6), 'the eigen strains are not those of the stretch tensor', lams=x['lams'], u=x['u'])
                rec.state((str(kw), s))
                rec.trace(sample=rec.ctx, outcome=tuple(round(x, 7) for x in got))
        return
    if u['kind'] == 'functions':
        return c38_functions(rec, u)
    dim, i, p = u['dim'], u['latid'], u['p']
    Lattice = top.Lattice
    LLL = mod('crystallography').LLL
    rec.ctx = dict(dim=dim, latid=i, p=p)
    names = ['Laue_group', 'point_group', 'special_lattice_group', 'lattice_group']
    idx = list(itertools.product((-1, 0, 2), repeat=dim))
    word = unimodular_words(dim, 2)[-1]
    seen = {}
    for s in [1.] + UNITS:
        rec.ctx = dict(dim=dim, latid=i, p=p, unit=s)
        lat = rec.call(top.BravaisLattice, i, rescale(dim, i, p, s), dim=dim)
        E = R(lat.base(), dtype=float)
        other = rec.call(Lattice, E.dot(word))
        sub = rec.call(Lattice, E.dot(np.diag([2] + [1] * (dim - 1))))
        o = {}
        o['base'] = E / s
        o['conventional base'] = R(lat.conventional_base(), dtype=float) / s
        o['conversion'] = R(lat.conventional_trans(), dtype=float)
        o['primitive indices'] = R(rec.call(lat.to_primitive_Miller, idx), dtype=float)
        o['conventional indices'] = R(rec.call(lat.to_conventional_Miller, idx), dtype=float)
        o['reduced base'] = R(rec.call(LLL, E.dot(word)), dtype=float) / s
        for nm in names:
            for l, what in ((lat, ''), (other, ' in another basis')):
                o[nm + what] = R(sorted(key(m) for m in rec.call(getattr(l, nm)).matrices()))
        for l, k in ((lat, 'equal to itself'), (other, 'equal in another basis'), (sub, 'equal to a sublattice')):
            o[k] = R(float(rec.call(lambda a, b: a == b, lat, l)))
        for Q in (np.eye(dim), -np.eye(dim), np.diag([1.] * (dim - 1) + [-1.])):
            o['membership %s' % np.diag(Q)] = R([float(rec.call(lat.inpointgroup, Q)), float(rec.call(lat.inlatticegroup, Q.astype(int)))])
        for k, v in o.items():
            w = seen.setdefault(k, v)
            rec.require(v.shape == w.shape and np.allclose(v, w, rtol=1e-7, atol=1e-9), 'depends on the unit of length: ' + k, got=v, want=w)
        rec.require(o['equal to itself'] == 1 and o['equal in another basis'] == 1 and o['equal to a sublattice'] == 0, 'equality is wrong in this unit')
        rec.state((dim, i, s))
        rec.trace(sample=rec.ctx, outcome=len(o))

def c38_functions(rec, u):
    """distances, screw operations, projections, unit cells"""
    D = mod('marttrans.lat_cor.dist')
    skew, proj = mod('crystallography.spacegroup').skew, mod('crystallography.stereogram').stereo_proj
    UC = mod('crystallography').UnitCell
    for i, j in itertools.product((1, 3, 6, 9, 14), (2, 4, 5, 12)):
        E1, E2 = base(i, P3[i], 3), base(j, P3[j], 3)
        for L in [W for W in unimodular_words(3, 1)] + [R([[1, 1, 0], [0, 2, 1], [1, 0, 1]])]:
            want = None
            for s in [1.] + UNITS:
                rec.ctx = dict(pair=(i, j), L=L.tolist(), unit=s)
                v = [rec.call(D.Cauchy_dist, L, E1 * s, la.inv(E2 * s)), rec.call(D.Eric_dist, L, E1 * s, E2 * s) / s ** 2, rec.call(D.strain_dist, L, E1 * s, la.inv(E2 * s))]
                v[1] = rec.call(D.Eric_dist, L, E1 * s, E2 * s)
                want = want or v
                rec.require(np.allclose(v, want, rtol=1e-8, atol=1e-9), 'a distance depends on the unit of length', got=v, want=want)
                rec.state((i, j, L.tobytes(), s))
                rec.trace(sample=rec.ctx, outcome=round(v[0], 8))
    for s in UNITS:
        for v in itertools.product((-1, 0, 2), repeat=3):
            if not any(v):
                continue
            rec.ctx = dict(vector=v, unit=s)
            for n, p in ((2, 1), (3, 1), (4, 3), (6, 5)):
                a, b = rec.call(skew, n, p, R(v, dtype=float)), rec.call(skew, n, p, R(v, dtype=float) * s)
                rec.require(np.allclose(R(a[0]), R(b[0]), atol=1e-9) and np.allclose(R(a[1]) * s, R(b[1]), rtol=1e-9, atol=1e-9 * s), 'a screw operation depends on the unit of length', got=b, want=a)
            for z in ((0, 0, 1), (1, 1, 1), (-1, 2, 0)):
                a = R(rec.call(proj, R(v, dtype=float), R(z, dtype=float)))
                for b in (rec.call(proj, R(v, dtype=float) * s, R(z, dtype=float)),):
                    rec.require(np.allclose(a, R(b), atol=1e-5), 'the projection depends on the unit of length', got=b, want=a)
            rec.state((s, v))
            rec.trace(outcome=v)
    for dim, PP in ((3, P3), (2, P2)):
        for i in PP:
            for s in UNITS:
                rec.ctx = dict(dim=dim, latid=i, unit=s)
                o = R([.5, -1., 2.][:dim])
                a, b = rec.call(UC, o, i, PP[i], dim), rec.call(UC, o * s, i, rescale(dim, i, PP[i], s), dim)
                for nm in ('getPrimitive', 'getConventionalVex', 'getPrimitivebonds', 'getConventionalbonds'):
                    x, y = R(rec.call(getattr(a, nm)), dtype=float), R(rec.call(getattr(b, nm)), dtype=float)
                    rec.require(x.shape == y.shape and np.allclose(x * s, y, rtol=1e-8, atol=1e-8 * s), 'a unit cell depends on the unit of length: ' + nm, got=y, want=x * s)
                rec.state((dim, i, s))
                rec.trace(outcome=x.shape)

register('C38', dict(quick='14 + 5 Bravais types, 1-2 parameter sets, 9 units of length from 1e-9 to 1e9; 25 2D transformations with the sublattice search and 13 with the direct search in all units, one 3D transformation in 2 units; distances, screw operations, projections and unit cells in all units',
                     thorough='all parameter sets; all 2D pairs for both searches; 6 3D transformations'), c38_units, c38_explore,
         ['units are powers of 64, so that rescaling is exact in floating point and ties stay ties', 'volume ratios at the edge of the threshold are not decided'])

# -------------------------------------------------------------------------- C39
def tuples(v):
    return tuple(tuples(a) for a in v) if isinstance(v, list) else v

def stored(x):
    """the ways to store one array"""
    x = R(x)
    yield 'array', x.copy()
    yield 'fortran order', np.asfortranarray(x.copy())
    y = np.zeros(tuple(2 * n for n in x.shape), dtype=x.dtype)
    y[tuple(slice(None, None, 2) for _ in x.shape)] = x
    yield 'every second element of a larger array', y[tuple(slice(None, None, 2) for _ in x.shape)]
    back = tuple(slice(None, None, -1) for _ in x.shape)
    yield 'reversed view', x[back].copy()[back]
    y = x.copy()
    y.setflags(write=False)
    yield 'read-only', y
    yield 'other byte order', x.astype(x.dtype.newbyteorder())
    if x.dtype.kind == 'i':
        yield 'floating point', x.astype(float)
        yield 'int32', x.astype('int32')
    else:
        if np.array_equal(x, np.rint(x)):
            yield 'integer', x.astype(int)

    yield 'list', x.tolist()
    yield 'tuple', tuples(x.tolist())
    if x.ndim > 1:
        yield 'list of arrays', [r.copy() for r in x]

LISTS = ('list', 'tuple', 'list of arrays')

def flat(r):
    """a comparable picture of an answer"""
    if hasattr(r, 'matrices') and callable(r.matrices):
        return flat(r.matrices())
    if isinstance(r, np.ndarray):
        return r.tolist()
    if isinstance(r, np.generic):
        return r.item()
    if isinstance(r, (list, tuple)):
        return [flat(a) for a in r]
    return r

def alike(a, b, tol=1e-7):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(alike(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, list) or isinstance(b, list):
        return False
    if a is None or b is None:
        return a is b
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= tol * (1 + abs(b)) or (a != a and b != b)
    return str(a) == str(b)

def questions():
    """name -> (function, list of argument lists, accepts anything but arrays?)"""
    t, c = mod(''), mod('crystallography')
    U = [R([[1.02, .03, 0], [.03, .98, 0], [0, 0, 1.05]]), R([[1.02, 0, .03], [0, 1.05, 0], [.03, 0, .98]]), R([[1.05, 0, 0], [0, .98, .03], [0, .03, 1.02]]), np.diag([.9, 1., 1.1]), np.diag([2., 1., 3.])]
    Es = [R([[1., .2, 0], [0, 1., 0], [0, .1, 1.2]]), np.diag([1., 2., 3.]), R([[1., .5, .5], [0, .5, -.5], [0, .5, 1.]]), np.diag([1., 1., 2.]), R([[2., 1., 0], [0, 2., 1.], [1., 0, 2.]])]
    E2 = [R([[1., .5], [0, 1.]]), R([[2., 1.], [1., 2.]]), R([[1., 0.], [0., 3.]])]
    Ls = [R([[1, 0, 1], [1, 2, 0], [0, 1, 3]]), R([[2, 3, 1], [0, 1, 0], [1, 1, 1]]), R([[-1, 0, 0], [5, 1, 2], [3, 2, -7]]), R([[3, 1], [1, 2]]), R([[-4, 7], [2, 9]])]
    Qs = [R([[0, -1, 0], [1, 0, 0], [0, 0, 1]]), R([[0, 1, 0], [0, 0, 1], [1, 0, 0]]), R([[1, 1, 0], [0, 1, 0], [0, 0, 1]])]
    ix = [[1, 0, 2], [-1, 3, 1], [0, 0, 1]]
    gs = [R([[[1, 0], [0, 1]], [[-1, 0], [0, -1]]]), R([[[1, 0], [0, 1]], [[0, -1], [1, 0]], [[-1, 0], [0, -1]], [[0, 1], [-1, 0]]])]
    B = [t.BravaisLattice(i, P3[i]) for i in (1, 3, 5, 9, 13)]
    out = {}

    def add(name, f, cases, tol=1e-7):
        if f is not None:
            out[name] = (f, cases, tol)
    add('Lattice', lambda E: t.Lattice(E).base(), [[E] for E in Es + E2])
    add('Lattice groups', lambda E: [t.Lattice(E).point_group(), t.Lattice(E).lattice_group()], [[E] for E in (Es[1], Es[3], E2[2])])
    add('Lattice ==', lambda E, F: t.Lattice(E) == t.Lattice(F), [[E, F] for E in Es for F in Es])
    add('inpointgroup', lambda Q: [t.Lattice(E).inpointgroup(Q) for E in Es], [[Q] for Q in Qs])
    add('inlatticegroup', lambda Q: [t.Lattice(E).inlatticegroup(Q) for E in Es], [[Q] for Q in Qs])
    for i in P3:
        add('BravaisLattice %d' % i, lambda p, i=i: [t.BravaisLattice(i, p).base(), t.BravaisLattice(i, p).conventional_base(), t.BravaisLattice(i, p).lat_param(), str(t.BravaisLattice(i, p))], [[R(p, dtype=float)] for p in PARAMS3[i]])
        add('BravaisLattice %d, whole numbers' % i, lambda p, i=i: [t.BravaisLattice(i, p).base(), t.BravaisLattice(i, p).conventional_base()], [[R([2, 3, 4][:LENGTHS[3][i]] + [70, 80, 95][:len(P3[i]) - LENGTHS[3][i]])]])
    for b in B:
        for nm in ('to_primitive_Miller', 'to_conventional_Miller'):
            add('%s %d' % (nm, b.Bravais_id()), getattr(b, nm), [[R(x)] for x in ix] + [[R(ix)], [R(ix[:2])]])
    add('HNFDecomposition', c.HNFDecomposition, [[L] for L in Ls])
    add('LLL', c.LLL, [[E] for E in Es + E2] + [[R(L, dtype=float)] for L in Ls])
    add('MatrixGroup', lambda g: [c.MatrixGroup(g).matrices(), c.MatrixGroup(g).order()], [[g] for g in gs])
    add('hassubgroup', lambda g: c.SQUARE_GROUP.hassubgroup(c.MatrixGroup(g)), [[g] for g in gs])
    add('Martensite', lambda u: [t.Martensite(u).getU(), t.Martensite(u).getvariants(), t.Martensite(u).getLaueidx()], [[u] for u in U])
    add('setU', lambda u: [t.Martensite().setU(u).getU(), t.Martensite().setU(u).getvariants()], [[u] for u in U])
    TP = mod('marttrans.twin').TwinPair

    def twin(a, b):
        tp = TP(a, b)
        r = [tp.Ui(), tp.Uj(), tp.istwinnable()]
        return r + ([tp.isconventional(), tp.iscompound(), tp.istypeI(), tp.twinparam(), tp.volumefrac(), tp.direct_cof()] if tp.istwinnable() else [])
    add('TwinPair', twin, [[U[0], U[1]], [U[0], U[2]], [U[1], U[2]], [U[3], np.diag([1., .9, 1.1])], [U[4], np.diag([1., 2., 3.])], [U[4], np.diag([3., 1., 2.])]], 1e-6)
    add('TwinSystem', lambda us: [t.TwinSystem(us).Ulist(), t.TwinSystem(us).TwinTable(), t.TwinSystem(us).getConventional(), t.TwinSystem(us).getTypeI()], [[R(U[:3])], [R(U[:2])], [R([np.diag(x) for x in itertools.permutations((1., 2., 3.))])]])
    add('rotation', lambda a: t.rotation(30, a), [[R(x)] for x in ix])
    add('Euler', lambda a: [t.Euler(a), t.Euler(a, order='XYZ')], [[R([10, 20, 30])], [R([-90, 0, 45])], [R([.5, 2.5, 180.])]])
    add('solve_rank1', mod('util').solve_rank1, [[u.dot(u)] for u in (U[3], U[4], U[0])], 1e-6)
    add('AM_Solver', t.AM_Solver, [[np.diag([.9, 1., 1.1])], [np.diag([.5, 1., 2.])]], 1e-5)
    add('isCompatible', t.isCompatible, [[U[0], U[1]], [U[3], np.eye(3)], [U[4], np.eye(3)]])
    for nm in ('direc_trans', 'plane_trans'):
        add(nm, getattr(t, nm), [[L, R(x)] for L in Ls[:3] for x in (ix[0], ix[1], ix)] + [[L, R([1, 2])] for L in Ls[3:]])
    sg = mod('crystallography.stereogram')
    add('stereo_proj', sg.stereo_proj, [[R(x), R(z)] for x in ix + [[1, 1, 1]] for z in ([0, 0, 1], [1, -1, 0], [1, 2, -3])])
    add('pole_figure', sg.pole_figure, [[R(ix), R(z)] for z in ([0, 0, 1], [1, 2, -3])])
    add('skew', lambda T: mod('crystallography.spacegroup').skew(4, 1, T), [[R([0, 0, 2])], [R([1, 1, 0])], [R([3, -1, 2])]])
    add('UnitCell', lambda o, p: [c.UnitCell(o, 9, p).getPrimitive(), c.UnitCell(o, 9, p).getConventionalVex()], [[R([0, 0, 0]), R([1., 2., 3.])], [R([1, 0, -2]), R([2, 3, 4])]])
    add('vertex', c.vertex, [[R(o), E] for o in ([0, 0, 0], [1, 2, -1]) for E in Es[:2]])
    D = mod('marttrans.lat_cor.dist')
    for nm in ('Cauchy_dist', 'Eric_dist', 'strain_dist'):
        add(nm, getattr(D, nm), [[L, E, F] for L in Ls[:2] for E in Es[:2] for F in Es[1:3]])
    add('Cauchy_dist_vec', getattr(D, 'Cauchy_dist_vec', None), [[R([L.reshape(-1) for L in Ls[:3]]), Es[0], Es[1]], [R([Ls[0].reshape(-1)] * 9), Es[1], Es[2]]])
    m = mod('mat_math')
    A, A2 = R([[1, 2, 3, 4], [1, 0, 0, 2], [-1, 5, 2, 2]]), R([[1, 0, 2, 4, -3, 1, 0, 0, 1], [2, 1, 1, 1, 2, 1, 1, 1, 2]])
    for nm in ('mat_trace', 'mat_det', 'mat_T'):
        add(nm, getattr(m, nm), [[A], [A2], [A + .5]])
    add('mat_dot', m.mat_dot, [[A, A[::-1].copy()], [A2, A2 + .5]])
    add('cofactor', m.cofactor, [[L] for L in Ls])
    add('unique_rows', lambda a: sorted(flat(m.unique_rows(a)[0])), [[A[[0, 1, 0, 2]]]])
    lo = opt('marttrans.lat_cor.lat_opt', 'lat_opt')
    if lo is not None:
        add('lat_opt', lambda E, F: lo(E, F, nsol=1, disp=0)['dopt'][:1], [[E2[0], E2[0] * 1.1], [E2[1], R([[1.8, 0.], [0., 1.7]])]])
    return out

def c39_units(tier):
    n = len(questions())
    return [dict(names=s, reps=1 if tier == 'quick' else 2, tier=tier) for s in shard(sorted(questions()), 16)]

def c39_explore(rec, u):
    qs = questions()
    # 2D and 3D search with parameters in every form are part of this space as well
    for name in u['names']:
        f, cases, tol = qs[name]
        for case in cases:
            plain = [R(a) for a in case]
            rec.ctx = dict(question=name, args=[a.tolist() for a in plain])
            want = flat(rec.call(f, *[a.copy() for a in plain]))
            forms = [list(stored(a)) for a in case]
            if u['tier'] == 'quick' or len(case) == 1:       # one argument at a time, then all alike
                combos = [[(k, forms[k][n]) for k in [k]] for k in range(len(case)) for n in range(len(forms[k]))]
                if len(case) > 1:
                    for nm in set(x[0] for x in forms[0]):
                        combos.append([(k, dict((a, (a, b)) for a, b in forms[k])[nm]) for k in range(len(case)) if nm in dict(forms[k])])
            else:
                combos = [list(enumerate(x)) for x in itertools.product(*forms)]
            for combo in combos:
                args = [a.copy() for a in plain]
                for k, (nm, v) in combo:
                    args[k] = copy.deepcopy(v) if nm in LISTS else v
                what = [(k, nm) for k, (nm, v) in combo]
                rec.ctx = dict(question=name, args=[a.tolist() for a in plain], stored=what)
                lists = any(nm in LISTS for k, nm in what)
                before = [(type(a), flat(a)) for a in args]
                if lists:
                    rec.transitions += 1
                    try:
                        r = f(*args)
                    except (TypeError, AttributeError, ValueError):
                        rec.state((name, str(plain), str(what)))
                        continue                                  # arrays only
                    if name == 'isCompatible':
                        continue                                  # documented: only arrays are compatible
                else:
                    r = rec.call(f, *args)
                got = flat(r)
                rec.require(alike(got, want, tol), 'the answer depends on how the argument is stored', got=got, want=want)
                rec.require([(type(a), flat(a)) for a in args] == before, 'an argument was changed')
                # once more with the very same objects
                rec.require(alike(flat(rec.call(f, *args)), want, tol), 'the same question gets another answer the second time')
                spoil(r)
                rec.require([(type(a), flat(a)) for a in args] == before, 'the answer shares its memory with an argument')
                rec.require(alike(flat(rec.call(f, *args)), want, tol), 'changing an answer changes the next one')
                rec.state((name, str(plain), str(what)))
                rec.trace(sample=rec.ctx, outcome=(name, str(want)[:60]))

def spoil(r):
    """the caller overwrites what it got"""
    if isinstance(r, np.ndarray):
        if r.flags.writeable and r.dtype.kind in 'iuf':
            r[...] = 77
    elif isinstance(r, (list, tuple)):
        for a in r:
            spoil(a)

register('C39', dict(quick='about 60 public functions on 1-25 arguments each, stored in 8-13 ways (memory layout, byte order, writability, number type, list, tuple), one argument at a time and all alike; every question three times, the answer being overwritten in between',
                     thorough='all combinations of the ways for functions of several arguments'), c39_units, c39_explore,
         ['a function may refuse lists and tuples where it is documented for arrays; it may not misread them', 'single precision is not in the space'])

# -------------------------------------------------------------------------- C40
def c40_units(tier):
    return [dict(part=k, parts=16, tier=tier, laue='cubic') for k in range(16)] + [dict(part=k, parts=4, tier='quick', laue='hex') for k in range(4)]

FRAMES = [((1, 2, 3), 77.), ((0, 0, 1), 90.), ((1, 1, 1), 120.), ((3, -1, 1), 13.), ((1, 1, 0), 180.)]

def twin_view(rec, tp, G, exact, one):
    MG = mod('crystallography').MatrixGroup
    o = dict(twinnable=bool(rec.call(tp.istwinnable)))
    if not o['twinnable']:
        return o
    o['compound'], o['type I'], o['type II'] = bool(rec.call(tp.iscompound)), bool(rec.call(tp.istypeI)), bool(rec.call(tp.istypeII))
    o['conventional'] = bool(rec.call(tp.isconventional, MG(R(G))))
    if one:
        o['XI'], o['XII'] = float(rec.call(tp.XI)), float(rec.call(tp.XII))
    if exact:
        o['volume fractions'] = rec.call(tp.volumefrac)
        for t in ('I', 'II', 'C'):
            o['compatible ' + t] = bool(rec.call(tp.iscompatible, t))
            o['habit planes ' + t] = len(rec.call(tp.habitplanes, t)) if o['compatible ' + t] else 0
        o['direct'] = [float(x) for x in rec.call(tp.direct_cof)]
        o['dyads'] = [np.outer(R(a), R(n)) for Q, a, n in rec.call(tp.twinparam)]
        o['rotations'] = [R(Q) for Q, a, n in rec.call(tp.twinparam)]
    return o

def c40_explore(rec, u):
    TP = mod('marttrans.twin').TwinPair
    for U, G, ts in PM.systems(rec, u):
        vs = rec.call(ts.Ulist)
        for i, j in itertools.combinations(range(len(vs)), 2):
            Ui, Uj = vs[i], vs[j]
            if abs(abs(PM.middle(Ui, Uj) - 1) - 5e-3) < 1e-5:
                continue
            exact = PM.exact_pair(Ui, Uj)
            ax = PM.twofold_axes(Ui, Uj)
            rec.ctx = dict(Ui=Ui.tolist(), Uj=Uj.tolist(), laue=u['laue'])
            here = twin_view(rec, rec.call(TP, Ui, Uj), G, exact, ax is not None and len(ax) == 1)
            decided = exact and here['twinnable'] and all(PM.roots01(Ui, R(d).dot(n), n)[1] for Q, d, n in [(Q, np.outer(a, n), n) for Q, a, n in rec.call(TP(Ui, Uj).twinparam)])
            frames = [(None, np.eye(3))] + [(f, rot(*f)) for f in (FRAMES if u['tier'] != 'quick' else FRAMES[:3:2])]
            for f, Q in frames:
                for swap in (False, True):
                    if f is None and not swap:
                        continue
                    A, B = [PM.symmetrise(Q.dot(X).dot(Q.T)) for X in ((Uj, Ui) if swap else (Ui, Uj))]
                    rec.ctx = dict(Ui=Ui.tolist(), Uj=Uj.tolist(), laue=u['laue'], frame=f, swapped=swap)
                    there = twin_view(rec, rec.call(TP, A, B), [Q.dot(g).dot(Q.T) for g in G], exact, ax is not None and len(ax) == 1)
                    for k in ('twinnable', 'compound', 'type I', 'type II', 'conventional'):
                        if ax is None and k != 'twinnable':
                            continue
                        rec.require(here.get(k) == there.get(k), 'depends on the frame of reference: ' + k if not swap else 'depends on the order of the two variants: ' + k, here=here.get(k), there=there.get(k))
                    for k in ('XI', 'XII'):
                        if ax is not None and k in here:
                            rec.require(k in there and abs(here[k] - there[k]) < 1e-6, 'depends on the frame of reference or the order: ' + k, here=here[k], there=there.get(k))
                    if exact and here['twinnable']:
                        if decided:
                            for k in ('compatible C', 'habit planes C') + (() if ax is None or len(ax) > 1 else ('compatible I', 'compatible II', 'habit planes I', 'habit planes II')):
                                rec.require(here[k] == there[k], 'depends on the frame of reference or the order: ' + k, here=here[k], there=there[k])
                            fr = lambda o: sorted(9. if x is None else min(x, 1 - x) for x in o['volume fractions'])
                            rec.require(np.allclose(fr(here), fr(there), atol=1e-5), 'the volume fractions depend on the frame of reference or the order', here=here['volume fractions'], there=there['volume fractions'])
                        if not swap:
                            for d in here['dyads']:
                                rec.require(min(np.abs(Q.dot(d).dot(Q.T) - e).max() for e in there['dyads']) < 1e-6, 'the twin solutions do not rotate with the frame', want=Q.dot(d).dot(Q.T), got=there['dyads'])
                            rec.require(np.allclose(sorted(here['direct']), sorted(there['direct']), atol=1e-6), 'the direct cofactor values depend on the frame', here=here['direct'], there=there['direct'])
                    rec.state((key(A), key(B)))
                    rec.trace(sample=rec.ctx, outcome=(here['twinnable'], here.get('compound'), swap))

register('C40', dict(quick='every pair of variants of about 150 stretch tensors (cubic) and 7 (hexagonal), in 3 frames of reference and in both orders', thorough='about 460 stretch tensors, 6 frames'), c40_units, c40_explore,
         ['pairs within 1e-5 of the tolerance for twinnability are not decided', 'volume fractions within 1e-5 of 0 or 1 and double roots are not decided'])

# -------------------------------------------------------------------------- C41
r2, r3 = math.sqrt(2), math.sqrt(3)


def sides(v, w):
    return [la.norm(v), la.norm(w), math.degrees(math.acos(v.dot(w) / la.norm(v) / la.norm(w)))]


# the same lattice under several names; the first ones in the orientation in which the library knows all its symmetries
SAME2 = {'square': lambda a: ([(1, [a]), (2, [a, a]), (5, [a, a, 90.]), (3, [a * r2, a * r2])], []),
         'hexagonal': lambda a: ([(4, [a]), (3, [a, a * r3]), (5, [a, a, 120.]), (5, [a, a, 60.])], []),
         'rectangular': lambda a: ([(2, [a, 1.4 * a]), (2, [1.4 * a, a]), (5, [a, 1.4 * a, 90.])], []),
         'rhombic': lambda a: ([(3, [a, 1.4 * a]), (3, [1.4 * a, a])], [(5, [a * math.hypot(.5, .7)] * 2 + [2 * math.degrees(math.atan2(.7, .5))])]),
         'oblique': lambda a: ([(5, [a, 1.3 * a, 70.]), (5, [1.3 * a, a, 110.])] + [(5, sides(R([1., 0.]) * a, R([math.cos(math.radians(70)), math.sin(math.radians(70))]) * 1.3 * a + k * R([1., 0.]) * a)) for k in (-1, 1)], [])}
SAME3 = {'cubic P': lambda a: [(1, [a]), (6, [a, a]), (8, [a, a, a]), (5, [a, 90.]), (14, [a, a, a, 90., 90., 90.])],
         'cubic F': lambda a: [(2, [a]), (7, [a / r2, a]), (5, [a / r2, 60.]), (10, [a, a, a])],
         'cubic I': lambda a: [(3, [a]), (7, [a, a]), (11, [a, a, a])],
         'orthorhombic I': lambda a: [(11, [a, 1.2 * a, 1.5 * a]), (14, bco(a, 1.2 * a, 1.5 * a)), (11, [1.5 * a, a, 1.2 * a])],
         'orthorhombic C': lambda a: [(9, [a, 1.3 * a, 1.5 * a]), (12, [a * math.hypot(.5, .65), 1.5 * a, a * math.hypot(.5, .65), 2 * math.degrees(math.atan2(.65, .5))]), (9, [1.3 * a, a, 1.5 * a])],
         'orthorhombic P': lambda a: [(8, list(x)) for x in itertools.permutations([a, 1.2 * a, 1.5 * a])] + [(12, [1.2 * a, a, 1.5 * a, 90.]), (14, [a, 1.5 * a, 1.2 * a, 90., 90., 90.])],
         'monoclinic P': lambda a: [(12, [a, 1.2 * a, 1.4 * a, 80.]), (12, [1.4 * a, 1.2 * a, a, 80.]), (12, [a, 1.2 * a, 1.4 * a, 100.]), (14, [a, 1.2 * a, 1.4 * a, 90., 80., 90.])],
         'tetragonal P': lambda a: [(6, [a, 1.2 * a]), (8, [a, a, 1.2 * a]), (8, [1.2 * a, a, a]), (12, [a, 1.2 * a, a, 90.])],
         'hexagonal': lambda a: [(4, [a, 1.6 * a]), (9, [a, r3 * a, 1.6 * a]), (14, [a, a, 1.6 * a, 90., 90., 120.])]}

def bco(a, b, c):
    """the primitive cell of a body-centred orthorhombic lattice: three equal edges at different angles"""
    v = R([[-a, b, c], [a, -b, c], [a, b, -c]]) / 2
    l = la.norm(v[0])
    return [l] * 3 + [math.degrees(math.acos(v[i].dot(v[j]) / l ** 2)) for i, j in ((1, 2), (0, 2), (0, 1))]


def c41_units(tier):
    q = tier == 'quick'
    us = []
    for s in (1.63,) if q else (1.02, 1.63, 2.2):
        for A, B in itertools.product(sorted(SAME2), repeat=2):
            us.append(dict(dim=2, pair=[A, B], size=s, tier=tier))
    for A, B, s in ((('cubic F', 'cubic I', .8), ('cubic P', 'tetragonal P', .95)) if q else (('cubic F', 'cubic I', .8), ('cubic P', 'tetragonal P', .95), ('cubic I', 'hexagonal', .87), ('tetragonal P', 'cubic P', 1.1), ('cubic P', 'cubic F', 1.62))):
        k = len(SAME3[A](1.)) + len(SAME3[B](1.)) - 1
        for n in range(k):
            us.append(dict(dim=3, pair=[A, B], size=s, only=n, tier=tier))
    for nm in sorted(SAME3):
        us.append(dict(dim=3, same=nm))
    for nm in sorted(SAME2):
        us.append(dict(dim=2, same=nm))
    us.sort(key=lambda x: 0 if x['dim'] == 3 and 'only' in x else 1)
    return us

def gram_set(E):
    """lengths of the short vectors, with multiplicity"""
    return sorted(round(float(np.sum((E.dot(v)) ** 2)), 7) for v in itertools.product((-2, -1, 0, 1, 2), repeat=len(E)))[:15]

def c41_explore(rec, u):
    f, d = mod('').lat_cor_hnf, mod('').lat_cor_direct
    dim = u['dim']
    Brav, Lattice = mod('').BravaisLattice, mod('').Lattice
    if 'same' in u:
        names = SAME3[u['same']](1.3) if dim == 3 else sum(SAME2[u['same']](1.3), [])
        ref = None
        for i, p in names:
            rec.ctx = dict(lattice=u['same'], latid=i, p=p)
            E = R(rec.call(Brav, i, p, dim=dim).base(), dtype=float)
            v = (abs(la.det(E)), gram_set(R(mod('crystallography').LLL(E), dtype=float)))
            ref = ref or v
            rec.require(abs(v[0] - ref[0]) < 1e-7 and np.allclose(v[1], ref[1], atol=1e-6), 'two names of one lattice give different lattices', got=v, want=ref)
            rec.require(rec.call(lambda a, b: a == b, Brav(i, p, dim=dim), rec.call(Lattice, E)), 'a Bravais lattice differs from the lattice with its base')
            rec.state((dim, i, str(p)))
            rec.trace(sample=rec.ctx, outcome=i)
        return
    A, B = u['pair']
    if dim == 2:
        (a, a_), (b, b_) = SAME2[A](1.), SAME2[B](u['size'])
        quick = u['tier'] == 'quick'
        pairs = [(x, b[0], True) for x in a] + [(a[0], y, True) for y in b[1:]] + [(x, b[0], False) for x in a_] + [(a[0], y, False) for y in b_]
        if not quick:
            pairs = [(x, y, x in a and y in b) for x in a + a_ for y in b + b_]
        for solver, g, kw in (('hnf', f, dict(nsol=3)), ('hnf', f, dict(dist='strain', nsol=2)), ('direct', d, dict(nsol=2)))[:3 if not quick or (len(A) + len(B)) % 2 else 2]:
            ref = None
            dets, clear = window(base(a[0][0], a[0][1], 2), base(b[0][0], b[0][1], 2))
            if solver == 'hnf' and not clear:
                continue
            for x, y, full in pairs:
                rec.ctx = dict(solver=solver, austenite=x, martensite=y, options=kw)
                with scripted('seed'):
                    sols = rec.call(g, x[0], x[1], y[0], y[1], dim=2, disp=0, **kw)
                n = kw['nsol'] if full else 1
                rec.require(len(sols) >= n, 'fewer solutions than asked for')
                got = [float(s['d']) for s in sols[:n]]
                ref = ref or got
                rec.require(np.allclose(got, ref[:n], rtol=1e-6, atol=1e-8), 'the solutions depend on the name of a lattice', got=got, want=ref[:n])
                rec.state((solver, str(kw), str(x), str(y)))
                rec.trace(sample=rec.ctx, outcome=tuple(round(v, 6) for v in got))
        return
    a, b = SAME3[A](1.), SAME3[B](u['size'])
    x, y = ([(x, b[0]) for x in a] + [(a[0], y) for y in b[1:]])[u['only']]
    E1, E2 = base(a[0][0], a[0][1], 3), base(b[0][0], b[0][1], 3)
    dets, clear = window(E1, E2)
    if not clear:
        return
    want, _ = O.best_classes(E1, E2, 1, 'Cauchy', dets, special(O.automorphisms(E1)), special(O.automorphisms(E2)))
    rec.ctx = dict(austenite=x, martensite=y)
    sols = rec.call(f, x[0], x[1], y[0], y[1], disp=0, dist='Cauchy', nsol=1)
    rec.require(abs(float(sols[0]['d']) - want[0]) <= 1e-6 * (1 + want[0]), 'the optimum depends on the name of a lattice', got=sols[0]['d'], want=want[0])
    rec.state((str(x), str(y)))
    rec.trace(sample=rec.ctx, outcome=round(want[0], 6))

register('C41', dict(quick='2D: 5 x 5 kinds of lattices under 3-4 names each, both searches, up to 3 solutions; 3D: 2 transformations under 8 + 8 names; the lattices themselves under all names',
                     thorough='2D: all pairs of names, 3 sizes; 3D: 5 transformations'), c41_units, c41_explore,
         ['a name whose standard orientation hides symmetries from the library is required to give the same first solution only'])
